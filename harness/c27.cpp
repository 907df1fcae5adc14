// Containers of block-compressed textures, and the queries about these formats.
#include "save.h"
#include "encmodel.h"
#include "blocks.h"
#include <sstream>
static uint32_t glFor(int k, int t, bool srgb)
{
	if (isAstc(k)) return (srgb ? 0x93D0 : 0x93B0) + (uint32_t)(k - ASTC);
	switch (k)
	{
		case 0: return srgb ? 0x8C4C : 0x83F0;
		case BC1A: return srgb ? 0x8C4D : 0x83F1;
		case BC2: return srgb ? 0x8C4E : 0x83F2;
		case BC3: return srgb ? 0x8C4F : 0x83F3;
		case BC4: return t == 1 ? 0x8DBC : 0x8DBB;
		case BC5: return t == 1 ? 0x8DBE : 0x8DBD;
		case BC6: return t == 5 ? 0x8E8E : 0x8E8F;
		case BC7: return srgb ? 0x8E8D : 0x8E8C;
		case ETC1: return 0x8D64;
		case ETC2: return srgb ? 0x9275 : 0x9274;
		case ETC2A1: return srgb ? 0x9277 : 0x9276;
		case ETC2A8: return srgb ? 0x9279 : 0x9278;
		case EAC1: return t == 1 ? 0x9271 : 0x9270;
		case EAC2: return t == 1 ? 0x9273 : 0x9272;
		// 2bpp RGB, 2bpp RGBA, 4bpp RGB, 4bpp RGBA, then version 2 with 2bpp and 4bpp.
		case PVRTC: return srgb ? 0x8A54 : 0x8C01;
		case PVRTC + 1: return srgb ? 0x8A56 : 0x8C03;
		case PVRTC + 2: return srgb ? 0x8A55 : 0x8C00;
		case PVRTC + 3: return srgb ? 0x8A57 : 0x8C02;
		case PVRTC + 4: return srgb ? 0x93F0 : 0x9137;
		default: return srgb ? 0x93F1 : 0x9138;
	}
}
static uint64_t pvrFor(int k, int pre)
{
	static const uint8_t n[ASTC] = {7, 7, 9, 11, 12, 13, 14, 15, 6, 22, 24, 23, 25, 26};
	if (k == BC2 || k == BC3) return (uint64_t)sym_ite(pre, n[k] - 1, n[k]);
	return k < ASTC ? n[k] : k < PVRTC ? 27 + k - ASTC : k - PVRTC;
}
// Every query, for every format, type and container.
SYM_ENTRY c27_queries()
{
	int k = (int)sym_pick("k", 0, N_BLOCKS - 1);
	uint32_t t = (uint32_t)sym_bits("type", 32), ft = (uint32_t)sym_bits("container", 32);
	TF f = (TF)(kFirst + k);
	bool v = Texture::isFormatValid(f, (TT)t), vf = Texture::isFormatValid(f, (TT)t, (Texture::FileType)ft), srgb = Texture::hasNativeSRGB(f, (TT)t);
	int want = 0, dds = 0;
	for (int i = 0; i < 6; i++)
	{
		want = sym_or(want, sym_and(t == (uint32_t)i, validType(k, i)));
		dds = sym_or(dds, sym_and(t == (uint32_t)i, validType(k, i) && dxgiFor(k, i, false) != 0));
	}
	sym_assert(v == (want != 0), "validity of a format and type");
	// DDS (1) takes what DXGI has, KTX (2) and PVR (3) everything.
	int wantF = sym_or(sym_and(ft == 1, dds), sym_and(sym_or(ft == 2, ft == 3), want));
	sym_assert(vf == (wantF != 0), "validity of a format and type for a container");
	sym_assert(srgb == (sym_and(t == 0, nativeSrgb(k, 0)) != 0), "native sRGB support");
	sym_assert(Texture::hasAlpha(f) == (channels(k) == 4), "hasAlpha");
	// PVRTC needs two blocks in each direction (version 2 not always); the others one.
	bool pvr = k >= PVRTC, two = pvr && k < PVRTC + 4;
	unsigned bw = Texture::blockWidth(f), bh = Texture::blockHeight(f), mw = Texture::minWidth(f), mh = Texture::minHeight(f);
	sym_assert(pvr ? bw == (k < PVRTC + 2 || k == PVRTC + 4 ? 8u : 4u) && bh == 4 : true, "PVRTC block");
	sym_assert(mw == (two ? 2*bw : bw) || (pvr && !two && mw == 2*bw), "minimum width");
	sym_assert(mh == (two ? 2*bh : bh) || (pvr && !two && mh == 2*bh), "minimum height");
	sym_cover("done");
}
// Conversion accepts what the queries say.
SYM_ENTRY c27_convert()
{
	int k = (int)sym_param("k", 0), t = (int)sym_pick("type", 0, 6), kind = (int)sym_pick("kind", 0, 3);
	bool srgb = sym_pick("srgb", 0, 1) != 0;
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned w = 5, h = kind == 0 ? 1 : kind == 3 ? 5 : 3;
	Texture x(dimOf(kind), w, h, kind == 2 ? 2 : 0, 1, cs);
	for (unsigned d = 0; d < x.depth(); d++) for (unsigned s = 0; s < x.faceCount(); s++)
		sym_assert(x.setImage(Image(IF::RGBAF, w, h, cs), (Texture::CubeFace)s, 0, d), "setImage");
	bool want = validType(k, t) && (!srgb || nativeSrgb(k, t));
	sym_assert(x.convert((TF)(kFirst + k), (TT)t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1) == want, "conversion disagrees with the format queries");
	sym_assert(x.converted() == want, "converted state");
	std::stringstream s;
	if (!want)
	{
		sym_assert(x.save(s, Texture::FileType::KTX) == Texture::SaveResult::Invalid, "saving without converted data");
		sym_cover("refused");
	}
	else
	{
		sym_assert(x.save(s, Texture::FileType::DDS) == (dxgiFor(k, t, srgb) ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported), "saving disagrees with the format queries");
		sym_cover("converted");
	}
}
static void checkDds(const Texture& t, const Job& j, int k, int ty)
{
	std::vector<uint8_t> out(3, 1);
	Texture::SaveResult r = const_cast<Texture&>(t).save(out, Texture::FileType::DDS);
	uint32_t want = dxgiFor(k, ty, j.srgb);
	if (!want) { sym_assert(r == Texture::SaveResult::Unsupported, "DDS saved for a format it cannot describe"); return; }
	sym_assert(r == Texture::SaveResult::Success, "DDS saved");
	unsigned levels = t.mipLevelCount(), elements = j.layers && j.kind != 2 ? j.layers : 1;
	Reader f(out);
	sym_assert(f.u32() == fcc('D', 'D', 'S', ' ') && f.u32() == 124, "DDS magic and header size");
	uint32_t flags = f.u32();
	sym_assert((flags & 0x1007) == 0x1007 && ((flags & 0x20000) != 0 || levels == 1) && ((flags & 0x800000) != 0) == (j.kind == 2), "DDS header flags");
	sym_assert((flags & ~(uint32_t)(0x1007 | 0x20000 | 0x800000 | 0x80008)) == 0 && (flags & 0x80008) != 0x80008, "DDS header flags that do not apply");
	sym_assert(f.u32() == j.h, "DDS height");
	sym_assert(f.u32() == j.w, "DDS width");
	// One row of blocks, or the whole of the first level.
	uint32_t bytes = k == 0 || k == BC1A || k == BC4 ? 8 : 16, row = (j.w + 3)/4*bytes;
	sym_assert(f.u32() == ((flags & 8) ? row : (flags & 0x80000) ? row*((j.h + 3)/4) : 0), "DDS pitch");
	uint32_t depth = f.u32();
	sym_assert(j.kind == 2 ? depth == j.layers : depth <= 1, "DDS depth");
	sym_assert(f.u32() == levels, "DDS mip levels");
	sym_assert(f.zeros(44), "DDS reserved fields");
	sym_assert(f.u32() == 32 && f.u32() == 4 && f.u32() == fcc('D', 'X', '1', '0') && f.zeros(20), "DDS pixel format");
	uint32_t caps = f.u32(), caps2 = f.u32();
	bool complex = levels > 1 || j.kind >= 2 || j.layers > 0;
	sym_assert(caps == (0x1000u | (levels > 1 ? 0x400000u : 0) | (complex ? 8u : 0)), "DDS caps");
	sym_assert(caps2 == (j.kind == 3 ? 0xFE00u : j.kind == 2 ? 0x200000u : 0), "DDS caps2");
	sym_assert(f.zeros(12), "DDS unused caps");
	sym_assert(f.u32() == want, "DXGI format");
	sym_assert(f.u32() == (j.kind == 0 ? 2u : j.kind == 2 ? 4u : 3u), "DDS resource dimension");
	sym_assert(f.u32() == (j.kind == 3 ? 4u : 0), "DDS cube flag");
	sym_assert(f.u32() == elements, "DDS array size");
	uint32_t mode = channels(k) == 4 ? (uint32_t)sym_ite(j.alpha == Texture::Alpha::None, 3, sym_ite(j.alpha == Texture::Alpha::Standard, 1, sym_ite(j.alpha == Texture::Alpha::PreMultiplied, 2, 4))) : 3;
	sym_assert(f.u32() == mode, "DDS alpha mode");
	int ok = 1;
	for (unsigned e = 0; e < elements; e++) for (unsigned s = 0; s < t.faceCount(); s++) for (unsigned m = 0; m < levels; m++) for (unsigned z = 0; z < (j.kind == 2 ? t.depth(m) : 1); z++)
		ok = sym_and(ok, f.is(t.data((Texture::CubeFace)s, m, e + z), t.dataSize((Texture::CubeFace)s, m, e + z)));
	sym_assert(ok, "DDS contents");
	sym_assert(f.end(), "DDS data at the end");
}
static void checkKtx(const Texture& t, const Job& j, int k, int ty)
{
	std::vector<uint8_t> out(3, 1);
	sym_assert(const_cast<Texture&>(t).save(out, Texture::FileType::KTX) == Texture::SaveResult::Success, "KTX saved");
	unsigned levels = t.mipLevelCount(), layers = j.kind != 2 ? j.layers : 0;
	static const uint8_t id[12] = {0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, '\r', '\n', 0x1A, '\n'};
	static const uint32_t base[5] = {0, 0x1903, 0x8227, 0x1907, 0x1908};
	Reader f(out);
	sym_assert(f.is(id, 12), "KTX identifier");
	sym_assert(f.u32() == 0x04030201, "KTX endianness");
	sym_assert(f.u32() == 0 && f.u32() == 1 && f.u32() == 0, "KTX type of compressed data");
	sym_assert(f.u32() == glFor(k, ty, j.srgb), "KTX glInternalFormat");
	sym_assert(f.u32() == base[channels(k)], "KTX glBaseInternalFormat");
	sym_assert(f.u32() == j.w, "KTX width");
	sym_assert(f.u32() == (j.kind == 0 ? 0 : j.h), "KTX height");
	sym_assert(f.u32() == (j.kind == 2 ? j.layers : 0), "KTX depth");
	sym_assert(f.u32() == layers, "KTX array elements");
	sym_assert(f.u32() == (j.kind == 3 ? 6u : 1u), "KTX faces");
	sym_assert(f.u32() == levels, "KTX mip levels");
	sym_assert(f.u32() == 0, "KTX key and value data");
	for (unsigned m = 0; m < levels; m++)
	{
		unsigned n = t.depth(m), faces = t.faceCount();
		uint32_t face = (uint32_t)t.dataSize(Texture::CubeFace::PosX, m, 0);
		sym_assert(f.u32() == (j.kind == 3 && !layers ? face : face*n*faces), "KTX image size");
		int ok = 1;
		for (unsigned d = 0; d < n; d++) for (unsigned s = 0; s < faces; s++)
			ok = sym_and(ok, f.is(t.data((Texture::CubeFace)s, m, d), t.dataSize((Texture::CubeFace)s, m, d)));
		sym_assert(ok, "KTX contents");
	}
	sym_assert(f.end(), "KTX data at the end");
}
static void checkPvr(const Texture& t, const Job& j, int k, int ty)
{
	std::vector<uint8_t> out(3, 1);
	sym_assert(const_cast<Texture&>(t).save(out, Texture::FileType::PVR) == Texture::SaveResult::Success, "PVR saved");
	unsigned levels = t.mipLevelCount(), layers = j.kind != 2 && j.layers ? j.layers : 1;
	Reader f(out);
	int pre = j.alpha == Texture::Alpha::PreMultiplied;
	sym_assert(f.u32() == fcc('P', 'V', 'R', 3), "PVR version");
	sym_assert(f.u32() == (uint32_t)sym_ite(pre, 2, 0), "PVR flags");
	sym_assert(f.u64() == pvrFor(k, pre), "PVR pixel format");
	sym_assert(f.u32() == (j.srgb ? 1u : 0), "PVR color space");
	// Unsigned and signed normalized bytes; EAC has 11 bits, that is shorts; floating point, unsigned or not.
	uint32_t ct = f.u32();
	sym_assert(ct == (ty == 5 ? 12u : ty == 4 ? 13u : (k == EAC1 || k == EAC2 ? 4u : 0) + (uint32_t)ty), "PVR channel type");
	sym_assert(f.u32() == j.h, "PVR height");
	sym_assert(f.u32() == j.w, "PVR width");
	sym_assert(f.u32() == (j.kind == 2 ? j.layers : 1), "PVR depth");
	sym_assert(f.u32() == layers, "PVR surfaces");
	sym_assert(f.u32() == (j.kind == 3 ? 6u : 1u), "PVR faces");
	sym_assert(f.u32() == levels, "PVR mip levels");
	uint32_t meta = f.u32();
	size_t end = f.at + meta;
	sym_assert(meta <= 64 && end <= out.size(), "PVR metadata size");
	int arr = 0, dim1 = 0, bc1 = 0, bc1a = 0;
	while (f.at < end)
	{
		uint32_t dev = f.u32(), key = f.u32(), n = f.u32();
		sym_assert(dev == fcc('C', 'T', 'F', 'S') && n == 4 && f.u32() == 0, "PVR metadata block");
		if (key == fcc('A', 'R', 'R', 'Y')) arr++;
		else if (key == fcc('D', 'I', 'M', '1')) dim1++;
		else if (key == fcc('B', 'C', '1', 'A')) bc1a++;
		else if (key == fcc('B', 'C', '1', 0)) bc1++;
		else sym_assert(0, "PVR metadata key");
	}
	sym_assert(f.at == end, "PVR metadata blocks");
	sym_assert(arr == (j.kind != 2 && j.layers > 0) && dim1 == (j.kind == 0) && bc1 == (k == 0) && bc1a == (k == BC1A), "PVR metadata");
	int ok = 1;
	for (unsigned m = 0; m < levels; m++) for (unsigned d = 0; d < t.depth(m); d++) for (unsigned s = 0; s < t.faceCount(); s++)
		ok = sym_and(ok, f.is(t.data((Texture::CubeFace)s, m, d), t.dataSize((Texture::CubeFace)s, m, d)));
	sym_assert(ok, "PVR contents");
	sym_assert(f.end(), "PVR data at the end");
}
SYM_ENTRY c27()
{
	int k = (int)sym_param("k", 0), ty = (int)sym_param("t", 0), geometry = (int)sym_param("geometry", 0);
	Job j = pickJob(geometry);
	if (geometry == 1)
	{
		// One more or less than whole blocks.
		static const unsigned ws[4] = {1, 4, 5, 13}, hs[3] = {1, 8, 9};
		j.w = ws[sym_pick("wi", 0, 3)];
		j.h = j.kind == 0 ? 1 : j.kind == 3 ? j.w : hs[sym_pick("hi", 0, 2)];
	}
	if (j.srgb && !nativeSrgb(k, ty)) return;
	enc_pixel = 0;
	enc_channel = 0;
	Texture t;
	sym_assert(makeTexture(t, j.kind, j.w, j.h, j.layers, j.levels, j.srgb, (TF)(kFirst + k), (TT)ty, j.alpha), "texture");
	int c = (int)sym_param("container", 0);
	if (c == 0) checkDds(t, j, k, ty);
	else if (c == 1) checkKtx(t, j, k, ty);
	else checkPvr(t, j, k, ty);
	sym_cover("done");
}
