#include "save.h"
enum { BYTE = 0x1400, UBYTE, SHORT, USHORT, INT, UINT, FLOAT, HALF = 0x140B, RED = 0x1903, RGB = 0x1907, RGBA = 0x1908, LUM = 0x1909, LUMA = 0x190A, BGR = 0x80E0, BGRA = 0x80E1, RG = 0x8227,
	RED_I = 0x8D94, RGB_I = 0x8D98, RGBA_I = 0x8D99, BGRA_I = 0x8D9B, RG_I = 0x8228 };
// How the data of a packed format is described: type, format of its components from the first one, sized format (and for UInt).
static const struct { TF f; uint32_t type, typeSize, format, sized, sizedUInt; } kPacked[] = {
	{TF::R4G4B4A4, 0x8033, 2, RGBA, 0x8056, 0}, {TF::B4G4R4A4, 0x8033, 2, BGRA, 0x8056, 0}, {TF::R5G6B5, 0x8363, 2, RGB, 0x8D62, 0}, {TF::B5G6R5, 0x8364, 2, RGB, 0x8D62, 0},
	{TF::R5G5B5A1, 0x8034, 2, RGBA, 0x8057, 0}, {TF::B5G5R5A1, 0x8034, 2, BGRA, 0x8057, 0}, {TF::A1R5G5B5, 0x8366, 2, BGRA, 0x8057, 0},
	{TF::A2R10G10B10, 0x8368, 4, BGRA, 0x8059, 0x906F}, {TF::A2B10G10R10, 0x8368, 4, RGBA, 0x8059, 0x906F}, {TF::B10G11R11_UFloat, 0x8C3B, 4, RGB, 0x8C3A, 0}, {TF::E5B9G9R9_UFloat, 0x8C3E, 4, RGB, 0x8C3D, 0}};
// Sized formats of 1 to 4 channels, by size and type.
static const uint32_t kSized[3][6][4] = {
	{{0x8229, 0x822B, 0x8051, 0x8058}, {0x8F94, 0x8F95, 0x8F96, 0x8F97}, {0x8232, 0x8238, 0x8D7D, 0x8D7C}, {0x8231, 0x8237, 0x8D8F, 0x8D8E}, {}, {}},
	{{0x822A, 0x822C, 0x8054, 0x805B}, {0x8F98, 0x8F99, 0x8F9A, 0x8F9B}, {0x8234, 0x823A, 0x8D77, 0x8D76}, {0x8233, 0x8239, 0x8D89, 0x8D88}, {}, {0x822D, 0x822F, 0x881B, 0x881A}},
	{{}, {}, {0x8236, 0x823C, 0x8D71, 0x8D70}, {0x8235, 0x823B, 0x8D83, 0x8D82}, {}, {0x822E, 0x8230, 0x8815, 0x8814}}};
struct Want { bool ok; uint32_t type, type2, typeSize, typeSize2, format, sized, base, base2; };
static Want wantFor(TF f, int t, bool srgb)
{
	Want w = {};
	for (auto& k : kPacked) if (k.f == f) { w = Want{true, k.type, k.type, k.typeSize, k.typeSize, t == 2 ? (k.format == BGRA ? (uint32_t)BGRA_I : (uint32_t)RGBA_I) : k.format, t == 2 ? k.sizedUInt : k.sized, k.format == BGRA ? (uint32_t)RGBA : k.format, k.format}; return w; }
	if (f == TF::B8G8R8A8) return Want{true, UBYTE, 0x8367, 1, 4, BGRA, srgb ? 0x8C43u : 0x8058u, RGBA, BGRA};
	if (f == TF::A8B8G8R8) return Want{true, 0x8035, 0x8035, 4, 4, RGBA, srgb ? 0x8C43u : 0x8058u, RGBA, RGBA};
	const FmtInfo* i = fmtInfo(f);
	if (f == TF::R4G4 || f == TF::A4R4G4B4 || f == TF::B8G8R8) return w;
	int n = i->n, b = i->bytes/n;
	static const uint32_t types[6][3] = {{UBYTE, USHORT, UINT}, {BYTE, SHORT, INT}, {UBYTE, USHORT, UINT}, {BYTE, SHORT, INT}, {}, {0, HALF, FLOAT}};
	static const uint32_t fmts[4] = {RED, RG, RGB, RGBA}, ifmts[4] = {RED_I, RG_I, RGB_I, RGBA_I}, bases[4] = {LUM, LUMA, RGB, RGBA};
	int s = b == 1 ? 0 : b == 2 ? 1 : 2;
	w = Want{true, types[t][s], types[t][s], (uint32_t)b, (uint32_t)b, t == 2 || t == 3 ? ifmts[n - 1] : fmts[n - 1], kSized[s][t][n - 1], fmts[n - 1], bases[n - 1]};
	if (srgb && f == TF::R8G8B8) w.sized = 0x8C41;
	if (srgb && f == TF::R8G8B8A8) w.sized = 0x8C43;
	return w;
}
SYM_ENTRY c09()
{
	int geometry = (int)sym_param("geometry", 0), fi = (int)sym_param("f", 9), ty = (int)sym_param("t", 0);
	const FmtInfo& fmt = kFormats[fi];
	Job j = pickJob(geometry);
	if (j.srgb && !fmtNativeSrgb((int)fmt.format, ty)) return;
	Texture t;
	sym_assert(makeTexture(t, j.kind, j.w, j.h, j.layers, j.levels, j.srgb, fmt.format, (TT)ty, j.alpha), "texture");
	std::vector<uint8_t> out(3, 1);
	Texture::SaveResult r = t.save(out, Texture::FileType::KTX);
	Want want = wantFor(fmt.format, ty, j.srgb);
	if (!want.ok) { sym_assert(r == Texture::SaveResult::Unsupported, "KTX saved for a format it cannot describe"); sym_cover("unsupported"); sym_cover("done"); return; }
	sym_assert(r == Texture::SaveResult::Success, "KTX saved");
	unsigned levels = t.mipLevelCount(), layers = j.kind != 2 ? j.layers : 0;
	static const uint8_t id[12] = {0xAB, 'K', 'T', 'X', ' ', '1', '1', 0xBB, '\r', '\n', 0x1A, '\n'};
	Reader f(out);
	sym_assert(f.is(id, 12), "KTX identifier");
	sym_assert(f.u32() == 0x04030201, "KTX endianness");
	uint32_t type = f.u32(), typeSize = f.u32();
	sym_assert((type == want.type && typeSize == want.typeSize) || (type == want.type2 && typeSize == want.typeSize2), "KTX glType and glTypeSize");
	sym_assert(f.u32() == want.format, "KTX glFormat");
	sym_assert(f.u32() == want.sized, "KTX glInternalFormat");
	uint32_t base = f.u32();
	sym_assert(base == want.base || base == want.base2, "KTX glBaseInternalFormat");
	sym_assert(f.u32() == j.w, "KTX width");
	sym_assert(f.u32() == (j.kind == 0 ? 0 : j.h), "KTX height");
	sym_assert(f.u32() == (j.kind == 2 ? j.layers : 0), "KTX depth");
	sym_assert(f.u32() == layers, "KTX array elements");
	sym_assert(f.u32() == (j.kind == 3 ? 6u : 1u), "KTX faces");
	sym_assert(f.u32() == levels, "KTX mip levels");
	uint32_t kv = f.u32();
	sym_assert(kv == 0, "KTX key and value data");
	for (unsigned m = 0; m < levels; m++)
	{
		unsigned w = t.width(m), h = t.height(m), row = w*fmt.bytes, pad = (4 - row%4)%4, n = t.depth(m), faces = t.faceCount();
		uint32_t face = (row + pad)*h;
		// The size of one face for cube maps that are not arrays.
		sym_assert(f.u32() == (j.kind == 3 && !layers ? face : face*n*faces), "KTX image size");
		int ok = 1;
		for (unsigned d = 0; d < n; d++) for (unsigned s = 0; s < faces; s++)
		{
			const uint8_t* p = (const uint8_t*)t.data((Texture::CubeFace)s, m, d);
			sym_assert(t.dataSize((Texture::CubeFace)s, m, d) == (size_t)row*h, "size of the surface");
			for (unsigned y = 0; y < h; y++) { ok = sym_and(ok, f.is(p + y*row, row)); ok = sym_and(ok, f.zeros(pad)); }
		}
		sym_assert(ok, "KTX contents");
	}
	sym_assert(f.end(), "KTX data at the end");
	sym_observe("size", out.size());
	sym_cover("done");
}
