#include "common.h"
#include <sstream>
#include <string>
// Published block dimensions and sizes of the compressed formats, in the order of Texture::Format.
static const struct { int w, h, bytes; } kBlocks[] = {
	{4,4,8},{4,4,8},{4,4,16},{4,4,16},{4,4,8},{4,4,16},{4,4,16},{4,4,16}, // BC1..BC7
	{4,4,8},{4,4,8},{4,4,8},{4,4,16},{4,4,8},{4,4,16}, // ETC, EAC
	{4,4,16},{5,4,16},{5,5,16},{6,5,16},{6,6,16},{8,5,16},{8,6,16},{8,8,16},{10,5,16},{10,6,16},{10,8,16},{10,10,16},{12,10,16},{12,12,16},
	{8,4,8},{8,4,8},{4,4,8},{4,4,8},{8,4,8},{4,4,8}}; // PVRTC
static const int kFirstBlock = (int)TF::BC1_RGB, kLast = (int)TF::PVRTC2_RGBA_4BPP;
// The queries agree with the documented layouts, for every value of the parameters.
SYM_ENTRY c04_queries()
{
	uint32_t f = (uint32_t)sym_bits("format", 32);
	// Formats that exist one by one, all others at once.
	if (f <= (uint32_t)kLast) f = (uint32_t)sym_concretize(f);
	uint32_t t = (uint32_t)sym_bits("type", 32), ft = (uint32_t)sym_bits("fileType", 32);
	bool v = Texture::isFormatValid((TF)f, (TT)t);
	bool vf = Texture::isFormatValid((TF)f, (TT)t, (Texture::FileType)ft);
	bool srgb = Texture::hasNativeSRGB((TF)f, (TT)t);
	int inRange = sym_and(f >= 1, sym_and(f < (uint32_t)kFirstBlock, t <= 5));
	sym_assert(sym_or(!v, inRange), "a format or type that does not exist is valid");
	int want = 0;
	for (int i = 0; i < kFormatCount; i++)
		want = sym_or(want, sym_and(f == (uint32_t)kFormats[i].format, sym_and(t <= 5, (kFormats[i].types >> (t & 31)) & 1)));
	sym_assert(v == (want != 0), "validity of a format and type");
	sym_assert(sym_or(!vf, sym_and(v, sym_and(ft >= 1, ft <= 3))), "valid for a container without being valid");
	int wantS = 0;
	for (int i = 0; i < kFormatCount; i++) wantS = sym_or(wantS, sym_and(f == (uint32_t)kFormats[i].format, fmtNativeSrgb((int)kFormats[i].format, 0)));
	sym_assert(sym_or(f >= (uint32_t)kFirstBlock, srgb == (sym_and(wantS, t == 0) != 0)), "native sRGB support");
	sym_cover("done");
}
SYM_ENTRY c04_blocks()
{
	int f = (int)sym_pick("format", 1, (uint64_t)kLast);
	int w = 1, h = 1, b = 0, alpha = 0;
	if (f >= kFirstBlock) { w = kBlocks[f - kFirstBlock].w; h = kBlocks[f - kFirstBlock].h; b = kBlocks[f - kFirstBlock].bytes; }
	else
	{
		const FmtInfo* i = fmtInfo((TF)f);
		b = i->bytes;
		for (int c = 0; c < i->n; c++) alpha |= i->ch[c].src == 3;
		sym_assert(Texture::hasAlpha((TF)f) == (alpha != 0), "hasAlpha");
	}
	sym_assert(Texture::blockWidth((TF)f) == (unsigned)w, "block width");
	sym_assert(Texture::blockHeight((TF)f) == (unsigned)h, "block height");
	sym_assert(Texture::blockSize((TF)f) == (unsigned)b, "block size");
	if (f < kFirstBlock) sym_assert(Texture::minWidth((TF)f) == 1 && Texture::minHeight((TF)f) == 1, "minimum size");
	sym_cover("done");
}
// Conversion and saving do what the queries say.
SYM_ENTRY c04_convert()
{
	int f = (int)sym_param("f", 0);
	int t = (int)sym_pick("type", 0, 6);
	int srgb = (int)sym_pick("srgb", 0, 1);
	int kind = (int)sym_pick("kind", 0, 3);
	unsigned layers = (unsigned)sym_pick("layers", 0, 1)*2;
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Texture::Dimension dim = kind == 0 ? Texture::Dimension::Dim1D : kind == 1 ? Texture::Dimension::Dim2D : kind == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube;
	if (kind == 2) sym_assume(layers > 0);
	unsigned w = 3, h = kind == 0 ? 1 : kind == 3 ? 3 : 2;
	Texture tex(dim, w, h, layers, 1, cs);
	for (unsigned d = 0; d < tex.depth(); d++)
		for (unsigned face = 0; face < tex.faceCount(); face++)
			sym_assert(tex.setImage(Image(IF::RGBAF, w, h, cs), (Texture::CubeFace)face, 0, d), "setImage");
	bool want = Texture::isFormatValid((TF)f, (TT)t) && (!srgb || Texture::hasNativeSRGB((TF)f, (TT)t));
	bool got = tex.convert((TF)f, (TT)t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
	sym_assert(got == want, "conversion disagrees with the format queries");
	sym_assert(tex.converted() == want, "converted state");
	if (got)
	{
		for (unsigned d = 0; d < tex.depth(); d++)
			for (unsigned face = 0; face < tex.faceCount(); face++)
			{
				unsigned bw = Texture::blockWidth((TF)f), bh = Texture::blockHeight((TF)f);
				sym_assert(tex.dataSize((Texture::CubeFace)face, 0, d) == (size_t)((w + bw - 1)/bw)*((h + bh - 1)/bh)*Texture::blockSize((TF)f), "surface size");
			}
		for (int ft = 1; ft <= 3; ft++)
		{
			bool vf = Texture::isFormatValid((TF)f, (TT)t, (Texture::FileType)ft);
			std::stringstream s;
			Texture::SaveResult r = tex.save(s, (Texture::FileType)ft);
			sym_assert(r == (vf ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported), "saving disagrees with the format queries");
		}
		sym_cover("saved");
	}
	else
	{
		std::stringstream s;
		sym_assert(tex.save(s, Texture::FileType::DDS) == Texture::SaveResult::Invalid, "saving without converted data");
	}
	sym_cover("done");
}

// The size of every converted surface, for other sizes, levels and layers.
SYM_ENTRY c04_sizes()
{
	int f = (int)sym_param("f", 0);
	const unsigned sizes[][2] = {{1, 1}, {65, 3}, {300, 2}, {1, 37}, {16, 16}, {5, 7}};
	int k = (int)sym_pick("size", 0, 5);
	int kind = (int)sym_pick("kind", 0, 3);
	int srgb = (int)sym_pick("srgb", 0, 1);
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned w = sizes[k][0], h = kind == 0 ? 1 : kind == 3 ? w : sizes[k][1];
	if (kind == 3 && w > 16)
		w = h = 17;
	unsigned layers = kind == 1 ? 0 : kind == 2 ? 5 : 2;
	Texture::Dimension dim = kind == 0 ? Texture::Dimension::Dim1D : kind == 1 ? Texture::Dimension::Dim2D : kind == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube;
	Image base(IF::RGBAF, w, h, cs);
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++)
			base.setPixel(x, y, ColorRGBAd{0.25, 0.5, 1.0, 0.75});
	int t0 = (int)sym_pick("type", 0, 3)*2;
	for (int t = t0; t < t0 + 2 && t <= 6; t++)
	{
		Texture tex(dim, w, h, layers, 3, cs);
		for (unsigned d = 0; d < tex.depth(); d++)
			for (unsigned face = 0; face < tex.faceCount(); face++)
				sym_assert(tex.setImage(base, (Texture::CubeFace)face, 0, d), "setImage");
		sym_assert(tex.generateMipmaps(Image::ResizeFilter::Box, 3), "generating mipmaps");
		bool want = Texture::isFormatValid((TF)f, (TT)t) && (!srgb || Texture::hasNativeSRGB((TF)f, (TT)t));
		sym_assert(tex.convert((TF)f, (TT)t, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1) == want, "conversion disagrees with the format queries");
		if (!want)
			continue;
		unsigned bw = Texture::blockWidth((TF)f), bh = Texture::blockHeight((TF)f);
		size_t total = 0;
		for (unsigned m = 0; m < tex.mipLevelCount(); m++)
			for (unsigned d = 0; d < tex.depth(m); d++)
				for (unsigned face = 0; face < tex.faceCount(); face++)
				{
					size_t want = (size_t)((tex.width(m) + bw - 1)/bw)*((tex.height(m) + bh - 1)/bh)*Texture::blockSize((TF)f);
					sym_assert(tex.dataSize((Texture::CubeFace)face, m, d) == want, "surface size");
					const unsigned char* p = (const unsigned char*)tex.data((Texture::CubeFace)face, m, d);
					sym_assert(p != nullptr, "surface data");
					// Every byte is there.
					unsigned sum = p[0] + p[want - 1];
					sym_observe("ends", sum);
					total += want;
				}
		for (int ft = 1; ft <= 3; ft++)
		{
			std::stringstream s;
			if (tex.save(s, (Texture::FileType)ft) == Texture::SaveResult::Success)
			{
				sym_assert(Texture::isFormatValid((TF)f, (TT)t, (Texture::FileType)ft), "saved an invalid format");
				sym_assert(s.str().size() > total, "file size");
			}
			else
				sym_assert(!Texture::isFormatValid((TF)f, (TT)t, (Texture::FileType)ft), "saving failed for a valid format");
		}
		sym_cover("sizes");
	}
	sym_cover("done");
}
