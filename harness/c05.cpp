#include "common.h"
static Texture::Dimension dimOf(int k) { return k == 0 ? Texture::Dimension::Dim1D : k == 1 ? Texture::Dimension::Dim2D : k == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube; }
static uint32_t maxU(uint32_t a, uint32_t b) { return (uint32_t)sym_ite(a < b, b, a); }
static uint32_t minU(uint32_t a, uint32_t b) { return (uint32_t)sym_ite(a < b, a, b); }
// 1 + the number of halvings until every axis is one.
static uint32_t levelsFor(uint32_t w, uint32_t h, uint32_t d, bool d3)
{
	uint32_t n = 1;
	for (int k = 1; k < 32; k++)
	{
		int more = sym_or(sym_or((w >> k) != 0, (h >> k) != 0), d3 ? (d >> k) != 0 : 0);
		n += (uint32_t)sym_ite(more, 1, 0);
	}
	return n;
}
// Level count for all 32-bit sizes.
SYM_ENTRY c05_levels()
{
	uint32_t w = (uint32_t)sym_bits("w", 32), h = (uint32_t)sym_bits("h", 32), d = (uint32_t)sym_bits("d", 32);
	int kind = (int)sym_param("kind", 1);
	sym_assume(sym_and(w > 0, h > 0));
	if (kind == 2) sym_assume(d > 0);
	uint32_t n = Texture::maxMipmapLevels(dimOf(kind), w, h, d);
	sym_observe("levels", n);
	sym_assert(n == levelsFor(w, h, d, kind == 2), "number of mip levels of a size");
	sym_cover("done");
}
// A texture of any width, height and requested level count: geometry of every level and range of every query.
SYM_ENTRY c05_texture()
{
	int kind = (int)sym_param("kind", 1);
	static const unsigned depths[] = {0, 1, 2, 3, 5, 8};
	uint32_t d = depths[sym_param("depth", 0)];
	uint32_t w = (uint32_t)sym_bits("w", 32), h = (uint32_t)sym_bits("h", 32), levels = (uint32_t)sym_bits("levels", 32);
	int srgb = (int)sym_param("srgb", 0);
	Texture t(dimOf(kind), w, h, d, levels, srgb ? ColorSpace::sRGB : ColorSpace::Linear);
	bool valid = sym_and(w > 0, h > 0) && (kind != 2 || d > 0);
	sym_assert(t.isValid() == valid, "validity for a size");
	uint32_t m = (uint32_t)sym_bits("m", 32), q = (uint32_t)sym_bits("q", 32);
	if (!valid)
	{
		sym_assert(t.mipLevelCount() == 0 && t.faceCount() == 0 && !t.isArray() && !t.imagesComplete() && !t.converted(), "invalid texture");
		sym_assert(t.width(m) == 0 && t.height(m) == 0 && t.depth(m) == 0, "size of an invalid texture");
		sym_assert(!t.getImage(m, q).isValid() && t.dataSize(m, q) == 0 && t.data(m, q) == nullptr, "contents of an invalid texture");
		sym_cover("invalid");
		return;
	}
	uint32_t n = minU(maxU(levels, 1), levelsFor(w, h, d, kind == 2));
	sym_assert(t.mipLevelCount() == n, "number of mip levels of the texture");
	sym_assert(t.faceCount() == (kind == 3 ? 6u : 1u), "faces");
	sym_assert(t.dimension() == dimOf(kind), "dimension");
	sym_assert(t.isArray() == (kind != 2 && d > 0), "array");
	sym_assert(t.colorSpace() == (srgb ? ColorSpace::sRGB : ColorSpace::Linear), "colour space");
	uint32_t sh = minU(m, 31);
	int in = m < n;
	uint32_t ed = kind == 2 ? maxU(d >> sh, 1) : maxU(d, 1);
	sym_assert(t.width(m) == (uint32_t)sym_ite(in, maxU(w >> sh, 1), 0), "width of a level");
	sym_assert(t.height(m) == (uint32_t)sym_ite(in, maxU(h >> sh, 1), 0), "height of a level");
	sym_assert(t.depth(m) == (uint32_t)sym_ite(in, ed, 0), "depth of a level");
	sym_assert(!t.getImage(0, 0).isValid() && !t.getImage(n - 1, 0).isValid(), "image that was never set");
	sym_assert(t.dataSize(m, q) == 0 && t.data(m, q) == nullptr, "data that was never converted");
	sym_assert(!t.converted() && !t.imagesComplete(), "state of a new texture");
	sym_cover("done");
}
// Filled textures: queries at any index, inside or outside, and images of any size.
SYM_ENTRY c05_queries()
{
	int kind = (int)sym_param("kind", 1);
	unsigned w = (unsigned)sym_pick("w", 1, (uint64_t)sym_param("w1", 3)), h = kind == 0 ? 1 : kind == 3 ? w : (unsigned)sym_pick("h", 1, 3), d = (unsigned)sym_pick("d", kind == 2, (uint64_t)sym_param("d1", 2));
	Texture t(dimOf(kind), w, h, d, (unsigned)sym_pick("levels", 1, 4));
	unsigned faces = kind == 3 ? 6 : 1;
	uint32_t m = (uint32_t)sym_bits("m", 32), q = (uint32_t)sym_bits("q", 32), face = (uint32_t)sym_pick("face", 0, 5);
	uint32_t depthOf[4], n = t.mipLevelCount();
	for (unsigned k = 0; k < n; k++)
	{
		depthOf[k] = t.depth(k);
		for (unsigned j = 0; j < t.depth(k); j++)
			for (unsigned f = 0; f < faces; f++)
			{
				Image img(IF::RGBAF, t.width(k), t.height(k));
				rgbaf(img, 0, 0)[0] = (float)(k*100 + j*10 + f);
				sym_assert(t.setImage(std::move(img), (Texture::CubeFace)f, k, j), "setImage");
			}
	}
	int inside = 0;
	for (unsigned k = 0; k < n; k++) inside = sym_or(inside, sym_and(m == k, q < depthOf[k]));
	bool in = inside != 0;
	bool faceOk = faces == 6 || face == 0;
	const Image& i1 = t.getImage(m, q);
	const Image& i2 = t.getImage((Texture::CubeFace)face, m, q);
	sym_assert(i1.isValid() == (in && faces == 1), "image by level and layer");
	sym_assert(i2.isValid() == (in && faceOk), "image by face, level and layer");
	if (in && faceOk)
	{
		sym_assert(i2.width() == t.width(m) && i2.height() == t.height(m), "size of an image");
		sym_assert(((const float*)i2.scanline(0))[0] == (float)(m*100 + q*10 + face), "image of another surface");
		sym_cover("inside");
	}
	// Setting an image is accepted at exactly an existing surface of its size.
	unsigned iw = (unsigned)sym_pick("iw", 1, 2), ih = (unsigned)sym_pick("ih", 1, 2);
	Image img(IF::RGBAF, iw, ih);
	Texture c(t);
	bool fits = in && faceOk && iw == t.width(m) && ih == t.height(m);
	sym_assert(c.setImage(img, (Texture::CubeFace)face, m, q) == fits, "setImage by face");
	Texture c2(t);
	sym_assert(c2.setImage(img, m, q) == (in && faces == 1 && iw == t.width(m) && ih == t.height(m)), "setImage");
	sym_assert(t.convert(TF::R8, TT::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1), "convert");
	sym_assert((t.dataSize(m, q) != 0) == (in && faces == 1) && (t.data(m, q) != nullptr) == (in && faces == 1), "data by level and layer");
	sym_assert((t.dataSize((Texture::CubeFace)face, m, q) != 0) == (in && faceOk) && (t.data((Texture::CubeFace)face, m, q) != nullptr) == (in && faceOk), "data by face");
	if (in && faceOk) sym_assert(t.dataSize((Texture::CubeFace)face, m, q) == (size_t)t.width(m)*t.height(m), "size of the data");
	sym_cover("done");
}
