// Textures for the container checks, and readers for the bytes of a saved file.
#pragma once
#include "common.h"
static Texture::Dimension dimOf(int k) { return k == 0 ? Texture::Dimension::Dim1D : k == 1 ? Texture::Dimension::Dim2D : k == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube; }
// A converted texture whose surfaces hold symbolic values.
static bool makeTexture(Texture& t, int kind, unsigned w, unsigned h, unsigned layers, unsigned levels, bool srgb, TF f, TT ty, Texture::Alpha alpha, int symbolic = 1)
{
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	if (!t.initialize(dimOf(kind), w, h, layers, levels, cs)) return false;
	unsigned n = 0;
	for (unsigned m = 0; m < t.mipLevelCount(); m++) for (unsigned d = 0; d < t.depth(m); d++) for (unsigned s = 0; s < t.faceCount(); s++)
	{
		Image i(IF::RGBAF, t.width(m), t.height(m), cs);
		for (unsigned y = 0; y < i.height(); y++) for (unsigned x = 0; x < i.width(); x++)
		{
			float* p = rgbaf(i, x, y);
			for (int c = 0; c < 4; c++) p[c] = (float)((n*7 + c*3) % 31)/31.0f;
			n++;
		}
		if (symbolic && m + 1 == t.mipLevelCount() && d + 1 == t.depth(m) && s + 1 == t.faceCount())
		{
			float v = sym_float("texel");
			sym_assume(sym_and(v >= -1, v <= 255));
			rgbaf(i, i.width() - 1, i.height() - 1)[0] = v;
		}
		if (!t.setImage(std::move(i), (Texture::CubeFace)s, m, d)) return false;
	}
	if (!symbolic) return t.convert(f, ty, Texture::Quality::Normal, alpha, Texture::ColorMask(), 1);
	return t.convert(f, ty, anyQuality(), alpha, anyMask(), 1);
}
struct Reader
{
	const std::vector<uint8_t>& v;
	size_t at;
	explicit Reader(const std::vector<uint8_t>& b) : v(b), at(0) {}
	bool has(size_t n) const { return at + n <= v.size(); }
	uint32_t u32() { if (!has(4)) { at = v.size() + 1; return 0xDEADBEEF; } uint32_t r; memcpy(&r, v.data() + at, 4); at += 4; return r; }
	uint64_t u64() { uint64_t a = u32(); return a | (uint64_t)u32() << 32; }
	// The next bytes are these.
	int is(const void* p, size_t n)
	{
		if (!has(n)) { at = v.size() + 1; return 0; }
		int ok = 1;
		const uint8_t* q = (const uint8_t*)p;
		for (size_t i = 0; i < n; i++) ok = sym_and(ok, v[at + i] == q[i]);
		at += n;
		return ok;
	}
	int zeros(size_t n)
	{
		if (!has(n)) { at = v.size() + 1; return 0; }
		int ok = 1;
		for (size_t i = 0; i < n; i++) ok = sym_and(ok, v[at + i] == 0);
		at += n;
		return ok;
	}
	bool end() const { return at == v.size(); }
};
static uint32_t fcc(char a, char b, char c, int d) { return (uint32_t)(uint8_t)a | (uint32_t)(uint8_t)b << 8 | (uint32_t)(uint8_t)c << 16 | (uint32_t)d << 24; }
struct Job { int kind; unsigned w, h, layers, levels; bool srgb; Texture::Alpha alpha; };
// geometry=1: sizes, kinds, layers and levels vary; otherwise kinds, color spaces and alpha modes.
static Job pickJob(int geometry)
{
	Job j;
	j.kind = (int)sym_param("kind", 0);
	if (geometry == 2)
	{
		// A few large ones.
		static const Job big[] = {{1, 1025, 3, 0, 2}, {0, 70000, 1, 0, 1}, {1, 1, 66000, 0, 1}, {1, 1, 1, 300, 1}, {2, 2, 1, 258, 9}, {3, 1, 1, 50, 1}, {1, 300, 40, 0, 9}, {3, 33, 33, 3, 6}, {0, 5, 1, 260, 3}, {0, 3000, 1, 0, 12}, {1, 2, 2100, 3, 12}, {2, 20, 3, 1100, 11}};
		j = big[sym_param("big", 0)];
		j.alpha = Texture::Alpha::Standard;
		return j;
	}
	if (geometry)
	{
		j.w = (unsigned)sym_pick("w", 1, (uint64_t)sym_param("w1", 5));
		j.h = j.kind == 0 ? 1 : j.kind == 3 ? j.w : (unsigned)sym_pick("h", 1, 3);
		j.layers = (unsigned)sym_pick("layers", j.kind == 2, j.kind == 2 ? 3 : 2);
		j.levels = (unsigned)sym_pick("levels", 1, 3);
		j.srgb = false; j.alpha = Texture::Alpha::Standard;
	}
	else
	{
		j.kind = (int)sym_pick("anyKind", 0, 3);
		j.w = 3; j.h = j.kind == 0 ? 1 : j.kind == 3 ? 3 : 2; j.layers = j.kind == 2 ? 2 : (unsigned)sym_pick("layers", 0, 1); j.levels = (unsigned)sym_pick("levels", 1, 2);
		j.srgb = sym_pick("srgb", 0, 1) != 0; j.alpha = (Texture::Alpha)sym_range("alpha", 0, 3);
	}
	return j;
}
