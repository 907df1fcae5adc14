#include "pixel.h"
// Two pixels: one with a channel of every value, one fixed.
static void fill(const PixInfo& f, Image& i, int which, double lo, double hi)
{
	for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(0))[b] = ((const uint8_t[16]){0x10, 0x32, 0x54, 0x3e, 0x40, 0x51, 0x31, 0x3f, 0x12, 0x34, 0x56, 0x3f, 0x31, 0x41, 0x59, 0x3f})[b];
	if (f.f == IF::RGB5) ((uint8_t*)i.scanline(0))[1] &= 0x7f;
	fillOne(f, i, 1, 0, which, lo, hi);
}
static void alphaKept(const PixInfo& f, const Image& a, const Image& b, unsigned x)
{
	for (int k = 0; k < f.n; k++) if (f.ch[k].src == 3) sym_assert(pixCode(f, k, a.scanline(0), x) == pixCode(f, k, b.scanline(0), x), "alpha kept");
}
SYM_ENTRY c17_space()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	bool from = sym_pick("from", 0, 1) != 0, to = sym_pick("to", 0, 1) != 0;
	Image i(f.f, 2, 1, from ? ColorSpace::sRGB : ColorSpace::Linear);
	fill(f, i, (int)sym_pick("which", 0, f.n - 1), -0.5, 2);
	Image old(i);
	sym_assert(i.changeColorSpace(to ? ColorSpace::sRGB : ColorSpace::Linear), "changed");
	if (from == to) { sym_assert(same(snap(i), snap(old)), "already in this space"); sym_cover("same"); return; }
	sym_assert(i.colorSpace() == (to ? ColorSpace::sRGB : ColorSpace::Linear) && i.format() == f.f && i.width() == 2 && i.height() == 1, "recorded");
	for (unsigned x = 0; x < 2; x++)
	{
		double v[4]; pixColor(f, old.scanline(0), x, v);
		for (int k = 0; k < f.n; k++) if (f.ch[k].src != 3) { double d = v[f.ch[k].src]; sym_assert(pixClose(f, k, pixCode(f, k, i.scanline(0), x), to ? refToSRGB(d) : refToLinear(d)), "transfer function"); }
		alphaKept(f, i, old, x);
	}
	sym_cover("done");
}
SYM_ENTRY c17_gray()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	bool srgb = sym_pick("srgb", 0, 1) != 0;
	Image i(f.f, 2, 1, srgb ? ColorSpace::sRGB : ColorSpace::Linear);
	fill(f, i, (int)sym_pick("which", 0, f.n - 1), srgb ? 0 : -0.5, 2);
	Image old(i);
	sym_assert(i.grayscale(), "grayscale");
	sym_assert(i.colorSpace() == old.colorSpace() && i.format() == f.f && i.width() == 2 && i.height() == 1, "format kept");
	for (unsigned x = 0; x < 2; x++)
	{
		double v[4]; pixColor(f, old.scanline(0), x, v);
		double g = srgb ? refToSRGB(refGray(refToLinear(v[0]), refToLinear(v[1]), refToLinear(v[2]))) : refGray(v[0], v[1], v[2]);
		for (int k = 0; k < f.n; k++) if (f.ch[k].src != 3) sym_assert(pixClose(f, k, pixCode(f, k, i.scanline(0), x), g), "luminance");
		alphaKept(f, i, old, x);
	}
	sym_cover("done");
}
SYM_ENTRY c17_premultiply()
{
	const PixInfo& f = kPix[sym_param("f", 8)];
	bool srgb = sym_pick("srgb", 0, 1) != 0;
	Image i(f.f, 2, 1, srgb ? ColorSpace::sRGB : ColorSpace::Linear);
	fill(f, i, (int)sym_pick("which", 0, f.n - 1), srgb ? 0 : -0.5, 2);
	Image old(i);
	sym_assert(i.preMultiplyAlpha(), "pre-multiply");
	if (f.n < 4) { sym_assert(same(snap(i), snap(old)), "no alpha to multiply by"); sym_cover("done"); return; }
	sym_assert(i.colorSpace() == old.colorSpace() && i.format() == f.f && i.width() == 2 && i.height() == 1, "format kept");
	for (unsigned x = 0; x < 2; x++)
	{
		double v[4]; pixColor(f, old.scanline(0), x, v);
		for (int k = 0; k < 3; k++) { double d = v[f.ch[k].src]; sym_assert(pixClose(f, k, pixCode(f, k, i.scanline(0), x), srgb ? refToSRGB(refToLinear(d)*v[3]) : d*v[3]), "colour times alpha"); }
		alphaKept(f, i, old, x);
	}
	sym_cover("done");
}
// The same luminance when a colour is written to an image of one channel.
SYM_ENTRY c17_write()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	bool srgb = sym_pick("srgb", 0, 1) != 0;
	Image i(f.f, 2, 1, srgb ? ColorSpace::sRGB : ColorSpace::Linear);
	int which = (int)sym_pick("which", 0, 2), other = (int)sym_pick("other", 0, 3);
	static const double o[4][2] = {{0.01, 0.75}, {0.75, 0.01}, {1.75, 0.4}, {0.3, 3.5}};
	double v[3];
	for (int k = 0, n = 0; k < 3; k++) v[k] = k == which ? (double)(uint32_t)sym_bits("step", 10)*(srgb ? 2.0 : 2.5)/1024.0 - (srgb ? 0 : 0.5) : o[other][n++];
	sym_assert(i.setPixel(1, 0, {v[0], v[1], v[2], 0.5}, true), "written");
	double g = srgb ? refToSRGB(refGray(refToLinear(v[0]), refToLinear(v[1]), refToLinear(v[2]))) : refGray(v[0], v[1], v[2]);
	sym_assert(pixClose(f, 0, pixCode(f, 0, i.scanline(0), 1), g), "luminance");
	sym_cover("done");
}
// Every pixel is changed, and nothing is changed when there is nothing.
SYM_ENTRY c17_all()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	int what = (int)sym_pick("what", 0, 2);
	bool big = sym_param("big", 0) != 0;
	unsigned w = (unsigned)sym_pick("w", 1, big ? 2 : 3), h = (unsigned)sym_pick("h", 1, big ? 1 : 3);
	if (big) { unsigned n = w; w = n == 1 ? 67 : 5; h = n == 1 ? 3 : 41; }
	Image e;
	sym_assert(!(what == 0 ? e.changeColorSpace(ColorSpace::sRGB) : what == 1 ? e.grayscale() : e.preMultiplyAlpha()) && !e.isValid(), "nothing to change");
	Image i(f.f, w, h), one(f.f, 1, 1);
	fillRaw(i, "raw", -1);
	if (big) fillBig(f, i);
	else if (f.kind == 'f' || f.kind == 'd') for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) i.setPixel(x, y, {0.1*x, 0.2*y + 0.1, 0.05*(x + y), 0.3}, false);
	Image old(i);
	auto op = [&](Image& m) { if (what == 0) m.changeColorSpace(ColorSpace::sRGB); else if (what == 1) m.grayscale(); else m.preMultiplyAlpha(); };
	op(i);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		Image m(f.f, 1, 1);
		memcpy(m.scanline(0), (uint8_t*)old.scanline(y) + x*f.bits/8, f.bits/8);
		op(m);
		sym_assert(!memcmp(m.scanline(0), (uint8_t*)i.scanline(y) + x*f.bits/8, f.bits/8), "like any other pixel");
	}
	sym_cover("done");
}
