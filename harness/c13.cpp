#include "pixel.h"
static double anyDouble(const char* n, bool bounded) { double d = sym_double(n); if (bounded) sym_assume(sym_and(d >= -1e12, d <= 1e12)); else sym_assume(d == d); return d; }
// Any value written reads back as the nearest one, and nothing else changes.
SYM_ENTRY c13_set()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	bool gray = sym_param("gray", 0) != 0, srgb = sym_param("srgb", 0) != 0;
	Image i(f.f, 2, 2, srgb ? ColorSpace::sRGB : ColorSpace::Linear);
	sym_assert(i.isValid(), "image");
	for (unsigned y = 0; y < 2; y++) for (unsigned b = 0; b < f.bits/4u; b++) ((uint8_t*)i.scanline(y))[b] = (uint8_t)(b*37 + y*11 + 3);
	Snap before = snap(i);
	unsigned x = (unsigned)sym_pick("x", 0, 1), y = (unsigned)sym_pick("y", 0, 1);
	ColorRGBAd c;
	c.r = anyDouble("r", f.gray); c.g = anyDouble("g", f.gray); c.b = anyDouble("b", f.gray); c.a = anyDouble("a", f.gray);
	if (srgb)
	{
		// One channel takes 1024 values from 0 to 2, the others one of two each.
		double d[3];
		int which = (int)sym_pick("which", 0, 2);
		for (int k = 0; k < 3; k++) d[k] = k == which ? (double)(uint32_t)sym_bits("step", 10)/512.0 : sym_pick("other", 0, 1) ? 0.7 : 0.002;
		c.r = d[0]; c.g = d[1]; c.b = d[2];
	}
	sym_assert(i.setPixel(x, y, c, gray), "pixel inside the image");
	double v[4] = {c.r, c.g, c.b, c.a};
	if (f.gray && gray)
	{
		// Rec. 709 luminance of linear values.
		if (srgb) v[0] = refToSRGB(refGray(refToLinear(c.r), refToLinear(c.g), refToLinear(c.b)));
		else v[0] = refGray(c.r, c.g, c.b);
		sym_assume(v[0] == v[0]); // certain for these values
	}
	ColorRGBAd r = {9, 9, 9, 9};
	sym_assert(i.getPixel(r, x, y), "read back");
	double want[4], got[4] = {r.r, r.g, r.b, r.a};
	pixColor(f, i.scanline(y), x, want);
	for (int k = 0; k < 4; k++) sym_assert(sym_or(want[k] == got[k], sym_and(want[k] != want[k], got[k] != got[k])), "value read back");
	for (int k = 0; k < f.n; k++)
		sym_assert(pixNearest(f, k, pixCode(f, k, i.scanline(y), x), v[f.ch[k].src]), "nearest value");
	if (f.f == IF::RGB5) sym_assert((((uint8_t*)i.scanline(y))[x*2 + 1] & 0x80) == 0, "unused bit");
	// Put the old bytes back: everything is as before.
	unsigned n = f.bits/8;
	for (unsigned b = 0; b < n; b++) ((uint8_t*)i.scanline(y))[x*n + b] = (uint8_t)((x*n + b)*37 + y*11 + 3);
	sym_assert(same(snap(i), before), "other pixels");
	sym_cover("done");
}
// Any raw pixel reads as the colour its format defines, and writing that colour changes nothing.
SYM_ENTRY c13_get()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	Image i(f.f, 2, 2, sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear);
	fillRaw(i, "raw", (int)sym_pick("row", 0, 1));
	if (f.f == IF::RGB5) for (unsigned y = 0; y < 2; y++) { ((uint8_t*)i.scanline(y))[1] &= 0x7f; ((uint8_t*)i.scanline(y))[3] &= 0x7f; }
	Snap before = snap(i);
	for (unsigned y = 0; y < 2; y++) for (unsigned x = 0; x < 2; x++)
	{
		ColorRGBAd c = {9, 9, 9, 9};
		sym_assert(i.getPixel(c, x, y), "pixel inside the image");
		double want[4], got[4] = {c.r, c.g, c.b, c.a};
		pixColor(f, i.scanline(y), x, want);
		for (int k = 0; k < 4; k++) sym_assert(sym_or(want[k] == got[k], sym_and(want[k] != want[k], got[k] != got[k])), "value of a pixel");
		int num = 1;
		for (int k = 0; k < 4; k++) num = sym_and(num, got[k] == got[k]);
		sym_assert(i.setPixel(x, y, c, false), "write back");
		if (f.kind == 'f' || f.kind == 'd') for (int k = 0; k < f.n; k++) { double w = pixValue(f, k, pixCode(f, k, i.scanline(y), x)), o = want[f.ch[k].src]; sym_assert(sym_or(d2u(w) == d2u(o), sym_and(w != w, o != o)), "written back"); }
	}
	if (f.kind != 'f' && f.kind != 'd') sym_assert(same(snap(i), before), "written back");
	sym_cover("done");
}
// Outside the image, and with an invalid image, nothing happens.
SYM_ENTRY c13_outside()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	unsigned w = (unsigned)sym_pick("w", 1, 3), h = (unsigned)sym_pick("h", 1, 3);
	Image i;
	bool valid = sym_pick("valid", 0, 1);
	if (valid) i.initialize(f.f, w, h);
	fillRaw(i, "raw");
	Snap before = snap(i);
	uint32_t x = (uint32_t)sym_bits("x", 32), y = (uint32_t)sym_bits("y", 32);
	int inside = sym_and(valid, sym_and(x < w, y < h));
	sym_assume(inside == 0);
	ColorRGBAd c = {0.5, 0.25, 0.75, 0.125};
	sym_assert(!i.setPixel(x, y, c, sym_pick("gray", 0, 1) != 0), "writing outside");
	sym_assert(!i.getPixel(c, x, y), "reading outside");
	sym_assert(sym_and(c.r == 0.5, sym_and(c.g == 0.25, sym_and(c.b == 0.75, c.a == 0.125))), "colour left alone");
	sym_assert(same(snap(i), before), "no effect");
	sym_cover("done");
}
// Pixels of a larger image.
SYM_ENTRY c13_big()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	unsigned w = (unsigned)sym_param("w", 37), h = (unsigned)sym_param("h", 19);
	Image i(f.f, w, h), o;
	fillBig(f, i);
	o = i;
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		ColorRGBAd c = {9, 9, 9, 9};
		sym_assert(i.getPixel(c, x, y), "pixel inside the image");
		if (y + 1 == h && x + 1 == w) break;
		double want[4], got[4] = {c.r, c.g, c.b, c.a};
		pixColor(f, i.scanline(y), x, want);
		for (int k = 0; k < 4; k++) sym_assert(want[k] == got[k], "value of a pixel");
	}
	unsigned x = sym_pick("left", 0, 1) ? 1 : w - 1, y = sym_pick("top", 0, 1) ? 1 : h - 1;
	double k = f.kind == 'i' ? -20000 : f.kind == 'u' ? 50000 : 1;
	bool gray = sym_pick("gray", 0, 1) != 0;
	sym_assert(i.setPixel(x, y, {0.1*k, 0.9*k, 0.4*k, 0.3*k}, gray), "pixel inside the image");
	double v[4] = {0.1*k, 0.9*k, 0.4*k, 0.3*k};
	if (gray && f.gray) v[0] = refGray(v[0], v[1], v[2]);
	for (int c = 0; c < f.n; c++) sym_assert(pixNearest(f, c, pixCode(f, c, i.scanline(y), x), v[f.ch[c].src]), "nearest value");
	memcpy((uint8_t*)i.scanline(y) + x*f.bits/8, (uint8_t*)o.scanline(y) + x*f.bits/8, f.bits/8);
	sym_assert(same(snap(i), snap(o)), "other pixels");
	sym_cover("done");
}
