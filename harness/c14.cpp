#include "pixel.h"
// A converted image has the same size and colour space, and each pixel is what setting it in the target format gives.
static void compare(const PixInfo& f, const Image& c, const Image& r, unsigned x)
{
	for (int k = 0; k < f.n; k++)
	{
		double a = pixValue(f, k, pixCode(f, k, c.scanline(0), x)), b = pixValue(f, k, pixCode(f, k, r.scanline(0), x));
		double step = f.kind == 'n' ? 1.0/((1u << f.ch[k].bits) - 1)*(1 + 1e-9) : f.kind == 'f' ? 2e-7*(1 + (b < 0 ? -b : b)) : f.kind == 'd' ? 4e-16*(1 + (b < 0 ? -b : b)) : 1;
		sym_assert(sym_or(a == b, sym_or(sym_and(a - b <= step, b - a <= step), sym_and(a != a, b != b))), "value of a converted pixel");
	}
}
static void fillPixel(const PixInfo& f, Image& s, unsigned x, bool one)
{
	uint8_t* p = (uint8_t*)s.scanline(0) + x*f.bits/8;
	int nb = f.bits/8;
	if (f.kind == 'f' || f.kind == 'd')
	{
		int which = one ? (int)sym_pick("which", 0, f.n - 1) : -1;
		for (int k = 0; k < f.n; k++)
		{
			double d;
			if (one && k != which) d = sym_pick("other", 0, 1) ? 0.75 : 0.01;
			else if (one) { d = (double)(uint32_t)sym_bits("step", 12)/2048.0 - 0.5; }
			else if (f.kind == 'f') { float v = sym_float("v"); sym_assume(v == v); d = v; memcpy(p + f.ch[k].shift/8, &v, 4); continue; }
			else { d = sym_double("v"); sym_assume(d == d); }
			if (f.kind == 'f') { float v = (float)d; memcpy(p + f.ch[k].shift/8, &v, 4); } else memcpy(p + f.ch[k].shift/8, &d, 8);
		}
		return;
	}
	if (one && f.bits == 32 && f.n == 1) { uint32_t v = (uint32_t)sym_bits("step", 12)*1048813u; memcpy(p, &v, 4); return; }
	if (!one || f.n == 1) { for (int b = 0; b < nb; b++) p[b] = (uint8_t)sym_bits("raw", 8); return; }
	// One channel takes every value, the others one of two.
	int which = (int)sym_pick("which", 0, f.n - 1);
	uint64_t v = 0;
	for (int k = 0; k < f.n; k++)
	{
		uint64_t max = ((uint64_t)1 << f.ch[k].bits) - 1;
		uint64_t c = k == which ? (uint64_t)sym_bits("code", f.ch[k].bits) & max : sym_pick("other", 0, 1) ? max*3/4 : 3;
		v |= c << f.ch[k].shift;
	}
	for (int b = 0; b < nb; b++) p[b] = (uint8_t)(v >> 8*b);
}
SYM_ENTRY c14()
{
	const PixInfo &s = kPix[sym_param("s", 1)], &t = kPix[sym_param("t", 0) ? sym_param("t", 0) : sym_pick("t", 1, 17)];
	ColorSpace cs = sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	bool gray = t.gray && s.n > 1 ? sym_pick("gray", 0, 1) != 0 : true;
	Image i(s.f, 2, 1, cs);
	sym_assert(i.isValid(), "image");
	fillPixel(s, i, 1, t.gray && gray && (s.n > 1 || s.bits >= 32) && s.f != IF::Complex);
	for (int b = 0; b < s.bits/8; b++) ((uint8_t*)i.scanline(0))[b] = ((const uint8_t[16]){0x10, 0x32, 0x54, 0x3f, 0x40, 0x51, 0x31, 0x3f, 0x12, 0x34, 0x56, 0x3f, 0x31, 0x41, 0x59, 0x3f})[b];
	if (s.f == IF::RGB5) ((uint8_t*)i.scanline(0))[1] &= 0x7f;
	Snap before = snap(i);
	Image c = i.convert(t.f, gray);
	sym_assert(same(snap(i), before), "source unchanged");
	sym_assert(c.isValid() && c.format() == t.f && c.width() == 2 && c.height() == 1 && c.colorSpace() == cs, "converted image");
	if (s.f == t.f) { sym_assert(same(snap(c), before), "exact copy"); sym_cover("same"); return; }
	Image r(t.f, 2, 1, cs);
	for (unsigned x = 0; x < 2; x++)
	{
		ColorRGBAd v;
		sym_assert(i.getPixel(v, x, 0), "get");
		// The red channel of a complex image is kept.
		sym_assert(r.setPixel(x, 0, v, gray && s.f != IF::Complex), "set");
		compare(t, c, r, x);
	}
	sym_cover("done");
}
// Each row goes to the same row, and nothing is converted from or to nothing.
SYM_ENTRY c14_rows()
{
	const PixInfo &s = kPix[sym_param("s", 1)], &t = kPix[sym_pick("t", 0, 17)];
	unsigned w = sym_param("w", 0) ? (unsigned)sym_param("w", 0) : (unsigned)sym_pick("w", 1, 3), h = sym_param("h", 0) ? (unsigned)sym_param("h", 0) : (unsigned)sym_pick("h", 1, 3);
	Image e;
	sym_assert(!e.convert(t.f).isValid(), "nothing to convert");
	Image i(s.f, w, h);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { double v = w > 3 ? (double)(1 + (y*13 + x*7) % 30)/32 : (double)(1 + y*3 + x)/16; ColorRGBAd c = {v, v/2, 1 - v, v*v}; if (s.kind == 'i' || s.kind == 'u') c.r = 100 + y*10 + x; i.setPixel(x, y, c); }
	Image c = i.convert(t.f);
	if (t.bits == 0) { sym_assert(!c.isValid(), "no format"); sym_cover("refused"); return; }
	sym_assert(c.isValid() && c.width() == w && c.height() == h && c.format() == t.f, "size");
	Image r(t.f, w, h);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		ColorRGBAd a, b;
		i.getPixel(a, x, y); r.setPixel(x, y, a, s.f != IF::Complex); r.getPixel(b, x, y); c.getPixel(a, x, y);
		double step = t.kind == 'n' ? t.bits == 16 && t.n > 1 ? 1.0/31 : 1.0/255 : 1e-6; step *= 1 + 1e-9;
		double d[4] = {a.r - b.r, a.g - b.g, a.b - b.b, a.a - b.a};
		for (int k = 0; k < 4; k++) sym_assert(d[k] <= step && -d[k] <= step, "pixel in its place");
	}
	sym_cover("done");
}
