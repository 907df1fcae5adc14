#include "pixel.h"
static void clean(const PixInfo& f, Image& i)
{
	for (unsigned y = 0; y < i.height(); y++) for (unsigned x = 0; x < i.width(); x++)
	{
		uint8_t* p = (uint8_t*)i.scanline(y) + x*f.bits/8;
		if (f.f == IF::RGB5) p[1] &= 0x7f;
		if (f.kind == 'f' || f.kind == 'd') for (int k = 0; k < f.n; k++) { double v = pixValue(f, k, pixCode(f, k, i.scanline(y), x)); sym_assume(v == v); }
	}
}
static int pixelSame(const PixInfo& f, const Image& a, unsigned ax, unsigned ay, const std::vector<uint8_t>& old, unsigned ow, unsigned bx, unsigned by)
{
	int n = f.bits/8, ok = 1;
	const uint8_t* p = (const uint8_t*)a.scanline(ay) + ax*n;
	for (int k = 0; k < n; k++) ok = sym_and(ok, p[k] == old[(by*ow + bx)*n + k]);
	return ok;
}
static std::vector<uint8_t> bytes(const PixInfo& f, const Image& i)
{
	std::vector<uint8_t> v;
	for (unsigned y = 0; y < i.height(); y++) for (unsigned k = 0; k < i.width()*f.bits/8; k++) v.push_back(((const uint8_t*)i.scanline(y))[k]);
	return v;
}
// Flips and rotations move pixels.
SYM_ENTRY c15_move()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	int what = (int)sym_pick("what", 0, 7);
	unsigned w = (unsigned)sym_pick("w", sym_param("w0", 1), sym_param("w1", 3)), h = (unsigned)sym_pick("h", sym_param("h0", 1), sym_param("h1", 3));
	ColorSpace cs = (w + h) % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i;
	sym_assert(i.initialize(f.f, w, h, cs), "image");
	if (w*h > 60) fillBig(f, i);
	else fillRaw(i, "raw", (int)h/2);
	clean(f, i);
	std::vector<uint8_t> old = bytes(f, i);
	Snap before = snap(i);
	Image r;
	bool ok = true;
	typedef Image::RotateAngle A;
	if (what < 6) { r = i.rotate((A)what); ok = r.isValid(); }
	else { r = i; ok = what == 6 ? r.flipHorizontal() : r.flipVertical(); }
	sym_assert(same(snap(i), before), "source unchanged");
	sym_assert(ok, "moved");
	A a = (A)what;
	int turns = what >= 6 ? -1 : a == A::CW90 || a == A::CCW270 ? 1 : a == A::CW180 || a == A::CCW180 ? 2 : 3; // clockwise
	bool swap = turns == 1 || turns == 3;
	sym_assert(r.format() == f.f && r.colorSpace() == cs && r.width() == (swap ? h : w) && r.height() == (swap ? w : h), "size and format");
	if (f.f == IF::RGBA8) sym_assert(r.alphaMask() == i.alphaMask() && r.redMask() == i.redMask(), "masks");
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		unsigned X = x, Y = y;
		if (what == 6) X = w - 1 - x;
		else if (what == 7) Y = h - 1 - y;
		else if (turns == 1) { X = h - 1 - y; Y = x; }
		else if (turns == 2) { X = w - 1 - x; Y = h - 1 - y; }
		else { X = y; Y = w - 1 - x; }
		sym_assert(pixelSame(f, r, X, Y, old, w, x, y), "pixel moved");
	}
	sym_cover("done");
}
// Each channel is replaced by the chosen one or by its neutral value.
SYM_ENTRY c15_swizzle()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	int c[4];
	if (sym_param("w", 2) > 2) { int n = (int)sym_pick("some", 0, 4); for (int k = 0; k < 4; k++) c[k] = (n + k*2 + 1) % 5; }
	else for (int k = 0; k < 4; k++) c[k] = (int)sym_pick("source", 0, 4);
	unsigned w = (unsigned)sym_param("w", 2), h = (unsigned)sym_param("h", 2);
	ColorSpace cs = (c[0] + c[1]) % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i(f.f, w, h, cs);
	if (w <= 2) fillRaw(i, "raw", c[2] % 2);
	else fillBig(f, i);
	clean(f, i);
	Image old(i);
	typedef Image::Channel C;
	sym_assert(i.swizzle((C)c[0], (C)c[1], (C)c[2], (C)c[3]), "swizzle");
	sym_assert(i.format() == f.f && i.colorSpace() == cs && i.width() == w && i.height() == h, "size and format");
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		double v[5]; pixColor(f, old.scanline(y), x, v);
		for (int k = 0; k < f.n; k++)
		{
			int s = f.ch[k].src, from = c[s];
			uint64_t code = pixCode(f, k, i.scanline(y), x);
			double want = from < 4 ? v[from] : s == 3 ? 1 : 0;
			sym_assert(pixNearest(f, k, code, want), "value of a swizzled channel");
			for (int m = 0; m < f.n; m++) if ((f.ch[m].src == from || (f.n == 1 && from < 3)) && f.ch[m].bits == f.ch[k].bits)
				sym_assert(code == pixCode(f, m, old.scanline(y), x), "exact value of a swizzled channel");
		}
	}
	sym_cover("done");
}
SYM_ENTRY c15_none()
{
	Image i;
	sym_assert(!i.flipHorizontal() && !i.flipVertical() && !i.rotate((Image::RotateAngle)sym_pick("a", 0, 5)).isValid(), "nothing to move");
	sym_assert(!i.swizzle(Image::Channel::Green, Image::Channel::Red, Image::Channel::Blue, Image::Channel::None), "nothing to swizzle");
	sym_assert(!i.isValid(), "still nothing");
	sym_cover("done");
}
