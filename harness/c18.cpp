#include "pixel.h"
SYM_ENTRY c18()
{
	const PixInfo &s = kPix[sym_param("s", 15)], &t = kPix[sym_param("t", 0) ? sym_param("t", 0) : sym_pick("t", 1, 17)];
	unsigned w = (unsigned)sym_pick("w", sym_param("w0", 1), sym_param("w1", 3)), h = (unsigned)sym_pick("h", sym_param("h0", 1), sym_param("h1", 3));
	bool keep = sym_pick("keep", 0, 1) != 0, wx = sym_pick("wrapX", 0, 1) != 0, wy = sym_pick("wrapY", 0, 1) != 0;
	static const double F[] = {1, 0, -2.5, 40};
	double factor = F[sym_pick("factor", 0, sym_param("factors", 1))];
	ColorSpace cs = (w + h) % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i(s.f, w, h, cs);
	bool big = w > 8 || h > 8;
	unsigned sx = big ? w - 1 : (unsigned)sym_pick("sx", 0, w - 1), sy = big ? h/2 : (unsigned)sym_pick("sy", 0, h - 1);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		ColorRGBAd c = {((x*5 + y*3) % 7)/8.0, 0.5, 0.25, 1};
		if (s.kind == 'i' || s.kind == 'u') c.r = c.r*8 + 10;
		i.setPixel(x, y, c, false);
	}
	// The red channel of one pixel takes every value.
	if (s.kind == 'n') for (int k = 0; k < s.n; k++) { if (s.ch[k].src == 0) {
		uint64_t v = pixCode((const uint8_t*)i.scanline(sy) + sx*s.bits/8, s.bits, 0), max = ((uint64_t)1 << s.ch[k].bits) - 1;
		v = (v & ~(max << s.ch[k].shift)) | ((uint64_t)sym_bits("code", s.ch[k].bits) & max) << s.ch[k].shift;
		for (int b = 0; b < s.bits/8; b++) ((uint8_t*)i.scanline(sy))[sx*s.bits/8 + b] = (uint8_t)(v >> 8*b);
	} }
	else { ColorRGBAd c = {(double)(uint32_t)sym_bits("value", 10), 0.5, 0.25, 1}; if (s.kind == 'f' || s.kind == 'd') c.r = c.r/256 - 1.5; i.setPixel(sx, sy, c, false); }
	Snap before = snap(i);
	auto o = Image::NormalOptions::Default;
	if (keep) o = o | Image::NormalOptions::KeepSign;
	if (wx) o = o | Image::NormalOptions::WrapX;
	if (wy) o = o | Image::NormalOptions::WrapY;
	Image n = i.createNormalMap(o, factor, t.f);
	sym_assert(same(snap(i), before), "source unchanged");
	sym_assert(n.isValid() && n.format() == t.f && n.width() == w && n.height() == h && n.colorSpace() == cs, "size and format");
	if (t.gray) { sym_cover("done"); return; }
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		auto height = [&](int px, int py) { double v[4]; pixColor(s, i.scanline((unsigned)py), (unsigned)px, v); return v[0]; };
		double dist[2] = {2, 2};
		int x0 = (int)x - 1, x1 = (int)x + 1, y0 = (int)y - 1, y1 = (int)y + 1;
		if (x0 < 0) { if (wx) x0 = (int)w - 1; else { x0 = 0; dist[0] = 1; } }
		if (x1 >= (int)w) { if (wx) x1 = 0; else { x1 = (int)w - 1; dist[0] = 1; } }
		if (y0 < 0) { if (wy) y0 = (int)h - 1; else { y0 = 0; dist[1] = 1; } }
		if (y1 >= (int)h) { if (wy) y1 = 0; else { y1 = (int)h - 1; dist[1] = 1; } }
		double dx = (height(x0, y) - height(x1, y))*factor/dist[0], dy = (height(x, y1) - height(x, y0))*factor/dist[1];
		double len = sqrt(dx*dx + dy*dy + 1), v[4] = {dx/len, dy/len, 1/len, 1};
		if (!keep) for (int k = 0; k < 3; k++) v[k] = v[k]*0.5 + 0.5;
		for (int k = 0; k < t.n; k++) sym_assert(pixClose(t, k, pixCode(t, k, n.scanline(y), x), v[t.ch[k].src]), "normal of a pixel");
	}
	sym_cover("done");
}
SYM_ENTRY c18_none()
{
	Image e;
	sym_assert(!e.createNormalMap().isValid(), "nothing to use");
	Image i(IF::RGB8, 2, 2);
	fillRaw(i, "raw", -1);
	sym_assert(!i.createNormalMap(Image::NormalOptions::Default, 1, IF::Invalid).isValid(), "no format");
	sym_assert(i.createNormalMap().format() == IF::RGBF, "default format");
	sym_cover("done");
}
