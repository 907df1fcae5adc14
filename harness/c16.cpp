#include "pixel.h"
#include <FreeImage.h>
static const PixInfo& result(const PixInfo& f) { return f.f == IF::RGB5 || f.f == IF::RGB565 ? kPix[(int)IF::RGB8] : f; }
static bool boxLinearOnly(const PixInfo& f) { return f.f == IF::Int16 || f.f == IF::Int32 || f.f == IF::UInt32 || f.kind == 'd'; }
// An image of one colour stays that colour.
SYM_ENTRY c16_constant()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	unsigned w, h, W, H;
	static const unsigned big[][4] = {{40, 9, 17, 30}, {7, 65, 64, 3}, {33, 2, 1, 1}, {1, 1, 70, 12}, {128, 4, 127, 5}};
	if (sym_param("big", 0)) { auto& b = big[sym_pick("sizes", 0, 4)]; w = b[0]; h = b[1]; W = b[2]; H = b[3]; }
	else { w = (unsigned)sym_pick("w", 1, 4); h = (unsigned)sym_pick("h", 1, 3); W = (unsigned)sym_pick("W", 1, sym_param("W1", 5)); H = (unsigned)sym_pick("H", 1, sym_param("H1", 3)); }
	int filter = (int)sym_pick("filter", 0, 4);
	Image i(f.f, w, h, ColorSpace::Linear);
	for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(0))[b] = 0;
	int n = f.bits/8;
	if (f.kind == 'f' || f.kind == 'd' || (f.bits == 32 && f.n == 1)) fillOne(f, i, 0, 0, (int)((W + H) % f.n));
	else { for (int b = 0; b < n; b++) ((uint8_t*)i.scanline(0))[b] = sym_param("big", 0) && (b || f.kind != 'n') ? (uint8_t)(37*b + 51) : (uint8_t)sym_bits("raw", 8); if (f.f == IF::RGB5) ((uint8_t*)i.scanline(0))[1] &= 0x7f; }
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) if (x || y) memcpy((uint8_t*)i.scanline(y) + x*n, i.scanline(0), n);
	Snap before = snap(i);
	Image r = i.resize(W, H, (Image::ResizeFilter)filter);
	sym_assert(same(snap(i), before), "source unchanged");
	if (W == w && H == h) { sym_assert(same(snap(r), before), "same size"); sym_cover("same"); return; }
	sym_assert(r.isValid() == !(boxLinearOnly(f) && filter > 1), "resized unless the filter is not supported");
	if (!r.isValid()) { sym_cover("refused"); return; }
	const PixInfo& t = result(f);
	sym_assert(r.width() == W && r.height() == H && r.colorSpace() == ColorSpace::Linear && r.format() == t.f && (int)r.bitsPerPixel() == t.bits, "size and format");
	double v[4]; pixColor(f, i.scanline(0), 0, v);
	for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) for (int k = 0; k < t.n; k++)
	{
		double q = pixValue(t, k, pixCode(t, k, r.scanline(y), x)), want = v[t.ch[k].src];
		double e = &t != &f ? 1.001/255 : f.kind == 'f' || f.kind == 'd' ? (f.kind == 'f' ? 1e-5 : 1e-12)*(1 + (want < 0 ? -want : want)) : 0;
		sym_assert(sym_or(q == want, sym_and(q - want <= e, want - q <= e)), "colour kept");
	}
	sym_cover("done");
}
// In sRGB, resizing happens in linear space.
SYM_ENTRY c16_srgb()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	unsigned w = 2, h = 2, W = (unsigned)sym_pick("W", 1, 3), H = (unsigned)sym_pick("H", 1, 2);
	auto filter = (Image::ResizeFilter)sym_pick("filter", 0, boxLinearOnly(f) ? 1 : 4);
	Image i(f.f, w, h, ColorSpace::sRGB);
	for (unsigned y = 0; y < 2; y++) for (unsigned x = 0; x < 2; x++) for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(y))[x*f.bits/8 + b] = 0;
	int which = (int)sym_pick("which", 0, f.n - 1);
	bool differing = sym_pick("differing", 0, 1) != 0;
	if (differing && f.f == IF::Int16) i.setPixel(0, 0, {(double)sym_pick("value", 0, 8)*811 - 3000, 0, 0, 0}, false);
	else fillOne(f, i, 0, 0, which, 0, 2);
	for (unsigned y = 0; y < 2; y++) for (unsigned x = 0; x < 2; x++) if (x || y)
	{
		memcpy((uint8_t*)i.scanline(y) + x*f.bits/8, i.scanline(0), f.bits/8);
		if (differing) i.setPixel(x, y, {0.2*(x + 2*y), 0.75 - 0.3*x, 0.9 - 0.4*y, 0.25*(x + y)}, false);
	}
	Snap before = snap(i);
	Image r = i.resize(W, H, filter);
	sym_assert(same(snap(i), before), "source unchanged");
	sym_assert(r.isValid() && r.colorSpace() == ColorSpace::sRGB && r.width() == W && r.height() == H, "size and colour space");
	if (W == w && H == h) { sym_assert(same(snap(r), before), "same size"); return; }
	Image l(i);
	l.changeColorSpace(ColorSpace::Linear);
	l = l.resize(W, H, filter);
	l.changeColorSpace(ColorSpace::sRGB);
	sym_assert(l.format() == r.format(), "format");
	const PixInfo& t = result(f);
	for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) for (int k = 0; k < t.n; k++)
	{
		double a = pixValue(t, k, pixCode(t, k, r.scanline(y), x)), b = pixValue(t, k, pixCode(t, k, l.scanline(y), x));
		double e = f.kind == 'f' || f.kind == 'd' ? 1e-5*(1 + (a < 0 ? -a : a)) : 0;
		sym_assert(sym_or(a == b, sym_and(a - b <= e, b - a <= e)), "resized in linear space");
	}
	sym_cover("done");
}
// The weight of a source pixel for one axis of a resize: a triangle as wide as two pixels of the larger grid, or a box as wide as one.
// A pixel on the border of the box may count or not: -1.
static double weight(unsigned src, unsigned n, unsigned dst, unsigned N, int filter)
{
	double scale = (double)n/N, dist = src + 0.5 - (dst + 0.5)*scale;
	if (scale < 1) scale = 1;
	if (dist < 0) dist = -dist;
	dist /= scale;
	if (filter == 1) return dist < 1 ? 1 - dist : 0;
	return dist < 0.5 - 1e-6 ? 1 : dist > 0.5 + 1e-6 ? 0 : -1;
}
// Each pixel of a box or linear resize lies between the smallest and the largest source value and is their average with the filter's weights.
static void fallback(const PixInfo& f, unsigned w, unsigned h, unsigned W, unsigned H, int filter, unsigned sx, unsigned sy)
{
	Image i(f.f, w, h, ColorSpace::Linear);
	// One value takes all codes, the others are fixed.
	double lo[2] = {0, 0}, hi[2] = {0, 0};
	std::vector<double> src((size_t)w*h*2);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		ColorRGBAd c = {(double)((x*7 + y*5)%11)*3 - 9, 2.5*x - y, 0, 1};
		if (f.kind == 'u') c.r += 20;
		if (x == sx && y == sy) c.r = (double)(uint32_t)sym_bits("value", 8) - (f.kind == 'u' ? 0 : 100);
		i.setPixel(x, y, c, false);
		double v[2] = {c.r, c.g};
		for (int k = 0; k < f.n; k++) { src[(y*w + x)*2 + k] = v[k]; if (!(x || y) || v[k] < lo[k]) lo[k] = v[k]; if (!(x || y) || v[k] > hi[k]) hi[k] = v[k]; }
	}
	Image r = i.resize(W, H, (Image::ResizeFilter)filter);
	sym_assert(r.isValid() && r.format() == f.f && r.width() == W && r.height() == H, "size and format");
	for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) for (int k = 0; k < f.n; k++)
	{
		double q = pixValue(f, k, pixCode(f, k, r.scanline(y), x));
		sym_assert(sym_and(q >= lo[k] - 1e-9, q <= hi[k] + 1e-9), "between the source values");
		double sum = 0, total = 0;
		bool exact = true;
		for (unsigned b = 0; b < h; b++)
		{
			double wy = weight(b, h, y, H, filter);
			if (wy == 0) continue;
			for (unsigned a = 0; a < w; a++)
			{
				double wx = weight(a, w, x, W, filter);
				if (wx == 0) continue;
				if (wx < 0 || wy < 0) { exact = false; continue; }
				sum += src[(b*w + a)*2 + k]*(wx*wy); total += wx*wy;
			}
		}
		if (exact)
		{
			sum /= total;
			double e = f.kind == 'd' ? 1e-6 : 0.5 + 1e-6;
			sym_assert(sym_and(q - sum <= e, sum - q <= e), "average of the pixels covered");
		}
		if (W % w == 0 && H % h == 0 && filter == 0) sym_assert(q == src[(y/(H/h)*w + x/(W/w))*2 + k], "pixel repeated");
	}
	sym_cover("done");
}
SYM_ENTRY c16_fallback()
{
	const PixInfo& f = kPix[sym_param("f", 11)];
	unsigned w = (unsigned)sym_pick("w", 1, 4), h = (unsigned)sym_pick("h", 1, 2), W = (unsigned)sym_pick("W", 1, 6), H = (unsigned)sym_pick("H", 1, 4);
	int filter = (int)sym_pick("filter", 0, 1);
	if (W == w && H == h) return;
	unsigned sx = (unsigned)sym_pick("sx", 0, 3), sy = (unsigned)sym_pick("sy", 0, 1);
	if (sx >= w || sy >= h) return;
	fallback(f, w, h, W, H, filter, sx, sy);
}
SYM_ENTRY c16_fallback_large()
{
	const PixInfo& f = kPix[sym_param("f", 11)];
	static const unsigned sizes[][4] = {{24, 3, 2, 1}, {3, 40, 1, 4}, {12, 10, 36, 20}, {5, 31, 5, 62}, {35, 2, 10, 3}, {2, 33, 3, 2}, {7, 9, 40, 5}};
	auto& z = sizes[sym_pick("sizes", 0, 6)];
	int filter = (int)sym_pick("filter", 0, 1), at = (int)sym_pick("at", 0, 2);
	fallback(f, z[0], z[1], z[2], z[3], filter, at == 0 ? 0 : at == 1 ? z[0]/2 : z[0] - 1, at == 0 ? 0 : at == 1 ? z[1]/2 : z[1] - 1);
}
SYM_ENTRY c16_refused()
{
	Image e;
	unsigned W = (unsigned)sym_pick("W", 0, 2), H = (unsigned)sym_pick("H", 0, 2);
	auto filter = (Image::ResizeFilter)sym_pick("filter", 0, 4);
	sym_assert(!e.resize(W, H, filter).isValid(), "nothing to resize");
	Image i((IF)sym_pick("f", 1, 17), 2, 1, sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear);
	fillRaw(i, "raw", -1);
	if (!W || !H) { sym_assert(!i.resize(W, H, filter).isValid(), "zero size"); sym_cover("done"); }
}
// The filter is the one asked for: as the library that does the work gives for it.
SYM_ENTRY c16_filter()
{
	static const FREE_IMAGE_FILTER kFilters[5] = {FILTER_BOX, FILTER_BILINEAR, FILTER_BICUBIC, FILTER_CATMULLROM, FILTER_BSPLINE};
	const PixInfo& f = kPix[sym_param("f", 1)];
	FREE_IMAGE_TYPE t = FIT_BITMAP;
	switch (f.f)
	{
		case IF::Gray16: case IF::UInt16: t = FIT_UINT16; break;
		case IF::RGB16: t = FIT_RGB16; break;
		case IF::RGBA16: t = FIT_RGBA16; break;
		case IF::RGBF: t = FIT_RGBF; break;
		case IF::RGBAF: t = FIT_RGBAF; break;
		case IF::Float: t = FIT_FLOAT; break;
		default: break;
	}
	static const unsigned sizes[][4] = {{7, 6, 4, 3}, {5, 3, 9, 7}, {6, 4, 3, 4}, {3, 5, 3, 9}, {8, 8, 5, 11}};
	auto& b = sizes[sym_pick("sizes", 0, 4)];
	unsigned w = b[0], h = b[1], W = b[2], H = b[3];
	int filter = (int)sym_pick("filter", 0, 4);
	Image i(f.f, w, h, ColorSpace::Linear);
	FIBITMAP* m = FreeImage_AllocateT(t, (int)w, (int)h, f.bits, FI_RGBA_RED_MASK, FI_RGBA_GREEN_MASK, FI_RGBA_BLUE_MASK);
	sym_assert(m != nullptr, "allocated");
	unsigned sx = (unsigned)sym_pick("sx", 0, w - 1), sy = (unsigned)sym_pick("sy", 0, 1)*(h - 1);
	double v = (double)(uint32_t)sym_bits("value", 6)/63;
	for (unsigned y = 0; y < h; y++)
	{
		for (unsigned x = 0; x < w; x++)
		{
			double k = (double)((x*7 + y*5)%11)/11*(f.f == IF::UInt16 ? 60000 : 1);
			ColorRGBAd c = {k, k/2, 1 - k, 0.25 + k/3};
			i.setPixel(x, y, c, false);
		}
		if (y == sy) { if (f.kind == 'f') for (int k = 0; k < f.n; k++) ((float*)i.scanline(y))[sx*f.n + k] = (float)v; else for (int k = 0; k < f.bits/8; k++) ((uint8_t*)i.scanline(y))[sx*f.bits/8 + k] = (uint8_t)sym_bits("raw", 8); }
		memcpy(FreeImage_GetScanLine(m, (int)(h - 1 - y)), i.scanline(y), w*f.bits/8);
	}
	FIBITMAP* want = FreeImage_Rescale(m, (int)W, (int)H, kFilters[filter]);
	sym_assert(want != nullptr, "rescaled");
	Image r = i.resize(W, H, (Image::ResizeFilter)filter);
	sym_assert(r.isValid() && r.format() == f.f && r.width() == W && r.height() == H, "size and format");
	for (unsigned y = 0; y < H; y++) sym_assert(memcmp(r.scanline(y), FreeImage_GetScanLine(want, (int)(H - 1 - y)), W*f.bits/8) == 0, "pixels as filtered");
	FreeImage_Unload(want);
	FreeImage_Unload(m);
	sym_cover("done");
}
