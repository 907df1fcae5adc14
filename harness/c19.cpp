#include "pixel.h"
static uint32_t le(const uint8_t* p, int n) { uint32_t v = 0; for (int b = n - 1; b >= 0; b--) v = v << 8 | p[b]; return v; }
// Masks and shifts of an image and of its copies, conversions, rotations and loads.
static void check(const Image& i, const PixInfo& f)
{
	sym_assert(i.format() == f.f && (int)i.bitsPerPixel() == f.bits, "bits per pixel");
	bool packed = f.f == IF::RGB5 || f.f == IF::RGB565 || f.f == IF::RGB8 || f.f == IF::RGBA8;
	if (f.f == IF::RGBA8) sym_assert(i.alphaMask() != 0, "alpha mask"); else sym_assert(i.alphaMask() == 0 && i.alphaShift() == 0, "no alpha mask");
	if (!packed) return;
	uint32_t mask[4] = {i.redMask(), i.greenMask(), i.blueMask(), i.alphaMask()};
	unsigned shift[4] = {i.redShift(), i.greenShift(), i.blueShift(), i.alphaShift()};
	for (int k = 0; k < f.n; k++)
	{
		int bits = f.ch[k].bits, s = f.ch[k].src;
		sym_assert(mask[s] >> shift[s] == (1u << bits) - 1 && (uint64_t)mask[s] == (((uint64_t)mask[s] >> shift[s]) << shift[s]), "mask and shift of a channel");
	}
	for (unsigned y = 0; y < i.height(); y++) for (unsigned x = 0; x < i.width(); x++)
	{
		const void* row = i.scanline(y);
		uint32_t v = le((const uint8_t*)row + x*f.bits/8, f.bits/8);
		ColorRGBAd c;
		sym_assert(i.getPixel(c, x, y), "pixel");
		double d[4] = {c.r, c.g, c.b, c.a};
		for (int k = 0; k < f.n; k++)
		{
			int s = f.ch[k].src;
			uint32_t code = (v & mask[s]) >> shift[s];
			sym_assert(code == (uint32_t)pixCode(f, k, row, x), "channel found with its mask");
			sym_assert(d[s] == (double)code/((1u << f.ch[k].bits) - 1), "value found with its mask");
		}
	}
}
SYM_ENTRY c19_masks()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	int how = (int)sym_pick("how", 0, 7);
	unsigned w = 2, h = 2;
	Image i;
	if (how == 1) { Image o((IF)sym_pick("from", 1, 17), w, h); fillRaw(o, "raw", -1); i = o.convert(f.f); }
	else
	{
		sym_assert(i.initialize(f.f, w, h, how & 1 ? ColorSpace::sRGB : ColorSpace::Linear), "initialize");
		fillRaw(i, "raw");
		if (how == 2) { Image o(i); i = o; }
		if (how == 3) { Image o(std::move(i)); i = std::move(o); }
		if (how == 4) i = i.rotate(Image::RotateAngle::CW90);
		if (how == 5) i = i.rotate(Image::RotateAngle::CCW180);
		if (how == 6) i.flipVertical();
		if (how == 7) { sym_assert(i.initialize(IF::Gray8, 1, 1) && i.initialize(f.f, w, h), "initialize again"); fillRaw(i, "raw"); }
	}
	sym_assert(i.isValid() && i.width() == w && i.height() == h, "image");
	check(i, f);
	sym_cover("done");
}
// A value written to a channel is found where the mask says.
SYM_ENTRY c19_codes()
{
	const PixInfo& f = kPix[sym_param("f", 5)];
	Image i(f.f, 3, 1);
	unsigned x = (unsigned)sym_pick("x", 0, 2);
	uint32_t code[4]; double v[4] = {0, 0, 0, 1};
	for (int k = 0; k < f.n; k++) { uint32_t c = (uint32_t)sym_bits("code", 8); sym_assume(c < (1u << f.ch[k].bits)); code[f.ch[k].src] = c; v[f.ch[k].src] = (double)c/((1u << f.ch[k].bits) - 1); }
	ColorRGBAd c = {v[0], v[1], v[2], v[3]};
	sym_assert(i.setPixel(x, 0, c), "set");
	uint32_t raw = le((const uint8_t*)i.scanline(0) + x*f.bits/8, f.bits/8);
	uint32_t mask[4] = {i.redMask(), i.greenMask(), i.blueMask(), i.alphaMask()};
	unsigned shift[4] = {i.redShift(), i.greenShift(), i.blueShift(), i.alphaShift()};
	for (int s = 0; s < f.n; s++) sym_assert((raw & mask[s]) >> shift[s] == code[s], "code of the channel written");
	uint32_t all = 0;
	for (int s = 0; s < f.n; s++) { sym_assert(!(all & mask[s]), "channels overlap"); all |= mask[s]; }
	sym_cover("done");
}
// Scanlines are the rows from top to bottom.
SYM_ENTRY c19_rows()
{
	const PixInfo& f = kPix[sym_param("f", 1)];
	unsigned w = sym_param("w", 0) ? (unsigned)sym_param("w", 0) : (unsigned)sym_pick("w", 1, 3), h = sym_param("h", 0) ? (unsigned)sym_param("h", 0) : (unsigned)sym_pick("h", 1, 4);
	Image i;
	bool valid = sym_pick("valid", 0, 1);
	if (valid) i.initialize(f.f, w, h);
	const Image& ci = i;
	uint32_t y = (uint32_t)sym_bits("y", 32);
	int inside = sym_and(valid, y < h);
	if (!inside)
	{
		sym_assert(i.scanline(y) == nullptr && ci.scanline(y) == nullptr, "row outside the image");
		sym_cover("outside");
		return;
	}
	y = (uint32_t)sym_concretize(y);
	unsigned n = w*f.bits/8;
	sym_assert(i.scanline(y) && i.scanline(y) == ci.scanline(y) && sym_mem_ok(i.scanline(y), n), "row inside the image");
	for (unsigned k = 0; k < h; k++) if (k != y)
	{
		long d = (long)((uint8_t*)i.scanline(y) - (uint8_t*)i.scanline(k));
		sym_assert(d >= (long)n || -d >= (long)n, "rows overlap");
	}
	// A pixel written in a row changes that row only, and all of its columns are found there.
	for (unsigned k = 0; k < h; k++) memset(i.scanline(k), 0, n);
	ColorRGBAd c = {1, 1, 1, 1};
	unsigned x = (unsigned)sym_pick("x", 0, 2);
	if (w > 3 && x == 2) x = w - 1;
	if (x >= w) return;
	sym_assert(i.setPixel(x, y, c), "set");
	for (unsigned k = 0; k < h; k++) for (unsigned b = 0; b < n; b++)
		if (k != y || b/(f.bits/8) != x) sym_assert(((uint8_t*)i.scanline(k))[b] == 0, "other bytes");
	bool any = false;
	for (int b = 0; b < f.bits/8; b++) any = any || ((uint8_t*)i.scanline(y))[x*f.bits/8 + b];
	sym_assert(any, "pixel in its row");
	// Flipping reverses the order of the rows.
	if (i.flipVertical()) { any = false; for (int b = 0; b < f.bits/8; b++) any = any || ((uint8_t*)i.scanline(h - 1 - y))[x*f.bits/8 + b]; sym_assert(any, "row after flipping"); }
	sym_cover("done");
}
// The rows of a stored image are top to bottom as well: a 24-bit BMP stores its bottom row first.
SYM_ENTRY c19_loaded()
{
	unsigned w = 2, h = (unsigned)sym_pick("h", 1, 3), stride = (w*3 + 3)/4*4;
	std::vector<uint8_t> b(54 + stride*h);
	auto u32 = [&](size_t at, uint32_t v) { memcpy(b.data() + at, &v, 4); };
	b[0] = 'B'; b[1] = 'M'; u32(2, (uint32_t)b.size()); u32(10, 54); u32(14, 40); u32(18, w); u32(22, h); b[26] = 1; b[28] = 24; u32(34, stride*h);
	uint8_t px[3][6];
	for (unsigned y = 0; y < h; y++) for (unsigned k = 0; k < w*3; k++) b[54 + (h - 1 - y)*stride + k] = px[y][k] = (uint8_t)sym_bits("px", 8);
	Image i;
	sym_assert(i.load(b.data(), b.size()) && i.format() == IF::RGB8 && i.width() == w && i.height() == h, "load");
	for (unsigned y = 0; y < h; y++)
	{
		int ok = 1;
		for (unsigned k = 0; k < w*3; k++) ok = sym_and(ok, ((uint8_t*)i.scanline(y))[k] == px[y][k]);
		sym_assert(ok, "row of a stored image");
	}
	check(i, kPix[5]);
	sym_cover("done");
}
