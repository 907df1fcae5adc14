#include "pixel.h"
static bool normalised(IF f) { return kPix[(int)f].kind == 'n'; }
// Whole codes of an image that came from normalised integers.
SYM_ENTRY c23_adjust()
{
	const PixInfo& f = kPix[sym_param("f", 5)];
	auto type = (TT)sym_pick("type", 0, 5);
	int via = (int)sym_pick("via", 0, 4);
	Image i(f.f, 2, 1, sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear);
	for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(0))[b] = (uint8_t)(b*53 + 9);
	for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(0))[f.bits/8 + b] = f.kind == 'd' && b%8 != 6 ? (uint8_t)(b*91 + 3) : (uint8_t)sym_bits("raw", 8);
	if (f.f == IF::RGB5) { ((uint8_t*)i.scanline(0))[1] &= 0x7f; ((uint8_t*)i.scanline(0))[3] &= 0x7f; }
	if (f.kind == 'f' || f.kind == 'd') for (int k = 0; k < f.n; k++) { double v = pixValue(f, k, pixCode(f, k, i.scanline(0), 1)); sym_assume(v == v); }
	// The image may have been turned into a floating point one, or be used as it is.
	Image a(i);
	IF orig = f.f;
	if (via == 0) orig = IF::Invalid;
	else if (via == 2) a = i.convert(IF::RGBAF);
	else if (via == 3) a = i.convert(IF::RGBF);
	else if (via == 4) { if (f.n != 1 || !f.gray) return; a = i.convert(IF::Float); }
	Snap before = snap(a);
	Texture::adjustImageValueRange(a, type, orig);
	bool touched = normalised(f.f) && (type == TT::SNorm || type == TT::UInt || type == TT::Int);
	if (!touched) { sym_assert(same(snap(a), before), "left alone"); sym_cover("untouched"); return; }
	sym_assert(a.isValid() && a.width() == 2 && a.height() == 1 && a.colorSpace() == i.colorSpace(), "size and colour space");
	for (unsigned x = 0; x < 2; x++)
	{
		ColorRGBAd c;
		sym_assert(a.getPixel(c, x, 0), "get");
		double got[4] = {c.r, c.g, c.b, c.a};
		for (int k = 0; k < f.n; k++)
		{
			int s = f.ch[k].src;
			if (s == 3 && via == 3) continue;
			uint64_t code = pixCode(f, k, i.scanline(0), x);
			double max = (double)((1u << f.ch[k].bits) - 1), v = (double)(uint32_t)code;
			if (type == TT::SNorm) { double w = v/max*2 - 1; sym_assert(sym_and(got[s] - w <= 5e-7, w - got[s] <= 5e-7), "signed range"); }
			else { double w = type == TT::Int ? v - (1 << (f.ch[k].bits - 1)) : v; sym_assert(got[s] == w, "original code"); }
		}
		if (f.n == 1) sym_assert(c.g == c.r && c.b == c.r, "grey stays grey");
	}
	sym_cover("done");
}
// Adjusting, setting and converting stores the codes of the source.
SYM_ENTRY c23_store()
{
	const PixInfo& f = kPix[sym_param("f", 5)];
	auto type = sym_param("t", 0) == 0 ? TT::UInt : sym_param("t", 0) == 1 ? TT::Int : TT::SNorm;
	int bits = f.ch[0].bits <= 8 ? 8 : 16;
	Image i(f.f, 1, 1, ColorSpace::Linear);
	for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(0))[b] = (uint8_t)sym_bits("raw", 8);
	if (f.f == IF::RGB5) ((uint8_t*)i.scanline(0))[1] &= 0x7f;
	Image a = sym_pick("float", 0, 1) ? i.convert(IF::RGBAF) : i;
	Texture::adjustImageValueRange(a, type, f.f);
	Texture t(Texture::Dimension::Dim2D, 1, 1, 0, 1, ColorSpace::Linear);
	sym_assert(t.setImage(a), "set");
	sym_assert(t.convert(bits == 8 ? TF::R8G8B8A8 : TF::R16G16B16A16, type, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1), "convert");
	sym_assert((int)t.dataSize() == bits/2, "size");
	for (int k = 0; k < f.n; k++)
	{
		uint64_t code = pixCode(f, k, i.scanline(0), 0), got = pixCode((const uint8_t*)t.data(), bits, f.ch[k].src*bits);
		int cb = f.ch[k].bits;
		if (type == TT::UInt) sym_assert(got == code, "unsigned code stored");
		else if (type == TT::Int) { int64_t s = bits == 8 ? (int64_t)(int8_t)got : (int64_t)(int16_t)got; sym_assert(s == (int64_t)code - (1 << (cb - 1)), "signed code stored"); }
		else
		{
			double m = (double)((1 << (bits - 1)) - 1), q = bits == 8 ? (double)(int8_t)got : (double)(int16_t)got, v = ((double)(uint32_t)code/((1u << cb) - 1)*2 - 1)*m;
			sym_assert(sym_and(q - v <= 0.51, v - q <= 0.51), "signed value stored");
		}
	}
	sym_cover("done");
}
// Larger images: every pixel is adjusted and stored, wherever it is.
SYM_ENTRY c23_sizes()
{
	const PixInfo& f = kPix[sym_param("f", 5)];
	static const unsigned size[6][2] = {{3, 2}, {1, 9}, {37, 5}, {70, 1}, {2, 70}, {300, 33}};
	unsigned k = (unsigned)sym_pick("size", 0, 5), w = size[k][0], h = size[k][1];
	static const TT types[3] = {TT::UInt, TT::Int, TT::SNorm};
	TT type = types[sym_pick("type", 0, 2)];
	int bits = f.ch[0].bits <= 8 ? 8 : 16;
	Image i(f.f, w, h, ColorSpace::Linear);
	fillRaw(i, "unused", -1);
	for (int b = 0; b < f.bits/8; b++) ((uint8_t*)i.scanline(h - 1))[(w - 1)*f.bits/8 + b] = (uint8_t)sym_bits("raw", 8);
	if (f.f == IF::RGB5)
		for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) ((uint8_t*)i.scanline(y))[x*2 + 1] &= 0x7f;
	Image a = sym_pick("float", 0, 1) ? i.convert(IF::RGBAF) : i;
	Texture::adjustImageValueRange(a, type, f.f);
	sym_assert(a.isValid() && a.width() == w && a.height() == h, "size");
	Texture t(Texture::Dimension::Dim2D, w, h, 0, 1, ColorSpace::Linear);
	sym_assert(t.setImage(a), "set");
	sym_assert(t.convert(bits == 8 ? TF::R8G8B8A8 : TF::R16G16B16A16, type, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1), "convert");
	sym_assert(t.dataSize() == (size_t)w*h*bits/2, "size of the data");
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++)
		{
			ColorRGBAd c;
			sym_assert(a.getPixel(c, x, y), "get");
			double got[4] = {c.r, c.g, c.b, c.a};
			const uint8_t* d = (const uint8_t*)t.data() + (size_t)(y*w + x)*bits/2;
			for (int k = 0; k < f.n; k++)
			{
				int s = f.ch[k].src, cb = f.ch[k].bits;
				uint64_t code = pixCode(f, k, i.scanline(y), x), raw = pixCode(d, bits, s*bits);
				int64_t stored = bits == 8 ? (int64_t)(int8_t)raw : (int64_t)(int16_t)raw;
				double max = (double)((1u << cb) - 1), v = (double)(uint32_t)code;
				if (type == TT::SNorm)
				{
					double m = v/max*2 - 1, q = (double)(int)stored - m*((1 << (bits - 1)) - 1);
					sym_assert(sym_and(got[s] - m <= 5e-7, m - got[s] <= 5e-7), "signed range");
					sym_assert(sym_and(q <= 0.51, q >= -0.51), "signed value stored");
					continue;
				}
				int64_t want = (int64_t)code - (type == TT::Int ? 1 << (cb - 1) : 0);
				sym_assert(got[s] == (double)(int)want, "original code");
				sym_assert(type == TT::Int ? stored == want : raw == code, "code stored");
			}
		}
	sym_cover("done");
}
SYM_ENTRY c23_none()
{
	Image e;
	Texture::adjustImageValueRange(e, (TT)sym_pick("type", 0, 5), (IF)sym_pick("orig", 0, 17));
	sym_assert(!e.isValid(), "nothing to adjust");
	// What the image came from decides, not what it is now.
	Image i(IF::RGBAF, 1, 1);
	for (int k = 0; k < 4; k++) { float v = sym_float("v"); sym_assume(v == v); memcpy((uint8_t*)i.scanline(0) + 4*k, &v, 4); }
	Snap before = snap(i);
	static const IF O[] = {IF::Invalid, IF::RGBF, IF::RGBAF, IF::Float, IF::Double, IF::Complex, IF::Int16, IF::UInt16, IF::Int32, IF::UInt32};
	Texture::adjustImageValueRange(i, (TT)sym_pick("type2", 0, 5), O[sym_pick("from", 0, 9)]);
	sym_assert(same(snap(i), before), "floating point and integer sources are left alone");
	sym_cover("done");
}
