#include "common.h"
static double halfVal(uint16_t h) { _Float16 x; memcpy(&x, &h, 2); return (double)(float)x; }
// The stored codes of the texel at d hold the value c as closely as the format can.
static void stored(const FmtInfo& f, int soft, const float* c, const uint8_t* d)
{
	static const char* const msg[4] = {"red", "green", "blue", "alpha"};
	if (f.format == TF::E5B9G9R9_UFloat)
	{
		uint32_t u = d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24;
		sym_observe("code", u);
		int e = (int)(u >> 27);
		// 2^(e - 24), the step of the chosen exponent.
		float step;
		uint32_t sb = (uint32_t)(e - 24 + 127) << 23;
		memcpy(&step, &sb, 4);
		float cl[3], mx = 0;
		for (int i = 0; i < 3; i++)
		{
			cl[i] = c[i] > 0 ? c[i] : 0.0f;
			cl[i] = cl[i] > 65408.0f ? 65408.0f : cl[i];
			mx = cl[i] > mx ? cl[i] : mx;
		}
		for (int i = 0; i < 3; i++)
		{
			float m = (float)(int)(u >> 9*i & 0x1FF);
			float diff = m*step - cl[i];
			sym_assert(sym_and(diff <= step, diff >= -step), msg[i]);
		}
		// The exponent is the smallest one the largest channel fits in: the coarser half of the codes would fit otherwise.
		sym_assert(sym_or(e == 0, mx >= 255.0f*step), "exponent too large for the largest channel");
	}
	else if (f.format == TF::B10G11R11_UFloat)
	{
		uint32_t u = d[0] | d[1] << 8 | d[2] << 16 | (uint32_t)d[3] << 24;
		sym_observe("code", u);
		for (int i = 0; i < 3; i++)
		{
			int mb = i == 2 ? 5 : 6;
			uint32_t code = u >> (i*11) & ((1u << (mb + 5)) - 1);
			float mxv = i == 2 ? 64512.0f : 65024.0f;
			float v = c[i] > 0 ? c[i] : 0.0f;
			v = v > mxv ? mxv : v;
			// Interpreted by position in the order of codes: value(code - 1) <= v <= value(code + 1).
			sym_assert((code >> mb) != 31, msg[i]);
			auto val = [mb](uint32_t k) -> float
			{
				// An unsigned small float code re-read as a float: exponent and mantissa moved up, scaled by 2^112.
				uint32_t b = k << (23 - mb);
				float x, big;
				uint32_t s = (uint32_t)(112 + 127) << 23;
				memcpy(&x, &b, 4); memcpy(&big, &s, 4);
				return x*big;
			};
			uint32_t up = code + 1, dn = (uint32_t)sym_ite(code == 0, 0, code - 1);
			sym_assert(sym_and(v <= val(up), v >= val(dn)), msg[i]);
		}
	}
	else
	for (int i = 0; i < f.n; i++)
	{
		uint64_t code = texCode(d, f.ch[i]);
		sym_observe("code", code);
		if (f.ch[i].bits == 32)
		{
			sym_assert(code == f2u(c[i]), msg[i]);
			continue;
		}
		_Float16 r = (_Float16)c[i];
		uint16_t rb;
		memcpy(&rb, &r, 2);
		if (!soft)
		{
			sym_assert(code == rb, msg[i]);
			continue;
		}
		// Software path: as near as the nearest one (either of two at the same distance).
		bool inf = (rb & 0x7fff) == 0x7c00;
		double v = c[i], dr = v - halfVal(rb), dc = v - halfVal((uint16_t)code);
		dr = dr < 0 ? -dr : dr;
		dc = dc < 0 ? -dc : dc;
		bool near = sym_and((code >> 15) == (f2u(c[i]) >> 31), sym_or(code == rb, sym_and(!inf, dc <= dr)));
		sym_assert(near, msg[i]);
	}
}
// Splits the shared-exponent format's colours between the jobs.
static void part(const FmtInfo& f, const float* c)
{
	if (f.format == TF::E5B9G9R9_UFloat)
	{
		// Each job takes the colours whose largest channel lies in its range of exponents.
		int k = (int)sym_param("k", 0);
		float mx = 0, lo, hi;
		for (int i = 0; i < 3; i++) mx = c[i] > mx ? c[i] : mx;
		uint32_t lb = k == 0 ? 0 : (uint32_t)(127 - 16 + 3*k) << 23, hb = k >= 10 ? 0x7f000000u : (uint32_t)(127 - 16 + 3*(k + 1)) << 23;
		memcpy(&lo, &lb, 4); memcpy(&hi, &hb, 4);
		sym_assume(sym_and(mx >= lo, mx < hi));
	}
}
// One texel, every channel an arbitrary float, in the floating-point formats.
SYM_ENTRY c02()
{
	const FmtInfo& f = kFormats[sym_param("f", 0)];
	int soft = (int)sym_param("soft", 0); // the path without the conversion instructions
	Image img(IF::RGBAF, 1, 1);
	float c[4] = {sym_float("r"), sym_float("g"), sym_float("b"), sym_float("a")};
	for (int i = 0; i < 4; i++)
	{
		sym_assume(c[i] == c[i]);
		if (f.format == TF::E5B9G9R9_UFloat || f.format == TF::B10G11R11_UFloat)
			sym_assume(sym_and(c[i] >= -1e30f, c[i] <= 1e30f));
		rgbaf(img, 0, 0)[i] = c[i];
	}
	part(f, c);
	Texture t(Texture::Dimension::Dim2D, 1, 1);
	sym_assert(t.setImage(img), "setImage");
	sym_assert(t.convert(f.format, f.types == UF ? TT::UFloat : TT::Float, anyQuality(), anyAlpha(), anyMask()), "convert");
	sym_assert(t.dataSize() == (size_t)f.bytes, "texel size");
	stored(f, soft, c, (const uint8_t*)t.data());
	sym_cover("done");
}
// The texel repeated over the layers and levels of a larger texture, between constant ones: every position holds it.
SYM_ENTRY c02_placed()
{
	const FmtInfo& f = kFormats[sym_param("f", 0)];
	int soft = (int)sym_param("soft", 0);
	unsigned w = (unsigned)sym_param("w", 35), h = (unsigned)sym_param("h", 3);
	float c[4] = {sym_float("r"), sym_float("g"), sym_float("b"), sym_float("a")};
	for (int i = 0; i < 4; i++)
	{
		sym_assume(c[i] == c[i]);
		if (f.format == TF::E5B9G9R9_UFloat || f.format == TF::B10G11R11_UFloat)
			sym_assume(sym_and(c[i] >= -1e30f, c[i] <= 1e30f));
	}
	part(f, c);
	const float k1[4] = {0.31f, -0.77f, 190.0f, 0.52f}, k2[4] = {-0.4f, 0.66f, 0.0007f, -1.2f};
	const float* src[3] = {c, k1, k2};
	Texture t(Texture::Dimension::Dim2D, w, h, 2, 2);
	for (unsigned m = 0; m < 2; m++)
		for (unsigned l = 0; l < 2; l++)
		{
			Image img(IF::RGBAF, t.width(m), t.height(m));
			for (unsigned y = 0; y < t.height(m); y++)
				for (unsigned x = 0; x < t.width(m); x++)
					for (int i = 0; i < 4; i++) rgbaf(img, x, y)[i] = src[(x + y*t.width(m) + l + m) % 3][i];
			sym_assert(t.setImage(img, m, l), "setImage");
		}
	sym_assert(t.convert(f.format, f.types == UF ? TT::UFloat : TT::Float, anyQuality(), anyAlpha(), anyMask(), 1), "convert");
	const uint8_t* first = nullptr;
	for (unsigned m = 0; m < 2; m++)
		for (unsigned l = 0; l < 2; l++)
		{
			sym_assert(t.dataSize(m, l) == (size_t)f.bytes*t.width(m)*t.height(m), "surface size");
			const uint8_t* d = (const uint8_t*)t.data(m, l);
			for (unsigned p = 0; p < t.width(m)*t.height(m); p++, d += f.bytes)
			{
				unsigned which = (p + l + m) % 3;
				if (which || !first)
				{
					stored(f, soft, src[which], d);
					if (!which) first = d;
					continue;
				}
				int same = 1;
				for (int i = 0; i < f.bytes; i++) same = sym_and(same, d[i] == first[i]);
				sym_assert(same, "equal texels stored as different codes");
			}
		}
	sym_cover("done");
}
