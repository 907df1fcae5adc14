#include "common.h"
// The stored code of every channel of the texel at d is the one nearest to c.
static void nearest(const FmtInfo& f, int type, const float* c, const uint8_t* d)
{
	for (int i = 0; i < f.n; i++)
	{
		const ChInfo& ch = f.ch[i];
		uint64_t code = texCode(d, ch);
		sym_observe("code", code);
		float v = c[ch.src];
		uint64_t maxU = ((uint64_t)1 << ch.bits) - 1;
		int64_t maxS = ((int64_t)1 << (ch.bits - 1)) - 1;
		bool ok;
		if (type == 0 || type == 1)
		{
			// |q - m| <= 1/2 for the exactly computed difference, m the clamped and scaled value.
			float lo = type == 0 ? 0.0f : -1.0f, scale = type == 0 ? (float)maxU : (float)maxS;
			float cl = v < lo ? lo : v;
			cl = cl > 1.0f ? 1.0f : cl;
			float m = cl*scale;
			float q;
			if (type == 0) q = (float)code;
			else
			{
				int64_t s = (int64_t)(code << (64 - ch.bits)) >> (64 - ch.bits);
				q = (float)(int)s;
			}
			float diff = q - m;
			ok = sym_and(diff <= 0.5f, diff >= -0.5f);
		}
		else
		{
			double lo = type == 2 ? 0.0 : -(double)maxS - 1, hi = type == 2 ? (double)maxU : (double)maxS;
			double m = v;
			m = m < lo ? lo : m;
			m = m > hi ? hi : m;
			double q = type == 2 ? (double)code : (double)((int64_t)(code << (64 - ch.bits)) >> (64 - ch.bits));
			double diff = q - m;
			ok = sym_and(diff <= 0.5, diff >= -0.5);
		}
		static const char* const msg[4] = {"red is not the nearest code", "green is not the nearest code", "blue is not the nearest code", "alpha is not the nearest code"};
		sym_assert(ok, msg[ch.src]);
	}
}
// One texel, every channel an arbitrary float: the stored code is the nearest one.
SYM_ENTRY c01()
{
	const FmtInfo& f = kFormats[sym_param("f", 0)];
	int type = (int)sym_param("t", 0);
	ColorSpace cs = fmtNativeSrgb((int)f.format, type) && sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image img(IF::RGBAF, 1, 1, cs);
	float c[4] = {sym_float("r"), sym_float("g"), sym_float("b"), sym_float("a")};
	for (int i = 0; i < 4; i++)
	{
		sym_assume(c[i] == c[i]);
		rgbaf(img, 0, 0)[i] = c[i];
	}
	Texture t(Texture::Dimension::Dim2D, 1, 1, 0, 1, cs);
	sym_assert(t.setImage(img), "setImage");
	sym_assert(t.convert(f.format, (TT)type, anyQuality(), anyAlpha(), anyMask()), "convert");
	sym_assert(t.dataSize() == (size_t)f.bytes, "texel size");
	const uint8_t* d = (const uint8_t*)t.data();
	nearest(f, type, c, d);
	sym_cover("done");
}
// The texel repeated over the layers and levels of a larger texture, between constant ones: at every position the code
// is the nearest one.
SYM_ENTRY c01_placed()
{
	const FmtInfo& f = kFormats[sym_param("f", 0)];
	int type = (int)sym_param("t", 0);
	unsigned w = (unsigned)sym_param("w", 35), h = (unsigned)sym_param("h", 3), threads = (unsigned)sym_param("threads", 1);
	if (threads > 1) env_threads(threads);
	float c[4] = {sym_float("r"), sym_float("g"), sym_float("b"), sym_float("a")};
	for (int i = 0; i < 4; i++) sym_assume(c[i] == c[i]);
	float one = type < 2 ? 1.0f : 100.0f;
	const float k1[4] = {0.31f*one, -0.77f*one, 1.9f*one, 0.52f*one}, k2[4] = {-0.4f*one, 0.66f*one, 0.07f*one, -1.2f*one};
	const float* src[3] = {c, k1, k2};
	Texture t(Texture::Dimension::Dim2D, w, h, 2, 2);
	for (unsigned m = 0; m < 2; m++)
		for (unsigned l = 0; l < 2; l++)
		{
			Image img(IF::RGBAF, t.width(m), t.height(m));
			for (unsigned y = 0; y < t.height(m); y++)
				for (unsigned x = 0; x < t.width(m); x++)
					for (int i = 0; i < 4; i++) rgbaf(img, x, y)[i] = src[(x + y*t.width(m) + l + m) % 3][i];
			sym_assert(t.setImage(img, m, l), "setImage");
		}
	sym_assert(t.convert(f.format, (TT)type, anyQuality(), anyAlpha(), anyMask(), threads), "convert");
	const uint8_t* first = nullptr;
	for (unsigned m = 0; m < 2; m++)
		for (unsigned l = 0; l < 2; l++)
		{
			sym_assert(t.dataSize(m, l) == (size_t)f.bytes*t.width(m)*t.height(m), "surface size");
			const uint8_t* d = (const uint8_t*)t.data(m, l);
			for (unsigned p = 0; p < t.width(m)*t.height(m); p++, d += f.bytes)
			{
				unsigned which = (p + l + m) % 3;
				if (which || !first)
				{
					nearest(f, type, src[which], d);
					if (!which) first = d;
					continue;
				}
				int same = 1;
				for (int i = 0; i < f.n; i++) same = sym_and(same, texCode(d, f.ch[i]) == texCode(first, f.ch[i]));
				sym_assert(same, "equal texels stored as different codes");
			}
		}
	sym_cover("done");
}
