#include "common.h"
// The converted surface equals the concatenation, row by row, of the conversions of its single pixels.
static void one(const FmtInfo& f, TT type, const float* px, uint8_t* out)
{
	Image img(IF::RGBAF, 1, 1);
	memcpy(rgbaf(img, 0, 0), px, 16);
	Texture t(Texture::Dimension::Dim2D, 1, 1);
	t.setImage(std::move(img));
	t.convert(f.format, type, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
	memcpy(out, t.data(), f.bytes);
}
static void check(unsigned w, unsigned h, const FmtInfo& f, TT type, unsigned threads, int symbolic)
{
	Image img(IF::RGBAF, w, h);
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++)
			for (int c = 0; c < 4; c++)
			{
				// Symbolic texels on both sides of the batch ends (every texel when symbolic == 2), distinct values elsewhere.
				unsigned i = y*w + x, k = (i*37 + (unsigned)c*101 + 11)%253;
				bool sy = symbolic == 2 || (symbolic && (i == 0 || i == 31 || i == 32 || i == w*h - 1));
				float v = sy ? sym_float("p") : type == TT::UInt || type == TT::Int ? (float)k : (float)k/253.0f;
				sym_assume(v == v);
				rgbaf(img, x, y)[c] = v;
			}
	Texture t(Texture::Dimension::Dim2D, w, h);
	sym_assert(t.setImage(img), "setImage");
	sym_assert(t.convert(f.format, type, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), threads), "convert");
	sym_assert(t.dataSize() == (size_t)w*h*f.bytes, "surface size");
	const uint8_t* d = (const uint8_t*)t.data();
	uint8_t ref[16];
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++)
		{
			one(f, type, rgbaf(img, x, y), ref);
			int eq = 1;
			for (int b = 0; b < f.bytes; b++) eq = sym_and(eq, d[((size_t)y*w + x)*f.bytes + b] == ref[b]);
			sym_assert(eq, "texel differs from the conversion of its own pixel");
		}
	sym_observe("last", d[(size_t)w*h*f.bytes - 1]);
}
// Every format, sizes whose batches end inside rows.
SYM_ENTRY c03_formats()
{
	const FmtInfo& f = kFormats[sym_param("f", 0)];
	static const unsigned sz[5][2] = {{33, 2}, {7, 5}, {1, 65}, {64, 1}, {3, 43}};
	unsigned s = (unsigned)sym_pick("size", 0, (uint64_t)sym_param("sizes", 2) - 1);
	check(sz[s][0], sz[s][1], f, (TT)sym_param("t", 0), 1, f.types != UF);
	sym_cover("done");
}
// Every size within the bounds.
SYM_ENTRY c03_sizes()
{
	unsigned w = (unsigned)sym_pick("w", (uint64_t)sym_param("w0", 1), (uint64_t)sym_param("w1", 8)), h = (unsigned)sym_pick("h", 1, (uint64_t)sym_param("h1", 5));
	const FmtInfo& f = kFormats[sym_param("f", 25)];
	check(w, h, f, (TT)sym_param("t", 5), 1, 2);
	sym_cover("done");
}
// Worker threads: every interleaving, no races, the same bytes as on one thread.
SYM_ENTRY c03_threads()
{
	const FmtInfo& f = kFormats[sym_param("f", 9)];
	unsigned hw = (unsigned)sym_param("hw", 2), threads = (unsigned)sym_param("threads", 2);
	env_threads(hw);
	check((unsigned)sym_param("w", 33), (unsigned)sym_param("h", 2), f, (TT)sym_param("t", 0), threads ? threads : Texture::allCores, 1);
	sym_cover("done");
}
// Any number of threads asked for: no more are used than there is work for.
SYM_ENTRY c03_requested()
{
	const FmtInfo& f = kFormats[sym_param("f", 9)];
	env_threads(2);
	unsigned threads = (unsigned)sym_bits("threads", 32);
	check((unsigned)sym_param("w", 33), (unsigned)sym_param("h", 1), f, (TT)sym_param("t", 0), threads, 1);
	sym_cover("done");
}
// Several surfaces (layers, faces, levels) with worker threads: each holds its own pixels.
SYM_ENTRY c03_surfaces()
{
	unsigned threads = (unsigned)sym_param("threads", 1);
	unsigned W = (unsigned)sym_param("w", 0), H = (unsigned)sym_param("h", 2); // surfaces of many batches when given
	int kind = W ? (int)sym_param("kind", 1) : (int)sym_pick("kind", 0, 3);
	Texture::Dimension dim = kind == 0 ? Texture::Dimension::Dim1D : kind == 1 ? Texture::Dimension::Dim2D : kind == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube;
	unsigned faces = kind == 3 ? 6 : 1, layers = W ? (unsigned)sym_param("layers", 0) : (unsigned)sym_pick("layers", 0, 2);
	unsigned levels = W ? (unsigned)sym_param("levels", 9) : (unsigned)sym_pick("levels", 1, 3);
	unsigned w = W ? W : (unsigned)sym_pick("w", 3, 5), h = kind == 0 ? 1 : kind == 3 ? w : H;
	if (kind == 2) sym_assume(layers > 0);
	if (W && threads > 1) env_threads(threads);
	Texture t(dim, w, h, layers, levels);
	uint32_t want[200];
	int n = 0;
	for (unsigned m = 0; m < t.mipLevelCount(); m++)
		for (unsigned d = 0; d < t.depth(m); d++)
			for (unsigned fc = 0; fc < faces; fc++)
			{
				Image img(IF::RGBAF, t.width(m), t.height(m));
				float v = sym_float("v");
				for (unsigned y = 0; y < img.height(); y++)
					for (unsigned x = 0; x < img.width(); x++)
						rgbaf(img, x, y)[0] = (x || y) ? (float)(y*100 + x) : v;
				want[n++] = f2u(v);
				sym_assert(faces == 6 ? t.setImage(img, (Texture::CubeFace)fc, m, d) : t.setImage(img, m, d), "setImage");
			}
	sym_assert(t.convert(TF::R32, TT::Float, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), threads), "convert");
	n = 0;
	for (unsigned m = 0; m < t.mipLevelCount(); m++)
		for (unsigned d = 0; d < t.depth(m); d++)
			for (unsigned fc = 0; fc < faces; fc++)
			{
				const uint32_t* p = (const uint32_t*)(faces == 6 ? t.data((Texture::CubeFace)fc, m, d) : t.data(m, d));
				size_t sz = faces == 6 ? t.dataSize((Texture::CubeFace)fc, m, d) : t.dataSize(m, d);
				sym_assert(sz == (size_t)t.width(m)*t.height(m)*4, "surface size");
				sym_assert(p[0] == want[n++], "a surface holds another surface's texels");
				unsigned bad = 0;
				for (unsigned y = 0; y < t.height(m); y++)
					for (unsigned x = 0; x < t.width(m); x++)
						if (x || y) bad += p[y*t.width(m) + x] != f2u((float)(y*100 + x));
				sym_assert(bad == 0, "texel at the wrong position");
			}
	sym_cover("done");
}
// Large textures: rows and texels beyond any small counter, one texel near the end symbolic.
SYM_ENTRY c03_large()
{
	unsigned w = (unsigned)sym_param("w", 300), h = (unsigned)sym_param("h", 221), threads = (unsigned)sym_param("threads", 1);
	const FmtInfo& f = kFormats[sym_param("f", 9)];
	TT type = (TT)sym_param("t", 0);
	unsigned at = (unsigned)sym_param("at", 1); // texels before the end
	if (threads > 1) env_threads(threads);
	Image img(IF::RGBAF, w, h);
	float s = sym_float("p");
	sym_assume(s == s);
	if (f.types == UF) sym_assume(sym_and(s >= 0.5f, s <= 0.75f));
	float div = type == TT::UInt || type == TT::Int ? 1.0f : 255.0f;
	unsigned sx = (w*h - 1 - at)%w, sy = (w*h - 1 - at)/w;
	for (unsigned y = 0; y < h; y++)
	{
		float* p = (float*)img.scanline(y);
		for (unsigned x = 0; x < w; x++) p[x*4] = (float)((x*3 + y*7) % 251)/div;
	}
	rgbaf(img, sx, sy)[0] = s;
	Texture t(Texture::Dimension::Dim2D, w, h);
	sym_assert(t.setImage(std::move(img)), "setImage");
	sym_assert(t.convert(f.format, type, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), threads), "convert");
	sym_assert(t.dataSize() == (size_t)w*h*f.bytes, "surface size");
	const uint8_t* d = (const uint8_t*)t.data();
	uint8_t ref[251][16];
	float px[4] = {0, 0, 0, 0};
	for (unsigned i = 0; i < 251; i++) { px[0] = (float)i/div; px[1] = px[2] = px[3] = 0; one(f, type, px, ref[i]); }
	unsigned bad = 0;
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++)
		{
			if (y == sy && x == sx) continue;
			const uint8_t* r = ref[(x*3 + y*7) % 251];
			const uint8_t* q = d + ((size_t)y*w + x)*f.bytes;
			for (int b = 0; b < f.bytes; b++) bad += q[b] != r[b];
		}
	sym_assert(bad == 0, "texel at the wrong position");
	px[0] = s;
	uint8_t r[16];
	one(f, type, px, r);
	int eq = 1;
	for (int b = 0; b < f.bytes; b++) eq = sym_and(eq, d[((size_t)sy*w + sx)*f.bytes + b] == r[b]);
	sym_assert(eq, "texel differs from the conversion of its own pixel");
	sym_cover("done");
}
