// Block-compressed formats: every block is encoded from its own pixels and stored at its own place.
#include "common.h"
#include "encmodel.h"
// Published block dimensions and sizes, in the order of Texture::Format from BC1_RGB on.
static const struct { unsigned w, h, bytes; } kBlocks[] = {
	{4,4,8},{4,4,8},{4,4,16},{4,4,16},{4,4,8},{4,4,16},{4,4,16},{4,4,16}, // BC1..BC7
	{4,4,8},{4,4,8},{4,4,8},{4,4,16},{4,4,8},{4,4,16}, // ETC, EAC
	{4,4,16},{5,4,16},{5,5,16},{6,5,16},{6,6,16},{8,5,16},{8,6,16},{8,8,16},{10,5,16},{10,6,16},{10,8,16},{10,10,16},{12,10,16},{12,12,16},
	{8,4,8},{8,4,8},{4,4,8},{4,4,8},{8,4,8},{4,4,8}}; // PVRTC
static const int kFirst = (int)TF::BC1_RGB;
enum { ETC_FIRST = 8, ASTC_FIRST = 14, PVRTC_FIRST = 28, ALL = 34 }; // indices into kBlocks
static bool isEtc(int k) { return k >= ETC_FIRST && k < ASTC_FIRST; }
static bool isAstc(int k) { return k >= ASTC_FIRST && k < PVRTC_FIRST; }
static bool isPvrtc(int k) { return k >= PVRTC_FIRST; }
// Within half a step of the exact value (floating point computations round once or twice on the way).
static int near8(float v, unsigned code, int sign)
{
	float lo = sign ? -1.0f : 0.0f, m = sign ? 127.0f : 255.0f;
	int c = sign ? (int)(int8_t)code : (int)code;
	// The difference is exact where it matters: m*v rounded once, then a subtraction of nearby numbers.
	float d = v*m - (float)c;
	int in = sym_and(sym_and(v >= lo, v <= 1.0f), sym_and(d <= 0.5001f, d >= -0.5001f));
	return sym_or(in, sym_or(sym_and(v < lo, c == (int)(lo*m)), sym_and(v > 1.0f, c == (int)m)));
}
struct Opts { Texture::Quality quality; Texture::Alpha alpha; Texture::ColorMask mask; bool srgb; };
static uint32_t le32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
// The block b of format k was made from the pixel p (the one enc_pixel selects), with the right encoder and settings.
// opaque: no pixel of the block is more than half transparent. pw, ph: pixels of the block inside the surface.
// moved: for signed EAC, the value of the channel of interest as the encoder takes it.
static void checkBlock(const uint8_t* b, int k, TT type, const float* p, float moved, const float* all16, const Opts& o, int opaque, unsigned pw, unsigned ph)
{
	int sn = type == TT::SNorm;
	if (isEtc(k))
	{
		static const int un[6] = {1, 2, 10, 4, 6, 8}, sr[6] = {1, 3, 11, 5, 6, 8};
		int e = k - ETC_FIRST, fmt = b[4] - ENC_ETC;
		sym_assert(sn ? fmt == un[e] + 1 : sym_or(fmt == un[e], fmt == sr[e]), "ETC format of the block");
		sym_assert(sym_and(b[5] == pw, b[6] == ph), "pixels of an ETC block inside the surface");
		float v = p[enc_channel];
		if (!sn) sym_assert(le32(b) == f2u(v), "an ETC block was not encoded from its own pixels");
		else
		{
			// The encoder takes signed values moved to 0..1.
			uint32_t u = le32(b);
			float g;
			memcpy(&g, &u, 4);
			double d = (double)g - ((double)v*0.5 + 0.5), m = v < 0 ? -(double)v : (double)v;
			sym_assert(sym_or(sym_or(enc_channel > 1, u == f2u(moved)), sym_and(d <= 1e-6*(1 + m), d >= -1e-6*(1 + m))), "a signed EAC block was not encoded from its own pixels");
		}
		return;
	}
	if (isAstc(k))
	{
		sym_assert(sym_and(b[4] == ENC_ASTC, sym_and(b[5] == kBlocks[k].w, b[6] == kBlocks[k].h)), "ASTC block dimensions");
		sym_assert(le32(b) == f2u(p[enc_channel]), "an ASTC block was not encoded from its own pixels");
		if (type == TT::UFloat) sym_assert(b[7] == 2 || b[7] == 3, "ASTC block of floating point values with a low dynamic range profile");
		else sym_assert(b[7] == 1 || (o.srgb && b[7] == 0), "ASTC block of normalized values with a high dynamic range profile");
		sym_assert(sym_or(!o.mask.r, b[8] == 0), "ASTC red channel");
		sym_assert(sym_or(!o.mask.g, b[9] == 1), "ASTC green channel");
		sym_assert(sym_or(!o.mask.b, b[10] == 2), "ASTC blue channel");
		sym_assert(sym_or(!o.mask.a, sym_or(sym_and(o.alpha != Texture::Alpha::None, b[11] == 3), sym_and(o.alpha == Texture::Alpha::None, b[11] == 5))), "ASTC alpha channel");
		return;
	}
	if (isPvrtc(k))
	{
		sym_assert(b[4] == ENC_PVRTC && b[5] == k - PVRTC_FIRST, "PVRTC format");
		sym_assert((b[6] != 0) == (o.alpha == Texture::Alpha::PreMultiplied), "PVRTC premultiplied alpha");
		for (int c = 0; c < 4; c++) sym_assert(near8(p[c], b[c], 0), "a PVRTC surface was not encoded from its own pixels");
		return;
	}
	int rgb = sym_and(near8(p[0], b[0], 0), sym_and(near8(p[1], b[1], 0), near8(p[2], b[2], 0)));
	switch (k)
	{
		case 0: // BC1 without alpha
			sym_assert(b[4] == ENC_BC1, "encoder of a BC1 block");
			sym_assert(rgb, "a BC1 block was not encoded from its own pixels");
			break;
		case 1: // BC1 with alpha: the encoder that knows transparency wherever some pixel is transparent, no transparent black elsewhere
			sym_assert(b[4] == ENC_BC1 || b[4] == ENC_SQUISH, "encoder of a BC1 block");
			if (b[4] == ENC_BC1)
			{
				sym_assert(opaque, "a BC1 block with transparent pixels was encoded without them");
				sym_assert(!b[6], "a BC1 block without transparent pixels may have some");
			}
			else
			{
				sym_assert(near8(p[3], b[3], 0), "alpha of a BC1 block");
				sym_assert(b[5] == (o.mask.r ? 1 : 0) + (o.mask.g ? 2 : 0) + (o.mask.b ? 4 : 0), "channels that count in a BC1 block");
			}
			sym_assert(rgb, "a BC1 block was not encoded from its own pixels");
			break;
		case 2: // BC2: 16 alphas of 4 bits, then colors, always with four of them
		{
			const uint8_t* c = b + 8;
			sym_assert(c[4] == ENC_BC1 && !c[5], "encoder of a BC2 block");
			sym_assert(sym_and(near8(p[0], c[0], 0), sym_and(near8(p[1], c[1], 0), near8(p[2], c[2], 0))), "a BC2 block was not encoded from its own pixels");
			int ok = 1;
			for (int i = 0; i < 16; i++)
			{
				unsigned a = b[i/2] >> (i % 2*4) & 15;
				float v = all16[i*4 + 3];
				double x = v < 0 ? 0 : v > 1 ? 1 : (double)v, d = x*15 - a;
				// Values are first rounded to 8 bits: half a step of 4 bits plus half a step of 8 bits.
				ok = sym_and(ok, sym_and(d <= 0.5 + 0.5*15/255 + 1e-4, d >= -0.5 - 0.5*15/255 - 1e-4));
			}
			sym_assert(ok, "alpha of a BC2 block");
			break;
		}
		case 3:
		{
			const uint8_t* c = b + 8;
			sym_assert(b[4] == ENC_BC4 && c[4] == ENC_BC1 && !c[5], "encoder of a BC3 block");
			sym_assert(sym_and(near8(p[0], c[0], 0), sym_and(near8(p[1], c[1], 0), near8(p[2], c[2], 0))), "a BC3 block was not encoded from its own pixels");
			sym_assert(near8(p[3], b[0], 0), "alpha of a BC3 block");
			break;
		}
		case 4: case 5:
			for (int c = 0; c < k - 3; c++)
			{
				sym_assert(b[c*8 + 4] == (sn ? ENC_BC4S : ENC_BC4), "encoder of a BC4 or BC5 block");
				sym_assert(near8(p[c], b[c*8], sn), "a BC4 or BC5 block was not encoded from its own pixels");
			}
			break;
		case 6:
		{
			sym_assert(b[6] == (type == TT::Float ? ENC_BC6S : ENC_BC6), "signedness of a BC6H block");
			// The half floats an uncompressed texture would have (C02).
			Image img(IF::RGBAF, 1, 1);
			memcpy(rgbaf(img, 0, 0), p, 16);
			Texture t(Texture::Dimension::Dim2D, 1, 1);
			t.setImage(std::move(img));
			t.convert(TF::R16G16B16, TT::Float, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
			const uint8_t* h = (const uint8_t*)t.data();
			int ok = 1;
			for (int i = 0; i < 6; i++) ok = sym_and(ok, b[i] == h[i]);
			sym_assert(ok, "a BC6H block was not encoded from its own pixels");
			break;
		}
		case 7:
			sym_assert(b[4] == ENC_BC7, "encoder of a BC7 block");
			sym_assert(sym_and(rgb, near8(p[3], b[3], 0)), "a BC7 block was not encoded from its own pixels");
			sym_assert(sym_and(sym_and(b[8] == o.mask.r, b[9] == o.mask.g), sym_and(b[10] == o.mask.b, b[11] == o.mask.a)), "channels that count in a BC7 block");
			break;
	}
}
static bool validType(int k, TT t)
{
	switch (t)
	{
		case TT::UNorm: return k != 6;
		case TT::SNorm: return k == 4 || k == 5 || k == 12 || k == 13;
		case TT::UFloat: return k == 6 || isAstc(k);
		case TT::Float: return k == 6;
		default: return false;
	}
}
static bool nativeSrgb(int k, TT t) { return t == TT::UNorm && k != 4 && k != 5 && k != 6 && k != 8 && k != 12 && k != 13; }
// Any pixel values, any quality, alpha and color mask: what one block is encoded from.
SYM_ENTRY c26_values()
{
	int k = (int)sym_param("k", 0);
	TT type = (TT)sym_param("t", 0);
	unsigned bw = kBlocks[k].w, bh = kBlocks[k].h;
	if (isPvrtc(k)) bw = bh = 8;
	Opts o;
	o.quality = (Texture::Quality)sym_range("quality", 0, 4);
	o.alpha = (Texture::Alpha)sym_range("alpha", 0, 3);
	unsigned at = (unsigned)sym_pick("pixel", 0, 1)*(bw*bh - 1), ch = (unsigned)sym_pick("channel", 0, type == TT::SNorm ? k == 4 || k == 12 ? 0 : 1 : 3);
	o.srgb = false;
	// Options that only concern the encoders' effort: once.
	if (at == 0 && ch == (type == TT::SNorm ? 0 : 3))
	{
		o.srgb = nativeSrgb(k, type) ? sym_pick("srgb", 0, 1) != 0 : false;
		o.mask = anyMask();
	}
	ColorSpace cs = o.srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Image img(IF::RGBAF, bw, bh, cs);
	int opaque = 1;
	for (unsigned i = 0; i < bw*bh; i++)
		for (unsigned c = 0; c < 4; c++)
		{
			float v = (float)((i*37 + c*59 + 11) % 251)/251.0f;
			if (c == 3) v = 0.6f + v*0.3f;
			if (i == at && c == ch) { v = sym_float("v"); sym_assume(sym_and(v >= -1e6f, v <= 1e6f)); }
			if (c == 3) opaque = sym_and(opaque, v >= 0.5f);
			rgbaf(img, i%bw, i/bw)[c] = v;
		}
	enc_pixel = at;
	enc_channel = ch;
	Texture t(Texture::Dimension::Dim2D, bw, bh, 0, 1, cs);
	sym_assert(t.setImage(img), "setImage");
	sym_assert(t.convert((TF)(kFirst + k), type, o.quality, o.alpha, o.mask, 1), "convert");
	if (!isPvrtc(k)) sym_assert(t.dataSize() == kBlocks[k].bytes, "surface size");
	std::vector<float> px((size_t)bw*bh*4);
	for (unsigned y = 0; y < bh; y++) memcpy(&px[y*bw*4], rgbaf(img, 0, y), bw*16);
	checkBlock((const uint8_t*)t.data(), k, type, &px[at*4], px[at*4 + ch]*0.5f + 0.5f, px.data(), o, opaque, bw, bh);
	sym_observe("first", ((const uint8_t*)t.data())[4]);
	sym_cover("done");
}
static float texel(unsigned s, unsigned x, unsigned y, unsigned c, int k, TT type)
{
	unsigned n = s*1000 + y*64 + x;
	if (isEtc(k) || isAstc(k)) { float v = (float)(n*4 + c)/16384.0f; return type == TT::SNorm ? v*2 - 1 : v; }
	if (k == 6) return (float)(n*4 + c)/64.0f;
	// Neighbouring pixels differ in every channel.
	float v = (float)((n*(c*2 + 3) + c*59 + 7) % 251)/250.0f;
	if (c == 3) v = 0.5f + v*0.5f;
	return type == TT::SNorm ? v*2 - 1 : v;
}
static void fill(Image& img, unsigned s, int k, TT type)
{
	for (unsigned y = 0; y < img.height(); y++)
		for (unsigned x = 0; x < img.width(); x++)
			for (unsigned c = 0; c < 4; c++) rgbaf(img, x, y)[c] = texel(s, x, y, c, k, type);
}
// Every block of a surface, for the pixel of each that sel (symbolic) selects.
static void checkSurface(const uint8_t* d, size_t size, unsigned s, unsigned w, unsigned h, int k, TT type, const Opts& o, unsigned sel)
{
	if (isPvrtc(k))
	{
		std::vector<float> p((size_t)w*h*4);
		for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (unsigned c = 0; c < 4; c++) p[((size_t)y*w + x)*4 + c] = texel(s, x, y, c, k, type);
		float one[4];
		enc_select((uint8_t*)one, p.data(), 16, 16, sel, (unsigned)p.size()/4);
		checkBlock(d, k, type, one, 0, nullptr, o, 1, w, h);
		return;
	}
	unsigned bw = kBlocks[k].w, bh = kBlocks[k].h, nx = (w + bw - 1)/bw, ny = (h + bh - 1)/bh, bytes = kBlocks[k].bytes;
	sym_assert(size == (size_t)nx*ny*bytes, "surface size");
	std::vector<float> p((size_t)bw*bh*4);
	for (unsigned by = 0; by < ny; by++)
		for (unsigned bx = 0; bx < nx; bx++)
		{
			unsigned pw = w - bx*bw < bw ? w - bx*bw : bw, ph = h - by*bh < bh ? h - by*bh : bh;
			// Pixels past the edge repeat the last ones (ETC has none; the model stores the last one then).
			for (unsigned y = 0; y < bh; y++)
				for (unsigned x = 0; x < bw; x++)
					for (unsigned c = 0; c < 4; c++) p[(y*bw + x)*4 + c] = texel(s, bx*bw + (x < pw ? x : pw - 1), by*bh + (y < ph ? y : ph - 1), c, k, type);
			float one[4];
			enc_select((uint8_t*)one, p.data(), 16, 16, sel, (unsigned)p.size()/4);
			float moved = 0;
			if (isEtc(k) && type == TT::SNorm)
			{
				std::vector<float> q(p);
				for (float& v : q) v = v*0.5f + 0.5f;
				enc_select((uint8_t*)&moved, q.data() + enc_channel, 16, 4, sel, (unsigned)q.size()/4);
			}
			checkBlock(d + ((size_t)by*nx + bx)*bytes, k, type, one, moved, p.data(), o, 1, pw, ph);
		}
}
static Opts plain() { Opts o; o.quality = Texture::Quality::Normal; o.alpha = Texture::Alpha::Standard; o.srgb = false; return o; }
static void surface(unsigned w, unsigned h, int k, TT type, unsigned threads)
{
	Opts o = plain();
	Image img(IF::RGBAF, w, h);
	fill(img, 0, k, type);
	unsigned n = isPvrtc(k) ? w*h : kBlocks[k].w*kBlocks[k].h;
	unsigned sel = (unsigned)sym_range("pixel", 0, n - 1);
	enc_pixel = sel;
	enc_channel = (unsigned)sym_param("channel", 0);
	Texture t(Texture::Dimension::Dim2D, w, h);
	sym_assert(t.setImage(std::move(img)), "setImage");
	sym_assert(t.convert((TF)(kFirst + k), type, o.quality, o.alpha, o.mask, threads), "convert");
	checkSurface((const uint8_t*)t.data(), t.dataSize(), 0, w, h, k, type, o, sel);
	sym_cover("done");
}
SYM_ENTRY c26_sizes()
{
	int k = (int)sym_param("k", 0);
	unsigned bw = isPvrtc(k) ? 4 : kBlocks[k].w, bh = isPvrtc(k) ? 4 : kBlocks[k].h;
	unsigned ws[6] = {1, bw - 1, bw, bw + 1, 2*bw - 1, 2*bw + 1}, hs[6] = {1, bh - 1, bh, bh + 1, 2*bh - 1, 2*bh + 1};
	unsigned w = ws[sym_pick("w", 0, (uint64_t)sym_param("sizes", 6) - 1)], h = hs[sym_pick("h", 0, (uint64_t)sym_param("sizes", 6) - 1)];
	surface(w, h, k, (TT)sym_param("t", 0), 1);
}
SYM_ENTRY c26_threads()
{
	int k = (int)sym_param("k", 0);
	unsigned threads = (unsigned)sym_param("threads", 2);
	env_threads(threads);
	surface((unsigned)sym_param("w", 6), (unsigned)sym_param("h", 5), k, (TT)sym_param("t", 0), threads);
}
// Every level, layer and face holds its own image.
SYM_ENTRY c26_surfaces()
{
	int k = (int)sym_param("k", 0);
	TT type = (TT)sym_param("t", 0);
	int kind = (int)sym_pick("kind", 0, 3);
	Texture::Dimension dim = kind == 0 ? Texture::Dimension::Dim1D : kind == 1 ? Texture::Dimension::Dim2D : kind == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube;
	unsigned layers = kind == 2 ? 2 : (unsigned)sym_pick("layers", 0, 2), w = kBlocks[k].w + 1, h = kind == 0 ? 1 : kind == 3 ? w : kBlocks[k].h + 1;
	Opts o = plain();
	Texture t(dim, w, h, layers, 3);
	for (unsigned m = 0, s = 0; m < t.mipLevelCount(); m++) for (unsigned d = 0; d < t.depth(m); d++) for (unsigned f = 0; f < t.faceCount(); f++, s++)
	{
		Image img(IF::RGBAF, t.width(m), t.height(m));
		fill(img, s, k, type);
		sym_assert(t.setImage(std::move(img), (Texture::CubeFace)f, m, d), "setImage");
	}
	unsigned n = isPvrtc(k) ? 1 : kBlocks[k].w*kBlocks[k].h;
	unsigned sel = n == 1 ? 0 : (unsigned)sym_range("pixel", 0, n - 1);
	enc_pixel = sel;
	enc_channel = (unsigned)sym_param("channel", 0);
	sym_assert(t.convert((TF)(kFirst + k), type, o.quality, o.alpha, o.mask, 1), "convert");
	for (unsigned m = 0, s = 0; m < t.mipLevelCount(); m++) for (unsigned d = 0; d < t.depth(m); d++) for (unsigned f = 0; f < t.faceCount(); f++, s++)
		checkSurface((const uint8_t*)t.data((Texture::CubeFace)f, m, d), t.dataSize((Texture::CubeFace)f, m, d), s, t.width(m), t.height(m), k, type, o, sel);
	sym_cover("done");
}
// A history of conversions: each uses the settings asked for, whatever was converted before (encoders keep state between conversions).
SYM_ENTRY c26_history()
{
	unsigned threads = (unsigned)sym_param("threads", 1), steps = (unsigned)sym_param("steps", 3);
	int family = (int)sym_param("family", 0); // 0: ASTC
	if (threads > 1) env_threads(threads);
	enc_channel = 1;
	for (unsigned i = 0; i < steps; i++)
	{
		int k = family == 0 ? ASTC_FIRST + (int)sym_pick("k", 0, (uint64_t)sym_param("formats", 2) - 1) : (int)sym_pick("k", 0, 7);
		TT type = k == 6 ? TT::UFloat : family == 0 && sym_pick("hdr", 0, 1) ? TT::UFloat : TT::UNorm;
		Opts o = plain();
		if (family == 0) o.quality = sym_pick("quality", 0, 1) ? Texture::Quality::Highest : Texture::Quality::Low;
		unsigned w = kBlocks[k].w + 1, h = kBlocks[k].h;
		Image img(IF::RGBAF, w, h);
		fill(img, i, k, type);
		Texture t(Texture::Dimension::Dim2D, w, h);
		enc_pixel = 1;
		t.setImage(std::move(img));
		sym_assert(t.convert((TF)(kFirst + k), type, o.quality, o.alpha, o.mask, threads), "convert");
		const uint8_t* d = (const uint8_t*)t.data();
		checkSurface(d, t.dataSize(), i, w, h, k, type, o, 1);
		if (family == 0) sym_assert((d[12] == 100) == (o.quality == Texture::Quality::Highest), "an ASTC block was encoded with another quality than asked for");
	}
	sym_cover("done");
}
