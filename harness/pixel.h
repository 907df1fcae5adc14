// An oracle for the raw pixels of an image of every format, written from the documentation.
#pragma once
#include "snap.h"
// kind: 'n' normalised of the given bits, 'i' signed integer, 'u' unsigned integer, 'f' float, 'd' double
struct PixInfo { IF f; int bits; int n; char kind; bool gray; struct { int src, bits, shift; } ch[4]; };
static const PixInfo kPix[] = {
	{IF::Invalid, 0, 0, 0, false, {}},
	{IF::Gray8, 8, 1, 'n', true, {{0, 8, 0}}},
	{IF::Gray16, 16, 1, 'n', true, {{0, 16, 0}}},
	{IF::RGB5, 16, 3, 'n', false, {{0, 5, 10}, {1, 5, 5}, {2, 5, 0}}},
	{IF::RGB565, 16, 3, 'n', false, {{0, 5, 11}, {1, 6, 5}, {2, 5, 0}}},
	{IF::RGB8, 24, 3, 'n', false, {{0, 8, 16}, {1, 8, 8}, {2, 8, 0}}},
	{IF::RGB16, 48, 3, 'n', false, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}}},
	{IF::RGBF, 96, 3, 'f', false, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}}},
	{IF::RGBA8, 32, 4, 'n', false, {{0, 8, 16}, {1, 8, 8}, {2, 8, 0}, {3, 8, 24}}},
	{IF::RGBA16, 64, 4, 'n', false, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}, {3, 16, 48}}},
	{IF::RGBAF, 128, 4, 'f', false, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}, {3, 32, 96}}},
	{IF::Int16, 16, 1, 'i', false, {{0, 16, 0}}},
	{IF::UInt16, 16, 1, 'u', false, {{0, 16, 0}}},
	{IF::Int32, 32, 1, 'i', false, {{0, 32, 0}}},
	{IF::UInt32, 32, 1, 'u', false, {{0, 32, 0}}},
	{IF::Float, 32, 1, 'f', true, {{0, 32, 0}}},
	{IF::Double, 64, 1, 'd', true, {{0, 64, 0}}},
	{IF::Complex, 128, 2, 'd', false, {{0, 64, 0}, {1, 64, 64}}},
};
static inline uint64_t pixCode(const uint8_t* p, int bits, int shift)
{
	uint64_t v = 0;
	for (int b = (shift + bits - 1)/8; b >= shift/8; b--) v = v << 8 | p[b];
	v >>= shift % 8;
	return bits == 64 ? v : v & (((uint64_t)1 << bits) - 1);
}
static inline uint64_t pixCode(const PixInfo& f, int c, const void* row, unsigned x) { return pixCode((const uint8_t*)row + x*(f.bits/8), f.ch[c].bits, f.ch[c].shift); }
static inline double pixValue(const PixInfo& f, int c, uint64_t code)
{
	int bits = f.ch[c].bits;
	if (f.kind == 'n') return (double)(uint32_t)code/(double)((1u << bits) - 1);
	if (f.kind == 'u') return (double)(uint32_t)code;
	if (f.kind == 'i') return bits == 16 ? (double)(int16_t)code : (double)(int32_t)code;
	if (f.kind == 'f') { uint32_t u = (uint32_t)code; float v; memcpy(&v, &u, 4); return v; }
	double d; memcpy(&d, &code, 8); return d;
}
// The colour of a pixel according to its raw data.
static inline void pixColor(const PixInfo& f, const void* row, unsigned x, double* out)
{
	out[0] = out[1] = out[2] = 0; out[3] = 1;
	for (int c = 0; c < f.n; c++) out[f.ch[c].src] = pixValue(f, c, pixCode(f, c, row, x));
	if (f.n == 1) out[1] = out[2] = out[0];
}
// The code is a nearest one to v (which may lie outside the range), with a little slack for the order of operations.
static inline int pixNearest(const PixInfo& f, int c, uint64_t code, double v)
{
	int bits = f.ch[c].bits;
	if (f.kind == 'f') { float w = (float)v; return sym_or(f2u(w) == (uint32_t)code, sym_and(w != w, pixValue(f, c, code) != pixValue(f, c, code))); }
	if (f.kind == 'd') return sym_or(d2u(v) == code, sym_and(v != v, pixValue(f, c, code) != pixValue(f, c, code)));
	double lo, hi, q;
	if (f.kind == 'n') { lo = 0; hi = (double)((1u << bits) - 1); q = (double)(uint32_t)code; v = v < 1 ? v : 1; v = v > 0 ? v : 0; v *= hi; }
	else { lo = f.kind == 'u' ? 0 : bits == 16 ? -32768.0 : -2147483648.0; hi = f.kind == 'u' ? (bits == 16 ? 65535.0 : 4294967295.0) : bits == 16 ? 32767.0 : 2147483647.0; q = pixValue(f, c, code); }
	v = v < hi ? v : hi; v = v > lo ? v : lo;
	return sym_and(q - v <= 0.5 + 1e-9, v - q <= 0.5 + 1e-9);
}
// Rec. 709 luminance and the sRGB transfer functions.
static inline double refGray(double r, double g, double b) { return r*0.2126 + g*0.7152 + b*0.0722; }
static inline double refToLinear(double c) { return c <= 0.04045 ? c/12.92 : pow((c + 0.055)/1.055, 2.4); }
static inline double refToSRGB(double c) { return c <= 0.0031308 ? 12.92*c : 1.055*pow(c, 1.0/2.4) - 0.055; }
// Within half a step, or a small relative error for floating point.
static inline int pixClose(const PixInfo& f, int c, uint64_t code, double v)
{
	int bits = f.ch[c].bits;
	double q = pixValue(f, c, code);
	if (f.kind == 'f' || f.kind == 'd')
	{
		double e = (f.kind == 'f' ? 1e-6 : 1e-12)*(1 + (v < 0 ? -v : v));
		return sym_or(q == v, sym_and(q - v <= e, v - q <= e));
	}
	double lo, hi;
	if (f.kind == 'n') { lo = 0; hi = (double)((1u << bits) - 1); q = (double)(uint32_t)code; v *= hi; }
	else { lo = f.kind == 'u' ? 0 : bits == 16 ? -32768.0 : -2147483648.0; hi = f.kind == 'u' ? (bits == 16 ? 65535.0 : 4294967295.0) : bits == 16 ? 32767.0 : 2147483647.0; }
	v = v < hi ? v : hi; v = v > lo ? v : lo;
	return sym_and(q - v <= 0.5 + 1e-6, v - q <= 0.5 + 1e-6);
}
static inline bool isNan(double d) { return d != d; }
static void fillRaw(Image& i, const char* name, int symbolicRow = 0)
{
	unsigned n = i.width()*i.bitsPerPixel()/8;
	for (unsigned y = 0; y < i.height(); y++)
	{
		uint8_t* p = (uint8_t*)i.scanline(y);
		for (unsigned b = 0; b < n; b++) p[b] = (int)y == symbolicRow ? (uint8_t)sym_bits(name, 8) : (uint8_t)(b*29 + y*7 + 5);
	}
}

// Writes one pixel: channel "which" takes every code (floating point: 1024 values from -0.5 to 1.5; 32-bit integers: 4096
// values), the others are one of two values each.
static void fillOne(const PixInfo& f, Image& i, unsigned x, unsigned y, int which, double lo = -0.5, double hi = 1.5)
{
	uint8_t* p = (uint8_t*)i.scanline(y) + x*f.bits/8;
	if (f.kind == 'f' || f.kind == 'd')
	{
		for (int k = 0; k < f.n; k++)
		{
			double d = k == which ? (double)(uint32_t)sym_bits("step", 10)*(hi - lo)/1024.0 + lo : sym_pick("other", 0, 1) ? 0.75 : 0.01;
			if (f.kind == 'f') { float v = (float)d; memcpy(p + f.ch[k].shift/8, &v, 4); } else memcpy(p + f.ch[k].shift/8, &d, 8);
		}
		return;
	}
	if (f.bits == 32 && f.n == 1) { uint32_t v = (uint32_t)sym_bits("step", 12)*1048813u; memcpy(p, &v, 4); return; }
	uint64_t v = 0;
	for (int k = 0; k < f.n; k++)
	{
		uint64_t max = ((uint64_t)1 << f.ch[k].bits) - 1;
		uint64_t c = k == which ? (uint64_t)sym_bits("code", f.ch[k].bits) & max : sym_pick("other", 0, 1) ? max*3/4 : 3;
		v |= c << f.ch[k].shift;
	}
	for (int b = 0; b < f.bits/8; b++) p[b] = (uint8_t)(v >> 8*b);
}
// A larger image: distinct plain values, and one arbitrary byte in its last pixel.
static void fillBig(const PixInfo& f, Image& i)
{
	double k = f.kind == 'i' ? 30000 : f.kind == 'u' ? 60000 : 1;
	unsigned w = i.width(), h = i.height();
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) i.setPixel(x, y, {k*((x*7 + y*13) % 97)/97, k*((x*11 + y*3 + 5) % 89)/89, k*(x + y + 1)/(w + h), k*((x + y*5) % 23 + 1)/24}, false);
	((uint8_t*)i.scanline(h - 1))[(w - 1)*f.bits/8] = (uint8_t)sym_bits("byte", 8);
}
