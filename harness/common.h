// Shared harness tables: an oracle for texel layouts written from the documentation of the formats
// (Texture.h), independent of the library's own tables.
#pragma once
#include <sym.h>
#include <cuttlefish/Texture.h>
#include <cuttlefish/Image.h>
#include <cuttlefish/Color.h>
#include <cmath>
#include <cstring>
#include <vector>
using namespace cuttlefish;
typedef Texture::Format TF;
typedef Texture::Type TT;
typedef Image::Format IF;

struct ChInfo { int src; int bits; int shift; }; // source channel (0..3 = r,g,b,a), width, bit offset in the texel
struct FmtInfo { TF format; int bytes; int n; ChInfo ch[4]; int types; }; // types: bit mask over Texture::Type
enum { UN = 1, SN = 2, UI = 4, SI = 8, UF = 16, FL = 32 };
static const FmtInfo kFormats[] = {
	{TF::R4G4, 1, 2, {{0, 4, 4}, {1, 4, 0}}, UN},
	{TF::R4G4B4A4, 2, 4, {{0, 4, 12}, {1, 4, 8}, {2, 4, 4}, {3, 4, 0}}, UN},
	{TF::B4G4R4A4, 2, 4, {{2, 4, 12}, {1, 4, 8}, {0, 4, 4}, {3, 4, 0}}, UN},
	{TF::A4R4G4B4, 2, 4, {{3, 4, 12}, {0, 4, 8}, {1, 4, 4}, {2, 4, 0}}, UN},
	{TF::R5G6B5, 2, 3, {{0, 5, 11}, {1, 6, 5}, {2, 5, 0}}, UN},
	{TF::B5G6R5, 2, 3, {{2, 5, 11}, {1, 6, 5}, {0, 5, 0}}, UN},
	{TF::R5G5B5A1, 2, 4, {{0, 5, 11}, {1, 5, 6}, {2, 5, 1}, {3, 1, 0}}, UN},
	{TF::B5G5R5A1, 2, 4, {{2, 5, 11}, {1, 5, 6}, {0, 5, 1}, {3, 1, 0}}, UN},
	{TF::A1R5G5B5, 2, 4, {{3, 1, 15}, {0, 5, 10}, {1, 5, 5}, {2, 5, 0}}, UN},
	{TF::R8, 1, 1, {{0, 8, 0}}, UN | SN | UI | SI},
	{TF::R8G8, 2, 2, {{0, 8, 0}, {1, 8, 8}}, UN | SN | UI | SI},
	{TF::R8G8B8, 3, 3, {{0, 8, 0}, {1, 8, 8}, {2, 8, 16}}, UN | SN | UI | SI},
	{TF::B8G8R8, 3, 3, {{2, 8, 0}, {1, 8, 8}, {0, 8, 16}}, UN},
	{TF::R8G8B8A8, 4, 4, {{0, 8, 0}, {1, 8, 8}, {2, 8, 16}, {3, 8, 24}}, UN | SN | UI | SI},
	{TF::B8G8R8A8, 4, 4, {{2, 8, 0}, {1, 8, 8}, {0, 8, 16}, {3, 8, 24}}, UN},
	{TF::A8B8G8R8, 4, 4, {{3, 8, 0}, {2, 8, 8}, {1, 8, 16}, {0, 8, 24}}, UN},
	{TF::A2R10G10B10, 4, 4, {{2, 10, 0}, {1, 10, 10}, {0, 10, 20}, {3, 2, 30}}, UN | UI},
	{TF::A2B10G10R10, 4, 4, {{0, 10, 0}, {1, 10, 10}, {2, 10, 20}, {3, 2, 30}}, UN | UI},
	{TF::R16, 2, 1, {{0, 16, 0}}, UN | SN | UI | SI | FL},
	{TF::R16G16, 4, 2, {{0, 16, 0}, {1, 16, 16}}, UN | SN | UI | SI | FL},
	{TF::R16G16B16, 6, 3, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}}, UN | SN | UI | SI | FL},
	{TF::R16G16B16A16, 8, 4, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}, {3, 16, 48}}, UN | SN | UI | SI | FL},
	{TF::R32, 4, 1, {{0, 32, 0}}, UI | SI | FL},
	{TF::R32G32, 8, 2, {{0, 32, 0}, {1, 32, 32}}, UI | SI | FL},
	{TF::R32G32B32, 12, 3, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}}, UI | SI | FL},
	{TF::R32G32B32A32, 16, 4, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}, {3, 32, 96}}, UI | SI | FL},
	{TF::B10G11R11_UFloat, 4, 3, {{0, 11, 0}, {1, 11, 11}, {2, 10, 22}}, UF},
	{TF::E5B9G9R9_UFloat, 4, 3, {{0, 9, 0}, {1, 9, 9}, {2, 9, 18}}, UF},
};
static const int kFormatCount = sizeof(kFormats)/sizeof(*kFormats);
static inline const FmtInfo* fmtInfo(TF f)
{
	for (int i = 0; i < kFormatCount; i++)
		if (kFormats[i].format == f) return &kFormats[i];
	return nullptr;
}
static inline bool fmtValid(int f, int t)
{
	if (t < 0 || t > 5) return false;
	const FmtInfo* i = fmtInfo((TF)f);
	return i && (i->types >> t & 1);
}
static inline bool fmtNativeSrgb(int f, int t)
{
	TF x = (TF)f;
	return t == 0 && (x == TF::R8G8B8 || x == TF::B8G8R8 || x == TF::R8G8B8A8 || x == TF::B8G8R8A8 || x == TF::A8B8G8R8);
}
// Extracts the code of channel c from the texel at p.
static inline uint64_t texCode(const uint8_t* p, const ChInfo& c)
{
	uint64_t v = 0;
	int b0 = c.shift/8, b1 = (c.shift + c.bits - 1)/8;
	for (int b = b1; b >= b0; b--) v = v << 8 | p[b];
	v >>= c.shift%8;
	return c.bits == 64 ? v : v & (((uint64_t)1 << c.bits) - 1);
}
static inline bool isNan(float f) { return f != f; }
// An RGBAF image of the given size; pixels are written through the scanlines.
static inline float* rgbaf(Image& i, unsigned x, unsigned y) { return reinterpret_cast<float*>(i.scanline(y)) + x*4; }
// A conversion whose options that do not concern the texel data of an uncompressed format are arbitrary.
static inline Texture::ColorMask anyMask()
{
	uint64_t m = sym_bits("colorMask", 4);
	return Texture::ColorMask((m & 1) != 0, (m >> 1 & 1) != 0, (m >> 2 & 1) != 0, (m >> 3 & 1) != 0);
}
static inline Texture::Quality anyQuality() { return (Texture::Quality)sym_range("quality", 0, 4); }
static inline Texture::Alpha anyAlpha() { return (Texture::Alpha)sym_range("alphaMode", 0, 3); }
