// Model of the FreeImage functions the code under test uses, written against the real header and
// cross-checked against the real library by the trace validation of every check. Rescale is exact
// only for images whose pixels are all equal (harnesses that resize use such images); file formats
// are reduced to uncompressed BMP through the I/O callbacks and to registered in-memory prototypes.
#include <sym.h>
#include <FreeImage.h>
#include <cstring>
#include <cstdlib>
#include <new>
#include <strings.h>
#include <cstdio>

extern "C" {
int model_file_open(const char* path, int mode);
long model_file_write(int fd, const void* p, long n);
long model_file_read(int fd, void* p, long n);
long model_file_seek(int fd, long off, int dir);
int model_file_close(int fd);
}

namespace
{
// pal: nullptr for a linear ramp from black to white.
struct Bmp { FREE_IMAGE_TYPE type; unsigned bpp, w, h, pitch, rm, gm, bm; BYTE* bits; RGBQUAD* pal; FREE_IMAGE_COLOR_TYPE ptype; };
Bmp* B(FIBITMAP* b) { return (Bmp*)b->data; }
struct Proto { char path[64]; FIBITMAP* bmp; };
Proto g_protos[32]; int g_nprotos;

unsigned typeBpp(FREE_IMAGE_TYPE t, unsigned bpp)
{
	switch (t)
	{
		case FIT_BITMAP: return bpp;
		case FIT_UINT16: case FIT_INT16: return 16;
		case FIT_UINT32: case FIT_INT32: case FIT_FLOAT: return 32;
		case FIT_DOUBLE: return 64;
		case FIT_COMPLEX: return 128;
		case FIT_RGB16: return 48;
		case FIT_RGBA16: return 64;
		case FIT_RGBF: return 96;
		case FIT_RGBAF: return 128;
		default: return 0;
	}
}
FIBITMAP* make(FREE_IMAGE_TYPE type, unsigned w, unsigned h, unsigned bpp = 8, unsigned rm = 0, unsigned gm = 0, unsigned bm = 0)
{
	bpp = typeBpp(type, bpp);
	if (!w || !h || !bpp) return nullptr;
	if (type == FIT_BITMAP && bpp >= 24) { rm = FI_RGBA_RED_MASK; gm = FI_RGBA_GREEN_MASK; bm = FI_RGBA_BLUE_MASK; }
	else if (!(type == FIT_BITMAP && bpp == 16)) rm = gm = bm = 0;
	unsigned long line = ((unsigned long)w*bpp + 7)/8;
	unsigned long pitch = (line + 3) & ~3ul;
	if (pitch*h > 0x40000000ul) return nullptr;
	Bmp* b = (Bmp*)malloc(sizeof(Bmp));
	b->type = type; b->bpp = bpp; b->w = w; b->h = h; b->pitch = (unsigned)pitch; b->rm = rm; b->gm = gm; b->bm = bm;
	b->bits = (BYTE*)calloc(1, pitch*h); b->pal = nullptr; b->ptype = FIC_MINISBLACK;
	FIBITMAP* r = (FIBITMAP*)malloc(sizeof(FIBITMAP));
	r->data = b;
	return r;
}
BYTE* line(FIBITMAP* b, unsigned y) { return B(b)->bits + (size_t)y*B(b)->pitch; }
FIBITMAP* clone(FIBITMAP* s)
{
	Bmp* b = B(s);
	FIBITMAP* r = make(b->type, b->w, b->h, b->bpp, b->rm, b->gm, b->bm);
	if (r) memcpy(B(r)->bits, b->bits, (size_t)b->pitch*b->h);
	if (r && b->pal) { B(r)->pal = (RGBQUAD*)malloc(256*sizeof(RGBQUAD)); memcpy(B(r)->pal, b->pal, 256*sizeof(RGBQUAD)); B(r)->ptype = b->ptype; }
	return r;
}
BYTE grey(BYTE r, BYTE g, BYTE b) { return (BYTE)((0.2126F*r + 0.7152F*g + 0.0722F*b) + 0.5F); }
bool is565(Bmp* b) { return b->gm == FI16_565_GREEN_MASK; }
// 8-bit channels of a standard bitmap pixel.
struct Px { BYTE r, g, b, a; };
Px px(FIBITMAP* s, unsigned x, unsigned y)
{
	Bmp* b = B(s);
	BYTE* l = line(s, y);
	Px p; p.a = 0xFF;
	switch (b->bpp)
	{
		case 1: case 4: case 8:
		{
			unsigned i = b->bpp == 8 ? l[x] : b->bpp == 4 ? (l[x/2] >> (x%2 ? 0 : 4)) & 15 : (l[x/8] >> (7 - x%8)) & 1;
			if (b->pal) { p.r = b->pal[i].rgbRed; p.g = b->pal[i].rgbGreen; p.b = b->pal[i].rgbBlue; }
			else p.r = p.g = p.b = (BYTE)i;
			break;
		}
		case 16:
		{
			WORD v = ((WORD*)l)[x];
			if (is565(b))
			{
				p.r = (BYTE)((((v & FI16_565_RED_MASK) >> FI16_565_RED_SHIFT)*0xFF)/0x1F);
				p.g = (BYTE)((((v & FI16_565_GREEN_MASK) >> FI16_565_GREEN_SHIFT)*0xFF)/0x3F);
				p.b = (BYTE)((((v & FI16_565_BLUE_MASK) >> FI16_565_BLUE_SHIFT)*0xFF)/0x1F);
			}
			else
			{
				p.r = (BYTE)((((v & FI16_555_RED_MASK) >> FI16_555_RED_SHIFT)*0xFF)/0x1F);
				p.g = (BYTE)((((v & FI16_555_GREEN_MASK) >> FI16_555_GREEN_SHIFT)*0xFF)/0x1F);
				p.b = (BYTE)((((v & FI16_555_BLUE_MASK) >> FI16_555_BLUE_SHIFT)*0xFF)/0x1F);
			}
			break;
		}
		case 24: p.r = l[3*x + FI_RGBA_RED]; p.g = l[3*x + FI_RGBA_GREEN]; p.b = l[3*x + FI_RGBA_BLUE]; break;
		default: p.r = l[4*x + FI_RGBA_RED]; p.g = l[4*x + FI_RGBA_GREEN]; p.b = l[4*x + FI_RGBA_BLUE]; p.a = l[4*x + FI_RGBA_ALPHA]; break;
	}
	return p;
}
float clamp01(float f) { return f < 0.0F ? 0.0F : f > 1.0F ? 1.0F : f; }
float luma(float r, float g, float b) { return 0.2126F*r + 0.7152F*g + 0.0722F*b; }
template <typename F> FIBITMAP* each(FIBITMAP* s, FIBITMAP* d, F f)
{
	if (!d) return nullptr;
	for (unsigned y = 0; y < B(s)->h; ++y)
		for (unsigned x = 0; x < B(s)->w; ++x) f(line(s, y), line(d, y), x, y);
	return d;
}
FIBITMAP* to16(FIBITMAP* s, bool dst565)
{
	if (!s || B(s)->type != FIT_BITMAP) return nullptr;
	if (B(s)->bpp == 16 && is565(B(s)) == dst565) return clone(s);
	FIBITMAP* d = dst565 ? make(FIT_BITMAP, B(s)->w, B(s)->h, 16, FI16_565_RED_MASK, FI16_565_GREEN_MASK, FI16_565_BLUE_MASK) :
		make(FIT_BITMAP, B(s)->w, B(s)->h, 16, FI16_555_RED_MASK, FI16_555_GREEN_MASK, FI16_555_BLUE_MASK);
	return each(s, d, [&](BYTE*, BYTE* o, unsigned x, unsigned y)
	{
		Px p = px(s, x, y);
		((WORD*)o)[x] = dst565 ? (WORD)((p.b >> 3) | ((p.g >> 2) << 5) | ((p.r >> 3) << 11)) : (WORD)((p.b >> 3) | ((p.g >> 3) << 5) | ((p.r >> 3) << 10));
	});
}
bool ext(const char* e, const char* const* list)
{
	for (; *list; ++list) if (strcasecmp(e, *list) == 0) return true;
	return false;
}
} // namespace

extern "C" {
void DLL_CALLCONV FreeImage_Initialise(BOOL) {}
void DLL_CALLCONV FreeImage_DeInitialise(void) {}
FIBITMAP* DLL_CALLCONV FreeImage_Allocate(int w, int h, int bpp, unsigned r, unsigned g, unsigned b) { return make(FIT_BITMAP, w < 0 ? -w : w, h < 0 ? -h : h, bpp, r, g, b); }
FIBITMAP* DLL_CALLCONV FreeImage_AllocateT(FREE_IMAGE_TYPE t, int w, int h, int bpp, unsigned r, unsigned g, unsigned b) { return make(t, w < 0 ? 0u - (unsigned)w : w, h < 0 ? 0u - (unsigned)h : h, bpp, r, g, b); }
FIBITMAP* DLL_CALLCONV FreeImage_Clone(FIBITMAP* s) { return s ? clone(s) : nullptr; }
void DLL_CALLCONV FreeImage_Unload(FIBITMAP* s) { if (s) { free(B(s)->bits); if (B(s)->pal) free(B(s)->pal); free(s->data); free(s); } }
FREE_IMAGE_TYPE DLL_CALLCONV FreeImage_GetImageType(FIBITMAP* s) { return s ? B(s)->type : FIT_UNKNOWN; }
BOOL DLL_CALLCONV FreeImage_HasPixels(FIBITMAP* s) { return s != nullptr; }
unsigned DLL_CALLCONV FreeImage_GetBPP(FIBITMAP* s) { return s ? B(s)->bpp : 0; }
unsigned DLL_CALLCONV FreeImage_GetWidth(FIBITMAP* s) { return s ? B(s)->w : 0; }
unsigned DLL_CALLCONV FreeImage_GetHeight(FIBITMAP* s) { return s ? B(s)->h : 0; }
unsigned DLL_CALLCONV FreeImage_GetLine(FIBITMAP* s) { return s ? (B(s)->w*B(s)->bpp + 7)/8 : 0; }
unsigned DLL_CALLCONV FreeImage_GetPitch(FIBITMAP* s) { return s ? B(s)->pitch : 0; }
unsigned DLL_CALLCONV FreeImage_GetRedMask(FIBITMAP* s) { return s ? B(s)->rm : 0; }
unsigned DLL_CALLCONV FreeImage_GetGreenMask(FIBITMAP* s) { return s ? B(s)->gm : 0; }
unsigned DLL_CALLCONV FreeImage_GetBlueMask(FIBITMAP* s) { return s ? B(s)->bm : 0; }
unsigned DLL_CALLCONV FreeImage_GetColorsUsed(FIBITMAP* s) { return s && B(s)->bpp <= 8 ? 1u << B(s)->bpp : 0; }
BYTE* DLL_CALLCONV FreeImage_GetBits(FIBITMAP* s) { return s ? B(s)->bits : nullptr; }
BYTE* DLL_CALLCONV FreeImage_GetScanLine(FIBITMAP* s, int y) { return s ? B(s)->bits + (size_t)y*B(s)->pitch : nullptr; }
FREE_IMAGE_COLOR_TYPE DLL_CALLCONV FreeImage_GetColorType(FIBITMAP* s)
{
	switch (B(s)->type)
	{
		case FIT_BITMAP: return B(s)->bpp <= 8 ? B(s)->ptype : B(s)->bpp == 32 ? FIC_RGBALPHA : FIC_RGB;
		case FIT_RGB16: case FIT_RGBF: return FIC_RGB;
		case FIT_RGBA16: case FIT_RGBAF: return FIC_RGBALPHA;
		default: return FIC_MINISBLACK;
	}
}
BOOL DLL_CALLCONV FreeImage_IsTransparent(FIBITMAP* s) { return FreeImage_GetColorType(s) == FIC_RGBALPHA; }

FIBITMAP* DLL_CALLCONV FreeImage_ConvertTo8Bits(FIBITMAP* s)
{
	if (!s) return nullptr;
	if (B(s)->type == FIT_UINT16)
		return each(s, make(FIT_BITMAP, B(s)->w, B(s)->h, 8), [](BYTE* i, BYTE* o, unsigned x, unsigned) { o[x] = (BYTE)(((WORD*)i)[x] >> 8); });
	if (B(s)->type != FIT_BITMAP) return nullptr;
	if (B(s)->bpp == 8) return clone(s);
	if (B(s)->bpp < 8)
	{
		sym_assert(B(s)->ptype == FIC_MINISBLACK, "model: FreeImage_ConvertTo8Bits with a palette");
		return each(s, make(FIT_BITMAP, B(s)->w, B(s)->h, 8), [&](BYTE*, BYTE* o, unsigned x, unsigned y) { o[x] = px(s, x, y).r; });
	}
	return each(s, make(FIT_BITMAP, B(s)->w, B(s)->h, 8), [&](BYTE*, BYTE* o, unsigned x, unsigned y) { Px p = px(s, x, y); o[x] = grey(p.r, p.g, p.b); });
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToGreyscale(FIBITMAP* s)
{
	if (s && B(s)->type == FIT_BITMAP && B(s)->bpp <= 8 && B(s)->ptype != FIC_MINISBLACK)
		return each(s, make(FIT_BITMAP, B(s)->w, B(s)->h, 8), [&](BYTE*, BYTE* o, unsigned x, unsigned y) { Px p = px(s, x, y); o[x] = grey(p.r, p.g, p.b); });
	return FreeImage_ConvertTo8Bits(s);
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertTo16Bits555(FIBITMAP* s) { return to16(s, false); }
FIBITMAP* DLL_CALLCONV FreeImage_ConvertTo16Bits565(FIBITMAP* s) { return to16(s, true); }
FIBITMAP* DLL_CALLCONV FreeImage_ConvertTo24Bits(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_RGB16 || b->type == FIT_RGBA16)
	{
		unsigned n = b->type == FIT_RGB16 ? 3 : 4;
		return each(s, make(FIT_BITMAP, b->w, b->h, 24), [n](BYTE* i, BYTE* o, unsigned x, unsigned)
		{
			WORD* w = (WORD*)i + (size_t)x*n;
			o[3*x + FI_RGBA_RED] = (BYTE)(w[0] >> 8); o[3*x + FI_RGBA_GREEN] = (BYTE)(w[1] >> 8); o[3*x + FI_RGBA_BLUE] = (BYTE)(w[2] >> 8);
		});
	}
	if (b->type != FIT_BITMAP) return nullptr;
	if (b->bpp == 24) return clone(s);
	return each(s, make(FIT_BITMAP, b->w, b->h, 24), [&](BYTE*, BYTE* o, unsigned x, unsigned y)
	{
		Px p = px(s, x, y);
		o[3*x + FI_RGBA_RED] = p.r; o[3*x + FI_RGBA_GREEN] = p.g; o[3*x + FI_RGBA_BLUE] = p.b;
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertTo32Bits(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_RGB16 || b->type == FIT_RGBA16)
	{
		unsigned n = b->type == FIT_RGB16 ? 3 : 4;
		return each(s, make(FIT_BITMAP, b->w, b->h, 32), [n](BYTE* i, BYTE* o, unsigned x, unsigned)
		{
			WORD* w = (WORD*)i + (size_t)x*n;
			o[4*x + FI_RGBA_RED] = (BYTE)(w[0] >> 8); o[4*x + FI_RGBA_GREEN] = (BYTE)(w[1] >> 8); o[4*x + FI_RGBA_BLUE] = (BYTE)(w[2] >> 8);
			o[4*x + FI_RGBA_ALPHA] = n == 4 ? (BYTE)(w[3] >> 8) : 0xFF;
		});
	}
	if (b->type != FIT_BITMAP) return nullptr;
	if (b->bpp == 32) return clone(s);
	return each(s, make(FIT_BITMAP, b->w, b->h, 32), [&](BYTE*, BYTE* o, unsigned x, unsigned y)
	{
		Px p = px(s, x, y);
		o[4*x + FI_RGBA_RED] = p.r; o[4*x + FI_RGBA_GREEN] = p.g; o[4*x + FI_RGBA_BLUE] = p.b; o[4*x + FI_RGBA_ALPHA] = p.a;
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToRGB16(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_RGB16) return clone(s);
	if (b->type != FIT_BITMAP && b->type != FIT_UINT16 && b->type != FIT_RGBA16) return nullptr;
	return each(s, make(FIT_RGB16, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned y)
	{
		WORD* d = (WORD*)o + (size_t)x*3;
		if (b->type == FIT_BITMAP) { Px p = px(s, x, y); d[0] = (WORD)(p.r << 8); d[1] = (WORD)(p.g << 8); d[2] = (WORD)(p.b << 8); }
		else if (b->type == FIT_UINT16) d[0] = d[1] = d[2] = ((WORD*)i)[x];
		else { WORD* w = (WORD*)i + (size_t)x*4; d[0] = w[0]; d[1] = w[1]; d[2] = w[2]; }
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToRGBA16(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_RGBA16) return clone(s);
	if (b->type != FIT_BITMAP && b->type != FIT_UINT16 && b->type != FIT_RGB16) return nullptr;
	return each(s, make(FIT_RGBA16, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned y)
	{
		WORD* d = (WORD*)o + (size_t)x*4;
		if (b->type == FIT_BITMAP) { Px p = px(s, x, y); d[0] = (WORD)(p.r << 8); d[1] = (WORD)(p.g << 8); d[2] = (WORD)(p.b << 8); d[3] = (WORD)(p.a << 8); }
		else if (b->type == FIT_UINT16) { d[0] = d[1] = d[2] = ((WORD*)i)[x]; d[3] = 0xFFFF; }
		else { WORD* w = (WORD*)i + (size_t)x*3; d[0] = w[0]; d[1] = w[1]; d[2] = w[2]; d[3] = 0xFFFF; }
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToRGBF(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_RGBF) return clone(s);
	if (b->type == FIT_BITMAP && b->bpp == 16) { sym_assert(0, "model: FreeImage_ConvertToRGBF is wrong for 16 bpp bitmaps"); return nullptr; }
	if (b->type != FIT_BITMAP && b->type != FIT_UINT16 && b->type != FIT_RGB16 && b->type != FIT_RGBA16 && b->type != FIT_RGBAF && b->type != FIT_FLOAT) return nullptr;
	return each(s, make(FIT_RGBF, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned y)
	{
		float* d = (float*)o + (size_t)x*3;
		switch (b->type)
		{
			case FIT_BITMAP: { Px p = px(s, x, y); d[0] = (float)p.r/255.0F; d[1] = (float)p.g/255.0F; d[2] = (float)p.b/255.0F; break; }
			case FIT_UINT16: d[0] = d[1] = d[2] = (float)((WORD*)i)[x]/65535.0F; break;
			case FIT_RGB16: for (int c = 0; c < 3; ++c) d[c] = (float)((WORD*)i)[(size_t)x*3 + c]/65535.0F; break;
			case FIT_RGBA16: for (int c = 0; c < 3; ++c) d[c] = (float)((WORD*)i)[(size_t)x*4 + c]/65535.0F; break;
			case FIT_RGBAF: for (int c = 0; c < 3; ++c) d[c] = clamp01(((float*)i)[(size_t)x*4 + c]); break;
			default: d[0] = d[1] = d[2] = clamp01(((float*)i)[x]); break;
		}
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToRGBAF(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_RGBAF) return clone(s);
	if (b->type != FIT_BITMAP && b->type != FIT_UINT16 && b->type != FIT_RGB16 && b->type != FIT_RGBA16 && b->type != FIT_RGBF && b->type != FIT_FLOAT) return nullptr;
	return each(s, make(FIT_RGBAF, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned y)
	{
		float* d = (float*)o + (size_t)x*4;
		d[3] = 1.0F;
		switch (b->type)
		{
			case FIT_BITMAP: { Px p = px(s, x, y); d[0] = (float)p.r/255.0F; d[1] = (float)p.g/255.0F; d[2] = (float)p.b/255.0F; d[3] = (float)p.a/255.0F; break; }
			case FIT_UINT16: d[0] = d[1] = d[2] = (float)((WORD*)i)[x]/65535.0F; break;
			case FIT_RGB16: for (int c = 0; c < 3; ++c) d[c] = (float)((WORD*)i)[(size_t)x*3 + c]/65535.0F; break;
			case FIT_RGBA16: for (int c = 0; c < 4; ++c) d[c] = (float)((WORD*)i)[(size_t)x*4 + c]/65535.0F; break;
			case FIT_RGBF: for (int c = 0; c < 3; ++c) d[c] = clamp01(((float*)i)[(size_t)x*3 + c]); break;
			default: d[0] = d[1] = d[2] = clamp01(((float*)i)[x]); break;
		}
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToUINT16(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_UINT16) return clone(s);
	if (b->type != FIT_BITMAP && b->type != FIT_RGB16 && b->type != FIT_RGBA16) return nullptr;
	return each(s, make(FIT_UINT16, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned y)
	{
		if (b->type == FIT_BITMAP) { Px p = px(s, x, y); ((WORD*)o)[x] = (WORD)((b->bpp == 8 ? p.r : grey(p.r, p.g, p.b)) << 8); }
		else { WORD* w = (WORD*)i + (size_t)x*(b->type == FIT_RGB16 ? 3 : 4); ((WORD*)o)[x] = (WORD)luma(w[0], w[1], w[2]); }
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToFloat(FIBITMAP* s)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == FIT_FLOAT) return clone(s);
	if (b->type != FIT_BITMAP && b->type != FIT_UINT16 && b->type != FIT_RGB16 && b->type != FIT_RGBA16 && b->type != FIT_RGBF && b->type != FIT_RGBAF) return nullptr;
	return each(s, make(FIT_FLOAT, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned y)
	{
		float& d = ((float*)o)[x];
		switch (b->type)
		{
			case FIT_BITMAP: { Px p = px(s, x, y); d = (float)(b->bpp == 8 ? p.r : grey(p.r, p.g, p.b))/255.0F; break; }
			case FIT_UINT16: d = (float)((WORD*)i)[x]/65535.0F; break;
			case FIT_RGB16: { WORD* w = (WORD*)i + (size_t)x*3; d = luma(w[0], w[1], w[2])/65535.0F; break; }
			case FIT_RGBA16: { WORD* w = (WORD*)i + (size_t)x*4; d = luma(w[0], w[1], w[2])/65535.0F; break; }
			case FIT_RGBF: { float* w = (float*)i + (size_t)x*3; d = clamp01(luma(w[0], w[1], w[2])); break; }
			default: { float* w = (float*)i + (size_t)x*4; d = clamp01(luma(w[0], w[1], w[2])); break; }
		}
	});
}
FIBITMAP* DLL_CALLCONV FreeImage_ConvertToType(FIBITMAP* s, FREE_IMAGE_TYPE t, BOOL)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	if (b->type == t) return clone(s);
	switch (t)
	{
		case FIT_UINT16: return FreeImage_ConvertToUINT16(s);
		case FIT_RGB16: return FreeImage_ConvertToRGB16(s);
		case FIT_RGBA16: return FreeImage_ConvertToRGBA16(s);
		case FIT_RGBF: return FreeImage_ConvertToRGBF(s);
		case FIT_RGBAF: return FreeImage_ConvertToRGBAF(s);
		case FIT_INT16: case FIT_INT32: case FIT_UINT32:
			if (b->type != FIT_BITMAP || b->bpp != 8) return nullptr;
			return each(s, make(t, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned)
			{
				if (t == FIT_INT16) ((short*)o)[x] = i[x]; else ((unsigned*)o)[x] = i[x];
			});
		case FIT_FLOAT: case FIT_DOUBLE:
			if (t == FIT_FLOAT && (b->type == FIT_BITMAP || b->type == FIT_UINT16 || b->type == FIT_RGB16 || b->type == FIT_RGBA16 || b->type == FIT_RGBF || b->type == FIT_RGBAF))
				return FreeImage_ConvertToFloat(s);
			if (b->type != FIT_INT16 && b->type != FIT_UINT16 && b->type != FIT_INT32 && b->type != FIT_UINT32 && b->type != FIT_FLOAT && !(b->type == FIT_BITMAP && b->bpp == 8))
				return nullptr;
			return each(s, make(t, b->w, b->h), [&](BYTE* i, BYTE* o, unsigned x, unsigned)
			{
				double v;
				switch (b->type)
				{
					case FIT_BITMAP: v = i[x]; break;
					case FIT_UINT16: v = ((WORD*)i)[x]; break;
					case FIT_INT16: v = ((short*)i)[x]; break;
					case FIT_UINT32: v = ((unsigned*)i)[x]; break;
					case FIT_INT32: v = ((int*)i)[x]; break;
					default: v = ((float*)i)[x]; break;
				}
				if (t == FIT_FLOAT) ((float*)o)[x] = (float)v; else ((double*)o)[x] = v;
			});
		default: sym_assert(0, "model: FreeImage_ConvertToType destination not modelled"); return nullptr;
	}
}

FIBITMAP* DLL_CALLCONV FreeImage_Rescale(FIBITMAP* s, int w, int h, FREE_IMAGE_FILTER filter)
{
	if (!s || w <= 0 || h <= 0) return nullptr;
	Bmp* b = B(s);
	FIBITMAP* src = s;
	switch (b->type)
	{
		case FIT_BITMAP: if (b->bpp == 16) src = FreeImage_ConvertTo24Bits(s); break;
		case FIT_UINT16: case FIT_RGB16: case FIT_RGBA16: case FIT_FLOAT: case FIT_RGBF: case FIT_RGBAF: break;
		default: { FIBITMAP* z = make(b->type, w, h); return z; }
	}
	Bmp* q = B(src);
	FIBITMAP* d = make(q->type, w, h, q->bpp);
	if (!d) return nullptr;
	unsigned n = q->bpp/8;
	// Which pixel is taken depends on the filter, so that filters differ.
	size_t off = w == (int)q->w && h == (int)q->h ? 0 : (size_t)filter;
	for (int y = 0; y < h; ++y)
		for (int x = 0; x < w; ++x)
			memcpy(line(d, y) + (size_t)x*n, line(src, (unsigned)(((size_t)y*q->h/h + off)%q->h)) + ((size_t)x*q->w/w + off)%q->w*n, n);
	if (src != s) FreeImage_Unload(src);
	return d;
}
FIBITMAP* DLL_CALLCONV FreeImage_Rotate(FIBITMAP* s, double angle, const void*)
{
	if (!s) return nullptr;
	Bmp* b = B(s);
	switch (b->type)
	{
		case FIT_BITMAP: if (b->bpp == 16) return nullptr; break;
		case FIT_UINT16: case FIT_RGB16: case FIT_RGBA16: case FIT_FLOAT: case FIT_RGBF: case FIT_RGBAF: break;
		default: return nullptr;
	}
	if (angle == 0) return clone(s);
	bool swap = angle != 180;
	sym_assert(angle == 90 || angle == 180 || angle == 270, "model: FreeImage_Rotate angle");
	FIBITMAP* d = make(b->type, swap ? b->h : b->w, swap ? b->w : b->h, b->bpp);
	if (!d) return nullptr;
	unsigned n = b->bpp/8;
	// Counter-clockwise; rows are stored bottom up.
	for (unsigned y = 0; y < b->h; ++y)
		for (unsigned x = 0; x < b->w; ++x)
		{
			unsigned dx, dy;
			if (angle == 90) { dx = b->h - 1 - y; dy = x; }
			else if (angle == 180) { dx = b->w - 1 - x; dy = b->h - 1 - y; }
			else { dx = y; dy = b->w - 1 - x; }
			memcpy(line(d, dy) + (size_t)dx*n, line(s, y) + (size_t)x*n, n);
		}
	return d;
}
BOOL DLL_CALLCONV FreeImage_FlipHorizontal(FIBITMAP* s)
{
	if (!s) return FALSE;
	Bmp* b = B(s);
	unsigned n = b->bpp/8;
	BYTE t[16];
	for (unsigned y = 0; y < b->h; ++y)
	{
		BYTE* l = line(s, y);
		for (unsigned x = 0; x < b->w/2; ++x)
		{
			BYTE* p = l + (size_t)x*n; BYTE* q = l + (size_t)(b->w - 1 - x)*n;
			memcpy(t, p, n); memcpy(p, q, n); memcpy(q, t, n);
		}
	}
	return TRUE;
}
BOOL DLL_CALLCONV FreeImage_FlipVertical(FIBITMAP* s)
{
	if (!s) return FALSE;
	Bmp* b = B(s);
	BYTE* t = (BYTE*)malloc(b->pitch);
	for (unsigned y = 0; y < b->h/2; ++y)
	{
		BYTE* p = line(s, y); BYTE* q = line(s, b->h - 1 - y);
		memcpy(t, p, b->pitch); memcpy(p, q, b->pitch); memcpy(q, t, b->pitch);
	}
	free(t);
	return TRUE;
}

// ---------------------------------------------------------------- files
FREE_IMAGE_FORMAT DLL_CALLCONV FreeImage_GetFIFFromFilename(const char* name)
{
	if (!name) return FIF_UNKNOWN;
	const char* e = strrchr(name, '.');
	e = e ? e + 1 : name;
	static const char* const bmp[] = {"bmp", nullptr};
	static const char* const png[] = {"png", nullptr};
	static const char* const tif[] = {"tif", "tiff", nullptr};
	static const char* const jpg[] = {"jpg", "jif", "jpeg", "jpe", "jpeg", nullptr};
	static const char* const tga[] = {"tga", "targa", nullptr};
	static const char* const hdr[] = {"hdr", nullptr};
	static const char* const exr[] = {"exr", nullptr};
	if (ext(e, bmp)) return FIF_BMP;
	if (ext(e, png)) return FIF_PNG;
	if (ext(e, tif)) return FIF_TIFF;
	if (ext(e, jpg)) return FIF_JPEG;
	if (ext(e, tga)) return FIF_TARGA;
	if (ext(e, hdr)) return FIF_HDR;
	if (ext(e, exr)) return FIF_EXR;
	return FIF_UNKNOWN;
}
#pragma pack(push, 1)
struct BmpHead { WORD type; DWORD size; DWORD reserved; DWORD offset; DWORD hsize; LONG w, h; WORD planes, bpp; DWORD comp, isize; LONG xp, yp; DWORD used, imp; };
#pragma pack(pop)
static const char kPng[8] = {(char)0x89, 'P', 'N', 'G', '\r', '\n', 26, '\n'};
static const char kTiff[4] = {'I', 'I', 42, 0};
// What files of the codecs other than BMP hold here: as much as makes them lossless.
struct RawHead { BYTE magic[8]; DWORD type, bpp, w, h; };
static FREE_IMAGE_FORMAT detect(FreeImageIO* io, fi_handle h)
{
	long p = io->tell_proc(h);
	BYTE sig[8];
	memset(sig, 0, sizeof(sig));
	unsigned n = io->read_proc(sig, 1, 8, h);
	io->seek_proc(h, p, 0);
	if (n >= 2 && sig[0] == 'B' && sig[1] == 'M') return FIF_BMP;
	if (n == 8 && memcmp(sig, kPng, 8) == 0) return FIF_PNG;
	if (n >= 4 && memcmp(sig, kTiff, 4) == 0) return FIF_TIFF;
	return FIF_UNKNOWN;
}
// Only images a codec can keep are written.
static bool keeps(FREE_IMAGE_FORMAT fif, Bmp* b)
{
	if (fif == FIF_BMP) return b->type == FIT_BITMAP;
	if (fif == FIF_PNG) return b->type == FIT_BITMAP ? b->bpp != 16 : b->type == FIT_UINT16 || b->type == FIT_RGB16 || b->type == FIT_RGBA16;
	return !(b->type == FIT_BITMAP && b->bpp == 16);
}
FREE_IMAGE_FORMAT DLL_CALLCONV FreeImage_GetFileTypeFromHandle(FreeImageIO* io, fi_handle h, int) { return detect(io, h); }
static void palette(Bmp* b, const RGBQUAD* q, unsigned n)
{
	b->pal = (RGBQUAD*)calloc(256, sizeof(RGBQUAD));
	for (unsigned i = 0; i < 256; ++i) b->pal[i].rgbRed = b->pal[i].rgbGreen = b->pal[i].rgbBlue = (BYTE)i;
	memcpy(b->pal, q, n*sizeof(RGBQUAD));
	unsigned colors = 1u << b->bpp;
	b->ptype = FIC_MINISBLACK;
	if (b->bpp == 1)
	{
		auto is = [&](int i, BYTE v) { return b->pal[i].rgbRed == v && b->pal[i].rgbGreen == v && b->pal[i].rgbBlue == v; };
		b->ptype = is(0, 0) && is(1, 255) ? FIC_MINISBLACK : is(0, 255) && is(1, 0) ? FIC_MINISWHITE : FIC_PALETTE;
		return;
	}
	for (unsigned i = 0; i < colors; ++i)
	{
		const RGBQUAD& c = b->pal[i];
		if (c.rgbRed != c.rgbGreen || c.rgbRed != c.rgbBlue) { b->ptype = FIC_PALETTE; return; }
		if (c.rgbRed != i)
		{
			if (colors - i - 1 != c.rgbRed) { b->ptype = FIC_PALETTE; return; }
			b->ptype = FIC_MINISWHITE;
		}
	}
	if (b->bpp == 8 && b->ptype == FIC_MINISBLACK) { free(b->pal); b->pal = nullptr; }
}
FIBITMAP* DLL_CALLCONV FreeImage_LoadFromHandle(FREE_IMAGE_FORMAT fif, FreeImageIO* io, fi_handle h, int)
{
	long start = io->tell_proc(h);
	if (fif == FIF_PNG || fif == FIF_TIFF)
	{
		RawHead hd;
		// As the real library: offsets in a TIFF are from the beginning of what is read.
		if (fif == FIF_TIFF && io->seek_proc(h, 0, 0) != 0) return nullptr;
		if (io->read_proc(&hd, sizeof(hd), 1, h) != 1) return nullptr;
		FIBITMAP* r = make((FREE_IMAGE_TYPE)hd.type, hd.w, hd.h, hd.bpp);
		if (!r) return nullptr;
		if (io->read_proc(B(r)->bits, B(r)->pitch*B(r)->h, 1, h) != 1) { FreeImage_Unload(r); return nullptr; }
		return r;
	}
	if (fif != FIF_BMP) return nullptr;
	BmpHead hd;
	if (io->read_proc(&hd, sizeof(hd), 1, h) != 1) return nullptr;
	if (hd.w <= 0 || hd.h == 0) return nullptr;
	unsigned height = hd.h < 0 ? (unsigned)-hd.h : (unsigned)hd.h;
	DWORD mask[3] = {FI16_555_RED_MASK, FI16_555_GREEN_MASK, FI16_555_BLUE_MASK};
	RGBQUAD pal[256];
	unsigned colors = 0;
	switch (hd.bpp)
	{
		case 1: case 4: case 8:
			colors = hd.used == 0 || hd.used > (1u << hd.bpp) ? 1u << hd.bpp : hd.used;
			if (io->read_proc(pal, colors*sizeof(RGBQUAD), 1, h) != 1) return nullptr;
			break;
		case 16: if (hd.comp == 3 && io->read_proc(mask, sizeof(mask), 1, h) != 1) return nullptr; break;
		case 24: case 32: break;
		default: return nullptr;
	}
	io->seek_proc(h, start + hd.offset, 0);
	FIBITMAP* r = make(FIT_BITMAP, hd.w, height, hd.bpp, mask[0], mask[1], mask[2]);
	if (!r) return nullptr;
	if (colors) palette(B(r), pal, colors);
	// As the real library: what is missing at the end goes unnoticed.
	if (hd.h > 0) io->read_proc(B(r)->bits, B(r)->pitch*height, 1, h);
	else for (unsigned y = 0; y < height; ++y) io->read_proc(line(r, height - 1 - y), B(r)->pitch, 1, h);
	return r;
}
BOOL DLL_CALLCONV FreeImage_SaveToHandle(FREE_IMAGE_FORMAT fif, FIBITMAP* s, FreeImageIO* io, fi_handle h, int)
{
	if (!s) return FALSE;
	Bmp* b = B(s);
	if ((fif != FIF_BMP && fif != FIF_PNG && fif != FIF_TIFF) || !keeps(fif, b) || b->pal)
	{
		sym_assert(0, "model: FreeImage_SaveToHandle format");
		return FALSE;
	}
	if (fif != FIF_BMP)
	{
		RawHead hd;
		memset(&hd, 0, sizeof(hd));
		if (fif == FIF_PNG) memcpy(hd.magic, kPng, 8); else memcpy(hd.magic, kTiff, 4);
		hd.type = b->type; hd.bpp = b->bpp; hd.w = b->w; hd.h = b->h;
		if (io->write_proc(&hd, sizeof(hd), 1, h) != 1) return FALSE;
		return io->write_proc(b->bits, b->pitch*b->h, 1, h) == 1;
	}
	BmpHead hd;
	memset(&hd, 0, sizeof(hd));
	unsigned extra = b->bpp == 8 ? 1024 : b->bpp == 16 ? 12 : 0;
	hd.type = 0x4D42; hd.offset = (DWORD)sizeof(hd) + extra; hd.hsize = 40; hd.w = b->w; hd.h = b->h; hd.planes = 1; hd.bpp = (WORD)b->bpp;
	hd.isize = b->pitch*b->h; hd.size = hd.offset + hd.isize;
	if (b->bpp == 16) hd.comp = 3;
	if (io->write_proc(&hd, sizeof(hd), 1, h) != 1) return FALSE;
	if (b->bpp == 16)
	{
		DWORD mask[3] = {b->rm, b->gm, b->bm};
		if (io->write_proc(mask, sizeof(mask), 1, h) != 1) return FALSE;
	}
	else if (b->bpp == 8)
	{
		RGBQUAD pal[256];
		memset(pal, 0, sizeof(pal));
		for (unsigned i = 0; i < 256; ++i) pal[i].rgbRed = pal[i].rgbGreen = pal[i].rgbBlue = (BYTE)i;
		if (io->write_proc(pal, sizeof(pal), 1, h) != 1) return FALSE;
	}
	if (io->write_proc(b->bits, b->pitch*b->h, 1, h) != 1) return FALSE;
	return TRUE;
}
namespace { struct Mem { BYTE* p; DWORD n; long pos; DWORD room; bool own; };
unsigned memRead(void* b, unsigned size, unsigned count, fi_handle h)
{
	Mem* m = (Mem*)h;
	unsigned i = 0;
	for (; i < count; ++i)
	{
		if (m->pos + (long)size > (long)m->n)
		{
			if (m->pos < (long)m->n) memcpy((BYTE*)b + (size_t)i*size, m->p + m->pos, m->n - m->pos);
			m->pos = m->n;
			break;
		}
		memcpy((BYTE*)b + (size_t)i*size, m->p + m->pos, size);
		m->pos += size;
	}
	return i;
}
unsigned memWrite(void* b, unsigned size, unsigned count, fi_handle h)
{
	Mem* m = (Mem*)h;
	if (!m->own) return 0;
	DWORD end = (DWORD)m->pos + size*count;
	if (end > m->room)
	{
		DWORD room = end*2;
		BYTE* p = (BYTE*)calloc(1, room);
		if (m->n) memcpy(p, m->p, m->n);
		if (m->p) free(m->p);
		m->p = p; m->room = room;
	}
	memcpy(m->p + m->pos, b, (size_t)size*count);
	m->pos = end;
	if (end > m->n) m->n = end;
	return count;
}
int memSeek(fi_handle h, long o, int d) { Mem* m = (Mem*)h; long p = d == 0 ? o : d == 1 ? m->pos + o : m->n + o; if (p < 0) return -1; m->pos = p; return 0; }
long memTell(fi_handle h) { return ((Mem*)h)->pos; }
FreeImageIO memIO = {&memRead, &memWrite, &memSeek, &memTell};
int protoOf(const char* path)
{
	while (path[0] == '.' && path[1] == '/') path += 2;
	for (int i = 0; i < g_nprotos; ++i) if (strcmp(g_protos[i].path, path) == 0) return i;
	return -1;
}
bool slurp(const char* path, Mem& m)
{
	long n = env_file_size(path);
	if (n < 0) return false;
	m.p = (BYTE*)malloc(n ? n : 1); m.n = (DWORD)n; m.pos = 0; m.own = false; m.room = 0;
	env_file_read(path, m.p, n);
	return true;
}
}
FIMEMORY* DLL_CALLCONV FreeImage_OpenMemory(BYTE* data, DWORD size)
{
	Mem* m = (Mem*)malloc(sizeof(Mem)); m->own = !(data && size); m->p = m->own ? nullptr : data; m->n = m->own ? 0 : size; m->pos = 0; m->room = 0;
	FIMEMORY* r = (FIMEMORY*)malloc(sizeof(FIMEMORY)); r->data = m;
	return r;
}
void DLL_CALLCONV FreeImage_CloseMemory(FIMEMORY* s)
{
	if (!s) return;
	Mem* m = (Mem*)s->data;
	if (m->own && m->p) free(m->p);
	free(m); free(s);
}
BOOL DLL_CALLCONV FreeImage_SaveToMemory(FREE_IMAGE_FORMAT f, FIBITMAP* b, FIMEMORY* s, int) { return s && ((Mem*)s->data)->own ? FreeImage_SaveToHandle(f, b, &memIO, s->data, 0) : FALSE; }
BOOL DLL_CALLCONV FreeImage_AcquireMemory(FIMEMORY* s, BYTE** d, DWORD* n)
{
	if (!s) return FALSE;
	*d = ((Mem*)s->data)->p; *n = ((Mem*)s->data)->n;
	return TRUE;
}
FREE_IMAGE_FORMAT DLL_CALLCONV FreeImage_GetFileTypeFromMemory(FIMEMORY* s, int) { return detect(&memIO, s->data); }
FIBITMAP* DLL_CALLCONV FreeImage_LoadFromMemory(FREE_IMAGE_FORMAT f, FIMEMORY* s, int) { return FreeImage_LoadFromHandle(f, &memIO, s->data, 0); }
FREE_IMAGE_FORMAT DLL_CALLCONV FreeImage_GetFileType(const char* path, int)
{
	if (protoOf(path) >= 0) return FIF_TIFF;
	Mem m;
	if (!slurp(path, m)) return FIF_UNKNOWN;
	FREE_IMAGE_FORMAT f = detect(&memIO, &m);
	free(m.p);
	return f;
}
FIBITMAP* DLL_CALLCONV FreeImage_Load(FREE_IMAGE_FORMAT f, const char* path, int)
{
	int i = protoOf(path);
	if (i >= 0) return clone(g_protos[i].bmp);
	Mem m;
	if (!slurp(path, m)) return nullptr;
	FIBITMAP* r = FreeImage_LoadFromHandle(f, &memIO, &m, 0);
	free(m.p);
	return r;
}
// As the real library: errors found when the file is closed go unnoticed.
static unsigned fileWrite(void* b, unsigned size, unsigned count, fi_handle h) { return (unsigned)fwrite(b, size, count, (FILE*)h); }
static unsigned fileRead(void* b, unsigned size, unsigned count, fi_handle h) { return (unsigned)fread(b, size, count, (FILE*)h); }
static int fileSeek(fi_handle h, long o, int d) { return fseek((FILE*)h, o, d); }
static long fileTell(fi_handle h) { return ftell((FILE*)h); }
BOOL DLL_CALLCONV FreeImage_Save(FREE_IMAGE_FORMAT f, FIBITMAP* s, const char* path, int)
{
	FILE* file = fopen(path, "w+b");
	if (!file) return FALSE;
	FreeImageIO io = {&fileRead, &fileWrite, &fileSeek, &fileTell};
	BOOL r = FreeImage_SaveToHandle(f, s, &io, file, 0);
	fclose(file);
	return r;
}
void env_image(const char* path, void* bmp)
{
	Proto& p = g_protos[g_nprotos++];
	sym_assert(g_nprotos <= 32 && strlen(path) < 64, "model: too many images");
	strcpy(p.path, path);
	p.bmp = clone((FIBITMAP*)bmp);
	env_file(path, "IMG", 3);
}
}
