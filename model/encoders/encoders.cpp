#include <sym.h>
#include <cstring>
#include "bc7enc.h"
#include "rgbcx.h"
#include "squish.h"
#include "cmp_core.h"
#include "EtcImage.h"
#include "astcenc.h"
#include "PVRTexLib.hpp"
unsigned enc_pixel = 0, enc_channel = 0;
static void put(void* dst, const uint8_t* px, unsigned stride, int kind, int f0 = 0, int f1 = 0)
{
	uint8_t* o = (uint8_t*)dst;
	enc_select(o, px, stride, 4, enc_pixel, 16);
	o[4] = (uint8_t)kind; o[5] = (uint8_t)f0; o[6] = (uint8_t)f1; o[7] = 0xEE;
}
// bc7enc
static bool g_bc7;
void bc7enc_compress_block_params_init_linear_weights(bc7enc_compress_block_params* p) { p->m_perceptual = false; p->m_weights[0] = p->m_weights[1] = p->m_weights[2] = p->m_weights[3] = 1; }
void bc7enc_compress_block_params_init_perceptual_weights(bc7enc_compress_block_params* p) { p->m_perceptual = true; p->m_weights[0] = 128; p->m_weights[1] = 64; p->m_weights[2] = 16; p->m_weights[3] = 32; }
void bc7enc_compress_block_params_init(bc7enc_compress_block_params* p)
{
	p->m_max_partitions = BC7ENC_MAX_PARTITIONS; p->m_uber_level = 0; p->m_try_least_squares = true; p->m_mode17_partition_estimation_filterbank = true; p->m_ready = 0xBC7;
	bc7enc_compress_block_params_init_perceptual_weights(p);
}
void bc7enc_compress_block_init() { g_bc7 = true; }
bool bc7enc_compress_block(void* pBlock, const void* pPixelsRGBA, const bc7enc_compress_block_params* p)
{
	sym_assert(g_bc7, "BC7 encoder used before it is initialized");
	sym_assert(p && p->m_ready == 0xBC7, "BC7 parameters not initialized");
	sym_assert(p->m_max_partitions <= BC7ENC_MAX_PARTITIONS, "BC7 partitions");
	sym_assert(p->m_uber_level <= BC7ENC_MAX_UBER_LEVEL, "BC7 level");
	put(pBlock, (const uint8_t*)pPixelsRGBA, 4, ENC_BC7);
	for (int i = 8; i < 16; i++) ((uint8_t*)pBlock)[i] = i < 12 ? p->m_weights[i - 8] != 0 : 0xEE;
	return true;
}
// rgbcx
namespace rgbcx
{
static bool g_init;
void init(bc1_approx_mode) { g_init = true; }
static void bc1(uint32_t level, void* d, const uint8_t* p, int a, int b)
{
	sym_assert(g_init, "rgbcx used before it is initialized");
	sym_assert(level >= MIN_LEVEL && level <= MAX_LEVEL, "rgbcx level");
	put(d, p, 4, ENC_BC1, a, b);
}
void encode_bc1(uint32_t level, void* d, const uint8_t* p, bool a, bool b, const void*) { bc1(level, d, p, a, b); }
void encode_bc4(void* d, const uint8_t* p, uint32_t stride)
{
	sym_assert(g_init, "rgbcx used before it is initialized");
	uint8_t* o = (uint8_t*)d;
	enc_select(o, p, stride, 1, enc_pixel, 16);
	o[1] = o[2] = o[3] = 0; o[4] = ENC_BC4; o[5] = o[6] = 0; o[7] = 0xEE;
}
void encode_bc4_hq(void* d, const uint8_t* p, uint32_t stride, uint32_t) { encode_bc4(d, p, stride); }
void encode_bc3(uint32_t level, void* d, const uint8_t* p) { encode_bc4(d, p + 3, 4); bc1(level, (uint8_t*)d + 8, p, 0, 0); }
void encode_bc3_hq(uint32_t level, void* d, const uint8_t* p, uint32_t) { encode_bc3(level, d, p); }
void encode_bc5(void* d, const uint8_t* p, uint32_t c0, uint32_t c1, uint32_t stride) { encode_bc4(d, p + c0, stride); encode_bc4((uint8_t*)d + 8, p + c1, stride); }
void encode_bc5_hq(void* d, const uint8_t* p, uint32_t c0, uint32_t c1, uint32_t stride, uint32_t) { encode_bc5(d, p, c0, c1, stride); }
}
// squish
void squish::CompressMasked(u8 const* rgba, int mask, void* block, int flags, float* metric)
{
	sym_assert(mask == 0xffff, "pixels of a whole block masked out");
	sym_assert((flags & (kDxt1 | kDxt3 | kDxt5 | kBc4 | kBc5)) == kDxt1, "wrong kind of block asked of squish");
	sym_assert(!(flags & kSourceBGRA), "channel order");
	put(block, rgba, 4, ENC_SQUISH, metric ? (metric[0] != 0) | (metric[1] != 0)*2 | (metric[2] != 0)*4 : 7);
}
// Compressonator
namespace { struct Options { int kind; float quality; bool sign; }; }
static int make(void** o, int k) { if (!o) return 1; *o = new Options{k, 0.05f, false}; return 0; }
static int drop(void* o, int k)
{
	if (!o) return 1;
	sym_assert(((Options*)o)->kind == k, "encoder options destroyed as another kind");
	delete (Options*)o;
	return 0;
}
static int quality(void* o, int k, float q)
{
	if (!o) return 1;
	sym_assert(((Options*)o)->kind == k, "encoder options of another kind");
	sym_assert(q >= 0 && q <= 1, "encoder quality");
	((Options*)o)->quality = q;
	return 0;
}
int CreateOptionsBC4(void** o) { return make(o, 4); }
int CreateOptionsBC5(void** o) { return make(o, 5); }
int CreateOptionsBC6(void** o) { return make(o, 6); }
int DestroyOptionsBC4(void* o) { return drop(o, 4); }
int DestroyOptionsBC5(void* o) { return drop(o, 5); }
int DestroyOptionsBC6(void* o) { return drop(o, 6); }
int SetQualityBC4(void* o, float q) { return quality(o, 4, q); }
int SetQualityBC5(void* o, float q) { return quality(o, 5, q); }
int SetQualityBC6(void* o, float q) { return quality(o, 6, q); }
int SetSignedBC6(void* o, bool s)
{
	if (!o) return 1;
	sym_assert(((Options*)o)->kind == 6, "encoder options of another kind");
	((Options*)o)->sign = s;
	return 0;
}
static void bc4s(const char* src, unsigned stride, unsigned char* o)
{
	uint8_t row[4][1];
	for (unsigned y = 0; y < 4; y++) enc_select(row[y], src + y*stride, 1, 1, enc_pixel & 3, 4);
	enc_select(o, row, 1, 1, enc_pixel >> 2, 4);
	o[1] = o[2] = o[3] = 0; o[4] = ENC_BC4S; o[5] = o[6] = 0; o[7] = 0xEE;
}
int CompressBlockBC4S(const char* s, unsigned n, unsigned char* o, const void* p)
{
	sym_assert(!p || ((const Options*)p)->kind == 4, "encoder options of another kind");
	bc4s(s, n, o);
	return 0;
}
int CompressBlockBC5S(const char* s1, unsigned n1, const char* s2, unsigned n2, unsigned char* o, const void* p)
{
	sym_assert(!p || ((const Options*)p)->kind == 5, "encoder options of another kind");
	bc4s(s1, n1, o);
	bc4s(s2, n2, o + 8);
	return 0;
}
int CompressBlockBC6(const unsigned short* s, unsigned stride, unsigned char* o, const void* p)
{
	sym_assert(!p || ((const Options*)p)->kind == 6, "encoder options of another kind");
	uint8_t row[4][6];
	for (unsigned y = 0; y < 4; y++) enc_select(row[y], s + y*stride, 6, 6, enc_pixel & 3, 4);
	enc_select(o, row, 6, 6, enc_pixel >> 2, 4);
	o[6] = p && ((const Options*)p)->sign ? ENC_BC6S : ENC_BC6;
	for (int i = 7; i < 16; i++) o[i] = 0xEE;
	return 0;
}
// Etc2Comp: pixels outside the image do not exist
namespace Etc
{
Image::Image(float* s, unsigned w, unsigned h, ErrorMetric m) : m_source(s), m_width(w), m_height(h), m_metric(m), m_bits(nullptr), m_bytes(0) {}
Image::~Image() { delete[] m_bits; }
Image::EncodingStatus Image::Encode(Format format, ErrorMetric metric, float effort, unsigned jobs, unsigned maxJobs)
{
	sym_assert(m_width > 0 && m_height > 0, "empty block");
	sym_assert(format > Format::UNKNOWN && format < Format::FORMATS, "encoder format");
	sym_assert(metric >= RGBA && metric < ERROR_METRICS, "encoder metric");
	sym_assert(effort >= ETCCOMP_MIN_EFFORT_LEVEL && effort <= ETCCOMP_MAX_EFFORT_LEVEL, "encoder effort");
	sym_assert(jobs >= 1, "encoder jobs");
	(void)maxJobs;
	unsigned bs = format == Format::RGBA8 || format == Format::SRGBA8 || format == Format::RG11 || format == Format::SIGNED_RG11 ? 16 : 8;
	unsigned bw = (m_width + 3)/4, bh = (m_height + 3)/4;
	delete[] m_bits;
	m_bytes = bw*bh*bs;
	m_bits = new unsigned char[m_bytes];
	for (unsigned y = 0; y < bh; y++)
		for (unsigned x = 0; x < bw; x++)
		{
			unsigned char* o = m_bits + (y*bw + x)*bs;
			unsigned w = m_width - x*4 < 4 ? m_width - x*4 : 4, h = m_height - y*4 < 4 ? m_height - y*4 : 4;
			uint8_t px[16][4];
			for (unsigned i = 0; i < 16; i++)
			{
				unsigned ix = i & 3, iy = i >> 2;
				ix = ix < w ? ix : w - 1; iy = iy < h ? iy : h - 1;
				memcpy(px[i], m_source + ((y*4 + iy)*m_width + x*4 + ix)*4 + enc_channel, 4);
			}
			enc_select(o, px, 4, 4, enc_pixel, 16);
			o[4] = (unsigned char)(ENC_ETC + (int)format); o[5] = (unsigned char)w; o[6] = (unsigned char)h;
			for (unsigned i = 7; i < bs; i++) o[i] = 0xEE;
		}
	return SUCCESS;
}
}
// astcenc
struct astcenc_context { astcenc_config config; unsigned threads; bool used; };
astcenc_error astcenc_config_init(astcenc_profile profile, unsigned bx, unsigned by, unsigned bz, float q, unsigned flags, astcenc_config* c)
{
	static const unsigned dims[14][2] = {{4,4},{5,4},{5,5},{6,5},{6,6},{8,5},{8,6},{8,8},{10,5},{10,6},{10,8},{10,10},{12,10},{12,12}};
	int ok = 0;
	for (int i = 0; i < 14; i++) ok |= dims[i][0] == bx && dims[i][1] == by && bz <= 1;
	sym_assert(ok, "ASTC block dimensions");
	sym_assert(q >= 0 && q <= 100, "ASTC quality");
	sym_assert(profile >= ASTCENC_PRF_LDR_SRGB && profile <= ASTCENC_PRF_HDR, "ASTC profile");
	memset(c, 0, sizeof(*c));
	c->profile = profile; c->flags = flags; c->block_x = bx; c->block_y = by; c->block_z = 1; c->tune_quality = q;
	c->cw_r_weight = c->cw_g_weight = c->cw_b_weight = c->cw_a_weight = 1;
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_context_alloc(const astcenc_config* config, unsigned threads, astcenc_context** context)
{
	sym_assert(threads > 0, "ASTC context threads");
	*context = new astcenc_context{*config, threads, false};
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_compress_image(astcenc_context* c, astcenc_image* im, const astcenc_swizzle* s, uint8_t* out, size_t len, unsigned thread)
{
	sym_assert(c && im && s && out, "ASTC arguments");
	sym_assert(thread < c->threads, "ASTC thread index");
	sym_assert(!c->used, "ASTC context not reset between images");
	sym_assert(!(c->config.flags & ASTCENC_FLG_DECOMPRESS_ONLY), "ASTC context cannot compress");
	c->used = true;
	unsigned bx = c->config.block_x, by = c->config.block_y, nx = (im->dim_x + bx - 1)/bx, ny = (im->dim_y + by - 1)/by;
	sym_assert(im->dim_z == 1 && im->data && im->dim_x > 0 && im->dim_y > 0, "ASTC image");
	sym_assert(im->data_type == ASTCENC_TYPE_F32, "ASTC image type");
	sym_assert(len >= (size_t)nx*ny*16, "ASTC output too small");
	const float* px = (const float*)im->data[0];
	for (unsigned y = 0; y < ny; y++)
		for (unsigned x = 0; x < nx; x++)
		{
			uint8_t* o = out + (y*nx + x)*16;
			uint8_t in[144][4];
			for (unsigned i = 0; i < bx*by; i++)
			{
				unsigned ix = x*bx + i%bx, iy = y*by + i/bx;
				ix = ix < im->dim_x ? ix : im->dim_x - 1; iy = iy < im->dim_y ? iy : im->dim_y - 1;
				memcpy(in[i], px + (iy*im->dim_x + ix)*4 + enc_channel, 4);
			}
			enc_select(o, in, 4, 4, enc_pixel, bx*by);
			o[4] = ENC_ASTC; o[5] = (uint8_t)bx; o[6] = (uint8_t)by; o[7] = (uint8_t)c->config.profile;
			o[8] = (uint8_t)s->r; o[9] = (uint8_t)s->g; o[10] = (uint8_t)s->b; o[11] = (uint8_t)s->a;
			o[12] = (uint8_t)c->config.tune_quality; o[13] = (uint8_t)c->config.flags; o[14] = o[15] = 0xEE;
		}
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_compress_reset(astcenc_context* c) { c->used = false; return ASTCENC_SUCCESS; }
void astcenc_context_free(astcenc_context* c) { delete c; }
// PVRTexLib
namespace pvrtexlib
{
static unsigned bytes(PVRTuint64 f, unsigned w, unsigned h)
{
	switch (f)
	{
		case PVRTLPF_PVRTCI_2bpp_RGB: case PVRTLPF_PVRTCI_2bpp_RGBA: return (w < 16 ? 16 : (w + 7)/8*8)*(h < 8 ? 8 : (h + 3)/4*4)/4;
		case PVRTLPF_PVRTCI_4bpp_RGB: case PVRTLPF_PVRTCI_4bpp_RGBA: return (w < 8 ? 8 : (w + 3)/4*4)*(h < 8 ? 8 : (h + 3)/4*4)/2;
		case PVRTLPF_PVRTCII_2bpp: return (w + 7)/8*((h + 3)/4)*8;
		case PVRTLPF_PVRTCII_4bpp: return (w + 3)/4*((h + 3)/4)*8;
		default: return w*h*4;
	}
}
PVRTextureHeader::PVRTextureHeader(PVRTuint64 f, PVRTuint32 w, PVRTuint32 h, PVRTuint32 d, PVRTuint32 mips, PVRTuint32 members, PVRTuint32 faces, PVRTexLibColourSpace cs, PVRTexLibVariableType t, bool pre)
	: m_format(f), m_width(w), m_height(h), m_space(cs), m_type(t), m_pre(pre)
{
	sym_assert(d == 1 && mips == 1 && members == 1 && faces == 1, "PVRTexLib texture of one surface");
	sym_assert(f == PVRTGENPIXELID4('r', 'g', 'b', 'a', 8, 8, 8, 8) && t == PVRTLVT_UnsignedByteNorm, "PVRTexLib source format");
}
PVRTuint64 PVRTextureHeader::GetTextureDataSize(PVRTint32, bool, bool) const { return bytes(m_format, m_width, m_height); }
PVRTexture::PVRTexture(const PVRTextureHeader& h, const void* data) : PVRTextureHeader(h), m_data(h.GetTextureDataSize())
{
	if (data) memcpy(m_data.data(), data, m_data.size());
}
void* PVRTexture::GetTextureDataPointer(PVRTuint32, PVRTuint32, PVRTuint32, PVRTuint32) { return m_data.data(); }
bool PVRTexture::Transcode(PVRTuint64 f, PVRTexLibVariableType t, PVRTexLibColourSpace cs, PVRTexLibCompressorQuality q, PVRTuint32, float, PVRTuint32)
{
	sym_assert(f <= PVRTLPF_PVRTCII_4bpp && t == PVRTLVT_UnsignedByteNorm && cs == m_space, "PVRTexLib target format");
	sym_assert(q >= PVRTLCQ_PVRTCFastest && q <= PVRTLCQ_PVRTCBest, "PVRTexLib quality");
	std::vector<uint8_t> out(bytes(f, m_width, m_height), 0xEE);
	enc_select(out.data(), m_data.data(), 4, 4, enc_pixel, m_width*m_height);
	out[4] = ENC_PVRTC; out[5] = (uint8_t)f; out[6] = m_pre; out[7] = 0xEE;
	m_data.swap(out);
	m_format = f;
	return true;
}
}
