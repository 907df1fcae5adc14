#pragma once
#include "encmodel.h"
struct astcenc_context;
enum astcenc_error { ASTCENC_SUCCESS = 0, ASTCENC_ERR_OUT_OF_MEM, ASTCENC_ERR_BAD_CPU_FLOAT, ASTCENC_ERR_BAD_PARAM, ASTCENC_ERR_BAD_BLOCK_SIZE, ASTCENC_ERR_BAD_PROFILE, ASTCENC_ERR_BAD_QUALITY, ASTCENC_ERR_BAD_SWIZZLE, ASTCENC_ERR_BAD_FLAGS, ASTCENC_ERR_BAD_CONTEXT, ASTCENC_ERR_NOT_IMPLEMENTED };
enum astcenc_profile { ASTCENC_PRF_LDR_SRGB = 0, ASTCENC_PRF_LDR, ASTCENC_PRF_HDR_RGB_LDR_A, ASTCENC_PRF_HDR };
static const float ASTCENC_PRE_FASTEST = 0.0f, ASTCENC_PRE_FAST = 10.0f, ASTCENC_PRE_MEDIUM = 60.0f, ASTCENC_PRE_THOROUGH = 98.0f, ASTCENC_PRE_VERYTHOROUGH = 99.0f, ASTCENC_PRE_EXHAUSTIVE = 100.0f;
enum astcenc_swz { ASTCENC_SWZ_R = 0, ASTCENC_SWZ_G = 1, ASTCENC_SWZ_B = 2, ASTCENC_SWZ_A = 3, ASTCENC_SWZ_0 = 4, ASTCENC_SWZ_1 = 5, ASTCENC_SWZ_Z = 6 };
struct astcenc_swizzle { astcenc_swz r, g, b, a; };
enum astcenc_type { ASTCENC_TYPE_U8 = 0, ASTCENC_TYPE_F16 = 1, ASTCENC_TYPE_F32 = 2 };
static const unsigned int ASTCENC_FLG_MAP_NORMAL = 1 << 0, ASTCENC_FLG_USE_DECODE_UNORM8 = 1 << 1, ASTCENC_FLG_USE_ALPHA_WEIGHT = 1 << 2, ASTCENC_FLG_USE_PERCEPTUAL = 1 << 3, ASTCENC_FLG_DECOMPRESS_ONLY = 1 << 4, ASTCENC_FLG_SELF_DECOMPRESS_ONLY = 1 << 5, ASTCENC_FLG_MAP_RGBM = 1 << 6;
struct astcenc_config
{
	astcenc_profile profile;
	unsigned int flags;
	unsigned int block_x, block_y, block_z;
	float cw_r_weight, cw_g_weight, cw_b_weight, cw_a_weight;
	unsigned int a_scale_radius;
	float tune_quality;
};
struct astcenc_image
{
	unsigned int dim_x, dim_y, dim_z;
	astcenc_type data_type;
	void** data; // dim_z slices
};
astcenc_error astcenc_config_init(astcenc_profile profile, unsigned int block_x, unsigned int block_y, unsigned int block_z, float quality, unsigned int flags, astcenc_config* config);
astcenc_error astcenc_context_alloc(const astcenc_config* config, unsigned int thread_count, astcenc_context** context);
astcenc_error astcenc_compress_image(astcenc_context* context, astcenc_image* image, const astcenc_swizzle* swizzle, uint8_t* data_out, size_t data_len, unsigned int thread_index);
astcenc_error astcenc_compress_reset(astcenc_context* context);
void astcenc_context_free(astcenc_context* context);
