#pragma once
#include "encmodel.h"
#define BC7ENC_BLOCK_SIZE (16)
#define BC7ENC_MAX_PARTITIONS (64)
#define BC7ENC_MAX_UBER_LEVEL (4)
typedef uint8_t bc7enc_bool;
struct bc7enc_compress_block_params
{
	uint32_t m_max_partitions;
	uint32_t m_weights[4];
	uint32_t m_uber_level;
	bool m_perceptual;
	bool m_try_least_squares;
	bool m_mode17_partition_estimation_filterbank;
	uint32_t m_ready;
};
void bc7enc_compress_block_params_init_linear_weights(bc7enc_compress_block_params* p);
void bc7enc_compress_block_params_init_perceptual_weights(bc7enc_compress_block_params* p);
void bc7enc_compress_block_params_init(bc7enc_compress_block_params* p);
void bc7enc_compress_block_init();
bool bc7enc_compress_block(void* pBlock, const void* pPixelsRGBA, const bc7enc_compress_block_params* pComp_params);
