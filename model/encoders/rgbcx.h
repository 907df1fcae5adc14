#pragma once
#include "encmodel.h"
namespace rgbcx
{
enum class bc1_approx_mode { cBC1Ideal = 0, cBC1NVidia = 1, cBC1AMD = 2, cBC1IdealRound4 = 3 };
const uint32_t MIN_LEVEL = 0, MAX_LEVEL = 18;
const uint32_t BC3_DEFAULT_SEARCH_RAD = 5;
void init(bc1_approx_mode mode = bc1_approx_mode::cBC1Ideal);
void encode_bc1(uint32_t level, void* pDst, const uint8_t* pPixels, bool allow_3color, bool allow_transparent_texels_for_black, const void* pForce = nullptr);
void encode_bc3(uint32_t level, void* pDst, const uint8_t* pPixels);
void encode_bc3_hq(uint32_t level, void* pDst, const uint8_t* pPixels, uint32_t search_rad = BC3_DEFAULT_SEARCH_RAD);
void encode_bc4(void* pDst, const uint8_t* pPixels, uint32_t stride = 4);
void encode_bc4_hq(void* pDst, const uint8_t* pPixels, uint32_t stride = 4, uint32_t search_rad = BC3_DEFAULT_SEARCH_RAD);
void encode_bc5(void* pDst, const uint8_t* pPixels, uint32_t chan0 = 0, uint32_t chan1 = 1, uint32_t stride = 4);
void encode_bc5_hq(void* pDst, const uint8_t* pPixels, uint32_t chan0 = 0, uint32_t chan1 = 1, uint32_t stride = 4, uint32_t search_rad = BC3_DEFAULT_SEARCH_RAD);
}
