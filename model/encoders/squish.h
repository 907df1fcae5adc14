#pragma once
#include "encmodel.h"
namespace squish
{
typedef unsigned char u8;
enum { kDxt1 = 1 << 0, kDxt3 = 1 << 1, kDxt5 = 1 << 2, kBc4 = 1 << 3, kBc5 = 1 << 4, kColourClusterFit = 1 << 5, kColourRangeFit = 1 << 6, kWeightColourByAlpha = 1 << 7, kColourIterativeClusterFit = 1 << 8, kSourceBGRA = 1 << 9 };
void CompressMasked(u8 const* rgba, int mask, void* block, int flags, float* metric = 0);
inline void Compress(u8 const* rgba, void* block, int flags, float* metric = 0) { CompressMasked(rgba, 0xffff, block, flags, metric); }
}
