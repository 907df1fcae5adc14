// Stand-ins for the block encoders Cuttlefish is built on when the compressed formats are enabled
// (their sources are not part of this checkout). Each one has the interface of the real library,
// asserts what that interface asks of its caller, and "encodes" a block by storing one selected
// pixel of the input, so that a harness can see which pixels each stored block was made from.
#pragma once
#include <cstdint>
#include <cstddef>
#include <sym.h>
extern "C" unsigned enc_pixel;   // which pixel of each block is kept (may be symbolic); set before converting
extern "C" unsigned enc_channel; // which channel the encoders of 32-bit floats keep
enum EncKind { ENC_BC1 = 0x11, ENC_SQUISH = 0x12, ENC_BC3 = 0x13, ENC_BC4 = 0x14, ENC_BC4S = 0x15, ENC_BC5 = 0x16, ENC_BC5S = 0x17, ENC_BC6 = 0x18, ENC_BC6S = 0x19, ENC_BC7 = 0x1A,
	ENC_ETC = 0x20, ENC_ASTC = 0x40, ENC_PVRTC = 0x50 };
// The n bytes at p + i*stride for the (symbolic) i = which < count.
static inline void enc_select(uint8_t* out, const void* p, unsigned stride, unsigned n, unsigned which, unsigned count)
{
	const uint8_t* q = (const uint8_t*)p;
	for (unsigned b = 0; b < n; b++)
	{
		uint64_t v = 0;
		for (unsigned i = 0; i < count; i++) v = sym_ite(which == i, q[i*stride + b], v);
		out[b] = (uint8_t)v;
	}
}
