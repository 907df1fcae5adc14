// The block-compressed formats, by index from Texture::Format::BC1_RGB on.
#pragma once
#include "common.h"
enum { N_BLOCKS = 34, BC1A = 1, BC2 = 2, BC3 = 3, BC4 = 4, BC5 = 5, BC6 = 6, BC7 = 7, ETC1 = 8, ETC2 = 9, ETC2A1 = 10, ETC2A8 = 11, EAC1 = 12, EAC2 = 13, ASTC = 14, PVRTC = 28 };
static const int kFirst = (int)TF::BC1_RGB;
static bool isAstc(int k) { return k >= ASTC && k < PVRTC; }
static bool signedToo(int k) { return k == BC4 || k == BC5 || k == EAC1 || k == EAC2; }
static bool validType(int k, int t) { return k == BC6 ? t == 4 || t == 5 : t == 0 || (t == 1 && signedToo(k)) || (t == 4 && isAstc(k)); }
static int channels(int k)
{
	static const int n[ASTC] = {3, 4, 4, 4, 1, 2, 3, 4, 3, 3, 4, 4, 1, 2};
	return k < ASTC ? n[k] : k == PVRTC || k == PVRTC + 2 ? 3 : 4;
}
static bool nativeSrgb(int k, int t) { return t == 0 && k != BC4 && k != BC5 && k != BC6 && k != ETC1 && k != EAC1 && k != EAC2; }
static uint32_t dxgiFor(int k, int t, bool srgb)
{
	switch (k)
	{
		case 0: case 1: return srgb ? 72 : 71;
		case BC2: return srgb ? 75 : 74;
		case BC3: return srgb ? 78 : 77;
		case BC4: return t == 1 ? 81 : 80;
		case BC5: return t == 1 ? 84 : 83;
		case BC6: return t == 5 ? 96 : 95;
		case BC7: return srgb ? 99 : 98;
		default: return 0;
	}
}
