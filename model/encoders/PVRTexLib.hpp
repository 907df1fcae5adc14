#pragma once
#include "encmodel.h"
#include <vector>
typedef uint64_t PVRTuint64;
typedef uint32_t PVRTuint32;
typedef int32_t PVRTint32;
#define PVRTGENPIXELID4(C1, C2, C3, C4, B1, B2, B3, B4) (((PVRTuint64)C1) + ((PVRTuint64)C2 << 8) + ((PVRTuint64)C3 << 16) + ((PVRTuint64)C4 << 24) + ((PVRTuint64)B1 << 32) + ((PVRTuint64)B2 << 40) + ((PVRTuint64)B3 << 48) + ((PVRTuint64)B4 << 56))
enum PVRTexLibPixelFormat { PVRTLPF_PVRTCI_2bpp_RGB, PVRTLPF_PVRTCI_2bpp_RGBA, PVRTLPF_PVRTCI_4bpp_RGB, PVRTLPF_PVRTCI_4bpp_RGBA, PVRTLPF_PVRTCII_2bpp, PVRTLPF_PVRTCII_4bpp, PVRTLPF_ETC1 };
enum PVRTexLibVariableType { PVRTLVT_UnsignedByteNorm, PVRTLVT_SignedByteNorm, PVRTLVT_UnsignedByte, PVRTLVT_SignedByte, PVRTLVT_UnsignedShortNorm };
enum PVRTexLibColourSpace { PVRTLCS_Linear, PVRTLCS_sRGB };
enum PVRTexLibCompressorQuality { PVRTLCQ_PVRTCFastest, PVRTLCQ_PVRTCFast, PVRTLCQ_PVRTCLow, PVRTLCQ_PVRTCNormal, PVRTLCQ_PVRTCHigh, PVRTLCQ_PVRTCVeryHigh, PVRTLCQ_PVRTCThorough, PVRTLCQ_PVRTCBest };
#define PVRTEX_ALLMIPLEVELS (-1)
namespace pvrtexlib
{
class PVRTextureHeader
{
public:
	PVRTextureHeader(PVRTuint64 pixelFormat, PVRTuint32 width, PVRTuint32 height, PVRTuint32 depth = 1, PVRTuint32 numMipMaps = 1, PVRTuint32 numArrayMembers = 1, PVRTuint32 numFaces = 1,
		PVRTexLibColourSpace colourSpace = PVRTLCS_sRGB, PVRTexLibVariableType channelType = PVRTLVT_UnsignedByteNorm, bool preMultiplied = false);
	PVRTuint64 GetTextureDataSize(PVRTint32 mipLevel = PVRTEX_ALLMIPLEVELS, bool allSurfaces = true, bool allFaces = true) const;
protected:
	PVRTuint64 m_format;
	PVRTuint32 m_width, m_height;
	PVRTexLibColourSpace m_space;
	PVRTexLibVariableType m_type;
	bool m_pre;
};
class PVRTexture : public PVRTextureHeader
{
public:
	PVRTexture(const PVRTextureHeader& header, const void* data);
	void* GetTextureDataPointer(PVRTuint32 mipLevel = 0, PVRTuint32 arrayMember = 0, PVRTuint32 faceNumber = 0, PVRTuint32 ZSlice = 0);
	bool Transcode(PVRTuint64 pixelFormat, PVRTexLibVariableType channelType, PVRTexLibColourSpace colourspace, PVRTexLibCompressorQuality quality = PVRTLCQ_PVRTCNormal, PVRTuint32 ditherOrThreads = 0, float maxRange = 1.0f, PVRTuint32 maxThreads = 0);
private:
	std::vector<uint8_t> m_data;
};
}
