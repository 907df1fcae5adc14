#include "save.h"
SYM_ENTRY c10()
{
	int geometry = (int)sym_param("geometry", 0), fi = (int)sym_param("f", 9), ty = (int)sym_param("t", 0);
	const FmtInfo& fmt = kFormats[fi];
	Job j = pickJob(geometry);
	if (j.srgb && !fmtNativeSrgb((int)fmt.format, ty)) return;
	Texture t;
	sym_assert(makeTexture(t, j.kind, j.w, j.h, j.layers, j.levels, j.srgb, fmt.format, (TT)ty, j.alpha), "texture");
	std::vector<uint8_t> out(3, 1);
	sym_assert(t.save(out, Texture::FileType::PVR) == Texture::SaveResult::Success, "PVR saved");
	unsigned levels = t.mipLevelCount(), layers = j.kind != 2 && j.layers ? j.layers : 1;
	// Channels from the first in memory for arrays of channels, from the most significant bits otherwise.
	uint64_t pf = 0;
	bool packed = fmt.ch[0].bits%8 != 0 || fmt.bytes*8 != fmt.n*fmt.ch[0].bits;
	for (int c = 0; c < fmt.n; c++)
	{
		// Order the channels by their place.
		int rank = 0;
		for (int k = 0; k < fmt.n; k++) rank += packed ? fmt.ch[k].shift > fmt.ch[c].shift : fmt.ch[k].shift < fmt.ch[c].shift;
		pf |= (uint64_t)"rgba"[fmt.ch[c].src] << (8*rank) | (uint64_t)fmt.ch[c].bits << (32 + 8*rank);
	}
	if (fmt.format == TF::E5B9G9R9_UFloat) pf = 19;
	int size = packed ? (fmt.bytes == 1 ? 0 : fmt.bytes == 2 ? 1 : 2) : fmt.ch[0].bits == 8 ? 0 : fmt.ch[0].bits == 16 ? 1 : 2;
	static const uint32_t chan[6] = {0, 1, 2, 3, 13, 12};
	uint32_t ct = ty < 4 ? chan[ty] + 4*size : chan[ty];
	Reader f(out);
	sym_assert(f.u32() == fcc('P', 'V', 'R', 3), "PVR version");
	sym_assert(f.u32() == (uint32_t)sym_ite(j.alpha == Texture::Alpha::PreMultiplied, 2, 0), "PVR flags");
	sym_assert(f.u64() == pf, "PVR pixel format");
	sym_assert(f.u32() == (j.srgb ? 1u : 0), "PVR color space");
	sym_assert(f.u32() == ct, "PVR channel type");
	sym_assert(f.u32() == j.h, "PVR height");
	sym_assert(f.u32() == j.w, "PVR width");
	sym_assert(f.u32() == (j.kind == 2 ? j.layers : 1), "PVR depth");
	sym_assert(f.u32() == layers, "PVR surfaces");
	sym_assert(f.u32() == (j.kind == 3 ? 6u : 1u), "PVR faces");
	sym_assert(f.u32() == levels, "PVR mip levels");
	// Metadata blocks are whole and within the announced size, and mark arrays and 1D textures.
	uint32_t meta = f.u32();
	size_t end = f.at + meta;
	sym_assert(meta <= 64 && end <= out.size(), "PVR metadata size");
	int arr = 0, dim1 = 0;
	while (f.at < end)
	{
		uint32_t dev = f.u32(), key = f.u32(), n = f.u32();
		sym_assert(dev == fcc('C', 'T', 'F', 'S') && n == 4 && f.u32() == 0, "PVR metadata block");
		if (key == fcc('A', 'R', 'R', 'Y')) arr++;
		else if (key == fcc('D', 'I', 'M', '1')) dim1++;
		else sym_assert(0, "PVR metadata key");
	}
	sym_assert(f.at == end, "PVR metadata blocks");
	sym_assert(arr == (j.kind != 2 && j.layers > 0) && dim1 == (j.kind == 0), "PVR metadata of arrays and 1D textures");
	int ok = 1;
	for (unsigned m = 0; m < levels; m++) for (unsigned d = 0; d < t.depth(m); d++) for (unsigned s = 0; s < t.faceCount(); s++)
		ok = sym_and(ok, f.is(t.data((Texture::CubeFace)s, m, d), t.dataSize((Texture::CubeFace)s, m, d)));
	sym_assert(ok, "PVR contents");
	sym_assert(f.end(), "PVR data at the end");
	sym_observe("size", out.size());
	sym_cover("done");
}
