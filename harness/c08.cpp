#include "save.h"
static const uint32_t NO = 0;
// DXGI_FORMAT by type: UNorm, SNorm, UInt, Int, UFloat, Float; sRGB variant of UNorm.
static const struct { TF f; uint32_t dxgi[6]; uint32_t srgb; } kDxgi[] = {
	{TF::R4G4, {112}, 0}, {TF::A4R4G4B4, {115}, 0}, {TF::R5G6B5, {85}, 0}, {TF::A1R5G5B5, {86}, 0},
	{TF::R8, {61, 63, 62, 64}, 0}, {TF::R8G8, {49, 51, 50, 52}, 0}, {TF::R8G8B8A8, {28, 31, 30, 32}, 29}, {TF::B8G8R8A8, {87}, 91},
	{TF::A2B10G10R10, {24, 0, 25}, 0}, {TF::R16, {56, 58, 57, 59, 0, 54}, 0}, {TF::R16G16, {35, 37, 36, 38, 0, 34}, 0}, {TF::R16G16B16A16, {11, 13, 12, 14, 0, 10}, 0},
	{TF::R32, {0, 0, 42, 43, 0, 41}, 0}, {TF::R32G32, {0, 0, 17, 18, 0, 16}, 0}, {TF::R32G32B32, {0, 0, 7, 8, 0, 6}, 0}, {TF::R32G32B32A32, {0, 0, 3, 4, 0, 2}, 0},
	{TF::B10G11R11_UFloat, {0, 0, 0, 0, 26, 0}, 0}, {TF::E5B9G9R9_UFloat, {0, 0, 0, 0, 67, 0}, 0}};
static uint32_t dxgiFor(TF f, int t, bool srgb)
{
	for (auto& k : kDxgi) if (k.f == f) return srgb && t == 0 ? k.srgb : k.dxgi[t];
	return 0;
}
SYM_ENTRY c08()
{
	int geometry = (int)sym_param("geometry", 0), fi = (int)sym_param("f", 9), ty = (int)sym_param("t", 0);
	const FmtInfo& fmt = kFormats[fi];
	Job j = pickJob(geometry);
	if (j.srgb && !fmtNativeSrgb((int)fmt.format, ty)) return;
	Texture t;
	sym_assert(makeTexture(t, j.kind, j.w, j.h, j.layers, j.levels, j.srgb, fmt.format, (TT)ty, j.alpha), "texture");
	std::vector<uint8_t> out(3, 1);
	Texture::SaveResult r = t.save(out, Texture::FileType::DDS);
	uint32_t want = dxgiFor(fmt.format, ty, j.srgb);
	if (!want) { sym_assert(r == Texture::SaveResult::Unsupported, "DDS saved for a format it cannot describe"); sym_cover("unsupported"); sym_cover("done"); return; }
	sym_assert(r == Texture::SaveResult::Success, "DDS saved");
	unsigned levels = t.mipLevelCount(), elements = j.layers && j.kind != 2 ? j.layers : 1;
	Reader f(out);
	sym_assert(f.u32() == fcc('D', 'D', 'S', ' '), "DDS magic");
	sym_assert(f.u32() == 124, "DDS header size");
	uint32_t flags = f.u32();
	sym_assert((flags & 0x1007) == 0x1007 && ((flags & 0x20000) != 0 || levels == 1) && ((flags & 0x800000) != 0) == (j.kind == 2), "DDS header flags");
	sym_assert((flags & ~(uint32_t)(0x1007 | 0x20000 | 0x800000 | 0x8)) == 0 , "DDS header flags that do not apply");
	sym_assert(f.u32() == j.h, "DDS height");
	sym_assert(f.u32() == j.w, "DDS width");
	sym_assert(f.u32() == ((flags & 8) ? j.w*fmt.bytes : 0), "DDS pitch");
	uint32_t depth = f.u32();
	sym_assert(j.kind == 2 ? depth == j.layers : depth <= 1, "DDS depth");
	sym_assert(f.u32() == levels, "DDS mip levels");
	sym_assert(f.zeros(44), "DDS reserved fields");
	sym_assert(f.u32() == 32 && f.u32() == 4 && f.u32() == fcc('D', 'X', '1', '0') && f.zeros(20), "DDS pixel format");
	uint32_t caps = f.u32(), caps2 = f.u32();
	bool complex = levels > 1 || j.kind >= 2 || j.layers > 0;
	sym_assert(caps == (0x1000u | (levels > 1 ? 0x400000u : 0) | (complex ? 8u : 0)), "DDS caps");
	sym_assert(caps2 == (j.kind == 3 ? 0xFE00u : j.kind == 2 ? 0x200000u : 0), "DDS caps2");
	sym_assert(f.zeros(12), "DDS unused caps");
	sym_assert(f.u32() == want, "DXGI format");
	sym_assert(f.u32() == (j.kind == 0 ? 2u : j.kind == 2 ? 4u : 3u), "DDS resource dimension");
	sym_assert(f.u32() == (j.kind == 3 ? 4u : 0), "DDS cube flag");
	sym_assert(f.u32() == elements, "DDS array size");
	bool alpha = false;
	for (int c = 0; c < fmt.n; c++) alpha = alpha || fmt.ch[c].src == 3;
	uint32_t mode = alpha ? (uint32_t)sym_ite(j.alpha == Texture::Alpha::None, 3, sym_ite(j.alpha == Texture::Alpha::Standard, 1, sym_ite(j.alpha == Texture::Alpha::PreMultiplied, 2, 4))) : 3;
	sym_assert(f.u32() == mode, "DDS alpha mode");
	int ok = 1;
	for (unsigned e = 0; e < elements; e++) for (unsigned s = 0; s < t.faceCount(); s++) for (unsigned m = 0; m < levels; m++) for (unsigned z = 0; z < (j.kind == 2 ? t.depth(m) : 1); z++)
		ok = sym_and(ok, f.is(t.data((Texture::CubeFace)s, m, e + z), t.dataSize((Texture::CubeFace)s, m, e + z)));
	sym_assert(ok, "DDS contents");
	sym_assert(f.end(), "DDS data at the end");
	sym_observe("size", out.size());
	sym_cover("done");
}
