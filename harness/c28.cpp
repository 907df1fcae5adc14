// The command line tool and the block-compressed formats.
#include "blocks.h"
#include "encmodel.h"
#include <CommandLine.h>
#include <FreeImage.h>
#include <string>
int cuttlefish_main(int argc, const char** argv);
typedef CommandLine CL;
typedef Texture::FileType FT;
typedef std::vector<std::string> Args;
static const char* const kWords[] = {"BC1_RGB", "BC1_RGBA", "BC2", "BC3", "BC4", "BC5", "BC6H", "BC7", "ETC1", "ETC2_R8G8B8", "ETC2_R8G8B8A1", "ETC2_R8G8B8A8", "EAC_R11", "EAC_R11G11",
	"ASTC_4x4", "ASTC_5x4", "ASTC_5x5", "ASTC_6x5", "ASTC_6x6", "ASTC_8x5", "ASTC_8x6", "ASTC_8x8", "ASTC_10x5", "ASTC_10x6", "ASTC_10x8", "ASTC_10x10", "ASTC_12x10", "ASTC_12x12",
	"PVRTC1_RGB_2BPP", "PVRTC1_RGBA_2BPP", "PVRTC1_RGB_4BPP", "PVRTC1_RGBA_4BPP", "PVRTC2_RGBA_2BPP", "PVRTC2_RGBA_4BPP"};
static const char* const kTypes[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"};
static const char* const kAlpha[] = {"none", "standard", "pre-multiplied", "encoded"};
static const char* const kQuality[] = {"lowest", "low", "normal", "high", "highest"};
static const char* const kOut[] = {"", "out.dds", "out.ktx", "out.pvr"};
static char low(char c) { return c + ((c >= 'A') & (c <= 'Z'))*32; }
static int iequal(const std::string& a, const char* b)
{
	size_t n = strlen(b);
	if (a.size() != n) return 0;
	int ok = 1;
	for (size_t i = 0; i < n; i++) ok = sym_and(ok, low(a[i]) == low(b[i]));
	return ok;
}
static std::vector<const char*> pointers(const Args& a)
{
	std::vector<const char*> v;
	v.push_back("cuttlefish");
	for (auto& s : a) v.push_back(s.c_str());
	v.push_back(nullptr);
	return v;
}
static bool validFor(int k, int t, int ft) { return validType(k, t) && (ft != 1 || dxgiFor(k, t, false)); }
// The name of a format, in any case, with any one letter replaced by any other.
SYM_ENTRY c28_words()
{
	int k = (int)sym_param("k", 0);
	std::string v = kWords[k];
	size_t p = (size_t)sym_pick("letter", 0, v.size());
	char ch = (char)sym_bits("char", 8);
	sym_assume(ch != 0);
	if (p == v.size()) v.push_back(ch); else v[p] = ch;
	if (p < v.size() - 1 && sym_pick("lower", 0, 1)) for (size_t i = 0; i < v.size(); i++) if (i != p) v[i] = low(v[i]);
	int got = -1;
	for (int i = 0; i < N_BLOCKS && got < 0; i++) if (iequal(v, kWords[i])) got = i;
	Args a = {"-i", "in.png", "-f", v, "-o", "out.ktx"};
	std::vector<const char*> argv = pointers(a);
	CL c;
	bool ok = c.parse((int)a.size() + 1, argv.data());
	if (got < 0) { sym_assert(!ok, "unknown format refused"); sym_cover("refused"); return; }
	sym_assert(ok, "known format accepted");
	sym_assert(c.format == (TF)(kFirst + got), "format");
	sym_assert(c.type == (got == BC6 ? TT::UFloat : TT::UNorm), "type of a format without one given");
	sym_cover("accepted");
}
// Formats with types, containers, color spaces and alpha modes, in any order.
SYM_ENTRY c28_options()
{
	int k = (int)sym_param("k", 0), t = (int)sym_pick("type", 0, 6), ft = (int)sym_pick("container", 1, 3);
	bool first = sym_pick("first", 0, 1) != 0, srgb = sym_pick("srgb", 0, 1) != 0;
	int by = (int)sym_pick("by", 0, 1), alpha = (int)sym_pick("alpha", 0, 4);
	Args a, f = {"-f", kWords[k]};
	if (t < 6) { if (first) f = {"-t", kTypes[t], "-f", kWords[k]}; else f = {"-f", kWords[k], "-t", kTypes[t]}; }
	a = {"-i", "in.png"};
	a.insert(a.end(), f.begin(), f.end());
	if (srgb) a.push_back("--srgb");
	if (alpha < 4) { a.push_back("--alpha"); a.push_back(kAlpha[alpha]); }
	a.push_back("-o");
	// The container by its name, or by the option, which wins.
	a.push_back(by ? kOut[ft % 3 + 1] : kOut[ft]);
	if (by) { a.push_back("--file-format"); a.push_back(kOut[ft] + 4); }
	std::vector<const char*> argv = pointers(a);
	CL c;
	bool ok = c.parse((int)a.size() + 1, argv.data());
	int type = t < 6 ? t : k == BC6 ? 4 : 0;
	sym_assert(ok == validFor(k, type, ft), "accepted exactly if the container takes the format and type");
	if (!ok) { sym_cover("refused"); return; }
	sym_assert(c.format == (TF)(kFirst + k) && c.type == (TT)type && c.fileType == (FT)ft, "format, type and container");
	sym_assert(c.imageColorSpace == (srgb ? ColorSpace::sRGB : ColorSpace::Linear), "image color space");
	sym_assert(c.textureColorSpace == (srgb && nativeSrgb(k, type) ? ColorSpace::sRGB : ColorSpace::Linear), "texture color space");
	sym_assert(c.alpha == (alpha < 4 ? (Texture::Alpha)alpha : Texture::Alpha::Standard), "alpha");
	sym_cover("accepted");
}
// An image file; one byte of its first pixel is symbolic.
static void writeImage(const char* path, unsigned w, unsigned h, unsigned seed)
{
	FIBITMAP* b = FreeImage_AllocateT(FIT_BITMAP, (int)w, (int)h, 32, 0, 0, 0);
	for (unsigned y = 0; y < h; y++)
	{
		BYTE* p = FreeImage_GetScanLine(b, (int)y);
		for (unsigned x = 0; x < w*4; x++) p[x] = (BYTE)(x*37 + y*101 + seed*13 + 5);
		// No transparent pixels.
		for (unsigned x = 0; x < w; x++) p[x*4 + 3] |= 128;
	}
	FreeImage_GetScanLine(b, (int)h - 1)[1] = (BYTE)sym_bits("pixel", 8);
	env_image(path, b);
	FreeImage_Unload(b);
}
// What the tool writes is what the library's operations give with the settings asked for.
SYM_ENTRY c28_run()
{
	int k = (int)sym_param("k", 0), t = (int)sym_param("t", 0), ft = (int)sym_param("container", 2);
	int what = (int)sym_pick("what", 0, 5);
	int alpha = what == 1 ? (int)sym_pick("alpha", 0, 3) : -1, quality = what == 2 ? (int)sym_pick("quality", 0, 4) : 2;
	bool srgb = what == 3, mips = what == 4, mask = what == 5;
	enc_pixel = (unsigned)sym_pick("at", 0, 1)*4;
	enc_channel = (unsigned)sym_param("channel", 0);
	writeImage("in.tif", 6, 5, 1);
	Args a = {"-i", "in.tif", "-f", kWords[k], "-t", kTypes[t], "-o", kOut[ft], "-q"};
	if (alpha >= 0) { a.push_back("--alpha"); a.push_back(kAlpha[alpha]); }
	if (what == 2) { a.push_back("-Q"); a.push_back(kQuality[quality]); }
	if (srgb) a.push_back("--srgb");
	if (mips) { a.push_back("-m"); a.push_back("2"); a.push_back("box"); }
	if (mask) { a.push_back("-s"); a.push_back("gxbx"); }
	ColorSpace is = srgb ? ColorSpace::sRGB : ColorSpace::Linear, ts = srgb && nativeSrgb(k, t) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i;
	sym_assert(i.load("in.tif", is), "input");
	IF orig = i.format();
	i = i.convert(IF::RGBAF);
	if (is != ts) i.changeColorSpace(ts);
	if (mask) i.swizzle(Image::Channel::Green, Image::Channel::None, Image::Channel::Blue, Image::Channel::None);
	Texture::adjustImageValueRange(i, (TT)t, orig);
	Texture x(Texture::Dimension::Dim2D, i.width(), i.height(), 0, 1, ts);
	sym_assert(x.setImage(i), "set");
	if (mips) sym_assert(x.generateMipmaps(Image::ResizeFilter::Box, 2), "mipmaps");
	Texture::Alpha am = mask ? Texture::Alpha::None : alpha >= 0 ? (Texture::Alpha)alpha : Texture::Alpha::Standard;
	sym_assert(x.convert((TF)(kFirst + k), (TT)t, (Texture::Quality)quality, am, Texture::ColorMask(true, !mask, true, !mask), 1), "convert");
	std::vector<uint8_t> want;
	sym_assert(x.save(want, (FT)ft) == Texture::SaveResult::Success, "save");
	std::vector<const char*> argv = pointers(a);
	sym_assert(cuttlefish_main((int)a.size() + 1, argv.data()) == 0, "succeeds");
	long s = env_file_size(kOut[ft]);
	sym_assert(s == (long)want.size(), "size of the file");
	std::vector<uint8_t> got(want.size());
	env_file_read(kOut[ft], got.data(), got.size());
	int same = 1;
	for (size_t n = 0; n < got.size(); n++) same = sym_and(same, got[n] == want[n]);
	sym_assert(same, "the texture asked for");
	sym_cover("done");
}
