#include "common.h"
#include "snap.h"
#include <FreeImage.h>
#include <string>
int cuttlefish_main(int argc, const char** argv);
typedef std::vector<std::string> Args;
typedef Image::ResizeFilter RF;
static int run(const Args& a)
{
	std::vector<const char*> v;
	v.push_back("cuttlefish");
	for (auto& s : a) v.push_back(s.c_str());
	v.push_back(nullptr);
	return cuttlefish_main((int)a.size() + 1, v.data());
}
static void add(Args& a, const Args& b) { a.insert(a.end(), b.begin(), b.end()); }
static std::vector<uint8_t> contents(const char* n)
{
	long s = env_file_size(n);
	std::vector<uint8_t> v(s > 0 ? s : 0);
	if (s > 0) env_file_read(n, v.data(), v.size());
	return v;
}
static int equal(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b)
{
	if (a.size() != b.size()) return 0;
	int ok = 1;
	for (size_t i = 0; i < a.size(); i++) ok = sym_and(ok, a[i] == b[i]);
	return ok;
}
// An image file; one byte of its first pixel is symbolic.
static void writeImage(const char* path, IF f, unsigned w, unsigned h, unsigned seed, bool symbolic)
{
	FREE_IMAGE_TYPE t = f == IF::Gray16 ? FIT_UINT16 : f == IF::RGBA16 ? FIT_RGBA16 : f == IF::RGBAF ? FIT_RGBAF : f == IF::RGB16 ? FIT_RGB16 : f == IF::Float ? FIT_FLOAT : FIT_BITMAP;
	int bpp = f == IF::RGB8 ? 24 : 32;
	FIBITMAP* b = FreeImage_AllocateT(t, (int)w, (int)h, bpp, 0, 0, 0);
	unsigned line = w*FreeImage_GetBPP(b)/8;
	for (unsigned y = 0; y < h; y++)
	{
		BYTE* p = FreeImage_GetScanLine(b, (int)y);
		if (f == IF::RGBAF || f == IF::Float) for (unsigned x = 0; x < line/4; x++) { float v = (float)((x*5 + y*3 + seed) % 17)/16.0f; memcpy(p + x*4, &v, 4); }
		else for (unsigned x = 0; x < line; x++) p[x] = (BYTE)(x*37 + y*101 + seed*13 + 5);
	}
	if (symbolic)
	{
		BYTE* p = FreeImage_GetScanLine(b, 0);
		uint8_t v = (uint8_t)sym_bits("pixel", 8);
		if (f == IF::RGBAF || f == IF::Float) { float x = (float)v/256.0f; memcpy(p, &x, 4); } else p[1] = v;
	}
	env_image(path, b);
	FreeImage_Unload(b);
}
struct Opts
{
	bool srgb = false, gray = false, normal = false, flipX = false, flipY = false, swizzle = false, pre = false, rotate = false;
	Image::RotateAngle angle = Image::RotateAngle::CW90;
	int w = 0, h = 0; // 0: as the first image
	RF filter = RF::CatmullRom;
	Image::NormalOptions nopt = Image::NormalOptions::Default;
	double nheight = 1;
	TF format = TF::R8G8B8A8; TT type = TT::UNorm;
	ColorSpace texSpace() const { return srgb && fmtNativeSrgb((int)format, (int)type) ? ColorSpace::sRGB : ColorSpace::Linear; }
	Args args() const
	{
		Args a;
		if (pre) a.push_back("--pre-multiply");
		if (swizzle) add(a, {"-s", "barx"});
		if (flipY) a.push_back("--flipy");
		if (flipX) a.push_back("--flipx");
		if (normal) { a.push_back("-n"); if (nopt == Image::NormalOptions::WrapX) add(a, {"wrapx", "2"}); }
		if (gray) a.push_back("-g");
		if (rotate) add(a, {"--rotate", angle == Image::RotateAngle::CW90 ? "90" : angle == Image::RotateAngle::CW180 ? "180" : "-90"});
		if (w) add(a, {"-r", std::to_string(w), std::to_string(h), filter == RF::Box ? "box" : "linear"});
		if (srgb) a.push_back("--srgb");
		static const char* const T[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"};
		add(a, {"-t", T[(int)type]});
		return a;
	}
};
// The operations in their order, through the library.
static Image process(const char* path, const Opts& o, unsigned& w, unsigned& h, unsigned level)
{
	Image i;
	sym_assert(i.load(path, o.srgb ? ColorSpace::sRGB : ColorSpace::Linear), "input");
	if (!w) { w = o.w ? (unsigned)o.w : i.width(); h = o.h ? (unsigned)o.h : i.height(); }
	IF orig = i.format();
	if (orig != IF::RGBAF) i = i.convert(IF::RGBAF);
	if (o.srgb && o.texSpace() == ColorSpace::Linear) i.changeColorSpace(ColorSpace::Linear);
	unsigned tw = w >> level ? w >> level : 1, th = h >> level ? h >> level : 1, rw = o.normal ? w : tw, rh = o.normal ? h : th;
	if (i.width() != rw || i.height() != rh) i = i.resize(rw, rh, o.filter);
	if (o.rotate) i = i.rotate(o.angle);
	if (o.gray) i.grayscale();
	if (o.normal)
	{
		bool sgn = o.type == TT::SNorm || o.type == TT::Int || o.type == TT::Float;
		i = i.createNormalMap(sgn ? o.nopt | Image::NormalOptions::KeepSign : o.nopt, o.nheight);
		if (rw != tw || rh != th) i = i.resize(tw, th, o.filter);
		orig = i.format();
	}
	if (o.flipX) i.flipHorizontal();
	if (o.flipY) i.flipVertical();
	if (o.swizzle) i.swizzle(Image::Channel::Blue, Image::Channel::Alpha, Image::Channel::Red, Image::Channel::None);
	if (o.pre) i.preMultiplyAlpha();
	Texture::adjustImageValueRange(i, o.type, orig);
	return i;
}
static Texture::Alpha alphaOf(const Opts& o) { return o.swizzle ? Texture::Alpha::None : o.pre ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard; }
static Texture::ColorMask maskOf(const Opts& o) { return Texture::ColorMask(true, true, true, !o.swizzle); }
static const char* const kOut[] = {"out.dds", "out.ktx", "out.pvr"};
static const Texture::FileType kType[] = {Texture::FileType::DDS, Texture::FileType::KTX, Texture::FileType::PVR};
static const char* fname(TF f) { return f == TF::R8G8B8A8 ? "R8G8B8A8" : f == TF::R16G16B16A16 ? "R16G16B16A16" : f == TF::R8 ? "R8" : f == TF::R32 ? "R32" : f == TF::R5G6B5 ? "R5G6B5" : "B10G11R11_UFloat"; }
static const IF kInputs[] = {IF::RGBA8, IF::RGB8, IF::RGBA16, IF::Gray16, IF::RGBAF};
SYM_ENTRY c21_pipeline()
{
	Opts o;
	static const TF F[] = {TF::R8G8B8A8, TF::R8G8B8A8, TF::R8G8B8A8, TF::R16G16B16A16, TF::R8G8B8A8, TF::R5G6B5};
	static const TT T[] = {TT::UNorm, TT::SNorm, TT::UInt, TT::Float, TT::Int, TT::UNorm};
	int k = (int)sym_param("k", 0);
	o.format = F[k]; o.type = T[k];
	uint64_t m = (uint64_t)sym_param("mask", 0) | (sym_pick("bits", 0, 31) << 3);
	o.srgb = m & 1; o.gray = m >> 1 & 1; o.pre = m >> 2 & 1; o.normal = m >> 3 & 1; o.flipX = m >> 4 & 1; o.flipY = m >> 5 & 1; o.swizzle = m >> 6 & 1; o.rotate = m >> 7 & 1;
	if (o.rotate) o.angle = sym_pick("angle", 0, 1) ? Image::RotateAngle::CCW90 : Image::RotateAngle::CW90;
	if (o.normal && sym_pick("wrap", 0, 1)) { o.nopt = Image::NormalOptions::WrapX; o.nheight = 2; }
	if (sym_pick("size", 0, 1)) { o.w = 2; o.h = 3; o.filter = RF::Box; }
	IF in = kInputs[sym_param("in", 0)];
	writeImage("in.tif", in, 3, 2, 1, in != IF::Gray16 || !o.normal);
	int ft = (int)sym_param("ft", 0);
	Args a = {"-i", "in.tif", "-f", fname(o.format), "-o", kOut[ft]};
	add(a, o.args());
	unsigned w = 0, h = 0;
	Image i = process("in.tif", o, w, h, 0);
	Texture t(Texture::Dimension::Dim2D, i.width(), i.height(), 0, 1, o.texSpace());
	sym_assert(t.setImage(i), "set");
	sym_assert(t.convert(o.format, o.type, Texture::Quality::Normal, alphaOf(o), maskOf(o), 1), "convert");
	std::vector<uint8_t> want;
	sym_assert(t.save(want, kType[ft]) == Texture::SaveResult::Success, "save");
	sym_assert(run(a) == 0, "succeeds");
	sym_assert(equal(contents(kOut[ft]), want), "the texture asked for");
	sym_cover("done");
}
// Kinds of textures, mip levels and custom mips.
SYM_ENTRY c21_kinds()
{
	int kind = (int)sym_param("kind", 0); // 0 image, 1 array, 2 cube, 3 cube array
	int dim = kind == 0 ? (int)sym_pick("dim", 1, 2) : kind == 1 ? (int)sym_pick("dim", 1, 3) : 2;
	Opts o;
	o.flipX = sym_pick("flip", 0, 1) != 0;
	o.format = sym_param("f", 0) ? TF::R32 : TF::R8G8B8A8;
	if (o.format == TF::R32) o.type = TT::Float;
	if (sym_param("normal", 0)) o.normal = true;
	unsigned iw = 4, ih = kind >= 2 ? 4 : 2, n = kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 6 : 12;
	if (kind < 2 && sym_pick("size", 0, 1)) { o.w = 5; o.h = 3; o.filter = RF::Linear; }
	if (dim == 1) { o.h = o.w ? 1 : 0; ih = 1; }
	bool list = sym_pick("list", 0, 1) != 0;
	Args a;
	std::string names;
	static const char* const face[] = {"+x", "-x", "+y", "-y", "+z", "-z"};
	for (unsigned k = 0; k < n; k++)
	{
		std::string p = std::string("i") + (char)('a' + k) + ".tif";
		// The later ones are brought to the size of the first.
		writeImage(p.c_str(), IF::RGBA8, k == 1 ? iw + 1 : iw, k == 1 ? ih + 2 : ih, k, k == n - 1);
		names += p + "\n";
		if (list) continue;
		if (kind == 0) add(a, {"-i", p});
		else if (kind == 1) add(a, {"-a", p});
		else if (kind == 2) add(a, {"-c", face[k], p});
		else add(a, {"-C", k/6 ? "1" : "0", face[k%6], p});
	}
	if (list)
	{
		static const char* const T[] = {"image", "array", "cube", "cube-array"};
		env_file("list.txt", names.data(), names.size());
		add(a, {"-I", T[kind], "list.txt"});
	}
	if (dim != 2) add(a, {"-d", dim == 1 ? "1" : "3"});
	uint64_t mips = sym_pick("mips", 0, 2);
	RF mf = RF::CatmullRom;
	unsigned levels = 1;
	if (mips == 1) { a.push_back("-m"); levels = Texture::allMipLevels; }
	if (mips == 2) { add(a, {"-m", "2", "box"}); levels = 2; mf = RF::Box; }
	Texture::Dimension d = kind >= 2 ? Texture::Dimension::Cube : dim == 1 ? Texture::Dimension::Dim1D : dim == 2 ? Texture::Dimension::Dim2D : Texture::Dimension::Dim3D;
	unsigned w = 0, h = 0;
	std::vector<Image> im(n);
	for (unsigned k = 0; k < n; k++) im[k] = process((std::string("i") + (char)('a' + k) + ".tif").c_str(), o, w, h, 0);
	Texture t(d, im[0].width(), im[0].height(), kind == 1 ? n : kind == 3 ? n/6 : 0, 1, o.texSpace());
	for (unsigned k = 0; k < n; k++)
	{
		if (kind >= 2) sym_assert(t.setImage(im[k], (Texture::CubeFace)(k%6), 0, k/6), "set");
		else sym_assert(t.setImage(im[k], 0, k), "set");
	}
	Texture::CustomMipImages custom;
	if (mips && sym_pick("custom", 0, 1))
	{
		unsigned level = mips == 1 ? (unsigned)sym_pick("level", 1, 2) : 1;
		writeImage("custom.tif", IF::RGB8, level == 1 ? 3 : 9, level == 1 ? 3 : 7, 40, true);
		auto f = kind >= 2 ? Texture::CubeFace::NegY : Texture::CubeFace::PosX;
		unsigned dd = kind == 1 && dim != 3 ? 1 : 0;
		auto r = sym_pick("once", 0, 1) ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
		add(a, {"-M", std::to_string(level), dd ? "1" : "0"});
		if (kind >= 2) a.push_back("-y");
		if (r == Texture::MipReplacement::Once) a.push_back("once");
		a.push_back("custom.tif");
		Image c = process("custom.tif", o, w, h, level);
		custom.emplace(Texture::ImageIndex(f, level, dd), Texture::CustomMipImage(std::move(c), r));
		sym_cover("custom");
	}
	if (levels > 1) sym_assert(t.generateMipmaps(mf, levels, custom), "mips");
	sym_assert(t.convert(o.format, o.type, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1), "convert");
	int ft = (int)sym_param("ft", 1);
	std::vector<uint8_t> want;
	if (t.save(want, kType[ft]) != Texture::SaveResult::Success) return;
	add(a, {"-f", fname(o.format), "-o", kOut[ft]});
	add(a, o.args());
	if (sym_pick("quiet", 0, 1)) a.push_back("-q"); else a.push_back("-v");
	sym_assert(run(a) == 0, "succeeds");
	sym_assert(equal(contents(kOut[ft]), want), "the texture asked for");
	sym_cover("done");
}
// The sizes named by words.
static bool po2(unsigned v) { return v && !(v & (v - 1)); }
static void checkSize(const char* word, unsigned got, unsigned own, unsigned w, unsigned h)
{
	std::string s = word;
	unsigned base = own;
	if (s.compare(0, 5, "width") == 0) base = w;
	else if (s.compare(0, 6, "height") == 0) base = h;
	else if (s.compare(0, 3, "min") == 0) base = w < h ? w : h;
	else if (s.compare(0, 3, "max") == 0) base = w > h ? w : h;
	if (s.find("nextpo2") != std::string::npos) sym_assert(po2(got) && got >= base && got/2 < base, "next power of two");
	else if (s.find("nearestpo2") != std::string::npos)
	{
		unsigned dist = got > base ? got - base : base - got;
		sym_assert(po2(got), "power of two");
		for (unsigned p = 1; p < 16384; p *= 2) sym_assert(dist <= (p > base ? p - base : base - p), "nearest power of two");
	}
	else sym_assert(got == base, "size");
}
static unsigned u32(const std::vector<uint8_t>& v, size_t at) { unsigned r; memcpy(&r, v.data() + at, 4); return r; }
SYM_ENTRY c21_sizes()
{
	static const char* const W[] = {"nextpo2", "nearestpo2", "width", "width-nextpo2", "width-nearestpo2", "height", "height-nextpo2", "height-nearestpo2", "min", "min-nextpo2", "min-nearestpo2", "max", "max-nextpo2", "max-nearestpo2"};
	int k = (int)sym_param("k", 0), j = (k*5 + 3)%14;
	if (sym_pick("swap", 0, 1)) { int x = k; k = j; j = x; }
	static const unsigned wide[] = {8, 16, 17, 24, 25, 31, 32, 33, 48, 49, 64, 65, 96, 97, 127, 128, 129, 192, 193, 255, 256, 257, 300, 384, 385, 511, 513, 769, 1025, 1537, 2050, 3333};
	unsigned first = (unsigned)sym_param("wide", 0), w, h;
	if (first) { if (first > 16) k = j = (int)sym_param("k", 0); w = wide[sym_pick("size", first - 1, first + 6)]; h = 1 + k % 2; if (sym_pick("tall", 0, 1)) { unsigned x = w; w = h; h = x; } }
	else { w = (unsigned)sym_pick("w", 1, (uint64_t)sym_param("w1", 9)); h = (unsigned)sym_pick("h", 1, 7); }
	writeImage("in.tif", IF::RGB8, w, h, 3, false);
	int extra = (int)sym_pick("extra", 0, 1);
	Args a = {"-i", "in.tif", "-r", W[k], W[j], "box", "-f", "R8", "-o", "out.dds"};
	if (extra) { writeImage("in2.tif", IF::RGB8, 2, 11, 4, false); a[0] = "-a"; add(a, {"-a", "in2.tif"}); }
	sym_assert(run(a) == 0, "succeeds");
	std::vector<uint8_t> d = contents("out.dds");
	sym_assert(d.size() > 128, "written");
	unsigned gh = u32(d, 12), gw = u32(d, 16);
	checkSize(W[k], gw, w, w, h);
	checkSize(W[j], gh, h, w, h);
	size_t data = (size_t)gw*gh*(extra ? 2 : 1);
	sym_assert(d.size() == data + 128 || d.size() == data + 148, "all pixels");
	sym_cover("done");
}
// Failures and their exit status.
static void inputs(Args& a, unsigned n)
{
	for (unsigned k = 0; k < n; k++)
	{
		std::string p = std::string("i") + (char)('a' + k) + ".tif";
		writeImage(p.c_str(), IF::RGBA8, 2, 2, k, false);
		add(a, {"-a", p});
	}
}
SYM_ENTRY c21_errors()
{
	Args a = {"-f", "R8G8B8A8"};
	inputs(a, 2);
	int want = 0;
	const char* out = "out.ktx";
	env_dir("dir");
	env_file("file", "x", 1);
	env_file("bad.tif", "no image at all, whatever the name says", 39);
	switch (sym_pick("what", 0, 13))
	{
		case 0: break;
		case 1: add(a, {"-a", "missing.tif"}); want = 2; break;
		case 2: add(a, {"-a", "bad.tif"}); want = 2; break;
		case 3: a[3] = sym_pick("bad", 0, 1) ? "bad.tif" : "missing.tif"; want = 2; break;
		case 4: add(a, {"-m", "-M", "1", "missing.tif"}); want = 2; break;
		case 5: a[1] = "R9"; want = 1; break;
		case 6: out = "missing/out.ktx"; want = 3; break;
		case 7: out = sym_pick("slash", 0, 1) ? "dir/" : "dir"; add(a, {"--file-format", "ktx"}); want = 3; break;
		case 8: out = "file/out.ktx"; if (sym_pick("create", 0, 1)) a.push_back("--create-dir"); want = 3; break;
		case 9: out = sym_pick("deep", 0, 1) ? "new/deeper/still/out.ktx" : "./dir/new/out.ktx"; a.push_back("--create-dir"); break;
		case 10: out = "dir/out.ktx"; if (sym_pick("create", 0, 1)) a.push_back("--create-dir"); break;
		case 11: add(a, {"-t", "ufloat"}); want = 1; break;
		case 12: a = {"-i", "ia.tif", "-f", "R8G8B8A8", "-d", "3"}; want = 3; break; // No depth.
		default: out = ""; add(a, {"--file-format", "ktx"}); want = 3; break;
	}
	add(a, {"-o", out});
	int r = run(a);
	sym_assert(r == want, "exit status");
	sym_observe("r", (uint64_t)r);
	if (want) { sym_assert(env_file_size(*out && out[strlen(out) - 1] != '/' && strcmp(out, "dir") ? out : "none") < 0, "nothing written"); sym_cover("failed"); }
	else { sym_assert(env_file_size(out) == 64 + 4 + 2*16 || env_file_size(out) > 32, "written"); sym_cover("ok"); }
}
SYM_ENTRY c21_mips_refused()
{
	Args a = {"-f", "R8G8B8A8", "-o", "out.ktx"};
	inputs(a, 2);
	add(a, {"-m"});
	switch (sym_pick("what", 0, 3))
	{
		case 0: add(a, {"-M", "2", "ia.tif"}); break;  // Two levels only.
		case 1: add(a, {"-M", "1", "-x", "ia.tif"}); break; // No cube.
		case 2: add(a, {"-M", "1", "2", "ia.tif"}); break; // Two images only.
		default: a.pop_back(); add(a, {"-m", "1", "-M", "1", "ia.tif"}); break;
	}
	sym_assert(run(a) != 0, "refused");
	sym_assert(env_file_size("out.ktx") < 0, "nothing written");
	sym_cover("done");
}
// Writing fails at any byte.
SYM_ENTRY c21_write()
{
	int ft = (int)sym_param("ft", 0);
	Args a = {"-f", "R8G8B8A8", "-o", kOut[ft], "-m"};
	inputs(a, 2);
	if (sym_pick("create", 0, 1)) a.push_back("--create-dir");
	sym_assert(run(a) == 0, "succeeds");
	std::vector<uint8_t> whole = contents(kOut[ft]);
	long limit = (long)sym_range("limit", 0, whole.size() + 1);
	env_write_limit(limit);
	a[3] = ft == 0 ? "again.dds" : ft == 1 ? "again.ktx" : "again.pvr";
	int r = run(a);
	env_write_limit(-1);
	if (r == 0)
	{
		sym_assert(limit >= (long)whole.size(), "success although a write failed");
		sym_assert(equal(contents(a[3].c_str()), whole), "complete file");
		sym_cover("ok");
	}
	else { sym_assert(r == 3, "exit status"); sym_assert(limit < (long)whole.size(), "failure although everything was written"); sym_cover("failed"); }
	sym_observe("r", (uint64_t)r);
}
// The remaining options reach the texture.
SYM_ENTRY c21_output()
{
	Args a;
	writeImage("ia.tif", IF::RGBA8, 2, 2, 9, true);
	add(a, {"-i", "ia.tif", "-f", "R8G8B8A8", "-o", "out.pvr"});
	static const char* const A[] = {"none", "standard", "pre-multiplied", "encoded"};
	static const Texture::Alpha AA[] = {Texture::Alpha::None, Texture::Alpha::Standard, Texture::Alpha::PreMultiplied, Texture::Alpha::Encoded};
	int al = (int)sym_pick("alpha", 0, 4), sw = (int)sym_pick("swizzle", 0, 3), pre = (int)sym_pick("pre", 0, 1), srgb = (int)sym_pick("srgb", 0, 1);
	static const char* const S[] = {"", "rxbg", "argx", "xxxx"};
	typedef Image::Channel CH;
	static const CH C[4][4] = {{CH::Red, CH::Green, CH::Blue, CH::Alpha}, {CH::Red, CH::None, CH::Blue, CH::Green}, {CH::Alpha, CH::Red, CH::Green, CH::None}, {CH::None, CH::None, CH::None, CH::None}};
	if (al < 4) add(a, {"--alpha", A[al]});
	if (sw) add(a, {"-s", S[sw]});
	if (pre) a.push_back("--pre-multiply");
	if (srgb) a.push_back("--srgb");
	int ft = (int)sym_pick("file", 0, 3);
	static const char* const F[] = {"dds", "ktx", "pvr"};
	if (ft < 3) add(a, {"--file-format", F[ft]});
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i;
	sym_assert(i.load("ia.tif", cs), "input");
	i = i.convert(IF::RGBAF);
	if (sw) i.swizzle(C[sw][0], C[sw][1], C[sw][2], C[sw][3]);
	if (pre) i.preMultiplyAlpha();
	Texture t(Texture::Dimension::Dim2D, 2, 2, 0, 1, cs);
	sym_assert(t.setImage(i), "set");
	Texture::ColorMask m(C[sw][0] != CH::None, C[sw][1] != CH::None, C[sw][2] != CH::None, C[sw][3] != CH::None);
	Texture::Alpha want = al < 4 ? AA[al] : !m.a ? Texture::Alpha::None : pre ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard;
	sym_assert(t.convert(TF::R8G8B8A8, TT::UNorm, Texture::Quality::Normal, want, m, 1), "convert");
	std::vector<uint8_t> v;
	sym_assert(t.save(v, kType[ft < 3 ? ft : 2]) == Texture::SaveResult::Success, "save");
	sym_assert(run(a) == 0, "succeeds");
	sym_assert(equal(contents("out.pvr"), v), "the texture asked for");
	sym_cover("done");
}
