#include "common.h"
#include <CommandLine.h>
#include <string>
typedef CommandLine CL;
typedef Texture::FileType FT;
typedef std::vector<std::string> Args;
// Runs the parser on exactly these arguments; nothing lies behind them.
static bool parse(CL& c, const Args& a)
{
	const char** v = new const char*[a.size() + 1];
	v[0] = "tool";
	std::vector<char*> copies;
	for (size_t i = 0; i < a.size(); i++)
	{
		char* p = new char[a[i].size() + 1];
		memcpy(p, a[i].c_str(), a[i].size() + 1);
		copies.push_back(p);
		v[i + 1] = p;
	}
	return c.parse((int)a.size() + 1, v); // The output name points into the arguments.
}
static void add(Args& a, const Args& b) { a.insert(a.end(), b.begin(), b.end()); }
static char low(char c) { return c + ((c >= 'A') & (c <= 'Z'))*32; }
static bool iequal(const std::string& a, const char* b)
{
	size_t n = strlen(b);
	if (a.size() != n) return false;
	int ok = 1;
	for (size_t i = 0; i < n; i++) ok = sym_and(ok, low(a[i]) == low(b[i]));
	return ok;
}
static bool mipsEqual(const CL::CustomMipImages& a, const CL::CustomMipImages& b)
{
	if (a.size() != b.size()) return false;
	for (auto& m : a)
	{
		auto i = b.find(m.first);
		if (i == b.end() || i->second.image != m.second.image || i->second.replacement != m.second.replacement) return false;
	}
	return true;
}
static void compare(const CL& a, const CL& b)
{
	sym_assert(a.jobs == b.jobs, "jobs");
	sym_assert(a.log == b.log, "log");
	sym_assert(a.imageType == b.imageType, "image type");
	sym_assert(a.images == b.images, "images");
	sym_assert(a.width == b.width, "width");
	sym_assert(a.height == b.height, "height");
	sym_assert(a.resizeFilter == b.resizeFilter, "resize filter");
	sym_assert(a.mipLevels == b.mipLevels, "mip levels");
	sym_assert(a.mipFilter == b.mipFilter, "mip filter");
	sym_assert(mipsEqual(a.customMipImages, b.customMipImages), "custom mips");
	sym_assert(a.flipX == b.flipX && a.flipY == b.flipY, "flips");
	sym_assert(a.rotate == b.rotate && (!a.rotate || a.rotateAngle == b.rotateAngle), "rotation");
	sym_assert(a.normalMap == b.normalMap && a.normalOptions == b.normalOptions && a.normalHeight == b.normalHeight, "normal map");
	sym_assert(a.grayscale == b.grayscale && a.preMultiply == b.preMultiply, "grayscale and alpha multiplication");
	sym_assert(a.swizzle == b.swizzle && a.redSwzl == b.redSwzl && a.greenSwzl == b.greenSwzl && a.blueSwzl == b.blueSwzl && a.alphaSwzl == b.alphaSwzl, "swizzle");
	sym_assert(a.colorMask.r == b.colorMask.r && a.colorMask.g == b.colorMask.g && a.colorMask.b == b.colorMask.b && a.colorMask.a == b.colorMask.a, "color mask");
	sym_assert(a.imageColorSpace == b.imageColorSpace, "image color space");
	sym_assert(a.textureColorSpace == b.textureColorSpace, "texture color space");
	sym_assert(a.dimension == b.dimension, "dimension");
	sym_assert(a.format == b.format, "format");
	sym_assert(a.type == b.type, "type");
	sym_assert(a.alpha == b.alpha, "alpha");
	sym_assert(a.quality == b.quality, "quality");
	sym_assert(a.output && b.output && std::string(a.output) == b.output, "output");
	sym_assert(a.fileType == b.fileType, "file type");
	sym_assert(a.createOutputDir == b.createOutputDir, "create directory");
}
// What the options ask for, before what follows from their combination.
struct Want { CL c; bool alphaSet = false, typeSet = false; };
static bool finish(Want& w)
{
	CL& c = w.c;
	if (!w.typeSet && (c.format == TF::B10G11R11_UFloat || c.format == TF::E5B9G9R9_UFloat)) c.type = TT::UFloat;
	if (!w.alphaSet) c.alpha = !c.colorMask.a ? Texture::Alpha::None : c.preMultiply ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard;
	if (c.fileType == FT::Auto) c.fileType = Texture::fileType(c.output);
	if (c.fileType == FT::Auto) return false;
	if (!fmtValid((int)c.format, (int)c.type) || !Texture::isFormatValid(c.format, c.type, c.fileType)) return false;
	if (c.textureColorSpace == ColorSpace::sRGB && !fmtNativeSrgb((int)c.format, (int)c.type)) c.textureColorSpace = ColorSpace::Linear;
	return true;
}
struct Row { const char* key; const char* args; void (*set)(Want&); };
#define SET [](Want& w) { CL& c = w.c; (void)c; 
#define DONE }
typedef Image::ResizeFilter RF;
typedef Image::NormalOptions NO;
typedef Image::RotateAngle RA;
typedef Image::Channel CH;
#define ROT(x) SET c.rotate = true; c.rotateAngle = RA::x; DONE
#define SIZE(x, y) SET c.width = CL::x; c.height = CL::y; DONE
static const Row kRows[] = {
	{"-j", "-j", SET c.jobs = Texture::allCores; DONE}, {"-j", "--jobs 3", SET c.jobs = 3; DONE}, {"-j", "-j 16", SET c.jobs = 16; DONE},
	{"-q", "-q", SET c.log = CL::Log::Quiet; DONE}, {"-q", "--quiet", SET c.log = CL::Log::Quiet; DONE},
	{"-q", "-v", SET c.log = CL::Log::Verbose; DONE}, {"-q", "--verbose", SET c.log = CL::Log::Verbose; DONE},
	{"-r", "-r 5 7", SET c.width = 5; c.height = 7; DONE}, {"-r", "--resize 2147483647 1 box", SET c.width = 2147483647; c.height = 1; c.resizeFilter = RF::Box; DONE},
	{"-r", "-r nextpo2 NearestPO2 linear", SET c.width = CL::NextPO2; c.height = CL::NearestPO2; c.resizeFilter = RF::Linear; DONE},
	{"-r", "-r width height cubic", SET c.width = CL::Width; c.height = CL::Height; c.resizeFilter = RF::Cubic; DONE},
	{"-r", "-r width-nextpo2 width-nearestpo2 b-spline", SET c.width = CL::WidthNextPO2; c.height = CL::WidthNearestPO2; c.resizeFilter = RF::BSpline; DONE},
	{"-r", "-r height-nextpo2 height-nearestpo2 Catmull-Rom", SIZE(HeightNextPO2, HeightNearestPO2)},
	{"-r", "-r min max", SIZE(Min, Max)}, {"-r", "-r min-nextpo2 max-nextpo2", SIZE(MinNextPO2, MaxNextPO2)}, {"-r", "-r MAX-nearestpo2 min-nearestpo2", SIZE(MaxNearestPO2, MinNearestPO2)},
	{"-m", "-m", SET c.mipLevels = Texture::allMipLevels; DONE}, {"-m", "--mipmap 3", SET c.mipLevels = 3; DONE}, {"-m", "-m 2 box", SET c.mipLevels = 2; c.mipFilter = RF::Box; DONE},
	{"-m", "-m linear", SET c.mipLevels = Texture::allMipLevels; c.mipFilter = RF::Linear; DONE}, {"-m", "-m 12 b-spline", SET c.mipLevels = 12; c.mipFilter = RF::BSpline; DONE},
	{"-m", "-m cubic", SET c.mipLevels = Texture::allMipLevels; c.mipFilter = RF::Cubic; DONE},
	{"-x", "--flipx", SET c.flipX = true; DONE}, {"-y", "--flipy", SET c.flipY = true; DONE},
	{"-rot", "--rotate 90", ROT(CW90)}, {"-rot", "--rotate -90", ROT(CCW90)}, {"-rot", "--rotate 180", ROT(CW180)}, {"-rot", "--rotate -540", ROT(CCW180)},
	{"-rot", "--rotate 270", ROT(CW270)}, {"-rot", "--rotate -270", ROT(CCW270)}, {"-rot", "--rotate 450", ROT(CW90)}, {"-rot", "--rotate 720", SET DONE}, {"-rot", "--rotate 0", SET DONE},
	{"-n", "-n", SET c.normalMap = true; DONE}, {"-n", "--normalmap wrap", SET c.normalMap = true; c.normalOptions = NO::WrapX | NO::WrapY; DONE},
	{"-n", "-n wrapX 2.5", SET c.normalMap = true; c.normalOptions = NO::WrapX; c.normalHeight = 2.5; DONE}, {"-n", "-n wrapy -3", SET c.normalMap = true; c.normalOptions = NO::WrapY; c.normalHeight = -3; DONE},
	{"-n", "-n 0.25", SET c.normalMap = true; c.normalHeight = 0.25; DONE},
	{"-g", "-g", SET c.grayscale = true; DONE}, {"-g", "--grayscale", SET c.grayscale = true; DONE},
	{"-s", "-s bgra", SET c.swizzle = true; c.redSwzl = CH::Blue; c.greenSwzl = CH::Green; c.blueSwzl = CH::Red; c.alphaSwzl = CH::Alpha; DONE},
	{"-s", "--swizzle RRXa", SET c.swizzle = true; c.redSwzl = c.greenSwzl = CH::Red; c.blueSwzl = CH::None; c.alphaSwzl = CH::Alpha; c.colorMask.b = false; DONE},
	{"-s", "-s aaxx", SET c.swizzle = true; c.redSwzl = c.greenSwzl = CH::Alpha; c.blueSwzl = c.alphaSwzl = CH::None; c.colorMask.b = c.colorMask.a = false; DONE},
	{"-s", "-s xxgb", SET c.swizzle = true; c.redSwzl = c.greenSwzl = CH::None; c.blueSwzl = CH::Green; c.alphaSwzl = CH::Blue; c.colorMask.r = c.colorMask.g = false; DONE},
	{"-S", "--srgb", SET c.imageColorSpace = c.textureColorSpace = ColorSpace::sRGB; DONE}, {"-p", "--pre-multiply", SET c.preMultiply = true; DONE},
	{"-d", "-d 1", SET c.dimension = Texture::Dimension::Dim1D; DONE}, {"-d", "--dimension 2", SET DONE}, {"-d", "-d 3", SET c.dimension = Texture::Dimension::Dim3D; DONE},
	{"-t", "-t unorm", SET w.typeSet = true; DONE}, {"-t", "--type SNorm", SET w.typeSet = true; c.type = TT::SNorm; DONE}, {"-t", "-t uint", SET w.typeSet = true; c.type = TT::UInt; DONE},
	{"-t", "-t int", SET w.typeSet = true; c.type = TT::Int; DONE}, {"-t", "-t ufloat", SET w.typeSet = true; c.type = TT::UFloat; DONE}, {"-t", "-t Float", SET w.typeSet = true; c.type = TT::Float; DONE},
	{"-A", "--alpha none", SET w.alphaSet = true; c.alpha = Texture::Alpha::None; DONE}, {"-A", "--alpha Standard", SET w.alphaSet = true; c.alpha = Texture::Alpha::Standard; DONE},
	{"-A", "--alpha pre-multiplied", SET w.alphaSet = true; c.alpha = Texture::Alpha::PreMultiplied; DONE}, {"-A", "--alpha encoded", SET w.alphaSet = true; c.alpha = Texture::Alpha::Encoded; DONE},
	{"-Q", "-Q lowest", SET c.quality = Texture::Quality::Lowest; DONE}, {"-Q", "--quality LOW", SET c.quality = Texture::Quality::Low; DONE}, {"-Q", "-Q normal", SET DONE},
	{"-Q", "-Q high", SET c.quality = Texture::Quality::High; DONE}, {"-Q", "-Q highest", SET c.quality = Texture::Quality::Highest; DONE},
	{"-F", "--file-format dds", SET c.fileType = FT::DDS; DONE}, {"-F", "--file-format KTX", SET c.fileType = FT::KTX; DONE}, {"-F", "--file-format pvr", SET c.fileType = FT::PVR; DONE},
	{"-D", "--create-dir", SET c.createOutputDir = true; DONE},
};
static const int kRowCount = sizeof(kRows)/sizeof(*kRows);
static Args split(const char* s)
{
	Args a;
	for (const char* p = s;;)
	{
		const char* e = p;
		while (*e && *e != ' ') e++;
		a.push_back(std::string(p, e - p));
		if (!*e) return a;
		p = e + 1;
	}
}
static const Args kIn = {"-i", "in.png"}, kOut = {"-o", "out.dds"};
// Two options anywhere among the required ones.
SYM_ENTRY c20_options()
{
	const Row& r = kRows[sym_param("row", 0)];
	int second = (int)sym_pick("second", 0, kRowCount); // kRowCount: none
	if (second < kRowCount && strcmp(kRows[second].key, r.key) == 0) return;
	Want w;
	static const char* const F[] = {"R8G8B8A8", "r16", "E5B9G9R9_UFLOAT"};
	static const TF FF[] = {TF::R8G8B8A8, TF::R16, TF::E5B9G9R9_UFloat};
	int f = (int)sym_param("format", 0);
	Args parts[5];
	int at = (int)sym_pick("at", 0, 3), n = 0;
	Args base[3] = {{sym_param("long", 0) ? "--input" : "-i", "in.png"}, {sym_param("long", 0) ? "--format" : "-f", F[f]}, {sym_param("long", 0) ? "--output" : "-o", "out.dds"}};
	bool swap = sym_param("swap", 0) != 0;
	for (int k = 0; k < 4; k++)
	{
		if (k == at) { parts[n++] = split(r.args); if (second < kRowCount && !swap) parts[n++] = split(kRows[second].args); }
		if (k < 3) parts[n++] = base[k];
	}
	Args a;
	if (second < kRowCount && swap) add(a, split(kRows[second].args));
	for (int k = 0; k < n; k++) add(a, parts[k]);
	w.c.images = {"in.png"};
	w.c.format = FF[f];
	w.c.output = "out.dds";
	r.set(w);
	if (second < kRowCount) kRows[second].set(w);
	CL c;
	bool ok = parse(c, a);
	bool want = finish(w);
	sym_assert(ok == want, "accepted if the formats go together");
	if (ok) { compare(c, w.c); sym_cover("accepted"); }
	else sym_cover("rejected");
	sym_observe("ok", ok);
}
// Values that are one of a set of words, with one letter of any value.
struct Words { const char* opt; const char* after; const char* words[30]; };
static const Words kWords[] = {
	{"-t", "", {"unorm", "snorm", "uint", "int", "ufloat", "float"}},
	{"--alpha", "", {"none", "standard", "pre-multiplied", "encoded"}},
	{"-Q", "", {"lowest", "low", "normal", "high", "highest"}},
	{"--file-format", "", {"dds", "ktx", "pvr"}},
	{"-d", "", {"1", "2", "3"}},
	{"-r 4", "", {"nextpo2", "nearestpo2", "width", "width-nextpo2", "width-nearestpo2", "height", "height-nextpo2", "height-nearestpo2", "min", "min-nextpo2", "min-nearestpo2", "max", "max-nextpo2", "max-nearestpo2"}},
	{"-c", "face.png", {"+x", "-x", "+y", "-y", "+z", "-z"}},
	{"-f", "", {"R4G4", "R4G4B4A4", "B4G4R4A4", "A4R4G4B4", "R5G6B5", "B5G6R5", "R5G5B5A1", "B5G5R5A1", "A1R5G5B5", "R8", "R8G8", "R8G8B8", "B8G8R8", "R8G8B8A8", "B8G8R8A8", "A8B8G8R8", "A2R10G10B10", "A2B10G10R10",
		"R16", "R16G16", "R16G16B16", "R16G16B16A16", "R32", "R32G32", "R32G32B32", "R32G32B32A32", "B10G11R11_UFloat", "E5B9G9R9_UFloat"}},
	{"-I", "list.txt", {"image", "array", "cube", "cube-array"}},
	{"-r 4 4", "", {"box", "linear", "cubic", "catmull-rom", "b-spline"}},
	{"-n", "", {"wrap", "wrapx", "wrapy"}},
};
SYM_ENTRY c20_words()
{
	int o = (int)sym_param("o", 0);
	const Words& k = kWords[o];
	int count = 0;
	while (count < 30 && k.words[count]) count++;
	int wi = (int)sym_pick("word", 0, count - 1);
	std::string v = k.words[wi];
	// One letter of the word, or one more.
	size_t p = sym_pick("letter", 0, v.size());
	if (p > v.size()) return;
	char ch = (char)sym_bits("char", 8);
	sym_assume(ch != 0);
	if (p == v.size()) v.push_back(ch); else v[p] = ch;
	int got = -1;
	for (int i = 0; i < count; i++) if (iequal(v, k.words[i])) { got = i; break; }
	bool cube = o == 6, list = o == 8;
	static const char* const F[] = {"R8G8B8A8", "R16", "E5B9G9R9_UFloat"};
	int f = o == 0 ? (int)sym_pick("format", 0, 2) : 0;
	Args a;
	if (list) env_file("list.txt", "a\nb\nc\nd\ne\nf\n", 12);
	if (cube)
	{
		for (int i = 0; i < 6; i++) if (i != wi) add(a, {"-c", k.words[i], std::string("i") + (char)('0' + i)});
	}
	else if (!list) add(a, kIn);
	if (o != 7) add(a, {"-f", F[f]});
	add(a, kOut);
	add(a, split(k.opt)); a.push_back(v);
	if (*k.after) a.push_back(k.after);
	CL c;
	bool ok = parse(c, a);
	sym_observe("ok", ok);
	if (got < 0)
	{
		// A number is a size as well, and what is no filter is taken for an option.
		if (o == 5 && sym_and(v.size() == 1, sym_and(v[0] >= '1', v[0] <= '9'))) return;
		sym_assert(!ok, "unknown word refused");
		sym_cover("refused");
		return;
	}
	Want w;
	w.c.images = {"in.png"}; w.c.output = "out.dds";
	w.c.format = o == 7 ? (TF)(got + 1) : f == 0 ? TF::R8G8B8A8 : f == 1 ? TF::R16 : TF::E5B9G9R9_UFloat;
	static const RF kF[] = {RF::Box, RF::Linear, RF::Cubic, RF::CatmullRom, RF::BSpline};
	static const NO kN[] = {NO::WrapX | NO::WrapY, NO::WrapX, NO::WrapY};
	bool want = true;
	switch (o)
	{
		case 0: w.typeSet = true; w.c.type = (TT)got; break;
		case 1: { static const Texture::Alpha A[] = {Texture::Alpha::None, Texture::Alpha::Standard, Texture::Alpha::PreMultiplied, Texture::Alpha::Encoded}; w.alphaSet = true; w.c.alpha = A[got]; break; }
		case 2: w.c.quality = (Texture::Quality)got; break;
		case 3: w.c.fileType = (FT)(got + 1); break;
		case 4: w.c.dimension = got == 0 ? Texture::Dimension::Dim1D : got == 1 ? Texture::Dimension::Dim2D : Texture::Dimension::Dim3D; break;
		case 5: w.c.width = 4; w.c.height = -2 - got; break;
		case 6:
			want = got == wi; // The other five are taken.
			w.c.imageType = CL::ImageType::Cube; w.c.dimension = Texture::Dimension::Cube;
			w.c.images.clear();
			for (int i = 0; i < 6; i++) w.c.images.push_back(i == wi ? std::string("face.png") : std::string("i") + (char)('0' + i));
			break;
		case 8:
			w.c.images = {"a", "b", "c", "d", "e", "f"};
			w.c.imageType = (CL::ImageType)got;
			want = got != 0; // One image only.
			if (got >= 2) w.c.dimension = Texture::Dimension::Cube;
			break;
		case 9: w.c.width = w.c.height = 4; w.c.resizeFilter = kF[got]; break;
		case 10: w.c.normalMap = true; w.c.normalOptions = kN[got]; break;
	}
	want = finish(w) && want;
	sym_assert(ok == want, "known word accepted");
	if (ok) compare(c, w.c);
	sym_cover("accepted");
}
// Arguments of several bytes of any value.
static std::string anyString(const char* name, size_t n)
{
	std::string s(n, ' ');
	for (size_t i = 0; i < n; i++) { char c = (char)sym_bits(name, 8); sym_assume(c != 0); s[i] = c; }
	return s;
}
// Decimal digits only.
static int isNumber(const std::string& s)
{
	int ok = !s.empty();
	for (char c : s) ok = sym_and(ok, sym_and(c >= '0', c <= '9'));
	return ok;
}
static unsigned number(const std::string& s) { unsigned v = 0; for (char c : s) v = v*10 + (unsigned)(c - '0'); return v; }
SYM_ENTRY c20_numbers()
{
	int o = (int)sym_param("o", 0);
	std::string v = anyString("char", sym_pick("length", 0, (uint64_t)sym_param("max", 2)));
	Want w;
	w.c.images = {"in.png"}; w.c.output = "out.dds"; w.c.format = TF::R8G8B8A8;
	Args a;
	if (o < 5) add(a, kIn);
	add(a, {"-f", "R8G8B8A8"}); add(a, kOut);
	int num = isNumber(v), want = num;
	switch (o)
	{
		case 0: add(a, {"-r", v, "6"}); break;
		case 1: add(a, {"-r", "6", v}); break;
		case 2: add(a, {"-m", v}); break;
		case 3: add(a, {"-j", v}); break;
		case 4: add(a, {"--rotate", v}); break;
		case 5: add(a, {"-a", v, "one.png", "-a", "two.png"}); break;
		case 6: add(a, {"-C", v, "-y", "one.png"}); break;
	}
	bool optional = o == 2 || o == 3;
	if (optional && v.size() && v[0] == '-') return; // Another option.
	if (o == 2 && iequal(v, "box")) return;
	if (o < 2 && (iequal(v, "min") || iequal(v, "max"))) return;
	if (o >= 5 && num) { unsigned n = number(v); sym_assume(n <= 2); n = (unsigned)sym_concretize(n); }
	CL c;
	bool ok = parse(c, a);
	sym_observe("ok", ok);
	if (o == 4)
	{
		// A sign and digits, a multiple of 90. Space in front is taken by the C library.
		size_t s = 0;
		while (s < v.size() && (v[s] == ' ' || (v[s] >= 9 && v[s] <= 13))) s++;
		if (s) return;
		bool neg = v.size() && v[0] == '-', plus = v.size() && v[0] == '+';
		std::string d = v.substr(neg || plus ? 1 : 0);
		int isnum = isNumber(d);
		if (!isnum) { sym_assert(!ok, "no angle"); sym_cover("refused"); return; }
		unsigned n = number(d);
		sym_assert(ok == (n % 90 == 0), "multiples of 90");
		if (!ok) { sym_cover("refused"); return; }
		unsigned q = n/90%4;
		sym_assert(c.rotate == (q != 0), "rotation");
		if (q) sym_assert(c.rotateAngle == (q == 1 ? (neg ? RA::CCW90 : RA::CW90) : q == 2 ? (neg ? RA::CCW180 : RA::CW180) : (neg ? RA::CCW270 : RA::CW270)), "angle");
		sym_cover("accepted");
		return;
	}
	if (o < 2) want = sym_and(num, number(v) > 0);
	if (o == 6) want = 0; // The other faces are missing.
	if (o == 5 && !num) { sym_assert(!ok, "not an index"); sym_cover("refused"); return; }
	if (o == 5)
	{
		unsigned n = (unsigned)sym_concretize(number(v));
		want = n <= 1 && !(n == 1); // The second one goes behind the first.
		sym_assert(ok == want, "complete lists only");
		if (ok) sym_assert(c.images.size() == 2 && c.images[0] == "one.png" && c.images[1] == "two.png" && c.imageType == CL::ImageType::Array, "images");
		sym_cover(ok ? "accepted" : "refused");
		return;
	}
	sym_assert(ok == (want != 0), "numbers only");
	if (ok)
	{
		unsigned n = number(v);
		if (o == 0) { w.c.width = (int)n; w.c.height = 6; }
		if (o == 1) { w.c.width = 6; w.c.height = (int)n; }
		if (o == 2) w.c.mipLevels = n;
		if (o == 3) w.c.jobs = n;
		sym_assert(finish(w), "valid");
		compare(c, w.c);
		sym_cover("accepted");
	}
	else sym_cover("refused");
}
// Long numbers around the limits, with any byte in any one place.
SYM_ENTRY c20_numbers_long()
{
	int o = (int)sym_param("o", 0);
	static const char* const base[] = {"70000", "2147483648", "4294967295", "18446744073709551615", "4294967296", "00000000000000000000000012", "+4294967295", "3600000090"};
	std::string v = base[sym_pick("base", 0, 3) + 4*(uint64_t)sym_param("half", 0)];
	uint64_t place = sym_pick("at", 0, 3);
	size_t at = place < 2 ? place : place == 2 ? v.size()/2 : v.size() - 1;
	char any = (char)sym_bits("char", 8);
	sym_assume(any != 0);
	v[at] = any;
	bool optional = o == 2 || o == 3;
	if (optional && v[0] == '-') return; // Another option.
	Want w;
	w.c.images = {"in.png"}; w.c.output = "out.dds"; w.c.format = TF::R8G8B8A8;
	Args a;
	add(a, kIn); add(a, {"-f", "R8G8B8A8"}); add(a, kOut);
	switch (o)
	{
		case 0: add(a, {"-r", v, "6"}); break;
		case 1: add(a, {"-r", "6", v}); break;
		case 2: add(a, {"-m", v}); break;
		case 3: add(a, {"-j", v}); break;
		case 4: add(a, {"--rotate", v}); break;
	}
	CL c;
	bool ok = parse(c, a);
	sym_observe("ok", ok);
	bool sign = o == 4 && (v[0] == '-' || v[0] == '+'), neg = v[0] == '-';
	size_t first = sign ? 1 : 0;
	if (o == 4 && (v[0] == ' ' || (v[0] >= 9 && v[0] <= 13))) return; // Space in front is taken by the C library.
	int num = 1;
	uint64_t n = 0, big = (uint64_t)1 << 60;
	for (size_t i = first; i < v.size(); i++)
	{
		num = sym_and(num, sym_and(v[i] >= '0', v[i] <= '9'));
		n = n*10 + (uint64_t)(v[i] - '0');
		n = sym_ite(n > big, big, n);
	}
	if (first == v.size()) num = 0;
	if (o == 4)
	{
		if (n > ((uint64_t)1 << 40)) return; // Longer than the numbers of the C library.
		sym_assert(ok == sym_and(num, n % 90 == 0), "multiples of 90");
		if (!ok) { sym_cover("refused"); return; }
		unsigned q = (unsigned)(n/90%4);
		sym_assert(c.rotate == (q != 0), "rotation");
		if (q) sym_assert(c.rotateAngle == (q == 1 ? (neg ? RA::CCW90 : RA::CW90) : q == 2 ? (neg ? RA::CCW180 : RA::CW180) : (neg ? RA::CCW270 : RA::CW270)), "angle");
		sym_cover("accepted");
		return;
	}
	int want = sym_and(num, n <= (o < 2 ? 2147483647u : 4294967295u));
	if (o < 2) want = sym_and(want, n > 0);
	sym_assert(ok == (want != 0), "numbers within the limits only");
	if (!ok) { sym_cover("refused"); return; }
	if (o == 0) { w.c.width = (int)n; w.c.height = 6; }
	if (o == 1) { w.c.width = 6; w.c.height = (int)n; }
	if (o == 2) w.c.mipLevels = (unsigned)n;
	if (o == 3) w.c.jobs = (unsigned)n;
	sym_assert(finish(w), "valid");
	compare(c, w.c);
	sym_cover("accepted");
}
// Swizzles of any letters.
SYM_ENTRY c20_swizzle()
{
	std::string v = anyString("char", sym_pick("length", 3, 5));
	Want w;
	w.c.images = {"in.png"}; w.c.output = "out.dds"; w.c.format = TF::R8G8B8A8;
	Args a = kIn;
	add(a, {"-f", "R8G8B8A8"}); add(a, kOut); add(a, {"-s", v});
	static const char kC[] = "rgbax";
	int want = v.size() == 4;
	CH got[4] = {CH::None, CH::None, CH::None, CH::None};
	for (int i = 0; i < 4 && i < (int)v.size(); i++)
	{
		char l = low(v[i]);
		int any = 0;
		for (int k = 0; k < 5; k++) any = sym_or(any, l == kC[k]);
		want = sym_and(want, any);
		got[i] = l == 'r' ? CH::Red : l == 'g' ? CH::Green : l == 'b' ? CH::Blue : l == 'a' ? CH::Alpha : CH::None;
	}
	CL c;
	bool ok = parse(c, a);
	sym_assert(ok == (want != 0), "four channels");
	if (ok)
	{
		sym_assert(c.swizzle && c.redSwzl == got[0] && c.greenSwzl == got[1] && c.blueSwzl == got[2] && c.alphaSwzl == got[3], "channels");
		sym_assert(c.colorMask.r == (got[0] != CH::None) && c.colorMask.g == (got[1] != CH::None) && c.colorMask.b == (got[2] != CH::None) && c.colorMask.a == (got[3] != CH::None), "mask");
		sym_assert(c.alpha == (got[3] == CH::None ? Texture::Alpha::None : Texture::Alpha::Standard), "alpha");
		sym_cover("accepted");
	}
	else sym_cover("refused");
}
// Options spelled with any letter; missing arguments.
static const char* const kShort[] = {"-j", "-q", "-v", "-i", "-a", "-c", "-C", "-I", "-r", "-m", "-M", "-n", "-g", "-s", "-d", "-f", "-t", "-Q", "-o"};
static const int kShortNeeds[] = {0, 0, 0, 1, 1, 2, 3, 2, 2, 0, 2, 0, 0, 1, 1, 1, 1, 1, 1};
static const char* const kLong[] = {"--jobs", "--quiet", "--verbose", "--input", "--array", "--cube", "--cube-array", "--input-list", "--resize", "--mipmap", "--custom-mip", "--normalmap", "--grayscale", "--swizzle", "--dimension",
	"--format", "--type", "--quality", "--output", "--custom-mip-list", "--flipx", "--flipy", "--rotate", "--srgb", "--pre-multiply", "--alpha", "--file-format", "--create-dir"};
static const int kLongNeeds[] = {0, 0, 0, 1, 1, 2, 3, 2, 2, 0, 2, 0, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 0, 1, 1, 0};
SYM_ENTRY c20_names()
{
	Args a = kIn;
	add(a, {"-f", "R8G8B8A8"}); add(a, kOut);
	std::string v;
	if (sym_param("long", 0))
	{
		v = kLong[sym_pick("option", 0, 27)];
		size_t p = sym_pick("letter", 0, v.size());
		if (p > v.size()) return;
		char ch = (char)sym_bits("char", 8);
		sym_assume(ch != 0);
		if (p == v.size()) v.push_back(ch); else v[p] = ch;
	}
	else v = anyString("char", sym_pick("length", 0, 3));
	int known = 0;
	for (int i = 0; i < 28; i++) if (kLongNeeds[i] == 0 && v.size() == strlen(kLong[i])) { int ok = 1; for (size_t k = 0; k < v.size(); k++) ok = sym_and(ok, v[k] == kLong[i][k]); known = sym_or(known, ok); }
	for (int i = 0; i < 19; i++) if (kShortNeeds[i] == 0 && v.size() == 2) known = sym_or(known, sym_and(v[0] == kShort[i][0], v[1] == kShort[i][1]));
	bool last = sym_pick("last", 0, 1) != 0;
	if (last) a.push_back(v);
	else { a.insert(a.begin() + 2, v); }
	CL c;
	bool ok = parse(c, a);
	sym_observe("ok", ok);
	if (last) sym_assert(ok == (known != 0), "only options that stand alone");
	else if (known) { sym_assert(ok, "options that stand alone"); }
	else sym_assert(!ok, "others take away the following or are refused");
	sym_cover(ok ? "accepted" : "refused");
}
SYM_ENTRY c20_missing()
{
	bool lng = sym_pick("long", 0, 1) != 0;
	int o = (int)sym_pick("option", 0, lng ? 27 : 18);
	int needs = lng ? kLongNeeds[o] : kShortNeeds[o];
	const char* name = lng ? kLong[o] : kShort[o];
	bool input = strcmp(name, "-a") == 0 || strcmp(name, "-c") == 0 || strcmp(name, "-C") == 0 || strcmp(name, "-I") == 0 || strcmp(name, "--array") == 0 || strcmp(name, "--cube") == 0 || strcmp(name, "--cube-array") == 0 ||
		strcmp(name, "--input-list") == 0;
	static const char* const V[] = {"1", "+x", "image", "box"};
	Args a;
	if (!input || sym_pick("with input", 0, 1)) add(a, kIn);
	add(a, {"-f", "R8G8B8A8"}); add(a, kOut);
	a.push_back(name);
	int n = (int)sym_pick("given", 0, 3);
	if (n >= needs) return;
	for (int k = 0; k < n; k++) a.push_back(V[sym_pick("value", 0, 3)]);
	CL c;
	sym_assert(!parse(c, a), "arguments missing");
	sym_cover("done");
}
// Required options and help.
SYM_ENTRY c20_required()
{
	uint64_t have = sym_pick("have", 0, 7), help = sym_pick("help", 0, 8);
	Args a;
	if (help == 1) a.push_back("-h");
	if (have & 1) add(a, kIn);
	if (help == 2) a.push_back("--help");
	if (have & 2) add(a, {"-f", "R8"});
	if (help == 3) a.push_back("-h");
	if (have & 4) add(a, {"-o", help == 5 ? "out.png" : help == 6 ? "out" : help == 7 ? "" : "out.ktx"});
	if (help == 4) a.push_back("--help");
	if (help == 8) add(a, {"--file-format", "pvr", "-o", "again.dds"});
	CL c;
	bool ok = parse(c, a);
	sym_assert(ok == ((have == 7 && help == 0) || (have == 3 && help == 8)), "required options");
	if (ok) { sym_assert(c.fileType == (help ? FT::PVR : FT::KTX) && c.format == TF::R8 && c.images.size() == 1 && c.images[0] == "in.png", "fields"); sym_cover("ok"); }
	sym_cover("done");
}
// Every format with every type in every container.
SYM_ENTRY c20_formats()
{
	int f = (int)sym_param("f", 1), t = (int)sym_pick("type", 0, 6), ft = (int)sym_pick("file", 1, 3);
	static const char* const T[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"};
	static const char* const E[] = {"", "out.dds", "out.ktx", "out.pvr"};
	static const char* const N[] = {"", "dds", "ktx", "pvr"};
	Want w;
	Args a = {"-f", kWords[7].words[f - 1]};
	w.c.format = (TF)f; w.c.images = {"in.png"};
	add(a, kIn);
	if (t < 6) { w.typeSet = true; w.c.type = (TT)t; Args x = {"-t", T[t]}; a.insert(sym_pick("first", 0, 1) ? a.begin() : a.end(), x.begin(), x.end()); }
	if (sym_pick("srgb", 0, 1)) { a.push_back("--srgb"); w.c.imageColorSpace = w.c.textureColorSpace = ColorSpace::sRGB; }
	if (sym_pick("by name", 0, 1)) { w.c.output = E[ft]; add(a, {"-o", E[ft]}); }
	else { w.c.output = "out.bin"; add(a, {"-o", "out.bin", "--file-format", N[ft]}); w.c.fileType = (FT)ft; }
	CL c;
	bool ok = parse(c, a), want = finish(w);
	sym_assert(ok == want, "supported formats");
	if (ok) { compare(c, w.c); sym_cover("accepted"); } else sym_cover("refused");
}
// Sequences of inputs.
SYM_ENTRY c20_inputs()
{
	int n = (int)sym_pick("n", 1, (uint64_t)sym_param("n", 3));
	Args a = {"-f", "R8G8B8A8"};
	std::vector<std::string> img;
	int type = -1; bool list = false, want = true;
	static const char* const face[] = {"+x", "-x", "+Y", "-y", "+z", "-Z"};
	env_file("two.txt", "l0\nl1\n", 6);
	env_file("one.txt", "l0", 2);
	int dim = (int)sym_param("d", 2);
	for (int k = 0; k < n; k++)
	{
		std::string name = std::string("i") + (char)('0' + k);
		int o = (int)sym_pick("option", 0, 10);
		int t = o < 2 ? 0 : o < 5 ? 1 : o < 7 ? 2 : o < 9 ? 3 : 4;
		if (o == 0 || o == 1) { add(a, {o ? "--input" : "-i", name}); if (!img.empty()) want = false; else { type = 0; img.push_back(name); } }
		else if (t == 1)
		{
			size_t at = o == 2 ? img.size() : o == 3 ? 0 : 2;
			if (o == 2) add(a, {"-a", name}); else add(a, {"--array", o == 3 ? "0" : "2", name});
			if (!img.empty() && (type != 1 || list)) want = false;
			else { type = 1; if (img.size() <= at) img.resize(at + 1); if (!img[at].empty()) want = false; img[at] = name; }
		}
		else if (t == 2 || t == 3)
		{
			size_t f = o == 5 ? 0 : o == 6 ? 5 : o == 7 ? 4 : 1, at = f + (o == 8 ? 6 : 0);
			if (t == 2) add(a, {o == 5 ? "-c" : "--cube", face[f], name}); else add(a, {o == 7 ? "-C" : "--cube-array", o == 8 ? "1" : "0", face[f], name});
			if (!img.empty() && (type != t || list)) want = false;
			else { type = t; size_t need = t == 2 ? 6 : at/6*6 + 6; if (img.size() < need) img.resize(need); if (!img[at].empty()) want = false; img[at] = name; }
		}
		else
		{
			bool two = o == 9;
			add(a, {"-I", two ? "Array" : "image", two ? "two.txt" : "one.txt"});
			if (!img.empty()) want = false; else { type = two ? 1 : 0; list = true; img.push_back("l0"); if (two) img.push_back("l1"); }
		}
		if (!want) break;
	}
	add(a, kOut);
	if (dim != 2) add(a, {"-d", dim == 1 ? "1" : "3"});
	if (want && type == 2 && img.size() != 6) want = false;
	if (want && type >= 2 && dim != 2) want = false;
	for (auto& i : img) if (i.empty()) want = false;
	CL c;
	bool ok = parse(c, a);
	sym_assert(ok == want, "inputs of one kind, each once, all there");
	if (ok) { sym_assert(c.images == img && (int)c.imageType == type, "images in order"); sym_cover("accepted"); }
	else sym_cover("refused");
}
// Complete cubes, faces in any rotation.
SYM_ENTRY c20_cubes()
{
	static const char* const face[] = {"+x", "-x", "+y", "-y", "+z", "-z"};
	int cubes = (int)sym_param("cubes", 1), rot = (int)sym_pick("first", 0, 6*cubes - 1), step = sym_pick("step", 0, 1) ? 5 : 1, drop = (int)sym_pick("drop", 0, 6*cubes);
	int dim = (int)sym_pick("dim", 1, 3), n = 6*cubes;
	Args a = {"-f", "R8G8B8A8", "-o", "o.ktx"};
	if (dim != 2) add(a, {"-d", dim == 1 ? "1" : "3"});
	std::vector<std::string> img(n);
	for (int k = 0; k < n; k++)
	{
		int i = (rot + k*step)%n;
		std::string name = std::string("i") + (char)('a' + i);
		img[i] = name;
		if (i == drop) continue;
		if (cubes == 1 && sym_param("array", 0) == 0) add(a, {"-c", face[i%6], name});
		else add(a, {"-C", std::string(1, (char)('0' + i/6)), face[i%6], name});
	}
	
	CL c;
	bool ok = parse(c, a);
	sym_assert(ok == (drop == n && dim == 2), "complete cubes");
	if (ok) { sym_assert(c.images == img && c.dimension == Texture::Dimension::Cube, "faces in order"); sym_cover("accepted"); }
	else sym_cover("refused");
}
// A file with any bytes as the list of images.
SYM_ENTRY c20_list()
{
	size_t n = sym_pick("length", 0, (uint64_t)sym_param("max", 4));
	std::vector<char> d(n + 1);
	for (size_t i = 0; i < n; i++) d[i] = (char)sym_bits("char", 8);
	env_file("list.txt", d.data(), n);
	std::vector<std::string> img;
	std::string cur;
	for (size_t i = 0; i < n; i++)
	{
		if (d[i] == '\n' || d[i] == '\r') { if (!cur.empty()) img.push_back(cur); cur.clear(); }
		else cur.push_back(d[i]);
	}
	if (!cur.empty()) img.push_back(cur);
	CL c;
	bool ok = parse(c, {"-I", "array", sym_pick("exists", 0, 1) ? "list.txt" : (img.clear(), "missing.txt"), "-f", "R8", "-o", "o.dds"});
	sym_assert(ok == !img.empty(), "lists with images");
	if (ok) { sym_assert(c.images.size() == img.size(), "one image for each line"); for (size_t i = 0; i < img.size(); i++) sym_assert(c.images[i] == img[i], "image"); sym_cover("accepted"); }
	else sym_cover("refused");
}
// Custom mips as options and as lines of a list mean the same.
struct Mip { bool ok; unsigned level, depth; Texture::CubeFace face; Texture::MipReplacement rep; std::string file; };
SYM_ENTRY c20_mips()
{
	static const char* const L[] = {"1", "2", "0", "31", "32", "x", "-1", "4294967296", ""};
	static const char* const D[] = {"", "0", "1", "2", "3"};
	static const char* const FA[] = {"", "+x", "-Z"};
	static const char* const R[] = {"", "once", "Continue"};
	static const char* const N[] = {"f.png", "a b.png", ""};
	int dim = (int)sym_param("d", 2);
	int l = (int)sym_pick("level", 0, 8), dd = (int)sym_pick("depth", 0, 4), fa = (int)sym_pick("face", 0, 2), r = (int)sym_pick("replace", 0, 2), nm = (int)sym_pick("name", 0, 2);
	Args a = {"-f", "R8G8B8A8", "-o", "o.ktx"};
	unsigned depth = (unsigned)sym_pick("images", 1, 3);
	for (unsigned i = 0; i < depth; i++) add(a, {"-a", std::string("i") + (char)('0' + i)});
	if (dim == 3) add(a, {"-d", "3"});
	bool mips = l != 0 || dd != 0 || sym_pick("mips", 0, 1);
	if (mips) add(a, {"-m"});
	Args m;
	if (*L[l]) m.push_back(L[l]);
	if (*D[dd]) m.push_back(D[dd]);
	if (*FA[fa]) m.push_back(FA[fa]);
	if (*R[r]) m.push_back(R[r]);
	if (*N[nm]) m.push_back(N[nm]);
	unsigned level = l == 0 ? 1 : l == 1 ? 2 : l == 3 ? 31 : 0, d = dd > 1 ? (unsigned)dd - 1 : 0;
	unsigned all = dim == 3 ? (depth >> level ? depth >> level : 1) : depth;
	bool want = mips && *N[nm] && (l == 0 || l == 1 || l == 3) && d < all && (dim != 3 || all == 1);
	Texture::CubeFace face = fa == 2 ? Texture::CubeFace::NegZ : Texture::CubeFace::PosX;
	bool list = sym_pick("list", 0, 1) != 0;
	if (!*L[l] && m.size() && D[dd][0]) return; // The depth is taken for the level.
	if (list)
	{
		static const char* const sep[] = {" ", "\t", "  "};
		static const char* const end[] = {"\n", "\r\n", ""};
		std::string s;
		if (sym_pick("blank", 0, 1)) s = " \n\n";
		int k = (int)sym_param("sep", 0);
		for (size_t i = 0; i < m.size(); i++) { if (i) s += sep[k]; s += m[i]; }
		s += end[k];
		env_file("mips.txt", s.data(), s.size());
		add(a, {"--custom-mip-list", "mips.txt"});
		if (m.empty()) want = true;
	}
	else { a.push_back(sym_pick("longname", 0, 1) ? "--custom-mip" : "-M"); add(a, m); }
	CL c;
	bool ok = parse(c, a);
	sym_assert(ok == want, "well formed and in range");
	sym_observe("ok", ok);
	if (!ok) { sym_cover("refused"); return; }
	if (m.empty()) { sym_assert(c.customMipImages.empty(), "empty list"); return; }
	sym_assert(c.customMipImages.size() == 1, "one");
	auto i = c.customMipImages.find(Texture::ImageIndex(face, level, d));
	sym_assert(i != c.customMipImages.end(), "index");
	sym_assert(i->second.image == N[nm] && i->second.replacement == (r == 1 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue), "image and replacement");
	sym_cover("accepted");
}
// Several custom mips, given twice or for some depths only.
SYM_ENTRY c20_mips2()
{
	static const char* const L[] = {"1", "2"};
	static const char* const D[] = {"", "0", "1"};
	static const char* const FA[] = {"", "+x", "+y"};
	int dim = (int)sym_param("d", 2), images = (int)sym_pick("images", 1, 4);
	Args a = {"-f", "R8G8B8A8", "-o", "o.ktx", "-m", "3"};
	for (int i = 0; i < images; i++) add(a, {"-a", std::string("i") + (char)('0' + i)});
	if (dim == 3) add(a, {"-d", "3"});
	std::vector<unsigned> keys;
	bool want = true, list = sym_pick("list", 0, 1) != 0;
	unsigned count[3] = {0, 0, 0};
	std::string s;
	for (int k = 0; k < 2; k++)
	{
		int l = (int)sym_pick("level", 0, 1), d = (int)sym_pick("depth", 0, 2), f = dim == 3 ? 0 : (int)sym_pick("face", 0, 2);
		unsigned dd = d == 2 ? 1 : 0, ff = f == 2 ? 2 : 0, key = (unsigned)l*100 + dd*10 + ff;
		for (unsigned o : keys) if (o == key) want = false;
		keys.push_back(key);
		unsigned all = dim == 3 ? ((unsigned)images >> (l + 1) ? (unsigned)images >> (l + 1) : 1) : (unsigned)images;
		if (dd >= all) want = false;
		count[l + 1]++;
		Args m = {L[l]};
		if (*D[d]) m.push_back(D[d]);
		if (*FA[f]) m.push_back(FA[f]);
		m.push_back(std::string("f") + (char)('0' + k));
		if (list) { for (size_t i = 0; i < m.size(); i++) { if (i) s += " "; s += m[i]; } s += "\n"; }
		else { a.push_back("-M"); add(a, m); }
	}
	if (list) { env_file("m.txt", s.data(), s.size()); add(a, {"--custom-mip-list", "m.txt"}); }
	if (dim == 3) for (int l = 1; l < 3; l++) { unsigned all = (unsigned)images >> l ? (unsigned)images >> l : 1; if (count[l] && count[l] != all) want = false; }
	CL c;
	bool ok = parse(c, a);
	sym_assert(ok == want, "each once, all depths of 3D textures");
	if (!ok) { sym_cover("refused"); return; }
	sym_assert(c.customMipImages.size() == 2, "both");
	for (int k = 0; k < 2; k++)
	{
		auto i = c.customMipImages.find(Texture::ImageIndex((Texture::CubeFace)(keys[k]%10), keys[k]/100 + 1, keys[k]/10%10));
		sym_assert(i != c.customMipImages.end() && i->second.image == std::string("f") + (char)('0' + k), "each where it belongs");
	}
	sym_cover("accepted");
}
// A file with any bytes of an alphabet as the list of custom mips, against another reading of the grammar.
SYM_ENTRY c20_miplist()
{
	static const char kAlpha[] = "1 \nx";
	size_t n = sym_pick("length", 0, (uint64_t)sym_param("max", 5));
	std::vector<char> d(n + 1);
	for (size_t i = 0; i < n; i++)
	{
		char c = (char)sym_bits("char", 8);
		int ok = 0;
		for (int k = 0; kAlpha[k]; k++) ok = sym_or(ok, c == kAlpha[k]);
		sym_assume(ok);
		d[i] = (char)sym_concretize((uint8_t)c);
	}
	env_file("m.txt", d.data(), n);
	bool want = true;
	std::vector<Mip> mips;
	size_t p = 0;
	while (p < n && want)
	{
		size_t e = p;
		while (e < n && d[e] != '\n') e++;
		std::string line(d.data() + p, e - p);
		p = e + 1;
		size_t q = 0;
		std::vector<std::string> tok; std::vector<size_t> start;
		while (q < line.size())
		{
			while (q < line.size() && line[q] == ' ') q++;
			if (q == line.size()) break;
			size_t b = q;
			while (q < line.size() && line[q] != ' ') q++;
			tok.push_back(line.substr(b, q - b)); start.push_back(b);
		}
		if (tok.empty()) continue;
		size_t k = 0;
		Mip m; m.depth = 0; m.face = Texture::CubeFace::PosX;
		if (!isNumber(tok[k])) { want = false; break; }
		m.level = number(tok[k++]);
		if (k < tok.size() && isNumber(tok[k])) m.depth = number(tok[k++]);
		if (k >= tok.size()) { want = false; break; }
		m.file = line.substr(start[k]);
		for (auto& o : mips) if (o.level == m.level && o.depth == m.depth) want = false;
		mips.push_back(m);
	}
	for (auto& m : mips) if (m.level >= 32 || m.depth > 1) want = false;
	CL c;
	bool ok = parse(c, {"-f", "R8G8B8A8", "-o", "o.ktx", "-m", "-a", "a", "-a", "b", "--custom-mip-list", "m.txt"});
	sym_assert(ok == want, "well formed lists");
	if (!ok) { sym_cover("refused"); return; }
	sym_assert(c.customMipImages.size() == mips.size(), "one for each line");
	for (auto& m : mips)
	{
		auto i = c.customMipImages.find(Texture::ImageIndex(m.face, m.level, m.depth));
		sym_assert(i != c.customMipImages.end(), "index");
		// Space at the end of a line belongs to the name unless the line ends there.
		const std::string& f = i->second.image;
		sym_assert(f.size() <= m.file.size() && m.file.compare(0, f.size(), f) == 0, "file");
		for (size_t k = f.size(); k < m.file.size(); k++) sym_assert(m.file[k] == ' ', "file name complete");
	}
	sym_cover("accepted");
}
// Anything at all: parsing never touches memory outside the arguments.
SYM_ENTRY c20_any()
{
	Args a;
	int o = (int)sym_param("o", 0);
	static const char* const O[] = {"-r", "-M", "-C", "-a", "-c", "-n", "-I", "-m", "--rotate", "-j"};
	if (sym_pick("base", 0, 1)) { add(a, {"-f", "R8G8B8A8"}); add(a, kOut); }
	a.push_back(O[o]);
	int n = (int)sym_pick("n", 0, 3);
	static const char* const S[] = {"1", "+y", "once", "wrap", "box", "image"};
	for (int k = 0; k < n; k++)
	{
		int x = (int)sym_pick("kind", 0, 6);
		if (x < 6) a.push_back(S[x]);
		else
		{
			std::string s = anyString("char", 2);
			// Lists are not made enormous.
			sym_assume(sym_or(s[0] < '0', s[0] > '9'));
			a.push_back(s);
		}
	}
	CL c;
	sym_observe("ok", parse(c, a));
	sym_cover("done");
}
