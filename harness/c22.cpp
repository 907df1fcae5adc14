#include "snap.h"
static void fill(Image& i, const char* name)
{
	unsigned n = i.width()*i.bitsPerPixel()/8;
	for (unsigned y = 0; y < i.height(); y++)
	{
		uint8_t* p = (uint8_t*)i.scanline(y);
		for (unsigned b = 0; b < n; b++) p[b] = y ? (uint8_t)(b*29 + 5) : (uint8_t)sym_bits(name, 8);
	}
}
// Every raw pixel of an image of any format is carried over by a copy, which is then independent.
SYM_ENTRY c22_image()
{
	IF f = (IF)sym_param("f", 1);
	ColorSpace cs = sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image a(f, 2, 2, cs);
	if (sym_pick("empty", 0, 1)) a.reset();
	sym_cover(a.isValid() ? "valid" : "empty");
	fill(a, "a");
	Snap A = snap(a);
	const void* pa = a.scanline(0);
	int before = (int)sym_pick("before", 0, 2);
	Image b;
	if (before == 1) b = Image(IF::RGB8, 1, 3, ColorSpace::sRGB);
	if (before == 2) { b = Image(f, 2, 2, ColorSpace::Linear); fill(b, "b"); }
	int how = (int)sym_pick("how", 0, before ? 3 : 4);
	if (how == 0) { Image c(a); sym_assert(same(snap(c), A) && same(snap(a), A), "copy constructed image"); b = c; }
	else if (how == 1) b = a;
	else if (how == 2) { Image& r = a; a = r; sym_assert(same(snap(a), A) && a.scanline(0) == pa, "self-assigned image"); b = a; }
	else if (how == 3) { b = std::move(a); }
	else { Image c(std::move(a)); sym_assert(!a.isValid() && c.scanline(0) == pa, "move constructed image"); b = std::move(c); sym_assert(!c.isValid(), "source of a move"); }
	sym_assert(same(snap(b), A), "value of an assigned image");
	if (how >= 3)
	{
		sym_assert(b.scanline(0) == pa, "moved without copying");
		sym_assert(same(snap(a), snap(Image())), "source of a move is empty");
		sym_assert(!a.flipVertical() && a.initialize(IF::Gray8, 1, 1) && a.width() == 1, "source of a move can be used again");
		sym_assert(same(snap(b), A), "using the source of a move");
	}
	else
	{
		sym_assert(same(snap(a), A), "source of an assignment");
		sym_assert(!a.isValid() || a.scanline(0) != b.scanline(0), "own pixels");
		int m = (int)sym_pick("change", 0, 6), which = (int)sym_pick("which", 0, 1);
		Image& x = which ? a : b, &y = which ? b : a;
		ColorRGBAd c = {0.25, 1, 0, 0.5};
		if (m == 0) x.setPixel(0, 0, c, false);
		else if (m == 1) x.flipHorizontal();
		else if (m == 2) x.reset();
		else if (m == 3) x.initialize(IF::RGBF, 3, 1);
		else if (m == 4) { Image z(std::move(x)); z.setPixel(1, 1, c, false); z.flipVertical(); }
		else if (m == 5) x.swizzle(Image::Channel::Blue, Image::Channel::None, Image::Channel::Red, Image::Channel::Alpha);
		else if (x.isValid()) memset(x.scanline(1), 0xA5, 2*x.bitsPerPixel()/8);
		sym_assert(same(snap(y), A), "changing the other image");
		if (m == 4) sym_assert(!x.isValid(), "moved away");
	}
	sym_cover("done");
}
static Texture make(int stage, int kind, bool srgb)
{
	Texture t;
	if (stage == 0) return t;
	auto dim = kind == 0 ? Texture::Dimension::Dim1D : kind == 1 ? Texture::Dimension::Dim2D : kind == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube;
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	sym_assert(t.initialize(dim, 2, kind == 0 ? 1 : 2, kind == 1 ? 2 : kind == 2 ? 2 : 0, stage >= 3 ? 2 : 1, cs), "initialize");
	if (stage == 1) return t;
	unsigned n = 0;
	for (unsigned l = 0; l < t.mipLevelCount(); l++) for (unsigned d = 0; d < t.depth(l); d++) for (unsigned f = 0; f < t.faceCount(); f++)
	{
		Image i(IF::RGBAF, t.width(l), t.height(l), cs);
		for (unsigned y = 0; y < i.height(); y++) for (unsigned x = 0; x < i.width(); x++) for (int c = 0; c < 4; c++) rgbaf(i, x, y)[c] = (float)(++n % 64)/64;
		if (l == 0 && d == 0 && f == 0) { float v = sym_float("v"); sym_assume(sym_and(v >= 0, v <= 1)); rgbaf(i, 1, 0)[2] = v; }
		if (stage == 2 && f + 1 == t.faceCount() && d + 1 == t.depth(l)) continue;
		sym_assert(t.setImage(std::move(i), (Texture::CubeFace)f, l, d), "set");
	}
	if (stage >= 4) sym_assert(t.convert(TF::R16G16B16, stage == 5 ? TT::Float : TT::Int, Texture::Quality::Normal, Texture::Alpha::PreMultiplied, Texture::ColorMask(true, false, true, true), 1), "convert");
	return t;
}
SYM_ENTRY c22_texture()
{
	int kind = (int)sym_param("kind", 1), stage = (int)sym_param("stage", 4);
	Texture a = make(stage, kind, stage < 4 && (kind & 1));
	Snap A = snap(a);
	const void *pi = a.getImage().isValid() ? a.getImage().scanline(0) : nullptr, *pd = a.data();
	int before = (int)sym_pick("before", 0, 4);
	static const int stages[] = {0, 1, 3, 4, 5};
	Texture b = make(stages[before], before == 2 ? 3 : before == 4 ? 2 : 1, false);
	int how = (int)sym_pick("how", 0, before ? 3 : 4);
	if (how == 0) { Texture c(a); sym_assert(same(snap(c), A) && same(snap(a), A), "copy constructed texture"); b = c; sym_assert(same(snap(c), A), "source of an assignment"); }
	else if (how == 1) b = a;
	else if (how == 2) { Texture& r = a; a = r; sym_assert(same(snap(a), A) && a.data() == pd, "self-assigned texture"); b = a; }
	else if (how == 3) b = std::move(a);
	else { Texture c(std::move(a)); sym_assert(!a.isValid() && same(snap(c), A), "move constructed texture"); b = std::move(c); sym_assert(!c.isValid(), "source of a move"); }
	sym_assert(same(snap(b), A), "value of an assigned texture");
	if (how >= 3)
	{
		sym_assert((b.getImage().isValid() ? b.getImage().scanline(0) : nullptr) == pi && b.data() == pd, "moved without copying");
		sym_assert(same(snap(a), snap(Texture())), "source of a move is empty");
		sym_assert(!a.generateMipmaps() && a.initialize(Texture::Dimension::Dim2D, 1, 1) && a.width() == 1 && a.setImage(Image(IF::RGBAF, 1, 1)), "source of a move can be used again");
		sym_assert(same(snap(b), A), "using the source of a move");
	}
	else
	{
		sym_assert(same(snap(a), A), "source of an assignment");
		sym_assert(!pi || b.getImage().scanline(0) != pi, "own images");
		sym_assert(!pd || b.data() != pd, "own data");
		int m = (int)sym_pick("change", 0, 5), which = (int)sym_pick("which", 0, 1);
		Texture& x = which ? a : b, &y = which ? b : a;
		if (m == 0) x.reset();
		else if (m == 1) { if (x.isValid()) { Image i(IF::RGBAF, x.width(), x.height(), x.colorSpace()); memset(i.scanline(0), 0x3c, 16*i.width()); sym_assert(x.setImage(std::move(i), Texture::CubeFace::PosX), "set an image"); } }
		else if (m == 2) x.generateMipmaps(Image::ResizeFilter::Box, 2);
		else if (m == 3) x.convert(TF::R8, TT::UNorm, Texture::Quality::Low, Texture::Alpha::None, Texture::ColorMask(), 1);
		else if (m == 4) { Texture z(std::move(x)); z.convert(TF::R32, TT::Float, Texture::Quality::Low, Texture::Alpha::None, Texture::ColorMask(), 1); }
		else x.initialize(Texture::Dimension::Cube, 1, 1);
		sym_assert(same(snap(y), A), "changing the other texture");
		if (m == 4) sym_assert(!x.isValid(), "moved away");
	}
	sym_cover("done");
}
typedef Texture::CustomMipImage CM;
// The image a custom mip denotes, and its replacement.
static int is(const CM& c, const Snap& s, Texture::MipReplacement r, const Image* at)
{
	return sym_and(c.replacement == r && c.image && (at ? c.image == at : c.image == &c.imageStorage), same(snap(*c.image), s));
}
SYM_ENTRY c22_custom()
{
	Image i(IF::RGBA8, 1, 1, ColorSpace::sRGB), j(IF::RGBF, 2, 1);
	fill(i, "i"); fill(j, "j");
	Snap I = snap(i), J = snap(j);
	const void *pi = i.scanline(0);
	auto R = Texture::MipReplacement::Once, S = Texture::MipReplacement::Continue;
	if (sym_pick("swap", 0, 1)) std::swap(R, S);
	bool ownA = sym_pick("own a", 0, 1), ownB = sym_pick("own b", 0, 1);
	// The copies outlive the originals.
	int how = (int)sym_pick("how", 0, 5);
	Image ii(i);
	const Image &ci = i, &cj = j;
	CM* a = ownA ? new CM(std::move(ii), R) : new CM(ci, R);
	Image jj(j);
	CM b = ownB ? CM(std::move(jj), S) : CM(cj, S);
	sym_assert(is(*a, I, R, ownA ? nullptr : &i) && is(b, J, S, ownB ? nullptr : &j), "custom mip");
	const void* px = a->image->scanline(0);
	if (how == 0)
	{
		CM c(*a);
		sym_assert(is(*a, I, R, ownA ? nullptr : &i), "source of a copy");
		sym_assert(!ownA || c.image->scanline(0) != px, "own pixels");
		delete a;
		sym_assert(is(c, I, R, ownA ? nullptr : &i), "copy constructed custom mip");
	}
	else if (how == 1)
	{
		CM c(std::move(*a));
		sym_assert(c.image->scanline(0) == px, "moved without copying");
		delete a;
		sym_assert(is(c, I, R, ownA ? nullptr : &i), "move constructed custom mip");
	}
	else if (how == 2)
	{
		b = *a;
		sym_assert(is(*a, I, R, ownA ? nullptr : &i), "source of an assignment");
		if (ownA) { memset(a->imageStorage.scanline(0), 0x77, 4); sym_assert(is(b, I, R, nullptr), "changing the source"); }
		delete a;
		sym_assert(is(b, I, R, ownA ? nullptr : &i), "copy assigned custom mip");
	}
	else if (how == 3)
	{
		b = std::move(*a);
		sym_assert(b.image->scanline(0) == px, "moved without copying");
		delete a;
		sym_assert(is(b, I, R, ownA ? nullptr : &i), "move assigned custom mip");
	}
	else if (how == 4)
	{
		CM& r = b;
		b = r;
		sym_assert(is(b, J, S, ownB ? nullptr : &j), "self-assigned custom mip");
		CM& q = *a;
		*a = std::move(q);
		sym_assert(is(*a, I, R, ownA ? nullptr : &i), "custom mip moved onto itself");
		delete a;
	}
	else
	{
		Texture::CustomMipImages m;
		Texture::ImageIndex x(Texture::CubeFace::NegX, 1, 2), y(Texture::CubeFace::NegX, 1, 3);
		m.emplace(x, *a); m.emplace(y, b);
		Texture::CustomMipImages n(m), o;
		o = m;
		m.clear();
		sym_assert(is(n.at(x), I, R, ownA ? nullptr : &i) && is(n.at(y), J, S, ownB ? nullptr : &j) && is(o.at(x), I, R, ownA ? nullptr : &i) && is(o.at(y), J, S, ownB ? nullptr : &j), "copied list of custom mips");
		delete a;
		sym_assert(is(n.at(x), I, R, ownA ? nullptr : &i), "list of custom mips");
	}
	sym_assert(same(snap(i), I) && same(snap(j), J) && i.scanline(0) == pi, "images given by pointer");
	sym_cover("done");
}
