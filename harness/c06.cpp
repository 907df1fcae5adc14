#include "common.h"
#include "snap.h"
// A texture under a sequence of operations, compared after every step with an abstract state.
static Texture::Dimension dimOf(int k) { return k == 0 ? Texture::Dimension::Dim1D : k == 1 ? Texture::Dimension::Dim2D : k == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube; }
struct State
{
	bool valid = false; int kind = 0; unsigned w = 0, h = 0, d = 0, levels = 0; bool srgb = false;
	bool set[8][4][6] = {};
	bool conv = false; int fmt = 0, type = 0, alpha = 1; unsigned bytes = 0;
	unsigned faces() const { return !valid ? 0 : kind == 3 ? 6 : 1; }
	unsigned wd(unsigned m) const { unsigned v = w >> m; return v ? v : 1; }
	unsigned ht(unsigned m) const { unsigned v = h >> m; return v ? v : 1; }
	unsigned dp(unsigned m) const { unsigned v = kind == 2 ? d >> m : d; return v ? v : 1; }
	bool complete() const
	{
		if (!valid) return false;
		for (unsigned m = 0; m < levels; m++) for (unsigned q = 0; q < dp(m); q++) for (unsigned f = 0; f < faces(); f++) if (!set[m][q][f]) return false;
		return true;
	}
};
static void check(const Texture& t, const State& s)
{
	sym_assert(t.isValid() == s.valid, "valid");
	sym_assert(t.mipLevelCount() == (s.valid ? s.levels : 0) && t.faceCount() == s.faces(), "levels and faces");
	sym_assert(t.converted() == s.conv, "converted");
	sym_assert(t.imagesComplete() == s.complete(), "images complete");
	if (!s.valid) { sym_assert(t.width() == 0 && t.height() == 0 && t.depth() == 0 && t.dataSize() == 0 && t.data() == nullptr && !t.getImage().isValid() && t.format() == TF::Unknown, "invalid texture"); return; }
	sym_assert(t.dimension() == dimOf(s.kind) && t.isArray() == (s.kind != 2 && s.d > 0) && t.colorSpace() == (s.srgb ? ColorSpace::sRGB : ColorSpace::Linear), "kind");
	sym_assert((int)t.format() == s.fmt, "format");
	if (s.fmt) sym_assert((int)t.type() == s.type && (int)t.alphaType() == s.alpha, "type and alpha of the conversion");
	for (unsigned m = 0; m < s.levels; m++)
	{
		sym_assert(t.width(m) == s.wd(m) && t.height(m) == s.ht(m) && t.depth(m) == s.dp(m), "level size");
		for (unsigned q = 0; q < s.dp(m); q++) for (unsigned f = 0; f < s.faces(); f++)
		{
			auto F = (Texture::CubeFace)f;
			const Image& i = t.getImage(F, m, q);
			sym_assert(i.isValid() == s.set[m][q][f], "image of a surface");
			if (s.set[m][q][f]) sym_assert(i.width() == s.wd(m) && i.height() == s.ht(m) && i.format() == IF::RGBAF && i.colorSpace() == t.colorSpace(), "kind of an image");
			size_t n = s.conv ? (size_t)s.bytes*s.wd(m)*s.ht(m) : 0;
			sym_assert(t.dataSize(F, m, q) == n && (t.data(F, m, q) != nullptr) == (n != 0), "data of a surface");
			if (n) sym_assert(sym_mem_ok(t.data(F, m, q), n), "extent of the data");
		}
	}
}
SYM_ENTRY c06()
{
	int steps = (int)sym_param("steps", 3), kind = (int)sym_param("kind", 1), first = (int)sym_param("first", -1);
	Texture t;
	State s;
	bool anyConv = false, again = false;
	for (int n = 0; n <= steps; n++)
	{
		int op = n == 0 ? 0 : n == 1 && first >= 0 ? first : (int)sym_pick("op", 0, 9);
		if (op == 0)
		{
			// Once set up, only fail or start over with another kind.
			unsigned c = n == 0 ? (unsigned)sym_param("size", 0) : (unsigned)sym_pick("size", 2, 3);
			State o;
			o.kind = n == 0 ? kind : c == 2 ? kind : 1;
			o.w = c == 0 ? 2 : c == 1 ? 3 : c == 2 ? 0 : 1; o.h = o.kind == 0 ? 1 : o.kind == 3 ? o.w : c == 1 ? 1 : 2; o.d = o.kind == 2 ? 2 : c == 1 ? 2 : 0;
			o.srgb = sym_param("srgb", 0) != 0;
			o.valid = o.w > 0;
			unsigned max = 1; while ((o.w >> max) || (o.h >> max) || (o.kind == 2 && (o.d >> max))) max++;
			uint32_t l = n == 0 ? (uint32_t)sym_bits("levels", 32) : 1;
			o.levels = (unsigned)sym_concretize(sym_ite(l < 1, 1, sym_ite(l > max, max, l)));
			bool r = t.initialize(dimOf(o.kind), o.w, o.h, o.d, l, o.srgb ? ColorSpace::sRGB : ColorSpace::Linear);
			sym_assert(r == o.valid, "initialize");
			s = o.valid ? o : State();
		}
		else if (op == 1)
		{
			uint32_t m = (uint32_t)sym_bits("level", 32), q = (uint32_t)sym_bits("layer", 32), f = s.kind == 3 ? (uint32_t)sym_pick("face", 1, 2) : (uint32_t)sym_pick("face", 0, 1);
			unsigned iw = s.valid ? s.wd(0) : 2, ih = s.valid ? s.ht(0) : 2;
			if (sym_pick("wrong", 0, 1)) iw++;
			Image i(n & 1 ? IF::RGBA8 : IF::RGBAF, iw, ih, n & 1 ? ColorSpace::sRGB : ColorSpace::Linear);
			// Every 32-bit level and layer; those inside are taken one by one.
			int ok = 0;
			unsigned mm = 0, qq = 0;
			if (s.valid && (s.kind == 3 || f == 0))
				for (unsigned a = 0; a < s.levels; a++)
					if (iw == s.wd(a) && ih == s.ht(a)) for (unsigned b = 0; b < s.dp(a); b++) { int hit = sym_and(m == a, q == b); ok = sym_or(ok, hit); if (hit) { mm = a; qq = b; } }
			bool r = (n & 2) ? t.setImage(std::move(i), (Texture::CubeFace)f, m, q) : t.setImage(i, (Texture::CubeFace)f, m, q);
			sym_assert(r == (ok != 0), "setImage");
			if (ok) s.set[mm][qq][f] = true;
		}
		else if (op == 2)
		{
			for (unsigned m = 0; s.valid && m < s.levels; m++) for (unsigned q = 0; q < s.dp(m); q++) for (unsigned f = 0; f < s.faces(); f++)
			{
				sym_assert(t.setImage(Image(IF::RGBAF, s.wd(m), s.ht(m), t.colorSpace()), (Texture::CubeFace)f, m, q), "setImage of a surface");
				s.set[m][q][f] = true;
			}
		}
		else if (op == 3)
		{
			uint32_t l = (uint32_t)sym_bits("genLevels", 32);
			bool base = s.valid;
			for (unsigned q = 0; s.valid && q < s.dp(0); q++) for (unsigned f = 0; f < s.faces(); f++) base = base && s.set[0][q][f];
			bool r = t.generateMipmaps(Image::ResizeFilter::Box, l);
			sym_assert(r == base, "generateMipmaps");
			if (base)
			{
				unsigned max = 1; while ((s.w >> max) || (s.h >> max) || (s.kind == 2 && (s.d >> max))) max++;
				unsigned was = s.levels;
				s.levels = (unsigned)sym_concretize(sym_ite(l < 1, 1, sym_ite(l > max, max, l)));
				for (unsigned m = 1; m < 4; m++) for (unsigned q = 0; q < 4; q++) for (unsigned f = 0; f < 6; f++) s.set[m][q][f] = m < s.levels && q < s.dp(m) && f < s.faces();
				if (s.conv) again = true;
				s.conv = false; s.fmt = 0;
				(void)was;
			}
		}
		else if (op == 4 || op == 5)
		{
			// A pair every color space supports or one for linear textures only; otherwise any invalid pair.
			int f = op == 4 ? (int)TF::R8G8B8A8 : (int)TF::R16, ty = 0;
			bool want = s.complete() && (op == 4 || !s.srgb);
			bool r = t.convert((TF)f, (TT)ty, Texture::Quality::Low, op == 4 ? Texture::Alpha::PreMultiplied : Texture::Alpha::None, Texture::ColorMask(), n & 1);
			sym_assert(r == want, "convert");
			if (want)
			{
				s.conv = true; s.fmt = f; s.type = ty; s.alpha = (int)(op == 4 ? Texture::Alpha::PreMultiplied : Texture::Alpha::None); s.bytes = op == 4 ? 4 : 2;
				memset(s.set, 0, sizeof(s.set));
				anyConv = true;
			}
		}
		else if (op == 6)
		{
			uint32_t f = (uint32_t)sym_bits("format", 32), ty = (uint32_t)sym_bits("type", 32);
			sym_assume(sym_or(sym_or(f == 0, f > (uint32_t)TF::PVRTC2_RGBA_4BPP), ty > 5));
			sym_assert(!t.convert((TF)f, (TT)ty), "convert to a pair that is not valid");
		}
		else if (op == 7)
		{
			Texture c(t);
			check(c, s);
			c.reset();
			check(c, State());
		}
		else if (op == 8)
		{
			Texture c(std::move(t));
			check(c, s);
			check(t, State());
			t = std::move(c);
			check(c, State());
		}
		else { t.reset(); s = State(); }
		check(t, s);
	}
	sym_observe("levels", t.mipLevelCount());
	sym_observe("converted", t.converted());
	sym_cover("done");
	if (anyConv) sym_cover("converted");
	if (again) sym_cover("regenerated");
}
// One image of any size and format given to any surface by each of the ways to set it.
SYM_ENTRY c06_set()
{
	int kind = (int)sym_param("kind", 1);
	ColorSpace cs = sym_pick("space", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned w = kind == 3 ? 2 : 3, h = kind == 0 ? 1 : 2, d = (unsigned)sym_param("depth", kind == 2 ? 2 : 0);
	Texture t(dimOf(kind), w, h, d, 2, cs);
	sym_assert(t.isValid(), "texture");
	static const IF formats[] = {IF::RGBAF, IF::RGBA8, IF::Float};
	unsigned iw = (unsigned)sym_pick("w", 0, w + 1), ih = iw ? (unsigned)sym_pick("h", 1, h + 1) : 0;
	Image i;
	if (iw)
	{
		i.initialize(formats[sym_pick("format", 0, 2)], iw, ih, sym_pick("imageSpace", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear);
		for (unsigned y = 0; y < ih; y++) for (unsigned x = 0; x < iw; x++) i.setPixel(x, y, {0.25*x, 0.5*y, 0.75, 0.5}, false);
	}
	uint32_t m = (uint32_t)sym_bits("level", 32), q = (uint32_t)sym_bits("layer", 32), f = (uint32_t)sym_bits("face", 32);
	if (kind == 3) sym_assume(f < 6);
	int how = (int)sym_pick("how", 0, 3);
	int ok = 0;
	unsigned mm = 0, qq = 0, ff = 0;
	for (unsigned a = 0; a < 2; a++)
		if (iw == t.width(a) && ih == t.height(a) && !(kind == 3 && how < 2))
			for (unsigned b = 0; b < t.depth(a); b++) for (unsigned c = 0; c < (how < 2 ? 1 : t.faceCount()); c++)
			{
				int hit = sym_and(sym_and(m == a, q == b), how < 2 ? 1 : f == c);
				if (hit) { ok = 1; mm = a; qq = b; ff = c; }
			}
	Image want;
	if (ok) { want = i.convert(IF::RGBAF); want.changeColorSpace(cs); }
	Snap before = snap(i);
	bool r = how == 0 ? t.setImage(i, m, q) : how == 1 ? t.setImage(std::move(i), m, q) : how == 2 ? t.setImage(i, (Texture::CubeFace)f, m, q) : t.setImage(std::move(i), (Texture::CubeFace)f, m, q);
	sym_assert(r == (ok != 0), "accepted exactly when it fits");
	if (how == 0 || how == 2) sym_assert(same(snap(i), before), "image given is kept");
	for (unsigned a = 0; a < 2; a++) for (unsigned b = 0; b < t.depth(a); b++) for (unsigned c = 0; c < t.faceCount(); c++)
	{
		const Image& s = t.getImage((Texture::CubeFace)c, a, b);
		if (ok && a == mm && b == qq && c == ff) sym_assert(same(snap(s), snap(want)), "image stored");
		else sym_assert(!s.isValid(), "other surfaces");
	}
	sym_assert(!t.converted() && !t.imagesComplete(), "state");
	sym_cover(ok ? "accepted" : "refused");
}

// Every surface counts: with any one (or any two) of them missing nothing can be converted, and the last one to be set completes the texture.
SYM_ENTRY c06_missing()
{
	int kind = (int)sym_param("kind", 3);
	unsigned d = (unsigned)sym_param("depth", 0);
	State s;
	s.valid = true; s.kind = kind; s.d = d; s.srgb = sym_pick("srgb", 0, 1) != 0;
	s.w = (unsigned)sym_param("w", 5); s.h = kind == 0 ? 1 : kind == 3 ? s.w : 3;
	s.levels = 1;
	while (s.w >> s.levels) s.levels++;
	Texture t(dimOf(kind), s.w, s.h, d, s.levels, s.srgb ? ColorSpace::sRGB : ColorSpace::Linear);
	unsigned total = 0;
	for (unsigned m = 0; m < s.levels; m++) total += s.dp(m)*s.faces();
	unsigned a = (unsigned)sym_pick("missing", 0, total - 1), b = total < 19 && sym_pick("two", 0, 1) ? (unsigned)sym_pick("other", 0, total - 1) : a;
	bool back = sym_pick("backwards", 0, 1) != 0;
	unsigned set = 0;
	for (int pass = 0; pass < 2; pass++)
	{
		for (unsigned k = 0; k < total; k++)
		{
			unsigned i = back ? total - 1 - k : k, m = 0, q = 0, f = 0, n = i;
			while (n >= s.dp(m)*s.faces()) { n -= s.dp(m)*s.faces(); m++; }
			q = n/s.faces(); f = n % s.faces();
			bool skip = i == a || i == b;
			if (pass == 0 ? skip : !skip) continue;
			if (pass == 1)
			{
				check(t, s);
				bool base = true;
				for (unsigned g = 0; g < s.dp(0)*s.faces(); g++) base = base && s.set[0][g/s.faces()][g % s.faces()];
				sym_assert(!t.convert(TF::R8G8B8A8, TT::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1), "converted without every image");
				if (!base) sym_assert(!t.generateMipmaps(Image::ResizeFilter::Box, s.levels), "levels generated without every image of the first");
				check(t, s);
				set++;
			}
			sym_assert(t.setImage(Image(IF::RGBAF, s.wd(m), s.ht(m), t.colorSpace()), (Texture::CubeFace)f, m, q), "setting an image");
			s.set[m][q][f] = true;
		}
	}
	sym_assert(set == (a == b ? 1u : 2u), "surfaces set in the end");
	check(t, s);
	sym_assert(t.imagesComplete(), "complete");
	sym_assert(t.convert(TF::R8G8B8A8, TT::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1), "conversion with every image");
	sym_assert(t.converted(), "converted");
	for (unsigned m = 0; m < s.levels; m++) for (unsigned q = 0; q < s.dp(m); q++) for (unsigned f = 0; f < s.faces(); f++)
		sym_assert(t.dataSize((Texture::CubeFace)f, m, q) == (size_t)4*s.wd(m)*s.ht(m) && t.data((Texture::CubeFace)f, m, q), "data of every surface");
	sym_cover("done");
}
