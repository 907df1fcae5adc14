#include "common.h"
static Texture::Dimension dimOf(int k) { return k == 0 ? Texture::Dimension::Dim1D : k == 1 ? Texture::Dimension::Dim2D : k == 2 ? Texture::Dimension::Dim3D : Texture::Dimension::Cube; }
typedef Texture::MipReplacement MR;
static const float kTol = 1.0f/512;
// Equal up to the rounding of filter weights and transfer functions.
static int near(float a, float b) { return sym_or(f2u(a) == f2u(b), sym_and(a - b <= kTol, b - a <= kTol)); }
static int same(const Image& a, const Image& b)
{
	if (!a.isValid() || !b.isValid() || a.width() != b.width() || a.height() != b.height() || a.format() != b.format() || a.colorSpace() != b.colorSpace()) return 0;
	int r = 1;
	for (unsigned y = 0; y < a.height(); y++) for (unsigned x = 0; x < a.width()*4; x++)
		r = sym_and(r, f2u(((const float*)a.scanline(y))[x]) == f2u(((const float*)b.scanline(y))[x]));
	return r;
}
static int nearImg(const Image& a, const Image& b)
{
	if (!a.isValid() || !b.isValid() || a.width() != b.width() || a.height() != b.height() || a.format() != b.format() || a.colorSpace() != b.colorSpace()) return 0;
	int r = 1;
	for (unsigned y = 0; y < a.height(); y++) for (unsigned x = 0; x < a.width()*4; x++)
		r = sym_and(r, near(((const float*)a.scanline(y))[x], ((const float*)b.scanline(y))[x]));
	return r;
}
static Image constant(unsigned w, unsigned h, ColorSpace cs, float r, float g, float b, float a)
{
	Image i(IF::RGBAF, w, h, cs);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { float* p = rgbaf(i, x, y); p[0] = r; p[1] = g; p[2] = b; p[3] = a; }
	return i;
}
struct Col { float c[4]; };
static void checkImage(const Image& i, unsigned w, unsigned h, ColorSpace cs, const Col& col)
{
	sym_assert(i.isValid() && i.width() == w && i.height() == h, "size of a mip image");
	sym_assert(i.format() == IF::RGBAF && i.colorSpace() == cs, "format and color space of a mip image");
	int ok = 1;
	for (unsigned y = 0; y < h; y += h > 1 ? h - 1 : 1) for (unsigned x = 0; x < w; x += w > 1 ? w - 1 : 1)
		for (int c = 0; c < 4; c++) ok = sym_and(ok, near(((const float*)i.scanline(y))[x*4 + c], col.c[c]));
	sym_assert(ok, "colour of a mip image");
}
// Chains of 1D, 2D and cube textures with any custom levels for two of the surfaces.
SYM_ENTRY c07_chain()
{
	int kind = (int)sym_param("kind", 1);
	unsigned w = (unsigned)sym_param("w", 8), h = (unsigned)sym_param("h", 3), layers = (unsigned)sym_param("layers", 0);
	bool srgb = sym_param("srgb", 0) != 0;
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned init = (unsigned)sym_pick("initLevels", 1, 2), nl = layers ? layers : 1, faces = kind == 3 ? 6 : 1;
	Texture t(dimOf(kind), w, h, layers, init, cs);
	std::vector<std::vector<Col>> base(nl, std::vector<Col>(faces));
	std::vector<Image> before;
	for (unsigned d = 0; d < nl; d++) for (unsigned f = 0; f < faces; f++)
	{
		float s = srgb ? 0.25f : sym_float("colour");
		if (!srgb) sym_assume(sym_and(s >= 0, s <= 1));
		base[d][f] = Col{{s, (1 + d*6 + f)/20.0f, 0.5f, 0.75f}};
		const float* c = base[d][f].c;
		sym_assert(t.setImage(constant(w, h, cs, c[0], c[1], c[2], c[3]), (Texture::CubeFace)f, 0, d), "setImage");
		before.push_back(t.getImage((Texture::CubeFace)f, 0, d));
	}
	unsigned max = 1; while ((w >> max) || (h >> max)) max++;
	// Custom levels: none, once or continue, for two surfaces.
	struct { unsigned d, f; } at[2] = {{0, kind == 3 ? 1u : 0u}, {nl - 1, kind == 3 ? 4u : 0u}};
	int ns = nl > 1 || kind == 3 ? 2 : 1;
	unsigned from = (unsigned)sym_param("from", 1); // the first of three levels that may be custom
	int mode[2][12] = {};
	Texture::CustomMipImages custom;
	Image store[2][12];
	Col ccol[2][12];
	for (int s = 0; s < ns; s++) for (unsigned m = from; m < max && m < from + 3; m++)
	{
		mode[s][m] = (int)sym_pick("mode", 0, 2);
		if (!mode[s][m]) continue;
		bool otherSpace = (m + s)%2 != 0, f16 = m == 2;
		ColorSpace ics = otherSpace ? (srgb ? ColorSpace::Linear : ColorSpace::sRGB) : cs;
		Col c = Col{{0.6f, (13 + s*3 + m)/24.0f, 0.2f, 0.9f}};
		Image i = constant(2 + m, 2, ics, c.c[0], c.c[1], c.c[2], c.c[3]);
		if (f16) i = i.convert(IF::RGBA16);
		for (int k = 0; k < 3; k++)
			if (otherSpace) c.c[k] = (float)(srgb ? linearToSRGB(c.c[k]) : sRGBToLinear(c.c[k]));
		ccol[s][m] = c;
		store[s][m] = i;
		MR mr = mode[s][m] == 1 ? MR::Once : MR::Continue;
		Texture::ImageIndex idx = kind == 3 ? Texture::ImageIndex((Texture::CubeFace)at[s].f, m, at[s].d) : Texture::ImageIndex(m, at[s].d);
		if (m == 1) custom.emplace(idx, Texture::CustomMipImage(std::move(i), mr));
		else custom.emplace(idx, Texture::CustomMipImage(store[s][m], mr));
	}
	uint32_t gl = (uint32_t)sym_bits("levels", 32);
	sym_assert(t.generateMipmaps((Image::ResizeFilter)sym_param("filter", 0), gl, custom), "generateMipmaps");
	unsigned n = (unsigned)sym_concretize(sym_ite(gl < 1, 1, sym_ite(gl > max, max, gl)));
	sym_assert(t.mipLevelCount() == n, "number of levels");
	sym_assert(t.imagesComplete(), "complete chain");
	for (unsigned d = 0; d < nl; d++) for (unsigned f = 0; f < faces; f++)
	{
		sym_assert(same(t.getImage((Texture::CubeFace)f, 0, d), before[d*faces + f]), "base image");
		Col chain = base[d][f];
		for (unsigned m = 1; m < n; m++)
		{
			Col show = chain;
			for (int s = 0; s < ns; s++)
				if (at[s].d == d && at[s].f == f && m < 12 && mode[s][m]) { show = ccol[s][m]; if (mode[s][m] == 2) chain = show; }
			checkImage(t.getImage((Texture::CubeFace)f, m, d), t.width(m), t.height(m), cs, show);
			sym_assert(t.width(m) == (w >> m ? w >> m : 1) && t.height(m) == (h >> m ? h >> m : 1), "size of a level");
		}
	}
	for (int s = 0; s < ns; s++) for (unsigned m = from; m < max && m < from + 3; m++) if (mode[s][m] && m != 1) sym_assert(store[s][m].isValid(), "custom image kept by the caller");
	sym_cover("done");
}
// 3D textures with complete custom levels: compared with textures generated without them.
SYM_ENTRY c07_3d()
{
	unsigned w = (unsigned)sym_param("w", 4), h = (unsigned)sym_param("h", 2), d = (unsigned)sym_param("d", 4);
	bool srgb = sym_param("srgb", 0) != 0;
	auto filter = (Image::ResizeFilter)sym_param("filter", 0);
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Texture t(Texture::Dimension::Dim3D, w, h, d, 1, cs);
	for (unsigned z = 0; z < d; z++)
	{
		float s = (float)(z + 1)/16;
		if (z == 0 && !srgb) { s = sym_float("colour"); sym_assume(sym_and(s >= 0.0f, s <= 1.0f)); }
		sym_assert(t.setImage(constant(w, h, cs, s, (z + 3)/16.0f, 0.5f, 1), 0, z), "setImage");
	}
	unsigned max = 1; while ((w >> max) || (h >> max) || (d >> max)) max++;
	uint32_t gl = (uint32_t)sym_bits("levels", 32);
	unsigned n = (unsigned)sym_concretize(sym_ite(gl < 1, 1, sym_ite(gl > max, max, gl)));
	Texture plain(t);
	sym_assert(plain.generateMipmaps(filter, gl), "generateMipmaps");
	sym_assert(plain.mipLevelCount() == n && plain.imagesComplete(), "complete chain");
	// Every generated slice has values between those of the slices it is made from.
	for (unsigned m = 1; m < n; m++)
	{
		unsigned pd = plain.depth(m - 1), cd = plain.depth(m);
		sym_assert(cd == (d >> m ? d >> m : 1), "depth of a level");
		for (unsigned z = 0; z < cd; z++)
		{
			const Image& i = plain.getImage(m, z);
			checkImage(i, w >> m ? w >> m : 1, h >> m ? h >> m : 1, cs, Col{{((const float*)i.scanline(0))[0], ((const float*)i.scanline(0))[1], 0.5f, 1}});
			float g = ((const float*)i.scanline(0))[1];
			double c = (z + 0.5)*pd/cd - 0.5, r = filter == Image::ResizeFilter::Box ? 0.5*pd/cd : (double)pd/cd;
			float lo = 2, hi = -1;
			for (unsigned k = 0; k < pd; k++)
				if (k > c - r - 1e-6 && k < c + r + 1e-6) { float v = ((const float*)plain.getImage(m - 1, k).scanline(0))[1]; if (v < lo) lo = v; if (v > hi) hi = v; }
			sym_assert(g >= lo - kTol && g <= hi + kTol, "value of a generated slice outside its sources");
			// The mean in linear space when the slices divide evenly.
			if (pd == 2*cd && filter == Image::ResizeFilter::Box && !srgb)
			{
				float a = ((const float*)plain.getImage(m - 1, 2*z).scanline(0))[1], b = ((const float*)plain.getImage(m - 1, 2*z + 1).scanline(0))[1];
				sym_assert(near(g, (a + b)/2), "mean of two slices");
			}
		}
		for (unsigned z = 1; z < cd; z++)
			sym_assert(((const float*)plain.getImage(m, z).scanline(0))[1] >= ((const float*)plain.getImage(m, z - 1).scanline(0))[1], "order of the slices");
	}
	// Custom levels: none, once, continue, or inconsistent in one of two ways.
	Texture::CustomMipImages custom;
	unsigned from = (unsigned)sym_param("from", 1);
	int mode[12] = {};
	bool refused = false;
	for (unsigned m = from; m < max && m < from + 3; m++)
	{
		unsigned cd = d >> m ? d >> m : 1;
		mode[m] = (int)sym_pick("mode", 0, cd > 1 ? 4 : 2);
		unsigned odd = mode[m] > 2 ? (unsigned)sym_pick("odd", 0, cd - 1) : 0;
		for (unsigned z = 0; z < cd; z++)
		{
			if (!mode[m] || (mode[m] == 3 && z == odd)) continue;
			bool once = mode[m] == 1 || (mode[m] == 4 && z == odd);
			custom.emplace(Texture::ImageIndex(m, z), Texture::CustomMipImage(constant(1 + z, 2, cs, 0.3f, (m*4 + z)/32.0f, 0.7f, 0.6f), once ? MR::Once : MR::Continue));
		}
		if (mode[m] > 2 && m < n) refused = true;
	}
	Texture was(t);
	bool r = t.generateMipmaps(filter, gl, custom);
	sym_assert(r == !refused, "inconsistent custom levels");
	if (refused)
	{
		sym_assert(t.mipLevelCount() == 1 && t.imagesComplete() && !t.converted(), "state after a refusal");
		for (unsigned z = 0; z < d; z++) sym_assert(same(t.getImage(0, z), was.getImage(0, z)), "images after a refusal");
		sym_cover("refused");
	}
	else
	{
		sym_assert(t.mipLevelCount() == n && t.imagesComplete(), "complete chain with custom levels");
		for (unsigned z = 0; z < d; z++) sym_assert(same(t.getImage(0, z), was.getImage(0, z)), "base images");
		// The chain that generated levels follow: the plain one, or one from the last continued level.
		Texture chain(plain);
		unsigned off = 0;
		for (unsigned m = 1; m < n; m++)
		{
			unsigned cd = t.depth(m);
			for (unsigned z = 0; z < cd; z++)
			{
				if (m < 12 && mode[m]) checkImage(t.getImage(m, z), t.width(m), t.height(m), cs, Col{{0.3f, (m*4 + z)/32.0f, 0.7f, 0.6f}});
				else sym_assert(nearImg(t.getImage(m, z), chain.getImage(m - off, z)), "generated level");
			}
			if (m < 12 && mode[m] == 2)
			{
				chain = Texture(Texture::Dimension::Dim3D, t.width(m), t.height(m), cd, 1, cs);
				for (unsigned z = 0; z < cd; z++) chain.setImage(t.getImage(m, z), 0, z);
				chain.generateMipmaps(filter);
				off = m;
			}
		}
	}
	sym_cover("done");
}
// Textures that cannot be given mipmaps.
SYM_ENTRY c07_refused()
{
	Texture none;
	sym_assert(!none.generateMipmaps(), "invalid texture");
	Texture t(Texture::Dimension::Dim2D, 4, 4, 2, (unsigned)sym_pick("levels", 1, 3));
	int which = (int)sym_pick("missing", 0, 2);
	for (unsigned m = 0; m < t.mipLevelCount(); m++) for (unsigned z = 0; z < 2; z++)
		if (m || (int)z + 1 != which) t.setImage(Image(IF::RGBAF, t.width(m), t.height(m)), m, z);
	Texture::CustomMipImages custom;
	Image bad;
	int c = (int)sym_pick("custom", 0, 3);
	if (c == 1) custom.emplace(Texture::ImageIndex(1, 0), Texture::CustomMipImage(bad, MR::Once));
	if (c == 2) custom.emplace(Texture::ImageIndex(2, 1), Texture::CustomMipImage(Image(), MR::Once));
	if (c == 3) custom.emplace(Texture::ImageIndex((unsigned)sym_bits("customLevel", 32) | 4, (unsigned)sym_bits("customLayer", 32) | 2), Texture::CustomMipImage(Image(IF::RGBAF, 1, 1), MR::Continue));
	Texture was(t);
	bool ok = which == 0 && (c == 0 || c == 3);
	sym_assert(t.generateMipmaps(Image::ResizeFilter::Linear, Texture::allMipLevels, custom) == ok, "generateMipmaps");
	if (!ok)
	{
		sym_assert(t.mipLevelCount() == was.mipLevelCount() && t.imagesComplete() == was.imagesComplete(), "state after a failure");
		for (unsigned m = 0; m < t.mipLevelCount(); m++) for (unsigned z = 0; z < 2; z++)
			sym_assert(t.getImage(m, z).isValid() == was.getImage(m, z).isValid() && (!t.getImage(m, z).isValid() || same(t.getImage(m, z), was.getImage(m, z))), "images after a failure");
		sym_cover("failed");
	}
	else { sym_assert(t.mipLevelCount() == 3 && t.imagesComplete(), "chain"); sym_cover("generated"); }
}
// An image with a different value in every pixel and channel; one value is symbolic.
static Image varied(unsigned w, unsigned h, ColorSpace cs, unsigned seed, bool symbolic)
{
	Image i(IF::RGBAF, w, h, cs);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (unsigned c = 0; c < 4; c++)
		rgbaf(i, x, y)[c] = (float)((x*23 + y*41 + c*13 + seed*29 + 7) % 101)/100.0f;
	if (symbolic) { float v = sym_float("pixel"); sym_assume(sym_and(v >= 0, v <= 1)); rgbaf(i, 0, 0)[1] = v; }
	return i;
}
// What a custom image looks like in the texture.
static Image shown(const Image& i, unsigned w, unsigned h, Image::ResizeFilter filter, ColorSpace cs)
{
	Image r = i.convert(IF::RGBAF).resize(w, h, filter);
	r.changeColorSpace(cs);
	return r;
}
// Generated images are resized from the images they follow, pixel by pixel.
SYM_ENTRY c07_images()
{
	int kind = (int)sym_param("kind", 1);
	unsigned w = (unsigned)sym_param("w", 7), h = (unsigned)sym_param("h", 5), layers = (unsigned)sym_param("layers", 0);
	bool srgb = sym_param("srgb", 0) != 0;
	auto filter = (Image::ResizeFilter)sym_param("filter", 0);
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Texture t(dimOf(kind), w, h, layers, 1, cs);
	unsigned nl = layers ? layers : 1, faces = kind == 3 ? 6 : 1;
	for (unsigned d = 0; d < nl; d++) for (unsigned f = 0; f < faces; f++)
		sym_assert(t.setImage(varied(w, h, cs, d*6 + f, !srgb && d + 1 == nl && f + 1 == faces), (Texture::CubeFace)f, 0, d), "setImage");
	Texture was(t);
	unsigned max = 1; while ((w >> max) || (h >> max)) max++;
	unsigned cd = (unsigned)sym_pick("layer", 0, nl - 1), cf = (unsigned)sym_pick("face", 0, faces - 1);
	Texture::CustomMipImages custom;
	Image store[4];
	int mode[4] = {};
	for (unsigned m = 1; m < max && m < 4; m++)
	{
		mode[m] = (int)sym_pick("mode", 0, 2);
		if (!mode[m]) continue;
		store[m] = varied(m == 1 ? w/2 ? w/2 : 1 : 3, m == 1 ? h/2 ? h/2 : 1 : 2, m == 2 ? ColorSpace::sRGB : ColorSpace::Linear, 50 + m, false);
		Texture::ImageIndex idx = kind == 3 ? Texture::ImageIndex((Texture::CubeFace)cf, m, cd) : Texture::ImageIndex(m, cd);
		custom.emplace(idx, Texture::CustomMipImage(store[m], mode[m] == 1 ? MR::Once : MR::Continue));
	}
	sym_assert(t.generateMipmaps(filter, Texture::allMipLevels, custom), "generateMipmaps");
	sym_assert(t.mipLevelCount() == max && t.imagesComplete(), "complete chain");
	for (unsigned d = 0; d < nl; d++) for (unsigned f = 0; f < faces; f++)
	{
		sym_assert(same(t.getImage((Texture::CubeFace)f, 0, d), was.getImage((Texture::CubeFace)f, 0, d)), "base image");
		Image chain = was.getImage((Texture::CubeFace)f, 0, d);
		for (unsigned m = 1; m < max; m++)
		{
			chain = chain.resize(t.width(m), t.height(m), filter);
			Image show = chain;
			if (d == cd && f == cf && m < 4 && mode[m])
			{
				show = shown(store[m], t.width(m), t.height(m), filter, cs);
				if (mode[m] == 2) chain = show;
			}
			sym_assert(nearImg(t.getImage((Texture::CubeFace)f, m, d), show), "pixels of a mip image");
		}
	}
	sym_cover("done");
}
// Custom images of any format and colour space, of the level's own size: as precise as their own pixels.
SYM_ENTRY c07_custom()
{
	auto fmt = (IF)sym_param("f", 3);
	bool srgb = sym_pick("srgb", 0, 1) != 0, isrgb = sym_pick("imageSrgb", 0, 1) != 0;
	unsigned depth = (unsigned)sym_param("depth", 0);
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear, ics = isrgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Texture t(depth ? Texture::Dimension::Dim3D : Texture::Dimension::Dim2D, 4, 6, depth, 1, cs);
	for (unsigned z = 0; z < t.depth(0); z++) t.setImage(constant(4, 6, cs, 0.5f, 0.25f, 1, 1), 0, z);
	unsigned n = depth ? depth/2 : 1;
	Texture::CustomMipImages custom;
	std::vector<Image> src(n);
	for (unsigned z = 0; z < n; z++)
	{
		src[z].initialize(fmt, 2, 3, ics);
		for (unsigned y = 0; y < 3; y++) for (unsigned x = 0; x < 2; x++)
		{
			double k = (x + y*2 + z*6 + 1)/24.0;
			src[z].setPixel(x, y, ColorRGBAd(k, k*0.5, 1 - k, 0.125 + k/2), false);
		}
		custom.emplace(Texture::ImageIndex(1, z), Texture::CustomMipImage(src[z], sym_pick("once", 0, 1) ? MR::Once : MR::Continue));
		if (z && fmt != IF::RGBAF) break;
	}
	bool ok = custom.size() == n;
	if (n > 1) { int a = -1; for (auto& c : custom) { int r = c.second.replacement == MR::Once; if (a >= 0 && a != r) ok = false; a = r; } }
	sym_assert(t.generateMipmaps(Image::ResizeFilter::Box, 2, custom) == ok, "generateMipmaps");
	if (!ok) { sym_cover("refused"); return; }
	for (unsigned z = 0; z < n; z++)
	{
		const Image& i = t.getImage(1, z);
		sym_assert(i.isValid() && i.width() == 2 && i.height() == 3 && i.format() == IF::RGBAF && i.colorSpace() == cs, "kind of a custom level");
		for (unsigned y = 0; y < 3; y++) for (unsigned x = 0; x < 2; x++)
		{
			ColorRGBAd c{};
			sym_assert(src[z].getPixel(c, x, y), "pixel");
			double v[4] = {c.r, c.g, c.b, c.a};
			for (int k = 0; k < 4; k++)
			{
				if (k < 3 && srgb != isrgb) v[k] = srgb ? linearToSRGB(v[k]) : sRGBToLinear(v[k]);
				double e = rgbaf(const_cast<Image&>(i), x, y)[k] - v[k];
				// Linear values far outside [0, 1] lose nothing that matters.
				double tol = 2e-5*(1 + (v[k] < 0 ? -v[k] : v[k]));
				sym_assert(e <= tol && e >= -tol, "pixel of a custom level");
			}
		}
	}
	sym_cover("done");
}
// Custom images of any format, colour space and size with any filter, of one colour: the level has that colour.
SYM_ENTRY c07_custom_resized()
{
	auto fmt = (IF)sym_param("f", 3);
	bool ints = fmt >= IF::Int16 && fmt <= IF::UInt32;
	bool srgb = sym_pick("srgb", 0, 1) != 0, isrgb = sym_pick("imageSrgb", 0, 1) != 0, once = sym_pick("once", 0, 1) != 0;
	unsigned depth = (unsigned)sym_param("depth", 0);
	auto filter = (Image::ResizeFilter)sym_pick("filter", 0, 4);
	static const unsigned sizes[3][2] = {{5, 4}, {1, 1}, {2, 1}};
	unsigned s = (unsigned)sym_pick("size", 0, 2);
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear, ics = isrgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Texture t(depth ? Texture::Dimension::Dim3D : Texture::Dimension::Dim2D, 4, 6, depth, 1, cs);
	for (unsigned z = 0; z < t.depth(0); z++) t.setImage(constant(4, 6, cs, 0.5f, 0.25f, 1, 1), 0, z);
	// The colours that aren't converted between colour spaces are arbitrary within a range.
	int code = srgb || isrgb ? 204 : (int)sym_range("code", 200, 215);
	double v = ints ? srgb || isrgb ? 1.0 : (double)code : code/255.0;
	Image src(fmt, sizes[s][0], sizes[s][1], ics);
	for (unsigned y = 0; y < src.height(); y++)
		for (unsigned x = 0; x < src.width(); x++)
			sym_assert(src.setPixel(x, y, ColorRGBAd(v, ints ? v : 0.6, ints ? v : 1.0, 0.5), false), "setPixel");
	unsigned n = depth ? depth/2 : 1;
	Texture::CustomMipImages custom;
	for (unsigned z = 0; z < n; z++)
		custom.emplace(Texture::ImageIndex(1, z), Texture::CustomMipImage(src, once ? MR::Once : MR::Continue));
	sym_assert(t.generateMipmaps(filter, 3, custom), "generateMipmaps");
	sym_assert(t.imagesComplete(), "a level has no image");
	ColorRGBAd c{};
	sym_assert(src.getPixel(c, 0, 0), "pixel");
	double w[4] = {c.r, c.g, c.b, c.a}, base[4] = {0.5, 0.25, 1, 1};
	double tol = fmt == IF::RGB5 || fmt == IF::RGB565 ? 0.04 : 0.008;
	if (srgb != isrgb)
		for (int k = 0; k < 3; k++) w[k] = srgb ? linearToSRGB(w[k]) : sRGBToLinear(w[k]);
	for (unsigned m = 1; m < 3; m++)
		for (unsigned z = 0; z < t.depth(m); z++)
		{
			const Image& i = t.getImage(m, z);
			sym_assert(i.isValid() && i.width() == t.width(m) && i.height() == t.height(m) && i.format() == IF::RGBAF && i.colorSpace() == cs, "kind of a level");
			for (unsigned y = 0; y < i.height(); y++)
				for (unsigned x = 0; x < i.width(); x++)
					for (int k = 0; k < 4; k++)
					{
						double e = rgbaf(const_cast<Image&>(i), x, y)[k] - (m == 2 && once ? base[k] : w[k]);
						sym_assert(sym_and(e <= tol, e >= -tol), "colour of a level");
					}
		}
	sym_cover("done");
}
// 3D textures: each pixel of a generated slice is an average of the resized slices at that position.
SYM_ENTRY c07_3d_images()
{
	unsigned w = (unsigned)sym_param("w", 4), h = (unsigned)sym_param("h", 3), d = (unsigned)sym_param("d", 4);
	bool srgb = sym_param("srgb", 0) != 0;
	auto filter = (Image::ResizeFilter)sym_param("filter", 0);
	ColorSpace cs = srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	Texture t(Texture::Dimension::Dim3D, w, h, d, 1, cs);
	for (unsigned z = 0; z < d; z++) sym_assert(t.setImage(varied(w, h, cs, z, !srgb && z == 0), 0, z), "setImage");
	sym_assert(t.generateMipmaps(filter), "generateMipmaps");
	for (unsigned m = 1; m < t.mipLevelCount(); m++)
	{
		unsigned pd = t.depth(m - 1), cd = t.depth(m);
		std::vector<Image> src;
		for (unsigned z = 0; z < pd; z++) src.push_back(t.getImage(m - 1, z).resize(t.width(m), t.height(m), filter));
		for (unsigned z = 0; z < cd; z++)
		{
			const Image& i = t.getImage(m, z);
			double c = (z + 0.5)*pd/cd - 0.5, r = filter == Image::ResizeFilter::Box ? 0.5*pd/cd : (double)pd/cd;
			int ok = 1;
			for (unsigned y = 0; y < t.height(m); y++) for (unsigned x = 0; x < t.width(m); x++) for (int k = 0; k < 4; k++)
			{
				float g = ((const float*)i.scanline(y))[x*4 + k];
				// Weighted by how far a slice lies from the centre.
				double sum = 0, total = 0;
				for (unsigned s = 0; s < pd; s++)
				{
					double dist = s > c ? s - c : c - s, weight = filter == Image::ResizeFilter::Box ? dist <= r + 1e-9 : dist < r ? 1 - dist/r : 0;
					if (weight <= 0) continue;
					double v = ((const float*)src[s].scanline(y))[x*4 + k];
					if (srgb && k < 3) v = sRGBToLinear(v);
					sum += v*weight; total += weight;
				}
				double e = sum/total;
				if (srgb && k < 3) e = linearToSRGB(e);
				// An uneven box may count the slices on its border or not.
				bool exact = filter != Image::ResizeFilter::Box || pd % cd == 0;
				if (exact) ok = sym_and(ok, sym_and(g - e <= kTol, e - g <= kTol));
			}
			sym_assert(ok, "pixels of a generated slice");
		}
	}
	sym_cover("done");
}
