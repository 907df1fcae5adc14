// What the program did before: with param history=1 this runs ahead of the entry, so that the entry is decided for a
// library that was already used with other sizes, formats, values and files.
#include "save.h"
#include "snap.h"
#include "pixel.h"
#include <sstream>
typedef Texture::FileType FT;
static Image picture(IF f, unsigned w, unsigned h, ColorSpace cs, unsigned seed)
{
	Image i(f, w, h, cs);
	for (unsigned y = 0; y < h; y++)
		for (unsigned x = 0; x < w; x++)
		{
			double v = ((x*5 + y*3 + seed) % 11)/10.0, k = f >= IF::Int16 && f <= IF::UInt32 ? 100 : 1;
			i.setPixel(x, y, ColorRGBAd{v*k, (1 - v)*k, (v/2 + 0.125)*k, 0.25 + v/2});
		}
	return i;
}
static void images()
{
	static const Image::ResizeFilter kFilter[] = {Image::ResizeFilter::Linear, Image::ResizeFilter::Box, Image::ResizeFilter::CatmullRom, Image::ResizeFilter::BSpline, Image::ResizeFilter::Cubic};
	static const IF kOther[] = {IF::RGBA16, IF::Gray8, IF::RGB565, IF::RGBAF, IF::UInt16};
	for (unsigned f = 1; f <= 17; f++)
	{
		auto cs = f & 1 ? ColorSpace::sRGB : ColorSpace::Linear;
		Image a = picture((IF)f, 3 + f % 2, 2, cs, f), b(a);
		ColorRGBAd c;
		a.getPixel(c, 1, 1);
		a.getPixel(c, 10, 10);
		b.setPixel(1, 0, c, f % 3 != 0);
		Image d = a.convert(kOther[f % 5], f % 2 != 0);
		d = a.resize(2, 3, kFilter[f % 2]);
		d = a.resize(6, 1, kFilter[f % 5]);
		d = a.rotate((Image::RotateAngle)(f % 3));
		b.flipHorizontal();
		b.flipVertical();
		b.swizzle(Image::Channel::Blue, Image::Channel::None, Image::Channel::Red, Image::Channel::Green);
		b.preMultiplyAlpha();
		b.changeColorSpace(f & 1 ? ColorSpace::Linear : ColorSpace::sRGB);
		b.grayscale();
		d = a.createNormalMap(f & 1 ? Image::NormalOptions::WrapX : Image::NormalOptions::KeepSign, 0.75 + f);
		c.r = a.redMask() + a.greenMask() + a.blueMask() + a.alphaMask() + a.redShift() + a.greenShift() + a.blueShift() + a.alphaShift() + a.bitsPerPixel();
		Image r = picture(IF::RGBAF, 2, 1, cs, f);
		static const TT kType[] = {TT::Int, TT::SNorm, TT::UInt};
		Texture::adjustImageValueRange(r, kType[f % 3], (IF)f);
	}
	const unsigned char junk[] = {'n', 'o', 't', 'h', 'i', 'n', 'g'};
	Image a = picture(IF::RGB8, 5, 3, ColorSpace::Linear, 2), b;
	b.load(junk, sizeof(junk));
	b.load("no such file");
	std::vector<uint8_t> mem;
	a.save(mem, "x.bmp");
	a.save("history.bmp");
	b.load("history.bmp", ColorSpace::sRGB);
	b.load(mem.data(), mem.size());
	std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
	s.write("abc", 3);
	a.save(s, "y.bmp");
	s.seekg(3, std::ios_base::beg);
	b.load(s, ColorSpace::Linear);
}
static void texture(Texture& t, Texture::Dimension dim, unsigned w, unsigned h, unsigned depth, unsigned levels, ColorSpace cs, Image::ResizeFilter filter)
{
	t.initialize(dim, w, h, depth, 1, cs);
	for (unsigned z = 0; z < (depth ? depth : 1); z++)
		for (unsigned f = 0; f < t.faceCount(); f++)
			t.setImage(picture(IF::RGBAF, w, h, cs, z*6 + f), (Texture::CubeFace)f, 0, z);
	Texture::CustomMipImages custom;
	if (dim != Texture::Dimension::Dim3D)
		custom.emplace(Texture::ImageIndex(1, 0), Texture::CustomMipImage(picture(IF::RGB8, 2, 1, cs, 3), Texture::MipReplacement::Continue));
	t.generateMipmaps(filter, levels, custom);
}
static void save(Texture& t, const char* name)
{
	for (FT k : {FT::PVR, FT::KTX, FT::DDS})
	{
		std::vector<uint8_t> v;
		t.save(v, k);
		std::ostringstream s;
		t.save(s, k);
	}
	t.save(name);
}
static void textures()
{
	Texture::fileType("h.pvr");
	Texture::fileType("history.KTX");
	Texture::maxMipmapLevels(Texture::Dimension::Dim3D, 9, 3, 5);
	Texture t;
	texture(t, Texture::Dimension::Dim2D, 7, 3, 2, 2, ColorSpace::sRGB, Image::ResizeFilter::CatmullRom);
	Texture copy(t);
	t.convert(TF::R8G8B8A8, TT::UNorm, Texture::Quality::Normal, Texture::Alpha::PreMultiplied, Texture::ColorMask(), 1);
	save(t, "history.ktx");
	copy.convert(TF::R16G16, TT::Float, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
	texture(t, Texture::Dimension::Cube, 3, 3, 0, 2, ColorSpace::Linear, Image::ResizeFilter::Box);
	t.convert(TF::R5G6B5, TT::UNorm, Texture::Quality::Normal, Texture::Alpha::None, Texture::ColorMask(), 1);
	save(t, "history.dds");
	texture(t, Texture::Dimension::Dim3D, 3, 5, 3, 3, ColorSpace::Linear, Image::ResizeFilter::Linear);
	t.convert(TF::R32G32B32, TT::Float, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
	save(t, "history.pvr");
	texture(t, Texture::Dimension::Dim1D, 6, 1, 2, 2, ColorSpace::Linear, Image::ResizeFilter::Cubic);
	t.convert(TF::R8, TT::SNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
	save(t, "history");
	for (const auto& f : kFormats)
		for (int ty = 0; ty < 6; ty++)
		{
			Texture::hasNativeSRGB(f.format, (TT)ty);
			if (!Texture::isFormatValid(f.format, (TT)ty)) continue;
			Texture c(Texture::Dimension::Dim2D, 3, 1);
			c.setImage(picture(IF::RGBAF, 3, 1, ColorSpace::Linear, (unsigned)ty));
			c.convert(f.format, (TT)ty, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
		}
}
extern "C" __attribute__((used)) void sym_history()
{
	if (!sym_param("history", 0)) return;
	images();
	textures();
}
