// Everything that can be observed of an image or a texture, as bytes.
#pragma once
#include "common.h"
struct Snap
{
	std::vector<uint8_t> v;
	void add(const void* p, size_t n) { size_t at = v.size(); v.resize(at + n); if (n) memcpy(v.data() + at, p, n); }
	void u(uint32_t x) { add(&x, 4); }
};
static inline void snapImage(Snap& s, const Image& i)
{
	s.u(i.isValid() && (bool)i); s.u((uint32_t)i.format()); s.u((uint32_t)i.colorSpace()); s.u(i.width()); s.u(i.height()); s.u(i.bitsPerPixel());
	s.u(i.redMask()); s.u(i.greenMask()); s.u(i.blueMask()); s.u(i.alphaMask()); s.u(i.redShift()); s.u(i.greenShift()); s.u(i.blueShift()); s.u(i.alphaShift());
	for (unsigned y = 0; y < i.height(); y++) s.add(i.scanline(y), (i.width()*i.bitsPerPixel() + 7)/8);
}
static inline Snap snap(const Image& i) { Snap s; snapImage(s, i); return s; }
static inline Snap snap(const Texture& t)
{
	Snap s;
	s.u(t.isValid() && (bool)t); s.u((uint32_t)t.dimension()); s.u((uint32_t)t.colorSpace()); s.u(t.isArray()); s.u(t.mipLevelCount()); s.u(t.faceCount());
	s.u(t.imagesComplete()); s.u(t.converted()); s.u((uint32_t)t.format()); s.u((uint32_t)t.type()); s.u((uint32_t)t.alphaType());
	auto m = t.colorMask(); s.u(m.r | m.g << 1 | m.b << 2 | m.a << 3);
	for (unsigned l = 0; l < t.mipLevelCount(); l++)
	{
		s.u(t.width(l)); s.u(t.height(l)); s.u(t.depth(l));
		for (unsigned d = 0; d < t.depth(l); d++) for (unsigned f = 0; f < t.faceCount(); f++)
		{
			auto F = (Texture::CubeFace)f;
			snapImage(s, t.getImage(F, l, d));
			s.u((uint32_t)t.dataSize(F, l, d));
			s.add(t.data(F, l, d), t.dataSize(F, l, d));
		}
	}
	return s;
}
static inline int same(const Snap& a, const Snap& b)
{
	if (a.v.size() != b.v.size()) return 0;
	int ok = 1;
	for (size_t i = 0; i < a.v.size(); i++) ok = sym_and(ok, a.v[i] == b.v[i]);
	return ok;
}
