#include "save.h"
#include "snap.h"
#include "pixel.h"
#include <ostream>
#include <istream>
#include <sstream>
#include <fstream>
#include <streambuf>
typedef Texture::SaveResult SR;
typedef Texture::FileType FT;
static std::vector<uint8_t> contents(const char* n)
{
	long s = env_file_size(n);
	std::vector<uint8_t> v(s > 0 ? s : 0);
	if (s > 0) env_file_read(n, v.data(), v.size());
	return v;
}
static int equal(const uint8_t* a, size_t n, const std::vector<uint8_t>& b)
{
	if (n != b.size()) return 0;
	int ok = 1;
	for (size_t i = 0; i < n; i++) ok = sym_and(ok, a[i] == b[i]);
	return ok;
}
static int equal(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { return equal(a.data(), a.size(), b); }
// Keeps what is written to it; data can be there before.
class KeepBuf : public std::streambuf
{
public:
	std::vector<uint8_t> got;
protected:
	int_type overflow(int_type c) override { if (c != traits_type::eof()) got.push_back((uint8_t)c); return 0; }
	std::streamsize xsputn(const char* s, std::streamsize n) override
	{
		size_t at = got.size();
		got.resize(at + (size_t)n);
		if (n) memcpy(got.data() + at, s, (size_t)n);
		return n;
	}
};
// Delivers data a number of bytes at a time and may refuse to seek.
class ChunkBuf : public std::streambuf
{
public:
	ChunkBuf(const std::vector<uint8_t>& d, size_t c, bool s) : data((const char*)d.data(), (const char*)d.data() + d.size()), chunk(c), seekable(s), at(0) { if (data.empty()) data.reserve(1); }
private:
	std::vector<char> data;
	size_t chunk;
	bool seekable;
	size_t at; // end of the part delivered so far
	int_type underflow() override
	{
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (at >= data.size()) return traits_type::eof();
		size_t n = data.size() - at < chunk ? data.size() - at : chunk;
		setg(data.data() + at, data.data() + at, data.data() + at + n);
		at += n;
		return traits_type::to_int_type(*gptr());
	}
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
	{
		if (!seekable) return pos_type(off_type(-1));
		off_type here = (off_type)at - (egptr() - gptr());
		off_type to = d == std::ios_base::beg ? o : d == std::ios_base::cur ? here + o : (off_type)data.size() + o;
		if (to < 0 || to > (off_type)data.size()) return pos_type(off_type(-1));
		at = (size_t)to;
		setg(nullptr, nullptr, nullptr);
		return pos_type(to);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
static const FT kTypes[] = {FT::DDS, FT::KTX, FT::PVR};
static const char* const kNames[3][3] = {{"t.dds", "T.DDS", "a.ktx.dds"}, {"t.ktx", "T.KTX", "a.dds.Ktx"}, {"t.pvr", "T.PVR", "a.dds.pVR"}};
// A texture saved everywhere.
SYM_ENTRY c12_texture()
{
	int ft = (int)sym_param("ft", 0), kind = (int)sym_param("kind", 1);
	Texture t;
	unsigned w = (unsigned)sym_param("w", 3), h = kind == 0 ? 1 : kind == 3 ? w : 2;
	sym_assert(makeTexture(t, kind, w, h, kind == 2 ? 2 : (unsigned)sym_pick("layers", 0, 2), (unsigned)sym_pick("levels", 1, 2), false, (TF)sym_param("f", (int)TF::R8G8B8A8), (TT)sym_param("t", 0), Texture::Alpha::Standard, w <= 8), "texture");
	Snap before = snap(t);
	static const uint8_t kHead[] = {1, 2, 3, 4, 5};
	// To a stream that is new or has something in it.
	KeepBuf b;
	size_t head = sym_pick("head", 0, 1)*5;
	std::ostream s(&b);
	s.write((const char*)kHead, (std::streamsize)head);
	sym_assert(t.save(s, kTypes[ft]) == SR::Success, "stream");
	sym_assert(s.good(), "stream state");
	sym_assert(b.got.size() > head && memcmp(b.got.data(), kHead, head) == 0, "what was there stays");
	const uint8_t* d = b.got.data() + head;
	size_t n = b.got.size() - head;
	// To memory that is new or has something in it.
	std::vector<uint8_t> mem;
	uint64_t used = sym_pick("used", 0, 2);
	if (used) mem.resize(used == 1 ? 7 : n + 100, 0xAA);
	sym_assert(t.save(mem, kTypes[ft]) == SR::Success, "memory");
	sym_assert(equal(d, n, mem), "memory as stream");
	// To a file that is new or has something in it.
	const char* name = kNames[ft][sym_pick("name", 0, 2)];
	std::vector<uint8_t> old(n + 50, 0x55);
	if (sym_pick("exists", 0, 1)) env_file(name, old.data(), old.size());
	sym_assert(t.save(name, sym_pick("auto", 0, 1) ? FT::Auto : kTypes[ft]) == SR::Success, "file");
	sym_assert(equal(d, n, contents(name)), "file as stream");
	// The type given counts, not the name.
	sym_assert(t.save("x.bin", kTypes[ft]) == SR::Success, "other name");
	sym_assert(equal(d, n, contents("x.bin")), "same under any name");
	sym_assert(same(snap(t), before), "texture unchanged");
	// Copies save the same.
	Texture c(t);
	std::vector<uint8_t> mem2;
	sym_assert(c.save(mem2, kTypes[ft]) == SR::Success, "copy");
	sym_assert(equal(mem2, mem), "copy saves the same");
	sym_observe("n", n);
	for (size_t i = 0; i < n && i < 16; i++) sym_observe("b", d[i]);
	sym_cover("done");
}
// An image written and read back through everything.
SYM_ENTRY c12_image()
{
	bool alpha = sym_param("alpha", 0) != 0;
	unsigned w = (unsigned)sym_param("w", 3), h = (unsigned)sym_param("h", 2);
	bool few = sym_param("few", 0) != 0; // Only what reads the image differs.
	auto cs = !few && sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i(alpha ? IF::RGBA8 : IF::RGB8, w, h, cs);
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w*i.bitsPerPixel()/8; x++)
		((uint8_t*)i.scanline(y))[x] = y == h - 1 && x < 8 ? (uint8_t)sym_bits("raw", 8) : (uint8_t)(x*7 + y*31);
	Snap before = snap(i);
	KeepBuf b;
	static const uint8_t kHead[] = {1, 2, 3, 4, 5};
	size_t head = (few ? 1 : sym_pick("head", 0, 1))*5;
	std::ostream s(&b);
	s.write((const char*)kHead, (std::streamsize)head);
	sym_assert(i.save(s, "any.bmp"), "stream");
	sym_assert(b.got.size() > head && memcmp(b.got.data(), kHead, head) == 0, "what was there stays");
	std::vector<uint8_t> d(b.got.begin() + head, b.got.end()), mem;
	if ((few ? 1 : sym_pick("used", 0, 1))) mem.resize(d.size() + 50, 0xAA);
	sym_assert(i.save(mem, "ANY.BMP"), "memory");
	sym_assert(equal(d, mem), "memory as stream");
	if ((few ? 1 : sym_pick("exists", 0, 1))) { std::vector<uint8_t> old(d.size() + 50, 0x55); env_file("i.bmp", old.data(), old.size()); }
	sym_assert(i.save("i.bmp"), "file");
	sym_assert(equal(d, contents("i.bmp")), "file as stream");
	sym_assert(same(snap(i), before), "image unchanged");
	auto cs2 = (few ? 1 : sym_pick("srgb2", 0, 1)) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image want(i);
	if (cs2 != cs) { want.initialize(i.format(), w, h, cs2); for (unsigned y = 0; y < h; y++) memcpy(want.scanline(y), i.scanline(y), w*i.bitsPerPixel()/8); }
	Snap e = snap(want);
	Image r(IF::Gray8, 1, 1);
	if ((few ? 1 : sym_pick("fresh", 0, 1))) r.reset();
	bool ok;
	switch (sym_pick("from", 0, 5))
	{
		case 0: ok = r.load("i.bmp", cs2); break;
		case 1: ok = r.load(mem.data(), mem.size(), cs2); break;
		case 2: { std::ifstream f("i.bmp", std::ios_base::binary); ok = r.load(f, cs2); break; }
		case 3: { std::stringstream f(std::ios_base::in | std::ios_base::out | std::ios_base::binary); f.write((const char*)mem.data(), mem.size()); ok = r.load(f, cs2); break; }
		case 4:
		{
			// In pieces, seekable, after other data.
			std::vector<uint8_t> all(kHead, kHead + 5);
			all.insert(all.end(), mem.begin(), mem.end());
			ChunkBuf c(all, sym_pick("chunk", 1, 7)*(w > 8 ? 37 : 1), true);
			std::istream f(&c);
			f.seekg(5, std::ios_base::beg);
			ok = r.load(f, cs2);
			sym_cover("pieces");
			break;
		}
		default:
		{
			ChunkBuf c(mem, sym_pick("chunk2", 1, 7)*(w > 8 ? 37 : 1), false);
			std::istream f(&c);
			ok = r.load(f, cs2);
			sym_cover("not seekable");
			break;
		}
	}
	sym_assert(ok, "loaded");
	sym_assert(same(snap(r), e), "the same image");
	sym_cover("done");
}
// What is not an image, or not there, is refused by every interface and leaves no image.
SYM_ENTRY c12_refused()
{
	std::vector<uint8_t> bad(sym_pick("n", 0, 1)*40);
	for (size_t k = 0; k < bad.size(); k++) bad[k] = (uint8_t)('a' + k%5);
	if (!bad.empty()) { uint8_t x = (uint8_t)sym_bits("x", 8); sym_assume(sym_and(x >= 'a', x <= 'z')); bad[9] = x; }
	Image r(IF::Gray8, 1, 1);
	if (sym_pick("fresh", 0, 1)) r.reset();
	env_file("bad.bmp", bad.data(), bad.size());
	bool ok;
	switch (sym_pick("from", 0, 5))
	{
		case 0: ok = r.load("bad.bmp"); break;
		case 1: ok = r.load(bad.data(), bad.size()); break;
		case 2: { ChunkBuf c(bad, 3, true); std::istream f(&c); ok = r.load(f); break; }
		case 3: { ChunkBuf c(bad, 3, false); std::istream f(&c); ok = r.load(f); break; }
		case 4: ok = r.load("missing.bmp"); break;
		default: { std::ifstream f("missing.bmp", std::ios_base::binary); ok = r.load(f); break; }
	}
	sym_assert(!ok && !r.isValid() && !r && r.width() == 0, "refused");
	sym_cover("done");
}
// Reads d through one of the interfaces; name is a file with the same contents.
static bool read(Image& r, const std::vector<uint8_t>& d, const char* name, uint64_t how, ColorSpace cs)
{
	switch (how)
	{
		case 0: return r.load(name, cs);
		case 1: return r.load(d.data(), d.size(), cs);
		case 2: { std::ifstream f(name, std::ios_base::binary); return r.load(f, cs); }
		case 3: case 4:
		{
			ChunkBuf c(d, how == 3 ? 5 : 11, how == 3);
			std::istream f(&c);
			return r.load(f, cs);
		}
		default: // The image follows something else.
		{
			std::vector<uint8_t> more(13, (uint8_t)'z');
			more.insert(more.end(), d.begin(), d.end());
			ChunkBuf c(more, 7, how == 5);
			std::istream f(&c);
			char skip[13];
			if (how == 5) f.seekg(13); else f.read(skip, 13);
			return r.load(f, cs);
		}
	}
}
// Every format through every codec that keeps it.
SYM_ENTRY c12_codec()
{
	int f = (int)sym_param("f", 5), codec = (int)sym_param("codec", 0);
	static const char* const kNames[3] = {"i.bmp", "i.png", "i.tif"};
	unsigned w = (unsigned)sym_param("w", 3), h = 2;
	auto cs = sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear, cs2 = sym_pick("srgb2", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i((IF)f, w, h, cs);
	unsigned n = w*i.bitsPerPixel()/8, sym = i.bitsPerPixel()/8;
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < n; x++)
		((uint8_t*)i.scanline(y))[x] = y == h - 1 && x < sym && x < 8 ? (uint8_t)sym_bits("raw", 8) : (uint8_t)(x*7 + y*31 + 1);
	Snap before = snap(i);
	sym_assert(i.save(kNames[codec]), "file");
	std::vector<uint8_t> d = contents(kNames[codec]), mem(sym_pick("used", 0, 1)*9, 0xAA);
	sym_assert(i.save(mem, kNames[codec]), "memory");
	KeepBuf b;
	std::ostream s(&b);
	sym_assert(i.save(s, kNames[codec]) && s.good(), "stream");
	// What is in the gaps a TIFF has is not defined.
	sym_assert(mem.size() == d.size() && b.got.size() == d.size(), "size");
	if (codec < 2) sym_assert(sym_and(equal(d, mem), equal(d, b.got)), "same bytes");
	sym_assert(same(snap(i), before), "image unchanged");
	Image want;
	sym_assert(want.initialize(f == (int)IF::UInt16 ? IF::Gray16 : (IF)f, w, h, cs2), "expected image");
	for (unsigned y = 0; y < h; y++) memcpy(want.scanline(y), i.scanline(y), n);
	Image r;
	uint64_t which = sym_pick("which", 0, 2), how = sym_pick("how", 0, 6);
	if (which == 1) env_file("j.bin", mem.data(), mem.size());
	if (which == 2) env_file("j.bin", b.got.data(), b.got.size());
	sym_assert(read(r, which == 0 ? d : which == 1 ? mem : b.got, which ? "j.bin" : kNames[codec], how, cs2), "loaded");
	sym_assert(same(snap(r), snap(want)), "the same image");
	sym_cover("done");
}
// Bitmaps as other programs write them: with palettes of any kind, any depth, top row first, unused space before the pixels.
struct Head { uint8_t b[54]; };
static void put(std::vector<uint8_t>& d, size_t at, uint32_t v, int n) { for (int k = 0; k < n; k++) d[at + k] = (uint8_t)(v >> 8*k); }
static std::vector<uint8_t> bitmap(unsigned bpp, int w, int h, unsigned masks, size_t gap, uint32_t used, size_t colors, size_t pitch)
{
	unsigned rows = (unsigned)(h < 0 ? -h : h);
	size_t offset = 54 + colors*4 + (masks ? 12 : 0) + gap;
	std::vector<uint8_t> d(offset + pitch*rows);
	d[0] = 'B'; d[1] = 'M';
	put(d, 2, (uint32_t)d.size(), 4); put(d, 10, (uint32_t)offset, 4); put(d, 14, 40, 4); put(d, 18, (uint32_t)w, 4); put(d, 22, (uint32_t)h, 4);
	put(d, 26, 1, 2); put(d, 28, bpp, 2); put(d, 30, masks ? 3 : 0, 4); put(d, 34, (uint32_t)(pitch*rows), 4); put(d, 46, used, 4);
	if (masks == 1) { put(d, 54, 0xF800, 4); put(d, 58, 0x07E0, 4); put(d, 62, 0x001F, 4); }
	if (masks == 2) { put(d, 54, 0x7C00, 4); put(d, 58, 0x03E0, 4); put(d, 62, 0x001F, 4); }
	return d;
}
SYM_ENTRY c12_bitmap()
{
	unsigned bpp = (unsigned)sym_param("bpp", 8), w = (unsigned)sym_param("w", 3);
	int kind = (int)sym_param("kind", 0); // of palette or masks
	bool down = sym_pick("down", 0, 1) != 0;
	unsigned h = 2;
	size_t pitch = (w*bpp + 31)/32*4, colors = bpp <= 8 ? size_t(1) << bpp : 0, gap = sym_pick("gap", 0, 1)*6;
	unsigned masks = bpp == 16 ? (unsigned)kind : 0;
	bool some = bpp == 8 && kind == 5; // Fewer colors than there could be.
	std::vector<uint8_t> d = bitmap(bpp, (int)w, down ? -(int)h : (int)h, masks, gap, some ? 5 : sym_pick("used", 0, 1) ? (uint32_t)colors : 0, some ? 5 : colors, pitch);
	size_t at = d.size() - pitch*h;
	uint32_t pal[256];
	for (unsigned k = 0; k < colors; k++)
	{
		switch (kind)
		{
			case 0: case 6: pal[k] = k*0x10101; break; // linear
			case 1: pal[k] = (uint32_t)(colors - 1 - k)*0x10101; break; // inverted
			case 2: pal[k] = (uint32_t)(k*255/(colors - 1))*0x10101; break; // the whole range
			case 3: pal[k] = (uint32_t)(255 - k*255/(colors - 1))*0x10101; break;
			default: pal[k] = (k*37 & 255) << 16 | (255 - k) << 8 | 7; break;
		}
		if (kind >= 4 && k == 1) pal[k] = (uint32_t)sym_bits("color", 24);
		if (k < (some ? 5 : colors)) put(d, 54 + 4*k, pal[k], 4);
	}
	unsigned idx[2][64];
	for (unsigned y = 0; y < h; y++)
	{
		uint8_t* row = &d[at + (down ? y : h - 1 - y)*pitch];
		for (unsigned x = 0; x < w; x++)
		{
			unsigned v = (unsigned)((x*5 + y*3 + 1) % (colors ? colors : 256));
			if (some) v %= 5;
			if (colors && y == 1 && x == w - 1) v = (unsigned)sym_pick("index", 0, (some ? 5 : colors < 8 ? colors : 8) - 1);
			idx[y][x] = v;
			if (bpp == 8) row[x] = (uint8_t)v;
			else if (bpp == 4) row[x/2] |= (uint8_t)(v << (x % 2 ? 0 : 4));
			else if (bpp == 1) row[x/8] |= (uint8_t)(v << (7 - x % 8));
			else for (unsigned k = 0; k < bpp/8; k++) row[x*bpp/8 + k] = y == 1 && x == w - 1 ? (uint8_t)sym_bits("raw", 8) : (uint8_t)(v*(k + 1));
		}
	}
	env_file("b.bmp", d.data(), d.size());
	auto cs = sym_pick("srgb", 0, 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image r;
	sym_assert(read(r, d, "b.bmp", sym_pick("how", 0, 6), cs), "loaded");
	sym_assert(r.width() == w && r.height() == h && r.colorSpace() == cs, "size and color space");
	IF f = r.format();
	if (!colors) sym_assert(f == (bpp == 16 ? (masks == 1 ? IF::RGB565 : IF::RGB5) : bpp == 24 ? IF::RGB8 : IF::RGBA8), "format");
	else sym_assert(f == IF::Gray8 || f == IF::RGB8, "format of a palette");
	for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++)
	{
		const uint8_t* p = (const uint8_t*)r.scanline(y) + x*r.bitsPerPixel()/8;
		if (!colors)
		{
			sym_assert(memcmp(p, &d[at + (down ? y : h - 1 - y)*pitch + x*bpp/8], bpp/8) == 0, "pixel");
			continue;
		}
		uint32_t c = pal[idx[y][x]];
		int ok = f == IF::Gray8 ? sym_and(p[0] == (uint8_t)(c >> 16), sym_and(p[0] == (uint8_t)(c >> 8), p[0] == (uint8_t)c)) :
			sym_and(p[0] == (uint8_t)c, sym_and(p[1] == (uint8_t)(c >> 8), p[2] == (uint8_t)(c >> 16)));
		sym_assert(ok, "color");
	}
	sym_observe("f", (uint64_t)f);
	sym_cover("done");
}
// A file that ends early is the same image, or none, through every interface.
SYM_ENTRY c12_cut()
{
	unsigned bpp = (unsigned)sym_param("bpp", 24);
	size_t pitch = (3*bpp + 31)/32*4;
	std::vector<uint8_t> d = bitmap(bpp, 3, sym_pick("down", 0, 1) ? -2 : 2, 0, 0, 0, bpp <= 8 ? size_t(1) << bpp : 0, pitch);
	size_t at = d.size() - 2*pitch;
	for (size_t k = 54; k < d.size(); k++) d[k] = k < at ? (uint8_t)(k*3) : (uint8_t)sym_bits("raw", 8);
	size_t n = sym_pick("n", 0, 12);
	n = n < 4 ? n*17 : at - 1 + (n - 4)*(2*pitch + 1)/8;
	d.resize(n);
	env_file("b.bmp", d.data(), d.size());
	Image a, b;
	bool first = read(a, d, "b.bmp", 0, ColorSpace::Linear), second = read(b, d, "b.bmp", sym_pick("how", 1, 6), ColorSpace::Linear);
	sym_assert(first == second, "same result");
	sym_assert(first == a.isValid() && second == b.isValid(), "image if loaded");
	if (first) { sym_assert(same(snap(a), snap(b)), "same image"); sym_cover("loaded"); } else sym_cover("refused");
}
