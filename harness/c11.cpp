#include "save.h"
#include "snap.h"
#include <ostream>
#include <streambuf>
typedef Texture::SaveResult SR;
typedef Texture::FileType FT;
// A destination that accepts a number of bytes and then refuses everything.
class LimitBuf : public std::streambuf
{
public:
	explicit LimitBuf(size_t n) : limit(n) {}
	std::vector<uint8_t> got;
	size_t limit;
	bool full = false;
protected:
	int_type overflow(int_type c) override
	{
		char b = (char)c;
		if (c == traits_type::eof()) return 0;
		return xsputn(&b, 1) == 1 ? c : traits_type::eof();
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override
	{
		if (full) return 0;
		if (got.size() + (size_t)n > limit) { full = true; return (std::streamsize)(limit - got.size()); }
		size_t at = got.size();
		got.resize(at + (size_t)n);
		if (n) memcpy(got.data() + at, s, (size_t)n);
		return n;
	}
};
static const FT kTypes[] = {FT::DDS, FT::KTX, FT::PVR};
static const char* const kNames[] = {"t.dds", "t.ktx", "t.pvr"};
static std::vector<uint8_t> contents(const char* n)
{
	long s = env_file_size(n);
	std::vector<uint8_t> v(s > 0 ? s : 0);
	if (s > 0) env_file_read(n, v.data(), v.size());
	return v;
}
static int equal(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b)
{
	if (a.size() != b.size()) return 0;
	int ok = 1;
	for (size_t i = 0; i < a.size(); i++) ok = sym_and(ok, a[i] == b[i]);
	return ok;
}
static void pickTexture(Texture& t)
{
	int kind = (int)sym_param("kind", 1);
	unsigned w = (unsigned)sym_param("w", 2), h = kind == 0 ? 1 : kind == 3 ? w : (unsigned)sym_param("h", 2);
	sym_assert(makeTexture(t, kind, w, h, (unsigned)sym_param("layers", kind == 2 ? 2 : 0), (unsigned)sym_param("levels", 2), false, (TF)sym_param("f", (int)TF::R8G8B8A8), TT::UNorm, Texture::Alpha::Standard, w <= 8), "texture");
}
// The first byte that cannot be written.
static long pickLimit(size_t size) { return (long)sym_range("limit", 0, size + 1); }
SYM_ENTRY c11_texture_file()
{
	int ft = (int)sym_param("ft", 0);
	Texture t; pickTexture(t);
	std::vector<uint8_t> whole;
	sym_assert(t.save(whole, kTypes[ft]) == SR::Success && !whole.empty(), "saved to memory");
	long limit = pickLimit(whole.size());
	env_write_limit(limit);
	SR r = t.save(kNames[ft], sym_pick("auto", 0, 1) ? FT::Auto : kTypes[ft]);
	env_write_limit(-1);
	if (r == SR::Success)
	{
		sym_assert(limit >= (long)whole.size(), "success although a write failed");
		sym_assert(equal(contents(kNames[ft]), whole), "whole file written");
		sym_cover("ok");
	}
	else { sym_assert(r == SR::WriteError, "write error reported"); sym_assert(limit < (long)whole.size(), "error although everything was written"); sym_cover("failed"); }
	sym_observe("r", (uint64_t)r);
}
SYM_ENTRY c11_texture_stream()
{
	int ft = (int)sym_param("ft", 0);
	Texture t; pickTexture(t);
	std::vector<uint8_t> whole;
	sym_assert(t.save(whole, kTypes[ft]) == SR::Success && !whole.empty(), "saved to memory");
	long limit = pickLimit(whole.size());
	LimitBuf b((size_t)limit);
	std::ostream s(&b);
	SR r = t.save(s, kTypes[ft]);
	if (r == SR::Success)
	{
		sym_assert(limit >= (long)whole.size(), "success although a write failed");
		sym_assert(s.good(), "stream state");
		sym_assert(equal(b.got, whole), "everything written");
		sym_cover("ok");
	}
	else { sym_assert(r == SR::WriteError, "write error reported"); sym_assert(limit < (long)whole.size(), "error although everything was written"); sym_cover("failed"); }
	sym_observe("r", (uint64_t)r);
}
static void pickImage(Image& i)
{
	IF f = sym_pick("alpha", 0, 1) ? IF::RGBA8 : IF::RGB8;
	i.initialize(f, (unsigned)sym_param("w", 3), (unsigned)sym_param("h", 2), ColorSpace::Linear);
	for (unsigned y = 0; y < i.height(); y++) for (unsigned x = 0; x < i.width()*i.bitsPerPixel()/8; x++) ((uint8_t*)i.scanline(y))[x] = (uint8_t)(x*7 + y*31);
	((uint8_t*)i.scanline(0))[1] = (uint8_t)sym_bits("raw", 8);
}
SYM_ENTRY c11_image_file()
{
	Image i; pickImage(i);
	sym_assert(i.save("whole.bmp"), "saved");
	std::vector<uint8_t> whole = contents("whole.bmp");
	long limit = pickLimit(whole.size());
	sym_assert(whole.size() >= 54 + i.width()*i.height()*3, "file written");
	env_write_limit(limit);
	bool r = i.save("part.bmp");
	env_write_limit(-1);
	if (r) sym_assert(limit >= (long)whole.size(), "success although a write failed");
	else sym_assert(limit < (long)whole.size(), "error although everything was written");
	if (r) { sym_assert(equal(contents("part.bmp"), whole), "whole file written"); sym_cover("ok"); }
	else sym_cover("failed");
	sym_observe("r", r);
}
SYM_ENTRY c11_image_stream()
{
	Image i; pickImage(i);
	std::vector<uint8_t> whole;
	sym_assert(i.save(whole, "x.bmp"), "saved");
	sym_assert(whole.size() >= 54 + i.width()*i.height()*3, "image written");
	long limit = pickLimit(whole.size());
	LimitBuf b((size_t)limit);
	std::ostream s(&b);
	bool r = i.save(s, "x.bmp");
	if (r) sym_assert(limit >= (long)whole.size(), "success although a write failed");
	else sym_assert(limit < (long)whole.size(), "error although everything was written");
	if (r) { sym_assert(equal(b.got, whole), "everything written"); sym_cover("ok"); }
	else sym_cover("failed");
	sym_observe("r", r);
}
// Destinations and requests that cannot be served.
SYM_ENTRY c11_refused()
{
	static const char* const bad[] = {"missing/t.dds", "dir", "", "dir/"};
	env_dir("dir");
	Texture t;
	uint64_t state = sym_pick("state", 0, 3);
	if (state) t.initialize(Texture::Dimension::Dim2D, 2, 2, 0, 1);
	if (state >= 2) { Image i(IF::RGBAF, 2, 2); sym_assert(t.setImage(i), "set"); }
	if (state == 3) sym_assert(t.convert(TF::R8G8, TT::UNorm), "convert");
	auto type = (FT)sym_pick("type", 0, 3);
	LimitBuf b(100000);
	std::ostream s(&b);
	std::vector<uint8_t> mem;
	switch (sym_pick("how", 0, 6))
	{
		case 0:
		{
			SR r = t.save(bad[sym_pick("path", 0, 3)], type == FT::Auto ? FT::DDS : type);
			sym_assert(r == (state == 3 ? SR::WriteError : SR::Invalid), "cannot be opened");
			sym_cover("unwritable");
			break;
		}
		case 1:
			if (state == 3) sym_assert(t.save((const char*)nullptr, type) != SR::Success, "no name");
			else
			{
				sym_assert(t.save("t.ktx", type) == SR::Invalid, "nothing to save");
				sym_assert(env_file_size("t.ktx") < 0, "nothing written");
				sym_cover("invalid");
			}
			break;
		case 2:
		{
			static const char* const names[] = {"t.png", "dds", "t", "t.ktx2"};
			SR r = t.save(names[sym_pick("name", 0, 3)], FT::Auto);
			sym_assert(r == (state == 3 ? SR::UnknownFormat : SR::Invalid), "unknown type");
			if (state == 3) sym_cover("unknown");
			break;
		}
		case 3:
		{
			SR r = t.save(s, type);
			SR e = state != 3 ? SR::Invalid : type == FT::Auto ? SR::UnknownFormat : SR::Success;
			sym_assert(r == e, "result");
			sym_assert((b.got.size() != 0) == (r == SR::Success), "written only on success");
			break;
		}
		case 4:
		{
			SR r = t.save(mem, type);
			SR e = state != 3 ? SR::Invalid : type == FT::Auto ? SR::UnknownFormat : SR::Success;
			sym_assert(r == e, "result");
			sym_assert((mem.size() != 0) == (r == SR::Success), "filled only on success");
			break;
		}
		case 5:
			// A stream that has already failed.
			if (type == FT::Auto || state != 3) return;
			s.setstate(sym_pick("bad", 0, 1) ? std::ios_base::badbit : std::ios_base::failbit);
			sym_assert(t.save(s, type) == SR::WriteError, "failed before");
			sym_cover("failed before");
			break;
		default:
			// No buffer at all.
			if (type == FT::Auto || state != 3) return;
			{ std::ostream none(nullptr); sym_assert(t.save(none, type) == SR::WriteError, "nowhere to write"); }
			break;
	}
	sym_cover("done");
}
SYM_ENTRY c11_image_refused()
{
	env_dir("dir");
	Image e, i; pickImage(i);
	std::vector<uint8_t> mem;
	LimitBuf b(100000);
	std::ostream s(&b);
	static const char* const bad[] = {"missing/x.bmp", "dir", "", "dir/", "x", "x.unknown", "dir/x.unknown"};
	sym_assert(!e.save("x.bmp") && !e.save(s, "x.bmp") && !e.save(mem, "x.bmp"), "no image");
	sym_assert(env_file_size("x.bmp") < 0 && b.got.empty() && mem.empty(), "nothing written");
	uint64_t p = sym_pick("path", 0, 6);
	sym_assert(!i.save(bad[p]), "not saved");
	if (p >= 4)
	{
		sym_assert(!i.save(s, bad[p]) && !i.save(mem, bad[p]), "unknown type");
		sym_assert(b.got.empty() && mem.empty(), "nothing written");
		sym_cover("unknown");
	}
	s.setstate(std::ios_base::badbit);
	sym_assert(!i.save(s, "x.bmp"), "failed before");
	sym_cover("done");
}
