#include "save.h"
// The type denoted by a name, whatever its bytes.
SYM_ENTRY c24_name()
{
	int n = (int)sym_param("n", 4);
	char* name = new char[n + 1]; // exactly as long as the name
	// Another name at the same place.
	if (n > 6 && n % 2 == 0)
	{
		strcpy(name, n % 4 ? "k.ktx" : "k.p.d");
		sym_assert(Texture::fileType(name) == (n % 4 ? Texture::FileType::KTX : Texture::FileType::Auto), "type of the name before");
	}
	for (int i = 0; i < n; i++) { name[i] = (char)sym_bits("c", 8); sym_assume(name[i] != 0); }
	name[n] = 0;
	// Whatever was asked before.
	static const char* before[4] = {"", "first.ktx", "first name.PVR", "a.dds"};
	int b = (int)sym_param("before", n % 4);
	if (b)
	{
		sym_assert(Texture::fileType(before[b]) == (b == 1 ? Texture::FileType::KTX : b == 2 ? Texture::FileType::PVR : Texture::FileType::DDS), "type of the first name");
		sym_assert(Texture::fileType("none") == Texture::FileType::Auto, "type of the second name");
	}
	auto r = (uint32_t)Texture::fileType(name);
	uint32_t want = (uint32_t)Texture::FileType::Auto;
	static const char* ext[3] = {"dds", "ktx", "pvr"};
	static const Texture::FileType type[3] = {Texture::FileType::DDS, Texture::FileType::KTX, Texture::FileType::PVR};
	if (n >= 4)
		for (int k = 0; k < 3; k++)
		{
			int ok = name[n - 4] == '.';
			for (int c = 0; c < 3; c++) ok = sym_and(ok, sym_or(name[n - 3 + c] == ext[k][c], name[n - 3 + c] == ext[k][c] - 32));
			want = (uint32_t)sym_ite(ok, (uint32_t)type[k], want);
		}
	sym_assert(r == want, "type of a file name");
	sym_observe("type", r);
	sym_cover("done");
	delete [] name;
}
// Saving with the type chosen by the name.
SYM_ENTRY c24_save()
{
	static const char* names[] = {"a.dds", "b.ktx", "c.pvr", ".dds", "dds", "a.ddsx", "x.dds.ktx", "ktx.pv", "a.pvr.", "noext", "d.ktx ", "long name.with.dots.pvr"};
	int k = (int)sym_pick("name", 0, sizeof(names)/sizeof(*names) - 1);
	char path[64];
	if (sym_param("first", 0))
	{
		strcpy(path, "a first name.KTX");
		sym_assert(Texture::fileType(path) == Texture::FileType::KTX, "type of the name before");
	}
	strcpy(path, names[k]);
	int n = (int)strlen(path), cas = (int)sym_pick("case", 0, 7);
	for (int i = 0; i < 3 && i < n; i++)
		if (cas >> i & 1) { char& c = path[n - 1 - i]; if (c >= 'a' && c <= 'z') c -= 32; }
	Texture t;
	sym_assert(makeTexture(t, 1, 2, 1, 0, 1, false, TF::R8, TT::UNorm, Texture::Alpha::Standard, 0), "texture");
	static const int kinds[] = {1, 2, 3, 1, 0, 0, 2, 0, 0, 0, 0, 3};
	Texture::FileType asked = (Texture::FileType)sym_pick("asked", 0, 3);
	// Another texture saved before under other names.
	int first = (int)sym_param("first", 0);
	if (first)
	{
		Texture o;
		sym_assert(makeTexture(o, 1, 3, 1, 0, 1, false, TF::R8, TT::UNorm, Texture::Alpha::Standard, 0), "texture");
		sym_assert(o.save("e", Texture::FileType::Auto) == Texture::SaveResult::UnknownFormat, "the first name");
		sym_assert(o.save(first == 1 ? "first.ktx" : "f.PVR", Texture::FileType::Auto) == Texture::SaveResult::Success, "the second name");
		std::vector<uint8_t> v;
		sym_assert(o.save(v, first == 1 ? Texture::FileType::PVR : Texture::FileType::DDS) == Texture::SaveResult::Success, "another container");
	}
	auto r = t.save(path, asked);
	int kind = asked == Texture::FileType::Auto ? kinds[k] : (int)asked;
	if (!kind) sym_assert(r == Texture::SaveResult::UnknownFormat, "saving under a name without a type");
	else
	{
		sym_assert(r == Texture::SaveResult::Success, "saving under a name");
		std::vector<uint8_t> want;
		sym_assert(t.save(want, (Texture::FileType)kind) == Texture::SaveResult::Success, "saving to memory");
		long size = env_file_size(path);
		sym_assert(size == (long)want.size(), "size of the file");
		std::vector<uint8_t> got(want.size());
		if (size == (long)want.size()) env_file_read(path, got.data(), got.size());
		int ok = 1;
		for (size_t i = 0; i < got.size(); i++) ok = sym_and(ok, got[i] == want[i]);
		sym_assert(ok, "container of the file");
	}
	std::vector<uint8_t> v;
	sym_assert(t.save(v, Texture::FileType::Auto) == Texture::SaveResult::UnknownFormat, "no name to take the type from");
	sym_cover("done");
}
