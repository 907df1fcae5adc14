// Environment model: virtual file system, threads, streams, libstdc++ internals.
#define __NO_INLINE__ 1
#include <sym.h>
#include <iostream>
#include <string>
#include <thread>
#include <mutex>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <map>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <chrono>
#include <typeinfo>
#include <sys/stat.h>

template class std::basic_string<char>;
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);

extern "C" {
extern char __libc_single_threaded;
char __libc_single_threaded = 0;
void* __dso_handle_model;
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int id);
int __cxa_guard_acquire(char* g) { return *g == 0; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char*) {}
int sym_native() { return 0; }
}

// ---------------------------------------------------------------- virtual file system
namespace
{
struct VFile { char name[96]; unsigned char* data; long size, cap; bool dir, cut; };
VFile g_files[24]; int g_nfiles;
struct VHandle { int file; long pos; int mode; bool open; };
VHandle g_handles[24]; int g_nhandles;
long g_limit; bool g_limited;

int findFile(const char* p)
{
	while (p[0] == '.' && p[1] == '/') p += 2;
	for (int i = 0; i < g_nfiles; ++i)
		if (strcmp(g_files[i].name, p) == 0) return i;
	return -1;
}
int addFile(const char* p, bool dir)
{
	while (p[0] == '.' && p[1] == '/') p += 2;
	int i = g_nfiles++;
	size_t n = strlen(p);
	sym_assert(i < 24 && n < sizeof(g_files[0].name), "model: virtual file system full");
	memcpy(g_files[i].name, p, n + 1);
	g_files[i].data = nullptr; g_files[i].size = g_files[i].cap = 0; g_files[i].dir = dir; g_files[i].cut = false;
	return i;
}
bool parentOk(const char* p)
{
	while (p[0] == '.' && p[1] == '/') p += 2;
	const char* s = strrchr(p, '/');
	if (!s) return true;
	std::string parent(p, s - p);
	int i = findFile(parent.c_str());
	if (i < 0) { errno = ENOENT; return false; }
	if (!g_files[i].dir) { errno = ENOTDIR; return false; }
	return true;
}
void grow(VFile& f, long n)
{
	if (n <= f.cap) return;
	long c = f.cap*2 > n ? f.cap*2 : n;
	unsigned char* d = (unsigned char*)malloc(c);
	if (f.size) memcpy(d, f.data, f.size);
	free(f.data);
	f.data = d; f.cap = c;
}
} // namespace

extern "C" {
int model_file_open(const char* path, int mode)
{
	bool w = (mode & (16|1)) != 0, r = (mode & 8) != 0;
	int f = findFile(path);
	if (path[0] == 0) { errno = ENOENT; return -1; }
	if (w && path[strlen(path) - 1] == '/') { errno = EISDIR; return -1; }
	if (f >= 0 && g_files[f].dir && w) { errno = EISDIR; return -1; }
	bool trunc = w && !(mode & 1) && (!r || (mode & 32));
	if (f < 0)
	{
		if (!w || (r && !trunc && !(mode & 1))) { errno = ENOENT; return -1; }
		if (!parentOk(path)) return -1;
		f = addFile(path, false);
	}
	else if (trunc) { g_files[f].size = 0; g_files[f].cut = false; }
	int h = g_nhandles++;
	sym_assert(h < 24, "model: too many open files");
	g_handles[h].file = f; g_handles[h].pos = (mode & (1|2)) ? g_files[f].size : 0; g_handles[h].mode = mode; g_handles[h].open = true;
	return h;
}
long model_file_write(int fd, const void* p, long n)
{
	VHandle& h = g_handles[fd];
	VFile& f = g_files[h.file];
	if (h.mode & 1) h.pos = f.size;
	long k = n;
	if (k <= 0) return 0;
	if (g_limited && h.pos + k > g_limit)
	{
		// The limit may be symbolic: the number of bytes accepted stays so, the contents are not kept.
		errno = EFBIG;
		long r = (long)sym_ite(g_limit > h.pos, (uint64_t)(g_limit - h.pos), 0);
		h.pos += r;
		if (!f.cut) { f.cut = true; f.size = h.pos; }
		return r;
	}
	grow(f, h.pos + k);
	if (h.pos > f.size) memset(f.data + f.size, 0, h.pos - f.size);
	memcpy(f.data + h.pos, p, k);
	h.pos += k;
	if (h.pos > f.size) f.size = h.pos;
	return k;
}
long model_file_read(int fd, void* p, long n)
{
	VHandle& h = g_handles[fd];
	VFile& f = g_files[h.file];
	if (f.dir) { errno = EISDIR; return -1; }
	long k = f.size - h.pos;
	if (k > n) k = n;
	if (k <= 0) return 0;
	memcpy(p, f.data + h.pos, k);
	h.pos += k;
	return k;
}
long model_file_seek(int fd, long off, int dir)
{
	VHandle& h = g_handles[fd];
	long b = dir == 0 ? 0 : dir == 1 ? h.pos : g_files[h.file].size;
	if (b + off < 0) return -1;
	return h.pos = b + off;
}
int model_file_close(int fd) { g_handles[fd].open = false; return 0; }

// Buffered C files: errors of the underlying file show up when the buffer is written out.
struct CFile { int fd; bool err, eof; long n; int pushed; unsigned char buf[4096]; };
FILE* fopen(const char* path, const char* mode)
{
	bool plus = strchr(mode, '+') != nullptr;
	int m = mode[0] == 'r' ? 8 | (plus ? 16 : 0) : mode[0] == 'w' ? 16 | 32 | (plus ? 8 : 0) : 16 | 1 | (plus ? 8 : 0);
	int fd = model_file_open(path, m);
	if (fd < 0) return nullptr;
	CFile* f = (CFile*)malloc(sizeof(CFile));
	f->fd = fd; f->err = f->eof = false; f->n = 0; f->pushed = -1;
	return (FILE*)f;
}
static void cput(CFile* f)
{
	if (f->n && model_file_write(f->fd, f->buf, f->n) != f->n) f->err = true;
	f->n = 0;
}
int fflush(FILE* p) { if (!p) return 0; CFile* f = (CFile*)p; bool e = f->err; f->err = false; cput(f); bool bad = f->err; f->err = e || bad; return bad ? -1 : 0; }
size_t fwrite(const void* b, size_t size, size_t count, FILE* p)
{
	if (!p || p == stdout || p == stderr) return count;
	CFile* f = (CFile*)p;
	size_t n = size*count;
	if (!n) return 0;
	if (f->n + n > sizeof(f->buf))
	{
		long had = f->n;
		bool e = f->err; f->err = false;
		cput(f);
		bool bad = f->err; f->err = e || bad;
		if (bad && had) return 0;
		if (n >= sizeof(f->buf))
		{
			long k = model_file_write(f->fd, b, (long)n);
			if (k != (long)n) f->err = true;
			return k < 0 ? 0 : (size_t)k/size;
		}
	}
	memcpy(f->buf + f->n, b, n);
	f->n += (long)n;
	return count;
}
size_t fread(void* b, size_t size, size_t count, FILE* p)
{
	CFile* f = (CFile*)p;
	cput(f);
	size_t n = size*count;
	if (!n) return 0;
	long had = 0;
	if (f->pushed >= 0) { *(unsigned char*)b = (unsigned char)f->pushed; f->pushed = -1; had = 1; }
	long k = had == (long)n ? 0 : model_file_read(f->fd, (char*)b + had, (long)n - had);
	if (k < 0) { f->err = true; return 0; }
	k += had;
	if (k < (long)n) f->eof = true;
	return (size_t)k/size;
}
int fseek(FILE* p, long o, int d)
{
	CFile* f = (CFile*)p;
	cput(f);
	if (d == 1 && f->pushed >= 0) --o;
	if (model_file_seek(f->fd, o, d) < 0) return -1;
	f->eof = false; f->pushed = -1;
	return 0;
}
long ftell(FILE* p) { CFile* f = (CFile*)p; return model_file_seek(f->fd, 0, 1) + f->n - (f->pushed >= 0); }
int fseeko(FILE* p, long o, int d) { return fseek(p, o, d); }
long ftello(FILE* p) { return ftell(p); }
void rewind(FILE* p) { fseek(p, 0, 0); ((CFile*)p)->err = false; }
int ferror(FILE* p) { return p != stdout && p != stderr && ((CFile*)p)->err; }
int feof(FILE* p) { return ((CFile*)p)->eof; }
void clearerr(FILE* p) { ((CFile*)p)->err = ((CFile*)p)->eof = false; }
int setvbuf(FILE*, char*, int, size_t) { return 0; }
void setbuf(FILE*, char*) {}
int fgetc(FILE* p) { unsigned char c; return fread(&c, 1, 1, p) == 1 ? c : EOF; }
int getc(FILE* p) { return fgetc(p); }
int ungetc(int c, FILE* p) { if (c == EOF) return EOF; ((CFile*)p)->pushed = (unsigned char)c; ((CFile*)p)->eof = false; return c; }
char* fgets(char* b, int n, FILE* p)
{
	int i = 0;
	while (i + 1 < n)
	{
		int c = fgetc(p);
		if (c == EOF) break;
		b[i++] = (char)c;
		if (c == 10) break;
	}
	if (!i) return nullptr;
	b[i] = 0;
	return b;
}
int fputc(int c, FILE* p) { unsigned char b = (unsigned char)c; return fwrite(&b, 1, 1, p) == 1 ? b : EOF; }
int putc(int c, FILE* p) { return fputc(c, p); }
int fputs(const char* t, FILE* p) { size_t n = strlen(t); return !n || fwrite(t, 1, n, p) == n ? 1 : EOF; }
int puts(const char*) { return 1; }
int putchar(int c) { return (unsigned char)c; }
int printf(const char*, ...) { return 0; }
int vprintf(const char*, va_list) { return 0; }

// Formatting: %d %i %u %x %X %o %c %s %p %% and, for values of moderate size, %f %e-free %g.
namespace
{
struct Out { char* b; size_t n, cap; void put(char c) { if (n + 1 < cap) b[n] = c; ++n; } };
int fmtFixed(char* t, double v, int prec)
{
	// v >= 0; round half to even on the decimal expansion is approximated by scaling.
	int n = 0;
	double ip = std::trunc(v), fp = v - ip, sc = 1;
	for (int i = 0; i < prec; ++i) sc *= 10;
	double fr = std::nearbyint(fp*sc);
	if (fr >= sc) { fr -= sc; ip += 1; }
	char r[64]; int k = 0;
	unsigned long u = (unsigned long)ip;
	do { r[k++] = (char)('0' + u%10); u /= 10; } while (u);
	while (k) t[n++] = r[--k];
	if (prec)
	{
		t[n++] = '.';
		unsigned long w = (unsigned long)fr;
		for (int i = 0; i < prec; ++i) { r[i] = (char)('0' + w%10); w /= 10; }
		for (int i = prec; i > 0; --i) t[n++] = r[i - 1];
	}
	return n;
}
}
int vsnprintf(char* b, size_t cap, const char* f, va_list ap)
{
	Out o = {b, 0, cap};
	for (; *f; ++f)
	{
		if (*f != '%') { o.put(*f); continue; }
		++f;
		bool left = false, zero = false, plus = false, space = false, alt = false;
		for (;; ++f)
		{
			if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break;
		}
		int width = 0, prec = -1, lng = 0;
		if (*f == '*') { width = va_arg(ap, int); ++f; if (width < 0) { left = true; width = -width; } }
		else while (*f >= '0' && *f <= '9') width = width*10 + (*f++ - '0');
		if (*f == '.')
		{
			++f; prec = 0;
			if (*f == '*') { prec = va_arg(ap, int); ++f; }
			else while (*f >= '0' && *f <= '9') prec = prec*10 + (*f++ - '0');
		}
		for (;; ++f)
		{
			if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') lng = lng == -1 ? -2 : -1; else break;
		}
		char t[96], sign = 0; const char* body = t; int n = 0; const char* pre = "";
		switch (*f)
		{
			case '%': o.put('%'); continue;
			case 'c': t[0] = (char)va_arg(ap, int); n = 1; zero = false; break;
			case 's': body = va_arg(ap, const char*); n = (int)(prec >= 0 ? strnlen(body, prec) : strlen(body)); zero = false; break;
			case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p':
			{
				unsigned long u; unsigned base = *f == 'o' ? 8 : *f == 'd' || *f == 'i' || *f == 'u' ? 10 : 16;
				if (*f == 'd' || *f == 'i')
				{
					long v = lng == 1 ? va_arg(ap, long) : va_arg(ap, int);
					if (lng == -1) v = (short)v; else if (lng == -2) v = (signed char)v;
					if (v < 0) { sign = '-'; u = 0 - (unsigned long)v; } else { u = (unsigned long)v; sign = plus ? '+' : space ? ' ' : 0; }
				}
				else
				{
					u = lng == 1 || *f == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
					if (lng == -1) u = (unsigned short)u; else if (lng == -2) u = (unsigned char)u;
				}
				if (*f == 'p' || (alt && base == 16 && u)) pre = *f == 'X' ? "0X" : "0x";
				char r[72]; int k = 0;
				while (u) { unsigned d = (unsigned)(u%base); r[k++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); u /= base; }
				while (k < (prec < 0 ? 1 : prec) && k < 72) r[k++] = '0';
				if (prec >= 0) zero = false;
				while (k) t[n++] = r[--k];
				break;
			}
			case 'f': case 'F': case 'g': case 'G': case 'e': case 'E':
			{
				double v = va_arg(ap, double);
				if (std::signbit(v)) { sign = '-'; v = -v; } else sign = plus ? '+' : space ? ' ' : 0;
				if (v != v) { body = "nan"; n = 3; zero = false; break; }
				if (v > 1.7e308) { body = "inf"; n = 3; zero = false; break; }
				if (prec < 0) prec = 6;
				bool g = *f == 'g' || *f == 'G';
				sym_assert(*f != 'e' && *f != 'E' && v < 1e15 && prec < 16 && (!g || v == 0 || v >= 1e-4), "model: printf of this floating-point value");
				if (!g) { n = fmtFixed(t, v, prec); break; }
				int ex = 1;
				for (double q = v; q >= 10; q /= 10) ++ex;
				for (double q = v; q != 0 && q < 1; q *= 10) --ex;
				if (prec == 0) prec = 1;
				n = fmtFixed(t, v, prec > ex ? prec - ex : 0);
				if (prec > ex) { while (n && t[n - 1] == '0') --n; if (n && t[n - 1] == '.') --n; }
				break;
			}
			default: sym_assert(false, "model: printf conversion");
		}
		int total = n + (sign != 0) + (int)strlen(pre), pad = width > total ? width - total : 0;
		if (!left && !zero) while (pad) { o.put(' '); --pad; }
		if (sign) o.put(sign);
		while (*pre) o.put(*pre++);
		if (!left && zero) while (pad) { o.put('0'); --pad; }
		for (int i = 0; i < n; ++i) o.put(body[i]);
		while (pad) { o.put(' '); --pad; }
	}
	if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
	return (int)o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, ~0ull >> 1, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int vfprintf(FILE* p, const char* f, va_list ap)
{
	if (p == stdout || p == stderr) return 0;
	char t[512];
	int n = vsnprintf(t, sizeof(t), f, ap);
	return (size_t)n == fwrite(t, 1, n, p) ? n : -1;
}
int fprintf(FILE* p, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(p, f, ap); va_end(ap); return r; }
int vsscanf(const char* s, const char* f, va_list ap)
{
	const char* b = s; int got = 0;
	for (; *f; ++f)
	{
		if (isspace(*f)) { while (isspace(*s)) ++s; continue; }
		if (*f != '%') { if (*s != *f) return *s || got ? got : EOF; ++s; continue; }
		++f;
		bool skip = false; int width = 0, lng = 0;
		if (*f == '*') { skip = true; ++f; }
		while (*f >= '0' && *f <= '9') width = width*10 + (*f++ - '0');
		for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; else if (*f == 'h') lng = lng == -1 ? -2 : -1; else break; }
		if (*f == 'n') { *va_arg(ap, int*) = (int)(s - b); continue; }
		if (*f != 'c' && *f != '%') while (isspace(*s)) ++s;
		if (*f == '%') { if (*s != '%') return got; ++s; continue; }
		if (!*s) return got ? got : EOF;
		if (*f == 'c') { if (!skip) { *va_arg(ap, char*) = *s; ++got; } ++s; continue; }
		if (*f == 's')
		{
			char* d = skip ? nullptr : va_arg(ap, char*);
			for (int i = 0; *s && !isspace(*s) && (!width || i < width); ++i) { if (d) *d++ = *s; ++s; }
			if (d) { *d = 0; ++got; }
			continue;
		}
		char* e;
		sym_assert(width == 0, "model: scanf field width");
		if (*f == 'f' || *f == 'g' || *f == 'e')
		{
			double v = strtod(s, &e);
			if (e == s) return got;
			if (!skip) { if (lng) *va_arg(ap, double*) = v; else *va_arg(ap, float*) = (float)v; ++got; }
		}
		else
		{
			sym_assert(*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'o', "model: scanf conversion");
			long v = strtol(s, &e, *f == 'x' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10);
			if (e == s) return got;
			if (!skip) { if (lng == 1) *va_arg(ap, long*) = v; else if (lng == -1) *va_arg(ap, short*) = (short)v; else if (lng == -2) *va_arg(ap, char*) = (char)v; else *va_arg(ap, int*) = (int)v; ++got; }
		}
		s = e;
	}
	return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
double logb(double v) { return (double)ilogb(v); }
float logbf(float v) { return (float)ilogbf(v); }
int pthread_once(pthread_once_t* o, void (*fn)()) { if (!*o) { *o = 1; fn(); } return 0; }
int clock_gettime(clockid_t, struct timespec* t) { static long n; t->tv_sec = ++n; t->tv_nsec = 0; return 0; }
time_t time(time_t* t) { static time_t n; ++n; if (t) *t = n; return n; }
clock_t clock() { static clock_t n; return ++n; }
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
void* __dynamic_cast(const void* obj, const void*, const void* dst, ptrdiff_t)
{
	// Single inheritance: walk the base classes of the dynamic type.
	void** vt = *(void***)obj;
	void* const* t = (void* const*)vt[-1];
	const char* full = (const char*)obj + (ptrdiff_t)vt[-2];
	for (;;)
	{
		if ((const void*)t == (const void*)dst) return (void*)full;
		if (t[0] != (void*)(_ZTVN10__cxxabiv120__si_class_type_infoE + 2)) return nullptr;
		t = (void* const*)t[2];
	}
}
int fclose(FILE* p)
{
	CFile* f = (CFile*)p;
	f->err = false;
	cput(f);
	int r = f->err ? -1 : 0;
	model_file_close(f->fd);
	free(f);
	return r;
}

int mkdir(const char* path, mode_t)
{
	std::string p(path);
	while (p.size() > 1 && p.back() == '/') p.pop_back();
	if (p.empty()) { errno = ENOENT; return -1; }
	if (p == "." || p == "..") { errno = EEXIST; return -1; }
	if (findFile(p.c_str()) >= 0) { errno = EEXIST; return -1; }
	if (!parentOk(p.c_str())) return -1;
	addFile(p.c_str(), true);
	return 0;
}
int stat(const char* path, struct stat* st)
{
	int f = findFile(path);
	if (f < 0) { errno = ENOENT; return -1; }
	memset(st, 0, sizeof(*st));
	st->st_mode = g_files[f].dir ? S_IFDIR|0755 : S_IFREG|0644;
	st->st_size = g_files[f].size;
	return 0;
}
int remove(const char* path)
{
	int f = findFile(path);
	if (f < 0) { errno = ENOENT; return -1; }
	g_files[f].name[0] = 0;
	return 0;
}
int unlink(const char* path) { return remove(path); }
int access(const char* path, int) { return findFile(path) >= 0 ? 0 : -1; }

void env_file(const char* path, const void* data, size_t n)
{
	int f = findFile(path);
	if (f < 0) f = addFile(path, false);
	g_files[f].size = 0;
	grow(g_files[f], n ? (long)n : 1);
	if (n) memcpy(g_files[f].data, data, n);
	g_files[f].size = n;
}
void env_dir(const char* path) { addFile(path, true); }
void env_write_limit(long n) { g_limited = n >= 0; g_limit = n; }
long env_file_size(const char* path) { int f = findFile(path); return f < 0 || g_files[f].dir ? -1 : g_files[f].size; }
void env_file_read(const char* path, void* out, size_t n) { int f = findFile(path); memcpy(out, g_files[f].data, n); }
static unsigned g_threads = 2;
void env_threads(unsigned n) { g_threads = n; }
}

// ---------------------------------------------------------------- streams
namespace
{
class NullBuf : public std::streambuf
{
protected:
	std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
	int_type overflow(int_type c) override { return traits_type::not_eof(c); }
};
NullBuf g_null;
struct NullStream : std::ostream { NullStream() : std::ostream(&g_null) { m_null = true; } };
}
namespace std
{
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_filebuf<char>;
template class basic_ofstream<char>;
template class basic_ifstream<char>;
template class __cxx11::basic_stringbuf<char>;
template class __cxx11::basic_stringstream<char>;
alignas(16) static char coutMem[sizeof(ostream)];
ostream cout(&g_null), cerr(&g_null), clog(&g_null);
istream cin(&g_null);
static struct NullInit { NullInit() { cout.m_null = cerr.m_null = clog.m_null = true; } } g_nullInit;

// ---------------------------------------------------------------- threads
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
static void runThread(void* p)
{
	thread::_State* s = (thread::_State*)p;
	s->_M_run();
	delete s;
}
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr state, void (*)())
{
	_M_id._M_thread = (pthread_t)(sym_thread_create(&runThread, state.release()) + 1);
}
void thread::join()
{
	if (!joinable()) terminate();
	sym_thread_join((int)_M_id._M_thread - 1);
	_M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return g_threads; }

namespace chrono
{
inline namespace _V2
{
static long g_ticks;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++g_ticks)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(++g_ticks)); }
}
}

// ---------------------------------------------------------------- container internals
namespace __detail
{
static const size_t g_primes[] = {2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	for (size_t p : g_primes)
		if (p >= n) { _M_next_resize = (size_t)(p*_M_max_load_factor); return p; }
	return 10273;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
	if (elt + ins > _M_next_resize)
	{
		size_t want = elt + ins > (_M_next_resize ? 0u : 11u) ? elt + ins : 11u;
		if (want >= bkt)
		{
			size_t n = want + 1 > bkt*2 ? want + 1 : bkt*2;
			return {true, _M_next_bkt(n)};
		}
		_M_next_resize = (size_t)(bkt*_M_max_load_factor);
	}
	return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
	if (this == last) return;
	last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
	auto* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
	bool ex = x._M_next == &x, ey = y._M_next == &y;
	_List_node_base a = x, b = y;
	if (ey) x._M_next = x._M_prev = &x; else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
	if (ex) y._M_next = y._M_prev = &y; else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _List_node_base::_M_reverse() noexcept
{
	_List_node_base* t = this;
	do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
} // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
	size_t h = seed;
	for (size_t i = 0; i < n; ++i) h = h*1099511628211ull + ((const unsigned char*)p)[i];
	return h;
}
// Unbalanced red-black tree stand-ins: ordering and iteration are what std::map promises.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	auto* y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	auto* y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
	_Rb_tree_node_base* r;
	if (!z->_M_left) r = z->_M_right;
	else if (!z->_M_right) r = z->_M_left;
	else
	{
		// Both subtrees: the successor takes the place of z.
		auto* y = z->_M_right;
		while (y->_M_left) y = y->_M_left;
		if (y != z->_M_right)
		{
			y->_M_parent->_M_left = y->_M_right;
			if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
			y->_M_right = z->_M_right;
			z->_M_right->_M_parent = y;
		}
		y->_M_left = z->_M_left;
		z->_M_left->_M_parent = y;
		r = y;
	}
	if (r) r->_M_parent = z->_M_parent;
	if (header._M_parent == z) header._M_parent = r;
	else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
	else z->_M_parent->_M_right = r;
	if (header._M_left == z) { auto* m = r ? r : z->_M_parent; if (r) while (m->_M_left) m = m->_M_left; header._M_left = m; }
	if (header._M_right == z) { auto* m = r ? r : z->_M_parent; if (r) while (m->_M_right) m = m->_M_right; header._M_right = m; }
	return z;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
	if (left)
	{
		p->_M_left = x;
		if (p == &header) { header._M_parent = x; header._M_right = x; }
		else if (p == header._M_left) header._M_left = x;
	}
	else
	{
		p->_M_right = x;
		if (p == header._M_right) header._M_right = x;
	}
}
} // namespace std
