// C string functions of the model (compiled with -fno-builtin).
#include <stddef.h>
#include <stdint.h>
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b)
{
	for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n)
{
	for (; n; ++a, ++b, --n) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
	return 0;
}
static int lower(unsigned char c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int strcasecmp(const char* a, const char* b)
{
	for (;; ++a, ++b) { int x = lower(*a), y = lower(*b); if (x != y) return x - y; if (!*a) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n)
{
	for (; n; ++a, ++b, --n) { int x = lower(*a), y = lower(*b); if (x != y) return x - y; if (!*a) return 0; }
	return 0;
}
char* strchr(const char* s, int c)
{
	for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
char* strrchr(const char* s, int c)
{
	const char* r = 0;
	for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
void* memchr(const void* p, int c, size_t n)
{
	const unsigned char* s = (const unsigned char*)p;
	for (; n; ++s, --n) if (*s == (unsigned char)c) return (void*)s;
	return 0;
}
char* strstr(const char* a, const char* b)
{
	size_t n = strlen(b);
	for (;; ++a) { if (strncmp(a, b, n) == 0) return (char*)a; if (!*a) return 0; }
}
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) ++n; return n; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && strchr(set, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : 0; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcpy(char* d, const char* s);
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
void* malloc(size_t);
void free(void*);
char* strdup(const char* s) { char* d = (char*)malloc(strlen(s) + 1); return strcpy(d, s); }
char* strndup(const char* s, size_t n) { n = strnlen(s, n); char* d = (char*)malloc(n + 1); for (size_t i = 0; i < n; ++i) d[i] = s[i]; d[n] = 0; return d; }
char* strtok_r(char* s, const char* set, char** save)
{
	if (!s) s = *save;
	s += strspn(s, set);
	if (!*s) { *save = s; return 0; }
	char* e = s + strcspn(s, set);
	if (*e) *e++ = 0;
	*save = e;
	return s;
}
static char* g_tok;
char* strtok(char* s, const char* set) { return strtok_r(s, set, &g_tok); }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
char* strerror(int) { static char m[] = "error"; return m; }
char* __xpg_strerror_r(int, char* b, size_t n) { if (n) *b = 0; return b; }
char* strerror_r(int, char* b, size_t n) { if (n) *b = 0; return b; }
char* getenv(const char*) { return 0; }
char* secure_getenv(const char*) { return 0; }
struct DivI { int q, r; }; struct DivL { long q, r; };
DivI div(int a, int b) { DivI d = {a/b, a%b}; return d; }
DivL ldiv(long a, long b) { DivL d = {a/b, a%b}; return d; }
DivL lldiv(long a, long b) { return ldiv(a, b); }
int abs(int a) { return a < 0 ? -a : a; }
long labs(long a) { return a < 0 ? -a : a; }
long llabs(long a) { return a < 0 ? -a : a; }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
	char* b = (char*)base;
	for (size_t i = 1; i < n; ++i)
		for (size_t j = i; j > 0 && cmp(b + (j - 1)*w, b + j*w) > 0; --j)
			for (size_t k = 0; k < w; ++k) { char t = b[(j - 1)*w + k]; b[(j - 1)*w + k] = b[j*w + k]; b[j*w + k] = t; }
}
void* bsearch(const void* key, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
	const char* b = (const char*)base;
	while (n)
	{
		size_t m = n/2;
		int c = cmp(key, b + m*w);
		if (c == 0) return (void*)(b + m*w);
		if (c > 0) { b += (m + 1)*w; n -= m + 1; } else n = m;
	}
	return 0;
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }

static int g_errno;
int* __errno_location() { return &g_errno; }

static unsigned long parse(const char* s, char** end, int base, unsigned long posmax, unsigned long negmax, bool isSigned)
{
	const char* p = s;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
	bool neg = false;
	if (*p == '-') { neg = true; ++p; }
	else if (*p == '+') ++p;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
		((p[2] >= '0' && p[2] <= '9') || (lower(p[2]) >= 'a' && lower(p[2]) <= 'f')))
	{
		p += 2; base = 16;
	}
	if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0; bool any = false, over = false;
	for (;; ++p)
	{
		unsigned d;
		if (*p >= '0' && *p <= '9') d = *p - '0';
		else if (lower(*p) >= 'a' && lower(*p) <= 'z') d = lower(*p) - 'a' + 10;
		else break;
		if (d >= (unsigned)base) break;
		any = true;
		if (v > (~0ul - d)/base) over = true;
		else v = v*base + d;
	}
	if (end) *end = (char*)(any ? p : s);
	if (!any) return 0;
	unsigned long lim = isSigned ? (neg ? negmax : posmax) : ~0ul;
	if (over || v > lim) { g_errno = 34; return isSigned ? (neg ? 0 - negmax : posmax) : ~0ul; }
	return neg ? 0 - v : v;
}
unsigned long strtoul(const char* s, char** e, int b) { return parse(s, e, b, 0, 0, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return parse(s, e, b, 0, 0, false); }
long strtol(const char* s, char** e, int b) { return (long)parse(s, e, b, 0x7fffffffffffffff, 0x8000000000000000, true); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
// Decimal floating point only: exact for values with few digits (no hex floats, inf or nan).
double strtod(const char* s, char** end)
{
	const char* p = s;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
	bool neg = false;
	if (*p == '-') { neg = true; ++p; }
	else if (*p == '+') ++p;
	double v = 0, scale = 1; bool any = false;
	for (; *p >= '0' && *p <= '9'; ++p) { v = v*10 + (*p - '0'); any = true; }
	if (*p == '.' && (any || (p[1] >= '0' && p[1] <= '9')))
	{
		for (++p; *p >= '0' && *p <= '9'; ++p) { v = v*10 + (*p - '0'); scale *= 10; any = true; }
	}
	if (!any) { if (end) *end = (char*)s; return 0; }
	v /= scale;
	if (lower(*p) == 'e')
	{
		const char* q = p + 1; bool en = false;
		if (*q == '-') { en = true; ++q; } else if (*q == '+') ++q;
		if (*q >= '0' && *q <= '9')
		{
			int x = 0;
			for (; *q >= '0' && *q <= '9'; ++q) if (x < 1000) x = x*10 + (*q - '0');
			for (; x > 0; --x) v = en ? v/10 : v*10;
			p = q;
		}
	}
	if (end) *end = (char*)p;
	return neg ? -v : v;
}
double atof(const char* s) { return strtod(s, 0); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
}
