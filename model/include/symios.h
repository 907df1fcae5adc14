// Environment model of the C++ stream library used for the symbolic run only (the native replay
// uses the real one). It keeps the observable contract of libstdc++: state bits, sentries, virtual
// streambuf calls, filebuf buffering and the point where a write error becomes visible. Locales,
// number formatting for floating point, and exceptions() are outside of the model.
#pragma once
#include <iosfwd>
#include <string>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <system_error>
#include <bits/postypes.h>
#include <bits/move.h>

extern "C" {
// Virtual file system of the model.
int model_file_open(const char* path, int mode);               // bits of ios_base::openmode, <0 on error
long model_file_write(int fd, const void* p, long n);          // bytes accepted
long model_file_read(int fd, void* p, long n);
long model_file_seek(int fd, long off, int dir);
int model_file_close(int fd);
}

namespace std
{

class ios_base
{
public:
	typedef unsigned int fmtflags;
	typedef unsigned int iostate;
	typedef unsigned int openmode;
	enum seekdir { beg = 0, cur = 1, end = 2 };
	typedef std::streampos streampos;
	typedef std::streamoff streamoff;
	static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64,
		right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096,
		unitbuf = 8192, uppercase = 16384, adjustfield = left|right|internal, basefield = dec|oct|hex,
		floatfield = scientific|fixed;
	static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
	static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
	class failure : public system_error
	{
	public:
		explicit failure(const char* s) : system_error(error_code(), s) {}
	};
	class Init {};
	ios_base() {}
	ios_base(const ios_base&) = delete;
	ios_base& operator=(const ios_base&) = delete;
	virtual ~ios_base() {}
	fmtflags flags() const { return m_flags; }
	fmtflags flags(fmtflags f) { auto o = m_flags; m_flags = f; return o; }
	fmtflags setf(fmtflags f) { auto o = m_flags; m_flags |= f; return o; }
	fmtflags setf(fmtflags f, fmtflags m) { auto o = m_flags; m_flags = (m_flags & ~m) | (f & m); return o; }
	void unsetf(fmtflags m) { m_flags &= ~m; }
	streamsize width() const { return m_width; }
	streamsize width(streamsize w) { auto o = m_width; m_width = w; return o; }
	streamsize precision() const { return m_prec; }
	streamsize precision(streamsize p) { auto o = m_prec; m_prec = p; return o; }
	static bool sync_with_stdio(bool = true) { return true; }
	bool m_null = false;
protected:
	fmtflags m_flags = skipws|dec;
	streamsize m_width = 0, m_prec = 6;
};

template <typename C, typename T>
class basic_streambuf
{
public:
	typedef C char_type;
	typedef T traits_type;
	typedef typename T::int_type int_type;
	typedef typename T::pos_type pos_type;
	typedef typename T::off_type off_type;
	virtual ~basic_streambuf() {}
	basic_streambuf* pubsetbuf(C* s, streamsize n) { return setbuf(s, n); }
	pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in|ios_base::out) { return seekoff(o, d, m); }
	pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in|ios_base::out) { return seekpos(p, m); }
	int pubsync() { return sync(); }
	streamsize in_avail() { return m_g < m_ge ? m_ge - m_g : showmanyc(); }
	int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); }
	int_type sbumpc() { if (m_g < m_ge) { auto c = T::to_int_type(*m_g); ++m_g; return c; } return uflow(); }
	int_type sgetc() { if (m_g < m_ge) return T::to_int_type(*m_g); return underflow(); }
	streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); }
	int_type sputbackc(C c) { if (m_gb < m_g && T::eq(c, m_g[-1])) { --m_g; return T::to_int_type(*m_g); } return pbackfail(T::to_int_type(c)); }
	int_type sungetc() { if (m_gb < m_g) { --m_g; return T::to_int_type(*m_g); } return pbackfail(); }
	int_type sputc(C c) { if (m_p < m_pe) { *m_p++ = c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
	streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); }
protected:
	basic_streambuf() {}
	basic_streambuf(const basic_streambuf&) = default;
	basic_streambuf& operator=(const basic_streambuf&) = default;
	C* eback() const { return m_gb; }
	C* gptr() const { return m_g; }
	C* egptr() const { return m_ge; }
	C* pbase() const { return m_pb; }
	C* pptr() const { return m_p; }
	C* epptr() const { return m_pe; }
	void gbump(int n) { m_g += n; }
	void pbump(int n) { m_p += n; }
	void setg(C* a, C* b, C* c) { m_gb = a; m_g = b; m_ge = c; }
	void setp(C* a, C* b) { m_pb = m_p = a; m_pe = b; }
	virtual basic_streambuf* setbuf(C*, streamsize) { return this; }
	virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in|ios_base::out) { return pos_type(off_type(-1)); }
	virtual pos_type seekpos(pos_type, ios_base::openmode = ios_base::in|ios_base::out) { return pos_type(off_type(-1)); }
	virtual int sync() { return 0; }
	virtual streamsize showmanyc() { return 0; }
	virtual streamsize xsgetn(C* s, streamsize n)
	{
		streamsize r = 0;
		while (r < n)
		{
			streamsize a = m_ge - m_g;
			if (a > 0)
			{
				if (a > n - r) a = n - r;
				memcpy(s + r, m_g, a);
				m_g += a; r += a;
			}
			else
			{
				int_type c = uflow();
				if (T::eq_int_type(c, T::eof())) break;
				s[r++] = T::to_char_type(c);
			}
		}
		return r;
	}
	virtual int_type underflow() { return T::eof(); }
	virtual int_type uflow()
	{
		if (T::eq_int_type(underflow(), T::eof())) return T::eof();
		auto c = T::to_int_type(*m_g); ++m_g; return c;
	}
	virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); }
	virtual streamsize xsputn(const C* s, streamsize n)
	{
		streamsize r = 0;
		while (r < n)
		{
			streamsize a = m_pe - m_p;
			if (a > 0)
			{
				if (a > n - r) a = n - r;
				memcpy(m_p, s + r, a);
				m_p += a; r += a;
			}
			else
			{
				if (T::eq_int_type(overflow(T::to_int_type(s[r])), T::eof())) break;
				++r;
			}
		}
		return r;
	}
	virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
private:
	C* m_gb = nullptr; C* m_g = nullptr; C* m_ge = nullptr;
	C* m_pb = nullptr; C* m_p = nullptr; C* m_pe = nullptr;
};

template <typename C, typename T>
class basic_ios : public ios_base
{
public:
	typedef C char_type;
	typedef T traits_type;
	typedef typename T::int_type int_type;
	typedef typename T::pos_type pos_type;
	typedef typename T::off_type off_type;
	explicit basic_ios(basic_streambuf<C, T>* sb) { init(sb); }
	iostate rdstate() const { return m_state; }
	void clear(iostate s = goodbit)
	{
		m_state = m_sb ? s : s | badbit;
		if (m_state & m_throw) throw failure("basic_ios::clear");
	}
	void setstate(iostate s) { clear(m_state | s); }
	void _M_setstate(iostate s) { m_state |= s; }
	bool good() const { return m_state == 0; }
	bool eof() const { return (m_state & eofbit) != 0; }
	bool fail() const { return (m_state & (badbit|failbit)) != 0; }
	bool bad() const { return (m_state & badbit) != 0; }
	explicit operator bool() const { return !fail(); }
	bool operator!() const { return fail(); }
	iostate exceptions() const { return m_throw; }
	void exceptions(iostate e) { m_throw = e; clear(m_state); }
	basic_ostream<C, T>* tie() const { return m_tie; }
	basic_ostream<C, T>* tie(basic_ostream<C, T>* t) { auto o = m_tie; m_tie = t; return o; }
	basic_streambuf<C, T>* rdbuf() const { return m_sb; }
	basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* sb) { auto o = m_sb; m_sb = sb; clear(); return o; }
	C fill() const { return m_fill; }
	C fill(C c) { C o = m_fill; m_fill = c; return o; }
	char narrow(C c, char) const { return c; }
	C widen(char c) const { return c; }
protected:
	basic_ios() {}
	void init(basic_streambuf<C, T>* sb) { m_sb = sb; m_state = sb ? goodbit : badbit; m_tie = nullptr; }
	void set_rdbuf(basic_streambuf<C, T>* sb) { m_sb = sb; }
	void move(basic_ios& o) { m_state = o.m_state; m_flags = o.m_flags; m_tie = o.m_tie; m_sb = nullptr; }
private:
	basic_streambuf<C, T>* m_sb = nullptr;
	iostate m_state = goodbit, m_throw = goodbit;
	basic_ostream<C, T>* m_tie = nullptr;
	C m_fill = ' ';
};

inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& unitbuf(ios_base& b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base& nounitbuf(ios_base& b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
struct __symi { unsigned f; };
inline __symi setiosflags(ios_base::fmtflags f) { return __symi{f}; }
struct __symr { unsigned f; };
inline __symr resetiosflags(ios_base::fmtflags f) { return __symr{f}; }
inline __symi setbase(int n) { return __symi{n == 16 ? 8u : n == 8 ? 64u : 2u}; }
struct __symw { int n; };
inline __symw setw(int n) { return __symw{n}; }
struct __symp { int n; };
inline __symp setprecision(int n) { return __symp{n}; }
struct __symf { char c; };
inline __symf setfill(char c) { return __symf{c}; }

template <typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T>
{
public:
	typedef C char_type;
	typedef T traits_type;
	typedef typename T::int_type int_type;
	typedef typename T::pos_type pos_type;
	typedef typename T::off_type off_type;
	explicit basic_ostream(basic_streambuf<C, T>* sb) { this->init(sb); }
	virtual ~basic_ostream() {}
	class sentry
	{
	public:
		explicit sentry(basic_ostream& os) : m_os(os)
		{
			if (os.tie() && os.good()) os.tie()->flush();
			m_ok = os.good();
			if (!m_ok) os.setstate(ios_base::failbit);
		}
		~sentry()
		{
			if ((m_os.flags() & ios_base::unitbuf) && m_os.rdbuf() && m_os.rdbuf()->pubsync() == -1)
				m_os.setstate(ios_base::badbit);
		}
		explicit operator bool() const { return m_ok; }
	private:
		basic_ostream& m_os; bool m_ok;
	};
	basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
	basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
	basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
	basic_ostream& operator<<(bool v)
	{
		if (this->flags() & ios_base::boolalpha) return v ? str("true", 4) : str("false", 5);
		return num(v, false);
	}
	basic_ostream& operator<<(short v) { return num((unsigned short)(v < 0 ? -v : v), v < 0, 0xFFFF); }
	basic_ostream& operator<<(unsigned short v) { return num(v, false); }
	basic_ostream& operator<<(int v) { return num(v < 0 ? 0 - (unsigned int)v : (unsigned int)v, v < 0, 0xFFFFFFFFu); }
	basic_ostream& operator<<(unsigned int v) { return num(v, false); }
	basic_ostream& operator<<(long v) { return num(v < 0 ? 0 - (unsigned long)v : (unsigned long)v, v < 0); }
	basic_ostream& operator<<(unsigned long v) { return num(v, false); }
	basic_ostream& operator<<(long long v) { return num(v < 0 ? 0 - (unsigned long long)v : (unsigned long long)v, v < 0); }
	basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
	basic_ostream& operator<<(double v)
	{
		if (this->m_null) return *this;
		char b[64];
		auto ff = this->flags() & ios_base::floatfield;
		int n = snprintf(b, sizeof(b), ff == ios_base::fixed ? "%.*f" : ff == ios_base::scientific ? "%.*e" : "%.*g", (int)this->precision(), v);
		return str(b, n);
	}
	basic_ostream& operator<<(float v) { return *this << (double)v; }
	basic_ostream& operator<<(long double v) { return *this << (double)v; }
	basic_ostream& operator<<(const void*) { return str("<ptr>", 5); }
	basic_ostream& operator<<(basic_streambuf<C, T>* sb)
	{
		sentry ok(*this);
		if (ok && sb)
		{
			for (int_type c = sb->sgetc(); !T::eq_int_type(c, T::eof()); c = sb->snextc())
				if (T::eq_int_type(this->rdbuf()->sputc(T::to_char_type(c)), T::eof())) break;
		}
		else if (!sb) this->setstate(ios_base::badbit);
		return *this;
	}
	basic_ostream& put(C c)
	{
		if (this->m_null) return *this;
		sentry ok(*this);
		if (ok && T::eq_int_type(this->rdbuf()->sputc(c), T::eof())) this->setstate(ios_base::badbit);
		return *this;
	}
	basic_ostream& write(const C* s, streamsize n)
	{
		if (this->m_null) return *this;
		sentry ok(*this);
		if (ok && this->rdbuf()->sputn(s, n) != n) this->setstate(ios_base::badbit);
		return *this;
	}
	basic_ostream& str(const C* s, streamsize n)
	{
		streamsize pad = this->width() > n ? this->width() - n : 0;
		this->width(0);
		if (!pad) return write(s, n);
		basic_string<C, T> p(pad, this->fill()), all(s, n);
		all = (this->flags() & ios_base::adjustfield) == ios_base::left ? all + p : p + all;
		return write(all.data(), (streamsize)all.size());
	}
	basic_ostream& flush()
	{
		if (this->rdbuf())
		{
			sentry ok(*this);
			if (ok && this->rdbuf()->pubsync() == -1) this->setstate(ios_base::badbit);
		}
		return *this;
	}
	pos_type tellp()
	{
		sentry ok(*this);
		if (!this->fail()) return this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::out);
		return pos_type(off_type(-1));
	}
	basic_ostream& seekp(pos_type p)
	{
		sentry ok(*this);
		if (!this->fail() && this->rdbuf()->pubseekpos(p, ios_base::out) == pos_type(off_type(-1)))
			this->setstate(ios_base::failbit);
		return *this;
	}
	basic_ostream& seekp(off_type o, ios_base::seekdir d)
	{
		sentry ok(*this);
		if (!this->fail() && this->rdbuf()->pubseekoff(o, d, ios_base::out) == pos_type(off_type(-1)))
			this->setstate(ios_base::failbit);
		return *this;
	}
protected:
	basic_ostream() {}
private:
	basic_ostream& num(unsigned long long v, bool neg, unsigned long long mask = ~0ULL)
	{
		if (this->m_null) return *this;
		char b[40]; int n = 40;
		bool up = (this->flags() & ios_base::uppercase) != 0;
		auto bf = this->flags() & ios_base::basefield;
		unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
		if (base != 10 && neg) { v = (0 - v) & mask; neg = false; }
		bool zero = v == 0;
		do { b[--n] = (up ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } while (v);
		if ((this->flags() & ios_base::showbase) && !zero)
		{
			if (base == 16) { b[--n] = up ? 'X' : 'x'; b[--n] = '0'; }
			else if (base == 8) b[--n] = '0';
		}
		if (neg) b[--n] = '-';
		else if (base == 10 && (this->flags() & ios_base::showpos)) b[--n] = '+';
		return str(b + n, 40 - n);
	}
};

template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, const char* s)
{
	if (os.m_null) return os;
	if (!s) { os.setstate(ios_base::badbit); return os; }
	return os.str(s, T::length(s));
}
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, char c) { return os.str(&c, 1); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& os, unsigned char c) { char d = (char)c; return os.str(&d, 1); }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, __symw w) { os.width(w.n); return os; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, __symp p) { os.precision(p.n); return os; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, __symf f) { os.fill(f.c); return os; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, __symi f) { if (f.f & ios_base::basefield) os.setf(f.f, ios_base::basefield); else os.setf(f.f); return os; }
template <typename C, typename T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& os, __symr f) { os.unsetf(f.f); return os; }
template <typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& os) { os.put('\n'); return os.m_null ? os : os.flush(); }
template <typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& os) { return os.put('\0'); }
template <typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& os) { return os.m_null ? os : os.flush(); }

template <typename C, typename T>
class basic_istream : virtual public basic_ios<C, T>
{
public:
	typedef C char_type;
	typedef T traits_type;
	typedef typename T::int_type int_type;
	typedef typename T::pos_type pos_type;
	typedef typename T::off_type off_type;
	explicit basic_istream(basic_streambuf<C, T>* sb) { this->init(sb); }
	virtual ~basic_istream() {}
	class sentry
	{
	public:
		explicit sentry(basic_istream& is, bool noskip = false)
		{
			m_ok = false;
			if (is.good())
			{
				if (is.tie()) is.tie()->flush();
				if (!noskip && (is.flags() & ios_base::skipws))
				{
					int_type c = is.rdbuf()->sgetc();
					while (!T::eq_int_type(c, T::eof()) && (c == ' ' || (c >= 9 && c <= 13))) c = is.rdbuf()->snextc();
					if (T::eq_int_type(c, T::eof())) is.setstate(ios_base::failbit|ios_base::eofbit);
				}
			}
			if (is.good()) m_ok = true;
			else is.setstate(ios_base::failbit);
		}
		explicit operator bool() const { return m_ok; }
	private:
		bool m_ok;
	};
	streamsize gcount() const { return m_count; }
	basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
	basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
	basic_istream& operator>>(short& v) { return integer(v, -0x8000LL, 0x7FFF); }
	basic_istream& operator>>(unsigned short& v) { return natural(v, 0xFFFF); }
	basic_istream& operator>>(int& v) { return integer(v, -0x80000000LL, 0x7FFFFFFF); }
	basic_istream& operator>>(unsigned int& v) { return natural(v, 0xFFFFFFFFu); }
	basic_istream& operator>>(long& v) { return integer(v, (-0x7FFFFFFFFFFFFFFFLL - 1), 0x7FFFFFFFFFFFFFFFLL); }
	basic_istream& operator>>(unsigned long& v) { return natural(v, ~0ULL); }
	basic_istream& operator>>(long long& v) { return integer(v, (-0x7FFFFFFFFFFFFFFFLL - 1), 0x7FFFFFFFFFFFFFFFLL); }
	basic_istream& operator>>(unsigned long long& v) { return natural(v, ~0ULL); }
	basic_istream& operator>>(float& v) { double d = 0; real(d); v = (float)d; return *this; }
	basic_istream& operator>>(double& v) { return real(v); }
	basic_istream& operator>>(bool& v)
	{
		unsigned long long n = 0;
		natural(n, ~0ULL);
		if (n > 1) this->setstate(ios_base::failbit);
		v = n != 0;
		return *this;
	}
	int_type get()
	{
		m_count = 0;
		int_type c = T::eof();
		sentry ok(*this, true);
		ios_base::iostate err = ios_base::goodbit;
		if (ok)
		{
			c = this->rdbuf()->sbumpc();
			if (!T::eq_int_type(c, T::eof())) m_count = 1;
			else err |= ios_base::eofbit;
		}
		if (!m_count) err |= ios_base::failbit;
		if (err) this->setstate(err);
		return c;
	}
	basic_istream& get(C& out)
	{
		int_type c = get();
		if (!T::eq_int_type(c, T::eof())) out = T::to_char_type(c);
		return *this;
	}
	int_type peek()
	{
		int_type c = T::eof();
		m_count = 0;
		sentry ok(*this, true);
		if (ok)
		{
			c = this->rdbuf()->sgetc();
			if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
		}
		return c;
	}
	basic_istream& getline(C* s, streamsize n, C delim = '\n')
	{
		m_count = 0;
		sentry ok(*this, true);
		ios_base::iostate err = ios_base::goodbit;
		streamsize stored = 0;
		if (ok)
		{
			for (;;)
			{
				int_type c = this->rdbuf()->sgetc();
				if (T::eq_int_type(c, T::eof())) { err |= ios_base::eofbit; break; }
				if (T::to_char_type(c) == delim) { this->rdbuf()->sbumpc(); ++m_count; break; }
				if (stored + 1 >= n) { err |= ios_base::failbit; break; }
				s[stored++] = T::to_char_type(c); ++m_count;
				this->rdbuf()->sbumpc();
			}
		}
		if (n > 0) s[stored] = C();
		if (!m_count) err |= ios_base::failbit;
		if (err) this->setstate(err);
		return *this;
	}
	basic_istream& ignore(streamsize n = 1, int_type delim = T::eof())
	{
		m_count = 0;
		sentry ok(*this, true);
		if (ok)
		{
			while (m_count < n)
			{
				int_type c = this->rdbuf()->sbumpc();
				if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; }
				++m_count;
				if (T::eq_int_type(c, delim)) break;
			}
		}
		return *this;
	}
	basic_istream& read(C* s, streamsize n)
	{
		m_count = 0;
		sentry ok(*this, true);
		if (ok)
		{
			m_count = this->rdbuf()->sgetn(s, n);
			if (m_count != n) this->setstate(ios_base::eofbit|ios_base::failbit);
		}
		return *this;
	}
	streamsize readsome(C* s, streamsize n)
	{
		m_count = 0;
		sentry ok(*this, true);
		if (ok)
		{
			streamsize a = this->rdbuf()->in_avail();
			if (a > 0) m_count = this->rdbuf()->sgetn(s, a < n ? a : n);
			else if (a == -1) this->setstate(ios_base::eofbit);
		}
		return m_count;
	}
	basic_istream& putback(C c)
	{
		m_count = 0;
		this->clear(this->rdstate() & ~ios_base::eofbit);
		sentry ok(*this, true);
		if (ok && T::eq_int_type(this->rdbuf()->sputbackc(c), T::eof())) this->setstate(ios_base::badbit);
		return *this;
	}
	basic_istream& unget()
	{
		m_count = 0;
		this->clear(this->rdstate() & ~ios_base::eofbit);
		sentry ok(*this, true);
		if (ok && T::eq_int_type(this->rdbuf()->sungetc(), T::eof())) this->setstate(ios_base::badbit);
		return *this;
	}
	int sync() { return this->rdbuf() ? this->rdbuf()->pubsync() : -1; }
	pos_type tellg()
	{
		sentry ok(*this, true);
		if (!this->fail()) return this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::in);
		return pos_type(off_type(-1));
	}
	basic_istream& seekg(pos_type p)
	{
		this->clear(this->rdstate() & ~ios_base::eofbit);
		sentry ok(*this, true);
		if (!this->fail() && this->rdbuf()->pubseekpos(p, ios_base::in) == pos_type(off_type(-1)))
			this->setstate(ios_base::failbit);
		return *this;
	}
	basic_istream& seekg(off_type o, ios_base::seekdir d)
	{
		this->clear(this->rdstate() & ~ios_base::eofbit);
		sentry ok(*this, true);
		if (!this->fail() && this->rdbuf()->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1)))
			this->setstate(ios_base::failbit);
		return *this;
	}
protected:
	basic_istream() {}
	streamsize m_count = 0;
private:
	// The characters num_get accumulates: an optional sign and digits of the current base.
	bool digits(unsigned long long& v, bool& neg, bool& over)
	{
		v = 0; neg = over = false;
		sentry ok(*this);
		if (!ok) return false;
		auto bf = this->flags() & ios_base::basefield;
		unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : bf ? 10 : 0;
		bool any = false;
		int_type c = this->rdbuf()->sgetc();
		if (c == '-' || c == '+') { neg = c == '-'; c = this->rdbuf()->snextc(); }
		if ((base == 0 || base == 16) && c == '0')
		{
			any = true;
			c = this->rdbuf()->snextc();
			if (c == 'x' || c == 'X') { base = 16; any = false; c = this->rdbuf()->snextc(); }
			else if (!base) base = 8;
		}
		if (!base) base = 10;
		for (;; c = this->rdbuf()->snextc())
		{
			unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
			if (d >= base) break;
			any = true;
			if (v > (~0ULL - d)/base) over = true;
			else v = v*base + d;
		}
		if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
		return any;
	}
	template <typename N> basic_istream& integer(N& out, long long lo, long long hi)
	{
		unsigned long long v; bool neg, over;
		bool good = this->good();
		if (!digits(v, neg, over)) { if (good) out = 0; this->setstate(ios_base::failbit); return *this; }
		if (neg ? over || v > 0 - (unsigned long long)lo : over || v > (unsigned long long)hi)
		{
			out = (N)(neg ? lo : hi);
			this->setstate(ios_base::failbit);
		}
		else out = (N)(neg ? 0 - v : v);
		return *this;
	}
	template <typename N> basic_istream& natural(N& out, unsigned long long hi)
	{
		unsigned long long v; bool neg, over;
		bool good = this->good();
		if (!digits(v, neg, over)) { if (good) out = 0; this->setstate(ios_base::failbit); return *this; }
		if (over || v > hi) { out = (N)hi; this->setstate(ios_base::failbit); }
		else out = (N)(neg ? 0 - v : v);
		return *this;
	}
	basic_istream& real(double& out)
	{
		sentry ok(*this);
		if (!ok) return *this;
		char b[64]; int n = 0;
		bool point = false, exp = false, any = false;
		int_type c = this->rdbuf()->sgetc();
		for (; n < 63; c = this->rdbuf()->snextc())
		{
			if (c >= '0' && c <= '9') any = true;
			else if (c == '+' || c == '-') { if (n && b[n - 1] != 'e' && b[n - 1] != 'E') break; }
			else if (c == '.') { if (point || exp) break; point = true; }
			else if (c == 'e' || c == 'E') { if (exp || !any) break; exp = true; }
			else break;
			b[n++] = (char)c;
		}
		b[n] = 0;
		if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
		char* e = b;
		double v = any ? strtod(b, &e) : 0;
		if (!any || *e) { out = 0; this->setstate(ios_base::failbit); }
		else out = v;
		return *this;
	}
};

template <typename T> basic_istream<char, T>& operator>>(basic_istream<char, T>& is, char& c)
{
	typename basic_istream<char, T>::sentry ok(is);
	if (ok)
	{
		auto v = is.rdbuf()->sbumpc();
		if (T::eq_int_type(v, T::eof())) is.setstate(ios_base::eofbit|ios_base::failbit);
		else c = T::to_char_type(v);
	}
	return is;
}
template <typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& is)
{
	auto c = is.rdbuf()->sgetc();
	while (!T::eq_int_type(c, T::eof()) && (c == ' ' || (c >= 9 && c <= 13))) c = is.rdbuf()->snextc();
	if (T::eq_int_type(c, T::eof())) is.setstate(ios_base::eofbit);
	return is;
}
template <>
inline basic_istream<char>& operator>>(basic_istream<char>& is, basic_string<char>& s)
{
	typedef char_traits<char> T;
	basic_istream<char>::sentry ok(is);
	s.clear();
	ios_base::iostate err = ios_base::goodbit;
	if (ok)
	{
		for (;;)
		{
			int c = is.rdbuf()->sgetc();
			if (T::eq_int_type(c, T::eof())) { err |= ios_base::eofbit; break; }
			if (c == ' ' || (c >= 9 && c <= 13)) break;
			s.push_back((char)c);
			is.rdbuf()->sbumpc();
		}
	}
	if (s.empty()) err |= ios_base::failbit;
	if (err) is.setstate(err);
	return is;
}
template <>
inline basic_istream<char>& getline(basic_istream<char>& is, basic_string<char>& s, char delim)
{
	typedef char_traits<char> T;
	basic_istream<char>::sentry ok(is, true);
	ios_base::iostate err = ios_base::goodbit;
	bool any = false;
	if (ok)
	{
		s.clear();
		for (;;)
		{
			int c = is.rdbuf()->sbumpc();
			if (T::eq_int_type(c, T::eof())) { err |= ios_base::eofbit; break; }
			any = true;
			if ((char)c == delim) break;
			s.push_back((char)c);
		}
	}
	if (!any) err |= ios_base::failbit;
	if (err) is.setstate(err);
	return is;
}

template <typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
public:
	explicit basic_iostream(basic_streambuf<C, T>* sb) { this->init(sb); }
	virtual ~basic_iostream() {}
protected:
	basic_iostream() {}
};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
// In-memory buffer: data in a string, independent get and put positions, growing as written.
template <typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T>
{
public:
	typedef typename T::int_type int_type;
	typedef typename T::pos_type pos_type;
	typedef typename T::off_type off_type;
	typedef basic_string<C, T, A> string_type;
	explicit basic_stringbuf(ios_base::openmode m = ios_base::in|ios_base::out) : m_mode(m) {}
	explicit basic_stringbuf(const string_type& s, ios_base::openmode m = ios_base::in|ios_base::out) : m_mode(m) { str(s); }
	string_type str() const { return m_s; }
	void str(const string_type& s)
	{
		m_s = s; m_in = 0;
		m_out = (m_mode & (ios_base::app|ios_base::ate)) ? m_s.size() : 0;
	}
protected:
	int_type underflow() override
	{
		if (!(m_mode & ios_base::in) || m_in >= m_s.size()) return T::eof();
		return T::to_int_type(m_s[m_in]);
	}
	int_type uflow() override
	{
		int_type c = underflow();
		if (!T::eq_int_type(c, T::eof())) ++m_in;
		return c;
	}
	int_type pbackfail(int_type c) override
	{
		if (m_in == 0) return T::eof();
		if (!T::eq_int_type(c, T::eof()) && T::to_char_type(c) != m_s[m_in - 1]) return T::eof();
		--m_in;
		return T::to_int_type(m_s[m_in]);
	}
	streamsize showmanyc() override { return !(m_mode & ios_base::in) ? -1 : (streamsize)(m_s.size() - m_in); }
	streamsize xsgetn(C* s, streamsize n) override
	{
		if (!(m_mode & ios_base::in) || n <= 0) return 0;
		streamsize a = m_s.size() - m_in;
		if (a > n) a = n;
		if (a > 0) { memcpy(s, m_s.data() + m_in, a); m_in += a; }
		return a;
	}
	streamsize xsputn(const C* s, streamsize n) override
	{
		if (!(m_mode & ios_base::out) || n <= 0) return 0;
		if (m_mode & ios_base::app) m_out = m_s.size();
		if (m_out == m_s.size()) m_s.append(s, n);
		else
		{
			if (m_out + n > m_s.size()) m_s.resize(m_out + n);
			memcpy(&m_s[m_out], s, n);
		}
		m_out += n;
		return n;
	}
	int_type overflow(int_type c) override
	{
		if (!(m_mode & ios_base::out)) return T::eof();
		if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
		C ch = T::to_char_type(c);
		return xsputn(&ch, 1) == 1 ? c : T::eof();
	}
	pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override
	{
		m &= m_mode;
		bool i = (m & ios_base::in) != 0, w = (m & ios_base::out) != 0;
		if ((!i && !w) || (i && w && d == ios_base::cur)) return pos_type(off_type(-1));
		off_type base = d == ios_base::beg ? 0 : d == ios_base::end ? (off_type)m_s.size() : i ? (off_type)m_in : (off_type)m_out;
		off_type p = base + o;
		if (p < 0 || p > (off_type)m_s.size()) return pos_type(off_type(-1));
		if (i) m_in = p;
		if (w) m_out = p;
		return pos_type(p);
	}
	pos_type seekpos(pos_type p, ios_base::openmode m) override { return seekoff(off_type(p), ios_base::beg, m); }
private:
	string_type m_s; size_t m_in = 0, m_out = 0; ios_base::openmode m_mode;
};

template <typename C, typename T, typename A>
class basic_stringstream : public basic_iostream<C, T>
{
public:
	typedef basic_string<C, T, A> string_type;
	explicit basic_stringstream(ios_base::openmode m = ios_base::in|ios_base::out) : m_buf(m) { this->init(&m_buf); }
	explicit basic_stringstream(const string_type& s, ios_base::openmode m = ios_base::in|ios_base::out) : m_buf(s, m) { this->init(&m_buf); }
	string_type str() const { return m_buf.str(); }
	void str(const string_type& s) { m_buf.str(s); }
	basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&m_buf); }
private:
	basic_stringbuf<C, T, A> m_buf;
};
template <typename C, typename T, typename A>
class basic_ostringstream : public basic_ostream<C, T>
{
public:
	typedef basic_string<C, T, A> string_type;
	explicit basic_ostringstream(ios_base::openmode m = ios_base::out) : m_buf(m|ios_base::out) { this->init(&m_buf); }
	explicit basic_ostringstream(const string_type& s, ios_base::openmode m = ios_base::out) : m_buf(s, m|ios_base::out) { this->init(&m_buf); }
	string_type str() const { return m_buf.str(); }
	void str(const string_type& s) { m_buf.str(s); }
	basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&m_buf); }
private:
	basic_stringbuf<C, T, A> m_buf;
};
template <typename C, typename T, typename A>
class basic_istringstream : public basic_istream<C, T>
{
public:
	typedef basic_string<C, T, A> string_type;
	explicit basic_istringstream(ios_base::openmode m = ios_base::in) : m_buf(m|ios_base::in) { this->init(&m_buf); }
	explicit basic_istringstream(const string_type& s, ios_base::openmode m = ios_base::in) : m_buf(s, m|ios_base::in) { this->init(&m_buf); }
	string_type str() const { return m_buf.str(); }
	void str(const string_type& s) { m_buf.str(s); }
	basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&m_buf); }
private:
	basic_stringbuf<C, T, A> m_buf;
};

_GLIBCXX_END_NAMESPACE_CXX11

// File buffer with the buffering of libstdc++ (8191 bytes of put area, direct writes for >= 1024).
template <typename C, typename T>
class basic_filebuf : public basic_streambuf<C, T>
{
public:
	typedef typename T::int_type int_type;
	typedef typename T::pos_type pos_type;
	typedef typename T::off_type off_type;
	basic_filebuf() {}
	basic_filebuf(const basic_filebuf&) = delete;
	basic_filebuf& operator=(const basic_filebuf&) = delete;
	~basic_filebuf() { close(); }
	bool is_open() const { return m_fd >= 0; }
	basic_filebuf* open(const char* s, ios_base::openmode m)
	{
		if (is_open()) return nullptr;
		m_fd = model_file_open(s, (int)m);
		m_mode = m; m_pend.clear();
		return m_fd < 0 ? nullptr : this;
	}
	basic_filebuf* open(const string& s, ios_base::openmode m) { return open(s.c_str(), m); }
	basic_filebuf* close()
	{
		if (!is_open()) return nullptr;
		bool ok = drain();
		if (model_file_close(m_fd) != 0) ok = false;
		m_fd = -1;
		return ok ? this : nullptr;
	}
protected:
	bool drain()
	{
		if (m_pend.empty()) return true;
		long n = (long)m_pend.size();
		bool ok = model_file_write(m_fd, m_pend.data(), n) == n;
		m_pend.clear();
		return ok;
	}
	int_type underflow() override
	{
		if (!is_open() || !(m_mode & ios_base::in)) return T::eof();
		if (m_has) return T::to_int_type(m_c);
		drain();
		if (model_file_read(m_fd, &m_c, 1) != 1) return T::eof();
		m_has = true;
		return T::to_int_type(m_c);
	}
	int_type uflow() override { int_type c = underflow(); m_has = false; return c; }
	streamsize xsgetn(C* s, streamsize n) override
	{
		if (!is_open() || !(m_mode & ios_base::in) || n <= 0) return 0;
		streamsize r = 0;
		if (m_has) { *s++ = m_c; m_has = false; --n; r = 1; }
		if (n > 0) { long k = model_file_read(m_fd, s, n); if (k > 0) r += k; }
		return r;
	}
	streamsize xsputn(const C* s, streamsize n) override
	{
		if (!is_open() || !(m_mode & (ios_base::out|ios_base::app)) || n <= 0) return 0;
		streamsize avail = 8191 - (streamsize)m_pend.size();
		if (n >= (avail < 1024 ? avail : 1024))
		{
			if (!drain()) return 0;
			return model_file_write(m_fd, s, n);
		}
		m_pend.append(s, n);
		return n;
	}
	int_type overflow(int_type c) override
	{
		if (!is_open() || !(m_mode & (ios_base::out|ios_base::app))) return T::eof();
		if (T::eq_int_type(c, T::eof())) return drain() ? T::not_eof(c) : T::eof();
		if (m_pend.size() >= 8191 && !drain()) return T::eof();
		m_pend.push_back(T::to_char_type(c));
		return c;
	}
	int sync() override { return is_open() && !drain() ? -1 : 0; }
	pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) override
	{
		if (!is_open() || !drain()) return pos_type(off_type(-1));
		if (m_has && d == ios_base::cur) --o;
		long p = model_file_seek(m_fd, o, (int)d);
		if (p >= 0) m_has = false;
		return pos_type(off_type(p));
	}
	pos_type seekpos(pos_type p, ios_base::openmode m) override { return seekoff(off_type(p), ios_base::beg, m); }
private:
	int m_fd = -1; ios_base::openmode m_mode = 0; basic_string<C, T> m_pend; C m_c = 0; bool m_has = false;
};

#define SYM_FSTREAM(NAME, BASE, DEF, ALWAYS) \
template <typename C, typename T> \
class NAME : public BASE<C, T> \
{ \
public: \
	NAME() { this->init(&m_buf); } \
	explicit NAME(const char* s, ios_base::openmode m = DEF) { this->init(&m_buf); open(s, m); } \
	explicit NAME(const string& s, ios_base::openmode m = DEF) { this->init(&m_buf); open(s.c_str(), m); } \
	bool is_open() const { return m_buf.is_open(); } \
	void open(const char* s, ios_base::openmode m = DEF) { if (m_buf.open(s, m | ALWAYS)) this->clear(); else this->setstate(ios_base::failbit); } \
	void open(const string& s, ios_base::openmode m = DEF) { open(s.c_str(), m); } \
	void close() { if (!m_buf.close()) this->setstate(ios_base::failbit); } \
	basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&m_buf); } \
private: \
	basic_filebuf<C, T> m_buf; \
};
SYM_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
SYM_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
SYM_FSTREAM(basic_fstream, basic_iostream, ios_base::in|ios_base::out, 0u)

extern ostream cout, cerr, clog;
extern istream cin;

} // namespace std

#include <bits/streambuf_iterator.h>
#include <bits/stream_iterator.h>
