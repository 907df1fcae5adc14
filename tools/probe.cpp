#include "common.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cctype>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <climits>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <immintrin.h>
#include <strings.h>
#include <vector>
#define A(x) sym_assert((bool)(x), #x)
typedef void (*Fn)();
static double D() { float f = sym_float("d"); sym_assume(sym_and(f >= -100, f <= 100)); return f; }
static unsigned U() { return (unsigned)sym_range("u", 0, 100); }
static const char* S() { return "Hello"; }
static struct T { const char* n; Fn f; } kT[] = {
{"lround", []{ double d = D(); A(std::lround(d) == (long)std::round(d)); }},
{"llround", []{ double d = D(); A(std::llround(d) == (long)std::round(d)); }},
{"lroundf", []{ float d = (float)D(); A(std::lround(d) == (long)std::round(d)); }},
{"rint", []{ double d = D(); A(std::rint(d) == std::nearbyint(d)); }},
{"lrint", []{ double d = D(); A(std::lrint(d) == (long)std::nearbyint(d)); }},
{"floor", []{ double d = D(); A(std::floor(d) <= d); A(std::ceil(d) >= d); A(std::trunc(d) == (double)(long)d); }},
{"fmin", []{ double d = D(); A(std::fmin(d, 1.0) == std::min(d, 1.0)); A(std::fmax(d, 1.0) == std::max(d, 1.0)); }},
{"fabs", []{ double d = D(); A(std::fabs(d) >= 0); A(fabs(d) >= 0); A(fabsf((float)d) >= 0); }},
{"copysign", []{ double d = D(); A(std::copysign(1.0, d)*d >= 0); A(std::signbit(-0.0)); }},
{"fma", []{ double d = D(); A(std::fma(1.0, d, 0.0) == d); }},
{"hypot", []{ A(std::abs(std::hypot(3.0, 4.0) - 5) < 1e-12); }},
{"modf", []{ double i; A(std::modf(2.5, &i) == 0.5 && i == 2); A(std::fmod(5.0, 3.0) == 2); }},
{"sqrt", []{ float f = (float)U(); A(std::sqrt(f) >= 0); }},
{"log2", []{ A(std::log2(8.0) == 3); A(std::log2(8u) == 3); A(std::exp2(3.0) == 8); A(std::log(1.0) == 0); A(std::exp(0.0) == 1);}},
{"ilogb", []{ A(std::ilogb(8.0) == 3); A(std::ilogb(9.0f) == 3); A(std::logb(8.0) == 3);}},
{"ldexp", []{ A(std::ldexp(1.0, 3) == 8); A(std::scalbn(1.0, 3) == 8); A(std::ldexp(1.0f, 3) == 8); int e; A(std::frexp(8.0, &e) == 0.5 && e == 4); }},
{"pow", []{ A(std::pow(2.0, 3.0) == 8); A(std::pow(2.0f, 3.0f) == 8); A(std::cbrt(8.0) == 2); }},
{"isnan", []{ double d = D(); A(!std::isnan(d)); A(std::isfinite(d)); A(!std::isinf(d)); A(std::fpclassify(1.0) == FP_NORMAL); A(std::isnormal(1.0)); }},
{"nextafter", []{ A(std::nextafter(1.0f, 2.0f) > 1.0f); }},
{"clz", []{ unsigned u = U(); A(__builtin_clz(u | 1) >= 25); A(__builtin_popcount(u) <= 7); A(__builtin_ctz(u | 128) <= 7); }},
{"memcpy", []{ char a[8] = "abc", b[8]; std::memcpy(b, a, 8); A(std::memcmp(a, b, 8) == 0); std::memset(b, 0, 8); std::memmove(a + 1, a, 4); A(a[1] == 'a'); A(std::memchr(a, 'b', 8) == a + 2); }},
{"strings", []{ A(std::strlen(S()) == 5); A(std::strcmp(S(), "Hello") == 0); A(std::strncmp(S(), "Help", 3) == 0); A(std::strchr(S(), 'l') != 0); A(std::strrchr(S(), 'l') != 0); A(std::strstr(S(), "llo") != 0); char b[16]; std::strcpy(b, S()); std::strcat(b, "x"); A(std::strcmp(b, "Hellox") == 0); std::strncpy(b, S(), 3); A(std::strpbrk(b, "l") != 0); A(std::strcspn(b, "l") == 2); A(std::strspn(b, "He") == 2); A(strcasecmp("ABC", "abc") == 0); A(strncasecmp("ABCd", "abc", 3) == 0); }},
{"ctype", []{ int c = (int)sym_range("c", 0, 255); A(std::tolower('A') == 'a'); A(std::toupper('a') == 'A'); A(std::isdigit('1')); A(std::isspace(' ')); A(std::isalpha('x')); A(std::tolower(c) >= 0); A(std::isalnum('x')); A(std::isxdigit('f')); A(std::isupper('X')); A(!std::islower('X')); A(std::isprint('X')); A(std::ispunct('.'));}},
{"strtol", []{ char* e; A(std::strtol("12x", &e, 10) == 12 && *e == 'x'); A(std::strtoul("12", &e, 0) == 12); A(std::strtoll("-12", &e, 0) == -12); A(std::strtoull("12", &e, 0) == 12); A(std::atoi("12") == 12); A(std::atol("12") == 12); }},
{"strtod", []{ char* e; A(std::strtod("1.5x", &e) == 1.5 && *e == 'x'); A(std::strtof("1.5", &e) == 1.5f); A(std::atof("2.5") == 2.5); }},
{"stoi", []{ std::string s = "12"; A(std::stoi(s) == 12); A(std::stoul(s) == 12); A(std::stol(s) == 12); A(std::stod("1.5") == 1.5); A(std::stof("1.5") == 1.5f); }},
{"stoi-throw", []{ int r = 0; try { r = std::stoi("x"); } catch (const std::invalid_argument&) { r = 7; } A(r == 7); try { r = std::stoi("99999999999"); } catch (const std::exception&) { r = 8; } A(r == 8); }},
{"throw", []{ int r = 0; try { throw std::runtime_error("x"); } catch (const std::runtime_error& e) { r = 1; } A(r == 1); try { std::vector<int> v(1); v.at(2) = 1; } catch (const std::out_of_range&) { r = 2; } A(r == 2); }},
{"to_string", []{ A(std::to_string(12) == "12"); A(std::to_string(12u) == "12"); A(std::to_string(-3L) == "-3"); A(std::to_string((size_t)7) == "7"); }},
{"to_string-d", []{ A(std::to_string(1.5) == "1.500000"); }},
{"snprintf", []{ char b[32]; std::snprintf(b, sizeof(b), "%d %s %u", 1, "x", 2u); A(std::string(b) == "1 x 2"); }},
{"string", []{ std::string s = "Hello"; s += ' '; s.append("World"); s.insert(0, "X"); s.erase(0, 1); s.push_back('!'); A(s == "Hello World!"); A(s.substr(6, 5) == "World"); A(s.find("World") == 6); A(s.rfind('o') == 7); A(s.find_first_of("lo") == 2); A(s.find_last_of('/') == std::string::npos); A(s.compare(0, 5, "Hello") == 0); s.replace(0, 5, "Bye"); A(s == "Bye World!"); s.resize(3); s.reserve(100); s.pop_back(); A(s.back() == 'y'); A(s < "Z"); s.assign(3, 'x'); A(s == "xxx"); s.clear(); s.shrink_to_fit(); A(s.empty()); A(std::string("a") + "b" + 'c' == "abc"); A(std::string("abc").find_first_not_of("a") == 1); A(std::string("abc").find_last_not_of("c") == 1);}},
{"string-literal", []{ using namespace std::literals::string_literals; A("abc"s.size() == 3); }},
{"ostringstream", []{ std::ostringstream o; o << "a" << 1 << ' ' << 2u << std::string("x"); A(o.str() == "a1 2x"); }},
{"ostringstream-d", []{ std::ostringstream o; o << 1.5; A(o.str() == "1.5"); }},
{"ostringstream-hex", []{ std::ostringstream o; o << std::hex << std::setw(4) << std::setfill('0') << 255; A(o.str() == "00ff"); }},
{"istringstream", []{ std::istringstream i("12 ab"); int a; std::string s; i >> a >> s; A(a == 12 && s == "ab" && i.eof()); }},
{"istringstream-d", []{ std::istringstream i("1.5"); double a; i >> a; A(a == 1.5); }},
{"stringstream", []{ std::stringstream s; s << "line1\nline2"; std::string l; A((bool)std::getline(s, l)); A(l == "line1"); A((bool)std::getline(s, l)); A(!std::getline(s, l)); s.clear(); s.str("x"); char c; A((bool)s.get(c)); A(c == 'x'); A(s.peek() == EOF); }},
{"stringstream-rw", []{ std::stringstream s; s.write("abcd", 4); s.put('e'); s.seekg(0, std::ios::end); A(s.tellg() == 5); s.seekg(0); char b[5]; s.read(b, 5); A(s.gcount() == 5); A(s.tellp() == 5); A(s.rdbuf()->in_avail() == 0); s.flush(); s.unsetf(std::ios::skipws); A(!s.fail()); A(!s.bad()); s.setstate(std::ios::failbit); A(s.fail()); s.exceptions(); }},
{"iterators", []{ std::stringstream s("abc"); std::vector<char> v((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); A(v.size() == 3); std::ostringstream o; std::copy(v.begin(), v.end(), std::ostreambuf_iterator<char>(o)); std::fill_n(std::ostreambuf_iterator<char>(o), 3, 'x'); A(o.str() == "abcxxx"); std::copy(v.begin(), v.end(), std::ostream_iterator<char>(o)); A(o.str().size() == 9); }},
{"streambuf", []{ std::ostringstream o; o.rdbuf()->sputn("abc", 3); o.rdbuf()->sputc('d'); A(o.str() == "abcd"); std::istringstream i("xyz"); A(i.rdbuf()->sbumpc() == 'x'); A(i.rdbuf()->sgetc() == 'y'); std::ostringstream p; p << i.rdbuf(); A(p.str() == "yz"); i.ignore(); }},
{"cout", []{ std::cout << "a" << 1 << std::endl; std::cerr << std::string("x") << '\n' << std::flush; std::clog << 1u << 2.5 << true << (size_t)3 << 'c' << std::hex << 12 << std::dec << "\n"; std::cout.flush(); std::cout.write("abc", 3); std::cout.put('x'); }},
{"printf", []{ std::printf("%d %s\n", 1, "x"); std::fprintf(stderr, "%u\n", 1u); std::puts("x"); std::fputs("x", stderr); std::putchar('x'); std::fflush(stdout); }},
{"fopen", []{ std::FILE* f = std::fopen("p.bin", "wb"); A(f); A(std::fwrite("abc", 1, 3, f) == 3); A(std::fputc('x', f) == 'x'); A(std::fclose(f) == 0); f = std::fopen("p.bin", "rb"); A(f); char b[5]; A(std::fread(b, 1, 5, f) == 4); A(std::feof(f)); std::rewind(f); A(std::fseek(f, 0, SEEK_END) == 0); A(std::ftell(f) == 4); A(std::fgetc(f) == EOF); std::clearerr(f); A(!std::ferror(f)); std::fclose(f); std::remove("p.bin"); }},
{"ofstream", []{ std::ofstream o("q.bin", std::ios::binary); A(o.is_open()); o.write("abc", 3); o << "def"; o.close(); A(!o.fail()); std::ifstream i("q.bin", std::ios::binary | std::ios::ate); A(i.tellg() == 6); i.seekg(0); std::string l; std::getline(i, l); A(l == "abcdef"); i.close(); std::remove("q.bin"); }},
{"ofstream-open", []{ std::ofstream o; o.open(std::string("r.bin"), std::ios_base::out | std::ios_base::binary | std::ios_base::trunc); A((bool)o); std::fstream f("r.bin", std::ios::in | std::ios::out | std::ios::binary); A((bool)f); std::filebuf b; }},
{"getline-ifstream", []{ { std::ofstream o("s.txt"); o << "a b\nc\n"; } std::ifstream i("s.txt"); int n = 0; for (std::string l; std::getline(i, l); ) n++; A(n == 2); std::ifstream j("s.txt"); std::string w; n = 0; while (j >> w) n++; A(n == 3); std::stringstream ss; ss << std::ifstream("s.txt").rdbuf(); A(ss.str() == "a b\nc\n"); }},
{"vector", []{ std::vector<int> v{3, 1, 2}; v.push_back(5); v.emplace_back(4); v.insert(v.begin(), 9); v.erase(v.begin()); std::sort(v.begin(), v.end()); A(v[0] == 1 && v.back() == 5); v.assign(3, 7); A(v.size() == 3); v.resize(10); v.shrink_to_fit(); std::vector<int> w(v.begin(), v.end()); v.swap(w); A(v == w); v.clear(); std::vector<bool> b(10); b[3] = true; A(b[3]); }},
{"sort", []{ std::vector<std::pair<int, std::string>> v{{2, "b"}, {1, "a"}}; std::stable_sort(v.begin(), v.end()); A(v[0].first == 1); std::sort(v.begin(), v.end(), [](const std::pair<int, std::string>& a, const std::pair<int, std::string>& b) { return a.first > b.first; }); A(v[0].first == 2); }},
{"algos", []{ std::array<int, 5> a{{1, 2, 3, 4, 5}}; A(std::accumulate(a.begin(), a.end(), 0) == 15); A(std::find(a.begin(), a.end(), 3) != a.end()); A(std::find_if(a.begin(), a.end(), [](int x) { return x > 3; }) - a.begin() == 3); A(std::all_of(a.begin(), a.end(), [](int x) { return x > 0; })); A(std::any_of(a.begin(), a.end(), [](int x) { return x > 4; })); A(std::none_of(a.begin(), a.end(), [](int x) { return x > 5; })); A(std::count(a.begin(), a.end(), 3) == 1); std::transform(a.begin(), a.end(), a.begin(), [](int x) { return x*2; }); A(a[4] == 10); std::reverse(a.begin(), a.end()); A(a[0] == 10); A(*std::max_element(a.begin(), a.end()) == 10); std::fill(a.begin(), a.end(), 1); std::iota(a.begin(), a.end(), 0); std::for_each(a.begin(), a.end(), [](int& x) { x++; }); std::swap(a[0], a[1]); std::swap_ranges(a.begin(), a.begin() + 1, a.begin() + 2); std::rotate(a.begin(), a.begin() + 1, a.end()); std::copy_backward(a.begin(), a.end() - 1, a.end()); A(std::equal(a.begin(), a.end(), a.begin())); std::generate(a.begin(), a.end(), []{ return 1; }); A(std::lower_bound(a.begin(), a.end(), 1) == a.begin()); A(std::minmax(1, 2).first == 1); A(std::binary_search(a.begin(), a.end(), 1)); A(std::inner_product(a.begin(), a.end(), a.begin(), 0) == 5); A(std::mismatch(a.begin(), a.end(), a.begin()).first == a.end()); A(std::lexicographical_compare(a.begin(), a.end(), a.begin(), a.end()) == false); A(std::distance(a.begin(), a.end()) == 5); A(std::max({1, 2, 3}) == 3); std::remove_if(a.begin(), a.end(), [](int) { return false; }); std::replace(a.begin(), a.end(), 1, 2); std::copy_if(a.begin(), a.end(), a.begin(), [](int) { return true; }); std::copy_n(a.begin(), 2, a.begin()); A(std::adjacent_find(a.begin(), a.end()) == a.begin()); std::unique(a.begin(), a.end()); A(std::search(a.begin(), a.end(), a.begin(), a.begin() + 1) == a.begin()); }},
{"map", []{ std::map<int, std::string> m{{1, "a"}, {2, "b"}}; m[3] = "c"; m.emplace(4, "d"); m.insert(std::make_pair(5, "e")); A(m.size() == 5); A(m.find(3)->second == "c"); A(m.count(9) == 0); m.erase(1); A(m.begin()->first == 2); A(m.at(2) == "b"); A(m.lower_bound(3)->first == 3); for (auto& p : m) p.second += "x"; A(m[2] == "bx"); }},
{"umap", []{ std::unordered_map<std::string, int> m{{"a", 1}, {"b", 2}}; A(m["a"] == 1); A(m.find("c") == m.end()); m.emplace("c", 3); A(m.size() == 3); std::unordered_map<int, int> n; for (int i = 0; i < 40; i++) n[i] = i; A(n.at(39) == 39); std::unordered_set<int> s{1, 2}; A(s.count(2) == 1); }},
{"set", []{ std::set<int> s{3, 1, 2}; A(*s.begin() == 1); s.insert(0); A(s.size() == 4); std::multimap<int, int> mm; mm.emplace(1, 2); mm.emplace(1, 3); A(mm.count(1) == 2); }},
{"list-deque", []{ std::list<int> l{1, 2}; l.push_front(0); A(l.front() == 0); l.sort(); std::deque<int> d; d.push_back(1); d.push_front(0); A(d[1] == 1); }},
{"tuple", []{ auto t = std::make_tuple(1, 2.0, std::string("x")); A(std::get<0>(t) == 1); int a; double b; std::string c; std::tie(a, b, c) = t; A(c == "x"); A(std::tie(a, b) < std::make_tuple(2, 0.0)); }},
{"function", []{ std::function<int(int)> f = [](int x) { return x + 1; }; A(f(1) == 2); auto g = std::bind([](int a, int b) { return a + b; }, std::placeholders::_1, 2); A(g(1) == 3); }},
{"shared_ptr", []{ auto p = std::make_shared<int>(3); auto q = p; A(*q == 3 && p.use_count() == 2); std::weak_ptr<int> w = p; A(!w.expired()); std::unique_ptr<int[]> u(new int[3]()); A(u[1] == 0); auto x = std::make_unique<std::string>("a"); A(*x == "a"); std::unique_ptr<FILE, int (*)(FILE*)> f(nullptr, &std::fclose); }},
{"dyncast", []{ struct B { virtual ~B() {} }; struct C : B { int v = 3; }; std::unique_ptr<B> b(new C); A(dynamic_cast<C*>(b.get())->v == 3); }},
{"bitset", []{ std::bitset<40> b; b.set(3); A(b.test(3)); A(b.count() == 1); }},
{"static", []{ static const std::vector<int> v = {1, 2, 3}; static const std::map<std::string, int> m = {{"x", 1}}; A(v[2] == 3 && m.at("x") == 1); }},
{"threadlocal", []{ static thread_local int x = 3; A(x++ == 3); }},
{"thread", []{ std::atomic<int> n(0); std::vector<std::thread> t; for (int i = 0; i < 2; i++) t.emplace_back([&n] { n.fetch_add(1, std::memory_order_relaxed); }); for (auto& x : t) if (x.joinable()) x.join(); A(n.load() == 2); int e = 2; A(n.compare_exchange_strong(e, 5)); A(n.exchange(6) == 5); }},
{"thread-args", []{ int r = 0; std::thread t([](int* p, int v) { *p = v; }, &r, 3); t.join(); A(r == 3); std::thread u([&r] { r++; }); std::thread v(std::move(u)); v.join(); A(r == 4); }},
{"mutex", []{ std::mutex m; int n = 0; std::vector<std::thread> t; for (int i = 0; i < 2; i++) t.emplace_back([&] { std::lock_guard<std::mutex> l(m); n++; }); for (auto& x : t) x.join(); A(n == 2); std::unique_lock<std::mutex> u(m); u.unlock(); A(m.try_lock()); m.unlock(); }},
{"condvar", []{ std::mutex m; std::condition_variable c; bool r = false; std::thread t([&] { std::lock_guard<std::mutex> l(m); r = true; c.notify_one(); }); { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return r; }); } t.join(); A(r); }},
{"future", []{ auto f = std::async(std::launch::async, [] { return 3; }); A(f.get() == 3); }},
{"once", []{ static std::once_flag f; int n = 0; std::call_once(f, [&] { n++; }); A(n == 1); }},
{"hwconc", []{ A(std::thread::hardware_concurrency() >= 1); }},
{"chrono", []{ auto t = std::chrono::steady_clock::now(); (void)t; }},
{"getenv", []{ const char* e = std::getenv("FOO"); (void)e; }},
{"errno", []{ errno = 0; std::FILE* f = std::fopen("/nonexistent/x", "rb"); A(!f); A(errno == ENOENT); A(std::strlen(std::strerror(errno)) > 0); }},
{"divmod", []{ auto d = std::div(7, 2); A(d.quot == 3 && d.rem == 1); A(std::abs(-3) == 3); A(std::labs(-3L) == 3); }},
{"qsort", []{ int a[3] = {3, 1, 2}; std::qsort(a, 3, sizeof(int), [](const void* x, const void* y) { return *(const int*)x - *(const int*)y; }); A(a[0] == 1); }},
{"malloc", []{ void* p = std::malloc(10); A(p); p = std::realloc(p, 20); A(p); std::free(p); p = std::calloc(2, 3); A(((char*)p)[5] == 0); std::free(p); }},
{"nothrow", []{ int* p = new (std::nothrow) int[3]; A(p); delete[] p; }},
{"aligned", []{ struct alignas(32) Q { char c[32]; }; Q q; A(((size_t)&q & 31) == 0); std::aligned_storage<16, 16>::type s; A(((size_t)&s & 15) == 0); }},
{"numeric_limits", []{ A(std::numeric_limits<float>::max() > 1e38f); A(std::numeric_limits<double>::infinity() > 1); }},
{"varargs", []{ A([](std::initializer_list<int> l) { int s = 0; for (int x : l) s += x; return s; }({1, 2, 3}) == 6); }},
{"goto", []{ int i = 0; again: if (++i < 10) goto again; A(i == 10); }},
{"int128", []{ unsigned __int128 x = (unsigned __int128)U()*U(); A((uint64_t)x <= 10000); }},
{"vla", []{ unsigned n = 5; char* p = (char*)__builtin_alloca(n); p[4] = 1; A(p[4] == 1); }},
{"bitfield", []{ struct { unsigned a : 5, b : 6, c : 5; } s = {31, 63, 31}; A(s.b == 63); }},
{"union", []{ union { float f; uint32_t u; } x; x.f = 1; A(x.u == 0x3F800000); }},
{"move_iter", []{ std::vector<std::string> a{"x", "y"}, b; b.insert(b.end(), std::make_move_iterator(a.begin()), std::make_move_iterator(a.end())); A(b[1] == "y"); std::copy(b.begin(), b.end(), std::back_inserter(a)); std::move(b.begin(), b.end(), a.begin()); }},
{"exchange", []{ int a = 1; A(std::exchange(a, 2) == 1 && a == 2); }},
{"hash", []{ A(std::hash<int>()(3) == 3); A(std::hash<std::string>()("x") == std::hash<std::string>()("x")); }},
{"typeid", []{ int i = 0; A(typeid(i) == typeid(int)); }},
{"regexless-split", []{ std::string s = "a,b"; std::istringstream i(s); std::vector<std::string> v; std::string p; while (std::getline(i, p, ',')) v.push_back(p); A(v.size() == 2); }},
{"sscanf", []{ int a, b; A(std::sscanf("3 4", "%d %d", &a, &b) == 2 && a == 3 && b == 4); }},
{"strtok", []{ char b[] = "a b"; char* t = std::strtok(b, " "); A(t && *t == 'a'); }},
{"strdup", []{ char* p = strdup("abc"); A(p[2] == 'c'); free(p); }},
{"complex-switch", []{ unsigned u = U(); unsigned r = 0; switch (u) { case 0: r = 1; break; case 50: r = 2; break; default: r = 3; } A(r >= 1 && r <= 3); }},
{"quick_exit", []{ std::atexit([] {}); }},
{"valarray", []{ std::vector<double> v(4, 1.0); A(std::accumulate(v.begin(), v.end(), 0.0) == 4); double s = 0; for (auto it = v.rbegin(); it != v.rend(); ++it) s += *it; A(s == 4); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::partial_sum(v.begin(), v.end(), v.begin()); A(v[3] == 4);}},
{"float-ops", []{ float f = (float)D(); uint32_t b; std::memcpy(&b, &f, 4); A((b >> 31) == (uint32_t)std::signbit(f)); A(std::abs(f) >= 0); }},
{"simd", []{ __m128 a = _mm_set1_ps(1.0f), b = _mm_set_ps(1, 2, 3, 4); a = _mm_add_ps(a, b); a = _mm_mul_ps(a, b); a = _mm_min_ps(a, _mm_setzero_ps()); a = _mm_max_ps(a, b); float o[4]; _mm_storeu_ps(o, a); A(o[0] == 4); __m128i i = _mm_cvtps_epi32(b); A(_mm_cvtsi128_si32(i) == 4); i = _mm_cvttps_epi32(b); i = _mm_packs_epi32(i, i); i = _mm_packus_epi16(i, i); A((_mm_cvtsi128_si32(i) & 255) == 4); a = _mm_sqrt_ps(b); _mm_storeu_ps(o, a); A(o[0] == 2); a = _mm_shuffle_ps(b, b, 0x1B); a = _mm_cmplt_ps(a, b); int m = _mm_movemask_ps(a); (void)m; }},
};
SYM_ENTRY zz_probe() { int k = (int)sym_param("k", 0); if (k < (int)(sizeof(kT)/sizeof(*kT))) kT[k].f(); sym_cover("done"); }
SYM_ENTRY zz_names() { for (auto& t : kT) printf("%s\n", t.n); }
