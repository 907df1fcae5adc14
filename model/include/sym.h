// Harness interface. The same harness source is compiled (a) to LLVM IR together with /repo's
// sources and the environment model and executed symbolically, and (b) natively against the real
// libraries to replay counterexamples and to cross-check sampled paths.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
extern "C" {
uint64_t sym_bits(const char* name, int width);
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi);
uint64_t sym_concretize(uint64_t v);
int64_t sym_param(const char* name, int64_t def);
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_cover(const char* name);
void sym_observe(const char* name, uint64_t v);
void sym_end();
void sym_print(const char* s, uint64_t v);
int sym_and(int a, int b);
int sym_or(int a, int b);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
int sym_is_symbolic(uint64_t v);
int sym_mem_ok(const void* p, uint64_t n);
int sym_is_undef(uint64_t v);
int sym_native();

// Environment control (model in the symbolic run, real files below a scratch directory natively).
void env_file(const char* path, const void* data, size_t n);
void env_dir(const char* path);
void env_write_limit(long bytes);      // every file write past this offset fails; <0: no limit
long env_file_size(const char* path);  // -1 when the file does not exist
void env_file_read(const char* path, void* out, size_t n);
void env_image(const char* path, void* fibitmap); // takes a copy; any extension
void env_threads(unsigned n);          // hardware concurrency (model only)
}
static inline float sym_float(const char* n) { uint32_t u = (uint32_t)sym_bits(n, 32); float f; __builtin_memcpy(&f, &u, 4); return f; }
static inline double sym_double(const char* n) { uint64_t u = sym_bits(n, 64); double f; __builtin_memcpy(&f, &u, 8); return f; }
static inline uint64_t sym_pick(const char* n, uint64_t lo, uint64_t hi) { return sym_concretize(sym_range(n, lo, hi)); }
static inline uint32_t f2u(float f) { uint32_t u; __builtin_memcpy(&u, &f, 4); return u; }
static inline uint64_t d2u(double f) { uint64_t u; __builtin_memcpy(&u, &f, 8); return u; }
static inline void sym_observe_f(const char* n, float f) { sym_observe(n, f2u(f)); }
static inline void sym_observe_d(const char* n, double f) { sym_observe(n, d2u(f)); }
#define SYM_ENTRY extern "C" __attribute__((used)) void
