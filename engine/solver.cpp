#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <unordered_set>
SolverStats gStats;

static z3::context* C;
// Every term is kept for the life of the process: an unreferenced intermediate may be collected at
// the next call of the C interface.
static Z3_ast held(Z3_ast a);
#define Z3_mk_and(...) held(Z3_mk_and(__VA_ARGS__))
#define Z3_mk_app(...) held(Z3_mk_app(__VA_ARGS__))
#define Z3_mk_bvadd(...) held(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvand(...) held(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) held(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) held(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) held(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvor(...) held(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) held(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvshl(...) held(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvsle(...) held(Z3_mk_bvsle(__VA_ARGS__))
#define Z3_mk_bvslt(...) held(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) held(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) held(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvudiv(...) held(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvule(...) held(Z3_mk_bvule(__VA_ARGS__))
#define Z3_mk_bvult(...) held(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) held(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) held(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) held(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_const(...) held(Z3_mk_const(__VA_ARGS__))
#define Z3_mk_eq(...) held(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) held(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_false(...) held(Z3_mk_false(__VA_ARGS__))
#define Z3_mk_fpa_add(...) held(Z3_mk_fpa_add(__VA_ARGS__))
#define Z3_mk_fpa_div(...) held(Z3_mk_fpa_div(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) held(Z3_mk_fpa_eq(__VA_ARGS__))
#define Z3_mk_fpa_fma(...) held(Z3_mk_fpa_fma(__VA_ARGS__))
#define Z3_mk_fpa_geq(...) held(Z3_mk_fpa_geq(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) held(Z3_mk_fpa_is_nan(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) held(Z3_mk_fpa_leq(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) held(Z3_mk_fpa_lt(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) held(Z3_mk_fpa_mul(__VA_ARGS__))
#define Z3_mk_fpa_numeral_double(...) held(Z3_mk_fpa_numeral_double(__VA_ARGS__))
#define Z3_mk_fpa_numeral_float(...) held(Z3_mk_fpa_numeral_float(__VA_ARGS__))
#define Z3_mk_fpa_rem(...) held(Z3_mk_fpa_rem(__VA_ARGS__))
#define Z3_mk_fpa_rna(...) held(Z3_mk_fpa_rna(__VA_ARGS__))
#define Z3_mk_fpa_rne(...) held(Z3_mk_fpa_rne(__VA_ARGS__))
#define Z3_mk_fpa_round_to_integral(...) held(Z3_mk_fpa_round_to_integral(__VA_ARGS__))
#define Z3_mk_fpa_rtn(...) held(Z3_mk_fpa_rtn(__VA_ARGS__))
#define Z3_mk_fpa_rtp(...) held(Z3_mk_fpa_rtp(__VA_ARGS__))
#define Z3_mk_fpa_rtz(...) held(Z3_mk_fpa_rtz(__VA_ARGS__))
#define Z3_mk_fpa_sqrt(...) held(Z3_mk_fpa_sqrt(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) held(Z3_mk_fpa_sub(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) held(Z3_mk_fpa_to_fp_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) held(Z3_mk_fpa_to_fp_float(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) held(Z3_mk_fpa_to_fp_signed(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) held(Z3_mk_fpa_to_fp_unsigned(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) held(Z3_mk_fpa_to_ieee_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) held(Z3_mk_fpa_to_sbv(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) held(Z3_mk_fpa_to_ubv(__VA_ARGS__))
#define Z3_mk_iff(...) held(Z3_mk_iff(__VA_ARGS__))
#define Z3_mk_ite(...) held(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_not(...) held(Z3_mk_not(__VA_ARGS__))
#define Z3_mk_numeral(...) held(Z3_mk_numeral(__VA_ARGS__))
#define Z3_mk_or(...) held(Z3_mk_or(__VA_ARGS__))
#define Z3_mk_sign_ext(...) held(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_true(...) held(Z3_mk_true(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) held(Z3_mk_unsigned_int64(__VA_ARGS__))
#define Z3_mk_xor(...) held(Z3_mk_xor(__VA_ARGS__))
#define Z3_mk_zero_ext(...) held(Z3_mk_zero_ext(__VA_ARGS__))
static Z3_ast held(Z3_ast a) { Z3_inc_ref(*C, a); return a; }
typedef std::unordered_map<uint32_t, Z3_ast> AstMap;
struct Caches { AstMap bv, fp, bo; };
// exact translation, and an over-approximation in which products and quotients with a positive
// constant are fresh values constrained by monotonicity (1), or in which results combining values of
// different inputs are fresh values (2). An UNSAT answer there is an UNSAT answer.
static Caches gCaches[3];
static int gAbs = 0;
#define bvCache gCaches[gAbs].bv
#define fpCache gCaches[gAbs].fp
#define boolCache gCaches[gAbs].bo
static std::unordered_map<uint32_t, Z3_func_decl> ufDecl;

static Z3_sort fpSort(unsigned w)
{
	Z3_context c = *C;
	static Z3_sort s16 = nullptr, s32 = nullptr, s64 = nullptr;
	Z3_sort& s = w == 64 ? s64 : w == 32 ? s32 : s16;
	if (!s) {
		s = w == 64 ? Z3_mk_fpa_sort_64(c) : w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_16(c);
		Z3_inc_ref(c, Z3_sort_to_ast(c, s));
	}
	return s;
}
static Z3_ast rmAst(unsigned rm)
{
	Z3_context c = *C;
	switch (rm) {
	case RNE: return Z3_mk_fpa_rne(c);
	case RNA: return Z3_mk_fpa_rna(c);
	case RTP: return Z3_mk_fpa_rtp(c);
	case RTN: return Z3_mk_fpa_rtn(c);
	default: return Z3_mk_fpa_rtz(c);
	}
}
static Z3_ast bvNum(u128 v, unsigned w)
{
	Z3_context c = *C;
	Z3_sort s = Z3_mk_bv_sort(c, w);
	if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, s);
	std::string d;
	u128 x = v;
	if (!x) d = "0";
	while (x) { d += char('0' + (int)(x % 10)); x /= 10; }
	std::reverse(d.begin(), d.end());
	return Z3_mk_numeral(c, d.c_str(), s);
}
static Z3_ast bvOf(Node* n);
static Z3_ast fpOf(Node* n);
static Z3_ast boolOf(Node* n);

static Z3_ast keep(std::unordered_map<uint32_t, Z3_ast>& m, Node* n, Z3_ast a)
{
	Z3_inc_ref(*C, a);
	m[n->id] = a;
	return a;
}
static Z3_ast b2bv(Z3_ast b)
{
	z3::expr one(*C, bvNum(1, 1)), zero(*C, bvNum(0, 1));
	return Z3_mk_ite(*C, b, one, zero);
}
static bool isBoolOp(Node* n)
{
	switch (n->op) {
	case OEq: case OUlt: case OUle: case OSlt: case OSle: case OFEq: case OFLt: case OFLe: case OFNan: return true;
	case OAnd: case OOr: case OXor: case OIte: return n->w == 1;
	default: return false;
	}
}
static Z3_ast boolOf(Node* n)
{
	auto it = boolCache.find(n->id);
	if (it != boolCache.end()) return it->second;
	Z3_context c = *C;
	Z3_ast r;
	switch (n->op) {
	case OConst: r = n->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
	case OEq:
		if (n->k[0]->w == 1) r = Z3_mk_iff(c, boolOf(n->k[0]), boolOf(n->k[1]));
		else r = Z3_mk_eq(c, bvOf(n->k[0]), bvOf(n->k[1]));
		break;
	case OUlt: r = Z3_mk_bvult(c, bvOf(n->k[0]), bvOf(n->k[1])); break;
	case OUle: r = Z3_mk_bvule(c, bvOf(n->k[0]), bvOf(n->k[1])); break;
	case OSlt: r = Z3_mk_bvslt(c, bvOf(n->k[0]), bvOf(n->k[1])); break;
	case OSle: r = Z3_mk_bvsle(c, bvOf(n->k[0]), bvOf(n->k[1])); break;
	case OFEq: r = Z3_mk_fpa_eq(c, fpOf(n->k[0]), fpOf(n->k[1])); break;
	case OFLt: r = Z3_mk_fpa_lt(c, fpOf(n->k[0]), fpOf(n->k[1])); break;
	case OFLe: r = Z3_mk_fpa_leq(c, fpOf(n->k[0]), fpOf(n->k[1])); break;
	case OFNan: r = Z3_mk_fpa_is_nan(c, fpOf(n->k[0])); break;
	case OAnd: if (n->w == 1) { Z3_ast a[2] = {boolOf(n->k[0]), boolOf(n->k[1])}; r = Z3_mk_and(c, 2, a); break; } goto dflt;
	case OOr: if (n->w == 1) { Z3_ast a[2] = {boolOf(n->k[0]), boolOf(n->k[1])}; r = Z3_mk_or(c, 2, a); break; } goto dflt;
	case OXor:
		if (n->w == 1) {
			if (n->k[1]->op == OConst) r = n->k[1]->c ? Z3_mk_not(c, boolOf(n->k[0])) : boolOf(n->k[0]);
			else r = Z3_mk_xor(c, boolOf(n->k[0]), boolOf(n->k[1]));
			break;
		}
		goto dflt;
	case OIte: if (n->w == 1) { r = Z3_mk_ite(c, boolOf(n->k[0]), boolOf(n->k[1]), boolOf(n->k[2])); break; } goto dflt;
	default: dflt:
		r = Z3_mk_eq(c, bvOf(n), bvNum(1, 1));
	}
	return keep(boolCache, n, r);
}
static Z3_ast bvOf(Node* n)
{
	auto it = bvCache.find(n->id);
	if (it != bvCache.end()) return it->second;
	Z3_context c = *C;
	Z3_ast r;
	if (n->op != OConst && isBoolOp(n)) return keep(bvCache, n, b2bv(boolOf(n)));
	if (isFPOp(n)) {
		Z3_ast f = fpOf(n);
		z3::expr nan(*C, bvNum(n->w == 64 ? 0x7ff8000000000000ull : n->w == 32 ? 0x7fc00000u : 0x7e00u, n->w));
		z3::expr isn(*C, Z3_mk_fpa_is_nan(c, f)), bits(*C, Z3_mk_fpa_to_ieee_bv(c, f));
		r = Z3_mk_ite(c, isn, nan, bits);
		return keep(bvCache, n, r);
	}
	Node *a = n->k[0], *b = n->k[1], *d = n->k[2];
	switch (n->op) {
	case OConst: r = bvNum(n->c, n->w); break;
	case OVar: r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(n->aux)).c_str()), Z3_mk_bv_sort(c, n->w)); break;
	case OAdd: r = Z3_mk_bvadd(c, bvOf(a), bvOf(b)); break;
	case OSub: r = Z3_mk_bvsub(c, bvOf(a), bvOf(b)); break;
	case OMul: r = Z3_mk_bvmul(c, bvOf(a), bvOf(b)); break;
	case OUDiv: r = Z3_mk_bvudiv(c, bvOf(a), bvOf(b)); break;
	case OSDiv: r = Z3_mk_bvsdiv(c, bvOf(a), bvOf(b)); break;
	case OURem: r = Z3_mk_bvurem(c, bvOf(a), bvOf(b)); break;
	case OSRem: r = Z3_mk_bvsrem(c, bvOf(a), bvOf(b)); break;
	case OAnd: r = Z3_mk_bvand(c, bvOf(a), bvOf(b)); break;
	case OOr: r = Z3_mk_bvor(c, bvOf(a), bvOf(b)); break;
	case OXor: r = Z3_mk_bvxor(c, bvOf(a), bvOf(b)); break;
	case OShl: r = Z3_mk_bvshl(c, bvOf(a), bvOf(b)); break;
	case OLShr: r = Z3_mk_bvlshr(c, bvOf(a), bvOf(b)); break;
	case OAShr: r = Z3_mk_bvashr(c, bvOf(a), bvOf(b)); break;
	case OConcat: r = Z3_mk_concat(c, bvOf(a), bvOf(b)); break;
	case OExtract: r = Z3_mk_extract(c, n->aux + n->w - 1, n->aux, bvOf(a)); break;
	case OZExt: r = Z3_mk_zero_ext(c, n->w - a->w, bvOf(a)); break;
	case OSExt: r = Z3_mk_sign_ext(c, n->w - a->w, bvOf(a)); break;
	case OIte: r = Z3_mk_ite(c, boolOf(a), bvOf(b), bvOf(d)); break;
	case OFToSI: r = Z3_mk_fpa_to_sbv(c, rmAst(RTZ), fpOf(a), n->w); break;
	case OFToUI: r = Z3_mk_fpa_to_ubv(c, rmAst(RTZ), fpOf(a), n->w); break;
	default: fprintf(stderr, "bvOf: op %d\n", n->op); abort();
	}
	return keep(bvCache, n, r);
}
// x*k, k*x or x/k with a finite constant k > 0: returns x and k.
static bool mulByConst(Node* n, Node*& x, Node*& k)
{
	if (n->op != OFMul && n->op != OFDiv) return false;
	x = n->k[0]; k = n->k[1];
	if (n->op == OFMul && x->op == OConst) std::swap(x, k);
	if (k->op != OConst || x->op == OConst || n->w == 16) return false;
	double d;
	if (n->w == 32) { uint32_t u = (uint32_t)k->c; float f; memcpy(&f, &u, 4); d = f; }
	else { uint64_t u = (uint64_t)k->c; memcpy(&d, &u, 8); }
	return d > 1e-30 && d < 1e30;
}
static bool joinNode(Node* n)
{
	if (n->op != OFAdd && n->op != OFSub && n->op != OFMul && n->op != OFDiv) return false;
	auto *a = n->k[0]->vars, *b = n->k[1]->vars;
	return !a->empty() && !b->empty() && a != b;
}
static bool absNode(Node* n) { Node *x, *k; return gAbs == 2 ? joinNode(n) : mulByConst(n, x, k); }
static Z3_ast fpOf(Node* n)
{
	auto it = fpCache.find(n->id);
	if (it != fpCache.end()) return it->second;
	if (gAbs && absNode(n))
		return keep(fpCache, n, Z3_mk_const(*C, Z3_mk_string_symbol(*C, ((gAbs == 2 ? "j" : "m") + std::to_string(n->id)).c_str()), fpSort(n->w)));
	Z3_context c = *C;
	Z3_ast r;
	Node *a = n->k[0], *b = n->k[1], *d = n->k[2];
	switch (n->op) {
	case OFAdd: r = Z3_mk_fpa_add(c, rmAst(RNE), fpOf(a), fpOf(b)); break;
	case OFSub: r = Z3_mk_fpa_sub(c, rmAst(RNE), fpOf(a), fpOf(b)); break;
	case OFMul: r = Z3_mk_fpa_mul(c, rmAst(RNE), fpOf(a), fpOf(b)); break;
	case OFDiv: r = Z3_mk_fpa_div(c, rmAst(RNE), fpOf(a), fpOf(b)); break;
	case OFRem: r = Z3_mk_fpa_rem(c, fpOf(a), fpOf(b)); break;
	case OFSqrt: r = Z3_mk_fpa_sqrt(c, rmAst(RNE), fpOf(a)); break;
	case OFFma: r = Z3_mk_fpa_fma(c, rmAst(RNE), fpOf(a), fpOf(b), fpOf(d)); break;
	case OFRnd: r = Z3_mk_fpa_round_to_integral(c, rmAst(n->aux), fpOf(a)); break;
	case OFCvt: r = Z3_mk_fpa_to_fp_float(c, rmAst(n->aux), fpOf(a), fpSort(n->w)); break;
	case OSIToF: r = Z3_mk_fpa_to_fp_signed(c, rmAst(RNE), bvOf(a), fpSort(n->w)); break;
	case OUIToF: r = Z3_mk_fpa_to_fp_unsigned(c, rmAst(RNE), bvOf(a), fpSort(n->w)); break;
	case OIte: r = Z3_mk_ite(c, boolOf(a), fpOf(b), fpOf(d)); break;
	case OUF: {
		uint32_t key = n->aux * 128 + n->w;
		auto f = ufDecl.find(key);
		if (f == ufDecl.end()) {
			Z3_sort s = Z3_mk_bv_sort(c, n->w);
			Z3_sort dom[2] = {s, s};
			Z3_func_decl fd = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, ("uf" + std::to_string(key)).c_str()), 2, dom, s);
			Z3_inc_ref(c, Z3_func_decl_to_ast(c, fd));
			f = ufDecl.emplace(key, fd).first;
		}
		Z3_ast args[2] = {bvOf(a), bvOf(b)};
		r = Z3_mk_fpa_to_fp_bv(c, Z3_mk_app(c, f->second, 2, args), fpSort(n->w));
		break;
	}
	default: r = Z3_mk_fpa_to_fp_bv(c, bvOf(n), fpSort(n->w)); break;
	}
	return keep(fpCache, n, r);
}

static bool hasFP(Node* n, std::unordered_map<uint32_t, bool>& seen)
{
	auto it = seen.find(n->id);
	if (it != seen.end()) return it->second;
	bool r = isFPOp(n) || n->op == OFToSI || n->op == OFToUI || n->op == OFEq || n->op == OFLt || n->op == OFLe || n->op == OFNan;
	for (int i = 0; !r && i < 3 && n->k[i]; i++) r = hasFP(n->k[i], seen);
	seen[n->id] = r;
	return r;
}
static void collectUF(Node* n, std::unordered_set<uint32_t>& seen, std::vector<Node*>& out)
{
	if (!n->hasUF || !seen.insert(n->id).second) return;
	for (int i = 0; i < 3 && n->k[i]; i++) collectUF(n->k[i], seen, out);
	if (n->op == OUF) out.push_back(n);
}

static bool anyJoin;
static void collectAbs(Node* n, std::unordered_set<uint32_t>& seen, std::vector<Node*>& out, size_t& size)
{
	if (!seen.insert(n->id).second) return;
	size++;
	for (int i = 0; i < 3 && n->k[i]; i++) collectAbs(n->k[i], seen, out, size);
	if (absNode(n)) out.push_back(n);
	anyJoin |= joinNode(n);
}
static Z3_ast fpNum(double d, unsigned w) { return w == 32 ? Z3_mk_fpa_numeral_float(*C, (float)d, fpSort(32)) : Z3_mk_fpa_numeral_double(*C, d, fpSort(64)); }
static double scaled(Node* n, Node* k, double t)
{
	if (n->w == 32) { uint32_t u = (uint32_t)k->c; float f; memcpy(&f, &u, 4); float tf = (float)t; volatile float r = n->op == OFMul ? tf * f : tf / f; return r; }
	uint64_t u = (uint64_t)k->c; double d; memcpy(&d, &u, 8);
	volatile double r = n->op == OFMul ? t * d : t / d;
	return r;
}
static void absLemmas(const std::vector<Node*>& ns, std::vector<z3::expr>& out)
{
	Z3_context c = *C;
	static const double T[] = {-65535, -255, -1, 0, 1, 255, 65535};
	auto E = [&](Z3_ast a) { return z3::expr(*C, a); };
	for (size_t i = 0; i < ns.size(); i++) {
		Node *x, *k; mulByConst(ns[i], x, k);
		Z3_ast xa = fpOf(x), m = fpOf(ns[i]);
		out.push_back(E(Z3_mk_fpa_is_nan(c, xa)) == E(Z3_mk_fpa_is_nan(c, m)));
		for (double t : T) {
			double v = scaled(ns[i], k, t);
			out.push_back(z3::implies(E(Z3_mk_fpa_geq(c, xa, fpNum(t, x->w))), E(Z3_mk_fpa_geq(c, m, fpNum(v, x->w)))));
			out.push_back(z3::implies(E(Z3_mk_fpa_leq(c, xa, fpNum(t, x->w))), E(Z3_mk_fpa_leq(c, m, fpNum(v, x->w)))));
		}
		for (size_t j = 0; j < i && ns.size() <= 12; j++) {
			Node *x2, *k2; mulByConst(ns[j], x2, k2);
			if (k2 != k || ns[j]->op != ns[i]->op) continue;
			Z3_ast xb = fpOf(x2), m2 = fpOf(ns[j]);
			out.push_back(z3::implies(E(Z3_mk_fpa_leq(c, xa, xb)), E(Z3_mk_fpa_leq(c, m, m2))));
			out.push_back(z3::implies(E(Z3_mk_fpa_geq(c, xa, xb)), E(Z3_mk_fpa_geq(c, m, m2))));
		}
	}
}
// Local search: candidate assignments evaluated on the formula itself.
static uint64_t rngState = 0x9e3779b97f4a7c15ull;
void solverSeed(uint64_t s) { rngState = 0x9e3779b97f4a7c15ull ^ (s * 0xbf58476d1ce4e5b9ull); }
static uint64_t rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static u128 candidate(unsigned w)
{
	static const double D[] = {0, 1, -1, 0.5, 2, -2, 0.25, 0.75, 255, 65535, 1e-3, 1e10, -1e10, 3e38, 0.04, 0.2, 0.003, 127, 128, -128, 32768};
	unsigned r = (unsigned)(rnd() % 16);
	if (w == 32 || w == 64) {
		double d = 0; bool have = true;
		if (r < 6) d = (double)(rnd() >> 11) / 9007199254740992.0;
		else if (r < 8) d = ((double)(rnd() >> 11) / 9007199254740992.0 * 2 - 1) * 4;
		else if (r < 11) d = D[rnd() % (sizeof(D) / sizeof(*D))];
		else if (r < 13) d = std::ldexp((double)(rnd() >> 11) / 9007199254740992.0, (int)(rnd() % 60) - 30) * (rnd() & 1 ? 1 : -1);
		else have = false;
		if (have) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
	}
	u128 v = rnd();
	if (w > 64) v = v << 64 | rnd();
	if (r % 4 == 0) v = rnd() % 8;
	return v & maskw(w);
}
static bool guess(const std::vector<Node*>& cs, const std::vector<uint32_t>& vs, Model& out, size_t size)
{
	// Keep only as much effort as a short solver call would take.
	int tries = (int)std::min<size_t>(400, 400000 / (size + 1) + 4);
	Model m;
	for (int t = 0; t < tries; t++) {
		if (t == 0 || rnd() % 3 == 0) for (uint32_t v : vs) m[v] = t == 0 ? 0 : candidate(gVars[v].w);
		else m[vs[rnd() % vs.size()]] = candidate(gVars[vs[rnd() % vs.size()]].w);
		for (uint32_t v : vs) m[v] &= maskw(gVars[v].w);
		Evaluator ev(&m);
		bool good = true;
		for (Node* n : cs) if (!ev.eval(n)) { good = false; break; }
		if (good) { out = m; return true; }
	}
	return false;
}

static std::unordered_map<std::string, std::pair<SatRes, Model>> qCache;

SatRes solve(const std::vector<Node*>& cs0, Model& model, unsigned timeoutMs)
{
	if (!C) { C = new z3::context(); }
	std::vector<Node*> cs = cs0;
	std::sort(cs.begin(), cs.end(), [](Node* a, Node* b) { return a->id < b->id; });
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	std::string key;
	for (Node* n : cs) { if (n->op == OConst && !n->c) return UNSAT; key += std::to_string(n->id) + ","; }
	auto hit = qCache.find(key);
	if (hit != qCache.end()) { gStats.cacheHits++; if (hit->second.first == SAT) for (auto& kv : hit->second.second) model[kv.first] = kv.second; return hit->second.first; }
	auto t0 = std::chrono::steady_clock::now();
	SatRes res = UNKNOWN;
	Model out;
	try {
		static std::unordered_map<uint32_t, bool> fpSeen;
		bool fp = false, uf = false;
		for (Node* n : cs) { fp |= hasFP(n, fpSeen); uf |= n->hasUF; }
		z3::context& c = *C;
		std::vector<z3::expr> extra;
		if (fp || uf) {
			std::unordered_set<uint32_t> seen, vset; std::vector<Node*> muls; size_t size = 0; anyJoin = false;
			for (Node* n : cs) { collectAbs(n, seen, muls, size); for (uint32_t v : *n->vars) vset.insert(v); }
			std::vector<uint32_t> vs(vset.begin(), vset.end());
			std::sort(vs.begin(), vs.end());
			if (!vs.empty() && guess(cs, vs, out, size)) { gStats.modelHits++; res = SAT; }
			if (res == UNKNOWN && anyJoin) {
				gAbs = 2;
				try {
					z3::solver s = uf ? z3::solver(c) : z3::tactic(c, "qffp").mk_solver();
					z3::params p(c);
					p.set("timeout", timeoutMs / 4);
					s.set(p);
					for (Node* n : cs) s.add(z3::expr(c, boolOf(n)));
					gStats.queries++;
					if (s.check() == z3::unsat) res = UNSAT;
				} catch (z3::exception& e) { fprintf(stderr, "z3: %s\n", e.msg()); }
				gAbs = 0;
			}
			if (res == UNKNOWN && !muls.empty()) {
				gAbs = 1;
				try {
					z3::solver s = uf ? z3::solver(c) : z3::tactic(c, "qffp").mk_solver();
					z3::params p(c);
					p.set("timeout", timeoutMs / 2);
					s.set(p);
					std::vector<z3::expr> lem;
					absLemmas(muls, lem);
					for (Node* n : cs) s.add(z3::expr(c, boolOf(n)));
					for (auto& e : lem) s.add(e);
					gStats.queries++;
					if (s.check() == z3::unsat) res = UNSAT;
				} catch (z3::exception& e) { fprintf(stderr, "z3: %s\n", e.msg()); }
				gAbs = 0;
			}
		}
		for (int iter = 0; iter < 12 && res == UNKNOWN; iter++) {
			z3::solver s = uf ? z3::solver(c) : fp ? (z3::tactic(c, "qffp").mk_solver()) : z3::tactic(c, "qfbv").mk_solver();
			z3::params p(c);
			p.set("timeout", timeoutMs);
			s.set(p);
			for (Node* n : cs) s.add(z3::expr(c, boolOf(n)));
			for (auto& e : extra) s.add(e);
			z3::check_result r = s.check();
			gStats.queries++;
			if (r == z3::unsat) { res = UNSAT; break; }
			if (r == z3::unknown) { res = UNKNOWN; break; }
			z3::model m = s.get_model();
			out.clear();
			std::unordered_set<uint32_t> vs;
			for (Node* n : cs) for (uint32_t v : *n->vars) vs.insert(v);
			for (uint32_t v : vs) {
				unsigned w = gVars[v].w;
				z3::expr x(c, Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(v)).c_str()), Z3_mk_bv_sort(c, w)));
				z3::expr val = m.eval(x, true);
				std::string str = Z3_get_numeral_string(c, val);
				u128 q = 0;
				for (char ch : str) q = q * 10 + (ch - '0');
				out[v] = q;
			}
			Evaluator ev(&out);
			bool good = true;
			for (Node* n : cs) if (!ev.eval(n)) { good = false; break; }
			if (good) { res = SAT; break; }
			if (!uf) { fprintf(stderr, "symir: solver model does not satisfy the constraints under host evaluation\n");
				for (Node* n : cs) if (!ev.eval(n)) fprintf(stderr, "  %s\n", nodeStr(n, 8).c_str());
				res = UNKNOWN; break; }
			// Refine the uninterpreted libm functions at the points of this model.
			gStats.refinements++;
			std::unordered_set<uint32_t> seen; std::vector<Node*> ufs;
			for (Node* n : cs) collectUF(n, seen, ufs);
			for (Node* u : ufs) {
				u128 a = ev.eval(u->k[0]), b = ev.eval(u->k[1]), v = ev.eval(u);
				z3::expr pre = z3::expr(c, Z3_mk_eq(c, bvOf(u->k[0]), bvNum(a, u->w))) && z3::expr(c, Z3_mk_eq(c, bvOf(u->k[1]), bvNum(b, u->w)));
				extra.push_back(z3::implies(pre, z3::expr(c, Z3_mk_eq(c, bvOf(u), bvNum(v, u->w)))));
			}
		}
	} catch (z3::exception& e) {
		fprintf(stderr, "z3: %s\n", e.msg());
		res = UNKNOWN;
	}
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	gStats.time += dt;
	if (dt > gStats.maxTime) gStats.maxTime = dt;
	if (res == SAT) { gStats.sat++; for (auto& kv : out) model[kv.first] = kv.second; }
	else if (res == UNSAT) gStats.unsat++;
	else gStats.unknown++;
	qCache[key] = {res, out};
	return res;
}
