// Hash-consed bit-vector / IEEE-754 expression DAG with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <cmath>

typedef unsigned __int128 u128;

enum Op : uint8_t {
	OConst, OVar,
	OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
	OConcat, OExtract, OZExt, OSExt, OIte,
	OEq, OUlt, OUle, OSlt, OSle,
	OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFFma, OFRnd,
	OFEq, OFLt, OFLe, OFNan, OFCvt, OFToSI, OFToUI, OSIToF, OUIToF,
	OUF, // uninterpreted libm function, aux = UFKind
};
enum UFKind { UPow, UExp2, ULog2, UExp, ULog, USin, UCos, UTan, UAtan2, UAtan, UAsin, UAcos, ULog10, UCbrt, UFmod, ULdexp, UHypot };

// Rounding modes used in OFRnd / OFCvt aux.
enum RM { RNE = 0, RNA = 1, RTP = 2, RTN = 3, RTZ = 4 };

struct VarInfo { std::string name; unsigned w; bool undef; };

struct Node {
	uint32_t id;
	Op op;
	uint16_t w;
	uint32_t aux;
	Node* k[3];
	u128 c;
	uint64_t hash;
	std::vector<uint32_t>* vars; // sorted var ids
	bool hasUF;
	bool hasUndef;
};

struct V {
	uint64_t c;
	Node* n;
	V(): c(0), n(nullptr) {}
	V(uint64_t x): c(x), n(nullptr) {}
	V(uint64_t x, Node* nn): c(x), n(nn) {}
	bool conc() const { return !n; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline __int128 sext128(u128 v, unsigned w) { return w >= 128 ? (__int128)v : (__int128)(v << (128 - w)) >> (128 - w); }

extern std::vector<VarInfo> gVars;
extern uint64_t gNodeCount;
extern uint64_t gFiniteTerms, gFiniteValues; // terms rewritten as finite functions

Node* mkVar(const std::string& name, unsigned w, bool undef);
Node* mkConst(u128 c, unsigned w);
Node* mkNode(Op op, unsigned w, uint32_t aux, Node* a, Node* b = nullptr, Node* c = nullptr);
static inline Node* toNode(const V& v, unsigned w) { return v.n ? v.n : mkConst(v.c & maskw(w), w); }
static inline V fromNode(Node* n) { if (n->op == OConst && n->w <= 64) return V((uint64_t)n->c); return V(0, n); }

// Typed builders on V with concrete fast paths.
V vBin(Op op, unsigned w, const V& a, const V& b);      // integer binary, result width w
V vCmp(Op op, unsigned w, const V& a, const V& b);      // comparison on width w, result width 1
V vExtract(const V& a, unsigned wa, unsigned lo, unsigned w);
V vConcat(const V& hi, unsigned wh, const V& lo, unsigned wl);
V vZExt(const V& a, unsigned wa, unsigned w);
V vSExt(const V& a, unsigned wa, unsigned w);
V vIte(const V& c, const V& a, const V& b, unsigned w);
V vNot1(const V& a);
V vAnd1(const V& a, const V& b);
V vOr1(const V& a, const V& b);
V vFBin(Op op, unsigned w, const V& a, const V& b);
V vFUn(Op op, unsigned w, uint32_t aux, const V& a);
V vFFma(unsigned w, const V& a, const V& b, const V& c);
V vFCmp(Op op, unsigned w, const V& a, const V& b);
V vFNan(unsigned w, const V& a);
V vFCvt(const V& a, unsigned wa, unsigned w, uint32_t rm);
V vFToI(const V& a, unsigned wa, unsigned w, bool sg);   // only meaningful when in range
V vIToF(const V& a, unsigned wa, unsigned w, bool sg);
V vUF(UFKind k, unsigned w, const V& a, const V& b);

bool isFPOp(const Node* n);

// Evaluation under an assignment (var id -> value; missing = 0).
typedef std::unordered_map<uint32_t, u128> Model;
struct Evaluator {
	const Model* m;
	std::unordered_map<uint32_t, u128> cache;
	Evaluator(const Model* mm): m(mm) {}
	u128 eval(Node* n);
};
u128 evalOp(Op op, unsigned w, uint32_t aux, unsigned w0, u128 a, unsigned w1, u128 b, unsigned w2, u128 c);
std::string nodeStr(Node* n, int depth = 6);
uint64_t fpConst(double d, unsigned w);
