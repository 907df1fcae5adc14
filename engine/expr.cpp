#include "expr.h"
#include <algorithm>
#include <cfenv>
#include <tuple>
#include <unordered_set>

std::vector<VarInfo> gVars;
uint64_t gNodeCount = 0;
uint64_t gFiniteTerms = 0, gFiniteValues = 0;

static float bf(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double bd(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 fb(float f) { if (f != f) return 0x7fc00000u; uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 db(double f) { if (f != f) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &f, 8); return x; }
static float h2f(u128 v) { uint16_t x = (uint16_t)v; _Float16 h; memcpy(&h, &x, 2); return (float)h; }
static u128 f2h(double d) { if (d != d) return 0x7e00; _Float16 h = (_Float16)d; uint16_t x; memcpy(&x, &h, 2); return x; }
static double toD(u128 v, unsigned w) { return w == 64 ? bd(v) : w == 32 ? bf(v) : h2f(v); }
// d must be exactly the result (rounded at most once) for the width
static u128 fromD(double d, unsigned w) { return w == 64 ? db(d) : w == 32 ? fb((float)d) : f2h(d); }
uint64_t fpConst(double d, unsigned w) { return (uint64_t)fromD(d, w); }

static double ufEval(uint32_t k, unsigned w, double a, double b)
{
	if (w == 32) {
		float x = (float)a, y = (float)b;
		switch (k) {
		case UPow: return powf(x, y); case UExp2: return exp2f(x); case ULog2: return log2f(x);
		case UExp: return expf(x); case ULog: return logf(x); case USin: return sinf(x); case UCos: return cosf(x);
		case UTan: return tanf(x); case UAtan2: return atan2f(x, y); case UAtan: return atanf(x);
		case UAsin: return asinf(x); case UAcos: return acosf(x); case ULog10: return log10f(x);
		case UCbrt: return cbrtf(x); case UFmod: return fmodf(x, y); case UHypot: return hypotf(x, y);
		}
	}
	switch (k) {
	case UPow: return pow(a, b); case UExp2: return exp2(a); case ULog2: return log2(a);
	case UExp: return exp(a); case ULog: return log(a); case USin: return sin(a); case UCos: return cos(a);
	case UTan: return tan(a); case UAtan2: return atan2(a, b); case UAtan: return atan(a);
	case UAsin: return asin(a); case UAcos: return acos(a); case ULog10: return log10(a);
	case UCbrt: return cbrt(a); case UFmod: return fmod(a, b); case UHypot: return hypot(a, b);
	}
	return 0;
}

u128 evalOp(Op op, unsigned w, uint32_t aux, unsigned w0, u128 a, unsigned w1, u128 b, unsigned w2, u128 c)
{
	u128 m = maskw(w);
	switch (op) {
	case OAdd: return (a + b) & m;
	case OSub: return (a - b) & m;
	case OMul: return (a * b) & m;
	case OUDiv: return b ? a / b : m;
	case OURem: return b ? a % b : a;
	case OSDiv: { if (!b) return sext128(a, w) < 0 ? 1 : m; __int128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
	case OSRem: { if (!b) return a; __int128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
	case OAnd: return a & b;
	case OOr: return a | b;
	case OXor: return a ^ b;
	case OShl: return b >= w ? 0 : (a << (unsigned)b) & m;
	case OLShr: return b >= w ? 0 : a >> (unsigned)b;
	case OAShr: { __int128 x = sext128(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & m; }
	case OConcat: return ((a << w1) | b) & m;
	case OExtract: return (a >> aux) & m;
	case OZExt: return a;
	case OSExt: return (u128)sext128(a, w0) & m;
	case OIte: return a ? b : c;
	case OEq: return a == b;
	case OUlt: return a < b;
	case OUle: return a <= b;
	case OSlt: return sext128(a, w0) < sext128(b, w0);
	case OSle: return sext128(a, w0) <= sext128(b, w0);
	case OFAdd: return w == 32 ? fb(bf(a) + bf(b)) : fromD(toD(a, w) + toD(b, w), w);
	case OFSub: return w == 32 ? fb(bf(a) - bf(b)) : fromD(toD(a, w) - toD(b, w), w);
	case OFMul: return w == 32 ? fb(bf(a) * bf(b)) : fromD(toD(a, w) * toD(b, w), w);
	case OFDiv: return w == 32 ? fb(bf(a) / bf(b)) : fromD(toD(a, w) / toD(b, w), w);
	case OFRem: return fromD(fmod(toD(a, w), toD(b, w)), w);
	case OFSqrt: return w == 32 ? fb(sqrtf(bf(a))) : fromD(sqrt(toD(a, w)), w);
	case OFFma: return w == 32 ? fb(fmaf(bf(a), bf(b), bf(c))) : fromD(fma(toD(a, w), toD(b, w), toD(c, w)), w);
	case OFRnd: {
		double d = toD(a, w);
		switch (aux) {
		case RNE: d = nearbyint(d); break;
		case RNA: d = round(d); break;
		case RTP: d = ceil(d); break;
		case RTN: d = floor(d); break;
		default: d = trunc(d); break;
		}
		return fromD(d, w);
	}
	case OFEq: return toD(a, w0) == toD(b, w0);
	case OFLt: return toD(a, w0) < toD(b, w0);
	case OFLe: return toD(a, w0) <= toD(b, w0);
	case OFNan: { double d = toD(a, w0); return d != d; }
	case OFCvt: {
		if (aux == RNE || w >= w0) return fromD(toD(a, w0), w);
		// directed rounding to a narrower format: nearest, then adjust one ulp
		double d = toD(a, w0);
		u128 r = fromD(d, w);
		if (d != d) return r;
		double rd = toD(r, w);
		u128 sgn = (u128)1 << (w - 1);
		bool neg = (r & sgn) != 0;
		bool needDown = rd > d && (aux == RTN || (aux == RTZ && d > 0));
		bool needUp = rd < d && (aux == RTP || (aux == RTZ && d < 0));
		if (needDown) { if ((r & ~sgn) == 0) r = sgn | 1; else r = neg ? r + 1 : r - 1; }
		if (needUp) { if ((r & ~sgn) == 0) r = 1; else r = neg ? r - 1 : r + 1; }
		return r;
	}
	case OFToSI: {
		double d = toD(a, w0);
		if (!(d > -ldexp(1, w - 1) - 1 && d < ldexp(1, w - 1))) return 0;
		return (u128)(__int128)d & m;
	}
	case OFToUI: {
		double d = toD(a, w0);
		if (!(d > -1 && d < ldexp(1, w))) return 0;
		if (d < 0) return 0;
		return (u128)d & m;
	}
	case OSIToF: { __int128 x = sext128(a, w0); return w == 64 ? db((double)x) : w == 32 ? fb((float)x) : f2h((double)(float)x); }
	case OUIToF: return w == 64 ? db((double)a) : w == 32 ? fb((float)a) : f2h((double)(float)a);
	case OUF: return fromD(ufEval(aux, w, toD(a, w), b || w1 ? toD(b, w) : 0), w);
	default: break;
	}
	fprintf(stderr, "evalOp: bad op %d\n", op);
	abort();
}

// ---------------------------------------------------------------- hash consing
struct KeyHash { size_t operator()(const Node* n) const { return n->hash; } };
struct KeyEq {
	bool operator()(const Node* a, const Node* b) const {
		return a->op == b->op && a->w == b->w && a->aux == b->aux && a->k[0] == b->k[0] &&
			a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c;
	}
};
#include <unordered_set>
static std::unordered_set<Node*, KeyHash, KeyEq> gTab;
static std::vector<uint32_t> gEmptyVars;
static std::map<std::vector<uint32_t>, std::vector<uint32_t>*> gVarSets;

static std::vector<uint32_t>* internVars(std::vector<uint32_t>&& v)
{
	if (v.empty()) return &gEmptyVars;
	auto it = gVarSets.find(v);
	if (it != gVarSets.end()) return it->second;
	auto* p = new std::vector<uint32_t>(v);
	gVarSets.emplace(std::move(v), p);
	return p;
}

static Node* intern(Op op, unsigned w, uint32_t aux, Node* a, Node* b, Node* c, u128 cv)
{
	Node key;
	key.op = op; key.w = (uint16_t)w; key.aux = aux; key.k[0] = a; key.k[1] = b; key.k[2] = c; key.c = cv;
	uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 1315423911u + aux * 2654435761u;
	for (int i = 0; i < 3; i++) { h ^= (key.k[i] ? key.k[i]->id + 1 : 0) + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }
	h ^= (uint64_t)cv * 0xff51afd7ed558ccdull; h ^= (uint64_t)(cv >> 64) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
	key.hash = h;
	auto it = gTab.find(&key);
	if (it != gTab.end()) return *it;
	Node* n = new Node(key);
	n->id = (uint32_t)gNodeCount++;
	n->hasUF = op == OUF; n->hasUndef = false;
	std::vector<uint32_t>* vs = &gEmptyVars;
	if (op == OVar) { vs = internVars({aux}); n->hasUndef = gVars[aux].undef; }
	else
		for (int i = 0; i < 3 && n->k[i]; i++) {
			auto* o = n->k[i]->vars;
			n->hasUF |= n->k[i]->hasUF; n->hasUndef |= n->k[i]->hasUndef;
			if (o == vs || o->empty()) continue;
			if (vs->empty()) { vs = o; continue; }
			if (std::includes(vs->begin(), vs->end(), o->begin(), o->end())) continue;
			std::vector<uint32_t> u;
			std::set_union(vs->begin(), vs->end(), o->begin(), o->end(), std::back_inserter(u));
			vs = internVars(std::move(u));
		}
	n->vars = vs;
	gTab.insert(n);
	return n;
}

Node* mkVar(const std::string& name, unsigned w, bool undef)
{
	gVars.push_back({name, w, undef});
	return intern(OVar, w, (uint32_t)gVars.size() - 1, nullptr, nullptr, nullptr, 0);
}
Node* mkConst(u128 c, unsigned w) { return intern(OConst, w, 0, nullptr, nullptr, nullptr, c & maskw(w)); }

static inline bool isC(Node* n) { return n && n->op == OConst; }
static bool commut(Op o) { return o == OAdd || o == OMul || o == OAnd || o == OOr || o == OXor || o == OEq || o == OFAdd || o == OFMul || o == OFEq; }

bool isFPOp(const Node* n)
{
	switch (n->op) {
	case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: case OFSqrt: case OFFma: case OFRnd:
	case OFCvt: case OSIToF: case OUIToF: case OUF: return true;
	default: return false;
	}
}

static Node* tabulate(Op op, unsigned w, uint32_t aux, Node* a, Node* b);
static Node* mkNot(Node* a) { return mkNode(OXor, 1, 0, a, mkConst(1, 1)); }

Node* mkNode(Op op, unsigned w, uint32_t aux, Node* a, Node* b, Node* c)
{
	bool allC = isC(a) && (!b || isC(b)) && (!c || isC(c));
	if (allC)
		return mkConst(evalOp(op, w, aux, a->w, a->c, b ? b->w : 0, b ? b->c : 0, c ? c->w : 0, c ? c->c : 0), w);
	if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	u128 m = maskw(w);
	switch (op) {
	case OAdd:
		if (isC(b)) {
			if (b->c == 0) return a;
			if (a->op == OAdd && isC(a->k[1])) return mkNode(OAdd, w, 0, a->k[0], mkConst(a->k[1]->c + b->c, w));
			if (a->op == OIte && isC(a->k[1]) && isC(a->k[2]))
				return mkNode(OIte, w, 0, a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
		}
		break;
	case OSub:
		if (a == b) return mkConst(0, w);
		if (isC(b)) return mkNode(OAdd, w, 0, a, mkConst((u128)0 - b->c, w));
		if (a->op == OAdd && a->k[0] == b) return a->k[1];
		if (a->op == OAdd && a->k[1] == b) return a->k[0];
		break;
	case OMul:
		if (isC(b)) {
			if (b->c == 0) return b;
			if (b->c == 1) return a;
			if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkNode(OShl, w, 0, a, mkConst(s, w)); }
		}
		break;
	case OUDiv:
		if (isC(b)) {
			if (b->c == 1) return a;
			if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkNode(OLShr, w, 0, a, mkConst(s, w)); }
		}
		break;
	case OURem:
		if (isC(b)) {
			if (b->c == 1) return mkConst(0, w);
			if (b->c && (b->c & (b->c - 1)) == 0) return mkNode(OAnd, w, 0, a, mkConst(b->c - 1, w));
		}
		break;
	case OAnd:
		if (a == b) return a;
		if (isC(b)) {
			if (b->c == 0) return b;
			if (b->c == m) return a;
			if (a->op == OAnd && isC(a->k[1])) return mkNode(OAnd, w, 0, a->k[0], mkConst(a->k[1]->c & b->c, w));
			// low mask -> zext(extract)
			if (((b->c + 1) & b->c) == 0) {
				unsigned n = 0; while (n < 128 && ((b->c >> n) & 1)) n++;
				if (n < w) return mkNode(OZExt, w, 0, mkNode(OExtract, n, 0, a));
			}
			else {
				unsigned s = 0; while (!((b->c >> s) & 1)) s++;
				u128 t = b->c >> s;
				if (((t + 1) & t) == 0) {
					unsigned n = 0; while (n < 128 && ((t >> n) & 1)) n++;
					Node* r = mkNode(OConcat, n + s, 0, mkNode(OExtract, n, s, a), mkConst(0, s));
					return n + s < w ? mkNode(OZExt, w, 0, r) : r;
				}
			}
		}
		break;
	case OOr:
		if (a == b) return a;
		if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
		// or(zext(x), shl/concat(y, 0...)) -> concat
		{
			Node *x = a, *y = b;
			for (int i = 0; i < 2; i++, std::swap(x, y)) {
				if (x->op == OZExt && y->op == OConcat && isC(y->k[1]) && y->k[1]->c == 0 && x->k[0]->w <= y->k[1]->w)
					return mkNode(OConcat, w, 0, y->k[0], mkNode(OZExt, y->k[1]->w, 0, x->k[0]));
				if (x->op == OConcat && y->op == OZExt && isC(x->k[1]) && x->k[1]->c == 0 && y->k[0]->w <= x->k[1]->w)
					return mkNode(OConcat, w, 0, x->k[0], mkNode(OZExt, x->k[1]->w, 0, y->k[0]));
			}
		}
		break;
	case OXor:
		if (a == b) return mkConst(0, w);
		if (isC(b)) {
			if (b->c == 0) return a;
			if (a->op == OXor && isC(a->k[1])) return mkNode(OXor, w, 0, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
			if (w == 1) {
				if (a->op == OUlt) return mkNode(OUle, 1, 0, a->k[1], a->k[0]);
				if (a->op == OUle) return mkNode(OUlt, 1, 0, a->k[1], a->k[0]);
				if (a->op == OSlt) return mkNode(OSle, 1, 0, a->k[1], a->k[0]);
				if (a->op == OSle) return mkNode(OSlt, 1, 0, a->k[1], a->k[0]);
			}
		}
		break;
	case OShl:
		if (isC(b)) {
			if (b->c == 0) return a;
			if (b->c >= w) return mkConst(0, w);
			return mkNode(OConcat, w, 0, mkNode(OExtract, w - (unsigned)b->c, 0, a), mkConst(0, (unsigned)b->c));
		}
		break;
	case OLShr:
		if (isC(b)) {
			if (b->c == 0) return a;
			if (b->c >= w) return mkConst(0, w);
			return mkNode(OZExt, w, 0, mkNode(OExtract, w - (unsigned)b->c, (uint32_t)b->c, a));
		}
		break;
	case OAShr:
		if (isC(b)) {
			if (b->c == 0) return a;
			unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
			return mkNode(OSExt, w, 0, mkNode(OExtract, w - s, s, a));
		}
		break;
	case OConcat:
		if (isC(a) && a->c == 0) return mkNode(OZExt, w, 0, b);
		if (a->op == OExtract && b->op == OExtract && a->k[0] == b->k[0] && a->aux == b->aux + b->w)
			return mkNode(OExtract, w, b->aux, a->k[0]);
		if (a->op == OZExt) return mkNode(OZExt, w, 0, mkNode(OConcat, a->k[0]->w + b->w, 0, a->k[0], b));
		if (b->op == OConcat && a->op == OExtract && b->k[0]->op == OExtract && a->k[0] == b->k[0]->k[0] && a->aux == b->k[0]->aux + b->k[0]->w)
			return mkNode(OConcat, w, 0, mkNode(OExtract, a->w + b->k[0]->w, b->k[0]->aux, a->k[0]), b->k[1]);
		if (isC(a) && b->op == OConcat && isC(b->k[0]))
			return mkNode(OConcat, w, 0, mkConst((a->c << b->k[0]->w) | b->k[0]->c, a->w + b->k[0]->w), b->k[1]);
		break;
	case OExtract: {
		unsigned lo = aux;
		if (lo == 0 && w == a->w) return a;
		switch (a->op) {
		case OExtract: return mkNode(OExtract, w, lo + a->aux, a->k[0]);
		case OConcat: {
			unsigned wl = a->k[1]->w;
			if (lo >= wl) return mkNode(OExtract, w, lo - wl, a->k[0]);
			if (lo + w <= wl) return mkNode(OExtract, w, lo, a->k[1]);
			return mkNode(OConcat, w, 0, mkNode(OExtract, lo + w - wl, 0, a->k[0]), mkNode(OExtract, wl - lo, lo, a->k[1]));
		}
		case OZExt: {
			unsigned wi = a->k[0]->w;
			if (lo >= wi) return mkConst(0, w);
			if (lo + w <= wi) return mkNode(OExtract, w, lo, a->k[0]);
			return mkNode(OZExt, w, 0, mkNode(OExtract, wi - lo, lo, a->k[0]));
		}
		case OSExt: {
			unsigned wi = a->k[0]->w;
			if (lo + w <= wi) return mkNode(OExtract, w, lo, a->k[0]);
			if (lo < wi) return mkNode(OSExt, w, 0, mkNode(OExtract, wi - lo, lo, a->k[0]));
			return mkNode(OSExt, w, 0, mkNode(OExtract, 1, wi - 1, a->k[0]));
		}
		case OAnd: case OOr: case OXor:
			if (isC(a->k[1]) || w == 1 || a->k[0]->op == OConcat || a->k[1]->op == OConcat || a->k[0]->op == OZExt || a->k[1]->op == OZExt || a->k[0]->op == OOr || a->k[1]->op == OOr)
				return mkNode(a->op, w, 0, mkNode(OExtract, w, lo, a->k[0]), mkNode(OExtract, w, lo, a->k[1]));
			break;
		case OAdd: case OSub: case OMul:
			if (lo == 0) return mkNode(a->op, w, 0, mkNode(OExtract, w, 0, a->k[0]), mkNode(OExtract, w, 0, a->k[1]));
			break;
		case OIte:
			if (isC(a->k[1]) || isC(a->k[2]))
				return mkNode(OIte, w, 0, a->k[0], mkNode(OExtract, w, lo, a->k[1]), mkNode(OExtract, w, lo, a->k[2]));
			break;
		default: break;
		}
		break;
	}
	case OZExt:
		if (w == a->w) return a;
		if (a->op == OZExt) return mkNode(OZExt, w, 0, a->k[0]);
		if (a->op == OIte && isC(a->k[1]) && isC(a->k[2]))
			return mkNode(OIte, w, 0, a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
		break;
	case OSExt:
		if (w == a->w) return a;
		if (a->op == OSExt) return mkNode(OSExt, w, 0, a->k[0]);
		if (a->op == OZExt && a->w > a->k[0]->w) return mkNode(OZExt, w, 0, a->k[0]);
		if (a->op == OIte && isC(a->k[1]) && isC(a->k[2]))
			return mkNode(OIte, w, 0, a->k[0], mkNode(OSExt, w, 0, a->k[1]), mkNode(OSExt, w, 0, a->k[2]));
		break;
	case OIte:
		if (isC(a)) return a->c ? b : c;
		if (b == c) return b;
		if (a->op == OXor && isC(a->k[1])) return mkNode(OIte, w, 0, a->k[0], c, b);
		if (w == 1) {
			if (isC(b) && isC(c)) return b->c ? a : mkNot(a);
			if (isC(b)) return b->c ? mkNode(OOr, 1, 0, a, c) : mkNode(OAnd, 1, 0, mkNot(a), c);
			if (isC(c)) return c->c ? mkNode(OOr, 1, 0, mkNot(a), b) : mkNode(OAnd, 1, 0, a, b);
		}
		if (b->op == OIte && b->k[0] == a) b = b->k[1];
		if (c->op == OIte && c->k[0] == a) c = c->k[2];
		if (b == c) return b;
		break;
	case OEq:
		if (a == b) return mkConst(1, 1);
		if (a->w == 1 && isC(b)) return b->c ? a : mkNot(a);
		if (isC(b)) {
			if (a->op == OIte) {
				bool c1 = isC(a->k[1]), c2 = isC(a->k[2]);
				if (c1 && c2) {
					bool e1 = a->k[1]->c == b->c, e2 = a->k[2]->c == b->c;
					if (e1 && e2) return mkConst(1, 1);
					if (!e1 && !e2) return mkConst(0, 1);
					return e1 ? a->k[0] : mkNot(a->k[0]);
				}
				if (c1 && a->k[1]->c != b->c) return mkNode(OAnd, 1, 0, mkNot(a->k[0]), mkNode(OEq, 1, 0, a->k[2], b));
				if (c2 && a->k[2]->c != b->c) return mkNode(OAnd, 1, 0, a->k[0], mkNode(OEq, 1, 0, a->k[1], b));
			}
			if (a->op == OZExt) {
				unsigned wi = a->k[0]->w;
				if (b->c >> wi) return mkConst(0, 1);
				return mkNode(OEq, 1, 0, a->k[0], mkConst(b->c, wi));
			}
			if (a->op == OAdd && isC(a->k[1])) return mkNode(OEq, 1, 0, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
			if (a->op == OXor && isC(a->k[1])) return mkNode(OEq, 1, 0, a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
			if (a->op == OConcat && isC(a->k[1])) {
				if ((b->c & maskw(a->k[1]->w)) != a->k[1]->c) return mkConst(0, 1);
				return mkNode(OEq, 1, 0, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w));
			}
		}
		break;
	case OUlt:
		if (a == b) return mkConst(0, 1);
		if (isC(b)) {
			if (b->c == 0) return mkConst(0, 1);
			if (b->c == 1) return mkNode(OEq, 1, 0, a, mkConst(0, a->w));
			if (a->op == OZExt) {
				if (b->c >> a->k[0]->w) return mkConst(1, 1);
				return mkNode(OUlt, 1, 0, a->k[0], mkConst(b->c, a->k[0]->w));
			}
		}
		if (isC(a)) {
			if (a->c == maskw(a->w)) return mkConst(0, 1);
			if (b->op == OZExt) {
				if (a->c >> b->k[0]->w) return mkConst(0, 1);
				return mkNode(OUlt, 1, 0, mkConst(a->c, b->k[0]->w), b->k[0]);
			}
		}
		if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkNode(OUlt, 1, 0, a->k[0], b->k[0]);
		break;
	case OUle:
		if (a == b) return mkConst(1, 1);
		if (isC(a) && a->c == 0) return mkConst(1, 1);
		if (isC(b) && b->c == maskw(b->w)) return mkConst(1, 1);
		if (isC(b) && a->op == OZExt) {
			if (b->c >> a->k[0]->w) return mkConst(1, 1);
			return mkNode(OUle, 1, 0, a->k[0], mkConst(b->c, a->k[0]->w));
		}
		if (isC(a) && b->op == OZExt) {
			if (a->c >> b->k[0]->w) return mkConst(0, 1);
			return mkNode(OUle, 1, 0, mkConst(a->c, b->k[0]->w), b->k[0]);
		}
		break;
	case OSlt:
		if (a == b) return mkConst(0, 1);
		if (isC(b) && a->op == OZExt && a->w > a->k[0]->w) {
			if (sext128(b->c, b->w) <= 0) return mkConst(0, 1);
			return mkNode(OUlt, 1, 0, a, b);
		}
		if (isC(a) && b->op == OZExt && b->w > b->k[0]->w) {
			if (sext128(a->c, a->w) < 0) return mkConst(1, 1);
			return mkNode(OUlt, 1, 0, a, b);
		}
		break;
	case OSle:
		if (a == b) return mkConst(1, 1);
		if (isC(b) && a->op == OZExt && a->w > a->k[0]->w) {
			if (sext128(b->c, b->w) < 0) return mkConst(0, 1);
			return mkNode(OUle, 1, 0, a, b);
		}
		if (isC(a) && b->op == OZExt && b->w > b->k[0]->w) {
			if (sext128(a->c, a->w) < 0) return mkConst(1, 1);
			return mkNode(OUle, 1, 0, a, b);
		}
		break;
	case OFCvt:
		if (w == a->w) return a;
		break;
	case OFEq:
		if (a == b) return mkNot(mkNode(OFNan, 1, 0, a));
		break;
	case OFNan:
		if (a->op == OSIToF || a->op == OUIToF) return mkConst(0, 1);
		if (a->op == OFCvt || a->op == OFRnd) return mkNode(OFNan, 1, 0, a->k[0]);
		if ((a->op == OFMul || a->op == OFDiv) && isC(a->k[1]) && a->k[1]->c) {
			double d = toD(a->k[1]->c, a->w);
			if (d != 0 && d - d == 0) return mkNode(OFNan, 1, 0, a->k[0]);
		}
		break;
	default: break;
	}
	switch (op) {
	case OEq: if (!isFPOp(a) && !isFPOp(b)) break; // fall through
	case OFEq: case OFLt: case OFLe: case OFNan: case OFToSI: case OFToUI:
		if (Node* t = tabulate(op, w, aux, a, b)) return t;
		break;
	default: break;
	}
	return intern(op, w, aux, a, b, c, 0);
}

// ---------------------------------------------------------------- small-domain floating point
// A comparison or conversion whose value depends on one integer term of at most 16 bits is a
// finite function of it: replace it by that function, written as ranges over the term.
struct Table { Node* base; std::vector<uint64_t> v; };
static std::unordered_map<uint32_t, Table> gTables; // results written this way
typedef std::map<uint32_t, unsigned> VarShift;
// A concatenation of whole variables determines each of them.
static void wholeVars(Node* n, unsigned shift, VarShift& out)
{
	if (n->op == OVar) out[n->id] = shift;
	else if (n->op == OConcat) { wholeVars(n->k[0], shift + n->k[1]->w, out); wholeVars(n->k[1], shift, out); }
}
static bool dagOver(Node* n, Node* base, const VarShift& vs, std::unordered_map<uint32_t, int>& ix, std::vector<Node*>& order)
{
	if (ix.count(n->id)) return true;
	if (n != base && n->op != OConst && !vs.count(n->id)) {
		if (n->op == OVar || order.size() > (size_t)(64000000 >> base->w)) return false;
		auto t = gTables.find(n->id);
		if (t != gTables.end()) { if (!dagOver(t->second.base, base, vs, ix, order)) return false; }
		else for (int i = 0; i < 3 && n->k[i]; i++) if (!dagOver(n->k[i], base, vs, ix, order)) return false;
	}
	ix[n->id] = (int)order.size();
	order.push_back(n);
	return true;
}
static void intSources(Node* n, std::unordered_set<uint32_t>& seen, std::vector<Node*>& out)
{
	if (n->vars->empty() || seen.size() > 4000 || !seen.insert(n->id).second) return;
	if (n->op == OSIToF || n->op == OUIToF) { Node* x = n->k[0]; while (x->op == OZExt || x->op == OSExt) x = x->k[0]; out.push_back(x); return; }
	for (int i = 0; i < 3 && n->k[i]; i++) intSources(n->k[i], seen, out);
}
static Node* tabulate(Op op, unsigned w, uint32_t aux, Node* a, Node* b)
{
	if (w > 64 || a->hasUndef || (b && b->hasUndef)) return nullptr;
	struct Key { Op op; unsigned w; uint32_t aux, a, b; bool operator<(const Key& o) const { return std::tie(op, w, aux, a, b) < std::tie(o.op, o.w, o.aux, o.a, o.b); } };
	static std::map<Key, Node*> memo;
	Key key = {op, w, aux, a->id, b ? b->id : ~0u};
	auto hit = memo.find(key);
	if (hit != memo.end()) return hit->second;
	Node*& res = memo[key];
	res = nullptr;
	std::unordered_set<uint32_t> seen;
	std::vector<Node*> cand;
	intSources(a, seen, cand);
	if (b) intSources(b, seen, cand);
	std::sort(cand.begin(), cand.end(), [](Node* x, Node* y) { return x->w > y->w || (x->w == y->w && x->id > y->id); });
	cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
	std::unordered_map<uint32_t, int> ix;
	std::vector<Node*> order;
	Node* base = nullptr;
	VarShift vs;
	if (cand.empty()) return nullptr;
	{
		// Else all variables together.
		std::vector<uint32_t> all = *a->vars, un;
		if (b) { std::set_union(all.begin(), all.end(), b->vars->begin(), b->vars->end(), std::back_inserter(un)); all.swap(un); }
		unsigned total = 0;
		for (uint32_t v : all) total += gVars[v].w;
		if (total <= 16 && all.size() <= 4) {
			Node* t = nullptr;
			for (uint32_t v : all) { Node* x = intern(OVar, gVars[v].w, v, nullptr, nullptr, nullptr, 0); t = t ? mkNode(OConcat, t->w + x->w, 0, x, t) : x; }
			cand.push_back(t);
		}
	}
	std::stable_sort(cand.begin(), cand.end(), [](Node* x, Node* y) { return x->w < y->w; });
	for (Node* x : cand) {
		if (x->w > 16 || x->op == OConst) continue;
		ix.clear(); order.clear(); vs.clear();
		wholeVars(x, 0, vs);
		if (dagOver(a, x, vs, ix, order) && (!b || dagOver(b, x, vs, ix, order))) { base = x; break; }
	}
	if (!base) return nullptr;
	struct Step { Op op; unsigned w; uint32_t aux; int k[3]; unsigned kw[3]; const uint64_t* tab; };
	std::vector<Step> steps;
	std::vector<u128> val(order.size());
	for (Node* n : order) {
		Step s = {n->op, n->w, n->aux, {-1, -1, -1}, {0, 0, 0}, nullptr};
		auto t = gTables.find(n->id);
		if (n == base || vs.count(n->id)) ;
		else if (t != gTables.end()) { s.k[0] = ix[t->second.base->id]; s.tab = t->second.v.data(); }
		else for (int i = 0; i < 3 && n->k[i]; i++) { s.k[i] = ix[n->k[i]->id]; s.kw[i] = n->k[i]->w; }
		if (n->op == OConst) val[steps.size()] = n->c;
		steps.push_back(s);
	}
	std::vector<std::pair<int, std::pair<unsigned, unsigned>>> leaves;
	std::vector<char> isLeaf(order.size());
	if (ix.count(base->id)) { leaves.push_back({ix[base->id], {0, base->w}}); isLeaf[ix[base->id]] = 1; }
	for (auto& kv : vs) if (ix.count(kv.first)) { int i = ix[kv.first]; leaves.push_back({i, {kv.second, order[i]->w}}); isLeaf[i] = 1; }
	int ai = ix[a->id], bbi = b ? ix[b->id] : -1;
	uint32_t N = 1u << base->w;
	std::vector<uint64_t> tab(N);
	gFiniteTerms++; gFiniteValues += N;
	for (uint32_t v = 0; v < N; v++) {
		for (auto& l : leaves) val[l.first] = (v >> l.second.first) & maskw(l.second.second);
		for (size_t i = 0; i < steps.size(); i++) {
			const Step& s = steps[i];
			if (isLeaf[i] || s.op == OConst) continue;
			if (s.tab) { val[i] = s.tab[(uint64_t)val[s.k[0]]]; continue; }
			val[i] = evalOp(s.op, s.w, s.aux, s.kw[0], s.k[0] >= 0 ? val[s.k[0]] : 0, s.kw[1], s.k[1] >= 0 ? val[s.k[1]] : 0, s.kw[2], s.k[2] >= 0 ? val[s.k[2]] : 0);
		}
		tab[v] = (uint64_t)evalOp(op, w, aux, a->w, val[ai], b ? b->w : 0, b ? val[bbi] : 0, 0, 0);
	}
	struct Run { uint32_t lo; bool affine; uint64_t c; };
	std::vector<Run> runs;
	uint64_t m = mask64(w);
	for (uint32_t v = 0; v < N; ) {
		uint32_t e1 = v + 1, e2 = v + 1;
		while (e1 < N && tab[e1] == tab[v]) e1++;
		uint64_t d = (tab[v] - v) & m;
		if (w > 1) while (e2 < N && ((tab[e2] - e2) & m) == d) e2++;
		bool aff = e2 > e1;
		runs.push_back({v, aff, aff ? d : tab[v]});
		v = aff ? e2 : e1;
		if (runs.size() > 1100) return nullptr;
	}
	Node* bw = base->w == w ? base : base->w < w ? mkNode(OZExt, w, 0, base) : mkNode(OExtract, w, 0, base);
	struct B {
		static Node* build(const std::vector<Run>& r, size_t lo, size_t hi, Node* base, Node* bw, unsigned w) {
			if (hi - lo == 1) return r[lo].affine ? mkNode(OAdd, w, 0, bw, mkConst(r[lo].c, w)) : mkConst(r[lo].c, w);
			size_t mid = (lo + hi)/2;
			return mkNode(OIte, w, 0, mkNode(OUlt, 1, 0, base, mkConst(r[mid].lo, base->w)), build(r, lo, mid, base, bw, w), build(r, mid, hi, base, bw, w));
		}
	};
	Node* out = B::build(runs, 0, runs.size(), base, bw, w);
	if (out->op != OConst && out != base) { auto& t = gTables[out->id]; t.base = base; t.v.swap(tab); }
	return memo[key] = out;
}

// ---------------------------------------------------------------- V builders
V vBin(Op op, unsigned w, const V& a, const V& b)
{
	if (a.conc() && b.conc() && w <= 64) {
		uint64_t m = mask64(w);
		switch (op) {
		case OAdd: return V((a.c + b.c) & m);
		case OSub: return V((a.c - b.c) & m);
		case OMul: return V((a.c * b.c) & m);
		case OAnd: return V(a.c & b.c);
		case OOr: return V(a.c | b.c);
		case OXor: return V(a.c ^ b.c);
		default: return V((uint64_t)evalOp(op, w, 0, w, a.c, w, b.c, 0, 0));
		}
	}
	return fromNode(mkNode(op, w, 0, toNode(a, w), toNode(b, w)));
}
V vCmp(Op op, unsigned w, const V& a, const V& b)
{
	if (a.conc() && b.conc() && w <= 64) return V((uint64_t)evalOp(op, 1, 0, w, a.c, w, b.c, 0, 0));
	return fromNode(mkNode(op, 1, 0, toNode(a, w), toNode(b, w)));
}
V vExtract(const V& a, unsigned wa, unsigned lo, unsigned w)
{
	if (lo == 0 && w == wa) return a;
	if (a.conc()) return V((a.c >> lo) & mask64(w));
	return fromNode(mkNode(OExtract, w, lo, a.n));
}
V vConcat(const V& hi, unsigned wh, const V& lo, unsigned wl)
{
	if (hi.conc() && lo.conc() && wh + wl <= 64) return V((hi.c << wl) | lo.c);
	return fromNode(mkNode(OConcat, wh + wl, 0, toNode(hi, wh), toNode(lo, wl)));
}
V vZExt(const V& a, unsigned wa, unsigned w)
{
	if (a.conc() && w <= 64) return a;
	return fromNode(mkNode(OZExt, w, 0, toNode(a, wa)));
}
V vSExt(const V& a, unsigned wa, unsigned w)
{
	if (a.conc() && w <= 64) return V((uint64_t)sext64(a.c, wa) & mask64(w));
	return fromNode(mkNode(OSExt, w, 0, toNode(a, wa)));
}
V vIte(const V& c, const V& a, const V& b, unsigned w)
{
	if (c.conc()) return c.c ? a : b;
	if (a.n == b.n && a.c == b.c) return a;
	return fromNode(mkNode(OIte, w, 0, c.n, toNode(a, w), toNode(b, w)));
}
V vNot1(const V& a) { return vBin(OXor, 1, a, V(1)); }
V vAnd1(const V& a, const V& b)
{
	if (a.conc()) return a.c ? b : a;
	if (b.conc()) return b.c ? a : b;
	return vBin(OAnd, 1, a, b);
}
V vOr1(const V& a, const V& b)
{
	if (a.conc()) return a.c ? a : b;
	if (b.conc()) return b.c ? b : a;
	return vBin(OOr, 1, a, b);
}
V vFBin(Op op, unsigned w, const V& a, const V& b)
{
	if (a.conc() && b.conc()) return V((uint64_t)evalOp(op, w, 0, w, a.c, w, b.c, 0, 0));
	return fromNode(mkNode(op, w, 0, toNode(a, w), toNode(b, w)));
}
V vFUn(Op op, unsigned w, uint32_t aux, const V& a)
{
	if (a.conc()) return V((uint64_t)evalOp(op, w, aux, w, a.c, 0, 0, 0, 0));
	return fromNode(mkNode(op, w, aux, a.n));
}
V vFFma(unsigned w, const V& a, const V& b, const V& c)
{
	if (a.conc() && b.conc() && c.conc()) return V((uint64_t)evalOp(OFFma, w, 0, w, a.c, w, b.c, w, c.c));
	return fromNode(mkNode(OFFma, w, 0, toNode(a, w), toNode(b, w), toNode(c, w)));
}
V vFCmp(Op op, unsigned w, const V& a, const V& b)
{
	if (a.conc() && b.conc()) return V((uint64_t)evalOp(op, 1, 0, w, a.c, w, b.c, 0, 0));
	return fromNode(mkNode(op, 1, 0, toNode(a, w), toNode(b, w)));
}
V vFNan(unsigned w, const V& a)
{
	if (a.conc()) return V((uint64_t)evalOp(OFNan, 1, 0, w, a.c, 0, 0, 0, 0));
	return fromNode(mkNode(OFNan, 1, 0, a.n));
}
V vFCvt(const V& a, unsigned wa, unsigned w, uint32_t rm)
{
	if (a.conc()) return V((uint64_t)evalOp(OFCvt, w, rm, wa, a.c, 0, 0, 0, 0));
	return fromNode(mkNode(OFCvt, w, rm, a.n));
}
V vFToI(const V& a, unsigned wa, unsigned w, bool sg)
{
	Op o = sg ? OFToSI : OFToUI;
	if (a.conc() && w <= 64) return V((uint64_t)evalOp(o, w, 0, wa, a.c, 0, 0, 0, 0));
	return fromNode(mkNode(o, w, 0, toNode(a, wa)));
}
V vIToF(const V& a, unsigned wa, unsigned w, bool sg)
{
	Op o = sg ? OSIToF : OUIToF;
	if (a.conc()) return V((uint64_t)evalOp(o, w, 0, wa, a.c, 0, 0, 0, 0));
	return fromNode(mkNode(o, w, 0, a.n));
}
V vUF(UFKind k, unsigned w, const V& a, const V& b)
{
	if (a.conc() && b.conc()) return V((uint64_t)evalOp(OUF, w, k, w, a.c, w, b.c, 0, 0));
	return fromNode(mkNode(OUF, w, k, toNode(a, w), toNode(b, w)));
}

u128 Evaluator::eval(Node* n)
{
	if (n->op == OConst) return n->c;
	if (n->op == OVar) { auto it = m->find(n->aux); return it == m->end() ? 0 : it->second; }
	auto it = cache.find(n->id);
	if (it != cache.end()) return it->second;
	u128 r;
	if (n->op == OIte) r = eval(n->k[0]) ? eval(n->k[1]) : eval(n->k[2]);
	else {
		u128 a = eval(n->k[0]), b = n->k[1] ? eval(n->k[1]) : 0, c = n->k[2] ? eval(n->k[2]) : 0;
		r = evalOp(n->op, n->w, n->aux, n->k[0]->w, a, n->k[1] ? n->k[1]->w : 0, b, n->k[2] ? n->k[2]->w : 0, c);
	}
	cache[n->id] = r;
	return r;
}

static const char* opNames[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
	"concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","frnd",
	"feq","flt","fle","fnan","fcvt","ftosi","ftoui","sitof","uitof","uf"};
std::string nodeStr(Node* n, int depth)
{
	if (!n) return "null";
	char buf[64];
	if (n->op == OConst) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)n->c, n->w); return buf; }
	if (n->op == OVar) return gVars[n->aux].name;
	if (depth == 0) return "...";
	std::string s = std::string("(") + opNames[n->op];
	if (n->op == OExtract || n->op == OFRnd || n->op == OUF) s += "[" + std::to_string(n->aux) + "]";
	s += ":" + std::to_string(n->w);
	for (int i = 0; i < 3 && n->k[i]; i++) s += " " + nodeStr(n->k[i], depth - 1);
	return s + ")";
}
