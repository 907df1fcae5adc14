// symir: symbolic executor for LLVM 18 bitcode, deciding with Z3.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <memory>
#include <functional>
#include <set>
#include <algorithm>
#include <unordered_set>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr;

// ------------------------------------------------------------------ options / statistics
static string optEntry = "sym_main", optOut, optModule;
static double optTime = 300; static unsigned optQueryMs = 60000; static uint64_t optMaxInst = 50000000; static unsigned optMaxTraces = 64;
static uint64_t optMaxPaths = 1000000; static bool optVerbose = false; static int optCpuF16C = 1; static unsigned optMaxFail = 8;
static bool optFpCastCheck = false; static uint64_t optSeed = 1; static bool optStopFirst = false;
static std::map<string, int64_t> optParams;

static uint64_t stInst, stPaths, stPathsAssume, stForks, stAssertQ, stAssertConc, stAssertProved, stAssertUndecided, stBranchUndecided, stIncomplete, stStatesMax;
static std::map<string, uint64_t> stCovers;
static std::map<string, uint64_t> stIncompleteWhy;
static std::chrono::steady_clock::time_point gT0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count(); }

static Module* M; static const DataLayout* DL;

// ------------------------------------------------------------------ types
struct Leaf { unsigned w; uint64_t off; bool fp; };
struct TyI { vector<Leaf> l; uint64_t size = 0; bool isVec = false; };
static std::unordered_map<Type*, TyI> tyCache;
static void flat(Type* t, uint64_t off, vector<Leaf>& out)
{
	if (t->isIntegerTy()) out.push_back({t->getIntegerBitWidth(), off, false});
	else if (t->isPointerTy()) out.push_back({64, off, false});
	else if (t->isFloatTy()) out.push_back({32, off, true});
	else if (t->isDoubleTy()) out.push_back({64, off, true});
	else if (t->isHalfTy()) out.push_back({16, off, true});
	else if (t->isX86_FP80Ty()) out.push_back({80, off, true});
	else if (auto* st = dyn_cast<StructType>(t)) {
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out);
	} else if (auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out);
	} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		uint64_t es = DL->getTypeSizeInBits(vt->getElementType()) / 8;
		for (uint64_t i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * es, out);
	} else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy()) {
	} else { errs() << "symir: unsupported type " << *t << "\n"; exit(3); }
}
static const TyI& ti(Type* t)
{
	auto it = tyCache.find(t);
	if (it != tyCache.end()) return it->second;
	TyI r;
	flat(t, 0, r.l);
	r.isVec = t->isVectorTy();
	if (t->isSized()) r.size = DL->getTypeAllocSize(t);
	return tyCache.emplace(t, std::move(r)).first->second;
}
static unsigned leavesOf(Type* t) { return (unsigned)ti(t).l.size(); }

// ------------------------------------------------------------------ memory
struct SB { Node* n; uint32_t idx; };
static Node UNINIT_;
static Node* const UNINIT = &UNINIT_;
struct Obj {
	uint64_t size; bool ro = false; uint8_t kind = 0; // 0 global 1 heap 2 stack
	string name;
	vector<uint8_t> b; vector<SB> s;
	uint32_t allocTid = 0;
};
static const uint64_t OBASE = 0x10000000ull;
static inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id << 32) + OBASE; }

struct CInst;
struct FnInfo;
struct Frame {
	FnInfo* f; uint32_t bb = 0, ip = 0, prev = 0; vector<V> r; vector<uint32_t> allocas; const CInst* call = nullptr;
	vector<V> va;
};
typedef std::map<uint32_t, uint32_t> VC;
struct Thread { vector<Frame> st; bool done = false; bool granted = false; int joinOn = -1; uint64_t lockOn = 0; VC vc; };
struct Access { uint64_t off, len; uint32_t tid, clk; bool wr; };
struct Obs { string name; V v; unsigned w; };
struct State {
	uint64_t id;
	vector<shared_ptr<Obj>> objs; // index = id
	vector<uint32_t> freeStack;
	vector<Thread> th; int cur = 0; unsigned live = 1;
	vector<Node*> pc;
	Model model; shared_ptr<Evaluator> ev;
	std::unordered_map<uint32_t, uint64_t> conc;
	std::map<string, unsigned> occ;
	vector<std::pair<string, uint32_t>> inputs; // display name -> var id
	vector<std::pair<string, uint64_t>> fixedInputs;
	vector<Obs> obs;
	std::set<string> covers;
	std::map<uint64_t, VC> syncVC;
	std::map<uint64_t, int> locks;
	std::map<uint32_t, vector<Access>> acc;
	uint64_t inst = 0; unsigned forks = 0; bool approx = false; string note; bool undecidedPath = false;
	vector<int> sched;
	Thread& T() { return th[cur]; }
	Frame& F() { return th[cur].st.back(); }
};
static uint64_t gStateId = 0;
static vector<std::unique_ptr<State>> work;
static std::unique_ptr<State> cloneState(State& s)
{
	std::unique_ptr<State> n(new State(s));
	n->id = ++gStateId;
	n->ev = s.ev;
	stForks++;
	return n;
}
static void setModel(State& s, Model&& m) { s.model = std::move(m); s.ev.reset(); }
static u128 evalIn(State& s, Node* n)
{
	if (!s.ev) { auto* mm = new Model(s.model); s.ev = shared_ptr<Evaluator>(new Evaluator(mm), [](Evaluator* e) { delete e->m; delete e; }); }
	return s.ev->eval(n);
}

// ------------------------------------------------------------------ failures
struct Failure { string kind, msg, loc, stack; vector<std::pair<string, uint64_t>> inputs; bool undef; vector<int> sched; };
static vector<Failure> gFailures; static std::set<string> gFailKeys; static uint64_t gFailTotal;

static string locOf(const Instruction* I)
{
	if (I) if (auto& dl = I->getDebugLoc()) {
		auto* sc = dl->getScope();
		string f = cast<DIScope>(sc)->getFilename().str();
		size_t p = f.rfind('/');
		return (p == string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(dl.getLine());
	}
	return "?";
}
struct CInst {
	Instruction* I; unsigned op; int dst = -1; const TyI* ty = nullptr;
	struct Opnd { int reg; vector<V> cv; const TyI* ty; };
	vector<Opnd> ops;
	uint64_t k0 = 0, k1 = 0; // misc
	struct GI { int op; uint64_t scale; unsigned w; };
	vector<GI> gi;
	vector<uint32_t> succ;
	Function* callee = nullptr; FnInfo* cfi = nullptr; bool direct = false; unsigned iid = 0;
	vector<int> shuf;
	std::function<int(State&, const CInst&, vector<vector<V>>&)>* handler = nullptr;
};
struct BBI { vector<CInst> in; unsigned nphi = 0; vector<vector<std::pair<uint32_t, unsigned>>> phiPred; };
struct FnInfo {
	Function* F; vector<BBI> bbs; unsigned nregs = 0; vector<int> argReg; uint64_t count = 0; bool compiled = false; string dem;
	std::unordered_map<const Value*, int> regs;
};
static std::unordered_map<Function*, std::unique_ptr<FnInfo>> fns;
static std::unordered_map<uint64_t, Function*> fnByAddr;
static std::unordered_map<const GlobalValue*, uint64_t> gAddr;

static string stackOf(State& s)
{
	string r;
	auto& st = s.T().st;
	int n = 0;
	for (int i = (int)st.size() - 1; i >= 0 && n < 12; i--, n++) {
		auto& f = st[i];
		const Instruction* I = nullptr;
		auto& bb = f.f->bbs[f.bb];
		unsigned ip = i == (int)st.size() - 1 ? f.ip : (f.ip ? f.ip - 1 : 0);
		if (ip < bb.in.size()) I = bb.in[ip].I;
		r += f.f->dem.substr(0, 90) + " (" + locOf(I) + ")\n";
	}
	return r;
}
static vector<std::pair<string, uint64_t>> modelInputs(State& s, const Model& m)
{
	vector<std::pair<string, uint64_t>> r = s.fixedInputs;
	for (auto& p : s.inputs) { auto it = m.find(p.second); r.push_back({p.first, it == m.end() ? 0 : (uint64_t)it->second}); }
	return r;
}
static void report(State& s, const string& kind, const string& msg, const Model& m, bool undef = false)
{
	gFailTotal++;
	string st = stackOf(s);
	string loc = st.substr(0, st.find('\n'));
	string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : loc);
	if (!gFailKeys.insert(key).second && gFailures.size() >= 3) return;
	if (gFailures.size() >= optMaxFail) return;
	gFailures.push_back({kind, msg, loc, st, modelInputs(s, m), undef, s.sched});
	if (optVerbose) {
		errs() << "FAIL " << kind << ": " << msg << "\n" << st;
		for (auto& p : gFailures.back().inputs) errs() << "   " << p.first << " = " << p.second << "\n";
	}
}
struct PathEnd { string why; bool incomplete; };
[[noreturn]] static void endPath(const string& why, bool incomplete = false) { throw PathEnd{why, incomplete}; }
[[noreturn]] static void fatalState(State& s, const string& kind, const string& msg) { report(s, kind, msg, s.model); endPath("failure: " + kind); }
[[noreturn]] static void incomplete(State& s, const string& why)
{
	if (optVerbose) errs() << "INCOMPLETE " << why << "\n" << stackOf(s);
	endPath(why, true);
}

// ------------------------------------------------------------------ solver glue
static vector<Node*> slice(const vector<Node*>& pc, Node* c)
{
	vector<Node*> out{c};
	std::unordered_set<uint32_t> vars(c->vars->begin(), c->vars->end());
	vector<char> used(pc.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < pc.size(); i++) {
			if (used[i]) continue;
			bool hit = false;
			for (uint32_t v : *pc[i]->vars) if (vars.count(v)) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1; ch = true; out.push_back(pc[i]);
			for (uint32_t v : *pc[i]->vars) vars.insert(v);
		}
	}
	return out;
}
// Is pc & c satisfiable?  On SAT `m` is a model of the whole pc & c.
static SatRes may(State& s, Node* c, Model& m)
{
	if (c->op == OConst) { m = s.model; return c->c ? SAT : UNSAT; }
	if (evalIn(s, c)) { gStats.modelHits++; m = s.model; return SAT; }
	m = s.model;
	return solve(slice(s.pc, c), m, optQueryMs);
}
static Node* notN(Node* c) { return mkNode(OXor, 1, 0, c, mkConst(1, 1)); }
static void addPC(State& s, Node* c) { if (c->op != OConst) s.pc.push_back(c); }

// Fork on a width-1 condition. Returns the value for the current state; queues the other side (re-executing the
// current instruction is NOT wanted by the caller, so the caller supplies what the other state must do).
static bool forkCond(State& s, Node* c, const std::function<void(State&)>& otherFix)
{
	bool v = evalIn(s, c) != 0;
	Node* same = v ? c : notN(c);
	Node* opp = v ? notN(c) : c;
	Model m;
	SatRes r = may(s, opp, m);
	if (r == SAT) {
		auto o = cloneState(s);
		addPC(*o, opp);
		setModel(*o, std::move(m));
		otherFix(*o);
		work.push_back(std::move(o));
		addPC(s, same);
	} else if (r == UNKNOWN) { stBranchUndecided++; addPC(s, same); }
	return v;
}
// Decide a condition with re-execution of the current instruction in the sibling state.
static bool decide(State& s, const V& c)
{
	if (c.conc()) return c.c;
	auto it = s.conc.find(c.n->id);
	if (it != s.conc.end()) return it->second;
	bool v = evalIn(s, c.n) != 0;
	Node* cn = c.n;
	forkCond(s, cn, [cn, v](State& o) { o.conc[cn->id] = !v; o.F().ip = o.F().ip; });
	s.conc[cn->id] = v;
	return v;
}
// Concretise by forking over all feasible values; siblings re-execute the current instruction.
static uint64_t concretize(State& s, const V& x, unsigned w, unsigned limit, const char* what)
{
	if (x.conc()) return x.c;
	auto it = s.conc.find(x.n->id);
	if (it != s.conc.end()) return it->second;
	uint64_t first = (uint64_t)evalIn(s, x.n);
	vector<uint64_t> vals{first};
	Node* firstEq = mkNode(OEq, 1, 0, x.n, mkConst(first, w));
	vector<Node*> ne{notN(firstEq)};
	unsigned cnt = 1;
	while (true) {
		Node* all = ne[0];
		for (size_t i = 1; i < ne.size(); i++) all = mkNode(OAnd, 1, 0, all, ne[i]);
		Model m;
		SatRes r = may(s, all, m);
		if (r == UNSAT) break;
		if (r == UNKNOWN) { stBranchUndecided++; break; }
		Evaluator ev(&m);
		uint64_t v = (uint64_t)ev.eval(x.n);
		if (++cnt > limit) {
			stIncomplete++; stIncompleteWhy[string("more than ") + std::to_string(limit) + " values for " + what + " at " + locOf(s.F().f->bbs[s.F().bb].in[s.F().ip].I)]++;
			break;
		}
		auto o = cloneState(s);
		Node* eq = mkNode(OEq, 1, 0, x.n, mkConst(v, w));
		addPC(*o, eq);
		o->conc[x.n->id] = v;
		setModel(*o, std::move(m));
		work.push_back(std::move(o));
		ne.push_back(notN(eq));
	}
	addPC(s, firstEq);
	s.conc[x.n->id] = first;
	return first;
}

// ------------------------------------------------------------------ object access
static uint32_t newObj(State& s, uint64_t size, uint8_t kind, const string& name, bool uninit)
{
	uint32_t id;
	if (kind == 2 && !s.freeStack.empty()) { id = s.freeStack.back(); s.freeStack.pop_back(); }
	else { id = (uint32_t)s.objs.size(); s.objs.emplace_back(); }
	auto o = std::make_shared<Obj>();
	o->size = size; o->kind = kind; o->name = name; o->allocTid = s.cur;
	o->b.resize(size);
	if (uninit && size) o->s.assign(size, SB{UNINIT, 0});
	s.objs[id] = o;
	return id;
}
static Obj& wr(State& s, uint32_t id)
{
	auto& p = s.objs[id];
	if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
	return *p;
}
static V byteAt(State& s, uint32_t id, uint64_t off)
{
	Obj& o = *s.objs[id];
	if (o.s.empty() || !o.s[off].n) return V(o.b[off]);
	if (o.s[off].n == UNINIT) {
		Node* v = mkVar("undef_" + std::to_string(gVars.size()) + "@" + o.name, 8, true);
		Obj& w = wr(s, id);
		w.s[off] = {v, 0};
		return V(0, v);
	}
	SB sb = o.s[off];
	return fromNode(mkNode(OExtract, 8, sb.idx * 8, sb.n));
}
static V rawLoad(State& s, uint32_t id, uint64_t off, unsigned w)
{
	unsigned nb = (w + 7) / 8;
	Obj& o = *s.objs[id];
	bool conc = o.s.empty();
	if (!conc) { conc = true; for (unsigned i = 0; i < nb; i++) if (o.s[off + i].n) { conc = false; break; } }
	if (conc && nb <= 8) { uint64_t v = 0; memcpy(&v, &o.b[off], nb); return V(v & mask64(w)); }
	if (!o.s.empty() && o.s[off].n && o.s[off].n != UNINIT && o.s[off].idx == 0 && o.s[off].n->w == nb * 8) {
		Node* n = o.s[off].n; bool whole = true;
		for (unsigned i = 1; i < nb; i++) if (o.s[off + i].n != n || o.s[off + i].idx != i) { whole = false; break; }
		if (whole) return w == nb * 8 ? V(0, n) : fromNode(mkNode(OExtract, w, 0, n));
	}
	if (nb > 1) {
		// a load of entirely uninitialised memory yields one undefined value
		bool allU = true;
		for (unsigned i = 0; i < nb; i++) if (o.s[off + i].n != UNINIT) { allU = false; break; }
		if (allU) {
			Node* v = mkVar("undef_" + std::to_string(gVars.size()) + "@" + o.name, nb * 8, true);
			Obj& ww = wr(s, id);
			for (unsigned i = 0; i < nb; i++) ww.s[off + i] = {v, i};
			return w == nb * 8 ? V(0, v) : fromNode(mkNode(OExtract, w, 0, v));
		}
	}
	V acc = byteAt(s, id, off + nb - 1);
	for (int i = (int)nb - 2; i >= 0; i--) { V lo = byteAt(s, id, off + i); acc = vConcat(acc, (nb - 1 - i) * 8, lo, 8); }
	return vExtract(acc, nb * 8, 0, w);
}
static void rawStore(State& s, uint32_t id, uint64_t off, unsigned w, const V& v0)
{
	unsigned nb = (w + 7) / 8;
	V v = v0;
	if (w != nb * 8) v = vZExt(v, w, nb * 8);
	Obj& o = wr(s, id);
	if (v.conc()) {
		memcpy(&o.b[off], &v.c, nb);
		if (!o.s.empty()) for (unsigned i = 0; i < nb; i++) o.s[off + i].n = nullptr;
		return;
	}
	if (o.s.empty()) o.s.assign(o.size, SB{nullptr, 0});
	for (unsigned i = 0; i < nb; i++) o.s[off + i] = {v.n, i};
}
static string objDesc(State& s, uint32_t id)
{
	if (id >= s.objs.size() || !s.objs[id]) return "dead object";
	return s.objs[id]->name + " (size " + std::to_string(s.objs[id]->size) + ")";
}
static void raceCheck(State& s, uint32_t id, uint64_t off, uint64_t len, bool isW)
{
	if (s.live <= 1) return;
	auto& o = *s.objs[id];
	auto& T = s.T();
	auto& v = s.acc[id];
	uint32_t clk = T.vc[s.cur];
	for (auto& a : v) {
		if ((int)a.tid == s.cur || !(a.wr || isW)) continue;
		if (a.off >= off + len || off >= a.off + a.len) continue;
		auto it = T.vc.find(a.tid);
		if (it == T.vc.end() || it->second < a.clk) fatalState(s, "race", "data race on " + o.name + " between threads " + std::to_string(a.tid) + " and " + std::to_string(s.cur));
	}
	for (auto& a : v) if ((int)a.tid == s.cur && a.clk == clk && a.wr == isW) {
		if (off >= a.off && off + len <= a.off + a.len) return;
		if (off == a.off + a.len) { a.len += len; return; }
	}
	v.push_back({off, len, (uint32_t)s.cur, clk, isW});
}
// Resolve a concrete address.
static bool inBounds(State& s, uint64_t a, uint64_t len, uint32_t& id, uint64_t& off)
{
	id = (uint32_t)(a >> 32);
	off = (a & 0xffffffffull) - OBASE;
	if (id == 0 || id >= s.objs.size() || !s.objs[id]) return false;
	Obj& o = *s.objs[id];
	return off <= o.size && len <= o.size - off;
}
[[noreturn]] static void badAddr(State& s, uint64_t a, uint64_t len, bool w)
{
	uint32_t id = (uint32_t)(a >> 32);
	int64_t off = (int64_t)((a & 0xffffffffull) - OBASE);
	string d = id == 0 ? "null or wild pointer" : (id >= s.objs.size() ? string("wild pointer") : objDesc(s, id) + " offset " + std::to_string(off));
	fatalState(s, "memory", string(w ? "invalid write of " : "invalid read of ") + std::to_string(len) + " bytes: " + d);
}
// Symbolic address: returns candidate concrete addresses (with the conditions under which they apply).
struct Cand { uint64_t addr; Node* cond; };
static vector<Cand> resolveSym(State& s, Node* a, uint64_t len, bool isW)
{
	uint64_t v0 = (uint64_t)evalIn(s, a);
	uint32_t id; uint64_t off;
	if (!inBounds(s, v0, len, id, off)) {
		// current model goes out of bounds: real violation
		badAddr(s, v0, len, isW);
	}
	Obj& o = *s.objs[id];
	uint64_t lo = baseOf(id), hi = lo + o.size - len;
	Node* inO = mkNode(OAnd, 1, 0, mkNode(OUle, 1, 0, mkConst(lo, 64), a), mkNode(OUle, 1, 0, a, mkConst(hi, 64)));
	Model m;
	SatRes r = may(s, notN(inO), m);
	if (r == SAT) {
		// other objects or out of bounds: sibling state re-executes under that constraint
		auto sib = cloneState(s);
		addPC(*sib, notN(inO));
		setModel(*sib, std::move(m));
		work.push_back(std::move(sib));
		addPC(s, inO);
	} else if (r == UNKNOWN) { stBranchUndecided++; addPC(s, inO); }
	// enumerate feasible offsets
	vector<Cand> out;
	Node* ne = mkConst(1, 1);
	uint64_t v = v0;
	const unsigned LIM = 1100;
	while (true) {
		Node* eq = mkNode(OEq, 1, 0, a, mkConst(v, 64));
		out.push_back({v, eq});
		ne = mkNode(OAnd, 1, 0, ne, notN(eq));
		if (ne->op == OConst) break;
		Model mm;
		r = may(s, ne, mm);
		if (r == UNSAT) break;
		if (r == UNKNOWN) { stBranchUndecided++; break; }
		if (out.size() >= LIM) incomplete(s, "symbolic address with more than 1100 targets in " + o.name);
		Evaluator ev(&mm);
		v = (uint64_t)ev.eval(a);
	}
	return out;
}
static V load(State& s, const V& addr, unsigned w)
{
	uint64_t len = (w + 7) / 8;
	if (addr.conc()) {
		uint32_t id; uint64_t off;
		if (!inBounds(s, addr.c, len, id, off)) badAddr(s, addr.c, len, false);
		if (s.live > 1) raceCheck(s, id, off, len, false);
		return rawLoad(s, id, off, w);
	}
	auto it = s.conc.find(addr.n->id);
	if (it != s.conc.end()) return load(s, V(it->second), w);
	auto c = resolveSym(s, addr.n, len, false);
	V r; bool first = true;
	for (auto& k : c) {
		uint32_t id; uint64_t off;
		inBounds(s, k.addr, len, id, off);
		if (s.live > 1) raceCheck(s, id, off, len, false);
		V x = rawLoad(s, id, off, w);
		if (first) { r = x; first = false; } else r = vIte(V(0, k.cond), x, r, w);
	}
	return r;
}
static void store(State& s, const V& addr, unsigned w, const V& v)
{
	uint64_t len = (w + 7) / 8;
	if (addr.conc()) {
		uint32_t id; uint64_t off;
		if (!inBounds(s, addr.c, len, id, off)) badAddr(s, addr.c, len, true);
		if (s.objs[id]->ro) fatalState(s, "memory", "write to constant " + s.objs[id]->name);
		if (s.live > 1) raceCheck(s, id, off, len, true);
		rawStore(s, id, off, w, v);
		return;
	}
	auto it = s.conc.find(addr.n->id);
	if (it != s.conc.end()) { store(s, V(it->second), w, v); return; }
	auto c = resolveSym(s, addr.n, len, true);
	for (auto& k : c) {
		uint32_t id; uint64_t off;
		inBounds(s, k.addr, len, id, off);
		if (s.objs[id]->ro) fatalState(s, "memory", "write to constant " + s.objs[id]->name);
		if (s.live > 1) raceCheck(s, id, off, len, true);
		if (c.size() == 1) { rawStore(s, id, off, w, v); break; }
		V old = rawLoad(s, id, off, w);
		rawStore(s, id, off, w, vIte(V(0, k.cond), v, old, w));
	}
}
static uint64_t concAddr(State& s, const V& a) { return concretize(s, a, 64, 300, "pointer"); }
static void copyBytes(State& s, uint64_t d, uint64_t sr, uint64_t n)
{
	if (!n) return;
	uint32_t di, si; uint64_t doff, soff;
	if (!inBounds(s, sr, n, si, soff)) badAddr(s, sr, n, false);
	if (!inBounds(s, d, n, di, doff)) badAddr(s, d, n, true);
	if (s.objs[di]->ro) fatalState(s, "memory", "write to constant " + s.objs[di]->name);
	if (s.live > 1) { raceCheck(s, si, soff, n, false); raceCheck(s, di, doff, n, true); }
	shared_ptr<Obj> so = s.objs[si];
	Obj& o = wr(s, di);
	if (so.get() == &o) {
		memmove(&o.b[doff], &o.b[soff], n);
		if (!o.s.empty()) memmove((void*)&o.s[doff], (void*)&o.s[soff], n * sizeof(SB));
		return;
	}
	memcpy(&o.b[doff], &so->b[soff], n);
	if (so->s.empty()) { if (!o.s.empty()) for (uint64_t i = 0; i < n; i++) o.s[doff + i].n = nullptr; }
	else {
		if (o.s.empty()) o.s.assign(o.size, SB{nullptr, 0});
		memcpy((void*)&o.s[doff], (void*)&so->s[soff], n * sizeof(SB));
	}
}
static void freeObj(State& s, uint32_t id)
{
	bool stack = s.objs[id]->kind == 2;
	s.objs[id].reset();
	s.acc.erase(id);
	if (stack) s.freeStack.push_back(id);
}
static string readCStr(State& s, uint64_t a)
{
	string r;
	for (;;) {
		uint32_t id; uint64_t off;
		if (!inBounds(s, a, 1, id, off)) return r + "<oob>";
		V v = byteAt(s, id, off);
		if (!v.conc()) return r + "<sym>";
		if (!v.c) return r;
		r += (char)v.c; a++;
	}
}

// ------------------------------------------------------------------ constants
static void constBits(Constant* c, vector<V>& out);
static uint64_t constInt(Constant* c, const char* what)
{
	vector<V> v; constBits(c, v);
	if (v.size() != 1 || !v[0].conc()) { errs() << "symir: non-scalar constant " << what << ": " << *c << "\n"; exit(3); }
	return v[0].c;
}
static V undefV(unsigned w) { return V(0, mkVar("undef_const_" + std::to_string(gVars.size()), w, true)); }
static void constBits(Constant* c, vector<V>& out)
{
	Type* t = c->getType();
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		const APInt& a = ci->getValue();
		if (a.getBitWidth() <= 64) out.push_back(V(a.getZExtValue()));
		else { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; out.push_back(V(0, mkConst(v, a.getBitWidth()))); }
		return;
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		APInt a = cf->getValueAPF().bitcastToAPInt();
		if (a.getBitWidth() > 64) out.push_back(V(0, mkConst(a.getRawData()[0], 80)));
		else out.push_back(V(a.getZExtValue()));
		return;
	}
	if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
	if (isa<UndefValue>(c)) { for (auto& l : ti(t).l) out.push_back(isa<PoisonValue>(c) || true ? undefV(l.w) : V(0)); return; }
	if (isa<ConstantAggregateZero>(c)) { for (auto& l : ti(t).l) { (void)l; out.push_back(l.w <= 64 ? V(0) : V(0, mkConst(0, l.w))); } return; }
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constBits(cast<Constant>(ca->getOperand(i)), out); return; }
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constBits(cd->getElementAsConstant(i), out); return; }
	if (auto* ga = dyn_cast<GlobalAlias>(c)) { constBits(ga->getAliasee(), out); return; }
	if (auto* gv = dyn_cast<GlobalValue>(c)) {
		auto it = gAddr.find(gv);
		if (it == gAddr.end()) { errs() << "symir: no address for " << gv->getName() << "\n"; exit(3); }
		out.push_back(V(it->second));
		return;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto* g = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if (!g->accumulateConstantOffset(*DL, off)) { errs() << "symir: gep const\n"; exit(3); }
			out.push_back(V(constInt(cast<Constant>(g->getPointerOperand()), "gep") + off.getZExtValue()));
			return;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
			constBits(ce->getOperand(0), out); return;
		case Instruction::Sub: out.push_back(V(constInt(ce->getOperand(0), "sub") - constInt(ce->getOperand(1), "sub"))); return;
		case Instruction::Add: out.push_back(V(constInt(ce->getOperand(0), "add") + constInt(ce->getOperand(1), "add"))); return;
		case Instruction::Trunc: out.push_back(V(constInt(ce->getOperand(0), "trunc") & mask64(t->getIntegerBitWidth()))); return;
		case Instruction::ICmp: {
			uint64_t a = constInt(ce->getOperand(0), "icmp"), b = constInt(ce->getOperand(1), "icmp");
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: out.push_back(V(a == b)); return;
			case CmpInst::ICMP_NE: out.push_back(V(a != b)); return;
			default: break;
			}
			break;
		}
		}
	}
	errs() << "symir: unsupported constant " << *c << "\n";
	exit(3);
}

// ------------------------------------------------------------------ function compilation
static FnInfo* fnInfo(Function* F)
{
	auto& p = fns[F];
	if (!p) { p.reset(new FnInfo); p->F = F; p->dem = demangle(F->getName().str()); }
	return p.get();
}
typedef int (*Handler)(State&, const CInst&, vector<vector<V>>&, vector<V>&);
static std::unordered_map<string, Handler> handlers;

static void compileFn(FnInfo* fi)
{
	fi->compiled = true;
	Function* F = fi->F;
	unsigned n = 0;
	for (auto& a : F->args()) { fi->regs[&a] = n; fi->argReg.push_back(n); n += leavesOf(a.getType()); }
	std::unordered_map<const BasicBlock*, uint32_t> bi;
	uint32_t nb = 0;
	for (auto& bb : *F) { bi[&bb] = nb++; for (auto& I : bb) if (!I.getType()->isVoidTy()) { fi->regs[&I] = n; n += leavesOf(I.getType()); } }
	fi->nregs = n;
	fi->bbs.resize(nb);
	for (auto& bb : *F) {
		BBI& B = fi->bbs[bi[&bb]];
		for (auto& I : bb) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			CInst ci;
			ci.I = &I; ci.op = I.getOpcode();
			if (!I.getType()->isVoidTy()) { ci.dst = fi->regs[&I]; ci.ty = &ti(I.getType()); }
			auto addOp = [&](Value* v) {
				CInst::Opnd o; o.reg = -1; o.ty = nullptr;
				if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { ci.ops.push_back(o); return; }
				o.ty = &ti(v->getType());
				if (auto* c = dyn_cast<Constant>(v)) constBits(c, o.cv);
				else o.reg = fi->regs.at(v);
				ci.ops.push_back(o);
			};
			switch (I.getOpcode()) {
			case Instruction::PHI: {
				auto& P = cast<PHINode>(I);
				B.nphi++;
				vector<std::pair<uint32_t, unsigned>> pr;
				for (unsigned i = 0; i < P.getNumIncomingValues(); i++) { pr.push_back({bi[P.getIncomingBlock(i)], i}); addOp(P.getIncomingValue(i)); }
				B.phiPred.push_back(pr);
				break;
			}
			case Instruction::Br: {
				auto& b = cast<BranchInst>(I);
				if (b.isConditional()) addOp(b.getCondition());
				for (unsigned i = 0; i < b.getNumSuccessors(); i++) ci.succ.push_back(bi[b.getSuccessor(i)]);
				break;
			}
			case Instruction::Switch: {
				auto& sw = cast<SwitchInst>(I);
				addOp(sw.getCondition());
				ci.succ.push_back(bi[sw.getDefaultDest()]);
				for (auto& c : sw.cases()) { addOp(c.getCaseValue()); ci.succ.push_back(bi[c.getCaseSuccessor()]); }
				break;
			}
			case Instruction::GetElementPtr: {
				auto& g = cast<GetElementPtrInst>(I);
				if (g.getType()->isVectorTy()) { errs() << "symir: vector gep\n"; exit(3); }
				addOp(g.getPointerOperand());
				uint64_t off = 0;
				unsigned k = 1;
				for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
					Value* idx = it.getOperand();
					if (auto* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					else {
						uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
						if (auto* c = dyn_cast<ConstantInt>(idx)) off += (uint64_t)c->getSExtValue() * es;
						else { addOp(idx); ci.gi.push_back({(int)ci.ops.size() - 1, es, idx->getType()->getIntegerBitWidth()}); }
					}
				}
				ci.k0 = off;
				break;
			}
			case Instruction::ShuffleVector: {
				auto& sv = cast<ShuffleVectorInst>(I);
				addOp(sv.getOperand(0)); addOp(sv.getOperand(1));
				for (int x : sv.getShuffleMask()) ci.shuf.push_back(x);
				break;
			}
			case Instruction::ExtractValue: case Instruction::InsertValue: {
				ArrayRef<unsigned> idx = isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
				Type* t = I.getOperand(0)->getType();
				unsigned lo = 0;
				for (unsigned x : idx) {
					if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < x; j++) lo += leavesOf(st->getElementType(j)); t = st->getElementType(x); }
					else { t = cast<ArrayType>(t)->getElementType(); lo += x * leavesOf(t); }
				}
				ci.k0 = lo; ci.k1 = leavesOf(t);
				for (auto& o : I.operands()) addOp(o);
				break;
			}
			case Instruction::Call: case Instruction::Invoke: {
				auto& cb = cast<CallBase>(I);
				for (auto& a : cb.args()) addOp(a);
				Value* cv = cb.getCalledOperand()->stripPointerCasts();
				if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
				if (auto* f = dyn_cast<Function>(cv)) { ci.callee = f; ci.direct = true; ci.iid = f->getIntrinsicID(); if (!ci.iid) ci.cfi = fnInfo(f); }
				else if (isa<InlineAsm>(cv)) { ci.direct = true; }
				else addOp(cv);
				if (auto* iv = dyn_cast<InvokeInst>(&I)) ci.succ.push_back(bi[iv->getNormalDest()]);
				break;
			}
			default:
				for (auto& o : I.operands()) addOp(o);
			}
			B.in.push_back(std::move(ci));
		}
	}
}
static inline const V& opv(Frame& f, const CInst& c, unsigned i, unsigned leaf = 0)
{
	auto& o = c.ops[i];
	return o.reg >= 0 ? f.r[o.reg + leaf] : o.cv[leaf];
}
static inline void setr(Frame& f, const CInst& c, const V& v, unsigned leaf = 0) { f.r[c.dst + leaf] = v; }

static void pushFrame(State& s, Thread& T, FnInfo* fi, const vector<vector<V>>& args, const CInst* call)
{
	if (!fi->compiled) compileFn(fi);
	fi->count++;
	if (T.st.size() > 2000) fatalState(s, "memory", "stack overflow (recursion deeper than 2000 frames)");
	T.st.emplace_back();
	Frame& f = T.st.back();
	f.f = fi; f.r.resize(fi->nregs); f.call = call;
	size_t na = fi->argReg.size();
	for (size_t i = 0; i < args.size(); i++) {
		if (i < na) for (size_t j = 0; j < args[i].size(); j++) f.r[fi->argReg[i] + j] = args[i][j];
		else for (auto& v : args[i]) f.va.push_back(v);
	}
}
static void enterBB(State& s, Frame& f, uint32_t bb)
{
	uint32_t from = f.bb;
	f.prev = from; f.bb = bb; f.ip = 0;
	BBI& B = f.f->bbs[bb];
	if (B.nphi) {
		vector<V> tmp;
		for (unsigned i = 0; i < B.nphi; i++) {
			auto& pr = B.phiPred[i];
			for (auto& p : pr) if (p.first == from) { for (unsigned l = 0; l < B.in[i].ty->l.size(); l++) tmp.push_back(opv(f, B.in[i], p.second, l)); break; }
		}
		size_t k = 0;
		for (unsigned i = 0; i < B.nphi; i++) for (unsigned l = 0; l < B.in[i].ty->l.size(); l++) f.r[B.in[i].dst + l] = tmp[k++];
		f.ip = B.nphi;
	}
}
static void undefBranchCheck(State& s, Node* c)
{
	if (!c->hasUndef) return;
	// Depends on undefined data: report only if the undefined part can really change the outcome.
	Model m1, m2;
	if (may(s, c, m1) == SAT && may(s, notN(c), m2) == SAT) {
		// Does it depend on undef for some fixed defined inputs?  Check by re-evaluating with toggled undef values
		// through a query: exists inputs, u1, u2 with c(u1) != c(u2).  Approximate by substituting fresh undef vars.
		report(s, "uninit", "branch depends on uninitialised or undefined data", s.model, true);
		endPath("uninit");
	}
}

// ------------------------------------------------------------------ traces
struct Trace { vector<std::pair<string, uint64_t>> inputs; vector<std::pair<string, string>> obs; bool approx; vector<int> sched; };
static vector<Trace> gTraces; static uint64_t gTraceSeen = 0;
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static void finishPath(State& s)
{
	stPaths++;
	for (auto& c : s.covers) stCovers[c]++;
	// reservoir sampling of completed paths
	gTraceSeen++;
	size_t slot;
	if (gTraces.size() < optMaxTraces) { slot = gTraces.size(); gTraces.emplace_back(); }
	else { uint64_t k = rng() % gTraceSeen; if (k >= optMaxTraces) return; slot = k; }
	Trace t;
	t.inputs = modelInputs(s, s.model);
	t.approx = s.approx;
	t.sched = s.sched;
	for (auto& o : s.obs) {
		if (o.v.conc()) t.obs.push_back({o.name, std::to_string(o.v.c)});
		else if (o.v.n->hasUndef || o.v.n->hasUF) t.obs.push_back({o.name, "?"});
		else t.obs.push_back({o.name, std::to_string((uint64_t)evalIn(s, o.v.n))});
	}
	gTraces[slot] = std::move(t);
}

// ------------------------------------------------------------------ threads
static vector<int> runnable(State& s)
{
	vector<int> r;
	for (size_t i = 0; i < s.th.size(); i++) {
		auto& t = s.th[i];
		if (t.done) continue;
		if (t.joinOn >= 0 && !s.th[t.joinOn].done) continue;
		if (t.lockOn && s.locks[t.lockOn]) continue;
		r.push_back((int)i);
	}
	return r;
}
static void pickThread(State& s, bool mustSwitch)
{
	auto r = runnable(s);
	if (r.empty()) fatalState(s, "deadlock", "no runnable thread");
	for (size_t i = 1; i < r.size(); i++) {
		auto o = cloneState(s);
		o->cur = r[i]; o->T().granted = true; o->sched.push_back(r[i]);
		work.push_back(std::move(o));
	}
	s.cur = r[0]; s.T().granted = true;
	if (r.size() > 1) s.sched.push_back(r[0]);
}
// Called at a visible operation. Returns true if the operation may execute now.
static bool visible(State& s)
{
	if (s.live <= 1) return true;
	if (s.T().granted) { s.T().granted = false; return true; }
	int me = s.cur;
	pickThread(s, false);
	if (s.cur == me && s.T().granted) { s.T().granted = false; return true; }
	return false;
}
static void joinVC(VC& a, const VC& b) { for (auto& p : b) { auto& x = a[p.first]; if (x < p.second) x = p.second; } }
static void syncAcq(State& s, uint64_t addr) { joinVC(s.T().vc, s.syncVC[addr]); }
static void syncRel(State& s, uint64_t addr) { joinVC(s.syncVC[addr], s.T().vc); s.T().vc[s.cur]++; }

// ------------------------------------------------------------------ helpers for calls
static V fpInRange(const V& a, unsigned wa, unsigned w, bool sg)
{
	if (sg) {
		V lo;
		bool strict;
		unsigned mant = wa == 64 ? 53 : wa == 32 ? 24 : 11;
		if (w - 1 < mant) { lo = V(fpConst(-ldexp(1, w - 1) - 1, wa)); strict = true; }
		else { lo = V(fpConst(-ldexp(1, w - 1), wa)); strict = false; }
		V c1 = strict ? vFCmp(OFLt, wa, lo, a) : vFCmp(OFLe, wa, lo, a);
		return vAnd1(c1, vFCmp(OFLt, wa, a, V(fpConst(ldexp(1, w - 1), wa))));
	}
	return vAnd1(vFCmp(OFLt, wa, V(fpConst(-1, wa)), a), vFCmp(OFLt, wa, a, V(fpConst(ldexp(1, w), wa))));
}
static V fpToInt(State& s, const V& a, unsigned wa, unsigned w, bool sg)
{
	V in = fpInRange(a, wa, w, sg);
	V r = vFToI(a, wa, w, sg);
	if (in.conc() && in.c) return r;
	if (!in.conc()) {
		Model m;
		SatRes q = may(s, notN(in.n), m);
		if (q == UNSAT) return r;
		if (q == SAT && optFpCastCheck) report(s, "fpcast", "floating-point value out of range in conversion to integer", m);
		if (q == UNKNOWN) stBranchUndecided++;
	} else if (optFpCastCheck) report(s, "fpcast", "floating-point value out of range in conversion to integer", s.model);
	V u = undefV(w);
	return vIte(in, r, u, w);
}
static V fsel(const V& c, const V& a, const V& b, unsigned w) { return vIte(c, a, b, w); }
static V fneg(const V& a, unsigned w) { return vBin(OXor, w, a, V(1ull << (w - 1))); }
static V fabsv(const V& a, unsigned w) { return vBin(OAnd, w, a, V(mask64(w - 1))); }
static V fcmpPred(CmpInst::Predicate p, unsigned w, const V& a, const V& b)
{
	auto uno = [&] { return vOr1(vFNan(w, a), vFNan(w, b)); };
	switch (p) {
	case CmpInst::FCMP_FALSE: return V(0);
	case CmpInst::FCMP_OEQ: return vFCmp(OFEq, w, a, b);
	case CmpInst::FCMP_OGT: return vFCmp(OFLt, w, b, a);
	case CmpInst::FCMP_OGE: return vFCmp(OFLe, w, b, a);
	case CmpInst::FCMP_OLT: return vFCmp(OFLt, w, a, b);
	case CmpInst::FCMP_OLE: return vFCmp(OFLe, w, a, b);
	case CmpInst::FCMP_ONE: return vAnd1(vNot1(uno()), vNot1(vFCmp(OFEq, w, a, b)));
	case CmpInst::FCMP_ORD: return vNot1(uno());
	case CmpInst::FCMP_UNO: return uno();
	case CmpInst::FCMP_UEQ: return vOr1(uno(), vFCmp(OFEq, w, a, b));
	case CmpInst::FCMP_UGT: return vNot1(vFCmp(OFLe, w, a, b));
	case CmpInst::FCMP_UGE: return vNot1(vFCmp(OFLt, w, a, b));
	case CmpInst::FCMP_ULT: return vNot1(vFCmp(OFLe, w, b, a));
	case CmpInst::FCMP_ULE: return vNot1(vFCmp(OFLt, w, b, a));
	case CmpInst::FCMP_UNE: return vNot1(vFCmp(OFEq, w, a, b));
	default: return V(1);
	}
}
static V icmpPred(CmpInst::Predicate p, unsigned w, const V& a, const V& b)
{
	switch (p) {
	case CmpInst::ICMP_EQ: return vCmp(OEq, w, a, b);
	case CmpInst::ICMP_NE: return vNot1(vCmp(OEq, w, a, b));
	case CmpInst::ICMP_UGT: return vCmp(OUlt, w, b, a);
	case CmpInst::ICMP_UGE: return vCmp(OUle, w, b, a);
	case CmpInst::ICMP_ULT: return vCmp(OUlt, w, a, b);
	case CmpInst::ICMP_ULE: return vCmp(OUle, w, a, b);
	case CmpInst::ICMP_SGT: return vCmp(OSlt, w, b, a);
	case CmpInst::ICMP_SGE: return vCmp(OSle, w, b, a);
	case CmpInst::ICMP_SLT: return vCmp(OSlt, w, a, b);
	default: return vCmp(OSle, w, a, b);
	}
}
static V shiftOp(State& s, Op op, unsigned w, const V& a, const V& b)
{
	V in = vCmp(OUlt, w, b, V(w));
	if (in.conc()) { if (!in.c) return undefV(w); return vBin(op, w, a, b); }
	Model m;
	if (may(s, notN(in.n), m) == UNSAT) return vBin(op, w, a, b);
	return vIte(in, vBin(op, w, a, b), undefV(w), w);
}
static V ctlz(const V& a, unsigned w)
{
	V r(w);
	for (unsigned i = 0; i < w; i++) r = vIte(vExtract(a, w, i, 1), V(w - 1 - i), r, w);
	return r;
}
static V cttz(const V& a, unsigned w)
{
	V r(w);
	for (int i = (int)w - 1; i >= 0; i--) r = vIte(vExtract(a, w, i, 1), V(i), r, w);
	return r;
}

// Returns 0 = done (advance), 1 = control transferred / re-execute (do not advance)
static int hLdexp(State& s, const CInst& c, vector<vector<V>>& a, vector<V>& ret);
static void frexpOf(unsigned w, const V& x, V& frac, V& ex);
static int doIntrinsic(State& s, const CInst& c)
{
	Frame& f = s.F();
	auto arg = [&](unsigned i, unsigned l = 0) -> const V& { return opv(f, c, i, l); };
	auto* cb = cast<CallBase>(c.I);
	auto each1 = [&](std::function<V(const V&, unsigned)> g) { for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, g(arg(0, l), c.ty->l[l].w), l); return 0; };
	auto each2 = [&](std::function<V(const V&, const V&, unsigned)> g) { for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, g(arg(0, l), arg(1, l), c.ty->l[l].w), l); return 0; };
	switch (c.iid) {
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
	case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
	case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::vaend:
		return 0;
	case Intrinsic::assume: return 0;
	case Intrinsic::stacksave: setr(f, c, V(0)); return 0;
	case Intrinsic::invariant_start: setr(f, c, V(0)); return 0;
	case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setr(f, c, arg(0)); return 0;
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: case Intrinsic::annotation: setr(f, c, arg(0)); return 0;
	case Intrinsic::is_constant: setr(f, c, V(0)); return 0;
	case Intrinsic::objectsize: setr(f, c, V(decide(s, arg(1)) ? 0 : mask64(c.ty->l[0].w))); return 0;
	case Intrinsic::eh_typeid_for: setr(f, c, V(1)); return 0;
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fatalState(s, "abort", "llvm.trap reached");
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
		uint64_t n = concretize(s, arg(2), 64, 300, "memcpy size");
		if (!n) return 0;
		uint64_t d = concAddr(s, arg(0));
		uint64_t sr = concAddr(s, arg(1));
		if (n > 0x80000000ull) fatalState(s, "memory", "memcpy with huge size " + std::to_string(n));
		copyBytes(s, d, sr, n);
		return 0;
	}
	case Intrinsic::memset: {
		uint64_t n = concretize(s, arg(2), 64, 300, "memset size");
		if (!n) return 0;
		uint64_t d = concAddr(s, arg(0));
		uint32_t id; uint64_t off;
		if (n > 0x80000000ull || !inBounds(s, d, n, id, off)) badAddr(s, d, n, true);
		if (s.objs[id]->ro) fatalState(s, "memory", "write to constant");
		if (s.live > 1) raceCheck(s, id, off, n, true);
		V v = arg(1);
		if (v.conc()) {
			Obj& o = wr(s, id);
			memset(&o.b[off], (int)v.c, n);
			if (!o.s.empty()) for (uint64_t i = 0; i < n; i++) o.s[off + i].n = nullptr;
		} else for (uint64_t i = 0; i < n; i++) rawStore(s, id, off + i, 8, v);
		return 0;
	}
	case Intrinsic::umin: return each2([](const V& a, const V& b, unsigned w) { return vIte(vCmp(OUlt, w, a, b), a, b, w); });
	case Intrinsic::umax: return each2([](const V& a, const V& b, unsigned w) { return vIte(vCmp(OUlt, w, a, b), b, a, w); });
	case Intrinsic::smin: return each2([](const V& a, const V& b, unsigned w) { return vIte(vCmp(OSlt, w, a, b), a, b, w); });
	case Intrinsic::smax: return each2([](const V& a, const V& b, unsigned w) { return vIte(vCmp(OSlt, w, a, b), b, a, w); });
	case Intrinsic::abs: return each1([](const V& a, unsigned w) { return vIte(vCmp(OSlt, w, a, V(0)), vBin(OSub, w, V(0), a), a, w); });
	case Intrinsic::usub_sat: return each2([](const V& a, const V& b, unsigned w) { return vIte(vCmp(OUlt, w, a, b), V(0), vBin(OSub, w, a, b), w); });
	case Intrinsic::uadd_sat: return each2([](const V& a, const V& b, unsigned w) { V r = vBin(OAdd, w, a, b); return vIte(vCmp(OUlt, w, r, a), V(mask64(w)), r, w); });
	case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
		bool sub = c.iid == Intrinsic::ssub_sat;
		return each2([sub](const V& a, const V& b, unsigned w) {
			V x = vSExt(a, w, w + 1), y = vSExt(b, w, w + 1);
			V r = vBin(sub ? OSub : OAdd, w + 1, x, y);
			V mx(mask64(w - 1)), mn = V((uint64_t)sext64(1ull << (w - 1), w) & mask64(w + 1));
			V r2 = vIte(vCmp(OSlt, w + 1, mx, r), mx, vIte(vCmp(OSlt, w + 1, r, mn), mn, r, w + 1), w + 1);
			return vExtract(r2, w + 1, 0, w);
		});
	}
	case Intrinsic::ctpop: return each1([](const V& a, unsigned w) { V r(0); for (unsigned i = 0; i < w; i++) r = vBin(OAdd, w, r, vZExt(vExtract(a, w, i, 1), 1, w)); return r; });
	case Intrinsic::ctlz: return each1([](const V& a, unsigned w) { return ctlz(a, w); });
	case Intrinsic::cttz: return each1([](const V& a, unsigned w) { return cttz(a, w); });
	case Intrinsic::bswap: return each1([](const V& a, unsigned w) { V r = vExtract(a, w, 0, 8); for (unsigned i = 8; i < w; i += 8) r = vConcat(r, i, vExtract(a, w, i, 8), 8); return r; });
	case Intrinsic::bitreverse: return each1([](const V& a, unsigned w) { V r = vExtract(a, w, 0, 1); for (unsigned i = 1; i < w; i++) r = vConcat(r, i, vExtract(a, w, i, 1), 1); return r; });
	case Intrinsic::fshl: case Intrinsic::fshr:
		for (unsigned l = 0; l < c.ty->l.size(); l++) {
			unsigned w = c.ty->l[l].w;
			V sh = vBin(OURem, w, arg(2, l), V(w));
			uint64_t k = concretize(s, sh, w, 128, "funnel shift");
			V cat = vConcat(arg(0, l), w, arg(1, l), w);
			setr(f, c, c.iid == Intrinsic::fshl ? vExtract(cat, 2 * w, (unsigned)(w - k), w) : vExtract(cat, 2 * w, (unsigned)k, w), l);
		}
		return 0;
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
	case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		unsigned w = c.ty->l[0].w;
		bool sg = c.iid == Intrinsic::sadd_with_overflow || c.iid == Intrinsic::ssub_with_overflow || c.iid == Intrinsic::smul_with_overflow;
		Op op = c.iid == Intrinsic::uadd_with_overflow || c.iid == Intrinsic::sadd_with_overflow ? OAdd :
			c.iid == Intrinsic::usub_with_overflow || c.iid == Intrinsic::ssub_with_overflow ? OSub : OMul;
		V x = sg ? vSExt(arg(0), w, 2 * w) : vZExt(arg(0), w, 2 * w), y = sg ? vSExt(arg(1), w, 2 * w) : vZExt(arg(1), w, 2 * w);
		V full = vBin(op, 2 * w, x, y);
		V lo = vExtract(full, 2 * w, 0, w);
		V back = sg ? vSExt(lo, w, 2 * w) : vZExt(lo, w, 2 * w);
		setr(f, c, lo, 0);
		setr(f, c, vNot1(vCmp(OEq, 2 * w, back, full)), 1);
		return 0;
	}
	case Intrinsic::fabs: return each1([](const V& a, unsigned w) { return fabsv(a, w); });
	case Intrinsic::sqrt: return each1([](const V& a, unsigned w) { return vFUn(OFSqrt, w, 0, a); });
	case Intrinsic::floor: return each1([](const V& a, unsigned w) { return vFUn(OFRnd, w, RTN, a); });
	case Intrinsic::ceil: return each1([](const V& a, unsigned w) { return vFUn(OFRnd, w, RTP, a); });
	case Intrinsic::trunc: return each1([](const V& a, unsigned w) { return vFUn(OFRnd, w, RTZ, a); });
	case Intrinsic::round: return each1([](const V& a, unsigned w) { return vFUn(OFRnd, w, RNA, a); });
	case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return each1([](const V& a, unsigned w) { return vFUn(OFRnd, w, RNE, a); });
	case Intrinsic::fma: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vFFma(c.ty->l[l].w, arg(0, l), arg(1, l), arg(2, l)), l); return 0;
	case Intrinsic::fmuladd: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vFBin(OFAdd, c.ty->l[l].w, vFBin(OFMul, c.ty->l[l].w, arg(0, l), arg(1, l)), arg(2, l)), l); return 0;
	case Intrinsic::copysign: return each2([](const V& a, const V& b, unsigned w) { return vBin(OOr, w, fabsv(a, w), vBin(OAnd, w, b, V(1ull << (w - 1)))); });
	case Intrinsic::minnum: return each2([](const V& a, const V& b, unsigned w) { return vIte(vFNan(w, a), b, vIte(vFNan(w, b), a, vIte(vFCmp(OFLt, w, b, a), b, a, w), w), w); });
	case Intrinsic::maxnum: return each2([](const V& a, const V& b, unsigned w) { return vIte(vFNan(w, a), b, vIte(vFNan(w, b), a, vIte(vFCmp(OFLt, w, a, b), b, a, w), w), w); });
	case Intrinsic::is_fpclass: {
		unsigned w = c.ops[0].ty->l[0].w;
		uint64_t mask = arg(1).c;
		V a = arg(0);
		unsigned mant = w == 64 ? 52 : w == 32 ? 23 : 10;
		V ab = fabsv(a, w), inf(mask64(w - 1) & ~mask64(mant)), sgn = vExtract(a, w, w - 1, 1);
		V r(0);
		auto cls = [&](unsigned neg, unsigned pos, V is) {
			if (neg != pos) { if ((mask & neg)) r = vOr1(r, vAnd1(is, sgn)); if (mask & pos) r = vOr1(r, vAnd1(is, vNot1(sgn))); }
			else if (mask & neg) r = vOr1(r, is);
		};
		V isnan = vCmp(OUlt, w, inf, ab);
		V quiet = vExtract(a, w, mant - 1, 1);
		cls(1, 1, vAnd1(isnan, vNot1(quiet))); cls(2, 2, vAnd1(isnan, quiet));
		cls(4, 512, vCmp(OEq, w, ab, inf));
		V sub = vAnd1(vCmp(OUlt, w, V(0), ab), vCmp(OUle, w, ab, V(mask64(mant))));
		cls(16, 128, sub);
		cls(32, 64, vCmp(OEq, w, ab, V(0)));
		cls(8, 256, vAnd1(vCmp(OUlt, w, V(mask64(mant)), ab), vCmp(OUlt, w, ab, inf)));
		setr(f, c, r);
		return 0;
	}
	case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
		bool sg = c.iid == Intrinsic::fptosi_sat;
		unsigned wa = c.ops[0].ty->l[0].w;
		for (unsigned l = 0; l < c.ty->l.size(); l++) {
			unsigned w = c.ty->l[l].w;
			V a = arg(0, l);
			V r = vFToI(a, wa, w, sg);
			V mx = V(sg ? mask64(w - 1) : mask64(w)), mn = V(sg ? 1ull << (w - 1) : 0);
			V neg = vFCmp(OFLt, wa, a, V(0));
			setr(f, c, vIte(fpInRange(a, wa, w, sg), r, vIte(vFNan(wa, a), V(0), vIte(neg, mn, mx, w), w), w), l);
		}
		return 0;
	}
	case Intrinsic::pow: return each2([](const V& a, const V& b, unsigned w) { return vUF(UPow, w, a, b); });
	case Intrinsic::exp2: return each1([](const V& a, unsigned w) { return vUF(UExp2, w, a, V(0)); });
	case Intrinsic::log2: return each1([](const V& a, unsigned w) { return vUF(ULog2, w, a, V(0)); });
	case Intrinsic::exp: return each1([](const V& a, unsigned w) { return vUF(UExp, w, a, V(0)); });
	case Intrinsic::log: return each1([](const V& a, unsigned w) { return vUF(ULog, w, a, V(0)); });
	case Intrinsic::log10: return each1([](const V& a, unsigned w) { return vUF(ULog10, w, a, V(0)); });
	case Intrinsic::sin: return each1([](const V& a, unsigned w) { return vUF(USin, w, a, V(0)); });
	case Intrinsic::cos: return each1([](const V& a, unsigned w) { return vUF(UCos, w, a, V(0)); });
	case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
		V r = arg(0, 0); unsigned w = c.ty->l[0].w;
		Op op = c.iid == Intrinsic::vector_reduce_or ? OOr : c.iid == Intrinsic::vector_reduce_and ? OAnd : OAdd;
		for (unsigned l = 1; l < c.ops[0].ty->l.size(); l++) r = vBin(op, w, r, arg(0, l));
		setr(f, c, r);
		return 0;
	}
	case Intrinsic::x86_vcvtps2ph_128: case Intrinsic::x86_vcvtps2ph_256: {
		unsigned n = (unsigned)c.ops[0].ty->l.size();
		uint64_t imm = arg(1).c;
		unsigned rm = (imm & 4) ? RNE : (imm & 3) == 0 ? RNE : (imm & 3) == 1 ? RTN : (imm & 3) == 2 ? RTP : RTZ;
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, l < n ? vFCvt(arg(0, l), 32, 16, rm) : V(0), l);
		return 0;
	}
	case Intrinsic::x86_sse_cvttss2si: case Intrinsic::x86_sse2_cvttsd2si: case Intrinsic::x86_sse_cvttss2si64: case Intrinsic::x86_sse2_cvttsd2si64:
	case Intrinsic::x86_sse_cvtss2si: case Intrinsic::x86_sse2_cvtsd2si: case Intrinsic::x86_sse_cvtss2si64: case Intrinsic::x86_sse2_cvtsd2si64: {
		unsigned wa = c.ops[0].ty->l[0].w, w = c.ty->l[0].w;
		V a = arg(0, 0);
		bool rnd = c.iid == Intrinsic::x86_sse_cvtss2si || c.iid == Intrinsic::x86_sse2_cvtsd2si || c.iid == Intrinsic::x86_sse_cvtss2si64 || c.iid == Intrinsic::x86_sse2_cvtsd2si64;
		if (rnd) a = vFUn(OFRnd, wa, RNE, a);
		setr(f, c, vIte(fpInRange(a, wa, w, true), vFToI(a, wa, w, true), V(1ull << (w - 1)), w));
		return 0;
	}
	case Intrinsic::x86_sse_min_ss: case Intrinsic::x86_sse_max_ss: case Intrinsic::x86_sse_min_ps: case Intrinsic::x86_sse_max_ps: {
		bool mx = c.iid == Intrinsic::x86_sse_max_ss || c.iid == Intrinsic::x86_sse_max_ps;
		bool ss = c.iid == Intrinsic::x86_sse_min_ss || c.iid == Intrinsic::x86_sse_max_ss;
		for (unsigned l = 0; l < 4; l++) {
			V a = arg(0, l), b = arg(1, l);
			if (ss && l) { setr(f, c, a, l); continue; }
			setr(f, c, vIte(mx ? vFCmp(OFLt, 32, b, a) : vFCmp(OFLt, 32, a, b), a, b, 32), l);
		}
		return 0;
	}
	case Intrinsic::frexp: { V fr, e; frexpOf(c.ty->l[0].w, arg(0), fr, e); setr(f, c, fr, 0); setr(f, c, e, 1); return 0; }
	case Intrinsic::ldexp: {
		vector<vector<V>> la{{arg(0)}, {arg(1)}};
		vector<V> lr;
		hLdexp(s, c, la, lr);
		setr(f, c, lr[0]);
		return 0;
	}
	case Intrinsic::threadlocal_address: setr(f, c, arg(0)); return 0;
	case Intrinsic::x86_sse2_cvtps2dq: case Intrinsic::x86_sse2_cvttps2dq: {
		bool rnd = c.iid == Intrinsic::x86_sse2_cvtps2dq;
		for (unsigned l = 0; l < 4; l++) {
			V a = arg(0, l);
			if (rnd) a = vFUn(OFRnd, 32, RNE, a);
			setr(f, c, vIte(fpInRange(a, 32, 32, true), vFToI(a, 32, 32, true), V(1ull << 31), 32), l);
		}
		return 0;
	}
	case Intrinsic::x86_sse_movmsk_ps: {
		V r(0);
		for (unsigned l = 0; l < 4; l++) r = vBin(OOr, 32, r, vBin(OShl, 32, vZExt(vExtract(arg(0, l), 32, 31, 1), 1, 32), V(l)));
		setr(f, c, r);
		return 0;
	}
	case Intrinsic::x86_sse2_packssdw_128: case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse41_packusdw: {
		bool wide = c.iid == Intrinsic::x86_sse2_packssdw_128 || c.iid == Intrinsic::x86_sse41_packusdw;
		bool uns = c.iid == Intrinsic::x86_sse2_packuswb_128 || c.iid == Intrinsic::x86_sse41_packusdw;
		unsigned w = wide ? 32 : 16, h = w / 2, n = (unsigned)c.ops[0].ty->l.size();
		uint64_t lo = uns ? 0 : (~0ull << (h - 1)) & mask64(w), hi = uns ? mask64(h) : mask64(h - 1);
		vector<V> out;
		for (unsigned k = 0; k < 2 * n; k++) {
			V a = arg(k / n, k % n);
			V r = vIte(vCmp(OSlt, w, a, V(lo)), V(lo), vIte(vCmp(OSlt, w, V(hi), a), V(hi), a, w), w);
			out.push_back(vExtract(r, w, 0, h));
		}
		for (unsigned l = 0; l < out.size(); l++) setr(f, c, out[l], l);
		return 0;
	}
	case Intrinsic::vastart: {
		// Every variadic argument goes to the overflow area, 8 bytes each.
		uint64_t ap = concAddr(s, arg(0));
		uint64_t area = 0;
		Frame& fr = s.F();
		unsigned n = (unsigned)fr.va.size();
		vector<V> va = fr.va;
		if (n) {
			vector<unsigned> ws;
			size_t na = fr.f->argReg.size();
			for (size_t i = na; i < cast<CallBase>(fr.call->I)->arg_size(); i++) {
				if (!fr.call->ops[i].ty) continue;
				for (auto& lf : fr.call->ops[i].ty->l) ws.push_back(lf.w);
			}
			uint32_t id = newObj(s, 8 * n, 2, "varargs", true);
			fr.allocas.push_back(id);
			area = baseOf(id);
			for (unsigned i = 0; i < n && i < ws.size(); i++) {
				if (ws[i] > 64) incomplete(s, "wide variadic argument");
				store(s, V(area + 8 * i), ws[i], va[i]);
			}
		}
		store(s, V(ap), 32, V(48)); store(s, V(ap + 4), 32, V(176)); store(s, V(ap + 8), 64, V(area)); store(s, V(ap + 16), 64, V(area));
		return 0;
	}
	case Intrinsic::vacopy: {
		uint64_t d = concAddr(s, arg(0)), b = concAddr(s, arg(1));
		copyBytes(s, d, b, 24);
		return 0;
	}
	default: break;
	}
	(void)cb;
	incomplete(s, "unsupported intrinsic " + c.callee->getName().str());
}

// ------------------------------------------------------------------ external function handlers
#define H(name) static int name(State& s, const CInst& c, vector<vector<V>>& a, vector<V>& ret)
static uint64_t A(State& s, vector<vector<V>>& a, unsigned i) { return concretize(s, a[i][0], 64, 300, "argument"); }
H(hMalloc)
{
	uint64_t n = concretize(s, a[0][0], 64, 400, "allocation size");
	if (n > (1ull << 28)) fatalState(s, "memory", "allocation of " + std::to_string(n) + " bytes");
	ret = {V(baseOf(newObj(s, n, 1, "heap@" + locOf(c.I), true)))};
	return 0;
}
H(hCalloc)
{
	uint64_t n = A(s, a, 0) * A(s, a, 1);
	if (n > (1ull << 28)) fatalState(s, "memory", "allocation of " + std::to_string(n) + " bytes");
	ret = {V(baseOf(newObj(s, n, 1, "heap@" + locOf(c.I), false)))};
	return 0;
}
H(hFree)
{
	uint64_t p = A(s, a, 0);
	if (!p) return 0;
	uint32_t id; uint64_t off;
	if (!inBounds(s, p, 0, id, off) || off != 0 || s.objs[id]->kind != 1) fatalState(s, "memory", "invalid or double free");
	if (s.live > 1) raceCheck(s, id, 0, s.objs[id]->size, true);
	freeObj(s, id);
	return 0;
}
H(hRealloc)
{
	uint64_t p = A(s, a, 0), n = concretize(s, a[1][0], 64, 400, "allocation size");
	if (n > (1ull << 28)) fatalState(s, "memory", "allocation of " + std::to_string(n) + " bytes");
	uint64_t np = baseOf(newObj(s, n, 1, "heap@" + locOf(c.I), true));
	if (p) {
		uint32_t id; uint64_t off;
		if (!inBounds(s, p, 0, id, off) || off) fatalState(s, "memory", "invalid realloc");
		copyBytes(s, np, p, std::min(n, s.objs[id]->size));
		freeObj(s, id);
	}
	ret = {V(np)};
	return 0;
}
H(hMemcmp)
{
	uint64_t n = concretize(s, a[2][0], 64, 300, "memcmp size");
	uint64_t p = A(s, a, 0), q = A(s, a, 1);
	V r(0);
	for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
		V x = load(s, V(p + i), 8), y = load(s, V(q + i), 8);
		r = vIte(vCmp(OEq, 8, x, y), r, vIte(vCmp(OUlt, 8, x, y), V(0xffffffffull), V(1), 32), 32);
	}
	ret = {r};
	return 0;
}
H(hMemcpy)
{
	uint64_t n = concretize(s, a[2][0], 64, 300, "memcpy size");
	uint64_t d = A(s, a, 0);
	if (n) copyBytes(s, d, A(s, a, 1), n);
	ret = {V(d)};
	return 0;
}
H(hMemset)
{
	uint64_t n = concretize(s, a[2][0], 64, 300, "memset size");
	uint64_t d = A(s, a, 0);
	for (uint64_t i = 0; i < n; i++) store(s, V(d + i), 8, vExtract(a[1][0], 32, 0, 8));
	ret = {V(d)};
	return 0;
}
H(hNop) { if (c.ty) for (auto& l : c.ty->l) { (void)l; ret.push_back(V(0)); } return 0; }
H(hRet1) { ret.push_back(V(1)); return 0; }
H(hAbort) { fatalState(s, "abort", "abort/terminate/exception: " + (c.callee ? demangle(c.callee->getName().str()) : string("?"))); }
H(hAssume)
{
	V x = vNot1(vCmp(OEq, c.ops[0].ty->l[0].w, a[0][0], V(0)));
	if (x.conc()) { if (!x.c) endPath("assume"); return 0; }
	Model m;
	SatRes r = may(s, x.n, m);
	if (r == UNSAT) endPath("assume");
	if (r == UNKNOWN) { stBranchUndecided++; endPath("assume undecided", true); }
	addPC(s, x.n);
	setModel(s, std::move(m));
	return 0;
}
static void doAssert(State& s, V x, const string& msg)
{
	if (x.conc()) {
		stAssertConc++;
		if (!x.c) fatalState(s, "assert", msg);
		return;
	}
	stAssertQ++;
	Model m;
	SatRes r = may(s, notN(x.n), m);
	if (r == UNSAT) { stAssertProved++; return; }
	if (r == UNKNOWN) { stAssertUndecided++; stIncompleteWhy["undecided assertion: " + msg]++; return; }
	report(s, "assert", msg, m, x.n->hasUndef);
	Model m2;
	if (may(s, x.n, m2) != SAT) endPath("failure: assert");
	addPC(s, x.n);
	setModel(s, std::move(m2));
}
H(hAssert)
{
	V x = vNot1(vCmp(OEq, c.ops[0].ty->l[0].w, a[0][0], V(0)));
	doAssert(s, x, readCStr(s, a[1][0].c));
	return 0;
}
static string uniq(State& s, const string& n) { unsigned k = s.occ[n]++; return n + "#" + std::to_string(k); }
static std::map<string, Node*> symVarCache;
static V newSym(State& s, const string& nm, unsigned w)
{
	string n = uniq(s, nm);
	string key = n + ":" + std::to_string(w);
	auto it = symVarCache.find(key);
	Node* v;
	if (it == symVarCache.end()) symVarCache[key] = v = mkVar(n, w, false); else v = it->second;
	s.inputs.push_back({n, v->aux});
	return V(0, v);
}
H(hSymBits)
{
	uint64_t w = a[1][0].c;
	V v = newSym(s, readCStr(s, a[0][0].c), (unsigned)w);
	ret = {vZExt(v, (unsigned)w, 64)};
	return 0;
}
// sym_range(name, lo, hi): symbolic, lo..hi inclusive (signed 64-bit)
H(hSymRange)
{
	int64_t lo = (int64_t)a[1][0].c, hi = (int64_t)a[2][0].c;
	string nm = readCStr(s, a[0][0].c);
	if (lo > hi) endPath("assume");
	unsigned w = 1; while (w < 63 && (1ull << w) - 1 < (uint64_t)(hi - lo)) w++;
	V v = newSym(s, nm, w);
	// value = lo + v ; inputs record the raw offset from lo
	V x = vZExt(v, w, 64);
	if ((uint64_t)(hi - lo) != mask64(w)) {
		Node* cnd = mkNode(OUle, 1, 0, x.n, mkConst((uint64_t)(hi - lo), 64));
		addPC(s, cnd);
	}
	ret = {vBin(OAdd, 64, x, V((uint64_t)lo))};
	return 0;
}
H(hSymConc) { ret = {V(concretize(s, a[0][0], 64, 5000, "sym_concretize"))}; return 0; }
H(hSymParam)
{
	string n = readCStr(s, a[0][0].c);
	auto it = optParams.find(n);
	ret = {V(it == optParams.end() ? a[1][0].c : (uint64_t)it->second)};
	return 0;
}
H(hSymCover) { s.covers.insert(readCStr(s, a[0][0].c)); return 0; }
H(hSymObserve) { s.obs.push_back({readCStr(s, a[0][0].c), a[1][0], 64}); return 0; }
H(hSymEnd) { endPath("end"); }
H(hSymAnd) { ret = {vAnd1(vNot1(vCmp(OEq, 32, a[0][0], V(0))), vNot1(vCmp(OEq, 32, a[1][0], V(0))))}; ret[0] = vZExt(ret[0], 1, 32); return 0; }
H(hSymOr) { ret = {vOr1(vNot1(vCmp(OEq, 32, a[0][0], V(0))), vNot1(vCmp(OEq, 32, a[1][0], V(0))))}; ret[0] = vZExt(ret[0], 1, 32); return 0; }
H(hSymIte) { ret = {vIte(vNot1(vCmp(OEq, 32, a[0][0], V(0))), a[1][0], a[2][0], 64)}; return 0; }
H(hSymIsSym) { ret = {V(a[0][0].conc() ? 0 : 1)}; return 0; }
H(hSymPrint)
{
	errs() << "sym_print " << readCStr(s, a[0][0].c) << ": ";
	if (a[1][0].conc()) errs() << a[1][0].c << "\n"; else errs() << nodeStr(a[1][0].n, 8) << "\n";
	return 0;
}
H(hHaveObj)
{
	// sym_mem_ok(ptr, len): is [ptr, ptr+len) inside one live object?
	uint64_t p = A(s, a, 0), n = A(s, a, 1); uint32_t id; uint64_t off;
	ret = {V(inBounds(s, p, n, id, off) ? 1 : 0)};
	return 0;
}
H(hMemInit)
{
	// sym_is_undef(v)
	ret = {V(!a[0][0].conc() && a[0][0].n->hasUndef ? 1 : 0)};
	return 0;
}
H(hThreadCreate)
{
	uint64_t fn = A(s, a, 0);
	auto it = fnByAddr.find(fn);
	if (it == fnByAddr.end()) fatalState(s, "memory", "thread entry is not a function");
	Thread t;
	t.vc = s.T().vc;
	uint32_t tid = (uint32_t)s.th.size();
	t.vc[tid] = 1;
	s.T().vc[s.cur]++;
	s.th.push_back(std::move(t));
	s.live++;
	pushFrame(s, s.th.back(), fnInfo(it->second), {a[1]}, nullptr);
	ret = {V(tid)};
	return 0;
}
H(hThreadJoin)
{
	uint64_t t = A(s, a, 0);
	if (t >= s.th.size()) fatalState(s, "abort", "join of an invalid thread");
	if (!s.th[t].done) {
		s.T().joinOn = (int)t;
		pickThread(s, true);
		return 1; // re-execute when scheduled again
	}
	s.T().joinOn = -1;
	s.T().granted = false;
	joinVC(s.T().vc, s.th[t].vc);
	return 0;
}
H(hLock)
{
	uint64_t m = A(s, a, 0);
	if (!visible(s)) return 1;
	if (s.locks[m]) { s.T().lockOn = m; pickThread(s, true); return 1; }
	s.T().lockOn = 0;
	s.locks[m] = 1;
	syncAcq(s, m);
	if (c.ty) ret = {V(0)};
	return 0;
}
H(hTryLock)
{
	uint64_t m = A(s, a, 0);
	if (!visible(s)) return 1;
	if (s.locks[m]) { ret = {V(16)}; return 0; }
	s.locks[m] = 1;
	syncAcq(s, m);
	ret = {V(0)};
	return 0;
}
H(hUnlock)
{
	uint64_t m = A(s, a, 0);
	s.locks[m] = 0;
	syncRel(s, m);
	if (c.ty) ret = {V(0)};
	return 0;
}
H(hYield) { if (!visible(s)) return 1; if (c.ty) ret = {V(0)}; return 0; }
H(hNan) { ret = {V(c.ty->l[0].w == 64 ? 0x7FF8000000000000ULL : 0x7FC00000ULL)}; return 0; }
static unsigned argW(const CInst& c, unsigned i) { return c.ops[i].ty->l[0].w; }
#define RND(nm, mode) H(nm) { ret = {vFUn(OFRnd, c.ty->l[0].w, mode, a[0][0])}; return 0; }
RND(hFloor, RTN) RND(hCeil, RTP) RND(hTrunc, RTZ) RND(hRound, RNA) RND(hRint, RNE)
H(hSqrt) { ret = {vFUn(OFSqrt, c.ty->l[0].w, 0, a[0][0])}; return 0; }
H(hFabs) { ret = {fabsv(a[0][0], c.ty->l[0].w)}; return 0; }
H(hLround) { unsigned wa = argW(c, 0); ret = {fpToInt(s, vFUn(OFRnd, wa, RNA, a[0][0]), wa, c.ty->l[0].w, true)}; return 0; }
H(hLrint) { unsigned wa = argW(c, 0); ret = {fpToInt(s, vFUn(OFRnd, wa, RNE, a[0][0]), wa, c.ty->l[0].w, true)}; return 0; }
#define UF1(nm, k) H(nm) { ret = {vUF(k, c.ty->l[0].w, a[0][0], V(0))}; return 0; }
#define UF2(nm, k) H(nm) { ret = {vUF(k, c.ty->l[0].w, a[0][0], a[1][0])}; return 0; }
UF2(hPow, UPow) UF1(hExp2, UExp2) UF1(hLog2, ULog2) UF1(hExp, UExp) UF1(hLog, ULog) UF1(hSin, USin) UF1(hCos, UCos) UF1(hTan, UTan)
UF2(hAtan2, UAtan2) UF1(hAtan, UAtan) UF1(hAsin, UAsin) UF1(hAcos, UAcos) UF1(hLog10, ULog10) UF1(hCbrt, UCbrt) UF2(hFmod, UFmod) UF2(hHypot, UHypot)
H(hFmin) { unsigned w = c.ty->l[0].w; V x = a[0][0], y = a[1][0]; ret = {vIte(vFNan(w, x), y, vIte(vFNan(w, y), x, vIte(vFCmp(OFLt, w, y, x), y, x, w), w), w)}; return 0; }
H(hFmax) { unsigned w = c.ty->l[0].w; V x = a[0][0], y = a[1][0]; ret = {vIte(vFNan(w, x), y, vIte(vFNan(w, y), x, vIte(vFCmp(OFLt, w, x, y), y, x, w), w), w)}; return 0; }
H(hLdexp)
{
	unsigned w = c.ty->l[0].w;
	uint64_t e = concretize(s, a[1][0], 32, 600, "ldexp exponent");
	int ei = (int)(int32_t)e;
	if (a[0][0].conc()) { double d; if (w == 64) { memcpy(&d, &a[0][0].c, 8); } else { float f; uint32_t u = (uint32_t)a[0][0].c; memcpy(&f, &u, 4); d = f; } ret = {V(fpConst(ldexp(d, ei), w))}; return 0; }
	if (abs(ei) > (w == 64 ? 1000 : 120)) incomplete(s, "ldexp with extreme exponent");
	ret = {vFBin(OFMul, w, a[0][0], V(fpConst(ldexp(1, ei), w)))};
	return 0;
}
// Fraction and exponent of a floating-point value, without forking.
static void frexpOf(unsigned w, const V& x, V& frac, V& ex)
{
	unsigned mant = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8, bias = w == 64 ? 1022 : 126;
	V e0 = vExtract(x, w, mant, eb);
	V sub = vCmp(OEq, eb, e0, V(0));
	V y = vIte(sub, vFBin(OFMul, w, x, V(fpConst(ldexp(1, 64), w))), x, w);
	V e = vExtract(y, w, mant, eb);
	V special = vOr1(vCmp(OEq, eb, e0, V(mask64(eb))), vFCmp(OFEq, w, x, V(0)));
	ex = vIte(special, V(0), vBin(OSub, 32, vZExt(e, eb, 32), vIte(sub, V(bias + 64), V(bias), 32)), 32);
	V r = vConcat(vConcat(vExtract(x, w, w - 1, 1), 1, V(bias), eb), eb + 1, vExtract(y, w, 0, mant), mant);
	frac = vIte(special, x, r, w);
}
H(hFrexp)
{
	V fr, e;
	frexpOf(c.ty->l[0].w, a[0][0], fr, e);
	store(s, a[1][0], 32, e);
	ret = {fr};
	return 0;
}

H(hModf)
{
	unsigned w = c.ty->l[0].w;
	V i = vFUn(OFRnd, w, RTZ, a[0][0]);
	store(s, a[1][0], w, i);
	V inf = vFCmp(OFEq, w, fabsv(a[0][0], w), V(fpConst(INFINITY, w)));
	V fr = vIte(inf, V(0), vFBin(OFSub, w, a[0][0], i), w);
	ret = {vBin(OOr, w, fabsv(fr, w), vBin(OAnd, w, a[0][0], V(1ull << (w - 1))))};
	ret[0] = vIte(vFNan(w, a[0][0]), a[0][0], ret[0], w);
	return 0;
}
H(hIlogb)
{
	unsigned w = argW(c, 0);
	V fr, e;
	frexpOf(w, a[0][0], fr, e);
	V special = vOr1(vFNan(w, a[0][0]), vOr1(vFCmp(OFEq, w, a[0][0], V(0)), vFCmp(OFEq, w, fabsv(a[0][0], w), V(fpConst(INFINITY, w)))));
	V sp = vIte(vFCmp(OFEq, w, fabsv(a[0][0], w), V(fpConst(INFINITY, w))), V(0x7fffffff), V(0x80000000), 32);
	ret = {vIte(special, sp, vBin(OSub, 32, e, V(1)), 32)};
	return 0;
}
H(hNextafter)
{
	unsigned w = c.ty->l[0].w;
	V x = a[0][0], y = a[1][0], sign = V(1ull << (w - 1));
	V up = vFCmp(OFLt, w, x, y), pos = vFCmp(OFLt, w, V(0), x);
	// Towards larger magnitude: the next representation, otherwise the one before.
	V away = vIte(pos, up, vCmp(OEq, 1, up, V(0)), 1);
	V r = vIte(away, vBin(OAdd, w, x, V(1)), vBin(OSub, w, x, V(1)), w);
	V fromZero = vIte(up, V(1), vBin(OOr, w, sign, V(1)), w);
	r = vIte(vFCmp(OFEq, w, x, V(0)), fromZero, r, w);
	r = vIte(vFCmp(OFEq, w, x, y), y, r, w);
	ret = {vIte(vFNan(w, x), x, vIte(vFNan(w, y), y, r, w), w)};
	return 0;
}

static void initHandlers()
{
	auto& h = handlers;
	for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) h[n] = hMalloc;
	h["calloc"] = hCalloc; h["realloc"] = hRealloc;
	for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) h[n] = hFree;
	h["memcmp"] = h["bcmp"] = hMemcmp; h["memcpy"] = h["memmove"] = hMemcpy; h["memset"] = hMemset;
	for (auto n : {"__cxa_atexit", "atexit", "__cxa_finalize", "perror", "setlocale", "__cxa_guard_release", "__cxa_guard_abort"}) h[n] = hNop;
	for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "__cxa_pure_virtual", "__cxa_throw", "__cxa_rethrow", "__cxa_bad_cast", "__clang_call_terminate",
		"_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc",
		"_ZSt24__throw_invalid_argumentPKc", "_ZSt16__throw_bad_castv", "_ZSt25__throw_bad_function_callv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_system_errori", "_ZSt21__throw_runtime_errorPKc",
		"_ZSt21__glibcxx_assert_failPKciS0_S0_", "__stack_chk_fail", "_Unwind_Resume"}) h[n] = hAbort;
	h["sym_assume"] = hAssume; h["sym_assert"] = hAssert; h["sym_bits"] = hSymBits; h["sym_range"] = hSymRange; h["sym_concretize"] = hSymConc;
	h["sym_param"] = hSymParam; h["sym_cover"] = hSymCover; h["sym_observe"] = hSymObserve; h["sym_end"] = hSymEnd; h["sym_print"] = hSymPrint;
	h["sym_and"] = hSymAnd; h["sym_or"] = hSymOr; h["sym_ite"] = hSymIte; h["sym_is_symbolic"] = hSymIsSym; h["sym_mem_ok"] = hHaveObj; h["sym_is_undef"] = hMemInit;
	h["sym_thread_create"] = hThreadCreate; h["sym_thread_join"] = hThreadJoin;
	h["pthread_mutex_lock"] = hLock; h["pthread_mutex_unlock"] = hUnlock; h["pthread_mutex_trylock"] = hTryLock;
	h["floor"] = h["floorf"] = hFloor; h["ceil"] = h["ceilf"] = hCeil; h["trunc"] = h["truncf"] = hTrunc; h["round"] = h["roundf"] = hRound;
	h["rint"] = h["rintf"] = h["nearbyint"] = h["nearbyintf"] = h["roundeven"] = h["roundevenf"] = hRint; h["sqrt"] = h["sqrtf"] = hSqrt; h["fabs"] = h["fabsf"] = hFabs;
	h["lround"] = h["lroundf"] = h["llround"] = h["llroundf"] = hLround; h["lrint"] = h["lrintf"] = h["llrint"] = h["llrintf"] = hLrint;
	h["pow"] = h["powf"] = hPow; h["exp2"] = h["exp2f"] = hExp2; h["log2"] = h["log2f"] = hLog2; h["exp"] = h["expf"] = hExp; h["log"] = h["logf"] = hLog;
	h["sched_yield"] = h["nanosleep"] = h["usleep"] = h["clock_nanosleep"] = hYield; h["nan"] = h["nanf"] = hNan;
	h["sin"] = h["sinf"] = hSin; h["cos"] = h["cosf"] = hCos; h["tan"] = h["tanf"] = hTan; h["atan2"] = h["atan2f"] = hAtan2; h["atan"] = h["atanf"] = hAtan;
	h["asin"] = h["asinf"] = hAsin; h["acos"] = h["acosf"] = hAcos; h["log10"] = h["log10f"] = hLog10; h["cbrt"] = h["cbrtf"] = hCbrt; h["fmod"] = h["fmodf"] = hFmod; h["hypot"] = h["hypotf"] = hHypot;
	h["modf"] = h["modff"] = hModf; h["ilogb"] = h["ilogbf"] = hIlogb; h["nextafter"] = h["nextafterf"] = hNextafter;
	h["fmin"] = h["fminf"] = hFmin; h["fmax"] = h["fmaxf"] = hFmax; h["ldexp"] = h["ldexpf"] = h["scalbn"] = h["scalbnf"] = hLdexp; h["frexp"] = h["frexpf"] = hFrexp;
}

// ------------------------------------------------------------------ calls
static int doCall(State& s, const CInst& c)
{
	Frame& f = s.F();
	auto& cb = *cast<CallBase>(c.I);
	if (c.iid) return doIntrinsic(s, c);
	if (cb.isInlineAsm()) {
		auto* ia = cast<InlineAsm>(cb.getCalledOperand());
		string a = ia->getAsmString();
		if (a.find("cpuid") != string::npos) {
			unsigned n = c.ty ? (unsigned)c.ty->l.size() : 0;
			for (unsigned i = 0; i < n; i++) setr(f, c, V(optCpuF16C ? 0xffffffffull : 0x7), i);
			if (!optCpuF16C && n > 0) for (unsigned i = 0; i < n; i++) setr(f, c, V(i == 0 ? 0xffff : 0), i);
			return 0;
		}
		if (a.empty() || a.find("pause") != string::npos) return 0;
		incomplete(s, "inline asm: " + a);
	}
	unsigned na = (unsigned)cb.arg_size();
	FnInfo* fi = c.cfi;
	if (!c.direct) {
		uint64_t fa = concretize(s, opv(f, c, na), 64, 200, "function pointer");
		auto it = fnByAddr.find(fa);
		if (it == fnByAddr.end()) fatalState(s, "memory", "call through an invalid function pointer");
		fi = fnInfo(it->second);
	}
	vector<vector<V>> args(na);
	for (unsigned i = 0; i < na; i++) {
		if (!c.ops[i].ty) continue;
		if (cb.isByValArgument(i)) {
			// make a copy
			uint64_t sz = DL->getTypeAllocSize(cb.getParamByValType(i));
			uint64_t src = concAddr(s, opv(f, c, i));
			uint32_t id = newObj(s, sz, 2, "byval", true);
			copyBytes(s, baseOf(id), src, sz);
			f.allocas.push_back(id);
			args[i] = {V(baseOf(id))};
			continue;
		}
		for (unsigned l = 0; l < c.ops[i].ty->l.size(); l++) args[i].push_back(opv(f, c, i, l));
	}
	if (fi->F->isDeclaration()) {
		auto h = handlers.find(fi->F->getName().str());
		if (h == handlers.end()) {
			string n = fi->F->getName().str();
			if (n.find("__throw_") != string::npos) fatalState(s, "abort", "exception: " + fi->dem);
			incomplete(s, "unmodelled external function " + fi->dem);
		}
		fi->count++;
		vector<V> ret;
		int r = h->second(s, c, args, ret);
		if (r) return 1;
		Frame& f2 = s.F();
		for (unsigned l = 0; c.ty && l < ret.size() && l < c.ty->l.size(); l++) f2.r[c.dst + l] = ret[l];
		return 0;
	}
	f.ip++; // return address
	pushFrame(s, s.T(), fi, args, &c);
	return 1;
}

static void doRet(State& s, const CInst& c)
{
	Thread& T = s.T();
	vector<V> rv;
	Frame& f = T.st.back();
	if (!c.ops.empty()) for (unsigned l = 0; l < c.ops[0].ty->l.size(); l++) rv.push_back(opv(f, c, 0, l));
	for (uint32_t id : f.allocas) freeObj(s, id);
	const CInst* call = f.call;
	T.st.pop_back();
	if (T.st.empty()) {
		T.done = true;
		s.live--;
		if (s.cur == 0) { // main finished
			endPath("end");
		}
		pickThread(s, true);
		return;
	}
	Frame& g = T.st.back();
	if (call) {
		if (call->dst >= 0) for (size_t l = 0; l < rv.size(); l++) g.r[call->dst + l] = rv[l];
		if (call->op == Instruction::Invoke) { g.ip--; enterBB(s, g, call->succ[0]); }
	}
}

// ------------------------------------------------------------------ main interpreter step
static void step(State& s)
{
	Frame& f = s.F();
	BBI& B = f.f->bbs[f.bb];
	const CInst& c = B.in[f.ip];
	s.inst++; stInst++;
	auto bin = [&](Op op) {
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vBin(op, c.ty->l[l].w, opv(f, c, 0, l), opv(f, c, 1, l)), l);
		f.ip++;
	};
	switch (c.op) {
	case Instruction::Ret: doRet(s, c); return;
	case Instruction::Br:
		if (c.succ.size() == 1) { enterBB(s, f, c.succ[0]); return; }
		else {
			const V& v = opv(f, c, 0);
			if (v.conc()) { enterBB(s, f, v.c ? c.succ[0] : c.succ[1]); return; }
			undefBranchCheck(s, v.n);
			Node* cn = v.n;
			bool tv = evalIn(s, cn) != 0;
			uint32_t t = c.succ[0], e = c.succ[1];
			forkCond(s, cn, [tv, t, e](State& o) { enterBB(o, o.F(), tv ? e : t); });
			enterBB(s, s.F(), tv ? t : e);
			return;
		}
	case Instruction::Switch: {
		const V v = opv(f, c, 0);
		unsigned w = c.ops[0].ty->l[0].w;
		if (v.conc()) {
			uint32_t d = c.succ[0];
			for (unsigned i = 1; i < c.ops.size(); i++) if (c.ops[i].cv[0].c == v.c) { d = c.succ[i]; break; }
			enterBB(s, f, d);
			return;
		}
		undefBranchCheck(s, mkNode(OEq, 1, 0, v.n, toNode(c.ops.size() > 1 ? c.ops[1].cv[0] : V(0), w)));
		// group cases by successor
		std::map<uint32_t, Node*> g;
		Node* def = mkConst(1, 1);
		for (unsigned i = 1; i < c.ops.size(); i++) {
			Node* eq = mkNode(OEq, 1, 0, v.n, toNode(c.ops[i].cv[0], w));
			def = mkNode(OAnd, 1, 0, def, notN(eq));
			if (c.succ[i] == c.succ[0]) continue;
			auto it = g.find(c.succ[i]);
			if (it == g.end()) g[c.succ[i]] = eq; else it->second = mkNode(OOr, 1, 0, it->second, eq);
		}
		// default also takes cases that branch to the default block
		{
			Node* d2 = mkConst(1, 1);
			for (auto& p : g) d2 = mkNode(OAnd, 1, 0, d2, notN(p.second));
			def = d2;
		}
		vector<std::pair<uint32_t, Node*>> all(g.begin(), g.end());
		all.push_back({c.succ[0], def});
		int mine = -1;
		for (size_t i = 0; i < all.size(); i++) if (evalIn(s, all[i].second)) { mine = (int)i; break; }
		vector<std::unique_ptr<State>> add;
		for (size_t i = 0; i < all.size(); i++) {
			if ((int)i == mine) continue;
			Model m;
			SatRes r = may(s, all[i].second, m);
			if (r == UNKNOWN) { stBranchUndecided++; continue; }
			if (r == UNSAT) continue;
			auto o = cloneState(s);
			addPC(*o, all[i].second);
			setModel(*o, std::move(m));
			enterBB(*o, o->F(), all[i].first);
			add.push_back(std::move(o));
		}
		for (auto& o : add) work.push_back(std::move(o));
		if (!add.empty()) addPC(s, all[mine].second);
		enterBB(s, s.F(), all[mine].first);
		return;
	}
	case Instruction::Unreachable: fatalState(s, "abort", "reached an unreachable instruction (undefined behaviour or no return)");
	case Instruction::Add: bin(OAdd); return;
	case Instruction::Sub: bin(OSub); return;
	case Instruction::Mul: bin(OMul); return;
	case Instruction::And: bin(OAnd); return;
	case Instruction::Or: bin(OOr); return;
	case Instruction::Xor: bin(OXor); return;
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
		Op op = c.op == Instruction::Shl ? OShl : c.op == Instruction::LShr ? OLShr : OAShr;
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, shiftOp(s, op, c.ty->l[l].w, opv(f, c, 0, l), opv(f, c, 1, l)), l);
		f.ip++;
		return;
	}
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		Op op = c.op == Instruction::UDiv ? OUDiv : c.op == Instruction::SDiv ? OSDiv : c.op == Instruction::URem ? OURem : OSRem;
		for (unsigned l = 0; l < c.ty->l.size(); l++) {
			unsigned w = c.ty->l[l].w;
			V b = opv(f, c, 1, l);
			if (b.conc() && w <= 64 && !b.c) fatalState(s, "arith", "division by zero");
			if (!b.conc()) {
				Node* z = mkNode(OEq, 1, 0, b.n, mkConst(0, w));
				Model m;
				SatRes r = may(s, z, m);
				if (r == SAT) {
					report(s, "arith", "division by zero", m);
					Model m2;
					if (may(s, notN(z), m2) != SAT) endPath("failure");
					addPC(s, notN(z)); setModel(s, std::move(m2));
				}
			}
			setr(f, c, vBin(op, w, opv(f, c, 0, l), b), l);
		}
		f.ip++;
		return;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		if (c.op == Instruction::FRem) {
			for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vUF(UFmod, c.ty->l[l].w, opv(f, c, 0, l), opv(f, c, 1, l)), l);
			f.ip++; return;
		}
		Op op = c.op == Instruction::FAdd ? OFAdd : c.op == Instruction::FSub ? OFSub : c.op == Instruction::FMul ? OFMul : OFDiv;
		if (c.ty->l[0].w > 64) incomplete(s, "long double arithmetic");
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vFBin(op, c.ty->l[l].w, opv(f, c, 0, l), opv(f, c, 1, l)), l);
		f.ip++;
		return;
	}
	case Instruction::FNeg: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, fneg(opv(f, c, 0, l), c.ty->l[l].w), l); f.ip++; return;
	case Instruction::ICmp: case Instruction::FCmp: {
		auto p = cast<CmpInst>(c.I)->getPredicate();
		for (unsigned l = 0; l < c.ty->l.size(); l++) {
			unsigned w = c.ops[0].ty->l[l].w;
			setr(f, c, c.op == Instruction::ICmp ? icmpPred(p, w, opv(f, c, 0, l), opv(f, c, 1, l)) : fcmpPred(p, w, opv(f, c, 0, l), opv(f, c, 1, l)), l);
		}
		f.ip++;
		return;
	}
	case Instruction::Select: {
		bool vecC = c.ops[0].ty->l.size() > 1;
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vIte(opv(f, c, 0, vecC ? l : 0), opv(f, c, 1, l), opv(f, c, 2, l), c.ty->l[l].w), l);
		f.ip++;
		return;
	}
	case Instruction::Freeze: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, opv(f, c, 0, l), l); f.ip++; return;
	case Instruction::Trunc: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vExtract(opv(f, c, 0, l), c.ops[0].ty->l[l].w, 0, c.ty->l[l].w), l); f.ip++; return;
	case Instruction::ZExt: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vZExt(opv(f, c, 0, l), c.ops[0].ty->l[l].w, c.ty->l[l].w), l); f.ip++; return;
	case Instruction::SExt: for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vSExt(opv(f, c, 0, l), c.ops[0].ty->l[l].w, c.ty->l[l].w), l); f.ip++; return;
	case Instruction::FPExt: case Instruction::FPTrunc:
		if (c.ty->l[0].w > 64 || c.ops[0].ty->l[0].w > 64) incomplete(s, "long double");
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vFCvt(opv(f, c, 0, l), c.ops[0].ty->l[l].w, c.ty->l[l].w, RNE), l);
		f.ip++; return;
	case Instruction::FPToSI: case Instruction::FPToUI:
		for (unsigned l = 0; l < c.ty->l.size(); l++) { V r = fpToInt(s, opv(f, c, 0, l), c.ops[0].ty->l[l].w, c.ty->l[l].w, c.op == Instruction::FPToSI); setr(f, c, r, l); }
		f.ip++; return;
	case Instruction::SIToFP: case Instruction::UIToFP:
		if (c.ty->l[0].w > 64) incomplete(s, "long double");
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(f, c, vIToF(opv(f, c, 0, l), c.ops[0].ty->l[l].w, c.ty->l[l].w, c.op == Instruction::SIToFP), l);
		f.ip++; return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: {
		unsigned wa = c.ops[0].ty->l[0].w, w = c.ty->l[0].w;
		V v = opv(f, c, 0);
		setr(f, c, w < wa ? vExtract(v, wa, 0, w) : vZExt(v, wa, w));
		f.ip++; return;
	}
	case Instruction::AddrSpaceCast: setr(f, c, opv(f, c, 0)); f.ip++; return;
	case Instruction::BitCast: {
		auto& sl = c.ops[0].ty->l; auto& dl = c.ty->l;
		if (sl.size() == dl.size()) { for (unsigned l = 0; l < dl.size(); l++) setr(f, c, opv(f, c, 0, l), l); f.ip++; return; }
		// concatenate all source lanes (lane 0 lowest) and re-split
		V acc = opv(f, c, 0, 0); unsigned tw = sl[0].w;
		vector<V> dst(dl.size());
		if (sl.size() < dl.size()) {
			unsigned per = (unsigned)(dl.size() / sl.size());
			for (unsigned i = 0; i < sl.size(); i++) for (unsigned j = 0; j < per; j++) dst[i * per + j] = vExtract(opv(f, c, 0, i), sl[i].w, j * dl[0].w, dl[0].w);
		} else if (sl.size() % dl.size() == 0) {
			unsigned per = (unsigned)(sl.size() / dl.size());
			for (unsigned i = 0; i < dl.size(); i++) {
				acc = opv(f, c, 0, i * per); tw = sl[0].w;
				for (unsigned j = 1; j < per; j++) { acc = vConcat(opv(f, c, 0, i * per + j), sl[0].w, acc, tw); tw += sl[0].w; }
				dst[i] = acc;
			}
		} else incomplete(s, "bitcast shape");
		for (unsigned l = 0; l < dl.size(); l++) setr(f, c, dst[l], l);
		f.ip++; return;
	}
	case Instruction::Alloca: {
		auto& ai = cast<AllocaInst>(*c.I);
		uint64_t n = DL->getTypeAllocSize(ai.getAllocatedType());
		if (ai.isArrayAllocation()) n *= concretize(s, opv(f, c, 0), c.ops[0].ty->l[0].w, 100, "alloca size");
		uint32_t id = newObj(s, n, 2, "stack@" + f.f->F->getName().str().substr(0, 60) + "." + ai.getName().str(), true);
		f.allocas.push_back(id);
		setr(f, c, V(baseOf(id)));
		f.ip++; return;
	}
	case Instruction::Load: {
		auto& li = cast<LoadInst>(*c.I);
		V p = opv(f, c, 0);
		if (li.isAtomic()) {
			uint64_t pa = concAddr(s, p);
			if (!visible(s)) return;
			unsigned sv = s.live; s.live = 1; // atomics do not race with atomics
			setr(s.F(), c, load(s, V(pa), c.ty->l[0].w));
			s.live = sv;
			if (li.getOrdering() != AtomicOrdering::Monotonic && li.getOrdering() != AtomicOrdering::Unordered) syncAcq(s, pa);
			s.F().ip++;
			return;
		}
		vector<V> tmp;
		for (unsigned l = 0; l < c.ty->l.size(); l++) {
			if (c.ty->l[l].w == 80) incomplete(s, "long double load");
			tmp.push_back(load(s, vBin(OAdd, 64, p, V(c.ty->l[l].off)), c.ty->l[l].w));
		}
		for (unsigned l = 0; l < c.ty->l.size(); l++) setr(s.F(), c, tmp[l], l);
		s.F().ip++;
		return;
	}
	case Instruction::Store: {
		auto& si = cast<StoreInst>(*c.I);
		V p = opv(f, c, 1);
		if (si.isAtomic()) {
			uint64_t pa = concAddr(s, p);
			if (!visible(s)) return;
			unsigned sv = s.live; s.live = 1;
			store(s, V(pa), c.ops[0].ty->l[0].w, opv(s.F(), c, 0));
			s.live = sv;
			if (si.getOrdering() != AtomicOrdering::Monotonic && si.getOrdering() != AtomicOrdering::Unordered) syncRel(s, pa);
			s.F().ip++;
			return;
		}
		auto& tl = c.ops[0].ty->l;
		for (unsigned l = 0; l < tl.size(); l++) {
			if (tl[l].w == 80) incomplete(s, "long double store");
			store(s, vBin(OAdd, 64, p, V(tl[l].off)), tl[l].w, opv(f, c, 0, l));
		}
		s.F().ip++;
		return;
	}
	case Instruction::AtomicRMW: {
		auto& rmw = cast<AtomicRMWInst>(*c.I);
		uint64_t pa = concAddr(s, opv(f, c, 0));
		if (!visible(s)) return;
		Frame& g = s.F();
		unsigned w = c.ty->l[0].w;
		unsigned sv = s.live; s.live = 1;
		V old = load(s, V(pa), w), x = opv(g, c, 1), nv;
		switch (rmw.getOperation()) {
		case AtomicRMWInst::Add: nv = vBin(OAdd, w, old, x); break;
		case AtomicRMWInst::Sub: nv = vBin(OSub, w, old, x); break;
		case AtomicRMWInst::And: nv = vBin(OAnd, w, old, x); break;
		case AtomicRMWInst::Or: nv = vBin(OOr, w, old, x); break;
		case AtomicRMWInst::Xor: nv = vBin(OXor, w, old, x); break;
		case AtomicRMWInst::Xchg: nv = x; break;
		case AtomicRMWInst::UMin: nv = vIte(vCmp(OUlt, w, x, old), x, old, w); break;
		case AtomicRMWInst::UMax: nv = vIte(vCmp(OUlt, w, old, x), x, old, w); break;
		default: s.live = sv; incomplete(s, "atomicrmw kind");
		}
		store(s, V(pa), w, nv);
		s.live = sv;
		if (rmw.getOrdering() != AtomicOrdering::Monotonic) { syncAcq(s, pa); syncRel(s, pa); }
		setr(g, c, old);
		g.ip++;
		return;
	}
	case Instruction::AtomicCmpXchg: {
		uint64_t pa = concAddr(s, opv(f, c, 0));
		if (!visible(s)) return;
		Frame& g = s.F();
		unsigned w = c.ty->l[0].w;
		unsigned sv = s.live; s.live = 1;
		V old = load(s, V(pa), w);
		V eq = vCmp(OEq, w, old, opv(g, c, 1));
		store(s, V(pa), w, vIte(eq, opv(g, c, 2), old, w));
		s.live = sv;
		syncAcq(s, pa); syncRel(s, pa);
		setr(g, c, old, 0); setr(g, c, eq, 1);
		g.ip++;
		return;
	}
	case Instruction::Fence: f.ip++; return;
	case Instruction::GetElementPtr: {
		V r = opv(f, c, 0);
		if (c.k0) r = vBin(OAdd, 64, r, V(c.k0));
		for (auto& g : c.gi) {
			V idx = vSExt(opv(f, c, g.op), g.w, 64);
			r = vBin(OAdd, 64, r, vBin(OMul, 64, idx, V(g.scale)));
		}
		setr(f, c, r);
		f.ip++;
		return;
	}
	case Instruction::ExtractElement: case Instruction::InsertElement: {
		bool ex = c.op == Instruction::ExtractElement;
		unsigned n = (unsigned)c.ops[0].ty->l.size();
		uint64_t ix = concretize(s, opv(f, c, ex ? 1 : 2), c.ops[ex ? 1 : 2].ty->l[0].w, 64, "vector index");
		if (ix >= n) { setr(f, c, undefV(c.ty->l[0].w)); f.ip++; return; }
		if (ex) setr(f, c, opv(f, c, 0, (unsigned)ix));
		else for (unsigned l = 0; l < n; l++) setr(f, c, l == ix ? opv(f, c, 1) : opv(f, c, 0, l), l);
		f.ip++;
		return;
	}
	case Instruction::ShuffleVector: {
		unsigned n = (unsigned)c.ops[0].ty->l.size();
		vector<V> t;
		for (int x : c.shuf) t.push_back(x < 0 ? undefV(c.ty->l[0].w) : (unsigned)x < n ? opv(f, c, 0, x) : opv(f, c, 1, x - n));
		for (unsigned l = 0; l < t.size(); l++) setr(f, c, t[l], l);
		f.ip++;
		return;
	}
	case Instruction::ExtractValue: for (unsigned l = 0; l < c.k1; l++) setr(f, c, opv(f, c, 0, (unsigned)c.k0 + l), l); f.ip++; return;
	case Instruction::InsertValue: {
		vector<V> t;
		for (unsigned l = 0; l < c.ty->l.size(); l++) t.push_back(l >= c.k0 && l < c.k0 + c.k1 ? opv(f, c, 1, l - (unsigned)c.k0) : opv(f, c, 0, l));
		for (unsigned l = 0; l < t.size(); l++) setr(f, c, t[l], l);
		f.ip++;
		return;
	}
	case Instruction::Call: if (!doCall(s, c)) s.F().ip++; return;
	case Instruction::Invoke:
		if (!doCall(s, c)) enterBB(s, s.F(), c.succ[0]);
		return;
	case Instruction::LandingPad: case Instruction::Resume: fatalState(s, "abort", "exception landing pad");
	default: incomplete(s, string("unsupported instruction ") + c.I->getOpcodeName());
	}
}

static void runState(State& s)
{
	for (;;) {
		step(s);
		if (s.inst > optMaxInst) incomplete(s, "instruction limit per path");
		if ((stInst & 0x3fff) == 0 && elapsed() > optTime) incomplete(s, "time limit");
	}
}

static string jstr(const string& x)
{
	string r = "\"";
	for (char ch : x) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
		else r += ch;
	}
	return r + "\"";
}

int main(int argc, char** argv)
{
	gT0 = std::chrono::steady_clock::now();
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		auto val = [&](const char* p) { return a.substr(strlen(p)); };
		if (a.rfind("--entry=", 0) == 0) optEntry = val("--entry=");
		else if (a.rfind("--out=", 0) == 0) optOut = val("--out=");
		else if (a.rfind("--time=", 0) == 0) optTime = atof(val("--time=").c_str());
		else if (a.rfind("--query-ms=", 0) == 0) optQueryMs = (unsigned)atoi(val("--query-ms=").c_str());
		else if (a.rfind("--max-inst=", 0) == 0) optMaxInst = strtoull(val("--max-inst=").c_str(), 0, 10);
		else if (a.rfind("--max-traces=", 0) == 0) optMaxTraces = (unsigned)atoi(val("--max-traces=").c_str());
		else if (a.rfind("--max-paths=", 0) == 0) optMaxPaths = strtoull(val("--max-paths=").c_str(), 0, 10);
		else if (a.rfind("--f16c=", 0) == 0) optCpuF16C = atoi(val("--f16c=").c_str());
		else if (a.rfind("--seed=", 0) == 0) optSeed = strtoull(val("--seed=").c_str(), 0, 10);
		else if (a == "--fpcast") optFpCastCheck = true;
		else if (a == "--stop-first") optStopFirst = true;
		else if (a == "-v") optVerbose = true;
		else if (a.rfind("--param=", 0) == 0) { string p = val("--param="); size_t e = p.find('='); optParams[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
		else optModule = a;
	}
	rngState ^= optSeed * 0x9E3779B97F4A7C15ull; solverSeed(optSeed);
	LLVMContext ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(optModule, err, ctx);
	if (!mod) { err.print("symir", errs()); return 3; }
	M = mod.get(); DL = &M->getDataLayout();
	initHandlers();
	// addresses
	uint64_t fa = 0x1000;
	for (auto& F : *M) { gAddr[&F] = fa; fnByAddr[fa] = &F; fa += 16; }
	auto s0 = std::unique_ptr<State>(new State);
	s0->id = 0;
	s0->objs.emplace_back(); // id 0 = invalid
	s0->th.emplace_back();
	s0->th[0].vc[0] = 1;
	for (auto& G : M->globals()) {
		uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
		if (G.isDeclaration() && sz < 64) sz = 64;
		uint32_t id = newObj(*s0, sz, 0, G.getName().str(), false);
		gAddr[&G] = baseOf(id);
	}
	for (auto& G : M->globals()) {
		if (G.isDeclaration() || !G.hasInitializer()) continue;
		if (G.getName().starts_with("llvm.")) continue;
		uint32_t id = (uint32_t)(gAddr[&G] >> 32);
		Constant* init = G.getInitializer();
		if (isa<ConstantAggregateZero>(init)) { s0->objs[id]->ro = G.isConstant(); continue; }
		vector<V> v;
		if (isa<UndefValue>(init)) continue;
		constBits(init, v);
		auto& t = ti(init->getType());
		for (size_t i = 0; i < t.l.size(); i++) rawStore(*s0, id, t.l[i].off, t.l[i].w, v[i]);
		s0->objs[id]->ro = G.isConstant();
	}
	// queue: global constructors in order, then the entry
	Function* E = M->getFunction(optEntry);
	if (!E || E->isDeclaration()) { errs() << "symir: no entry " << optEntry << "\n"; return 3; }
	vector<Function*> ctors;
	if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
		if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
			vector<std::pair<uint64_t, Function*>> v;
			for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
			std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
			for (auto& p : v) ctors.push_back(p.second);
		}
	}
	bool bad = false;
	// frames are LIFO: push the entry first, then ctors in reverse
	pushFrame(*s0, s0->th[0], fnInfo(E), {}, nullptr);
	// What was done before the entry (harness/history.cpp).
	if (Function* H = M->getFunction("sym_history")) if (!H->isDeclaration()) pushFrame(*s0, s0->th[0], fnInfo(H), {}, nullptr);
	for (int i = (int)ctors.size() - 1; i >= 0; i--) pushFrame(*s0, s0->th[0], fnInfo(ctors[i]), {}, nullptr);
	work.push_back(std::move(s0));
	bool stopped = false;
	while (!work.empty()) {
		stStatesMax = std::max<uint64_t>(stStatesMax, work.size());
		auto s = std::move(work.back());
		work.pop_back();
		try { runState(*s); }
		catch (PathEnd& e) {
			if (e.incomplete) { stIncomplete++; stIncompleteWhy[e.why]++; }
			else if (e.why == "end") finishPath(*s);
			else if (e.why == "assume") stPathsAssume++;
			else stPaths++;
		}
		if (elapsed() > optTime || stPaths > optMaxPaths || (optStopFirst && !gFailures.empty())) { stopped = !work.empty(); break; }
	}
	if (stopped && !(optStopFirst && !gFailures.empty())) { stIncomplete += work.size(); stIncompleteWhy["unexplored states at the time or path limit"] += work.size(); }
	(void)bad;
	// ---------------------------------------------------------------- output
	string o = "{\n";
	auto num = [&](const char* k, double v) { char b[64]; snprintf(b, 64, "%.6g", v); o += string(" \"") + k + "\": " + b + ",\n"; };
	auto inum = [&](const char* k, uint64_t v) { o += string(" \"") + k + "\": " + std::to_string(v) + ",\n"; };
	inum("paths", stPaths); inum("paths_assumed_away", stPathsAssume); inum("instructions", stInst); inum("forks", stForks);
	inum("assert_queries", stAssertQ); inum("assert_proved", stAssertProved); inum("assert_concrete", stAssertConc); inum("assert_undecided", stAssertUndecided);
	inum("branch_undecided", stBranchUndecided); inum("incomplete", stIncomplete); inum("failures_total", gFailTotal);
	inum("solver_queries", gStats.queries); inum("solver_sat", gStats.sat); inum("solver_unsat", gStats.unsat); inum("solver_unknown", gStats.unknown);
	inum("solver_cache_hits", gStats.cacheHits); inum("model_hits", gStats.modelHits); inum("uf_refinements", gStats.refinements); inum("finite_terms", gFiniteTerms); inum("finite_values", gFiniteValues);
	num("solver_time", gStats.time); num("solver_max_query", gStats.maxTime); num("wall", elapsed()); inum("expr_nodes", gNodeCount); inum("max_worklist", stStatesMax);
	o += " \"incomplete_why\": {"; bool ft = true;
	for (auto& p : stIncompleteWhy) { o += (ft ? "" : ", ") + jstr(p.first) + ": " + std::to_string(p.second); ft = false; }
	o += "},\n \"covers\": {"; ft = true;
	for (auto& p : stCovers) { o += (ft ? "" : ", ") + jstr(p.first) + ": " + std::to_string(p.second); ft = false; }
	o += "},\n \"functions\": {"; ft = true;
	for (auto& p : fns) if (p.second->count && !p.first->isDeclaration() && p.second->dem.find("cuttlefish") != string::npos && p.second->dem.compare(0, 5, "std::") != 0) { o += (ft ? "" : ", ") + jstr(p.second->dem) + ": " + std::to_string(p.second->count); ft = false; }
	o += "},\n \"failures\": ["; ft = true;
	auto inputsJ = [&](const vector<std::pair<string, uint64_t>>& v) { string r = "{"; bool g = true; for (auto& p : v) { r += (g ? "" : ", ") + jstr(p.first) + ": " + std::to_string(p.second); g = false; } return r + "}"; };
	auto schedJ = [&](const vector<int>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; };
	for (auto& f : gFailures) {
		o += string(ft ? "" : ",\n  ") + "{\"kind\": " + jstr(f.kind) + ", \"msg\": " + jstr(f.msg) + ", \"loc\": " + jstr(f.loc) + ", \"stack\": " + jstr(f.stack) + ", \"undef\": " + (f.undef ? "true" : "false") + ", \"sched\": " + schedJ(f.sched) + ", \"inputs\": " + inputsJ(f.inputs) + "}";
		ft = false;
	}
	o += "],\n \"traces\": ["; ft = true;
	for (auto& t : gTraces) {
		o += string(ft ? "" : ",\n  ") + "{\"inputs\": " + inputsJ(t.inputs) + ", \"sched\": " + schedJ(t.sched) + ", \"obs\": [";
		for (size_t i = 0; i < t.obs.size(); i++) o += string(i ? ", " : "") + "[" + jstr(t.obs[i].first) + ", " + jstr(t.obs[i].second) + "]";
		o += "]}";
		ft = false;
	}
	o += "]\n}\n";
	if (optOut.empty()) outs() << o;
	else { std::error_code ec; raw_fd_ostream os(optOut, ec); os << o; }
	if (optVerbose) errs() << "paths " << stPaths << " inst " << stInst << " q " << gStats.queries << " t " << gStats.time << " wall " << elapsed() << "\n";
	outs().flush();
	_Exit(0);
}
