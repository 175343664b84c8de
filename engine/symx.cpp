// symx: path-wise symbolic execution of LLVM 18 IR with Z3 deciding the verification conditions.
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <cstdarg>
#include <map>
#include <set>
#include <tuple>
#include <algorithm>
#include <unordered_set>
#include <string>
#include <functional>
#include <chrono>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <cctype>
using namespace llvm;

// ---------------------------------------------------------------- options, shared counters
static std::string optOut = "/tmp/symx.out";
static int optJobs = 8;
static uint64_t optMaxSteps = 60000000;   // per path
static double optTimeout = 800;
static int optMaxViol = 6;
static double optGrace = 20;              // seconds to go on after the first violation
static uint64_t optSample = 200;          // sampled paths dumped for native validation
static bool optTrace = false, optCross = false;
static uint64_t optRlimit = 400000000;

struct Shared {
	uint64_t paths, forks, steps, pruned, vcs, vcFolded, vcSolver, queries, qSat, qUnsat, qUnknown, tableDecisions, solverUs, viol, unsupported, hangs, sampled, maxDepthVars, crossChecked, crossBad;
	int idle; volatile int stop; int nextFile; int procs; uint64_t maxrss;
	uint64_t reach[64]; char reachName[64][48]; int nreach; int lock;
	int nfn; uint32_t fnHit[1<<16]; volatile double firstViol;
};
static Shared* SH;
static inline void add(uint64_t& c, uint64_t n = 1) { __atomic_fetch_add(&c, n, __ATOMIC_RELAXED); }
static void lockSh() { while (__atomic_exchange_n(&SH->lock, 1, __ATOMIC_ACQUIRE)) usleep(50); }
static void unlockSh() { __atomic_store_n(&SH->lock, 0, __ATOMIC_RELEASE); }
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static double g_t0;
[[noreturn]] static void die(const char* fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "symx: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); __atomic_store_n(&SH->stop, 1, __ATOMIC_RELAXED); add(SH->unsupported); _exit(3); }

// ---------------------------------------------------------------- values and memory
struct Val { uint64_t c; E e; };
static inline Val VC(uint64_t c) { return Val{c, nullptr}; }
static inline Val VE(E e) { if (isC(e)) return Val{e->c, nullptr}; return Val{0, e}; }
static inline E asE(const Val& v, int w) { return v.e ? v.e : mkConst(w, v.c); }

static const uint64_t BASE = 0x40000000ull;
enum Kind : uint8_t { KGlobal, KConst, KStack, KMalloc, KNew, KNewArr, KFunc, KVarArg };
static const char* kindName[] = {"global","constant","stack","malloc","new","new[]","function","argument list"};
struct Obj { uint32_t rc; uint32_t size; Kind kind; uint8_t watch; uint8_t epoch; uint8_t* data; E* sym; }; // watch: a variable of the library's that threads share; epoch: during which thread's turn it was allocated
struct Slot { Obj* o; uint32_t gen; };
enum { CH = 128 };
struct Chunk { uint32_t rc; Slot s[CH]; };

static Obj* newObj(uint32_t size, Kind k, int fill) {
	Obj* o = (Obj*)malloc(sizeof(Obj)); o->rc = 1; o->size = size; o->kind = k; o->sym = nullptr; o->watch = o->epoch = 0;
	o->data = (uint8_t*)malloc(size ? size : 1); memset(o->data, fill, size); return o;
}
static void unref(Obj* o) { if (o && --o->rc == 0) { free(o->data); free(o->sym); free(o); } }
static Obj* cloneObj(Obj* o) {
	Obj* n = (Obj*)malloc(sizeof(Obj)); *n = *o; n->rc = 1;
	n->data = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
	if (o->sym) { n->sym = (E*)malloc(o->size * sizeof(E)); memcpy(n->sym, o->sym, o->size * sizeof(E)); }
	return n;
}
static void unrefChunk(Chunk* c) { if (--c->rc == 0) { for (auto& s : c->s) unref(s.o); free(c); } }

// ---------------------------------------------------------------- decoded code
struct Opnd { int32_t r; uint64_t c; };
struct Copy { int32_t dst; Opnd src; };
struct Edge { int pc; std::vector<Copy> copies; bool simple; };
enum IOp : uint8_t {
	IAdd, ISub, IMul, IUDiv, ISDiv, IURem, ISRem, IAnd, IOr, IXor, IShl, ILShr, IAShr,
	IEq, INe, IUgt, IUge, IUlt, IUle, ISgt, ISge, ISlt, ISle,
	ITrunc, IZExt, ISExt, ICopy, ISelect, ILoad, IStore, IGep, IAlloca, IBr, ICondBr, ISwitch, IRet, IUnreachable,
	ICall, IResume, IExtractVal, IInsertVal, IFBin, IFCmp, IFCast, IAtomicRMW, ICmpXchg, ILandingPad, INop, IFreeze, IFNeg, IBswap, IMinMax, IAbs, ICtz, IOvf, IUnsup
};
struct Fn;
struct Inst {
	IOp op; uint8_t w; uint8_t w2; uint8_t sub; int32_t dst; Opnd a, b, c;
	int n;                                   // slots / extra count
	std::vector<Opnd> args;                  // call operands, gep indices
	std::vector<int64_t> scale;              // gep scales, slot sizes
	std::vector<uint64_t> cases; std::vector<int> caseEdge;
	Edge* e0 = nullptr; Edge* e1 = nullptr;
	std::vector<Edge*> edges;
	const Instruction* ll; const Function* callee = nullptr; Fn* fn = nullptr;
	std::vector<int> byval;                  // per argument: byval size or 0
};
typedef enum { R_NEXT, R_STAY, R_KILL } Res;
struct State;
typedef Res (*Native)(State&, Inst&, Val*, int);
struct Fn {
	const Function* f; std::string name; bool decoded = false; int nregs = 0; int id; std::vector<Inst> code; Native nat = nullptr;
	std::vector<int> argSlots; bool hasBody; bool repo = false;
};

struct Frame {
	Fn* fn; int pc; uint32_t base; int32_t retDst; int32_t retN; Inst* call; std::vector<uint64_t> allocas; uint64_t vararg;
};
struct Input { std::string name; int occ; int var0; int n; uint64_t val; };
struct Observed { std::string name; std::vector<Val> bytes; };

// accesses to memory two threads can reach (between sym_shared(1) and sym_shared(0)), with the locks held
struct Acc { uint64_t obj; uint32_t off, n; uint8_t kind; /* 1 write, 2 atomic */ std::vector<uint64_t> locks; bool operator<(const Acc& o) const { return std::tie(obj, off, n, kind, locks) < std::tie(o.obj, o.off, o.n, o.kind, o.locks); } };
struct State {
	uint8_t epoch = 0; int guard = 0; std::vector<uint64_t> locks; std::set<Acc> shared;
	std::vector<Frame> fr; std::vector<Val> regs;
	std::vector<Chunk*> chunks; std::vector<uint32_t> freeIds; uint32_t nextId = 1;
	std::vector<Bits256> dom; std::vector<uint8_t> ent; std::vector<E> multi; Model model;
	std::vector<Input> inputs; std::vector<Observed> obs; std::map<std::string,int> occ;
	int64_t liveHeap = 0; int concN = 0, concPc = -1; const void* concFn = nullptr; uint64_t steps = 0; uint64_t id = 0; int depth = 0;
	std::vector<std::string> trace;
	State() {}
	State(const State& o) : epoch(o.epoch), guard(o.guard), locks(o.locks), shared(o.shared), fr(o.fr), regs(o.regs), chunks(o.chunks), freeIds(o.freeIds), nextId(o.nextId), dom(o.dom), ent(o.ent), multi(o.multi), model(o.model), inputs(o.inputs), obs(o.obs), occ(o.occ), liveHeap(o.liveHeap), concN(o.concN), concPc(o.concPc), concFn(o.concFn), steps(o.steps), id(o.id), depth(o.depth), trace(o.trace) { for (auto c : chunks) c->rc++; }
	State& operator=(const State&) = delete;
	~State() { for (auto c : chunks) unrefChunk(c); }
	Slot& wslot(uint32_t id) {
		Chunk*& c = chunks[id / CH];
		if (c->rc > 1) { Chunk* n = (Chunk*)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->rc = 1; for (auto& s : n->s) if (s.o) s.o->rc++; c->rc--; c = n; }
		return c->s[id % CH];
	}
	uint64_t alloc(uint32_t size, Kind k, int fill = 0xAA) {
		uint32_t id;
		if (!freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); }
		else { id = nextId++; if (id >= (1u << 19)) die("out of object ids"); if (id / CH >= chunks.size()) { Chunk* c = (Chunk*)calloc(1, sizeof(Chunk)); c->rc = 1; chunks.push_back(c); } }
		Slot& s = wslot(id); s.o = newObj(size, k, fill); s.o->epoch = epoch;
		return ((uint64_t)(s.gen & 0xfff) << 51) | ((uint64_t)id << 32) | BASE;
	}
	void release(uint64_t addr) {
		uint32_t id = (addr >> 32) & 0x7ffff; Slot& s = wslot(id); unref(s.o); s.o = nullptr; s.gen++;
		if (s.gen < 0xfff) freeIds.push_back(id);
	}
	Slot* find(uint64_t addr) {
		uint32_t id = (addr >> 32) & 0x7ffff; if (!id || id >= nextId) return nullptr;
		return &chunks[id / CH]->s[id % CH];
	}
	Obj* wobj(uint32_t id) { Slot& s = wslot(id); if (s.o->rc > 1) { Obj* n = cloneObj(s.o); s.o->rc--; s.o = n; } return s.o; }
	void freeFrame(Frame& f) { for (auto a : f.allocas) release(a); if (f.vararg) release(f.vararg); }
};

// ---------------------------------------------------------------- Z3
static Z3_context Z; static Z3_solver ZS; static Z3_sort zbv[65];
static Z3_sort bvs(int w) { if (!zbv[w]) { zbv[w] = Z3_mk_bv_sort(Z, w); } return zbv[w]; }
static Z3_ast zconst(int w, uint64_t c) { return Z3_mk_unsigned_int64(Z, c, bvs(w)); }
static void zinit() {
	Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg);
	ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
	Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)optRlimit);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), 1);
	Z3_solver_set_params(Z, ZS, p); Z3_params_dec_ref(Z, p);
}
static Z3_ast zof(E e);
static Z3_ast zb(E e) { Z3_ast a = zof(e); if (e->w == 1) return Z3_mk_ite(Z, a, zconst(1, 1), zconst(1, 0)); return a; }
static Z3_ast zor(std::vector<Z3_ast>& v) { if (v.empty()) return Z3_mk_false(Z); if (v.size() == 1) return v[0]; return Z3_mk_or(Z, v.size(), v.data()); }
static Z3_ast zbits(Z3_ast var, const Bits256& b) {
	std::vector<Z3_ast> v; int i = 0;
	while (i < 256) { if (!b.get(i)) { i++; continue; } int j = i; while (j < 255 && b.get(j + 1)) j++;
		if (i == j) v.push_back(Z3_mk_eq(Z, var, zconst(8, i)));
		else { Z3_ast t[2] = {Z3_mk_bvuge(Z, var, zconst(8, i)), Z3_mk_bvule(Z, var, zconst(8, j))}; v.push_back(Z3_mk_and(Z, 2, t)); }
		i = j + 1; }
	return zor(v);
}
static Z3_ast zvar(int i) { char b[16]; snprintf(b, 16, "v%d", i); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(8)); }
static std::unordered_map<E, uint64_t> g_umax;
static uint64_t umax(E e) { // upper bound of the unsigned value
	if (isC(e)) return e->c;
	auto it = g_umax.find(e); if (it != g_umax.end()) return it->second;
	uint64_t m = maskw(e->w), r = m;
	if (e->sup >= 0) { r = 0; for (int i = 0; i < 256; i++) r = std::max(r, tabAt(e, i)); }
	else switch (e->op) {
		case Op::ZExt: r = umax(e->k[0]); break;
		case Op::Concat: r = (umax(e->k[0]) << e->k[1]->w) | maskw(e->k[1]->w); break;
		case Op::Add: { uint64_t a = umax(e->k[0]), b = umax(e->k[1]); if (a + b >= a && a + b <= m) r = a + b; break; }
		case Op::Mul: { uint64_t a = umax(e->k[0]), b = umax(e->k[1]); if (!a || b <= m / a) r = a * b; break; }
		case Op::And: r = std::min(umax(e->k[0]), umax(e->k[1])); break;
		case Op::Or: case Op::Xor: { uint64_t a = umax(e->k[0]) | umax(e->k[1]); r = a ? (~0ull >> __builtin_clzll(a)) : 0; break; }
		case Op::Ite: r = std::max(umax(e->k[1]), umax(e->k[2])); break;
		case Op::Lut: r = 0; for (uint64_t x : lutOf(e)) r = std::max(r, x); break;
		case Op::Extract: r = e->c == 0 ? std::min(m, umax(e->k[0])) : m; break;
		case Op::UDiv: case Op::LShr: r = umax(e->k[0]); break;
		case Op::URem: if (isC(e->k[1]) && e->k[1]->c) r = e->k[1]->c - 1; break;
		default: break;
	}
	if (r > m) r = m;
	return g_umax[e] = r;
}
// a function of one octet as few pieces: runs of equal values and runs of v + constant
static Z3_ast ztab(Z3_ast v, E e) {
	std::map<std::pair<int, uint64_t>, Bits256> g; uint64_t m = maskw(e->w); uint64_t t[256]; if (e->op == Op::Lut) { auto& l = lutOf(e); for (size_t i = 0; i < 256; i++) t[i] = l[i < l.size() ? i : l.size() - 1]; } else for (int i = 0; i < 256; i++) t[i] = tabAt(e, i);
	std::map<uint64_t, int> sl; for (int i = 0; i < 255; i++) { uint64_t d = (t[i + 1] - t[i]) & m; if (d) sl[d]++; } uint64_t slope = 1; int bestN = 0; for (auto& p : sl) if (p.second > bestN) { bestN = p.second; slope = p.first; }
	std::map<uint64_t, int> cnt, off; for (int i = 0; i < 256; i++) { cnt[t[i]]++; off[(t[i] - slope * (uint64_t)i) & m]++; }
	for (int i = 0; i < 256; i++) { uint64_t o = (t[i] - slope * (uint64_t)i) & m; bool aff = e->w >= 8 && off[o] > cnt[t[i]]; auto it = g.emplace(std::make_pair(aff ? 1 : 0, aff ? o : t[i]), Bits256::none()).first; it->second.set(i); }
	auto big = g.begin(); for (auto it = g.begin(); it != g.end(); ++it) if (it->second.count() > big->second.count()) big = it;
	auto term = [&](const std::pair<int, uint64_t>& k) { if (!k.first) return zconst(e->w, k.second); Z3_ast x = e->w > 8 ? Z3_mk_zero_ext(Z, e->w - 8, v) : v; if (slope != 1) x = Z3_mk_bvmul(Z, zconst(e->w, slope), x); return k.second ? Z3_mk_bvadd(Z, x, zconst(e->w, k.second)) : x; };
	Z3_ast r = term(big->first); for (auto it = g.begin(); it != g.end(); ++it) if (it != big) r = Z3_mk_ite(Z, zbits(v, it->second), term(it->first), r);
	return r;
}
static bool g_raw = false; static std::unordered_map<E, Z3_ast> g_rawMemo; static Z3_ast zraw(E e);
static Z3_ast zmk(E e) {
	if (!g_raw && e->sup >= 0 && e->op != Op::Var) return e->w == 1 ? zbits(zvar(e->sup), bitsOf(e)) : ztab(zvar(e->sup), e);
	if (!g_raw && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule || e->op == Op::Slt || e->op == Op::Sle)) { // compare at the width the operands need
		E a = e->k[0], b = e->k[1]; if (a->w > 8) { uint64_t u = umax(a) | umax(b); int n = 64 - (u ? __builtin_clzll(u) : 63); bool sg = e->op == Op::Slt || e->op == Op::Sle;
			if (n < a->w && (!sg || n < a->w)) { Op o = e->op == Op::Slt ? Op::Ult : e->op == Op::Sle ? Op::Ule : e->op; E x = mk(o, 1, mkX(a, 0, n), mkX(b, 0, n)); if (x != e) return zof(x); } } }
	auto k = [&](int i) { return zb(e->k[i]); };
	auto ks = [&](int i) { return zof(e->k[i]); };
	bool b = e->w == 1;
	switch (e->op) {
	case Op::Const: return b ? (e->c ? Z3_mk_true(Z) : Z3_mk_false(Z)) : zconst(e->w, e->c);
	case Op::Var: return zvar((int)e->c);
	case Op::Table: {
		Z3_ast v = zvar(e->sup);
		if (b) return zbits(v, bitsOf(e));
		return ztab(v, e); }
	case Op::Lut: { auto& l = lutOf(e); if (!b) return ztab(k(0), e); Bits256 x = Bits256::none(); for (size_t i = 0; i < l.size(); i++) if (l[i]) x.set((int)i); return zbits(k(0), x); }
	case Op::Not: return b ? Z3_mk_not(Z, ks(0)) : Z3_mk_bvnot(Z, k(0));
	case Op::And: { Z3_ast t[2] = {ks(0), ks(1)}; return b ? Z3_mk_and(Z, 2, t) : Z3_mk_bvand(Z, t[0], t[1]); }
	case Op::Or: { Z3_ast t[2] = {ks(0), ks(1)}; return b ? Z3_mk_or(Z, 2, t) : Z3_mk_bvor(Z, t[0], t[1]); }
	case Op::Xor: return b ? Z3_mk_xor(Z, ks(0), ks(1)) : Z3_mk_bvxor(Z, ks(0), ks(1));
	case Op::Eq: return Z3_mk_eq(Z, ks(0), ks(1));
	case Op::Ult: return Z3_mk_bvult(Z, k(0), k(1));
	case Op::Ule: return Z3_mk_bvule(Z, k(0), k(1));
	case Op::Slt: return Z3_mk_bvslt(Z, k(0), k(1));
	case Op::Sle: return Z3_mk_bvsle(Z, k(0), k(1));
	case Op::Ite: return Z3_mk_ite(Z, ks(0), ks(1), ks(2));
	default: break;
	}
	Z3_ast r;
	switch (e->op) {
	case Op::Add: r = Z3_mk_bvadd(Z, k(0), k(1)); break;
	case Op::Sub: r = Z3_mk_bvsub(Z, k(0), k(1)); break;
	case Op::Mul: r = Z3_mk_bvmul(Z, k(0), k(1)); break;
	case Op::UDiv: r = Z3_mk_bvudiv(Z, k(0), k(1)); break;
	case Op::SDiv: r = Z3_mk_bvsdiv(Z, k(0), k(1)); break;
	case Op::URem: r = Z3_mk_bvurem(Z, k(0), k(1)); break;
	case Op::SRem: r = Z3_mk_bvsrem(Z, k(0), k(1)); break;
	case Op::Shl: r = Z3_mk_bvshl(Z, k(0), k(1)); break;
	case Op::LShr: r = Z3_mk_bvlshr(Z, k(0), k(1)); break;
	case Op::AShr: r = Z3_mk_bvashr(Z, k(0), k(1)); break;
	case Op::ZExt: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, k(0)); break;
	case Op::SExt: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, k(0)); break;
	case Op::Extract: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, k(0)); break;
	case Op::Concat: r = Z3_mk_concat(Z, k(0), k(1)); break;
	default: abort();
	}
	if (b) r = Z3_mk_eq(Z, r, zconst(1, 1));
	return r;
}
static Z3_ast zraw(E e) { auto it = g_rawMemo.find(e); if (it != g_rawMemo.end()) return it->second; Z3_ast a = zmk(e); g_rawMemo[e] = a; return a; }
static Z3_ast zof(E e) {
	if (g_raw) return zraw(e);
	if (e->z3) return (Z3_ast)e->z3;
	Z3_ast a = zmk(e); e->z3 = a; return a;
}

// ---------------------------------------------------------------- deciding conditions
static Z3_lbool solve(State& s, E cond, Model* out) {
	// slice: constraints connected to cond
	std::vector<int> vars; collectVars(cond, vars);
	std::set<int> vs(vars.begin(), vars.end()); std::vector<char> used(s.multi.size(), 0); bool ch = true; std::vector<E> cs;
	while (ch) { ch = false; for (size_t i = 0; i < s.multi.size(); i++) if (!used[i]) { std::vector<int> w; collectVars(s.multi[i], w); bool hit = false; for (int x : w) if (vs.count(x)) { hit = true; break; } if (hit) { used[i] = 1; cs.push_back(s.multi[i]); for (int x : w) if (vs.insert(x).second) ch = true; } } }
	double t = now();
	Z3_solver_push(Z, ZS);
	for (int v : vs) if (!s.dom[v].full()) Z3_solver_assert(Z, ZS, zbits(zvar(v), s.dom[v]));
	for (E e : cs) Z3_solver_assert(Z, ZS, zof(e));
	Z3_solver_assert(Z, ZS, zof(cond));
	Z3_lbool r = Z3_solver_check(Z, ZS);
	if (r == Z3_L_TRUE && out) {
		*out = s.model;
		Z3_model m = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, m);
		for (int v : vs) { Z3_ast a; uint64_t x = 0; if (Z3_model_eval(Z, m, zvar(v), true, &a) && Z3_get_numeral_uint64(Z, a, &x)) out->set(v, (uint8_t)x); }
		Z3_model_dec_ref(Z, m);
	}
	Z3_solver_pop(Z, ZS, 1);
	if (getenv("SYMX_SLOW") && now() - t > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "[slow %.3f s, %zu vars, %zu constraints] at", now() - t, vs.size(), cs.size()); for (size_t i = s.fr.size(); i-- > 0 && s.fr.size() - i < 7;) fprintf(stderr, " < %s", s.fr[i].fn->name.c_str()); fprintf(stderr, "\n%s\n", Z3_ast_to_string(Z, zof(cond))); }
	add(SH->queries); add(r == Z3_L_TRUE ? SH->qSat : r == Z3_L_FALSE ? SH->qUnsat : SH->qUnknown); add(SH->solverUs, (uint64_t)((now() - t) * 1e6));
	if (r == Z3_L_UNDEF) { fprintf(stderr, "symx: solver gave up\n"); add(SH->unsupported); }
	return r;
}
// every distinct decision taken from an octet table (condition, domain of its octet) is put to Z3 as well, from the structure of the condition
static std::unordered_set<uint64_t> g_confirmed;
static void confirm(State& s, E c, bool can, bool cannot) {
	int v = c->sup; uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }; mix((uint64_t)(size_t)c); for (int i = 0; i < 4; i++) mix(s.dom[v].w[i]);
	if (!g_confirmed.insert(h).second) return;
	double t = now(); g_raw = true; Z3_ast a = zraw(c); g_raw = false; Z3_solver_push(Z, ZS); if (!s.dom[v].full()) Z3_solver_assert(Z, ZS, zbits(zvar(v), s.dom[v]));
	Z3_ast n = Z3_mk_not(Z, a); for (int k = 0; k < 2; k++) { Z3_solver_push(Z, ZS); Z3_solver_assert(Z, ZS, k ? n : a); Z3_lbool r = Z3_solver_check(Z, ZS); Z3_solver_pop(Z, ZS, 1); add(SH->queries); add(r == Z3_L_TRUE ? SH->qSat : r == Z3_L_FALSE ? SH->qUnsat : SH->qUnknown); add(SH->crossChecked);
		if (r != ((k ? cannot : can) ? Z3_L_TRUE : Z3_L_FALSE)) { add(SH->crossBad); add(SH->unsupported); fprintf(stderr, "symx: table decision not confirmed: %s\n", showE(c).c_str()); } }
	Z3_solver_pop(Z, ZS, 1); add(SH->solverUs, (uint64_t)((now() - t) * 1e6));
}
// substitute variables whose domain is a single value; returns an expression with at most one variable if that is possible
static E specialise(State& s, E c) {
	if (c->sup != -2) return c;
	int free1 = -1;
	for (int v : *c->vars) if (s.dom[v].count() != 1) { if (free1 >= 0) return c; free1 = v; }
	Model m; for (int v : *c->vars) m.set(v, (uint8_t)s.dom[v].first());
	if (free1 < 0) return mkConst(c->w, evalE(c, m));
	uint64_t t[256]; for (int i = 0; i < 256; i++) { m.set(free1, (uint8_t)i); t[i] = evalE(c, m); }
	return mkTable(free1, c->w, t);
}
// bounds of an unsigned value under the domains of its octets
struct Rng { uint64_t lo, hi; };
static Rng rangeOf(State& s, E e, std::unordered_map<E, Rng>& memo) {
	uint64_t m = maskw(e->w); if (isC(e)) return {e->c, e->c};
	if (e->sup >= 0) { const Bits256& d = s.dom[e->sup]; Rng r{~0ull, 0}; for (int i = 0; i < 256; i++) if (d.get(i)) { uint64_t v = tabAt(e, i); r.lo = std::min(r.lo, v); r.hi = std::max(r.hi, v); } if (r.lo > r.hi) return {0, m}; return r; }
	auto it = memo.find(e); if (it != memo.end()) return it->second;
	Rng r{0, m}; auto k = [&](int i) { return rangeOf(s, e->k[i], memo); };
	switch (e->op) {
	case Op::Add: { Rng a = k(0), b = k(1); if (a.hi <= m - b.hi) r = {a.lo + b.lo, a.hi + b.hi}; else if (isC(e->k[1]) && a.lo >= ((0 - e->k[1]->c) & m)) { uint64_t n = (0 - e->k[1]->c) & m; r = {a.lo - n, a.hi - n}; } break; }
	case Op::Sub: { Rng a = k(0), b = k(1); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
	case Op::Mul: { Rng a = k(0), b = k(1); if (b.hi == 0 || a.hi <= m / b.hi) r = {a.lo * b.lo, a.hi * b.hi}; break; }
	case Op::UDiv: { Rng a = k(0), b = k(1); if (b.lo) r = {a.lo / b.hi, a.hi / b.lo}; break; }
	case Op::ZExt: r = k(0); break;
	case Op::Extract: { Rng a = k(0); if (e->c == 0 && a.hi <= m) r = a; break; }
	case Op::Concat: { Rng a = k(0), b = k(1); int sh = e->k[1]->w; r = {(a.lo << sh) | b.lo, (a.hi << sh) | b.hi}; break; }
	case Op::Ite: { Rng a = k(1), b = k(2); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
	case Op::Lut: { Rng a = k(0); auto& t = lutOf(e); r = {~0ull, 0}; for (uint64_t i = a.lo; i <= a.hi && i < t.size(); i++) { r.lo = std::min(r.lo, t[i]); r.hi = std::max(r.hi, t[i]); } if (r.lo > r.hi) r = {0, m}; break; }
	case Op::And: { Rng a = k(0), b = k(1); r = {0, std::min(a.hi, b.hi)}; break; }
	default: break;
	}
	return memo[e] = r;
}
static E byRange(State& s, E e, std::unordered_map<E, Rng>& rm) {
	if (e->w != 1 || e->nk != 2 || e->sup != -2) return e; E a = e->k[0], b = e->k[1];
	switch (e->op) {
	case Op::Ult: { if (a->op == Op::Add && (a->k[0] == b || a->k[1] == b)) { Rng x = rangeOf(s, a->k[0], rm), y = rangeOf(s, a->k[1], rm); if (x.hi <= maskw(a->w) - y.hi) return mkConst(1, 0); } Rng x = rangeOf(s, a, rm), y = rangeOf(s, b, rm); if (x.hi < y.lo) return mkConst(1, 1); if (x.lo >= y.hi) return mkConst(1, 0); return e; }
	case Op::Ule: { Rng x = rangeOf(s, a, rm), y = rangeOf(s, b, rm); if (x.hi <= y.lo) return mkConst(1, 1); if (x.lo > y.hi) return mkConst(1, 0); return e; }
	case Op::Slt: case Op::Sle: { uint64_t h = maskw(a->w) >> 1; Rng x = rangeOf(s, a, rm), y = rangeOf(s, b, rm); if (x.hi > h || y.hi > h) return e; bool st = e->op == Op::Slt; if (st ? x.hi < y.lo : x.hi <= y.lo) return mkConst(1, 1); if (st ? x.lo >= y.hi : x.lo > y.hi) return mkConst(1, 0); return e; }
	case Op::Eq: { Rng x = rangeOf(s, a, rm), y = rangeOf(s, b, rm); if (x.hi < y.lo || y.hi < x.lo) return mkConst(1, 0); return e; }
	default: return e;
	}
}
static std::unordered_map<E, Rng>* g_rngMemo;
// rewrite c under the domains of its variables: sub-terms that are constant over a domain become constants
static E simpRec(State& s, E e, std::unordered_map<E, E>& memo) {
	if (e->sup == -1) return e;
	if (e->sup >= 0) {
		const Bits256& d = s.dom[e->sup]; if (d.full()) return e;
		int f = d.first(); uint64_t v = tabAt(e, f); if (e->w == 1) { Bits256 b = bitsOf(e); if ((d & b).empty()) return mkConst(1, 0); if ((d & ~b).empty()) return mkConst(1, 1); return e; }
		for (int i = f + 1; i < 256; i++) if (d.get(i) && tabAt(e, i) != v) return e;
		return mkConst(e->w, v);
	}
	auto it = memo.find(e); if (it != memo.end()) return it->second;
	E r;
	if (e->op == Op::Ite) { E c = simpRec(s, e->k[0], memo); if (isC(c)) r = simpRec(s, c->c ? e->k[1] : e->k[2], memo); else r = mkIte(c, simpRec(s, e->k[1], memo), simpRec(s, e->k[2], memo)); }
	else { E k[3] = {nullptr, nullptr, nullptr}; bool ch = false; for (int i = 0; i < e->nk; i++) { k[i] = simpRec(s, e->k[i], memo); ch |= k[i] != e->k[i]; } r = !ch ? e : e->op == Op::Lut ? mkLut(k[0], e->w, lutOf(e)) : mk(e->op, e->w, k[0], k[1], k[2], e->c); }
	if (r->sup == -2) r = byRange(s, r, *g_rngMemo);
	memo[e] = r; return r;
}
static E simplify(State& s, E c) { if (c->sup != -2) return c; std::unordered_map<E, E> memo; std::unordered_map<E, Rng> rm; g_rngMemo = &rm; return simpRec(s, c, memo); }
static void flat(Op op, E e, std::vector<E>& out) { // op And: conjuncts of e; op Or: disjuncts
	if (e->sup == -2 && e->op == op && e->w == 1) { flat(op, e->k[0], out); flat(op, e->k[1], out); return; }
	if (e->sup == -2 && e->op == Op::Not && e->k[0]->op == (op == Op::And ? Op::Or : Op::And)) { std::vector<E> t; flat(op == Op::And ? Op::Or : Op::And, e->k[0], t); for (E x : t) out.push_back(mkNot(x)); return; }
	out.push_back(e);
}
// conjunctions of conditions on separate, otherwise unconstrained variables: decided by the tables alone
static int decideFlat(State& s, E c, Model* mt, Model* mf) {
	std::vector<E> cs; flat(Op::And, c, cs); bool neg = false;
	if (cs.size() < 2) { cs.clear(); flat(Op::Or, c, cs); if (cs.size() < 2) return 0; neg = true; for (E& x : cs) x = mkNot(x); }
	std::map<int, Bits256> m;
	for (E x : cs) { if (x->sup == -1) return 0; if (x->sup < 0 || s.ent[x->sup]) return 0; auto it = m.emplace(x->sup, Bits256::all()).first; it->second = it->second & bitsOf(x); }
	bool can = true, cannot = false; Model t = s.model, f = s.model; bool holds = true;
	for (auto& p : m) {
		Bits256 T = s.dom[p.first] & p.second, F = s.dom[p.first] & ~p.second; bool cur = p.second.get(s.model.get(p.first));
		if (!cur) { holds = false; if (T.empty()) can = false; else t.set(p.first, (uint8_t)T.first()); }
		if (!F.empty() && !cannot) { cannot = true; if (cur) f.set(p.first, (uint8_t)F.first()); }
	}
	if (!holds) f = s.model;
	add(SH->tableDecisions);
	int r = (can ? 1 : 0) | (cannot ? 2 : 0);
	if (neg) { r = ((r & 1) << 1) | (r >> 1); std::swap(t, f); }
	if (mt) *mt = t; if (mf) *mf = f; return r;
}
// 1: can be true, 2: can be false.  mt/mf receive models for the sides that are possible.
static int decide(State& s, E& c, Model* mt, Model* mf) {
	if (isC(c)) { return c->c ? 1 : 2; }
	c = specialise(s, c); if (isC(c)) return c->c ? 1 : 2;
	if (c->sup == -2) { c = simplify(s, c); if (isC(c)) return c->c ? 1 : 2; }
	if (c->sup >= 0) {
		int v = c->sup; Bits256 T = s.dom[v] & bitsOf(c), F = s.dom[v] & ~bitsOf(c);
		if (F.empty() || T.empty() || !s.ent[v]) confirm(s, c, !T.empty(), !F.empty());
		if (F.empty()) return 1;
		if (T.empty()) return 2;
		if (!s.ent[v]) {
			add(SH->tableDecisions);
			bool cur = bitsOf(c).get(s.model.get(v));
			if (mt) { *mt = s.model; if (!cur) mt->set(v, (uint8_t)T.first()); }
			if (mf) { *mf = s.model; if (cur) mf->set(v, (uint8_t)F.first()); }
			return 3;
		}
	} else { int r = decideFlat(s, c, mt, mf); if (r) return r; }
	bool cur = evalE(c, s.model);
	if (cur) { if (mt) *mt = s.model; Z3_lbool r = solve(s, mkNot(c), mf); return r == Z3_L_TRUE ? 3 : 1; }
	if (mf) *mf = s.model; Z3_lbool r = solve(s, c, mt); return r == Z3_L_TRUE ? 3 : 2;
}
static void constrain(State& s, E c) {
	if (isC(c)) return;
	if (c->op == Op::And) { if (c->sup == -2) { constrain(s, c->k[0]); constrain(s, c->k[1]); return; } }
	if (c->op == Op::Not && c->sup == -2 && c->k[0]->op == Op::Or) { constrain(s, mkNot(c->k[0]->k[0])); constrain(s, mkNot(c->k[0]->k[1])); return; }
	c = specialise(s, c); if (isC(c)) return;
	if (c->sup >= 0) { s.dom[c->sup] = s.dom[c->sup] & bitsOf(c); return; }
	for (E e : s.multi) if (e == c) return;
	s.multi.push_back(c); for (int v : *c->vars) s.ent[v] = 1;
}

// ---------------------------------------------------------------- globals
static LLVMContext* LC; static Module* M; static const DataLayout* DL;
static std::map<std::string, Fn*> fnByName; static std::unordered_map<const Function*, Fn*> fnOf; static std::vector<Fn*> fns;
static std::unordered_map<uint64_t, Fn*> fnByAddr; static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, std::string> vtName; // abi vtables
static std::map<std::string, Native> natives;
static std::vector<State*> stk;  // pending states
static std::map<uint64_t,int> typeIds;
static int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[ti] = n; return n; }
static bool optForkOff = false;

static std::string locOf(const Instruction* i) {
	if (!i) return "?"; std::string r;
	if (DILocation* d = i->getDebugLoc()) { std::string f = d->getFilename().str(); size_t p = f.rfind('/'); char b[64]; snprintf(b, 64, ":%u", d->getLine()); r = (p == std::string::npos ? f : f.substr(p + 1)) + b; } else r = "?";
	return r;
}
static std::string backtrace(State& s) {
	std::string r;
	for (int i = (int)s.fr.size() - 1, n = 0; i >= 0 && n < 14; i--, n++) { Frame& f = s.fr[i]; int pc = f.pc; if (pc >= (int)f.fn->code.size()) pc = (int)f.fn->code.size() - 1; if (pc >= 0 && f.fn->decoded) r += "    " + f.fn->name + " at " + locOf(f.fn->code[pc].ll) + "\n"; }
	return r;
}
static std::string hex(const std::vector<uint8_t>& v) { static const char* d = "0123456789abcdef"; std::string r; for (auto b : v) { r += d[b >> 4]; r += d[b & 15]; } return r; }
static std::string inputsText(State& s, const Model& m) {
	std::string r;
	for (auto& i : s.inputs) {
		std::vector<uint8_t> b;
		if (i.var0 >= 0) for (int k = 0; k < i.n; k++) b.push_back(m.get(i.var0 + k)); else for (int k = 0; k < 8; k++) b.push_back((uint8_t)(i.val >> (8 * k)));
		char o[16]; snprintf(o, 16, " %d ", i.occ); r += "in " + i.name + o + hex(b) + "\n";
	}
	return r;
}
static void writeFile(const std::string& p, const std::string& t) { FILE* f = fopen(p.c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } }
static std::set<std::string> g_seenViol;
static void report(State& s, const char* kind, const std::string& msg, const Model& m) {
	std::string site = std::string(kind) + "|" + msg; bool uns = !strcmp(kind, "unsupported");
	std::string key = site; if (!s.fr.empty() && s.fr.back().fn->decoded) key += locOf(s.fr.back().fn->code[std::min<size_t>(s.fr.back().pc, s.fr.back().fn->code.size() - 1)].ll);
	if (uns) { add(SH->unsupported); if (g_seenViol.insert(key).second) fprintf(stderr, "UNSUPPORTED %s\n%s", msg.c_str(), backtrace(s).c_str()); return; }
	uint64_t n = __atomic_fetch_add(&SH->viol, 1, __ATOMIC_RELAXED);
	if (!n) SH->firstViol = now();
	if (!g_seenViol.insert(key).second && n > 2) return;
	char fn[64]; snprintf(fn, 64, "/viol-%03d.case", __atomic_fetch_add(&SH->nextFile, 1, __ATOMIC_RELAXED));
	writeFile(optOut + fn, std::string("kind ") + kind + "\nmsg " + msg + "\n" + inputsText(s, m) + "bt\n" + backtrace(s));
	if ((int)n + 1 >= optMaxViol) __atomic_store_n(&SH->stop, 1, __ATOMIC_RELAXED);
}
static Res fail(State& s, const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
static Res fail(State& s, const char* kind, const char* fmt, ...) { char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, 600, fmt, a); va_end(a); report(s, kind, b, s.model); return R_KILL; }

static State* forkState(State& s) { add(SH->forks); State* n = new State(s); n->depth++; s.depth++; return n; }

// Make v concrete; other feasible values are explored by states that re-execute the instruction.
static bool concretize(State& s, Val& v, int w) {
	if (!v.e) return true;
	E c = specialise(s, v.e); if (isC(c)) { v = VC(c->c); return true; }
	{ Frame& f = s.fr.back(); if (s.concPc == f.pc && s.concFn == f.fn) { if (++s.concN > 600) { fail(s, "unsupported", "more than 600 values for one address or size"); s.concN = 0; } } else { s.concPc = f.pc; s.concFn = f.fn; s.concN = 0; } }
	uint64_t x = evalE(c, s.model); E eq = mkEq(c, mkConst(w, x)); Model mf; E q = eq;
	int d = decide(s, q, nullptr, &mf);
	if (d & 2) { State* o = forkState(s); o->model = mf; constrain(*o, mkNot(q)); stk.push_back(o); }
	constrain(s, q); v = VC(x); return true;
}

// ---------------------------------------------------------------- memory access
static bool g_atomic = false;
static bool guarded(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { for (uint64_t x : a) for (uint64_t y : b) if ((x & ~1ull) == (y & ~1ull) && !((x & 1) && (y & 1))) return true; return false; }
// two threads in the same operation: every pair of accesses seen so far can meet, unless a lock, an atomic or a once-only initialisation orders them
static bool raceCheck(State& s, uint64_t addr, Obj* o, uint32_t off, uint32_t n, bool write) {
	bool heap = o->kind == KMalloc || o->kind == KNew || o->kind == KNewArr; if (!(o->watch || (heap && o->epoch < s.epoch)) || s.guard || !n) return true;
	Acc x{addr >> 32, off, n, (uint8_t)((write ? 1 : 0) | (g_atomic ? 2 : 0)), s.locks}; if (!s.shared.insert(x).second) return true;
	for (auto it = s.shared.lower_bound(Acc{x.obj, 0, 0, 0, {}}); it != s.shared.end() && it->obj == x.obj; ++it) {
		if (it->off >= off + n || off >= it->off + it->n || !((it->kind | x.kind) & 1) || (it->kind & x.kind & 2) || guarded(it->locks, x.locks)) continue;
		fail(s, "race", "unsynchronised %s of %s that other threads use", write ? "write" : it->kind & 1 ? "read" : "access", heap ? "a shared heap object" : "a static variable"); return false;
	}
	return true;
}
static Obj* access(State& s, uint64_t addr, uint64_t n, bool write, uint32_t& off) {
	Slot* sl = s.find(addr); const char* what = write ? "write" : "read";
	if (!sl) { if ((addr >> 32) == 0 || addr < 4096) fail(s, "memory", "null-pointer %s of %llu bytes", what, (unsigned long long)n); else fail(s, "memory", "wild %s of %llu bytes", what, (unsigned long long)n); return nullptr; }
	if ((sl->gen & 0xfff) != (addr >> 51) || !sl->o) { fail(s, "memory", "%s through a dangling pointer (object released)", what); return nullptr; }
	Obj* o = sl->o; int64_t of = (int64_t)(addr & 0xffffffffu) - (int64_t)BASE;
	if (o->kind == KFunc) { fail(s, "memory", "%s of a function", what); return nullptr; }
	if (of < 0 || of + (int64_t)n > (int64_t)o->size) { fail(s, "memory", "out-of-bounds %s of %llu bytes at offset %lld of a %s object of %u bytes", what, (unsigned long long)n, (long long)of, kindName[o->kind], o->size); return nullptr; }
	off = (uint32_t)of; if (s.epoch && !raceCheck(s, addr, o, off, (uint32_t)n, write)) return nullptr;
	if (write) { if (o->kind == KConst) { fail(s, "memory", "write to constant memory"); return nullptr; } o = s.wobj((addr >> 32) & 0x7ffff); }
	return o;
}
static Val loadObj(Obj* o, uint32_t off, int w) {
	int nb = (w + 7) / 8;
	if (o->sym) {
		bool any = false; for (int i = 0; i < nb; i++) if (o->sym[off + i]) { any = true; break; }
		if (any) { E r = nullptr; for (int i = 0; i < nb; i++) { E b = o->sym[off + i] ? o->sym[off + i] : mkConst(8, o->data[off + i]); r = r ? mkCat(b, r) : b; } if (w < nb * 8) r = mkX(r, 0, w); return VE(r); }
	}
	uint64_t v = 0; memcpy(&v, o->data + off, nb); return VC(v & maskw(w));
}
static void storeObj(Obj* o, uint32_t off, int w, const Val& v) {
	int nb = (w + 7) / 8;
	if (!v.e) { memcpy(o->data + off, &v.c, nb); if (o->sym) for (int i = 0; i < nb; i++) o->sym[off + i] = nullptr; return; }
	if (!o->sym) { o->sym = (E*)calloc(o->size ? o->size : 1, sizeof(E)); }
	E e = v.e; if (w < nb * 8) e = mkZ(e, nb * 8);
	for (int i = 0; i < nb; i++) { E b = mkX(e, 8 * i, 8); if (isC(b)) { o->sym[off + i] = nullptr; o->data[off + i] = (uint8_t)b->c; } else o->sym[off + i] = b; }
}
static Val byteAt(Obj* o, uint32_t off) { if (o->sym && o->sym[off]) return Val{0, o->sym[off]}; return VC(o->data[off]); }
static void setByte(Obj* o, uint32_t off, const Val& v) { storeObj(o, off, 8, v); }
// symbolic load address: try to build a lookup table over the single variable the address depends on
static bool tableLoad(State& s, const Val& a, int w, Val& out) {
	if (!a.e) return false;
	if (a.e->sup < 0) { // base + scale * idx with idx over several variables and below 256
		E x = a.e; std::vector<uint64_t> ad; E idx = nullptr;
		if (x->op == Op::Lut) { ad = lutOf(x); idx = x->k[0]; }
		else {
			uint64_t add = 0; int sh = 0; if (x->op == Op::Add && isC(x->k[1])) { add = x->k[1]->c; x = x->k[0]; } if (x->op == Op::Concat && isC(x->k[1], 0)) { sh = x->k[1]->w; x = x->k[0]; }
			else if (x->op == Op::ZExt && x->k[0]->op == Op::Concat && isC(x->k[0]->k[1], 0)) { sh = x->k[0]->k[1]->w; x = x->k[0]->k[0]; }
			while (x->op == Op::ZExt || (x->op == Op::SExt && umax(x->k[0]) <= (maskw(x->k[0]->w) >> 1))) x = x->k[0];
			uint64_t u = umax(x); if (u > 255) return false; idx = x->w == 8 ? x : x->w < 8 ? mkZ(x, 8) : mkX(x, 0, 8); for (uint64_t i = 0; i <= u; i++) ad.push_back(add + (i << sh)); }
		std::vector<uint64_t> t; int nb = (w + 7) / 8; for (uint64_t d : ad) { Slot* sl = s.find(d); if (!sl || !sl->o || (sl->gen & 0xfff) != (d >> 51) || sl->o->kind == KFunc || (d >> 32) != (ad[0] >> 32)) return false;
			Obj* o = sl->o; int64_t of = (int64_t)(d & 0xffffffffu) - (int64_t)BASE; if (of < 0 || of + nb > (int64_t)o->size) return false; if (o->sym) for (int k = 0; k < nb; k++) if (o->sym[of + k]) return false; t.push_back(loadObj(o, (uint32_t)of, w).c); }
		E r = mkLut(idx, w, std::move(t)); out = isC(r) ? VC(r->c) : VE(r); return true;
	}
	int v = a.e->sup; uint64_t t[256]; uint64_t any = 0; bool have = false; int nb = (w + 7) / 8; uint64_t obj = 0;
	for (int i = 0; i < 256; i++) if (s.dom[v].get(i)) {
		uint64_t ad = tabAt(a.e, i); Slot* sl = s.find(ad); if (!sl || !sl->o || (sl->gen & 0xfff) != (ad >> 51) || sl->o->kind == KFunc) return false;
		if (have && (ad >> 32) != obj) return false;
		obj = ad >> 32; Obj* o = sl->o; int64_t of = (int64_t)(ad & 0xffffffffu) - (int64_t)BASE; if (of < 0 || of + nb > (int64_t)o->size) return false;
		if (o->sym) for (int k = 0; k < nb; k++) if (o->sym[of + k]) return false;
		t[i] = loadObj(o, (uint32_t)of, w).c; any = t[i]; have = true;
	}
	if (!have) return false;
	for (int i = 0; i < 256; i++) if (!s.dom[v].get(i)) t[i] = any;
	out = VE(mkTable(v, w, t)); return true;
}

// ---------------------------------------------------------------- decoding
static int slotsOf(Type* t) {
	if (t->isVoidTy()) return 0;
	if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : st->elements()) n += slotsOf(e); return n; }
	if (auto* at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * slotsOf(at->getElementType());
	return 1;
}
static bool scalarOk(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64; return t->isPointerTy() || t->isFloatTy() || t->isDoubleTy(); }
static int widthOf(Type* t) { if (t->isIntegerTy()) return (int)t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; return 64; }
static void flat(Type* t, uint64_t off, std::vector<std::pair<uint64_t,int>>& out, bool& ok) {
	if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out, ok); return; }
	if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out, ok); return; }
	if (!scalarOk(t)) ok = false;
	out.push_back({off, widthOf(t)});
}
static uint64_t constVal(const Constant* c, bool& ok) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
	if (auto* gv = dyn_cast<GlobalValue>(c)) { if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee(), ok); auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second; ok = false; return 0; }
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { ok = false; return 0; } return constVal(ce->getOperand(0), ok) + off.getZExtValue(); }
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(ce->getOperand(0), ok);
		case Instruction::Sub: return constVal(ce->getOperand(0), ok) - constVal(ce->getOperand(1), ok);
		case Instruction::Add: return constVal(ce->getOperand(0), ok) + constVal(ce->getOperand(1), ok);
		case Instruction::Trunc: return constVal(ce->getOperand(0), ok) & maskw(widthOf(ce->getType()));
		case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0), ok), b = constVal(ce->getOperand(1), ok); if (ce->getPredicate() == CmpInst::ICMP_EQ) return a == b; if (ce->getPredicate() == CmpInst::ICMP_NE) return a != b; ok = false; return 0; }
		default: ok = false; return 0;
		}
	}
	ok = false; return 0;
}
static void constSlots(const Constant* c, std::vector<uint64_t>& out, bool& ok) {
	Type* t = c->getType();
	if (t->isStructTy() || t->isArrayTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); if (!e) { ok = false; return; } constSlots(e, out, ok); }
		return;
	}
	out.push_back(constVal(c, ok));
}
static int aggIndex(Type* t, ArrayRef<unsigned> idx, Type** res) {
	int off = 0;
	for (unsigned i : idx) {
		if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += slotsOf(st->getElementType(k)); t = st->getElementType(i); }
		else { auto* at = cast<ArrayType>(t); off += (int)i * slotsOf(at->getElementType()); t = at->getElementType(); }
	}
	*res = t; return off;
}
struct Decoder {
	Fn* fn; std::unordered_map<const Value*, int> slot; bool bad = false;
	std::vector<Opnd> ops(const Value* v) {
		std::vector<Opnd> r; int n = slotsOf(v->getType());
		if (auto* c = dyn_cast<Constant>(v)) { bool ok = true; std::vector<uint64_t> cs; constSlots(c, cs, ok); if (!ok) bad = true; for (auto x : cs) r.push_back(Opnd{-1, x}); while ((int)r.size() < n) r.push_back(Opnd{-1, 0}); return r; }
		auto it = slot.find(v); if (it == slot.end()) { bad = true; for (int i = 0; i < n; i++) r.push_back(Opnd{-1, 0}); return r; }
		for (int i = 0; i < n; i++) r.push_back(Opnd{it->second + i, 0}); return r;
	}
	Opnd op(const Value* v) { auto r = ops(v); if (r.empty()) { bad = true; return Opnd{-1, 0}; } return r[0]; }
};
static void registerFn(const Function* f);
static void decode(Fn* fn) {
	fn->decoded = true; const Function* f = fn->f; Decoder D; D.fn = fn; int n = 0;
	for (auto& a : f->args()) { D.slot[&a] = n; fn->argSlots.push_back(n); n += slotsOf(a.getType()); }
	for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) { D.slot[&i] = n; n += slotsOf(i.getType()); }
	fn->nregs = n;
	std::unordered_map<const BasicBlock*, int> pcOf; int pc = 0;
	for (auto& bb : *f) { pcOf[&bb] = pc; for (auto& i : bb) { if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue; pc++; } }
	auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
		Edge* e = new Edge; e->pc = pcOf[to];
		for (auto& ph : to->phis()) { auto src = D.ops(ph.getIncomingValueForBlock(from)); int d = D.slot[&ph]; for (size_t k = 0; k < src.size(); k++) e->copies.push_back(Copy{d + (int)k, src[k]}); }
		e->simple = true; std::set<int> dsts; for (auto& c : e->copies) { if (c.src.r >= 0 && dsts.count(c.src.r)) e->simple = false; dsts.insert(c.dst); }
		return e;
	};
	for (auto& bb : *f) for (auto& I : bb) {
		if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
		Inst in{}; in.ll = &I; in.dst = I.getType()->isVoidTy() ? -1 : D.slot[&I]; D.bad = false; in.op = IUnsup;
		Type* T = I.getType();
		auto un = [&](const char*) { in.op = IUnsup; };
		switch (I.getOpcode()) {
		case Instruction::Add: in.op = IAdd; goto bin; case Instruction::Sub: in.op = ISub; goto bin; case Instruction::Mul: in.op = IMul; goto bin;
		case Instruction::UDiv: in.op = IUDiv; goto bin; case Instruction::SDiv: in.op = ISDiv; goto bin; case Instruction::URem: in.op = IURem; goto bin; case Instruction::SRem: in.op = ISRem; goto bin;
		case Instruction::And: in.op = IAnd; goto bin; case Instruction::Or: in.op = IOr; goto bin; case Instruction::Xor: in.op = IXor; goto bin;
		case Instruction::Shl: in.op = IShl; goto bin; case Instruction::LShr: in.op = ILShr; goto bin; case Instruction::AShr: in.op = IAShr; goto bin;
		bin: if (!scalarOk(T)) { un("type"); break; } in.w = widthOf(T); in.a = D.op(I.getOperand(0)); in.b = D.op(I.getOperand(1)); break;
		case Instruction::ICmp: {
			auto& c = cast<ICmpInst>(I); Type* ot = c.getOperand(0)->getType(); if (!scalarOk(ot)) { un("cmp"); break; }
			in.w = widthOf(ot); in.a = D.op(c.getOperand(0)); in.b = D.op(c.getOperand(1));
			switch (c.getPredicate()) { case CmpInst::ICMP_EQ: in.op = IEq; break; case CmpInst::ICMP_NE: in.op = INe; break; case CmpInst::ICMP_UGT: in.op = IUgt; break; case CmpInst::ICMP_UGE: in.op = IUge; break; case CmpInst::ICMP_ULT: in.op = IUlt; break; case CmpInst::ICMP_ULE: in.op = IUle; break; case CmpInst::ICMP_SGT: in.op = ISgt; break; case CmpInst::ICMP_SGE: in.op = ISge; break; case CmpInst::ICMP_SLT: in.op = ISlt; break; default: in.op = ISle; break; }
			break; }
		case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
			if (!scalarOk(T) || !scalarOk(I.getOperand(0)->getType())) { un("cast"); break; }
			in.op = I.getOpcode() == Instruction::Trunc ? ITrunc : I.getOpcode() == Instruction::ZExt ? IZExt : ISExt; in.w = widthOf(T); in.w2 = widthOf(I.getOperand(0)->getType()); in.a = D.op(I.getOperand(0)); break;
		case Instruction::PtrToInt: case Instruction::IntToPtr: { in.a = D.op(I.getOperand(0)); int a = widthOf(I.getOperand(0)->getType()), b = widthOf(T); in.w = b; in.w2 = a; in.op = a == b ? ICopy : a > b ? ITrunc : IZExt; in.n = 1; break; }
		case Instruction::BitCast: if (!scalarOk(T) || !scalarOk(I.getOperand(0)->getType())) { un("bitcast"); break; } in.op = ICopy; in.a = D.op(I.getOperand(0)); in.n = 1; break;
		case Instruction::Freeze: in.op = ICopy; in.args = D.ops(I.getOperand(0)); in.a = in.args.empty() ? Opnd{-1, 0} : in.args[0]; in.n = (int)in.args.size(); break;
		case Instruction::Select: in.op = ISelect; in.a = D.op(I.getOperand(0)); { auto x = D.ops(I.getOperand(1)), y = D.ops(I.getOperand(2)); in.n = (int)x.size(); in.args = x; in.args.insert(in.args.end(), y.begin(), y.end()); bool ok = true; std::vector<std::pair<uint64_t,int>> fl; flat(T, 0, fl, ok); if (!ok) un("sel"); for (auto& p : fl) in.scale.push_back(p.second); } break;
		case Instruction::Load: case Instruction::Store: {
			bool ld = I.getOpcode() == Instruction::Load; Type* vt = ld ? T : I.getOperand(0)->getType(); bool ok = true; std::vector<std::pair<uint64_t,int>> fl; flat(vt, 0, fl, ok); if (!ok) { un("mem"); break; } in.sub = I.isAtomic();
			in.op = ld ? ILoad : IStore; in.a = D.op(ld ? I.getOperand(0) : I.getOperand(1)); if (!ld) in.args = D.ops(I.getOperand(0)); in.n = (int)fl.size(); in.w = fl.empty() ? 8 : fl[0].second;
			for (auto& p : fl) { in.scale.push_back((int64_t)p.first); in.cases.push_back(p.second); } break; }
		case Instruction::GetElementPtr: {
			auto& g = cast<GetElementPtrInst>(I); if (T->isVectorTy()) { un("gepv"); break; }
			in.op = IGep; in.a = D.op(g.getPointerOperand()); uint64_t off = 0;
			for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
				Value* ix = gi.getOperand();
				if (StructType* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
				uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
				if (auto* ci = dyn_cast<ConstantInt>(ix)) off += (uint64_t)ci->getSExtValue() * es;
				else { in.args.push_back(D.op(ix)); in.scale.push_back((int64_t)es); in.cases.push_back(widthOf(ix->getType())); }
			}
			in.c.c = off; break; }
		case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); in.op = IAlloca; in.a = D.op(a.getArraySize()); in.c.c = DL->getTypeAllocSize(a.getAllocatedType()); break; }
		case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isUnconditional()) { in.op = IBr; in.e0 = mkEdge(&bb, b.getSuccessor(0)); } else { in.op = ICondBr; in.a = D.op(b.getCondition()); in.e0 = mkEdge(&bb, b.getSuccessor(0)); in.e1 = mkEdge(&bb, b.getSuccessor(1)); } break; }
		case Instruction::Switch: {
			auto& sw = cast<SwitchInst>(I); in.op = ISwitch; in.a = D.op(sw.getCondition()); in.w = widthOf(sw.getCondition()->getType()); if (!scalarOk(sw.getCondition()->getType())) { un("sw"); break; }
			std::map<const BasicBlock*, int> em; auto ed = [&](const BasicBlock* t) { auto it = em.find(t); if (it != em.end()) return it->second; in.edges.push_back(mkEdge(&bb, t)); int k = (int)in.edges.size() - 1; em[t] = k; return k; };
			in.n = ed(sw.getDefaultDest()); for (auto& c : sw.cases()) { in.cases.push_back(c.getCaseValue()->getZExtValue()); in.caseEdge.push_back(ed(c.getCaseSuccessor())); } break; }
		case Instruction::Ret: in.op = IRet; if (I.getNumOperands()) in.args = D.ops(I.getOperand(0)); break;
		case Instruction::Unreachable: in.op = IUnreachable; break;
		case Instruction::Resume: in.op = IResume; in.args = D.ops(I.getOperand(0)); break;
		case Instruction::LandingPad: in.op = ILandingPad; break;
		case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); Type* rt; int o = aggIndex(e.getAggregateOperand()->getType(), e.getIndices(), &rt); auto v = D.ops(e.getAggregateOperand()); in.op = IExtractVal; in.n = slotsOf(rt); in.args.assign(v.begin() + o, v.begin() + o + in.n); break; }
		case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); Type* rt; int o = aggIndex(e.getAggregateOperand()->getType(), e.getIndices(), &rt); auto v = D.ops(e.getAggregateOperand()); auto x = D.ops(e.getInsertedValueOperand()); for (size_t k = 0; k < x.size(); k++) v[o + k] = x[k]; in.op = IExtractVal; in.n = (int)v.size(); in.args = v; break; }
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: if (!scalarOk(T)) { un("f"); break; } in.op = IFBin; in.sub = (uint8_t)(I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3); in.w = widthOf(T); in.a = D.op(I.getOperand(0)); in.b = D.op(I.getOperand(1)); break;
		case Instruction::FCmp: in.op = IFCmp; in.sub = (uint8_t)cast<FCmpInst>(I).getPredicate(); in.w = widthOf(I.getOperand(0)->getType()); in.a = D.op(I.getOperand(0)); in.b = D.op(I.getOperand(1)); break;
		case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: in.op = IFCast; in.sub = (uint8_t)(I.getOpcode() == Instruction::UIToFP ? 0 : I.getOpcode() == Instruction::SIToFP ? 1 : I.getOpcode() == Instruction::FPToUI ? 2 : I.getOpcode() == Instruction::FPToSI ? 3 : 4); in.w = widthOf(T); in.w2 = widthOf(I.getOperand(0)->getType()); in.a = D.op(I.getOperand(0)); break;
		case Instruction::Fence: in.op = INop; break;
		case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(I); in.op = IAtomicRMW; in.sub = (uint8_t)a.getOperation(); in.w = widthOf(T); in.a = D.op(a.getPointerOperand()); in.b = D.op(a.getValOperand()); break; }
		case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(I); in.op = ICmpXchg; in.w = widthOf(a.getCompareOperand()->getType()); in.a = D.op(a.getPointerOperand()); in.b = D.op(a.getCompareOperand()); in.c = D.op(a.getNewValOperand()); break; }
		case Instruction::Call: case Instruction::Invoke: {
			auto& cb = cast<CallBase>(I); in.op = ICall; in.n = slotsOf(T);
			const Value* cv = cb.getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
			in.callee = dyn_cast<Function>(cv); bool skip = false;
			if (in.callee && in.callee->isIntrinsic()) {
				Intrinsic::ID id = in.callee->getIntrinsicID(); in.w = widthOf(T);
				switch (id) {
				case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: in.op = INop; skip = true; break;
				case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: in.op = ICopy; in.n = 1; in.a = D.op(cb.getArgOperand(0)); skip = true; break;
				case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: in.op = IMinMax; in.sub = id == Intrinsic::umin ? 0 : id == Intrinsic::umax ? 1 : id == Intrinsic::smin ? 2 : 3; in.a = D.op(cb.getArgOperand(0)); in.b = D.op(cb.getArgOperand(1)); skip = true; break;
				case Intrinsic::usub_sat: case Intrinsic::uadd_sat: in.op = IMinMax; in.sub = id == Intrinsic::usub_sat ? 4 : 5; in.a = D.op(cb.getArgOperand(0)); in.b = D.op(cb.getArgOperand(1)); skip = true; break;
				case Intrinsic::abs: in.op = IAbs; in.a = D.op(cb.getArgOperand(0)); skip = true; break;
				case Intrinsic::bswap: in.op = IBswap; in.a = D.op(cb.getArgOperand(0)); skip = true; break;
				case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: in.op = ICtz; in.sub = id == Intrinsic::ctlz ? 0 : id == Intrinsic::cttz ? 1 : 2; in.a = D.op(cb.getArgOperand(0)); skip = true; break;
				case Intrinsic::fshl: case Intrinsic::fshr: in.op = IMinMax; in.sub = id == Intrinsic::fshl ? 6 : 7; in.a = D.op(cb.getArgOperand(0)); in.b = D.op(cb.getArgOperand(1)); in.c = D.op(cb.getArgOperand(2)); skip = true; break;
				case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow:
					in.op = IOvf; in.sub = id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::uadd_with_overflow ? 1 : id == Intrinsic::ssub_with_overflow ? 2 : id == Intrinsic::usub_with_overflow ? 3 : id == Intrinsic::smul_with_overflow ? 4 : 5;
					in.w = widthOf(cb.getArgOperand(0)->getType()); in.a = D.op(cb.getArgOperand(0)); in.b = D.op(cb.getArgOperand(1)); skip = true; break;
				case Intrinsic::objectsize: in.op = ICopy; in.n = 1; in.a = Opnd{-1, ~0ull}; skip = true; break;
				case Intrinsic::is_constant: in.op = ICopy; in.n = 1; in.a = Opnd{-1, 0}; skip = true; break;
				case Intrinsic::eh_typeid_for: case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: case Intrinsic::vastart: case Intrinsic::vacopy: case Intrinsic::stacksave: case Intrinsic::stackrestore: break;
				default: break;
				}
			}
			if (skip) { if (D.bad) in.op = IUnsup; break; }
			if (!in.callee) in.a = D.op(cb.getCalledOperand());
			for (unsigned k = 0; k < cb.arg_size(); k++) {
				Value* av = cb.getArgOperand(k);
				if (av->getType()->isMetadataTy()) { in.args.push_back(Opnd{-1, 0}); in.byval.push_back(0); continue; }
				auto o = D.ops(av); for (auto& x : o) { in.args.push_back(x); in.byval.push_back(0); }
				if (cb.isByValArgument(k) && !o.empty()) in.byval.back() = (int)DL->getTypeAllocSize(cb.getParamByValType(k));
			}
			if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.e0 = mkEdge(&bb, iv->getNormalDest()); in.e1 = mkEdge(&bb, iv->getUnwindDest()); }
			if (in.callee) { auto it = fnOf.find(in.callee); if (it != fnOf.end()) in.fn = it->second; }
			break; }
		default: break;
		}
		if (D.bad) in.op = IUnsup;
		fn->code.push_back(std::move(in));
	}
}
static Fn* mkFn(const Function* f) {
	Fn* fn = new Fn; fn->f = f; fn->name = f->getName().str(); fn->id = (int)fns.size(); fn->hasBody = !f->isDeclaration(); fns.push_back(fn); fnOf[f] = fn; fnByName[fn->name] = fn;
	auto it = natives.find(fn->name); if (it != natives.end()) fn->nat = it->second;
	if (DISubprogram* sp = f->getSubprogram()) { std::string p = sp->getFile() ? (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str() : ""; if (p.find("/repo/") != std::string::npos) fn->repo = true; }
	return fn;
}

// ---------------------------------------------------------------- global memory
static void initGlobal(State& s, Obj* o, uint64_t off, const Constant* c) {
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
	if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, o, off + i * es, ca->getOperand(i)); return; }
	if (auto* cs = dyn_cast<ConstantStruct>(c)) { const StructLayout* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(s, o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
	bool ok = true; uint64_t v = constVal(c, ok); if (!ok) { fprintf(stderr, "symx: unsupported initialiser\n"); return; }
	memcpy(o->data + off, &v, DL->getTypeStoreSize(c->getType()));
}
static void initMemory(State& s) {
	{ Chunk* c = (Chunk*)calloc(1, sizeof(Chunk)); c->rc = 1; s.chunks.push_back(c); }
	for (auto& f : *M) { if (f.isIntrinsic()) { mkFn(&f); continue; } Fn* fn = mkFn(&f); uint64_t a = s.alloc(1, KFunc); gaddr[&f] = a; fnByAddr[a] = fn; }
	for (auto& g : M->globals()) { Type* t = g.getValueType(); uint64_t sz = t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 64; if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256); uint64_t a = s.alloc((uint32_t)sz, g.isConstant() && !g.isDeclaration() ? KConst : KGlobal, 0); gaddr[&g] = a; if ((g.hasAttribute("bss-section") || g.hasAttribute("data-section")) && !g.isThreadLocal() && g.getName().substr(0, 4) != "_ZGV") s.wobj((a >> 32) & 0x7ffff)->watch = 1; std::string n = g.getName().str(); if (n.compare(0, 20, "_ZTVN10__cxxabiv1") == 0 || n.find("__cxxabiv1") != std::string::npos) vtName[a] = n; }
	for (auto& g : M->globals()) if (g.hasInitializer()) { Obj* o = s.wobj((gaddr[&g] >> 32) & 0x7ffff); initGlobal(s, o, 0, g.getInitializer()); }
}

// ---------------------------------------------------------------- exceptions
static uint64_t rd64(State& s, uint64_t a, bool& ok) { uint32_t off; Slot* sl = s.find(a); if (!sl || !sl->o) { ok = false; return 0; } int64_t of = (int64_t)(a & 0xffffffff) - (int64_t)BASE; if (of < 0 || of + 8 > (int64_t)sl->o->size) { ok = false; return 0; } off = (uint32_t)of; uint64_t v; memcpy(&v, sl->o->data + off, 8); return v; }
static bool tiMatch(State& s, uint64_t thrown, uint64_t want) {
	if (thrown == want) return true;
	bool ok = true; uint64_t vp = rd64(s, thrown, ok); if (!ok) return false;
	uint64_t n1 = rd64(s, thrown + 8, ok), n2 = rd64(s, want + 8, ok); if (n1 == n2) return true;
	auto it = vtName.find((vp & ~0xffffffffull) | BASE); if (it == vtName.end()) return false;
	if (it->second.find("__si_class") != std::string::npos) return tiMatch(s, rd64(s, thrown + 16, ok), want);
	if (it->second.find("__vmi_class") != std::string::npos) { uint64_t cnt = rd64(s, thrown + 16, ok) >> 32; for (uint64_t i = 0; i < cnt; i++) if (tiMatch(s, rd64(s, thrown + 24 + 16 * i, ok), want)) return true; }
	return false;
}
static uint64_t clauseTI(const Value* v) { bool ok = true; uint64_t a = constVal(cast<Constant>(v), ok); return a; }
// returns selector >=0 when the landing pad is to be entered, -1 otherwise; handler set when it is a catch
static int padSelector(State& s, const LandingPadInst* lp, uint64_t ti, bool& handler) {
	handler = false;
	for (unsigned i = 0; i < lp->getNumClauses(); i++) {
		if (lp->isCatch(i)) { uint64_t w = clauseTI(lp->getClause(i)); if (!w || tiMatch(s, ti, w)) { handler = true; return typeId(w); } }
		else { const Constant* arr = lp->getClause(i); bool in = false; unsigned n = (unsigned)cast<ArrayType>(arr->getType())->getNumElements(); for (unsigned k = 0; k < n; k++) { uint64_t w = clauseTI(arr->getAggregateElement(k)); if (!w || tiMatch(s, ti, w)) in = true; } if (!in) { handler = true; return -1000 - (int)i; } }
	}
	return lp->isCleanup() ? 0 : -1;
}
static void takeEdge(State& s, Frame& f, Edge* e) {
	if (!e->copies.empty()) {
		Val* R = &s.regs[f.base];
		if (e->simple) { for (auto& c : e->copies) R[c.dst] = c.src.r >= 0 ? R[c.src.r] : VC(c.src.c); }
		else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e->copies.size() > 64) { big.resize(e->copies.size()); t = big.data(); } int i = 0; for (auto& c : e->copies) t[i++] = c.src.r >= 0 ? R[c.src.r] : VC(c.src.c); i = 0; for (auto& c : e->copies) R[c.dst] = t[i++]; }
	}
	f.pc = e->pc;
}
static void popFrame(State& s) { Frame& f = s.fr.back(); s.freeFrame(f); s.regs.resize(f.base); s.fr.pop_back(); }
// the top frame is the one whose call raised (already popped the native/raiser); its pc is at the call instruction
static Res unwind(State& s, uint64_t exn, uint64_t ti) {
	// phase 1: is there a handler?
	bool found = false;
	for (int i = (int)s.fr.size() - 1; i >= 0 && !found; i--) { Frame& f = s.fr[i]; Inst& in = f.fn->code[f.pc]; if (in.op == ICall && in.e1) { const Instruction* ll = in.ll; auto* lp = cast<InvokeInst>(ll)->getLandingPadInst(); bool h; padSelector(s, lp, ti, h); if (h) found = true; } else if (f.fn->f->doesNotThrow() && 0) break; }
	if (!found) { bool ok = true; uint64_t np = rd64(s, ti + 8, ok); std::string nm; Slot* sl = ok ? s.find(np) : nullptr; if (sl && sl->o) nm = (char*)sl->o->data; return fail(s, "exception", "uncaught exception of type %s", nm.c_str()); }
	while (!s.fr.empty()) {
		Frame& f = s.fr.back(); Inst& in = f.fn->code[f.pc];
		if (in.op == ICall && in.e1) {
			auto* lp = cast<InvokeInst>(in.ll)->getLandingPadInst(); bool h; int sel = padSelector(s, lp, ti, h);
			if (sel != -1) {
				takeEdge(s, f, in.e1); Inst& l = f.fn->code[f.pc]; if (l.op != ILandingPad) return fail(s, "unsupported", "landing pad");
				s.regs[f.base + l.dst] = VC(exn); s.regs[f.base + l.dst + 1] = VC((uint64_t)(uint32_t)sel); f.pc++; return R_STAY;
			}
		}
		popFrame(s);
	}
	return fail(s, "exception", "uncaught exception");
}

// ---------------------------------------------------------------- binary operations on values
static inline Val rd(State& s, uint32_t base, const Opnd& o) { return o.r >= 0 ? s.regs[base + o.r] : VC(o.c); }
static const Op opMap[] = {Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr};
static E cmpE(IOp op, E a, E b) {
	switch (op) {
	case IEq: return mkEq(a, b); case INe: return mkNot(mkEq(a, b));
	case IUlt: return mk(Op::Ult, 1, a, b); case IUle: return mk(Op::Ule, 1, a, b); case IUgt: return mk(Op::Ult, 1, b, a); case IUge: return mk(Op::Ule, 1, b, a);
	case ISlt: return mk(Op::Slt, 1, a, b); case ISle: return mk(Op::Sle, 1, a, b); case ISgt: return mk(Op::Slt, 1, b, a); default: return mk(Op::Sle, 1, b, a);
	}
}
static bool cmpC(IOp op, uint64_t a, uint64_t b, int w) {
	switch (op) {
	case IEq: return a == b; case INe: return a != b; case IUlt: return a < b; case IUle: return a <= b; case IUgt: return a > b; case IUge: return a >= b;
	case ISlt: return sextw(a, w) < sextw(b, w); case ISle: return sextw(a, w) <= sextw(b, w); case ISgt: return sextw(a, w) > sextw(b, w); default: return sextw(a, w) >= sextw(b, w);
	}
}
static Val ite(E c, const Val& a, const Val& b, int w) { if (!a.e && !b.e && a.c == b.c) return a; return VE(mkIte(c, asE(a, w), asE(b, w))); }

static uint64_t g_rng = 88172645463325252ull;
static void finishPath(State& s) {
	add(SH->paths); 
	// sampling for native validation: first ones of every process, then thinning out
	static uint64_t mine = 0; mine++;
	bool take = mine <= 12 || (mine % 61) == 0;
	if (take && !s.inputs.empty() && SH->sampled < optSample) {
		uint64_t k = __atomic_fetch_add(&SH->sampled, 1, __ATOMIC_RELAXED);
		if (k < optSample) {
			std::string t = inputsText(s, s.model);
			for (auto& o : s.obs) { std::vector<uint8_t> b; for (auto& v : o.bytes) b.push_back(v.e ? (uint8_t)evalE(v.e, s.model) : (uint8_t)v.c); t += "obs " + o.name + " " + hex(b) + "\n"; }
			char fn[64]; snprintf(fn, 64, "/sample-%05llu.case", (unsigned long long)k); writeFile(optOut + fn, t);
		}
	}
	uint64_t nv = s.dom.size(); uint64_t cur = SH->maxDepthVars; while (nv > cur && !__atomic_compare_exchange_n(&SH->maxDepthVars, &cur, nv, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
}
static void pushCall(State& s, Fn* fn, Inst& in, Val* args, int nargs) {
	if (!fn->decoded) decode(fn);
	if (fn->id < (1 << 16) && !SH->fnHit[fn->id]) SH->fnHit[fn->id] = 1;
	Frame f; f.fn = fn; f.pc = 0; f.base = (uint32_t)s.regs.size(); f.retDst = in.dst; f.retN = in.n; f.call = &in; f.vararg = 0;
	int na = 0; for (auto& a : fn->f->args()) na += slotsOf(a.getType());
	s.regs.resize(f.base + std::max(fn->nregs, 1), VC(0));
	for (int i = 0; i < nargs && i < na; i++) {
		if (i < (int)in.byval.size() && in.byval[i]) { uint64_t a = s.alloc((uint32_t)in.byval[i], KStack); f.allocas.push_back(a); uint32_t o1, o2; Obj* src = access(s, args[i].c, in.byval[i], false, o1); Obj* dst = access(s, a, in.byval[i], true, o2); if (src && dst) for (int k = 0; k < in.byval[i]; k++) setByte(dst, o2 + k, byteAt(src, o1 + k)); args[i] = VC(a); }
		s.regs[f.base + i] = args[i];
	}
	if (fn->f->isVarArg()) { int n = nargs > na ? nargs - na : 0; f.vararg = s.alloc((uint32_t)(8 * n), KVarArg, 0); uint32_t off; if (n) { Obj* o = access(s, f.vararg, 8 * n, true, off); for (int i = 0; i < n; i++) { Val v = args[na + i]; int w = 64; if (v.e) { w = v.e->w; if (w < 64) { v = VE(mkZ(v.e, 64)); } } storeObj(o, 8 * i, 64, v); } } }
	s.fr.push_back(std::move(f));
}
static Res doRet(State& s, Val* rv, int n) {
	Frame& f = s.fr.back(); Inst* call = f.call; s.freeFrame(f); s.regs.resize(f.base); s.fr.pop_back();
	if (s.fr.empty()) return R_KILL;
	Frame& c = s.fr.back(); for (int i = 0; i < n && i < call->n; i++) s.regs[c.base + call->dst + i] = rv[i];
	if (call->e0) takeEdge(s, c, call->e0); else c.pc++;
	return R_STAY;
}

#include "natives.inc"

// ---------------------------------------------------------------- main interpreter loop
static bool g_initDone = false;
static Res branch(State& s, Frame& f, E c, Edge* t, Edge* e) {
	Model mt, mf; int d = decide(s, c, &mt, &mf);
	if (d == 1) { takeEdge(s, f, t); return R_STAY; }
	if (d == 2) { takeEdge(s, f, e); return R_STAY; }
	State* o = forkState(s); o->model = std::move(mf); constrain(*o, mkNot(c)); takeEdge(*o, o->fr.back(), e); stk.push_back(o);
	s.model = std::move(mt); constrain(s, c); takeEdge(s, s.fr.back(), t); return R_STAY;
}
static Res doSwitch(State& s, Frame& f, Inst& in, Val v) {
	E x = specialise(s, v.e);
	if (isC(x)) { int k = in.n; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == x->c) { k = in.caseEdge[i]; break; } takeEdge(s, f, in.edges[k]); return R_STAY; }
	std::vector<E> cond(in.edges.size(), mkConst(1, 0)); E any = mkConst(1, 0);
	for (size_t i = 0; i < in.cases.size(); i++) { E q = mkEq(x, mkConst(in.w, in.cases[i])); cond[in.caseEdge[i]] = mkOr1(cond[in.caseEdge[i]], q); any = mkOr1(any, q); }
	cond[in.n] = mkOr1(cond[in.n], mkNot(any));
	struct P { int k; E c; Model m; }; std::vector<P> ok;
	for (size_t k = 0; k < cond.size(); k++) { Model m; E q = cond[k]; int d = decide(s, q, &m, nullptr); if (d == 1) { ok.clear(); ok.push_back(P{(int)k, q, s.model}); break; } if (d == 3) ok.push_back(P{(int)k, q, m}); }
	if (ok.empty()) return fail(s, "unsupported", "switch without feasible target");
	for (size_t i = 1; i < ok.size(); i++) { State* o = forkState(s); o->model = ok[i].m; constrain(*o, ok[i].c); takeEdge(*o, o->fr.back(), in.edges[ok[i].k]); stk.push_back(o); }
	if (ok.size() > 1) { s.model = ok[0].m; constrain(s, ok[0].c); }
	takeEdge(s, s.fr.back(), in.edges[ok[0].k]); return R_STAY;
}
static double fval(uint64_t c, int w) { if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fbits(double d, int w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

// runs until the path ends; returns when the state is finished
static void run(State* sp) {
	State& s = *sp; uint64_t cnt = 0;
	for (;;) {
		Frame* f = &s.fr.back(); Inst& in = f->fn->code[f->pc]; uint32_t B = f->base;
		if ((++cnt & 0xfff) == 0) {
			add(SH->steps, 0x1000); s.steps += 0x1000;
			if (SH->stop) return;
			if (s.steps > optMaxSteps) { add(SH->hangs); fail(s, "hang", "no termination within %llu instructions", (unsigned long long)optMaxSteps); return; }
		}
		switch (in.op) {
		case IAdd: case ISub: case IMul: case IAnd: case IOr: case IXor: case IShl: case ILShr: case IAShr: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b);
			if (!a.e && !b.e) {
				uint64_t r; uint64_t m = maskw(in.w);
				switch (in.op) { case IAdd: r = (a.c + b.c) & m; break; case ISub: r = (a.c - b.c) & m; break; case IMul: r = (a.c * b.c) & m; break; case IAnd: r = a.c & b.c; break; case IOr: r = a.c | b.c; break; case IXor: r = a.c ^ b.c; break; default: r = foldOp(opMap[in.op], in.w, in.w, a.c, b.c, 0, 0, 0); }
				s.regs[B + in.dst] = VC(r);
			} else s.regs[B + in.dst] = VE(mk(opMap[in.op], in.w, asE(a, in.w), asE(b, in.w)));
			f->pc++; break; }
		case IUDiv: case ISDiv: case IURem: case ISRem: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b);
			if (b.e) { concretize(s, b, in.w); f = &s.fr.back(); }
			if (!b.c) { fail(s, "ub", "division by zero"); return; }
			s.regs[B + in.dst] = a.e ? VE(mk(opMap[in.op], in.w, a.e, mkConst(in.w, b.c))) : VC(foldOp(opMap[in.op], in.w, in.w, a.c, b.c, 0, 0, 0));
			f->pc++; break; }
		case IEq: case INe: case IUgt: case IUge: case IUlt: case IUle: case ISgt: case ISge: case ISlt: case ISle: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b);
			s.regs[B + in.dst] = (!a.e && !b.e) ? VC(cmpC(in.op, a.c, b.c, in.w)) : VE(cmpE(in.op, asE(a, in.w), asE(b, in.w)));
			f->pc++; break; }
		case ITrunc: { Val a = rd(s, B, in.a); s.regs[B + in.dst] = a.e ? VE(mkX(a.e, 0, in.w)) : VC(a.c & maskw(in.w)); f->pc++; break; }
		case IZExt: { Val a = rd(s, B, in.a); s.regs[B + in.dst] = a.e ? VE(mkZ(a.e, in.w)) : a; f->pc++; break; }
		case ISExt: { Val a = rd(s, B, in.a); s.regs[B + in.dst] = a.e ? VE(mkS(a.e, in.w)) : VC((uint64_t)sextw(a.c, in.w2) & maskw(in.w)); f->pc++; break; }
		case ICopy: if (in.n == 1) s.regs[B + in.dst] = rd(s, B, in.a); else for (int i = 0; i < in.n; i++) s.regs[B + in.dst + i] = rd(s, B, in.args[i]); f->pc++; break;
		case IExtractVal: { Val t[16]; int n = in.n > 16 ? 16 : in.n; for (int i = 0; i < n; i++) t[i] = rd(s, B, in.args[i]); for (int i = 0; i < n; i++) s.regs[B + in.dst + i] = t[i]; f->pc++; break; }
		case ISelect: {
			Val c = rd(s, B, in.a);
			if (!c.e) { for (int i = 0; i < in.n; i++) s.regs[B + in.dst + i] = rd(s, B, in.args[c.c ? i : in.n + i]); }
			else { E ce = specialise(s, c.e); if (isC(ce)) { for (int i = 0; i < in.n; i++) s.regs[B + in.dst + i] = rd(s, B, in.args[ce->c ? i : in.n + i]); } else for (int i = 0; i < in.n; i++) s.regs[B + in.dst + i] = ite(ce, rd(s, B, in.args[i]), rd(s, B, in.args[in.n + i]), (int)in.scale[i]); }
			f->pc++; break; }
		case ILoad: {
			Val a = rd(s, B, in.a); g_atomic = in.sub;
			if (a.e) { Val out; if (in.n == 1 && tableLoad(s, a, in.w, out)) { g_atomic = false; s.regs[B + in.dst] = out; f->pc++; break; } concretize(s, a, 64); f = &s.fr.back(); }
			for (int i = 0; i < in.n; i++) { uint32_t off; int w = (int)in.cases[i]; Obj* o = access(s, a.c + in.scale[i], (w + 7) / 8, false, off); if (!o) { g_atomic = false; return; } s.regs[B + in.dst + i] = loadObj(o, off, w); }
			g_atomic = false; f->pc++; break; }
		case IStore: {
			g_atomic = in.sub; Val a = rd(s, B, in.a); if (a.e) { concretize(s, a, 64); f = &s.fr.back(); }
			for (int i = 0; i < in.n; i++) { uint32_t off; int w = (int)in.cases[i]; Obj* o = access(s, a.c + in.scale[i], (w + 7) / 8, true, off); if (!o) { g_atomic = false; return; } storeObj(o, off, w, rd(s, B, in.args[i])); }
			g_atomic = false; f->pc++; break; }
		case IGep: {
			Val a = rd(s, B, in.a); E sym = a.e; uint64_t c = (a.e ? 0 : a.c) + in.c.c;
			for (size_t i = 0; i < in.args.size(); i++) { Val x = rd(s, B, in.args[i]); int w = (int)in.cases[i]; if (!x.e) c += (uint64_t)sextw(x.c, w) * (uint64_t)in.scale[i]; else { E t = mk(Op::Mul, 64, mkS(x.e, 64), mkConst(64, (uint64_t)in.scale[i])); sym = sym ? mk(Op::Add, 64, sym, t) : t; } }
			s.regs[B + in.dst] = sym ? VE(mk(Op::Add, 64, sym, mkConst(64, c))) : VC(c);
			f->pc++; break; }
		case IAlloca: { Val n = rd(s, B, in.a); if (n.e) { concretize(s, n, 64); f = &s.fr.back(); } uint64_t a = s.alloc((uint32_t)(n.c * in.c.c), KStack); f->allocas.push_back(a); s.regs[B + in.dst] = VC(a); f->pc++; break; }
		case IBr: takeEdge(s, *f, in.e0); break;
		case ICondBr: {
			Val c = rd(s, B, in.a);
			if (!c.e) takeEdge(s, *f, c.c ? in.e0 : in.e1); else branch(s, *f, c.e, in.e0, in.e1);
			break; }
		case ISwitch: {
			Val v = rd(s, B, in.a);
			if (!v.e) { int k = in.n; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v.c) { k = in.caseEdge[i]; break; } takeEdge(s, *f, in.edges[k]); break; }
			if (doSwitch(s, *f, in, v) == R_KILL) return;
			break; }
		case IRet: { Val rv[16]; int n = (int)in.args.size(); if (n > 16) { fail(s, "unsupported", "large return"); return; } for (int i = 0; i < n; i++) rv[i] = rd(s, B, in.args[i]); if (doRet(s, rv, n) == R_KILL) { add(SH->steps, cnt & 0xfff); if (g_initDone) finishPath(s); return; } break; }
		case IUnreachable: fail(s, "ub", "unreachable code reached"); return;
		case IResume: { Val x = rd(s, B, in.args[0]); bool ok = true; uint64_t ti = rd64(s, x.c - 64, ok); popFrame(s); if (s.fr.empty()) return; if (unwind(s, x.c, ti) == R_KILL) return; break; }
		case INop: if (in.e0) takeEdge(s, *f, in.e0); else f->pc++; break;
		case IMinMax: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b); int w = in.w; E ea = asE(a, w), eb = asE(b, w), r;
			if (in.sub == 4) r = mkIte(mk(Op::Ult, 1, ea, eb), mkConst(w, 0), mk(Op::Sub, w, ea, eb));
			else if (in.sub == 5) { E sum = mk(Op::Add, w, ea, eb); r = mkIte(mk(Op::Ult, 1, sum, ea), mkConst(w, ~0ull), sum); }
			else if (in.sub >= 6) { Val c = rd(s, B, in.c); if (c.e) { concretize(s, c, w); f = &s.fr.back(); } unsigned k = (unsigned)(c.c % w); if (in.sub == 7) k = (w - k) % w; /* fshl by k */ if (in.sub == 6) r = k ? mk(Op::Or, w, mk(Op::Shl, w, ea, mkConst(w, k)), mk(Op::LShr, w, eb, mkConst(w, w - k))) : ea; else { unsigned q = (unsigned)(c.c % w); r = q ? mk(Op::Or, w, mk(Op::Shl, w, ea, mkConst(w, w - q)), mk(Op::LShr, w, eb, mkConst(w, q))) : eb; } }
			else { E lt = in.sub < 2 ? mk(Op::Ult, 1, ea, eb) : mk(Op::Slt, 1, ea, eb); r = (in.sub & 1) ? mkIte(lt, eb, ea) : mkIte(lt, ea, eb); }
			s.regs[B + in.dst] = VE(r); f->pc++; break; }
		case IAbs: { E a = asE(rd(s, B, in.a), in.w); s.regs[B + in.dst] = VE(mkIte(mk(Op::Slt, 1, a, mkConst(in.w, 0)), mk(Op::Sub, in.w, mkConst(in.w, 0), a), a)); f->pc++; break; }
		case IBswap: { E a = asE(rd(s, B, in.a), in.w); E r = nullptr; for (int i = 0; i < in.w / 8; i++) { E b = mkX(a, 8 * i, 8); r = r ? mkCat(r, b) : b; } s.regs[B + in.dst] = VE(r); f->pc++; break; }
		case ICtz: { Val a = rd(s, B, in.a); if (a.e) { concretize(s, a, in.w); f = &s.fr.back(); } uint64_t r = in.sub == 2 ? __builtin_popcountll(a.c) : a.c == 0 ? in.w : in.sub == 1 ? __builtin_ctzll(a.c) : (uint64_t)(__builtin_clzll(a.c) - (64 - in.w)); s.regs[B + in.dst] = VC(r); f->pc++; break; }
		case IOvf: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b); int w = in.w; bool mul = in.sub >= 4;
			if (!a.e && !b.e) {
				uint64_t r; bool o; __int128 x = (in.sub & 1) ? (__int128)a.c : (__int128)sextw(a.c, w), y = (in.sub & 1) ? (__int128)b.c : (__int128)sextw(b.c, w), z;
				if (in.sub & 1) { unsigned __int128 ux = a.c, uy = b.c, uz = mul ? ux * uy : in.sub == 1 ? ux + uy : ux - uy; r = (uint64_t)uz & maskw(w); o = uz != (unsigned __int128)r; }
				else { z = mul ? x * y : in.sub == 0 ? x + y : x - y; r = (uint64_t)z & maskw(w); o = z != (__int128)sextw(r, w); }
				s.regs[B + in.dst] = VC(r); s.regs[B + in.dst + 1] = VC(o);
			} else {
				E ea = asE(a, w), eb = asE(b, w), r, o;
				if (mul) {
					// exact for widths up to 32 and constants; otherwise concretize
					if (w <= 32) { E x = (in.sub & 1) ? mkZ(ea, 2 * w) : mkS(ea, 2 * w), y = (in.sub & 1) ? mkZ(eb, 2 * w) : mkS(eb, 2 * w); E z = mk(Op::Mul, 2 * w, x, y); r = mkX(z, 0, w); o = mkNot(mkEq(z, (in.sub & 1) ? mkZ(r, 2 * w) : mkS(r, 2 * w))); }
					else if (!b.e || !a.e) { uint64_t k = b.e ? a.c : b.c; E x = b.e ? eb : ea; r = mk(Op::Mul, w, x, mkConst(w, k)); if (in.sub & 1) o = k ? mk(Op::Ult, 1, mkConst(w, maskw(w) / k), x) : mkConst(1, 0); else { int64_t sk = sextw(k, w); if (sk == 0) o = mkConst(1, 0); else if (sk > 0) { o = mkOr1(mk(Op::Slt, 1, mkConst(w, (uint64_t)(INT64_MAX / sk)), x), mk(Op::Slt, 1, x, mkConst(w, (uint64_t)(INT64_MIN / sk)))); } else { concretize(s, a, w); concretize(s, b, w); s.regs[B + in.a.r] = a; continue; } } }
					else { Val t = b; concretize(s, t, w); f = &s.fr.back(); if (in.b.r >= 0) s.regs[B + in.b.r] = t; continue; }
				} else if (in.sub == 1) { r = mk(Op::Add, w, ea, eb); o = mk(Op::Ult, 1, r, ea); }
				else if (in.sub == 3) { r = mk(Op::Sub, w, ea, eb); o = mk(Op::Ult, 1, ea, eb); }
				else { r = mk(in.sub == 0 ? Op::Add : Op::Sub, w, ea, eb); E sa = mkX(ea, w - 1, 1), sb = mkX(eb, w - 1, 1), sr = mkX(r, w - 1, 1); E same = in.sub == 0 ? mkEq(sa, sb) : mkNot(mkEq(sa, sb)); o = mkAnd1(same, mkNot(mkEq(sa, sr))); }
				s.regs[B + in.dst] = VE(r); s.regs[B + in.dst + 1] = VE(o);
			}
			f->pc++; break; }
		case IFBin: { Val a = rd(s, B, in.a), b = rd(s, B, in.b); if (a.e || b.e) { fail(s, "unsupported", "symbolic floating point"); return; } double x = fval(a.c, in.w), y = fval(b.c, in.w); s.regs[B + in.dst] = VC(fbits(in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y, in.w)); f->pc++; break; }
		case IFCmp: { Val a = rd(s, B, in.a), b = rd(s, B, in.b); if (a.e || b.e) { fail(s, "unsupported", "symbolic floating point"); return; } double x = fval(a.c, in.w), y = fval(b.c, in.w); bool un = x != x || y != y; int r = un ? 8 : x == y ? 1 : x > y ? 2 : 4; s.regs[B + in.dst] = VC((in.sub & r) != 0); f->pc++; break; }
		case IFCast: { Val a = rd(s, B, in.a); if (a.e) { concretize(s, a, in.w2); f = &s.fr.back(); } uint64_t r; if (in.sub == 0) r = fbits((double)a.c, in.w); else if (in.sub == 1) r = fbits((double)sextw(a.c, in.w2), in.w); else if (in.sub == 2) r = (uint64_t)fval(a.c, in.w2) & maskw(in.w); else if (in.sub == 3) r = (uint64_t)(int64_t)fval(a.c, in.w2) & maskw(in.w); else r = fbits(fval(a.c, in.w2), in.w); s.regs[B + in.dst] = VC(r); f->pc++; break; }
		case IAtomicRMW: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b); if (a.e) { concretize(s, a, 64); f = &s.fr.back(); } uint32_t off; g_atomic = true; Obj* o = access(s, a.c, in.w / 8, true, off); g_atomic = false; if (!o) return;
			Val old = loadObj(o, off, in.w); E x = asE(old, in.w), y = asE(b, in.w), r;
			switch (in.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mk(Op::Add, in.w, x, y); break; case AtomicRMWInst::Sub: r = mk(Op::Sub, in.w, x, y); break; case AtomicRMWInst::And: r = mk(Op::And, in.w, x, y); break; case AtomicRMWInst::Or: r = mk(Op::Or, in.w, x, y); break; default: fail(s, "unsupported", "atomicrmw"); return; }
			storeObj(o, off, in.w, VE(r)); s.regs[B + in.dst] = old; f->pc++; break; }
		case ICmpXchg: {
			Val a = rd(s, B, in.a), b = rd(s, B, in.b), c = rd(s, B, in.c); uint32_t off; if (a.e) { concretize(s, a, 64); f = &s.fr.back(); } g_atomic = true; Obj* o = access(s, a.c, in.w / 8, true, off); g_atomic = false; if (!o) return; Val old = loadObj(o, off, in.w);
			if (old.e || b.e) { fail(s, "unsupported", "symbolic cmpxchg"); return; } bool eq = old.c == b.c; if (eq) storeObj(o, off, in.w, c); s.regs[B + in.dst] = old; s.regs[B + in.dst + 1] = VC(eq); f->pc++; break; }
		case ICall: {
			Fn* fn = in.fn; 
			if (!fn) { Val cv = rd(s, B, in.a); if (cv.e) { concretize(s, cv, 64); f = &s.fr.back(); } auto it = fnByAddr.find(cv.c); if (it == fnByAddr.end()) { fail(s, "memory", "call through an invalid function pointer"); return; } fn = it->second; }
			Val args[24]; int n = (int)in.args.size(); if (n > 24) { fail(s, "unsupported", "too many arguments"); return; } for (int i = 0; i < n; i++) args[i] = rd(s, B, in.args[i]);
			if (fn->nat) {
				if (in.ll) if (auto* cb = dyn_cast<CallBase>(in.ll)) for (int i = 0; i < n && i < (int)cb->arg_size(); i++) if (args[i].e && cb->getArgOperand(i)->getType()->isPointerTy()) { concretize(s, args[i], 64); f = &s.fr.back(); }
				Res r = fn->nat(s, in, args, n); if (r == R_KILL) { add(SH->steps, cnt & 0xfff); return; }
				if (r == R_NEXT) { Frame& g = s.fr.back(); if (in.e0) takeEdge(s, g, in.e0); else g.pc++; }
				break;
			}
			if (!fn->hasBody) { fail(s, "unsupported", "call to external function %s", fn->name.c_str()); return; }
			if (s.fr.size() > 4000) { fail(s, "hang", "call depth exceeds 4000 frames (unbounded recursion)"); return; }
			pushCall(s, fn, in, args, n); break; }
		case ILandingPad: fail(s, "unsupported", "landing pad reached directly"); return;
		default: { std::string t; raw_string_ostream os(t); in.ll->print(os); fail(s, "unsupported", "instruction %s", t.c_str()); return; }
		}
	}
}

static volatile int g_children = 0;
static int maybeSplit() { // hand the older half of the pending states to a new process
	if (optForkOff || stk.size() < 2) return 0;
	int idle = __atomic_load_n(&SH->idle, __ATOMIC_RELAXED); if (idle <= 0) return 0;
	if (__atomic_fetch_sub(&SH->idle, 1, __ATOMIC_ACQ_REL) <= 0) { __atomic_fetch_add(&SH->idle, 1, __ATOMIC_RELAXED); return 0; }
	__atomic_fetch_add(&SH->procs, 1, __ATOMIC_RELAXED);
	pid_t p = fork();
	if (p < 0) { __atomic_fetch_add(&SH->idle, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&SH->procs, 1, __ATOMIC_RELAXED); return 0; }
	size_t half = stk.size() / 2; if (!half) half = 1;
	if (p == 0) { for (size_t i = half; i < stk.size(); i++) { /* leaked on purpose: parent owns */ } stk.resize(half); return 2; }
	for (size_t i = 0; i < half; i++) delete stk[i];
	stk.erase(stk.begin(), stk.begin() + half); return 1;
}
static bool g_isRoot = true;
static void explore() {
	uint64_t it = 0;
	for (;;) {
		if (stk.empty()) break;
		if (SH->stop) break;
		if (now() - g_t0 > optTimeout) { __atomic_store_n(&SH->stop, 2, __ATOMIC_RELAXED); break; }
		if (SH->firstViol > 0 && now() - SH->firstViol > optGrace) { __atomic_store_n(&SH->stop, 3, __ATOMIC_RELAXED); break; }
		int r = maybeSplit(); if (r == 2) { g_isRoot = false; g_rng += getpid(); }
		State* s = stk.back(); stk.pop_back(); run(s); delete s; it++;
		// reap children so that no zombies pile up
		{ int st; while (waitpid(-1, &st, WNOHANG) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "symx: worker died (status %x)\n", st); add(SH->unsupported); } }
	}
	struct rusage ru; getrusage(RUSAGE_SELF, &ru); uint64_t m = (uint64_t)ru.ru_maxrss; uint64_t cur = SH->maxrss; while (m > cur && !__atomic_compare_exchange_n(&SH->maxrss, &cur, m, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
	__atomic_fetch_add(&SH->idle, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&SH->procs, 1, __ATOMIC_ACQ_REL);
	if (!g_isRoot) { int st; while (waitpid(-1, &st, 0) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) add(SH->unsupported); } _exit(0); }
	int st; while (waitpid(-1, &st, 0) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "symx: worker died (status %x)\n", st); add(SH->unsupported); } }
	// grandchildren are reaped by their parents; wait until every process has reported
	for (int i = 0; i < 2000 && __atomic_load_n(&SH->procs, __ATOMIC_ACQUIRE) > 0; i++) usleep(1000);
}

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
// loads wider than 64 bits (runs of bit fields) whose users only pick out parts become loads of those parts, at the place of the wide load
static void narrowLoads() {
	for (auto& f : *M) for (auto& bb : f) for (auto it = bb.begin(); it != bb.end();) {
		auto* ld = dyn_cast<LoadInst>(&*it++); if (!ld || !ld->getType()->isIntegerTy() || ld->getType()->getIntegerBitWidth() <= 64 || ld->isVolatile()) continue;
		unsigned W = ld->getType()->getIntegerBitWidth(); if (W % 8) continue; struct P { Instruction* i; uint64_t off; unsigned w; }; std::vector<P> ps; std::vector<Instruction*> dead; bool ok = true;
		for (auto* u : ld->users()) { if (auto* t = dyn_cast<TruncInst>(u)) { ps.push_back({t, 0, t->getType()->getIntegerBitWidth()}); continue; }
			auto* sh = dyn_cast<BinaryOperator>(u); if (!sh || sh->getOpcode() != Instruction::LShr || sh->getOperand(0) != ld || !isa<ConstantInt>(sh->getOperand(1))) { ok = false; break; }
			uint64_t k = cast<ConstantInt>(sh->getOperand(1))->getZExtValue(); dead.push_back(sh); for (auto* v : sh->users()) { auto* t = dyn_cast<TruncInst>(v); if (!t || k + t->getType()->getIntegerBitWidth() > W) { ok = false; break; } ps.push_back({t, k, t->getType()->getIntegerBitWidth()}); } }
		for (auto& p : ps) if (p.w > 56) ok = false;
		if (!ok) continue;
		IRBuilder<> b(ld); for (auto& p : ps) { unsigned lo = (unsigned)(p.off / 8), n = (unsigned)((p.off % 8 + p.w + 7) / 8); Value* q = b.CreateConstGEP1_64(b.getInt8Ty(), ld->getPointerOperand(), lo); Value* x = b.CreateAlignedLoad(b.getIntNTy(n * 8), q, Align(1)); if (p.off % 8) x = b.CreateLShr(x, p.off % 8); if (n * 8 != p.w) x = b.CreateTrunc(x, b.getIntNTy(p.w)); p.i->replaceAllUsesWith(x); p.i->eraseFromParent(); }
		for (auto* d : dead) d->eraseFromParent(); it = std::next(ld->getIterator()); ld->eraseFromParent();
	}
}
int main(int argc, char** argv) {
	std::string bc, entry = "sym_main";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "-o") optOut = nx(); else if (a == "-j") optJobs = atoi(nx().c_str()); else if (a == "--steps") optMaxSteps = strtoull(nx().c_str(), 0, 10);
		else if (a == "--timeout") optTimeout = atof(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--samples") optSample = strtoull(nx().c_str(), 0, 10);
		else if (a == "--trace") optTrace = true; else if (a == "--cross") optCross = true; else if (a == "--entry") entry = nx(); else bc = a;
	}
	g_t0 = now(); mkdir(optOut.c_str(), 0777);
	SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	LC = new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(bc, err, *LC); if (!mod) { err.print("symx", errs()); return 3; }
	M = mod.release(); narrowLoads(); DL = &M->getDataLayout(); zinit(); registerNatives();
	State* s = new State; initMemory(*s);
	// constructors
	std::vector<std::pair<int, Function*>> ctors;
	if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& op : arr->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	static Inst dummy; dummy.dst = -1; dummy.n = 0;
	optForkOff = true;
	for (auto& c : ctors) { pushCall(*s, fnOf[c.second], dummy, nullptr, 0); run(s); if (!stk.empty() || !s->fr.empty()) { fprintf(stderr, "symx: constructor %s failed\n", c.second->getName().str().c_str()); return 3; } }
	optForkOff = false; g_initDone = true; s->liveHeap = 0; s->steps = 0;
	auto it = fnByName.find(entry); if (it == fnByName.end() || !it->second->hasBody) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 3; }
	pushCall(*s, it->second, dummy, nullptr, 0); stk.push_back(s);
	SH->idle = optJobs - 1; SH->procs = 1; SH->steps = 0;
	explore();
	// report
	std::string j = "{"; auto num = [&](const char* k, uint64_t v) { char b[96]; snprintf(b, 96, "\"%s\": %llu, ", k, (unsigned long long)v); j += b; };
	num("paths", SH->paths); num("forks", SH->forks); num("instructions", SH->steps); num("assertions", SH->vcs); num("assertions_folded", SH->vcFolded); num("assertions_solver", SH->vcSolver); num("queries", SH->queries); num("sat", SH->qSat); num("unsat", SH->qUnsat); num("unknown", SH->qUnknown); num("table_decisions", SH->tableDecisions); num("table_queries", SH->crossChecked); num("table_unconfirmed", SH->crossBad); num("solver_us", SH->solverUs); num("violations", SH->viol); num("unsupported", SH->unsupported); num("assume_pruned", SH->pruned); num("sampled", std::min<uint64_t>(SH->sampled, optSample)); num("symbolic_bytes_max", SH->maxDepthVars); num("stopped", SH->stop); num("maxrss_kb", SH->maxrss);
	j += "\"reach\": {"; for (int i = 0; i < SH->nreach; i++) { char b[96]; snprintf(b, 96, "%s\"%s\": %llu", i ? ", " : "", SH->reachName[i], (unsigned long long)SH->reach[i]); j += b; } j += "}, \"functions\": [";
	bool first = true; for (auto* f : fns) if (f->id < (1 << 16) && SH->fnHit[f->id] && f->repo) { j += (first ? "\"" : ", \"") + jesc(f->name) + "\""; first = false; }
	j += "], "; uint64_t nf = 0; for (auto* f : fns) if (f->id < (1 << 16) && SH->fnHit[f->id]) nf++; num("functions_total", nf);
	char b[64]; snprintf(b, 64, "\"wall_s\": %.2f}", now() - g_t0); j += b; writeFile(optOut + "/result.json", j + "\n");
	return SH->viol ? 1 : (SH->unsupported || SH->stop || SH->qUnknown) ? 2 : 0;
}
