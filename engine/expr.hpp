// Hash-consed bit-vector expressions over symbolic bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>

struct Bits256 {
	uint64_t w[4];
	static Bits256 none() { return {{0,0,0,0}}; }
	static Bits256 all() { return {{~0ull,~0ull,~0ull,~0ull}}; }
	bool get(int i) const { return (w[i>>6] >> (i&63)) & 1; }
	void set(int i) { w[i>>6] |= 1ull << (i&63); }
	bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
	bool full() const { return (w[0]&w[1]&w[2]&w[3]) == ~0ull; }
	int count() const { return __builtin_popcountll(w[0])+__builtin_popcountll(w[1])+__builtin_popcountll(w[2])+__builtin_popcountll(w[3]); }
	int first() const { for (int i=0;i<4;i++) if (w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
	Bits256 operator&(const Bits256& o) const { return {{w[0]&o.w[0],w[1]&o.w[1],w[2]&o.w[2],w[3]&o.w[3]}}; }
	Bits256 operator|(const Bits256& o) const { return {{w[0]|o.w[0],w[1]|o.w[1],w[2]|o.w[2],w[3]|o.w[3]}}; }
	Bits256 operator~() const { return {{~w[0],~w[1],~w[2],~w[3]}}; }
	bool operator==(const Bits256& o) const { return !memcmp(w,o.w,32); }
};

enum class Op : uint8_t {
	Const, Var, Not, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle, ZExt, SExt, Extract, Concat, Ite, Table, Lut
};

struct Expr;
typedef const Expr* E;
struct Expr {
	Op op;
	uint8_t w;      // width in bits, 1..64
	uint8_t nk;
	int32_t sup;    // -1 constant, >=0 the only variable, -2 several variables
	uint32_t id;
	E k[3];
	uint64_t c;     // constant, variable number, extract offset
	void* tab;      // value for each of the 256 values of the variable (sup>=0)
	std::vector<int>* vars; // sup==-2
	mutable void* z3;
	mutable uint32_t stamp; mutable uint64_t memo;
};

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w-1); return (int64_t)((v ^ m) - m); }

static inline uint64_t tabAt(E e, int i) {
	if (e->w == 1) return ((const Bits256*)e->tab)->get(i);
	if (e->w <= 8) return ((const uint8_t*)e->tab)[i];
	if (e->w <= 32) return ((const uint32_t*)e->tab)[i];
	return ((const uint64_t*)e->tab)[i];
}
static inline bool isC(E e) { return e->op == Op::Const; }
static inline bool isC(E e, uint64_t v) { return e->op == Op::Const && e->c == v; }

uint64_t foldOp(Op op, int w, int kw, uint64_t a, uint64_t b, uint64_t c3, uint64_t ec, int kw1);

E mkConst(int w, uint64_t v);
E mkVar(int idx);
E mkTable(int var, int w, const uint64_t* t);
const std::vector<uint64_t>& lutOf(E e); // Lut: entry i is the value for k[0] == i; k[0] has 8 bits and is always below the size
E mkLut(E idx, int w, std::vector<uint64_t> t);
E mk(Op op, int w, E a, E b = nullptr, E c = nullptr, uint64_t ec = 0);
E mkNot(E a);
E mkAnd1(E a, E b);
E mkOr1(E a, E b);
static inline E mkEq(E a, E b) { return mk(Op::Eq, 1, a, b); }
E mkZ(E a, int w);
E mkS(E a, int w);
E mkX(E a, int off, int w);
E mkCat(E hi, E lo);
E mkIte(E c, E a, E b);
const Bits256& bitsOf(E e);
extern uint64_t g_nexprs;

struct Model { std::vector<uint8_t> v; uint8_t get(int i) const { return i < (int)v.size() ? v[i] : 0; } void set(int i, uint8_t x) { if (i >= (int)v.size()) v.resize(i+1, 0); v[i] = x; } };
uint64_t evalE(E e, const Model& m);
void collectVars(E e, std::vector<int>& out);
std::string showE(E e, int depth = 6);
