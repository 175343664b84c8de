#include "expr.hpp"

uint64_t g_nexprs = 0;

struct SKey { Op op; uint8_t w; E a,b,c; uint64_t ec;
	bool operator==(const SKey& o) const { return op==o.op&&w==o.w&&a==o.a&&b==o.b&&c==o.c&&ec==o.ec; } };
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; return h ^ (h>>32); }
struct SHash { size_t operator()(const SKey& k) const { uint64_t h = (uint64_t)k.op*257+k.w; h=mix(h,(uint64_t)k.a); h=mix(h,(uint64_t)k.b); h=mix(h,(uint64_t)k.c); h=mix(h,k.ec); return h; } };
static std::unordered_map<SKey,E,SHash> g_struct;
struct TKey { int var; int w; const void* t; size_t n; 
	bool operator==(const TKey& o) const { return var==o.var&&w==o.w&&n==o.n&&!memcmp(t,o.t,n); } };
struct THash { size_t operator()(const TKey& k) const { uint64_t h = (uint64_t)k.var*131+k.w; const uint64_t* p=(const uint64_t*)k.t; for (size_t i=0;i<k.n/8;i++) h=mix(h,p[i]); return h; } };
static std::unordered_map<TKey,E,THash> g_tab;

static Expr* newExpr(Op op, int w) {
	Expr* e = (Expr*)calloc(1, sizeof(Expr));
	e->op = op; e->w = (uint8_t)w; e->id = (uint32_t)g_nexprs++; return e;
}

static size_t tabBytes(int w) { return w==1?32: w<=8?256: w<=32?1024:2048; }
static void packTab(int w, const uint64_t* t, void* out) {
	if (w==1) { Bits256 b = Bits256::none(); for (int i=0;i<256;i++) if (t[i]&1) b.set(i); memcpy(out,&b,32); }
	else if (w<=8) { for (int i=0;i<256;i++) ((uint8_t*)out)[i]=(uint8_t)t[i]; }
	else if (w<=32) { for (int i=0;i<256;i++) ((uint32_t*)out)[i]=(uint32_t)t[i]; }
	else memcpy(out,t,2048);
}

const Bits256& bitsOf(E e) { return *(const Bits256*)e->tab; }

E mkConst(int w, uint64_t v) {
	v &= maskw(w);
	SKey k{Op::Const,(uint8_t)w,nullptr,nullptr,nullptr,v};
	auto it = g_struct.find(k); if (it != g_struct.end()) return it->second;
	Expr* e = newExpr(Op::Const, w); e->c = v; e->sup = -1;
	g_struct[k] = e; return e;
}

static E internTab(int var, int w, const uint64_t* t, Expr* proto) {
	bool cst = true; for (int i=1;i<256&&cst;i++) if (t[i]!=t[0]) cst=false;
	if (cst) { if (proto) free(proto); return mkConst(w,t[0]); }
	char buf[2048]; packTab(w,t,buf); size_t n = tabBytes(w);
	TKey key{var,w,buf,n};
	auto it = g_tab.find(key); if (it != g_tab.end()) { if (proto) free(proto); return it->second; }
	Expr* e = proto ? proto : newExpr(Op::Table,w);
	if (!proto) e->c = (uint64_t)var;
	e->sup = var; void* m = malloc(n); memcpy(m,buf,n); e->tab = m;
	key.t = m; g_tab[key] = e; return e;
}

E mkVar(int idx) {
	SKey k{Op::Var,8,nullptr,nullptr,nullptr,(uint64_t)idx};
	auto it = g_struct.find(k); if (it != g_struct.end()) return it->second;
	Expr* e = newExpr(Op::Var,8); e->c = (uint64_t)idx;
	uint64_t t[256]; for (int i=0;i<256;i++) t[i]=(uint64_t)i;
	E r = internTab(idx,8,t,e);
	g_struct[k] = r; return r;
}
E mkTable(int var, int w, const uint64_t* t) { return internTab(var,w,t,nullptr); }

uint64_t foldOp(Op op, int w, int kw, uint64_t a, uint64_t b, uint64_t c, uint64_t ec, int kw1) {
	uint64_t m = maskw(w);
	switch (op) {
	case Op::Not: return (~a)&m;
	case Op::Add: return (a+b)&m;
	case Op::Sub: return (a-b)&m;
	case Op::Mul: return (a*b)&m;
	case Op::UDiv: return b? (a/b)&m : m;
	case Op::URem: return b? (a%b)&m : a;
	case Op::SDiv: { int64_t x=sextw(a,w),y=sextw(b,w); if (!y) return x<0?1:m; if (y==-1) return (uint64_t)(-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
	case Op::SRem: { int64_t x=sextw(a,w),y=sextw(b,w); if (!y) return a; if (y==-1) return 0; return (uint64_t)(x%y)&m; }
	case Op::And: return a&b;
	case Op::Or: return a|b;
	case Op::Xor: return a^b;
	case Op::Shl: return b>=(uint64_t)w?0:(a<<b)&m;
	case Op::LShr: return b>=(uint64_t)w?0:(a>>b);
	case Op::AShr: { int64_t x=sextw(a,w); return (uint64_t)(b>=(uint64_t)w?(x<0?-1:0):(x>>b))&m; }
	case Op::Eq: return a==b;
	case Op::Ult: return a<b;
	case Op::Ule: return a<=b;
	case Op::Slt: return sextw(a,kw)<sextw(b,kw);
	case Op::Sle: return sextw(a,kw)<=sextw(b,kw);
	case Op::ZExt: return a;
	case Op::SExt: return (uint64_t)sextw(a,kw)&m;
	case Op::Extract: return (a>>ec)&m;
	case Op::Concat: return ((a<<kw1)|b)&m;
	case Op::Ite: return a?b:c;
	default: abort();
	}
}

void collectVars(E e, std::vector<int>& out) {
	if (e->sup == -1) return;
	if (e->sup >= 0) { out.push_back(e->sup); return; }
	out.insert(out.end(), e->vars->begin(), e->vars->end());
}

static E build(Op op, int w, E a, E b, E c, uint64_t ec) {
	// constant folding
	bool ac = isC(a), bc = !b||isC(b), cc = !c||isC(c);
	if (ac && bc && cc) return mkConst(w, foldOp(op,w,a->w,a->c,b?b->c:0,c?c->c:0,ec,b?b->w:0));
	SKey key{op,(uint8_t)w,a,b,c,ec};
	auto it = g_struct.find(key); if (it != g_struct.end()) return it->second;
	int sup = -1;
	for (E k : {a,b,c}) if (k && k->sup != -1) { if (sup == -1) sup = k->sup; else if (sup != k->sup) sup = -2; if (k->sup==-2) sup=-2; }
	Expr* e = newExpr(op,w);
	e->k[0]=a; e->k[1]=b; e->k[2]=c; e->nk=(uint8_t)(c?3:b?2:1); e->c=ec; e->sup=sup;
	E r;
	if (sup >= 0) {
		uint64_t t[256];
		for (int i=0;i<256;i++)
			t[i] = foldOp(op,w,a->w, ac?a->c:tabAt(a,i), b?(isC(b)?b->c:tabAt(b,i)):0, c?(isC(c)?c->c:tabAt(c,i)):0, ec, b?b->w:0);
		r = internTab(sup,w,t,e);
	} else {
		std::vector<int> vs; for (E k : {a,b,c}) if (k) collectVars(k,vs);
		std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
		e->vars = new std::vector<int>(std::move(vs));
		r = e;
	}
	g_struct[key] = r; return r;
}

E mkNot(E a) {
	if (isC(a)) return mkConst(a->w, ~a->c);
	if (a->op == Op::Not) return a->k[0];
	return build(Op::Not,a->w,a,nullptr,nullptr,0);
}
E mkAnd1(E a, E b) { return mk(Op::And,1,a,b); }
E mkOr1(E a, E b) { return mk(Op::Or,1,a,b); }
E mkZ(E a, int w) { return a->w==w? a : mk(Op::ZExt,w,a); }
E mkS(E a, int w) { return a->w==w? a : mk(Op::SExt,w,a); }
E mkX(E a, int off, int w) { return (off==0&&a->w==w)? a : mk(Op::Extract,w,a,nullptr,nullptr,(uint64_t)off); }
E mkCat(E hi, E lo) { return mk(Op::Concat,hi->w+lo->w,hi,lo); }
E mkIte(E c, E a, E b) { return mk(Op::Ite,a->w,c,a,b); }

static bool iteConstLeaves(E e, int depth) {
	if (isC(e)) return true;
	if (e->op != Op::Ite || depth <= 0) return false;
	return iteConstLeaves(e->k[1],depth-1) && iteConstLeaves(e->k[2],depth-1);
}

static std::vector<std::vector<uint64_t>> g_luts; static std::unordered_multimap<uint64_t,size_t> g_lutIx;
const std::vector<uint64_t>& lutOf(E e) { return g_luts[e->c]; }
E mkLut(E idx, int w, std::vector<uint64_t> t) {
	for (auto& x : t) x &= maskw(w);
	if (isC(idx)) return mkConst(w, t[idx->c < t.size() ? idx->c : 0]);
	if (idx->op == Op::Lut) { std::vector<uint64_t> u; for (uint64_t i : lutOf(idx)) u.push_back(t[i < t.size() ? i : 0]); return mkLut(idx->k[0], w, std::move(u)); }
	if (idx->sup >= 0) { uint64_t u[256]; for (int i=0;i<256;i++) { uint64_t x = tabAt(idx,i); u[i] = t[x < t.size() ? x : 0]; } return mkTable(idx->sup, w, u); }
	bool same = true, id = true; for (size_t i=0;i<t.size();i++) { if (t[i]!=t[0]) same=false; if (t[i]!=i) id=false; }
	if (same) return mkConst(w,t[0]);
	if (id) return w>=8? mkZ(idx,w) : mkX(idx,0,w);
	uint64_t h = 7; for (uint64_t x : t) h = mix(h,x); size_t n = g_luts.size(); auto r = g_lutIx.equal_range(h); for (auto i = r.first; i != r.second; ++i) if (g_luts[i->second]==t) n = i->second;
	if (n == g_luts.size()) { g_luts.push_back(t); g_lutIx.emplace(h,n); }
	return build(Op::Lut,w,idx,nullptr,nullptr,n);
}
E mk(Op op, int w, E a, E b, E c, uint64_t ec) {
	{ E src = nullptr; auto of = [&](E x) { if (!x||isC(x)) return true; if (x->op!=Op::Lut) return false; if (!src) src = x->k[0]; return src==x->k[0]; };
	  if (of(a)&&of(b)&&of(c)&&src) { size_t n = 0; for (E x : {a,b,c}) if (x&&x->op==Op::Lut) { size_t m = lutOf(x).size(); n = n? std::min(n,m) : m; }
		std::vector<uint64_t> t; auto at = [](E x, size_t i) { return !x? 0 : isC(x)? x->c : lutOf(x)[i]; }; for (size_t i=0;i<n;i++) t.push_back(foldOp(op,w,a->w,at(a,i),at(b,i),at(c,i),ec,b?b->w:0)); return mkLut(src,w,std::move(t)); } }
	// single-variable results are canonical by their table; simplify the rest
	bool multi = a->sup==-2 || (b&&b->sup==-2) || (c&&c->sup==-2) ||
		(b && a->sup>=0 && b->sup>=0 && a->sup!=b->sup) || (c && c->sup>=0 && ((a->sup>=0&&a->sup!=c->sup)||(b->sup>=0&&b->sup!=c->sup)));
	if (!multi) return build(op,w,a,b,c,ec);
	switch (op) {
	case Op::Not: return mkNot(a);
	case Op::And:
		if (a==b) return a;
		if (isC(a)) std::swap(a,b);
		if (isC(b,0)) return b;
		if (isC(b,maskw(w))) return a;
		if (w==1 && (a==mkNot(b))) return mkConst(1,0);
		if (isC(b) && a->op==Op::ZExt && (b->c & maskw(a->k[0]->w))==maskw(a->k[0]->w)) return a;
		if (isC(b) && b->c==0xff && w>8) return mkZ(mkX(a,0,8),w);
		if (isC(b) && b->c==1 && w>1) return mkZ(mkX(a,0,1),w);
		if (a->id > b->id && !isC(b)) std::swap(a,b);
		break;
	case Op::Or:
		if (a==b) return a;
		if (isC(a)) std::swap(a,b);
		if (isC(b,0)) return a;
		if (isC(b,maskw(w))) return b;
		if (w==1 && (a==mkNot(b))) return mkConst(1,1);
		if (a->id > b->id && !isC(b)) std::swap(a,b);
		break;
	case Op::Xor:
		if (a==b) return mkConst(w,0);
		if (isC(a)) std::swap(a,b);
		if (isC(b,0)) return a;
		if (isC(b,maskw(w))) return mkNot(a);
		if (a->id > b->id && !isC(b)) std::swap(a,b);
		break;
	case Op::Add:
		if (isC(a)) std::swap(a,b);
		if (isC(b,0)) return a;
		if (isC(b) && a->op==Op::Add && isC(a->k[1])) return mk(Op::Add,w,a->k[0],mkConst(w,a->k[1]->c+b->c));
		if (w==1) return mk(Op::Xor,1,a,b);
		if (isC(b) && a->op==Op::Ite && iteConstLeaves(a,64)) return mkIte(a->k[0],mk(Op::Add,w,a->k[1],b),mk(Op::Add,w,a->k[2],b));
		if (a->id > b->id && !isC(b)) std::swap(a,b);
		break;
	case Op::Sub:
		if (a==b) return mkConst(w,0);
		if (isC(b)) return mk(Op::Add,w,a,mkConst(w,0-b->c));
		if (a->op==Op::Add && a->k[0]==b) return a->k[1];
		if (isC(a) && b->op==Op::Ite && iteConstLeaves(b,64)) return mkIte(b->k[0],mk(Op::Sub,w,a,b->k[1]),mk(Op::Sub,w,a,b->k[2]));
		break;
	case Op::Mul:
		if (isC(a)) std::swap(a,b);
		if (isC(b,0)) return b;
		if (isC(b,1)) return a;
		break;
	case Op::Shl: case Op::LShr: case Op::AShr:
		if (isC(b,0)) return a;
		if (isC(a,0)) return a;
		if (op==Op::LShr && isC(b) && b->c<(uint64_t)w) return mkZ(mkX(a,(int)b->c,w-(int)b->c),w);
		if (op==Op::Shl && isC(b) && b->c<(uint64_t)w) return mkCat(mkX(a,0,w-(int)b->c),mkConst((int)b->c,0));
		break;
	case Op::Eq:
		if (a==b) return mkConst(1,1);
		if (isC(a)) std::swap(a,b);
		if (a->w==1) { if (isC(b)) return b->c? a : mkNot(a); }
		if (isC(b)) {
			if (a->op==Op::ZExt) { if (b->c & ~maskw(a->k[0]->w)) return mkConst(1,0); return mkEq(a->k[0],mkConst(a->k[0]->w,b->c)); }
			if (a->op==Op::SExt) { uint64_t t=b->c&maskw(a->k[0]->w); if (((uint64_t)sextw(t,a->k[0]->w)&maskw(a->w))!=b->c) return mkConst(1,0); return mkEq(a->k[0],mkConst(a->k[0]->w,t)); }
			if (a->op==Op::Concat) { int lw=a->k[1]->w; return mkAnd1(mkEq(a->k[0],mkConst(a->k[0]->w,b->c>>lw)),mkEq(a->k[1],mkConst(lw,b->c))); }
			if (a->op==Op::Ite && (isC(a->k[1])||isC(a->k[2])||a->k[1]->op==Op::Ite||a->k[2]->op==Op::Ite)) {
				E t=mkEq(a->k[1],b), f=mkEq(a->k[2],b); return mkIte(a->k[0],t,f);
			}
			if (a->op==Op::Add && isC(a->k[1])) return mkEq(a->k[0],mkConst(a->w,b->c-a->k[1]->c));
			if (b->c==0 && a->op==Op::Sub) return mkEq(a->k[0],a->k[1]);
			if (b->c==0 && a->op==Op::Xor) return mkEq(a->k[0],a->k[1]);
			if (b->c==0 && a->op==Op::Or) return mkAnd1(mkEq(a->k[0],mkConst(a->w,0)),mkEq(a->k[1],mkConst(a->w,0)));
			if (a->op==Op::Not) return mkEq(a->k[0],mkConst(a->w,~b->c));
		} else {
			if (a->op==Op::ZExt && b->op==Op::ZExt && a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
			if (a->op==Op::SExt && b->op==Op::SExt && a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
			if (a->op==Op::Concat && b->op==Op::Concat && a->k[1]->w==b->k[1]->w) return mkAnd1(mkEq(a->k[0],b->k[0]),mkEq(a->k[1],b->k[1]));
		}
		if (a->id > b->id && !isC(b)) std::swap(a,b);
		break;
	case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
		if (a==b) return mkConst(1,(op==Op::Ule||op==Op::Sle));
		if (op==Op::Ult && isC(b,0)) return mkConst(1,0);
		if (op==Op::Ult && isC(b,1)) return mkEq(a,mkConst(a->w,0));
		if (op==Op::Ule && isC(a,0)) return mkConst(1,1);
		if (op==Op::Ule && isC(b,maskw(a->w))) return mkConst(1,1);
		if (op==Op::Ult && isC(a,0)) return mkNot(mkEq(b,a));
		if (op==Op::Slt && isC(b,0)) return mkX(a,a->w-1,1);
		if (isC(b) && a->op==Op::Ite && (isC(a->k[1])||isC(a->k[2]))) return mkIte(a->k[0],mk(op,1,a->k[1],b),mk(op,1,a->k[2],b));
		if (isC(a) && b->op==Op::Ite && (isC(b->k[1])||isC(b->k[2]))) return mkIte(b->k[0],mk(op,1,a,b->k[1]),mk(op,1,a,b->k[2]));
		if (a->op==Op::ZExt && b->op==Op::ZExt && a->k[0]->w==b->k[0]->w) return mk((op==Op::Ult||op==Op::Slt)?Op::Ult:Op::Ule,1,a->k[0],b->k[0]);
		if (a->op==Op::ZExt && isC(b) && (op==Op::Ult||op==Op::Ule)) {
			int kw=a->k[0]->w; if (b->c > maskw(kw)) return mkConst(1,1);
			return mk(op,1,a->k[0],mkConst(kw,b->c));
		}
		break;
	case Op::ZExt:
		if (a->op==Op::ZExt) return mkZ(a->k[0],w);
		break;
	case Op::SExt:
		if (a->op==Op::SExt) return mkS(a->k[0],w);
		if (a->op==Op::ZExt && a->k[0]->w < a->w) return mkZ(a->k[0],w);
		break;
	case Op::Extract: {
		int off=(int)ec;
		if (off==0 && w==a->w) return a;
		if (a->op==Op::Extract) return mkX(a->k[0],off+(int)a->c,w);
		if (a->op==Op::ZExt) { int kw=a->k[0]->w; if (off>=kw) return mkConst(w,0); if (off+w<=kw) return mkX(a->k[0],off,w); return mkZ(mkX(a->k[0],off,kw-off),w); }
		if (a->op==Op::SExt) { int kw=a->k[0]->w; if (off+w<=kw) return mkX(a->k[0],off,w); if (off==0) return mkS(a->k[0],w); }
		if (a->op==Op::Concat) { int lw=a->k[1]->w; if (off>=lw) return mkX(a->k[0],off-lw,w); if (off+w<=lw) return mkX(a->k[1],off,w); return mkCat(mkX(a->k[0],0,off+w-lw),mkX(a->k[1],off,lw-off)); }
		if (a->op==Op::Ite) return mkIte(a->k[0],mkX(a->k[1],off,w),mkX(a->k[2],off,w));
		if (a->op==Op::And||a->op==Op::Or||a->op==Op::Xor) return mk(a->op,w,mkX(a->k[0],off,w),mkX(a->k[1],off,w));
		if (a->op==Op::Not) return mkNot(mkX(a->k[0],off,w));
		if (off==0 && (a->op==Op::Add||a->op==Op::Sub||a->op==Op::Mul)) return mk(a->op,w,mkX(a->k[0],0,w),mkX(a->k[1],0,w));
		break; }
	case Op::Concat:
		if (isC(a,0)) return mkZ(b,w);
		if (a->op==Op::Extract && b->op==Op::Extract && a->k[0]==b->k[0] && a->c==b->c+b->w) return mkX(a->k[0],(int)b->c,w);
		if (a->op==Op::Extract && b==a->k[0] && (int)a->c==0 && false) break;
		break;
	case Op::Ite:
		if (isC(a)) return a->c? b : c;
		if (b==c) return b;
		if (a->op==Op::Not) return mkIte(a->k[0],c,b);
		if (w==1) {
			if (isC(b,1)) return mkOr1(a,c);
			if (isC(b,0)) return mkAnd1(mkNot(a),c);
			if (isC(c,1)) return mkOr1(mkNot(a),b);
			if (isC(c,0)) return mkAnd1(a,b);
		}
		break;
	default: break;
	}
	return build(op,w,a,b,c,ec);
}

static uint32_t g_stamp = 0;
static uint64_t evalRec(E e, const Model& m) {
	if (e->sup == -1) return e->c;
	if (e->sup >= 0) return tabAt(e, m.get(e->sup));
	if (e->stamp == g_stamp) return e->memo;
	uint64_t r;
	if (e->op == Op::Lut) { uint64_t i = evalRec(e->k[0],m); auto& t = lutOf(e); r = t[i < t.size() ? i : 0]; }
	else if (e->op == Op::Ite) r = evalRec(e->k[0],m) ? evalRec(e->k[1],m) : evalRec(e->k[2],m);
	else {
		uint64_t a = evalRec(e->k[0],m), b = e->k[1]?evalRec(e->k[1],m):0;
		r = foldOp(e->op,e->w,e->k[0]->w,a,b,0,e->c,e->k[1]?e->k[1]->w:0);
	}
	e->stamp = g_stamp; e->memo = r; return r;
}
uint64_t evalE(E e, const Model& m) { ++g_stamp; return evalRec(e,m); }

std::string showE(E e, int d) {
	static const char* n[]={"const","var","not","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","zext","sext","extract","concat","ite","table","lut"};
	char b[64];
	if (e->op==Op::Const) { snprintf(b,64,"%llu:%d",(unsigned long long)e->c,e->w); return b; }
	if (e->op==Op::Var) { snprintf(b,64,"v%d",(int)e->c); return b; }
	if (!d) return "...";
	std::string s="("; s+=n[(int)e->op]; snprintf(b,64,":%d",e->w); s+=b; if (e->op==Op::Extract) { snprintf(b,64,"@%d",(int)e->c); s+=b; }
	for (int i=0;i<e->nk;i++) s+=" "+showE(e->k[i],d-1);
	return s+")";
}
