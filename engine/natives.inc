// natively modelled functions: analysis interface, raw memory, character classes
static void ret(State& s, Inst& in, const Val& v) { if (in.dst >= 0 && in.n > 0) s.regs[s.fr.back().base + in.dst] = v; }
static bool readStr(State& s, uint64_t a, std::string& out) { for (;;) { uint32_t off; Obj* o = access(s, a, 1, false, off); if (!o) return false; if (o->sym && o->sym[off]) { out += '?'; } else { if (!o->data[off]) return true; out += (char)o->data[off]; } a++; } }
static bool conc(State& s, Val& v) { return concretize(s, v, v.e ? v.e->w : 64); }

static Res n_sym_bytes(State& s, Inst& in, Val* a, int) {
	std::string name; if (!readStr(s, a[2].c, name)) return R_KILL; conc(s, a[1]); uint64_t n = a[1].c; uint32_t off;
	Obj* o = n ? access(s, a[0].c, n, true, off) : nullptr; if (n && !o) return R_KILL;
	Input i; i.name = name; i.occ = s.occ[name]++; i.var0 = (int)s.dom.size(); i.n = (int)n; i.val = 0; s.inputs.push_back(i);
	for (uint64_t k = 0; k < n; k++) { int v = (int)s.dom.size(); s.dom.push_back(Bits256::all()); s.ent.push_back(0); s.model.set(v, 0); setByte(o, off + k, VE(mkVar(v))); }
	return R_NEXT;
}
static Res n_sym_range(State& s, Inst& in, Val* a, int) {
	std::string name; if (!readStr(s, a[2].c, name)) return R_KILL;
	int64_t lo = (int64_t)a[0].c, hi = (int64_t)a[1].c; Input i; i.name = name; i.occ = s.occ[name]++; i.var0 = -1; i.n = 8;
	Frame* f;
	for (int64_t v = hi; v > lo; v--) {
		State* o = forkState(s); i.val = (uint64_t)v; o->inputs.push_back(i); f = &o->fr.back(); o->regs[f->base + in.dst] = VC((uint64_t)v);
		if (in.e0) takeEdge(*o, *f, in.e0); else f->pc++;
		stk.push_back(o);
	}
	i.val = (uint64_t)lo; s.inputs.push_back(i); ret(s, in, VC((uint64_t)lo)); return R_NEXT;
}
static Res n_sym_assume(State& s, Inst& in, Val* a, int) {
	if (!a[0].e) { if (a[0].c) return R_NEXT; add(SH->pruned); return R_KILL; }
	E c = a[0].e; if (c->w != 1) c = mkNot(mkEq(c, mkConst(c->w, 0)));
	Model mt; E q = c; int d = decide(s, q, &mt, nullptr); if (!(d & 1)) { add(SH->pruned); return R_KILL; }
	if (d == 3) { s.model = mt; constrain(s, q); }
	return R_NEXT;
}
static Res n_sym_assert(State& s, Inst& in, Val* a, int) {
	add(SH->vcs); std::string msg; if (!readStr(s, a[1].c, msg)) return R_KILL;
	if (!a[0].e) { if (a[0].c) { add(SH->vcFolded); return R_NEXT; } report(s, "assert", msg, s.model); return R_KILL; }
	E c = a[0].e; if (c->w != 1) c = mkNot(mkEq(c, mkConst(c->w, 0)));
	c = simplify(s, c); if (isC(c) && c->c) { add(SH->vcFolded); return R_NEXT; }
	std::vector<E> cs; flat(Op::And, c, cs); Model mf; Z3_lbool r = Z3_L_FALSE; bool asked = false;
	for (E x : cs) {
		x = specialise(s, x); if (isC(x) && x->c) continue;
		if (isC(x)) { mf = s.model; r = Z3_L_TRUE; break; }
		if (x->sup >= 0) { int v = x->sup; Bits256 F = s.dom[v] & ~bitsOf(x); if (F.empty()) continue; if (!s.ent[v]) { mf = s.model; if (bitsOf(x).get(s.model.get(v))) mf.set(v, (uint8_t)F.first()); r = Z3_L_TRUE; break; } }
		asked = true; r = solve(s, mkNot(x), &mf); if (r == Z3_L_TRUE) break;
	}
	add(asked ? SH->vcSolver : SH->vcFolded);
	if (r == Z3_L_TRUE) { report(s, "assert", msg, mf); Model mt; E q = c; int d = decide(s, q, &mt, nullptr); if (!(d & 1)) return R_KILL; s.model = mt; constrain(s, q); return R_NEXT; }
	return R_NEXT;
}
static Res n_sym_reach(State& s, Inst& in, Val* a, int) {
	std::string n; if (!readStr(s, a[0].c, n)) return R_KILL; n = n.substr(0, 47);
	for (int k = 0; k < SH->nreach; k++) if (n == SH->reachName[k]) { add(SH->reach[k]); return R_NEXT; }
	lockSh(); int k; for (k = 0; k < SH->nreach; k++) if (n == SH->reachName[k]) break;
	if (k == SH->nreach && k < 64) { strcpy(SH->reachName[k], n.c_str()); SH->nreach++; }
	unlockSh(); if (k < 64) add(SH->reach[k]);
	return R_NEXT;
}
static Res n_sym_observe(State& s, Inst& in, Val* a, int) {
	std::string n; if (!readStr(s, a[2].c, n)) return R_KILL; conc(s, a[1]); Observed ob; ob.name = n; uint32_t off; Obj* o = a[1].c ? access(s, a[0].c, a[1].c, false, off) : nullptr; if (a[1].c && !o) return R_KILL;
	for (uint64_t k = 0; k < a[1].c; k++) ob.bytes.push_back(byteAt(o, off + k));
	s.obs.push_back(std::move(ob)); return R_NEXT;
}
static Res n_sym_fail(State& s, Inst& in, Val* a, int) { std::string k, m; readStr(s, a[0].c, k); readStr(s, a[1].c, m); static std::set<std::string> keep; const char* kk = keep.insert(k).first->c_str(); report(s, kk, m, s.model); return R_KILL; }
static Res n_sym_is_symbolic(State& s, Inst& in, Val* a, int) { uint32_t off; conc(s, a[1]); if (!a[1].c) { ret(s, in, VC(0)); return R_NEXT; } Obj* o = access(s, a[0].c, a[1].c, false, off); if (!o) return R_KILL; bool y = false; if (o->sym) for (uint64_t k = 0; k < a[1].c; k++) if (o->sym[off + k]) y = true; ret(s, in, VC(y)); return R_NEXT; }
static Res n_sym_live(State& s, Inst& in, Val* a, int) { ret(s, in, VC((uint64_t)s.liveHeap)); return R_NEXT; }
static Res n_sym_conc(State& s, Inst& in, Val* a, int) { conc(s, a[0]); ret(s, in, a[0]); return R_NEXT; }
static Res n_sym_true(State& s, Inst& in, Val* a, int) { ret(s, in, VC(1)); return R_NEXT; }
static Res n_sym_select(State& s, Inst& in, Val* a, int) { // branch-free choice
	if (!a[0].e) { ret(s, in, a[0].c ? a[1] : a[2]); return R_NEXT; }
	E c = a[0].e; if (c->w != 1) c = mkNot(mkEq(c, mkConst(c->w, 0))); c = specialise(s, c);
	if (isC(c)) { ret(s, in, c->c ? a[1] : a[2]); return R_NEXT; }
	ret(s, in, ite(c, a[1], a[2], 64)); return R_NEXT;
}
// threads: sym_shared(k) starts the turn of thread k (0: ends), sym_lock(address, how: 1 exclusive, 2 shared, 0 release), sym_guard(+1/-1) brackets once-only initialisation
static Res n_sym_shared(State& s, Inst& in, Val* a, int) { s.epoch = (uint8_t)a[0].c; s.locks.clear(); s.guard = 0; if (!s.epoch) s.shared.clear(); return R_NEXT; }
static Res n_sym_lock(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); uint64_t m = a[0].c & ~1ull; if (!s.epoch) return R_NEXT;
	if (a[1].c) { s.locks.push_back(m | (a[1].c == 2)); std::sort(s.locks.begin(), s.locks.end()); }
	else for (auto it = s.locks.begin(); it != s.locks.end(); ++it) if ((*it & ~1ull) == m) { s.locks.erase(it); break; }
	return R_NEXT;
}
static Res n_sym_guard(State& s, Inst& in, Val* a, int) { s.guard += (int)(int32_t)a[0].c; return R_NEXT; }
static Res n_sym_race(State& s, Inst& in, Val* a, int) { if (!s.epoch || s.guard) return R_NEXT; std::string m; readStr(s, a[0].c, m); return fail(s, "race", "%s", m.c_str()); }
// malloc family: sym_malloc(size, kind) / sym_free(ptr, kind)
static Res n_sym_malloc(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); if (a[0].c > (64u << 20)) { ret(s, in, VC(0)); return R_NEXT; }
	uint64_t p = s.alloc((uint32_t)a[0].c, (Kind)(a[1].c & 15)); if (!(a[1].c & 16)) s.liveHeap++; else s.find(p)->o->epoch = 255; /* the model's own */ ret(s, in, VC(p)); return R_NEXT;
}
static Res n_sym_free(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); uint64_t p = a[0].c; if (!p) return R_NEXT; Slot* sl = s.find(p);
	if (!sl) return fail(s, "memory", "release of a wild pointer");
	if (!sl->o || (sl->gen & 0xfff) != (p >> 51)) return fail(s, "memory", "double release");
	Kind k = (Kind)(a[1].c & 15);
	if (sl->o->kind != k) return fail(s, "memory", "release of a %s object as %s", kindName[sl->o->kind], kindName[k]);
	if ((p & 0xffffffff) != BASE) return fail(s, "memory", "release of an interior pointer");
	if (s.epoch && !raceCheck(s, p, sl->o, 0, sl->o->size, true)) return R_KILL;
	if (!(a[1].c & 16)) s.liveHeap--; s.release(p); return R_NEXT;
}
static Res n_sym_heapsize(State& s, Inst& in, Val* a, int) { Slot* sl = s.find(a[0].c); ret(s, in, VC(sl && sl->o ? sl->o->size : 0)); return R_NEXT; }
static Res n_memcpy(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); conc(s, a[1]); conc(s, a[2]); uint64_t n = a[2].c; ret(s, in, a[0]); if (!n) return R_NEXT;
	if (n > (1u << 30)) return fail(s, "memory", "copy of %llu bytes", (unsigned long long)n);
	uint32_t so, d0; Obj* src = access(s, a[1].c, n, false, so); if (!src) return R_KILL;
	Obj* dst = access(s, a[0].c, n, true, d0); if (!dst) return R_KILL; src = access(s, a[1].c, n, false, so);
	memmove(dst->data + d0, src->data + so, n);
	if (src->sym || dst->sym) {
		if (!src->sym) memset(dst->sym + d0, 0, n * sizeof(E));
		else { if (!dst->sym) { bool any = false; for (uint64_t k = 0; k < n && !any; k++) any = src->sym[so + k]; if (!any) return R_NEXT; dst->sym = (E*)calloc(dst->size, sizeof(E)); } memmove(dst->sym + d0, src->sym + so, n * sizeof(E)); }
	}
	return R_NEXT;
}
static Res n_memset(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); conc(s, a[2]); uint64_t n = a[2].c; ret(s, in, a[0]); if (!n) return R_NEXT; uint32_t off; Obj* o = access(s, a[0].c, n, true, off); if (!o) return R_KILL;
	if (a[1].e) { Val b = VE(mkX(a[1].e, 0, 8)); for (uint64_t k = 0; k < n; k++) setByte(o, off + k, b); }
	else { memset(o->data + off, (int)a[1].c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(E)); }
	return R_NEXT;
}
static Res n_memcmp(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); conc(s, a[1]); conc(s, a[2]); uint64_t n = a[2].c; if (!n) { ret(s, in, VC(0)); return R_NEXT; } uint32_t p, q; Obj* x = access(s, a[0].c, n, false, p); if (!x) return R_KILL; Obj* y = access(s, a[1].c, n, false, q); if (!y) return R_KILL;
	if (!x->sym && !y->sym) { int r = memcmp(x->data + p, y->data + q, n); ret(s, in, VC((uint32_t)(r < 0 ? -1 : r > 0))); return R_NEXT; }
	E r = mkConst(32, 0);
	uint64_t stop = n; for (uint64_t k = 0; k < n; k++) { Val u = byteAt(x, p + k), v = byteAt(y, q + k); if (!u.e && !v.e && u.c != v.c) { stop = k + 1; break; } }
	for (uint64_t k = stop; k-- > 0;) {
		Val u = byteAt(x, p + k), v = byteAt(y, q + k); E eu = asE(u, 8), ev = asE(v, 8); if (eu == ev) continue;
		E lt = mk(Op::Ult, 1, eu, ev), eq = mkEq(eu, ev); E ne = mkIte(lt, mkConst(32, 0xffffffff), mkConst(32, 1));
		r = mkIte(eq, r, ne);
	}
	ret(s, in, VE(r)); return R_NEXT;
}
static Res n_bcmp(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); conc(s, a[1]); conc(s, a[2]); uint64_t n = a[2].c; if (!n) { ret(s, in, VC(0)); return R_NEXT; } uint32_t p, q; Obj* x = access(s, a[0].c, n, false, p); if (!x) return R_KILL; Obj* y = access(s, a[1].c, n, false, q); if (!y) return R_KILL;
	E eq = mkConst(1, 1);
	for (uint64_t k = 0; k < n; k++) { Val u = byteAt(x, p + k), v = byteAt(y, q + k); if (!u.e && !v.e) { if (u.c != v.c) { eq = mkConst(1, 0); break; } continue; } eq = mkAnd1(eq, mkEq(asE(u, 8), asE(v, 8))); if (isC(eq) && !eq->c) break; }
	ret(s, in, VE(mkZ(mkNot(eq), 32))); return R_NEXT;
}
// memchr over a concrete buffer with a symbolic byte: lookup table; otherwise the IR loop sym_memchr_loop decides
static Res n_memchr(State& s, Inst& in, Val* a, int) {
	conc(s, a[0]); conc(s, a[2]); uint64_t n = a[2].c; if (!n) { ret(s, in, VC(0)); return R_NEXT; } 
	Slot* sl = s.find(a[0].c); uint64_t lim = n; if (sl && sl->o && (sl->gen & 0xfff) == (a[0].c >> 51)) { int64_t of = (int64_t)(a[0].c & 0xffffffff) - (int64_t)BASE; if (of >= 0 && of <= (int64_t)sl->o->size && n > (uint64_t)(sl->o->size - of)) lim = sl->o->size - of; }
	uint32_t off; Obj* o = access(s, a[0].c, lim ? lim : 1, false, off); if (!o) return R_KILL;
	bool sym = false; if (o->sym) for (uint64_t k = 0; k < lim; k++) if (o->sym[off + k]) { sym = true; break; }
	E c = a[1].e ? mkX(a[1].e, 0, 8) : nullptr;
	if (!sym && (!c || isC(c))) { uint8_t x = c ? (uint8_t)c->c : (uint8_t)a[1].c; void* r = memchr(o->data + off, x, lim); if (!r && lim < n) return fail(s, "memory", "memchr beyond the object"); ret(s, in, VC(r ? a[0].c + ((uint8_t*)r - (o->data + off)) : 0)); return R_NEXT; }
	if (!sym && c->sup >= 0 && lim == n) {
		uint64_t t[256]; for (int i = 0; i < 256; i++) { void* r = memchr(o->data + off, (int)tabAt(c, i), n); t[i] = r ? a[0].c + ((uint8_t*)r - (o->data + off)) : 0; }
		ret(s, in, VE(mkTable(c->sup, 64, t))); return R_NEXT;
	}
	// fork per position: first the loop position 0.. as nested choices
	for (uint64_t k = 0; k < lim; k++) {
		E b = asE(byteAt(o, off + k), 8), x = c ? c : mkConst(8, a[1].c); E eq = mkEq(b, x); Model mt, mf; int d = decide(s, eq, &mt, &mf);
		if (d == 2) continue;
		if (d == 3) { State* q = forkState(s); q->model = mf; constrain(*q, mkNot(eq)); stk.push_back(q); /* re-executes the call: position k is excluded there */ s.model = mt; constrain(s, eq); }
		ret(s, in, VC(a[0].c + k)); return R_NEXT;
	}
	if (lim < n) return fail(s, "memory", "memchr beyond the object");
	ret(s, in, VC(0)); return R_NEXT;
}
template <int (*F)(int)> static Res n_ctype(State& s, Inst& in, Val* a, int) {
	auto norm = [](uint64_t x) { int c = (int)(int32_t)(uint32_t)x; int r = (c >= -128 && c <= 255) ? F(c) : 0; return (uint64_t)(uint32_t)r; };
	if (a[0].e) a[0] = VE(specialise(s, a[0].e));
	if (!a[0].e) { ret(s, in, VC(norm(a[0].c))); return R_NEXT; }
	if (a[0].e->sup >= 0) { uint64_t t[256]; for (int i = 0; i < 256; i++) t[i] = norm(tabAt(a[0].e, i)); ret(s, in, VE(mkTable(a[0].e->sup, 32, t))); return R_NEXT; }
	conc(s, a[0]); ret(s, in, VC(norm(a[0].c))); return R_NEXT;
}
static int c_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int c_upper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int c_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int c_digit(int c) { return c >= '0' && c <= '9'; }
static int c_alpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static int c_alnum(int c) { return c_digit(c) || c_alpha(c); }
static int c_xdigit(int c) { return c_digit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
static int c_print(int c) { return c >= 32 && c < 127; }
static int c_graph(int c) { return c > 32 && c < 127; }
static int c_cntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static int c_punct(int c) { return c_graph(c) && !c_alnum(c); }
static int c_isupper(int c) { return c >= 'A' && c <= 'Z'; }
static int c_islower(int c) { return c >= 'a' && c <= 'z'; }
static int c_blank(int c) { return c == ' ' || c == 9; }
static Res n_unwind(State& s, Inst& in, Val* a, int) { popFrame(s); /* the runtime function that raises */ return unwind(s, a[0].c, a[1].c); }
static Res n_typeid_for(State& s, Inst& in, Val* a, int) { ret(s, in, VC((uint64_t)(uint32_t)typeId(a[0].c))); return R_NEXT; }
static Res n_vastart(State& s, Inst& in, Val* a, int) {
	uint32_t off; Obj* o = access(s, a[0].c, 24, true, off); if (!o) return R_KILL; Frame& f = s.fr.back(); if (!f.vararg) return fail(s, "unsupported", "va_start");
	storeObj(o, off, 32, VC(48)); storeObj(o, off + 4, 32, VC(176)); storeObj(o, off + 8, 64, VC(f.vararg)); storeObj(o, off + 16, 64, VC(0)); return R_NEXT;
}
static Res n_vacopy(State& s, Inst& in, Val* a, int) { uint32_t x, y; Obj* q = access(s, a[1].c, 24, false, y); if (!q) return R_KILL; Obj* o = access(s, a[0].c, 24, true, x); if (!o) return R_KILL; q = access(s, a[1].c, 24, false, y); for (int k = 0; k < 24; k++) setByte(o, x + k, byteAt(q, y + k)); return R_NEXT; }
static Res n_trap(State& s, Inst& in, Val* a, int n) { return fail(s, "ub", "undefined behaviour (check %d)", n ? (int)a[0].c : -1); }
static Res n_abort(State& s, Inst& in, Val* a, int) { return fail(s, "abort", "abort or terminate called"); }
static Res n_stacksave(State& s, Inst& in, Val* a, int) { ret(s, in, VC(0)); return R_NEXT; }
static Res n_nop(State& s, Inst& in, Val* a, int) { return R_NEXT; }
static Res n_end(State& s, Inst& in, Val* a, int) { finishPath(s); return R_KILL; }

static void registerNatives() {
	auto& N = natives;
	N["sym_bytes"] = n_sym_bytes; N["sym_range"] = n_sym_range; N["sym_assume"] = n_sym_assume; N["sym_assert"] = n_sym_assert; N["sym_reach"] = n_sym_reach; N["sym_observe"] = n_sym_observe;
	N["sym_fail"] = n_sym_fail; N["sym_is_symbolic"] = n_sym_is_symbolic; N["sym_live_heap"] = n_sym_live; N["sym_concretize"] = n_sym_conc; N["sym_symbolic_mode"] = n_sym_true; N["sym_select"] = n_sym_select; N["sym_end"] = n_end;
	N["sym_shared"] = n_sym_shared; N["sym_lock"] = n_sym_lock; N["sym_guard"] = n_sym_guard; N["sym_race"] = n_sym_race; N["sym_malloc"] = n_sym_malloc; N["sym_free"] = n_sym_free; N["sym_heapsize"] = n_sym_heapsize; N["sym_unwind"] = n_unwind;
	for (const char* k : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "llvm.memcpy.p0.p0.i32"}) N[k] = n_memcpy;
	for (const char* k : {"memset", "llvm.memset.p0.i64", "llvm.memset.p0.i32", "llvm.memset.inline.p0.i64"}) N[k] = n_memset;
	N["memcmp"] = n_memcmp; N["bcmp"] = n_bcmp; N["memchr"] = n_memchr;
	N["tolower"] = n_ctype<c_lower>; N["toupper"] = n_ctype<c_upper>; N["isspace"] = n_ctype<c_space>; N["isdigit"] = n_ctype<c_digit>; N["isalpha"] = n_ctype<c_alpha>; N["isalnum"] = n_ctype<c_alnum>; N["isxdigit"] = n_ctype<c_xdigit>; N["isprint"] = n_ctype<c_print>; N["isgraph"] = n_ctype<c_graph>; N["iscntrl"] = n_ctype<c_cntrl>; N["ispunct"] = n_ctype<c_punct>; N["isupper"] = n_ctype<c_isupper>; N["islower"] = n_ctype<c_islower>; N["isblank"] = n_ctype<c_blank>;
	N["llvm.eh.typeid.for"] = n_typeid_for; N["llvm.eh.typeid.for.p0"] = n_typeid_for; N["llvm.va_start"] = n_vastart; N["llvm.va_start.p0"] = n_vastart; N["llvm.va_copy"] = n_vacopy; N["llvm.va_copy.p0"] = n_vacopy;
	N["llvm.trap"] = n_trap; N["llvm.ubsantrap"] = n_trap; N["llvm.debugtrap"] = n_trap; N["abort"] = n_abort; N["sym_abort"] = n_abort; N["llvm.stacksave"] = n_stacksave; N["llvm.stacksave.p0"] = n_stacksave; N["llvm.stackrestore"] = n_nop; N["llvm.stackrestore.p0"] = n_nop;
}
