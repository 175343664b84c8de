// C library functions for symbolic runs, in plain loops (compiled with -fno-builtin).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
extern "C" {
void* sym_malloc(size_t n, int kind); void sym_free(void* p, int kind); size_t sym_heapsize(void*);
void sym_fail(const char* kind, const char* msg); uint64_t sym_concretize(uint64_t); uint64_t sym_select(uint64_t c, uint64_t a, uint64_t b);
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t);
int tolower(int); int toupper(int); int isspace(int);
static int g_errno; int* __errno_location() { return &g_errno; }
static int g_herrno; int* __h_errno_location() { return &g_herrno; }
enum { ERANGE_ = 34, EINVAL_ = 22, ENOMEM_ = 12 };
// memory
void* malloc(size_t n) { void* p = sym_malloc(n, 3); if (!p) g_errno = ENOMEM_; return p; }
void free(void* p) { sym_free(p, 3); }
void* calloc(size_t a, size_t b) { size_t n = a * b; if (b && n / b != a) return 0; void* p = malloc(n); if (p && n) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return 0; } void* q = malloc(n); if (!q) return 0; size_t o = sym_heapsize(p); if (o < n) n = o; if (n) memcpy(q, p, n); free(p); return q; }
void explicit_bzero(void* p, size_t n) { if (n) memset(p, 0, n); }
void bzero(void* p, size_t n) { if (n) memset(p, 0, n); }
// strings
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!*a) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!*a) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char*)s; }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strstr(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char*)h; if (!*h) return 0; } }
char* strcasestr(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } if (!*b) return (char*)h; if (!*h) return 0; } }
char* strpbrk(const char* s, const char* set) { for (; *s; s++) if (strchr(set, *s)) return (char*)s; return 0; }
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); if (p) memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)malloc(n + 1); if (p) { if (n) memcpy(p, s, n); p[n] = 0; } return p; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n) if (p[--n] == (unsigned char)c) return (void*)(p + n); return 0; }
void* rawmemchr(const void* s, int c) { const unsigned char* p = (const unsigned char*)s; while (*p != (unsigned char)c) p++; return (void*)p; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const char* p = (const char*)h; for (; hn >= nn; p++, hn--) if (!nn || !memcmp(p, n, nn)) return (void*)p; return 0; }
void* mempcpy(void* d, const void* s, size_t n) { if (n) memcpy(d, s, n); return (char*)d + n; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char* strerror(int) { static char b[] = "error"; return b; }
// numbers (glibc semantics, C locale; the __isoc23 variants also accept 0b prefixes)
static int digitOf(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long conv(const char* s, char** end, int base, bool sign, bool c23) {
	const char* p = s; while (isspace((unsigned char)*p)) p++;
	bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf((unsigned char)p[2]) < 16) { p += 2; base = 16; }
	else if (c23 && (base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && digitOf((unsigned char)p[2]) < 2) { p += 2; base = 2; }
	else if (base == 0) base = p[0] == '0' ? 8 : 10;
	unsigned long v = 0; bool any = false, ov = false;
	for (;; p++) { int d = digitOf((unsigned char)*p); if (d >= base) break; any = true; unsigned long t;
		if (!ov) { if (__builtin_mul_overflow(v, (unsigned long)base, &t) || __builtin_add_overflow(t, (unsigned long)d, &t)) ov = true; else v = t; } }
	if (end) *end = (char*)(any ? p : s);
	if (sign) { if (ov || (neg ? v > 1ul << 63 : v > ~0ul >> 1)) { g_errno = ERANGE_; return neg ? 1ul << 63 : ~0ul >> 1; } return neg ? 0ul - v : v; }
	if (ov) { g_errno = ERANGE_; return ~0ul; }
	return neg ? 0ul - v : v;
}
#define CV(N, T, S) T N(const char* s, char** e, int b) { return (T)conv(s, e, b, S, false); } T __isoc23_##N(const char* s, char** e, int b) { return (T)conv(s, e, b, S, true); }
CV(strtol, long, true) CV(strtoul, unsigned long, false) CV(strtoll, long long, true) CV(strtoull, unsigned long long, false) CV(strtoimax, long, true) CV(strtoumax, unsigned long, false)
int atoi(const char* s) { return (int)conv(s, 0, 10, true, false); } long atol(const char* s) { return (long)conv(s, 0, 10, true, false); } long long atoll(const char* s) { return (long long)conv(s, 0, 10, true, false); }
// formatted output
struct Out { char* p; size_t cap, n; };
static void put(Out* o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void fmtNum(Out* o, unsigned long v, unsigned base, bool up, const char* pre, int width, int prec, bool left, bool zero) {
	char b[72]; int n = 0;
	if (base == 16 || base == 8) { unsigned sh = base == 16 ? 4 : 3; if (!(prec == 0 && v == 0)) do { unsigned long d = v & (base - 1); b[n++] = (char)sym_select(d < 10, '0' + d, (up ? 'A' : 'a') + d - 10); v >>= sh; } while (v); }
	else if (!(prec == 0 && v == 0)) { v = sym_concretize(v); do { unsigned d = (unsigned)(v % base); b[n++] = (char)('0' + d); v /= base; } while (v); }
	while (n < prec && n < 70) b[n++] = '0'; int pl = (int)strlen(pre); int pad = width - n - pl;
	if (!left && !zero) while (pad-- > 0) put(o, ' ');
	while (*pre) put(o, *pre++);
	if (!left && zero) while (pad-- > 0) put(o, '0');
	while (n) put(o, b[--n]);
	if (left) while (pad-- > 0) put(o, ' ');
}
static void format(Out* o, const char* f, va_list ap) {
	for (; *f; f++) {
		if (*f != '%') { put(o, *f); continue; } f++;
		bool left = false, zero = false, alt = false, plus = false, sp = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else if (*f == ' ') sp = true; else break; }
		int w = 0, prec = -1; if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		int lg = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 't' || *f == 'j' || *f == 'q') lg = 8; else if (*f == 'h') lg--; else break; }
		switch (*f) {
		case 'd': case 'i': { long v = lg == 8 ? va_arg(ap, long) : va_arg(ap, int); if (lg == -1) v = (short)v; else if (lg == -2) v = (signed char)v; v = (long)sym_concretize((uint64_t)v); fmtNum(o, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, 10, false, v < 0 ? "-" : plus ? "+" : sp ? " " : "", w, prec, left, zero && prec < 0); break; }
		case 'u': case 'x': case 'X': case 'o': { unsigned long v = lg == 8 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lg == -1) v = (unsigned short)v; else if (lg == -2) v = (unsigned char)v; fmtNum(o, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', alt && v && *f == 'x' ? "0x" : alt && v && *f == 'X' ? "0X" : "", w, prec, left, zero && prec < 0); break; }
		case 'p': fmtNum(o, (unsigned long)va_arg(ap, void*), 16, false, "0x", w, -1, left, false); break;
		case 'c': { char c = (char)va_arg(ap, int); if (!left) for (int i = 1; i < w; i++) put(o, ' '); put(o, c); if (left) for (int i = 1; i < w; i++) put(o, ' '); break; }
		case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; int n = 0; while ((prec < 0 || n < prec) && s[n]) n++; if (!left) for (int i = n; i < w; i++) put(o, ' '); for (int i = 0; i < n; i++) put(o, s[i]); if (left) for (int i = n; i < w; i++) put(o, ' '); break; }
		case '%': put(o, '%'); break;
		case 'n': *va_arg(ap, int*) = (int)o->n; break;
		default: sym_fail("unsupported", "printf conversion"); return;
		}
	}
}
int vsnprintf(char* p, size_t cap, const char* f, va_list ap) { Out o = {p, cap, 0}; format(&o, f, ap); if (cap) p[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int vasprintf(char** r, const char* f, va_list ap) { va_list c; va_copy(c, ap); Out o = {0, 0, 0}; format(&o, f, c); va_end(c); char* p = (char*)malloc(o.n + 1); if (!p) return -1; *r = p; return vsnprintf(p, o.n + 1, f, ap); }
int snprintf(char* p, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(p, n, f, a); va_end(a); return r; }
int sprintf(char* p, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(p, 1u << 20, f, a); va_end(a); return r; }
int asprintf(char** p, const char* f, ...) { va_list a; va_start(a, f); int r = vasprintf(p, f, a); va_end(a); return r; }
int __vsnprintf_chk(char* p, size_t n, int, size_t, const char* f, va_list a) { return vsnprintf(p, n, f, a); }
int __vasprintf_chk(char** p, int, const char* f, va_list a) { return vasprintf(p, f, a); }
int printf(const char*, ...) { return 0; } int fprintf(void*, const char*, ...) { return 0; } int puts(const char*) { return 0; } int putchar(int c) { return c; } int fputs(const char*, void*) { return 0; } int fflush(void*) { return 0; } size_t fwrite(const void*, size_t, size_t n, void*) { return n; } int fputc(int c, void*) { return c; }
static char g_std[3]; void *stdout = g_std, *stderr = g_std + 1, *stdin = g_std + 2; char* __progname; char* program_invocation_name;
// time: a clock the harness sets
static long g_now = 1600000000, g_timeCalls;
void sym_set_time(long t) { g_now = t; } long sym_time_calls() { return g_timeCalls; }
long time(long* t) { g_timeCalls++; if (t) *t = g_now; return g_now; }
struct ts { long s, n; };
int gettimeofday(struct ts* t, void*) { g_timeCalls++; t->s = g_now; t->n = 0; return 0; }
int clock_gettime(int, struct ts* t) { g_timeCalls++; t->s = g_now; t->n = 0; return 0; }
long _ZNSt6chrono3_V212system_clock3nowEv() { g_timeCalls++; return g_now * 1000000000l; }
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* b = (char*)base; char t[256]; for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) { memcpy(t, b + j * sz, sz); memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, t, sz); } }
unsigned short ntohs(unsigned short x) { return (unsigned short)((x << 8) | (x >> 8)); } unsigned short htons(unsigned short x) { return ntohs(x); }
unsigned ntohl(unsigned x) { return __builtin_bswap32(x); } unsigned htonl(unsigned x) { return __builtin_bswap32(x); }
char* getenv(const char*) { return 0; }
void sym_lock(void*, int); void sym_guard(int); void sym_race(const char*);
int pthread_mutex_lock(void* m) { sym_lock(m, 1); return 0; } int pthread_mutex_trylock(void* m) { sym_lock(m, 1); return 0; } int pthread_mutex_unlock(void* m) { sym_lock(m, 0); return 0; } int pthread_rwlock_rdlock(void* m) { sym_lock(m, 2); return 0; } int pthread_rwlock_wrlock(void* m) { sym_lock(m, 1); return 0; } int pthread_rwlock_unlock(void* m) { sym_lock(m, 0); return 0; }
int pthread_spin_lock(void* m) { sym_lock(m, 1); return 0; } int pthread_spin_unlock(void* m) { sym_lock(m, 0); return 0; } int pthread_mutex_init(void*, const void*) { return 0; } int pthread_mutex_destroy(void*) { return 0; } int pthread_rwlock_init(void*, const void*) { return 0; } int pthread_rwlock_destroy(void*) { return 0; }
int pthread_once(int* o, void (*f)()) { sym_guard(1); if (!*o) { *o = 1; f(); } sym_guard(-1); return 0; }
static char* strtokPos; char* strtok(char* s, const char* d) { sym_race("strtok keeps its position in a variable all threads share"); return strtok_r(s, d, &strtokPos); }
 unsigned long pthread_self() { return 1; }
const unsigned short** __ctype_b_loc() { static unsigned short t[384]; static const unsigned short* p; if (!p) { for (int c = 0; c < 128; c++) { bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13), g = c > 32 && c < 127; unsigned v = 0; if (u) v |= 1 << 8; if (l) v |= 1 << 9; if (u || l) v |= 1 << 10; if (d) v |= 1 << 11; if (d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) v |= 1 << 12; if (sp) v |= 1 << 13; if (g || c == 32) v |= 1 << 14; if (g) v |= 1 << 15; if (c == 32 || c == 9) v |= 1; if (c < 32 || c == 127) v |= 2; if (g && !u && !l && !d) v |= 4; if (u || l || d) v |= 8; t[128 + c] = (unsigned short)v; } p = t + 128; } return &p; }
const int** __ctype_tolower_loc() { static int t[384]; static const int* p; if (!p) { for (int c = -128; c < 256; c++) t[128 + c] = c >= 'A' && c <= 'Z' ? c + 32 : c; p = t + 128; } return &p; }
const int** __ctype_toupper_loc() { static int t[384]; static const int* p; if (!p) { for (int c = -128; c < 256; c++) t[128 + c] = c >= 'a' && c <= 'z' ? c - 32 : c; p = t + 128; } return &p; }
// resolver: the harness supplies the answers
// getopt after glibc (argument permutation, abbreviated long options, optional arguments)
struct option { const char* name; int has_arg; int* flag; int val; };
char* optarg; int optind = 1, opterr = 1, optopt = '?'; static char* g_next; static int g_first, g_last; static bool g_init;
static void exchange(char** v) { int b = g_first, m = g_last, t = optind; for (int i = m; i < t; i++) { char* x = v[i]; for (int j = i; j > b; j--) v[j] = v[j - 1]; v[b++] = x; } g_first += t - m; g_last = t; }
int getopt_long(int argc, char* const* cv, const char* sh, const option* lo, int* li) {
	char** v = (char**)cv; if (argc < 1) return -1; optarg = 0; bool quiet = *sh == ':';
	if (optind == 0 || !g_init) { if (optind == 0) optind = 1; g_first = g_last = optind; g_next = 0; g_init = true; }
	if (!g_next || !*g_next) {
		if (g_last > optind) g_last = optind; if (g_first > optind) g_first = optind;
		if (g_first != g_last && g_last != optind) exchange(v); else if (g_last != optind) g_first = optind;
		while (optind < argc && (v[optind][0] != '-' || v[optind][1] == 0)) optind++; g_last = optind;
		if (optind != argc && !strcmp(v[optind], "--")) { optind++; if (g_first != g_last && g_last != optind) exchange(v); else if (g_first == g_last) g_first = optind; g_last = argc; optind = argc; }
		if (optind == argc) { if (g_first != g_last) optind = g_first; return -1; }
		if (v[optind][1] == '-') {
			char* n = v[optind] + 2; size_t l = 0; while (n[l] && n[l] != '=') l++; const option *f = 0, *p = 0; bool amb = false;
			for (const option* o = lo; o->name; o++) if (!strncmp(o->name, n, l)) { if (strlen(o->name) == l) { f = o; break; } if (!p) p = o; else if (p->has_arg != o->has_arg || p->flag != o->flag || p->val != o->val) amb = true; }
			if (!f && amb) { optind++; optopt = 0; return '?'; } if (!f) f = p; optind++; g_next = 0; if (!f) { optopt = 0; return '?'; }
			if (n[l]) { if (!f->has_arg) { optopt = f->val; return '?'; } optarg = n + l + 1; } else if (f->has_arg == 1) { if (optind < argc) optarg = v[optind++]; else { optopt = f->val; return quiet ? ':' : '?'; } }
			if (li) *li = (int)(f - lo); if (f->flag) { *f->flag = f->val; return 0; } return f->val;
		}
		g_next = v[optind] + 1;
	}
	char c = *g_next++; const char* t = 0; for (const char* q = sh; *q; q++) if (*q == c) { t = q; break; } if (!*g_next) optind++;
	if (!t || c == ':' || c == ';') { optopt = (unsigned char)c; return '?'; }
	if (t[1] == ':') { if (t[2] == ':') { if (*g_next) { optarg = g_next; optind++; } g_next = 0; } else { if (*g_next) { optarg = g_next; optind++; } else if (optind == argc) { optopt = (unsigned char)c; g_next = 0; return quiet ? ':' : '?'; } else optarg = v[optind++]; g_next = 0; } }
	return (unsigned char)c;
}
int getopt(int argc, char* const* v, const char* sh) { static const option none = {0, 0, 0, 0}; return getopt_long(argc, v, sh, &none, 0); }
struct __res_state;
int sym_dns_hook(void*, const char*, int, int, unsigned char*, int) __attribute__((weak));
static int nq(void* st, const char* n, int c, int t, unsigned char* a, int l) { if (sym_dns_hook) return sym_dns_hook(st, n, c, t, a, l); return -1; }
static int g_resLive; int __res_ninit(void*) { g_resLive++; return 0; } int res_ninit(void* s) { return __res_ninit(s); } void __res_nclose(void*) { g_resLive--; } void res_nclose(void* s) { __res_nclose(s); } int __res_init() { return 0; } int res_init() { return 0; } void res_close() {} void __res_close() {}
long sym_res_live() { return g_resLive; }
int res_nquery(void* st, const char* n, int c, int t, unsigned char* a, int l) { return nq(st, n, c, t, a, l); } int __res_nquery(void* st, const char* n, int c, int t, unsigned char* a, int l) { return nq(st, n, c, t, a, l); } int res_nsearch(void* st, const char* n, int c, int t, unsigned char* a, int l) { return nq(st, n, c, t, a, l); }
int dn_skipname(const unsigned char* p, const unsigned char* eom) {
	const unsigned char* cp = p;
	while (cp < eom) { unsigned n = *cp++; if (n == 0) return (int)(cp - p);
		switch (n & 0xc0) { case 0: if (eom - cp < (long)n) { g_errno = 90; return -1; } cp += n; break; case 0xc0: if (cp == eom) { g_errno = 90; return -1; } return (int)(cp + 1 - p); default: g_errno = 90; return -1; } }
	g_errno = 90; return -1;
}
int __dn_skipname(const unsigned char* p, const unsigned char* e) { return dn_skipname(p, e); }
unsigned ns_get16(const unsigned char* p) { return (unsigned)p[0] << 8 | p[1]; } unsigned long ns_get32(const unsigned char* p) { return (unsigned long)p[0] << 24 | (unsigned long)p[1] << 16 | (unsigned long)p[2] << 8 | p[3]; }
}
