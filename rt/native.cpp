// Replay of engine cases against the real library: runs the same harness on concrete inputs with the real OpenSSL, libsodium and libc.
// usage: replay CASE...   prints, per case:  case FILE / obs NAME HEX ... / status KIND MESSAGE
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <new>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <signal.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <resolv.h>
#include <openssl/evp.h>
#include <openssl/bio.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <sodium.h>

static std::map<std::string, std::vector<std::vector<unsigned char>>>* inputs; static std::map<std::string, size_t>* used;
static bool quietAlloc = true; static long liveHeap; static long cryptoLive[4]; static long timeCalls; static long g_now = 1600000000; static long resLive; static int faultAt;
[[noreturn]] static void status(const char* k, const char* m) { quietAlloc = true; printf("status %s %s\n", k, m); fflush(stdout); _exit(0); }
static std::vector<unsigned char>* next(const char* name) { quietAlloc = true; size_t k = (*used)[name]++; auto it = inputs->find(name); if (it == inputs->end() || k >= it->second.size()) { status("noinput", name); } auto* r = &it->second[k]; quietAlloc = false; return r; }
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { auto* v = next(name); if (v->size() != n) status("noinput", name); if (n) memcpy(p, v->data(), n); }
int64_t sym_range(int64_t lo, int64_t hi, const char* name) { auto* v = next(name); int64_t x = 0; if (v->size() != 8) status("noinput", name); memcpy(&x, v->data(), 8); if (x < lo || x > hi) status("noinput", name); return x; }
void sym_assume(int c) { if (!c) status("assume", ""); }
void sym_assert(int c, const char* m) { if (!c) status("assert", m); }
void sym_reach(const char*) {}
void sym_observe(const void* p, size_t n, const char* name) { printf("obs %s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
void sym_fail(const char* k, const char* m) { status(k, m); }
int sym_is_symbolic(const void*, size_t) { return 0; }
long sym_crypto_live(int k) { return k < 0 ? cryptoLive[0] + cryptoLive[1] + cryptoLive[2] + cryptoLive[3] : cryptoLive[k]; }
int64_t sym_live_heap(void) { return liveHeap + sym_crypto_live(-1); }
uint64_t sym_concretize(uint64_t x) { return x; }
uint64_t sym_select(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_symbolic_mode(void) { return 0; }
void sym_end(void) { status("ok", ""); }
static int nearAt = -1; void sym_hash_near(int at) { nearAt = at; }
void sym_crypto_fault(int n) { faultAt = n; } static bool faulty() { return faultAt && --faultAt == 0; }
void sym_parallel(void (*f)(void*), void* const* x, int n) { bool q = quietAlloc; quietAlloc = true; std::atomic<int> c(0); std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([&, i]() { c++; while (c < n) {} for (int k = 0; k < 8; k++) f(x[i]); }); for (auto& y : t) y.join(); t.clear(); quietAlloc = q; }
long sym_time_calls(void) { return timeCalls; } void sym_set_time(long t) { g_now = t; } long sym_res_live() { return resLive; }
}
// ---- heap accounting: operator new/delete and the C allocation calls made by the code under test
enum { TN = 1 << 16 }; static struct { void* p; int k; } tab[TN];
static void note(void* p, int k) { if (!p || quietAlloc) return; liveHeap++; size_t h = ((size_t)p >> 4) % TN; while (tab[h].p && tab[h].p != (void*)1 && tab[h].p != p) h = (h + 1) % TN; tab[h].p = p; tab[h].k = k; }
static void drop(void* p, int k) { if (!p) return; size_t h = ((size_t)p >> 4) % TN; while (tab[h].p) { if (tab[h].p == p) { if (tab[h].k != k) status("memory", "release with the wrong function"); tab[h].p = (void*)1; liveHeap--; return; } h = (h + 1) % TN; } }
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_vasprintf(char**, const char*, va_list); int __real_asprintf(char**, const char*, ...); char* __real_strdup(const char*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); note(p, 0); return p; } void __wrap_free(void* p) { drop(p, 0); __real_free(p); } void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); note(p, 0); return p; } void* __wrap_realloc(void* o, size_t n) { drop(o, 0); void* p = __real_realloc(o, n); note(p, 0); return p; }
static bool argCase; static void formatFromData(const char* f) { Dl_info i; if (argCase && strchr(f, '%') && !dladdr(f, &i)) status("memory", "format string made of data"); } // only asked when the encoded run read behind the arguments of a formatting call
int __real_vsnprintf(char*, size_t, const char*, va_list); int __wrap_vsnprintf(char* p, size_t n, const char* f, va_list a) { formatFromData(f); return __real_vsnprintf(p, n, f, a); } int __wrap_snprintf(char* p, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(p, n, f, a); va_end(a); return r; }
int __wrap_vasprintf(char** r, const char* f, va_list a) { formatFromData(f); int x = __real_vasprintf(r, f, a); if (x >= 0) note(*r, 0); return x; } int __wrap___vasprintf_chk(char** r, int, const char* f, va_list a) { return __wrap_vasprintf(r, f, a); }
int __wrap_asprintf(char** r, const char* f, ...) { va_list a; va_start(a, f); int x = __wrap_vasprintf(r, f, a); va_end(a); return x; } char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); note(p, 0); return p; } }
static void* opnew(size_t n, int k) { if (n > (64u << 20)) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); note(p, k); return p; }
static void opdel(void* p, int k) { drop(p, k); __real_free(p); }
void* operator new(size_t n) { return opnew(n, 1); } void* operator new[](size_t n) { return opnew(n, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = n > (64u << 20) ? nullptr : __real_malloc(n ? n : 1); note(p, 1); return p; } void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = n > (64u << 20) ? nullptr : __real_malloc(n ? n : 1); note(p, 2); return p; }
void operator delete(void* p, const std::nothrow_t&) noexcept { opdel(p, 1); } void operator delete[](void* p, const std::nothrow_t&) noexcept { opdel(p, 2); }
void operator delete(void* p) noexcept { opdel(p, 1); } void operator delete[](void* p) noexcept { opdel(p, 2); } void operator delete(void* p, size_t) noexcept { opdel(p, 1); } void operator delete[](void* p, size_t) noexcept { opdel(p, 2); }
// ---- crypto objects
#define W(R, N, A) R __real_##N A; R __wrap_##N A
extern "C" {
W(EVP_MD_CTX*, EVP_MD_CTX_new, ()) { cryptoLive[0]++; return __real_EVP_MD_CTX_new(); }
W(void, EVP_MD_CTX_free, (EVP_MD_CTX * c)) { if (c) cryptoLive[0]--; __real_EVP_MD_CTX_free(c); }
W(BIO*, BIO_new, (const BIO_METHOD* m)) { cryptoLive[1]++; return __real_BIO_new(m); }
W(BIO*, BIO_new_mem_buf, (const void* p, int n)) { cryptoLive[1]++; return __real_BIO_new_mem_buf(p, n); }
W(int, BIO_free, (BIO * b)) { if (b) cryptoLive[1]--; return __real_BIO_free(b); }
W(void, BIO_vfree, (BIO * b)) { if (b) cryptoLive[1]--; __real_BIO_vfree(b); }
W(void, BIO_free_all, (BIO * b)) { for (BIO* x = b; x; x = BIO_next(x)) cryptoLive[1]--; __real_BIO_free_all(b); }
W(void, RSA_free, (RSA * r)) { if (r) cryptoLive[2]--; __real_RSA_free(r); }
W(int, RSA_up_ref, (RSA * r)) { cryptoLive[2]++; return __real_RSA_up_ref(r); }
W(RSA*, EVP_PKEY_get1_RSA, (EVP_PKEY * k)) { RSA* r = __real_EVP_PKEY_get1_RSA(k); if (r) cryptoLive[2]++; return r; }
W(RSA*, d2i_RSAPrivateKey, (RSA * *a, const unsigned char** p, long n)) { if (faulty()) return 0; RSA* r = __real_d2i_RSAPrivateKey(a, p, n); if (r) cryptoLive[2]++; return r; }
W(RSA*, d2i_RSA_PUBKEY, (RSA * *a, const unsigned char** p, long n)) { RSA* r = __real_d2i_RSA_PUBKEY(a, p, n); if (r) cryptoLive[2]++; return r; }
W(EVP_PKEY*, d2i_PUBKEY, (EVP_PKEY * *a, const unsigned char** p, long n)) { if (faulty()) return 0; EVP_PKEY* k = __real_d2i_PUBKEY(a, p, n); if (k) cryptoLive[3]++; return k; }
W(EVP_PKEY*, PEM_read_bio_PrivateKey, (BIO * b, EVP_PKEY** x, pem_password_cb* cb, void* u)) { if (faulty()) return 0; EVP_PKEY* k = __real_PEM_read_bio_PrivateKey(b, x, cb, u); if (k) cryptoLive[3]++; return k; }
W(void, EVP_PKEY_free, (EVP_PKEY * k)) { if (k) cryptoLive[3]--; __real_EVP_PKEY_free(k); }
W(int, EVP_PKEY_up_ref, (EVP_PKEY * k)) { cryptoLive[3]++; return __real_EVP_PKEY_up_ref(k); }
// ---- the primitives read their arguments in code without sanitizer instrumentation: check what they are given
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak)); static void readable(const void* p, size_t n, const char* what) { if (n && __asan_region_is_poisoned && (!p || __asan_region_is_poisoned((void*)p, n))) status("memory", what); }
W(int, crypto_sign_verify_detached, (const unsigned char* s, const unsigned char* m, unsigned long long n, const unsigned char* pk)) { readable(s, 64, "signature data shorter than the primitive reads"); readable(m, n, "message"); readable(pk, 32, "public key shorter than the primitive reads"); return __real_crypto_sign_verify_detached(s, m, n, pk); }
W(int, crypto_sign_detached, (unsigned char* s, unsigned long long* l, const unsigned char* m, unsigned long long n, const unsigned char* sk)) { readable(s, 64, "signature buffer"); readable(m, n, "message"); readable(sk, 64, "secret key shorter than the primitive reads"); return __real_crypto_sign_detached(s, l, m, n, sk); }
W(int, crypto_sign_seed_keypair, (unsigned char* pk, unsigned char* sk, const unsigned char* seed)) { readable(pk, 32, "key buffer"); readable(sk, 64, "key buffer"); readable(seed, 32, "seed shorter than the primitive reads"); return __real_crypto_sign_seed_keypair(pk, sk, seed); }
W(int, RSA_verify, (int t, const unsigned char* m, unsigned n, const unsigned char* s, unsigned sl, RSA* r)) { readable(m, n, "digest"); readable(s, sl, "signature"); if (!r) status("memory", "no key"); return __real_RSA_verify(t, m, n, s, sl, r); }
W(int, RSA_sign, (int t, const unsigned char* m, unsigned n, unsigned char* s, unsigned* sl, RSA* r)) { readable(m, n, "digest"); readable(s, (size_t)RSA_size(r), "signature buffer"); if (faulty()) return 0; return __real_RSA_sign(t, m, n, s, sl, r); }
static void nearBy(unsigned char* md, unsigned n) { if (nearAt < 0) return; static std::vector<std::string> seen; std::string d((char*)md, n); size_t i = 0; while (i < seen.size() && seen[i] != d) i++; if (i == seen.size()) seen.push_back(d); memset(md, 0x5a, n); md[3] = 0; md[nearAt] = (unsigned char)(i + 1); }
W(int, EVP_DigestFinal_ex, (EVP_MD_CTX * c, unsigned char* o, unsigned* n)) { unsigned k = 0; int r = __real_EVP_DigestFinal_ex(c, o, &k); nearBy(o, k); if (n) *n = k; return r; }
W(int, EVP_DigestFinal, (EVP_MD_CTX * c, unsigned char* o, unsigned* n)) { unsigned k = 0; int r = __real_EVP_DigestFinal(c, o, &k); nearBy(o, k); if (n) *n = k; return r; }
W(int, EVP_Digest, (const void* d, size_t l, unsigned char* o, unsigned* n, const EVP_MD* t, ENGINE* e)) { unsigned k = 0; int r = __real_EVP_Digest(d, l, o, &k, t, e); nearBy(o, k); if (n) *n = k; return r; }
W(int, EVP_DigestUpdate, (EVP_MD_CTX * c, const void* d, size_t n)) { readable(d, n, "hash input"); return __real_EVP_DigestUpdate(c, d, n); }
// ---- clock and resolver
W(time_t, time, (time_t * t)) { timeCalls++; if (t) *t = g_now; return g_now; }
W(int, gettimeofday, (struct timeval * t, void*)) { timeCalls++; t->tv_sec = g_now; t->tv_usec = 0; return 0; }
W(int, clock_gettime, (clockid_t, struct timespec* t)) { timeCalls++; t->tv_sec = g_now; t->tv_nsec = 0; return 0; }
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { timeCalls++; return g_now * 1000000000l; }
int sym_dns_hook(void*, const char*, int, int, unsigned char*, int) __attribute__((weak));
static int nq(res_state s, const char* n, int c, int t, unsigned char* a, int l) { return sym_dns_hook ? sym_dns_hook(s, n, c, t, a, l) : -1; }
int __wrap_res_nquery(res_state s, const char* n, int c, int t, unsigned char* a, int l) { return nq(s, n, c, t, a, l); } int __wrap___res_nquery(res_state s, const char* n, int c, int t, unsigned char* a, int l) { return nq(s, n, c, t, a, l); } int __wrap_res_nsearch(res_state s, const char* n, int c, int t, unsigned char* a, int l) { return nq(s, n, c, t, a, l); }
int __wrap___res_ninit(res_state) { resLive++; return 0; } void __wrap___res_nclose(res_state) { resLive--; } int __wrap_res_ninit(res_state) { resLive++; return 0; } void __wrap_res_nclose(res_state) { resLive--; }
}
static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static bool load(const char* f) {
	FILE* fp = fopen(f, "r"); if (!fp) return false; char* line = nullptr; size_t cap = 0; ssize_t n;
	while ((n = getline(&line, &cap, fp)) > 0) {
		while (n && (line[n - 1] == '\n')) line[--n] = 0; if (!strncmp(line, "bt", 3)) break; if (!strncmp(line, "msg ", 4) && strstr(line, "argument list")) argCase = true;
		if (strncmp(line, "in ", 3)) continue; char* name = line + 3; char* sp = strchr(name, ' '); if (!sp) continue; *sp = 0; char* h = strchr(sp + 1, ' '); if (!h) continue; size_t occ = (size_t)atoi(sp + 1); h++;
		std::vector<unsigned char> b; for (; h[0] && h[1]; h += 2) b.push_back((unsigned char)(hexv(h[0]) * 16 + hexv(h[1]))); auto& v = (*inputs)[name]; if (v.size() <= occ) v.resize(occ + 1); v[occ] = b;
	}
	fclose(fp); return true;
}
extern "C" void __tsan_init() __attribute__((weak)); // the thread sanitizer ignores a forked child: start over instead
int main(int argc, char** argv) {
	bool one = argc == 3 && !strcmp(argv[1], "--one");
	{ EVP_MD_CTX* c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, EVP_sha256(), nullptr); EVP_MD_CTX_free(c); } cryptoLive[0] = 0;
	for (int i = one ? 2 : 1; i < argc; i++) {
		pid_t p = 0; if (!one) { printf("case %s\n", argv[i]); fflush(stdout); p = fork(); }
		if (p == 0) {
			if (__tsan_init && !one) { execl("/proc/self/exe", argv[0], "--one", argv[i], (char*)0); status("nocase", "exec"); }
			inputs = new std::map<std::string, std::vector<std::vector<unsigned char>>>; used = new std::map<std::string, size_t>; argCase = false; if (!load(argv[i])) status("nocase", argv[i]);
			struct rlimit rl = {256 << 20, 256 << 20}; setrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); alarm(20); cryptoLive[0] = cryptoLive[1] = cryptoLive[2] = cryptoLive[3] = 0; quietAlloc = false; liveHeap = 0;
			const char* en = getenv("SYM_ENTRY"); void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, en ? en : "sym_main"); if (!fn) status("noentry", en ? en : "");
			try { fn(); } catch (std::exception& e) { status("exception", e.what()); } catch (...) { status("exception", "unknown"); } status("ok", "");
		}
		int st = 0; waitpid(p, &st, 0);
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("status timeout \n"); else if (WIFSIGNALED(st)) printf("status signal %d\n", WTERMSIG(st)); else if (WEXITSTATUS(st)) printf("status sanitizer %d\n", WEXITSTATUS(st)); fflush(stdout);
	}
	return 0;
}
