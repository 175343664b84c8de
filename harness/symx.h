// Analysis interface of the harnesses; implemented by the engine (symbolic run) and by rt/native.cpp (replay).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void* p, size_t n, const char* name);       // n arbitrary bytes
int64_t sym_range(int64_t lo, int64_t hi, const char* name); // every value lo..hi
void sym_assume(int cond);
void sym_assert(int cond, const char* msg);
void sym_reach(const char* id);                            // vacuity witness
void sym_observe(const void* p, size_t n, const char* name); // compared between symbolic and native run
void sym_fail(const char* kind, const char* msg);
int sym_is_symbolic(const void* p, size_t n);
int64_t sym_live_heap(void);
uint64_t sym_concretize(uint64_t x);
uint64_t sym_select(uint64_t c, uint64_t a, uint64_t b);
int sym_symbolic_mode(void);
void sym_end(void);
// crypto object accounting (engine: rt/crypto.cpp; native: counting wrappers)
long sym_crypto_live(int kind);    // 0 digest contexts, 1 BIOs, 2 RSA keys, 3 EVP_PKEYs, -1 all
void sym_crypto_fault(int nth);    // the nth key parsing or RSA signing call from now on fails (0: off)
long sym_time_calls(void);
long sym_res_live(void);
void sym_hash_near(int at);       // digests from now on differ in octet `at` only (still different for different inputs; -1: off)
void sym_set_time(long t);
void sym_parallel(void (*f)(void*), void* const* x, int n); // f(x[0]) ... f(x[n-1]), a thread each (symbolic run: every pair of accesses to shared memory is taken as concurrent unless synchronised)
void sym_main(void);
#ifdef __cplusplus
}
#include <string>
#ifdef THOROUGH
#define BND(quick, thorough) (thorough)
#else
#define BND(quick, thorough) (quick)
#endif
#define CHECK(c, m) sym_assert(!!(c), m)
#define UNIT(name) extern "C" void name()
static inline void symObs(const std::string& s, const char* n) { sym_observe(s.data(), s.size(), n); }
// lengths around the sizes buffers, counters and line limits commonly have; every one up to max is a path of its own
static inline size_t symLen(size_t max, int spread = 1, size_t big = 0) { // big: one more length, far above
	static const size_t B[] = {32, 64, 78, 100, 128, 256, 512, 998, 1024, 2048, 4096, 8192, 16384, 32768, 65536}; int n = 0; while (n < 15 && B[n] <= max) n++;
	int k = (int)sym_range(0, n - 1 + (big ? 1 : 0), "len"); if (k == n) return big; size_t b = B[k]; return b + (size_t)(sym_range(0, 2 * spread, "len+") - spread);
}
static inline std::string symRep(const std::string& f, size_t n) { std::string s; s.reserve(n + f.size()); while (s.size() < n) s += f; s.resize(n); return s; }
static inline std::string symStr(size_t n, const char* name) { std::string s(n, '\0'); if (n) sym_bytes(&s[0], n, name); return s; }
#endif
