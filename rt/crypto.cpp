// Ideal cryptography for symbolic runs: digests and signatures are collision-free and unforgeable by construction
// (equal tokens exactly for equal inputs); object lifetimes, buffer sizes and the base64 filter follow OpenSSL 3.0 / libsodium.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include "keys.h"
extern "C" {
void* sym_malloc(size_t n, int kind); void sym_free(void* p, int kind); void sym_fail(const char* kind, const char* msg);
uint64_t sym_select(uint64_t c, uint64_t a, uint64_t b); void sym_abort();
static void* ialloc(size_t n) { return sym_malloc(n ? n : 1, 3 | 16); } static void ifree(void* p) { if (p) sym_free(p, 3 | 16); } // not counted as the program's heap
static long live[4]; long sym_crypto_live(int k) { return k < 0 ? live[0] + live[1] + live[2] + live[3] : live[k]; }
static int faultAt; void sym_crypto_fault(int n) { faultAt = n; } static bool faulty() { return faultAt && --faultAt == 0; }
static unsigned tokenSeq; // visible strings are derived from a counter
static void token(unsigned char* t, size_t n) { uint64_t x = 0x9E3779B97F4A7C15ull * ++tokenSeq; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; t[i] = (unsigned char)(x >> 24); } if (n > 6) t[6] = 0; }

// ---------------------------------------------------------------- digests
struct Md { int nid; int size; }; static Md sha1_ = {64, 20}, sha256_ = {672, 32}, sha512_ = {674, 64}, md5_ = {4, 16};
const void* EVP_sha1() { return &sha1_; } const void* EVP_sha256() { return &sha256_; } const void* EVP_sha512() { return &sha512_; } const void* EVP_md5() { return &md5_; }
const void* EVP_get_digestbyname(const char* n) { if (!strcmp(n, "sha1") || !strcmp(n, "SHA1")) return &sha1_; if (!strcmp(n, "sha256") || !strcmp(n, "SHA256")) return &sha256_; return 0; }
int EVP_MD_get_size(const Md* m) { return m->size; } int EVP_MD_get_type(const Md* m) { return m->nid; } int EVP_MD_size(const Md* m) { return m->size; }
struct Ctx { const Md* md; char* b; size_t n, cap; int fin; };
struct Dig { int nid; size_t n; const char* b; unsigned char tok[64]; Dig* next; }; static Dig* digs; static int nearAt = -1, nearSeq; void sym_hash_near(int at) { nearAt = at; }
static void digestOf(const Md* md, const char* b, size_t n, unsigned char* out) {
	for (Dig* d = digs; d; d = d->next) if (d->nid == md->nid && d->n == n && (n == 0 || memcmp(d->b, b, n) == 0)) { memcpy(out, d->tok, (size_t)md->size); return; }
	Dig* d = (Dig*)ialloc(sizeof(Dig)); d->nid = md->nid; d->n = n; char* c = (char*)ialloc(n); if (n) memcpy(c, b, n); d->b = c; token(d->tok, 64); if (nearAt >= 0) { memset(d->tok, 0x5a, 64); d->tok[3] = 0; d->tok[nearAt] = (unsigned char)++nearSeq; } d->next = digs; digs = d; memcpy(out, d->tok, (size_t)md->size);
}
void* EVP_MD_CTX_new() { Ctx* c = (Ctx*)sym_malloc(sizeof(Ctx), 3); memset(c, 0, sizeof *c); live[0]++; return c; }
void* EVP_MD_CTX_create() { return EVP_MD_CTX_new(); }
int EVP_MD_CTX_reset(Ctx* c) { ifree(c->b); memset(c, 0, sizeof *c); return 1; }
void EVP_MD_CTX_free(Ctx* c) { if (!c) return; EVP_MD_CTX_reset(c); sym_free(c, 3); live[0]--; }
void EVP_MD_CTX_destroy(Ctx* c) { EVP_MD_CTX_free(c); }
int EVP_DigestInit_ex(Ctx* c, const Md* md, void*) { if (md) c->md = md; if (!c->md) return 0; c->n = 0; c->fin = 0; return 1; }
int EVP_DigestInit(Ctx* c, const Md* md) { EVP_MD_CTX_reset(c); return EVP_DigestInit_ex(c, md, 0); }
int EVP_DigestInit_ex2(Ctx* c, const Md* md, void*) { return EVP_DigestInit_ex(c, md, 0); }
int EVP_DigestUpdate(Ctx* c, const void* p, size_t n) {
	if (!n) return 1; if (!c->md || c->fin) return 0;
	if (c->n + n > c->cap) { size_t cap = (c->n + n) * 2 + 64; char* b = (char*)ialloc(cap); if (c->n) memcpy(b, c->b, c->n); ifree(c->b); c->b = b; c->cap = cap; }
	memcpy(c->b + c->n, p, n); c->n += n; return 1;
}
int EVP_DigestFinal_ex(Ctx* c, unsigned char* out, unsigned* len) { if (!c->md || c->fin) return 0; digestOf(c->md, c->b, c->n, out); if (len) *len = (unsigned)c->md->size; c->fin = 1; return 1; }
int EVP_DigestFinal(Ctx* c, unsigned char* out, unsigned* len) { int r = EVP_DigestFinal_ex(c, out, len); EVP_MD_CTX_reset(c); return r; }
int EVP_MD_CTX_copy_ex(Ctx* d, const Ctx* s) { if (!s || !s->md) return 0; ifree(d->b); *d = *s; d->b = 0; d->cap = 0; if (s->n) { d->b = (char*)ialloc(s->n); d->cap = s->n; memcpy(d->b, s->b, s->n); } return 1; }
int EVP_MD_CTX_copy(Ctx* d, const Ctx* s) { EVP_MD_CTX_reset(d); return EVP_MD_CTX_copy_ex(d, s); }
int EVP_Digest(const void* p, size_t n, unsigned char* out, unsigned* len, const Md* md, void*) { digestOf(md, (const char*)p, n, out); if (len) *len = (unsigned)md->size; return 1; }
unsigned char* SHA1(const unsigned char* p, size_t n, unsigned char* o) { digestOf(&sha1_, (const char*)p, n, o); return o; } unsigned char* SHA256(const unsigned char* p, size_t n, unsigned char* o) { digestOf(&sha256_, (const char*)p, n, o); return o; }
int CRYPTO_memcmp(const void* a, const void* b, size_t n) { return n ? memcmp(a, b, n) != 0 : 0; }
int sodium_memcmp(const void* a, const void* b, size_t n) { return n ? (memcmp(a, b, n) != 0 ? -1 : 0) : 0; } int sodium_init() { return 0; }
void OPENSSL_cleanse(void* p, size_t n) { if (n) memset(p, 0, n); } void sodium_memzero(void* p, size_t n) { if (n) memset(p, 0, n); }
unsigned long ERR_get_error() { return 0; } void ERR_clear_error() {} unsigned long ERR_peek_error() { return 0; }

// ---------------------------------------------------------------- base64 (OpenSSL's EVP_EncodeBlock, EVP_DecodeBlock, EVP_Encode*)
static const char E64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; static unsigned char e64(unsigned x) { return (unsigned char)E64[x]; }
int EVP_EncodeBlock(unsigned char* t, const unsigned char* f, int n) {
	int r = 0; for (int i = 0; i < n; i += 3) { unsigned a = f[i], b = i + 1 < n ? f[i + 1] : 0, c = i + 2 < n ? f[i + 2] : 0;
		*t++ = e64(a >> 2); *t++ = e64((a & 3) << 4 | b >> 4); *t++ = i + 1 < n ? e64((b & 15) << 2 | c >> 6) : '='; *t++ = i + 2 < n ? e64(c & 63) : '='; r += 4; }
	*t = 0; return r;
}
static unsigned char dtab[256]; static void dinit() { if (dtab[0]) return; for (int i = 0; i < 256; i++) dtab[i] = 0xff; for (int i = 0; i < 26; i++) { dtab['A' + i] = (unsigned char)i; dtab['a' + i] = (unsigned char)(26 + i); } for (int i = 0; i < 10; i++) dtab['0' + i] = (unsigned char)(52 + i); dtab['+'] = 62; dtab['/'] = 63; dtab['='] = 0; dtab['\t'] = dtab[' '] = 0xe0; dtab['\n'] = 0xf0; dtab['\r'] = 0xf1; dtab['-'] = 0xf2; }
static bool not64(unsigned char a) { return (a | 0x13) == 0xf3; }
int EVP_DecodeBlock(unsigned char* t, const unsigned char* f, int n) {
	dinit(); int r = 0;
	while (n > 0 && dtab[*f] == 0xe0) { f++; n--; }
	while (n > 3 && not64(dtab[f[n - 1]])) n--;
	if (n % 4) return -1;
	for (int i = 0; i < n; i += 4) {
		unsigned a = dtab[f[0]], b = dtab[f[1]], c = dtab[f[2]], d = dtab[f[3]]; 
		if (a & 0x80) return -1; if (b & 0x80) return -1; if (c & 0x80) return -1; if (d & 0x80) return -1;
		f += 4; t[0] = (unsigned char)(a << 2 | b >> 4); t[1] = (unsigned char)(b << 4 | c >> 2); t[2] = (unsigned char)(c << 6 | d); t += 3; r += 3;
	}
	return r;
}
// streaming decoder (EVP_DecodeUpdate) used by the filter when line breaks are expected
struct Dec { int num; unsigned char data[80]; };
static int decBlock(unsigned char* t, const unsigned char* f, int n) { return EVP_DecodeBlock(t, f, n); }
static int EVP_DecodeUpdate_(Dec* c, unsigned char* out, int* outl, const unsigned char* in, int inl) {
	dinit(); int seof = 0, eof = 0, rv = -1, ret = 0, n = c->num; unsigned char* d = c->data; if (n > 0 && d[n - 1] == '=') { eof++; if (n > 1 && d[n - 2] == '=') eof++; }
	if (inl == 0) { rv = 0; goto end; }
	for (int i = 0; i < inl; i++) {
		int tmp = *in++; unsigned char v = dtab[tmp]; if (v == 0xff) { rv = -1; goto end; }
		if (tmp == '=') eof++; else if (eof > 0 && !not64(v)) { rv = -1; goto end; }
		if (eof > 2) { rv = -1; goto end; }
		if (v == 0xf2) { seof = 1; goto tail; }
		if (!not64(v)) { if (n >= 64) { rv = -1; goto end; } d[n++] = (unsigned char)tmp; }
		if (n == 64) { int k = decBlock(out, d, n); n = 0; if (k < 0 || (k == 0 && eof)) { rv = -1; goto end; } if (eof > k) { rv = -1; goto end; } ret += k - eof; out += k - eof; }
	}
tail:
	if (n > 0) { if ((n & 3) == 0) { int k = decBlock(out, d, n); n = 0; if (k < 0 || eof > k) { rv = -1; goto end; } ret += k - eof; } else if (seof) { rv = -1; goto end; } }
	rv = seof || (n == 0 && eof) ? 0 : 1;
end:
	*outl = ret; c->num = n; return rv;
}

// ---------------------------------------------------------------- BIO
struct Bio { int type; int flags; Bio* next; char* b; size_t n, off, cap; int ro; int enc; int start, cont; int bufLen, bufOff, tmpLen; unsigned char* buf; unsigned char* tmp; Dec dec; int encNum; unsigned char encData[80]; };
static int memT = 1, b64T = 2; enum { NO_NL = 0x100, RETRY = 9 };
const void* BIO_s_mem() { return &memT; } const void* BIO_s_secmem() { return &memT; } const void* BIO_f_base64() { return &b64T; }
Bio* BIO_new(const int* m) { Bio* b = (Bio*)sym_malloc(sizeof(Bio), 3); memset(b, 0, sizeof *b); b->type = *m; if (*m == 2) { b->buf = (unsigned char*)ialloc(1600); b->tmp = (unsigned char*)ialloc(1100); b->start = b->cont = 1; } live[1]++; return b; }
Bio* BIO_new_mem_buf(const void* p, int len) { Bio* b = BIO_new(&memT); if (!b) return 0; size_t n = len < 0 ? strlen((const char*)p) : (size_t)len; b->b = (char*)ialloc(n); b->n = b->cap = n; if (n) memcpy(b->b, p, n); b->ro = 1; return b; }
int BIO_free(Bio* b) { if (!b) return 0; ifree(b->b); ifree(b->buf); ifree(b->tmp); sym_free(b, 3); live[1]--; return 1; } void BIO_vfree(Bio* b) { BIO_free(b); }
void BIO_free_all(Bio* b) { while (b) { Bio* n = b->next; BIO_free(b); b = n; } }
Bio* BIO_push(Bio* a, Bio* b) { if (!a) return b; Bio* l = a; while (l->next) l = l->next; l->next = b; return a; } Bio* BIO_pop(Bio* a) { if (!a) return 0; Bio* r = a->next; a->next = 0; return r; } Bio* BIO_next(Bio* a) { return a ? a->next : 0; }
void BIO_set_flags(Bio* b, int f) { b->flags |= f; } void BIO_clear_flags(Bio* b, int f) { b->flags &= ~f; } int BIO_test_flags(const Bio* b, int f) { return b->flags & f; }
static int memRead(Bio* b, char* o, int n) { b->flags &= ~15; size_t a = b->n - b->off; if (n > 0 && (size_t)n < a) a = (size_t)n; if (n <= 0) return 0; if (a) { memcpy(o, b->b + b->off, a); b->off += a; return (int)a; } if (b->ro) return 0; b->flags |= RETRY; return -1; }
static int memWrite(Bio* b, const char* p, int n) { if (b->ro) return -1; b->flags &= ~15; if (n <= 0) return 0; if (b->n + (size_t)n > b->cap) { size_t cap = (b->n + (size_t)n) * 2; char* q = (char*)ialloc(cap); if (b->n) memcpy(q, b->b, b->n); ifree(b->b); b->b = q; b->cap = cap; } memcpy(b->b + b->n, p, (size_t)n); b->n += (size_t)n; return n; }
int BIO_read(Bio* b, void* o, int n); int BIO_write(Bio* b, const void* p, int n);
static int b64Read(Bio* c, char* out, int outl) {
	Bio* nx = c->next; int ret = 0, rc = 0, i; if (!out || !nx) return 0; c->flags &= ~15;
	if (c->enc != 2) { c->enc = 2; c->bufLen = c->bufOff = c->tmpLen = 0; c->dec.num = 0; }
	if (c->bufLen > 0) { i = c->bufLen - c->bufOff; if (i > outl) i = outl; memcpy(out, c->buf + c->bufOff, (size_t)i); ret = i; out += i; outl -= i; c->bufOff += i; if (c->bufLen == c->bufOff) c->bufLen = c->bufOff = 0; }
	while (outl > 0) {
		if (c->cont <= 0) break;
		i = BIO_read(nx, c->tmp + c->tmpLen, 1024 - c->tmpLen);
		if (i <= 0) { rc = i; if (!(nx->flags & 8)) { c->cont = i; if (c->tmpLen == 0) break; i = 0; } else break; }
		i += c->tmpLen; c->tmpLen = i;
		if (c->start && (c->flags & NO_NL)) { c->tmpLen = 0; }
		else if (c->start) {
			unsigned char *p = c->tmp, *q = p; int num = 0, j; 
			for (j = 0; j < i; j++) {
				if (*(q++) != '\n') continue;
				if (c->tmpLen < 0) { p = q; continue; }
				int k = EVP_DecodeUpdate_(&c->dec, c->buf, &num, p, (int)(q - p));
				if (k <= 0 && num == 0 && c->start) c->dec.num = 0;
				else { if (p != c->tmp) { i -= (int)(p - c->tmp); memmove(c->tmp, p, (size_t)i); } c->dec.num = 0; c->start = 0; break; }
				p = q;
			}
			if (j == i && num == 0) { if (p == c->tmp) { if (i == 1024) { c->tmpLen = 1; c->tmpLen = 0; } } else if (p != q) { int n = (int)(q - p); memmove(c->tmp, p, (size_t)n); c->tmpLen = n; } continue; }
			else c->tmpLen = 0;
		}
		else if (i < 1024 && c->cont > 0) continue;
		if (c->flags & NO_NL) {
			int jj = i & ~3, z = EVP_DecodeBlock(c->buf, c->tmp, jj);
			if (jj > 2) { if (c->tmp[jj - 1] == '=') { z--; if (c->tmp[jj - 2] == '=') z--; } }
			if (jj != i) { memmove(c->tmp, c->tmp + jj, (size_t)(i - jj)); c->tmpLen = i - jj; }
			c->bufLen = 0; if (z > 0) c->bufLen = z; i = z;
		} else { int o = 0; i = EVP_DecodeUpdate_(&c->dec, c->buf, &o, c->tmp, i); c->bufLen = o; c->tmpLen = 0; }
		c->cont = i; c->bufOff = 0; if (i < 0) { rc = 0; c->bufLen = 0; break; }
		i = c->bufLen <= outl ? c->bufLen : outl; if (i) memcpy(out, c->buf, (size_t)i); ret += i; c->bufOff = i; if (c->bufOff == c->bufLen) c->bufLen = c->bufOff = 0; outl -= i; out += i;
	}
	c->flags |= nx->flags & 15; return ret == 0 ? rc : ret;
}
static void encOut(Bio* c, const unsigned char* p, int n) { while (n > 0) { int k = n > 300 ? 300 : n; EVP_EncodeBlock(c->buf, p, k); BIO_write(c->next, c->buf, (k + 2) / 3 * 4); p += k; n -= k; } }
static int b64Write(Bio* c, const char* in, int inl) {
	if (!c->next) return 0; c->flags &= ~15; if (c->enc != 1) { c->enc = 1; c->bufLen = c->bufOff = c->tmpLen = 0; c->encNum = 0; } if (!in || inl <= 0) return 0;
	const unsigned char* p = (const unsigned char*)in; int n = inl;
	if (c->flags & NO_NL) { while (n > 0 && c->tmpLen > 0 && c->tmpLen < 3) { c->tmp[c->tmpLen++] = *p++; n--; if (c->tmpLen == 3) { encOut(c, c->tmp, 3); c->tmpLen = 0; break; } } if (c->tmpLen == 0) { int k = n - n % 3; encOut(c, p, k); p += k; n -= k; for (int i = 0; i < n; i++) c->tmp[c->tmpLen++] = p[i]; } }
	else while (n > 0) { c->encData[c->encNum++] = *p++; n--; if (c->encNum == 48) { EVP_EncodeBlock(c->buf, c->encData, 48); c->buf[64] = '\n'; BIO_write(c->next, c->buf, 65); c->encNum = 0; } }
	return inl;
}
int BIO_read(Bio* b, void* o, int n) { if (!b) return 0; return b->type == 1 ? memRead(b, (char*)o, n) : b64Read(b, (char*)o, n); }
int BIO_write(Bio* b, const void* p, int n) { if (!b) return 0; if (n <= 0) return 0; return b->type == 1 ? memWrite(b, (const char*)p, n) : b64Write(b, (const char*)p, n); }
int BIO_puts(Bio* b, const char* s) { return BIO_write(b, s, (int)strlen(s)); }
struct BufMem { size_t length; char* data; size_t max; unsigned long flags; };
long BIO_ctrl(Bio* b, int cmd, long num, void* ptr) {
	if (!b) return 0;
	if (b->type == 2) {
		if (cmd == 11) { if (b->enc == 1 || (b->enc == 0)) { if ((b->flags & NO_NL) && b->tmpLen > 0) { encOut(b, b->tmp, b->tmpLen); b->tmpLen = 0; } else if (!(b->flags & NO_NL) && b->encNum > 0) { int k = EVP_EncodeBlock(b->buf, b->encData, b->encNum); b->buf[k] = '\n'; BIO_write(b->next, b->buf, k + 1); b->encNum = 0; } } return b->next ? BIO_ctrl(b->next, cmd, num, ptr) : 0; }
		return b->next ? BIO_ctrl(b->next, cmd, num, ptr) : 0;
	}
	switch (cmd) { case 1: b->n = b->off = 0; return 1; case 2: return b->n == b->off; case 3: if (ptr) *(char**)ptr = b->b + b->off; return (long)(b->n - b->off); case 10: return (long)(b->n - b->off); case 11: return 1; case 130: return 1;
	case 115: { static BufMem bm; bm.length = b->n - b->off; bm.data = b->b + b->off; bm.max = b->cap; if (ptr) *(BufMem**)ptr = &bm; return 1; } }
	return 0;
}
size_t BIO_ctrl_pending(Bio* b) { return (size_t)BIO_ctrl(b, 10, 0, 0); }

// ---------------------------------------------------------------- keys
struct Rsa { int refs, id, priv; }; struct Pkey { int refs, type; Rsa* rsa; int id; };
static const char* const pemOf[] = {RSA0_PEM, RSA1_PEM, RSA2_PEM, RSA3_PEM, RSA4_PEM, RSA1_P8}; static const char* const derPriv[] = {RSA0_DER_B64, RSA1_DER_B64, RSA2_DER_B64, RSA3_DER_B64, RSA4_DER_B64}; static const char* const derPub[] = {RSA0_PUB_B64, RSA1_PUB_B64, RSA2_PUB_B64, RSA3_PUB_B64, RSA4_PUB_B64}; static const int rsaSize[] = {RSA0_SIZE, RSA1_SIZE, RSA2_SIZE, RSA3_SIZE, RSA4_SIZE};
static Rsa* newRsa(int id, int priv) { Rsa* r = (Rsa*)sym_malloc(sizeof(Rsa), 3); r->refs = 1; r->id = id; r->priv = priv; live[2]++; return r; }
static Pkey* newPkey(int type, Rsa* r, int id) { Pkey* k = (Pkey*)sym_malloc(sizeof(Pkey), 3); k->refs = 1; k->type = type; k->rsa = r; k->id = id; live[3]++; return k; }
void RSA_free(Rsa* r) { if (!r) return; if (__atomic_sub_fetch(&r->refs, 1, __ATOMIC_SEQ_CST) == 0) { sym_free(r, 3); } live[2]--; }
int RSA_up_ref(Rsa* r) { __atomic_add_fetch(&r->refs, 1, __ATOMIC_SEQ_CST); live[2]++; return 1; }
int RSA_size(const Rsa* r) { return rsaSize[r->id]; } int RSA_bits(const Rsa* r) { return rsaSize[r->id] * 8; }
void EVP_PKEY_free(Pkey* k) { if (!k) return; live[3]--; if (__atomic_sub_fetch(&k->refs, 1, __ATOMIC_SEQ_CST) == 0) { if (k->rsa) { RSA_free(k->rsa); } sym_free(k, 3); } }
int EVP_PKEY_up_ref(Pkey* k) { __atomic_add_fetch(&k->refs, 1, __ATOMIC_SEQ_CST); live[3]++; return 1; }
Rsa* EVP_PKEY_get1_RSA(Pkey* k) { if (k->type != 6 || !k->rsa) return 0; RSA_up_ref(k->rsa); return k->rsa; } Rsa* EVP_PKEY_get0_RSA(Pkey* k) { return k->type == 6 ? k->rsa : 0; }
int EVP_PKEY_get_base_id(const Pkey* k) { return k->type; } int EVP_PKEY_base_id(const Pkey* k) { return k->type; } int EVP_PKEY_get_id(const Pkey* k) { return k->type; } int EVP_PKEY_id(const Pkey* k) { return k->type; } int EVP_PKEY_get_bits(const Pkey* k) { return k->type == 6 ? rsaSize[k->id] * 8 : 256; } int EVP_PKEY_get_size(const Pkey* k) { return k->type == 6 ? rsaSize[k->id] : 64; }
static Pkey* pemKey(const char* p, size_t n) {
	for (int i = 0; i < 6; i++) { size_t l = strlen(pemOf[i]); if ((n == l || n == l - 1) && memcmp(p, pemOf[i], n) == 0) { int id = i == 5 ? 1 : i; Pkey* k = newPkey(6, 0, id); k->rsa = newRsa(id, 1); return k; } }
	size_t l = strlen(EC_PEM); if ((n == l || n == l - 1) && memcmp(p, EC_PEM, n) == 0) return newPkey(408, 0, 0);
	return 0;
}
Pkey* PEM_read_bio_PrivateKey(Bio* b, Pkey** x, void*, void*) { if (faulty()) return 0; if (!b || b->type != 1) return 0; size_t n = b->n - b->off; Pkey* k = n ? pemKey(b->b + b->off, n) : 0; b->off = b->n; if (k && x) { EVP_PKEY_free(*x); *x = k; } return k; }
static int b64len(const char* s) { int n = (int)strlen(s) / 4 * 3; size_t l = strlen(s); if (s[l - 1] == '=') n--; if (s[l - 2] == '=') n--; return n; }
static bool derIs(const char* b64, const unsigned char* p, long len, int* used) { int n = b64len(b64); if (len < n) return false; unsigned char* t = (unsigned char*)ialloc((size_t)n + 8); EVP_DecodeBlock(t, (const unsigned char*)b64, (int)strlen(b64)); bool same = memcmp(t, p, (size_t)n) == 0; ifree(t); if (same) *used = n; return same; }
static volatile unsigned char sink;
Pkey* d2i_PUBKEY(Pkey** a, const unsigned char** pp, long len) {
	if (faulty()) return 0; if (len <= 0) return 0; const unsigned char* p = *pp; sink = p[len - 1]; int u; Pkey* k = 0;
	for (int i = 0; i < 5 && !k; i++) if (derIs(derPub[i], p, len, &u)) { k = newPkey(6, 0, i); k->rsa = newRsa(i, 0); }
	if (!k && derIs(EC_PUB_B64, p, len, &u)) k = newPkey(408, 0, 0);
	if (!k && derIs(ED_PUB_DER_B64, p, len, &u)) k = newPkey(1087, 0, 0);
	if (k) { *pp += u; if (a) { EVP_PKEY_free(*a); *a = k; } } return k;
}
Rsa* d2i_RSA_PUBKEY(Rsa** a, const unsigned char** pp, long len) { Pkey* k = d2i_PUBKEY(0, pp, len); if (!k) return 0; Rsa* r = EVP_PKEY_get1_RSA(k); EVP_PKEY_free(k); if (r && a) { RSA_free(*a); *a = r; } return r; }
Rsa* d2i_RSAPrivateKey(Rsa** a, const unsigned char** pp, long len) {
	if (faulty()) return 0; if (len <= 0) return 0; const unsigned char* p = *pp; sink = p[len - 1]; int u; for (int i = 0; i < 5; i++) if (derIs(derPriv[i], p, len, &u)) { *pp += u; Rsa* r = newRsa(i, 1); if (a) { RSA_free(*a); *a = r; } return r; }
	return 0;
}
// ---------------------------------------------------------------- signatures
struct Sig { int key, nid; unsigned mlen; unsigned char m[64]; unsigned char pk[32]; unsigned char s[1024]; Sig* next; }; static Sig* sigs;
int RSA_sign(int type, const unsigned char* m, unsigned mlen, unsigned char* out, unsigned* outl, Rsa* r) { if (faulty()) return 0;
	if (!r->priv || mlen > 64) return 0; int n = rsaSize[r->id];
	for (Sig* s = sigs; s; s = s->next) if (s->key == r->id && s->nid == type && s->mlen == mlen && memcmp(s->m, m, mlen) == 0) { memcpy(out, s->s, (size_t)n); *outl = (unsigned)n; return 1; }
	Sig* s = (Sig*)ialloc(sizeof(Sig)); memset(s, 0, sizeof *s); s->key = r->id; s->nid = type; s->mlen = mlen; memcpy(s->m, m, mlen); token(s->s, (size_t)n); s->next = sigs; sigs = s; memcpy(out, s->s, (size_t)n); *outl = (unsigned)n; return 1;
}
int RSA_verify(int type, const unsigned char* m, unsigned mlen, const unsigned char* sg, unsigned sl, Rsa* r) {
	int n = rsaSize[r->id]; if ((int)sl != n) return 0; sink = sg[n - 1];
	for (Sig* s = sigs; s; s = s->next) if (s->key == r->id && s->nid == type && s->mlen == mlen && memcmp(s->m, m, mlen) == 0 && memcmp(s->s, sg, (size_t)n) == 0) return 1;
	return 0;
}
struct Kp { unsigned char seed[32], pk[32]; Kp* next; }; static Kp* kps; static int edInit;
static void dec(const char* b, unsigned char* o, size_t n) { unsigned char t[100]; EVP_DecodeBlock(t, (const unsigned char*)b, (int)strlen(b)); memcpy(o, t, n); }
static void pkOf(const unsigned char* seed, unsigned char* pk) {
	if (!edInit) { edInit = 1; const char* s[] = {ED0_SEED_B64, ED1_SEED_B64}; const char* p[] = {ED0_PUB_B64, ED1_PUB_B64}; for (int i = 0; i < 2; i++) { Kp* k = (Kp*)ialloc(sizeof(Kp)); dec(s[i], k->seed, 32); dec(p[i], k->pk, 32); k->next = kps; kps = k; } }
	for (Kp* k = kps; k; k = k->next) if (memcmp(k->seed, seed, 32) == 0) { memcpy(pk, k->pk, 32); return; }
	Kp* k = (Kp*)ialloc(sizeof(Kp)); memcpy(k->seed, seed, 32); token(k->pk, 32); k->next = kps; kps = k; memcpy(pk, k->pk, 32);
}
int crypto_sign_seed_keypair(unsigned char* pk, unsigned char* sk, const unsigned char* seed) { unsigned char s[32], p[32]; memcpy(s, seed, 32); pkOf(s, p); memcpy(pk, p, 32); memcpy(sk, s, 32); memcpy(sk + 32, p, 32); return 0; }
int crypto_sign_ed25519_seed_keypair(unsigned char* pk, unsigned char* sk, const unsigned char* seed) { return crypto_sign_seed_keypair(pk, sk, seed); }
int crypto_sign_detached(unsigned char* out, unsigned long long* outl, const unsigned char* m, unsigned long long mlen, const unsigned char* sk) {
	unsigned char k[64], pk[32]; memcpy(k, sk, 64); if (mlen > 64) { sym_fail("unsupported", "ed25519 over a long message"); return -1; } pkOf(k, pk); int good = memcmp(pk, k + 32, 32) == 0;
	Sig* s; for (s = sigs; s; s = s->next) if (s->key == (good ? 100 : 101) && s->mlen == mlen && memcmp(s->pk, pk, 32) == 0 && memcmp(s->m, m, mlen) == 0) break;
	if (!s) { s = (Sig*)ialloc(sizeof(Sig)); memset(s, 0, sizeof *s); s->key = good ? 100 : 101; s->mlen = (unsigned)mlen; memcpy(s->m, m, mlen); memcpy(s->pk, pk, 32); token(s->s, 64); s->next = sigs; sigs = s; }
	memcpy(out, s->s, 64); if (outl) *outl = 64; return 0;
}
int crypto_sign_verify_detached(const unsigned char* sg, const unsigned char* m, unsigned long long mlen, const unsigned char* pk) {
	unsigned char s64[64], p[32]; memcpy(s64, sg, 64); memcpy(p, pk, 32); if (mlen > 64) return -1;
	for (Sig* s = sigs; s; s = s->next) if (s->key == 100 && s->mlen == mlen && memcmp(s->pk, p, 32) == 0 && memcmp(s->m, m, mlen) == 0 && memcmp(s->s, s64, 64) == 0) return 0;
	return -1;
}
int crypto_sign_ed25519_detached(unsigned char* o, unsigned long long* l, const unsigned char* m, unsigned long long n, const unsigned char* k) { return crypto_sign_detached(o, l, m, n, k); } int crypto_sign_ed25519_verify_detached(const unsigned char* s, const unsigned char* m, unsigned long long n, const unsigned char* k) { return crypto_sign_verify_detached(s, m, n, k); }
size_t crypto_sign_bytes() { return 64; } size_t crypto_sign_publickeybytes() { return 32; } size_t crypto_sign_secretkeybytes() { return 64; } size_t crypto_sign_seedbytes() { return 32; }
}
