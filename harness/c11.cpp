// C11 public key records
// @unit c11_present reach=ok,bad q=200: every subset of v h k p s t n with valid values, in two orders, RSA and Ed25519
// @unit c11_hash reach=ok,bad,any q=200: h= of up to 3 items (sha1, sha256, unknown, other case, empty, white space), and every h= of sha1/sha256 with one octet altered, inserted or removed
// @unit c11_service reach=ok,bad,all q=200: the same for s= with email and *
// @unit c11_short reach=ok,bad q=200: every value of up to 3 (quick) / 4 (thorough) octets for one of h k s t v
// @unit c11_flags reach=y,other,bad q=200: every t= of up to 5 / 6 octets
// @unit c11_type reach=ok,bad q=200: every pairing of k= (each octet of rsa and ed25519 altered, or absent) with p= holding an RSA, EC or Ed25519 key, a truncated or an empty one
// @unit c11_ed reach=ok,bad q=200: Ed25519 keys of 0, 1, 31..33 octets, one (thorough: two adjacent ones) arbitrary at any position, or with white space at any position of p=
// @unit c11_octet reach=ok,bad q=300: a whole record with every octet replaced, removed or preceded by an arbitrary one
// @unit c11_long reach=ok,bad,y q=200: records with n=, t= (many flags, one long flag), h=, s= or an unknown tag of 30..1026 (n=: quick 2050, thorough 8194) and 12000 octets ending in an arbitrary octet, in front of and behind the key
// @unit c11_twice reach=ok,bad,y q=100: one of eight records (malformed ones included) parsed first by another object, then a record with one arbitrary octet at any place
// @unit c11_rsa reach=ok,bad q=200: RSA keys of 512, 1024, 2048, 4096 and 8192 bits in p=, with white space (space, tab, CRLF+space, also repeated every 20..76 octets) at up to 40 places, or cut by 1..9 octets, last or followed by another tag
// @assume carriage returns and line feeds occur in a record only as CRLF followed by space or tab (folding)
// @assume RSA keys are those of keys.h: which DER strings are keys is decided by OpenSSL; base64 which is not strictly well-formed may be accepted or rejected
#include "keyref.hpp"
using namespace DKIM;
static void folded(const std::string& r) { for (size_t i = 0; i < r.size(); i++) { if (r[i] == '\r') sym_assume(i + 2 < r.size() && r[i + 1] == '\n' && ref::wsp(r[i + 2])); if (r[i] == '\n') sym_assume(i > 0 && r[i - 1] == '\r'); } }
static bool go(const std::string& r) { folded(r); PublicKey k; bool ok = kr::compare(r, k); sym_reach(ok ? "ok" : "bad"); symObs(ok ? "1" : "0", "ok"); return ok; }
static std::string ed(const std::string& more) { return more + "; k=ed25519; p=" ED1_PUB_B64; }
// one octet of v replaced, inserted or removed
static std::string alter(std::string v) { int op = sym_range(0, 3, "op"); if (op == 3) return v; size_t p = (size_t)sym_range(0, op == 1 ? (int64_t)v.size() : (int64_t)v.size() - 1, "p"); if (op == 2) { v.erase(p, 1); return v; } char c; sym_bytes(&c, 1, "c"); if (op == 0) v[p] = c; else v.insert(p, 1, c); return v; }
UNIT(c11_present) {
	bool e = sym_range(0, 1, "ed"), rev = sym_range(0, 1, "rev"); std::string T[] = {"v=DKIM1", "h=sha256:foo", e ? "k=ed25519" : "k=rsa", std::string("p=") + (e ? ED1_PUB_B64 : RSA1_PUB_B64), "s=other:email", "t=y:s", "n=some note"}, r; 
	for (int i = 0; i < 7; i++) { const std::string& t = T[rev ? 6 - i : i]; if (sym_range(0, 1, "in")) r += t + (rev ? " ; " : ";"); } go(r);
}
static std::string items(const char* const* c, int n) { std::string v; int k = sym_range(0, 3, "k"); for (int i = 0; i < k; i++) v += (i ? std::string(":") : std::string()) + c[sym_range(0, n - 1, "item")]; return v; }
UNIT(c11_hash) { static const char* C[] = {"sha1", "sha256", "sha512", "SHA1", "", " sha256\t"}; static const char* A[] = {"sha1", "sha256", "sha1:sha256", "x:sha1"}; bool l = sym_range(0, 1, "list"); if (go(ed("h=" + (l ? items(C, 6) : alter(A[sym_range(0, 3, "a")]))))) sym_reach("any"); }
UNIT(c11_service) { static const char* C[] = {"email", "*", "Email", "tlsrpt", "", " * "}; static const char* A[] = {"email", "*", "x:email", "*:y"}; bool l = sym_range(0, 1, "list"); if (go(ed("s=" + (l ? items(C, 6) : alter(A[sym_range(0, 3, "a")]))))) sym_reach("all"); }
UNIT(c11_short) { static const char* N[] = {"h", "k", "s", "t", "v"}; std::string n = N[sym_range(0, 4, "tag")]; size_t z = sym_range(0, BND(3, 4), "n"); std::string v = symStr(z, "v"); go(n + "=" + v + (n == "k" ? "; p=" RSA1_PUB_B64 : "; k=ed25519; p=" ED1_PUB_B64)); }
UNIT(c11_flags) { size_t n = sym_range(0, BND(5, 6), "n"); std::string r = ed("t=" + symStr(n, "t")); folded(r); PublicKey k; if (kr::compare(r, k)) sym_reach(k.SoftFail() ? "y" : "other"); else sym_reach("bad"); }
UNIT(c11_type) {
	static const char* P[] = {RSA0_PUB_B64, RSA1_PUB_B64, EC_PUB_B64, ED_PUB_DER_B64, ED0_PUB_B64, "", "MFw=", "MFww"}; std::string p = P[sym_range(0, 7, "p")], k; int w = sym_range(0, 3, "k"); if (w == 1) k = "k=" + alter("rsa") + ";"; if (w == 2) k = "k=" + alter("ed25519") + ";"; if (w == 3) k = "k = ;"; go(k + "p=" + p);
}
static std::string tk32(size_t n) { std::string d; for (size_t i = 0; i < n; i++) d += (char)(37 * i + 11); return d; }
UNIT(c11_ed) {
	static const int N[] = {0, 1, 31, 32, 33}; int n = N[sym_range(0, 4, "n")]; std::string d = tk32((size_t)n); bool ws = n == 32 && sym_range(0, 1, "white"); if (n && !ws) { const int W = BND(1, 2); size_t w = (size_t)sym_range(0, (n - 1) / W, "window") * W; std::string x = symStr(std::min((size_t)W, (size_t)n - w), "d"); d.replace(w, x.size(), x); } std::string p = ref::enc64(d); if (ws) { size_t at = (size_t)sym_range(0, (int64_t)p.size(), "at"); int w = sym_range(0, 1, "ws"); p.insert(at, w ? " " : "\r\n\t"); } go("p=" + p + "; k=ed25519");
}
UNIT(c11_octet) { go(alter("v=DKIM1; h=sha256:x; k=ed25519; n=q; s=*; t=y:s; p=" ED1_PUB_B64)); }
UNIT(c11_long) {
	int k = sym_range(0, 6, "kind"); bool front = sym_range(0, 1, "front"); size_t n = symLen(k ? 1024 : BND(2048, 8192), 2, 12000); char c; sym_bytes(&c, 1, "c"); std::string t, C(1, c); if (k == 0) t = "n=" + symRep("note ", n) + C; if (k == 1) t = "t=" + symRep("f:", n / 2 * 2) + C; if (k == 2) t = "t=" + symRep("f", n) + C + ":y"; if (k == 3) t = "h=" + symRep("x:", n / 2 * 2) + "sha25" + C; if (k == 4) t = "s=" + symRep("o:", n / 2 * 2) + "emai" + C; if (k == 5) t = symRep("name", n) + C + "=1"; if (k == 6) t = "t=y:" + symRep("abc:", n / 4 * 4) + "d" + C;
	std::string p = "k=ed25519; p=" ED1_PUB_B64, r = front ? t + "; " + p : p + ";" + t; folded(r); PublicKey key; bool ok = kr::compare(r, key); sym_reach(ok ? "ok" : "bad"); if (ok && key.SoftFail()) sym_reach("y");
}
UNIT(c11_twice) { static const char* F[] = {"", "p=", "k=ed25519; p=" ED0_PUB_B64 "; t=y:s", "p=" RSA1_PUB_B64 "; h=sha1; s=email", "v=DKIM2", "k=ed25519; p=AAAA; t=y", "t=y:", "p=" RSA0_PUB_B64}; { PublicKey k; try { k.Parse(F[sym_range(0, 7, "first")]); } catch (PermanentError&) {} } bool f = sym_range(0, 1, "flags"); std::string r = f ? "k=ed25519; t=y:x; h=sha256; p=" ED1_PUB_B64 : "k=ed25519; p=" ED1_PUB_B64; size_t p = (size_t)sym_range(0, (int64_t)r.size() - 1, "p"); char c; sym_bytes(&c, 1, "c"); r[p] = c; folded(r); PublicKey k; bool ok = kr::compare(r, k); sym_reach(ok ? "ok" : "bad"); if (ok && k.SoftFail()) sym_reach("y"); }
UNIT(c11_rsa) {
	int which = sym_range(0, 4, "which"), mode = sym_range(0, 3, "mode"); static const char* P[] = {"v=DKIM1; p=", "k=rsa; t=s; p=", "p = "}; static const char* Q[] = {"", ";", "; t=y", ";n=x"}; std::string p = kr::RSA_P[which], c; static const char* W[] = {" ", "\t", "\r\n ", " \r\n\t"};
	if (mode == 1) { size_t at = (size_t)sym_range(0, 39, "at"); p.insert(at < 20 ? at : at < 30 ? p.size() - (at - 20) : at * 7 % p.size(), W[sym_range(0, 3, "w")]); } if (mode == 2) { size_t e = (size_t)sym_range(20, 76, "every"); const char* x = W[sym_range(0, 3, "w")]; size_t l = std::string(x).size(); for (size_t i = e; i < p.size(); i += e + l) p.insert(i, x); } if (mode == 3) p.resize(p.size() - (size_t)sym_range(1, 9, "cut")); if (mode == 3 && kr::RSA_P[which][std::string(kr::RSA_P[which]).size() - 1] == '=' && p.size() % 4) return;
	std::string w = symStr(1, "c"); sym_assume(ref::wsp(w[0])); int v = BND(sym_range(0, 2, "form"), sym_range(0, 11, "form")); go(P[v % 3] + w + p + Q[v % 4]);
}
