// C24 signer, verifier and parsers give the same answer however often used
// @unit c24_sign reach=ok,threw,absent q=300: every sequence of 3 (quick) / 4 (thorough) signing calls on one object out of 8 option sets (algorithms, canonicalizations, limits, a limit that is too large, ARC, a missing key, several signatures) for messages with body, empty body, no body at all and long headers
// @unit c24_signbody reach=ok,threw q=300: signing twice for every message rest (header end and body) of up to 5 / 6 octets, after a successful and after a refused first call
// @unit c24_verify reach=pass,fail,perm,temp q=300: every sequence of 2 / 3 checks on one verifier over 6 signature fields (valid with different canonicalization, limit and hash, body hash mismatch, header mismatch, malformed), with the right key, a wrong key, a key record without use or a lookup failure
// @unit c24_verifybody reach=pass,fail q=300: checking a signature with and one without body limit in any order, repeatedly, for every body of up to 4 / 5 octets
// @unit c24_vary reach=pass,fail q=300: two signatures of one message, the first with any of 3 algorithms, both header and body modes, no limit or a limit of 0, 2, 4 or all octets, one or two signed names and a correct, wrong body or wrong header signature, the second differing in at most one (quick) / two (thorough) of these; checked in the order first, second, first on one verifier (ed25519: for every value of one body octet)
// @unit c24_signpair reach=ok,threw q=300: three signing calls on one object, the third like the first, the second differing in up to two of 14 options (modes, digest, key, limit, header list, oversigning, ARC, identity, domain, selector, timestamp, expiration, further signatures), for every value of one body octet
// @unit c24_parts reach=pass,fail q=300: every order of the single steps (parse, body hash, header signature) of two signatures on one verifier
// @unit c24_reset reach=ok,threw q=300: Signature, PublicKey, TagList and Message objects give the answer of a fresh object after Reset, for every pair of inputs out of 8 each with 2 symbolic octets
#include "sign.hpp"
#include "sigref.hpp"
#include "keyref.hpp"
using namespace DKIM;
static void opts(SignatoryOptions& o, int k) {
	o.SetDomain("ex.org").SetSelector("s"); if (k != 6) tk::setKey(o, k != 2); else o.SetSignatureAlgorithm(DKIM_SA_RSA);
	if (k == 1) o.SetCanonModeHeader(DKIM_C_RELAXED).SetCanonModeBody(DKIM_C_RELAXED); if (k == 2) o.SetDigestAlgorithm(DKIM_A_SHA1).SetHeaders({}); if (k == 3) o.SetSignBodyLength(2); if (k == 4) o.SetSignBodyLength(100); if (k == 5) o.SetARCInstance(2).SetOversignHeaders({"from", "to"}); if (k == 7) { auto& a = o.AddAdditionalSignature(); a.SetDomain("b.org").SetSelector("t"); tk::setKey(a, false); o.SetCanonModeBody(DKIM_C_RELAXED).SetSignBodyLength(0); }
}
static bool call(Signatory& s, int k, std::string& out) { SignatoryOptions o; opts(o, k); out.clear(); try { out = s.CreateSignature(o); return true; } catch (PermanentError&) { return false; } }
static void again(Signatory& s, const std::string& msg, int k) { std::stringstream st(msg); Signatory f(st); std::string a, b; bool ok = call(f, k, a), o2 = call(s, k, b); CHECK(ok == o2, "the same signing outcome as with a fresh object"); CHECK(a.size() == b.size(), "the same signature length as with a fresh object"); CHECK(a == b, "the same signature as with a fresh object"); sym_reach(ok ? "ok" : "threw"); }
UNIT(c24_sign) {
	static const char* M[] = {"From: a\nTo: b\n\nbody  x\n\n\n", "From: a\r\nTo: b\r\n\r\n", "From: a\nTo: b", "From: a\nTo: b\n", "From: a\n", "To: a\n b\nFrom: c\n\nx"}; int m = sym_range(0, 5, "m"); std::string msg = M[m]; if (m == 2 || m == 3) sym_reach("absent"); if (m == 4) msg += std::string(300, 'X') + ": 1\n\n" + std::string(9000, 'b'); std::stringstream st(msg); Signatory s(st); int n = m == 4 ? 2 : BND(3, 4); for (int i = 0; i < n; i++) again(s, msg, sym_range(0, 7, "call"));
}
UNIT(c24_signbody) { size_t n = sym_range(0, BND(5, 6), "n"); std::string msg = "From: a\nTo: b" + symStr(n, "rest"); std::stringstream st(msg); Signatory s(st); static const int A[] = {1, 3, 4, 5}; again(s, msg, A[sym_range(0, 3, "first")]); again(s, msg, sym_range(0, 1, "second") ? 3 : 1); }
static std::string foreignOf(const std::string& msg, int k) {
	tk::Foreign f; f.names = {"from", "to"}; bool ok = true; std::string c = k == 1 ? "relaxed/relaxed" : k == 2 ? "relaxed/simple" : "simple/simple"; f.hr = k == 1 || k == 2; f.br = k == 1; f.limit = k == 2 ? 3 : -1; f.alg = k == 0 || k == 4 ? tk::ED_SHA256 : k == 1 ? tk::RSA_SHA1 : tk::RSA_SHA256;
	f.pre = std::string("v=1; a=") + tk::ALG[f.alg] + "; c=" + c + (k == 2 ? "; l=3" : "") + "; d=ex.org; s=s" + char('0' + k) + "; h=from:to; bh=%BH%; "; std::string m = msg; if (k == 3) m += "other body\n"; if (k == 4) m = "From: z\n" + msg.substr(msg.find('\n') + 1); std::string r = tk::foreign(m, f, ok); if (k == 5) r = "DKIM-Signature: v=1; a=rsa-sha256; d=ex.org; h=to; s=s5; bh=; b=x"; return r;
}
static const char* NAME[] = {"pass", "fail", "perm", "temp"};
static int one(Validatory& v, int k, int key) {
	auto it = v.GetSignatures().begin(); std::advance(it, k); bool ed = k == 0 || k == 4; v.CustomDNSResolver = [ed, key](const std::string&, std::string& r, void*) { if (key == 3) return false; r = key == 2 ? std::string() : tk::record(ed, key == 0); return true; };
	return tk::guarded([&]() { Message::HeaderList l; l.push_back(*it); Signature s; v.GetSignature(l.begin(), s); PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(*it, s, p); });
}
static std::string stack(const std::string& msg) { std::string r; for (int k = 0; k < 6; k++) r += foreignOf(msg, k) + "\r\n"; return r + msg; }
UNIT(c24_verify) {
	static const char* M[] = {"From: a\nTo: b\n\nbody  x\n\n\n", "From: a\nTo: b\n\n", "From: a\nTo: b"}; std::string msg = stack(M[sym_range(0, 2, "m")]); std::stringstream st(msg); Validatory v(st); int n = BND(2, 3); for (int i = 0; i < n; i++) { int k = sym_range(0, 5, "field"), key = sym_range(0, 3, "key"); std::stringstream s2(msg); Validatory f(s2); int a = one(f, k, key), b = one(v, k, key); CHECK(a == b, "the same outcome as with a fresh verifier"); sym_reach(NAME[a]); }
}
UNIT(c24_verifybody) {
	size_t n = sym_range(0, BND(4, 5), "n"); std::string b = symStr(n, "b"), base = "From: a\nTo: b\n\n"; bool br = sym_range(0, 1, "br"); std::string canon = ref::body(b, br); std::string msg = base + b; tk::Foreign f, g; bool ok = true; f.alg = g.alg = tk::ED_SHA256; f.names = g.names = {"from"}; f.br = g.br = br; int lim = sym_range(0, 3, "lim"); g.limit = lim; bool bad = sym_range(0, 1, "bad"); std::string c = br ? "simple/relaxed" : "simple/simple";
	f.pre = "v=1; a=ed25519-sha256; c=" + c + "; d=ex.org; s=s; h=from; bh=%BH%; "; g.pre = "v=1; a=ed25519-sha256; c=" + c + "; d=ex.org; s=s; h=from; l=" + char('0' + lim) + "; bh=%BH%; "; std::string all = tk::foreign(bad ? msg + "y\n" : msg, f, ok) + "\r\n" + tk::foreign(msg, g, ok) + "\r\n" + msg; std::stringstream st(all); Validatory v(st); bool eq = bad ? ref::body(b + "y\n", br) == canon : true; int order = sym_range(0, 3, "order");
	for (int i = 0; i < 3; i++) { int k = (order >> 1 & (i == 2)) ^ ((order ^ i) & 1); auto it = v.GetSignatures().begin(); if (k) ++it; int r = tk::check(v, *it, tk::record(true)); if (k || eq) { CHECK(r == tk::PASS, "a valid signature verifies whatever was checked before"); sym_reach("pass"); } else { CHECK(r == tk::FAIL, "a body mismatch is reported whatever was checked before"); sym_reach("fail"); } }
}
struct Attr { int alg = 0, hr = 0, br = 0, lim = 0, names = 0, bad = 0; };
static int* attr(Attr& a, int i) { int* p[] = {&a.alg, &a.hr, &a.br, &a.lim, &a.names, &a.bad}; return p[i]; }
static std::string made(const std::string& msg, const std::string& body, const Attr& a, char sel) {
	static const int L[] = {-1, 0, 2, 4, 9}; tk::Foreign f; bool ok = true; f.alg = a.alg; f.hr = a.hr; f.br = a.br; f.limit = L[a.lim]; f.names = {"from"}; if (a.names) f.names.push_back("to"); std::string m = msg; if (a.bad == 1) m.replace(m.size() - body.size(), 1, "?"); if (a.bad == 2) m.replace(6, 1, "?");
	f.pre = std::string("v=1; a=") + tk::ALG[a.alg] + "; c=" + (a.hr ? "relaxed/" : "simple/") + (a.br ? "relaxed" : "simple") + (a.lim ? std::string("; l=") + char('0' + L[a.lim]) : "") + "; d=ex.org; s=" + sel + "; h=from" + (a.names ? ":to" : "") + "; bh=%BH%; "; return tk::foreign(m, f, ok) + "\r\n";
}
UNIT(c24_vary) {
	static const int N[] = {3, 2, 2, 5, 2, 3}; Attr a, b; for (int i = 0; i < 6; i++) *attr(a, i) = sym_range(0, N[i] - 1, "a"); b = a; for (int d = 0; d < BND(1, 2); d++) { int i = sym_range(0, 5, "attribute"); *attr(b, i) = sym_range(0, N[i] - 1, "b"); }
	std::string body = "a" + (a.alg == tk::ED_SHA256 ? symStr(1, "o") : "b") + "  c\nd\n\n", msg = "From: a  b\nTo: b\n\n" + body; std::string all = made(msg, body, a, 'a') + made(msg, body, b, 'b') + msg; std::stringstream st(all); Validatory v(st); const Attr* A[] = {&a, &b, &a};
	for (int i = 0; i < 3; i++) { auto it = v.GetSignatures().begin(); if (i == 1) ++it; std::string key = tk::record(A[i]->alg == tk::ED_SHA256); std::stringstream s2(all); Validatory f(s2); auto jt = f.GetSignatures().begin(); if (i == 1) ++jt; int r = tk::check(v, *it, key), w = tk::check(f, *jt, key); CHECK(r == w, "the same outcome as with a fresh verifier"); if (!A[i]->bad) CHECK(r == tk::PASS, "a valid signature verifies whatever was checked before"); if (A[i]->bad == 2 || (A[i]->bad && A[i]->lim != 1)) CHECK(r == tk::FAIL, "a mismatch is reported whatever was checked before"); sym_reach(r == tk::PASS ? "pass" : "fail"); }
}
struct Opt { int v[14] = {}; };
static const int ON[] = {2, 2, 2, 2, 5, 4, 3, 3, 2, 2, 2, 3, 3, 3};
static bool callOpt(Signatory& s, const Opt& q, std::string& out) {
	SignatoryOptions o; const int* v = q.v; o.SetDomain(v[9] ? "b.org" : "ex.org").SetSelector(v[10] ? "t" : "s"); tk::setKey(o, v[3]); o.SetCanonModeHeader(v[0] ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(v[1] ? DKIM_C_RELAXED : DKIM_C_SIMPLE); if (v[2] && !v[3]) o.SetDigestAlgorithm(DKIM_A_SHA1); static const int L[] = {0, 0, 2, 4, 60}; if (v[4]) o.SetSignBodyLength((size_t)L[v[4]]);
	if (v[5] == 1) o.SetHeaders({}); if (v[5] == 2) o.SetHeaders({"from"}); if (v[5] == 3) o.SetHeaders({"to", "from"}); if (v[6] == 1) o.SetOversignHeaders({"from"}); if (v[6] == 2) o.SetOversignHeaders({"x"}); if (v[7]) o.SetARCInstance(v[7]); if (v[8]) o.SetIdentity(v[9] ? "u@b.org" : "u@ex.org"); if (v[11]) o.SetTimestamp(v[11]); if (v[12]) o.SetExpiration(1700000000 + v[12]); for (int i = 0; i < v[13]; i++) { auto& a = o.AddAdditionalSignature(); a.SetDomain(i ? "d.org" : "c.org"); a.SetSelector("x"); tk::setKey(a, i == 0); }
	out.clear(); try { out = s.CreateSignature(o); return true; } catch (PermanentError&) { return false; }
}
UNIT(c24_signpair) {
	std::string msg = "From: a  b\nTo: b\nX: c\n\na" + symStr(1, "o") + "  c\nd\n\n"; Opt a, b; int base = sym_range(0, 5, "base"); if (base == 1) for (int i : {0, 1, 4, 6}) a.v[i] = 1; if (base == 2) for (int i : {3, 5, 8, 11, 12}) a.v[i] = 1; if (base == 3) a.v[7] = 1, a.v[13] = 1; if (base == 4) a.v[4] = 2, a.v[13] = 2, a.v[1] = 1; if (base == 5) a.v[2] = 1, a.v[5] = 3, a.v[6] = 2, a.v[4] = 3; b = a;
	for (int d = 0; d < 2; d++) { int i = sym_range(0, 13, "option"); b.v[i] = sym_range(0, ON[i] - 1, "value"); }
	std::stringstream st(msg); Signatory s(st); std::string first; for (int i = 0; i < 3; i++) { const Opt& o = i == 1 ? b : a; std::stringstream s2(msg); Signatory f(s2); std::string x, y; bool p = callOpt(s, o, x), q = callOpt(f, o, y); CHECK(p == q, "the same signing outcome as with a fresh object"); CHECK(x == y, "the same signature as with a fresh object"); if (i == 0) first = x; if (i == 2) CHECK(x == first, "the same signature as in the first call"); sym_reach(p ? "ok" : "threw"); }
}
UNIT(c24_parts) {
	std::string m = "From: a\nTo: b\n\nbody  x\n", msg = stack(m); std::stringstream st(msg); Validatory v(st); int x = sym_range(0, 4, "x"), y = sym_range(0, 4, "y"); int want[] = {tk::PASS, tk::PASS, tk::PASS, tk::FAIL, tk::FAIL}; int K[2] = {x, y}; Signature s[2]; PublicKey p[2]; auto item = [&](int k) { auto it = v.GetSignatures().begin(); std::advance(it, k); return *it; }; for (int j = 0; j < 2; j++) { s[j].Parse(item(K[j])); p[j].Parse(tk::record(K[j] == 0 || K[j] == 4)); }
	for (int i = 0; i < 4; i++) { int j = sym_range(0, 1, "which"), step = sym_range(0, 1, "step"); int r = step ? tk::guarded([&]() { v.CheckBodyHash(s[j]); }) : tk::guarded([&]() { v.CheckSignature(item(K[j]), s[j], p[j]); }); int k = K[j]; int w = step ? (k == 3 ? tk::FAIL : tk::PASS) : (k == 4 ? tk::FAIL : tk::PASS); CHECK(r == w, "each step gives its own answer in any order"); sym_reach(r == tk::PASS ? "pass" : "fail"); } (void)want;
}
// observable content of the parsed objects, "!" when rejected
static std::string num(unsigned long v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
static std::string show(Signature& g, const std::string& f) { auto h = sr::header(f); try { g.Parse(h); } catch (PermanentError&) { return "!"; } std::string r = g.GetDomain() + "|" + g.GetSelector() + "|" + g.GetSignatureData() + "|" + g.GetBodyHash() + "|" + (g.IsARC() ? "arc" + num(g.GetARCInstance()) : g.GetMailLocalPart() + "@" + g.GetMailDomain()) + "|" + (g.GetBodySizeLimit() ? num(g.GetBodySize()) : "-") + "|" + (char)('0' + g.GetCanonModeHeader()) + (char)('0' + g.GetCanonModeBody()) + (char)('0' + g.GetSignatureAlgorithm()) + (char)('0' + g.GetDigestAlgorithm()) + "|"; for (auto& n : g.GetSignedHeaders()) r += n + ":"; return r; }
static std::string show(PublicKey& g, const std::string& f) { try { g.Parse(f); } catch (PermanentError&) { return "!"; } std::string r = std::string(g.GetSignatureAlgorithm() == DKIM_SA_RSA ? "r" : "e") + (g.GetRSAPublicKey() ? "k" : "-") + g.GetED25519PublicKey() + "|"; for (auto a : g.GetDigestAlgorithms()) r += (char)('0' + a); r += "|"; for (auto& n : g.GetFlags()) r += n + ":"; for (auto& n : g.GetServiceType()) r += n + ";"; return r; }
static std::string show(TagList& g, const std::string& f) { try { g.Parse(f); } catch (PermanentError&) { return "!"; } std::string r; for (const char* n : {"a", "b", "v"}) { TagListEntry e; if (g.GetTag(n, e)) r += std::string(n) + "=" + e.GetValue() + "@" + num(e.GetValueOffset()) + ";"; } return r; }
static std::string show(Message& g, const std::string& f) { std::stringstream st(f); while (g.ParseLine(st) && !g.IsDone()) {} std::string r = num((unsigned long)(g.GetBodyOffset() + 1)) + "|"; for (auto& h : g.GetHeaders()) r += h->GetHeader() + "#" + h->GetName() + num(h->GetValueOffset()) + "|"; return r; }
template <class T> static void reset(const std::string& a, const std::string& b) { T x, y; std::string r = show(x, a); sym_reach(r == "!" ? "threw" : "ok"); x.Reset(); std::string p = show(x, b), q = show(y, b); CHECK(p.size() == q.size(), "size after Reset"); CHECK(p == q, "after Reset an object gives the answer of a fresh one"); }
UNIT(c24_reset) {
	static const char* S[] = {"v=1; a=rsa-sha1; c=relaxed/relaxed; d=ex.org; i=u@x.ex.org; l=5; h=from:to; s=s; bh=YWJj; b=YWJj", "v=1; a=ed25519-sha256; d=b.org; h=from; s=t; bh=YWJj; b=eHl6", "i=3; a=rsa-sha256; c=simple; d=b.org; h=From:x; s=t; bh=YWJj; b=eHl6", "v=1; a=rsa-sha256; c=relaxed; d=b.org; h=from; s=t; bh=YWJj; b=eHl6; l=x", "v=1; a=rsa-sha1; d=b.org; h=from; s=t; b=x; q=none", "", "a=1;a=2", "i=0; d=x"};
	static const char* T[] = {"a=1; b=2; v=3", "v= x y ", "", "a=1; a=2", "b=;", "c=1;v", " a = b ;", "\x80"}; static const char* M[] = {"A: 1\n b\nB: 2\n\nxyz", "", "\n", "A: 1", " x\nC:", "A:1\r\n\r\n", "x", "D: 1\n\n"};
	std::string K[] = {tk::record(false), tk::record(true), tk::record(false, 0, "h=sha1; "), tk::record(true, 0, "h=sha256:sha1; t=y:s; s=email; "), "p=", "v=DKIM1; t=y; k=ed25519; p=AAAA", "h=sha256; s=other; p=x", tk::record(false, 1, "t=s; ")};
	int kind = sym_range(0, 3, "kind"), i = sym_range(0, 7, "i"), j = sym_range(0, 7, "j"); std::string w = symStr(BND(1, 2), "w");
	if (kind == 0) { bool arc = sym_range(0, 1, "arc"), arc2 = sym_range(0, 1, "arc2"); reset<Signature>(std::string(arc ? "ARC-Message-Signature:" : "DKIM-Signature:") + S[i] + w, std::string(arc2 ? "ARC-Message-Signature:" : "DKIM-Signature:") + S[j]); } if (kind == 1) reset<PublicKey>(K[i] + ";" + w, K[j]); if (kind == 2) reset<TagList>(T[i] + w, T[j]); if (kind == 3) reset<Message>(M[i] + w, M[j]);
}
