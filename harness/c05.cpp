// C05 the body length limit hashes exactly the first l= canonical octets
// @unit c05_canon reach=short,exact,over: every body of up to 5 (quick) / 7 (thorough) octets, both modes, every limit 0..10 / 0..14 and the largest size_t, body offset 0 and 3, absent body
// @unit c05_buffer reach=short,exact,over q=200: 4 / 5 arbitrary octets across the 8096 octet read buffer boundary, both modes, every limit around it, and limits at buffer multiples
// @unit c05_sign reach=refused,signed: every body of up to 3 / 4 octets, every limit 0..8, both modes: refused exactly when the limit exceeds the canonical body, l= states the limit
// @unit c05_verify reach=pass,fail q=200: body "ab  c" with every limit 0..8 against every received body of up to 6 / 7 octets (octets from a b c space CR LF): accepted exactly when the first l= canonical octets are unchanged
// @unit c05_long reach=short,exact,over q=200: bodies of 30..65540 octets (quick: 2049 for the mixed patterns) repeating one of six patterns with an arbitrary octet in front and behind, limits at, just below and just above their number of octets, half of it, and 65535..65537; both modes
// @unit c05_twice reach=short,exact,over q=100: one of six bodies canonicalized first, with or without a limit, then every body of up to 3 / 4 octets with every limit 0..6
// @assume ideal hash and ideal signature; octets before the window in c05_buffer are letters
#include "sign.hpp"
#include "src/Canonicalization.hpp"
using namespace DKIM;
static void one(const std::string& pre, const std::string& b, bool absent, bool rx, size_t lim) {
	std::stringstream st(pre + b); std::string out; bool ret = Conversion::CanonicalizationBody(st, rx ? DKIM_C_RELAXED : DKIM_C_SIMPLE, absent ? -1 : (long)pre.size(), true, lim, [&](const char* p, size_t n) { out.append(p, n); });
	std::string want = ref::body(absent ? "" : b, rx); sym_reach(lim < want.size() ? "short" : lim == want.size() ? "exact" : "over");
	CHECK(ret == (lim <= want.size()), "reports whether the limit was reached"); if (lim < want.size()) want.resize(lim); CHECK(out.size() == want.size(), "emits min(limit, total) octets"); CHECK(out.size() == want.size() && out == want, "emits the first octets of the canonical body");
	symObs(out.size() > 16 ? out.substr(out.size() - 16) : out, "out");
}
UNIT(c05_canon) {
	bool rx = sym_range(0, 1, "rx"); int off = sym_range(-1, 1, "off"); int64_t l = sym_range(-1, BND(10, 14), "lim"); size_t n = sym_range(0, BND(5, 7), "n"); std::string b = symStr(n, "b"); one(off == 1 ? "x\n\n" : "", b, off < 0, rx, l < 0 ? (size_t)-1 : (size_t)l);
}
UNIT(c05_buffer) {
	bool rx = sym_range(0, 1, "rx"); const int W = BND(4, 5); int k = sym_range(0, W, "k"); int64_t l = sym_range(-W - 1, W + 3, "lim"); int second = sym_range(0, 1, "second"); std::string b = symStr((size_t)W, "b"); 
	one("", std::string((size_t)(8096 - k), 'q') + b + (second ? std::string(3, 'z') : ""), false, rx, (size_t)(8096 + l));
}
UNIT(c05_sign) {
	bool rx = sym_range(0, 1, "rx"), ch = sym_range(0, 1, "ch"); int lim = sym_range(0, 8, "lim"); size_t n = sym_range(0, BND(3, 4), "n"); std::string b = symStr(n, "b"), msg = "From: a\n\n" + b, sig;
	SignatoryOptions o; o.SetCanonModeBody(rx ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetSignBodyLength((unsigned long)lim).SetDomain("ex.org").SetSelector("s"); tk::setKey(o, true);
	bool done = tk::sign(msg, o, sig); sym_reach(done ? "signed" : "refused"); CHECK(done == ((size_t)lim <= ref::body(b, rx).size()), "signing is refused exactly when the limit exceeds the canonical body"); if (!done) return;
	std::vector<ref::Tag> t; CHECK(ref::tags(sig.substr(sig.find(':') + 1), t), "a tag list"); const ref::Tag* l = ref::tag(t, "l"); CHECK(l && l->v == ref::num((unsigned long)lim), "l= states the configured limit");
	int r = tk::verify(sig + "\n" + msg, tk::record(true)); CHECK(r == tk::PASS, "the limited signature verifies");
	r = tk::verify(sig + "\n" + msg + "\nmore", tk::record(true)); std::string b2 = ref::body(b + "\nmore", rx); CHECK((r == tk::PASS) == (b2.compare(0, (size_t)lim, ref::body(b, rx), 0, (size_t)lim) == 0), "appended content matters only within the limit");
}
UNIT(c05_verify) {
	bool rx = sym_range(0, 1, "rx"); int lim = sym_range(0, 8, "lim"); size_t n = sym_range(0, BND(6, 7), "n"); std::string b = "ab  c", b2 = symStr(n, "b"), sig; for (char c : b2) sym_assume(c == 'a' || c == 'b' || c == 'c' || c == ' ' || c == '\r' || c == '\n');
	size_t total = ref::body(b, rx).size(); if ((size_t)lim > total) return; SignatoryOptions o; o.SetCanonModeBody(rx ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetSignBodyLength((unsigned long)lim).SetDomain("ex.org").SetSelector("s"); tk::setKey(o, true);
	CHECK(tk::sign("From: a\n\n" + b, o, sig), "signing succeeds"); std::string c1 = ref::body(b, rx), c2 = ref::body(b2, rx); bool same = c2.size() >= (size_t)lim && c2.substr(0, (size_t)lim) == c1.substr(0, (size_t)lim);
	int r = tk::verify(sig + "\nFrom: a\n\n" + b2, tk::record(true)); sym_reach(same ? "pass" : "fail"); CHECK(r == (same ? tk::PASS : tk::FAIL), "accepted exactly when the first l= canonical octets are unchanged");
}
UNIT(c05_long) {
	static const char* F[] = {"x", "\n", "x\n", "x ", " \n", "abc\r\n"}; bool rx = sym_range(0, 1, "rx"); int fill = sym_range(0, 5, "fill"); std::string b = symStr(1, "a") + symRep(F[fill], symLen(fill < 2 ? 65536 : BND(2048, 65536))) + symStr(1, "w"); size_t t = ref::body(b, rx).size(); int k = sym_range(0, 6, "lim"); long l[] = {(long)t, (long)t - 1, (long)t + 1, (long)t / 2, 65535, 65536, 65537}; if (l[k] < 0) return; one("", b, false, rx, (size_t)l[k]);
}
UNIT(c05_twice) {
	static const char* F[] = {"", "x", "x \n\n", "abc\r\n", "\n", "a\r"}; bool rx = sym_range(0, 1, "rx"), l1 = sym_range(0, 1, "l1"); { std::stringstream st(F[sym_range(0, 5, "first")]); Conversion::CanonicalizationBody(st, rx ? DKIM_C_RELAXED : DKIM_C_SIMPLE, 0, l1, 2, [](const char*, size_t) {}); } bool r2 = sym_range(0, 1, "rx2"); int l = sym_range(0, 6, "lim"); size_t n = sym_range(0, BND(3, 4), "n"); one("", symStr(n, "b"), false, r2, (size_t)l);
}
