// C27 DKIM and ARC signatures are never confused
// @unit c27_names reach=dkim,arc,neither q=300: a message with fields named by any 3 symbolic octets at any place of the two names (letter case, other octets), verifier kinds DKIM, ARC, NONE
// @unit c27_short reach=done q=300: every field name of up to 4 (quick) / 5 (thorough) octets, and every extension or truncation of the two names by one octet: never a signature unless equal
// @unit c27_order reach=some,none q=300: every sequence of 4 / 5 fields out of both kinds in different letter case with and without white space around the name, folded values and other fields
// @unit c27_kind reach=arc,dkim q=300: field names with 2 symbolic letters: the parsed signature is ARC exactly for arc-message-signature, needs v= and reads i= accordingly; for values valid as either, one or none
// @unit c27_cross reach=pass,other q=300: a signature made as one kind and renamed to the other never verifies, and each verifier kind accepts its own only
// @unit c27_many reach=some q=100: 30..129 (quick) / 30..513 (thorough) and 2000 signature fields of alternating kinds with an arbitrary octet in one name, and names of 30..1025 and 5000 octets ending or beginning with a signature field name
// @unit c27_twice reach=some,none q=100: a verifier of any kind over one of five messages first, then a message with any two octets of a signature field name arbitrary, any kind
#include "sign.hpp"
#include "sigref.hpp"
using namespace DKIM;
static const char* N[] = {"DKIM-Signature", "ARC-Message-Signature"};
static int kindOf(const std::string& name) { return ref::ieq(name, N[0]) ? 0 : ref::ieq(name, N[1]) ? 1 : 2; }
static Validatory::ValidatorType VT[] = {Validatory::DKIM, Validatory::ARC, Validatory::NONE};
static size_t collected(const std::string& msg, int t) {
	std::stringstream st(msg), s2(msg); Validatory v(st, VT[t]); ref::Msg m = ref::split(msg); std::vector<size_t> want; for (size_t i = 0; i < m.h.size(); i++) if (kindOf(m.h[i].name) == t && t < 2) want.push_back(i);
	CHECK(v.GetSignatures().size() == want.size(), "exactly the fields of the verifier's kind are collected"); size_t k = 0; for (auto& h : v.GetSignatures()) { if (k >= want.size()) break; CHECK(h->GetHeader() == m.h[want[k]].text, "signatures come in message order"); k++; } return want.size();
}
UNIT(c27_names) {
	int t = sym_range(0, 2, "type"), which = sym_range(0, 1, "which"); std::string n = N[which]; size_t at = (size_t)sym_range(0, (int64_t)n.size() - 3, "at"); std::string w = symStr(3, "w"); for (char c : w) sym_assume(c != '\n'); n.replace(at, 3, w); if (sym_range(0, 1, "upper")) for (size_t i = 0; i < n.size(); i++) if (i < at || i >= at + 3) n[i] = (char)toupper(n[i]);
	std::string msg = "From: a\n" + n + ": v=1\nTo: b\n\nx"; collected(msg, t); int k = kindOf(ref::split(msg).h[1].name); sym_reach(k == 0 ? "dkim" : k == 1 ? "arc" : "neither");
}
UNIT(c27_short) {
	int t = sym_range(0, 1, "type"), mode = sym_range(0, 4, "mode"); std::string n = N[sym_range(0, 1, "which")]; if (mode == 0) n = symStr((size_t)sym_range(0, BND(4, 5), "n"), "s"); if (mode == 1) n += symStr(1, "s"); if (mode == 2) n = symStr(1, "s") + n; if (mode == 3) n.pop_back(); if (mode == 4) n.insert((size_t)sym_range(1, (int64_t)n.size() - 1, "at"), symStr(1, "s")); for (char c : n) sym_assume(c != '\n'); collected(n + ": v=1\nFrom: a\n\nx", t); sym_reach("done");
}
UNIT(c27_order) {
	static const char* F[] = {"DKIM-Signature: a=1\n", "dkim-signature :\r\n\ta=2\r\n", "ARC-Message-Signature: i=1\r\n", "aRC-mESSAGE-sIGNATURE\t:i=2\n x\n", "ARC-Seal: i=1\n", "From: x\n DKIM-Signature: no\n", "DKIM-Signature\n", "X-DKIM-Signature: y\n"}; int t = sym_range(0, 2, "type"); std::string msg; int n = BND(4, 5); for (int i = 0; i < n; i++) msg += F[sym_range(0, 7, "f")]; bool body = sym_range(0, 1, "body"); if (body) msg += "\nDKIM-Signature: body\n"; sym_reach(collected(msg, t) ? "some" : "none");
}
UNIT(c27_kind) {
	int which = sym_range(0, 1, "which"); std::string n = N[which]; size_t at = (size_t)sym_range(0, (int64_t)n.size() - 2, "at"); std::string w = symStr(2, "w"); for (char c : w) sym_assume(c != '\n' && c != '\r' && c != ':' && !ref::wsp(c)); n.replace(at, 2, w);
	static const char* V[] = {"v=1; i=u@ex.org; ", "v=1; i=1; ", "i=1; ", "i=u@ex.org; ", "v=1; ", "", "v=1; i=51; ", "v=2; i=50; "}; int k = sym_range(0, 7, "v"); std::string value = std::string(" ") + V[k] + "a=rsa-sha256; d=ex.org; s=s; h=from; bh=YWJj; b=YWJj"; Signature g; bool ok = sr::compare(n, value, 1600000000, g); sym_reach(ref::ieq(n, N[1]) ? "arc" : "dkim"); (void)ok;
}
UNIT(c27_cross) {
	int as = sym_range(0, 1, "as"), now = sym_range(0, 1, "now"), t = sym_range(0, 2, "type"); bool hr = sym_range(0, 1, "hr"); int i = sym_range(0, 2, "i"); std::string w = symStr(1, "w"); sym_assume((w[0] >= 'a') & (w[0] <= 'z')); std::string msg = "From: " + w + "\n\nb\n"; tk::Foreign f; f.name = N[as]; f.hr = hr; f.names = {"from"}; f.alg = tk::ED_SHA256; f.pre = std::string(i == 0 ? "v=1; " : i == 1 ? "v=1; i=1; " : "v=1; i=x@ex.org; ") + "a=ed25519-sha256; c=" + (hr ? "relaxed" : "simple") + "; d=ex.org; s=s; h=from; bh=%BH%; "; bool ok = true; std::string sig = tk::foreign(msg, f, ok);
	std::string field = N[now] + sig.substr(sig.find(':')); int r = tk::verify(field + "\n" + msg, tk::record(true), VT[t]); bool valid = as == 0 ? i != 1 : i == 1; if (t == 2 || t != now) CHECK(r == tk::NOSIG, "a verifier considers its own kind only"); else if (as != now) CHECK(r != tk::PASS, "a renamed signature never verifies"); else CHECK((r == tk::PASS) == valid, "a signature of its own kind verifies"); sym_reach(r == tk::PASS ? "pass" : "other");
}
UNIT(c27_many) {
	int t = sym_range(0, 2, "type"), k = sym_range(0, 3, "kind"); std::string c = symStr(1, "c"), m; sym_assume(c[0] != '\n'); if (k < 2) { size_t n = symLen(BND(128, 512), 1, 2000); for (size_t i = 0; i < n; i++) m += std::string(N[(i >> k) & 1]) + (i + 3 == n ? c : "") + ": i=" + ref::num(i) + "\n"; } else { std::string x = symRep("x-", symLen(1024, 1, 5000)); m = (k == 2 ? x + c + N[0] : N[0] + c + x) + ": v\n" + N[1] + ": w\nDKIM-Signature: z\n"; } m += "From: a\n\nb"; if (collected(m, t)) sym_reach("some");
}
UNIT(c27_twice) { static const char* F[] = {"", "DKIM-Signature: v=1\n\n", "ARC-Message-Signature: i=1\nDKIM-Signature: x\n", "ARC-Message-Signature: i=1\n\nx", "From: a\n\n"}; collected(F[sym_range(0, 4, "first")], sym_range(0, 2, "t1")); int t = sym_range(0, 2, "type"); std::string n = N[sym_range(0, 1, "which")]; size_t at = (size_t)sym_range(0, (int64_t)n.size() - 2, "at"); std::string w = symStr(2, "w"); for (char c : w) sym_assume(c != '\n'); n.replace(at, 2, w); sym_reach(collected(n + ": v=1\nFrom: a\n\n", t) ? "some" : "none"); }
