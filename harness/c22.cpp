// C22 the produced signature field states exactly the configured signature
// @unit c22_tags reach=dkim,arc,limit,refused,time,expire q=300: every combination of algorithm (3), canonicalization (4), ARC instance (0, 1, 2, 50), body limit (none, 0..7 of a 5 octet body), t= (none, fixed, clock), x= (none, absolute, relative)
// @unit c22_numbers reach=all q=300: every timestamp, clock value, absolute and relative expiration and ARC instance within 256 (quick) / 4096 (thorough) values from 0, 9950 and 2^32-100
// @unit c22_identity reach=arc,dkim q=300: every identity of up to 4 (quick) / 6 (thorough) arbitrary octets, followed by @ex.org or not
// @unit c22_names reach=skipped,dup,all,over q=300: every field name of up to 4 / 5 octets (white space and 8 bit octets included), occurring twice, header lists of 0..3 names and oversigned names in any letter case
// @unit c22_value reach=done q=300: every field value of up to 5 / 7 octets: no tag of the signature changes
// @unit c22_fold reach=folded,single q=300: field lists whose first name has any length 60..84 and whose second has any length 1..20 / 1..90, three signature sizes
// @unit c22_domain reach=done q=300: every valid domain and selector of up to 5 + 2 / 6 + 3 octets
// @unit c22_long reach=done q=300 steps=600000000: identities, domains, selectors and field names of 30..514 and 5000 octets ending in an arbitrary octet, and 30..130 and 1500 fields signed in order, all or by list, oversigned or not
// @unit c22_twice reach=done,first q=200: one of nine other messages and configurations signed (or refused) first, then every value of up to 2 octets in a field, identity or body, both header modes
// @assume the header list and the oversign list contain names without white space, semicolons and 8 bit octets
#include "sign.hpp"
#include "sigref.hpp"
using namespace DKIM;
struct Want { bool arc = false; unsigned long inst = 0; int alg = 0; bool hr = false, br = false; std::string d = "ex.org", s = "s1"; bool id = false; std::string ident; bool lim = false; unsigned long l = 0; bool t = false, x = false; unsigned long tv = 0, xv = 0; std::vector<std::string> h; int keySize = 64; };
static std::string dec(unsigned long v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
static void is(const std::vector<ref::Tag>& t, const char* n, bool present, const std::string& v, size_t& seen) { const ref::Tag* x = ref::tag(t, n); CHECK((x != nullptr) == present, "presence of a tag"); if (x && present) { CHECK(x->v.size() == v.size(), "length of a tag value"); CHECK(x->v == v, "value of a tag"); } if (x) seen++; }
static void examine(const std::string& out, const std::string& msg, const Want& w) {
	std::string pre = w.arc ? "ARC-Message-Signature:" : "DKIM-Signature:"; CHECK(out.compare(0, pre.size(), pre) == 0, "field name"); CHECK(out.find("\r\n\r\n") == std::string::npos && out.substr(out.size() - 1) != "\n", "one header field");
	for (size_t i = 0; i < out.size(); i++) if (out[i] == '\n') CHECK(i > 0 && out[i - 1] == '\r' && i + 1 < out.size() && ref::wsp(out[i + 1]), "every line break is folding");
	std::vector<ref::Tag> t; bool ok = ref::tags(out.substr(pre.size()), t); CHECK(ok, "the field is a tag list"); if (!ok) return;
	size_t seen = 0; is(t, "v", !w.arc, "1", seen); is(t, "a", true, tk::ALG[w.alg], seen); is(t, "c", true, std::string(w.hr ? "relaxed/" : "simple/") + (w.br ? "relaxed" : "simple"), seen); is(t, "d", true, w.d, seen); is(t, "s", true, w.s, seen); is(t, "l", w.lim, dec(w.l), seen); is(t, "t", w.t, dec(w.tv), seen); is(t, "x", w.x, dec(w.xv), seen);
	std::string b = ref::body(tk::bodyOf(msg), w.br); if (w.lim) b.resize(w.l); is(t, "bh", true, ref::enc64(tk::digest(b, w.alg)), seen);
	if (w.arc) is(t, "i", true, dec(w.inst), seen); else { const ref::Tag* i = ref::tag(t, "i"); CHECK((i != nullptr) == w.id, "presence of i="); if (i && w.id) { seen++; std::string m; bool q = sr::qp(i->v, m); CHECK(q, "i= is quoted-printable"); CHECK(m.size() == w.ident.size(), "length of the identity"); CHECK(m == w.ident, "identity"); } }
	const ref::Tag *h = ref::tag(t, "h"), *s = ref::tag(t, "b"); CHECK(h && s, "h= and b= are present"); if (!h || !s) return; seen += 2; CHECK(seen == t.size(), "no other tags");
	std::vector<std::string> n; if (!h->v.empty()) CHECK(sr::list(h->v, n), "h= is a list of names"); CHECK(n.size() == w.h.size(), "number of names in h="); for (size_t i = 0; i < n.size() && i < w.h.size(); i++) CHECK(ref::ieq(n[i], w.h[i]), "names in h=");
	std::string v = ref::nows(s->v), sig; CHECK(ref::dec64(v, sig) && (int)sig.size() == w.keySize, "b= is a signature of the key's size");
}
static void cfg(SignatoryOptions& o, Want& w, int alg, bool hr, bool br) { w.alg = alg; w.hr = hr; w.br = br; tk::setKey(o, alg == tk::ED_SHA256); o.SetDigestAlgorithm(alg == tk::RSA_SHA1 ? DKIM_A_SHA1 : DKIM_A_SHA256).SetCanonModeHeader(hr ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(br ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetDomain(w.d).SetSelector(w.s); }
UNIT(c22_tags) {
	Want w; SignatoryOptions o; cfg(o, w, sym_range(0, 2, "alg"), sym_range(0, 1, "hr"), sym_range(0, 1, "br")); int k = sym_range(0, 3, "arc"), lim = sym_range(-1, 7, "lim"), t = sym_range(0, 2, "t"), x = sym_range(0, 2, "x"); static const int A[] = {0, 1, 2, 50};
	std::string msg = "From: a\nTo: b\n\nx y\n\n", out; if (k) { o.SetARCInstance((unsigned long)A[k]); w.arc = true; w.inst = (unsigned long)A[k]; sym_reach("arc"); } else sym_reach("dkim");
	if (lim >= 0) { o.SetSignBodyLength((unsigned long)lim); w.lim = true; w.l = (unsigned long)lim; sym_reach("limit"); } sym_set_time(1234567890); if (t) { w.t = true; o.SetTimestamp(t == 1 ? 1500000000 : -1); w.tv = t == 1 ? 1500000000 : 1234567890; sym_reach("time"); }
	if (x) { w.x = true; o.SetExpiration(x == 1 ? 1700000000 : 3600, x == 1); w.xv = x == 1 ? 1700000000 : (t == 1 ? 1500000000 : 1234567890) + 3600; sym_reach("expire"); } w.h = {"to", "from"};
	bool ok = tk::sign(msg, o, out); size_t max = 5; CHECK(ok == (lim <= (int)max), "refused exactly when the limit exceeds the body"); if (!ok) { sym_reach("refused"); return; } examine(out, msg, w);
}
UNIT(c22_numbers) {
	Want w; SignatoryOptions o; cfg(o, w, tk::ED_SHA256, true, true); w.h = {"from"}; static const long B[] = {0, 9950, 4294967296l - 100}; int k = sym_range(0, 2, "base"), kind = sym_range(0, 4, "kind"); long v = B[k] + sym_range(0, BND(255, 4095), "v"); std::string body = "x\n";
	sym_set_time(777); w.t = w.x = true; w.tv = 777; w.xv = 5; o.SetExpiration(5); if (kind != 1) o.SetTimestamp(777); if (kind == 0) { o.SetTimestamp(v); w.tv = (unsigned long)v; } if (kind == 1) { sym_set_time(v); o.SetTimestamp(-1); w.tv = (unsigned long)v; } if (kind == 2) { o.SetExpiration(v); w.xv = (unsigned long)v; } if (kind == 3) { o.SetExpiration(v, false); w.xv = (unsigned long)v + 777; } if (kind == 4) { sym_assume(v > 0); o.SetARCInstance((unsigned long)v); w.arc = true; w.inst = (unsigned long)v; }
	std::string msg = "From: a\n\nx\n", out; CHECK(tk::sign(msg, o, out), "signing succeeds"); examine(out, msg, w); sym_reach("all");
}
UNIT(c22_identity) {
	Want w; SignatoryOptions o; cfg(o, w, tk::ED_SHA256, sym_range(0, 1, "hr"), false); w.h = {"from"}; size_t n = sym_range(0, BND(4, 6), "n"); std::string id = symStr(n, "id"); if (sym_range(0, 1, "at")) id += "@ex.org"; o.SetIdentity(id); bool arc = sym_range(0, 1, "arc"); if (arc) { o.SetARCInstance(3); w.arc = true; w.inst = 3; } else { w.id = !id.empty(); w.ident = id; }
	std::string msg = "From: a\n\nx\n", out; CHECK(tk::sign(msg, o, out), "signing succeeds"); sym_reach(arc ? "arc" : "dkim"); examine(out, msg, w);
}
UNIT(c22_names) {
	Want w; SignatoryOptions o; cfg(o, w, tk::ED_SHA256, true, false); size_t n = sym_range(1, BND(4, 5), "n"); std::string x = symStr(n, "x"); for (char c : x) sym_assume(c != '\n' && c != '\r' && c != ':'); sym_assume(!ref::wsp(x[0]));
	int k = sym_range(0, 4, "k"), ov = sym_range(0, 3, "ov"); std::list<std::string> hs, os; if (k == 1) hs = {"FROM"}; if (k == 2) hs = {"from", "x"}; if (k == 3) hs = {"sUbject", "xAb", "from"}; if (k == 4) hs = {"cc", "x-1"}; if (!k) sym_reach("all"); if (ov == 1) os = {"From", "cc"}; if (ov == 2) os = {"X", "x"}; if (ov == 3) os = {"subject"}; if (ov) sym_reach("over");
	std::string msg = "From: a\n" + x + ": 1\nSubject: s\n" + x + " : 2\nfrom: b\nCC: c\n\nb\n", out; o.SetHeaders(hs).SetOversignHeaders(os);
	ref::Msg m = ref::split(msg); for (size_t i = m.h.size(); i-- > 0;) { std::string nm = ref::lower(m.h[i].name); bool sel = hs.empty(); for (auto& z : hs) if (ref::ieq(z, nm)) sel = true; for (auto& z : os) if (ref::ieq(z, nm)) sel = true; bool valid = !nm.empty(); for (char c : nm) if (c < 0x21 || c > 0x7e || c == ';') valid = false; if (sel && valid) w.h.push_back(nm); if (sel && !valid) sym_reach("skipped"); if (m.h.size() == 6 && ref::ieq(m.h[1].name, "cc")) sym_reach("dup"); } for (auto& z : os) w.h.push_back(z);
	CHECK(tk::sign(msg, o, out), "signing succeeds"); examine(out, msg, w);
}
UNIT(c22_value) {
	Want w; SignatoryOptions o; bool hr = sym_range(0, 1, "hr"); cfg(o, w, tk::ED_SHA256, hr, true); size_t n = sym_range(0, BND(5, 7), "n"); std::string v = symStr(n, "v"); for (size_t i = 0; i < n; i++) sym_assume(v[i] != '\n' && v[i] != '\r'); std::string msg = "From: " + v + "; i=x@y;\n b=" + v + "\n\n" + v + "\n", out; w.h = {"from"}; CHECK(tk::sign(msg, o, out), "signing succeeds"); examine(out, msg, w); sym_reach("done");
}
UNIT(c22_fold) {
	Want w; SignatoryOptions o; int key = sym_range(0, 2, "key"); cfg(o, w, key == 2 ? tk::ED_SHA256 : tk::RSA_SHA256, true, false); if (key == 0) { tk::setKey(o, false, 0); w.keySize = 128; } size_t a = (size_t)sym_range(60, 84, "a"), b = (size_t)sym_range(1, BND(20, 90), "b"); int ov = sym_range(0, 1, "ov"); std::string n1(a, 'n'), n2(b, 'm');
	std::string msg = "From: a\n" + n1 + ": 1\n" + n2 + ": 2\n" + n1 + ": 3\n\nx\n", out; o.SetHeaders({"from", n1, n2}); if (ov) o.SetOversignHeaders({n2, "zz"}); w.h = {n1, n2, n1, "from"}; if (ov) { w.h.push_back(n2); w.h.push_back("zz"); } CHECK(tk::sign(msg, o, out), "signing succeeds"); sym_reach(a + b > 76 ? "folded" : "single"); examine(out, msg, w);
}
static bool host(const std::string& s) { bool ok = true; size_t n = s.size(); for (size_t i = 0; i < n; i++) { char c = s[i]; bool an = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); bool edge = i == 0 || i + 1 == n || s[i - 1] == '.' || s[i + 1] == '.'; ok = ok & (an | ((c == '-') & !edge) | ((c == '.') & !edge)); } return ok && n > 0; }
UNIT(c22_domain) {
	Want w; SignatoryOptions o; cfg(o, w, tk::ED_SHA256, true, false); w.d = symStr((size_t)sym_range(1, BND(5, 6), "dn"), "d"); w.s = symStr((size_t)sym_range(1, BND(2, 3), "sn"), "s"); sym_assume(host(w.d)); sym_assume(host(w.s)); o.SetDomain(w.d).SetSelector(w.s); std::string msg = "From: a\n\nx\n", out; w.h = {"from"}; CHECK(tk::sign(msg, o, out), "signing succeeds"); examine(out, msg, w); sym_reach("done");
}
UNIT(c22_long) {
	Want w; SignatoryOptions o; cfg(o, w, tk::ED_SHA256, sym_range(0, 1, "hr"), false); int k = sym_range(0, 7, "kind"); size_t n = k < 3 || k > 5 ? symLen(512, 2, 5000) : symLen(128, 2, 1500); std::string c = symStr(1, "c"), msg, out; w.h = {"from"}; if (k == 0) { w.id = true; w.ident = symRep("user name", n) + c + "@ex.org"; o.SetIdentity(w.ident); } if (k == 1 || k == 2) { sym_assume((c[0] >= 'a') & (c[0] <= 'z')); std::string v = symRep("abc.", n / 4 * 4) + c; if (k == 1) w.d = v; else w.s = v; o.SetDomain(w.d).SetSelector(w.s); }
	if (k > 5) { sym_assume((c[0] >= 'a') & (c[0] <= 'z')); std::string x = symRep("x-name", n) + c; bool last = sym_range(0, 1, "last"); msg = x + ": v\nTo: t\n" + (last ? x + " : w\n" : ""); w.h = {"from", "to", x}; if (last) w.h.insert(w.h.begin() + 1, x); o.SetHeaders({}); if (k == 7) { o.SetHeaders({"to", "from"}).SetOversignHeaders({x}); w.h.push_back(x); } }
	else if (k >= 3) { sym_assume((c[0] >= 'a') & (c[0] <= 'z')); std::list<std::string> l{"from"}; w.h.clear(); for (size_t i = 0; i < n; i++) { std::string x = "x" + c + ref::num(i); msg += x + ": v\n"; l.push_back(x); w.h.insert(w.h.begin(), x); } w.h.insert(w.h.begin(), "from"); o.SetHeaders({}); if (k == 4) o.SetHeaders(l); if (k == 5) { o.SetOversignHeaders(l); for (auto& x : l) w.h.push_back(x); } } msg += "From: a\n\nx\n";
	CHECK(tk::sign(msg, o, out), "signing succeeds"); examine(out, msg, w); sym_reach("done");
}
UNIT(c22_twice) {
	int f = sym_range(0, 8, "first"); { Want w; SignatoryOptions o; cfg(o, w, f == 1 ? tk::RSA_SHA1 : tk::ED_SHA256, f & 1, f & 2); std::string m = "From: x\nTo: y\nSubject: z\n\nfirst body\n", out; if (f == 2) o.SetSignBodyLength(3); if (f == 3) o.SetSignBodyLength(3000); if (f == 4) o.SetARCInstance(5).SetHeaders({"from"}); if (f == 5) o.SetOversignHeaders({"to", "cc"}).SetIdentity("q@ex.org"); if (f == 6) o.SetTimestamp(-1).SetExpiration(5, false); if (f == 7) { o.SetDomain("other.net").SetSelector("zz"); auto& a = o.AddAdditionalSignature(); tk::setKey(a, false); a.SetDomain("third.com").SetSelector("q"); } if (f == 8) m = "From: \r x\n\n"; tk::sign(m, o, out); sym_reach("first"); }
	Want w; SignatoryOptions o; cfg(o, w, sym_range(0, 1, "alg") ? tk::RSA_SHA256 : tk::ED_SHA256, sym_range(0, 1, "hr"), false); std::string v = symStr((size_t)sym_range(0, 2, "n"), "v"); for (char c : v) sym_assume(c != '\n' && c != '\r'); int k = sym_range(0, 2, "k"); std::string msg = "From: " + (k == 0 ? v : "a") + "\nTo: b\n\n" + (k == 1 ? v : "x") + "\n", out; if (k == 2) { w.ident = v + "@ex.org"; w.id = true; o.SetIdentity(w.ident); } w.h = {"to", "from"}; CHECK(tk::sign(msg, o, out), "signing succeeds"); examine(out, msg, w); sym_reach("done");
}
