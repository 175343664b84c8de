// C02 a changed body, header field or signature tag never verifies
// @unit c02_body reach=same,differs q=300: signed body of 0..2 (quick) / 0..3 (thorough) octets against every received body of 0..3 / 0..4 octets, both body modes, LF and CRLF received message
// @unit c02_value reach=same,differs q=300: signed Subject value of 2 symbolic octets against every received value of 0..3 / 0..4 octets, both header modes, Subject signed or not
// @unit c02_fields reach=same,differs,oversigned q=300: every received message of up to 3 / 4 fields out of 6 (altered, repeated, reordered, other letter case, in front of or behind the signature field) against a signature with oversigned names made over three of them
// @unit c02_octet reach=same,differs,gone q=300: every octet of the signature field in turn replaced by every other octet, both header modes, Ed25519 and RSA
// @unit c02_edit reach=differs q=300: every octet of the signature field in turn removed, or one arbitrary octet inserted in front of it, both header modes
// @unit c02_long reach=same,differs q=200: a message with a body of 30..16385 octets, a signed field of 30..4097 octets or 30..257 signed fields, one octet of it (first, middle, last and next to 4096, 8096 and 8192) replaced by an arbitrary one
// @unit c02_near reach=body,header,same q=200: hashes which differ in one octet only, at each position: a changed octet in the body or in a signed field, both modes, SHA-1 and SHA-256, RSA and Ed25519
// @assume ideal hash (no two inputs share a digest) and ideal signature (valid only for the digest it was made over)
#include "sign.hpp"
using namespace DKIM;
static bool sameOrNot(int r, bool same) {
	sym_reach(same ? "same" : "differs"); if (same) { CHECK(r == tk::PASS, "an equivalent message verifies"); return true; }
	CHECK(r != tk::PASS, "a changed message does not verify"); CHECK(r == tk::FAIL || r == tk::PERM, "a changed message fails with fail or permerror"); return false;
}
UNIT(c02_body) {
	bool cb = sym_range(0, 1, "cb"), crlf = sym_range(0, 1, "crlf"), ed = sym_range(0, 1, "ed"); size_t n1 = sym_range(0, BND(2, 3), "n1"), n2 = sym_range(0, BND(3, 4), "n2"); std::string b1 = symStr(n1, "b1"), b2 = symStr(n2, "b2"), sig;
	SignatoryOptions o; o.SetCanonModeBody(cb ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetDomain("ex.org").SetSelector("s1"); tk::setKey(o, ed);
	CHECK(tk::sign("From: a\n\n" + b1, o, sig), "signing succeeds"); std::string nl = crlf ? "\r\n" : "\n"; bool same = ref::body(b1, cb) == ref::body(b2, cb);
	int r = tk::verify(sig + nl + "From: a" + nl + nl + b2, tk::record(ed)); if (!sameOrNot(r, same)) CHECK(r == tk::FAIL, "a changed body is an authentication failure");
}
UNIT(c02_value) {
	bool ch = sym_range(0, 1, "ch"), in = sym_range(0, 1, "in"); size_t n2 = sym_range(0, BND(3, 4), "n2"); std::string v1 = symStr(2, "v1"), v2 = symStr(n2, "v2"), sig, m1 = "From: a\nSubject:" + v1 + "\nTo: c\n\nx\n", m2 = "From: a\nSubject:" + v2 + "\nTo: c\n\nx\n";
	ref::Msg p1 = ref::split(m1), p2 = ref::split(m2); if (p2.h.size() != 3 || p1.h.size() != 3) return; // the value ended the header: other fields lost, see c02_fields
	std::vector<std::string> names{"to", "from"}; std::list<std::string> hs{"to", "from"}; if (in) { names.insert(names.begin() + 1, "subject"); hs.push_back("subject"); }
	SignatoryOptions o; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetHeaders(hs).SetDomain("ex.org").SetSelector("s1"); tk::setKey(o, true);
	if (!tk::sign(m1, o, sig)) return;
	bool ok = true; std::string i1 = tk::headerInput(m1, names, "x:", ch, ok), i2 = tk::headerInput(m2, names, "x:", ch, ok);
	int r = tk::verify(sig + "\n" + m2, tk::record(true)); if (!ok) { CHECK(r == tk::PERM, "a field without canonical form is a permanent error"); return; }
	if (!sameOrNot(r, i1 == i2)) CHECK(r == tk::FAIL, "a changed signed field is an authentication failure");
}
UNIT(c02_fields) {
	static const char* F[] = {"From: a\n", "fROM: a\n", "To: b\n", "To:  B\n", "Received: r\n", "X: y\n"}; const int N = BND(3, 4); bool ch = sym_range(0, 1, "ch"); int ov = sym_range(0, 4, "ov");
	std::string m1 = "Received: r\nTo: b\nFrom: a\n", m2, sig, end = "\nbody\n"; std::list<std::string> hs{"from", "to", "received"}, os; if (ov == 1) os = {"from"}; if (ov == 2) os = {"to"}; if (ov == 3) os = {"from", "to"}; if (ov == 4) os = {"cc", "x", "x"}; if (ov) sym_reach("oversigned");
	SignatoryOptions o; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetHeaders(hs).SetOversignHeaders(os).SetDomain("ex.org").SetSelector("s1"); tk::setKey(o, true); CHECK(tk::sign(m1 + end, o, sig), "signing succeeds");
	int n = sym_range(0, N, "n"); int pos = sym_range(0, n, "sigpos"); std::string top; for (int i = 0; i < n; i++) { const char* f = F[sym_range(0, 5, "f")]; m2 += f; if (i < pos) top += f; } char body = 'b'; sym_bytes(&body, 1, "body"); std::string e2 = end; e2[1] = body;
	std::vector<std::string> names{"from", "to", "received"}; for (auto& x : os) names.push_back(x); bool ok = true, same = tk::headerInput(m1 + end, names, "x:", ch, ok) == tk::headerInput(m2 + e2, names, "x:", ch, ok) && ref::body("body\n", false) == ref::body(e2.substr(1), false);
	int r = tk::verify(top + sig + "\n" + m2.substr(top.size()) + e2, tk::record(true)); if (!sameOrNot(r, same)) CHECK(r == tk::FAIL, "a changed message is an authentication failure");
}
static const std::string MSG = "From: a\nTo: b\n\nbody\n";
// the signed part of a signature field: its canonical form without the b= value, and the signature itself.  false: not a signature field
static bool essence(const std::string& f, bool ch, std::string& rest, std::string& sig) {
	size_t c = f.find(':'); if (c == std::string::npos) return false; std::vector<ref::Tag> t; std::string v = f.substr(c + 1); if (!ref::tags(v, t)) return false; const ref::Tag* b = ref::tag(t, "b"); if (!b) return false;
	size_t s = b->off, e = b->off + b->v.size(); while (s > 0 && ref::fwsc(v[s - 1])) s--; while (e < v.size() && ref::fwsc(v[e])) e++;
	bool ok = true; rest = tk::canonH(f.substr(0, c + 1) + v.substr(0, s) + v.substr(e), ch, ok); sig = ref::nows(b->v); return ok;
}
static std::string signedField(bool ch, int key) {
	SignatoryOptions o; std::string sig; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(DKIM_C_RELAXED).SetHeaders({"from", "to"}).SetOversignHeaders({"from"}).SetDomain("ex.org").SetSelector("s").SetSignBodyLength(4).SetIdentity("u@ex.org").SetTimestamp(5); tk::setKey(o, key, 1); CHECK(tk::sign(MSG, o, sig), "signing succeeds"); return sig;
}
static void judge(const std::string& f, const std::string& g, bool ch, bool ed) {
	ref::Msg m = ref::split(g + "\r\n" + MSG); int r = tk::verify(g + "\r\n" + MSG, tk::record(ed)); std::string r1, s1, r2, s2, d1, d2; essence(f, ch, r1, s1);
	if (r == tk::NOSIG) { sym_reach("gone"); CHECK(m.h.empty() || !ref::ieq(m.h[0].name, "dkim-signature"), "a signature field is found"); return; }
	if (r != tk::PASS) { sym_reach("differs"); CHECK(r == tk::FAIL || r == tk::PERM, "a changed signature field fails with fail or permerror"); return; }
	sym_reach("same"); CHECK(!m.h.empty() && ref::ieq(m.h[0].name, "dkim-signature"), "only a signature field verifies"); 
	CHECK(essence(m.h[0].text, ch, r2, s2), "only a well-formed field verifies"); CHECK(r1.size() == r2.size() && r1 == r2, "a changed tag of the signature field does not verify");
	ref::dec64(s1, d1); if (ref::dec64(s2, d2)) CHECK(d1.size() == d2.size() && d1 == d2, "a changed b= value does not verify");
}
UNIT(c02_octet) {
	bool ch = sym_range(0, 1, "ch"), ed = sym_range(0, 1, "ed"); std::string f = signedField(ch, ed), g = f; int p = sym_range(0, (int64_t)f.size() - 1, "pos"); char c; sym_bytes(&c, 1, "c"); sym_assume(c != f[(size_t)p]); g[(size_t)p] = c; judge(f, g, ch, ed);
}
UNIT(c02_edit) {
	bool ch = sym_range(0, 1, "ch"), ins = sym_range(0, 1, "ins"); std::string f = signedField(ch, true), g = f; int p = sym_range(0, (int64_t)f.size() - 1, "pos"); if (ins) { char c; sym_bytes(&c, 1, "c"); g.insert((size_t)p, 1, c); } else g.erase((size_t)p, 1); judge(f, g, ch, true);
}
UNIT(c02_long) {
	int k = sym_range(0, 3, "kind"); bool rx = sym_range(0, 1, "rx"); size_t n = k < 2 ? symLen(BND(8192, 16384)) : k == 2 ? symLen(4096) : symLen(256); std::string sig, x, head = "From: a\nTo: b\n", m1, m2; std::list<std::string> hs{"from", "to", "x"}; char c; sym_bytes(&c, 1, "c"); int at = sym_range(0, 6, "at"); size_t off, len;
	if (k < 2) { x = symRep(k ? "line of text\r\n" : "letters", n); m1 = head + "\n" + x; off = head.size() + 1; len = n; } else if (k == 2) { m1 = head + "X:"; off = m1.size(); len = n; m1 += symRep("a b", n) + "\n\nb\n"; } else { off = head.size(); m1 = head; hs = {"from", "to"}; for (size_t i = 0; i < n; i++) { m1 += "X" + ref::num(i) + ": v\n"; hs.push_back("x" + ref::num(i)); } len = m1.size() - off; m1 += "\nb\n"; }
	size_t P[] = {0, len / 2, len - 1, 4095, 8095, 8096, 8191}; if (P[at] >= len) return; m2 = m1; m2[off + P[at]] = c; SignatoryOptions o; o.SetCanonModeHeader(rx ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(rx ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetHeaders(hs).SetDomain("ex.org").SetSelector("s1"); tk::setKey(o, true); CHECK(tk::sign(m1, o, sig), "signing succeeds");
	std::vector<std::string> names(hs.begin(), hs.end()); if (c == '\r' || c == '\n') sym_assume(k < 2); bool ok = true; bool same = ref::body(tk::bodyOf(m1), rx) == ref::body(tk::bodyOf(m2), rx) && tk::headerInput(m1, names, "x:", rx, ok) == tk::headerInput(m2, names, "x:", rx, ok); sameOrNot(tk::verify(sig + "\n" + m2, tk::record(true)), same);
}
UNIT(c02_near) {
	int k = sym_range(0, 2, "algorithm"), at = sym_range(0, k == tk::RSA_SHA1 ? 19 : 31, "octet"), part = sym_range(0, 1, "part"); bool rx = sym_range(0, 1, "rx"); std::string c = symStr(1, "c"); if (!part) sym_assume((c[0] > ' ') & (c[0] < 127)); sym_hash_near(at); tk::Foreign f; bool ok = true; f.alg = k; f.hr = f.br = rx; f.names = {"from", "x"};
	f.pre = std::string("v=1; a=") + tk::ALG[k] + (rx ? "; c=relaxed/relaxed" : "; c=simple/simple") + "; d=ex.org; s=s; h=from:x; bh=%BH%; "; std::string m1 = "From: a\nX: vw\n\nbcd\n", m2 = m1; m2[part ? m1.size() - 3 : 12] = c[0]; std::string s = tk::foreign(m1, f, ok) + "\n"; bool same = part ? ref::body(tk::bodyOf(m1), rx) == ref::body(tk::bodyOf(m2), rx) : c[0] == m1[12];
	sym_reach(same ? "same" : part ? "body" : "header"); CHECK(tk::verify(s + m1, tk::record(k == tk::ED_SHA256)) == tk::PASS, "the signed message verifies"); int r = tk::verify(s + m2, tk::record(k == tk::ED_SHA256)); CHECK(r == (same ? tk::PASS : tk::FAIL), "a message whose hash differs in one octet is an authentication failure");
}
