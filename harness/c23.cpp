// C23 each of several signatures is independently valid
// @unit c23_mix reach=one,two,three q=300: every choice of 0..2 additional signatures, each of the up to three RSA-1024, RSA-512 or Ed25519 (two keys), rsa-sha1 for all-RSA sets, header/body canonicalization, DKIM and ARC, with all signatures put in front of the message, each separately and rejected with another key
// @unit c23_order reach=done q=300: 1..3 signatures whose own domains and selectors are any 2 valid octets each (also equal ones)
// @unit c23_body reach=done q=300: three signatures (RSA, Ed25519, RSA) of every body of up to 4 (quick) / 5 (thorough) octets and every body limit that signing accepts
// @unit c23_names reach=done,folded q=300: three signatures with repeated and oversigned fields, a field name of any length 60..84, identity and timestamps
// @unit c23_many reach=done q=200: 4..12 (quick) / 4..40 (thorough) signatures of alternating key kinds with distinct, partly long domains
// @unit c23_sizes reach=two,three q=200: two or three signatures with every combination of RSA keys of 512, 1024, 2048, 4096 and 8192 bits and an Ed25519 key, one octet of From arbitrary, each accepted with its own key and rejected with another
#include "sign.hpp"
using namespace DKIM;
static std::vector<std::string> fields(const std::string& s) { std::vector<std::string> r; size_t b = 0; for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '\r' && s[i + 1] == '\n' && i + 2 < s.size() && !ref::wsp(s[i + 2])) { r.push_back(s.substr(b, i - b)); b = i + 2; } r.push_back(s.substr(b)); return r; }
// key kinds: 0 RSA-1024, 1 RSA-512, 2 Ed25519 key 0, 3 Ed25519 key 1, 4..6 RSA of 2048, 4096 and 8192 bits
struct K { int kind = 1; std::string d, s; bool ed() const { return kind == 2 || kind == 3; } int which() const { return kind < 4 ? kind & 1 : kind - 2; } };
template <class O> static void put(O& o, const K& k) { tk::setKey(o, k.ed(), k.which()); o.SetDomain(k.d).SetSelector(k.s); }
static void run(const std::string& msg, SignatoryOptions& o, const std::vector<K>& k, bool arc, bool sha1, bool wrong) {
	std::string out; bool ok = tk::sign(msg, o, out); CHECK(ok, "signing succeeds"); if (!ok) return; std::vector<std::string> f = fields(out); CHECK(f.size() == k.size(), "one field per configured signature"); if (f.size() != k.size()) return;
	Validatory::ValidatorType vt = arc ? Validatory::ARC : Validatory::DKIM; std::string all = out + "\r\n" + msg; std::stringstream st(all); Validatory v(st, vt); CHECK(v.GetSignatures().size() == k.size(), "every signature is found"); auto it = v.GetSignatures().begin();
	for (size_t i = 0; i < k.size(); i++) {
		const K& c = k[k.size() - 1 - i]; std::vector<ref::Tag> t; size_t colon = f[i].find(':'); CHECK(ref::ieq(f[i].substr(0, colon), arc ? "arc-message-signature" : "dkim-signature"), "field name"); bool tl = ref::tags(f[i].substr(colon + 1), t); CHECK(tl, "tag list"); if (!tl) return;
		const ref::Tag *d = ref::tag(t, "d"), *s = ref::tag(t, "s"), *a = ref::tag(t, "a"); CHECK(d && d->v == c.d, "its own domain, in reverse order of configuration"); CHECK(s && s->v == c.s, "its own selector"); CHECK(a && a->v == (c.ed() ? "ed25519-sha256" : sha1 ? "rsa-sha1" : "rsa-sha256"), "its own algorithm");
		int r = tk::verify(f[i] + "\r\n" + msg, tk::record(c.ed(), c.which()), vt); CHECK(r == tk::PASS, "each signature verifies on its own");
		if (it != v.GetSignatures().end()) { r = tk::check(v, *it, tk::record(c.ed(), c.which())); CHECK(r == tk::PASS, "each signature verifies next to the others"); if (wrong) CHECK(tk::check(v, *it, tk::record(c.ed(), !c.which())) != tk::PASS, "another key is rejected"); ++it; }
	}
	sym_reach(k.size() == 1 ? "one" : k.size() == 2 ? "two" : "three"); sym_reach("done"); if (f[0].size() > 400) sym_reach("folded");
}
UNIT(c23_mix) {
	int n = sym_range(1, 3, "n"); std::vector<K> k((size_t)n); bool rsa = true; static const char* D[] = {"a.org", "b.org", "c.example"}; static const char* S[] = {"s1", "s2", "s1"}; for (int i = 0; i < n; i++) { k[i].kind = sym_range(0, 3, "kind"); k[i].d = D[i]; k[i].s = S[i]; if (k[i].ed()) rsa = false; }
	bool sha1 = rsa && sym_range(0, 1, "sha1"), hr = sym_range(0, 1, "hr"), br = sym_range(0, 1, "br"), arc = sym_range(0, 1, "arc"); SignatoryOptions o; put(o, k[0]); for (int i = 1; i < n; i++) put(o.AddAdditionalSignature(), k[i]);
	o.SetDigestAlgorithm(sha1 ? DKIM_A_SHA1 : DKIM_A_SHA256).SetCanonModeHeader(hr ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(br ? DKIM_C_RELAXED : DKIM_C_SIMPLE); if (arc) o.SetARCInstance(1); run("From: a\nSubject: x\n  y\n\nb  c\n", o, k, arc, sha1, true);
}
static std::string label(const char* n) { std::string s = symStr(2, n); for (char c : s) sym_assume(((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9'))); return s; }
UNIT(c23_order) { int n = sym_range(1, 3, "n"); std::vector<K> k((size_t)n); for (int i = 0; i < n; i++) { k[i].kind = i + 1; k[i].d = label("d"); k[i].s = label("s"); } SignatoryOptions o; put(o, k[0]); for (int i = 1; i < n; i++) put(o.AddAdditionalSignature(), k[i]); run("From: a\n\nb\n", o, k, false, false, false); }
UNIT(c23_body) {
	std::vector<K> k(3); for (int i = 0; i < 3; i++) { k[i].kind = 1 + (i & 1) * 2; k[i].d = "ex.org"; k[i].s = "s"; } bool br = sym_range(0, 1, "br"); size_t n = sym_range(0, BND(4, 5), "n"); std::string b = symStr(n, "b"), c = ref::body(b, br); int lim = sym_range(-1, (int64_t)c.size(), "lim"); SignatoryOptions o; put(o, k[0]); for (int i = 1; i < 3; i++) put(o.AddAdditionalSignature(), k[i]); o.SetCanonModeBody(br ? DKIM_C_RELAXED : DKIM_C_SIMPLE); if (lim >= 0) o.SetSignBodyLength((unsigned long)lim); run("From: a\r\n\r\n" + b, o, k, false, false, false);
}
UNIT(c23_names) {
	std::vector<K> k(3); for (int i = 0; i < 3; i++) { k[i].kind = i ? 3 - i : 0; k[i].d = "ex.org"; k[i].s = "s"; } bool hr = sym_range(0, 1, "hr"); int ov = sym_range(0, 1, "ov"), idn = sym_range(0, 1, "id"); size_t a = (size_t)sym_range(60, 84, "a"); std::string nm(a, 'n'); SignatoryOptions o; put(o, k[0]); for (int i = 1; i < 3; i++) put(o.AddAdditionalSignature(), k[i]);
	o.SetCanonModeHeader(hr ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetHeaders({"from", nm, "to"}).SetTimestamp(1600000000).SetExpiration(50, false); if (ov) o.SetOversignHeaders({"from", "cc"}); if (idn) o.SetIdentity("\"a@b\"@ex.org"); run("From: a\n" + nm + ": 1\nTo: x\nto: y\n" + nm + ": 2\n\nb\n", o, k, false, false, true);
}
UNIT(c23_many) { int n = sym_range(4, BND(12, 40), "n"), first = sym_range(0, 3, "first"); bool arc = sym_range(0, 1, "arc"); std::vector<K> k((size_t)n); std::string l = label("d"); for (int i = 0; i < n; i++) { k[i].kind = (first + i) & 3; k[i].d = symRep("long.", (size_t)(i % 4) * 25) + l + ref::num((unsigned long)i) + ".org"; k[i].s = "s" + ref::num((unsigned long)(i / 2)); } SignatoryOptions o; put(o, k[0]); for (int i = 1; i < n; i++) put(o.AddAdditionalSignature(), k[i]); if (arc) o.SetARCInstance(1); run("From: a\n\nb\n", o, k, arc, false, false); }
UNIT(c23_sizes) { int n = sym_range(2, 3, "n"); std::vector<K> k((size_t)n); for (int i = 0; i < n; i++) { static const int A[] = {1, 0, 4, 5, 6, 2}; k[i].kind = A[sym_range(0, 5, "kind")]; k[i].d = i == 1 ? "b.org" : "a.org"; k[i].s = "s" + ref::num((unsigned long)i); } SignatoryOptions o; put(o, k[0]); for (int i = 1; i < n; i++) put(o.AddAdditionalSignature(), k[i]); std::string w = symStr(1, "w"); sym_assume(w[0] != '\n' && w[0] != '\r'); if (n == 2) o.SetARCInstance(1); run("From: a" + w + "b\n\nb\n", o, k, n == 2, false, n == 2); }
