// C28 failures carry the authentication result that fits their cause
// @unit c28_cause reach=pass,fail,perm,temp q=300: every combination of signature field state (valid, malformed, missing tags, expired, bad identity), key lookup outcome (found, none, failing, failing with an answer), key record state (usable, revoked, malformed, wrong type, hash not allowed, flag s), body and header changed or not, three algorithms
// @unit c28_sym reach=pass,fail,perm q=300: up to 3 (quick) / 4 (thorough) arbitrary octets in the signed header value, the body, b=, bh= or the tag list of a valid signature: fail exactly for a mismatch, permerror for a malformed field, pass only when nothing signed changed
// @unit c28_key reach=pass,fail,perm q=300: up to 3 / 4 arbitrary octets inside the key record: fail for another usable key, permerror otherwise
// @unit c28_steps reach=done q=300: the body hash and the header signature are each decided against the message the verifier was built for; a signature of another message fails in the matching step
// @unit c28_class reach=done q=300: every result class of both exception types gives its RFC 8601 name; defaults are permerror and temperror
// @unit c28_parse reach=ok,perm q=300: every signature field value of up to 5 / 6 arbitrary octets, every key record and every From value in front of a parser error: all errors are permerror
// @unit c28_limit reach=pass,fail q=300: every body length limit 0..9 or none over bodies of 0 to 7 octets, bh= right or one of six wrong values (another limit, whole body, empty body, an arbitrary octet in its place, shortened, lengthened) under a header signature that verifies, three algorithms, both modes, DKIM and ARC: fail exactly for a wrong body hash
#include "sign.hpp"
#include "sigref.hpp"
using namespace DKIM;
static const char* R[] = {"pass", "fail", "perm", "temp", "nosig", "other"};
static std::string build(const std::string& msg, tk::Foreign& f, int alg, bool relaxed, const std::string& extra) { f.alg = alg; f.hr = f.br = relaxed; f.names = {"from", "to"}; f.pre = std::string("v=1; a=") + tk::ALG[alg] + "; c=" + (relaxed ? "relaxed/relaxed" : "simple/simple") + "; d=ex.org; s=s; h=from:to; " + extra + "bh=%BH%; "; bool ok = true; return tk::foreign(msg, f, ok); }
static int run(const std::string& msg, int dns, const std::string& key, Validatory::ValidatorType t = Validatory::DKIM) {
	std::stringstream st(msg); Validatory v(st, t); if (v.GetSignatures().empty()) return tk::NOSIG; auto h = v.GetSignatures().front(); v.CustomDNSResolver = [&](const std::string&, std::string& r, void*) { if (dns == 2) return false; if (dns == 3) { r = key; return false; } r = dns == 1 ? std::string() : key; return true; };
	return tk::guarded([&]() { Message::HeaderList l; l.push_back(h); Signature s; v.GetSignature(l.begin(), s); PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(h, s, p); });
}
UNIT(c28_cause) {
	int alg = sym_range(0, 2, "alg"), field = sym_range(0, 6, "field"), dns = sym_range(0, 3, "dns"), key = sym_range(0, 6, "key"); bool bodyc = sym_range(0, 1, "body"), headc = sym_range(0, 1, "head"), rel = sym_range(0, 1, "relaxed"), ed = alg == tk::ED_SHA256; std::string msg = "From: a\nTo: b\n\nbody\n"; tk::Foreign f; static const char* X[] = {"", "v=1; ", "q=x/y; ", "x=1599999999; ", "i=u@example.com; ", "l=-1; ", "i=u@sub.ex.org; "}; std::string sig = build(msg, f, alg, rel, X[field]);
	std::string m = std::string("From: a\nTo: ") + (headc ? "c" : "b") + "\n\n" + (bodyc ? "bodY\n" : "body\n"); std::string K[] = {tk::record(ed), "v=DKIM1; p=", "v=DKIM1; p=AAAA; k=" + std::string(ed ? "ed25519" : "rsa"), tk::record(!ed), tk::record(ed, 1, alg == tk::RSA_SHA1 ? "h=sha256; " : "h=sha1; "), tk::record(ed, 1, "t=s; "), tk::record(ed, 0)};
	int w = field >= 1 && field <= 5 ? tk::PERM : bodyc ? tk::FAIL : dns >= 2 ? tk::TEMP : dns == 1 ? tk::PERM : key >= 1 && key <= 4 ? tk::PERM : key == 5 && field == 6 ? tk::PERM : headc || key == 6 ? tk::FAIL : tk::PASS; int r = run(sig + "\n" + m, dns, K[key]);
	CHECK((r == tk::PASS) == (w == tk::PASS), "success is reported exactly when both checks hold"); CHECK((r == tk::FAIL) == (w == tk::FAIL), "fail exactly for a body hash or signature mismatch"); CHECK((r == tk::TEMP) == (w == tk::TEMP), "temperror exactly for a failed lookup"); CHECK(r == w, "permerror for everything else"); sym_reach(R[r]);
}
UNIT(c28_sym) {
	int where = sym_range(0, 5, "where"), alg = tk::ED_SHA256; bool rel = sym_range(0, 1, "relaxed"); std::string msg = "From: ab\nTo: b\n\nxy\n", w = symStr((size_t)sym_range(1, BND(3, 4), "n"), "w"), m = msg; tk::Foreign f; std::string sig = build(msg, f, alg, rel, "n=ab; "); size_t p;
	if (where == 0) m.replace(6, 2, w); if (where == 1) m.replace(m.size() - 3, 2, w); if (where == 2) { p = sig.find("; b=") + 4; sig.replace(p, w.size(), w); } if (where == 3) { p = sig.find("bh=") + 3; sig.replace(p, w.size(), w); } if (where == 4) { p = sig.find("n=ab") + 2; sig.replace(p, 2, w); } if (where == 5) { p = sig.find("; a=") + 4; sig.replace(p, w.size(), w); }
	std::string all = sig + "\n" + m; int r = run(all, 0, tk::record(true)); ref::Msg am = ref::split(all); CHECK(r == tk::PASS || r == tk::FAIL || r == tk::PERM, "no other outcome without a failing lookup");
	sr::Sig g = sr::parse("DKIM-Signature", am.h[0].text.substr(am.h[0].text.find(':') + 1), 1600000000); if (am.h[0].off == 0 || !g.ok) { CHECK(r == tk::PERM, "a malformed field is a permerror"); sym_reach(R[r]); return; }
	if (!g.b64) { sym_reach(R[r]); return; } std::string body = ref::body(tk::bodyOf(all), g.br); bool eq = g.bh == tk::digest(body, g.alg); if (!eq) { CHECK(r == tk::FAIL, "a body hash mismatch is a fail"); sym_reach(R[r]); return; } CHECK(!(r == tk::PERM) || g.alg != tk::ED_SHA256 || sr::bareCR(am.h[0].text) || sr::bareCR(m), "a signature mismatch is a fail"); if (g.alg != tk::ED_SHA256) CHECK(r == tk::PERM, "another key type is a permerror"); sym_reach(R[r]);
}
UNIT(c28_key) {
	bool ed = sym_range(0, 1, "ed"), hc = sym_range(0, 1, "hc"); int where = sym_range(0, 3, "where"); std::string w = symStr((size_t)sym_range(1, BND(3, 4), "n"), "w"), msg = "From: a\nTo: b\n\nx\n"; tk::Foreign f; std::string sig = build(msg, f, ed ? tk::ED_SHA256 : tk::RSA_SHA256, true, ""), k = tk::record(ed, 1, "n=ab; "); size_t p = where == 0 ? 0 : where == 1 ? k.find("n=ab") + 2 : where == 2 ? k.find("p=") + 2 : k.find("k=") + 2; k.replace(p, w.size(), w);
	std::string m = hc ? "From: b\nTo: b\n\nx\n" : msg; int r = run(sig + "\n" + m, 0, k); PublicKey pk; bool ok = true; try { pk.Parse(k); } catch (PermanentError& e) { ok = false; CHECK(std::string(e.getAuthenticationResult()) == "permerror", "an unusable key record is a permerror"); }
	if (!ok) CHECK(r == tk::PERM, "an unusable key record is a permerror"); else if ((pk.GetSignatureAlgorithm() == DKIM_SA_ED25519) != ed) CHECK(r == tk::PERM, "another key type is a permerror"); else { CHECK(r == tk::PASS || r == tk::FAIL, "with a usable key the signature decides"); if (hc) CHECK(r == tk::FAIL, "a signature mismatch is a fail"); } sym_reach(R[r]);
}
UNIT(c28_steps) {
	bool ed = sym_range(0, 1, "ed"), rel = sym_range(0, 1, "relaxed"), bc = sym_range(0, 1, "bc"), hc = sym_range(0, 1, "hc"); std::string x = symStr(1, "x"); sym_assume((x[0] > ' ') & (x[0] < 127)); std::string a = "From: a\nTo: b\n\nx\n", b = std::string("From: ") + (hc ? "a" + x : "a") + "\nTo: b\n\n" + (bc ? "x" + x : "x") + "\n"; tk::Foreign f; std::string sig = build(a, f, ed ? tk::ED_SHA256 : tk::RSA_SHA1, rel, ""); std::string m1 = sig + "\n" + a, m2 = sig + "\n" + b; std::stringstream s1(m1), s2(m2); Validatory v1(s1), v2(s2); auto h = v1.GetSignatures().front(), h2 = v2.GetSignatures().front(); Signature s; s.Parse(h); PublicKey p; p.Parse(tk::record(ed));
	for (int i = 0; i < 2; i++) { CHECK(tk::guarded([&]() { v2.CheckBodyHash(s); }) == (bc ? tk::FAIL : tk::PASS), "the body hash is checked against this verifier's message"); CHECK(tk::guarded([&]() { v2.CheckSignature(h2, s, p); }) == (hc ? tk::FAIL : tk::PASS), "the header signature is checked against this verifier's message"); CHECK(tk::guarded([&]() { v1.CheckBodyHash(s); }) == tk::PASS, "own body"); CHECK(tk::guarded([&]() { v1.CheckSignature(h, s, p); }) == tk::PASS, "own header"); }
	Message::HeaderList l; l.push_back(h2); Signature g; int r = tk::guarded([&]() { v2.GetSignature(l.begin(), g); }); CHECK(r == (bc ? tk::FAIL : tk::PASS), "reading a signature includes the body hash check"); sym_reach("done");
}
UNIT(c28_class) { static const char* W[] = {"none", "pass", "fail", "policy", "neutral", "temperror", "permerror"}; int k = sym_range(0, 6, "k"); PermanentError p("x", (AR_CLASS)k); TemporaryError t("x", (AR_CLASS)k); CHECK(std::string(p.getAuthenticationResult()) == W[k], "result name"); CHECK(std::string(t.getAuthenticationResult()) == W[k], "result name"); CHECK(std::string(PermanentError("x").getAuthenticationResult()) == "permerror" && std::string(TemporaryError("x").getAuthenticationResult()) == "temperror", "default result"); sym_reach("done"); }
UNIT(c28_parse) {
	int k = sym_range(0, 2, "k"); std::string s = symStr((size_t)sym_range(0, BND(5, 6), "n"), "s"); int r; if (k == 0) { auto h = sr::header("DKIM-Signature:" + s); r = !h ? tk::PERM : tk::guarded([&]() { Signature g; g.Parse(h); }); CHECK(r == tk::PERM, "no field that short is a signature"); } else if (k == 1) { r = tk::guarded([&]() { PublicKey p; p.Parse(s); }); CHECK(r == tk::PERM, "no record that short is a key"); } else { r = tk::guarded([&]() { TagList t; t.Parse(s); }); CHECK(r == tk::PASS || r == tk::PERM, "parser errors are permerror"); } sym_reach(r == tk::PASS ? "ok" : "perm");
}
UNIT(c28_limit) {
	int alg = sym_range(0, 2, "alg"), lim = sym_range(-1, 9, "limit"), kind = sym_range(0, 6, "kind"); bool rel = sym_range(0, 1, "relaxed"), arc = sym_range(0, 1, "arc"); static const char* B[] = {"", "x\r\n", "ab  c\r\n"}; std::string body = B[sym_range(0, 2, "body")], msg = "From: a\r\nTo: b\r\n\r\n" + body, c = ref::body(body, rel), d = c, bh; if (lim >= 0 && (size_t)lim < d.size()) d.resize((size_t)lim);
	std::string right = tk::digest(d, alg); bh = right; if (kind == 1) bh = tk::digest(c.substr(0, d.size() ? d.size() - 1 : 1), alg); if (kind == 2) bh = tk::digest(c, alg); if (kind == 3) bh = tk::digest("", alg); if (kind == 4) bh[(size_t)sym_range(0, BND(1, 3), "at") * (bh.size() - 1) / BND(1, 3)] = symStr(1, "x")[0]; if (kind == 5) bh.resize(bh.size() - 1); if (kind == 6) bh += 'x';
	std::string f = std::string(arc ? "ARC-Message-Signature: i=1; a=" : "DKIM-Signature: v=1; a=") + tk::ALG[alg] + "; c=" + (rel ? "relaxed/relaxed" : "simple/simple") + "; d=ex.org; s=s; h=from:to; " + (lim >= 0 ? "l=" + ref::num((unsigned long)lim) + "; " : "") + "bh=" + ref::enc64(bh) + "; b="; bool ok = true; f += ref::enc64(tk::rawSign(tk::digest(tk::headerInput(msg, {"from", "to"}, f, rel, ok), alg), alg, 1));
	bool is = bh == right; std::string all = f + "\r\n" + msg; std::stringstream st(all); Validatory v(st, arc ? Validatory::ARC : Validatory::DKIM); Signature s; PublicKey p; p.Parse(tk::record(alg == tk::ED_SHA256)); auto h = v.GetSignatures().front(); Message::HeaderList l; l.push_back(h); int w = is ? tk::PASS : tk::FAIL;
	CHECK(tk::guarded([&]() { v.GetSignature(l.begin(), s); }) == w, "reading the signature fails exactly for a body hash mismatch"); Signature g; g.Parse(h); CHECK(tk::guarded([&]() { v.CheckBodyHash(g); }) == w, "the body hash check fails exactly for a body hash mismatch"); CHECK(tk::guarded([&]() { v.CheckSignature(h, g, p); }) == tk::PASS, "the header signature is right in either case"); sym_reach(is ? "pass" : "fail");
}
