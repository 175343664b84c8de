// C30 signing options
// @unit c30_sequence reach=done,refused q=200: every sequence of 3 (quick) / 4 (thorough) out of 23 setter calls on the options and on one additional signature, all getters compared after each call
// @unit c30_lists reach=done,empty q=200: every sequence of 3 / 4 set, add and delete calls with lists of 0..2 (later calls 0..1) names of one arbitrary octet in front of a common letter, against a reference list, and h= of the field signing then produces
// @unit c30_default reach=done q=100: default options and a message with every choice of 3 (quick) / 4 (thorough) of the fields RFC 6376 5.4.1 recommends and others, in any letter case of the first letter
// @unit c30_numbers reach=done: body length, ARC instance, timestamp and expiration with arbitrary 64 bit values
// @unit c30_keys reach=pem,der,pkcs8,seed,secret,seed64,secret64,bad q=200: every accepted form of both kinds of private key (RSA of 512..8192 bits), primary and additional, after a previous key or none; one octet of a base64 Ed25519 key replaced by any other
// @unit c30_keysize reach=seed,secret,bad q=200: Ed25519 keys of every length 0..70 with an arbitrary first and last octet
// @assume base64 text which is not strictly well-formed may be accepted or rejected as a key; names are deleted by their own spelling
#include "sign.hpp"
#include <list>
using namespace DKIM; typedef std::list<std::string> L;
struct One { std::string d, s, ed; bool edAlg = false; };
struct Ref { One p; std::list<One> more; L h, o; DigestAlgorithm dig = DKIM_A_SHA256; CanonMode ch = DKIM_C_SIMPLE, cb = DKIM_C_SIMPLE; unsigned long len = 0, arc = 0; bool lenOn = false, tOn = false, xOn = false, xAbs = true; time_t t = 0, x = 0; std::string id; };
template <class O> static void sameOne(const O& o, const One& r) { CHECK(o.GetDomain() == r.d, "the domain is the configured one"); CHECK(o.GetSelector() == r.s, "the selector is the configured one"); CHECK(o.GetSignatureAlgorithm() == (r.edAlg ? DKIM_SA_ED25519 : DKIM_SA_RSA), "the key type is the configured one"); CHECK(o.GetED25519PrivateKey() == r.ed, "the Ed25519 key is the configured one"); }
static void same(const SignatoryOptions& o, const Ref& r) {
	sameOne(o, r.p); CHECK(o.GetHeaders() == r.h, "the header list is the configured one"); CHECK(o.GetOversignHeaders() == r.o, "the oversign list is the configured one"); CHECK(o.GetDigestAlgorithm() == r.dig, "the hash is the configured one"); CHECK(o.GetCanonModeHeader() == r.ch, "the header canonicalization is the configured one"); CHECK(o.GetCanonModeBody() == r.cb, "the body canonicalization is the configured one");
	CHECK(o.GetBodySignLength() == r.lenOn && (!r.lenOn || o.GetBodyLength() == r.len), "the body limit is the configured one"); CHECK(o.GetARCInstance() == r.arc, "the instance is the configured one"); CHECK(o.GetTimestampSign() == r.tOn && (!r.tOn || o.GetTimestamp() == r.t), "the timestamp is the configured one"); CHECK(o.GetExpirationSign() == r.xOn && (!r.xOn || (o.GetExpiration() == r.x && o.GetExpirationAbsolute() == r.xAbs)), "the expiration is the configured one"); CHECK(o.GetIdentity() == r.id, "the identity is the configured one");
	auto& a = o.GetAdditionalSignatures(); CHECK(a.size() == r.more.size() + 1, "the number of signatures is the configured one"); if (a.size() != r.more.size() + 1) return; auto i = a.begin(); sameOne(*i, r.p); for (auto& m : r.more) sameOne(*++i, m);
}
template <class F> static bool refused(F f) { try { f(); return false; } catch (PermanentError&) { return true; } }
UNIT(c30_sequence) {
	SignatoryOptions o; Ref r; r.h = o.GetHeaders(); AdditionalSignaturesOptions* a = nullptr; std::string w = symStr(1, "w"); bool host = (w[0] >= 'a' && w[0] <= 'z') || (w[0] >= 'A' && w[0] <= 'Z') || (w[0] >= '0' && w[0] <= '9'); std::string sk; ref::dec64(ED1_SK_B64, sk); int n = BND(3, 4); same(o, r);
	for (int k = 0; k < n; k++) { bool bad = false; std::string v = w + (char)('0' + k);
		switch (sym_range(0, 22, "op")) {
			case 0: bad = refused([&]() { o.SetDomain(v); }); CHECK(bad == !host, "exactly unusable domains are refused"); if (!bad) r.p.d = v; break;
			case 1: bad = refused([&]() { o.SetSelector(v); }); CHECK(bad == !host, "exactly unusable selectors are refused"); if (!bad) r.p.s = v; break;
			case 2: o.SetDigestAlgorithm(DKIM_A_SHA1); r.dig = DKIM_A_SHA1; break; case 3: o.SetDigestAlgorithm(DKIM_A_SHA256); r.dig = DKIM_A_SHA256; break;
			case 4: o.SetSignatureAlgorithm(DKIM_SA_ED25519); r.p.edAlg = true; break; case 5: o.SetSignatureAlgorithm(DKIM_SA_RSA); r.p.edAlg = false; break;
			case 6: o.SetHeaders({v, "b"}); r.h = {v, "b"}; break; case 7: o.AddHeaders({"b", v}); r.h.push_back("b"); r.h.push_back(v); break; case 8: o.DelHeaders({"b", "subject"}); r.h.remove("b"); r.h.remove("subject"); break; case 9: bad = refused([&]() { o.SetOversignHeaders({v}); }); CHECK(bad == ((w[0] <= ' ') | (w[0] > 126) | (w[0] == ':') | (w[0] == ';')), "exactly unusable names are refused"); if (!bad) r.o = {v}; break;
			case 10: o.SetSignBodyLength(k); r.len = k; r.lenOn = true; break; case 11: o.SetCanonModeHeader(k ? DKIM_C_SIMPLE : DKIM_C_RELAXED); r.ch = k ? DKIM_C_SIMPLE : DKIM_C_RELAXED; break; case 12: o.SetCanonModeBody(k == 1 ? DKIM_C_SIMPLE : DKIM_C_RELAXED); r.cb = k == 1 ? DKIM_C_SIMPLE : DKIM_C_RELAXED; break;
			case 13: o.SetARCInstance(k + 1); r.arc = k + 1; break; case 14: o.SetTimestamp(100 + k); r.t = 100 + k; r.tOn = true; break; case 15: o.SetExpiration(200 + k); r.x = 200 + k; r.xOn = r.xAbs = true; break; case 16: o.SetExpiration(300 + k, false); r.x = 300 + k; r.xOn = true; r.xAbs = false; break; case 17: o.SetIdentity(v); r.id = v; break;
			case 18: a = &o.AddAdditionalSignature(); r.more.push_back(One()); break;
			case 19: if (!a) break; bad = refused([&]() { a->SetDomain(v).SetSelector("x"); }); CHECK(bad == !host, "exactly unusable domains are refused"); if (!bad) r.more.back().d = v, r.more.back().s = "x"; break;
			case 20: if (!a) break; bad = refused([&]() { a->SetSelector(v); }); CHECK(bad == !host, "exactly unusable selectors are refused"); if (!bad) r.more.back().s = v; break;
			case 21: if (!a) break; a->SetSignatureAlgorithm(DKIM_SA_ED25519).SetPrivateKey(ED1_SEED_B64); r.more.back().edAlg = true; r.more.back().ed = sk; break;
			case 22: bad = refused([&]() { o.SetPrivateKey(ED1_SEED_B64); }); CHECK(bad == !r.p.edAlg, "a key of another type is refused"); if (!bad) r.p.ed = sk; break;
		}
		if (bad) sym_reach("refused"); same(o, r);
	}
	sym_reach("done");
}
static L names(int k) { L l; for (int n = sym_range(0, k < BND(1, 2) ? 2 : 1, "n"), i = 0; i < n; i++) { std::string w = symStr(1, "w"); sym_assume((w[0] >= 'a') & (w[0] <= 'c')); l.push_back(w + "x"); } return l; }
UNIT(c30_lists) {
	SignatoryOptions o; o.SetHeaders({"from"}).SetDomain("d").SetSelector("s"); tk::setKey(o, true); L h = {"from"}; int n = BND(3, 4); for (int k = 0; k < n; k++) { int op = sym_range(0, 2, "op"); L l = names(k); if (op == 0) { l.push_back("from"); o.SetHeaders(l); h = l; } if (op == 1) { o.AddHeaders(l); h.insert(h.end(), l.begin(), l.end()); } if (op == 2) { o.DelHeaders(l); for (auto& x : l) h.remove(x); } CHECK(o.GetHeaders() == h, "the list is the one the calls describe"); }
	std::string out; if (!tk::sign("From: a\nAx: 1\nbX: 2\ncx: 3\nBx: 4\ndx: 5\n\n", o, out)) { CHECK(false, "signing succeeds"); return; } static const char* F[] = {"dx", "Bx", "cx", "bX", "Ax", "From"}; std::vector<std::string> want, got; for (auto f : F) { bool in = false; for (auto& x : h) in |= ref::ieq(x, f); if (in) want.push_back(f); } std::vector<ref::Tag> t; CHECK(ref::tags(out.substr(out.find(':') + 1), t), "the field is a tag list"); const ref::Tag* g = ref::tag(t, "h"); std::string v = g ? ref::nows(g->v) : ""; for (size_t p = 0; p <= v.size();) { size_t e = v.find(':', p); if (e == std::string::npos) e = v.size(); got.push_back(v.substr(p, e - p)); p = e + 1; }
	bool eq = got.size() == want.size(); for (size_t i = 0; eq && i < got.size(); i++) eq = ref::ieq(got[i], want[i]); CHECK(eq, "exactly the listed fields of the message are signed"); sym_reach(h.size() == 1 ? "empty" : "done");
}
UNIT(c30_default) {
	static const char* R[] = {"from", "reply-to", "subject", "date", "to", "cc", "resent-date", "resent-from", "resent-to", "resent-cc", "in-reply-to", "references", "list-id", "list-help", "list-unsubscribe", "list-subscribe", "list-post", "list-owner", "list-archive"}; const int N = 19; SignatoryOptions o; o.SetDomain("d").SetSelector("s"); tk::setKey(o, true);
	std::vector<int> c; for (int k = 0; k < BND(3, 4); k++) c.push_back(sym_range(c.empty() ? 0 : c.back(), N - 1, "c")); bool up = sym_range(0, 1, "up"); std::string msg, extra = "Received: x\nReturn-Path: y\nComments: z\n"; for (int k : c) { std::string n = R[k]; if (up) n[0] = (char)(n[0] - 32); msg += n + ": v\n"; } std::string out; if (!tk::sign(extra + msg + "\nb\n", o, out)) { CHECK(false, "signing succeeds"); return; }
	std::vector<ref::Tag> t; CHECK(ref::tags(out.substr(out.find(':') + 1), t), "the field is a tag list"); const ref::Tag* g = ref::tag(t, "h"); std::string v = ":" + (g ? ref::nows(g->v) : "") + ":"; for (char& x : v) if (x >= 'A' && x <= 'Z') x = (char)(x + 32); for (int k : c) { size_t n = 0, want = 0; for (int j : c) want += j == k; for (size_t p = 0; (p = v.find(std::string(":") + R[k] + ":", p)) != std::string::npos; p++) n++; CHECK(n == want, "every occurrence of a recommended field is signed by default"); } CHECK(v.find(":received:") == std::string::npos && v.find(":return-path:") == std::string::npos && v.find(":comments:") == std::string::npos, "fields that change in transit are not signed by default");
	const ref::Tag* a = ref::tag(t, "a"); CHECK(a && a->v == "ed25519-sha256", "the default hash is sha256"); for (const char* x : {"l", "t", "x", "i"}) CHECK(!ref::tag(t, x), "optional tags are off by default"); sym_reach("done");
}
UNIT(c30_numbers) {
	uint64_t a, b, c, d; sym_bytes(&a, 8, "a"); sym_bytes(&b, 8, "b"); sym_bytes(&c, 8, "c"); sym_bytes(&d, 8, "d"); SignatoryOptions o; bool abs = sym_range(0, 1, "abs"), twice = sym_range(0, 1, "twice"); if (twice) o.SetSignBodyLength(1).SetARCInstance(2).SetTimestamp(3).SetExpiration(4, !abs);
	CHECK(twice || (!o.GetBodySignLength() && !o.GetTimestampSign() && !o.GetExpirationSign() && o.GetARCInstance() == 0), "nothing is configured at first"); o.SetSignBodyLength(a).SetARCInstance(b).SetTimestamp((time_t)c).SetExpiration((time_t)d, abs); CHECK(o.GetBodySignLength() && o.GetBodyLength() == a, "the body limit is the configured one"); CHECK(o.GetARCInstance() == b, "the instance is the configured one"); CHECK(o.GetTimestampSign() && o.GetTimestamp() == (time_t)c, "the timestamp is the configured one"); CHECK(o.GetExpirationSign() && o.GetExpiration() == (time_t)d && o.GetExpirationAbsolute() == abs, "the expiration is the configured one"); sym_reach("done");
}
// the field made with a key: compared with the one made with the key set directly in its usual form
static bool field(bool additional, bool ed, const std::string& key, int before, std::string& out, bool& set) {
	SignatoryOptions o; o.SetDomain("d").SetSelector("s"); AdditionalSignaturesOptions* a = nullptr; if (additional) { tk::setKey(o, true, 0); a = &o.AddAdditionalSignature(); a->SetDomain("e").SetSelector("s"); if (before) tk::setKey(*a, ed, before - 1); a->SetSignatureAlgorithm(ed ? DKIM_SA_ED25519 : DKIM_SA_RSA); } else { if (before) tk::setKey(o, ed, before - 1); o.SetSignatureAlgorithm(ed ? DKIM_SA_ED25519 : DKIM_SA_RSA); }
	set = !refused([&]() { if (a) a->SetPrivateKey(key); else o.SetPrivateKey(key); }); return tk::sign("From: a\n\nb\n", o, out);
}
UNIT(c30_keys) {
	bool add = sym_range(0, 1, "add"); int before = sym_range(0, 2, "before"), form = sym_range(0, 9, "form"), which = sym_range(0, form < 2 ? 4 : 1, "which"); std::string sk, seed; ref::dec64(which ? ED1_SK_B64 : ED0_SK_B64, sk); ref::dec64(which ? ED1_SEED_B64 : ED0_SEED_B64, seed); std::string key; bool ed = true, ok = true; static const char* id[] = {"pem", "der", "seed", "secret", "seed64", "secret64", "bad", "bad", "bad", "pkcs8"}; if (form == 9) which = 1;
	switch (form) { case 0: ed = false; key = tk::RSA_PEM[which]; break; case 1: ed = false; key = tk::RSA_DER[which]; break; case 9: ed = false; key = RSA1_P8; break; case 2: key = seed; break; case 3: key = sk; break; case 4: key = which ? ED1_SEED_B64 : ED0_SEED_B64; break; case 5: key = which ? ED1_SK_B64 : ED0_SK_B64; break; case 6: ed = false; key = which ? EC_PEM : "QUJD"; ok = false; break; case 7: key = which ? RSA1_DER_B64 : "QUJD"; ok = false; break;
		case 8: { key = ED1_SEED_B64; std::string w = symStr(1, "w"); size_t p = (size_t)sym_range(0, 3, "p") * 13; key[p] = w[0]; ok = false; std::string x; if (!ref::dec64(key, x)) { sym_reach("bad"); std::string out; bool set; field(add, true, key, before, out, set); return; } SignatoryOptions o; o.SetSignatureAlgorithm(DKIM_SA_ED25519).SetPrivateKey(key); CHECK(o.GetED25519PrivateKey().substr(0, 32) == x, "the key is the given one"); sym_reach("seed64"); return; } }
	std::string got, want; bool set, s2; bool r = field(add, ed, key, before, got, set); CHECK(set == ok, "exactly the documented forms of a key are accepted"); sym_reach(id[form]);
	bool r2 = ok ? field(add, ed, ed ? (which ? ED1_SEED_B64 : ED0_SEED_B64) : tk::RSA_DER[which], 0, want, s2) : before ? field(add, ed, ed ? (before == 2 ? ED1_SEED_B64 : ED0_SEED_B64) : (before == 2 ? RSA1_DER_B64 : RSA0_DER_B64), 0, want, s2) : false; CHECK(r == r2, "signing is possible exactly with a key"); if (r && r2) CHECK(got == want, "every form of a key makes the same signature, and a refused key leaves the previous one");
}
UNIT(c30_keysize) {
	size_t n = (size_t)sym_range(0, 70, "n"); std::string k(n, '\x81'); if (n) { std::string w = symStr(2, "w"); k[0] = w[0]; k[n - 1] = w[1]; } SignatoryOptions o; o.SetSignatureAlgorithm(DKIM_SA_ED25519); bool ok = !refused([&]() { o.SetPrivateKey(k); }); std::string g = o.GetED25519PrivateKey();
	if (n == 32) { sym_reach("seed"); CHECK(ok && g.size() == 64 && g.substr(0, 32) == k, "32 octets are a seed"); } else if (n == 64) { sym_reach("secret"); CHECK(ok && g == k, "64 octets are the key"); } else { sym_reach("bad"); CHECK(!ok && g.empty(), "no other size is accepted"); }
}
