// C01 every signature the signer produces is accepted by the verifier
// @unit c01_body reach=rsa256,rsa1,ed,absent q=200: every body of up to 4 (quick) / 6 (thorough) octets, absent body, LF and CRLF messages, all canonicalization combinations, three algorithms
// @unit c01_value reach=accepted,refused,folded q=200: every From value of up to 4 / 5 octets (line ends and folding included), repeated field, LF/CRLF, both header modes
// @unit c01_names reach=accepted,absent,all q=200: message with a field of every 3-octet name (2 letters symbolic), duplicate and mixed case names, header lists with 0..3 configured names, oversigned names present or absent in the message
// @unit c01_options reach=limit,refusedlimit,arc,identity,time q=200: identity of up to 2 symbolic octets before the domain, every body limit 0..9, timestamp and expiration on/off, ARC instance 0,1,50
// @unit c01_fold reach=accepted q=200: signed field names of every length 66..84 followed by a second of 0..16 (quick) / 0..90 (thorough) octets, 1024 bit RSA (folded b=), both header modes
// @unit c01_long reach=accepted q=200 steps=600000000: bodies, From values, subjects, identities, domains, selectors of 30..1025 octets (bodies up to 16385, repeating line, blank line or white space patterns), field names of 31..1026 octets signed by list or with all fields, last in the message (first in h=) or not, header lists of 30..129 and 1500 configured or oversigned names (and subjects, field names, identities, domains, selectors of 5000 octets); both modes, an arbitrary octet in the body
// @unit c01_self reach=accepted q=100: the name of the signature field among the configured and oversigned names (0..2 times), messages with 0..2 fields of that name, the field in front, DKIM and ARC, header lists, default and all fields
// @unit c01_keys reach=accepted,pem,der q=200: RSA keys of 512, 1024, 2048, 4096 and 8192 bits in PEM (also PKCS#8) and DER form, as the first or an additional signature, both hashes, both header modes, DKIM and ARC, one arbitrary octet in From
// @assume messages that do not start with white space and whose From field is among the signed fields (RFC 5322 requires it, and the verifier rejects anything else)
#include "sign.hpp"
using namespace DKIM;
static void roundtrip(const std::string& msg, SignatoryOptions& o, bool ed, Validatory::ValidatorType vt = Validatory::DKIM) {
	std::string sig; o.SetDomain("ex.org").SetSelector("s1"); tk::setKey(o, ed);
	if (!tk::sign(msg, o, sig)) { sym_reach("refused"); return; }
	int r = tk::verify(sig + "\r\n" + msg, tk::record(ed), vt);
	if (r == tk::PASS) sym_reach("accepted");
	CHECK(r != tk::NOSIG, "the produced field is found as a signature"); CHECK(r != tk::FAIL, "the produced signature verifies (fail)"); CHECK(r != tk::PERM, "the produced signature verifies (permerror)"); CHECK(r == tk::PASS, "the produced signature verifies");
}
UNIT(c01_body) {
	int alg = sym_range(0, 2, "alg"); bool ch = sym_range(0, 1, "ch"), cb = sym_range(0, 1, "cb"), crlf = sym_range(0, 1, "crlf"); int kind = sym_range(0, 1, "kind"); std::string nl = crlf ? "\r\n" : "\n";
	std::string msg = "From: Joe <joe@ex.org>" + nl + "Subject:  a " + nl + "\tb" + nl; if (kind) { size_t n = sym_range(0, BND(4, 6), "n"); msg += nl + symStr(n, "b"); } else sym_reach("absent");
	SignatoryOptions o; o.SetDigestAlgorithm(alg == tk::RSA_SHA1 ? DKIM_A_SHA1 : DKIM_A_SHA256).SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(cb ? DKIM_C_RELAXED : DKIM_C_SIMPLE);
	roundtrip(msg, o, alg == tk::ED_SHA256); sym_reach(alg == 0 ? "rsa256" : alg == 1 ? "rsa1" : "ed");
}
UNIT(c01_value) {
	bool ch = sym_range(0, 1, "ch"), crlf = sym_range(0, 1, "crlf"), rep = sym_range(0, 1, "rep"); std::string nl = crlf ? "\r\n" : "\n";
	size_t n = sym_range(0, BND(4, 5), "n"); std::string v = symStr(n, "v");
	std::string msg = (rep ? "From: 1" + nl : std::string()) + "from :" + v + nl + "To: x" + nl + nl + "hi" + nl; if (v.find("\n ") != std::string::npos) sym_reach("folded");
	SignatoryOptions o; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE); roundtrip(msg, o, true);
}
UNIT(c01_names) {
	static const char* L[] = {"from", "subject", "xab", "Xab"}; int k = sym_range(0, 4, "k"), ov = sym_range(0, 4, "ov"); bool ch = sym_range(0, 1, "ch"); std::string w = symStr(2, "w");
	std::string msg = "From: a\nX" + w + ": 1\nTo: me\nx" + w + " : 2\nSubject: s\n\nb\n";
	std::list<std::string> hs, os; if (k) { hs.push_back("From"); for (int i = 1; i < k; i++) hs.push_back(L[i]); } else sym_reach("all"); if (ov == 1) os.push_back("from"); if (ov == 2) { os.push_back("From"); os.push_back("cc"); sym_reach("absent"); } if (ov == 3) { os.push_back("subject"); os.push_back("subject"); } if (ov == 4) os.push_back("xab");
	SignatoryOptions o; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetHeaders(hs).SetOversignHeaders(os); roundtrip(msg, o, true);
}
UNIT(c01_options) {
	int lim = sym_range(-1, 9, "lim"), arc = sym_range(0, 2, "arc"), idn = sym_range(-1, 2, "idn"), tm = sym_range(0, 3, "tm"); bool cb = sym_range(0, 1, "cb");
	SignatoryOptions o; o.SetCanonModeBody(cb ? DKIM_C_RELAXED : DKIM_C_SIMPLE); if (lim >= 0) { o.SetSignBodyLength((unsigned long)lim); sym_reach(lim > 7 ? "refusedlimit" : "limit"); } if (arc) { o.SetARCInstance(arc == 1 ? 1 : 50); sym_reach("arc"); }
	if (idn >= 0) { o.SetIdentity(symStr((size_t)idn, "id") + "@ex.org"); sym_reach("identity"); } if (tm & 1) { o.SetTimestamp(1600000000); sym_reach("time"); } if (tm & 2) o.SetExpiration(100, false);
	roundtrip("From: a\nSubject: b\n\nab  c\n\n\n", o, true, arc ? Validatory::ARC : Validatory::DKIM);
}
UNIT(c01_fold) {
	size_t a = (size_t)sym_range(66, 84, "a"), b = (size_t)sym_range(0, BND(16, 90), "b"); bool ch = sym_range(0, 1, "ch"), rsa0 = sym_range(0, 1, "rsa0"); char x = 'n'; if (a == 74 && b == 3) { sym_bytes(&x, 1, "x"); sym_assume((x >= 'a' && x <= 'z') || (x >= '0' && x <= '9')); }
	std::string n1(a, x), n2 = b ? "q" + std::string(b - 1, 'm') : "subject", msg = "From: a\nSubject: b\n" + n2 + ": two\n" + n1 + ": one\n" + n2 + ":\n three\n\nbody\n", sig;
	SignatoryOptions o; o.SetHeaders({"from", n1, n2}).SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetDomain("ex.org").SetSelector("s1"); tk::setKey(o, !rsa0, 0);
	CHECK(tk::sign(msg, o, sig), "signing succeeds"); int r = tk::verify(sig + "\r\n" + msg, tk::record(!rsa0, 0)); CHECK(r == tk::PASS, "a signature with a folded field list verifies"); if (r == tk::PASS) sym_reach("accepted");
}
UNIT(c01_long) {
	bool ch = sym_range(0, 1, "ch"), cb = sym_range(0, 1, "cb"); int k = sym_range(0, 11, "kind"); size_t n = k < 4 ? symLen(BND(8192, 16384)) : k == 8 || k == 9 ? symLen(128, 1, 1500) : symLen(1024, 1, 5000); std::string w = symStr(1, "w"), from = "a@b", subj = "x", body = w + "\n", id, d = "ex.org", s = "s1", more; static const char* F[] = {"line\r\n", "\n", " x", "long "}; SignatoryOptions o; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(cb ? DKIM_C_RELAXED : DKIM_C_SIMPLE);
	if (k < 4) body = symRep(F[k], n) + w; if (k == 4) from = symRep("name ", n) + " <a@b>"; if (k == 5) subj = symRep("word\r\n ", n / 7 * 7) + "x"; if (k == 6) o.SetIdentity(symRep("local", n) + "@ex.org"); if (k == 7) d = symRep("label.", n / 6 * 6) + "org"; if (k >= 10) { std::string nm = "X" + symRep("-name", n); more = nm + ": v\nTo: me\n" + (sym_range(0, 1, "last") ? nm + " : w\n" : ""); if (k == 10) o.SetHeaders({"from", nm, "to"}); else o.SetHeaders({}); }
	if (k == 8 || k == 9) { std::list<std::string> l{"from"}; for (size_t i = 0; i < n; i++) { l.push_back("X-" + ref::num(i)); if (i % 3) more += "X-" + ref::num(i) + ": v\n"; } if (k == 8) o.SetHeaders(l); else o.SetOversignHeaders(l); }
	std::string msg = "From: " + from + "\nSubject: " + subj + "\n" + more + "\n" + body, sig; o.SetDomain(d).SetSelector(s); tk::setKey(o, true); CHECK(tk::sign(msg, o, sig), "signing succeeds"); int r = tk::verify(sig + "\r\n" + msg, tk::record(true)); CHECK(r == tk::PASS, "the produced signature verifies"); if (r == tk::PASS) sym_reach("accepted");
}
UNIT(c01_self) {
	bool arc = sym_range(0, 1, "arc"), ch = sym_range(0, 1, "ch"), other = sym_range(0, 1, "other"); int have = sym_range(0, 2, "have"), over = sym_range(0, 2, "over"), list = sym_range(0, 2, "list"); std::string w = symStr(1, "w"); sym_assume(w[0] != '\r'); std::string n = arc != other ? "ARC-Message-Signature" : "dkim-signature", msg; for (int i = 0; i < have; i++) msg += (i ? "DKIM-Signature: v=1; " : "ARC-Message-Signature: x=") + w + "y\n"; msg += "From: a\n"; for (int i = 0; i < have; i++) msg += n + ": z\n"; msg += "\nb\n";
	SignatoryOptions o; o.SetCanonModeHeader(ch ? DKIM_C_RELAXED : DKIM_C_SIMPLE); if (list == 1) o.SetHeaders({"From", n}); if (list == 2) o.SetHeaders({}); std::list<std::string> v; if (over) v.push_back(n); if (over > 1) v.push_back("DKIM-SIGNATURE"); o.SetOversignHeaders(v); if (arc) o.SetARCInstance(1); roundtrip(msg, o, true, arc ? Validatory::ARC : Validatory::DKIM);
}
UNIT(c01_keys) {
	int which = sym_range(0, 5, "which"); bool pem = which == 5 || sym_range(0, 1, "pem"), sha1 = sym_range(0, 1, "sha1"), hr = sym_range(0, 1, "hr"), add = sym_range(0, 1, "add"), arc = sym_range(0, 1, "arc"); std::string key = which == 5 ? RSA1_P8 : pem ? tk::RSA_PEM[which] : tk::RSA_DER[which], w = symStr(1, "w"), msg = "From: a" + w + "b\nSubject:  x\n\nhi\n", sig; if (which == 5) which = 1; Validatory::ValidatorType vt = arc ? Validatory::ARC : Validatory::DKIM; sym_assume(w[0] != '\n' && w[0] != '\r');
	SignatoryOptions o; o.SetDomain("ex.org").SetSelector("s").SetDigestAlgorithm(sha1 ? DKIM_A_SHA1 : DKIM_A_SHA256).SetCanonModeHeader(hr ? DKIM_C_RELAXED : DKIM_C_SIMPLE); if (arc) o.SetARCInstance(1); if (add) { tk::setKey(o, false, 1); o.AddAdditionalSignature().SetDomain("b.org").SetSelector("t").SetSignatureAlgorithm(DKIM_SA_RSA).SetPrivateKey(key); } else o.SetSignatureAlgorithm(DKIM_SA_RSA).SetPrivateKey(key);
	CHECK(tk::sign(msg, o, sig), "signing succeeds"); int r = tk::verify(sig + "\r\n" + msg, tk::record(false, which), vt); CHECK(r == tk::PASS, "the produced signature verifies with a key of any size"); if (r == tk::PASS) { sym_reach("accepted"); sym_reach(pem ? "pem" : "der"); }
}
