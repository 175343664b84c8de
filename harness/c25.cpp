// C25 hostile input never crashes, hangs or corrupts memory
// @unit c25_text reach=ok,threw q=300: every octet string of up to 5 (quick) / 6 (thorough) octets through tag list, colon list, address list, quoted-printable (both modes, encoder), base64, encoded words, header canonicalization, every white space read, domain check
// @unit c25_message reach=ok,threw,sig q=300: every message of up to 5 / 6 octets, and every message rest of up to 4 / 5 octets behind a signature field name, through parsing, all verifier kinds and signing
// @unit c25_field reach=pass,fail,perm q=300: a valid signature field with up to 2 / 3 arbitrary octets inserted, replaced or cut at every 2nd / every position, DKIM and ARC, then the whole verification
// @unit c25_key reach=pass,fail,perm q=300: a valid key record with up to 2 / 3 arbitrary octets inserted, replaced or cut at every position
// @unit c25_sizes reach=pass,fail,perm q=300: b= data of every size 0..140, bh= data of every size 0..40, p= data of every size 0..40 (Ed25519), both key types and two RSA key sizes
// @unit c25_rsasize reach=fail,pass q=200: b= data of 0..2 octets around 0, 64, 128, 256, 512, 1024 and 2048 octets with an arbitrary first and last octet against RSA keys of 512..8192 bits; the real signature cut or extended by 0..2 octets
// @unit c25_signsize reach=done q=200: signing with RSA keys of 512..8192 bits in PEM and DER form, first and further signature, SHA-1 and SHA-256, and verifying the result; an arbitrary octet in the body
// @unit c25_private reach=ok,threw q=300: private keys of every length 0..72 raw or base64, PEM starts, cut and damaged PEM/DER with 1 arbitrary octet, no key at all, both algorithms, primary and additional, then signing
// @unit c25_numbers reach=pass,fail,perm q=300: l=, i=, x= and t= with every combination of 0, 1, 2^31, 2^32, 2^63, 2^64 (each -1, 0, +1), up to 90 digits, signs
// @unit c25_long reach=done q=300: long lines, names, values, lists, comments, quotes, encoded words and bodies (1 to 9000 octets, around every internal buffer size) with 1 arbitrary octet
// @unit c25_dns reach=pass,perm,temp q=300: key lookup through the system resolver for every answer of up to 16 / 20 octets whose header counts are 0..2, and any reported length
// @unit c25_order reach=done q=300: every order of 4 calls on one verifier (reading, body hash, key, header signature) with objects left behind by a failed call replaced by freshly parsed ones
// @assume objects are used after the call that fills them succeeded (an unparsed Signature or PublicKey is not passed on)
#include "sign.hpp"
#include "sigref.hpp"
#include "src/EncodedWord.hpp"
#include "src/QuotedPrintable.hpp"
#include "src/Base64.hpp"
#include "src/Tokenizer.hpp"
#include "src/Canonicalization.hpp"
#include "src/Util.hpp"
#include "src/MailParser.hpp"
#include "src/TagList.hpp"
using namespace DKIM;
static const char* R[] = {"pass", "fail", "perm", "temp", "nosig", "other"};
static int text(int k, const std::string& s) {
	return tk::guarded([&]() {
		switch (k) {
			case 0: { TagList t; t.Parse(s); TagListEntry e; t.GetTag("a", e); break; } case 1: Tokenizer::ValueList(s); break; case 2: Tokenizer::ParseAddressList(s); break; case 3: Conversion::QuotedPrintable::Decode(s, false); break; case 4: Conversion::QuotedPrintable::Decode(s, true); break; case 5: Conversion::QuotedPrintable::Encode(s); break; case 6: Conversion::EncodedWord::Decode(s); break;
			case 7: { Conversion::CanonicalizationHeader c(DKIM_C_RELAXED); c.FilterHeader(s); break; } case 8: { std::stringstream st(s); for (int i = 0; i < 4; i++) for (auto t : {Tokenizer::READ_CRLF, Tokenizer::READ_WSP, Tokenizer::READ_WSP_LOOSE, Tokenizer::READ_FWS}) Tokenizer::ReadWhiteSpace(st, t); break; } case 9: Util::ValidateDomain(s); break; case 10: Conversion::Base64_Decode(s); break; case 11: Conversion::Base64_Encode(s); break;
		}
	});
}
UNIT(c25_text) { int k = sym_range(0, 11, "entry"); size_t max = k == 6 ? BND(4, 5) : k == 10 || k == 11 ? BND(3, 4) : BND(5, 6); int r = text(k, symStr((size_t)sym_range(0, (int64_t)max, "n"), "s")); CHECK(r == tk::PASS || r == tk::PERM, "returns or raises a permanent error"); sym_reach(r == tk::PASS ? "ok" : "threw"); }
static int whole(const std::string& msg, Validatory::ValidatorType t, const std::string& key) { std::stringstream st(msg); Validatory v(st, t); int r = tk::NOSIG; for (auto& h : v.GetSignatures()) r = tk::check(v, h, key); return r; }
UNIT(c25_message) {
	static const Validatory::ValidatorType T[] = {Validatory::DKIM, Validatory::ARC, Validatory::NONE}; int k = sym_range(0, 2, "kind"), pre = sym_range(0, 2, "prefix"); static const char* P[] = {"", "DKIM-Signature:", "arc-message-signature:"}; std::string msg = P[pre] + symStr((size_t)sym_range(0, pre ? BND(4, 5) : BND(5, 6), "n"), "s"); int r = whole(msg, T[k], tk::record(true)); CHECK(r != tk::PASS && r != tk::OTHER, "nothing that short verifies"); if (r != tk::NOSIG) sym_reach("sig");
	if (k == 2) { SignatoryOptions o; o.SetDomain("d").SetSelector("s").SetHeaders({}).SetCanonModeHeader(DKIM_C_RELAXED).SetCanonModeBody(DKIM_C_RELAXED); tk::setKey(o, true); std::string out; sym_reach(tk::sign(msg, o, out) ? "ok" : "threw"); }
}
static std::string mutate(const std::string& s, size_t from, size_t step) { size_t at = from + step * (size_t)sym_range(0, (int64_t)((s.size() - from) / step), "at"); std::string r = s; int mode = sym_range(0, 2, "mode"); size_t n = (size_t)sym_range(mode == 0 ? 0 : 1, BND(2, 3), "n"); if (mode == 0) return r.substr(0, at) + symStr(n, "w"); if (mode == 1) return r.insert(at, symStr(n, "w")); r.replace(at, n, symStr(n, "w")); return r; }
UNIT(c25_field) {
	bool arc = sym_range(0, 1, "arc"), ed = sym_range(0, 1, "ed"); std::string msg = "From: a\nTo: b\n\nx\n"; tk::Foreign f; bool ok = true; f.name = arc ? "ARC-Message-Signature" : "DKIM-Signature"; f.alg = ed ? tk::ED_SHA256 : tk::RSA_SHA256; f.names = {"from", "to"}; f.hr = true; f.pre = std::string(arc ? "i=7; " : "v=1; i=u=20v@ex.org; ") + "a=" + tk::ALG[f.alg] + "; c=relaxed/simple; d=ex.org; s=s; q=dns/txt; x=1700000000; l=3; h=from:\r\n to; bh=%BH%; "; f.limit = 3; std::string sig = tk::foreign(msg, f, ok);
	size_t b = sig.find("; b=") + 4, e = b + 8; std::string head = sig.substr(0, e), rest = sig.substr(e); int r = whole(mutate(head, f.name.size(), BND(2, 1)) + rest + "\r\n" + msg, arc ? Validatory::ARC : Validatory::DKIM, tk::record(ed)); CHECK(r != tk::TEMP && r != tk::OTHER, "passes, fails or is a permanent error"); sym_reach(R[r]);
}
UNIT(c25_key) {
	bool ed = sym_range(0, 1, "ed"); std::string msg = "From: a\n\nx\n"; tk::Foreign f; bool ok = true; f.alg = ed ? tk::ED_SHA256 : tk::RSA_SHA256; f.names = {"from"}; f.pre = std::string("v=1; a=") + tk::ALG[f.alg] + "; d=ex.org; s=s; h=from; bh=%BH%; "; std::string sig = tk::foreign(msg, f, ok), key = "v=DKIM1; h=sha256:x; s=email; t=y:s; " + tk::record(ed).substr(9); size_t p = key.find("p=") + 10; std::string head = key.substr(0, p), rest = key.substr(p); int r = whole(sig + "\n" + msg, Validatory::DKIM, mutate(head, 0, 1) + rest); CHECK(r != tk::TEMP && r != tk::OTHER, "passes, fails or is a permanent error"); sym_reach(R[r]);
}
UNIT(c25_sizes) {
	int kind = sym_range(0, 2, "kind"), key = sym_range(0, 2, "key"); bool ed = key == 2, hr = sym_range(0, 1, "hr"); std::string msg = "From: a\n\nx\n", body = ref::body("x\n", false), bh = tk::digest(body, ed ? tk::ED_SHA256 : tk::RSA_SHA256); size_t n = (size_t)sym_range(0, kind == 0 ? 140 : 40, "size"); std::string d(n, 'k'), b(ed ? 64 : key == 0 ? 128 : 64, 'b'), rec = tk::record(ed, key == 0 ? 0 : 1); if (n) { std::string w = symStr(1, "w"); d[n - 1] = w[0]; if (n > 1) d[0] = (char)(w[0] ^ 0x55); }
	if (kind == 0) b = d; if (kind == 1) bh = d; if (kind == 2) { if (!ed) return; rec = "k=ed25519; p=" + ref::enc64(d); } std::string sig = std::string("DKIM-Signature: v=1; a=") + (ed ? "ed25519-sha256" : "rsa-sha256") + "; c=" + (hr ? "relaxed" : "simple") + "; d=ex.org; s=s; h=from; bh=" + ref::enc64(bh) + "; b=" + ref::enc64(b); int r = whole(sig + "\n" + msg, Validatory::DKIM, rec);
	CHECK(r == tk::FAIL || r == tk::PERM, "made-up data never verifies"); sym_reach(R[r]); tk::Foreign f; bool ok = true; f.alg = ed ? tk::ED_SHA256 : tk::RSA_SHA256; f.which = key != 0; f.names = {"from"}; f.pre = std::string("v=1; a=") + tk::ALG[f.alg] + "; d=ex.org; s=s; h=from; bh=%BH%; "; if (n == 1) { r = whole(tk::foreign(msg, f, ok) + "\n" + msg, Validatory::DKIM, tk::record(ed, key == 0 ? 0 : 1)); CHECK(r == tk::PASS, "the real signature verifies"); sym_reach(R[r]); }
}
template <class O> static bool setp(O& o, bool ed, const std::string& k) { try { o.SetSignatureAlgorithm(ed ? DKIM_SA_ED25519 : DKIM_SA_RSA).SetPrivateKey(k); return true; } catch (PermanentError&) { return false; } }
UNIT(c25_private) {
	bool ed = sym_range(0, 1, "ed"), add = sym_range(0, 1, "additional"); int kind = sym_range(0, 6, "kind"); std::string w = symStr(1, "w"), k; if (kind == 0) { size_t n = (size_t)sym_range(0, 72, "n"); k = std::string(n, 'k'); if (n) k[n / 2] = w[0]; } if (kind == 1) { size_t n = (size_t)sym_range(0, 72, "n"); k = std::string(n, 'k'); if (n) k[n - 1] = w[0]; k = ref::enc64(k); } if (kind == 2) { k = RSA1_PEM; k.resize((size_t)sym_range(0, 64, "n")); k += w; } if (kind == 3) k = EC_PEM; if (kind == 4) { k = RSA1_DER_B64; k[(size_t)sym_range(0, 40, "n")] = w[0]; } if (kind == 5) { k = RSA1_DER_B64; k.resize(k.size() - (size_t)sym_range(0, 40, "n")); }
	SignatoryOptions o; o.SetDomain("a").SetSelector("b"); bool ok = true; if (kind != 6) { if (add) { tk::setKey(o, true); ok = setp(o.AddAdditionalSignature().SetDomain("c").SetSelector("d"), ed, k); } else ok = setp(o, ed, k); } else if (add) { tk::setKey(o, !ed); o.AddAdditionalSignature().SetDomain("c").SetSelector("d").SetSignatureAlgorithm(ed ? DKIM_SA_ED25519 : DKIM_SA_RSA); } else o.SetSignatureAlgorithm(ed ? DKIM_SA_ED25519 : DKIM_SA_RSA); std::string out; bool s = tk::sign("From: a\n\nx\n", o, out); if (!ok) CHECK(!s, "without a key signing is refused"); if (kind == 6) CHECK(!s, "without a key signing is refused"); sym_reach(s ? "ok" : "threw");
}
UNIT(c25_numbers) {
	static const char* N[] = {"0", "1", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "+1", "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000003", "99999999999999999999999999999999999999999999999999999999999999999999999999999"}; int tag = sym_range(0, 3, "tag"), k = sym_range(0, 13, "k"), k2 = sym_range(0, 13, "k2"); bool rel = sym_range(0, 1, "rel"); static const char* T[] = {"l=", "i=", "x=", "t="}; bool arc = tag == 1; std::string msg = "From: a\nTo: b\n\nx  y\n\n"; tk::Foreign f; bool ok = true; f.name = arc ? "ARC-Message-Signature" : "DKIM-Signature"; f.alg = tk::ED_SHA256; f.names = {"from"}; f.br = rel; if (k2 < 2 && tag == 0) f.limit = k2;
	f.pre = std::string(arc ? "" : "v=1; ") + T[tag] + N[k] + "; " + (tag == 0 ? "" : std::string("l=") + N[k2] + "; ") + "a=ed25519-sha256; c=simple/" + (rel ? "relaxed" : "simple") + "; d=ex.org; s=s; h=from; bh=%BH%; "; int r = whole(tk::foreign(msg, f, ok) + "\n" + msg, arc ? Validatory::ARC : Validatory::DKIM, tk::record(true)); CHECK(r != tk::TEMP && r != tk::OTHER, "passes, fails or is a permanent error"); sym_reach(R[r]);
}
static std::string rep(const std::string& s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; }
UNIT(c25_long) {
	static const int L[] = {1, 255, 256, 257, 1023, 1024, 1025, 4096, 8095, 8096, 8097, 9000}; int n = L[sym_range(0, 11, "n")], k = sym_range(0, 11, "kind"); std::string w = symStr(1, "w"), s; int r = tk::PASS;
	if (k == 0) r = text(2, rep("(", n) + w + rep(")", n) + "a@b"); if (k == 1) r = text(2, "\"" + rep("\\\"", n) + w + "\" <a@b>"); if (k == 2) r = text(2, rep("a@b,", n > 1100 ? 1100 : n) + w); if (k == 3) r = text(6, rep("=?x?q?a?= ", n > 300 ? 300 : n) + w); if (k == 4) r = text(6, "=?x?b?" + rep("YWFh", n > 1100 ? 1100 : n) + w + "?="); if (k == 5) r = text(1, rep("a:", n > 1100 ? 1100 : n) + w); if (k == 6) r = text(0, "a=" + rep("x ", n) + w); if (k == 7) r = text(7, "N: " + rep(" ", n) + w + rep("\r\n ", n > 1100 ? 1100 : n) + "x"); if (k == 8) r = text(4, rep("_", n) + w); if (k == 9) r = text(10, rep("A", n) + w);
	if (k == 10 || k == 11) { std::string m = "From: " + rep("v", k == 10 ? n : 1) + w + "\n" + rep("X", k == 10 ? n : 1) + ": 1\n\n" + (k == 11 ? rep("b", n - 1) : "") + w + rep("\n", 3); SignatoryOptions o; o.SetDomain("a").SetSelector("b").SetHeaders({}).SetCanonModeBody(DKIM_C_RELAXED); tk::setKey(o, true); std::string out; if (tk::sign(m, o, out)) r = tk::verify(out + "\r\n" + m, tk::record(true)); }
	CHECK(r == tk::PASS || r == tk::PERM, "returns or raises a permanent error"); sym_reach("done");
}
static std::string g_dns; static int g_len;
extern "C" int sym_dns_hook(void*, const char*, int, int, unsigned char* a, int cap) { size_t n = g_dns.size() < (size_t)cap ? g_dns.size() : (size_t)cap; memcpy(a, g_dns.data(), n); return g_len; }
UNIT(c25_dns) {
	std::string msg = "From: a\n\nx\n"; tk::Foreign f; bool ok = true; f.alg = tk::ED_SHA256; f.names = {"from"}; f.pre = "v=1; a=ed25519-sha256; d=ex.org; s=s; h=from; bh=%BH%; "; std::string sig = tk::foreign(msg, f, ok), m = sig + "\n" + msg; std::stringstream st(m); Validatory v(st); int qd = sym_range(0, 1, "qd"), an = sym_range(0, 2, "an"); bool good = sym_range(0, 1, "good"); g_dns = std::string("\0\0\201\200\0", 5) + (char)qd + '\0' + (char)an + std::string("\0\0\0\0", 4);
	if (good) { std::string k = tk::record(true); if (qd) g_dns += std::string("\1s\0\0\20\0\1", 7); for (int i = 0; i < an; i++) { size_t c = k.size() / 2; std::string rd = i ? std::string() : std::string(1, (char)c) + k.substr(0, c) + (char)(k.size() - c) + k.substr(c); g_dns += std::string("\300\14\0\20\0\1\0\0\0\1\0", 11) + (char)rd.size() + rd; } size_t cut = (size_t)sym_range(0, 24, "cut"); g_dns.resize(g_dns.size() > cut ? g_dns.size() - cut : 0); g_len = (int)g_dns.size(); } else { g_dns += symStr((size_t)sym_range(0, BND(16, 20), "n"), "d"); g_len = (int)g_dns.size(); if (sym_range(0, 1, "odd")) { static const int O[] = {-1, 0, 1, 11, 12}; g_len = O[sym_range(0, 4, "len")]; } }
	auto h = v.GetSignatures().front(); int r = tk::guarded([&]() { Message::HeaderList l; l.push_back(h); Signature s; v.GetSignature(l.begin(), s); PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(h, s, p); }); CHECK(r != tk::OTHER, "passes or raises a library error"); sym_reach(R[r]);
}
UNIT(c25_order) {
	std::string msg = "From: a\nTo: b\n\nx\n"; tk::Foreign f; bool ok = true; f.alg = tk::RSA_SHA256; f.names = {"from"}; f.pre = "v=1; a=rsa-sha256; d=ex.org; s=s; h=from; bh=%BH%; "; std::string m = tk::foreign(msg, f, ok) + "\nDKIM-Signature: v=1; a=x\n" + msg; std::stringstream st(m); Validatory v(st); v.CustomDNSResolver = [](const std::string&, std::string& r, void*) { r = tk::record(false); return true; }; auto a = v.GetSignatures().front(), b = v.GetSignatures().back(); Signature s; s.Parse(a); PublicKey p; p.Parse(tk::record(false)); Message::HeaderList l; l.push_back(a); l.push_back(b);
	for (int i = 0; i < 4; i++) { int k = sym_range(0, 5, "call"), r = tk::guarded([&]() { Signature x; PublicKey y; if (k == 0) v.GetSignature(l.begin(), x); if (k == 1) v.GetSignature(std::next(l.begin()), x); if (k == 2) v.CheckBodyHash(s); if (k == 3) v.GetPublicKey(s, y); if (k == 4) v.CheckSignature(a, s, p); if (k == 5) v.CheckSignature(b, s, p); }); CHECK(k == 1 ? r == tk::PERM : k == 5 ? r != tk::PASS : r == tk::PASS, "every call gives its own result"); } sym_reach("done");
}
UNIT(c25_rsasize) {
	static const int B[] = {2, 64, 128, 256, 512, 1024, 2048}; int key = sym_range(0, 4, "key"), real = sym_range(0, 1, "real"); int d = sym_range(-2, 2, "delta"); std::string msg = "From: a\n\nx\n", s, pre = "v=1; a=rsa-sha256; d=ex.org; s=s; h=from; bh=" + ref::enc64(tk::digest("x\r\n", tk::RSA_SHA256)) + "; b=", f = "DKIM-Signature: " + pre; bool ok = true;
	if (real) { s = tk::rawSign(tk::digest(tk::headerInput(msg, {"from"}, f, false, ok), tk::RSA_SHA256), tk::RSA_SHA256, key); s.resize((size_t)((int)s.size() + d), 'q'); } else { s = std::string((size_t)(B[sym_range(0, 6, "n")] + d), 'k'); if (!s.empty()) { std::string w = symStr(1, "w"); s[s.size() - 1] = w[0]; s[0] = (char)(w[0] ^ 0x55); } }
	int r = whole(f + ref::enc64(s) + "\n" + msg, Validatory::DKIM, tk::record(false, key)); if (real && d == 0) CHECK(r == tk::PASS, "the real signature verifies"); else CHECK(r == tk::FAIL || (s.empty() && r == tk::PERM), "made-up data never verifies"); sym_reach(R[r]);
}
UNIT(c25_signsize) {
	int k1 = sym_range(0, 4, "key1"), k2 = sym_range(-1, 4, "key2"); bool pem = sym_range(0, 1, "pem"), sha1 = sym_range(0, 1, "sha1"); std::string msg = "From: a\n\nx" + symStr(1, "b") + "\n", s; SignatoryOptions o; o.SetDomain("ex.org").SetSelector("s").SetPrivateKey(pem ? tk::RSA_PEM[k1] : tk::RSA_DER[k1]); if (sha1) o.SetDigestAlgorithm(DKIM_A_SHA1); if (k2 >= 0) { auto& a = o.AddAdditionalSignature(); a.SetDomain("ex.net").SetSelector("t").SetPrivateKey(pem ? tk::RSA_DER[k2] : tk::RSA_PEM[k2]); }
	CHECK(tk::sign(msg, o, s), "signing succeeds with a key of any size"); std::string m = s + "\r\n" + msg; std::stringstream st(m); Validatory v(st); int n = 0; for (auto& h : v.GetSignatures()) { Signature g; g.Parse(h); int k = g.GetDomain() == "ex.org" ? k1 : k2; CHECK(tk::check(v, h, tk::record(false, k)) == tk::PASS, "it verifies"); n++; } CHECK(n == (k2 >= 0 ? 2 : 1), "number of signatures"); sym_reach("done");
}
