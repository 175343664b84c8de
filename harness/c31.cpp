// C31 objects used by different threads do not interfere
// @native thread
// @unit c31_verify reach=pass,fail,perm q=120: two threads verify messages of their own (the same content or another one) with up to 2 (quick) / 3 (thorough) arbitrary octets in header value, body, tag list or key record, every algorithm, both canonicalisations, own resolver callback or the system resolver
// @unit c31_sign reach=ok q=120: two threads sign messages of their own, up to 2 / 3 arbitrary octets in header or body, every algorithm, both canonicalisations, with and without additional signature, identity, length, times and ARC instance
// @unit c31_parse reach=ok,bad q=150: two threads parse or convert up to 3 / 4 arbitrary octets (signature field, key record, tag list, Base64, quoted-printable, encoded words, address lists, header and body canonicalisation, messages, names, options)
// @unit c31_keys reach=ok,bad q=60: two threads load every kind of private key (RSA as Base64 and as PEM, Ed25519, unusable text) into options of their own
// @unit c31_shared reach=sign,verify q=90: two threads sign with the same constant options or check against the same constant signature, key and header objects
// @assume C++11 rules for the standard library, OpenSSL, libsodium and the DNS library: their calls on distinct objects do not interfere; their models are not watched
// @assume interference needs an access to a library variable of static storage duration or to an object both threads can reach: these accesses are watched with the locks held, every two of them count as concurrent unless a lock, atomics or a once-only initialisation order them
#include "keyref.hpp"
#include "sign.hpp"
#include "sigref.hpp"
#include "src/EncodedWord.hpp"
#include "src/QuotedPrintable.hpp"
#include "src/Base64.hpp"
#include "src/Canonicalization.hpp"
#include "src/TagList.hpp"
#include "src/Util.hpp"
#include "src/Tokenizer.hpp"
#include <netdb.h>
#include <resolv.h>
using namespace DKIM;
static const char* R[] = {"pass", "fail", "perm", "temp", "nosig", "other"};
struct Job { int op, k; std::string a, b; const SignatoryOptions* o; const Signature* s; const PublicKey* p; std::shared_ptr<Header> h; std::string out; };
extern "C" int sym_dns_hook(void* st, const char* name, int, int, unsigned char* ans, int len) {
	((res_state)st)->res_h_errno = 0; // a query writes to the resolver state
	std::string rr = tk::record(name[0] == 'e'), a(12, '\0'); a[2] = (char)0x81; a[3] = (char)0x80; a[5] = 1; a[7] = 1; a += std::string("\1x\0", 3) + std::string("\0\x10\0\1", 4); a += std::string("\xc0\x0c\0\x10\0\1\0\0\0\1", 10);
	std::string rd; for (size_t i = 0; i < rr.size(); i += 255) { std::string c = rr.substr(i, 255); rd += (char)c.size(); rd += c; } a += (char)(rd.size() >> 8); a += (char)rd.size(); a += rd; if ((int)a.size() > len) return -1; for (size_t i = 0; i < a.size(); i++) ans[i] = (unsigned char)a[i]; return (int)a.size();
}
static std::string num(size_t n) { std::string s; do { s.insert(s.begin(), (char)('0' + n % 10)); n /= 10; } while (n); return s; }
static void options(SignatoryOptions& o, int k) {
	int al = k & 3; bool ed = al == 2; o.SetDomain("ex.org").SetSelector(ed ? "e" : "s"); tk::setKey(o, ed); o.SetDigestAlgorithm(al == 1 ? DKIM_A_SHA1 : DKIM_A_SHA256).SetCanonModeHeader(k & 4 ? DKIM_C_RELAXED : DKIM_C_SIMPLE).SetCanonModeBody(k & 4 ? DKIM_C_RELAXED : DKIM_C_SIMPLE);
	if (k & 8) { o.SetIdentity("u@ex.org").SetSignBodyLength(1).SetTimestamp(1600000000).SetExpiration(1700000000); tk::setKey(o.AddAdditionalSignature().SetDomain("b.org").SetSelector("t"), !ed, 0); o.SetOversignHeaders({"subject"}); } if (k & 16) o.SetARCInstance(2);
}
static void work(void* x) {
	Job& j = *(Job*)x; std::string o; int r = 0;
	try {
		if (j.op <= 1) {
			std::stringstream st(j.a); Validatory v(st, j.k ? Validatory::ARC : Validatory::DKIM); const std::string& b = j.b; if (j.op == 0) v.CustomDNSResolver = [&b](const std::string&, std::string& r, void*) { r = b; return true; };
			if (v.GetSignatures().empty()) r = tk::NOSIG; else { Message::HeaderList l; l.push_back(v.GetSignatures().front()); Signature s; PublicKey p; r = tk::guarded([&]() { v.GetSignature(l.begin(), s); v.GetPublicKey(s, p); v.CheckSignature(l.begin(), s, p); }); o = s.GetDomain() + "|" + s.GetMailDomain() + "|" + s.GetSelector(); }
		} else if (j.op == 2) { std::stringstream st(j.a); SignatoryOptions op; options(op, j.k); Signatory s(st); o = s.CreateSignature(op); }
		else if (j.op == 3) { const std::string& a = j.a; switch (j.k) {
			case 0: { auto h = sr::header("DKIM-Signature:" + a); r = tk::PERM; if (h) { r = 0; Signature s; s.Parse(h); o = s.GetDomain(); } break; }
			case 1: { PublicKey p; p.Parse(a); o = num(p.GetSignatureAlgorithm()); break; }
			case 2: o = Conversion::Base64_Encode(a); o += Conversion::Base64_Decode(a); break;
			case 3: o = Conversion::QuotedPrintable::Encode(a); o += "|" + Conversion::QuotedPrintable::Decode(a); o += Conversion::QuotedPrintable::Decode(a, true); break;
			case 4: o = Conversion::EncodedWord::Decode("=?utf-8?q?" + a + "?= =?utf-8?b?" + a + "?="); break;
			case 5: { for (auto& e : Tokenizer::ParseAddressList("a@b, <c@" + a + ">")) o += e + "|"; break; }
			case 6: { Conversion::CanonicalizationHeader c(DKIM_C_RELAXED); o = c.FilterHeader("Subject: " + a + "\r\n x "); c.SetType(DKIM_C_SIMPLE); o += c.FilterHeader("Subject:" + a); break; }
			case 7: for (int m = 0; m < 2; m++) { std::stringstream st("x \r\n" + a + "\r\n"); o += Conversion::CanonicalizationBody(st, m ? DKIM_C_RELAXED : DKIM_C_SIMPLE, 0, false, 0, [&o](const char* p, size_t n) { o.append(p, n); }) ? "+" : "-"; } break;
			case 8: { std::stringstream st("From: " + a + "\r\nX" + a + "\r\n\r\nb"); Message m; while (m.ParseLine(st) && !m.IsDone()) {} for (auto& h : m.GetHeaders()) o += h->GetName() + "|" + h->GetHeader() + "|"; break; }
			case 9: o = Util::ValidateDomain(a) ? "+" : "-"; o += Util::CanonMode2String(DKIM_C_RELAXED); o += Util::Algorithm2String(DKIM_SA_RSA, DKIM_A_SHA1); o += Util::StringFormat("%s/%s", "x", "y"); break;
			case 10: { TagList t; t.Parse(a); TagListEntry v; o = t.GetTag("a", v) ? v.GetValue() : "-"; break; }
			case 11: { SignatoryOptions p; p.SetDomain(a).SetSelector(a).SetHeaders({"from", "x"}).AddHeaders({a}).DelHeaders({"x"}).SetIdentity(a); for (auto& h : p.GetHeaders()) o += h + "|"; o += p.GetIdentity(); p.SetOversignHeaders({a}); break; } }
		} else if (j.op == 4) { SignatoryOptions p; if (j.k & 1) p.SetSignatureAlgorithm(DKIM_SA_ED25519); p.SetPrivateKey(j.a); o = p.GetED25519PrivateKey() + num(p.GetRSAPrivateKey() ? (size_t)RSA_size(p.GetRSAPrivateKey()) : 0); }
		else if (j.op == 5) { std::stringstream st(j.a); Signatory s(st); o = s.CreateSignature(*j.o); }
		else { std::stringstream st(j.a); Validatory v(st); r = tk::guarded([&]() { v.CheckBodyHash(*j.s); v.CheckSignature(j.h, *j.s, *j.p); }); o = j.s->GetDomain(); }
	} catch (PermanentError& e) { r = tk::PERM; } catch (TemporaryError& e) { r = tk::TEMP; }
	j.out = std::string(1, (char)('0' + r)) + o;
}
static int both(Job a, Job b) { Job c = a, d = b, a2 = a, b2 = b; void* x[] = {&a, &b, &a2, &b2}; bool sy = sym_symbolic_mode(); sym_parallel(work, x, sy ? 2 : 4); work(&c); work(&d); CHECK(sy || (a2.out == c.out && b2.out == d.out), "a thread's result is the result of the same calls on their own"); CHECK(a.out == c.out, "a thread's result is the result of the same calls on their own"); CHECK(b.out == d.out, "the other thread's result is the result of the same calls on their own"); return a.out.empty() ? tk::OTHER : a.out[0] - '0'; }
static Job job(int op, int k, const std::string& a, const std::string& b = "") { Job j; j.op = op; j.k = k; j.a = a; j.b = b; j.o = nullptr; j.s = nullptr; j.p = nullptr; return j; }
static std::string signedMsg(const std::string& msg, int alg, bool rel, bool arc) { tk::Foreign f; f.alg = alg; f.hr = f.br = rel; f.names = {"from", "to"}; if (arc) f.name = "ARC-Message-Signature"; f.pre = std::string(arc ? "i=1" : "v=1") + "; a=" + tk::ALG[alg] + (rel ? "; c=relaxed/relaxed" : "") + "; d=ex.org; s=" + (alg == tk::ED_SHA256 ? "e" : "s") + "; h=from:to; bh=%BH%; "; bool ok = true; return tk::foreign(msg, f, ok) + "\r\n" + msg; }
UNIT(c31_verify) {
	int alg = sym_range(0, 2, "alg"), where = sym_range(0, 3, "where"); bool rel = sym_range(0, 1, "relaxed"), arc = sym_range(0, 1, "arc"), sys = where < 3 && sym_range(0, 1, "sys"), same = sym_range(0, 1, "same"); std::string m = signedMsg("From: ab\r\nTo: b\r\n\r\nxy\r\n", alg, rel, arc), k = tk::record(alg == tk::ED_SHA256), w = symStr((size_t)sym_range(0, BND(2, 3), "n"), "w");
	if (w.size()) { if (where == 0) m.replace(m.find("ab\r\n"), w.size(), w); if (where == 1) m.replace(m.rfind("xy"), w.size(), w); if (where == 2) m.replace(m.find("; d=ex") + 1, w.size(), w); if (where == 3) k.replace(k.size() - 4, w.size(), w); }
	Job a = job(sys, arc, m, k), b = same ? a : job(0, 0, signedMsg("From: c\r\nTo: d\r\n\r\nz\r\n", tk::ED_SHA256, true, false), tk::record(true)); int r = both(a, b); sym_reach(R[r]);
}
UNIT(c31_sign) {
	int k = (int)sym_range(0, 2, "alg"); k += (int)sym_range(0, 1, "relaxed") * 4; bool full = sym_range(0, 1, "full"), arc = sym_range(0, 1, "arc"), where = sym_range(0, 1, "where"), same = sym_range(0, 1, "same"); k += full * 8 + arc * 16; std::string w = symStr((size_t)sym_range(0, BND(2, 3), "n"), "w");
	Job a = job(2, k, where ? "From: a\r\nTo: b\r\nSubject: x\r\n\r\n" + w + "y\r\n" : "From: " + w + "\r\nTo: b\r\n\r\ny\r\n"), b = same ? a : job(2, 2, "From: c\r\nTo: d\r\n\r\nz\r\n"); int r = both(a, b); if (r == 0) sym_reach("ok");
}
UNIT(c31_parse) {
	int k = sym_range(0, 11, "kind"), same = sym_range(0, 1, "same"), pre = k <= 1 ? (int)sym_range(0, 1, "pre") : 0; std::string w = symStr((size_t)sym_range(0, BND(k == 8 || k == 11 || k == 0 ? 2 : 3, 4), "n"), "w"); if (pre) w = (k == 0 ? " v=1; a=rsa-sha256; d=ex.org; s=s; h=from; b=QUJD; bh=QUJD" : tk::record(true)) + w;
	static const char* O[] = {" v=1; a=rsa-sha256; d=ex.com; s=s; h=from; b=QUJD; bh=QUJD", "v=DKIM1; k=ed25519; p=QUJD", "QUJD", "a=20=\r\nb", "=41_b", "ex.org", "a  b\t", " \r\n\r\n", "x", "a.b", "a=b; c=d", "ex.org"}; Job a = job(3, k, w), b = same ? a : job(3, k, O[k]); sym_reach(both(a, b) == 0 ? "ok" : "bad");
}
UNIT(c31_keys) {
	static const char* K[] = {RSA0_DER_B64, ED0_SEED_B64, RSA0_PEM, "QUJD", "!", "", RSA1_PEM}; int k = sym_range(0, 6, "k"), ed = sym_range(0, 1, "ed"), k2 = sym_range(0, 6, "k2"), ed2 = sym_range(0, 1, "ed2"); sym_reach(both(job(4, ed, K[k]), job(4, ed2, K[k2])) == 0 ? "ok" : "bad");
}
UNIT(c31_shared) {
	int k = (int)sym_range(0, 2, "alg"); bool rel = sym_range(0, 1, "relaxed"), verify = sym_range(0, 1, "verify"), full = !verify && sym_range(0, 1, "full"); std::string w = symStr((size_t)sym_range(0, 1, "n"), "w");
	if (!verify) { SignatoryOptions* o = new SignatoryOptions; options(*o, k + (rel ? 4 : 0) + (full ? 8 : 0)); Job a = job(5, 0, "From: " + w + "\r\n\r\ny\r\n"), b = job(5, 0, "From: c\r\nTo: d\r\n\r\nz\r\n"); a.o = b.o = o; both(a, b); delete o; sym_reach("sign"); return; }
	std::string m = signedMsg("From: a\r\nTo: b\r\n\r\nx\r\n", k, rel, false); std::stringstream st(m); Validatory v(st); Job a = job(6, 0, m), b = job(6, 0, m); Signature* s = new Signature; PublicKey* p = new PublicKey; s->Parse(v.GetSignatures().front()); p->Parse(tk::record(k == 2)); a.h = b.h = v.GetSignatures().front(); a.s = b.s = s; a.p = b.p = p; if (w.size()) a.a.replace(a.a.size() - 3, 1, w); both(a, b); delete s; delete p; sym_reach("verify");
}
