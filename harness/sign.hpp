// Signing and verification helpers, and a reference signer built from the RFC definitions in ref.hpp (independent of /repo's code).
#pragma once
#include "ref.hpp"
#include "keys.h"
#include "src/Signatory.hpp"
#include "src/Validatory.hpp"
#include "src/Exception.hpp"
#include <sstream>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <sodium.h>
namespace tk {
enum { PASS = 0, FAIL, PERM, TEMP, NOSIG, OTHER };
enum { RSA_SHA256 = 0, RSA_SHA1, ED_SHA256 };
static const char* ALG[] = {"rsa-sha256", "rsa-sha1", "ed25519-sha256"};
static const char* const RSA_PUB[] = {RSA0_PUB_B64, RSA1_PUB_B64, RSA2_PUB_B64, RSA3_PUB_B64, RSA4_PUB_B64}; static const char* const RSA_DER[] = {RSA0_DER_B64, RSA1_DER_B64, RSA2_DER_B64, RSA3_DER_B64, RSA4_DER_B64}; // 1024, 512, 2048, 4096, 8192 bits
static const char* const RSA_PEM[] = {RSA0_PEM, RSA1_PEM, RSA2_PEM, RSA3_PEM, RSA4_PEM}; static const int RSA_LEN[] = {RSA0_SIZE, RSA1_SIZE, RSA2_SIZE, RSA3_SIZE, RSA4_SIZE};
static std::string record(bool ed, int which = 1, const std::string& extra = "") { return "v=DKIM1; " + extra + (ed ? std::string("k=ed25519; p=") + (which ? ED1_PUB_B64 : ED0_PUB_B64) : std::string("k=rsa; p=") + RSA_PUB[which]); }
static std::string seed(int which) { std::string s; ref::dec64(which ? ED1_SEED_B64 : ED0_SEED_B64, s); return s; }
static void setKey(DKIM::SignatoryOptions& o, bool ed, int which = 1) { if (ed) o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(which ? ED1_SEED_B64 : ED0_SEED_B64); else o.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA).SetPrivateKey(RSA_DER[which]); }
static void setKey(DKIM::AdditionalSignaturesOptions& o, bool ed, int which = 1) { if (ed) o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(which ? ED1_SEED_B64 : ED0_SEED_B64); else o.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA).SetPrivateKey(RSA_DER[which]); }
static int cls(const char* r) { std::string s = r; return s == "fail" ? FAIL : s == "permerror" ? PERM : s == "temperror" ? TEMP : OTHER; }
// outcome of one call sequence on one signature field
template <class F> static int guarded(F f) { try { f(); } catch (DKIM::PermanentError& e) { return cls(e.getAuthenticationResult()); } catch (DKIM::TemporaryError& e) { return cls(e.getAuthenticationResult()); } return PASS; }
static int check(DKIM::Validatory& v, const DKIM::Validatory::SignatureItem& h, const std::string& key) {
	v.CustomDNSResolver = [&key](const std::string&, std::string& r, void*) { r = key; return true; };
	return guarded([&]() { DKIM::Message::HeaderList l; l.push_back(h); DKIM::Signature s; v.GetSignature(l.begin(), s); DKIM::PublicKey p; v.GetPublicKey(s, p); v.CheckSignature(h, s, p); });
}
// the first signature field of a message
static int verify(const std::string& msg, const std::string& key, DKIM::Validatory::ValidatorType t = DKIM::Validatory::DKIM) {
	std::stringstream st(msg); DKIM::Validatory v(st, t); if (v.GetSignatures().empty()) return NOSIG; return check(v, v.GetSignatures().front(), key);
}
// returns false when signing is refused with a permanent error
static bool sign(const std::string& msg, const DKIM::SignatoryOptions& o, std::string& out) { std::stringstream st(msg); DKIM::Signatory s(st); try { out = s.CreateSignature(o); return true; } catch (DKIM::PermanentError&) { return false; } }

// ---- reference signer
static std::string digest(const std::string& d, int alg) { unsigned char b[64]; unsigned n = 0; EVP_Digest(d.data(), d.size(), b, &n, alg == RSA_SHA1 ? EVP_sha1() : EVP_sha256(), nullptr); return std::string((char*)b, n); }
static std::string rawSign(const std::string& dig, int alg, int which) {
	if (alg == ED_SHA256) { std::string sk; ref::dec64(which ? ED1_SK_B64 : ED0_SK_B64, sk); unsigned char s[64]; unsigned long long n; crypto_sign_detached(s, &n, (const unsigned char*)dig.data(), dig.size(), (const unsigned char*)sk.data()); return std::string((char*)s, 64); }
	std::string der; ref::dec64(RSA_DER[which], der); const unsigned char* p = (const unsigned char*)der.data(); RSA* r = d2i_RSAPrivateKey(nullptr, &p, (long)der.size()); unsigned char s[1100]; unsigned n = 0;
	RSA_sign(alg == RSA_SHA1 ? NID_sha1 : NID_sha256, (const unsigned char*)dig.data(), (unsigned)dig.size(), s, &n, r); RSA_free(r); return std::string((char*)s, n);
}
static std::string canonH(const std::string& f, bool relaxed, bool& ok) { if (!relaxed) return f; std::string o; if (!ref::headerRelaxed(f, o)) ok = false; return o; }
// RFC 6376 3.7: header hash input; names = h= items, field = signature field with the b= value and white space around it removed
static std::string headerInput(const std::string& msg, const std::vector<std::string>& names, const std::string& field, bool relaxed, bool& ok) {
	ref::Msg m = ref::split(msg); std::vector<bool> used(m.h.size()); std::string in;
	for (auto& n : names) for (size_t i = m.h.size(); i-- > 0;) if (!used[i] && !m.h[i].name.empty() && ref::ieq(m.h[i].name, n)) { used[i] = true; in += canonH(m.h[i].text, relaxed, ok) + "\r\n"; break; }
	return in + canonH(field, relaxed, ok);
}
static std::string bodyOf(const std::string& msg) { ref::Msg m = ref::split(msg); return m.body >= 0 ? msg.substr((size_t)m.body) : ""; }
struct Foreign { std::string name = "DKIM-Signature", lead = " ", pre, post; // field = name ":" lead pre "b=" ws1 <sig> ws2 post;  %BH% in pre/post is replaced by the body hash
	std::string ws1, ws2; int alg = RSA_SHA256, which = 1; bool hr = false, br = false; long limit = -1; std::vector<std::string> names; int fold = 0; };
static std::string subst(std::string s, const std::string& bh) { size_t p = s.find("%BH%"); if (p != std::string::npos) s.replace(p, 4, bh); return s; }
static std::string foreign(const std::string& msg, const Foreign& f, bool& ok) {
	std::string b = ref::body(bodyOf(msg), f.br); if (f.limit >= 0 && (size_t)f.limit < b.size()) b.resize((size_t)f.limit);
	std::string bh = ref::enc64(digest(b, f.alg)), pre = f.name + ":" + f.lead + subst(f.pre, bh) + "b=", post = subst(f.post, bh);
	std::string sig = ref::enc64(rawSign(digest(headerInput(msg, f.names, pre + post, f.hr, ok), f.alg), f.alg, f.which));
	if (f.fold) for (size_t i = (size_t)f.fold; i < sig.size(); i += (size_t)f.fold + 3) sig.insert(i, "\r\n ");
	return pre + f.ws1 + sig + f.ws2 + post;
}
}
