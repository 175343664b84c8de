// Reference reading of a key record (RFC 6376 3.6.1, RFC 8463 3), used as oracle
#pragma once
#include "sigref.hpp"
#include "keys.h"
#include "src/PublicKey.hpp"
namespace kr {
struct Key { bool ok = false, unspecified = false, ed = false, sha1 = false, sha256 = false, anyHash = true, anyService = true; std::vector<std::string> flags; std::string p; };
// RSA keys are those of keys.h (and the EC and Ed25519 SubjectPublicKeyInfo, which are keys of another type)
static const char* const RSA_P[] = {RSA0_PUB_B64, RSA1_PUB_B64, RSA2_PUB_B64, RSA3_PUB_B64, RSA4_PUB_B64}; static const int RSA_SZ[] = {RSA0_SIZE, RSA1_SIZE, RSA2_SIZE, RSA3_SIZE, RSA4_SIZE};
static int rsaKey(const std::string& b) { for (int i = 0; i < 5; i++) if (b == RSA_P[i]) return i; return -1; }
static Key parse(const std::string& rec) {
	Key r; std::vector<ref::Tag> t; if (!ref::tags(rec, t)) return r; const ref::Tag *v = ref::tag(t, "v"), *h = ref::tag(t, "h"), *k = ref::tag(t, "k"), *p = ref::tag(t, "p"), *s = ref::tag(t, "s"), *f = ref::tag(t, "t");
	if (v && v->v != "DKIM1") return r; if (k && k->v != "rsa" && k->v != "ed25519") return r; r.ed = k && k->v == "ed25519"; if (!p || p->v.empty()) return r;
	if (h) { std::vector<std::string> l; if (!sr::list(h->v, l)) return r; r.anyHash = false; for (auto& x : l) { if (x == "sha1") r.sha1 = true; if (x == "sha256") r.sha256 = true; } if (!r.sha1 && !r.sha256) return r; }
	if (s) { std::vector<std::string> l; if (!sr::list(s->v, l)) return r; bool em = false, all = false; for (auto& x : l) { if (x == "email") em = true; if (x == "*") all = true; } if (!em && !all) return r; r.anyService = all; }
	if (f && !sr::list(f->v, r.flags)) return r;
	std::string b = ref::nows(p->v), o; if (r.ed) { if (!ref::dec64(b, r.p)) { r.unspecified = true; return r; } if (r.p.size() != 32) return r; }
	else if (rsaKey(b) >= 0) r.p = b; else { if (!ref::dec64(b, o)) r.unspecified = true; return r; }
	r.ok = true; return r;
}
static bool compare(const std::string& rec, DKIM::PublicKey& k) {
	Key w = parse(rec); bool ok = true; try { k.Parse(rec); } catch (DKIM::PermanentError& e) { ok = false; CHECK(std::string(e.getAuthenticationResult()) == "permerror", "a rejected record is a permerror"); }
	if (w.unspecified) { if (ok) CHECK(!w.ed || k.GetED25519PublicKey().size() == 32, "an accepted Ed25519 key has 32 octets"); return ok; }
	if (ok) CHECK(w.ok, "an unusable record is rejected"); else CHECK(!w.ok, "a usable record is accepted"); if (!ok || !w.ok) return ok;
	CHECK((k.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519) == w.ed, "key type"); bool a1 = false, a2 = false; for (auto x : k.GetDigestAlgorithms()) { if (x == DKIM::DKIM_A_SHA1) a1 = true; else if (x == DKIM::DKIM_A_SHA256) a2 = true; else CHECK(false, "unknown hash reported"); }
	CHECK(k.GetDigestAlgorithms().empty() == w.anyHash && a1 == w.sha1 && a2 == w.sha256, "hash algorithms"); CHECK(k.GetServiceType().empty() == w.anyService, "service types");
	CHECK(k.GetFlags().size() == w.flags.size(), "number of flags"); size_t i = 0; bool y = false; for (auto& x : k.GetFlags()) { if (i < w.flags.size()) CHECK(x == w.flags[i], "flag"); i++; } for (auto& x : w.flags) if (x == "y") y = true; CHECK(k.SoftFail() == y, "testing mode");
	if (w.ed) { CHECK(k.GetED25519PublicKey() == w.p, "Ed25519 key octets"); CHECK(!k.GetRSAPublicKey(), "no RSA key in an Ed25519 record"); } else { CHECK(k.GetRSAPublicKey() != nullptr, "RSA key reported"); if (k.GetRSAPublicKey()) CHECK(RSA_size(k.GetRSAPublicKey()) == RSA_SZ[rsaKey(w.p)], "the RSA key of p="); CHECK(k.GetED25519PublicKey().empty(), "no Ed25519 key in an RSA record"); }
	return ok;
}
}
