// C13 key lookup
// @unit c13_custom reach=key,tmp,none,bad q=200: every selector of 0..2 and domain of 0..3 octets x resolver outcome (failure, failure with an answer, empty, key, malformed) x data pointer; signatures without identity, with one in d and in a sub-domain, and ARC
// @unit c13_system reach=key,tmp,none q=200: the same name with the system resolver: every DNS outcome (answer, no such name, no data, try again, no recovery) with no custom resolver set
// @unit c13_custom_first reach=custom: with a custom resolver set the system resolver is never asked
// @unit c13_long reach=key,none q=200: selectors and domains of 30..1027 and 5000 octets in total ending in an arbitrary octet, both resolvers
// @unit c13_record reach=key,other q=200: records of 30..1100 octets with keys of every size, split into strings of 1..255 octets, from either resolver, the key reported is the one of the record
// @unit c13_sequence reach=done q=200: three lookups in a row, by one verifier or one each, with either resolver, each with every selector of 1 / 2 letters, three domains and four outcomes: every one asks for its own name and gets its own answer
// @assume the DNS library is replaced by a model: res_nquery calls the harness, res_h_errno is set as documented
#include "keyref.hpp"
#include "sign.hpp"
#include <netdb.h>
#include <arpa/nameser.h>
#include <resolv.h>
using namespace DKIM;
static int calls; static std::string asked; static int outcome; static std::string rr; static size_t chunk = 255;
static std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
extern "C" int sym_dns_hook(void* st, const char* name, int cls, int type, unsigned char* ans, int len) {
	calls++; asked = name; CHECK(cls == ns_c_in && type == ns_t_txt, "the query is for TXT in class IN");
	static const int E[] = {HOST_NOT_FOUND, NO_DATA, TRY_AGAIN, NO_RECOVERY}; if (outcome) { h_errno = E[outcome - 1]; ((res_state)st)->res_h_errno = h_errno; return -1; }
	std::string a(12, '\0'); a[2] = (char)0x81; a[3] = (char)0x80; a[5] = 1; a[7] = 1; a += std::string("\1x\0", 3) + std::string("\0\x10\0\1", 4); a += std::string("\xc0\x0c\0\x10\0\1\0\0\0\1", 10); std::string rd; for (size_t i = 0; i < rr.size() || i == 0; i += chunk) { std::string c = rr.substr(i, chunk); rd += (char)c.size(); rd += c; } a += (char)(rd.size() >> 8); a += (char)rd.size(); a += rd;
	CHECK((int)a.size() <= len, "the answer buffer has room for an ordinary answer"); for (size_t i = 0; i < a.size(); i++) ans[i] = (unsigned char)a[i]; return (int)a.size();
}
// a parsed signature with the given selector and domain; form: 0 no identity, 1 identity in d, 2 identity in a sub-domain, 3 ARC; other tags which must not matter differ as well
static bool sigOf(const std::string& s, const std::string& d, Signature& g, std::shared_ptr<Header>& h, int form = 0) {
	static const char* N[] = {"DKIM-Signature: v=1; q=dns/txt; l=3; ", "dkim-signature: v=1; ", "DKIM-Signature: c=relaxed; v=1; ", "ARC-Message-Signature: i=2; "}; std::string i = form == 1 ? "u@" + d + "; " : form == 2 ? "@n." + d + "; " : ""; if (!i.empty()) i = "i=" + i;
	h = sr::header(N[form] + std::string("a=ed25519-sha256; d=") + d + "; " + i + "s=" + s + "; h=from; bh=QUJD; b=QUJD"); try { g.Parse(h); return true; } catch (PermanentError&) { return false; } }
static void names(std::string& s, std::string& d, size_t maxd) { size_t sn = sym_range(0, 2, "sn"), dn = sym_range(0, (int64_t)maxd, "dn"); s = symStr(sn, "s"); d = symStr(dn, "d"); for (char c : s + d) sym_assume(c > ' ' && c < 0x7f && c != ';'); }
static int fetch(Validatory& v, const Signature& g, PublicKey& k) { return tk::guarded([&]() { v.GetPublicKey(g, k); }); }
UNIT(c13_custom) {
	std::string s, d; names(s, d, 3); int form = sym_range(0, 3, "form"); if (form) for (char c : d) sym_assume(c != '=' && c != '@'); Signature g; std::shared_ptr<Header> h; if (!sigOf(s, d, g, h, form)) { CHECK(false, "selector and domain are accepted"); return; }
	std::stringstream st("From: a\n\n"); Validatory v(st); int n = 0, out = sym_range(0, 4, "out"), cookie; bool data = sym_range(0, 1, "data"); std::string q; void* got = nullptr; v.CustomDNSData = data ? &cookie : nullptr; got = &n;
	v.CustomDNSResolver = [&](const std::string& name, std::string& r, void* p) { n++; q = name; got = p; if (out == 1) r = tk::record(true); if (out == 3) r = tk::record(true); if (out == 4) r = "v=DKIM1; k=ed25519"; return out >= 2; };
	PublicKey k; int r = fetch(v, g, k); CHECK(n == 1, "the resolver is asked once"); CHECK(q == s + "._domainkey." + lower(d), "the name asked for"); CHECK(got == (void*)(data ? &cookie : nullptr), "the user's data pointer is passed on");
	if (out < 2) { sym_reach("tmp"); CHECK(r == tk::TEMP, "a failed lookup is a temporary error"); } else if (out == 2) { sym_reach("none"); CHECK(r == tk::PERM, "an empty answer is a permanent error"); } else if (out == 4) { sym_reach("bad"); CHECK(r == tk::PERM, "a malformed record is a permanent error"); } else { sym_reach("key"); CHECK(r == tk::PASS, "the key is reported"); std::string p; ref::dec64(ED1_PUB_B64, p); CHECK(k.GetED25519PublicKey() == p, "the key of the record is reported"); }
	if (out != 3) CHECK(k.GetED25519PublicKey().empty() && !k.GetRSAPublicKey(), "no key is reported when the lookup failed");
}
UNIT(c13_system) {
	std::string s, d; names(s, d, 2); for (char c : s + d) sym_assume(c != '\\' && c != '"'); int form = sym_range(0, 3, "form"); if (form) for (char c : d) sym_assume(c != '=' && c != '@'); Signature g; std::shared_ptr<Header> h; if (!sigOf(s, d, g, h, form)) { CHECK(false, "selector and domain are accepted"); return; }
	std::stringstream st("From: a\n\n"); Validatory v(st); outcome = sym_range(0, 4, "outcome"); rr = tk::record(true); calls = 0; PublicKey k; int r = fetch(v, g, k);
	CHECK(calls == 1, "the DNS is asked once"); CHECK(asked == s + "._domainkey." + lower(d), "the name asked for"); if (outcome == 0) { sym_reach("key"); CHECK(r == tk::PASS, "the key is reported"); } else if (outcome == 3) { sym_reach("tmp"); CHECK(r == tk::TEMP, "a transient failure is a temporary error"); } else { sym_reach("none"); CHECK(r == tk::PERM, "no key is a permanent error"); }
	if (outcome) CHECK(k.GetED25519PublicKey().empty() && !k.GetRSAPublicKey(), "no key is reported when the lookup failed"); CHECK(sym_res_live() == 0, "the resolver state is closed");
}
UNIT(c13_custom_first) { Signature g; std::shared_ptr<Header> h; sigOf("s", "d", g, h); std::stringstream st("From: a\n\n"); Validatory v(st); int out = sym_range(0, 2, "out"); outcome = 0; rr = tk::record(true); calls = 0; v.CustomDNSResolver = [&](const std::string&, std::string& r, void*) { if (out == 2) r = tk::record(true); return out > 0; }; PublicKey k; int r = fetch(v, g, k); CHECK(calls == 0, "the system resolver is not asked"); CHECK((r == tk::PASS) == (out == 2), "the custom resolver decides"); sym_reach("custom"); }
UNIT(c13_long) {
	bool sys = sym_range(0, 1, "sys"), which = sym_range(0, 1, "which"); size_t n = symLen(1024, 3, 5000); std::string c = symStr(1, "c"); sym_assume(c[0] > ' ' && c[0] < 0x7f && c[0] != ';' && c[0] != '\\' && c[0] != '"'); std::string s = which ? symRep("sel.", n - 1) + c : "s", d = which ? "ex.org" : symRep("Label.", n - 1) + c, q; Signature g; std::shared_ptr<Header> h; if (!sigOf(s, d, g, h, 0)) { CHECK(false, "selector and domain are accepted"); return; }
	std::stringstream st("From: a\n\n"); Validatory v(st); outcome = sym_range(0, 1, "outcome"); rr = tk::record(true); calls = 0; if (!sys) v.CustomDNSResolver = [&](const std::string& name, std::string& r, void*) { calls++; asked = name; if (!outcome) r = rr; return true; }; PublicKey k; int r = fetch(v, g, k); CHECK(calls == 1, "asked once"); CHECK(asked == s + "._domainkey." + lower(d), "the name asked for"); CHECK(r == (outcome ? tk::PERM : tk::PASS), "the answer decides"); sym_reach(outcome ? "none" : "key");
}
UNIT(c13_sequence) {
	static const char* D[] = {"ex.org", "EX.org", "x.ex.org"}; bool sys = sym_range(0, 1, "sys"), own = sym_range(0, 1, "own"); std::stringstream st("From: a\n\n"), st1("From: a\n\n"), st2("From: a\n\n"); Validatory v0(st), v1(st1), v2(st2); Validatory* V[] = {&v0, own ? &v1 : &v0, own ? &v2 : &v0}; rr = ""; std::string k0, k1; ref::dec64(ED0_PUB_B64, k0); ref::dec64(ED1_PUB_B64, k1);
	for (int i = 0; i < 3; i++) { std::string s = symStr(BND(1, 2), "s"); for (char c : s) sym_assume((c >= 'a') & (c <= 'z')); int d = sym_range(0, 2, "d"), out = sym_range(0, 3, "out"); Signature g; std::shared_ptr<Header> h; CHECK(sigOf(s, D[d], g, h, i == 1 ? 3 : 0), "accepted"); calls = 0; asked = ""; outcome = out == 2 ? 3 : out == 3 ? 1 : 0; rr = tk::record(true, out & 1);
		if (!sys) V[i]->CustomDNSResolver = [&](const std::string& n, std::string& r, void*) { calls++; asked = n; if (out < 2) r = rr; return out != 2; }; PublicKey k; int r = fetch(*V[i], g, k); CHECK(calls == 1, "every lookup asks once"); CHECK(asked == s + "._domainkey." + lower(D[d]), "the name asked for"); CHECK(r == (out < 2 ? tk::PASS : out == 2 ? tk::TEMP : tk::PERM), "its own answer decides"); CHECK(k.GetED25519PublicKey() == (out == 0 ? k0 : out == 1 ? k1 : std::string()), "its own key is reported"); }
	sym_reach("done");
}
UNIT(c13_record) {
	bool sys = sym_range(0, 1, "sys"), hasEd = sym_range(0, 1, "ed"); int which = hasEd ? sym_range(0, 1, "which") : sym_range(0, 4, "which"); int pad = sym_range(0, 5, "pad"); static const int PAD[] = {0, 1, 100, 256, 400, 700}; chunk = (size_t)(sys ? sym_range(0, 5, "chunk") : 0); static const int C[] = {255, 1, 7, 100, 128, 254}; chunk = (size_t)C[chunk]; std::string w = symStr(1, "w"); sym_assume(w[0] > ' ' && w[0] < 0x7f && w[0] != ';'); if (which == 4 && sys && (chunk == 1 || pad > 2)) return; if (chunk == 1 && pad > 3) return;
	rr = tk::record(hasEd, which, pad ? "n=" + symRep("note ", (size_t)PAD[pad]) + w + "; " : ""); Signature g; std::shared_ptr<Header> h; if (!sigOf("s", "ex.org", g, h, 0)) { CHECK(false, "selector and domain are accepted"); return; } std::stringstream st("From: a\n\n"); Validatory v(st); outcome = 0; calls = 0; if (!sys) v.CustomDNSResolver = [&](const std::string& name, std::string& r, void*) { calls++; asked = name; r = rr; return true; };
	PublicKey k; int r = fetch(v, g, k); CHECK(calls == 1, "asked once"); CHECK(r == tk::PASS, "a usable record of any length gives its key"); std::string p; if (hasEd) ref::dec64(which ? ED1_PUB_B64 : ED0_PUB_B64, p); CHECK(k.GetED25519PublicKey() == p, "the key of the record is reported"); CHECK(hasEd ? !k.GetRSAPublicKey() : k.GetRSAPublicKey() && RSA_size(k.GetRSAPublicKey()) == tk::RSA_LEN[which], "the RSA key of the record is reported"); sym_reach(hasEd ? "other" : "key");
}
