// Reference reading of a signature field (RFC 6376 3.5, RFC 8617 4.1.2), used as oracle
#pragma once
#include "ref.hpp"
#include "src/Signature.hpp"
#include "src/Exception.hpp"
#include <sstream>
namespace sr {
struct Sig { bool ok = false; bool arc = false; int alg = 0; std::string b, bh, d, s, il, id; bool hr = false, br = false, lim = false; unsigned long l = 0, inst = 0; std::vector<std::string> h; bool b64 = true; };
static bool digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
// value of a digit string; false: does not fit into 63 bits
static bool number(const std::string& s, unsigned long& r) { r = 0; for (char c : s) { if (r > 922337203685477580ul) return false; r = r * 10 + (unsigned long)(c - '0'); if (r > 9223372036854775807ul) return false; } return true; }
static bool qp(const std::string& s, std::string& o) { auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r' && (i + 1 == s.size() || s[i + 1] != '\n')) return false;
	for (size_t i = 0; i < s.size(); i++) { if (ref::fwsc(s[i])) continue; if (s[i] != '=') { o += s[i]; continue; } if (i + 2 >= s.size()) return false; int a = hex(s[i + 1]), b = hex(s[i + 2]); if (a < 0 || b < 0) return false; o += (char)(a * 16 + b); i += 2; } return true; }
// colon separated list; white space around items removed.  An empty item is an error, one trailing colon is not
// (a carriage return without line feed is always an error)
static bool bareCR(const std::string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r' && (i + 1 == s.size() || s[i + 1] != '\n')) return true; return false; }
static bool list(const std::string& s, std::vector<std::string>& o) { if (bareCR(s)) return false; if (ref::strip(s, ref::fwsc).empty()) return true; size_t i = 0; while (true) { size_t e = s.find(':', i); std::string x = ref::strip(s.substr(i, e == std::string::npos ? std::string::npos : e - i), ref::fwsc); if (x.empty()) return e == std::string::npos && i > 0; o.push_back(x); if (e == std::string::npos) return true; i = e + 1; } }
static Sig parse(const std::string& name, const std::string& value, long now) {
	Sig r; r.arc = ref::ieq(name, "arc-message-signature"); std::vector<ref::Tag> t; if (!ref::tags(value, t)) return r; auto has = [&](const char* n) { return ref::tag(t, n); };
	const ref::Tag *d = has("d"), *v = has("v"), *a = has("a"), *b = has("b"), *bh = has("bh"), *c = has("c"), *h = has("h"), *i = has("i"), *l = has("l"), *q = has("q"), *s = has("s"), *x = has("x");
	if (!d || !a || !b || !bh || !h || !s || b->v.empty()) return r; if (!r.arc && (!v || v->v != "1")) return r;
	if (a->v == "rsa-sha256") r.alg = 0; else if (a->v == "rsa-sha1") r.alg = 1; else if (a->v == "ed25519-sha256") r.alg = 2; else return r;
	if (c) { size_t k = c->v.find('/'); std::string hc = c->v.substr(0, k), bc = k == std::string::npos ? "simple" : c->v.substr(k + 1); if ((hc != "simple" && hc != "relaxed") || (bc != "simple" && bc != "relaxed")) return r; r.hr = hc == "relaxed"; r.br = bc == "relaxed"; }
	if (!list(h->v, r.h)) return r; bool from = false; for (auto& n : r.h) if (ref::ieq(n, "from")) from = true; if (!from) return r;
	r.d = ref::lower(d->v); r.s = s->v; r.b64 = ref::dec64(ref::nows(b->v), r.b) & ref::dec64(ref::nows(bh->v), r.bh);
	if (r.arc) { if (!i || !digits(i->v) || !number(i->v, r.inst) || r.inst < 1 || r.inst > 50) return r; }
	else if (!i) r.id = r.d;
	else { std::string m; if (!qp(i->v, m)) return r; size_t at = m.rfind('@'); if (at == std::string::npos) return r; r.il = m.substr(0, at); r.id = ref::lower(m.substr(at + 1)); if (r.id != r.d) { if (r.id.size() <= r.d.size() || r.id.compare(r.id.size() - r.d.size(), std::string::npos, r.d) != 0 || r.id[r.id.size() - r.d.size() - 1] != '.') return r; } }
	if (l) { if (l->v.size() > 76 || !digits(l->v) || !number(l->v, r.l)) return r; r.lim = true; }
	if (q) { std::vector<std::string> m; if (!list(q->v, m)) return r; bool dns = false; for (auto& y : m) if (y == "dns/txt") dns = true; if (!dns) return r; }
	if (x) { unsigned long e; if (!digits(x->v)) return r; if (number(x->v, e) && (long)e < now) return r; }
	r.ok = true; return r;
}
static std::shared_ptr<DKIM::Header> header(const std::string& field) { std::stringstream st(field + "\r\n\r\n"); DKIM::Message m; while (m.ParseLine(st) && !m.IsDone()) {} return m.GetHeaders().empty() ? std::shared_ptr<DKIM::Header>() : m.GetHeaders().front(); }
// parse with the library and compare everything observable with the reference; returns acceptance
static bool compare(const std::string& name, const std::string& value, long now, DKIM::Signature& g) {
	auto h = header(name + ":" + value); Sig w = parse(name, value, now); bool ok = true; try { g.Parse(h); } catch (DKIM::PermanentError& e) { ok = false; CHECK(std::string(e.getAuthenticationResult()) == "permerror", "a rejected field is a permerror"); }
	if (ok) CHECK(w.ok, "a field with a missing or invalid tag is rejected"); else CHECK(!w.ok, "a valid field is accepted"); if (!ok || !w.ok) return ok;
	CHECK(g.IsARC() == w.arc, "kind"); CHECK((g.GetSignatureAlgorithm() == DKIM::DKIM_SA_ED25519) == (w.alg == 2), "key type of a="); CHECK((g.GetDigestAlgorithm() == DKIM::DKIM_A_SHA1) == (w.alg == 1), "hash of a=");
	CHECK((g.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED) == w.hr, "header mode of c="); CHECK((g.GetCanonModeBody() == DKIM::DKIM_C_RELAXED) == w.br, "body mode of c="); CHECK(g.GetDomain() == w.d, "domain"); CHECK(g.GetSelector() == w.s, "selector");
	CHECK(g.GetBodySizeLimit() == w.lim && (!w.lim || g.GetBodySize() == w.l), "body length limit"); if (w.arc) CHECK(g.GetARCInstance() == w.inst, "ARC instance"); else { CHECK(g.GetMailDomain() == w.id, "identity domain"); CHECK(g.GetMailLocalPart() == w.il, "identity local part"); }
	if (w.b64) { CHECK(g.GetSignatureData() == w.b, "signature data"); CHECK(g.GetBodyHash() == w.bh, "body hash"); }
	CHECK(g.GetSignedHeaders().size() == w.h.size(), "number of signed fields"); size_t k = 0; for (auto& n : g.GetSignedHeaders()) if (k < w.h.size()) CHECK(n == w.h[k++], "signed field names"); CHECK(g.GetQueryType() == DKIM::Signature::DKIM_Q_DNSTXT, "query type"); return ok;
}
}
