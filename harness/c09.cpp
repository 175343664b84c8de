// C09 a signature field is accepted only with valid mandatory tags
// @unit c09_present reach=ok,bad q=200: every subset of the tags v a b bh c d h i l q s x with valid values, in two orders, DKIM and ARC fields
// @unit c09_alter reach=ok,bad q=200: one of the values of v, a, c, q, h, d, s, b, bh with one arbitrary octet replaced, inserted or removed at any position, DKIM and ARC
// @unit c09_value reach=ok,bad q=200: every value of up to 4 (quick) / 5 (thorough) octets for one of v, a, c, q, h, d, s
// @unit c09_identity reach=same,sub,bad q=200: every d= of up to 2 (quick) / 3 (thorough) octets against every i= of a local part of 0..1 and a domain of up to 3 / 5 octets (letters, dot, hyphen, @, =, octets 0x80..0xff through quoted-printable)
// @unit c09_from reach=ok,bad q=200: every h= value of "to:" plus 4 / 5 octets, and "frox" with any octet replaced and any separator around it
// @unit c09_canon reach=ok,bad: every combination of header and body canonicalization names (known, unknown, empty, other case), with and without slash
// @unit c09_name reach=arc,dkim: field names in every letter case and with one octet replaced: the kind follows from the name
// @unit c09_long reach=ok,bad q=200: d=, s=, i= (local part or sub-domain), h= (one long or many names, from first or last), b=, bh= or an unknown tag of 30..1025 (h=, b= and the unknown tag: quick 2050, thorough 8194) and 12000 octets ending in an arbitrary octet, DKIM and ARC
// @unit c09_twice reach=ok,bad q=100: one of eight fields (malformed ones included) parsed first by another object, DKIM or ARC, then a field with one arbitrary octet at any place
// @unit c09_query reach=ok,bad q=100: every q= list of 0..3 items (dns/txt, other methods, other case, with options, empty, white space around, one with an arbitrary last octet), with or without a final colon, DKIM and ARC
#include "sigref.hpp"
using namespace DKIM;
struct T { const char* n; const char* v; };
static T TAGS[] = {{"v", "1"}, {"a", "rsa-sha256"}, {"b", "QUJD"}, {"bh", "REVG"}, {"c", "relaxed/simple"}, {"d", "Ex.org"}, {"h", "To : fRom"}, {"i", "u@b.ex.ORG"}, {"l", "12"}, {"q", "dns/txt"}, {"s", "sEl"}, {"x", "1600000000"}};
static const char* NAME[] = {"DKIM-Signature", "ARC-Message-Signature"};
static std::string field(bool arc, unsigned mask, bool rev, const char* tag, const std::string& val) {
	std::string f; for (int k = 0; k < 12; k++) { int j = rev ? 11 - k : k; if (!(mask >> j & 1)) continue; std::string n = TAGS[j].n; std::string v = tag && n == tag ? val : (arc && n == "i") ? "7" : TAGS[j].v; f += " " + n + "=" + v + ";"; } return f;
}
static bool go(bool arc, const std::string& f) { Signature s; bool ok = sr::compare(NAME[arc], f, 1600000000, s); sym_reach(ok ? "ok" : "bad"); symObs(ok ? "1" : "0", "ok"); return ok; }
UNIT(c09_present) { bool arc = sym_range(0, 1, "arc"), rev = sym_range(0, 1, "rev"); unsigned m = 0; for (int k = 0; k < 12; k++) m |= (unsigned)sym_range(0, 1, "tag") << k; go(arc, field(arc, m, rev, nullptr, "")); }
UNIT(c09_alter) {
	static const int W[] = {0, 1, 4, 9, 6, 5, 10, 2, 3}; bool arc = sym_range(0, 1, "arc"); const T& t = TAGS[W[sym_range(0, 8, "tag")]]; std::string v = t.v; int op = sym_range(0, 2, "op"); size_t p = (size_t)sym_range(0, op == 1 ? (int64_t)v.size() : (int64_t)v.size() - 1, "p"); char c = 0; if (op < 2) { sym_bytes(&c, 1, "c"); sym_assume(c != '\n'); }
	if (op == 0) v[p] = c; else if (op == 1) v.insert(p, 1, c); else v.erase(p, 1); go(arc, field(arc, 0xfff & ~0x80u, false, t.n, v) + (arc ? " i=7" : ""));
}
UNIT(c09_value) {
	static const int W[] = {0, 1, 4, 9, 6, 5, 10}; const T& t = TAGS[W[sym_range(0, 6, "tag")]]; size_t n = sym_range(0, BND(4, 5), "n"); std::string v = symStr(n, "v"); for (char c : v) sym_assume(c != '\n'); if (t.n[0] == 'h') v = "from:" + v; go(false, field(false, 0x6f, false, t.n, v) + " q=dns/txt; s=x");
}
UNIT(c09_identity) {
	size_t dn = sym_range(0, BND(2, 3), "dn"), n = sym_range(0, BND(3, 5), "n"), ln = sym_range(0, 1, "ln"); bool esc = sym_range(0, 1, "esc"); std::string d = symStr(dn, "d"), i = symStr(n, "i"), l = symStr(ln, "l");
	for (char c : d) sym_assume((c >= 'A' && c <= 'C') || (c >= 'a' && c <= 'c') || c == '.' || c == '-' || c == '@'); for (char c : i) sym_assume((c >= 'A' && c <= 'C') || (c >= 'a' && c <= 'c') || c == '.' || c == '-' || c == '@' || c == '='); for (char c : l) sym_assume(c > ' ' && c < 0x7f && c != ';');
	std::string v = l + "@" + i; if (esc) v = l + "=FF=40" + i; Signature s; std::string f = " v=1; a=rsa-sha256; b=QUJD; bh=QUJD; h=from; s=s; d=" + d + "; i=" + v; bool ok = sr::compare(NAME[0], f, 0, s); if (ok) sym_reach(s.GetMailDomain() == s.GetDomain() ? "same" : "sub"); else sym_reach("bad"); 
}
UNIT(c09_from) {
	bool full = sym_range(0, 1, "full"); std::string v; if (full) { v = "From"; int p = sym_range(0, 3, "p"); char c; sym_bytes(&c, 1, "c"); sym_assume(c != '\n'); v[(size_t)p] = c; char x[2]; sym_bytes(x, 2, "x"); sym_assume(x[0] != '\n' && x[1] != '\n'); v = "to" + std::string(1, x[0]) + v + std::string(1, x[1]) + "cc"; }
	else { v = symStr(BND(4, 5), "v"); for (char c : v) sym_assume(c != '\n'); v = "to:" + v; } go(false, field(false, 0xfff, true, "h", v));
}
UNIT(c09_canon) {
	static const char* C[] = {"simple", "relaxed", "", "Simple", "relaxed ", "simple/", "nowsp"}; bool arc = sym_range(0, 1, "arc"), slash = sym_range(0, 1, "slash"); std::string v = C[sym_range(0, 6, "h")]; if (slash) v += std::string("/") + C[sym_range(0, 6, "b")]; go(arc, field(arc, 0xfff, false, "c", v));
}
UNIT(c09_name) {
	bool arc = sym_range(0, 1, "arc"); std::string n = NAME[arc]; int p = sym_range(0, (int64_t)n.size() - 1, "p"); char c; sym_bytes(&c, 1, "c"); sym_assume(c != '\n' && c != ':' && c != '\r' && c != ' ' && c != '\t'); n[(size_t)p] = c; bool hasv = sym_range(0, 1, "v"); Signature s;
	bool ok = sr::compare(n, field(true, hasv ? 0xfff : 0xffe, false, nullptr, ""), 0, s); if (ok) sym_reach(s.IsARC() ? "arc" : "dkim"); else { Signature t; ok = sr::compare(n, field(false, hasv ? 0xfff : 0xffe, false, nullptr, ""), 0, t); if (ok) sym_reach(t.IsARC() ? "arc" : "dkim"); }
}
UNIT(c09_long) {
	bool arc = sym_range(0, 1, "arc"); int k = sym_range(0, 9, "kind"); size_t n = symLen(k >= 5 ? BND(2048, 8192) : 1024, 2, 12000); char c; sym_bytes(&c, 1, "c"); sym_assume(c != '\n'); static const char* P[] = {"d", "s", "i", "i", "h", "h", "h", "b", "bh", "zz"}; std::string v, d = "ex.org";
	if (k == 0) { v = symRep("label.", n - 1) + c; d = v; } if (k == 1) v = symRep("sel.", n - 1) + c; if (k == 2) v = symRep("u", n) + c + "@" + d; if (k == 3) v = "@" + symRep("sub.", n) + c + "." + d; if (k == 4) v = symRep("x", n) + c + ":from"; if (k == 5) v = symRep("to:cc:", n) + "FroM" + c; if (k == 6) v = "from:" + symRep("to:cc:", n) + "bcc" + c; if (k == 7 || k == 8) v = symRep("QUJD", n / 4 * 4) + "QUJ" + c; if (k == 9) v = symRep("any;thing", 1) + "=" + symRep("text ", n) + c;
	std::string f; for (int j = 0; j < 12; j++) { std::string t = TAGS[j].n; if (t == P[k]) f += " " + t + "=" + v + ";"; else if (t == "i") f += arc ? " i=7;" : k == 0 ? "" : " i=u@b." + d + ";"; else if (t == "d") f += " d=" + d + ";"; else f += " " + t + "=" + TAGS[j].v + ";"; } if (k == 9) f += " zz=" + symRep("text ", n) + c; sym_assume(!arc || (k != 2 && k != 3)); go(arc, f);
}
UNIT(c09_twice) {
	static const char* F[] = {"", " v=1", " v=1; a=rsa-sha1; b=QQ==; bh=QQ==; d=a.b; h=from; s=x; l=5; i=u@a.b", " v=1; a=ed25519-sha256; c=relaxed/relaxed; b=QQ==; bh=QQ==; d=z; h=from:to; s=x; x=1", " i=51; a=rsa-sha256; b=Q; bh=Q; d=a; h=from; s=x", " v=1; a=rsa-sha256; b=Q; bh=Q; d=a; h=to; s=x", " =", " v=1; a=rsa-sha256; c=relaxed; b=QQ==; bh=QQ==; d=a; h=from; s=x; i=no"}; bool arc1 = sym_range(0, 1, "arc1"), arc = sym_range(0, 1, "arc"); { auto h = sr::header(std::string(NAME[arc1]) + ":" + F[sym_range(0, 7, "first")]); Signature s; try { if (h) s.Parse(h); } catch (PermanentError&) {} }
	bool few = sym_range(0, 1, "few"); std::string f = field(arc, few ? 0x46f : 0xfff, false, nullptr, "") + (few && arc ? " i=7" : ""); size_t p = (size_t)sym_range(0, (int64_t)f.size() - 1, "p"); char c; sym_bytes(&c, 1, "c"); sym_assume(c != '\n'); f[p] = c; go(arc, f);
}
UNIT(c09_query) {
	static const char* Q[] = {"dns/txt", "dns", "DNS/TXT", "dns/txt/x", "http/well-known", "", " dns/txt\t", "x\r\n dns/txt"}; bool arc = sym_range(0, 1, "arc"), end = sym_range(0, 1, "end"); int n = sym_range(0, 3, "n"); std::string v, w = symStr(1, "w"); sym_assume(w[0] != '\n'); for (int i = 0; i < n; i++) { int k = sym_range(0, 8, "item"); v += (i ? ":" : "") + (k == 8 ? "dns/tx" + w : std::string(Q[k])); } if (end) v += ":"; go(arc, field(arc, 0xfff, false, "q", v));
}
