// C14 DNS answers
// @unit c14_any reach=true,false,some q=200: every answer of up to 12 header octets (counts arbitrary) plus up to 16 (quick) / 19 (thorough) octets, followed by stale octets in the buffer
// @unit c14_records reach=true,false,two,skip q=200: question plus up to 2 / 3 records, first type arbitrary, up to two character strings of 0..2 arbitrary octets; in the last record rdata length off by -2..2 and string length off by -1..1; whole answer cut short by up to 3 octets
// @unit c14_names reach=true,false q=300: names in question and answer of up to 2 arbitrary labels, pointers and illegal label types
// @unit c14_large reach=full,over q=300: answers of 64 KiB: TXT records of 1, 255, 256, 300 and 60000 octets; reported lengths up to and beyond the buffer
// @unit c14_strings reach=full q=300: two TXT records of up to three character strings each of 0, 1, 127, 128, 254 or 255 octets (quick: one record of up to three, thorough: a second of up to two), arbitrary first and last octets
// @unit c14_many reach=full q=200: 0..300 TXT and other records in one answer, up to 3 questions
// @unit c14_error reach=empty,fail: every value of the resolver's error code, with stale answer octets
// @assume the DNS library is replaced by a model: res_nquery calls the harness, dn_skipname is modelled after glibc (and replays run against glibc)
#include "ref.hpp"
#include "src/Resolver.hpp"
#include <netdb.h>
#include <arpa/nameser.h>
#include <resolv.h>
using DKIM::Util::Resolver;
static std::string ans; static int reported; static int herr; static unsigned char stale; static bool setStale;
extern "C" int sym_dns_hook(void* st, const char*, int, int, unsigned char* a, int len) {
	((res_state)st)->res_h_errno = herr; h_errno = herr; size_t n = ans.size(); CHECK((long)n <= len, "the buffer holds the answer"); for (size_t i = 0; i < n; i++) a[i] = (unsigned char)ans[i]; if (setStale) for (size_t i = n; i < n + 16 && (int)i < len; i++) a[i] = stale; return reported;
}
// reference decoder: 1 well-formed, 0 malformed somewhere (text holds the strings of the records before that), -1 no usable header
static int u16(const std::string& s, size_t p) { return (unsigned char)s[p] << 8 | (unsigned char)s[p + 1]; }
static bool name(const std::string& s, size_t& p) { while (p < s.size()) { unsigned n = (unsigned char)s[p]; if (n == 0) { p++; return true; } if ((n & 0xc0) == 0xc0) { if (p + 2 > s.size()) return false; p += 2; return true; } if (n & 0xc0) return false; p += 1 + n; } return false; }
static int decode(const std::string& s, std::string& text, bool& skipped, int& records) {
	text.clear(); records = 0; skipped = false; if (s.size() < 12) return -1; int qd = u16(s, 4), an = u16(s, 6); size_t p = 12; bool good = true;
	for (int i = 0; i < qd; i++) { if (!name(s, p)) return 0; p += 4; if (p > s.size()) return 0; }
	for (int i = 0; i < an; i++) {
		if (!name(s, p) || p + 10 > s.size()) return 0; int t = u16(s, p), n = u16(s, p + 8); p += 10; if (p + (size_t)n > s.size()) return 0;
		if (t == 16) { records++; size_t e = p + (size_t)n; while (p < e) { size_t l = (unsigned char)s[p]; if (p + 1 + l > e) { good = false; break; } text += s.substr(p + 1, l); p += 1 + l; } p = e; } else { skipped = true; p += (size_t)n; }
	}
	return good;
}
static bool ask(std::string& r) { Resolver v; return v.GetTXT("a", r); }
static void judge() {
	std::string want, got; bool skipped; int recs; int w = decode(ans, want, skipped, recs); reported = (int)ans.size(); herr = 0; bool ok = ask(got); sym_reach(ok ? "true" : "false");
	if (w == 1) CHECK(ok, "a well-formed answer is decoded"); if (ok) { CHECK(got.size() == want.size(), "number of octets returned"); CHECK(got == want, "exactly the character strings of the TXT records are returned"); if (!got.empty()) sym_reach("some"); if (recs > 1) sym_reach("two"); if (skipped && recs) sym_reach("skip"); } symObs(ok ? "1" : "0", "ok"); if (ok) symObs(got, "text");
}
UNIT(c14_any) {
	int h = sym_range(0, 2, "shape"); size_t n = h == 0 ? (size_t)sym_range(0, 11, "short") : 12 + (size_t)sym_range(0, BND(16, 19), "n"); ans = symStr(n, "a"); sym_bytes(&stale, 1, "stale"); setStale = n >= 12;
	if (h == 1) { sym_assume(ans[4] == 0 && ans[5] == 0); } else if (h == 2) { sym_assume(ans[4] == 0 && ans[5] == 1); } judge();
}
static std::string u2(size_t v) { return std::string(1, (char)(v >> 8)) + (char)v; }
UNIT(c14_records) {
	int k = sym_range(0, BND(2, 3), "records"); ans = std::string("\0\0\x81\x80", 4) + u2(1) + u2((size_t)k) + u2(0) + u2(0) + std::string("\1a\0\0\x10\0\1", 7);
	for (int i = 0; i < k; i++) { char t[2] = {0, 16}; if (i == 0) sym_bytes(t, 2, "type"); else if (sym_range(0, 1, "cname")) t[1] = 5; std::string d; int m = sym_range(0, i ? BND(1, 2) : 2, "strings"); bool last = i == k - 1; for (int j = 0; j < m; j++) { size_t l = (size_t)sym_range(0, 2, "l"); int off = last && j == m - 1 ? sym_range(-1, 1, "loff") : 0; d += (char)((int)l + off); d += symStr(l, "txt"); }
		int roff = last ? sym_range(-2, 2, "roff") : 0; if ((int)d.size() + roff < 0) return; ans += std::string("\xc0\x0c", 2) + std::string(t, 2) + u2(1) + std::string(4, '\0') + u2((size_t)((int)d.size() + roff)) + d; }
	size_t cut = (size_t)sym_range(0, 3, "cut"); ans.resize(ans.size() - cut); sym_bytes(&stale, 1, "stale"); setStale = true; judge();
}
static std::string label(int w) { int k = sym_range(0, 5, "label"); static const char* L[] = {"", "\1", "\2x", "\xc0", "\x40", "\x3f"}; std::string s = L[k]; (void)w; if (k) s += symStr(1, "c"); return s; }
UNIT(c14_names) {
	ans = std::string("\0\0\x81\x80", 4) + u2((size_t)sym_range(0, 2, "qd")) + u2(1) + u2(0) + u2(0); std::string a = label(0), b = label(1); ans += a + b; if (sym_range(0, 1, "term")) ans += '\0'; ans += std::string("\0\x10\0\1", 4); std::string c = label(2); ans += c; if (sym_range(0, 1, "term2")) ans += '\0'; ans += std::string("\0\x10\0\1\0\0\0\0\0\2\1z", 12); sym_bytes(&stale, 1, "stale"); setStale = true; judge();
}
UNIT(c14_large) {
	static const size_t N[] = {1, 255, 256, 300, 60000}; size_t n = N[sym_range(0, 4, "n")]; char c; sym_bytes(&c, 1, "c"); std::string t(n, 'x'), d; t[n - 1] = c; t[n / 2] = 'y'; t[0] = c; for (size_t i = 0; i < n; i += 255) { size_t l = std::min((size_t)255, n - i); d += (char)l; d += t.substr(i, l); }
	ans = std::string("\0\0\x81\x80", 4) + u2(1) + u2(1) + u2(0) + u2(0) + std::string("\1a\0\0\x10\0\1", 7) + std::string("\xc0\x0c\0\x10\0\1\0\0\0\0", 10) + u2(d.size()) + d; herr = 0; setStale = false; int over = sym_range(0, 2, "over"); std::string got;
	reported = over == 0 ? (int)ans.size() : over == 1 ? 65537 : 2000000000; bool ok = ask(got); if (over) { sym_reach("over"); CHECK(!ok, "an answer that did not fit is a failure"); return; } sym_reach("full"); CHECK(ok, "a large answer is decoded"); CHECK(got.size() == t.size() && got == t, "the whole text is returned");
}
UNIT(c14_error) {
	ans = std::string("\0\0\x81\x80\0\0\0\1\0\0\0\0\0\0\x10\0\1\0\0\0\0\0\2\1z", 25); setStale = false; herr = sym_range(-2, 300, "herr"); reported = sym_range(-2, -1, "r"); std::string got; bool ok = ask(got); bool empty = herr == HOST_NOT_FOUND || herr == NO_DATA || herr == NO_RECOVERY; CHECK(got.empty(), "no text without an answer"); CHECK(ok == empty, "only transient failures are failures"); sym_reach(ok ? "empty" : "fail");
}

UNIT(c14_strings) {
	static const size_t N[] = {0, 1, 127, 128, 254, 255}; char c[2]; sym_bytes(c, 2, "c"); std::string t, rec; int k = BND(1, 2);
	for (int j = 0; j < k; j++) { std::string d; int m = sym_range(1, j ? 2 : 3, "m"); for (int i = 0; i < m; i++) { size_t n = N[sym_range(0, 5, "n")]; std::string x(n, (char)('a' + i)); if (n) { x[0] = c[0]; x[n - 1] = c[1]; } d += (char)n; d += x; t += x; } rec += std::string("\xc0\x0c\0\x10\0\1\0\0\0\0", 10) + u2(d.size()) + d; }
	ans = std::string("\0\0\x81\x80", 4) + u2(1) + u2((size_t)k) + u2(0) + u2(0) + std::string("\1a\0\0\x10\0\1", 7) + rec; reported = (int)ans.size(); herr = 0; setStale = false; std::string got; bool ok = ask(got); CHECK(ok, "the answer is decoded"); CHECK(got.size() == t.size(), "length of the text"); CHECK(got == t, "the whole text is returned"); sym_reach("full");
}
UNIT(c14_many) {
	static const int N[] = {0, 1, 2, 15, 16, 17, 127, 128, 255, 256, 257, 300}; int n = N[sym_range(0, 11, "n")], q = sym_range(0, 3, "q"), every = sym_range(1, 3, "every"); char c; sym_bytes(&c, 1, "c"); std::string t, rec;
	for (int i = 0; i < n; i++) { bool txt = i % every == 0; rec += std::string("\xc0\x0c\0", 3) + (txt ? '\x10' : '\5') + std::string("\0\1\0\0\0\0\0\3\2", 9) + (char)('a' + i % 26) + c; if (txt) { t += (char)('a' + i % 26); t += c; } }
	ans = std::string("\0\0\x81\x80", 4) + u2((size_t)q) + u2((size_t)n) + u2(0) + u2(0); for (int i = 0; i < q; i++) ans += std::string("\1a\0\0\x10\0\1", 7); ans += rec; reported = (int)ans.size(); herr = 0; setStale = false; std::string got; bool ok = ask(got); CHECK(ok, "the answer is decoded"); CHECK(got.size() == t.size(), "length of the text"); CHECK(got == t, "the whole text is returned"); sym_reach("full");
}
