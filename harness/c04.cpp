// C04 body canonicalization
// @unit c04_small reach=simple,relaxed,empty,absent: every body of up to 6 (quick) / 8 (thorough) octets, both modes, body offset 0 and 3, absent body; against a reference canonicalizer
// @unit c04_buffer reach=simple,relaxed: every 5 (quick) / 6 (thorough) octets ending 0..5 positions past a multiple of the 8096 octet read buffer, at offset 0 and 7, both modes
// @unit c04_second reach=simple,relaxed: as c04_buffer with pending blank lines and white space running from one buffer into the next (runs of 8096+k equal octets)
// @unit c04_long reach=simple,relaxed q=200: an arbitrary octet, then 30..65537 octets repeating one of nine patterns (letters, line ends, white space and mixtures), then two arbitrary octets; both modes
// @unit c04_twice reach=simple,relaxed q=100: one of ten bodies (open lines, trailing white space and blank lines, bare carriage returns, more than a buffer) canonicalized first, in either mode, then every body of up to 3 / 4 octets in either mode
// @assume octets before the window in c04_buffer are letters; runs in c04_second consist of one octet class; other long bodies are outside the bound
#include "ref.hpp"
#include "src/Canonicalization.hpp"
#include "src/Exception.hpp"
#include <sstream>
using namespace DKIM;
static std::string run(const std::string& msg, bool relaxed, long off, bool& ret) {
	std::stringstream st(msg); std::string out;
	ret = Conversion::CanonicalizationBody(st, relaxed ? DKIM_C_RELAXED : DKIM_C_SIMPLE, off, false, 0, [&](const char* p, size_t n) { out.append(p, n); });
	return out;
}
static void one(const std::string& pre, const std::string& b, bool relaxed, bool obs) {
	bool ret; std::string out = run(pre + b, relaxed, (long)pre.size(), ret), want = ref::body(b, relaxed);
	if (obs) symObs(out, "out"); else { std::string t = out.size() > 24 ? out.substr(out.size() - 24) : out; symObs(t, "tail"); }
	CHECK(ret, "unlimited canonicalization reports completeness");
	CHECK(out.size() == want.size(), "canonical body has the RFC length");
	CHECK(out == want, "canonical body has the RFC content");
	sym_reach(relaxed ? "relaxed" : "simple"); if (want.empty()) sym_reach("empty");
}
UNIT(c04_small) {
	bool relaxed = sym_range(0, 1, "mode"); long where = sym_range(0, 2, "where");
	if (where == 2) { bool ret; std::string out = run("a:b", relaxed, -1, ret); sym_reach("absent"); CHECK(ret && out == ref::body("", relaxed), "absent body is canonicalized like an empty one"); return; }
	size_t n = sym_range(0, BND(6, 8), "n"); std::string b = symStr(n, "b");
	one(where ? "a\n\n" : "", b, relaxed, true);
}
UNIT(c04_buffer) {
	bool relaxed = sym_range(0, 1, "mode"); bool off = sym_range(0, 1, "off"); int mult = BND(1, sym_range(1, 2, "mult")); int pos = sym_range(0, 5, "pos");
	const size_t N = BND(5, 6); std::string w = symStr(N, "w");
	std::string b(8096 * mult + pos - N, 'x'); one(off ? "a:bcd\n\n" : "", b + w, relaxed, false);
}
UNIT(c04_second) {
	bool relaxed = sym_range(0, 1, "mode"); const char fill[] = {'\n', ' ', '\t', '\r'}; char f = fill[sym_range(0, 3, "fill")]; int pos = sym_range(-3, 2, "pos");
	std::string a = symStr(2, "a"), w = symStr(2, "w"); one("", a + std::string(8096 + pos - 2, f) + w, relaxed, false);
}
UNIT(c04_long) {
	static const char* F[] = {"\n", " ", "\t", "\r", "\r\n", "x\n", "x ", "x", " \n"}; bool relaxed = sym_range(0, 1, "mode"); int f = sym_range(0, 8, "fill"); std::string a = symStr(1, "a"), w = symStr(2, "w"); one("", a + symRep(F[f], symLen(f < 3 || f == 4 ? 65536 : BND(1024, 65536), BND(1, 2))) + w, relaxed, false);
}
UNIT(c04_twice) {
	static const char* F[] = {"", "x", "x ", "\n\n", "x\n \n", "a\r", "\r\n", " ", "x\r\n\r\n", nullptr}; int f = sym_range(0, 9, "first"); bool m = sym_range(0, 1, "mode1"), relaxed = sym_range(0, 1, "mode"), ret; run(f == 9 ? std::string(8095, 'x') + " \r\n " : F[f], m, 0, ret); size_t n = sym_range(0, BND(3, 4), "n"); one("", symStr(n, "b"), relaxed, true);
}
