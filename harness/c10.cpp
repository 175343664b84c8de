// C10 numeric signature tags are exact decimals, independent of process state
// @unit c10_l reach=ok,bad q=200: every l= value of up to 3 (quick) / 4 (thorough) octets, DKIM and ARC, errno preset to 0, ERANGE and EINVAL
// @unit c10_size reach=ok,bad q=200: l= values of 17..21, 75, 76, 77 and 78 digits around 2^63 and 2^64, with 3 / 4 arbitrary octets at the end or in the middle, leading zeros, errno preset
// @unit c10_instance reach=ok,bad q=200: every ARC i= value of up to 3 octets, with errno preset
// @unit c10_expiry reach=ok,bad q=200: every x= value of up to 3 / 4 octets, and 1600000000 with 4 / 6 arbitrary octets at its end, against a clock of 1600000000 plus or minus 2
// @unit c10_history reach=twice: parsing the same field before and after a field whose l= overflows gives the same outcome
#include "sigref.hpp"
#include <cerrno>
using namespace DKIM;
static const char* BASE = " v=1; a=rsa-sha256; d=ex.org; s=s; h=from; bh=QUJD; b=QUJD; ";
static void preset() { static const int E[] = {0, ERANGE, EINVAL}; errno = E[sym_range(0, 2, "errno")]; }
static void outcome(bool ok) { sym_reach(ok ? "ok" : "bad"); symObs(ok ? "1" : "0", "ok"); }
UNIT(c10_l) {
	bool arc = sym_range(0, 1, "arc"); size_t n = sym_range(0, BND(3, 4), "n"); std::string v = symStr(n, "v"); Signature s; for (char c : v) sym_assume(c != '\n'); preset();
	outcome(sr::compare(arc ? "ARC-Message-Signature" : "DKIM-Signature", std::string(BASE) + (arc ? "i=1; " : "") + "l=" + v, 0, s));
}
UNIT(c10_size) {
	static const char* P[] = {"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "00009223372036854775807", "12345678901234567", "100000000000000000000000", ""}; const size_t K = BND(2, 3);
	int p = sym_range(0, 7, "p"), pad = p == 7 ? sym_range(75, 78, "pad") : 0; std::string d = p == 7 ? std::string((size_t)pad, '0') : P[p], w = symStr(K, "w"); bool mid = sym_range(0, 1, "mid"); for (char c : w) sym_assume(c != '\n');
	d.replace(mid ? d.size() / 2 : d.size() - K, K, w); Signature s; preset(); outcome(sr::compare("DKIM-Signature", std::string(BASE) + "l=" + d + ";", 0, s));
}
UNIT(c10_instance) {
	size_t n = sym_range(0, 3, "n"); std::string v = symStr(n, "v"); for (char c : v) sym_assume(c != '\n'); Signature s; preset(); outcome(sr::compare("ARC-Message-Signature", std::string(BASE) + "i=" + v + ";", 0, s));
}
UNIT(c10_expiry) {
	bool sfx = sym_range(0, 1, "sfx"); int now = sym_range(-2, 2, "now"); size_t n = sfx ? BND(3, 5) : (size_t)sym_range(0, BND(3, 4), "n"); std::string v = symStr(n, "v"); for (char c : v) sym_assume(c != '\n'); if (sfx) v = std::string("1600000000").substr(0, 10 - n) + v; 
	sym_set_time(1600000000 + now); Signature s; preset(); outcome(sr::compare("DKIM-Signature", std::string(BASE) + "x=" + v, 1600000000 + now, s));
}
UNIT(c10_history) {
	static const char* L[] = {"l=99999999999999999999999", "x=99999999999999999999999", "l=-99999999999999999999999", "l=", "x=abc"}; std::string other = L[sym_range(0, 4, "o")]; size_t n = sym_range(0, 2, "n"); std::string v = symStr(n, "v"); for (char c : v) sym_assume(c != '\n'); std::string f = std::string(BASE) + "l=" + v;
	auto run = [&](const std::string& val) { Signature s; try { s.Parse(sr::header("DKIM-Signature:" + val)); return s.GetBodySizeLimit() ? (long)s.GetBodySize() : -1; } catch (PermanentError&) { return -2l; } }; errno = 0;
	long a = run(f); run(std::string(BASE) + other); long b = run(f); CHECK(a == b, "an earlier field does not change the outcome"); sym_reach("twice");
}
