// C12 a key is used only for the algorithms and identities it permits
// @unit c12_combine reach=pass,hash,type,flag,bad q=300: every signature algorithm x key type x h= (none, sha1, sha256, both, both reversed, with an unknown one) x t= (none, y, s, y:s, s with white space, S) x identity (none, same domain, same in other case, sub-domain) x DKIM/ARC x right key, wrong key, altered signature
// @unit c12_domain reach=pass,flag q=300: flag s with every i= domain of 0..3 / 0..4 octets in front of the signing domain, and letter case of both arbitrary
// @unit c12_flags reach=pass,flag q=300: every t= value of up to 4 / 5 octets with a sub-domain identity
// @unit c12_long reach=pass,flag,hash q=200: t= and h= lists of 30..1025 octets with the deciding item first, last or absent, one arbitrary octet in it; identities and domains of that length
#include "sign.hpp"
using namespace DKIM;
static const std::string MSG = "From: a\nTo: b\n\nbody\n";
static std::string make(int alg, bool arc, const std::string& d, const std::string& i, bool& ok, int which = 1) {
	tk::Foreign f; f.alg = alg; f.which = which; f.names = {"from", "to"}; if (arc) f.name = "ARC-Message-Signature"; f.pre = std::string(arc ? "i=1; " : "v=1; ") + "a=" + tk::ALG[alg] + "; c=relaxed/relaxed; d=" + d + "; s=s; h=from:to; bh=%BH%; " + i; f.hr = f.br = true; return tk::foreign(MSG, f, ok);
}
UNIT(c12_combine) {
	static const char* H[] = {"", "h=sha1; ", "h=sha256; ", "h=sha1:sha256; ", "h=sha256 : sha1; ", "h=x:sha256; "}; static const int HM[] = {3, 1, 2, 3, 3, 2}; static const char* T[] = {"", "t=y; ", "t=s; ", "t=y:s; ", "t= s :y; ", "t=S; "}; static const bool TS[] = {false, false, true, true, true, false};
	static const char* I[] = {"", "i=u@ex.org; ", "i=u@EX.org; ", "i=u@b.ex.org; "}; int alg = sym_range(0, 2, "alg"), h = sym_range(0, 5, "h"), t = sym_range(0, 5, "t"), i = sym_range(0, 3, "i"), bad = sym_range(0, 2, "bad"); bool arc = sym_range(0, 1, "arc"), ked = sym_range(0, 1, "ked"), ok = true;
	if (arc && i) return; std::string f = make(alg, arc, "Ex.Org", I[i], ok, bad == 1 ? 0 : 1), m = MSG; if (bad == 2) m.replace(m.find("To: b"), 5, "To: c");
	int r = tk::verify(f + "\r\n" + m, tk::record(ked, 1, std::string(H[h]) + T[t]), arc ? Validatory::ARC : Validatory::DKIM); bool hashOk = HM[h] & (alg == tk::RSA_SHA1 ? 1 : 2), typeOk = ked == (alg == tk::ED_SHA256), flagOk = arc || !TS[t] || i != 3;
	if (!hashOk) { sym_reach("hash"); CHECK(r == tk::PERM, "a hash the key does not permit is a permanent error"); } else if (!typeOk) { sym_reach("type"); CHECK(r == tk::PERM, "a key of the other type is a permanent error"); } else if (!flagOk) { sym_reach("flag"); CHECK(r == tk::PERM, "flag s with a sub-domain identity is a permanent error"); }
	else if (bad) { sym_reach("bad"); CHECK(r == tk::FAIL, "a permitted key which does not match is a failure"); } else { sym_reach("pass"); CHECK(r == tk::PASS, "a permitted matching key verifies"); }
}
UNIT(c12_domain) {
	size_t n = sym_range(0, BND(3, 4), "n"); std::string p = symStr(n, "p"), c = symStr(4, "case"), d = "ab", e = "ab"; for (char x : p) sym_assume((x >= 'a' && x <= 'c') || x == '.' || x == '-' || x == 'B'); for (int k = 0; k < 4; k++) { char l = k & 1 ? 'b' : 'a'; sym_assume(c[(size_t)k] == l || c[(size_t)k] == l - 32); }
	d[0] = c[0]; d[1] = c[1]; e[0] = c[2]; e[1] = c[3]; bool flag = sym_range(0, 1, "flag"), ok = true; sym_assume(n == 0 || p[n - 1] == '.'); std::string f = make(tk::ED_SHA256, false, d, "i=@" + p + e + "; ", ok);
	int r = tk::verify(f + "\r\n" + MSG, tk::record(true, 1, flag ? "t=s; " : "")); if (flag && n) { sym_reach("flag"); CHECK(r == tk::PERM, "flag s with a sub-domain identity is a permanent error"); } else { sym_reach("pass"); CHECK(r == tk::PASS, "the identity is permitted"); }
}
UNIT(c12_flags) {
	size_t n = sym_range(0, BND(4, 5), "n"); std::string t = symStr(n, "t"); for (char x : t) sym_assume((x > ' ' && x < 0x7f && x != ';') || x == ' '); bool sub = sym_range(0, 1, "sub"), ok = true, s = false, bad = false; std::string f = make(tk::ED_SHA256, false, "ex.org", sub ? "i=@b.ex.org; " : "", ok);
	std::vector<std::string> l(1); for (char x : t) if (x == ':') l.emplace_back(); else l.back() += x; for (size_t k = 0; k < l.size(); k++) { l[k] = ref::strip(l[k], ref::fwsc); if (l[k] == "s") s = true; if (l[k].empty() && k + 1 < l.size()) bad = true; }
	int r = tk::verify(f + "\r\n" + MSG, tk::record(true, 1, "t=" + t + "; ")); if (bad) CHECK(r == tk::PERM, "an empty flag is a permanent error"); else if (s && sub) { sym_reach("flag"); CHECK(r == tk::PERM, "flag s with a sub-domain identity is a permanent error"); } else { sym_reach("pass"); CHECK(r == tk::PASS, "other flags do not matter"); }
}
UNIT(c12_long) {
	int k = sym_range(0, 3, "kind"), pos = sym_range(0, 2, "pos"); bool sub = sym_range(0, 1, "sub"), ok = true; size_t n = symLen(1024, 2); char c; sym_bytes(&c, 1, "c"); sym_assume((c > ' ') & (c < 127) & (c != ';') & (c != ':')); std::string C(1, c), d = "ex.org", i = sub ? "i=@b.ex.org; " : "", x; bool flag = false, hash = true;
	if (k == 0) { x = "t=" + (pos == 0 ? C + ":" : std::string()) + symRep("y:", n / 2 * 2) + (pos == 1 ? C : "y") + "; "; flag = pos < 2 && c == 's'; } if (k == 1) { std::string it = "sha25" + C; x = "h=" + (pos == 0 ? it + ":" : std::string()) + symRep("x:", n / 2 * 2) + (pos == 1 ? it : pos == 2 ? "sha1" : "x") + "; "; hash = pos < 2 && c == '6'; } if (k == 2) { d = symRep("sub.", n / 4 * 4) + "org"; i = sub ? "i=@a." + d + "; " : "i=u@" + d + "; "; x = pos ? "t=s; " : ""; flag = pos > 0; } if (k == 3) { sym_assume(c != '=' && c != '@'); i = "i=" + symRep("u", n) + C + "@" + (sub ? "b." : "") + d + "; "; x = pos ? "t=s; " : ""; flag = pos > 0; }
	std::string f = make(tk::ED_SHA256, false, d, i, ok); int r = tk::verify(f + "\r\n" + MSG, tk::record(true, 1, x)); if (!hash) { sym_reach("hash"); CHECK(r == tk::PERM, "a hash the key does not permit is a permanent error"); } else if (flag && sub) { sym_reach("flag"); CHECK(r == tk::PERM, "flag s with a sub-domain identity is a permanent error"); } else { sym_reach("pass"); CHECK(r == tk::PASS, "a permitted use verifies"); }
}
