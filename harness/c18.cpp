// C18 address lists
// @unit c18_any reach=ok,throw q=300: every input of up to 5 (quick) / 6 (thorough) octets: rejected exactly when a quote, comment, escape or angle bracket is unterminated, a NUL or a carriage return without line feed occurs
// @unit c18_specials reach=ok,throw q=300: every input of up to 7 / 8 octets out of " ( ) < > , \ @ a
// @unit c18_quoted reach=one q=300: "quoted" <u@d> with every quoted string of up to 3 / 4 octets, quotes and backslashes escaped, plus any quoted-pair; the quoted string before, between or behind atoms
// @unit c18_comment reach=one q=300: comments of every well-formed content of up to 4 / 5 octets (nested, escaped) in front of the name, before, inside and behind the angle brackets
// @unit c18_comment2 reach=one q=300: comments of up to 6 / 8 octets out of ( ) \ " < > , a
// @unit c18_local reach=one q=300: <"quoted"@d> with every quoted string of up to 3 / 4 octets
// @unit c18_bare reach=one q=300: bare addresses of up to 4 / 5 arbitrary octets other than specials, with comments and white space at any place
// @unit c18_list reach=one,three,none q=300: every list of up to 3 / 4 items out of nine forms with either separator
// @unit c18_long reach=one,many q=200: display names, quoted strings, comments (long and deeply nested), local parts and domains of 30..1026 and 5000 octets ending in an arbitrary octet, and lists of up to 130 (quick) / 514 (thorough) and 2000 addresses
// @unit c18_twice reach=ok,throw q=100: one of nine lists (malformed ones included) parsed first, then every list of up to 3 / 4 octets
// @assume an item which is nothing but a quoted string is read as a list of its own (intended) and is judged only for errors; text behind a closing angle bracket of the last item is not judged; nor are a bare carriage return directly behind white space and a bare address with inner white space or comments in front of a separator
#include "ref.hpp"
#include "src/Tokenizer.hpp"
#include "src/Exception.hpp"
using namespace DKIM;
static bool special(char c) { return c == '"' || c == '(' || c == ')' || c == '<' || c == '>' || c == ',' || c == ';' || c == '\\' || ref::fwsc(c) || c == 0; }
// end of the comment starting at i, npos: unterminated
static size_t comment(const std::string& s, size_t i, bool& nul) { int depth = 0; for (; i < s.size(); i++) { if (s[i] == 0) nul = true; if (s[i] == '\\') { i++; if (i < s.size() && s[i] == 0) nul = true; continue; } if (s[i] == '(') depth++; if (s[i] == ')' && --depth == 0) return i + 1; } return std::string::npos; }
static bool error(const std::string& s, bool& lone) {
	bool open = false, nul = false; size_t i = 0; int toks = 0; bool lastQ = false; lone = false; auto end = [&]() { if (toks == 1 && lastQ) lone = true; toks = 0; };
	while (i < s.size()) {
		char c = s[i]; if (c == 0) return true;
		if (c == '"') { i++; while (true) { if (i >= s.size()) return true; if (s[i] == 0) return true; if (s[i] == '\\') { if (i + 1 >= s.size() || s[i + 1] == 0) return true; i += 2; continue; } if (s[i] == '"') { i++; break; } i++; } toks++; lastQ = true; continue; }
		if (c == '(') { i = comment(s, i, nul); if (i == std::string::npos || nul) return true; lastQ = false; continue; }
		if (c == '<') { open = true; toks = 0; lastQ = false; i++; continue; } if (c == '>') { end(); open = false; i++; continue; } if (c == ',' || c == ';') { if (open) return true; end(); lastQ = false; i++; continue; }
		if (c == '\r' && (i + 1 >= s.size() || s[i + 1] != '\n')) return true; if (!ref::fwsc(c)) { toks += 1; lastQ = false; } i++;
	}
	end(); return open;
}
static bool parse(const std::string& s, std::vector<std::string>& r) { try { for (auto& x : Tokenizer::ParseAddressList(s)) r.push_back(x); return true; } catch (PermanentError&) { return false; } }
static void folded(const std::string& s) { for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '\r' && s[i + 1] == '\n') sym_assume(i + 2 < s.size() && ref::wsp(s[i + 2])); }
static void any(const std::string& s) { folded(s); for (size_t i = 1; i < s.size(); i++) if (s[i] == '\r' && (i + 1 >= s.size() || s[i + 1] != '\n')) sym_assume(!ref::fwsc(s[i - 1])); bool lone, bad = error(s, lone); std::vector<std::string> r; bool ok = parse(s, r); sym_reach(ok ? "ok" : "throw"); if (bad) CHECK(!ok, "a malformed list is rejected"); else if (!lone) CHECK(ok, "a well-formed list is accepted"); symObs(ok ? "1" : "0", "ok"); for (auto& x : r) symObs(x, "addr"); }
UNIT(c18_any) { size_t n = sym_range(0, BND(5, 6), "n"); any(symStr(n, "s")); }
UNIT(c18_specials) { static const char C[] = "\"()<>,\\@a"; size_t n = sym_range(0, BND(7, 8), "n"); std::string s = symStr(n, "s"); for (char c : s) { bool in = false; for (int k = 0; k < 9; k++) in |= c == C[k]; sym_assume(in); } any(s); }
static void expect(const std::string& s, const std::vector<std::string>& w) { folded(s); std::vector<std::string> r; bool ok = parse(s, r); CHECK(ok, "a well-formed list is accepted"); if (!ok) return; CHECK(r.size() == w.size(), "number of addresses"); for (size_t i = 0; i < r.size() && i < w.size(); i++) { CHECK(r[i].size() == w[i].size(), "address length"); CHECK(r[i] == w[i], "address"); } sym_reach(w.empty() ? "none" : w.size() == 1 ? "one" : "three"); }
// a quoted string of n arbitrary octets; content receives what it stands for
static std::string quoted(size_t n, std::string& content) { std::string q = "\""; content = symStr(n, "q"); int esc = sym_range(-1, (int64_t)n - 1, "esc"); for (size_t i = 0; i < n; i++) { sym_assume(content[i] != 0); if ((int)i == esc) q += '\\'; else if (content[i] == '"' || content[i] == '\\') q += '\\'; q += content[i]; } return q + "\""; }
UNIT(c18_quoted) { std::string c, q = quoted((size_t)sym_range(0, BND(3, 4), "n"), c); int w = sym_range(0, 4, "where"); static const char* P[] = {"", "A ", "A", "\"x,y@z\"", "(c)"}; static const char* S[] = {"", " B ", "B", "\"<e@f>\"", " (d) "}; expect(P[w] + q + S[w] + (w & 1 ? "<u@d>" : " <u@d>") + (w == 4 ? " (e)" : ""), {"u@d"}); }
static void inComment(const std::string& c) {
	std::string k = "(" + c + ")"; bool nul = false; size_t e = comment(k, 0, nul); sym_assume(e == k.size() && !nul); int w = sym_range(0, 5, "where");
	if (w == 0) expect(k + " A <u@d>", {"u@d"}); if (w == 1) expect("A " + k + "<u@d>", {"u@d"}); if (w == 2) expect("A <u" + k + "@d>", {"u@d"}); if (w == 3) expect("A <u@d>" + k, {"u@d"}); if (w == 4) expect("u@d" + k, {"u@d"}); if (w == 5) expect(k + "u@d", {"u@d"});
}
UNIT(c18_comment) { size_t n = sym_range(0, BND(4, 5), "n"); inComment(symStr(n, "c")); }
UNIT(c18_comment2) { static const char C[] = "()\\\"<>,a"; size_t n = sym_range(0, BND(6, 8), "n"); std::string s = symStr(n, "c"); for (char c : s) { bool in = false; for (int k = 0; k < 8; k++) in |= c == C[k]; sym_assume(in); } inComment(s); }
UNIT(c18_local) { std::string c, q = quoted((size_t)sym_range(0, BND(3, 4), "n"), c); bool sp = sym_range(0, 1, "sp"); expect(std::string(sp ? "N < (x) " : "<") + q + (sp ? " @ d>" : "@d>"), {c + "@d"}); }
UNIT(c18_bare) {
	size_t n = sym_range(1, BND(4, 5), "n"); std::string a = symStr(n, "a"), s; for (char c : a) sym_assume(!special(c)); std::string full = a + "@" + a; size_t at = (size_t)sym_range(0, (int64_t)full.size(), "at"); static const char* W[] = {"", " ", "\t\r\n ", "(x@y)", " (a (b\\)) c) ", "()"}; s = full; int w = sym_range(0, 5, "w"); s.insert(at, W[w]); bool sep = sym_range(0, 1, "sep"); sym_assume(!sep || !w || at == 0); expect(s + (sep ? "," : ""), {full});
}
UNIT(c18_list) {
	static const char* I[] = {"a@b", "N <c@d>", "\"x, <y@z>\" <e@f>", "(g@h) i@j", "<k@l> (m, n@o)", "\"p\"@q", "Foo, Bar <r@s>", "", "(only)"}; static const char* W[] = {"a@b", "c@d", "e@f", "i@j", "k@l", "p@q", "r@s", "", ""};
	int n = sym_range(0, BND(3, 4), "n"); std::string s; std::vector<std::string> w; for (int i = 0; i < n; i++) { int k = sym_range(0, 8, "item"); if (i) s += sym_range(0, 1, "sep") ? ";" : " , "; s += I[k]; if (*W[k]) w.push_back(W[k]); } expect(s, w);
}
UNIT(c18_long) {
	int k = sym_range(0, 7, "kind"); size_t n = symLen(k == 7 ? BND(128, 512) : 1024, 2, k == 7 ? 2000 : 5000); std::string c = symStr(1, "c"); sym_assume(!special(c[0])); std::string x = symRep("abc", n) + c; if (k == 0) expect(x + " <u@d>", {"u@d"}); if (k == 1) expect("\"" + symRep("a,<b@c> \\\"", n / 10 * 10) + c + "\" <u@d>", {"u@d"}); if (k == 2) expect("(" + symRep("a <b@c> ", n) + c + ") u@d", {"u@d"}); if (k == 3) expect(symRep("(", n) + c + symRep(")", n) + "u@d", {"u@d"}); if (k == 4) expect("N <" + x + "@d>", {x + "@d"}); if (k == 5) expect("u@" + x + ", v@w", {"u@" + x, "v@w"}); if (k == 6) expect("u@d" + symRep(" ", n), {"u@d"});
	if (k == 7) { std::string s; std::vector<std::string> w; for (size_t i = 0; i < n; i++) { if (i) s += ", "; s += "N <a" + ref::num(i) + "@d>"; w.push_back("a" + ref::num(i) + "@d"); } w.push_back("z" + c + "@d"); expect(s + "; z" + c + "@d", w); sym_reach("many"); }
}
UNIT(c18_twice) { static const char* F[] = {"", "a@b", "N <a@b>", "\"x", "(x", "<a", "a\\", "x, y <z>", "\"q\" <a@b>, "}; std::vector<std::string> r; parse(F[sym_range(0, 8, "first")], r); size_t n = sym_range(0, BND(3, 4), "n"); std::string s = symStr(n, "s"); any(s); if (sym_range(0, 1, "plain")) { for (char c : s) sym_assume(!special(c)); if (n) expect("N <" + s + ">", {s}); } }
