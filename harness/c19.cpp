// C19 colon separated lists
// @unit c19_list reach=ok,throw,two,inner,none: every input of up to 6 (quick) / 8 (thorough) octets, against a reference splitter
// @unit c19_long reach=ok: lists of 40 one-letter items with 3 arbitrary octets in the middle
// @unit c19_fold reach=ok,throw,two,inner,none q=200: every sequence of up to 6 (quick) / 7 (thorough) pieces out of letter, arbitrary octet, colon, space, tab and fold (line break with white space behind), so several folds in a row inside, in front of and behind items
// @unit c19_size reach=ok,throw,two q=200: lists of 30..514 (quick) / 30..1026 (thorough) and 5000 items, an item and white space of that many octets before, behind and inside an item, with an arbitrary octet behind
// @unit c19_twice reach=ok,throw q=100: one of seven lists (malformed ones included) split first, then every list of up to 4 / 5 octets
// @assume CRLF not followed by white space and line feeds outside CRLF do not occur (tag values never contain the first; the second is kept as content either way)
#include "ref.hpp"
#include "src/Tokenizer.hpp"
#include "src/Exception.hpp"
using namespace DKIM;
static bool want(const std::string& s, std::vector<std::string>& out) {
	std::vector<std::string> parts(1); for (char c : s) if (c == ':') parts.emplace_back(); else parts.back() += c;
	for (size_t i = 0; i < parts.size(); i++) { std::string p = ref::strip(parts[i], ref::fwsc); if (p.empty()) { if (i + 1 == parts.size()) break; return false; } out.push_back(p); }
	return true;
}
static void one(const std::string& s) {
	for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r') sym_assume(i + 2 < s.size() && s[i + 1] == '\n' && ref::wsp(s[i + 2])); if (s[i] == '\n') sym_assume(i > 0 && s[i - 1] == '\r'); }
	std::vector<std::string> w; bool rok = want(s, w), ok = false; std::list<std::string> l;
	try { l = Tokenizer::ValueList(s); ok = true; } catch (PermanentError&) { sym_reach("throw"); }
	CHECK(ok == rok, "a list is rejected exactly for an empty item"); if (!ok) return;
	sym_reach("ok"); CHECK(l.size() == w.size(), "number of items"); size_t i = 0; for (auto& x : l) { CHECK(x == w[i], "item text"); symObs(x, "item"); for (char c : x) if (ref::fwsc(c)) sym_reach("inner"); i++; }
	if (w.size() > 1) sym_reach("two"); if (w.empty()) sym_reach("none");
}
UNIT(c19_list) { size_t n = sym_range(0, BND(6, 8), "n"); one(symStr(n, "s")); }
UNIT(c19_long) { std::string a; for (int i = 0; i < 20; i++) { a += (char)('a' + i); a += ':'; } one(a + symStr(3, "s") + ":" + a); }
UNIT(c19_fold) { static const char* P[] = {"a", ":", " ", "\r\n ", "\r\n\t", ""}; int n = sym_range(0, BND(6, 7), "n"); bool any = false; std::string s; for (int i = 0; i < n; i++) { int k = sym_range(0, 5, "p"); if (k == 5) { if (any) { s += '\t'; continue; } any = true; char c; sym_bytes(&c, 1, "c"); sym_assume(c != '\r' && c != '\n'); s += c; } else s += P[k]; } one(s); }
UNIT(c19_size) {
	int k = sym_range(0, 4, "kind"); size_t n = symLen(BND(512, 1024), 2, 5000); std::string w = symStr(1, "w"), s; if (k == 0) s = symRep("ab:", n * 3) + w; if (k == 1) s = "x:" + symRep("item", n) + w + ":y"; if (k == 2) s = "x:" + symRep(" ", n) + w + ":y"; if (k == 3) s = "x:a" + symRep("\t", n) + w + ":y"; if (k == 4) { s = "a"; for (size_t i = 0; i < n / 4; i++) s += "\r\n "; s += w + ":b"; } one(s);
}
UNIT(c19_twice) { static const char* F[] = {"", "a", "a:b", ":", "a::b", "a :", "\r"}; try { Tokenizer::ValueList(F[sym_range(0, 6, "first")]); } catch (PermanentError&) {} size_t n = sym_range(0, BND(4, 5), "n"); one(symStr(n, "s")); }
