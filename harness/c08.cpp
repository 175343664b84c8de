// C08 tag lists
// @unit c08_parse reach=ok,throw,two,inner,empty: every input of up to 6 (quick) / 7 (thorough) octets, against a reference parser
// @unit c08_tail reach=ok,throw,two: "a=1;" + up to 5 (quick) / 6 (thorough) octets, incl. duplicates, every tag reported absent or present
// @unit c08_long reach=ok,throw,inner,two q=200 steps=600000000: a tag whose value or name has 30..8193 octets (letters, words, folds) or is preceded by as much white space, with an arbitrary octet in front and behind, and lists of up to 258 (quick) / 1025 (thorough) and 2000 tags with two arbitrary octets in the last name
// @unit c08_twice reach=ok,throw q=100: one of eight lists (malformed ones included) parsed first by another object, then every list of up to 4 / 5 octets
#include "ref.hpp"
#include "src/TagList.hpp"
#include "src/Exception.hpp"
using namespace DKIM;
static void one(const std::string& s) {
	TagList l; bool ok = false; std::vector<ref::Tag> want; bool rok = ref::tags(s, want);
	try { l.Parse(s); ok = true; } catch (PermanentError&) { sym_reach("throw"); }
	CHECK(ok == rok, "a tag list is accepted exactly by the grammar");
	if (!ok) return;
	sym_reach("ok"); size_t n = 0; for (auto i = l.cbegin(); i != l.cend(); ++i) n++;
	CHECK(n == want.size(), "exactly the tags of the list are reported");
	for (auto& t : want) {
		TagListEntry e; bool got = l.GetTag(t.n, e); CHECK(got, "every tag is reported"); if (!got) continue;
		CHECK(e.GetValue() == t.v, "tag value without surrounding and with inner white space"); symObs(e.GetValue(), "v");
		if (!t.v.empty()) CHECK((size_t)e.GetValueOffset() == t.off, "tag value offset"); else sym_reach("empty");
		for (char c : t.v) if (ref::fwsc(c)) sym_reach("inner");
	}
	if (want.size() > 1) sym_reach("two");
	TagListEntry e; const char* probe[] = {"b", "bh", "zz", ""}; for (const char* p : probe) if (!ref::tag(want, p)) CHECK(!l.GetTag(p, e), "a tag that does not occur is absent");
}
UNIT(c08_parse) { size_t n = sym_range(0, BND(6, 7), "n"); one(symStr(n, "s")); }
UNIT(c08_tail) { size_t n = sym_range(0, BND(5, 6), "n"); one("a=1;" + symStr(n, "s")); }
UNIT(c08_long) {
	int k = sym_range(0, 5, "kind"); std::string w = symStr(2, "w"); if (k == 5) { size_t n = symLen(BND(256, 1024), 1, 2000); std::string s; for (size_t i = 0; i + 1 < n; i++) s += "t" + ref::num(i) + "=v; "; one(s + "t" + w + "=1"); return; }
	size_t n = symLen(k == 1 ? 1024 : 8192, 2); std::string v = k == 0 ? symRep("x", n) : k == 1 ? "" : k == 2 ? symRep("word ", n) : k == 3 ? "a" : symRep("abcd\r\n ", n) + " x", name = k == 1 ? symRep("name", n) : "b", ws = k == 3 ? symRep(" ", n) : " "; one("a=1; " + name + ws + "=" + ws + w.substr(0, 1) + v + w.substr(1) + ws + "; c=3");
}
UNIT(c08_twice) { static const char* F[] = {"", "a=1", "a=1; a=2", "=", "a = b c ; zz=", "b=\x80", "x=1;", "a"}; TagList l; try { l.Parse(F[sym_range(0, 7, "first")]); } catch (PermanentError&) {} size_t n = sym_range(0, BND(4, 5), "n"); one(symStr(n, "s")); }
