// C21 host names
// @unit c21_domain reach=ok,no,dots,hyphen: every name of up to 5 (quick) / 6 (thorough) octets, against a reference
// @unit c21_long reach=ok,no: names of two labels of 20 letters with 3 arbitrary octets in the middle
// @unit c21_set reach=ok,no: SetDomain/SetSelector of the options and of an additional signature with every name of up to 3 octets: error or value kept
// @unit c21_size reach=ok,no q=100: names with a label of 1..70 octets, of 30..514 and 5000 octets in total and of up to 130 and 1500 labels, with an arbitrary octet in the middle and at the end
// @unit c21_twice reach=ok,no q=100: one of eight names checked first, then every name of up to 3 / 4 octets
// @unit c21_oversign reach=ok,no q=200: an oversigned name of up to 4 (quick) / 5 (thorough) arbitrary octets, alone or behind another one: refused, or the produced field has the configured tags only and h= ends in that name
#include "sign.hpp"
#include "src/Util.hpp"
#include "src/SignatoryOptions.hpp"
#include "src/Exception.hpp"
using namespace DKIM;
static bool want(const std::string& s) {
	auto an = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); };
	size_t st = 0; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == '.') { if (i == st) return false; if (!an(s[st]) || !an(s[i - 1])) return false; for (size_t k = st; k < i; k++) if (!an(s[k]) && s[k] != '-') return false; st = i + 1; }
	return true;
}
static void one(const std::string& s) { bool w = want(s); CHECK(Util::ValidateDomain(s) == w, "a host name is accepted exactly by the grammar"); sym_reach(w ? "ok" : "no"); if (w) for (char c : s) { if (c == '.') sym_reach("dots"); if (c == '-') sym_reach("hyphen"); } }
UNIT(c21_domain) { size_t n = sym_range(0, BND(5, 6), "n"); one(symStr(n, "s")); }
UNIT(c21_long) { one("abcdefghijklmnopqrst" + symStr(3, "s") + "ABCDEFGHIJ0123456789"); }
template <class O, class F, class G> static void set(O& o, const std::string& s, F f, G g) {
	bool ok = false; try { f(o, std::string("old.example")); } catch (PermanentError&) { sym_assert(0, "a valid name is accepted"); }
	try { f(o, s); ok = true; } catch (PermanentError&) { }
	CHECK(ok == want(s), "setting a name succeeds exactly for a host name"); sym_reach(ok ? "ok" : "no");
	CHECK(g(o) == (ok ? s : std::string("old.example")), "the value is the new one after success and the previous one after an error");
}
UNIT(c21_set) {
	int k = sym_range(0, 3, "which"); size_t n = sym_range(0, 3, "n"); std::string s = symStr(n, "s"); SignatoryOptions o; AdditionalSignaturesOptions& a = o.AddAdditionalSignature();
	if (k == 0) set(o, s, [](SignatoryOptions& x, const std::string& v) { x.SetDomain(v); }, [](SignatoryOptions& x) { return x.GetDomain(); });
	if (k == 1) set(o, s, [](SignatoryOptions& x, const std::string& v) { x.SetSelector(v); }, [](SignatoryOptions& x) { return x.GetSelector(); });
	if (k == 2) set(a, s, [](AdditionalSignaturesOptions& x, const std::string& v) { x.SetDomain(v); }, [](AdditionalSignaturesOptions& x) { return x.GetDomain(); });
	if (k == 3) set(a, s, [](AdditionalSignaturesOptions& x, const std::string& v) { x.SetSelector(v); }, [](AdditionalSignaturesOptions& x) { return x.GetSelector(); });
}
UNIT(c21_size) {
	int k = sym_range(0, 2, "kind"); std::string w = symStr(1, "w"), x = symStr(1, "x"); if (k == 0) { size_t n = (size_t)sym_range(0, 69, "n"); one("a." + symRep("label", n) + w + symRep("b-1", 4) + x + ".org"); } if (k == 1) { size_t n = symLen(512, 2, 5000); one(symRep("ab.cd-", n / 2) + w + "-" + symRep("xy.", n / 2) + x); } if (k == 2) { size_t n = symLen(128, 2, 1500); one(symRep("a.", 2 * n) + w + ".b" + x); }
}
UNIT(c21_twice) { static const char* F[] = {"", "a", "a.", "-", "a.b", "a-", "..", "ex ample"}; Util::ValidateDomain(F[sym_range(0, 7, "first")]); size_t n = sym_range(0, BND(3, 4), "n"); one(symStr(n, "s")); }
UNIT(c21_oversign) {
	bool two = sym_range(0, 1, "two"), twice = sym_range(0, 1, "old"); std::string s = symStr((size_t)sym_range(0, BND(4, 5), "n"), "s"), out; SignatoryOptions o; tk::setKey(o, true); o.SetDomain("ex.org").SetSelector("s").SetHeaders({"from"}); std::list<std::string> l, old; if (twice) { old = {"cc"}; o.SetOversignHeaders(old); } if (two) l.push_back("to"); l.push_back(s);
	bool w = !s.empty(); for (char c : s) w &= (c > ' ') & (c < 127) & (c != ':') & (c != ';'); bool ok = true; try { o.SetOversignHeaders(l); } catch (PermanentError&) { ok = false; } CHECK(ok == w, "an oversigned name is accepted exactly when it is a field name that h= can hold"); CHECK(o.GetOversignHeaders() == (ok ? l : old), "the list is the new one after success and the previous one after an error"); sym_reach(ok ? "ok" : "no");
	CHECK(tk::sign("From: a\n\nx\n", o, out), "signing succeeds"); std::vector<ref::Tag> t; CHECK(ref::tags(out.substr(out.find(':') + 1), t), "a tag list"); CHECK(t.size() == 8 && !ref::tag(t, "l") && !ref::tag(t, "i") && !ref::tag(t, "x"), "no tag is added"); const ref::Tag* h = ref::tag(t, "h"); std::string e = "from"; for (auto& i : ok ? l : old) e += ":" + ref::lower(i); CHECK(h && h->v == e, "h= states the signed and the oversigned names");
}
