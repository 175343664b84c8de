// C06 header canonicalization
// @unit c06_field reach=ok,throw,fold: every header field of up to 5 (quick) / 7 (thorough) octets, both modes; against a reference, and relaxed applied twice
// @unit c06_value reach=ok,throw,fold: "Sub" + 2 octets + ":" + up to 4 (quick) / 6 (thorough) octets
// @unit c06_long reach=ok,throw,fold q=200: values of 30..65537 octets repeating one of seven patterns (letters, white space, folds and mixtures) and names of 30..1025 letters, with arbitrary octets in front and behind
// @unit c06_twice reach=ok,throw q=100: one of eight fields (malformed ones included) canonicalized first, by the same or another object, then "A:" plus every value of up to 3 / 4 octets
// @assume every CRLF is followed by white space and line feeds only occur in CRLF, as in every field the message parser can produce; the field name is not blank
#include "ref.hpp"
#include "src/Canonicalization.hpp"
#include "src/Exception.hpp"
using namespace DKIM;
static void one(const std::string& h) {
	Conversion::CanonicalizationHeader simple(DKIM_C_SIMPLE), relaxed(DKIM_C_RELAXED);
	CHECK(simple.FilterHeader(h) == h, "simple canonicalization returns the field unchanged");
	for (size_t i = 0; i < h.size(); i++) { if (h[i] == '\n') sym_assume(i > 0 && h[i - 1] == '\r'); if (h[i] == '\r' && i + 1 < h.size() && h[i + 1] == '\n') { sym_assume(i + 2 < h.size() && ref::wsp(h[i + 2])); sym_reach("fold"); } }
	size_t c = h.find(':'); if (c != std::string::npos) { bool name = false; for (size_t i = 0; i < c; i++) if (!ref::fwsc(h[i])) name = true; sym_assume(name); }
	std::string out, want; bool ok = false, rok = ref::headerRelaxed(h, want);
	try { out = relaxed.FilterHeader(h); ok = true; } catch (PermanentError&) { sym_reach("throw"); }
	CHECK(ok == rok, "relaxed canonicalization fails exactly for a missing colon or CR without LF");
	if (!ok) return;
	sym_reach("ok"); symObs(out, "out");
	CHECK(out == want, "relaxed canonical field is the RFC form");
	try { CHECK(relaxed.FilterHeader(out) == out, "relaxed canonicalization is idempotent"); } catch (PermanentError&) { sym_assert(0, "relaxed canonicalization is idempotent"); }
}
UNIT(c06_field) { size_t n = sym_range(0, BND(5, 7), "n"); one(symStr(n, "h")); }
UNIT(c06_value) { size_t n = sym_range(0, BND(4, 6), "n"); one("Sub" + symStr(2, "x") + ":" + symStr(n, "h")); }
UNIT(c06_long) {
	static const char* F[] = {"x", " ", "\t", "\r\n ", "x ", "x\r\n\t", "X:"}; int k = sym_range(0, 7, "fill"); std::string a = symStr(1, "a"), w = symStr(2, "w"); if (k == 7) { one(symRep("Ab", symLen(1024, 2)) + w + ":" + a + " v"); return; } std::string r; size_t n = symLen(BND(8192, 65536)), z = std::string(F[k]).size(); for (size_t i = 0; i + z <= n; i += z) r += F[k]; one("Subject:" + a + r + w);
}
UNIT(c06_twice) { static const char* F[] = {"", "x", "Subject: a b ", "a:\r\n b", "a:\r", "a :b\r\n ", ":", "long-name: value"}; Conversion::CanonicalizationHeader relaxed(DKIM_C_RELAXED), simple(DKIM_C_SIMPLE); const char* f = F[sym_range(0, 7, "first")]; try { relaxed.FilterHeader(f); } catch (PermanentError&) {} try { simple.FilterHeader(f); } catch (PermanentError&) {} size_t n = sym_range(0, BND(3, 4), "n"); std::string h = "A:" + symStr(n, "h"); one(h); for (size_t i = 0; i < h.size(); i++) if (h[i] == '\r') return; std::string w; if (ref::headerRelaxed(h, w)) CHECK(relaxed.FilterHeader(h) == w, "the same object gives the canonical form again"); }
