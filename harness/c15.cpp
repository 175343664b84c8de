// C15 quoted-printable round-trips and rejects everything malformed
// @unit c15_decode reach=ok,space,hex,fold,throw: every input of up to 4 (quick) / 5 (thorough) octets, both modes, against a reference decoder
// @unit c15_roundtrip reach=ok: every input of up to 4 / 5 octets
// @unit c15_long reach=ok,throw q=200: inputs of 30..513 (quick) / 8193 (thorough) and 12000 octets repeating one of six patterns around two arbitrary octets, at the front, in the middle or at the end: decoded against the reference, and round-tripped
// @unit c15_twice reach=ok,throw q=100: one of eight inputs (malformed ones included) decoded and encoded first, in either mode, then every input of up to 3 octets, both modes
// @assume inputs longer than the stated number of octets are outside the bound
#include "symx.h"
#include "src/QuotedPrintable.hpp"
#include "src/Exception.hpp"
using DKIM::Conversion::QuotedPrintable;
static bool refDecode(const std::string& s, bool us, std::string& out)
{
	size_t i = 0, n = s.size();
	auto hex = [](unsigned char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; };
	while (i < n) {
		unsigned char c = s[i];
		if (us && c == '_') { out += ' '; i++; sym_reach("space"); continue; }
		if (c == '=') {
			if (i + 2 >= n) return false;
			int a = hex(s[i + 1]); if (a < 0) return false;
			int b = hex(s[i + 2]); if (b < 0) return false;
			out += (char)(a * 16 + b); i += 3; sym_reach("hex"); continue;
		}
		if (c == ' ' || c == '\t') { i++; continue; }
		if (c == '\r') {
			if (i + 2 < n && s[i + 1] == '\n' && (s[i + 2] == ' ' || s[i + 2] == '\t')) { i += 3; sym_reach("fold"); continue; }
			return false;
		}
		if (c < 0x21 || c > 0x7e || c == ';') return false;
		out += (char)c; i++;
	}
	return true;
}
UNIT(c15_decode)
{
	size_t n = sym_range(0, BND(4, 5), "n"); bool us = sym_range(0, 1, "mode");
	std::string s = symStr(n, "s"), d, ref;
	bool ok = false;
	try { d = QuotedPrintable::Decode(s, us); ok = true; } catch (DKIM::PermanentError&) { sym_reach("throw"); }
	bool rok = refDecode(s, us, ref);
	CHECK(ok == rok, "decoding accepts exactly the grammar");
	if (ok) { sym_reach("ok"); symObs(d, "d"); CHECK(d == ref, "decoded octets are the reference octets"); }
}
UNIT(c15_roundtrip)
{
	size_t n = sym_range(0, BND(4, 5), "n");
	std::string s = symStr(n, "s"), e = QuotedPrintable::Encode(s);
	for (size_t i = 0; i < e.size(); i++) CHECK((unsigned char)e[i] > 0x20 && (unsigned char)e[i] < 0x7f && e[i] != ';', "encoded text is printable without space and semicolon");
	symObs(e, "e");
	try { CHECK(QuotedPrintable::Decode(e) == s, "decoding the encoding gives the original"); sym_reach("ok"); } catch (DKIM::PermanentError&) { sym_assert(0, "the encoding decodes"); }
}
UNIT(c15_long)
{
	static const char* F[] = {"x", "=41", " ", "\r\n ", "word ", "_"}; int f = sym_range(0, 5, "fill"), at = sym_range(0, 2, "at"); bool us = sym_range(0, 1, "mode"); size_t n = symLen(BND(512, 8192), 1, 12000), z = std::string(F[f]).size(); std::string w = symStr(2, "w"), s, d, ref;
	if (!at) s += w; for (size_t i = 0; i + z <= n; i += z) { if (at == 1 && i <= n / 2 && n / 2 < i + z) s += w; s += F[f]; } if (at == 2) s += w; bool ok = false; try { d = QuotedPrintable::Decode(s, us); ok = true; } catch (DKIM::PermanentError&) { sym_reach("throw"); } CHECK(ok == refDecode(s, us, ref), "decoding accepts exactly the grammar"); if (ok) { sym_reach("ok"); CHECK(d == ref, "decoded octets are the reference octets"); }
	if (us) return; std::string e = QuotedPrintable::Encode(s); bool clean = true; for (size_t i = 0; i < e.size(); i++) clean &= (unsigned char)e[i] > 0x20 && (unsigned char)e[i] < 0x7f && e[i] != ';'; CHECK(clean, "encoded text is printable without space and semicolon"); try { CHECK(QuotedPrintable::Decode(e) == s, "decoding the encoding gives the original"); } catch (DKIM::PermanentError&) { sym_assert(0, "the encoding decodes"); }
}
UNIT(c15_twice)
{
	static const char* F[] = {"", "=", "=4", "=41", "a b_c", "\r\n ", "\r", "\xff;"}; const char* f = F[sym_range(0, 7, "first")]; bool m = sym_range(0, 1, "mode1"), us = sym_range(0, 1, "mode"); try { QuotedPrintable::Decode(f, m); } catch (DKIM::PermanentError&) {} QuotedPrintable::Encode(f); std::string s = symStr((size_t)sym_range(0, 3, "n"), "s"), d, ref; bool ok = false; try { d = QuotedPrintable::Decode(s, us); ok = true; } catch (DKIM::PermanentError&) { sym_reach("throw"); } CHECK(ok == refDecode(s, us, ref), "decoding accepts exactly the grammar"); if (ok) { sym_reach("ok"); CHECK(d == ref, "decoded octets are the reference octets"); }
	std::string e = QuotedPrintable::Encode(s); try { CHECK(QuotedPrintable::Decode(e) == s, "decoding the encoding gives the original"); } catch (DKIM::PermanentError&) { sym_assert(0, "the encoding decodes"); }
}
