// C16 base64 conversion
// @unit c16_encode reach=pad0,pad1,pad2 q=200: every octet string of 0..14 (quick) / 0..40 (thorough) octets: the encoding is the RFC 4648 one and decodes to the original
// @unit c16_encode_long reach=long q=300: every octet string of each length within 1 (quick) / 6 (thorough) of 48, 192, 255, 256, 288, 300, 384, 576, 768, 1023, 1024, 1100, 1536, 2048, 3072 and 4500
// @unit c16_decode reach=pad0,pad1,pad2 q=200: every well-formed base64 text of 4..16 (quick) / 4..40 (thorough) characters
// @unit c16_decode_long reach=long q=300: well-formed base64 texts whose length or decoded length is next to 64, 76, 1024, 1368, 2048, 2736 and 6000, with three arbitrary groups next to each internal boundary
// @unit c16_twice reach=same: two conversions in a row do not influence each other
// @assume the base64 filter of OpenSSL is modelled after OpenSSL 3.0 (replays and samples run against the installed one)
#include "ref.hpp"
#include "src/Base64.hpp"
using namespace DKIM::Conversion;
static void same(const std::string& a, const std::string& b, const char* m) { CHECK(a.size() == b.size(), m); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i], m); }
static void round(const std::string& d) { std::string e = Base64_Encode(d); same(e, ref::enc64(d), "the encoding is the RFC 4648 one on one line"); same(Base64_Decode(e), d, "decoding returns the original octets"); static const char* P[] = {"pad0", "pad2", "pad1"}; sym_reach(P[d.size() % 3]); }
UNIT(c16_encode) { size_t n = (size_t)sym_range(0, BND(14, 40), "n"); round(symStr(n, "d")); }
UNIT(c16_encode_long) { static const int L[] = {48, 192, 255, 256, 288, 300, 384, 576, 768, 1023, 1024, 1100, 1536, 2048, 3072, 4500}; size_t n = (size_t)(L[sym_range(0, 15, "len")] + sym_range(-BND(1, 6), BND(1, 6), "off")); round(symStr(n, "d")); sym_reach("long"); }
// an arbitrary character of the alphabet
static char any64() { char c; sym_bytes(&c, 1, "c"); sym_assume(ref::d64(c) >= 0); return c; }
static void dec(const std::string& e) { std::string w; CHECK(ref::dec64(e, w), "well-formed"); same(Base64_Decode(e), w, "decoding returns exactly the encoded octets"); }
UNIT(c16_decode) { int k = sym_range(1, BND(4, 10), "groups"), pad = sym_range(0, 2, "pad"); std::string e; for (int i = 0; i < 4 * k - pad; i++) e += any64(); e += std::string((size_t)pad, '='); static const char* P[] = {"pad0", "pad1", "pad2"}; sym_reach(P[pad]); dec(e); }
UNIT(c16_decode_long) {
	static const int L[] = {64, 76, 80, 1020, 1024, 1028, 1364, 1368, 1372, 2044, 2048, 2052, 2736, 2740, 6000}; size_t n = (size_t)L[sym_range(0, 14, "len")]; int pad = sym_range(0, 2, "pad"); std::string e; for (size_t i = 0; i < n; i++) e += ref::B64[(i * 7 + i / 64) % 64];
	static const size_t B[] = {0, 60, 72, 1020, 1364, 2044, 2732, 5996}; for (size_t b : B) for (size_t i = b; i < b + 12 && i < n; i++) e[i] = any64(); for (int i = 0; i < pad; i++) e[n - 1 - (size_t)i] = '='; sym_reach("long"); dec(e);
}
UNIT(c16_twice) { std::string a = symStr((size_t)sym_range(0, 4, "n"), "a"), b = symStr(5, "b"), ea = Base64_Encode(a), da = Base64_Decode(ea); std::string eb = Base64_Encode(b); same(Base64_Encode(a), ea, "repeated encoding"); Base64_Decode(eb); same(Base64_Decode(ea), da, "repeated decoding"); sym_reach("same"); }
