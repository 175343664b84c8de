// C20 white space reads
// @unit c20_read reach=crlf,wsp,loose,fws,fold,none,throw,unfold: every input of up to 9 (quick) / 14 (thorough) octets, every start position, all four classes; consumed prefix, stream position and readability against a reference
// @unit c20_long reach=crlf,wsp,loose,fws,fold,none,throw q=100: 30..1025 (quick) / 8193 (thorough) and 12000 octets of white space or text followed by three arbitrary octets, from the first or a late position, all four classes
// @unit c20_twice reach=crlf,wsp,loose,fws,throw q=100: a first read of any class, on the same or another stream, from one of six texts, then a second of any class of up to 4 octets
#include "ref.hpp"
#include "src/Tokenizer.hpp"
#include "src/Exception.hpp"
using namespace DKIM; using namespace DKIM::Tokenizer;
static void one(const std::string& s, size_t p, int type) {
	size_t n = s.size(); std::string got;
	const WhiteSpaceType T[] = {READ_CRLF, READ_WSP, READ_FWS, READ_WSP_LOOSE};
	std::stringstream st(s); if (p) st.seekg(p);
	bool thrown = false; try { got = ReadWhiteSpace(st, T[type]); } catch (PermanentError&) { thrown = true; }
	auto at = [&](size_t i) { return i < n ? s[i] : '\x01'; };
	size_t e = p; bool bad = false, unfold = false;
	if (type == 0) { if (at(p) == '\r') { if (at(p + 1) == '\n') e = p + 2; else bad = true; } }
	else if (type == 1) { if (ref::wsp(at(p))) e = p + 1; }
	else if (type == 3) { if (ref::fwsc(at(p))) e = p + 1; }
	else { size_t q = p; while (ref::wsp(at(q))) q++; 
		if (at(q) == '\r') { if (at(q + 1) != '\n') bad = true; else if (ref::wsp(at(q + 2))) { e = q + 2; while (ref::wsp(at(e))) e++; sym_reach("fold"); } else { unfold = true; sym_reach("unfold"); } }
		else e = q; }
	CHECK(thrown == bad, "only a carriage return without line feed is an error"); if (thrown) { sym_reach("throw"); return; }
	CHECK(got == s.substr(p, e - p), "exactly the white space is returned"); symObs(got, "got");
	if (unfold) CHECK(st.good(), "the stream stays readable after a line break that is no fold");
	bool eof = st.peek() == EOF; CHECK(eof == (e >= n), "the stream is at its end exactly when everything was read");
	if (!eof) { CHECK((size_t)st.tellg() == e, "stream position"); std::string rest; while (st.peek() != EOF) rest += (char)st.get(); CHECK(rest == s.substr(e), "the rest of the input is still there"); }
	sym_reach(e == p ? "none" : type == 0 ? "crlf" : type == 1 ? "wsp" : type == 3 ? "loose" : "fws");
}
UNIT(c20_read) { size_t n = sym_range(0, BND(9, 14), "n"), p = sym_range(0, n, "p"); int type = sym_range(0, 3, "type"); one(symStr(n, "s"), p, type); }
UNIT(c20_long) { static const char* F[] = {" ", "\t ", "text", "\r\n "}; int f = sym_range(0, 3, "fill"), type = sym_range(0, 3, "type"); bool late = sym_range(0, 1, "late"); size_t n = symLen(BND(1024, 8192), 1, 12000); one(symRep(F[f], n) + symStr(3, "w") + symRep(" x", 8), late ? n - 1 : 0, type); }
UNIT(c20_twice) { static const char* F[] = {"", " ", "\r\n x", "\r", "x", "\r\n"}; const WhiteSpaceType T[] = {READ_CRLF, READ_WSP, READ_FWS, READ_WSP_LOOSE}; { std::stringstream st(F[sym_range(0, 5, "first")]); try { ReadWhiteSpace(st, T[sym_range(0, 3, "type1")]); } catch (PermanentError&) {} } size_t n = sym_range(0, 4, "n"); int type = sym_range(0, 3, "type"); one(symStr(n, "s"), 0, type); }
