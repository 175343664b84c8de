// C07 message parser
// @unit c07_parse reach=body,nobody,fold,two: every message of up to 6 (quick) / 8 (thorough) octets, against a reference splitter; reset and reuse of the parser
// @unit c07_crlf reach=two,body: every message of up to 5 (quick) / 6 (thorough) octets without CR, compared with the same message with LF replaced by CRLF
// @unit c07_long reach=body,nobody,two,fold q=200: messages with a line of 30..8193 (quick) / 65537 (thorough) octets, first, folded or last, line ends LF and CRLF, arbitrary octets around its end
// @unit c07_many reach=two,body q=200: messages of 30..513 (quick) / 4097 (thorough) and 12000 fields or folded lines, an arbitrary octet at the start of the last one
// @unit c07_twice reach=body,nobody q=100: one of eight messages parsed first by another parser (finished or given up early), then every message of up to 4 / 5 octets
#include "ref.hpp"
#include "src/MailParser.hpp"
#include <sstream>
using namespace DKIM;
static void compare(const Message& m, const ref::Msg& r, size_t total) {
	CHECK(m.GetHeaders().size() == r.h.size(), "number of header fields"); size_t i = 0;
	for (auto& h : m.GetHeaders()) {
		CHECK(h->GetHeader() == r.h[i].text, "header field text"); CHECK(h->GetName() == r.h[i].name, "header field name"); CHECK(h->GetValueOffset() == r.h[i].off, "value offset"); symObs(h->GetHeader(), "header"); symObs(h->GetName(), "name"); i++;
	}
	long b = (long)m.GetBodyOffset();
	if (r.body == -2) CHECK(b == -1 || b == (long)total, "body after an unterminated empty line"); else CHECK(b == r.body, "body offset");
	if (r.body >= 0) sym_reach("body"); else sym_reach("nobody");
	if (r.h.size() > 1) sym_reach("two");
	for (auto& h : r.h) if (h.text.find('\n') != std::string::npos) sym_reach("fold");
}
static void parse(Message& m, const std::string& s) { std::stringstream st(s); while (m.ParseLine(st) && !m.IsDone()) { } CHECK(m.IsDone(), "the parser finishes"); }
UNIT(c07_parse) {
	size_t n = sym_range(0, BND(6, 8), "n"); std::string s = symStr(n, "s"); Message m; bool again = sym_range(0, 1, "again");
	if (again) { parse(m, "q: z\n\nbody"); m.Reset(); CHECK(!m.IsDone(), "a reset parser is not done"); CHECK(m.GetHeaders().empty(), "a reset parser has no fields"); }
	parse(m, s); compare(m, ref::split(s), n);
}
UNIT(c07_crlf) {
	size_t n = sym_range(0, BND(5, 6), "n"); std::string s = symStr(n, "s"), t; for (char c : s) { sym_assume(c != '\r'); if (c == '\n') t += '\r'; t += c; }
	Message a, b; parse(a, s); parse(b, t); ref::Msg r = ref::split(s); CHECK(a.GetHeaders().size() == b.GetHeaders().size(), "LF and CRLF give the same number of fields");
	auto j = b.GetHeaders().begin(); for (auto i = a.GetHeaders().begin(); i != a.GetHeaders().end(); ++i, ++j) { CHECK((*i)->GetHeader() == (*j)->GetHeader(), "LF and CRLF give the same fields"); CHECK((*i)->GetName() == (*j)->GetName(), "LF and CRLF give the same names"); CHECK((*i)->GetValueOffset() == (*j)->GetValueOffset(), "LF and CRLF give the same offsets"); }
	CHECK((a.GetBodyOffset() == -1) == (b.GetBodyOffset() == -1), "LF and CRLF agree on the presence of a body");
	if (a.GetBodyOffset() != -1) { sym_reach("body"); std::string x = s.substr((size_t)a.GetBodyOffset()), y = t.substr((size_t)b.GetBodyOffset()), z; for (char c : x) { if (c == '\n') z += '\r'; z += c; } CHECK(y == z, "LF and CRLF give the same body"); }
	if (r.h.size() > 1) sym_reach("two");
}
UNIT(c07_long) {
	bool crlf = sym_range(0, 1, "crlf"); std::string nl = crlf ? "\r\n" : "\n"; int pos = sym_range(0, 3, "pos"); size_t n = symLen(BND(8192, 65536), 2); std::string w = symStr(2, "w"), x = symRep("longtext ", n - 2), s;
	if (pos == 0) s = "A: " + x.substr(3) + w + nl + "B: b" + nl + nl + "body"; if (pos == 1) s = "A: a" + nl + " " + x.substr(1) + w + nl + "B: b" + nl + nl; if (pos == 2) s = "A: a" + nl + "B:" + x + w; if (pos == 3) s = symRep("N", n - 2) + w + ": v" + nl + "B: b" + nl + nl + "x"; Message m; parse(m, s); compare(m, ref::split(s), s.size());
}
UNIT(c07_many) {
	bool crlf = sym_range(0, 1, "crlf"), fold = sym_range(0, 1, "foldline"); std::string nl = crlf ? "\r\n" : "\n", s = "A: a" + nl, w = symStr(2, "w"); size_t n = symLen(BND(512, 4096), 1, 12000); for (size_t i = 1; i < n; i++) s += (fold ? " more" : "F: f") + nl; s += w + "X: y" + nl + nl + "body"; Message m; parse(m, s); compare(m, ref::split(s), s.size());
}
UNIT(c07_twice) { static const char* F[] = {"", "a", "a: b\n c", "a: b\r", "\n", "a: b\n\nbody", " x\n", "A:\r\n"}; Message a; std::stringstream st(F[sym_range(0, 7, "first")]); bool all = sym_range(0, 1, "all"); a.ParseLine(st); if (all) while (!a.IsDone() && a.ParseLine(st)) {} size_t n = sym_range(0, BND(4, 5), "n"); std::string s = symStr(n, "s"); Message m; parse(m, s); compare(m, ref::split(s), n); }
