// C17 encoded words
// @unit c17_any reach=ok,throw,word q=300: every value of up to 7 (quick) / 8 (thorough) octets
// @unit c17_edit reach=ok,throw,word q=300: a value with two encoded words and text in which every octet is in turn replaced, removed or preceded by an arbitrary octet
// @unit c17_items reach=ok,word q=300: every sequence of up to 4 / 5 of: space, tab, folded line break, text, "=", q word, b word, malformed words (encoding, terminator, escape, text behind)
// @unit c17_q reach=ok,word q=300: q words with every text of up to 4 / 5 octets, any octet behind the word, encoding letter arbitrary
// @unit c17_b reach=ok,word q=300: b words with every base64 text of 0..3 groups
// @unit c17_long reach=ok,word q=200: q and b words, charset names, plain text and white space of 30..1026 and 5000 octets, and up to 66 (quick) / 258 (thorough) and 1000 words in a row, with arbitrary octets behind
// @unit c17_twice reach=ok,throw,word q=100: one of nine values (malformed ones included) decoded first, then an encoded word with any three adjacent octets arbitrary
// @assume CRLF occurs only as folding (followed by white space); base64 text which is not well-formed is not judged
#include "ref.hpp"
#include "src/EncodedWord.hpp"
#include "src/Exception.hpp"
using namespace DKIM;
enum { OK, BAD, UNJUDGED };
static bool qdec(const std::string& s, std::string& o) {
	auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
	for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '_') o += ' '; else if (c == '=') { if (i + 2 >= s.size()) return false; int a = hex(s[i + 1]), b = hex(s[i + 2]); if (a < 0 || b < 0) return false; o += (char)(a * 16 + b); i += 2; } else if (c == ' ' || c == '\t') continue; else if (c == '\r') { if (i + 1 >= s.size() || s[i + 1] != '\n') return false; i++; } else if (c > ' ' && c < 0x7f && c != ';') o += c; else return false; }
	return true;
}
// reads from left to right; an "=?" which turns out not to be an encoded word is text up to the place where that shows
static int want(const std::string& s, std::string& o) {
	size_t i = 0, n = s.size(); std::string ws; bool lead = true;
	while (true) {
		while (i < n) { if (s[i] == ' ' || s[i] == '\t') ws += s[i++]; else if (s[i] == '\r') { if (i + 1 >= n || s[i + 1] != '\n') return BAD; i += 2; } else break; }
		if (lead) ws.clear(); lead = false; if (i >= n) return OK;
		if (s[i] != '=') { o += ws; ws.clear(); o += s[i++]; continue; }
		size_t e = i + 1, q[3]; bool word = e < n && s[e] == '?'; std::string text; if (word) { q[0] = e; for (int k = 1; k < 3 && word; k++) { size_t p = s.find('?', q[k - 1] + 1); if (p == std::string::npos) { word = false; e = n; } else q[k] = p; } }
		if (word) { size_t p = s.find('?', q[2] + 1); if (p == std::string::npos) { word = false; e = n; } else { e = p + 1; if (e < n && s[e] == '=') { e++; if (e < n && !ref::fwsc(s[e])) word = false; } else word = false;
			if (word) { std::string enc = s.substr(q[1] + 1, q[2] - q[1] - 1), d = s.substr(q[2] + 1, p - q[2] - 1); if (enc == "q" || enc == "Q") word = qdec(d, text); else if (enc == "b" || enc == "B") { if (!ref::dec64(d, text)) return UNJUDGED; } else word = false; } } }
		if (word) { sym_reach("word"); o += text; } else o += ws + s.substr(i, e - i); ws.clear(); i = e;
	}
}
static void judge(const std::string& s) {
	for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '\r' && s[i + 1] == '\n') sym_assume(i + 2 < s.size() && ref::wsp(s[i + 2]));
	std::string w, g; int r = want(s, w); if (r == UNJUDGED) return; bool ok = true; try { g = Conversion::EncodedWord::Decode(s); } catch (PermanentError&) { ok = false; }
	sym_reach(ok ? "ok" : "throw"); CHECK(ok == (r == OK), "decoding fails exactly for a carriage return without line feed"); if (!ok || r != OK) return; CHECK(g.size() == w.size(), "decoded length"); CHECK(g == w, "decoded text"); symObs(g, "g");
}
UNIT(c17_any) { size_t n = sym_range(0, BND(7, 8), "n"); judge(symStr(n, "s")); }
UNIT(c17_edit) { std::string s = "A =?u?q?b_=3D?= \r\n =?v?B?QUI=?= c"; int op = sym_range(0, 2, "op"); size_t p = (size_t)sym_range(0, (int64_t)s.size() - (op != 1), "p"); char c = 0; if (op < 2) sym_bytes(&c, 1, "c"); if (op == 0) s[p] = c; else if (op == 1) s.insert(p, 1, c); else s.erase(p, 1); judge(s); }
UNIT(c17_items) {
	static const char* I[] = {" ", "\t", "\r\n ", "x", "=", "=?u?q?a_=40?=", "=?u?B?QUI=?=", "=?u?x?a?=", "=?u?q?a?b", "=?u?q?a=4?=", "=?u?q?a?=y", "=?u", "=??q??="}; int n = sym_range(0, BND(4, 5), "n"); std::string s; for (int i = 0; i < n; i++) s += I[sym_range(0, 12, "item")]; judge(s);
}
UNIT(c17_q) { size_t n = sym_range(0, BND(4, 5), "n"); std::string d = symStr(n, "d"), t = symStr((size_t)sym_range(0, 1, "tail"), "t"); char e = 'q'; if (sym_range(0, 1, "enc")) sym_bytes(&e, 1, "e"); judge("=?u?" + std::string(1, e) + "?" + d + "?=" + t); }
UNIT(c17_b) { int k = sym_range(0, 3, "groups"), pad = sym_range(0, 2, "pad"); if (!k) pad = 0; std::string d = symStr((size_t)(4 * k - pad), "d"); for (char c : d) sym_assume(ref::d64(c) >= 0); d += std::string((size_t)pad, '='); std::string t = symStr(1, "t"); judge("x =?u?b?" + d + "?= " + t); }
UNIT(c17_long) {
	int k = sym_range(0, 6, "kind"); size_t n = symLen(k == 6 ? BND(64, 256) : 1024, 2, k == 6 ? 1000 : 5000); std::string w = symStr(1, "w"), s; if (k == 0) s = "=?u?q?" + symRep("ab=41_", n / 6 * 6) + w + "?="; if (k == 1) s = "=?u?b?" + symRep("QUJD", n / 4 * 4) + "?=" + w; if (k == 2) s = "=?" + symRep("utf-8", n) + "?q?a?=" + w; if (k == 3) s = symRep("text ", n) + w + "=?u?q?a?="; if (k == 4) s = "=?u?q?a?=" + symRep(" ", n) + w + "=?u?q?b?= c"; if (k == 5) s = "=?u?q?" + symRep("text", n) + w; if (k == 6) { for (size_t i = 0; i < n; i++) s += i & 1 ? "=?u?B?QQ==?= " : "=?u?q?b?=\r\n "; s += w; } judge(s);
}
UNIT(c17_twice) { static const char* F[] = {"", " ", "a", "=?u?q?a?=", "=?u?q?a", "=?u?b?QQ==?= ", "\r", "=?u?q?=4?=", "x =?"}; try { Conversion::EncodedWord::Decode(F[sym_range(0, 8, "first")]); } catch (PermanentError&) {} std::string s = "a =?u?q?b_?= c"; size_t p = (size_t)sym_range(0, (int64_t)s.size() - BND(2, 3), "p"); s.replace(p, BND(2, 3), symStr(BND(2, 3), "w")); judge(s); }
