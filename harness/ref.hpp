// Reference definitions used as oracles: written from RFC 6376 / RFC 5322 and the property statements, independent of /repo's code.
#pragma once
#include "symx.h"
#include <string>
#include <vector>
#include <list>
namespace ref {
static inline bool wsp(char c) { return c == ' ' || c == '\t'; }
static inline bool fwsc(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static inline char low(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static inline std::string lower(std::string s) { for (char& c : s) c = low(c); return s; }
static inline bool ieq(const std::string& a, const std::string& b) { return a.size() == b.size() && lower(a) == lower(b); }
static inline std::string strip(const std::string& s, bool (*f)(char)) { size_t a = 0, b = s.size(); while (a < b && f(s[a])) a++; while (b > a && f(s[b - 1])) b--; return s.substr(a, b - a); }
static inline std::string num(unsigned long v) { char b[24]; int i = 24; if (!v) return "0"; while (v) { b[--i] = (char)('0' + v % 10); v /= 10; } return std::string(b + i, 24 - i); }

// RFC 6376 3.4.3 / 3.4.4
static std::string body(const std::string& in, bool relaxed)
{
	std::vector<std::string> lines; std::string cur; bool pend = false, any = false;
	for (char c : in) {
		if (c == '\r') continue;
		if (c == '\n') { lines.push_back(cur); cur.clear(); pend = false; any = false; continue; }
		any = true;
		if (relaxed && wsp(c)) { pend = true; continue; }
		if (pend) { cur += ' '; pend = false; }
		cur += c;
	}
	if (any) lines.push_back(cur);
	while (!lines.empty() && lines.back().empty()) lines.pop_back();
	std::string out; for (auto& l : lines) { out += l; out += "\r\n"; }
	if (lines.empty() && !relaxed) out = "\r\n";
	return out;
}
// RFC 6376 3.4.2; input: one header field whose CRLFs are all followed by white space.  false: no colon / CR without LF
static bool headerRelaxed(const std::string& in, std::string& out)
{
	size_t colon = in.find(':'); if (colon == std::string::npos) return false;
	auto squeeze = [](const std::string& s, std::string& o) { bool p = false; for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '\r') { if (i + 1 >= s.size() || s[i + 1] != '\n') return false; i++; continue; }
		if (wsp(s[i])) { p = true; continue; }
		if (p) { o += ' '; p = false; } o += s[i]; }
		if (p) o += ' '; return true; };
	std::string n, v; bool a = squeeze(in.substr(0, colon), n), b = squeeze(in.substr(colon + 1), v);
	if (!a || !b) return false;
	while (!n.empty() && n.back() == ' ') n.pop_back();
	while (!v.empty() && v.back() == ' ') v.pop_back();
	if (!v.empty() && v[0] == ' ') v.erase(0, 1);
	out = lower(n) + ":" + v; return true;
}
struct Hdr { std::string text, name; size_t off; };
struct Msg { std::vector<Hdr> h; long body; }; // body -1: none
static Msg split(const std::string& m)
{
	Msg r; r.body = -1; size_t i = 0; bool open = false; std::string cur;
	auto flush = [&]() { if (!open) return; Hdr h; h.text = cur; h.off = 0; size_t c = cur.find(':'); if (c != std::string::npos) { h.off = c + 1; h.name = strip(cur.substr(0, c), wsp); } r.h.push_back(h); open = false; };
	while (i < m.size()) {
		size_t e = m.find('\n', i); std::string l = m.substr(i, e == std::string::npos ? std::string::npos : e - i);
		if (!l.empty() && l.back() == '\r') l.pop_back();
		i = e == std::string::npos ? m.size() : e + 1;
		if (l.empty()) { r.body = e == std::string::npos ? -2 : (long)i; break; } // -2: empty line without line end: body absent or empty
		if (open && wsp(l[0])) cur += "\r\n" + l; else { flush(); cur = l; open = true; }
	}
	flush(); return r;
}
// RFC 6376 3.2 tag list (white space: any run of space, tab, CR, LF)
struct Tag { std::string n, v; size_t off; };
static bool tags(const std::string& s, std::vector<Tag>& out)
{
	size_t i = 0, n = s.size();
	auto alnum = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); };
	while (true) {
		while (i < n && fwsc(s[i])) i++;
		if (i >= n) return true;
		Tag t; if (!alnum(s[i]) && s[i] != '_') return false;
		while (i < n && (alnum(s[i]) || s[i] == '_')) t.n += s[i++];
		for (auto& x : out) if (x.n == t.n) return false;
		while (i < n && fwsc(s[i])) i++;
		if (i >= n || s[i] != '=') return false;
		i++; while (i < n && fwsc(s[i])) i++;
		t.off = i; size_t e = i;
		while (i < n && s[i] != ';') { if (fwsc(s[i])) { i++; continue; } if ((unsigned char)s[i] < 0x21 || (unsigned char)s[i] > 0x7e) return false; e = ++i; }
		t.v = s.substr(t.off, e - t.off); out.push_back(t);
		if (i >= n) return true;
		i++;
	}
}
static const Tag* tag(const std::vector<Tag>& v, const char* n) { for (auto& t : v) if (t.n == n) return &t; return nullptr; }
static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
struct D64 { signed char t[256]; D64() { for (int i = 0; i < 256; i++) t[i] = -1; for (int i = 0; i < 64; i++) t[(unsigned char)B64[i]] = (signed char)i; } }; static D64 D64T;
static inline int d64(char c) { return D64T.t[(unsigned char)c]; }
static std::string enc64(const std::string& s)
{
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) { unsigned a = (unsigned char)s[i], b = i + 1 < s.size() ? (unsigned char)s[i + 1] : 0, c = i + 2 < s.size() ? (unsigned char)s[i + 2] : 0;
		o += B64[a >> 2]; o += B64[(a & 3) << 4 | b >> 4]; o += i + 1 < s.size() ? B64[(b & 15) << 2 | c >> 6] : '='; o += i + 2 < s.size() ? B64[c & 63] : '='; }
	return o;
}
static bool dec64(const std::string& s, std::string& o) // strict RFC 4648
{
	if (s.size() % 4) return false;
	for (size_t i = 0; i < s.size(); i += 4) { int v[4]; int pad = 0; for (int k = 0; k < 4; k++) { if (s[i + k] == '=') { if (i + 4 != s.size() || k < 2) return false; pad++; v[k] = 0; } else { if (pad) return false; v[k] = d64(s[i + k]); if (v[k] < 0) return false; } }
		unsigned x = (unsigned)v[0] << 18 | (unsigned)v[1] << 12 | (unsigned)v[2] << 6 | (unsigned)v[3]; o += (char)(x >> 16); if (pad < 2) o += (char)(x >> 8); if (pad < 1) o += (char)x; }
	return true;
}
static std::string nows(const std::string& s) { std::string o; for (char c : s) if (!(c == ' ' || (c >= '\t' && c <= '\r'))) o += c; return o; }
}
