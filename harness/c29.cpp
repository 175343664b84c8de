// C29 the command line tool
// @unit c29_sign reach=done,threw q=200: every spelling of the options (short, attached, long, long with =, abbreviated), every choice of key type and ARC instance, operand in front, between or behind, repeated options; From value of one arbitrary octet
// @unit c29_missing reach=usage,help,unreadable,threw,done q=100: every subset of the required options and operands, help at any place, key files that do not exist or hold no key, unusable domains
// @unit c29_args reach=usage,other q=200: every argument vector of up to 2 (quick) / 3 (thorough) arguments of up to 3 arbitrary octets each, in front of or behind a complete option list, and long options with an arbitrary octet in place of any of theirs
// @unit c29_validate reach=ok,fail,perm,soft,temp,none q=200: up to two messages (thorough: three) with up to two signature fields each out of 9 states (valid, body or header changed, malformed, wrong key, no key, revoked, key in testing mode, failing lookup), DKIM and ARC
// @unit c29_octets reach=ok,fail q=200: a signed message whose body is replaced by every body of up to 4 / 5 octets
// @unit c29_instance reach=done q=100: every ARC instance from 0 to 59 (thorough: 199) written with up to 2 leading zeros, in every spelling of the option
// @unit c29_keys reach=done,threw q=100: key files in every documented form (PEM, DER, seed, secret key), raw ones with two arbitrary octets at both ends or in the middle, followed by nothing, a line end or an arbitrary octet
// @unit c29_rsakeys reach=signed,ok q=200: key files with RSA keys of 512..8192 bits in PEM (also PKCS#8) or DER form, with a final newline or an arbitrary octet behind; the field is validated with the key record of that size
// @unit c29_long reach=done,threw,ok,fail q=150 steps=400000000: messages, domains, selectors, key files, file names and argument lists of sizes around all powers of two (and 78, 100, 998) up to 4096
// @assume files are replaced by in-memory ones and the standard streams by strings (macros around the tool's source); getopt_long is modelled after glibc (replays and samples run against glibc's)
#include "sign.hpp"
#include <fstream>
#include <iostream>
#include <iterator>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <getopt.h>
#include <netdb.h>
#include <arpa/nameser.h>
#include <resolv.h>
#include "src/Resolver.hpp"
static std::map<std::string, std::string>* files; static std::string *sout, *serr; struct Exit { int code; }; struct Line { std::string file, domain; int state; };
static int put(FILE* f, const char* fmt, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, fmt, b); va_end(b); std::string s((size_t)n + 1, '\0'); vsnprintf(&s[0], s.size(), fmt, a); s.pop_back(); *(f == stderr ? serr : sout) += s; return n; }
static int tool_printf(const char* f, ...) { va_list a; va_start(a, f); int n = put(stdout, f, a); va_end(a); return n; }
static int tool_fprintf(FILE* fp, const char* f, ...) { va_list a; va_start(a, f); int n = put(fp, f, a); va_end(a); return n; }
static int tool_fputs(const char* s, FILE* fp) { *(fp == stderr ? serr : sout) += s; return 1; }
static int tool_puts(const char* s) { *sout += s; *sout += '\n'; return 1; }
static size_t tool_fwrite(const void* p, size_t s, size_t n, FILE* fp) { (fp == stderr ? serr : sout)->append((const char*)p, s * n); return n; }
[[noreturn]] static void tool_exit(int c) { throw Exit{c}; }
namespace std { struct tool_ifstream : istringstream { tool_ifstream() {} explicit tool_ifstream(const string& n, ios_base::openmode = ios_base::in) { open(n); } bool o = false;
	void open(const string& n, ios_base::openmode = ios_base::in) { auto i = files->find(n); o = i != files->end(); if (o) str(i->second); else setstate(failbit); } bool is_open() const { return o; } void close() { o = false; } };
static ostringstream tool_cout, tool_cerr; }
#define printf tool_printf
#define fprintf tool_fprintf
#define fputs tool_fputs
#define puts tool_puts
#define fwrite tool_fwrite
#define exit tool_exit
#define ifstream tool_ifstream
#define cout tool_cout
#define cerr tool_cerr
#define main tool_main
#include "tools/src/main.cpp"
#undef printf
#undef fprintf
#undef exit
#undef main
using namespace DKIM; typedef std::vector<std::string> Args;
static int tool(const Args& a) {
	std::vector<char*> v; std::vector<std::string> st(a); st.insert(st.begin(), "dkimtool"); for (auto& s : st) v.push_back(&s[0]); v.push_back(nullptr); sout->clear(); serr->clear(); std::tool_cout.str(""); std::tool_cerr.str(""); int r;
	try { r = tool_main((int)st.size(), &v[0]); } catch (Exit& e) { r = e.code; } *sout += std::tool_cout.str(); *serr += std::tool_cerr.str(); return r;
}
static void setup() { files = new std::map<std::string, std::string>; sout = new std::string; serr = new std::string; (*files)["k.rsa"] = RSA1_PEM; (*files)["k.ed"] = ED1_SEED_B64; (*files)["k.bad"] = "nokey"; }
// the field the library makes for the configuration the tool documents
static bool expected(const std::string& msg, bool ed, const std::string& key, const std::string& d, const std::string& s, unsigned long arc, std::string& out) {
	try { SignatoryOptions o; o.SetSignatureAlgorithm(ed ? DKIM_SA_ED25519 : DKIM_SA_RSA).SetPrivateKey(key).SetDomain(d).SetSelector(s).SetARCInstance(arc).SetCanonModeHeader(DKIM_C_RELAXED).SetCanonModeBody(DKIM_C_RELAXED).SetTimestamp(-1).SetExpiration(1, false); return tk::sign(msg, o, out); } catch (PermanentError&) { return false; }
}
static void opt(Args& a, int form, char sh, const char* lg, size_t abbr, const std::string& v) {
	if (form == 0) { a.push_back(std::string("-") + sh); a.push_back(v); } else if (form == 1) a.push_back(std::string("-") + sh + v); else if (form == 2) a.push_back(std::string("--") + lg + "=" + v); else if (form == 3) { a.push_back(std::string("--") + lg); a.push_back(v); } else a.push_back("--" + std::string(lg).substr(0, abbr) + "=" + v);
}
static void signs(const Args& a, const std::string& msg, bool ed, const std::string& key, const std::string& d, const std::string& s, unsigned long arc) {
	std::string want; int r = tool(a); if (expected(msg, ed, key, d, s, arc, want)) { sym_reach("done"); CHECK(r == 0, "signing succeeds with status 0"); CHECK(*sout == want + "\r\n", "the tool prints the signature field the library makes for these options"); CHECK(serr->empty(), "nothing is reported"); }
	else { sym_reach("threw"); CHECK(r == 1 && sout->empty() && !serr->empty(), "a refused signature is reported on the error stream with status 1 and nothing is printed"); }
}
UNIT(c29_sign) {
	setup(); std::string w = symStr(1, "w"); std::string msg = "From: " + w + "\r\nSubject: x\r\n\r\nbody\r\n"; (*files)["m"] = msg; (*files)["-m"] = "From: other\n\n";
	int fs = sym_range(0, 4, "fs"), fd = sym_range(0, BND(2, 4), "fd"), fk = sym_range(0, BND(2, 4), "fk"), kt = sym_range(0, 4, "kt"), arc = sym_range(0, 4, "arc"), at = sym_range(0, 2, "at"), again = sym_range(0, 2, "again"); sym_assume(again == 0 || (fd == 0 && fk == 0)); sym_assume(at == 1 || (fd == 1));
	Args a; bool ed = kt == 1 || kt == 2; if (again == 1) opt(a, fd, 's', "selector", 3, "wrong"); if (at == 0) a.push_back("m"); opt(a, fs, 's', "selector", 3, "sel"); if (again == 2) opt(a, fs, 'd', "domain", 1, "wrong.org"); opt(a, fd, 'd', "domain", 1, "ex.org"); if (at == 1) a.push_back("m"); opt(a, fk, 'k', "keyfile", 4, ed ? "k.ed" : "k.rsa");
	if (kt == 1) opt(a, fs == 4 ? 3 : fs, 'K', "keytype", 0, "ed25519"); if (kt == 2) opt(a, fs, 'K', "keyformat", 6, "ed25519"); if (kt == 3) opt(a, fs == 4 ? 2 : fs, 'K', "keytype", 0, "rsa"); if (kt == 4) opt(a, 0, 'K', "", 0, "ed25519"), opt(a, 1, 'K', "", 0, "rsa");
	unsigned long inst = 0; if (arc) { static const char* I[] = {"1", "2", "50", "0"}; inst = arc == 1 ? 1 : arc == 2 ? 2 : arc == 3 ? 50 : 0; opt(a, fs, 'A', "arcinstance", 5, I[arc - 1]); } if (at == 2) { a.push_back("--"); a.push_back("m"); }
	signs(a, msg, ed, ed ? ED1_SEED_B64 : RSA1_PEM, "ex.org", "sel", inst);
}
UNIT(c29_missing) {
	setup(); (*files)["m"] = "From: a\n\nb\n"; bool s = sym_range(0, 1, "s"), d = sym_range(0, 1, "d"); int k = sym_range(0, 4, "k"), m = sym_range(0, 2, "m"), help = sym_range(0, 3, "help"), dom = d ? sym_range(0, 2, "dom") : 0; Args a; static const char* D[] = {"ex.org", "ex..org", "e x"}; static const char* K[] = {"", "k.rsa", "k.none", "k.bad", "k.ed"};
	if (help == 1) a.push_back("-h"); if (s) opt(a, 0, 's', "", 0, "sel"); if (help == 2) a.push_back("--help"); if (d) opt(a, 1, 'd', "", 0, D[dom]); if (k) opt(a, 0, 'k', "", 0, K[k]); if (m) a.push_back(m == 1 ? "m" : "m2"); if (help == 3) a.push_back("-h");
	if (m == 2) (*files)["m2"] = ""; if (help) { sym_reach("help"); CHECK(tool(a) == 0, "help has status 0"); CHECK(!sout->empty() && serr->empty(), "help goes to the output"); CHECK(sout->find("-s,") != std::string::npos, "help names the options"); return; }
	if (!s || !d || !k || !m) { sym_reach("usage"); CHECK(tool(a) == 2, "a missing option or operand has status 2"); CHECK(sout->empty() && !serr->empty(), "the usage goes to the error stream"); return; }
	if (k == 2) { sym_reach("unreadable"); CHECK(tool(a) == 1, "a key file which does not exist has status 1"); CHECK(sout->empty() && !serr->empty(), "it is reported on the error stream"); return; }
	signs(a, (*files)[m == 1 ? "m" : "m2"], false, (*files)[K[k]], D[dom], "sel", 0);
}
extern "C" int sym_dns_hook(void* st, const char* name, int, int, unsigned char* ans, int len);
static void sane(const Args& a) {
	int r = tool(a); CHECK(r == 0 || r == 1 || r == 2, "the status is 0, 1 or 2"); if (r) CHECK(sout->empty() && !serr->empty(), "failures are reported on the error stream only"); else CHECK(serr->empty(), "nothing is reported on success"); sym_reach(r == 2 ? "usage" : "other");
}
UNIT(c29_args) {
	setup(); (*files)["m"] = "From: a\n\nb\n"; int mode = sym_range(0, 3, "mode"); Args a, full = {"-s", "sel", "-dex.org", "--keyfile=k.rsa", "m"}; if (mode == 3) { static const char* L[] = {"--arc", "--arcinstance", "--help", "--validate", "--selector", "--domain", "--keyfile", "--keyformat", "--keytype", "--arcinstance=1", "--help=", "-A", "-avA1"}; std::string l = L[sym_range(0, 12, "l")]; size_t p = (size_t)sym_range(0, (int64_t)l.size(), "p"); std::string w = symStr(1, "w"); sym_assume(w[0] != 0); if (p < l.size()) l[p] = w[0]; if (sym_range(0, 1, "front")) { a = full; a.insert(a.begin(), l); } else { a = full; a.push_back(l); } sane(a); return; }
	size_t n = (size_t)sym_range(1, BND(2, 3), "n"); for (size_t i = 0; i < n; i++) { size_t len = (size_t)sym_range(0, n > 1 ? 2 : 3, "len"); std::string w = symStr(len, "w"); for (char c : w) sym_assume(c != 0); a.push_back(w); } if (mode == 1) a.insert(a.end(), full.begin(), full.end()); if (mode == 2) a.insert(a.begin(), full.begin(), full.end()); sane(a);
}
// ---- validation
enum { GOOD, BODY, HDR, MALFORMED, WRONGKEY, NOKEY, REVOKED, TESTING, FAILING, STATES };
static std::string keyOf(const std::string& sel, int& err) {
	err = 0; switch (sel[0] - 'a') { case GOOD: case BODY: case HDR: case MALFORMED: return tk::record(true); case WRONGKEY: return tk::record(true, 0); case NOKEY: err = HOST_NOT_FOUND; return ""; case REVOKED: return "v=DKIM1; k=ed25519; p="; case TESTING: return tk::record(true, 0, "t=y; "); default: err = TRY_AGAIN; return ""; }
}
extern "C" int sym_dns_hook(void* st, const char* name, int, int, unsigned char* ans, int len) {
	int err = 0; std::string rr = name[0] >= 'a' && name[0] < 'a' + STATES ? keyOf(name, err) : (err = HOST_NOT_FOUND, ""); if (err) { h_errno = err; ((res_state)st)->res_h_errno = err; return -1; }
	std::string a(12, '\0'); a[2] = (char)0x81; a[3] = (char)0x80; a[5] = 1; a[7] = 1; a += std::string("\1x\0", 3) + std::string("\0\x10\0\1", 4); a += std::string("\xc0\x0c\0\x10\0\1\0\0\0\1", 10); a += (char)((rr.size() + 1) >> 8); a += (char)(rr.size() + 1); a += (char)rr.size(); a += rr; for (size_t i = 0; i < a.size() && (int)i < len; i++) ans[i] = (unsigned char)a[i]; return (int)a.size();
}
static std::string field(const std::string& msg, int state, bool arc, const std::string& d = "ex.org") {
	tk::Foreign f; f.name = arc ? "ARC-Message-Signature" : "DKIM-Signature"; f.alg = tk::ED_SHA256; f.hr = f.br = true; f.names = {"from"}; f.pre = std::string(arc ? "i=1; " : "v=1; ") + "a=ed25519-sha256; c=relaxed/relaxed; d=" + d + "; s=" + (char)('a' + state) + "; h=from; " + (state == MALFORMED ? "q=no; " : "") + "bh=%BH%; "; bool ok = true; std::string m = msg; if (state == BODY) m += "changed"; if (state == HDR) m.insert(m.find(':') + 2, "changed"); return tk::foreign(m, f, ok);
}
static std::string verdict(int state) { switch (state) { case GOOD: return " OK"; case BODY: case HDR: case WRONGKEY: return "(fail) = "; case MALFORMED: case NOKEY: case REVOKED: return "(permerror) = "; case TESTING: return "(fail) SOFT:"; default: return "(temperror) TEMPERR:"; } }
static void verdicts(const Args& a, const std::vector<Line>& want) {
	CHECK(tool(a) == 0, "validation has status 0"); CHECK(serr->empty(), "validation reports on the output only"); size_t at = 0;
	for (auto& w : want) { size_t e = sout->find('\n', at); if (e == std::string::npos) { CHECK(false, "one line for every signature field of every file"); return; } std::string l = sout->substr(at, e - at), p = "[" + w.file + "]", sel(1, (char)('a' + w.state)); at = e + 1; if (w.state != MALFORMED) p += "[" + w.domain + "][" + sel + "]"; std::string v = verdict(w.state);
		CHECK(l.compare(0, p.size(), p) == 0, "the line names the file, domain and selector of the signature, in order"); if (w.state == MALFORMED) { size_t q = l.find(v); std::string x = q == std::string::npos ? "" : l.substr(p.size(), q - p.size()); CHECK(x == "[][]" || x == "[" + w.domain + "][]" || x == "[][" + sel + "]" || x == "[" + w.domain + "][" + sel + "]", "the verdict is the one of the library, for this signature"); } else CHECK(w.state == GOOD ? l == p + v : l.compare(p.size(), v.size(), v) == 0, "the verdict is the one of the library"); }
	CHECK(at == sout->size(), "no other lines are printed");
}
UNIT(c29_validate) {
	setup(); bool arc = sym_range(0, 1, "arc"); int n = sym_range(1, BND(2, 3), "n"); Args a; int form = sym_range(0, 2, "form"); if (form == 0) { a.push_back("-v"); if (arc) a.push_back("-a"); } else if (form == 1) a.push_back(arc ? "-av" : "-v"); else { a.push_back("--validate"); if (arc) a.push_back("--arc"); } std::vector<Line> want; bool rep[STATES] = {false};
	for (int i = 0; i < n; i++) { std::string name = std::string("m") + (char)('0' + i), msg = "From: x" + name + "\r\n\r\nbody\r\n", f; int k = n == 1 ? sym_range(0, 2, "k") : 1 + sym_range(0, 1, "k"); if (n == 3) k = 1; for (int j = 0; j < k; j++) { int st = j == 0 || n == 1 ? sym_range(0, STATES - 1, "st") : (i ? HDR : GOOD); bool other = j == 1 && i == 0 && sym_range(0, 1, "other"); std::string d = std::string("e") + (char)('0' + 2 * i + j) + ".org"; f += field(msg, st, other ? !arc : arc, d) + "\r\n"; if (!other) { want.push_back({name, d, st}); rep[st] = true; } } (*files)[name] = f + msg; a.push_back(name); }
	bool gone = sym_range(0, 1, "gone"); if (gone) a.insert(a.end() - 1, "absent"); verdicts(a, want);
	sym_reach(want.empty() ? "none" : rep[GOOD] ? "ok" : rep[TESTING] ? "soft" : rep[FAILING] ? "temp" : rep[MALFORMED] || rep[NOKEY] || rep[REVOKED] ? "perm" : "fail");
}
UNIT(c29_octets) {
	setup(); std::string msg = "From: x\n\n", was = "a b\n", now = symStr((size_t)sym_range(0, BND(4, 5), "n"), "body"); (*files)["m"] = field(msg + was, GOOD, false) + "\n" + msg + now; bool same = ref::body(was, true) == ref::body(now, true); Args a = {"m", "-v"};
	CHECK(tool(a) == 0, "validation has status 0"); std::string v = same ? "[m][ex.org][a] OK\n" : "[m][ex.org][a](fail) = "; CHECK(same ? *sout == v : sout->compare(0, v.size(), v) == 0, "OK is printed exactly for an unchanged message"); sym_reach(same ? "ok" : "fail");
}
UNIT(c29_instance) {
	setup(); std::string msg = "From: a\n\nb\n"; (*files)["m"] = msg; int v = sym_range(0, BND(59, 199), "v"), z = sym_range(0, 2, "z"), form = sym_range(0, 3, "form"); std::string t = std::string((size_t)z, '0') + std::to_string(v); Args a = {"-s", "sel", "-dex.org", "-kk.rsa"}; opt(a, form, 'A', "arcinstance", 0, t); a.push_back("m"); signs(a, msg, false, RSA1_PEM, "ex.org", "sel", (unsigned long)v);
}
UNIT(c29_keys) {
	setup(); std::string msg = "From: a\n\nb\n"; (*files)["m"] = msg; int form = sym_range(0, 7, "form"), tail = sym_range(0, 3, "tail"); bool ed = form > 1; std::string key = form == 0 ? RSA1_PEM : form == 1 ? RSA1_DER_B64 : form == 2 ? ED1_SEED_B64 : form == 3 ? ED1_SK_B64 : form == 4 ? tk::seed(1) : ""; if (form == 5) ref::dec64(ED1_SK_B64, key);
	if (form > 5) { key = std::string(form == 6 ? 32 : 64, '\x91'); std::string w = symStr(2, "w"); size_t p = (size_t)sym_range(0, 2, "p"); key[p == 0 ? 0 : p == 1 ? key.size() / 2 : key.size() - 2] = w[0]; key[p == 0 ? 1 : p == 1 ? key.size() / 2 + 1 : key.size() - 1] = w[1]; } if (form > 5 && tail) return; if (tail == 1) key += "\n"; if (tail == 2) key += "\r\n"; if (tail == 3) key += symStr(1, "t");
	(*files)["k"] = key; Args a = {"-s", "sel", "-dex.org", "-kk", "m"}; if (ed) a.insert(a.begin(), "-Ked25519"); signs(a, msg, ed, key, "ex.org", "sel", 0);
}
UNIT(c29_long) {
	setup(); int mode = sym_range(0, 7, "mode"); size_t n = symLen(4096); std::string msg = "From: a\n\nb\n", name = "m", sel = "a", dom = "ex.org", key = ED1_SEED_B64;
	if (mode == 0) { std::string to; while (to.size() * 3 < n * 7) to += "to: a\n"; msg = to + msg; } if (mode == 1) msg = "Subject: " + symRep("words and ", n) + "\n" + msg; if (mode == 2) msg += symRep("line of text\n", n); if (mode == 3) name = symRep("dir/name", n); if (mode == 4) sel = symRep("abcdefg.", n), sel[n - 1] = 'x'; if (mode == 5) dom = symRep("abcdefg.", n), dom[n - 1] = 'x'; if (mode == 6) key += symRep("\n", n); (*files)[name] = msg; (*files)["k"] = key;
	Args a = {"-s", sel, "-d" + dom, "-kk", "--keytype=ed25519", name}; if (mode == 7) { Args b; size_t k = n / 32; if (k > 40) return; for (size_t i = 0; i < k; i++) { b.push_back("-a"); b.push_back("-dother.org"); } a.insert(a.begin(), b.begin(), b.end()); } signs(a, msg, true, key, dom, sel, 0); if (mode == 6 || sout->size() < 3) return;
	// the field made is then put in front of the message and validated
	std::string fld = sout->substr(0, sout->size() - 2); bool changed = sym_range(0, 1, "changed"); (*files)[name] = fld + "\n" + (changed ? msg + "x\n" : msg); Args v = {"-v", name}; if (mode == 7) { size_t k = n / 32; for (size_t i = 0; i < k; i++) v.push_back(name); } CHECK(tool(v) == 0, "validation has status 0"); std::string p = "[" + name + "][" + dom + "][" + sel + "]" + (changed ? "(fail) = " : " OK\n"); CHECK(sout->compare(0, p.size(), p) == 0, "the verdict names the file, domain and selector"); sym_reach(changed ? "fail" : "ok");
	if (!changed) { std::string all; for (size_t i = 1; i < v.size(); i++) all += p; CHECK(*sout == all, "one line for every file"); }
}
UNIT(c29_rsakeys) {
	setup(); int which = sym_range(0, 5, "which"), tail = sym_range(0, 2, "tail"); bool pem = which == 5 || sym_range(0, 1, "pem"); std::string key = which == 5 ? RSA1_P8 : pem ? tk::RSA_PEM[which] : tk::RSA_DER[which], msg = "From: a\n\nb\n"; if (which == 5) which = 1; if (tail == 1) key += "\n"; if (tail == 2) { if (!pem) return; key += symStr(1, "t"); sym_assume(key.back() != 0); }
	(*files)["m"] = msg; (*files)["k"] = key; signs({"-ssel", "-dex.org", "-kk", "m"}, msg, false, key, "ex.org", "sel", 0); sym_reach("signed"); if (sout->size() < 3) return;
	std::string fld = sout->substr(0, sout->size() - 2); CHECK(tk::verify(fld + "\r\n" + msg, tk::record(false, which)) == tk::PASS, "the field made verifies"); sym_reach("ok");
}
