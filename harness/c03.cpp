// C03 verification hashes exactly the header input RFC 6376 prescribes
// @unit c03_layout reach=first,middle,last,ws,folded: a foreign signer's field with b= first, in the middle or last, every combination of up to 2 white space items (space, tab, CRLF+space) before and after its value, folded value, missing final semicolon, three algorithms, both header modes
// @unit c03_select reach=repeated,absent,mixed: h= lists of From plus every choice of 3 (quick) / 4 (thorough) names out of 6 (different letter case, repeated, absent), message with repeated fields and symbolic field contents
// @unit c03_other reach=equal,differs: the signature is made over another order or choice of 2 / 3 names than h= states: accepted only when the hashed input is the same
// @unit c03_value reach=pass,reject q=120: every Subject value of up to 3 (quick) / 5 (thorough) octets, LF and CRLF, both modes
// @unit c03_field reach=pass: every 3 / 4 octets (printable, space, tab, CRLF+space) as value of an unknown tag of the signature field, in front of and behind b=, both modes, every letter case of the field name
// @unit c03_long reach=pass q=200 steps=600000000: foreign signatures over 30..257 and 1500 fields (distinct, or one name repeated as often in message and h=, with surplus occurrences above), with signed values of 30..4097 octets, and with an unknown tag of 30..4097 octets in the field, both modes
// @unit c03_keys reach=pass,reject q=100: foreign signatures with RSA keys of 512, 1024, 2048, 4096 and 8192 bits, both hashes, both modes, b= folded every 20 or 60 octets or not, one octet of Subject arbitrary, and verified with a key of another size
// @unit c03_self reach=dkim,arc q=100: h= lists the name of the signature field itself 0..3 times (any letter case) among 0..2 other fields of that name above and below the verified one: the field never covers itself (RFC 6376 3.5)
#include "sign.hpp"
using namespace DKIM;
static const char* CAN[] = {"simple/simple", "relaxed/simple", "simple/relaxed", "relaxed/relaxed"};
static tk::Foreign base(int alg, bool hr, const std::string& h) { tk::Foreign f; f.alg = alg; f.hr = hr; f.pre = std::string("v=1; a=") + tk::ALG[alg] + "; c=" + (hr ? "relaxed" : "simple") + "; d=ex.org; s=s1; h=" + h + "; bh=%BH%; "; return f; }
static int run(const std::string& msg, const tk::Foreign& f, bool& ok) { std::string fld = tk::foreign(msg, f, ok); return tk::verify(fld + "\r\n" + msg, tk::record(f.alg == tk::ED_SHA256, f.which)); }
UNIT(c03_layout) {
	int where = sym_range(0, 3, "where"), w1 = sym_range(0, 12, "w1"), w2 = sym_range(0, 12, "w2"), alg = sym_range(0, 2, "alg"); bool hr = sym_range(0, 1, "hr"); int fold = sym_range(0, 2, "fold");
	static const char* W[] = {"", " ", "\t", "\r\n "}; auto ws = [&](int k) { return k == 0 ? std::string() : k < 4 ? std::string(W[k]) : std::string(W[1 + (k - 4) / 3]) + W[1 + (k - 4) % 3]; };
	std::string msg = "From: a@b\nSubject:  x  y \n\nhi\n"; tk::Foreign f = base(alg, hr, "From : Subject"); f.names = {"from", "subject"}; bool ok = true;
	std::string all = f.pre; if (where == 0) { f.pre = ""; f.post = "; " + all; sym_reach("first"); } else if (where == 1) { f.pre = "v=1; a=" + std::string(tk::ALG[alg]) + ";\r\n "; f.post = ";" + all.substr(all.find(" c=")); sym_reach("middle"); } else sym_reach("last"); if (where == 3) f.post = ";";
	f.ws1 = ws(w1); f.ws2 = ws(w2); if (where == 2 && f.ws2.size() > 1 && f.ws2.substr(f.ws2.size() - 2) == "\r\n") return; if (fold) { f.fold = fold == 1 ? 20 : 60; sym_reach("folded"); } if (w1 && w2) sym_reach("ws");
	int r = run(msg, f, ok); CHECK(r != tk::FAIL, "a conforming signature is accepted wherever b= stands (fail)"); CHECK(r == tk::PASS, "a conforming signature is accepted wherever b= stands");
}
static const char* NM[] = {"from", "SUBJECT", "to", "Received", "received", "cc"};
static std::string message(std::string& v) { v = symStr(4, "v"); for (char c : v) sym_assume(c >= 'a' && c <= 'e'); return std::string("Received: ") + v[0] + "\nFrom: a@" + v[1] + "\nrECEIVED : 2\n\t" + v[2] + "\nTo:x\nReceived: " + v[3] + "\nSubject: s\n\nb\n"; }
UNIT(c03_select) {
	const int K = BND(3, 4); bool hr = sym_range(0, 1, "hr"); std::string v, msg = message(v), h; std::vector<std::string> ns; int fp = sym_range(0, K, "fp"); bool rep = false;
	for (int i = 0; i <= K; i++) { std::string n = i == fp ? "From" : NM[sym_range(0, 5, "n")]; if (n == "cc") sym_reach("absent"); for (auto& o : ns) if (ref::ieq(o, n)) rep = true; h += (i ? (i & 1 ? ":" : " : ") : "") + n; ns.push_back(n); } if (rep) sym_reach("repeated"); if (h.find("SUB") != std::string::npos) sym_reach("mixed");
	tk::Foreign f = base(tk::ED_SHA256, hr, h); f.names = ns; bool ok = true; CHECK(run(msg, f, ok) == tk::PASS, "fields are taken from the bottom in the order of h=");
}
UNIT(c03_other) {
	const int K = BND(2, 3); bool hr = sym_range(0, 1, "hr"); std::string v, msg = message(v), h = "from"; std::vector<std::string> a{"from"}, b{"from"};
	for (int i = 0; i < K; i++) { a.push_back(NM[sym_range(0, 5, "a")]); h += ":" + a.back(); } for (int i = 0; i < K; i++) b.push_back(NM[sym_range(0, 5, "b")]);
	tk::Foreign f = base(tk::ED_SHA256, hr, h); f.names = b; bool ok = true; bool same = tk::headerInput(msg, a, "x:y", hr, ok) == tk::headerInput(msg, b, "x:y", hr, ok); int r = run(msg, f, ok); sym_reach(same ? "equal" : "differs");
	if (same) CHECK(r == tk::PASS, "the same input is accepted"); else { CHECK(r != tk::PASS, "a signature over other fields is rejected"); CHECK(r == tk::FAIL, "a signature over other fields is a failed signature"); }
}
UNIT(c03_value) {
	bool hr = sym_range(0, 1, "hr"), crlf = sym_range(0, 1, "crlf"); std::string nl = crlf ? "\r\n" : "\n"; size_t n = sym_range(0, BND(3, 5), "n"); std::string v = symStr(n, "v"), msg = "From: a" + nl + "Subject:" + v + nl + "To: c" + nl + nl + "b" + nl;
	tk::Foreign f = base(tk::ED_SHA256, hr, "from:to:subject"); f.names = {"from", "to", "subject"}; bool ok = true; int r = run(msg, f, ok);
	if (ok) { sym_reach("pass"); CHECK(r == tk::PASS, "the canonical form of every field content is hashed"); } else { sym_reach("reject"); CHECK(r == tk::PERM, "a field without canonical form is a permanent error"); }
}
UNIT(c03_field) {
	bool hr = sym_range(0, 1, "hr"), front = sym_range(0, 1, "front"); size_t n = sym_range(1, BND(3, 4), "n"); std::string v, w = symStr(n, "v"); for (char c : w) { sym_assume((c >= 0x20 && c <= 0x7e && c != ';') || c == '\t' || c == '\n'); if (c == '\n') v += "\r\n "; else v += c; }
	bool up = sym_range(0, 1, "up"); tk::Foreign f = base(tk::ED_SHA256, hr, "from"); if (up) { f.name = "dkim-sIGNATURE \t"; f.lead = "\r\n\t"; } f.names = {"from"}; if (front) f.pre += "zz=" + v + "; "; else f.post = "; zz=" + v; 
	bool ok = true; sym_reach("pass"); CHECK(run("From: a\n\nb\n", f, ok) == tk::PASS, "every layout of the signature field is hashed as it stands");
}
UNIT(c03_long) {
	int k = sym_range(0, 5, "kind"); bool hr = sym_range(0, 1, "hr"); size_t n = k < 3 ? symLen(BND(128, 256), 1, 1500) : symLen(4096, 2); std::string h = "from", m, v = symStr(2, "v"); for (char c : v) sym_assume((c >= 'a') & (c <= 'e')); std::vector<std::string> ns{"from"};
	if (k == 0) for (size_t i = 0; i < n; i++) { std::string x = "X" + ref::num(i); ns.push_back(x); h += ":" + x; if (i % 5) m += x + ": " + v + "\n"; } if (k == 1) for (size_t i = 0; i < n; i++) { ns.push_back("rec"); h += " :\r\n rec"; m += "Rec: " + ref::num(i) + v + "\n"; } if (k == 2) for (size_t i = 0; i < n; i++) { if (i > 2) { ns.push_back("rec"); h += ":REC"; } m += "rec: " + ref::num(i) + v + "\n"; }
	if (k == 3) { ns.push_back("x"); h += ":x"; m = "x:" + v + symRep("text  ", n) + v + "\n"; } if (k == 4) { ns.push_back("x"); h += ":x"; m = "x:"; for (size_t i = 0; i < n / 8; i++) m += "text\r\n\t "; m += v + "\n"; } tk::Foreign f = base(tk::ED_SHA256, hr, h); f.names = ns; if (k == 5) { bool front = sym_range(0, 1, "front"); std::string z = "zz=" + v + symRep("tag text ", n) + v; if (front) f.pre = z + "; " + f.pre; else f.post = "; " + z; }
	bool ok = true; CHECK(run(m + "From: a\n\nb\n", f, ok) == tk::PASS, "the canonical form of every signed field is hashed"); sym_reach("pass");
}
UNIT(c03_self) {
	bool arc = sym_range(0, 1, "arc"), hr = sym_range(0, 1, "hr"); int n = sym_range(0, 3, "n"), others = sym_range(0, 2, "others"), pos = sym_range(0, others + 2, "pos"), mix = sym_range(0, 1, "mix"); std::string w = symStr(1, "w"), self = arc ? "ARC-Message-Signature" : "DKIM-Signature", lower = arc ? "arc-message-signature" : "dkim-signature"; sym_assume(w[0] != '\n'); sym_assume(w[0] != '\r');
	std::vector<std::string> fs; for (int i = 0; i < others; i++) fs.push_back((i ? self : lower) + ": v=1; zz=" + (i ? "two" : "one" + w)); fs.insert(fs.begin() + (others > 1 ? 1 : 0), "From: a"); fs.push_back("To: b"); std::string msg, h = "from"; for (auto& f : fs) msg += f + "\n"; msg += "\nbody\n";
	tk::Foreign f = base(tk::ED_SHA256, hr, ""); f.names = {"from"}; for (int i = 0; i < n; i++) { std::string x = (i ^ mix) & 1 ? self : lower; h += ":" + x; f.names.push_back(x); } f.name = self; f.pre = std::string(arc ? "i=1;" : "v=1;") + " a=ed25519-sha256; c=" + (hr ? "relaxed" : "simple") + "; d=ex.org; s=s1; h=" + h + "; bh=%BH%; "; bool ok = true; std::string fld = tk::foreign(msg, f, ok), all; int above = 0; for (size_t i = 0; i <= fs.size(); i++) { if ((int)i == pos) all += fld + "\n"; if (i < fs.size()) { all += fs[i] + "\n"; if ((int)i < pos && ref::ieq(fs[i].substr(0, self.size()), self)) above++; } } all += "\nbody\n";
	std::stringstream st(all); Validatory v(st, arc ? Validatory::ARC : Validatory::DKIM); auto it = v.GetSignatures().begin(); while (above--) ++it; sym_reach(arc ? "arc" : "dkim"); CHECK(ok && tk::check(v, *it, tk::record(true)) == tk::PASS, "the field being verified is not among the fields h= selects");
}
UNIT(c03_keys) {
	int which = sym_range(0, 4, "which"), other = sym_range(0, 4, "other"), fold = sym_range(0, 2, "fold"); bool hr = sym_range(0, 1, "hr"), sha1 = sym_range(0, 1, "sha1"); std::string w = symStr(1, "w"), msg = "From: a@b\nSubject: x " + w + "y\n\nhi\n"; tk::Foreign f = base(sha1 ? tk::RSA_SHA1 : tk::RSA_SHA256, hr, "From:Subject"); f.names = {"from", "subject"}; f.which = which; f.fold = fold * 20 + (fold == 2 ? 20 : 0); bool ok = true; sym_assume(w[0] != '\n' && w[0] != '\r');
	std::string fld = tk::foreign(msg, f, ok); int r = tk::verify(fld + "\r\n" + msg, tk::record(false, other)); if (other == which) { CHECK(r == tk::PASS, "a signature made with a key of any size is accepted"); sym_reach("pass"); } else { CHECK(r == tk::FAIL, "a signature made with another key fails"); sym_reach("reject"); }
}
