// Content checks: C05 (body), C06 (attachments), C07 (headers), C08 (injection)
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
#include "scen.h"
namespace mc {
template <class T> static T choose(const std::vector<T> &v, const char *l) { return v[pick((int)v.size(), l)]; }
static void note(const std::string &x) { EnvGuard g; scenarioNote(x); }
// Sends many messages through one configuration, in a fresh environment every `per` messages, and judges each
struct Bulk {
    Scn s; unsigned what; int per, n = 0, total = 0; bool batch; std::unique_ptr<Run> r; std::unique_ptr<IClient> c;
    Bulk(const Scn &sc, unsigned w, int p = 64) : s(sc), what(w), per(p) {}
    ~Bulk() { close(); EnvGuard g; countEval((uint64_t)total, 0); }
    void close() { if (!c) return; r->dtor(c); EnvGuard g; monProtocol(*r); r.reset(); n = 0; }
    SendRes send(const MsgSpec &m) {
        if (!c) { { EnvGuard g; r = std::make_unique<Run>(s); } c.reset(make(s)); }
        SendRes x = r->send(c.get(), m); EnvGuard g; total++;
        if (x.rc != 0) violate("nothing failed but the result is " + std::to_string(x.rc) + " (" + msgDesc(m) + ")");
        int acc = 0; for (size_t i = x.txn0; i < x.txn1; i++) acc += r->w.txns[i].accepted; if (acc != 1) violate(std::to_string(acc) + " messages accepted (" + msgDesc(m) + ")");
        // exactly the commands of one transaction
        std::vector<int> want = plan(s, m, x.freshSession), got; for (size_t i = x.cmd0; i < x.cmd1; i++) got.push_back(r->w.cmds[i].step); if (!want.empty() && want[0] == S_CONNECT) want.erase(want.begin());
        if (got != want) { std::string a; for (int k : got) a += std::string(" ") + stepName(k); violate("the server saw other commands than the message calls for:" + a + " (" + msgDesc(m) + ")"); }
        monEnvelope(*r, x, s); monContent(*r, x, s, what);
        if (++n >= per) { EnvGuard h; envDepth--; close(); envDepth++; }
        return x;
    }
};
static MsgSpec base(bool html = false) { EnvGuard g; MsgSpec m; m.from = {"sender@mail.test", ""}; m.to = {{"to@example.com", ""}}; m.subject = "Subject"; m.body = "Body"; m.html = html; return m; }
static Scn plainScn(int kind, int api, bool batch = true) { return scn(kind, api, false, batch); }
static void overStrings(const std::string &alpha, int len, const std::string &pre, const std::function<void(const std::string &)> &f) { if ((int)pre.size() == len) { f(pre); return; } for (char c : alpha) overStrings(alpha, len, pre + c, f); }
static std::string rep(char c, size_t n) { return std::string(n, c); }
// text without period that shows losses, duplications and reorderings
static std::string patt(size_t n) { std::string t; t.reserve(n); unsigned k = 0; while (t.size() < n) { char b[16]; snprintf(b, sizeof b, "%05u ", k++); t += b; if (k % 11 == 0) t += "\r\n"; } t.resize(n); if (!t.empty() && t.back() == '\r') t.back() = 'x'; return t; }

// ================================================================== C05
static void c05Short() {   // every body over a small alphabet
    static const std::string al = ".\r\na-\xE9"; int mx = tierSel(5, 7); int a = pick((int)al.size() + 1, "first"), b = a == (int)al.size() ? 0 : pick((int)al.size() + 1, "second"), att = pick(2, "attachment"); MsgSpec m = base(pick(2, "html") == 1);
    Scn s = plainScn(PLAIN, m.html ? 1 : 0); std::string pre; if (a < (int)al.size()) { pre += al[a]; if (b < (int)al.size()) pre += al[b]; }
    if (att || m.html) mx -= thorough() ? 2 : 1;
    if (att) { EnvGuard g; m.atts.push_back({mkFile("dots.txt", ".\r\n..\r\n--sep\r\n"), "dots.txt", ""}); } note("bodies over {. CR LF a - \\xE9} beginning with " + esc(pre));
    Bulk k(s, MC_ALL); auto one = [&](const std::string &t) { { EnvGuard g; m.body = t; } k.send(m); };
    if (pre.size() < 2) one(pre); else for (int l = 2; l <= mx; l++) overStrings(al, l, pre, one);
    EnvGuard g; outcome("ok");
}
static void c05Tokens() {  // sequences of tokens that mean something to the protocol or to the format
    static const std::vector<std::string> tok{".", "\r\n.\r\n", "\r\n", "--sep", "\r\n--sep--\r\n", "\r\n--sep\r\n", "QUIT\r\n", "\r\n.\r\nMAIL FROM:<x@y.co>\r\n", "Content-Type: a/b\r\n\r\n", "--", "..\r\n", "--sep1\r\n", "\r\n--", "text", " ", "From x\r\n"};
    int n = 1 + pick(tierSel(3, 4), "tokens"), cfg = n <= 2 ? pick(8, "configuration") : pick(n == 3 && thorough() ? 4 : 2, "configuration"); MsgSpec m = base(cfg & 2); Scn s = plainScn(n <= 2 ? (cfg & 4 ? FORCED : PLAIN) : PLAIN, cfg & 2 ? 1 : 0);
    if (cfg & 1) { EnvGuard g; m.atts.push_back({mkFile("a.bin", "--sep\r\n.\r\n" + std::string("\0\1\2", 3)), "a.bin", ""}); } int f = pick((int)tok.size(), "token"); note("token sequences beginning with " + esc(tok[f]));
    Bulk k(s, MC_ALL); std::function<void(int, std::string)> go = [&](int left, std::string t) { if (!left) { { EnvGuard g; m.body = t; } k.send(m); return; } for (auto &x : tok) go(left - 1, t + x); };
    go(n - 1, tok[f]); EnvGuard g; outcome("ok");
}
static void c05Positions() {   // a token at every position
    static const std::vector<std::string> tok{".", "\r\n.", "\r\n.\r\n", "\r\n..\r\n", "\r\n--sep\r\n", "\r\n--sep--\r\n", "\r\n"}; int kind = pick(3, "kind"); int t = pick((int)tok.size(), "token"); int hi = kind == PLAIN ? tierSel(1200, 4800) : tierSel(100, 1200); int blk = pick(hi / 100, "position block"), tail = pick(tierSel(2, 3), "tail");
    int off = kind == PLAIN || thorough() ? 0 : 330; MsgSpec m = base(); Scn s = plainScn(kind, pick(tierSel(1, 2), "api")); note(esc(tok[t]) + " at position " + std::to_string(off + blk * 100) + "..."); Bulk k(s, MC_ALL);
    for (int i = 0; i < 100; i++) { { EnvGuard g; m.body = rep('a', (size_t)(off + blk * 100 + i)) + tok[t] + (tail == 0 ? "" : tail == 1 ? "tail" : rep('b', 700)); } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c05Lengths() {
    int kind = pick(3, "kind"), step = 50, hi = kind == PLAIN ? tierSel(4300, 70000) : tierSel(600, 18000), blk = pick(hi / step, "length block"), shape = pick(2, "shape"); bool batch = kind != PLAIN || blk % 4 != 3; MsgSpec m = base(); Scn s = plainScn(kind, blk % 2, batch); note("bodies of length " + std::to_string(blk * step) + "...");
    Bulk k(s, MC_ALL); for (int i = 0; i < step; i++) { { EnvGuard g; m.body = shape ? rep('x', (size_t)(blk * step + i)) : patt((size_t)(blk * step + i)); } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c05Large() {
    static const std::vector<size_t> ln{8191, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072, 1000000, 3000000}; int kind = pick(3, "kind"); size_t n = ln[pick((int)ln.size(), "length")] + (size_t)pick(3, "more") - 1; int sh = pick(4, "shape"); if (n > 200000 && sh > 1) return; MsgSpec m = base(sh & 1); Scn s = plainScn(kind, pick(2, "api"), pick(2, "batch")); { EnvGuard g; if (sh == 0 || sh == 1) m.body = patt(n); else if (sh == 2) { while (m.body.size() < n) m.body += ".\r\n"; } else { while (m.body.size() < n) m.body += "..x.\r\n.\r\n"; } } note("body of " + std::to_string(n) + " bytes");
    { Bulk k(s, MC_ALL); k.send(m); } EnvGuard g; outcome("ok");
}
static void c05Bytes() {   // every byte value, alone, after a dot and at a line start
    int kind = pick(3, "kind"), api = pick(2, "api"); MsgSpec m = base(pick(2, "html")); Scn s = plainScn(kind, api); note("every byte value"); Bulk k(s, MC_ALL); int only = kind == PLAIN ? 1 : 5;
    for (int b = 1; b < 256; b += only) for (int f = 0; f < 5; f++) { { EnvGuard g; std::string c(1, (char)b); m.body = f == 0 ? c : f == 1 ? "\r\n" + c + "\r\n" : f == 2 ? "\r\n." + c : f == 3 ? c + "\r\n.\r\n" : "x" + c + c + ".\r\n" + c; } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c05Faults(unsigned faults) {   // the network takes the data in pieces
    static const std::vector<std::string> bodies{"a\r\n.\r\nb\r\n..\r\n", ".", "x\r\n--sep\r\n.\r\n", ""}; int kind = pick(3, "kind"); Scn s = plainScn(kind, pick(2, "api"), pick(2, "batch")); MsgSpec m = base(); int bi = pick(4, "body"); { EnvGuard g; m.body = bi == 3 ? patt(1300) + "\r\n.\r\n" + patt(700) : bodies[(size_t)bi]; if (pick(2, "attachment")) m.atts.push_back({mkFile("b.bin", patt(900)), "b.bin", ""}); } note("data taken in pieces");
    Run r(s); r.w.faults = faults; std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), m); { EnvGuard g; monContent(r, x, s, MC_ALL); monResult(r, x, s); monSuccess(r, x, s); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c05Dictionary() {   // texts that mean something elsewhere, as the body and at its edges
    auto &d = oddTexts(); int html = pick(2, "html"), att = pick(2, "attachment"), kind = pick(3, "kind"), blk = pick(8, "block"); if (kind != PLAIN && !thorough() && (html || att)) return; MsgSpec m = base(html); Scn s = plainScn(kind, html ? 1 : pick(2, "api"), blk % 2); note("meaningful texts in the body");
    if (att) { EnvGuard g; m.atts.push_back({mkFile("d.txt", "attached"), "d.txt", ""}); }
    { Bulk k(s, MC_ALL); for (size_t i = (size_t)blk; i < d.size(); i += 8) for (int f = 0; f < 10; f++) { { EnvGuard g; const std::string &t = d[i]; m.body = f == 0 ? t : f == 1 ? t + "text" : f == 2 ? "text" + t : f == 3 ? "line\r\n" + t + "\r\nline" : f == 4 ? "line\r\n" + t : f == 5 ? t + t : f == 6 ? t + "\r\n" : f == 7 ? std::string(470, 'a') + t + std::string(30, 'b') : f == 8 ? "a " + t + " b" : t + "\n" + t + "\r" + t; } k.send(m); } }
    EnvGuard g; outcome("ok");
}
static void c05Repeated() {   // a whole body of one unit, so that every unit meets every internal edge
    static const std::vector<std::string> units{"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "e\xCC\x81", "\x80", "\xBF", "\xC3", "\xFF", ".", "\r", "\n", "\r\n", "\n\r", " ", "\t", "=", "=20", "=\r\n", "-", "--", "--sep\r\n", ".\r\n", "\r\n.", "a ", " \r\n", "a\n", "\x1B$B", "<br>", "&amp;", "\\", "%s", "\x01", "\x7F", "a.b\r\n..\r\n"};
    int kind = pick(tierSel(1, 3), "kind"), html = pick(2, "html"), u = pick((int)units.size(), "unit"), lead = pick(tierSel(5, 9), "lead"); MsgSpec m = base(html); Scn s = plainScn(kind, html ? 1 : lead % 2); note("bodies that repeat " + esc(units[u])); Bulk k(s, MC_ALL);
    for (size_t around : {3, 64, 76, 78, 128, 256, 500, 512, 998, 1000, 1024, 1460, 2048, 4096}) for (size_t d = 0; d < (thorough() ? 6u : 3u); d++) for (int tail = 0; tail < 2; tail++) { if (around > 2000 && d) continue; { EnvGuard g; std::string b((size_t)lead, 'x'); while (b.size() + units[u].size() <= around) b += units[u]; for (size_t i = 0; i < d; i++) b += units[u]; m.body = b + (tail ? rep('y', 600) : ""); } k.send(m); }
    EnvGuard g; outcome("ok");
}
static std::string binary(size_t n, unsigned seed) { std::string t; t.reserve(n); for (size_t i = 0; i < n; i++) t += (char)((i * 131 + (i >> 8) * 17 + seed * 97 + (i / 251)) & 255); return t; }
// what the server offers does not change what it is sent
static void extensions(int focus) {
    Scn s = scn(pick(3, "kind"), pick(2, "api"), false, pick(2, "batch")); std::string d; auto l = extensionList(d); bool html = pick(2, "html"); if (!thorough() && ((s.api != html) || (s.kind != PLAIN && !s.batch))) return; { EnvGuard g; setExtensions(s, l); } note("server offers" + d); Bulk k(s, MC_ALL);
    static const std::vector<std::string> bodies{"caf\xE9", "\xC3\xA9 \xE2\x82\xAC\r\n", ".\r\n..\r\n.", "plain text\r\n", "=3D soft=\r\nbreak", "a\nb\rc", "\x80\x01\x7F\xFF"};
    for (int v = 0; v < 12; v++) { MsgSpec m = base(html); { EnvGuard g; m.body = v < 7 ? bodies[(size_t)v] : v == 7 ? rep('l', 1200) : v == 8 ? rep('\xE9', 700) : v == 9 ? patt(3000) : v == 10 ? "" : "caf\xE9\r\n" + patt(9000);
        if (focus == 6 || v % 3 == 1) { m.atts.push_back({mkFile("x" + std::to_string(v) + ".bin", v % 2 ? patt((size_t)v * 97) : binary((size_t)v * 331 + 64, (unsigned)v)), v % 4 ? "x\xC3\xA9.bin" : "x.txt", v & 1 ? "id" : ""}); if (focus == 6 && v % 2) m.atts.push_back({mkFile("y.txt", "text of the second\r\n.\r\n"), "y.txt", ""}); }
        if (focus == 7) { m.subject = v % 2 ? "Caf\xC3\xA9 " + std::to_string(v) : rep('s', (size_t)v * 90 + 1); m.from.name = v % 3 ? "S\xC3\xA9nder" : "Sender"; m.to[0].name = v % 4 ? "R\xE9" : ""; m.to.push_back({"two@example.com", "Two"}); if (v % 3) m.cc = {{"cc@example.org", "C\xC3\xA7"}, {"dd@example.org", ""}}; if (v % 2) m.bcc = {{"hidden@secret.net", ""}}; } }
        k.send(m); }
    k.close(); EnvGuard g; outcome("ok");
}
static Phase extPhase(int focus) { return {"server extensions", [focus] { extensions(focus); }, 0, 0, "servers that advertise none, every one, every pair or all of 18 extensions (8BITMIME, SIZE 64, CHUNKING, SMTPUTF8 ...): 12 messages with 8-bit, long and dotted contents; HTML/plain; kinds, APIs, batch"}; }
static Reg rC05("C05", {
    {"short bodies", c05Short, 0, 0, "every body of length 0..5 (0..7) over {. CR LF a - 0xE9}; with an attachment, and HTML through the C++ interface, one shorter (two shorter)"},
    {"token sequences", c05Tokens, 0, 0, "every sequence of up to 3 (4) of 16 tokens (end of data, delimiters, commands, headers), with and without attachment, HTML/plain, plain/forced TLS"},
    {"every position", c05Positions, 0, 0, "7 tokens at every position 0..1199 (4799) of the body, TLS 330..429 (0..1199), with different tails"},
    {"every length", c05Lengths, 0, 0, "every body length 0..4299 (69999), TLS 0..599 (17999), two shapes"},
    {"large bodies", c05Large, 0, 0, "12 sizes up to 3 MB, +-1, 4 shapes, all kinds, APIs, batch"},
    {"every byte", c05Bytes, 0, 0, "every byte value 1..255 in 5 contexts (every 5th over TLS)"},
    {"short writes", [] { c05Faults(FM_SEND_SHORT | FM_EINTR); }, 1, 2, "every send of the session is cut short, would block or is interrupted, up to k times"},
    {"meaningful texts", c05Dictionary, 0, 0, "180 texts that mean something to an encoder, format, shell or protocol in 10 places of the body; HTML/plain, attachment, kinds, APIs, batch"},
    {"repeated units", c05Repeated, 0, 0, "bodies that repeat one of 34 units (UTF-8 characters, stray bytes, line ends, dots, escapes) from 5 (9) starting positions to 14 sizes, each 0..2 (0..5) units longer, with and without a tail"},
    extPhase(5),
});
// ================================================================== C06
static void c06Sizes() {
    int kind = pick(3, "kind"), step = 40, hi = kind == PLAIN ? tierSel(1600, 12000) : tierSel(160, 1600), blk = pick(hi / step, "size block"); MsgSpec m = base(blk % 2); Scn s = plainScn(kind, blk / 2 % 2); note("files of " + std::to_string(blk * step) + " bytes..."); Bulk k(s, MC_ALL);
    for (int i = 0; i < step; i++) { { EnvGuard g; m.atts.clear(); size_t n = (size_t)(blk * step + i); m.atts.push_back({mkFile("s.bin", binary(n, (unsigned)n)), "s.bin", ""}); } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c06Sets() {    // every sequence of attachments from a pool
    struct A { const char *file, *name, *cid; }; static const A pool[] = {{"e.txt", "e.txt", ""}, {"one.png", "one.png", "cid-1"}, {"all.bin", "all.bin", ""}, {"sep.html", "with space.html", "c2@x"}, {"fiftyseven.jpg", "f.jpg", ""}, {"k3.zip", "", ""}};
    static const std::vector<std::string> bodies{"Body", "x\r\n--sep\r\nContent-Type: text/plain\r\n\r\n--sep--\r\n", "--sep--\r\n--sep1--\r\n--sep2\r\n", "", ".\r\n"};
    int n = 1 + pick(tierSel(3, 4), "attachments"), bi = pick(n <= 2 || thorough() ? 5 : 2, "body"), kind = n == 1 ? pick(3, "kind") : PLAIN, api = pick(2, "api"), html = n < 3 ? pick(2, "html") : 0; MsgSpec m = base(html); { EnvGuard g; m.body = bodies[(size_t)bi]; } int f = pick(6, "first"); note("sets of " + std::to_string(n) + " attachments");
    auto att = [&](int i) { std::string ct = i == 0 ? "" : i == 1 ? "\xff" : i == 2 ? binary(256, 0) : i == 3 ? "\r\n--sep--\r\n.\r\n--sep\r\n" : i == 4 ? binary(57, 3) : binary(3000, 5); return AttSpec{mkFile(pool[i].file, ct), pool[i].name, pool[i].cid}; };
    Bulk k(plainScn(kind, api), MC_ALL); std::function<void(int)> go = [&](int left) { if (!left) { k.send(m); return; } for (int i = 0; i < 6; i++) { { EnvGuard g; m.atts.push_back(att(i)); } go(left - 1); EnvGuard g; m.atts.pop_back(); } };
    { EnvGuard g; m.atts.push_back(att(f)); } go(n - 1); EnvGuard g; outcome("ok");
}
static void c06Names() {   // display names and content identifiers
    static const std::string al = "a\"\\. ;=\xE9-/"; int dim = pick(2, "field"), a = pick((int)al.size(), "first character"), mx = tierSel(3, 4), api = pick(2, "api"); MsgSpec m = base(); note(dim ? "content identifiers" : "attachment names"); Bulk k(plainScn(PLAIN, api), MC_ALL);
    for (int l = 1; l <= mx; l++) overStrings(al, l, std::string(1, al[a]), [&](const std::string &t) { if (t.find_first_not_of(' ') == std::string::npos) return; if (dim && (t[0] == ' ' || t.back() == ' ')) return; { EnvGuard g; m.atts.clear(); m.atts.push_back({mkFile("n.txt", "content of n"), dim ? "n.txt" : t, dim ? t : ""}); } k.send(m); });
    EnvGuard g; outcome("ok");
}
static const std::vector<std::pair<std::string, std::string>> MIMES{{"png", "image/png"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"gif", "image/gif"}, {"pdf", "application/pdf"}, {"txt", "text/plain"}, {"csv", "text/csv"}, {"html", "text/html"}, {"zip", "application/zip"}};
static void c06Large() {
    static const std::vector<size_t> ln{5699, 5700, 5701, 8192, 57000, 65535, 65536, 100003, 1000000, 4000000}; int kind = pick(3, "kind"); size_t n = ln[pick((int)ln.size(), "size")]; if (kind != PLAIN && n > 1000000 && !thorough()) return; MsgSpec m = base(pick(2, "html")); Scn s = plainScn(kind, pick(2, "api"), false); { EnvGuard g; m.atts.push_back({mkFile("large.bin", binary(n, 1)), "large.bin", ""}); m.atts.push_back({mkFile("small.txt", "small"), "small.txt", "id"}); } note("file of " + std::to_string(n) + " bytes");
    { Bulk k(s, MC_ALL); k.send(m); } EnvGuard g; outcome("ok");
}
static void c06Bytes() {   // every byte value at every position of a group of three, and every pair
    int b0 = pick(64, "bytes") * 4; MsgSpec m = base(); note("files of one and two bytes from " + std::to_string(b0)); Bulk k(plainScn(PLAIN, b0 / 4 % 2), MC_STRUCT | MC_ATT);
    for (int b = b0; b < b0 + 4; b++) for (int c = -1; c < 256; c += thorough() ? 1 : 5) { { EnvGuard g; m.atts.clear(); std::string t(1, (char)b); if (c >= 0) t += (char)c; m.atts.push_back({mkFile("y.bin", t), "y.bin", ""}); m.atts.push_back({mkFile("z.bin", "ab" + t), "z.bin", ""}); } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c06Faults() {
    Scn s = plainScn(pick(3, "kind"), pick(2, "api"), pick(2, "batch")); MsgSpec m = base(pick(2, "html")); { EnvGuard g; m.atts.push_back({mkFile("f1.bin", binary(1300, 2)), "f1.bin", ""}); m.atts.push_back({mkFile("f2.png", binary(10, 2)), "f2.png", "cid"}); } note("data taken in pieces");
    Run r(s); r.w.faults = FM_SEND_SHORT | FM_EINTR | FM_SEND_ERR; std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), m); { EnvGuard g; if (x.rc == 0) monContent(r, x, s, MC_ALL); monResult(r, x, s); monSuccess(r, x, s); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c06Files() {   // what the path may name, and how the operating system hands its contents over
    static const char *nm[] = {"an ordinary file", "a link to a file", "a file of unknown size", "a directory", "a file handed over in small pieces", "a file that cannot be read to its end"};
    int what = pick(6, "file"), kind = pick(3, "kind"), api = pick(2, "api"), pos = pick(3, "position"); bool batch = pick(2, "batch"); int k = what >= 4 ? pick(tierSel(8, 24), "read") : 0; size_t n = what >= 4 ? (size_t[]){0, 1, 4096, 8191, 8192, 20000}[(size_t)pick(6, "size")] : 5000;
    Scn s = plainScn(kind, api, batch); MsgSpec m = base(api); Run r(s); note(std::string(nm[what]) + " as attachment " + std::to_string(pos + 1));
    { EnvGuard g; std::string f = mkFile("kind.bin", ""), path = mkFile("kind" + std::to_string(n) + ".bin", binary(n, 9));
      if (what == 1) { path = f + ".link"; unlink(path.c_str()); if (symlink(mkFile("kind5000.bin", binary(5000, 9)).c_str(), path.c_str())) return; }
      if (what == 2) path = "/proc/version"; if (what == 3) path = gScratch; if (what == 4) r.w.fileShort = (size_t[]){1, 2, 3, 5, 57, 511, 1000, 4095}[k % 8] + (size_t)(k / 8); if (what == 5) { struct stat st {}; stat(path.c_str(), &st); r.w.fileIno = st.st_ino; r.w.fileErrAt = k + 1; }
      AttSpec o{mkFile("other.txt", "other attachment"), "other.txt", "cid"}, a{path, "a.bin", ""}; for (int i = 0; i < 3; i++) m.atts.push_back(i == pos ? a : o); }
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), m);
    { EnvGuard g; r.w.fileShort = 0; r.w.fileErrAt = 0; int acc = 0; for (size_t i = x.txn0; i < x.txn1; i++) acc += r.w.txns[i].accepted;
      if (what == 3 || what == 5) {   // not readable (to the end): nothing is made up, and the other attachments are not affected
          if (x.rc == 0) for (size_t i = x.txn0; i < x.txn1; i++) { Mime mm = parseMime(r.w.txns[i].data); if (mm.parts.size() != 4) { violate(std::to_string(mm.parts.size()) + " parts instead of 4"); continue; }
              for (int p = 0; p < 3; p++) { const std::string &ct = mm.parts[(size_t)p + 1].content; if (p != pos ? ct != "other attachment" : what == 3 ? !ct.empty() : binary(n, 9).compare(0, ct.size(), ct) != 0) violate(std::string(nm[what]) + ": attachment " + std::to_string(p + 1) + " arrives as " + std::to_string(ct.size()) + " bytes which the file does not have"); } }
          if ((x.rc == 0) != (acc == 1)) violate("result " + std::to_string(x.rc) + " but " + std::to_string(acc) + " messages accepted");
      } else { if (x.rc != 0 || acc != 1) violate(std::string(nm[what]) + ": result " + std::to_string(x.rc) + ", " + std::to_string(acc) + " messages accepted"); monContent(r, x, s, MC_ALL); } }
    r.dtor(c); { EnvGuard g; monProblems(r); monClosed(r); } EnvGuard g; outcomeOf(r);
}
static void c06Many() {    // many attachments, and long names
    static const int cnt[] = {5, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300, 600, 1001}; int dim = pick(3, "what is large"); MsgSpec m = base();
    if (dim == 0) { int n = cnt[pick(tierSel(22, 24), "attachments")]; Scn s = plainScn(n < 60 ? pick(3, "kind") : PLAIN, pick(2, "api"), pick(2, "batch")); note(std::to_string(n) + " attachments"); { EnvGuard g; for (int i = 0; i < n; i++) m.atts.push_back({mkFile("m" + std::to_string(i % 40) + ".txt", "content " + std::to_string(i % 40)), "name" + std::to_string(i), i % 3 == 2 ? "id" + std::to_string(i) : ""}); } Bulk k(s, MC_ALL); k.send(m); }
    else { int blk = pick(tierSel(24, 120), "length block"), kind = blk % 8 ? PLAIN : pick(3, "kind"); note(dim == 1 ? "long attachment names" : "long content identifiers"); Bulk k(plainScn(kind, blk % 2), MC_ALL); for (int i = 0; i < 50; i++) { { EnvGuard g; std::string t = patt((size_t)(blk * 50 + i + 1)); for (auto &c : t) if (c == '\r' || c == '\n' || c == ' ') c = '_'; m.atts.clear(); m.atts.push_back({mkFile("n.txt", "content of n"), dim == 1 ? t : "n.txt", dim == 2 ? t : i % 2 ? "cid" : ""}); } k.send(m); } }
    EnvGuard g; outcome("ok");
}
static void c06Dictionary() {   // texts that mean something elsewhere, as names, identifiers and contents
    auto &d = oddTexts(); int dim = pick(3, "field"), blk = pick(8, "block"), api = pick(2, "api"); MsgSpec m = base(blk % 2); note(dim == 0 ? "meaningful attachment names" : dim == 1 ? "meaningful identifiers" : "meaningful contents"); Bulk k(plainScn(blk % 4 ? PLAIN : FORCED, api), MC_ALL);
    for (size_t i = (size_t)blk; i < d.size(); i += 8) for (int f = 0; f < 5; f++) { const std::string &t = d[i]; bool skip = false; { EnvGuard g; std::string x = f == 0 ? t : f == 1 ? t + "text" : f == 2 ? "text" + t : f == 3 ? "a" + t + "b" : t + t; if (dim < 2 && (x[0] == ' ' || x.back() == ' ' || x[0] == '\t' || x.back() == '\t')) skip = true; else { m.atts.clear(); m.atts.push_back({mkFile(dim == 2 ? "dict" + std::to_string(i * 5 + (size_t)f) + ".txt" : "n.txt", dim == 2 ? x : "content of n"), dim == 0 ? x : "n.txt", dim == 1 ? x : ""}); } } if (!skip) k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c06TextFiles() {   // files that read like text, by every kind of name
    static const std::vector<std::string> ext{".txt", ".html", ".htm", ".csv", ".xml", ".json", ".eml", ".TXT", "", ".png", ".jpg", ".gif", ".bmp", ".pdf", ".rtf", ".doc", ".docx", ".zip", ".gz", ".mp3", ".avi", ".css", ".js", ".ics", ".svg", ".txt.bin"}; static const std::string al = "\na\r \x1A\xEF";
    int e = pick((int)ext.size(), "kind of name"), api = pick(2, "api"), mx = e ? tierSel(2, 3) : tierSel(3, 5); MsgSpec m = base(e % 2); note("texts in files named *" + ext[(size_t)e]); Bulk k(plainScn(PLAIN, api), MC_ALL);
    auto one = [&](const std::string &t) { { EnvGuard g; m.atts.clear(); m.atts.push_back({mkFile("t" + std::to_string(k.total % 8) + ext[(size_t)e], t), "t" + ext[(size_t)e], ""}); } k.send(m); };
    for (int l = 0; l <= mx; l++) overStrings(al, l, "", one);
    for (const char *le : {"\n", "\r\n", "\r", "\n\r", "\n\n", " \n", "\r\r\n"}) for (const char *lead : {"", "\xEF\xBB\xBF", "\xFF\xFE", "\t"}) for (int end = 0; end < 2; end++) { std::string t; { EnvGuard g; t = lead; for (int i = 0; i < 40; i++) t += "Line " + std::to_string(i) + (i == 39 && end ? "" : le); } one(t); }
    { std::string t; { EnvGuard g; t = std::string("a\0b\n\0", 5); } one(t); { EnvGuard g; t = std::string(3, '\0') + "\n"; } one(t); }
    EnvGuard g; outcome("ok");
}
static Reg rC06("C06", {
    {"every size", c06Sizes, 0, 0, "every file size 0..1599 (11999), TLS 0..159 (1599)"},
    {"sets", c06Sets, 0, 0, "every sequence of 1..3 (4) attachments from a pool of 6 x up to 5 bodies with part delimiters x kinds, APIs, HTML"},
    {"names and identifiers", c06Names, 0, 0, "every name and content identifier of length 1..3 (4) over 10 characters incl. quote and backslash"},
    {"large files", c06Large, 0, 0, "10 sizes up to 4 MB"},
    {"every byte", c06Bytes, 0, 0, "every one-byte file and two-byte files (every 5th second byte; all), also at offset 2"},
    {"short writes", c06Faults, 1, 2, "every send of the session cut short, interrupted or failing, up to k"},
    {"kinds of files", c06Files, 0, 0, "an ordinary file, a link, a file of unknown size, a directory, a file handed over in pieces of 8 (24) sizes, a file whose n-th read fails for n up to 8 (24); as first, second and third attachment; 6 file sizes, kinds, APIs, batch"},
    {"many attachments, long names", c06Many, 0, 0, "22 (24) counts up to 300 (1001); every name and identifier length up to 1200 (6000)"},
    {"meaningful texts", c06Dictionary, 0, 0, "180 texts in 5 places of names, identifiers and contents"},
    {"text files", c06TextFiles, 0, 0, "26 kinds of file names x every content of length 0..2 (0..3), *.txt 0..3 (0..5), over {LF a CR space 0x1A 0xEF}, texts of 40 lines with 7 line ends and 4 beginnings, NUL bytes"},
    extPhase(6),
});
// ================================================================== C07
static void c07Names() {
    static const std::string al = "aZ \"\\,:\xE9.("; int dim = pick(4, "field"), a = pick((int)al.size(), "first character"), mx = tierSel(3, 4), api = pick(2, "api"); MsgSpec m = base(api); { EnvGuard g; m.cc = {{"cc@example.org", ""}, {"cc2@example.org", "Second"}}; m.bcc = {{"hidden@secret.net", "Hidden Name"}}; m.to.push_back({"to2@example.com", ""}); } note("texts of " + std::string(dim == 0 ? "the subject" : dim == 1 ? "the sender's name" : dim == 2 ? "a To name" : "a Cc name")); Bulk k(plainScn(PLAIN, api), MC_ALL);
    for (int l = 1; l <= mx; l++) overStrings(al, l, std::string(1, al[a]), [&](const std::string &t) { if (t[0] == ' ' || t.back() == ' ') return; { EnvGuard g; if (dim == 0) m.subject = t; else if (dim == 1) m.from.name = t; else if (dim == 2) m.to[0].name = t; else m.cc[0].name = t; } k.send(m); });
    EnvGuard g; outcome("ok");
}
static void c07Lists() {
    int nt = pick(tierSel(4, 5), "to"), nc = pick(tierSel(4, 5), "cc"), nb = pick(3, "bcc"), api = pick(2, "api"), kind = pick(3, "kind"); if (!nt && (api || !(nc + nb))) return; note(std::to_string(nt) + " To, " + std::to_string(nc) + " Cc, " + std::to_string(nb) + " Bcc");
    for (int v = 0; v < 24; v++) {
        MsgSpec m = base(v & 1); { EnvGuard g; m.to.clear(); auto f = [&](std::vector<AddrSpec> &l, int n, const char *p, int bits) { for (int i = 0; i < n; i++) l.push_back({std::string(p) + std::to_string(i) + "@list.example.com", (bits >> (i & 1)) & 1 ? std::string(p) + " Name " + std::to_string(i) : ""}); };
            f(m.to, nt, "to", v >> 1); f(m.cc, nc, "cc", v >> 2); f(m.bcc, nb, "hidden", v >> 1); if (v & 8) m.from.name = "The Sender"; if (v & 16) { EnvGuard h; m.atts.push_back({mkFile("h.txt", "attachment"), "h.txt", ""}); } if (v % 3 == 2 && nt > 1) m.to[1].addr = m.to[0].addr; if (v % 3 == 2 && nc && nb) m.bcc[0].addr = m.cc[0].addr; m.subject = "Subject " + std::to_string(v); m.body = v & 4 ? "" : "Body\r\nTo: nobody\r\n"; }
        Bulk k(plainScn(kind, api, v & 1), MC_ALL); k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c07Long() {    // long header values and lists
    int dim = pick(4, "field"), blk = pick(tierSel(22, 100), "length block"), kind = pick(tierSel(1, 3), "kind"), step = dim == 3 ? 4 : 50; MsgSpec m = base(); note("long " + std::string(dim == 0 ? "subject" : dim == 1 ? "sender name" : dim == 2 ? "To name" : "Cc list")); Bulk k(plainScn(kind, blk % 2), MC_ALL);
    for (int i = 0; i < step; i++) { size_t n = (size_t)(blk * step + i); { EnvGuard g; if (dim == 0) m.subject = patt(n + 1); if (dim == 1) m.from.name = patt(n + 1); if (dim == 2) m.to[0].name = patt(n + 1); auto fix = [](std::string &t) { for (auto &c : t) if (c == '\r' || c == '\n') c = '_'; if (!t.empty() && t.back() == ' ') t.back() = '_'; }; fix(m.subject); fix(m.from.name); fix(m.to[0].name); if (dim == 3) { m.cc.clear(); for (size_t j = 0; j < n; j++) m.cc.push_back({"copy" + std::to_string(j) + "@example.org", j % 2 ? "Copy " + std::to_string(j) : ""}); } } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c07Serial() {  // different messages one after another through one client
    int kind = pick(3, "kind"), api = pick(2, "api"); bool b = pick(2, "batch"); int n = tierSel(3, 4); Scn s = plainScn(kind, api, b); Bulk k(s, MC_ALL); std::string h;
    for (int i = 0; i < n; i++) { int v = pick(5, "message"); MsgSpec m = base(v == 1); { EnvGuard g; h += std::to_string(v); m.subject = "Subject " + std::to_string(v); if (v == 2) { m.cc = {{"cc@example.org", ""}}; m.bcc = {{"hidden@secret.net", ""}}; } if (v == 3) { m.to = {{"x1@example.com", "X One"}, {"x2@example.com", ""}}; m.atts.push_back({mkFile("h.txt", "attachment"), "h.txt", ""}); } if (v == 4) { m.to.clear(); m.to.push_back({"only@example.com", ""}); m.bcc = {{"b1@secret.net", "Blind One"}, {"b2@secret.net", ""}}; m.subject = "S"; m.body = ""; } } k.send(m); }
    note("messages " + h); EnvGuard g; outcome("ok");
}
static void c07Dictionary() {
    auto &d = oddTexts(); int dim = pick(4, "field"), blk = pick(8, "block"), api = pick(2, "api"); MsgSpec m = base(blk % 2 && api); { EnvGuard g; m.cc = {{"cc@example.org", ""}}; m.bcc = {{"hidden@secret.net", "Hidden Name"}}; } note("meaningful texts in " + std::string(dim == 0 ? "the subject" : dim == 1 ? "the sender's name" : dim == 2 ? "a To name" : "a Cc name")); Bulk k(plainScn(blk % 4 ? PLAIN : FORCED, api), MC_ALL);
    for (size_t i = (size_t)blk; i < d.size(); i += 8) for (int f = 0; f < 5; f++) { const std::string &t = d[i]; bool skip = false; { EnvGuard g; std::string x = f == 0 ? t : f == 1 ? t + "text" : f == 2 ? "text" + t : f == 3 ? "a" + t + "b" : t + t; auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f'; }; if (blank(x[0]) || blank(x.back())) skip = true; else (dim == 0 ? m.subject : dim == 1 ? m.from.name : dim == 2 ? m.to[0].name : m.cc[0].name) = x; } if (!skip) k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c07Many() {    // many recipients, and addresses of every length
    static const int cnt[] = {5, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 513, 1001, 3000}; int dim = pick(5, "what is large"); MsgSpec m = base();
    if (dim < 3) { int n = cnt[pick(tierSel(24, 26), "recipients")], kind = n <= 100 ? pick(3, "kind") : PLAIN; Scn s = plainScn(kind, pick(2, "api"), pick(2, "batch")); note(std::to_string(n) + (dim == 0 ? " To" : dim == 1 ? " Cc" : " Bcc")); { EnvGuard g; auto &l = dim == 0 ? m.to : dim == 1 ? m.cc : m.bcc; l.clear(); for (int i = 0; i < n; i++) l.push_back({std::string(dim == 2 ? "hidden" : "many") + std::to_string(i) + "@example.org", i % 3 == 1 ? "Name " + std::to_string(i) : ""}); } Bulk k(s, MC_ALL); k.send(m); }
    else { int blk = pick(6, "length block"), where = pick(4, "address"); note(dim == 3 ? "long local parts" : "long domains"); Bulk k(plainScn(blk % 3 ? PLAIN : FORCED, blk % 2), MC_ALL); for (int i = 0; i < 50; i++) { int n = blk * 50 + i + 1; if (n > 300) break; { EnvGuard g; m = base(); std::string part; for (int j = 0; j < n; j++) part += j % 12 == 11 && j + 1 < n ? '.' : (char)('a' + j % 26); std::string a = dim == 3 ? part + "@example.org" : "user@" + part + ".org"; if (where == 0) m.from = {a, ""}; if (where == 1) m.to = {{a, ""}}; if (where == 2) m.cc = {{a, "Named"}}; if (where == 3) m.bcc = {{a, ""}}; } k.send(m); } }
    EnvGuard g; outcome("ok");
}
static void c07Shared() {  // addresses and names that occur in more than one place
    static const std::vector<AddrSpec> pool{{"same@example.com", ""}, {"same@example.com", "Same"}, {"Same@Example.com", "same"}, {"other@example.com", "Same"}, {"sender@mail.test", "other@example.com"}}; int np = tierSel(3, 5);
    auto list = [&](int lo, const char *l) { std::vector<int> v; int n = lo + pick(3 - lo, l); for (int i = 0; i < n; i++) v.push_back(pick(np, "entry")); return v; };
    int api = pick(2, "api"), kind = pick(tierSel(1, 3), "kind"); auto to = list(1, "To"), cc = list(0, "Cc"); note("addresses that occur more than once"); Bulk k(plainScn(kind, api), MC_ALL);
    auto one = [&](const std::vector<int> &bcc) { for (int f = 0; f < np + 1; f++) { MsgSpec m = base(f % 2); { EnvGuard g; if (f < np) m.from = pool[(size_t)f]; m.to.clear(); for (int i : to) m.to.push_back(pool[(size_t)i]); for (int i : cc) m.cc.push_back(pool[(size_t)i]); for (int i : bcc) m.bcc.push_back(pool[(size_t)i]); } k.send(m); } };
    one({}); for (int i = 0; i < np; i++) { one({i}); for (int j = 0; j < np; j++) one({i, j}); }
    EnvGuard g; outcome("ok");
}
static void c07Absent() {  // every subset of the fields is empty
    int kind = pick(3, "kind"), api = pick(2, "api"), batch = pick(2, "batch"), html = pick(2, "html"); note("messages with empty fields"); Bulk k(plainScn(kind, api, batch), MC_ALL);
    for (int v = 0; v < 256; v++) { if (kind != PLAIN && !thorough() && (v * 7 + html) % 3) continue; MsgSpec m = base(html); { EnvGuard g; if (v & 1) m.subject = ""; if (v & 2) m.body = ""; if (v & 4) m.from.name = "Sender"; if (v & 8) m.to[0].name = "Recipient"; if (v & 16) m.cc = {{"cc@example.org", v & 1 ? "" : "Copy"}}; if (v & 32) m.bcc = {{"hidden@secret.net", ""}}; if (v & 64) m.atts.push_back({mkFile(v & 128 ? "empty.txt" : "h.txt", v & 128 ? "" : "attachment"), "h.txt", v & 128 ? "" : "id"}); else if (v & 128) m.to.push_back({"second@example.com", ""}); } k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c07Related() { // one field takes its text from another
    static const char *nm[] = {"subject", "body", "sender's name", "To name", "Cc name", "attachment name", "identifier", "contents", "sender's address", "To address", "Cc address", "Bcc address"};
    int to = pick(8, "target"), from = pick(12, "source"), kind = pick(tierSel(1, 3), "kind"), api = pick(2, "api"); if (to == from) return; note(std::string(nm[to]) + " like the " + nm[from]); Bulk k(plainScn(kind, api), MC_ALL);
    for (int v = 0; v < 16; v++) {
        MsgSpec m; { EnvGuard g; m = base(v & 1); m.subject = "The subject"; m.body = "The body"; m.from = {"sender@mail.test", "The Sender"}; m.to = {{"to@example.com", "Recipient"}}; m.cc = {{"cc@example.org", "Copy"}}; m.bcc = {{"hidden@secret.net", "Blind"}}; std::string name = "name.txt", cid = "an-id", ct = "the contents";
            std::string src = from == 0 ? m.subject : from == 1 ? m.body : from == 2 ? m.from.name : from == 3 ? m.to[0].name : from == 4 ? m.cc[0].name : from == 5 ? name : from == 6 ? cid : from == 7 ? ct : from == 8 ? m.from.addr : from == 9 ? m.to[0].addr : from == 10 ? m.cc[0].addr : m.bcc[0].addr;
            std::string up = src, half = src.substr(0, src.find_first_of("@ .-")); for (auto &c : up) c = (char)toupper((unsigned char)c); src = v / 2 == 0 ? src : v / 2 == 1 ? up : v / 2 == 2 ? half : v / 2 == 3 ? src + "." : v / 2 == 4 ? "Re: " + src : v / 2 == 5 ? "(" + src + ")" : v / 2 == 6 ? src + src : "'" + src + "'";
            (to == 0 ? m.subject : to == 1 ? m.body : to == 2 ? m.from.name : to == 3 ? m.to[0].name : to == 4 ? m.cc[0].name : to == 5 ? name : to == 6 ? cid : ct) = src; m.atts.push_back({mkFile("rel" + std::to_string(v) + ".txt", ct), name, cid}); }
        k.send(m); }
    EnvGuard g; outcome("ok");
}
static void c07Contents() { // what a message contains does not change how it is labelled
    auto &d = oddTexts(); static const std::vector<std::string> more{"<html><body>x</body></html>", "<HTML>", "<!doctype html>\r\n<p>", "{\\rtf1", "%PDF-1.4", "BEGIN:VCALENDAR", "-----BEGIN PGP MESSAGE-----", "Content-Type: text/html\r\n\r\n<b>", "Subject: other\r\nFrom: x@y.co\r\n\r\nt", "MIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=x\r\n\r\n--x\r\n", "{\"a\":1}", "<?xml version=\"1.0\"?>", "#!/bin/sh", "GIF89a", "Dear {name},", "Return-Path: <a@b.co>\r\n", "Date: x\r\n\r\n", "Received: x\r\n"};
    int kind = pick(3, "kind"), html = pick(2, "html"), att = pick(3, "attachment"), api = pick(2, "api"); if (kind != PLAIN && !thorough() && (api != html || att == 2)) return; note("meaningful contents"); Bulk k(plainScn(kind, api), MC_ALL);
    for (size_t i = 0; i < d.size() + more.size(); i++) for (int f = 0; f < (kind == PLAIN ? 4 : 1); f++) { MsgSpec m = base(html); { EnvGuard g; const std::string &t = i < d.size() ? d[i] : more[i - d.size()]; std::string b = f == 0 ? t + "\r\nmore" : f == 1 ? "Hello\r\n" + t : f == 2 ? t : " " + t; m.body = att == 2 ? "The text" : b; m.from.name = "Sender"; m.to[0].name = "Recipient"; m.cc = {{"cc@example.org", ""}}; if (att) m.atts.push_back({mkFile("c.txt", att == 2 ? b : "attached"), "c.txt", ""}); } k.send(m); }
    k.close(); EnvGuard g; outcome("ok");
}
static Reg rC07("C07", {
    {"field texts", c07Names, 0, 0, "subject, sender, To and Cc names: every text of length 1..3 (4) over 10 characters"},
    {"lists", c07Lists, 0, 0, "To, Cc 0..3 (4), Bcc 0..2, with and without names, repeated addresses, attachments, HTML/plain; kinds, APIs"},
    {"long values", c07Long, 0, 0, "every subject and name length up to 1100 (5000), up to 88 (400) Cc addresses"},
    {"sequences", c07Serial, 0, 0, "every sequence of 3 (4) of 5 different messages through one client, batch and non-batch"},
    {"meaningful texts", c07Dictionary, 0, 0, "180 texts in 5 places of the subject and of the sender's, To and Cc names"},
    {"many recipients, long addresses", c07Many, 0, 0, "24 (26) counts of To, Cc and Bcc up to 513 (3000); sender, To, Cc and Bcc addresses of every length up to 310"},
    {"empty fields", c07Absent, 0, 0, "every subset of subject, body, names, Cc, Bcc, attachment, second recipient being empty; HTML/plain, kinds (a third of them over TLS; all), APIs, batch"},
    {"related texts", c07Related, 0, 0, "each of 8 text fields takes the text of each of 12 fields, in 8 variations; HTML/plain, APIs (kinds)"},
    {"shared addresses", c07Shared, 0, 0, "every From, every To of 1..2, Cc and Bcc of 0..2 entries over 3 (5) addresses and names that are equal or nearly equal"},
    extPhase(7),
    {"contents", c07Contents, 0, 0, "198 meaningful texts (HTML, headers, other formats) as and in the body or an attachment of HTML and plain messages: labels and headers stay; kinds, APIs"},
});
// ================================================================== C08
static const std::vector<std::string> ATTACK{"x\r\nBcc: evil@evil.org", "x\r\n\r\ninjected body", "x\r\n.\r\nMAIL FROM:<evil@evil.org>\r\n", "x\n.\nQUIT\n", "\r\n.\r\n", "x>\r\nRCPT TO:<evil@evil.org>", "x\rBcc: evil@evil.org", "x\nBcc: evil@evil.org", "\"\r\nX-Evil: 1", "x\r\n--sep\r\nContent-Type: text/html\r\n\r\nevil", "x\r\n--sep--\r\n", "\r\nDATA", "x\r\n X: folded", "\n\n", "\r\r\n\n", "x> SIZE=1", "\"; evil=\"1", ">\r\nContent-ID: <evil", "\x0b\x0c\x85", "x\r\nSubject: second", "a\\\r\nb", "\\\"\r\n\\"};
static void putField(MsgSpec &m, int f, const std::string &t) { switch (f) { case 0: m.subject = t; break; case 1: m.from.name = t; break; case 2: m.to[0].name = t; break; case 3: m.cc[0].name = t; break; case 4: m.bcc[0].name = t; break; case 5: m.atts[0].name = t; break; case 6: m.atts[0].cid = t; break; default: m.body = t; } }
static const char *fieldName(int f) { static const char *n[] = {"subject", "sender name", "To name", "Cc name", "Bcc name", "attachment name", "content id", "body"}; return n[f]; }
static MsgSpec inj() { MsgSpec m = base(); EnvGuard g; m.cc = {{"cc@example.org", "C"}}; m.bcc = {{"bcc@example.net", "B"}}; m.atts.push_back({mkFile("i.txt", "attachment"), "i.txt", "cid"}); m.body = "Body"; return m; }
struct Inj { Scn s; int refusals; std::unique_ptr<Run> r; std::unique_ptr<IClient> c; int n = 0, total = 0;
    void send(const MsgSpec &m, const std::string &what) {
        if (!c) { { EnvGuard g; r = std::make_unique<Run>(s); int k = refusals; r->w.decide = [k](StepCtx &x, Reply &rp) { if (x.step == S_MAIL && x.idx < k) { rp.text = "501 5.1.7 bad address\r\n"; rp.code = 501; rp.effect = false; } }; } c.reset(make(s)); }
        SendRes x = r->send(c.get(), m); { EnvGuard g; total++;
        std::vector<int> want = plan(s, m, x.freshSession), got; for (size_t i = x.cmd0; i < x.cmd1; i++) got.push_back(r->w.cmds[i].step); if (!want.empty() && want[0] == S_CONNECT) want.erase(want.begin()); auto p = std::find(want.begin(), want.end(), (int)S_MAIL);
        if (refusals >= 3) { want.erase(p + 1, want.end()); p = std::find(want.begin(), want.end(), (int)S_MAIL); } want.insert(p, (size_t)std::min(refusals, 2), (int)S_MAIL);
        if (got != want) { std::string a; for (int k : got) a += std::string(" ") + stepName(k); violate(what + ": the server saw" + a); }
        if (x.rc != (refusals >= 3 ? 501 : 0)) violate(what + ": result " + std::to_string(x.rc));
        monProtocol(*r); monEnvelope(*r, x, s); monContent(*r, x, s, MC_STRUCT | MC_BODY); 
        for (size_t i = x.txn0; i < x.txn1; i++) if (r->w.txns[i].ended) { Mime mm = parseMime(r->w.txns[i].data); if (mm.parts.size() == 2 && mm.parts[1].content != "attachment") violate(what + ": the attachment is " + esc(mm.parts[1].content, 60)); for (auto &h : {"From", "To", "Cc", "Subject"}) if (mm.count(h) != 1) violate(what + ": " + std::to_string(mm.count(h)) + " " + h + " headers"); std::string d = mm.get("To") + "\n" + mm.get("From") + "\n" + mm.get("Cc"); if (mm.get("From").find("sender@mail.test") == std::string::npos || mm.get("To").find("to@example.com") == std::string::npos || mm.get("Cc").find("cc@example.org") == std::string::npos) violate(what + ": an address is missing from its header"); if (mm.parts.size() == 2 && mm.parts[1].headers.size() > 5) violate(what + ": extra part headers"); } }
        if (++n >= 48) close();
    }
    void close() { if (!c) return; r->dtor(c); EnvGuard g; r.reset(); n = 0; }
    ~Inj() { close(); EnvGuard g; countEval((uint64_t)total, 0); }
};
static void c08Strings() {
    static const std::string al = "\r\n:a ."; int f = pick(7, "field"), a = pick((int)al.size(), "first character"), mx = tierSel(4, 6), cfg = pick(2, "configuration"); Inj k{plainScn(PLAIN, cfg), f == 1 ? cfg * 2 : 0, {}, {}}; note(std::string("texts of the ") + fieldName(f)); if (cfg && !thorough() && f != 1) mx = 3;
    for (int l = 1; l <= mx; l++) overStrings(al, l, std::string(1, al[a]), [&](const std::string &t) { MsgSpec m; { EnvGuard g; m = inj(); putField(m, f, t); } k.send(m, std::string(fieldName(f)) + " " + esc(t)); });
    EnvGuard g; outcome("ok");
}
static void c08Attacks() {
    int f = pick(8, "field"), kind = pick(3, "kind"), api = pick(2, "api"), ref = pick(4, "501 answers"); bool b = pick(2, "batch"); Inj k{plainScn(kind, api, b), ref, {}, {}}; note(std::string("attacks through the ") + fieldName(f));
    for (auto &t : ATTACK) { MsgSpec m; { EnvGuard g; m = inj(); putField(m, f, t); if (f == 7) m.html = true; } k.send(m, std::string(fieldName(f)) + " " + esc(t)); } EnvGuard g; outcome("ok");
}
static void c08Pairs() {   // two hostile fields at once
    int f = pick(8, "field"), g2 = pick(8, "second field"); if (f >= g2) return; Inj k{plainScn(PLAIN, f % 2), f == 1 || g2 == 1 ? 2 : 0, {}, {}}; note(std::string("attacks through ") + fieldName(f) + " and " + fieldName(g2));
    for (auto &t : ATTACK) for (auto &u : ATTACK) { MsgSpec m; { EnvGuard g; m = inj(); putField(m, f, t); putField(m, g2, u); } k.send(m, std::string(fieldName(f)) + " " + esc(t) + ", " + fieldName(g2) + " " + esc(u)); } EnvGuard g; outcome("ok");
}
static void c08Cred() {    // credentials with line breaks
    static const std::vector<std::string> bad{"u\r\nRSET", "\r\nQUIT\r\n", "u\nx", "u\r", "x\r\n.\r\n"}; int kind = pick(3, "kind"), api = pick(2, "api"), me = 1 + pick(3, "method"), w = pick(2, "field"); Scn s = scn(kind, api, true, pick(2, "batch")); s.cred.method = me; (w ? s.cred.pass : s.cred.user) = bad[(size_t)pick(5, "text")]; note("credentials with line breaks"); Bulk k(s, MC_ALL); for (int i = 0; i < 2; i++) k.send(base()); EnvGuard g; outcome("ok");
}
static void c08Long() {    // a line break at every position of a long field
    int f = pick(7, "field"), blk = pick(tierSel(12, 48), "position block"); Inj k{plainScn(PLAIN, blk % 2), f == 1 ? 2 : 0, {}, {}}; note(std::string("line break at every position of the ") + fieldName(f));
    for (int i = 0; i < 100; i++) { MsgSpec m; { EnvGuard g; m = inj(); putField(m, f, rep('h', (size_t)(blk * 100 + i)) + (i % 3 == 0 ? "\r\n" : i % 3 == 1 ? "\n" : "\r") + "X-Evil: 1"); } k.send(m, fieldName(f)); } EnvGuard g; outcome("ok");
}
static Reg rC08("C08", {
    {"short texts", c08Strings, 0, 0, "7 fields: every text of length 1..4 (6) over {CR LF : a space .}; the sender's name also with two 501 answers to MAIL"},
    {"attacks", c08Attacks, 0, 0, "22 attack texts x 8 fields x kinds x APIs x 0..3 501 answers x batch"},
    {"pairs of attacks", c08Pairs, 0, 0, "22x22 attack texts in every pair of fields"},
    {"credentials", c08Cred, 0, 0, "user names and passwords with line breaks, every mechanism, kind and API"},
    {"every position", c08Long, 0, 0, "a line break at every position up to 1200 (4800) of 7 fields"},
});
}  // namespace mc
