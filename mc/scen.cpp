#include "scen.h"
#include <algorithm>
#include <cstring>
namespace mc {
std::string Scn::str() const {
    return std::string(kindName(kind)) + (api ? " C++" : " C") + (batch ? " batch" : "") + (hasCred ? " cred(" + std::to_string(cred.method) + ")" : "") + " T=" + std::to_string(timeout) + (self ? " self-signed ok" : "") +
           (kind != PLAIN ? std::string(" cert=") + certName(srv.cert) : "") + (kind == OPP && !srv.offersStartTls() ? " no-STARTTLS" : "");
}
Scn scn(int kind, int api, bool cred, bool batch) {
    Scn s; s.kind = kind; s.api = api; s.batch = batch; s.hasCred = cred; s.cred = {"us3r.name", "S3cr3t-passw0rd", 0}; s.srv.implicitTls = kind == FORCED; return s;
}
IClient *make(const Scn &s) {
    IClient *c = newClient(s.kind, s.api, s.host, s.port); c->setTimeout(s.timeout);
    if (s.batch) c->setBatch(true); if (s.hasCred) c->setCred(s.cred); if (s.self) c->setSelf(true);
    return c;
}
Run::Run(const Scn &s) : def(s), prev(W) { w.serverFor = [this](const std::string &, int) { return def.srv; }; W = &w; allocTrackStop(); }
Run::~Run() { W = prev; }
SendRes &Run::send(IClient *c, const MsgSpec &m) {
    SendRes s;
    { EnvGuard g; w.beginSend(); s.no = w.sendNo; s.cmd0 = w.cmds.size(); s.txn0 = w.txns.size(); s.flt0 = w.faultLog.size(); s.con0 = w.conns.size(); s.prb0 = w.problems.size(); s.prt0 = w.protocol.size(); s.auth0 = w.auths.size(); s.t0 = w.now; s.msg = m; }
    int rc = c->send(m);
    EnvGuard g;
    s.rc = rc; s.log = c->log(); s.cmd1 = w.cmds.size(); s.txn1 = w.txns.size(); s.flt1 = w.faultLog.size(); s.con1 = w.conns.size(); s.auth1 = w.auths.size(); s.t1 = w.now; s.lastAct = std::max(w.lastServerActivity, s.t0); s.freshSession = s.con1 > s.con0;
    s.lastConn = w.conns.empty() ? -1 : (int)w.conns.size() - 1; for (size_t i = s.cmd0; i < s.cmd1; i++) s.lastConn = w.cmds[i].conn;
    if (s.lastConn >= 0) { s.retQuits = w.recs[s.lastConn].quits; s.retClosed = w.recs[s.lastConn].clientClosed; }
    if (!sends.empty()) s.firstConn = sends.back().lastConn;
    s.wasBatch = def.batch; w.endSend(); w.note("-- result " + std::to_string(rc));
    sends.push_back(s); return sends.back();
}
void Run::dtor(std::unique_ptr<IClient> &c) {
    { EnvGuard g; w.note("-- client destroyed"); dtorStart = w.now; w.lastStep = S_QUIT; }
    c.reset();
    EnvGuard g; dtorEnd = w.now; dtorAct = std::max(dtorStart, w.lastServerActivity);
}
MsgSpec msgOf(int v, int serial) {
    MsgSpec m; std::string k = std::to_string(serial);
    m.from = {"sender" + k + "@mail.test", v & 1 ? "The Sender" : ""};
    m.to = {{"to1-" + k + "@example.com", v & 1 ? "First To" : ""}};
    m.subject = "Subject-mark-" + k; m.body = "Body-mark-" + k + " hello\r\nsecond line\r\n";
    if (v & 2) { m.to.push_back({"to2-" + k + "@example.com", ""}); m.cc = {{"cc1-" + k + "@example.org", "Copy One"}}; m.bcc = {{"bcc1-" + k + "@example.net", "Blind"}}; }
    if (v & 4) m.html = true;
    if (v & 8) { m.atts.push_back({mkFile("note.txt", "attachment content mark " + std::string(100, 'q') + "\n"), "note.txt", ""}); }
    return m;
}
void judgeLeak(const std::string &what) {
    AllocStat a = allocLive(); static int grown; if (executionPass() == 0) grown = 0; if (a.blocks) grown++; std::string d = a.blocks && executionPass() == 3 ? allocDescribe() : ""; allocTrackStop();
    if (a.blocks && executionPass() < 3) requestRerun(); else if (executionPass() == 3 && grown == 4) violate(what + ": " + std::to_string(a.blocks) + " blocks (" + std::to_string(a.bytes) + " bytes) are never released:" + d);
}
const std::vector<std::string> &oddTexts() {
    static const std::vector<std::string> t = [] { EnvGuard g; std::vector<std::string> v{"\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\x1A", "\x04", "\x1B[0m", "\x7F", "\x08", "\x0B", "\x0C", "\t", "\t\t", " ", "  ", "    ", "\xA0", "\xC2\xA0", "\xE2\x80\xA8", "\xC2\x85", "\xE2\x80\x8B", "\xC3\xA9", "\xC3", "\xF0\x9F\x98\x80", "\xED\xA0\x80", "\xC0\x80",
        "From ", ">From ", "From: x", "To: x", "Bcc: a@b.co", "Subject: x", "Content-Type: text/html", "MIME-Version: 1.0", "DATA", "QUIT", "RSET", "STARTTLS", "EHLO x", "MAIL FROM:<a@b.co>", "AUTH PLAIN AGEAYg==", "250 OK", "354 go", "550 no", "AUTH", "PLAIN", "LOGIN", "null", "(null)", "NULL", "true", "0", "-1", "none", "undefined",
        "<html>", "<!DOCTYPE html>", "<body>", "</body>", "<br>", "<p>", "&amp;", "&lt;", "&", "<", ">", "<<", ">>", "<a@b.co>", "\"", "\"\"", "'", "''", "`", "\\", "\\\\", "\\n", "\\r\\n", "\\0", "\\\"", "/", "//", "|", "||", "$", "$$", "$HOME", "${x}", "$(id)", "%", "%%", "%s", "%n", "%d%s%n", "%0a", "%0d%0a", "%20", "#", ";", ";;", ":", "::", ",", ",,", "=", "==", "=20", "=3D", "=\xE9", "=?UTF-8?Q?x?=", "=?utf-8?B?eA==?=", "_", "__", "~", "^", "*", "**", "?", "!", "@", "@@", "+", "-", "--", "---", "-- ", "(", ")", "()", "[", "]", "[]", "{", "}", "{}", "{{x}}", "..", "...", ". ", " .", ".a",
        "sep", "--sep", "--sep--", "boundary", "boundary=sep", "multipart/related", "base64", "quoted-printable", "8bit", "utf-8", "UTF-8", "user=", "auth=Bearer ", "password", "secret", "***************", "...", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "aGVsbG8=", "begin 644 x", "end", "http://x.y/z?a=b&c=d", "file:///etc/passwd", "C:\\x.txt", "../x", "~/x", "CON", "a.b.c", "x.tar.gz", ".hidden", "x."}; return v; }();
    return t;
}
std::string msgDesc(const MsgSpec &m) {
    std::string r = (m.html ? "html from=" : "text from=") + m.from.addr; auto l = [&](const char *n, const std::vector<AddrSpec> &v) { r += std::string(" ") + n + "=" + std::to_string(v.size()); };
    l("to", m.to); l("cc", m.cc); l("bcc", m.bcc); r += " subject=" + esc(m.subject, 40) + " body=" + esc(m.body, 60) + " atts=" + std::to_string(m.atts.size()); return r;
}
std::vector<std::string> rcptList(const MsgSpec &m) { std::vector<std::string> r; for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) r.push_back(a.addr); return r; }

// ------------------------------------------------------------------ deviations
static int goodCode(int step, const std::string &line, const Reply *g = nullptr) {
    switch (step) { case S_GREET: case S_STARTTLS: return 220; case S_EHLO: case S_EHLO2: case S_MAIL: case S_RCPT: case S_EOD: return 250; case S_DATA: return 354;
        case S_AUTH: { std::string u; for (char c : line) u += (char)toupper((unsigned char)c); return u.rfind("AUTH LOGIN", 0) == 0 ? 334 : 235; }
        case S_AUTH_USER: return 334; case S_AUTH_PASS: return 235; case S_QUIT: return 221; default: return g ? g->code : 0; }
}
std::vector<DevOpt> devMenu(const StepCtx &c, const Reply &good, unsigned m, unsigned T) {
    std::vector<DevOpt> v; std::string gt = good.text; int gc = good.code;
    auto add = [&](std::string w, std::function<void(Reply &)> f) { v.push_back({w, [w, f](Reply &r) { f(r); r.what = w; }}); };
    if (c.step == S_TLS) {
        if (m & M_TLS) {
            add("TLS silent", [](Reply &r) { r.tls = T_SILENT; r.answered = false; }); add("TLS close", [](Reply &r) { r.tls = T_CLOSE; r.answered = false; });
            add("TLS reset", [](Reply &r) { r.tls = T_RESET; r.answered = false; }); add("TLS garbage", [](Reply &r) { r.tls = T_GARBAGE; r.answered = false; });
            add("TLS alert", [](Reply &r) { r.tls = T_ALERT; r.answered = false; }); add("TLS ok then close", [](Reply &r) { r.tls = T_CLOSE_AFTER; });
            for (int cut : {3, 60, 300}) { add("TLS stalls after " + std::to_string(cut), [cut](Reply &r) { r.tls = T_TRUNC_SILENT; r.tlsArg = cut; r.answered = false; }); add("TLS closes after " + std::to_string(cut), [cut](Reply &r) { r.tls = T_TRUNC_CLOSE; r.tlsArg = cut; r.answered = false; }); }
        }
        return v;
    }
    if (c.step == S_QUIT) {
        if (m & M_CLOSE) { add("QUIT silent", [](Reply &r) { r.text.clear(); }); add("QUIT reset", [](Reply &r) { r.text.clear(); r.after = A_RST; }); }
        return v;
    }
    auto refuse = [&](int code, int after = A_NONE) { if (code == gc) return; std::string t = std::to_string(code) + (after ? " 4.3.2 service closing\r\n" : " 5.5.0 refused here\r\n");
        add("answers " + std::to_string(code) + (after ? " and closes" : ""), [t, code, after](Reply &r) { r.text = t; r.code = code; r.effect = false; r.after = after; }); };
    if (m & M_REFUSE) { refuse(550); refuse(421, A_FIN); }
    if ((m & (M_REFUSE | M_CODES)) && c.step == S_MAIL) refuse(501);
    if (m & M_CODES) { refuse(451); refuse(502); if (c.step != S_MAIL) refuse(501); refuse(252); refuse(354); refuse(250); refuse(220); refuse(334); refuse(235); refuse(100); refuse(999); }
    if (m & M_GARBAGE) for (const char *t : {"no such code\r\n", "\r\n", "000 zero\r\n", "25x odd\r\n", "-50 minus\r\n", " 250 shifted\r\n", "2 50 OK\r\n", "0x1 hex\r\n", "+25 plus\r\n", "099 low\r\n"}) { std::string s = t; add("answers \"" + esc(s) + "\"", [s](Reply &r) { r.text = s; r.code = -2; r.answered = false; r.effect = false; }); }
    if (m & M_SILENT) add("silent", [](Reply &r) { r.text.clear(); r.effect = false; r.answered = false; r.code = -1; });
    if (m & M_LOST) { add("acts but stays silent", [](Reply &r) { r.text.clear(); r.answered = false; r.code = -1; }); add("acts but closes", [](Reply &r) { r.text.clear(); r.answered = false; r.code = -1; r.after = A_FIN; }); }
    if (m & M_CLOSE) { add("closes", [](Reply &r) { r.text.clear(); r.effect = false; r.answered = false; r.code = -1; r.after = A_FIN; }); add("resets", [](Reply &r) { r.text.clear(); r.effect = false; r.answered = false; r.code = -1; r.after = A_RST; }); }
    if (m & M_AFTER) { add("ok then closes", [](Reply &r) { r.after = A_FIN; }); add("ok then resets", [](Reply &r) { r.after = A_RST; }); }
    if (m & M_PARTIAL) {
        auto part = [&](std::string t, std::string w) { for (int a : {A_NONE, A_FIN}) add(w + (a ? " then closes" : " then stalls"), [t, a](Reply &r) { r.text = t; r.effect = false; r.answered = false; r.code = -1; r.after = a; }); };
        part(gt.substr(0, 2), "sends 2 bytes"); part(std::to_string(gc) + "-begun\r\n", "begins a multi-line reply"); part(gt.substr(0, gt.size() - 2), "sends reply without line end"); part(std::to_string(gc), "sends only the code");
    }
    if (m & M_LONG) for (size_t n : {1022, 1023, 1024, 1025, 1026, 2048, 2049, 5000}) {
        std::string t = std::to_string(gc) + (c.step == S_EHLO || c.step == S_EHLO2 ? "-" : " "); t += std::string(n - t.size() - 2, 'x') + "\r\n"; if (c.step == S_EHLO || c.step == S_EHLO2) t += gt;
        add("reply of " + std::to_string(n) + " bytes", [t](Reply &r) { r.text = t; });
    }
    if (m & M_MULTI) {
        std::string k = std::to_string(gc);
        if (c.step != S_EHLO && c.step != S_EHLO2) add("two-line reply", [k](Reply &r) { r.text = k + "-first line\r\n" + k + " last line\r\n"; });
        if (c.step != S_EHLO && c.step != S_EHLO2) { std::string t; for (int i = 0; i < 60; i++) t += k + "-line number " + std::to_string(i) + " of a long multi-line reply\r\n"; add("61-line reply", [k, t](Reply &r) { r.text = t + k + " end\r\n"; }); }
        add("multi-line refusal", [](Reply &r) { r.text = "550-no\r\n550-really\r\n550 no\r\n"; r.code = 550; r.effect = false; });
    }
    if (m & M_DELAY) for (ns_t d : {(ns_t)1 * MS, (ns_t)900 * MS, (ns_t)(T > 3 ? (T - 2) * SEC - 100 * MS : SEC)}) add("after " + std::to_string(d / MS) + " ms", [d](Reply &r) { r.delay = d; });
    if (m & M_SPLIT) {
        std::set<size_t> cs; for (size_t x : {1, 2, 3, 4, 5}) if (x < gt.size()) cs.insert(x);
        cs.insert(gt.size() - 1); cs.insert(gt.size() - 2); size_t p = 0; while ((p = gt.find("\r\n", p)) != std::string::npos) { if (p + 2 < gt.size()) { cs.insert(p + 1); cs.insert(p + 2); cs.insert(p + 3); cs.insert(p + 5); cs.insert(p + 6); } p += 2; }
        for (size_t x : cs) if (x && x < gt.size()) for (ns_t g : {(ns_t)1 * MS, (ns_t)1300 * MS}) add("split at " + std::to_string(x) + " gap " + std::to_string(g / MS), [x, g](Reply &r) { r.cuts = {x}; r.gap = g; });
        { std::vector<size_t> all; for (size_t i = 1; i < gt.size(); i++) all.push_back(i); add("byte by byte", [all](Reply &r) { r.cuts = all; r.gap = 1 * MS; }); }
        if (c.tls) for (size_t x : {1, 4, 5, 6, 20}) add("TLS record split at " + std::to_string(x), [x](Reply &r) { r.rawCuts = true; r.cuts = {x}; r.gap = 300 * MS; });
    }
    if (m & M_ODD) {
        std::string k = std::to_string(gc), head; if (c.step == S_EHLO || c.step == S_EHLO2) { size_t q = gt.rfind("\r\n", gt.size() - 3); if (q != std::string::npos) head = gt.substr(0, q + 2); }
        for (const char *t : {";ODD\r\n", "\tODD 1\r\n", "ODD\r\n", "\r\n", ".\r\n", " \r\n", "_\r\n"}) for (int a : {A_NONE, A_FIN}) { std::string l = head + k + t; if (a && (t[0] != ';')) continue; add("last line \"" + esc(k + t) + "\"" + (a ? " and closes" : ""), [l, a](Reply &r) { r.text = l; r.code = -4; r.after = a; }); }
        if (!head.empty()) { std::string l = k + ";ODD\r\n"; add("only \"" + esc(l) + "\"", [l](Reply &r) { r.text = l; r.code = -4; }); }
    }
    if ((m & M_TEXTS) && c.step != S_EHLO && c.step != S_EHLO2) {
        std::string k = std::to_string(gc);
        for (const char *x : {"OK", "", "2.1.0 Ok", "2.0.0", "550 5.1.1 no such user", "4.2.2 mailbox full", "5.7.1 rejected", "failed", "error: none", "not accepted yet", "queued as 12345", "421 closing", "- dash", "-", "STARTTLS", "AUTH LOGIN", "QUIT", "250 OK", "354 go ahead", "334 VXNlcm5hbWU6", "VXNlcm5hbWU6", "UGFzc3dvcmQ6", "dXNlcm5hbWU6", "Username:", "eyJzdGF0dXMiOiI0MDAifQ==", "\xC3\xA9 accept\xE9", "tab\there", "two  blanks ", "greylisted, try again later", "duplicate", "\"quoted\" <x@y.co>", "mail.test ESMTP Postfix", "mail.test SMTP", "SMTP service ready", "220-mail.test"}) { std::string l = k + " " + x + "\r\n"; add("text \"" + esc(l) + "\"", [l](Reply &r) { r.text = l; }); }
        for (const char *x : {"-550 not the last line", "-", "-OK", "-4.2.2 mailbox full", "-STARTTLS"}) { std::string l = k + x + "\r\n" + k + " OK\r\n"; add("text \"" + esc(l) + "\"", [l](Reply &r) { r.text = l; }); }
        for (int code : {550, 451}) for (const char *x : {"OK", "", "250 OK", "2.1.5 recipient ok", "2.0.0", "354 go ahead", "accepted", "235 2.7.0 welcome", "queued as 12345", "already queued, message accepted", "successful"}) { if (code == 451 && x[0] != '2') continue; std::string l = std::to_string(code) + " " + x + "\r\n"; add("text \"" + esc(l) + "\"", [l, code](Reply &r) { r.text = l; r.code = code; r.effect = false; }); }
        for (const char *x : {"-OK", "-250 OK", "-2.0.0 accepted"}) { std::string l = std::string("554") + x + "\r\n554 no\r\n"; add("text \"" + esc(l) + "\"", [l](Reply &r) { r.text = l; r.code = 554; r.effect = false; }); }
    }
    if (m & M_WEIRD) {
        auto w = [&](std::string t, std::string n, int after = A_NONE) { 
            // what the text means when read strictly: a usable reply, none (-2), or not judged (-3)
            int code = -2; bool eff = false, ans = false; size_t b = 0, e2;
            while ((e2 = t.find('\n', b)) != std::string::npos && e2 - b >= 4 && t[b + 3] == '-') b = e2 + 1;
            if (e2 != std::string::npos && t.size() > 3 && isdigit((unsigned char)t[0]) && t[0] > '0' && isdigit((unsigned char)t[1]) && isdigit((unsigned char)t[2])) {
                code = atoi(t.substr(0, 3).c_str()); eff = code == gc; ans = true;
                if (c.step == S_EHLO || c.step == S_EHLO2 || e2 + 1 < t.size() || t.find('\0') != std::string::npos || t[e2 - 1] != '\r' || e2 - b < 5 || (t[b + 3] != ' ') || after) { code = -3; ans = false; }
            }
            add(n, [t, after, code, eff, ans](Reply &r) { r.text = t; r.code = code; r.answered = ans; r.effect = eff; r.after = after; }); };
        w(std::string("\0\0\0\0\r\n", 6), "NUL bytes"); w(std::string("250\0ok\r\n", 8), "NUL after the code"); w(std::string(1024, '\0'), "1024 NULs"); w("\xff\xfe\x80\x81\xc3\r\n", "high bytes"); w(std::string(200000, 'A') + "\r\n", "200000 bytes in one line");
        w(std::string(1024, 'B'), "1024 bytes without line end"); w(std::string(1023, '2') + "\n", "1023 digits"); w("2", "one byte"); w("\n", "LF"); w("\r", "CR"); w("250\n", "bare LF line"); w("99999999999999999999 x\r\n", "huge number"); w("-2147483648\r\n", "min int"); w("- 1\r\n", "dash"); w(std::string(70000, '-') + "\r\n", "dashes");
        { std::string t; for (int i = 0; i < 20000; i++) t += "250-\r\n"; w(t, "20000 continuation lines"); w(t, "20000 continuation lines then close", A_FIN); }
        { std::string t = gt + gt + gt; w(t, "reply three times"); } w("250-AUTH\r\n250 AUTH\r\n", "AUTH without mechanisms"); w("250-AUTH PLAIN\r\n250-AUTH LOGIN\r\n250 AUTH\r\n", "several AUTH lines"); w("250 AUTH=PLAIN\r\n", "AUTH="); w("250-\r\n250 \r\n", "empty lines"); w("250-AUTH  PLAIN   \r\n250 \r\n", "spaces"); w("250 \r\n", "empty 250");
        w("250-STARTTLS\r\n", "unfinished list then close", A_FIN); w("%s%n%s%n%d\r\n", "format string");
    }
    return v;
}
void applyMenu(StepCtx &c, Reply &r, unsigned menu, unsigned T) {
    if (!devLeft()) return;
    auto v = devMenu(c, r, menu, T); int k = dev((int)v.size() + 1, stepName(c.step)); if (k) v[k - 1].f(r);
}

void setExtensions(Scn &s, std::vector<std::string> l) { bool st = s.srv.offersStartTls(); l.push_back("AUTH PLAIN LOGIN XOAUTH2"); s.srv.ehloTls = l; if (st) l.push_back("STARTTLS"); s.srv.ehloPlain = l; }
std::vector<std::string> extensionList(std::string &d) {
    static const std::vector<std::string> e{"PIPELINING", "8BITMIME", "SIZE", "SIZE 0", "SIZE 64", "SIZE 35882577", "CHUNKING", "BINARYMIME", "SMTPUTF8", "DSN", "ENHANCEDSTATUSCODES", "HELP", "VRFY", "ETRN", "LIMITS RCPTMAX=1 MAILMAX=1", "REQUIRETLS", "DELIVERBY 240", "pipelining"};
    int n = (int)e.size(), a = pick(n + 2, "extension"), b = a < n ? pick(n - a, "other extension") : 0; std::vector<std::string> l; EnvGuard g;
    if (a == n) return l; if (a == n + 1) { for (int i = 0; i < n; i++) if (i < 2 || i > 4) l.push_back(e[(size_t)i]); d += " all extensions"; return l; }
    l.push_back(e[(size_t)a]); if (b) l.push_back(e[(size_t)(a + b)]); for (auto &x : l) d += " " + x; return l;
}
// ------------------------------------------------------------------ oracle
static bool hasMech(const Scn &s, bool tls, const char *m) {
    for (auto &l : tls ? s.srv.ehloTls : s.srv.ehloPlain) if (l.rfind("AUTH ", 0) == 0 || l.rfind("auth ", 0) == 0) { std::string t = l + " "; if (t.find(std::string(" ") + m + " ") != std::string::npos) return true; }
    return false;
}
static std::string mechOf(const Scn &s) {
    bool tls = s.kind != PLAIN; int k = s.cred.method;
    if (hasMech(s, tls, "PLAIN") && (k == 0 || k == 1)) return "PLAIN"; if (hasMech(s, tls, "LOGIN") && (k == 0 || k == 2)) return "LOGIN"; if (hasMech(s, tls, "XOAUTH2") && (k == 0 || k == 3)) return "XOAUTH2"; return "";
}
std::vector<int> plan(const Scn &s, const MsgSpec &m, bool fresh) {
    std::vector<int> p;
    if (fresh) {
        p.push_back(S_CONNECT); if (s.kind == FORCED) p.push_back(S_TLS); p.push_back(S_GREET); p.push_back(S_EHLO);
        bool sec = s.kind == OPP && s.srv.offersStartTls(); if (sec) { p.push_back(S_STARTTLS); p.push_back(S_TLS); p.push_back(S_EHLO2); }
        if (s.hasCred && (s.kind != OPP || sec)) { std::string k = mechOf(s); if (k.empty()) { p.push_back(S_OTHER); return p; } p.push_back(S_AUTH); if (k == "LOGIN") { p.push_back(S_AUTH_USER); p.push_back(S_AUTH_PASS); } }
    }
    p.push_back(S_MAIL); for (size_t i = 0; i < rcptList(m).size(); i++) p.push_back(S_RCPT); p.push_back(S_DATA); p.push_back(S_EOD); if (!s.batch) p.push_back(S_QUIT);
    return p;
}
std::set<int> codesOf(int st, const Scn &s) {
    switch (st) { case S_CONNECT: return {-1, -2, -3, -6, -7, -8, -9, -10}; case S_GREET: return {-3}; case S_EHLO: if (s.kind == FORCED) return {-59, -60}; return {-20, -21}; case S_STARTTLS: return {-30, -31}; case S_TLS: return {-55, -56, -57, -58};
        case S_EHLO2: return {-59, -60}; case S_AUTH: case S_AUTH_USER: case S_AUTH_PASS: return {-81, -82}; case S_MAIL: return {-85, -86}; case S_RCPT: return {-87, -88}; case S_DATA: return {-89, -90}; case S_EOD: return {-97, -98}; case S_QUIT: return {0, -99}; case S_OTHER: return {-84}; }
    return {};
}
int timeoutCode(int st, const Scn &s) {
    switch (st) { case S_GREET: return -3; case S_EHLO: return s.kind == FORCED ? -60 : -21; case S_STARTTLS: return -31; case S_EHLO2: return -60; case S_AUTH: case S_AUTH_USER: case S_AUTH_PASS: return -82; case S_MAIL: return -86; case S_RCPT: return -88; case S_DATA: return -90; case S_EOD: return -98; }
    return 0;
}
static std::set<int> nextCodes(const std::vector<int> &p, size_t i, const Scn &s) {   // failing at plan position i
    if (i >= p.size()) return {0};
    std::set<int> r = codesOf(p[i], s); if (p[i] == S_EOD) for (int k = -96; k <= -91; k++) r.insert(k);
    if (p[i] == S_OTHER) return {-84};
    return r;
}
Expect expected(Run &r, const SendRes &s, const Scn &sc) {
    Expect e; World &w = r.w; std::vector<int> p = plan(sc, s.msg, s.freshSession); size_t pos = 0; size_t f = s.flt0; int mails = 0; bool login = false;
    if (s.freshSession) { pos = 1; }
    else for (size_t i = s.cmd0; i-- > 0;) if (w.cmds[i].conn == s.firstConn) { if (w.cmds[i].after != A_NONE) { e.clean = false; e.rc = nextCodes(p, 0, sc); e.why = "the server had closed the connection"; return e; } break; }
    auto hard = [&](std::set<int> c, const std::string &why) { e.rc = c; e.why = why; e.clean = false; };
    bool aSent = false;
    for (size_t i = s.cmd0; i <= s.cmd1; i++) {
        for (; f < s.flt1 && (w.faultLog[f].cmdPos <= i || i == s.cmd1); f++) {
            const FaultRec &q = w.faultLog[f]; e.clean = false; bool conn = i == s.cmd0 || (s.freshSession && pos <= 1 && i == s.cmd0);
            std::string why = q.call + " " + q.what;
            if (q.what == "EINTR" || q.what.rfind("short write", 0) == 0 || q.what == "immediate" || q.what.rfind("slow", 0) == 0) continue;
            if (q.call == "socket") { hard({-1}, why); return e; } if (q.call == "resolve") { hard({-6}, why); return e; }
            if (q.call == "connect") { if (q.what == "never completes") hard({-3}, why); else hard({-2, -10}, why); return e; }
            if (conn && q.call.rfind("fcntl", 0) == 0) { hard(q.call == "fcntl(F_GETFL)" ? std::set<int>{-7} : std::set<int>{-8}, why); return e; }
            if (conn && (q.call == "select" || q.call == "poll")) { hard({-2, -10}, why); return e; }
            if (q.call == "getsockopt") { hard({-9}, why); return e; }
            if (q.call == "setsockopt") { hard({0, -9, -8, -2}, why); e.known = false; return e; }
            if (q.call.rfind("fcntl", 0) == 0 || q.call == "select" || q.call == "poll") { e.known = false; return e; }
            // send / recv errors: the step whose command was being written, or whose reply was awaited
            std::set<int> c = nextCodes(p, pos, sc); std::set<int> d = pos ? nextCodes(p, pos - 1, sc) : c;
            if (q.what == "send buffer full" || q.call.rfind("send", 0) == 0 || q.call.rfind("write", 0) == 0) { if (pos < p.size() && p[pos] == S_OTHER) c = d; hard(c, why + " before " + (pos < p.size() ? stepName(p[pos]) : "end")); if (mails && p[pos ? pos - 1 : 0] == S_MAIL && w.cmds[i - 1].code == 501) { auto x = codesOf(S_MAIL, sc); e.rc.insert(x.begin(), x.end()); } if (pos < p.size() && p[pos] == S_GREET) e.rc.insert(-3); if (sc.kind != PLAIN) e.rc.insert(d.begin(), d.end()); return e; }
            d.insert(c.begin(), c.end()); hard(d, why); return e;
        }
        if (i == s.cmd1) break;
        const CmdRec &k = w.cmds[i];
        if (k.step == S_AUTH) { login = goodCode(S_AUTH, k.line) == 334; }
        if (k.step == S_MAIL) { mails++; if (!(mails > 1 && pos && p[pos - 1] == S_MAIL)) { while (pos < p.size() && p[pos] != S_MAIL) pos++; pos++; } }
        else { size_t q = pos; while (q < p.size() && p[q] != k.step) q++; if (q >= p.size()) { e.known = false; return e; } pos = q + 1; }
        if (k.step == S_QUIT) continue;
        if (k.code == -3) { e.known = false; return e; }
        if (k.code == -4) { e.clean = false; bool more = false; for (size_t j = i + 1; j < s.cmd1; j++) if (w.cmds[j].step != S_QUIT) more = true; std::set<int> c = codesOf(k.step, sc); if (k.after != A_NONE) { auto x = nextCodes(p, pos, sc); c.insert(x.begin(), x.end()); hard(c, std::string("odd reply and connection lost at ") + stepName(k.step)); return e; } if (!more) { if (pos < p.size() && p[pos] == S_OTHER) c.insert(-84); if (pos >= p.size() || p[pos] == S_QUIT) c.insert(0); hard(c, std::string("odd reply at ") + stepName(k.step)); return e; } continue; }
        int gc = goodCode(k.step, k.line); std::string at = std::string(" at ") + stepName(k.step); auto aerr = [&]() { if (login && (k.step == S_AUTH || k.step == S_AUTH_USER || k.step == S_AUTH_PASS)) e.rc.insert(-81); };
        if (k.step == S_TLS) {
            if (!k.answered) { hard({-55, -56, -57}, "TLS negotiation fails"); return e; }
            bool ok = sc.srv.cert == CERT_GOOD || sc.srv.cert == CERT_CHAIN || (sc.self && (sc.srv.cert == CERT_SELF)); if (!ok) { hard({-55, -56, -57, -58}, "certificate"); return e; }
        } else if (!k.answered) {
            std::set<int> c = codesOf(k.step, sc); if (k.code == -1 && k.after == A_NONE) c = {timeoutCode(k.step, sc)};
            hard(c, (k.code == -2 ? "unusable reply" : k.after ? "connection lost" : "no complete reply") + at); aerr(); return e;
        } else if (k.code != gc) {
            if (k.step == S_MAIL && k.code == 501 && mails < 3 && k.after == A_NONE) continue;
            hard({k.code}, "reply " + std::to_string(k.code) + at); aerr(); if (k.step == S_MAIL && k.code == 501 && k.after) { auto x = codesOf(S_MAIL, sc); e.rc.insert(x.begin(), x.end()); } return e;
        }
        if (k.after != A_NONE) { hard(nextCodes(p, pos, sc), std::string("connection lost after ") + stepName(k.step)); return e; }
    }
    (void)aSent;
    if (pos < p.size() && p[pos] == S_OTHER) { hard({-84}, "no usable authentication mechanism"); return e; }
    e.rc = {0}; e.why = "nothing fails"; return e;
}
static std::string setStr(const std::set<int> &s) { std::string r; for (int x : s) r += (r.empty() ? "" : ",") + std::to_string(x); return "{" + r + "}"; }

void monResult(Run &r, const SendRes &s, const Scn &sc) {
    Expect e = expected(r, s, sc); if (!e.known) return;
    if (!e.rc.count(s.rc)) violate("send " + std::to_string(s.no) + " returned " + std::to_string(s.rc) + " instead of one of " + setStr(e.rc) + " (" + e.why + ")");
}
std::string angle(const std::string &s) { std::string t = s; while (!t.empty() && t[0] == ' ') t.erase(0, 1); while (!t.empty() && t.back() == ' ') t.pop_back(); if (t.size() >= 2 && t[0] == '<' && t.back() == '>') t = t.substr(1, t.size() - 2); return t; }
static bool fromOk(const std::string &arg, const MsgSpec &m) {
    std::string a = angle(arg); if (a == m.from.addr) return true; std::string n = m.from.name; for (auto &c : n) if (c == '\r' || c == '\n') c = ' ';
    return a == n + " " + m.from.addr || a == m.from.name + " " + m.from.addr || (arg.find('<') != std::string::npos && a.size() > m.from.addr.size() && a.compare(a.size() - m.from.addr.size() - 1, std::string::npos, " " + m.from.addr) == 0 && n != m.from.name);
}
void monSuccess(Run &r, const SendRes &s, const Scn &sc) {
    World &w = r.w; int acc = 0, good = 0; std::vector<std::string> want = rcptList(s.msg);
    for (size_t i = s.cmd0; i < s.cmd1; i++) if (w.cmds[i].code == -3 || (w.cmds[i].code == -4 && w.cmds[i].step == S_EOD)) return;
    for (size_t i = s.txn0; i < s.txn1; i++) { Txn &t = w.txns[i]; if (!t.accepted) continue; acc++;
        std::vector<std::string> got; for (auto &x : t.rcptOk) got.push_back(angle(x));
        bool full = got == want && t.rcptBad.empty() && fromOk(t.from, s.msg) && t.data.find(s.msg.subject) != std::string::npos && t.data.find(s.msg.body) != std::string::npos; if (full) good++; }
    if (s.rc == 0 && good != 1) violate("send " + std::to_string(s.no) + " reported success but the server accepted " + std::to_string(good) + " transactions with this message for all its recipients");
    if (acc > 1) violate("send " + std::to_string(s.no) + " delivered " + std::to_string(acc) + " copies");
    Expect e = expected(r, s, sc);
    if (e.known && e.clean && (s.rc != 0 || good != 1) && e.rc.count(0)) violate("nothing failed but send " + std::to_string(s.no) + " returned " + std::to_string(s.rc));
}
void monEnvelope(Run &r, const SendRes &s, const Scn &) {
    World &w = r.w; std::vector<std::string> want = rcptList(s.msg), got; bool prev501 = false; int mails = 0; bool inTxn = false;
    for (size_t i = s.cmd0; i < s.cmd1; i++) { const CmdRec &k = w.cmds[i];
        if (k.step == S_MAIL) {
            std::string a = k.line.substr(10); while (!a.empty() && a[0] == ' ') a.erase(0, 1);
            if (mails && !prev501) violate("sender offered again although it was not refused with 501: " + k.line);
            if (!fromOk(a, s.msg)) violate("sender given as " + esc(a) + " but the message is from " + s.msg.from.addr);
            if (!mails && a != "<" + s.msg.from.addr + ">") violate("first sender spelling is " + esc(a));
            mails++; prev501 = k.code == 501; inTxn = k.effect; got.clear();
        } else if (k.step == S_RCPT) { std::string a = k.line.substr(8); while (!a.empty() && a[0] == ' ') a.erase(0, 1); if (a.size() < 2 || a[0] != '<' || a.back() != '>') violate("recipient argument " + esc(a)); got.push_back(angle(a));
            if (got.size() > want.size() || got.back() != want[got.size() - 1]) violate("recipient " + std::to_string(got.size()) + " is " + esc(got.back()) + (got.size() <= want.size() ? " instead of " + want[got.size() - 1] : " beyond the recipients of the message")); }
        else if (k.step == S_DATA && got.size() != want.size()) violate("DATA after " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " recipients");
    }
    (void)inTxn; if (mails > 3) violate("sender offered more than three times");
}
void monNoData(Run &r, const SendRes &s, const Scn &) {
    World &w = r.w; bool mail = false, bad = false; size_t n = 0, want = rcptList(s.msg).size(); bool go = false;
    for (size_t i = s.cmd0; i < s.cmd1; i++) { const CmdRec &k = w.cmds[i];
        if (k.step == S_MAIL) { mail = k.answered && k.code == 250; n = 0; } else if (k.step == S_RCPT) { if (k.answered && k.code == 250) n++; else bad = true; }
        else if (k.step == S_DATA) { if (!mail || bad || n != want) violate("DATA sent although the server accepted " + std::string(mail ? "" : "no sender and ") + std::to_string(n) + " of " + std::to_string(want) + " recipients"); if (k.answered && k.code == 354) go = true; } }
    if (!go) for (auto &c : w.recs) for (auto &m : {s.msg.subject, s.msg.body.substr(0, 12)}) if (m.size() > 6 && (c.plainBytes.find(m) != std::string::npos || c.appBytes.find(m) != std::string::npos)) { violate("message text reached the server although it never gave the go-ahead (" + esc(m) + ")"); return; }
}
void monProtocol(Run &r) { if (!r.w.protocol.empty()) violate("protocol violation: " + r.w.protocol[0]); }
void monProblems(Run &r) { if (!r.w.problems.empty()) violate("descriptor misuse: " + r.w.problems[0]); }
void monClosed(Run &r) {
    for (auto &c : r.w.recs) if (c.closes != 1) { violate("connection " + std::to_string(c.id) + " was closed " + std::to_string(c.closes) + " times"); return; }
}
void monContent(Run &r, const SendRes &s, const Scn &, unsigned what) {
    World &w = r.w;
    for (size_t i = s.txn0; i < s.txn1; i++) { Txn &t = w.txns[i]; if (!t.ended) continue;
        Mime m = parseMime(t.data); auto bad = [&](const std::string &x) { violate("message as received: " + x); };
        if (!m.err.empty()) { bad(m.err); return; }
        const MsgSpec &q = s.msg;
        if (what & MC_STRUCT) {
            if (m.parts.size() != 1 + q.atts.size()) { bad(std::to_string(m.parts.size()) + " parts instead of " + std::to_string(1 + q.atts.size())); return; }
            if (!q.atts.empty() && !m.closed) bad("multipart not terminated");
            static const std::set<std::string> allowed{"from", "to", "cc", "subject", "content-type", "mime-version", "date", "message-id", "user-agent", "x-mailer"};
            std::set<std::string> seen; for (auto &h : m.headers) { std::string l; for (char c : h.first) l += (char)tolower((unsigned char)c); if (!allowed.count(l)) bad("header " + esc(h.first) + " which the message does not have"); else if (!seen.insert(l).second) bad("header " + l + " twice"); }
            static const std::set<std::string> pal{"content-type", "content-disposition", "content-transfer-encoding", "content-id", "x-attachment-id"};
            for (auto &pt : m.parts) { std::set<std::string> ps; for (auto &h : pt.headers) { std::string l; for (char c : h.first) l += (char)tolower((unsigned char)c); if (!pal.count(l)) bad("part header " + esc(h.first) + " which the message does not have"); else if (!ps.insert(l).second) bad("part header " + l + " twice"); } }
        }
        if (m.parts.size() < 1) { bad("no text part"); return; }
        if (what & MC_BODY) {
            const std::string &c = m.parts[0].content; bool ok = c.compare(0, q.body.size(), q.body) == 0; if (ok) { std::string rest = c.substr(q.body.size()); ok = rest.empty() || rest == "\r\n" || rest == "\r\n\r\n"; }
            if (!ok) { size_t d = 0; while (d < c.size() && d < q.body.size() && c[d] == q.body[d]) d++; bad("text differs from the body at offset " + std::to_string(d) + ": received ..." + esc(c.substr(d > 10 ? d - 10 : 0, 60)) + " body ..." + esc(q.body.substr(d > 10 ? d - 10 : 0, 60))); }
        }
        if (what & MC_ATT) {
            if (m.parts.size() != 1 + q.atts.size()) bad(std::to_string(m.parts.size() - 1) + " attachments instead of " + std::to_string(q.atts.size()));
            else for (size_t k = 0; k < q.atts.size(); k++) {
                auto &pt = m.parts[k + 1]; auto &a = q.atts[k]; std::string id = "attachment " + std::to_string(k + 1) + " ";
                if (pt.content != readFile(a.file)) bad(id + "content differs from the file (" + std::to_string(pt.content.size()) + " bytes)");
                if (param(pt.get("Content-Disposition"), "filename") != a.name) bad(id + "is named " + esc(param(pt.get("Content-Disposition"), "filename")) + " instead of " + esc(a.name));
                if (a.cid.empty() ? !pt.get("Content-ID").empty() : pt.get("Content-ID") != "<" + a.cid + ">") bad(id + "has content id " + esc(pt.get("Content-ID")) + " instead of " + esc(a.cid));
            }
        }
        if (what & MC_HEAD) {
            auto disp = [](const AddrSpec &a) { return a.name.empty() ? a.addr : a.name + " <" + a.addr + ">"; };
            auto list = [&](const std::vector<AddrSpec> &v) { std::string r; for (auto &a : v) r += (r.empty() ? "" : ", ") + disp(a); return r; };
            auto chk = [&](const char *h, const std::string &want, bool present) { int n = m.count(h); if (n != (present ? 1 : 0)) bad(std::to_string(n) + " " + h + " headers"); else if (present && m.get(h) != want) bad(std::string(h) + " is " + esc(m.get(h)) + " instead of " + esc(want)); };
            chk("From", disp(q.from), true); chk("To", list(q.to), !q.to.empty()); chk("Cc", list(q.cc), !q.cc.empty()); chk("Subject", q.subject, true);
            std::string ct; for (char c : m.parts[0].get("Content-Type")) ct += (char)tolower((unsigned char)c); if (ct.rfind(q.html ? "text/html" : "text/plain", 0) != 0) bad("text part announced as " + esc(ct));
            for (auto &b : q.bcc) { auto in = [&](const std::vector<AddrSpec> &v) { for (auto &a : v) if ((a.addr + a.name).find(b.addr) != std::string::npos) return true; return false; };
                bool att = false; for (auto &a : q.atts) att |= (a.name + "\n" + a.cid).find(b.addr) != std::string::npos;
                if (!att && !in(q.to) && !in(q.cc) && q.from.addr.find(b.addr) == std::string::npos && q.from.name.find(b.addr) == std::string::npos && q.subject.find(b.addr) == std::string::npos && q.body.find(b.addr) == std::string::npos && t.data.find(b.addr) != std::string::npos) bad("contains the Bcc address " + b.addr); }
        }
    }
}
void monTime(Run &r, const SendRes &s, const Scn &sc) {
    ns_t lim = (ns_t)sc.timeout * 3 * SEC + 6 * SEC, took = s.t1 - s.lastAct;
    if (took > lim) violate("send " + std::to_string(s.no) + " returned " + std::to_string(took / SEC) + " s after the server's last activity (time-out " + std::to_string(sc.timeout) + " s)");
    if (r.dtorEnd - r.dtorAct > lim) violate("the destructor took " + std::to_string((r.dtorEnd - r.dtorStart) / SEC) + " s");
}
static std::vector<std::string> secrets(const CredSpec &c) {
    return {c.pass, b64(c.pass), b64(std::string(1, '\0') + c.user + std::string(1, '\0') + c.pass), b64("user=" + c.user + "\001auth=Bearer " + c.pass + "\001\001")};
}
void monClear(Run &r, const Scn &sc) {
    if (sc.kind == PLAIN) return;
    for (auto &c : r.w.recs) {
        if (sc.kind == FORCED && !c.plainBytes.empty()) violate("forced-TLS client sent unencrypted bytes: " + esc(c.plainBytes, 80));
        if (c.plainAfterTls) violate("unencrypted bytes after TLS was started: " + esc(c.plainBytes.substr(c.plainBytes.size() > 80 ? c.plainBytes.size() - 80 : 0), 80));
        if (sc.hasCred) for (auto &x : secrets(sc.cred)) if (c.plainBytes.find(x) != std::string::npos) violate("credentials sent in clear");
    }
    for (auto &c : r.w.recs) if (!c.weak.empty() && !c.appBytes.empty()) violate("bytes sent through " + c.weak + ": " + esc(c.appBytes, 80));
    for (auto &a : r.w.auths) if (!a.tls) { violate("authentication outside TLS"); break; }
}
void monLogSecret(Run &r, const SendRes &s, const Scn &sc) {
    if (!sc.hasCred) return;
    auto l = secrets(sc.cred); for (size_t i = s.auth0; i < s.auth1; i++) for (size_t k = 0; k < r.w.auths[i].payloads.size(); k++) if (!(r.w.auths[i].mech == "LOGIN" && k == 0)) l.push_back(r.w.auths[i].payloads[k]);
    for (auto &x : l) if (x.size() >= sc.minSecret && s.log.find(x) != std::string::npos) { size_t p = s.log.find(x); violate("the communication log contains a secret: ..." + esc(s.log.substr(p > 30 ? p - 30 : 0, 80))); return; }
}
void monLogComplete(Run &r, const SendRes &s, const Scn &sc) {
    World &w = r.w; if (w.recs.empty()) return; size_t pos = 0; int conn = -1;
    for (size_t i = s.cmd1; i-- > 0;) if (w.cmds[i].sendNo == s.no) { conn = w.cmds[i].conn; break; } if (conn < 0) return;
    auto need = [&](const std::string &x, const std::string &what) { size_t q = s.log.find(x, pos); if (q == std::string::npos) { violate("the communication log lacks (or misplaces) " + what + ": " + esc(x, 200)); return false; } pos = q + x.size(); return true; };
    for (size_t i = 0; i < s.cmd1; i++) { const CmdRec &k = w.cmds[i]; if (k.conn != conn || k.sendNo > s.no) continue;
        std::string c = k.line;
        if (k.step == S_AUTH) c = k.line.substr(0, k.line.rfind("AUTH XOAUTH2", 0) == 0 ? 0 : 10); if (k.step == S_AUTH_USER || k.step == S_AUTH_PASS || k.step == S_GREET || k.step == S_TLS) c.clear();
        if (k.step == S_EOD) c = "."; if (k.step == S_QUIT && i >= s.cmd0 && false) c.clear();
        if (k.step == S_EOD) { if (k.sendNo == s.no) { if (!need("Subject: " + s.msg.subject, "the subject line")) return; { std::string b = s.msg.body; size_t q = 0; while ((q = b.find("\r\n", q)) != std::string::npos) { b.replace(q, 2, "\\r\\n"); q += 4; } if (!need(b, "the body")) return; } } if (!need("\\r\\n.\\r\\n", "the end of data")) return; }
        else if (!c.empty()) { if (k.step == S_AUTH || k.step == S_DATA || true) { if (!need("c: " + c, std::string("command ") + stepName(k.step))) return; } }
        if (k.step == S_QUIT || k.step == S_TLS) continue;
        std::string t = k.reply; if (t.find('\0') != std::string::npos || !k.answered) continue; if (i + 1 == s.cmd1 && k.sendNo != s.no) continue;
        bool first = true; size_t p = 0; while (p < t.size()) { size_t e = t.find("\r\n", p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 2; if (!need((first ? "s: " : "") + l, std::string("server reply at ") + stepName(k.step))) return; first = false; }
    }
    // nothing of an earlier session
    for (size_t i = 0; i < s.cmd0; i++) if (w.cmds[i].conn != conn && w.cmds[i].step == S_MAIL) { bool again = false; for (size_t j = 0; j < s.cmd1; j++) if (w.cmds[j].conn == conn && w.cmds[j].line == w.cmds[i].line) again = true; if (!again && s.log.find(w.cmds[i].line) != std::string::npos) { violate("the log of this session contains entries of an earlier one: " + esc(w.cmds[i].line)); return; } }
    (void)sc;
}
// C13: connection use. s.wasBatch is the batch setting during the send
void monSession(Run &r, const SendRes &s, const Scn &sc) {
    World &w = r.w; bool acc = false; for (size_t i = s.txn0; i < s.txn1; i++) if (w.txns[i].accepted) acc = true;
    const SendRes *prev = s.no >= 2 ? &r.sends[s.no - 2] : nullptr;
    std::string id = "send " + std::to_string(s.no);
    if (s.con1 - s.con0 > 1) violate(id + " opened " + std::to_string(s.con1 - s.con0) + " connections");
    if (!s.wasBatch) {
        if ((!prev || !prev->wasBatch || prev->rc != 0) && s.rc == 0 && s.con1 - s.con0 != 1) violate(id + " (not batch) opened " + std::to_string(s.con1 - s.con0) + " connections");
        if (acc && s.rc == 0 && s.retQuits != 1) violate(id + " (not batch) ended with " + std::to_string(s.retQuits) + " QUIT commands");
        if (acc && !s.retClosed) violate(id + " (not batch) returned without closing its connection");
    } else if (s.rc == 0) {
        if (s.retQuits || s.retClosed) violate(id + " (batch) ended its session");
        if (prev && prev->wasBatch && prev->rc == 0 && (s.con1 != s.con0 || s.lastConn != prev->lastConn)) violate(id + " (batch) did not reuse the open connection");
    }
    std::map<int, int> au; for (auto &a : w.auths) au[a.conn]++;
    for (auto &c : w.recs) {
        if (c.greeted > 1) violate("greeted twice on one connection");
        int want = sc.kind == OPP && c.tlsUp ? 2 : 1; if (c.ehlos > want) violate(std::to_string(c.ehlos) + " EHLO commands on one connection");
        if (au[c.id] > 1) violate("authenticated " + std::to_string(au[c.id]) + " times on one connection"); if (c.quits > 1) violate(std::to_string(c.quits) + " QUIT commands on one connection");
    }
}
// C18: mechanism, payload, and no mail without the authentication that was asked for
void monAuth(Run &r, const SendRes &s, const Scn &sc) {
    World &w = r.w; std::string id = "send " + std::to_string(s.no) + ": "; std::map<int, std::vector<const AuthRec *>> by;
    for (auto &a : w.auths) if (a.sendNo <= s.no) by[a.conn].push_back(&a);
    if (!sc.hasCred) { if (!by.empty()) violate(id + "authenticated without credentials"); return; }
    std::string want = mechOf(sc);
    for (auto &k : by) {
        if (k.second.size() > 1) violate(id + std::to_string(k.second.size()) + " authentications in one session");
        if (k.second[0]->sendNo != s.no) continue;   // judged with the send it belongs to
        const AuthRec &a = *k.second[0]; if (a.mech != want) { violate(id + "authenticated with " + esc(a.mech) + " instead of " + (want.empty() ? "failing as unsupported" : want)); continue; }
        std::vector<std::string> exp;
        if (a.mech == "PLAIN") exp = {std::string(1, '\0') + sc.cred.user + std::string(1, '\0') + sc.cred.pass};
        else if (a.mech == "LOGIN") exp = {sc.cred.user, sc.cred.pass};
        else exp = {"user=" + sc.cred.user + "\001auth=Bearer " + sc.cred.pass + "\001\001"};
        if (a.payloads.size() > exp.size()) violate(id + "too many authentication lines");
        if (a.mech != "LOGIN" && a.payloads.size() != 1) violate(id + "no authentication payload");
        if (a.accepted && a.payloads.size() != exp.size()) violate(id + std::to_string(a.payloads.size()) + " authentication payloads");
        for (size_t i = 0; i < a.payloads.size() && i < exp.size(); i++) { bool ok; std::string d = unb64(a.payloads[i], &ok); if (!ok || d != exp[i]) violate(id + a.mech + " payload " + esc(a.payloads[i]) + " decodes to " + esc(d) + " instead of " + esc(exp[i])); }
    }
    for (size_t i = s.cmd0; i < s.cmd1; i++) { const CmdRec &k = w.cmds[i]; if (k.step != S_MAIL && k.step != S_RCPT && k.step != S_DATA) continue;
        if (sc.kind == OPP && !k.tls) continue;      // opportunistic client without TLS: sends without authenticating
        bool ok = false; for (size_t j = 0; j < i; j++) { const CmdRec &q = w.cmds[j]; if (q.conn != k.conn || !q.answered || q.code != 235) continue; if (q.step == S_AUTH_PASS || q.step == S_AUTH) ok = true; }
        if (!ok) { violate(id + stepName(k.step) + " sent without a successful authentication"); return; } }
    if (want.empty() && s.freshSession && s.cmd1 > s.cmd0) { Expect e = expected(r, s, sc); if (e.known && e.rc == std::set<int>{-84} && s.rc != -84) violate(id + "no usable mechanism but the result is " + std::to_string(s.rc)); }
}
std::string outcomeText(Run &r) {
    std::string o; for (auto &s : r.sends) { o += "rc=" + std::to_string(s.rc) + " last=" + (s.cmd1 > s.cmd0 ? stepName(r.w.cmds[s.cmd1 - 1].step) : "-") + " cmds=" + std::to_string(s.cmd1 - s.cmd0) + "; "; }
    return o + "conns=" + std::to_string(r.w.recs.size());
}
void outcomeOf(Run &r) { outcome(outcomeText(r)); }
std::string transcriptOf(Run &r, size_t cmd0) {
    std::string o; for (size_t i = cmd0; i < r.w.cmds.size(); i++) { auto &k = r.w.cmds[i]; o += std::string(k.tls ? "T " : "P ") + stepName(k.step) + " " + k.line + "\n"; } return o;
}
}  // namespace mc
