// Session checks: C01 C02 C03 C04 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C23
#include <algorithm>
#include <openssl/err.h>
#include "scen.h"
namespace mc {
typedef void (*Mon)(Run &, const SendRes &, const Scn &);
static const std::vector<int> ALLK{PLAIN, OPP, FORCED};
template <class T> static T choose(const std::vector<T> &v, const char *l) { return v[pick((int)v.size(), l)]; }
static void deviations(Run &r, unsigned menu, unsigned faults = 0, int onlySend = 0) {
    r.w.faults = onlySend ? 0 : faults; unsigned T = r.def.timeout; World *w = &r.w;
    r.w.decide = [menu, T, onlySend, w](StepCtx &c, Reply &rp) { if (onlySend && c.sendNo != onlySend) return; (void)w; applyMenu(c, rp, menu, T); };
}
// opportunistic server without STARTTLS
static void noStartTls(Scn &s) { s.srv.ehloPlain.erase(std::remove(s.srv.ehloPlain.begin(), s.srv.ehloPlain.end(), "STARTTLS"), s.srv.ehloPlain.end()); }
// kind 3: opportunistic against a server without STARTTLS
static Scn scn4(int k, int api, int cred, bool batch) {
    Scn s = scn(k == 3 ? OPP : k, api, cred > 0, batch); if (k == 3) noStartTls(s);
    if (cred == 2) { s.cred.method = 2; } if (cred == 3) { s.cred.method = 3; } if (cred == 4) s.cred.method = 1; return s;
}
static void note(const Scn &s, const std::string &x = "") { EnvGuard g; scenarioNote(s.str() + (x.empty() ? "" : " " + x)); }

// ------------------------------------------------------------------ generic exploration: sends with deviations
struct Space { std::vector<int> kinds{PLAIN, OPP, FORCED}, apis{0}, creds{0, 1}, batch{0}, variants{10}; unsigned menu = 0, faults = 0; int sends = 1; unsigned timeout = 5; std::vector<Mon> mons; bool envMons = false; unsigned content = 0; bool certs = false; };
static void runSpace(const Space &sp) {
    Scn s = scn4(choose(sp.kinds, "kind"), choose(sp.apis, "api"), choose(sp.creds, "credentials"), choose(sp.batch, "batch")); s.timeout = sp.timeout;
    int var = choose(sp.variants, "message"); note(s);
    Run r(s); deviations(r, sp.menu, sp.faults);
    std::unique_ptr<IClient> c(make(s));
    for (int i = 1; i <= sp.sends; i++) {
        SendRes res = r.send(c.get(), msgOf(var, i)); EnvGuard g;
        for (auto m : sp.mons) m(r, res, s);
        if (sp.content) monContent(r, res, s, sp.content);
    }
    r.dtor(c); EnvGuard g;
    if (sp.envMons) { monProtocol(r); monProblems(r); monClosed(r); }
    outcomeOf(r);
}
static Phase space(const char *name, int bq, int bt, const std::string &bounds, std::function<void(Space &)> f) { return {name, [f] { Space s; f(s); runSpace(s); }, bq, bt, bounds}; }

// ------------------------------------------------------------------ every reply code at one step
struct Sweep { std::vector<int> kinds{0, 1, 2, 3}, steps, creds{0}, batch{0}; int sends = 1; std::vector<Mon> mons; bool multi = false; int block = 30; };
static const std::vector<int> SMTP_STEPS{S_GREET, S_EHLO, S_STARTTLS, S_EHLO2, S_AUTH, S_AUTH_USER, S_AUTH_PASS, S_MAIL, S_RCPT, S_DATA, S_EOD};
static bool stepOccurs(const Scn &s, int st) {
    if (st == S_STARTTLS || st == S_EHLO2) return s.kind == OPP && s.srv.offersStartTls(); bool au = s.hasCred && (s.kind != OPP || s.srv.offersStartTls());
    if (st == S_AUTH) return au; if (st == S_AUTH_USER || st == S_AUTH_PASS) return au && s.cred.method == 2; return true;
}
static void runSweep(const Sweep &sp) {
    Scn s = scn4(choose(sp.kinds, "kind"), 0, choose(sp.creds, "credentials"), choose(sp.batch, "batch")); int st = choose(sp.steps, "step"); if (!stepOccurs(s, st)) return;
    if (sp.kinds.size() > 2 && !thorough() && s.kind == OPP && s.srv.offersStartTls() && st != S_STARTTLS && st != S_EHLO2 && st != S_EHLO && st < S_AUTH) return;
    int occ = st == S_RCPT ? pick(2, "which recipient") : 0, form = pick(sp.multi ? 2 : 1, "form"), b = pick((900 + sp.block - 1) / sp.block, "codes"); { EnvGuard g; scenarioNote(s.str() + " codes from " + std::to_string(100 + b * sp.block) + " at " + stepName(st)); }
    int n = 0; for (int code = 100 + b * sp.block; code < std::min(1000, 100 + (b + 1) * sp.block); code++, n++) {
        Run r(s); { EnvGuard g; r.w.note("-- code " + std::to_string(code)); } r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.sendNo != 1 || c.step != st || (st == S_RCPT && c.idx != occ) || rp.code == code) return; std::string k = std::to_string(code); rp.text = form ? k + "-5.5.0 first\r\n" + k + " last\r\n" : k + " 5.5.0 answer\r\n"; rp.code = code; rp.effect = false; rp.what = k; };
        std::unique_ptr<IClient> c(make(s)); MsgSpec m; for (int i = 1; i <= sp.sends; i++) { { EnvGuard g; m = msgOf(2, i); } SendRes x = r.send(c.get(), m); EnvGuard g; for (auto f : sp.mons) f(r, x, s); }
        r.dtor(c); EnvGuard g; addState(hstr(std::to_string(s.kind) + stepName(st) + std::to_string(code) + outcomeText(r)));
    }
    EnvGuard g; countEval((uint64_t)n, 0); outcome(std::string("codes at ") + stepName(st));
}
static Phase sweep(const char *name, const std::string &b, std::function<void(Sweep &)> f) { return {name, [f] { Sweep s; s.steps = SMTP_STEPS; f(s); runSweep(s); }, 0, 0, b}; }

// what the server advertises does not change what the client may do
static void extensions(const std::vector<Mon> &mons) {
    Scn s = scn4(pick(4, "kind"), pick(tierSel(1, 2), "api"), pick(2, "credentials"), pick(2, "batch")); std::string d; auto l = extensionList(d); int ref = pick(7, "refused"); if (!thorough() && (s.hasCred != s.batch || (s.kind != PLAIN && ref > 4))) return; { EnvGuard g; setExtensions(s, l); } note(s, "server offers" + d + " refused " + std::to_string(ref));
    Run r(s); int seen = 0; r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == S_MAIL) seen = 0; auto no = [&](int code) { rp.code = code; rp.effect = false; rp.text = std::to_string(code) + " 5.5.0 refused\r\n"; }; if (c.sendNo != 1) return;
        if (c.step == S_RCPT) { int k = seen++; if (ref == 1 && k == 0) no(550); if (ref == 2 && k == 1) no(452); if (ref == 3 && k == 3) no(550); } if (c.step == S_MAIL && ref == 4) no(552); if (c.step == S_DATA && ref == 5) no(554); if (c.step == S_EOD && ref == 6) no(552); };
    std::unique_ptr<IClient> c(make(s)); for (int i = 1; i <= 2; i++) { MsgSpec m; { EnvGuard g; m = msgOf(i == 1 ? 3 : 0, i); m.body += "caf\xE9 \xC3\xA9\r\n.\r\n..\r\n" + std::string(1200, 'l') + "\r\n"; } SendRes x = r.send(c.get(), m); EnvGuard g; for (auto f : mons) f(r, x, s); monContent(r, x, s, MC_BODY | MC_STRUCT); if (!ref && x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); }
    r.dtor(c); EnvGuard g; monProtocol(r); outcomeOf(r);
}
static Phase extPhase(const std::vector<Mon> &m) { return {"server extensions", [m] { extensions(m); }, 0, 0, "servers that advertise none, every one, every pair or all of 18 extensions (PIPELINING, SIZE 64, CHUNKING ...); 7 refusals; two sends; kinds, credentials, batch (APIs)"}; }
static Phase textPhase(const std::vector<int> &creds, const std::vector<Mon> &m, int dt = 1) { return space("texts of replies", 1, dt, "every step x 60 usual, misleading and unusual texts after a positive or negative code", [creds, m](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = creds; s.menu = M_TEXTS; s.mons = m; s.variants = {2}; s.batch = {0, 1}; s.content = MC_BODY; }); }
// ================================================================== C01
static void c01Plain() {
    int k = pick(4, "kind"), api = pick(2, "api"), cr = pick(5, "credentials"); bool b = pick(2, "batch"); Scn s = scn4(k, api, cr, b);
    static const int vars[] = {0, 1, 2, 3, 4, 7, 8, 15}; int v = vars[pick(8, "message")];
    if (k != PLAIN && thorough()) { s.srv.tickets = pick(2, "tickets") * 2; s.srv.tlsMax = pick(2, "tls version") ? 12 : 13; }
    note(s); Run r(s); std::unique_ptr<IClient> c(make(s));
    for (int i = 1; i <= (b ? 2 : 1); i++) { SendRes x = r.send(c.get(), msgOf(v, i)); EnvGuard g; monSuccess(r, x, s); monContent(r, x, s, MC_STRUCT | MC_BODY | MC_ATT); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
// a message with many recipients, one of which (or none) is refused
static void manyRefused(void (*mon)(Run &, const SendRes &, const Scn &)) {
    static const std::vector<int> q{5, 9, 10, 11, 16, 17, 33, 65, 101}, t = [] { std::vector<int> v; for (int i = 5; i <= 40; i++) v.push_back(i); for (int i : {63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 255, 256, 257}) v.push_back(i); return v; }();
    int n = choose(thorough() ? t : q, "recipients"), mix = pick(3, "lists"), at = pick(n + 1, "refused recipient"); Scn s = scn4(pick(3, "kind"), pick(2, "api"), 0, pick(2, "batch")); int how = pick(3, "kind of refusal"); if (!thorough() && (s.batch != (how == 0) || (s.kind != PLAIN && (n > 33 || s.api)))) return;
    MsgSpec m = msgOf(0); { EnvGuard g; for (int i = 1; i < n; i++) { AddrSpec a{"r" + std::to_string(i) + "@example.com", ""}; (mix == 0 ? m.to : mix == 1 ? (i % 2 ? m.cc : m.to) : i % 3 == 0 ? m.cc : m.bcc).push_back(a); } note(s, std::to_string(n) + " recipients, refused " + std::to_string(at)); }
    Run r(s); int seen = 0, conn = 0; r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == S_MAIL) seen = 0; if (c.step != S_RCPT || c.sendNo != 1) return; if (seen++ != at) return; rp.effect = false; rp.what = "refused recipient";
        switch (how) { case 0: rp.text = "550 5.1.1 no such user\r\n"; rp.code = 550; break; case 1: rp.text = "452 4.5.3 too many recipients\r\n"; rp.code = 452; break; case 2: rp.text.clear(); rp.answered = false; rp.code = -1; break; } };
    std::unique_ptr<IClient> c(make(s)); for (int i = 0; i < (s.batch ? 2 : 1); i++) { { EnvGuard g; m.subject = "Subject-mark-" + std::to_string(i + 1); m.body = "Body-mark-" + std::to_string(i + 1) + " text\r\n"; } SendRes x = r.send(c.get(), m); EnvGuard g; mon(r, x, s); monResult(r, x, s); } (void)conn;
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC01("C01", {
    {"undisturbed sends", c01Plain, 0, 0, "4 client/server kinds x 2 APIs x 5 credential settings x batch x 8 message shapes (x TLS version and tickets)"},
    space("one send, deviating server", 1, 2, "4 kinds x credentials {none, implicit}; every step x every deviation of the menu, up to k deviations", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.menu = M_ALLFAIL | M_MULTI | M_WEIRD; s.mons = {monSuccess}; s.content = MC_STRUCT | MC_BODY; }),
    space("one send, failing system calls", 1, 2, "every send/recv call of a session fails, is interrupted or is short; up to k", [](Space &s) { s.faults = FM_SEND_SHORT | FM_SEND_ERR | FM_RECV_ERR | FM_EINTR; s.variants = {10, 0}; s.mons = {monSuccess}; s.content = MC_STRUCT | MC_BODY | MC_ATT; s.apis = {0, 1}; }),
    space("batch of two, deviating server", 1, 2, "two sends on one client in batch and non-batch mode, up to k deviations anywhere", [](Space &s) { s.batch = {1, 0}; s.sends = 2; s.variants = {0}; s.creds = {0, 3}; s.menu = M_REFUSE | M_SILENT | M_CLOSE | M_AFTER | M_LOST | M_TLS; s.mons = {monSuccess}; s.content = MC_BODY; }),
    sweep("every reply code", "every code 100..999 at every step of a session (both recipients), 4 kinds, one- and two-line replies", [](Sweep &s) { s.creds = {1, 2}; s.mons = {monSuccess}; s.multi = thorough(); }),
    space("unusual last lines", 1, 1, "replies whose last line is not the usual form (code;text, code<TAB>text, bare code, ...) at every step", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 1, 2}; s.batch = {0, 1}; s.menu = M_ODD; s.mons = {monSuccess}; s.sends = 2; }),
    space("three deviations", -1, 3, "plain client, refusals and lost connections, up to 3 deviations", [](Space &s) { s.kinds = {PLAIN}; s.creds = {0}; s.menu = M_REFUSE | M_LOST | M_CLOSE; s.mons = {monSuccess}; }),
    {"many recipients, one refused", [] { manyRefused(monSuccess); }, 0, 0, "9 (49) counts of recipients up to 101 (257) in 3 distributions over the lists, none or each one refused in 3 ways; kinds, APIs, batch"},
    extPhase({monSuccess}),
    textPhase({0, 1, 2, 3}, {monSuccess}, 2),
});
// ================================================================== C02
static void c02Spellings() { // every sequence of answers to the spellings of the sender
    Scn s = scn4(pick(4, "kind"), pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); int var = pick(2, "message") * 8; std::string h; Run r(s); int sends = thorough() ? 2 : 1;
    r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != S_MAIL || r.w.txns.size() > 40) return; static const int codes[] = {250, 501, 550, 553, 451, 421, 500, 503, 555, 999, 100, 0, -1}; int k = codes[pick(13, "answer")]; if (c.idx > 5) k = 250; h += " " + std::to_string(k); if (k == 250) return; rp.effect = false; if (k > 0) { rp.code = k; rp.text = std::to_string(k) + " 5.1.7 answer\r\n"; if (k == 421) rp.after = A_FIN; } else { rp.text.clear(); rp.answered = false; rp.code = -1; if (k) rp.after = A_FIN; } };
    std::unique_ptr<IClient> c(make(s)); for (int i = 1; i <= sends; i++) { MsgSpec m; { EnvGuard g; m = msgOf(var, i); m.from.name = var ? "Sender Name" : ""; } SendRes x = r.send(c.get(), m); EnvGuard g; monResult(r, x, s); monSuccess(r, x, s); monEnvelope(r, x, s); }
    note(s, "answers to MAIL:" + h); r.dtor(c); EnvGuard g; monClosed(r); outcomeOf(r);
}
static Reg rC02("C02", {
    space("deviating server, one send", 1, 2, "4 kinds x 2 APIs x 4 credential settings; every step x every deviation, up to k", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.apis = {0, 1}; s.creds = thorough() ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2, 3}; if (thorough()) s.apis = {0}; s.menu = M_ALLFAIL; s.mons = {monResult}; s.variants = {2}; }),
    space("failing system calls, one send", 1, 2, "every socket, resolve, fcntl, connect, select, getsockopt, send and recv call fails; up to k", [](Space &s) { s.apis = {0, 1}; s.creds = {0, 2}; s.faults = FM_ALL & ~(FM_SETSOCKOPT | FM_SEND_STALL); s.mons = {monResult}; s.variants = {8}; }),
    space("two sends", 1, 2, "batch and non-batch, two sends, up to k deviations anywhere", [](Space &s) { s.batch = {0, 1}; s.sends = 2; s.variants = {0}; s.creds = {0}; s.menu = M_REFUSE | M_SILENT | M_CLOSE | M_AFTER | M_TLS; s.mons = {monResult}; }),
    space("certificates", 0, 0, "every certificate kind x secure client kinds", [](Space &) {}),
    sweep("every reply code", "every code 100..999 at every step of a session (both recipients), 4 kinds, one- and two-line replies", [](Sweep &s) { s.creds = {1, 2}; s.mons = {monResult}; s.multi = thorough(); }),
    space("unusual last lines", 1, 2, "replies whose last line is not the usual form (code;text, code<TAB>text, bare code, ...) at every step, then silence or closing", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 1, 2}; s.menu = M_ODD; s.mons = {monResult}; }),
    {"answers to the sender", c02Spellings, 0, 0, "every sequence of 13 answers (codes, silence, closing) to the spellings of the sender; kinds, APIs, credentials, batch; (two sends)"},
    extPhase({monResult}),
    textPhase({0, 1, 2, 3}, {monResult}),
});
static void c02Certs() {
    Scn s = scn4(1 + pick(2, "kind"), pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); s.srv.cert = pick(CERT_NKINDS, "certificate"); s.self = pick(2, "self-signed ok"); note(s);
    if (s.self && (s.srv.cert == CERT_SELF_EXPIRED || s.srv.cert == CERT_SELF_WRONGHOST)) return;
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monResult(r, x, s); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static struct FixC02 { FixC02() { for (auto &c : registry()) if (c.id == "C02") c.phases[3].body = c02Certs; } } fixC02;
// ================================================================== C03
static void c03Lists() {
    static const std::vector<AddrSpec> pool{{"a1@example.com", ""}, {"s@mail.test", ""}, {"Upper.Case-9@Sub.Example-host.org", "Disp Name"}, {"x_y@e.info", "\"Quoted, Name\""}};
    int k = thorough() ? pick(3, "kind") : PLAIN, api = pick(2, "api"); bool b = false; Scn s = scn(k, api, false, b); MsgSpec m; m.from = pick(2, "sender name") ? AddrSpec{"the.sender@mail.test", "Sender Name"} : AddrSpec{"s@mail.test", ""}; m.subject = "Subject-mark-1"; m.body = "Body-mark-1 text\r\n";
    int mx = k == PLAIN ? 2 : 1;
    auto fill = [&](std::vector<AddrSpec> &v, const char *l, int min) { int n = min + pick(mx + 1 - min, l); for (int i = 0; i < n; i++) v.push_back(pool[pick(3, "address")]); };
    fill(m.to, "to", 1); fill(m.cc, "cc", 0); fill(m.bcc, "bcc", 0);
    note(s, msgDesc(m)); Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == S_MAIL && devLeft() && dev(2, "MAIL 501")) { rp.text = "501 5.1.7 bad address\r\n"; rp.code = 501; rp.effect = false; rp.what = "501"; } };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), m); { EnvGuard g; monEnvelope(r, x, s); monProtocol(r); if (x.rc == 0) for (auto &t : r.w.txns) if (t.accepted) { std::vector<std::string> got; for (auto &q : t.rcptOk) got.push_back(angle(q)); if (got != rcptList(m)) violate("accepted for " + std::to_string(got.size()) + " recipients instead of " + std::to_string(rcptList(m).size())); } }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c03Shapes() {   // larger lists and addresses the validator accepts
    int k0 = pick(4, "kind"); Scn s = scn4(k0, pick(2, "api"), 0, pick(2, "batch")); static const int sz[] = {1, 0, 2, 3, 7, 40, 101, 257}; MsgSpec m = msgOf(0);
    int shape = pick(6, "list"), n = sz[pick(k0 == PLAIN ? 8 : 6, "size")]; auto mk = [&](const char *p, int c) { std::vector<AddrSpec> v; for (int i = 0; i < c; i++) v.push_back({std::string(p) + std::to_string(i) + "@example.com", i % 2 ? "N" + std::to_string(i) : ""}); return v; };
    switch (shape) { case 0: m.to = mk("t", std::max(n, 1)); break; case 1: m.cc = mk("c", n); break; case 2: m.bcc = mk("b", n); break; case 3: m.to = mk("t", std::max(n, 1)); m.cc = mk("c", n); m.bcc = mk("b", n); break;
        case 4: m.to = mk("t", 2); m.cc = mk("t", 2); m.bcc = mk("t", n); break; default: m.to = {}; m.cc = mk("c", n); m.bcc = mk("b", 1); if (s.api) m.to = mk("t", 1); }
    note(s, msgDesc(m)); Run r(s); std::unique_ptr<IClient> c(make(s));
    for (int i = 0; i < (s.batch ? 2 : 1); i++) { SendRes x = r.send(c.get(), m); EnvGuard g; monEnvelope(r, x, s); if (x.rc != 0) violate("nothing failed but the result is " + std::to_string(x.rc)); }
    r.dtor(c); EnvGuard g; monProtocol(r); outcomeOf(r);
}
static void c03Addrs() {
    static const char *ad[] = {"a@b.co", "first.last@example.com", "first_last-x@e-x.example.info", "UPPER@EXAMPLE.ORG", "a.b.c.d.e@f.g.h.museum", "0@1.co", "x@localhost.name", "very.long.local.part.of.an.address.that.goes.on.and.on@very.long.domain.name.of.a.host.that.goes.on.example.com"};
    Scn s = scn4(pick(3, "kind"), pick(2, "api"), 0, 0); MsgSpec m = msgOf(0); std::string f = ad[pick(8, "sender")], t = ad[pick(8, "recipient")]; static const char *nm[] = {"", "Plain Name", "Name <with> angle", "50% & more \"q\""}; m.from = {f, nm[pick(4, "sender name")]}; m.to = {{t, nm[pick(2, "name")]}};
    int refusals = pick(4, "501 answers"); note(s, f + " -> " + t + " 501x" + std::to_string(refusals)); bool okAddr = true;
    Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == S_MAIL && c.idx < refusals) { rp.text = "501 5.1.7 bad address\r\n"; rp.code = 501; rp.effect = false; } };
    std::unique_ptr<IClient> c(make(s)); try { SendRes x = r.send(c.get(), m); EnvGuard g; monEnvelope(r, x, s); monResult(r, x, s); } catch (std::exception &) { okAddr = false; } r.dtor(c); EnvGuard g; outcome(okAddr ? outcomeText(r) : "address not accepted");
}
static void c03Chars() {     // whatever character the address accepts is transmitted as it is
    int api = pick(2, "api"), place = pick(8, "place"), blk = pick(16, "block"), kind = pick(tierSel(1, 3), "kind"); Scn s = scn4(kind, api, 0, 1); note(s, "every character in an address"); Run r(s); std::unique_ptr<IClient> c(make(s)); int took = 0;
    for (int b = blk ? blk * 16 : 1; b < blk * 16 + 16; b++) for (int as = 0; as < 4; as++) { MsgSpec m; { EnvGuard g; m = msgOf(2); std::string ch(1, (char)b), a = place == 0 ? "user" + ch + "tag@example.com" : place == 1 ? ch + "user@example.com" : place == 2 ? "user" + ch + "@example.com" : place == 3 ? "user@exam" + ch + "ple.com" : place == 4 ? "user@example.c" + ch + "m" : place == 5 ? "us" + ch + ch + "er@example.com" : place == 6 ? "USER@EX" + ch + "ample.Com" : "u" + ch + "s" + ch + "t@a" + ch + "b.co.uk"; if (as == 0) m.from = {a, ""}; if (as == 1) m.to = {{"first@example.com", ""}, {a, "Named"}}; if (as == 2) m.cc = {{a, ""}}; if (as == 3) m.bcc = {{a, ""}}; }
        bool ok = true; SendRes x; try { x = r.send(c.get(), m); } catch (std::exception &) { ok = false; } EnvGuard g; if (!ok) continue; took++; monEnvelope(r, x, s); if (x.rc != 0) violate("nothing failed but the result is " + std::to_string(x.rc) + " (" + msgDesc(m) + ")"); }
    r.dtor(c); EnvGuard g; countEval((uint64_t)took, 0); outcome("accepted " + std::to_string(took));
}
static Reg rC03("C03", {
    {"all small lists, 501 patterns", c03Lists, 1, 2, "To 1..2, Cc 0..2, Bcc 0..2 over 3 addresses with repetition, one of them the sender's, sender with/without name, up to k 501 answers to MAIL"},
    {"list shapes", c03Shapes, 0, 0, "6 list shapes x sizes {0,1,2,3,7,40,101,257} x 4 kinds x 2 APIs x batch"},
    {"addresses and spellings", c03Addrs, 0, 0, "8x8 addresses x names x 0..3 501 answers x kinds x APIs"},
    {"every character in an address", c03Chars, 0, 0, "every byte 1..255 in 8 places of the sender, a To, a Cc and a Bcc address: what the address class accepts is transmitted unchanged; APIs (kinds)"},
    space("refusals", 1, 2, "any refusal or silence at any step, envelope order still exact", [](Space &s) { s.variants = {3}; s.creds = {0}; s.batch = {0, 1}; s.menu = M_REFUSE | M_CODES | M_SILENT; s.mons = {monEnvelope}; s.sends = 2; s.kinds = thorough() ? std::vector<int>{PLAIN} : std::vector<int>{PLAIN, FORCED}; }),
    extPhase({monEnvelope}),
});
// ================================================================== C04
static void c04Subsets() {
    int k = pick(4, "kind"); Scn s = scn4(k, pick(2, "api"), 0, pick(2, "batch")); MsgSpec m = msgOf(0); int nt = 1 + pick(2, "to"), nc = pick(2, "cc"), nb = pick(thorough() ? 3 : 2, "bcc");
    for (int i = 1; i < nt; i++) m.to.push_back({"t" + std::to_string(i) + "@example.com", ""}); for (int i = 0; i < nc; i++) m.cc.push_back({"c" + std::to_string(i) + "@example.com", ""}); for (int i = 0; i < nb; i++) m.bcc.push_back({"b" + std::to_string(i) + "@example.com", ""});
    int how = pick(6, "kind of refusal"); note(s, msgDesc(m)); Run r(s);
    r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != S_RCPT || !devLeft() || !dev(2, "refuse recipient")) return; rp.effect = false; rp.what = "refused recipient";
        switch (how) { case 0: rp.text = "550 5.1.1 no such user\r\n"; rp.code = 550; break; case 1: rp.text = "450 4.2.1 busy\r\n"; rp.code = 450; break; case 2: rp.text = "550-no\r\n550 no\r\n"; rp.code = 550; break; case 3: rp.text = "252 cannot verify\r\n"; rp.code = 252; break; case 4: rp.text.clear(); rp.answered = false; rp.code = -1; break; case 5: rp.text = "2xx odd\r\n"; rp.answered = false; rp.code = -2; break; } };
    std::unique_ptr<IClient> c(make(s)); for (int i = 0; i < (s.batch ? 2 : 1); i++) { m.subject = "Subject-mark-" + std::to_string(i + 1); m.body = "Body-mark-" + std::to_string(i + 1) + " text\r\n"; SendRes x = r.send(c.get(), m); EnvGuard g; monNoData(r, x, s); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC04("C04", {
    {"every subset of recipients refused", c04Subsets, 3, 5, "1-2 To, 0-1 Cc, 0-2 Bcc; every subset (up to k) refused in 6 ways, one send or two in batch mode; 4 kinds, 2 APIs"},
    space("any deviation", 1, 2, "every step x every deviation, 4 kinds, batch of two", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.batch = {0, 1}; s.sends = 2; s.creds = {0}; s.variants = {10}; s.menu = thorough() ? M_REFUSE | M_CODES | M_SILENT | M_CLOSE | M_AFTER | M_LOST : M_ALLFAIL | M_MULTI; s.mons = {monNoData}; }),
    sweep("every reply code", "every code 100..999 at MAIL, each RCPT and DATA, 4 kinds, one- and two-line replies; single send and batch of two", [](Sweep &s) { s.steps = {S_MAIL, S_RCPT, S_DATA}; s.batch = {0, 1}; s.sends = 2; s.mons = {monNoData}; s.multi = true; if (!thorough()) s.kinds = {0, 2}; }),
    space("failing writes and reads", 1, 2, "every send/recv call fails", [](Space &s) { s.batch = {0, 1}; s.sends = 2; s.creds = {0}; s.variants = {2}; s.faults = FM_SEND_ERR | FM_RECV_ERR; s.mons = {monNoData}; if (thorough()) s.kinds = {PLAIN, FORCED}; }),
    {"many recipients, one refused", [] { manyRefused(monNoData); }, 0, 0, "9 (49) counts of recipients up to 101 (257) in 3 distributions over the lists, none or each one refused in 3 ways; kinds, APIs, batch"},
    extPhase({monNoData}),
    textPhase({0}, {monNoData}, 2),
});
// ================================================================== C09
static void c09Refused() {   // a refusal at one step, delivered in pieces
    Scn s = scn4(pick(4, "kind"), 0, pick(2, "credentials"), pick(2, "batch")); int step = pick(S_QUIT, "refused step"); bool multi = pick(2, "multi-line"); note(s, std::string("refused at ") + stepName(step));
    Run r(s); unsigned T = s.timeout; r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == step && step != S_TLS && c.sendNo == 1) { rp.code = 554; rp.text = multi ? "554-5.5.0 first line\r\n554-second line\r\n554 5.5.0 refused\r\n" : "554 5.5.0 refused\r\n"; rp.effect = false; } applyMenu(c, rp, M_SPLIT, T); };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monResult(r, x, s); monSuccess(r, x, s); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void monDelivered(Run &r, const SendRes &x, const Scn &s) { if (x.rc != 0) violate("replies were complete, positive and in time, but send " + std::to_string(x.no) + " returned " + std::to_string(x.rc)); monSuccess(r, x, s); }
static void c09Lengths() {   // replies of every length at one step
    Scn s = scn4(pick(3, "kind"), 0, pick(2, "credentials"), 0); int step = choose(std::vector<int>{S_GREET, S_EHLO, S_EHLO2, S_MAIL, S_RCPT, S_DATA, S_EOD, S_AUTH}, "step"); int shape = pick(3, "shape"); int lo = 990, hi = 1060; int n;
    { int a = pick(hi - lo + 8, "length"); n = a < hi - lo ? lo + a : std::vector<int>{1500, 2040, 2047, 2048, 2049, 3072, 4096, 8192}[a - (hi - lo)]; } if (!thorough() && s.kind == OPP && step != S_EHLO && step != S_EHLO2) return;
    note(s, std::string("reply of ") + std::to_string(n) + " bytes at " + stepName(step)); Run r(s); bool used = false;
    r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != step || used) return; used = true; std::string k = std::to_string(rp.code); bool eh = step == S_EHLO || step == S_EHLO2; std::string tail = eh ? rp.text : k + " end\r\n";
        if (shape == 0 && !eh) { rp.text = k + " "; rp.text += std::string(n - rp.text.size() - 2, 'y') + "\r\n"; return; }
        std::string t; if (shape == 2) { while ((int)(t.size() + tail.size()) + 40 < n) t += k + "-a line of the reply that is long\r\n"; } std::string f = k + "-"; int rest = n - (int)t.size() - (int)tail.size() - 6; if (rest > 0) t = f + std::string(rest, 'y') + "\r\n" + t; rp.text = t + tail; };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; if (used) monDelivered(r, x, s); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC09("C09", {
    space("every split of every reply", 1, 2, "each reply of a session split at every interesting position (around code, separators and line ends), byte by byte, or inside TLS records, with short and long gaps; up to k split replies", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 2}; if (thorough()) s.kinds = {0, 1}; s.menu = M_SPLIT; s.batch = {0, 1}; s.variants = {2}; if (thorough()) { s.creds = {0}; s.batch = {0}; } s.mons = {monDelivered}; s.envMons = true; s.content = MC_BODY; }),
    space("long and multi-line replies", 1, 2, "lengths around 1024/2048, up to 61 lines, up to k", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 2}; s.menu = M_LONG | M_MULTI; s.batch = {0}; s.variants = {2}; s.mons = {monResult, monSuccess}; s.envMons = true; }),
    {"refusals in pieces", c09Refused, 1, 1, "each step refused (single and multi-line), every split of every reply"},
    {"every reply length", c09Lengths, 0, 0, "reply lengths 990..1060 and selected larger ones at 8 steps, 3 shapes"},
});
// ================================================================== C10
static void c10Delay() {
    unsigned T = choose(thorough() ? std::vector<unsigned>{3, 4, 5, 10, 30, 60} : std::vector<unsigned>{3, 5, 30}, "timeout"); Scn s = scn4(pick(4, "kind"), pick(2, "api"), choose(std::vector<int>{0, 1, 2}, "credentials"), pick(2, "batch")); s.timeout = T;
    std::vector<ns_t> grid; for (ns_t d : {(ns_t)(T - 2) * SEC, (ns_t)(T - 2) * SEC - 10 * MS, (ns_t)(T - 2) * SEC / 2, (ns_t)1010 * MS, (ns_t)990 * MS, (ns_t)(T - 1) * SEC, (ns_t)T * SEC, (ns_t)(T + 1) * SEC, (ns_t)(3 * T) * SEC, (ns_t)(20 * T) * SEC}) grid.push_back(d);
    note(s); Run r(s); bool late = false; r.w.decide = [&](StepCtx &c, Reply &rp) { if (!devLeft()) return; int k = dev((int)grid.size() + 1, stepName(c.step)); if (k) { rp.delay = grid[k - 1]; rp.what = "after " + std::to_string(grid[k - 1] / MS) + " ms"; if (rp.delay > (ns_t)(T - 2) * SEC) late = true; } };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; if (!late && x.rc != 0) violate("every reply came at least 2 s before the time-out but the result is " + std::to_string(x.rc)); monTime(r, x, s); } r.dtor(c); EnvGuard g; monTime(r, x, s); outcomeOf(r);
}
static void c10Drip() {      // a reply that never ends although bytes keep coming
    unsigned T = choose(thorough() ? std::vector<unsigned>{3, 5, 30} : std::vector<unsigned>{3, 5}, "timeout"); Scn s = scn4(pick(4, "kind"), pick(tierSel(1, 2), "api"), choose(std::vector<int>{0, 1, 2, 3}, "credentials"), pick(2, "batch")); s.timeout = T; int st = choose([] { auto v = SMTP_STEPS; v.push_back(S_QUIT); return v; }(), "step"); if (st != S_QUIT && !stepOccurs(s, st)) return;
    int shape = pick(4, "shape"); const std::vector<ns_t> gaps{200 * MS, 1000 * MS, 1100 * MS, (ns_t)(T - 1) * SEC}; ns_t gap = gaps[pick((int)gaps.size(), "gap")]; note(s, std::string("endless reply at ") + stepName(st)); Run r(s); ns_t from = -1; int no = 0; World *w = &r.w;
    r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != st || from >= 0) return; from = w->now; no = c.sendNo; int n = (int)((ns_t)(20 * T) * SEC / gap); std::string k = std::to_string(rp.code), unit = shape < 2 ? "x" : k + "-line\r\n"; rp.text = shape == 0 ? k + " " : shape == 1 ? k + "-" : ""; if (shape == 3) unit = k + "-" + std::string(1021, 'y') + "\r\n"; for (int i = 0; i < n; i++) { if (!rp.text.empty()) rp.cuts.push_back(rp.text.size()); rp.text += unit; } rp.gap = gap; rp.code = -1; rp.answered = false; rp.effect = false; rp.what = "endless reply"; };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; ns_t lim = (ns_t)T * 3 * SEC + 6 * SEC; if (from >= 0 && no == 1 && x.t1 - from > lim) violate("send returned " + std::to_string((x.t1 - from) / SEC) + " s after the server began a reply that it does not finish (time-out " + std::to_string(T) + " s)"); if (from >= 0 && no == 1 && st != S_QUIT && x.rc == 0) violate("the reply was never completed but the send reported success"); }
    r.dtor(c); EnvGuard g; if (r.dtorEnd - r.dtorStart > (ns_t)T * 3 * SEC + 6 * SEC) violate("the destructor took " + std::to_string((r.dtorEnd - r.dtorStart) / SEC) + " s"); outcomeOf(r);
}
static Reg rC10("C10", {
    space("silence, stalls and lost connections", 1, 2, "every step x {silent, partial reply, closes, resets, acts then silent, TLS stalls at 3 places}, T=5", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 1, 2}; if (thorough()) { s.creds = {0}; } s.batch = {0, 1}; s.menu = M_SILENT | M_PARTIAL | M_CLOSE | M_AFTER | M_LOST | M_TLS; s.variants = {2}; s.mons = {monTime}; s.envMons = false; }),
    space("T=2", 1, 1, "as above with a time-out of 2 s", [](Space &s) { s.kinds = {0, 1, 2}; s.timeout = 2; s.menu = M_SILENT | M_PARTIAL | M_TLS | M_CLOSE; s.variants = {0}; s.batch = {0, 1}; s.mons = {monTime}; }),
    space("T=60", 1, 1, "as above with a time-out of 60 s", [](Space &s) { s.kinds = {0, 1, 2}; s.timeout = 60; s.menu = M_SILENT | M_PARTIAL | M_TLS | M_CLOSE; s.variants = {0}; s.batch = {0, 1}; s.mons = {monTime}; }),
    space("T=300", 1, 1, "as above with a time-out of 300 s", [](Space &s) { s.kinds = {0, 1, 2}; s.timeout = 300; s.menu = M_SILENT | M_PARTIAL | M_TLS | M_CLOSE; s.variants = {0}; s.batch = {0, 1}; s.mons = {monTime}; }),
    space("connection and write stalls", 1, 2, "connect refused, delayed, never completing; every send call stalls because the peer does not read; interrupted calls", [](Space &s) { s.kinds = {0, 1, 2}; s.creds = {0, 1}; s.faults = FM_CONNECT | FM_SEND_STALL | FM_EINTR; s.batch = {0, 1}; s.variants = {8}; s.mons = {monTime}; if (thorough()) { s.creds = {0}; } }),
    space("unusual last lines", 1, 2, "replies whose last line is not the usual form at every step, then silence or closing", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 1, 2}; s.batch = {0, 1}; s.sends = 1; s.menu = M_ODD | M_GARBAGE; s.mons = {monTime}; }),
    {"delayed replies", c10Delay, 1, 2, "each reply delayed by every value of a 10-point grid around the time-out, T in {3,5,30} (thorough {3,4,5,10,30,60})"},
    space("several sends", 1, 1, "three sends on one client, silence at any step of any of them", [](Space &s) { s.sends = 3; s.kinds = {0, 1, 2}; s.creds = {0}; s.menu = M_SILENT | M_LOST | M_CLOSE; s.batch = {0, 1}; s.variants = {0}; s.mons = {monTime}; }),
    {"endless replies", c10Drip, 0, 0, "each step answered by a reply that never ends: one line or lines without end, byte by byte or line by line, 4 gaps from 0.2 s to T-1 s, clear text and TLS records, T in {3,5} (30)"},
});
// ================================================================== C11
static void c11Lengths() {   // every reply length, so that every buffer boundary of the library is met
    Scn s = scn4(pick(thorough() ? 3 : 2, "kind"), 0, 1, pick(tierSel(1, 2), "batch")); int st = choose(std::vector<int>{S_GREET, S_EHLO, S_EHLO2, S_AUTH, S_RCPT, S_EOD}, "step"), bad = pick(2, "refusal"); if (!stepOccurs(s, st) || (s.kind != PLAIN && !thorough() && st != S_EHLO2)) return;
    int blk = pick(tierSel(90, 420), "length block"), step = 50; note(s, std::string("reply at ") + stepName(st) + " from " + std::to_string(blk * step));
    for (int i = 0; i < step; i++) {
        int n = blk * step + i; Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != st) return; std::string k = bad ? "554" : std::to_string(rp.code), t; if (bad) { rp.code = 554; rp.effect = false; } int left = n; while (left > 1000) { t += k + "-" + std::string(990, 'w') + "\r\n"; left -= 996; } bool eh = (st == S_EHLO || st == S_EHLO2) && !bad; std::string tail = eh ? rp.text : ""; rp.text = t + k + (eh ? "-" : " ") + std::string((size_t)left, 'v') + "\r\n" + tail; };
        std::unique_ptr<IClient> c(make(s)); r.send(c.get(), msgOf(0)); r.dtor(c);
    }
    EnvGuard g; countEval(step, 0); outcome("returned");
}
static void c11Big() {       // complete replies of many lines and very long lines
    Scn s = scn4(pick(4, "kind"), pick(tierSel(1, 2), "api"), 1, 0); int st = choose(SMTP_STEPS, "step"); if (!stepOccurs(s, st)) return; if (!thorough() && s.kind == 3) return; int shape = pick(4, "shape"), size = pick(tierSel(3, 5), "size"); if (!thorough() && size == 1) return; int bad = pick(2, "refusal"); static const int lines[] = {1000, 10000, 40000, 100000, 300000}; int n = lines[size]; note(s, std::string("reply of ") + std::to_string(n) + (shape == 1 ? " bytes in one line at " : " lines at ") + stepName(st));
    Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != st) return; std::string k = bad ? "554" : std::to_string(rp.code), t; if (bad) { rp.code = 554; rp.effect = false; } switch (shape) { case 0: for (int i = 0; i < n; i++) t += k + "-X" + std::to_string(i) + "\r\n"; break; case 1: t = k + "-" + std::string((size_t)n * 5, 'L') + "\r\n"; break; case 2: for (int i = 0; i < n; i++) t += k + "-AUTH PLAIN LOGIN XOAUTH2\r\n"; break; default: for (int i = 0; i < n; i++) t += k + "-\r\n"; } bool eh = (st == S_EHLO || st == S_EHLO2) && !bad; rp.text = t + (eh ? rp.text : k + " end\r\n"); };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; if (x.rc == 0) monSuccess(r, x, s); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c11Short() {     // every short reply, so that nothing is read that is not there
    Scn s = scn4(pick(4, "kind"), pick(tierSel(1, 2), "api"), pick(tierSel(2, 4), "credentials"), pick(2, "batch")); int st = choose(SMTP_STEPS, "step"); if (!stepOccurs(s, st)) return; int pre = pick(4, "prefix"), after = pick(2, "then"), mx = tierSel(2, 3); if (!thorough() && (s.kind == FORCED || s.batch) && pre != 0) return; static const std::string al{" -\r\na\0\xFF" "5", 8}; note(s, std::string("short replies at ") + stepName(st));
    std::function<void(const std::string &)> go = [&](const std::string &t) {
        { Run r(s); bool done = false; r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != st || done) return; done = true; std::string k = std::to_string(rp.code); rp.text = (pre == 0 ? k : pre == 1 ? k + "-a\r\n" + k : pre == 2 ? "421" : "") + t; rp.code = -3; rp.answered = false; rp.effect = false; if (after) rp.after = A_FIN; };
          std::unique_ptr<IClient> c(make(s)); r.send(c.get(), msgOf(0)); r.dtor(c); EnvGuard g; monProblems(r); monClosed(r); countEval(1, 0); }
        if ((int)t.size() < mx) for (char ch : al) { std::string u; { EnvGuard g; u = t + ch; } go(u); }
    }; go(""); EnvGuard g; outcome("returned");
}
static Reg rC11("C11", {
    space("hostile replies", 1, 2, "every step x menu of hostile byte sequences, lengths and closings, ASan/UBSan", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 1, 2, 3}; s.variants = {2}; s.menu = M_WEIRD | M_LONG | M_GARBAGE | M_PARTIAL | M_AFTER | M_CLOSE | M_TLS; if (thorough()) { s.creds = {1}; s.menu = M_WEIRD | M_GARBAGE | M_AFTER | M_CLOSE; } }),
    space("hostile replies to a batch of two", 1, 1, "as above over two sends in batch mode", [](Space &s) { s.kinds = {0, 1, 2}; s.creds = {1}; s.batch = {1}; s.sends = 2; s.variants = {0}; s.apis = {1}; s.menu = M_WEIRD | M_AFTER | M_CLOSE | M_LOST; }),
    space("failing writes and reads", 1, 2, "every send/recv/connect/fcntl/select call fails, including EPIPE", [](Space &s) { s.kinds = {0, 1, 2}; s.batch = {0, 1}; s.sends = 2; s.variants = {8}; s.creds = {0, 1}; s.faults = FM_ALL & ~FM_SEND_STALL; if (thorough()) s.creds = {0}; }),
    {"descriptors above FD_SETSIZE", [] { Scn s = scn4(pick(3, "kind"), pick(2, "api"), 0, pick(2, "batch")); note(s); Run r(s); r.w.nextFd = r.w.fdBase = pick(2, "descriptor") ? 5000 : 1100; deviations(r, 0, FM_CONNECT); std::unique_ptr<IClient> c(make(s)); r.send(c.get(), msgOf(0)); r.dtor(c); EnvGuard g; outcomeOf(r); }, 1, 1, "socket descriptors of 1100 and 5000, all connect outcomes"},
    {"every reply length", c11Lengths, 0, 0, "replies of every length 10..4500 (21000) at 6 steps, positive and negative, single- and multi-line"},
    {"long server names", [] { Scn s = scn4(pick(3, "kind"), pick(2, "api"), 0, 0); static const size_t ln[] = {63, 200, 255, 1000, 1016, 1017, 1018, 1019, 1020, 1023, 1024, 1025, 2000, 70000}; size_t n = ln[pick(14, "length")]; s.host = std::string(n - 5, 'h') + ".test"; s.port = pick(2, "port") ? 65535 : 25; note(s, "server name of " + std::to_string(n)); Run r(s); { EnvGuard g; r.w.hosts[s.host] = 0x0a000009; } std::unique_ptr<IClient> c(make(s)); r.send(c.get(), msgOf(0)); r.dtor(c); EnvGuard g; outcomeOf(r); }, 0, 0, "server names of 14 lengths up to 70000"},
    {"short replies", c11Short, 0, 0, "at every step the code, a continued reply, 421 or nothing, followed by every string of length 0..2 (3) over {space - CR LF a NUL 0xFF 5}, then silence or the end of the connection; kinds, credentials, batch (APIs)"},
    {"very large replies", c11Big, 0, 0, "complete replies of 1000..40000 (300000) lines, or one line of 5000..200000 (1500000) bytes, 4 shapes, at every step, positive and negative"},
});
// ================================================================== C12
static void judgeMemory() {   // called with the environment off, after the last object is gone
    ERR_clear_error(); AllocStat a = allocLive(); if (a.blocks) a = allocLeaked(); static int grown; if (executionPass() == 0) grown = 0; if (a.blocks) grown++; std::string d = a.blocks && executionPass() == 3 ? allocDescribe() : ""; allocTrackStop();
    if (a.blocks && executionPass() < 3) requestRerun(); else if (executionPass() == 3 && grown == 4) violate(std::to_string(a.blocks) + " memory blocks (" + std::to_string(a.bytes) + " bytes) are never released:" + d);
}
static void leakSpace(const Space &sp) {
    Scn s = scn4(choose(sp.kinds, "kind"), choose(sp.apis, "api"), choose(sp.creds, "credentials"), choose(sp.batch, "batch")); int var = choose(sp.variants, "message"); if (sp.certs) { s.srv.cert = pick(CERT_NKINDS, "certificate"); s.self = pick(2, "self-signed ok"); s.srv.tlsMax = pick(2, "tls version") ? 12 : 13; s.srv.ciphers = s.srv.cert ? 0 : pick(3, "ciphers"); } note(s);
    Run r(s); deviations(r, sp.menu, sp.faults);
    { EnvGuard g; ERR_clear_error(); } allocTrackStart();
    { std::unique_ptr<IClient> c(make(s)); std::vector<MsgSpec> ms; { EnvGuard g; for (int i = 1; i <= sp.sends; i++) ms.push_back(msgOf(var, i)); }
      for (int i = 0; i < sp.sends; i++) r.send(c.get(), ms[i]); r.dtor(c); }
    EnvGuard g; judgeMemory();
    monProblems(r); monClosed(r); outcomeOf(r);
}
static Phase leak(const char *name, int bq, int bt, const std::string &b, std::function<void(Space &)> f) { return {name, [f] { Space s; f(s); leakSpace(s); }, bq, bt, b}; }
static void c12Shapes() {    // servers that list their options in unusual ways, and unusual messages
    static const std::vector<std::vector<std::string>> lists{{}, {"AUTH PLAIN LOGIN", "AUTH LOGIN"}, {"AUTH LOGIN", "SIZE 1", "AUTH PLAIN", "AUTH XOAUTH2"}, {"AUTH"}, {"AUTH "}, {"AUTH=LOGIN", "AUTH LOGIN"}, {"AUTH LOGIN", "AUTH=LOGIN"}, {"auth login"}, {"AUTH CRAM-MD5"}, {"AUTH PLAIN PLAIN PLAIN"}, {""}, {"SIZE", "SIZE"}, {"AUTHX PLAIN"}, {"STARTTLS", "STARTTLS"}};
    int k = pick(4, "kind"); Scn s = scn4(k, pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); int li = pick((int)lists.size(), "options"), mi = pick(12, "message"), split = pick(2, "pieces"); if (li && mi && !thorough()) return;
    std::vector<MsgSpec> ms; { EnvGuard g; auto l = lists[(size_t)li]; if (li == 0) l = {"SIZE 1", "AUTH PLAIN LOGIN"}; s.srv.ehloTls = l; s.srv.ehloPlain = l; if (k == 1 || k == 2) s.srv.ehloPlain.push_back("STARTTLS"); if (k == 3 && li == 13) return;
        for (int i = 1; i <= 2; i++) { MsgSpec m = msgOf(0, i); auto at = [&](const char *f, size_t n, const char *nm, const char *id) { m.atts.push_back({mkFile(f, std::string(n, 'z')), nm, id}); };
            switch (mi) { case 1: at("l0.bin", 0, "empty", ""); break; case 2: at("l1.bin", 1, "", ""); break; case 3: at("l3.bin", 3, "n", "id"); at("l0.bin", 0, "e", "i2"); at("l3.bin", 3, "n", ""); break; case 4: m.atts.push_back({"/nonexistent/file", "x", ""}); break; case 5: m.body.clear(); m.subject.clear(); break; case 6: m.body = std::string(20000, 'b'); break; case 7: m.subject = std::string(5000, 's'); break; case 8: for (int j = 0; j < 30; j++) m.bcc.push_back({"b" + std::to_string(j) + "@example.com", ""}); break; case 9: m.body = "--sep\r\n--sep1\r\n--sep2\r\n.\r\n"; at("l3.bin", 3, "n", ""); break; case 10: m = msgOf(15, i); m.from.name = "a\r\nb"; break; case 11: at("l9.bin", 70000, "n", ""); break; default: break; }
            ms.push_back(m); } note(s, "options " + std::to_string(li) + " message " + std::to_string(mi)); }
    Run r(s); if (split) r.w.decide = [](StepCtx &c, Reply &rp) { if (c.step == S_EHLO || c.step == S_EHLO2) for (size_t i = 1; i < rp.text.size(); i += 7) rp.cuts.push_back(i); };
    { EnvGuard g; ERR_clear_error(); } allocTrackStart();
    { std::unique_ptr<IClient> c(make(s)); for (auto &m : ms) r.send(c.get(), m); r.dtor(c); }
    EnvGuard g; judgeMemory();
    monProblems(r); monClosed(r); outcomeOf(r);
}
static void c12Changes() {   // every session meets another server, and the settings change in between
    int k = pick(4, "kind"); Scn s = scn4(k, pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); int sends = tierSel(2, 3); Run r(s); std::string h;
    r.w.serverFor = [&](const std::string &, int) { ServerCfg g = s.srv; int v = pick(6, "server"); auto set = [&](std::vector<std::string> l) { bool st = g.offersStartTls(); g.ehloTls = l; if (st) l.push_back("STARTTLS"); g.ehloPlain = l; };
        switch (v) { case 1: set({"SIZE 1"}); break; case 2: set({"AUTH LOGIN"}); break; case 3: set({}); break; case 4: set({"AUTH PLAIN LOGIN XOAUTH2 CRAM-MD5", "AUTH GSSAPI"}); break; case 5: set({"SIZE 1", "AUTH XOAUTH2"}); g.cert = CERT_EXPIRED; break; default: break; } h += " server " + std::to_string(v); return g; };
    { EnvGuard g; ERR_clear_error(); } allocTrackStart();
    { std::unique_ptr<IClient> c(make(s));
      for (int i = 1; i <= sends; i++) {
          if (i > 1) { int op = pick(tierSel(5, 7), "change"); if (op == 1) { CredSpec q = s.cred; { EnvGuard g; q.user = "another"; q.pass = std::string(30, 'p'); q.method = 2; } c->setCred(q); } if (op == 2) c->setServer(s.host); if (op == 3) c->setBatch(!c->batch()); if (op == 4) { std::unique_ptr<IClient> o(c->copy()); if (sends == i) { MsgSpec m; { EnvGuard g; m = msgOf(0, 9); } r.send(o.get(), m); } r.dtor(o); } if (op == 5) { std::unique_ptr<IClient> o(make(s)); c->assign(*o); r.dtor(o); } if (op == 6) { std::unique_ptr<IClient> o(c->moved()); r.dtor(c); c = std::move(o); } EnvGuard g; h += " change " + std::to_string(op); }
          MsgSpec m; { EnvGuard g; m = msgOf(0, i); } r.send(c.get(), m); }
      r.dtor(c); }
    EnvGuard g; note(s, h); judgeMemory(); monProblems(r); monClosed(r); outcomeOf(r);
}
static Reg rC12("C12", {
    leak("deviating server", 1, 2, "4 kinds x 2 APIs x batch x credentials; every step x every deviation; two sends", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.creds = {0, 2}; s.batch = {0, 1}; s.sends = 2; s.variants = {8}; s.menu = M_REFUSE | M_SILENT | M_CLOSE | M_AFTER | M_LOST | M_PARTIAL | M_TLS | M_GARBAGE; if (thorough()) { s.creds = {1}; s.menu = M_REFUSE | M_SILENT | M_CLOSE | M_AFTER | M_TLS; } }),
    leak("failing system calls", 1, 2, "every system call fails, up to k; two sends", [](Space &s) { s.creds = {0, 1}; s.batch = {0, 1}; s.sends = 2; s.variants = {0}; s.faults = FM_ALL & ~FM_SEND_STALL; if (thorough()) { s.sends = 1; s.creds = {0}; } }),
    leak("C++ interface", 1, 1, "as the first phase through the C++ interface", [](Space &s) { s.kinds = {0, 1, 2}; s.apis = {1}; s.creds = {0, 3}; s.batch = {0, 1}; s.sends = 1; s.variants = {10}; s.menu = M_REFUSE | M_SILENT | M_CLOSE | M_AFTER | M_TLS; }),
    leak("three sends", 0, 1, "three sends of full messages", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.apis = {0, 1}; s.creds = {0, 1, 2, 3}; s.batch = {0, 1}; s.sends = 3; s.variants = {15}; s.menu = M_REFUSE | M_CLOSE; }),
    leak("certificates", 0, 1, "15 certificates x opt-in x TLS 1.2/1.3, servers offering no encryption or no authentication; two sends", [](Space &s) { s.kinds = {1, 2}; s.apis = {0, 1}; s.creds = {0, 1}; s.batch = {0, 1}; s.sends = 2; s.variants = {0}; s.certs = true; s.menu = M_TLS | M_CLOSE; }),
    {"option lists and messages", c12Shapes, 0, 0, "14 option lists (repeated, empty and malformed AUTH lines), 11 unusual messages (empty, missing and many attachments, empty fields, long texts), kinds, APIs, credentials, batch, replies in pieces; two sends"},
    {"changing servers", c12Changes, 0, 0, "two (three) sends, every session meets one of 6 servers (option lists with and without AUTH, expired certificate), credentials, server, batch mode changed, client copied (assigned, moved) in between; kinds, APIs, batch"},
});
// ================================================================== C13
static void c13Hist(bool refusals) {
    int k = pick(4, "kind"), api = pick(2, "api"), cr = pick(thorough() ? 4 : refusals ? 2 : 3, "credentials"); bool b = pick(2, "batch"); Scn s = scn4(k, api, cr, b); Run r(s); r.def.batch = b; std::unique_ptr<IClient> c(make(s)); int len = tierSel(refusals ? 3 : 3, refusals ? 4 : 6); std::string h;
    if (refusals) deviations(r, M_REFUSE | M_CLOSE);
    int n = 0; bool ever = b;
    for (int i = 0; i < len; i++) { int op = pick(3, "operation"); if (op == 2) break; if (op == 1) { r.def.batch = !r.def.batch; c->setBatch(r.def.batch); if (r.def.batch) ever = true; h += "toggle "; continue; }
        MsgSpec m; { EnvGuard g; int v = (n & 1) ? 3 : 0; m = msgOf(v, ++n); } SendRes x = r.send(c.get(), m); EnvGuard g; h += "send=" + std::to_string(x.rc) + " "; monSession(r, x, r.def); if (!refusals) { monDelivered(r, x, s); } if (x.rc == 0) monContent(r, x, s, MC_BODY); }
    note(s, h); bool live = !r.sends.empty() && r.sends.back().wasBatch && r.sends.back().rc == 0; int lastC = r.sends.empty() ? -1 : r.sends.back().lastConn;
    r.dtor(c); EnvGuard g; (void)ever;
    if (live && r.w.recs[lastC].quits != 1) violate("destroying a client with an open batch session sent " + std::to_string(r.w.recs[lastC].quits) + " QUIT commands");
    monClosed(r); if (!refusals) monProtocol(r); for (auto &q : r.w.recs) if (q.quits > 1) violate("QUIT sent " + std::to_string(q.quits) + " times"); outcomeOf(r);
}
static void c13Long() {      // many and large messages in one batch
    static const int cnt[] = {3, 12, 40, 130, 260}; static const size_t size[] = {40, 4000, 20000, 90000}; Scn s = scn4(pick(4, "kind"), pick(2, "api"), pick(2, "credentials"), true); int n = cnt[pick(tierSel(4, 5), "messages")]; size_t z = size[pick(tierSel(3, 4), "body size")]; if ((size_t)n * z > (thorough() ? 1200000u : 400000u)) return; note(s, std::to_string(n) + " messages of " + std::to_string(z)); Run r(s); std::unique_ptr<IClient> c(make(s)); MsgSpec m;
    for (int i = 1; i <= n; i++) { { EnvGuard g; m = msgOf(i % 3 == 2 ? 3 : 0, i); while (m.body.size() < z) m.body += "a line of text that makes the body longer " + std::to_string(m.body.size()) + "\r\n"; } SendRes x = r.send(c.get(), m); EnvGuard g; monSession(r, x, s); monDelivered(r, x, s); if (x.rc) break; }
    if (pick(2, "then")) { c->setBatch(false); r.def.batch = false; { EnvGuard g; m = msgOf(0, n + 1); } SendRes x = r.send(c.get(), m); EnvGuard g; monSession(r, x, r.def); monDelivered(r, x, s); }
    r.dtor(c); EnvGuard g; if (r.w.recs.size() != 1 && r.def.batch) violate("the batch used " + std::to_string(r.w.recs.size()) + " connections"); for (auto &q : r.w.recs) if (q.quits != 1) violate(std::to_string(q.quits) + " QUIT commands on a connection"); monClosed(r); monProtocol(r); outcomeOf(r);
}
static void c13Settings() {  // calls between the messages of a batch that give no reason to leave the session
    Scn s = scn4(pick(4, "kind"), pick(2, "api"), pick(3, "credentials"), true); Run r(s); std::unique_ptr<IClient> c(make(s)); std::string h; int sends = tierSel(3, 4);
    for (int i = 1; i <= sends; i++) { if (i > 1) { int op = pick(9, "operation"); switch (op) {
            case 1: r.def.timeout = s.timeout + 3; c->setTimeout(r.def.timeout); break; case 2: r.def.timeout = s.timeout; c->setTimeout(s.timeout); break; case 3: c->setServer(s.host); break; case 4: c->setPort(s.port); break;
            case 5: if (s.hasCred) c->setCred(s.cred); break; case 6: c->setSelf(s.self); break; case 7: c->setBatch(true); break; case 8: (void)settingsOf(*c); (void)c->log(); } h += " op" + std::to_string(op); }
        MsgSpec m; { EnvGuard g; m = msgOf(i & 1 ? 3 : 0, i); } SendRes x = r.send(c.get(), m); EnvGuard g; monSession(r, x, r.def); monDelivered(r, x, s); }
    note(s, "batch with" + h); r.dtor(c); EnvGuard g; if (r.w.recs.size() != 1) violate("the batch used " + std::to_string(r.w.recs.size()) + " connections"); for (auto &q : r.w.recs) if (q.quits != 1) violate(std::to_string(q.quits) + " QUIT commands on a connection"); monClosed(r); monProtocol(r); outcomeOf(r);
}
static Reg rC13("C13", {
    {"long batches", c13Long, 0, 0, "batches of 3, 12, 40, 130 (260) messages with bodies of 40..20000 (90000) bytes, ended by destruction or by leaving batch mode"},
    {"histories", [] { c13Hist(false); }, 0, 0, "all sequences of up to 3 (6) operations {send, toggle batch, stop} x 4 kinds x 2 APIs x credentials"},
    {"histories with refusals", [] { c13Hist(true); }, 1, 1, "as above (3/4 operations) with one refusal or lost connection anywhere"},
    extPhase({monSession}),
    {"settings in a batch", c13Settings, 0, 0, "batches of three (four) messages with every sequence of 9 calls between them that change the time-out or nothing else of the session; kinds, APIs, credentials"},
});
// ================================================================== C14
static void c14Body(unsigned menu, unsigned faults, int sends, int script, int first = 0, bool codes = false) {
    int k = pick(4, "kind"), api = pick(thorough() ? 2 : 1, "api"), cr = pick(2, "credentials"); bool b = pick(2, "batch"); Scn s = scn4(k, api, cr, b); int code = 0, codeStep = 0; if (codes) { codeStep = choose(SMTP_STEPS, "step"); if (!stepOccurs(s, codeStep)) return; if (!thorough() && (!cr || b || (k == OPP && codeStep != S_STARTTLS && codeStep != S_EHLO2) || k == 3 || (k == FORCED && codeStep != S_EHLO))) return; code = 100 + pick(900, "code"); }
    int sc2 = script ? pick(8, "second send") : 0; int srv1 = first ? pick(6, "options of the first server") : 0; note(s);
    auto second = [sc2](StepCtx &c, Reply &rp) {
        auto ref = [&](int st, int code) { if (c.step == st) { rp.text = std::to_string(code) + " 5.5.0 refused\r\n"; rp.code = code; rp.effect = false; } };
        auto mute = [&](int st, int after) { if (c.step == st) { rp.text.clear(); rp.answered = false; rp.code = -1; rp.effect = false; rp.after = after; } };
        switch (sc2) { case 1: ref(S_MAIL, 550); break; case 2: ref(S_RCPT, 451); break; case 3: ref(S_EOD, 552); break; case 4: mute(S_EHLO, A_NONE); break; case 5: mute(S_DATA, A_FIN); break; case 6: ref(S_MAIL, 501); break; case 7: if (c.step > S_CONNECT) rp.delay = 3200 * MS; break; default: break; } };
    struct Part { std::string t, log; int rc = 0; ns_t took = 0; }; int why = 0; MsgSpec last; { EnvGuard g; last = msgOf(1, 9); }
    auto finish = [&](Run &r, std::unique_ptr<IClient> &c, Part &p) -> SendRes {
        size_t c0 = r.w.cmds.size(); SendRes x = r.send(c.get(), last); { EnvGuard g; p.t = transcriptOf(r, c0) + "-- returned\n"; p.log = x.log; p.rc = x.rc; p.took = x.t1 - x.t0; } size_t c1 = r.w.cmds.size(); r.dtor(c); EnvGuard g; p.t += transcriptOf(r, c1); return x; };
    Part A, B; Run r(s); r.w.faults = faults; unsigned T = s.timeout; int lastNo = 1 + sends;
    if (srv1) r.w.serverFor = [&s, srv1](const std::string &, int n) { ServerCfg g = s.srv; if (n == 0) { bool st = g.offersStartTls(); switch (srv1) { case 1: g.ehloPlain = {"SIZE 1"}; if (st) g.ehloPlain.push_back("STARTTLS"); g.ehloTls = {"SIZE 1"}; break; case 2: g.ehloPlain = {"AUTH LOGIN"}; g.ehloTls = {"AUTH LOGIN"}; if (st) g.ehloPlain.push_back("STARTTLS"); break; case 3: g.ehloPlain = {"AUTH XOAUTH2"}; g.ehloTls = {"AUTH XOAUTH2"}; break; case 4: g.ehloPlain = {"STARTTLS", "AUTH PLAIN LOGIN"}; if (!g.implicitTls) g.ehloTls = {"AUTH CRAM-MD5"}; break; case 5: g.ehloPlain = {}; g.ehloTls = {}; break; } } return g; };
    r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.sendNo == 1 && code) { if (c.step == codeStep && rp.code != code) { rp.text = std::to_string(code) + " 5.5.0 answer\r\n"; rp.code = code; rp.effect = false; } } else if (c.sendNo < lastNo && c.sendNo > 0) applyMenu(c, rp, menu, T); else if (c.sendNo == lastNo) second(c, rp); };
    std::unique_ptr<IClient> c(make(s)); std::string set0 = settingsOf(*c);
    for (int i = 1; i <= sends; i++) { MsgSpec m; { EnvGuard g; m = msgOf(i == 1 ? 2 : 0, i); } SendRes x = r.send(c.get(), m); why = x.rc; }
    { std::string now = settingsOf(*c); EnvGuard g; if (now != set0) violate("the sends changed the settings of the client from " + esc(set0) + " to " + esc(now)); }
    if (!why) { r.dtor(c); EnvGuard g; outcome("earlier send did not fail"); return; }
    r.w.faults = 0; SendRes x = finish(r, c, A);
    { EnvGuard g; if (x.con1 - x.con0 != 1) violate("the send after a failure opened " + std::to_string(x.con1 - x.con0) + " connections"); if (!sc2) monDelivered(r, x, s); outcome("first=" + std::to_string(why) + " second=" + std::to_string(A.rc)); }
    { Run q(s); q.w.decide = second; std::unique_ptr<IClient> d(make(s)); finish(q, d, B); }
    EnvGuard g; std::string w = "after a failed send (" + std::to_string(why) + ") ";
    if (A.rc != B.rc) violate(w + "the next one returns " + std::to_string(A.rc) + ", a fresh client " + std::to_string(B.rc));
    else if (A.t != B.t) { size_t p = 0; while (p < A.t.size() && p < B.t.size() && A.t[p] == B.t[p]) p++; p = p ? A.t.rfind('\n', p - 1) : std::string::npos; p = p == std::string::npos ? 0 : p + 1; violate(w + "the next one sends: " + esc(A.t.substr(p, 80)) + " where a fresh client sends: " + esc(B.t.substr(std::min(p, B.t.size()), 80))); }
    else if (A.log != B.log) violate(w + "the log differs from a fresh client's");
    else if (A.took - B.took > 1500 * MS || B.took - A.took > 1500 * MS) violate(w + "the next one takes " + std::to_string(A.took / MS) + " ms, a fresh client " + std::to_string(B.took / MS) + " ms");
}
static Reg rC14("C14", {
    {"any deviation, then another send", [] { c14Body(M_ALLFAIL, 0, 1, 0); }, 1, 2, "every deviation at every step of the first send; second send compared with a fresh client: commands, TLS use, result, log, end of session"},
    {"failing system calls, then another send", [] { c14Body(0, FM_ALL & ~(FM_SEND_STALL), 1, 0); }, 1, 1, "every system call of the first send fails"},
    {"failure in the second send of a batch", [] { c14Body(M_BASIC, 0, 2, 0); }, 1, 2, "two sends with a deviation anywhere, then a third one if the second failed"},
    {"another kind of server first", [] { c14Body(M_REFUSE | M_CLOSE, 0, 1, thorough(), 1); }, 1, 1, "the server of the failed send offers other options (no AUTH, other mechanisms, with or without STARTTLS) than the one of the next send"},
    {"every reply code", [] { c14Body(0, 0, 1, 0, 0, true); }, 0, 0, "every code 100..999 at every step of the first send"},
    {"deviations in both sends", [] { c14Body(M_BASIC, 0, 1, 1); }, 1, 1, "every basic deviation in the first send x 8 server scripts in the second"},
});
// ================================================================== C15
static std::string upper(std::string s) { for (auto &c : s) c = (char)toupper((unsigned char)c); return s; }
static void checkOpp(Run &r, const SendRes &x, const Scn &s, bool offered) {
    World &w = r.w; bool st = false, up = false, mailP = false; for (size_t i = x.cmd0; i < x.cmd1; i++) { auto &k = w.cmds[i]; if (k.step == S_STARTTLS) st = true; if (k.tls) up = true; if (!k.tls && k.step >= S_MAIL && k.step <= S_EOD) mailP = true; }
    bool reached = false; for (size_t i = x.cmd0; i < x.cmd1; i++) if (w.cmds[i].step == S_EHLO && w.cmds[i].answered && w.cmds[i].code == 250 && w.cmds[i].after == A_NONE) reached = true; if (!reached) return;
    if (offered) { if (mailP) violate("STARTTLS was offered but mail went unencrypted"); if (!st && x.cmd1 > x.cmd0) violate("STARTTLS was offered but not used (result " + std::to_string(x.rc) + ")"); if (x.rc == 0 && !up) violate("success without encryption although STARTTLS was offered"); }
    else { if (st) violate("STARTTLS sent although it is not offered"); if (x.rc == 0 && upper(x.log).find("UNENCRYPTED") == std::string::npos) violate("the log does not say that the communication is unencrypted"); }
    (void)s;
}
static void c15Lists() {
    static const std::vector<std::string> menu{"SIZE 1000", "STARTTLS", "starttls", "StartTls", "AUTH PLAIN LOGIN", "XSTARTTLS", "HELP STARTTLS", "STARTTLSX", "8BITMIME"}; Scn s = scn(OPP, pick(2, "api")); int n = pick(tierSel(4, 5), "options"); s.srv.ehloPlain.clear(); bool off = false; std::string d;
    for (int i = 0; i < n; i++) { s.srv.ehloPlain.push_back(menu[pick((int)menu.size() - (thorough() && n < 4 ? 0 : n >= 3 ? 3 : 0), "option")]); d += s.srv.ehloPlain.back() + "|"; if (upper(s.srv.ehloPlain.back()) == "STARTTLS") off = true; } note(s, d);
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; checkOpp(r, x, s, off); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c15Split() {
    static const std::vector<std::vector<std::string>> lists{{"SIZE 1000", "STARTTLS"}, {"STARTTLS", "SIZE 1000"}, {"SIZE 1000", "STARTTLS", "AUTH PLAIN"}, {"STARTTLS"}, {"starttls", "HELP"}, {"AUTH PLAIN", "8BITMIME"}}; int li = pick((int)lists.size(), "list"); Scn s = scn(OPP, 0, pick(2, "credentials")); s.srv.ehloPlain = lists[li]; note(s);
    size_t len = 29; for (auto &l : s.srv.ehloPlain) len += l.size() + 6; int p = pick((int)len, "split"); static const ns_t gaps[] = {1 * MS, 400 * MS, 1500 * MS}; ns_t gp = gaps[pick(3, "gap")]; int p2 = thorough() ? pick((int)len, "second split") : 0;
    Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == S_EHLO) { if (p == 0) { for (size_t i = 1; i < rp.text.size(); i++) rp.cuts.push_back(i); rp.gap = std::min<ns_t>(gp / 20, 2500 * MS / (ns_t)rp.text.size()); } else { rp.cuts = {(size_t)p}; if (p2 > p) rp.cuts.push_back(p2); rp.gap = gp; } } };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; checkOpp(r, x, s, li != 5); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c15Fail() {
    Scn s = scn(OPP, pick(tierSel(1, 2), "api"), pick(2, "credentials"), pick(2, "batch")); s.srv.cert = choose(std::vector<int>{CERT_GOOD, CERT_SELF, CERT_UNKNOWNCA, CERT_EXPIRED, CERT_WRONGHOST}, "certificate"); note(s);
    Run r(s); deviations(r, M_ALLFAIL | M_WEIRD); std::unique_ptr<IClient> c(make(s)); MsgSpec m1, m2; { EnvGuard g; m1 = msgOf(0, 1); m2 = msgOf(0, 2); }
    for (int i = 0; i < 2; i++) { SendRes x = r.send(c.get(), i ? m2 : m1); EnvGuard g;
        for (size_t j = x.cmd0; j < x.cmd1; j++) { auto &k = r.w.cmds[j]; if (!k.tls && (k.step == S_MAIL || k.step == S_RCPT || k.step == S_DATA || k.step == S_AUTH)) { bool dev = false; for (size_t q = 0; q < r.w.cmds.size(); q++) if (r.w.cmds[q].conn == k.conn && r.w.cmds[q].step == S_EHLO && upper(r.w.cmds[q].reply).find("STARTTLS") == std::string::npos) dev = true; if (!dev) { violate("STARTTLS was offered, but " + k.line + " was sent unencrypted"); break; } } }
        bool fail = false; for (size_t j = x.cmd0; j < x.cmd1; j++) { auto &k = r.w.cmds[j]; if ((k.step == S_TLS && (!k.answered || s.srv.cert != CERT_GOOD)) || (k.step == S_STARTTLS && k.code != -3 && (!k.answered || k.code != 220))) fail = true; } if (fail && x.rc == 0) violate("TLS could not be established but the send reported success"); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void monOppCodes(Run &r, const SendRes &x, const Scn &s) { bool off = s.srv.offersStartTls(); for (size_t j = x.cmd0; j < x.cmd1; j++) { auto &k = r.w.cmds[j]; if (off && !k.tls && k.step >= S_AUTH && k.step <= S_EOD) { violate("STARTTLS was offered, but " + k.line + " was sent unencrypted"); break; } if (!off && k.step == S_STARTTLS) { violate("STARTTLS sent although it is not offered"); break; } }
    if (x.no == 1 && off && x.rc == 0) for (size_t j = x.cmd0; j < x.cmd1; j++) if (r.w.cmds[j].step == S_STARTTLS && r.w.cmds[j].code != 220) violate("STARTTLS was answered " + std::to_string(r.w.cmds[j].code) + " but the send reported success"); }
static void c15Hist() {      // the offer of each session decides, not an earlier one
    Scn s = scn(OPP, pick(tierSel(1, 2), "api"), pick(2, "credentials"), pick(2, "batch")); Run r(s); std::string h; std::vector<int> off; r.w.serverFor = [&](const std::string &, int) { ServerCfg g = s.srv; int o = pick(4, "server"); off.push_back(o); if (o == 1) g.ehloPlain = {"SIZE 1", "AUTH PLAIN"}; if (o == 2) g.ehloPlain = {"STARTTLS"}; if (o == 3) g.ehloPlain = {}; return g; };
    unsigned T = s.timeout; r.w.decide = [T](StepCtx &c, Reply &rp) { if (thorough() || c.step <= S_EHLO2) applyMenu(c, rp, thorough() ? M_REFUSE | M_CLOSE | M_SILENT : M_REFUSE | M_CLOSE, T); }; std::unique_ptr<IClient> c(make(s)); int n = tierSel(2, 3); MsgSpec m;
    for (int i = 1; i <= n; i++) { { EnvGuard g; m = msgOf(0, i); } if (i > 1) { int op = pick(3, "before the send"); if (op == 1) c.reset(c->copy()); if (op == 2) { std::unique_ptr<IClient> d(make(s)); d->assign(*c); c.swap(d); } } SendRes x = r.send(c.get(), m); EnvGuard g; h += std::to_string(x.rc) + " "; if (x.freshSession && !off.empty()) { bool o = off.back() == 0 || off.back() == 2; checkOpp(r, x, s, o); for (size_t j = x.cmd0; j < x.cmd1; j++) { auto &k = r.w.cmds[j]; if (o && !k.tls && k.step >= S_AUTH && k.step <= S_EOD) { violate("STARTTLS was offered in this session, but " + k.line + " was sent unencrypted"); break; } } } }
    r.dtor(c); EnvGuard g; note(s, h); outcomeOf(r);
}
static void c15Servers() {   // whatever the server is called and wherever it is
    static const std::vector<std::pair<std::string, unsigned>> hs{{"mail.test", 0x0a000201}, {"localhost", 0x7f000001}, {"127.0.0.1", 0x7f000001}, {"localhost.localdomain", 0x7f000001}, {"192.168.1.5", 0xc0a80105}, {"10.0.0.9", 0x0a000009}, {"relay.local", 0x0a000202}, {"MAIL.TEST", 0x0a000201}, {"a", 0x0a000203}, {"smtp.gmail.com", 0x0a000204}, {"0.0.0.0", 0}, {"host.docker.internal", 0xac110002}}; static const std::vector<unsigned> ports{25, 26, 465, 587, 1025, 2525, 65535, 1};
    Scn s = scn(OPP, pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); auto &h = hs[(size_t)pick((int)hs.size(), "server")]; s.host = h.first; s.port = choose(ports, "port"); s.timeout = choose(std::vector<unsigned>{5, 1, 60}, "timeout"); if (s.timeout == 1 && s.port != 25) return; bool off = !pick(2, "offer"); if (!off) noStartTls(s); s.self = pick(2, "self-signed ok"); note(s);
    Run r(s); { EnvGuard g; for (auto &q : hs) r.w.hosts[q.first] = q.second; } std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; checkOpp(r, x, s, off); if (off) for (auto &k : r.w.cmds) if (!k.tls && k.step >= S_AUTH && k.step <= S_EOD) { violate("STARTTLS was offered by " + s.host + ", but " + k.line + " was sent unencrypted"); break; } if (!off && s.timeout > 1 && x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
// option lists of many or long lines, with one line that counts at every place
static bool longOptions(std::vector<std::string> &l, const std::string &line, std::string &d) {
    static const std::vector<int> q{1, 5, 9, 10, 11, 15, 16, 17, 20, 32, 33, 50, 65, 101}, t = [] { std::vector<int> v; for (int i = 1; i <= 70; i++) v.push_back(i); for (int i : {99, 100, 101, 128, 129, 150}) v.push_back(i); return v; }();
    int n = choose(thorough() ? t : q, "lines"), at = pick(n + 1, "place"), len = choose(std::vector<int>{4, 30, 110, 480}, "length"); if (n * len > 9000 && (n > 70 || !thorough()) && len > 110) return false; EnvGuard g; l.clear(); for (int i = 0; i <= n; i++) { if (i == at) { l.push_back(line); continue; } std::string o = "X" + std::to_string(i); while ((int)o.size() < len) o += (o.size() % 9 == 3 ? ' ' : (char)('A' + o.size() % 25)); l.push_back(o); } d = line + " at place " + std::to_string(at) + " of " + std::to_string(n + 1) + " lines of " + std::to_string(len); return true;
}
static void c15Long() {
    int api = pick(2, "api"); Scn s = scn(OPP, api); std::string d; bool off = pick(2, "offer"); if (!longOptions(s.srv.ehloPlain, off ? "STARTTLS" : "XSTARTTLS", d) || (api && !thorough())) return; note(s, d);
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; checkOpp(r, x, s, off); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC15("C15", {
    sweep("every reply code", "every code 100..999 as the answer to EHLO, STARTTLS and the second EHLO, with and without credentials and batch, two sends", [](Sweep &s) { s.kinds = {1}; s.steps = {S_EHLO, S_STARTTLS, S_EHLO2}; s.creds = {0, 1}; s.batch = {0, 1}; s.sends = 2; s.mons = {monOppCodes}; s.multi = thorough(); }),
    {"sessions with changing offers", c15Hist, 1, 1, "2 (3) sessions of one client, its copy or a client assigned from it, each with one of 4 option lists, at most one deviation anywhere"},
    {"option lists", c15Lists, 0, 0, "all lists of up to 3 (4) lines over 9 (6) option lines incl. letter cases, positions and look-alikes, 2 APIs"},
    {"segmentation of the option list", c15Split, 0, 0, "6 lists x every split position (thorough: every pair) and byte by byte x 3 gaps"},
    {"TLS cannot be established", c15Fail, 1, 2, "5 certificates x every deviation at every step, two sends"},
    {"servers", c15Servers, 0, 0, "12 server names (local, private, literal addresses, other letter case) x 8 ports x offer x opt-in x time-outs x credentials x batch x APIs"},
    {"long option lists", c15Long, 0, 0, "option lists of 14 (76) lengths up to 102 (151) lines of 4..480 characters with STARTTLS (or a look-alike) at every place"},
});
// ================================================================== C16
static void c16Hist() {
    int kind = 1 + pick(2, "kind"), api = pick(thorough() ? 2 : 1, "api"); bool b = pick(2, "batch"); Scn s = scn(kind, api, true, b); int meth = pick(thorough() ? 3 : 1, "method"); s.cred.method = meth ? meth + 1 : 0; std::string h;
    Run r(s); std::vector<int> mode; bool custom = kind == OPP;
    r.w.serverFor = [&](const std::string &, int) { ServerCfg g = s.srv; int m = custom ? pick(4, "server") : pick(2, "server"); if (custom) { if (m == 1) g.ehloPlain = {"SIZE 1", "AUTH PLAIN LOGIN XOAUTH2"}; if (m == 2) g.cert = CERT_SELF; if (m == 3) g.ehloTls = {"SIZE 1", "STARTTLS"}; } else if (m == 1) g.cert = CERT_UNKNOWNCA; mode.push_back(m); return g; };
    deviations(r, M_CLOSE | M_SILENT | M_REFUSE | M_TLS | M_AFTER);
    std::unique_ptr<IClient> c(make(s)), c2; int len = tierSel(2, 3);
    for (int i = 0; i < len; i++) { int op = pick(i || thorough() ? 4 : 1, "before the send"); if (op == 1) { c.reset(c->copy()); h += "copy "; } else if (op == 2) { c.reset(c->moved()); h += "move "; } else if (op == 3) { if (i == 0) break; std::unique_ptr<IClient> d(make(s)); d->assign(*c); c.swap(d); h += "assign "; }
        MsgSpec m; { EnvGuard g; m = msgOf(0, i + 1); } SendRes x = r.send(c.get(), m); EnvGuard g; h += "send=" + std::to_string(x.rc) + " "; }
    r.dtor(c); EnvGuard g; scenarioNote(s.str() + " " + h); monClear(r, s);
    if (kind == OPP) for (size_t j = 0; j < r.w.cmds.size(); j++) { auto &k = r.w.cmds[j]; if (!k.tls && k.step == S_MAIL && r.w.recs[k.conn].tlsUp) violate("mail sent unencrypted after TLS was up"); }
    outcomeOf(r);
}
static void c16Ciphers() {   // a server that only offers cipher suites without encryption or without authentication
    Scn s = scn(1 + pick(2, "kind"), pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); s.srv.ciphers = 1 + pick(2, "cipher suites"); s.self = pick(2, "self-signed ok"); int first = pick(2, "first server"); note(s, s.srv.ciphers == 1 ? "no encryption" : "no authentication");
    Run r(s); r.w.serverFor = [&](const std::string &, int n) { ServerCfg g = s.srv; if (first && n == 0) g.ciphers = 0; return g; }; std::unique_ptr<IClient> c(make(s)); MsgSpec m; for (int i = 1; i <= 2; i++) { { EnvGuard g; m = msgOf(0, i); } SendRes x = r.send(c.get(), m); EnvGuard g; bool bad = x.freshSession && !(first && i == 1); if (bad && x.rc == 0) violate("success over a connection without " + std::string(s.srv.ciphers == 1 ? "encryption" : "authentication of the server")); for (size_t j = x.cmd0; bad && j < x.cmd1; j++) { int st = r.w.cmds[j].step; if (st >= S_AUTH && st <= S_EOD) { violate(r.w.cmds[j].line + " sent over a connection without encryption or authentication"); break; } } }
    r.dtor(c); EnvGuard g; monClear(r, s); outcomeOf(r);
}
static void c16Servers() {   // whatever the server is called and wherever it is, TLS or nothing
    static const std::vector<std::pair<std::string, unsigned>> hs{{"mail.test", 0x0a000201}, {"localhost", 0x7f000001}, {"127.0.0.1", 0x7f000001}, {"192.168.1.5", 0xc0a80105}, {"relay.local", 0x0a000202}, {"MAIL.TEST", 0x0a000201}, {"a", 0x0a000203}, {"smtp.gmail.com", 0x0a000204}}; static const std::vector<unsigned> ports{25, 26, 465, 587, 993, 1025, 2465, 2525, 2587, 443, 0, 1, 65535};
    Scn s = scn4(1 + pick(2, "kind"), pick(2, "api"), 1 + pick(4, "credentials"), pick(2, "batch")); auto &h = hs[(size_t)pick((int)hs.size(), "server")]; s.host = h.first; s.port = choose(ports, "port"); int offer = pick(3, "offer"); s.self = pick(2, "self-signed ok"); { EnvGuard g; if (offer == 1) s.srv.ehloPlain = {"SIZE 1000", "AUTH PLAIN LOGIN XOAUTH2"}; if (offer == 2) s.srv.ehloPlain = {"SIZE 1000", "AUTH PLAIN LOGIN XOAUTH2", "STARTTLS"}; } note(s);
    Run r(s); { EnvGuard g; for (auto &q : hs) r.w.hosts[q.first] = q.second; } std::unique_ptr<IClient> c(make(s)); MsgSpec m;
    for (int i = 1; i <= 2; i++) { { EnvGuard g; m = msgOf(0, i); } SendRes x = r.send(c.get(), m); EnvGuard g; monClear(r, s); if (s.kind == FORCED) for (auto &k : r.w.cmds) if (!k.tls && k.step >= S_AUTH && k.step <= S_EOD) { violate("the forced-TLS client sent " + k.line + " unencrypted to " + s.host); break; } if (offer != 1) for (auto &k : r.w.cmds) if (!k.tls && k.step >= S_AUTH && k.step <= S_EOD) { violate(k.line + " sent unencrypted to " + s.host + ", which offers TLS"); break; } (void)x; }
    r.dtor(c); EnvGuard g; monClear(r, s); outcomeOf(r);
}
static void c16Ports() {     // the server behind the port speaks the other way: no TLS where it is expected, TLS where it is not
    int kind = 1 + pick(2, "kind"), api = pick(2, "api"); Scn s = scn(kind, api, pick(2, "credentials"), pick(2, "batch")); s.self = pick(2, "self-signed ok"); s.timeout = 3; int sends = tierSel(2, 3); std::vector<int> wrong; std::string h;
    Run r(s); r.w.serverFor = [&](const std::string &, int n) { ServerCfg g = s.srv; int v = n < 3 ? pick(kind == FORCED ? 6 : 3, "server") : 0; if (kind == FORCED) { if (v) { g.implicitTls = false; g.plainPort = v > 3 ? 1 : v; if (v > 3) g.ehloPlain = {"SIZE 1", "AUTH PLAIN LOGIN XOAUTH2"}; if (v == 5) g.cert = CERT_SELF; } } else if (v) { g.implicitTls = true; if (v == 2) g.cert = CERT_SELF; } wrong.push_back(v); return g; };
    if ((thorough() || (s.hasCred && !s.batch && !s.self && !api)) && pick(2, "deviations")) deviations(r, M_CLOSE | M_SILENT | M_REFUSE);
    std::unique_ptr<IClient> c(make(s));
    for (int i = 1; i <= sends; i++) { size_t w0 = wrong.size(); MsgSpec m; { EnvGuard g; m = msgOf(0, i); } SendRes x = r.send(c.get(), m); EnvGuard g; h += " send=" + std::to_string(x.rc); if (wrong.size() > w0 && wrong[w0] && x.rc == 0) violate("a server that speaks the other way was used"); }
    r.dtor(c); EnvGuard g; note(s, h); monClear(r, s); monClosed(r); outcomeOf(r);
}
static Reg rC16("C16", {
    {"histories", c16Hist, 1, 2, "2 (3) sends x {nothing, copy, move, assign} before each x 4 server kinds per connection x one deviation anywhere, batch and non-batch, opportunistic and forced"},
    sweep("every reply code", "every code 100..999 as the answer to greeting, EHLO, STARTTLS, second EHLO and AUTH; credentials; two sends", [](Sweep &s) { s.kinds = {1, 2}; s.steps = {S_GREET, S_EHLO, S_STARTTLS, S_EHLO2, S_AUTH}; s.creds = {1}; s.batch = {0, 1}; s.sends = 2; if (!thorough()) { s.batch = {0}; s.steps = {S_EHLO, S_STARTTLS, S_EHLO2}; s.kinds = {1}; } s.mons = {[](Run &r, const SendRes &, const Scn &sc) { monClear(r, sc); }}; }),
    space("any deviation, one send", 1, 1, "every step x full menu, all credential methods, 2 APIs", [](Space &s) { s.kinds = {1, 2, 3}; s.apis = {0, 1}; s.creds = {1, 2, 3}; s.variants = {2}; s.menu = M_ALLFAIL | M_WEIRD; s.mons = {[](Run &r, const SendRes &, const Scn &sc) { monClear(r, sc); }}; }),
    space("failing system calls", 1, 2, "every system call fails", [](Space &s) { s.kinds = {1, 2, 3}; s.batch = {0, 1}; s.sends = 2; s.creds = {1}; s.variants = {0}; s.faults = FM_ALL & ~FM_SEND_STALL; if (thorough()) { s.sends = 1; s.batch = {0}; } s.mons = {[](Run &r, const SendRes &, const Scn &sc) { monClear(r, sc); }}; }),
    {"cipher suites without protection", c16Ciphers, 0, 0, "servers that offer only suites without encryption or only anonymous ones, first or after a good session"},
    {"servers", c16Servers, 0, 0, "8 server names (local, private, literal addresses, other letter case) x 13 ports x 3 option lists x opt-in x credential methods x batch x kinds x APIs, two sends"},
    {"servers that speak the other way", c16Ports, 1, 1, "the forced-TLS client meets servers without TLS (which answer its hello in 3 ways, with and without STARTTLS), the opportunistic client meets TLS-only servers; each of two (three) connections, credentials, opt-in, batch, one deviation"},
});
// ================================================================== C17
static void c17Certs() {
    int kind = 1 + pick(2, "kind"), api = pick(2, "api"); Scn s = scn(kind, api, pick(2, "credentials"), pick(2, "batch")); s.self = pick(2, "self-signed ok"); s.srv.tlsMax = pick(2, "tls version") ? 12 : 13; int n = pick(tierSel(2, 3), "earlier sessions") + 1; std::string h; std::vector<int> certs;
    Run r(s); r.w.serverFor = [&](const std::string &, int) { ServerCfg g = s.srv; g.cert = certs.empty() ? CERT_GOOD : certs.back(); return g; };
    std::unique_ptr<IClient> c(make(s)); bool self = s.self;
    for (int i = 0; i < n; i++) {
        int ck = pick(CERT_NKINDS, "certificate"); if (i + 1 == n && n > 1 && !thorough() && ck > CERT_WRONGHOST) return; certs.push_back(ck); if (i > 0 && thorough() && pick(2, "toggle opt-in")) { self = !self; c->setSelf(self); }
        MsgSpec m; { EnvGuard g; m = msgOf(0, i + 1); } SendRes x = r.send(c.get(), m); EnvGuard g; h += std::string(certName(ck)) + (self ? "+optin" : "") + "=" + std::to_string(x.rc) + " ";
        if (!x.freshSession) continue;
        bool ok = ck == CERT_GOOD || ck == CERT_CHAIN || (self && ck == CERT_SELF), open = self && (ck == CERT_SELF_EXPIRED || ck == CERT_SELF_WRONGHOST); bool mail = false; for (size_t j = x.cmd0; j < x.cmd1; j++) { int st = r.w.cmds[j].step; if (st == S_MAIL || st == S_AUTH || st == S_AUTH_USER || st == S_DATA) mail = true; }
        if (open) continue;
        if (ok && x.rc != 0) violate(std::string("certificate ") + certName(ck) + " refused with " + std::to_string(x.rc));
        if (!ok) { if (mail) violate(std::string("mail or credentials sent to a server with certificate ") + certName(ck) + (self ? " (self-signed opted in)" : "")); if (x.rc == 0) violate(std::string("certificate ") + certName(ck) + " accepted"); else if (x.rc != -56 && x.rc != -57 && x.rc != -58) violate(std::string("certificate ") + certName(ck) + " refused with " + std::to_string(x.rc) + ", which is no certificate error"); }
    }
    r.dtor(c); EnvGuard g; scenarioNote(s.str() + " " + h); outcome(h);
}
static void c17Names() {     // the name checked is the configured one; the certificate names mail.test, mail2.test and mail3.test
    static const std::vector<std::string> hosts{"mail.test", "MAIL.test", "mail2.test", "mail4.test", "ail.test", "xmail.test", "mail.test.evil.org", "mail", "sub.mail.test", "127.0.0.1"};
    int kind = 1 + pick(2, "kind"); Scn s = scn(kind, pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); int h1 = pick((int)hosts.size(), "host"), how = pick(4, "how"), h2 = how ? pick((int)hosts.size(), "new host") : 0; s.host = hosts[h1]; note(s, hosts[h1] + (how == 0 ? "" : how == 1 ? " renamed " : how == 2 ? " copied+renamed " : " assigned ") + (how ? hosts[h2] : ""));
    Run r(s); { EnvGuard g; for (size_t i = 0; i < hosts.size(); i++) r.w.hosts[hosts[i]] = 0x0a000100 + (unsigned)i; } std::unique_ptr<IClient> c(make(s)); MsgSpec m; { EnvGuard g; m = msgOf(0, 1); } auto exp = [](int h) { return h < 3; };
    auto judge = [&](const SendRes &x, int h) { if ((x.rc == 0) != exp(h)) violate("server name " + hosts[h] + " with a certificate for mail.test, mail2.test and mail3.test gave " + std::to_string(x.rc)); if (!exp(h)) for (size_t j = x.cmd0; j < x.cmd1; j++) { int st = r.w.cmds[j].step; if (st == S_MAIL || st == S_AUTH || st == S_DATA) { violate("mail or credentials sent to a server whose certificate is not for " + hosts[h]); break; } } };
    SendRes x = r.send(c.get(), m); { EnvGuard g; judge(x, h1); }
    bool keeps = s.batch && x.rc == 0 && how != 3 && how != 2;   // an open batch session goes on with the old server
    if (how && !keeps) { if (how == 2) { c.reset(c->copy()); c->setServer(hosts[h2]); } else if (how == 1) c->setServer(hosts[h2]); else { Scn t = s; t.host = hosts[h2]; std::unique_ptr<IClient> d(make(t)); c->assign(*d); } SendRes y = r.send(c.get(), m); EnvGuard g; judge(y, h2); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c17Match() {     // certificates with wildcards, addresses, several names
    static const std::vector<std::string> hosts{"mail.test", "mail2.test", "mx.mail.test", "MX.Mail.TEST", "a.b.mail.test", "xmail.test", "*.mail.test", ".mail.test", "10.0.1.12", "10.0.1.13", "other.test", "whatever.test", "10.0.1.1", "mail.tes", "mail.test."};
    // rows: certificate, columns: the names it is good for ('?': either way)
    struct C { int cert; const char *ok; }; static const std::vector<C> cs{{CERT_GOOD, "yyn" "nnnnn" "nn" "nn" "nn" "?"}, {CERT_WRONGHOST, "nnn" "nnnnn" "nn" "yn" "nn" "n"}, {CERT_SAN_OTHER, "nnn" "nnnnn" "nn" "yn" "nn" "n"}, {CERT_WILD, "nny" "ynn??" "nn" "nn" "nn" "n"}, {CERT_IP, "nnn" "nnnnn" "yn" "yn" "nn" "n"}, {CERT_IPNAME, "nnn" "nnnnn" "nn" "yn" "nn" "n"}, {CERT_CHAIN, "yyn" "nnnnn" "nn" "nn" "nn" "?"}};
    Scn s = scn(1 + pick(2, "kind"), pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); auto &k = cs[(size_t)pick((int)cs.size(), "certificate")]; int h = pick((int)hosts.size(), "server name"); s.srv.cert = k.cert; s.host = hosts[(size_t)h]; s.self = pick(2, "self-signed ok"); s.srv.tlsMax = pick(2, "tls version") ? 12 : 13; note(s, s.host + " with certificate " + certName(k.cert));
    Run r(s); { EnvGuard g; for (size_t i = 0; i < hosts.size(); i++) r.w.hosts[hosts[i]] = 0x0a000100 + (unsigned)i; r.w.hosts["10.0.1.12"] = 0x0a00010c; } std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; char e = k.ok[h]; std::string w = "server name " + s.host + " with the certificate " + certName(k.cert) + " gave " + std::to_string(x.rc); if (e == 'y' && x.rc) violate(w); if (e == 'n') { if (x.rc == 0) violate(w); else if (x.rc != -56 && x.rc != -57 && x.rc != -58) violate(w + ", which is no certificate error"); for (size_t j = x.cmd0; j < x.cmd1; j++) { int st = r.w.cmds[j].step; if (st >= S_AUTH && st <= S_EOD) { violate("mail or credentials sent although " + w); break; } } } } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c17Settings() {  // the opt-in in force when a session begins decides, whatever it was before
    int kind = 1 + pick(2, "kind"), api = pick(2, "api"), len = tierSel(4, 5); Scn s = scn(kind, api, false, pick(2, "batch")); s.self = pick(2, "opt-in"); s.srv.cert = choose(std::vector<int>{CERT_SELF, CERT_UNKNOWNCA}, "certificate"); Run r(s); std::unique_ptr<IClient> c(make(s)); bool self = s.self, batch = s.batch, open = false; std::string h = s.self ? "opt-in " : ""; if (batch) h += "batch "; MsgSpec m;
    for (int i = 0, n = 0; i < len; i++) {
        int op = pick(6, "operation"); if (op == 5) break; if (i == len - 1 && op != 0) return;
        if (op == 0) { { EnvGuard g; m = msgOf(0, ++n); } bool fresh = !open; SendRes x = r.send(c.get(), m); EnvGuard g; h += "send=" + std::to_string(x.rc) + " "; bool ok = !fresh || (self && s.srv.cert == CERT_SELF); if ((x.rc == 0) != ok) violate("after " + h + ": the opt-in is " + (self ? "given" : "not given") + ", the certificate " + certName(s.srv.cert)); if (x.rc && x.rc != -56 && x.rc != -57 && x.rc != -58) violate("after " + h + ": no certificate error"); if (!ok) for (size_t j = x.cmd0; j < x.cmd1; j++) if (r.w.cmds[j].step >= S_AUTH && r.w.cmds[j].step <= S_EOD) { violate("mail sent after " + h); break; } open = batch && x.rc == 0; }
        else if (op == 1) { self = !self; c->setSelf(self); h += self ? "opt-in " : "opt-out "; if (c->self() != self) { EnvGuard g; violate("the opt-in is read back as " + std::to_string(!self) + " after " + h); } }
        else if (op == 2) { batch = !batch; c->setBatch(batch); r.def.batch = batch; h += batch ? "batch " : "single "; }
        else if (op == 3) { c.reset(c->copy()); open = false; h += "copy "; }
        else { Scn t = s; t.self = !self; std::unique_ptr<IClient> d(make(t)); d->assign(*c); c.swap(d); open = false; h += "assign "; }
    }
    r.dtor(c); EnvGuard g; scenarioNote(s.str() + " " + h); outcome(h);
}
static Reg rC17("C17", {
    {"certificates and histories", c17Certs, 0, 0, "15 certificates (self-signed, other issuers, chains, dates, names, purposes) x opt-in x kinds x APIs x credentials x batch x TLS 1.2/1.3, alone and after 1 (2) earlier sessions with any certificate"},
    {"server names", c17Names, 0, 0, "10 configured names (3 in the certificate), renaming, copy and rename, assignment from a client with another name; credentials, batch"},
    space("deviations with an untrusted certificate", 1, 1, "every deviation with an unknown-issuer certificate: no mail, no success", [](Space &s) { s.kinds = {1, 2}; s.menu = M_CLOSE | M_SILENT | M_TLS | M_REFUSE | M_GARBAGE; s.sends = 2; s.variants = {0}; s.mons = {[](Run &, const SendRes &, const Scn &) {}}; }),
    {"names in certificates", c17Match, 0, 0, "7 certificates (several names, wildcard, address, address as a name, intermediate issuer, subject that differs from the names) x 15 server names x opt-in x TLS versions"},
    {"histories of the opt-in", c17Settings, 0, 0, "every sequence of up to 4 (5) of {send, toggle the opt-in, toggle batch mode, copy, assign to a client with the other opt-in} against a self-signed or unknown certificate"},
});
static void c17Dev() {
    Scn s = scn(1 + pick(2, "kind"), pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); s.srv.cert = choose(std::vector<int>{CERT_UNKNOWNCA, CERT_WRONGHOST, CERT_EXPIRED}, "certificate"); s.self = pick(2, "self-signed ok"); note(s); Run r(s); deviations(r, M_BASIC | M_GARBAGE); std::unique_ptr<IClient> c(make(s));
    MsgSpec m; for (int i = 0; i < 2; i++) { { EnvGuard g; m = msgOf(0, i + 1); } SendRes x = r.send(c.get(), m); EnvGuard g; if (x.rc == 0) { bool plain = false; for (size_t j = x.cmd0; j < x.cmd1; j++) if (r.w.cmds[j].step == S_EHLO && r.w.cmds[j].reply.find("STARTTLS") == std::string::npos) plain = true; if (!plain) violate("success over an untrusted certificate"); } for (auto &k : r.w.cmds) if (k.tls && (k.step == S_MAIL || k.step == S_AUTH || k.step == S_EHLO2)) { if (k.step != S_EHLO2) violate("mail or credentials over an untrusted certificate"); break; } }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static struct FixC17 { FixC17() { for (auto &c : registry()) if (c.id == "C17") c.phases[2].body = c17Dev; } } fixC17;
// ================================================================== C18
static void c18Mechs() {
    static const char *mech[] = {"PLAIN", "LOGIN", "XOAUTH2", "CRAM-MD5", "PLAIN-CLIENTTOKEN", "XOAUTH", "OAUTHBEARER"}; int k = pick(3, "kind"), api = pick(2, "api"); Scn s = scn(k, api, true, pick(2, "batch")); s.cred.method = pick(4, "method"); std::string l = "AUTH"; int n = pick(4, "offered"); std::set<int> used;
    for (int i = 0; i < n; i++) { int m = pick(n < 3 || thorough() ? 7 : 5, "mechanism"); if (!used.insert(m).second) return; l += std::string(" ") + mech[m]; }
    int place = pick(3, "place"); std::vector<std::string> o{"SIZE 35882577", "8BITMIME"}; if (n) o.insert(place == 0 ? o.end() : place == 1 ? o.begin() : o.begin() + 1, l); else if (place) return;
    if (k == PLAIN) s.srv.ehloPlain = o; else { s.srv.ehloTls = o; s.srv.ehloPlain = {"SIZE 1", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"}; } note(s, l);
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); monResult(r, x, s); } if (s.batch) { SendRes y = r.send(c.get(), msgOf(0, 2)); EnvGuard g; monAuth(r, y, s); } r.dtor(c); EnvGuard g; outcome(l.substr(4) + " method " + std::to_string(s.cred.method) + (r.w.auths.empty() ? " -> none" : " -> " + r.w.auths[0].mech));
}
static void c18Payload() {
    Scn s = scn(pick(3, "kind"), pick(2, "api"), true); s.cred.method = pick(4, "method"); int a = 1 + pick(tierSel(7, 20), "user length"), b = 1 + pick(tierSel(10, 30), "password length"), cls = pick(4, "bytes"); auto mk = [&](int n, int seed) { std::string t; for (int i = 0; i < n; i++) { int v = i * 37 + seed * 11 + n; t += cls == 0 ? (char)('a' + v % 26) : cls == 1 ? (char)(128 + v % 128) : cls == 2 ? (char)(33 + v % 94) : (char)(1 + (v * 7) % 255); } if (t[0] == ' ' || (unsigned char)t[0] < 33) t[0] = 'u'; return t; }; s.cred.user = mk(a, 1); s.cred.pass = mk(b, 2); note(s, "user of " + std::to_string(a) + " password of " + std::to_string(b));
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); if (r.w.auths.size() != 1 || !r.w.auths[0].accepted) violate("not authenticated"); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c18Long() { Scn s = scn(pick(3, "kind"), pick(2, "api"), true); s.cred.method = pick(4, "method"); static const std::vector<int> ln{57, 58, 75, 76, 77, 100, 255, 256, 700, 1000, 1100, 3000, 49100, 49148, 49149, 60000, 98301, 150000}; int n = choose(ln, "length"); bool u = pick(2, "long field"); (u ? s.cred.user : s.cred.pass) = std::string((size_t)n, 'p') + "End"; note(s, std::string(u ? "user name" : "password") + " of " + std::to_string(n + 3)); Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); monProtocol(r); } r.dtor(c); EnvGuard g; outcomeOf(r); }
static void c18Texts() {     // texts that mean something elsewhere, and every short text over special characters
    auto &d = oddTexts(); Scn s = scn(pick(3, "kind"), pick(2, "api"), true); s.cred.method = s.kind == PLAIN || thorough() ? pick(4, "method") : 1 + pick(3, "method"); bool user = pick(2, "field"); int i = pick((int)d.size() + 9, "text"); if (s.kind != PLAIN && !thorough() && i % 4) return; std::vector<std::string> ts; static const std::string al = "a ,=\"\\\x01\xE9\t";
    { EnvGuard g; if (i < (int)d.size()) for (const char *f : {"%", "%x", "x%", "x%y", "%%"}) { std::string x; for (const char *q = f; *q; q++) if (*q == '%') x += d[(size_t)i]; else x += *q; ts.push_back(x); } else { char a = al[(size_t)i - d.size()]; ts.push_back(std::string(1, a)); for (char b : al) { ts.push_back(std::string(1, a) + b); for (char c : al) ts.push_back(std::string(1, a) + b + c); } } note(s, (user ? "user " : "password ") + esc(ts[0])); }
    for (auto &t : ts) { { EnvGuard g; if (user && t.find_first_not_of(" \t\v\f\r\n") == std::string::npos) continue; (user ? s.cred.user : s.cred.pass) = t; } Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); if (r.w.auths.size() != 1 || !r.w.auths[0].accepted) violate("not authenticated with " + esc(t)); monProtocol(r); } r.dtor(c); }
    EnvGuard g; countEval(ts.size(), 0); outcome("ok");
}
static void c18Hist() {      // the mechanisms offered in each session decide, not those of an earlier one
    static const std::vector<const char *> offers{"AUTH PLAIN LOGIN XOAUTH2", "AUTH LOGIN", "AUTH XOAUTH2", "", "AUTH CRAM-MD5", "AUTH PLAIN"}; Scn s = scn(pick(3, "kind"), pick(2, "api"), true, pick(2, "batch")); s.cred.method = pick(4, "method"); int n = tierSel(2, 3); std::string h; Run r(s); std::vector<ServerCfg> used;
    r.w.serverFor = [&](const std::string &, int) { ServerCfg g = s.srv; const char *o = offers[(size_t)pick((int)offers.size(), "offer")]; std::vector<std::string> l{"SIZE 1"}; if (*o) l.push_back(o); if (s.kind == PLAIN) g.ehloPlain = l; else { g.ehloTls = l; g.ehloPlain = {"STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"}; } h += std::string("[") + o + "]"; used.push_back(g); return g; };
    std::unique_ptr<IClient> c(make(s)); MsgSpec m; for (int i = 1; i <= n; i++) { { EnvGuard g; m = msgOf(0, i); } if (i > 1) { int op = pick(3, "before the send"); if (op == 1) c.reset(c->copy()); if (op == 2) { std::unique_ptr<IClient> d(make(s)); d->assign(*c); c.swap(d); } } SendRes x = r.send(c.get(), m); EnvGuard g; Scn t = s; if (!used.empty()) t.srv = used.back(); monAuth(r, x, t); if (x.freshSession) monResult(r, x, t); h += "=" + std::to_string(x.rc) + " "; }
    r.dtor(c); EnvGuard g; note(s, h); outcome(h);
}
static void c18Alike() {      // lines that resemble the authentication line
    static const std::vector<std::string> L{"AUTHX PLAIN LOGIN", "AUTHENTICATION LOGIN", "XAUTH PLAIN", "X AUTH PLAIN LOGIN", "HELP AUTH LOGIN PLAIN", "SIZE PLAIN", "LOGIN", "AUTH-PLAIN LOGIN", "AUTH LOGIN", "AUTH XOAUTH2", "SIZE 1"}; int k = pick(3, "kind"); Scn s = scn(k, pick(2, "api"), true, 0); s.cred.method = pick(4, "method"); std::vector<std::string> l; int n = 1 + pick(3, "lines"), real = 0; std::string d; for (int i = 0; i < n; i++) { int q = pick((int)L.size(), "line"); real += q == 8 || q == 9; EnvGuard g; l.push_back(L[(size_t)q]); d += l.back() + "|"; } if (real > 1 || (n == 3 && !thorough() && (s.api || s.cred.method > 1))) return;
    { EnvGuard g; if (k == PLAIN) s.srv.ehloPlain = l; else s.srv.ehloTls = l; } note(s, d); Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); monResult(r, x, s); } r.dtor(c); EnvGuard g; outcome(r.w.auths.empty() ? "none" : r.w.auths[0].mech);
}
static void c18LongList() {
    int k = choose(std::vector<int>{PLAIN, FORCED, OPP}, "kind"); Scn s = scn(k, 0, true, 0); s.cred.method = 0; std::string d; static const std::vector<std::string> lines{"AUTH PLAIN", "AUTH GSSAPI NTLM LOGIN", "AUTH XOAUTH2"}; int li = pick(3, "mechanism"); std::vector<std::string> l; if (!longOptions(l, lines[(size_t)li], d) || (k != PLAIN && !thorough() && li)) return; { EnvGuard g; if (k == PLAIN) s.srv.ehloPlain = l; else s.srv.ehloTls = l; } note(s, d);
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); monResult(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c18LongLine() {   // a mechanism after many others
    int k = pick(3, "kind"), n = pick(tierSel(120, 600), "other mechanisms"), li = pick(3, "mechanism"), name = pick(3, "names"); Scn s = scn(k, pick(2, "api"), true, 0); s.cred.method = 0; static const char *mech[] = {"PLAIN", "LOGIN", "XOAUTH2"}, *other[] = {"X", "SCRAM-SHA-256-PLUS", "PLAIN-CLIENTTOKEN"}; { EnvGuard g; std::string l = "AUTH"; for (int i = 0; i < n; i++) l += std::string(" ") + other[name]; l += std::string(" ") + mech[li]; if (k == PLAIN) s.srv.ehloPlain = {"SIZE 1", l, "HELP"}; else s.srv.ehloTls = {"SIZE 1", l, "HELP"}; } note(s, std::to_string(n) + " other mechanisms");
    Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monAuth(r, x, s); monResult(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC18("C18", {
    {"sessions with changing offers", c18Hist, 0, 0, "2 (3) sessions of one client, its copy or a client assigned from it, each with one of 6 sets of offered mechanisms"},
    sweep("every reply code", "every code 100..999 as the answer to AUTH and to each LOGIN line, all mechanisms, two sends", [](Sweep &s) { s.kinds = thorough() ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}; s.steps = {S_EHLO, S_EHLO2, S_AUTH, S_AUTH_USER, S_AUTH_PASS}; s.creds = {1, 2, 3}; s.sends = 2; s.mons = {monAuth}; if (!thorough()) s.steps = {S_AUTH, S_AUTH_USER, S_AUTH_PASS}; }),
    {"offered mechanisms", c18Mechs, 0, 0, "all ordered subsets of up to 2 of 7 and 3 of 5 (7) mechanisms x 3 places in the list x 4 methods x 3 kinds x 2 APIs x batch"},
    {"payloads", c18Payload, 0, 0, "user and password of every length up to 7/10 (20/30) x 4 byte classes x methods x kinds x APIs"},
    {"long secrets", c18Long, 0, 0, "user name or password of 18 lengths up to 150000 x methods, kinds, APIs"},
    {"look-alikes of the authentication line", c18Alike, 0, 0, "every list of 1..3 of 11 lines, at most one of which is an authentication line, x methods, kinds, APIs"},
    {"long option lists", c18LongList, 0, 0, "option lists of 14 (76) lengths up to 102 (151) lines of 4..480 characters with the authentication line at every place"},
    {"long authentication lines", c18LongLine, 0, 0, "each mechanism after 0..119 (599) others with 3 kinds of names; kinds, APIs"},
    {"special texts", c18Texts, 0, 0, "180 meaningful texts in 5 places, and every text of 1..3 characters over 9 special ones, as user name and password; mechanisms, kinds, APIs"},
    space("answers to the authentication", 1, 2, "every deviation at every step, all methods", [](Space &s) { s.kinds = {0, 1, 2}; s.apis = {0, 1}; s.creds = {1, 2, 3}; s.batch = {0, 1}; s.sends = 2; s.variants = {0}; s.menu = M_REFUSE | M_CODES | M_SILENT | M_CLOSE | M_LOST | M_GARBAGE; if (thorough()) { s.apis = {0}; s.batch = {1}; s.creds = {2, 3}; s.menu = M_REFUSE | M_CODES | M_SILENT | M_CLOSE; } s.mons = {monAuth}; }),
    space("without credentials", 1, 1, "no credentials: never authenticates", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.apis = {0, 1}; s.creds = {0}; s.batch = {0, 1}; s.sends = 2; s.variants = {0}; s.menu = M_BASIC; s.mons = {monAuth}; }),
    extPhase({monAuth}),
    textPhase({1, 2, 3, 4}, {monAuth}),
});
// ================================================================== C19
static void c19Echo() {   // the server repeats what it was sent
    Scn s = scn(pick(3, "kind"), pick(2, "api"), true, pick(2, "batch")); s.cred.method = 1 + pick(3, "method"); int form = pick(5, "echo"); note(s, "echoing server");
    Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step != S_AUTH && c.step != S_AUTH_USER && c.step != S_AUTH_PASS && c.step != S_MAIL) return; std::string last = c.line; if (c.step == S_MAIL && !W->auths.empty() && !W->auths.back().payloads.empty()) last = W->auths.back().payloads.back();
        if (form == 0) { rp.text = "535 5.7.8 rejected: " + last + "\r\n"; rp.code = 535; rp.effect = false; } else if (form == 1) { rp.text = std::to_string(rp.code) + " got " + last + "\r\n"; } else if (form == 2) { rp.text = "501-syntax error in\r\n501-" + last + "\r\n501 sorry\r\n"; rp.code = 501; rp.effect = false; } else if (form == 3) { rp.text = "500 " + last + " " + last + "\r\n"; rp.code = 500; rp.effect = false; } else { if (c.step == S_AUTH_USER || c.step == S_MAIL) return; rp.text = last + "\r\n"; rp.code = -2; rp.answered = false; rp.effect = false; } };
    std::unique_ptr<IClient> c(make(s)); for (int i = 1; i <= 2; i++) { MsgSpec m; { EnvGuard g; m = msgOf(0, i); } SendRes x = r.send(c.get(), m); EnvGuard g; monLogSecret(r, x, s); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c19Lengths() { Scn s = scn(pick(3, "kind"), 0, true); s.cred.method = 1 + pick(3, "method"); static const int big[] = {3000, 49148, 49152, 70000, 120000}; int q = tierSel(100, 600), n = pick(q + 5, "length"); n = n < q ? 5 + n : big[n - q]; s.cred.pass.clear(); for (int i = 0; i < n; i++) s.cred.pass += "pQ7zKx"[i % 6]; int fail = pick(3, "answer"); note(s, "password of " + std::to_string(n)); Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (fail && (c.step == S_AUTH_PASS || (c.step == S_AUTH && s.cred.method != 2))) { if (fail == 1) { rp.text = "535 5.7.8 no\r\n"; rp.code = 535; rp.effect = false; } else { rp.text.clear(); rp.code = -1; rp.answered = false; rp.effect = false; rp.after = A_RST; } } };
    std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monLogSecret(r, x, s); } r.dtor(c); EnvGuard g; outcomeOf(r); }
static void c19Short() {     // secrets of one to four characters
    static const char *pw[] = {"~", "^", "~^", "Q~7", "^`~|", "\xc3\xa9~"}; Scn s = scn4(pick(thorough() ? 4 : 2, "kind"), pick(tierSel(1, 2), "api"), 0, pick(tierSel(1, 2), "batch")); s.hasCred = true; s.cred.user = pick(2, "user") ? "u" : "us3r.name"; s.cred.pass = pw[pick(6, "password")]; s.cred.method = pick(4, "method"); s.minSecret = 1; note(s);
    Run r(s); deviations(r, M_REFUSE | M_CLOSE | M_SILENT | (thorough() ? M_CODES : 0)); std::unique_ptr<IClient> c(make(s)); MsgSpec m; for (int i = 1; i <= 1; i++) { { EnvGuard g; m = msgOf(0, i); } SendRes x = r.send(c.get(), m); EnvGuard g; monLogSecret(r, x, s); } r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC19("C19", {
    space("deviating server", 1, 2, "all methods, 4 kinds, every deviation at every step, two sends", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.apis = {0, 1}; s.creds = {4, 2, 3}; s.sends = 2; s.batch = {0, 1}; s.variants = {0}; s.menu = M_REFUSE | M_CODES | M_SILENT | M_CLOSE | M_AFTER | M_GARBAGE | M_TLS; if (thorough()) { s.apis = {0}; s.sends = 1; s.batch = {0}; } s.mons = {monLogSecret}; }),
    space("failing system calls", 1, 2, "all methods, every system call fails", [](Space &s) { s.creds = {4, 2, 3}; s.variants = {0}; s.faults = FM_ALL & ~FM_SEND_STALL; s.mons = {monLogSecret}; }),
    {"servers that echo the credentials", c19Echo, 0, 0, "5 echoing behaviours x mechanisms x kinds x APIs x batch"},
    {"password lengths", c19Lengths, 0, 0, "password lengths 5..104 (5..604) and 5 up to 120000, accepted, refused, connection lost"},
    {"short passwords", c19Short, 1, 1, "passwords of 1 to 4 characters x methods x 2 user names, every basic deviation at every step"},
});
// ================================================================== C20
static void c20Growth() {    // entry lengths across the growth steps of the log
    Scn s = scn(pick(thorough() ? 3 : 1, "kind"), pick(2, "api")); int dim = pick(3, "grown entry"), hi = dim == 2 ? 6 : tierSel(110, 500), blk = pick(hi, "length block"), step = dim == 2 ? 16 : 40;
    note(s, std::string(dim == 0 ? "body" : dim == 1 ? "subject" : "recipients") + " from " + std::to_string(blk * step));
    for (int i = 0; i < step; i++) {
        int n = blk * step + i; MsgSpec q; { EnvGuard g; q = msgOf(0); if (dim == 0) q.body += std::string(n, 'b'); else if (dim == 1) q.subject += std::string(n, 's'); else for (int k = 0; k < n; k++) q.bcc.push_back({"r" + std::to_string(k) + "@example.com", ""}); }
        Run r(s); std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), q); { EnvGuard g; monLogComplete(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); } r.dtor(c);
    }
    EnvGuard g; countEval(step, 0); outcome("complete");
}
static void c20Replies() {   // reply lengths across the growth steps
    Scn s = scn(pick(thorough() ? 3 : 2, "kind"), 0, pick(2, "credentials")); int st = choose(std::vector<int>{S_GREET, S_MAIL, S_EOD}, "step"), blk = pick(tierSel(90, 250), "length block"), step = 50; note(s, std::string("reply at ") + stepName(st) + " from " + std::to_string(blk * step)); if (s.kind != PLAIN) step = 10;
    for (int i = 0; i < step; i++) {
        int n = blk * step + i; Run r(s); r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == st) { std::string k = std::to_string(rp.code), t; int left = n; while (left > 500) { t += k + "-" + std::string(490, 'w') + "\r\n"; left -= 496; } rp.text = t + k + " " + std::string(left, 'v') + "\r\n"; } };
        std::unique_ptr<IClient> c(make(s)); SendRes x = r.send(c.get(), msgOf(0)); { EnvGuard g; monLogComplete(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); } r.dtor(c);
    }
    EnvGuard g; countEval(step, 0); outcome("complete");
}
static void c20Huge() {      // transcripts of megabytes
    static const size_t sz[] = {100000, 600000, 1100000, 4200000, 17000000}; Scn s = scn4(pick(4, "kind"), pick(2, "api"), pick(2, "credentials"), pick(2, "batch")); int what = pick(3, "large part"); size_t n = sz[pick(tierSel(4, 5), "size")]; if (what == 2 && n > 100000) return; if (!thorough() && (s.kind == OPP || s.kind == 3 || s.hasCred || n == 600000 || (n > 2000000 && (s.kind != PLAIN || s.batch)))) return; note(s, "transcript of " + std::to_string(n)); MsgSpec m; Run r(s);
    if (what == 1) r.w.decide = [&](StepCtx &c, Reply &rp) { if (c.step == S_MAIL) { std::string k = std::to_string(rp.code), t; while (t.size() < std::min<size_t>(n, 1100000)) t += k + "-" + std::string(900, 'w') + "\r\n"; rp.text = t + rp.text; } }; std::unique_ptr<IClient> c(make(s));
    for (int i = 1; i <= (s.batch ? 2 : 1); i++) { { EnvGuard g; m = msgOf(0, i); if (what == 0) { while (m.body.size() < n) m.body += "a line of the body that makes it longer, number " + std::to_string(m.body.size()) + "\r\n"; } if (what == 2) for (size_t k = 0; k < n / 100; k++) m.bcc.push_back({"recipient" + std::to_string(k) + "@example.com", ""}); } SendRes x = r.send(c.get(), m); EnvGuard g; monLogComplete(r, x, s); if (x.rc) violate("nothing failed but the result is " + std::to_string(x.rc)); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static Reg rC20("C20", {
    {"growing entries", c20Growth, 0, 0, "every body and subject length up to 4400 (20000), up to 95 recipients"},
    {"growing replies", c20Replies, 0, 0, "every reply length up to 4500 (12500) at 3 steps"},
    space("deviating server", 1, 2, "every deviation at every step, 4 kinds, credentials, two sends in batch and non-batch mode", [](Space &s) { s.kinds = {0, 1, 2, 3}; s.apis = {0, 1}; s.creds = {0, 1, 2, 3}; s.batch = {0, 1}; s.sends = 2; s.variants = {10}; s.menu = M_REFUSE | M_SILENT | M_CLOSE | M_MULTI | M_TLS; if (thorough()) { s.apis = {0}; s.creds = {0, 2}; s.menu = M_REFUSE | M_CLOSE | M_MULTI; } s.mons = {monLogComplete}; }),
    space("replies in pieces", 1, 1, "every split of every reply", [](Space &s) { s.kinds = {0, 1, 2}; s.creds = {0}; s.variants = {0}; s.menu = M_SPLIT | M_LONG; s.mons = {monLogComplete}; }),
    {"huge transcripts", c20Huge, 0, 0, "bodies of 0.1 to 4.2 (17) MB, replies of up to 1.1 MB, 1000 recipients; batches of two"},
});
// ================================================================== C23
struct Obs { std::string wire, log, set; int rc = 0; };
static void c23Body(unsigned menu, int sends, int what) {
    int k = pick(4, "kind"), cr = pick(5, "credentials"); bool b = pick(2, "batch"); Scn s = scn4(k, 0, cr, b); static const int vars[] = {0, 1, 2, 4, 8, 15}; int v = vars[pick(what ? 6 : 2, "message")]; if (!what) v = v ? 15 : 0;
    if (what && k != PLAIN) { s.self = pick(2, "self-signed ok"); s.srv.cert = pick(2, "certificate") ? CERT_SELF : CERT_GOOD; }
    if (what == 2) { s.srv.ehloPlain = {"SIZE 1", "AUTH " + std::string(std::vector<const char *>{"PLAIN", "LOGIN", "XOAUTH2", "LOGIN XOAUTH2", "CRAM-MD5"}[pick(5, "offered")])}; s.srv.ehloTls = s.srv.ehloPlain; if (k == OPP) s.srv.ehloPlain.push_back("STARTTLS"); }
    note(s); std::vector<int> ch; size_t at = 0; std::vector<std::vector<Obs>> o(2); std::vector<std::unique_ptr<Run>> keep;
    for (int api = 0; api < 2; api++) {
        Scn t = s; t.api = api; auto rp = std::make_unique<Run>(t); Run &r = *rp; unsigned T = s.timeout; at = 0;
        r.w.decide = [&, api](StepCtx &c, Reply &q) { auto m = devMenu(c, q, menu, T); int x = 0; if (api == 0) { if (menu && devLeft()) x = dev((int)m.size() + 1, stepName(c.step)); ch.push_back(x); } else if (at < ch.size()) x = ch[at++]; if (x && x <= (int)m.size()) m[x - 1].f(q); };
        std::unique_ptr<IClient> c(make(t));
        for (int i = 1; i <= sends; i++) { MsgSpec m; { EnvGuard g; m = msgOf(v, i); } size_t c0 = r.w.cmds.size(); SendRes x = r.send(c.get(), m); EnvGuard g; Obs ob; ob.rc = x.rc; ob.log = x.log; ob.wire = transcriptOf(r, c0); ob.set = settingsOf(*c); o[api].push_back(ob); }
        r.dtor(c); EnvGuard g; Obs ob; ob.wire = transcriptOf(r, 0); for (auto &q : r.w.recs) ob.wire += "#" + std::to_string(q.port) + q.host + std::to_string(q.closes) + q.plainBytes.substr(0, 1 << 20) + "|" + q.appBytes; o[api].push_back(ob); if (api == 0) W = nullptr; keep.push_back(std::move(rp));
    }
    EnvGuard g;
    for (size_t i = 0; i < o[0].size(); i++) {
        auto &a = o[0][i], &b2 = o[1][i]; std::string w = i < (size_t)sends ? "send " + std::to_string(i + 1) + ": " : "whole run: ";
        if (a.rc != b2.rc) violate(w + "C returns " + std::to_string(a.rc) + ", C++ " + std::to_string(b2.rc)); if (a.log != b2.log) violate(w + "the logs differ"); if (a.set != b2.set) violate(w + "settings C " + a.set + " C++ " + b2.set);
        if (a.wire != b2.wire) { size_t p = 0; while (p < a.wire.size() && p < b2.wire.size() && a.wire[p] == b2.wire[p]) p++; p = p > 30 ? p - 30 : 0; violate(w + "different bytes on the wire: C " + esc(a.wire.substr(std::min(p, a.wire.size()), 80)) + " C++ " + esc(b2.wire.substr(std::min(p, b2.wire.size()), 80))); }
    }
    outcome("rc=" + std::to_string(o[0][0].rc)); keep.pop_back(); keep.pop_back(); W = nullptr;
}
void c23Texts();
static Reg rC23("C23", {
    {"configurations", [] { c23Body(0, 2, 1); }, 0, 0, "4 kinds x 5 credential settings x batch x 6 message shapes x certificates and opt-in, two sends"},
    {"offered mechanisms", [] { c23Body(0, 1, 2); }, 0, 0, "as above with 5 sets of offered mechanisms"},
    {"server deviations", [] { c23Body(M_REFUSE | M_SILENT | M_CLOSE | (thorough() ? M_MULTI | M_TLS : 0), 2, 0); }, 1, 1, "every basic deviation at every step of two sends, 4 kinds, all credential methods, batch"},
    {"texts", c23Texts, 0, 0, "every error message (both forms) for -1100..1100, server names and credentials of 40 lengths, unused logs"},
});
}  // namespace mc
