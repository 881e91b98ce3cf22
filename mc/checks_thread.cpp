// C24: clients used in different threads. Real threads run the real clients; a baton decides which one runs.
// Default build: the baton changes hands at environment calls. Thread build (MC_TSAN): the library is compiled with ThreadSanitizer
// and control-flow callbacks; the baton is invisible to the sanitizer, so that two unsynchronised accesses are reported in any schedule,
// and it can also change hands at every function entry or basic block of the library.
#include <cstring>
#include <map>
#include <locale>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdexcept>
#include "scen.h"
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "cpp/plaintextmessage.hpp"
#include "cpp/credential.hpp"
#include "cpp/smtpclient.hpp"
namespace mc {
namespace J = jed_utils; namespace P = jed_utils::cpp;
typedef std::string S;
static void note(const S &x) { EnvGuard g; scenarioNote(x); }

// ------------------------------------------------------------------ the baton
static const int MAXT = 3; enum { NONE, CALLS, CODE };
struct Sched { int n = 0, mode = NONE; bool entriesOnly = true; volatile int turn = -1; bool done[MAXT] = {}; uint64_t cnt[MAXT] = {}, at[MAXT] = {}; int switches = 0; };
static Sched *gS = nullptr;
static thread_local int tId = -1; static thread_local int noSwitch = 0;
static void waitTurn(int me) { for (;;) { int t = __atomic_load_n(&gS->turn, __ATOMIC_ACQUIRE); if (t == me) return; syscall(SYS_futex, &gS->turn, FUTEX_WAIT_PRIVATE, t, nullptr, nullptr, 0); } }
static void give(int to) { __atomic_store_n(&gS->turn, to, __ATOMIC_RELEASE); syscall(SYS_futex, &gS->turn, FUTEX_WAKE_PRIVATE, 1 << 20, nullptr, nullptr, 0); }
static void switchTo(int to) { int me = tId; gS->switches++; give(to); waitTurn(me); }
static void callPoint() {
    if (tId < 0 || !gS || gS->mode != CALLS || noSwitch) return; EnvGuard g; int o[MAXT], k = 0; for (int i = 0; i < gS->n; i++) if (i != tId && !gS->done[i]) o[k++] = i; if (!k) return;
    int c = dev(1 + k, "switch thread"); if (c) switchTo(o[c - 1]);
}
void codePoint(bool entry) {   // called at every function entry or basic block of the library
    if (tId < 0 || !gS || gS->mode != CODE || noSwitch || envDepth || (gS->entriesOnly && !entry)) return;
    uint64_t k = ++gS->cnt[tId]; if (k != gS->at[tId]) return; EnvGuard g; for (int i = 0; i < gS->n; i++) if (i != tId && !gS->done[i]) { switchTo(i); return; }
}
void lockDepth(int d) { if (tId >= 0) noSwitch += d; }   // a critical section runs as one step: a waiting thread would keep the baton
static void finished() { EnvGuard g; gS->done[tId] = true; int o[MAXT], k = 0; for (int i = 0; i < gS->n; i++) if (!gS->done[i]) o[k++] = i; if (k) { int c = gS->mode == CALLS ? pick(k, "next thread") : 0; give(o[c]); } }

// ------------------------------------------------------------------ what the threads do
struct Work { const char *name; int kind, api; bool cred, noTls, batch; int cert; bool self; int msg, sends; const char *host; int special; unsigned delay; };
enum { SP_NONE, SP_VALUES, SP_SHARED_MSG, SP_COPY, SP_REFUSE };
static const std::vector<Work> &works() {
    static const std::vector<Work> w{
        {"plain, attachment", PLAIN, 0, false, false, false, CERT_GOOD, false, 8, 1, "alpha.test", SP_NONE},
        {"plain C++ with credentials", PLAIN, 1, true, false, false, CERT_GOOD, false, 3, 1, "beta.test", SP_NONE},
        {"opportunistic without STARTTLS", OPP, 0, false, true, false, CERT_GOOD, false, 1, 1, "gamma.test", SP_NONE},
        {"opportunistic with credentials", OPP, 0, true, false, false, CERT_GOOD, false, 0, 1, "mail.test", SP_NONE},
        {"forced C++ with credentials, HTML, attachment", FORCED, 1, true, false, false, CERT_GOOD, false, 13, 1, "mail2.test", SP_NONE},
        {"plain, HTML, refused recipient", PLAIN, 0, false, false, false, CERT_GOOD, false, 6, 1, "delta.test", SP_REFUSE},
        {"plain batch, two messages", PLAIN, 0, true, false, true, CERT_GOOD, false, 0, 2, "epsilon.test", SP_NONE},
        {"opportunistic accepting a self-signed certificate", OPP, 0, false, false, false, CERT_SELF, true, 0, 1, "mail.test", SP_NONE},
        {"opportunistic refusing a self-signed certificate", OPP, 0, false, false, false, CERT_SELF, false, 0, 1, "mail.test", SP_NONE},
        {"values and error texts", PLAIN, 0, false, false, false, CERT_GOOD, false, 0, 0, "zeta.test", SP_VALUES},
        {"a message object shared by the threads", PLAIN, 0, false, false, false, CERT_GOOD, false, 0, 1, "eta.test", SP_SHARED_MSG},
        {"a copy of a common client", PLAIN, 1, true, false, false, CERT_GOOD, false, 0, 1, "theta.test", SP_COPY},
    };
    return w;
}
// objects made before the threads start
struct Shared { std::unique_ptr<J::PlaintextMessage> msg; std::unique_ptr<IClient> common; };
static Shared *gShared = nullptr;
static void makeShared() {
    gShared = new Shared; J::MessageAddress f("from@example.com", "From Name"), t[2] = {J::MessageAddress("to1@example.com", "To One"), J::MessageAddress("to2@example.com")}; gShared->msg.reset(new J::PlaintextMessage(f, t, 2, "Shared subject", "Shared body\r\n.dots\r\nend"));
    gShared->common.reset(newClient(PLAIN, 1, "theta.test", 2525)); gShared->common->setCred({"us3r.name", "S3cr3t-passw0rd", 0}); gShared->common->setTimeout(9);
}
struct Thr { const Work *w = nullptr; int id = 0; pthread_t t; S result; };
static S valuesText(int id) {
    S r; J::MessageAddress a(id ? "first.one@example.com" : "second-two@sub.example.org", id ? "One" : "Two"); r += (S)a; for (const char *bad : {"no address", "a@b", " "}) try { J::MessageAddress x(bad); r += "accepted"; } catch (std::invalid_argument &e) { r += e.what(); }
    P::MessageAddress p("third@example.com", S(100 + (size_t)id, 'n')); r += (S)p; J::Attachment t(id ? "/no/file.png" : "/no/file.TXT", "name", "cid"); r += t.getMimeType(); r += t.getName(); t.setContentId(id ? "x" : "yy"); r += t.getContentId(); J::Attachment t2(t); r += t2.getFilename();
    for (int c : {-1, -55, -98, 530, 12345}) { std::unique_ptr<char[]> m(J::SMTPClientBase::getErrorMessage(c + (c < 0 ? -id : id))); r += m.get(); char b[30]; r += std::to_string(J::SMTPClientBase::getErrorMessage_r(c, b, 10 + (size_t)id * 15)); r += b; r += P::SmtpClient::getErrorMessage(c - id); }
    J::Credential k(id ? "user" : "other", "pw"); k.setPassword(id ? "p1" : "p2"); r += k.getPassword(); J::HTMLMessage h(a, a, "subject", id ? "<b>" : "<i>", nullptr, nullptr, &t, 1); J::HTMLMessage h2(h); r += h2.getBody(); r += h2.getMimeType(); r += h2.getAttachments()[0]->getName(); J::SmtpClient c("x.test", 25); c.setCredentials(k); J::SmtpClient d(c); r += d.getServerName(); r += d.getCredentials()->getUsername(); r += d.getCommunicationLog(); return r;
}
static S seen(Run &r) { S o = transcriptOf(r, 0); for (auto &t : r.w.txns) o += "\nMAIL from " + t.from + (t.accepted ? " accepted\n" : " not accepted\n") + t.data; for (auto &q : r.w.recs) o += q.host + "/" + std::to_string(q.ip) + ":" + std::to_string(q.port) + (q.tlsErr.empty() ? "" : " " + q.tlsErr) + "\n"; for (auto &p : r.w.problems) o += "PROBLEM " + p + "\n"; for (auto &p : r.w.protocol) o += "PROTOCOL " + p + "\n"; return o; }
static S body(const Work &k, int id) {
    S res; { EnvGuard g; res = S(k.name) + ": "; } Scn s; { EnvGuard g; s = scn(k.kind, k.api, k.cred, k.batch); s.host = k.host; s.port = 2525 + (unsigned)id; s.self = k.self; s.srv.cert = k.cert; if (k.noTls) s.srv.ehloPlain = {"SIZE 1000", "AUTH PLAIN"}; s.cred.user += std::to_string(id); }
    Run r(s); { EnvGuard g; r.w.fdBase = 700 + 60 * id; r.w.nextFd = r.w.fdBase; r.w.hosts[s.host] = 0x0a000050 + (unsigned)id; r.w.onSyscall = callPoint; if (k.special == SP_REFUSE) r.w.decide = [](StepCtx &c, Reply &x) { if (c.step == S_RCPT && c.idx == 1) { x.code = 550; x.text = "550 no such user\r\n"; x.effect = false; } }; }
    if (k.special == SP_VALUES) { S v = valuesText(id); EnvGuard g; return res + v; }
    if (k.special == SP_SHARED_MSG) { J::SmtpClient c(k.host, s.port); r.w.beginSend(); int rc = c.sendMail(*gShared->msg); EnvGuard g; r.w.endSend(); res += std::to_string(rc) + " " + seen(r) + (c.getCommunicationLog() ? c.getCommunicationLog() : ""); return res; }
    std::unique_ptr<IClient> c; if (k.special == SP_COPY) c.reset(gShared->common->copy()); else c.reset(make(s));
    S logs; for (int i = 0; i < k.sends; i++) { MsgSpec m; { EnvGuard g; m = msgOf(k.msg, 1 + i + 10 * id); } SendRes x = r.send(c.get(), m); EnvGuard g; logs += "\n== " + std::to_string(x.rc) + "\n" + x.log; }
    S st = settingsOf(*c); r.dtor(c); EnvGuard g; res += outcomeText(r) + " | " + st + logs + "\n" + seen(r); return res;
}

// ------------------------------------------------------------------ one schedule
static void *threadMain(void *p) {
    Thr *t = (Thr *)p; { EnvGuard g; tId = t->id; noSwitch = 0; waitTurn(tId); } try { t->result = body(*t->w, t->id); } catch (std::exception &e) { EnvGuard g; t->result = S("exception ") + e.what(); } catch (...) { EnvGuard g; t->result = "exception"; }
    EnvGuard g; W = nullptr; finished(); tId = -1; return nullptr;
}
static uint64_t runSched(Sched &sc, std::vector<Thr> &th, int first) {   // returns the number of code points the first thread passed
    gS = &sc; sc.n = (int)th.size(); for (auto &t : th) pthread_create(&t.t, nullptr, threadMain, &t); { EnvGuard g; give(first); } for (auto &t : th) pthread_join(t.t, nullptr); gS = nullptr; return sc.cnt[first];
}
static const S &alone(int work, int id) {   // the same work in a single thread
    static std::map<std::pair<int, int>, S> known; EnvGuard g; auto k = std::make_pair(work, id); auto i = known.find(k); if (i != known.end()) return i->second; std::vector<Thr> th(1); th[0].w = &works()[(size_t)work]; Sched sc; th[0].id = id; for (int j = 0; j < id; j++) sc.done[j] = true;
    gS = &sc; sc.n = id + 1; pthread_create(&th[0].t, nullptr, threadMain, &th[0]); give(id); pthread_join(th[0].t, nullptr); gS = nullptr; return known[k] = th[0].result;
}
static S differs(const S &a, const S &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t f = i > 60 ? i - 60 : 0; return "..." + esc(a.substr(f, 140)) + " instead of ..." + esc(b.substr(f, 140)); }
static bool judgeThreads(std::vector<Thr> &th, const std::vector<int> &wk, const S &how) {
    EnvGuard g; for (size_t i = 0; i < th.size(); i++) { const S &w = alone(wk[i], (int)i); if (th[i].result != w) { violate("thread " + std::to_string(i) + " (" + works()[(size_t)wk[i]].name + ") behaves differently from alone" + how + ": " + differs(th[i].result, w)); return false; } } return true;
}
static std::vector<Thr> threadsOf(const std::vector<int> &wk) { std::vector<Thr> t(wk.size()); for (size_t i = 0; i < wk.size(); i++) { t[i].id = (int)i; t[i].w = &works()[(size_t)wk[i]]; } return t; }
static S names(const std::vector<int> &wk) { S d; for (int k : wk) d += S(d.empty() ? "" : " || ") + works()[(size_t)k].name; return d; }
static void calls(const std::vector<int> &wk) {
    note(names(wk)); if (!gShared) { EnvGuard g; makeShared(); } for (size_t i = 0; i < wk.size(); i++) alone(wk[i], (int)i); Sched sc; sc.mode = CALLS; auto th = threadsOf(wk); int first = pick((int)wk.size(), "first thread"); runSched(sc, th, first);
    judgeThreads(th, wk, ""); EnvGuard g; outcome(names(wk) + " switches " + std::to_string(sc.switches)); for (auto &t : th) addState(hstr(t.result));
}
static std::vector<int> pairOf(const std::vector<int> &a, const std::vector<int> &b) { std::vector<int> r; r.push_back(a[(size_t)pick((int)a.size(), "first")]); r.push_back(b[(size_t)pick((int)b.size(), "second")]); return r; }
static const std::vector<int> ALLW{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, PLAINW{0, 1, 2, 5, 6, 9, 10, 11}, TLSW{3, 4, 7, 8};
#ifndef MC_TSAN
static Reg rC24("C24", {
    {"pairs", [] { calls(pairOf(ALLW, ALLW)); }, 1, 1, "two threads: all 144 pairs of 12 works (six client classes, credentials, refusals, batch, certificates, shared message, common client, values); every schedule with at most 1 forced switch at an environment call"},
    {"plain pairs", [] { calls(pairOf({0, 2, 6}, {0, 1, 5})); }, -1, 2, "9 pairs of clients without TLS, at most 2 forced switches"},
    {"two plain", [] { calls(pairOf({0}, {1})); }, 2, 3, "two plain clients, at most 2 (3) forced switches"},
    {"two secure", [] { calls(pairOf({3, 7}, {8, 4})); }, -1, 2, "secure clients with different certificates, at most 2 forced switches"},
    {"three threads", [] { std::vector<int> w = pairOf({0, 3}, {1, 4}); w.push_back(pick(2, "third") ? 2 : 8); calls(w); }, -1, 1, "three threads, at most 1 forced switch"},
});
#else
// ------------------------------------------------------------------ first use: every schedule in a process of its own, where no code of the library has run before
static void warmCtype() { auto &f = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 0; c < 256; c++) { f.narrow((char)c, 0); f.widen((char)c); } }   // caches inside libstdc++ itself, which are not the library's
struct Cold { bool ok = false; uint64_t points = 0; S text; };
static Cold inChild(const std::vector<int> &wk, int first, uint64_t at) {
    EnvGuard g; Cold c; int fd[2]; if (pipe(fd)) { violate("harness: pipe"); return c; } S err = S(gScratch) + "/first" + std::to_string(getpid()) + ".err"; fflush(nullptr); pid_t pid = fork();
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); warmCtype(); int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2); for (int k : wk) if (works()[(size_t)k].special == SP_SHARED_MSG || works()[(size_t)k].special == SP_COPY) { makeShared(); break; }
        Sched sc; sc.mode = CODE; sc.at[first] = at; auto th = threadsOf(wk); int depth = envDepth; envDepth = 0; tsanIgnore(false); runSched(sc, th, first); tsanIgnore(true); envDepth = depth; S out = std::to_string(sc.cnt[first]) + "\n"; for (size_t i = 0; i < wk.size(); i++) { const S &w = alone(wk[i], (int)i); if (th[i].result != w) { out += "thread " + std::to_string(i) + " (" + works()[(size_t)wk[i]].name + ") behaves differently from alone on first use: " + differs(th[i].result, w); break; } }
        for (size_t p = 0; p < out.size();) { ssize_t n = syscall(SYS_write, fd[1], out.data() + p, out.size() - p); if (n <= 0) break; p += (size_t)n; } syscall(SYS_exit_group, 0);
    }
    syscall(SYS_close, fd[1]); S in; char b[4096]; ssize_t n; while ((n = syscall(SYS_read, fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) in.append(b, (size_t)n); syscall(SYS_close, fd[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    S rep = readFile(err); unlink(err.c_str()); if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !in.empty()) { c.ok = true; c.points = strtoull(in.c_str(), nullptr, 10); size_t q = in.find('\n'); c.text = in.substr(q + 1); }
    else { size_t q = rep.find("SUMMARY: "); c.text = q == S::npos ? "process terminated (status " + std::to_string(st) + ") " + rep.substr(0, 300) : rep.substr(q, rep.find('\n', q) - q); }
    return c;
}
static void coldPair(const std::vector<int> &wk) { note("first use: " + names(wk)); int first = pick((int)wk.size(), "first thread"); Cold c = inChild(wk, first, 0); if (!c.text.empty()) violate(c.text); EnvGuard g; outcome(names(wk)); countEval(1, 0); }
static void coldCode(const std::vector<int> &wk, int block) {
    note("first use: " + names(wk)); static std::map<std::vector<int>, uint64_t> len; uint64_t N; { EnvGuard g; if (!len.count(wk)) len[wk] = inChild(wk, 0, 0).points; N = len[wk]; }
    uint64_t b = (uint64_t)pick((int)std::max<uint64_t>(1, std::min<uint64_t>((N + (uint64_t)block - 1) / (uint64_t)block, 60000)), "block of function entries"), n = 0;
    for (uint64_t k = b * (uint64_t)block + 1; k <= std::min(N, (b + 1) * (uint64_t)block); k++, n++) { Cold c = inChild(wk, 0, k); if (!c.text.empty()) { violate(c.text + " (interrupted at function entry " + std::to_string(k) + ")"); break; } }
    EnvGuard g; countEval(n, 0); outcome(names(wk));
}
static Reg rC24first("C24first", {
    {"races: first use", [] { coldPair(pairOf(ALLW, ALLW)); }, 0, 0, "all 144 pairs of works, in both orders, each in a new process in which the library has not been used before, under ThreadSanitizer: initialisation on first use"},
    {"races: first use, function entries", [] { coldCode(pick(2, "second") ? std::vector<int>{9, 9} : std::vector<int>{1, 5}, 10); }, -1, 0, "2 pairs of works: the first thread is interrupted at every function entry of the library, each time in a new process"},
});
extern "C" const char *__tsan_default_options() { return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0:history_size=4:report_thread_leaks=0:memory_limit_mb=3000:flush_memory_ms=0"; }
extern "C" const char *__tsan_default_suppressions() { return "called_from_lib:libcrypto.so\ncalled_from_lib:libssl.so\n"; }
static void code(const std::vector<int> &wk, bool entries, int block) {   // all schedules that switch once, within a block of code points of the first thread
    note(names(wk)); if (!gShared) { EnvGuard g; makeShared(); } for (size_t i = 0; i < wk.size(); i++) alone(wk[i], (int)i);
    static std::map<std::pair<std::vector<int>, bool>, uint64_t> len; uint64_t N; { EnvGuard g; auto k = std::make_pair(wk, entries); if (!len.count(k)) { Sched sc; sc.mode = CODE; sc.entriesOnly = entries; auto th = threadsOf(wk); len[k] = runSched(sc, th, 0); } N = len[k]; }
    uint64_t nb = (N + (uint64_t)block - 1) / (uint64_t)block; uint64_t b = (uint64_t)pick((int)std::min<uint64_t>(nb, 60000), "block of code points"), n = 0;
    for (uint64_t k = b * (uint64_t)block + 1; k <= std::min(N, (b + 1) * (uint64_t)block); k++, n++) { Sched sc; sc.mode = CODE; sc.entriesOnly = entries; sc.at[0] = k; auto th = threadsOf(wk); runSched(sc, th, 0); if (!judgeThreads(th, wk, " when interrupted at code point " + std::to_string(k))) break; }
    EnvGuard g; countEval(n, 0); outcome(names(wk));
}
static void code2(const std::vector<int> &wk, int block) {   // the first thread is interrupted at one function entry, the second at another
    note(names(wk)); if (!gShared) { EnvGuard g; makeShared(); } for (size_t i = 0; i < wk.size(); i++) alone(wk[i], (int)i);
    static std::map<std::vector<int>, std::pair<uint64_t, uint64_t>> len; uint64_t N, M; { EnvGuard g; if (!len.count(wk)) { Sched sc; sc.mode = CODE; auto th = threadsOf(wk); runSched(sc, th, 0); len[wk] = {sc.cnt[0], sc.cnt[1]}; } N = len[wk].first; M = len[wk].second; }
    uint64_t k = 1 + (uint64_t)pick((int)std::min<uint64_t>(N, 60000), "first interruption"), b = (uint64_t)pick((int)((M + (uint64_t)block - 1) / (uint64_t)block), "block of second interruptions"), n = 0;
    for (uint64_t m = b * (uint64_t)block + 1; m <= std::min(M, (b + 1) * (uint64_t)block); m++, n++) { Sched sc; sc.mode = CODE; sc.at[0] = k; sc.at[1] = m; auto th = threadsOf(wk); runSched(sc, th, 0); if (!judgeThreads(th, wk, " when interrupted at code points " + std::to_string(k) + " and " + std::to_string(m))) break; }
    EnvGuard g; countEval(n, 0); outcome(names(wk));
}
static Reg rC24("C24", {
    {"races: pairs", [] { calls(pairOf(ALLW, ALLW)); }, 0, 1, "all 144 pairs of works under ThreadSanitizer, in every order with at most 0 (1) forced switches at environment calls; any two unsynchronised accesses to the same data are reported"},
    {"races: function entries", [] { std::vector<int> w = pick(2, "second") ? std::vector<int>{9, 9} : pairOf(tierSel(0, 1) ? std::vector<int>{0, 1, 2, 6, 10, 11} : std::vector<int>{0, 1, 2}, {5}); code(w, true, 20); }, 0, 0, "clients without TLS (3; thorough 6 pairs) and value objects: the first thread is interrupted at every function entry of the library (one switch)"},
    {"races: function entries, TLS", [] { code(pairOf({3, 4, 7}, {8, 4}), true, 20); }, -1, 0, "6 pairs with TLS: interrupted at every function entry"},
    {"races: basic blocks", [] { code(pairOf({0, 1, 9}, {0, 5}), false, 100); }, -1, 0, "6 pairs: interrupted at every basic block of the library"},
    {"races: two interruptions", [] { code2(pairOf({0}, {5}), 100); }, -1, 0, "two plain clients, both interrupted at every pair of function entries"},
});
#endif
}  // namespace mc
