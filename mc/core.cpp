#include "core.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
const char *gScratch = "/tmp";
std::vector<Check> &registry() { static std::vector<Check> r; return r; }
uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

// ------------------------------------------------------------------ one execution
struct TEnt { uint16_t n, chosen; uint8_t isDev; const char *label; };
struct Shm {                                   // survives the death of a worker
    uint32_t prefixLen; uint16_t prefix[4096];
    uint32_t traceLen; struct { uint16_t n, c; uint8_t d; char label[32]; } trace[4096];
    uint32_t phase;
    char hang[512]; char note[4096]; uint32_t wireLen; char wire[1 << 18];
    uint32_t inExec, verbose;
};
static Shm *shm = nullptr;
static std::vector<uint16_t> curPrefix;
static std::vector<TEnt> trace_;
static int curBound = 0, curDevs = 0, curPhase = 0;
static bool gLong = false, gThorough = false, gReplay = false, nondet = false;
static std::vector<std::string> curViol; static std::string curNote; static std::vector<std::string> curOutcomes;
static uint64_t curEvals = 0, curStates = 0;
static std::unordered_set<uint64_t> seenStates; static std::vector<uint64_t> newStates;
static int passNo = 0; static bool rerun = false;
static std::string curTranscript;

bool thorough() { return gThorough; }
bool replaying() { return gReplay; }
int executionPass() { return passNo; }
void requestRerun() { rerun = true; }
bool devLeft() { return trace_.size() < curPrefix.size() || curDevs < curBound; }
void addState(uint64_t h) { if (seenStates.insert(h).second) newStates.push_back(h); }
void countEval(uint64_t n, uint64_t s) { curEvals += n; curStates += s; }
void outcome(const std::string &s) { EnvGuard g; curOutcomes.push_back(s); }
void scenarioNote(const std::string &s) { EnvGuard g; if (!curNote.empty()) curNote += "; "; curNote += s; snprintf(shm->note, sizeof shm->note, "%s", curNote.c_str()); }
static void captureTranscript() { if (W) { curTranscript.clear(); for (auto &l : W->wire) { curTranscript += l; curTranscript += '\n'; } } }
void violate(const std::string &m) { EnvGuard g; if (curViol.size() < 8) curViol.push_back(m); captureTranscript(); }
static int choose(int n, const char *label, bool d) {
    if (n <= 1) return 0;
    EnvGuard g;
    size_t i = trace_.size(); int c = 0;
    if (i >= 4096) { nondet = true; return 0; }
    if (i < curPrefix.size()) { c = curPrefix[i]; if (c >= n) { nondet = true; c = 0; } }
    if (d && c) curDevs++;
    trace_.push_back({(uint16_t)n, (uint16_t)c, (uint8_t)d, label});
    auto &e = shm->trace[i]; e.n = (uint16_t)n; e.c = (uint16_t)c; e.d = d; snprintf(e.label, sizeof e.label, "%s", label); shm->traceLen = (uint32_t)i + 1;
    return c;
}
int pick(int n, const char *label) { return choose(n, label, false); }
int dev(int n, const char *label) { return choose(n, label, true); }
void wireSink(const std::string &s) {
    if (!shm || !shm->verbose) return;
    size_t n = std::min(s.size() + 1, sizeof(shm->wire) - shm->wireLen - 1); if (n < 2) return;
    memcpy(shm->wire + shm->wireLen, s.data(), n - 1); shm->wire[shm->wireLen + n - 1] = '\n'; shm->wireLen += (uint32_t)n; shm->wire[shm->wireLen] = 0;
}
[[noreturn]] void fatalHang(const std::string &why) {
    EnvGuard g;
    snprintf(shm->hang, sizeof shm->hang, "%s", why.c_str()); _exit(78);
}
static void onProf(int) { const char m[] = "the client uses CPU time without end"; memcpy(shm->hang, m, sizeof m); _exit(78); }
static void onAlarm(int) { const char m[] = "the client is blocked for ever (deadlock)"; memcpy(shm->hang, m, sizeof m); _exit(78); }

static void armTimers(int cpu, int real) {
    itimerval t{{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &t, nullptr);
    itimerval r{{0, 0}, {real, 0}}; setitimer(ITIMER_REAL, &r, nullptr);
}
static void runOnce(const Phase &p, int phase, const std::vector<uint16_t> &prefix, int bound) {
    curPrefix = prefix; curBound = bound; curPhase = phase; passNo = 0;
    shm->phase = phase; shm->prefixLen = (uint32_t)std::min<size_t>(prefix.size(), 4096);
    for (size_t i = 0; i < shm->prefixLen; i++) shm->prefix[i] = prefix[i];
    shm->hang[0] = 0; shm->inExec = 1;
    do {
        rerun = false; nondet = false; trace_.clear(); curDevs = 0; curViol.clear(); curOutcomes.clear(); curNote.clear(); curEvals = curStates = 0; shm->note[0] = 0;
        curTranscript.clear(); shm->traceLen = 0; shm->wireLen = 0;
        armTimers(gLong ? 60 : 20, gLong ? 120 : 60);
        try { p.body(); } catch (std::exception &e) { W = nullptr; violate(std::string("exception reached the caller of the library: ") + e.what()); }
        catch (...) { W = nullptr; violate("exception reached the caller of the library"); }
        passNo++;
    } while (rerun && passNo < 12);
    armTimers(0, 0);
    shm->inExec = 0;
}

// ------------------------------------------------------------------ serialisation
struct Buf {
    std::string s; size_t p = 0;
    void u(uint64_t v) { s.append((char *)&v, 8); }
    uint64_t u() { uint64_t v; memcpy(&v, s.data() + p, 8); p += 8; return v; }
    void str(const std::string &x) { u(x.size()); s += x; }
    std::string str() { size_t n = u(); std::string r = s.substr(p, n); p += n; return r; }
    void vec(const std::vector<uint16_t> &v) { u(v.size()); s.append((const char *)v.data(), v.size() * 2); }
    std::vector<uint16_t> vec() { size_t n = u(); std::vector<uint16_t> v(n); if (n) memcpy(v.data(), s.data() + p, n * 2); p += n * 2; return v; }
};
static bool wr(int fd, const char *p, size_t n) { while (n) { ssize_t k = syscall(SYS_write, fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= k; } return true; }
static bool rd(int fd, char *p, size_t n) { while (n) { ssize_t k = syscall(SYS_read, fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= k; } return true; }
static bool sendBuf(int fd, const Buf &b) { uint64_t n = b.s.size(); return wr(fd, (char *)&n, 8) && wr(fd, b.s.data(), n); }
static bool recvBuf(int fd, Buf &b) { uint64_t n; if (!rd(fd, (char *)&n, 8)) return false; b.s.resize(n); b.p = 0; return rd(fd, &b.s[0], n); }

struct Item { int phase; std::vector<uint16_t> prefix; };
struct Viol { int phase; std::vector<uint16_t> choices; std::vector<std::string> labels; std::string msg, note, transcript; std::vector<Item> hist; };

static std::string msgClass(const std::string &m) { std::string r; for (char c : m) { if (c >= '0' && c <= '9') { if (r.empty() || r.back() != '#') r += '#'; } else r += c; if (r.size() > 90) break; } return r; }
static std::vector<uint16_t> chosen() { std::vector<uint16_t> v; for (auto &e : trace_) v.push_back(e.chosen); return v; }
static std::vector<std::string> labels() { std::vector<std::string> v; for (auto &e : trace_) v.push_back(std::string(e.label) + "=" + std::to_string(e.chosen) + "/" + std::to_string(e.n)); return v; }

[[noreturn]] static void workerMain(const Check &chk, int fd, const std::vector<int> &bounds) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPROF, onProf); signal(SIGALRM, onAlarm); signal(SIGPIPE, SIG_DFL);
    std::vector<Item> past; std::map<std::string, int> told;   // everything this process has executed
    for (;;) {
        Buf in; if (!recvBuf(fd, in)) _exit(0);
        uint64_t single = in.u(); uint64_t n = in.u(); gLong = single == 2; shm->verbose = single == 2 && n == 1;
        std::vector<Item> st;
        for (uint64_t i = 0; i < n; i++) { Item it; it.phase = (int)in.u(); it.prefix = in.vec(); st.push_back(it); }
        if (single == 2) for (; st.size() > 1; st.erase(st.begin(), st.begin() + (ssize_t)st.size() - 1)) { for (size_t i = 0; i + 1 < st.size(); i++) runOnce(chk.phases[st[i].phase], st[i].phase, st[i].prefix, bounds[st[i].phase]); shm->verbose = 1; }
        Buf out; uint64_t execs = 0, trans = 0, evals = 0, bulk = 0, nd = 0, maxLen = 0; std::vector<Viol> vs; std::map<std::string, uint64_t> outs; std::vector<std::string> samples;
        ns_t t0 = realNowNs(); newStates.clear();
        std::vector<uint64_t> perPhase(chk.phases.size(), 0);
        while (!st.empty()) {
            Item it = st.back(); st.pop_back();
            runOnce(chk.phases[it.phase], it.phase, it.prefix, bounds[it.phase]);
            execs++; perPhase[it.phase]++; evals += curEvals; bulk += curStates; trans += trace_.size(); maxLen = std::max<uint64_t>(maxLen, trace_.size());
            for (auto &o : curOutcomes) outs[o]++;
            if (nondet) nd++;
            if (!curNote.empty() && samples.size() < 2) samples.push_back(chk.phases[it.phase].name + ": " + curNote + (curOutcomes.empty() ? "" : " => " + curOutcomes.back()));
            int devs = 0;
            std::vector<uint16_t> cur = chosen();
            for (auto &m : curViol) if (vs.size() < 40) { vs.push_back({it.phase, cur, labels(), m, curNote, curTranscript, {}}); if (!single && past.size() < 60000 && told.size() < 12 && told[msgClass(m)]++ < 2) vs.back().hist = past; }
            if (past.size() < 60000) past.push_back({it.phase, cur});
            // children: change one later default decision
            std::vector<Item> kids;
            for (size_t i = 0; i < trace_.size(); i++) {
                if (i >= it.prefix.size()) {
                    if (!trace_[i].isDev || devs < bounds[it.phase])
                        for (int a = 1; a < trace_[i].n; a++) { Item k{it.phase, std::vector<uint16_t>(cur.begin(), cur.begin() + i)}; k.prefix.push_back((uint16_t)a); kids.push_back(std::move(k)); }
                }
                if (trace_[i].isDev && trace_[i].chosen) devs++;
            }
            for (auto &k : kids) st.push_back(std::move(k));
            if (single || realNowNs() - t0 > 30 * MS) break;
        }
        out.u(execs); out.u(trans); out.u(evals); out.u(bulk); out.u(nd); out.u(maxLen);
        for (auto x : perPhase) out.u(x);
        out.u(newStates.size()); for (auto h : newStates) out.u(h);
        out.u(outs.size()); for (auto &o : outs) { out.str(o.first); out.u(o.second); }
        out.u(samples.size()); for (auto &s : samples) out.str(s);
        out.u(vs.size()); for (auto &v : vs) { out.u(v.phase); out.vec(v.choices); out.u(v.labels.size()); for (auto &l : v.labels) out.str(l); out.str(v.msg); out.str(v.note); out.str(v.transcript); out.u(v.hist.size()); for (auto &h : v.hist) { out.u(h.phase); out.vec(h.prefix); } }
        out.u(st.size()); for (auto &it : st) { out.u(it.phase); out.vec(it.prefix); }
        if (!sendBuf(fd, out)) _exit(0);
    }
}

// ------------------------------------------------------------------ parent
struct Worker { pid_t pid = -1; int fd = -1; Shm *sh = nullptr; std::vector<Item> batch; bool busy = false; int mode = 0; std::string errFile; };
static std::string jesc(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static std::string slurp(const std::string &f, size_t max) { std::string r; FILE *p = fopen(f.c_str(), "r"); if (!p) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0 && r.size() < max) r.append(b, n); fclose(p); return r; }
static void spawn(Worker &w, const Check &c, const std::vector<int> &bounds, int idx, std::vector<Worker> &all) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
    if (!w.sh) w.sh = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)w.sh, 0, 1024);
    w.errFile = std::string(gScratch) + "/worker" + std::to_string(idx) + ".err";
    w.sh->traceLen = w.sh->prefixLen = w.sh->inExec = w.sh->verbose = w.sh->wireLen = 0; w.sh->hang[0] = w.sh->note[0] = 0;
    fflush(nullptr);
    w.pid = fork();
    if (w.pid == 0) {
        for (auto &o : all) if (o.fd >= 0) syscall(SYS_close, o.fd);
        syscall(SYS_close, sv[0]); shm = w.sh;
        int e = open(w.errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(e, 2); dup2(e, 1); syscall(SYS_close, e);
        workerMain(c, sv[1], bounds);
    }
    syscall(SYS_close, sv[1]); w.fd = sv[0]; w.busy = false; w.batch.clear();
}
// a short, stable description of why a worker died
static std::string deathReason(int status, const Worker &w) {
    if (w.sh->hang[0]) return std::string("does not return: ") + w.sh->hang;
    std::string err = slurp(w.errFile, 1 << 20);
    std::string r;
    auto grab = [&](const char *key, size_t max) { size_t p = err.find(key); if (p == std::string::npos) return std::string(); size_t e = err.find('\n', p); return err.substr(p, std::min(max, e - p)); };
    std::string s = grab("SUMMARY: ", 300); if (s.empty()) s = grab("runtime error:", 300);
    if (s.empty()) s = grab("ERROR: ", 200);
    if (WIFSIGNALED(status)) { r = std::string("process terminated by signal ") + strsignal(WTERMSIG(status)); if (WTERMSIG(status) == SIGABRT) { std::string t = grab("terminate called", 200); if (t.empty()) t = grab("what():", 200); if (!t.empty()) r += " (" + t + ")"; } }
    else r = "process terminated (exit status " + std::to_string(WEXITSTATUS(status)) + ")";
    if (!s.empty()) r += ": " + s;
    return r;
}

struct RunResult { std::vector<Viol> viols; };

static int mainRun(const std::string &id, int jobs, const std::string &outFile, const std::string &replayDir, int maxTime) {
    const Check *chk = nullptr; for (auto &c : registry()) if (c.id == id) chk = &c;
    if (!chk) { fprintf(stderr, "no check %s\n", id.c_str()); return 3; }
    std::vector<int> bounds; for (auto &p : chk->phases) bounds.push_back(gThorough ? p.boundThorough : p.boundQuick);
    std::deque<Item> queue;
    for (size_t i = 0; i < chk->phases.size(); i++) if (bounds[i] >= 0) queue.push_back({(int)i, {}});
    std::vector<Worker> ws(jobs);
    for (int i = 0; i < jobs; i++) spawn(ws[i], *chk, bounds, i, ws);
    uint64_t execs = 0, trans = 0, evals = 0, bulk = 0, nd = 0, maxLen = 0, unrepro = 0, violExecs = 0, deaths = 0; std::unordered_set<uint64_t> states; std::map<std::string, uint64_t> outs; std::vector<std::string> samples;
    std::vector<uint64_t> perPhase(chk->phases.size(), 0);
    std::vector<Viol> cand; std::map<std::string, int> classes; std::deque<Item> singles; bool stop = false, truncated = false; ns_t t0 = realNowNs();
    auto addCand = [&](const Viol &v) { violExecs++; int &k = classes[std::to_string(v.phase) + msgClass(v.msg)]; if (k < 2 && cand.size() < 40) { k++; cand.push_back(v); } if (violExecs > 400) stop = true; };
    auto dispatch = [&](Worker &w) {
        w.batch.clear(); w.mode = 0;
        if (!singles.empty()) { w.batch.push_back(singles.back()); singles.pop_back(); w.mode = 1; }
        else { // share work evenly, depth first
            size_t n = std::max<size_t>(1, std::min<size_t>(256, queue.size() / (jobs * 2)));
            while (n-- && !queue.empty()) { w.batch.push_back(queue.back()); queue.pop_back(); }
        }
        if (w.batch.empty()) return;
        Buf b; b.u(w.mode); b.u(w.batch.size()); for (auto &it : w.batch) { b.u(it.phase); b.vec(it.prefix); }
        w.busy = true; sendBuf(w.fd, b);
    };
    for (;;) {
        if (!stop && (realNowNs() - t0) / SEC > maxTime) { stop = true; truncated = true; }
        if (!stop) for (auto &w : ws) if (!w.busy) dispatch(w);
        std::vector<pollfd> pf; std::vector<int> idx;
        for (int i = 0; i < jobs; i++) if (ws[i].busy) { pf.push_back({ws[i].fd, POLLIN, 0}); idx.push_back(i); }
        if (pf.empty()) break;
        poll(pf.data(), pf.size(), 2000);
        for (size_t k = 0; k < pf.size(); k++) {
            if (!pf[k].revents) continue;
            Worker &w = ws[idx[k]]; Buf b;
            if (recvBuf(w.fd, b)) {
                w.busy = false;
                execs += b.u(); trans += b.u(); evals += b.u(); bulk += b.u(); nd += b.u(); maxLen = std::max(maxLen, b.u());
                for (auto &x : perPhase) x += b.u();
                for (uint64_t n = b.u(); n; n--) states.insert(b.u());
                for (uint64_t n = b.u(); n; n--) { std::string s = b.str(); uint64_t c = b.u(); if (outs.size() < 20000 || outs.count(s)) outs[s] += c; }
                for (uint64_t n = b.u(); n; n--) { std::string s = b.str(); if (samples.size() < 400) samples.push_back(s); }
                for (uint64_t n = b.u(); n; n--) { Viol v; v.phase = (int)b.u(); v.choices = b.vec(); for (uint64_t m = b.u(); m; m--) v.labels.push_back(b.str()); v.msg = b.str(); v.note = b.str(); v.transcript = b.str(); for (uint64_t m = b.u(); m; m--) { Item h; h.phase = (int)b.u(); h.prefix = b.vec(); v.hist.push_back(std::move(h)); } addCand(v); }
                for (uint64_t n = b.u(); n; n--) { Item it; it.phase = (int)b.u(); it.prefix = b.vec(); (w.mode == 1 && false ? singles : queue).push_back(std::move(it)); }
            } else {   // the worker died
                int st; waitpid(w.pid, &st, 0); syscall(SYS_close, w.fd); w.fd = -1; deaths++;
                if (w.mode == 1 || w.batch.size() == 0) {
                    Viol v; v.phase = w.batch.empty() ? 0 : w.batch[0].phase; v.msg = deathReason(st, w); v.note = w.sh->note;
                    std::vector<Item> kids; int devs = 0; size_t plen = w.batch.empty() ? 0 : w.batch[0].prefix.size();
                    for (uint32_t i = 0; i < w.sh->traceLen; i++) {
                        auto &e = w.sh->trace[i];
                        if (i >= plen && (!e.d || devs < bounds[v.phase])) for (int a = 1; a < e.n; a++) { Item it{v.phase, v.choices}; it.prefix.push_back((uint16_t)a); kids.push_back(it); }
                        v.choices.push_back(e.c); v.labels.push_back(std::string(e.label) + "=" + std::to_string(e.c) + "/" + std::to_string(e.n)); if (e.d && e.c) devs++;
                    }
                    addCand(v); if (deaths > 40) stop = true;
                    execs++; perPhase[v.phase]++;
                    for (auto &it : kids) queue.push_back(it);
                } else for (auto &it : w.batch) singles.push_back(it);
                spawn(w, *chk, bounds, idx[k], ws);
                // batches that died are repeated one execution at a time
            }
        }
    }
    // ---- replay every candidate in a fresh process before reporting it
    std::vector<Viol> conf; std::map<std::string, int> cc;
    // candidates that end by themselves first: a hang takes its whole time limit to confirm
    std::stable_sort(cand.begin(), cand.end(), [](const Viol &a, const Viol &b) { return (a.msg.rfind("does not return", 0) == 0) < (b.msg.rfind("does not return", 0) == 0); });
    ns_t tc = realNowNs();
    auto repeat = [&](const Viol &v, const Item *hist, size_t nh, Viol &best) {   // the executions of `hist`, then the candidate, in a fresh process
        Worker w; spawn(w, *chk, bounds, 1000, ws);
        Buf b; b.u(2); b.u(nh + 1); for (size_t i = 0; i < nh; i++) { b.u(hist[i].phase); b.vec(hist[i].prefix); } b.u(v.phase); b.vec(v.choices); sendBuf(w.fd, b);
        Buf r; bool ok = false; best = v; best.hist.assign(hist, hist + nh);
        if (recvBuf(w.fd, r)) {
            for (int i = 0; i < 6; i++) r.u();
            for (size_t i = 0; i < perPhase.size(); i++) r.u();
            for (uint64_t n = r.u(); n; n--) r.u();
            for (uint64_t n = r.u(); n; n--) { r.str(); r.u(); }
            for (uint64_t n = r.u(); n; n--) r.str();
            for (uint64_t n = r.u(); n; n--) { Viol x; x.phase = (int)r.u(); x.choices = r.vec(); for (uint64_t m = r.u(); m; m--) x.labels.push_back(r.str()); x.msg = r.str(); x.note = r.str(); x.transcript = r.str(); for (uint64_t m = r.u(); m; m--) { r.u(); r.vec(); } x.hist = best.hist; if (!ok || msgClass(x.msg) == msgClass(v.msg)) best = x; ok = true; }
            kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0);
        } else { int st; waitpid(w.pid, &st, 0); ok = true; best.msg = deathReason(st, w); best.transcript = w.sh->wire; best.note = w.sh->note;
            std::string err = slurp(w.errFile, 6000); best.transcript += "\n---- process output ----\n" + err; if (nh && msgClass(best.msg) != msgClass(v.msg)) ok = false; }
        syscall(SYS_close, w.fd); munmap((void *)w.sh, sizeof(Shm)); return ok;
    };
    size_t tried = 0;
    for (size_t i = 0; i < cand.size() * 2; i++) {
        auto &v = cand[i % cand.size()]; if (conf.size() >= 12 || (!conf.empty() && (tried >= cand.size() || realNowNs() - tc > 60 * SEC)) || realNowNs() - tc > 200 * SEC) break;
        tried++; Viol best; if (repeat(v, nullptr, 0, best)) conf.push_back(best); else unrepro++;
    }
    // what only happens after other executions in the same process: repeat those too, then leave out what is not needed
    if (conf.empty()) for (auto &v : cand) {
        Viol best; bool ok = false; const auto &h = v.hist; if (h.empty() || conf.size() >= 3) continue;
        for (size_t n = 1;; n *= 6) { if (realNowNs() - tc > 230 * SEC) break; n = std::min(n, h.size()); if ((ok = repeat(v, h.data() + (h.size() - n), n, best)) || n == h.size()) break; }
        if (!ok) continue;
        std::vector<Item> need = best.hist; size_t chunk = need.size() / 2; ns_t ts = realNowNs();
        while (chunk && realNowNs() - ts < 25 * SEC) { bool less = false; for (size_t at = 0; at < need.size() && realNowNs() - ts < 25 * SEC;) { std::vector<Item> t = need; t.erase(t.begin() + (ssize_t)at, t.begin() + (ssize_t)std::min(at + chunk, t.size())); Viol b2; if (!t.empty() && repeat(v, t.data(), t.size(), b2)) { need = t; best = b2; less = true; } else at += chunk; } if (!less || chunk > need.size()) chunk /= 2; }
        best.msg = "after " + std::to_string(need.size()) + " earlier executions in the same process: " + best.msg; conf.push_back(best);
    }
    for (auto &w : ws) { syscall(SYS_close, w.fd); kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); }
    double wall = (realNowNs() - t0) / 1e9;
    // ---- report
    std::string js = "{\"check\":\"" + id + "\",\"executions\":" + std::to_string(execs) + ",\"choice_points\":" + std::to_string(trans) + ",\"evaluations\":" + std::to_string(evals) +
        ",\"bulk_states\":" + std::to_string(bulk) + ",\"states\":" + std::to_string(states.size()) + ",\"max_choices_per_execution\":" + std::to_string(maxLen) + ",\"nondeterministic\":" + std::to_string(nd) +
        ",\"unreproduced\":" + std::to_string(unrepro) + ",\"truncated\":" + (truncated ? "true" : "false") + ",\"wall_s\":" + std::to_string(wall) + ",\"distinct_outcomes\":" + std::to_string(outs.size()) + ",\"outcomes\":{";
    int k = 0; for (auto &o : outs) { if (k >= 60) break; js += (k++ ? "," : "") + std::string("\"") + jesc(o.first.substr(0, 200)) + "\":" + std::to_string(o.second); }
    js += "},\"samples\":["; k = 0; for (size_t i = 0; i < samples.size(); i += std::max<size_t>(1, samples.size() / 8)) js += (k++ ? "," : "") + std::string("\"") + jesc(samples[i].substr(0, 500)) + "\"";
    js += "],\"phases\":[";
    for (size_t i = 0; i < chk->phases.size(); i++) js += (i ? "," : "") + std::string("{\"name\":\"") + jesc(chk->phases[i].name) + "\",\"bounds\":\"" + jesc(chk->phases[i].bounds) + "\",\"deviation_bound\":" + std::to_string(bounds[i]) + ",\"executions\":" + std::to_string(perPhase[i]) + "}";
    js += "],\"violations\":[";
    mkdir(replayDir.c_str(), 0755);
    for (size_t i = 0; i < conf.size(); i++) {
        auto &v = conf[i]; std::string f = replayDir + "/" + id + "-" + std::to_string(i + 1) + ".replay";
        FILE *p = fopen(f.c_str(), "w");
        if (p) {
            fprintf(p, "check %s\ntier %s\n", id.c_str(), gThorough ? "thorough" : "quick"); for (auto &h : v.hist) { fprintf(p, "before %d", h.phase); for (auto c : h.prefix) fprintf(p, " %u", c); fputc('\n', p); }
            fprintf(p, "phase %s\nchoices", chk->phases[v.phase].name.c_str()); for (auto c : v.choices) fprintf(p, " %u", c);
            fprintf(p, "\n# labels:"); for (auto &l : v.labels) fprintf(p, " %s", l.c_str());
            fprintf(p, "\n# scenario: %s\n# violation: %s\n# transcript:\n", esc(v.note, 2000).c_str(), esc(v.msg, 2000).c_str());
            std::string t = v.transcript; size_t q = 0; while (q < t.size()) { size_t e = t.find('\n', q); if (e == std::string::npos) e = t.size(); fprintf(p, "#   %s\n", t.substr(q, e - q).c_str()); q = e + 1; }
            fclose(p);
        }
        js += (i ? "," : "") + std::string("{\"phase\":\"") + jesc(chk->phases[v.phase].name) + "\",\"message\":\"" + jesc(v.msg.substr(0, 1500)) + "\",\"scenario\":\"" + jesc(v.note.substr(0, 1500)) + "\",\"replay\":\"" + jesc(f) + "\"}";
    }
    js += "]}\n";
    FILE *p = outFile.empty() ? stdout : fopen(outFile.c_str(), "w"); fputs(js.c_str(), p); if (p != stdout) fclose(p);
    return conf.empty() ? 0 : 1;
}
static int mainReplay(const std::string &file) {
    std::string t = slurp(file, 1 << 22); std::string id, phase; std::vector<uint16_t> ch; std::vector<Item> before; size_t q = 0;
    while (q < t.size()) {
        size_t e = t.find('\n', q); if (e == std::string::npos) e = t.size(); std::string l = t.substr(q, e - q); q = e + 1;
        if (l.rfind("check ", 0) == 0) id = l.substr(6); else if (l.rfind("phase ", 0) == 0) phase = l.substr(6); else if (l.rfind("tier ", 0) == 0) gThorough = l.substr(5) == "thorough";
        else if (l.rfind("before ", 0) == 0) { Item h; char *s = (char *)l.c_str() + 7, *n; h.phase = (int)strtol(s, &n, 10); for (s = n;; s = n) { long v = strtol(s, &n, 10); if (n == s) break; h.prefix.push_back((uint16_t)v); } before.push_back(h); }
        else if (l.rfind("choices", 0) == 0) { char *s = (char *)l.c_str() + 7, *n; for (;;) { long v = strtol(s, &n, 10); if (n == s) break; ch.push_back((uint16_t)v); s = n; } }
    }
    for (auto &c : registry()) if (c.id == id) for (size_t i = 0; i < c.phases.size(); i++) if (c.phases[i].name == phase) {
        gReplay = true; shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t pid = fork();
        if (pid == 0) {
            signal(SIGPROF, onProf); signal(SIGALRM, onAlarm);
            for (auto &h : before) if ((size_t)h.phase < c.phases.size()) runOnce(c.phases[(size_t)h.phase], h.phase, h.prefix, gThorough ? c.phases[(size_t)h.phase].boundThorough : c.phases[(size_t)h.phase].boundQuick);
            shm->verbose = 1; runOnce(c.phases[i], (int)i, ch, gThorough ? c.phases[i].boundThorough : c.phases[i].boundQuick);
            fputs(shm->wire, stdout); printf("scenario: %s\n", esc(curNote, 4000).c_str()); printf("choices:"); for (auto &l : labels()) printf(" %s", l.c_str()); printf("\n");
            for (auto &o : curOutcomes) printf("outcome: %s\n", o.c_str());
            for (auto &v : curViol) printf("VIOLATION: %s\n", esc(v, 3000).c_str());
            if (nondet) printf("note: the recorded choices do not fit this build\n");
            fflush(stdout); _exit(curViol.empty() ? 0 : 1);
        }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) return WEXITSTATUS(st);
        fputs(shm->wire, stdout); printf("scenario: %s\nVIOLATION: %s (status %x)\n", shm->note, shm->hang[0] ? shm->hang : "process terminated", st); return 1;
    }
    fprintf(stderr, "cannot find check %s phase %s\n", id.c_str(), phase.c_str()); return 3;
}
}  // namespace mc

using namespace mc;
#ifdef MC_ASAN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:malloc_context_size=12:handle_abort=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:max_allocation_size_mb=1024:symbolize=1:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:fast_unwind_on_malloc=1:allow_user_segv_handler=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
#endif
int main(int argc, char **argv) {
    std::string cmd = argc > 1 ? argv[1] : "", id = argc > 2 ? argv[2] : "", out, rdir = "replays", certs; int jobs = 8, maxTime = 780;
    static std::string scratch;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") gThorough = std::string(argv[++i]) == "thorough"; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--out") out = argv[++i];
        else if (a == "--replaydir") rdir = argv[++i]; else if (a == "--certs") certs = argv[++i]; else if (a == "--maxtime") maxTime = atoi(argv[++i]); else if (a == "--scratch") scratch = argv[++i];
    }
    if (cmd == "list") { for (auto &c : registry()) printf("%s\n", c.id.c_str()); return 0; }
    setenv("SSL_CERT_FILE", (certs + "/ca.pem").c_str(), 1); setenv("SSL_CERT_DIR", "/nonexistent", 1);
    if (scratch.empty()) { char t[] = "/tmp/mcrunXXXXXX"; scratch = mkdtemp(t) ? t : "/tmp"; }
    gScratch = scratch.c_str();
    if (!certs.empty()) initTls(certs);
    if (cmd == "run") return mainRun(id, jobs, out, rdir, maxTime);
    if (cmd == "replay") return mainReplay(id);
    fprintf(stderr, "usage: mc run CHECK | replay FILE | list\n"); return 3;
}
