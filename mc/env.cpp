#include "env.h"
#include "core.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <openssl/err.h>
#include <openssl/ssl.h>

namespace mc {
thread_local World *W = nullptr;
thread_local int envDepth = 0;

const char *kindName(int k) { static const char *n[] = {"plain", "opportunistic", "forced"}; return n[k]; }
const char *stepName(int s) {
    static const char *n[] = {"CONNECT", "GREET", "EHLO", "STARTTLS", "TLS", "EHLO2", "AUTH", "AUTH_USER", "AUTH_PASS",
                              "MAIL", "RCPT", "DATA", "EOD", "QUIT", "OTHER"};
    return n[s];
}
const char *certName(int c) {
    static const char *n[] = {"good", "self", "unknownca", "expired", "notyet", "wronghost", "selfwrong", "untrustedchain", "selfexpired", "sanother", "clientonly", "chain", "chainmissing", "chainexpired", "chainnonca", "wildcard", "ip", "ipasname"};
    return n[c];
}
std::string esc(const std::string &s, size_t max) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size(); i++) {
        if (i >= max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        unsigned char c = s[i];
        if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c;
    }
    return r;
}
static const ns_t BASE_EPOCH = 1767225600LL;  // 2026-01-01

bool ServerCfg::offersStartTls() const {
    for (auto &l : ehloPlain) { std::string u; for (char c : l) u += toupper(c); if (u == "STARTTLS" || u.rfind("STARTTLS ", 0) == 0) return true; }
    return false;
}

// ---------------------------------------------------------------- connection
struct Seg { ns_t at; std::string b; int kind; };  // kind 0 data, 1 FIN, 2 RST
struct Conn {
    int id, fd; bool open = true, nonblock = false, connecting = false, connected = false, never = false;
    ns_t connectAt = 0; int soError = 0;
    ns_t rcvto = 0, sndto = 0;
    std::deque<Seg> in; bool srvClosed = false, rst = false, rstOneShot = false, sawFin = false, shutW = false, shutR = false;
    Server *srv = nullptr;
    void push(ns_t at, const std::string &b, int kind);
    ConnRec &rec() { return W->recs[id]; }
};
void Conn::push(ns_t at, const std::string &b, int kind) {
    if (!in.empty() && in.back().at > at) at = in.back().at;
    in.push_back({at, b, kind});
    if (at > W->lastServerActivity) W->lastServerActivity = at;
    if (kind == 0) W->note("  S>C #" + std::to_string(id) + " @" + std::to_string(at / MS) + "ms " + esc(b, 160));
    else W->note("  S>C #" + std::to_string(id) + (kind == 1 ? " FIN" : " RST"));
}

// ---------------------------------------------------------------- TLS material
static SSL_CTX *gCtx[CERT_ALL][2];
static SSL_CTX *mkCtx(const std::string &dir, const char *cert, const char *chain, int maxv) {
    SSL_CTX *c = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_max_proto_version(c, maxv == 12 ? TLS1_2_VERSION : TLS1_3_VERSION);
    if (SSL_CTX_use_certificate_file(c, (dir + "/" + cert + ".pem").c_str(), SSL_FILETYPE_PEM) != 1 ||
        SSL_CTX_use_PrivateKey_file(c, (dir + "/leaf.key").c_str(), SSL_FILETYPE_PEM) != 1) {
        fprintf(stderr, "cannot load certificate %s\n", cert); exit(3);
    }
    if (chain) {
        FILE *f = fopen((dir + "/" + chain + ".pem").c_str(), "r"); X509 *x = PEM_read_X509(f, nullptr, nullptr, nullptr); fclose(f);
        SSL_CTX_add_extra_chain_cert(c, x);
    }
    SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
    SSL_CTX_set1_groups_list(c, "P-256:X25519");
    return c;
}
void initTls(const std::string &dir) {
    static const char *names[] = {"good", "self", "unknownca", "expired", "notyet", "wronghost", "selfwrong", "unknownca", "selfexpired",
                                  "sanother", "clientonly", "viainter", "viainter", "viainter", "viainter", "wild", "ip", "ipname"};
    auto chain = [](int k) -> const char * { switch (k) { case CERT_UNTRUSTED_CHAIN: return "badca"; case CERT_CHAIN: return "inter"; case CERT_CHAIN_EXPIRED: return "interexpired"; case CERT_CHAIN_NONCA: return "nonca"; default: return nullptr; } };
    for (int k = 0; k < CERT_ALL; k++) for (int v = 0; v < 2; v++)
        gCtx[k][v] = mkCtx(dir, names[k], chain(k), v ? 12 : 13);
}

// ---------------------------------------------------------------- SMTP server
struct Server {
    Conn *c; ServerCfg cfg; World *w;
    enum Tls { NONE, HS, UP, BROKEN } tls = NONE;
    SSL *ssl = nullptr; BIO *rb = nullptr, *wb = nullptr;
    std::string buf; bool dead = false;      // dead: server closed its side
    bool ehlo = false, authed = false, inData = false, ignore = false; int authStage = 0; int auth = -1; int txn = -1;
    size_t dataScan = 0;
    TlsAct tlsAct = T_OK; int tlsArg = 0; bool tlsDecided = false; size_t tlsOut = 0; ns_t tlsDelay = 30 * MS;
    // record framing check of client bytes once TLS started
    size_t recRem = 0; std::string recHdr;
    std::string pendPlain;
    Server(Conn *cc, const ServerCfg &g) : c(cc), cfg(g), w(W) {}
    ~Server() { if (ssl) SSL_free(ssl); }
    int curSend() { return w->sendNo; }

    int stepIdx(int step) { return w->stepCount[step * 64 + c->id]++; }
    // ask the check what to answer at a step, then answer
    Reply ask(int step, const std::string &line, const std::string &text, int code) {
        Reply r; r.text = text; r.code = code;
        StepCtx sc{c->id, step, stepIdx(step), tls == UP, line, w->sendNo, (int)w->cmds.size()};
        w->lastStep = step;
        addState(w->stateHash());
        if (w->decide) w->decide(sc, r);
        return r;
    }
    void rawOut(const std::string &b, ns_t at) { c->push(at, b, 0); }
    std::string tlsDrain() {
        std::string o; char t[4096]; int n;
        while ((n = BIO_read(wb, t, sizeof t)) > 0) o.append(t, n);
        return o;
    }
    void deliver(const Reply &r) {
        ns_t at = w->now + r.delay;
        if (!r.text.empty()) {
            std::vector<std::string> pieces; size_t p = 0;
            std::vector<size_t> cuts = r.cuts;
            if (tls == UP && r.rawCuts) {
                ERR_set_mark(); SSL_write(ssl, r.text.data(), (int)r.text.size()); ERR_pop_to_mark();
                std::string all = tlsDrain();
                for (size_t q : cuts) { q = q % all.size(); if (q > p) { pieces.push_back(all.substr(p, q - p)); p = q; } }
                if (p < all.size()) pieces.push_back(all.substr(p));
                for (auto &x : pieces) { c->push(at, x, 0); at += r.gap; }
            } else {
                for (size_t q : cuts) if (q > p && q < r.text.size()) { pieces.push_back(r.text.substr(p, q - p)); p = q; }
                if (p < r.text.size()) pieces.push_back(r.text.substr(p));
                for (auto &x : pieces) {
                    if (tls == UP) {
                        size_t off = 0;
                        while (off < x.size()) {
                            size_t n = std::min<size_t>(16000, x.size() - off);
                            ERR_set_mark(); SSL_write(ssl, x.data() + off, (int)n); ERR_pop_to_mark(); off += n;
                        }
                        c->push(at, tlsDrain(), 0);
                    } else c->push(at, x, 0);
                    at += r.gap;
                }
            }
            at -= r.gap;
        }
        if (r.after == A_FIN) closeSide(1, at); else if (r.after == A_RST) closeSide(2, at);
    }
    void closeSide(int kind, ns_t at) { if (dead) return; dead = true; c->srvClosed = true; c->push(at, "", kind); }

    void record(int step, const std::string &line, const Reply &r) {
        w->cmds.push_back({c->id, w->sendNo, step, tls == UP, line, r.text, r.answered || r.code < -1 ? r.code : -1, r.answered, w->now, r.after, r.effect});
        if (!r.what.empty()) w->note("  [server deviates at " + std::string(stepName(step)) + ": " + r.what + "]");
    }
    void greet() {
        Reply r = ask(S_GREET, "", "220 mail.test ESMTP ready\r\n", 220);
        w->recs[c->id].greeted++;
        record(S_GREET, "", r); deliver(r);
    }
    void start() {
        if (cfg.implicitTls) startTls(); else greet();
    }
    void startTls() {
        tls = HS; ssl = SSL_new(gCtx[cfg.cert][cfg.tlsMax == 12 || cfg.ciphers]);
        if (cfg.ciphers) { SSL_set_security_level(ssl, 0); SSL_set_cipher_list(ssl, cfg.ciphers == 1 ? "eNULL:@SECLEVEL=0" : "aNULL:!eNULL:@SECLEVEL=0"); }
        rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem()); SSL_set_bio(ssl, rb, wb);
        SSL_set_num_tickets(ssl, cfg.tickets); SSL_set_accept_state(ssl); recRem = 0; recHdr.clear();
    }
    void clientClosed() { }
    bool checkRecords(const std::string &b) {
        for (unsigned char ch : b) {
            if (recRem) { recRem--; continue; }
            recHdr += (char)ch;
            if (recHdr.size() == 1 && (ch < 20 || ch > 23)) return false;
            if (recHdr.size() == 2 && ch != 3) return false;
            if (recHdr.size() == 5) { recRem = ((unsigned char)recHdr[3] << 8) | (unsigned char)recHdr[4]; recHdr.clear(); }
        }
        return true;
    }
    void bytes(const std::string &b) {
        if (dead) return;
        w->lastRcv = b;
        if (cfg.plainPort && tls == NONE && buf.empty() && b.size() > 2 && b[0] == 22 && b[1] == 3) { w->note("  C>S #" + std::to_string(c->id) + " TLS hello to a server that does not speak TLS"); if (cfg.plainPort == 1) c->push(w->now + 30 * MS, "500 5.5.1 command unrecognized\r\n", 0); if (cfg.plainPort == 3) closeSide(1, w->now + 30 * MS); return; }
        if (tls == NONE) { w->recs[c->id].plainBytes += b; buf += b; parse(); return; }
        if (tls != BROKEN && !checkRecords(b)) {
            w->recs[c->id].plainAfterTls = true; w->recs[c->id].plainBytes += b;
            w->note("  C>S #" + std::to_string(c->id) + " NOT A TLS RECORD: " + esc(b, 120));
            tls = BROKEN; closeSide(1, w->now + 30 * MS); return;
        }
        if (tls == BROKEN) return;
        BIO_write(rb, b.data(), (int)b.size());
        if (tls == HS) handshake();
        if (tls == UP) {
            char t[8192]; int n;
            ERR_set_mark();
            while ((n = SSL_read(ssl, t, sizeof t)) > 0) { buf.append(t, n); w->recs[c->id].appBytes.append(t, n); }
            bool shut = (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) != 0;
            bool fatal = !shut && n <= 0 && !SSL_want_read(ssl);
            ERR_pop_to_mark();
            std::string o = tlsDrain(); if (!o.empty()) c->push(w->now + 30 * MS, o, 0);
            if (fatal) { tls = BROKEN; closeSide(1, w->now + 30 * MS); return; }
            parse();
            if (shut) { /* client closes */ }
        }
    }
    void handshake() {
        if (!tlsDecided) {
            tlsDecided = true;
            Reply r = ask(S_TLS, "", "", 0); tlsAct = r.tls; tlsArg = r.tlsArg; tlsDelay = r.delay;
            record(S_TLS, "", r);
            w->cmds.back().answered = (tlsAct == T_OK || tlsAct == T_CLOSE_AFTER); if (tlsAct == T_CLOSE_AFTER) w->cmds.back().after = A_FIN;
            if (tlsAct != T_OK) w->note("  [server deviates in TLS handshake: " + r.what + "]");
            if (tlsAct == T_SILENT) { tls = BROKEN; return; }
            if (tlsAct == T_CLOSE) { tls = BROKEN; closeSide(1, w->now + tlsDelay); return; }
            if (tlsAct == T_RESET) { tls = BROKEN; closeSide(2, w->now + tlsDelay); return; }
            if (tlsAct == T_GARBAGE) { tls = BROKEN; c->push(w->now + tlsDelay, "500 what is this binary stuff\r\n", 0); return; }
            if (tlsAct == T_ALERT) { tls = BROKEN; c->push(w->now + tlsDelay, std::string("\x15\x03\x03\x00\x02\x02\x28", 7), 0); closeSide(1, w->now + tlsDelay); return; }
        }
        ERR_set_mark();
        int rc = SSL_do_handshake(ssl);
        bool wantRead = SSL_want_read(ssl);
        if (rc != 1 && !wantRead) w->recs[c->id].tlsErr = ERR_reason_error_string(ERR_peek_last_error()) ? ERR_reason_error_string(ERR_peek_last_error()) : "?";
        ERR_pop_to_mark();
        std::string o = tlsDrain();
        if (!o.empty()) {
            if (tlsAct == T_TRUNC_SILENT || tlsAct == T_TRUNC_CLOSE) {
                size_t room = (size_t)tlsArg > tlsOut ? tlsArg - tlsOut : 0;
                std::string part = o.substr(0, room); tlsOut += part.size();
                if (!part.empty()) c->push(w->now + tlsDelay, part, 0);
                if (part.size() < o.size() || rc == 1) { tls = BROKEN; if (tlsAct == T_TRUNC_CLOSE) closeSide(1, w->now + tlsDelay); return; }
            } else c->push(w->now + tlsDelay, o, 0);
        }
        if (rc == 1) {
            tls = UP; w->recs[c->id].tlsUp = true; { const SSL_CIPHER *q = SSL_get_current_cipher(ssl); if (q && SSL_CIPHER_get_cipher_nid(q) == NID_undef) w->recs[c->id].weak = "a TLS session without encryption"; else if (q && SSL_CIPHER_get_auth_nid(q) == NID_auth_null) w->recs[c->id].weak = "a TLS session without a server certificate"; } w->note("  == TLS established on #" + std::to_string(c->id));
            ehlo = authed = false;
            if (tlsAct == T_CLOSE_AFTER) { closeSide(1, w->now + tlsDelay); return; }
            if (cfg.implicitTls) greet();
        } else if (!wantRead) { tls = BROKEN; closeSide(1, w->now + 30 * MS); }
    }
    static std::string upper(std::string s) { for (auto &ch : s) ch = toupper((unsigned char)ch); return s; }
    void parse() {
        while (!dead && !ignore) {
            if (inData) {
                Txn &t = w->txns[txn];
                t.raw += buf; buf.clear();
                size_t from = dataScan > 4 ? dataScan - 4 : 0, end = std::string::npos, eat = 0;
                if (t.raw.compare(0, 3, ".\r\n") == 0) { end = 0; eat = 3; }
                else { size_t q = t.raw.find("\r\n.\r\n", from); if (q != std::string::npos) { end = q + 2; eat = 3; } }
                dataScan = t.raw.size();
                if (end == std::string::npos) return;
                buf = t.raw.substr(end + eat); t.raw.resize(end); inData = false; t.ended = true;
                // dot-unstuffing
                std::string d; size_t p = 0;
                while (p < t.raw.size()) {
                    size_t q = t.raw.find("\r\n", p); size_t e = q == std::string::npos ? t.raw.size() : q + 2;
                    size_t s = (t.raw[p] == '.') ? p + 1 : p;
                    d.append(t.raw, s, e - s); p = e;
                }
                t.data = d;
                w->note("  C>S #" + std::to_string(c->id) + " DATA " + std::to_string(t.raw.size()) + " bytes: " + esc(t.raw, 700));
                int ti = txn; txn = -1;
                Reply r = ask(S_EOD, ".", "250 2.0.0 queued as 12345\r\n", 250);
                record(S_EOD, ".", r);
                Txn &t2 = w->txns[ti];
                t2.accEffect = r.effect; t2.accepted = r.effect && r.answered && r.code == 250;
                deliver(r); continue;
            }
            size_t q = buf.find("\r\n");
            if (q == std::string::npos) return;
            std::string line = buf.substr(0, q); buf.erase(0, q + 2);
            command(line);
        }
    }
    // every reply of this connection must have been read before the next command arrives
    void checkSync(const std::string &line) {
        for (auto &s : c->in) if (s.kind == 0) { w->protocol.push_back("command sent before the previous reply was read: " + esc(line, 80)); return; }
    }
    static bool endsWith250(const Reply &r) { return r.answered; }
    void command(const std::string &line) {
        w->note("  C>S #" + std::to_string(c->id) + (tls == UP ? " (tls) " : " ") + esc(line, 200));
        if (line.find('\n') != std::string::npos || line.find('\r') != std::string::npos || line.find('\0') != std::string::npos)
            w->protocol.push_back("bare CR, LF or NUL inside a command line: " + esc(line, 120));
        checkSync(line);
        std::string u = upper(line);
        auto starts = [&](const char *p) { return u.compare(0, strlen(p), p) == 0; };
        ConnRec &rc = w->recs[c->id];
        if (authStage) {
            AuthRec &a = w->auths[auth];
            a.payloads.push_back(line);
            int st = authStage == 1 ? S_AUTH_USER : S_AUTH_PASS;
            Reply r = authStage == 1 ? ask(st, line, "334 UGFzc3dvcmQ6\r\n", 334) : ask(st, line, "235 2.7.0 Accepted\r\n", 235);
            record(st, line, r);
            AuthRec &a2 = w->auths[auth];
            if (authStage == 1) authStage = r.effect ? 2 : 0;
            else { authStage = 0; if (r.effect) { authed = true; a2.accepted = true; } }
            deliver(r); return;
        }
        if (starts("EHLO") || starts("HELO")) {
            rc.ehlos++;
            int st = (tls == UP && !cfg.implicitTls) ? S_EHLO2 : S_EHLO;
            auto &opts = tls == UP ? cfg.ehloTls : cfg.ehloPlain;
            std::string t = opts.empty() ? "250 mail.test\r\n" : "250-mail.test greets localhost\r\n";
            for (size_t i = 0; i < opts.size(); i++) t += std::string(i + 1 < opts.size() ? "250-" : "250 ") + opts[i] + "\r\n";
            Reply r = ask(st, line, t, 250); record(st, line, r);
            if (r.effect) { ehlo = true; txn = -1; }
            deliver(r); return;
        }
        if (u == "STARTTLS") {
            Reply r = ask(S_STARTTLS, line, "220 2.0.0 Ready to start TLS\r\n", 220); record(S_STARTTLS, line, r);
            if (tls == UP || !cfg.offersStartTls()) { w->protocol.push_back("STARTTLS not allowed here"); }
            if (!buf.empty()) { w->protocol.push_back("plaintext sent behind STARTTLS: " + esc(buf, 80)); buf.clear(); }
            deliver(r); if (r.effect) startTls();
            return;
        }
        if (starts("AUTH ")) {
            AuthRec a{c->id, w->sendNo, tls == UP, "", {}, false};
            std::string rest = line.substr(5); size_t sp = rest.find(' ');
            a.mech = upper(rest.substr(0, sp)); if (sp != std::string::npos) a.payloads.push_back(rest.substr(sp + 1));
            w->auths.push_back(a); auth = (int)w->auths.size() - 1;
            if (authed) w->protocol.push_back("authenticated twice in one session");
            if (!ehlo) w->protocol.push_back("AUTH before EHLO");
            Reply r;
            if (a.mech == "LOGIN") { r = ask(S_AUTH, line, "334 VXNlcm5hbWU6\r\n", 334); record(S_AUTH, line, r); authStage = r.effect ? 1 : 0; }
            else { r = ask(S_AUTH, line, "235 2.7.0 Accepted\r\n", 235); record(S_AUTH, line, r); if (r.effect) { authed = true; w->auths[auth].accepted = true; } }
            deliver(r); return;
        }
        if (starts("MAIL FROM:")) {
            if (txn >= 0) {
                w->protocol.push_back("MAIL inside an open transaction");
                Reply r; r.text = "503 5.5.1 nested MAIL command\r\n"; r.code = 503; r.effect = false; record(S_MAIL, line, r); deliver(r); return;
            }
            if (!ehlo) w->protocol.push_back("MAIL before EHLO");
            Reply r = ask(S_MAIL, line, "250 2.1.0 Ok\r\n", 250); record(S_MAIL, line, r);
            if (r.effect) {
                Txn t; t.conn = c->id; t.sendNo = w->sendNo; t.tls = tls == UP; t.from = line.substr(10);
                w->txns.push_back(t); txn = (int)w->txns.size() - 1;
            }
            deliver(r); return;
        }
        if (starts("RCPT TO:")) {
            if (txn < 0) { w->protocol.push_back("RCPT without MAIL"); simple("503 5.5.1 need MAIL\r\n", 503, S_RCPT, line); return; }
            Reply r = ask(S_RCPT, line, "250 2.1.5 Ok\r\n", 250); record(S_RCPT, line, r);
            (r.effect ? w->txns[txn].rcptOk : w->txns[txn].rcptBad).push_back(line.substr(8));
            deliver(r); return;
        }
        if (u == "DATA") {
            if (txn < 0 || w->txns[txn].rcptOk.empty()) {
                w->protocol.push_back("DATA without accepted recipients"); simple("503 5.5.1 no valid recipients\r\n", 503, S_DATA, line); return;
            }
            Reply r = ask(S_DATA, line, "354 End data with <CR><LF>.<CR><LF>\r\n", 354); record(S_DATA, line, r);
            if (r.effect) { w->txns[txn].dataOk = true; inData = true; dataScan = 0; if (!buf.empty()) w->protocol.push_back("data sent before the go-ahead"); }
            deliver(r); return;
        }
        if (u == "QUIT") {
            rc.quits++; rc.quit = true;
            if (txn >= 0) w->protocol.push_back("QUIT inside an open transaction");
            Reply r = ask(S_QUIT, line, "221 2.0.0 Bye\r\n", 221); if (r.after == A_NONE && !r.text.empty()) r.after = A_FIN;
            record(S_QUIT, line, r); deliver(r); return;
        }
        if (u == "RSET") { txn = -1; simple("250 2.0.0 Ok\r\n", 250, S_OTHER, line); return; }
        if (u == "NOOP" || starts("NOOP ")) { simple("250 2.0.0 Ok\r\n", 250, S_OTHER, line); return; }
        w->protocol.push_back("not a command: " + esc(line, 120));
        simple("500 5.5.2 unrecognized command\r\n", 500, S_OTHER, line);
    }
    void simple(const char *t, int code, int step, const std::string &line) {
        Reply r; r.text = t; r.code = code; r.effect = false; record(step, line, r); deliver(r);
    }
};

// ---------------------------------------------------------------- World
World::World() { nextFd = fdBase; hosts["mail.test"] = 0x0a000001; hosts["mail2.test"] = 0x0a000002; hosts["mail3.test"] = 0x0a000003; horizon = 4000 * SEC; }
World::~World() { for (auto c : conns) { delete c->srv; delete c; } }
void wireSink(const std::string &s);   // core.cpp
void World::note(const std::string &s) { if (wire.size() < 3000) wire.push_back(s); wireSink(s); }
void World::problem(const std::string &s) { note("  !! " + s); problems.push_back(s); }
void World::beginSend() { sendNo++; stepCount.clear(); lastServerActivity = now; note("-- send " + std::to_string(sendNo) + " begins @" + std::to_string(now / MS) + "ms"); }
void World::endSend() { note("-- send " + std::to_string(sendNo) + " ends @" + std::to_string(now / MS) + "ms"); }
Conn *World::byFd(int fd) {
    int i = fd - fdBase;
    return (i >= 0 && i < (int)conns.size()) ? conns[i] : nullptr;
}
uint64_t World::stateHash() const {
    uint64_t h = mix(sendNo, lastStep);
    for (auto c : conns) {
        const ConnRec &r = recs[c->id];
        h = mix(h, (c->open) | (c->connected << 1) | (c->nonblock << 2) | (c->rst << 3) | (c->srvClosed << 4) | (r.tlsUp << 5) | (r.quit << 6));
        h = mix(h, c->in.size());
        if (c->srv) { h = mix(h, c->srv->tls * 16 + c->srv->ehlo * 8 + c->srv->authed * 4 + c->srv->inData * 2 + c->srv->authStage * 1024); h = mix(h, c->srv->txn); }
    }
    for (auto &t : txns) { h = mix(h, t.rcptOk.size() * 64 + t.rcptBad.size()); h = mix(h, t.dataOk * 4 + t.ended * 2 + t.accepted); }
    if (!cmds.empty()) { h = mix(h, cmds.back().code); }
    h = mix(h, cmds.size());
    return h;
}

static void sysPoint(const char *what) {
    World *w = W;
    if (++w->envCalls > 400000) fatalHang("busy loop: over 400000 environment calls, last " + std::string(what));
    if (w->now == w->idleAt) { if (++w->idleCalls > 60000) fatalHang(std::string("busy loop without progress in ") + what); }
    else { w->idleAt = w->now; w->idleCalls = 0; }
    if (w->now > w->horizon) fatalHang("still running after " + std::to_string(w->now / SEC) + " s of simulated time");
    if (w->onSyscall) w->onSyscall();
}
static int fault(unsigned mask, int n, const char *label) {
    if (!(W->faults & mask)) return 0;
    addState(W->stateHash());
    return dev(n, label);
}
static void faultRec(const char *call, const char *what, Conn *c) {
    W->faultLog.push_back({call, what, c ? c->id : -1, W->lastStep, W->sendNo, W->cmds.size()});
    W->note("  [fault: " + std::string(call) + " -> " + what + "]");
}
static void finishConnect(Conn *c) {
    c->connecting = false; c->connected = true; W->recs[c->id].connected = true;
    if (c->srv) c->srv->start();
}
// bring the connection's pending connect up to date with the clock
static void settle(Conn *c) {
    if (c->connecting && !c->never && c->connectAt <= W->now) {
        if (c->soError) { c->connecting = false; }
        else finishConnect(c);
    }
}
static bool readable(Conn *c) { return !c->in.empty() && c->in.front().at <= W->now; }
static void sigpipe(int flags) { if (!(flags & MSG_NOSIGNAL)) { W->note("  !! SIGPIPE raised"); pthread_kill(pthread_self(), SIGPIPE); } }

static ssize_t envSend(int fd, const char *p, size_t n, int flags, const char *call) {
    EnvGuard g; sysPoint(call);
    Conn *c = W->byFd(fd);
    if (!c) { W->problem(std::string(call) + " on descriptor " + std::to_string(fd) + " which is not a socket of the client: " + esc(std::string(p, n), 80)); errno = ENOTSOCK; return -1; }
    if (!c->open) { W->problem(std::string(call) + " on closed descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    settle(c);
    if (!c->connected) { sigpipe(flags); errno = EPIPE; return -1; }
    if (c->shutW) { sigpipe(flags); errno = EPIPE; return -1; }
    // a reset that has already arrived is seen by the writer
    for (auto &s : c->in) if (s.kind == 2 && s.at <= W->now && !c->rst) { c->rst = true; c->rstOneShot = true; }
    if (c->rst) {
        if (c->rstOneShot) { c->rstOneShot = false; errno = ECONNRESET; return -1; }
        sigpipe(flags); errno = EPIPE; return -1;
    }
    if (n == 0) return 0;
    unsigned m = W->faults & (FM_SEND_SHORT | FM_SEND_ERR | FM_EINTR | FM_SEND_STALL);
    if (m) {
        int opt[8], k = 0; opt[k++] = 0;
        if ((m & FM_SEND_SHORT) && n > 1) { opt[k++] = 1; if (n > 2) opt[k++] = 2; }
        if (m & FM_SEND_ERR) { opt[k++] = 3; opt[k++] = 4; }
        if (m & FM_EINTR) opt[k++] = 5;
        if (m & FM_SEND_STALL) opt[k++] = 6;
        addState(W->stateHash());
        switch (opt[dev(k, call)]) {
            case 1: faultRec(call, "short write of 1", c); n = 1; break;
            case 2: faultRec(call, "short write of half", c); n = n / 2; break;
            case 3: faultRec(call, "EPIPE", c); c->rst = true; c->rstOneShot = false; c->srv->closeSide(2, W->now); sigpipe(flags); errno = EPIPE; return -1;
            case 4: faultRec(call, "ECONNRESET", c); c->rst = true; c->rstOneShot = false; c->srv->closeSide(2, W->now); errno = ECONNRESET; return -1;
            case 5: faultRec(call, "EINTR", c); errno = EINTR; return -1;
            case 6: faultRec(call, "send buffer full", c);
                if (c->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
                if (c->sndto) { W->now += c->sndto; errno = EAGAIN; return -1; }
                fatalHang("blocked for ever in " + std::string(call) + " (peer does not read)");
            default: break;
        }
    }
    if (c->srvClosed) { c->rst = true; c->rstOneShot = false; return (ssize_t)n; }  // accepted by the kernel, answered by a reset
    if (c->srv) { c->srv->bytes(std::string(p, n)); }
    return (ssize_t)n;
}

static ssize_t envRecv(int fd, char *p, size_t n, int flags, const char *call) {
    EnvGuard g; sysPoint(call);
    Conn *c = W->byFd(fd);
    if (!c) { W->problem(std::string(call) + " on descriptor " + std::to_string(fd) + " which is not a socket of the client"); errno = ENOTSOCK; return -1; }
    if (!c->open) { W->problem(std::string(call) + " on closed descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    settle(c);
    if (!c->connected) { errno = ENOTCONN; return -1; }
    if (c->shutR) return 0;
    unsigned m = W->faults & (FM_RECV_ERR | FM_EINTR);
    bool block = !(c->nonblock || (flags & MSG_DONTWAIT));
    if (m) {
        int opt[4], k = 0; opt[k++] = 0;
        if (m & FM_RECV_ERR) opt[k++] = 1;
        if ((m & FM_EINTR) && block) opt[k++] = 2;
        if (k > 1) {
            addState(W->stateHash());
            switch (opt[dev(k, call)]) {
                case 1: faultRec(call, "ECONNRESET", c); c->in.clear(); c->rst = true; c->rstOneShot = false; c->srv->closeSide(2, W->now); c->in.clear(); c->sawFin = true; errno = ECONNRESET; return -1;
                case 2: faultRec(call, "EINTR", c); errno = EINTR; return -1;
                default: break;
            }
        }
    }
    if (!readable(c)) {
        if (c->sawFin) return 0;
        if (c->rst) { c->sawFin = true; if (c->rstOneShot) { c->rstOneShot = false; errno = ECONNRESET; return -1; } return 0; }
        if (!block) { errno = EAGAIN; return -1; }
        ns_t dl = c->rcvto ? W->now + c->rcvto : -1;
        if (!c->in.empty() && (dl < 0 || c->in.front().at <= dl)) { if (c->in.front().at > W->now) W->now = c->in.front().at; }
        else if (dl >= 0) { W->now = dl; errno = EAGAIN; return -1; }
        else fatalHang("blocked for ever in " + std::string(call) + " (no data will come, no receive time-out set)");
    }
    if (c->in.front().kind == 1) { c->in.pop_front(); c->sawFin = true; return 0; }
    if (c->in.front().kind == 2) { c->in.pop_front(); c->rst = true; c->rstOneShot = false; c->sawFin = true; errno = ECONNRESET; return -1; }
    size_t got = 0;
    if (flags & MSG_PEEK) {
        for (auto &s : c->in) { if (s.kind || s.at > W->now || got == n) break; size_t k = std::min(n - got, s.b.size()); memcpy(p + got, s.b.data(), k); got += k; }
        return (ssize_t)got;
    }
    while (got < n && !c->in.empty() && c->in.front().kind == 0 && c->in.front().at <= W->now) {
        Seg &s = c->in.front(); size_t k = std::min(n - got, s.b.size());
        memcpy(p + got, s.b.data(), k); got += k;
        if (k == s.b.size()) c->in.pop_front(); else s.b.erase(0, k);
    }
    W->idleCalls = 0;
    return (ssize_t)got;
}

// wait until some descriptor is ready or the deadline passes; returns true if ready
static bool waitReady(const std::vector<std::pair<Conn *, int>> &set, ns_t timeout) {
    ns_t dl = timeout < 0 ? -1 : W->now + timeout;
    for (;;) {
        ns_t next = -1;
        for (auto &pr : set) {
            Conn *c = pr.first; settle(c);
            bool r = readable(c) || c->sawFin || c->rst;
            bool w = !c->connecting;
            if (((pr.second & 1) && r) || ((pr.second & 2) && w)) return true;
            auto cand = [&](ns_t t) { if (next < 0 || t < next) next = t; };
            if ((pr.second & 1) && !c->in.empty()) cand(c->in.front().at);
            if (c->connecting && !c->never) cand(c->connectAt);
        }
        if (next >= 0 && (dl < 0 || next <= dl)) { if (next > W->now) W->now = next; continue; }
        if (dl < 0) fatalHang("blocked for ever waiting for descriptors");
        W->now = dl; return false;
    }
}

static bool clientMode() { return W != nullptr && envDepth == 0; }
ns_t realNowNs() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * SEC + t.tv_nsec; }
static hostent gHe; static char *gHeAddrs[2]; static char gHeAddr[4]; static char *gHeAl[1]; static char gHeName[64];

static bool resolveHost(const char *name, unsigned &ip) {
    struct in_addr a;
    if (inet_aton(name, &a)) { ip = ntohl(a.s_addr); return true; }
    std::string n = name; for (auto &ch : n) ch = tolower((unsigned char)ch);
    auto it = W->hosts.find(n);
    if (it == W->hosts.end()) return false;
    ip = it->second; return true;
}
}  // namespace mc

using namespace mc;

// ================================================================ interposed libc functions
extern "C" {
int socket(int d, int t, int p) {
    if (!clientMode()) return (int)syscall(SYS_socket, d, t, p);
    EnvGuard g; sysPoint("socket");
    if (fault(FM_SOCKET, 2, "socket")) { faultRec("socket", "EMFILE", nullptr); errno = EMFILE; return -1; }
    Conn *c = new Conn; c->id = (int)W->conns.size(); c->fd = W->fdBase + c->id; c->nonblock = (t & SOCK_NONBLOCK) != 0;
    W->conns.push_back(c); ConnRec r; r.id = c->id; r.fd = c->fd; r.sendNo = W->sendNo; W->recs.push_back(r); W->socketsOpen++;
    W->note("  socket -> #" + std::to_string(c->id));
    return c->fd;
}
static int envConnect(int fd, const struct sockaddr *a, socklen_t) {
    EnvGuard g; sysPoint("connect");
    Conn *c = W->byFd(fd);
    if (!c || !c->open) { W->problem("connect on descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    if (c->connected) { errno = EISCONN; return -1; }
    if (c->connecting) { settle(c); if (c->connected) { errno = EISCONN; return -1; } errno = EALREADY; return -1; }
    const sockaddr_in *s = (const sockaddr_in *)a; unsigned ip = ntohl(s->sin_addr.s_addr); int port = ntohs(s->sin_port);
    ConnRec &r = W->recs[c->id]; r.ip = ip; r.port = port;
    std::string host; for (auto &h : W->hosts) if (h.second == ip) { host = h.first; break; }
    r.host = host; W->lastStep = S_CONNECT;
    W->note("  connect #" + std::to_string(c->id) + " to " + (host.empty() ? std::to_string(ip) : host) + ":" + std::to_string(port));
    int f = fault(FM_CONNECT, 6, "connect");
    if (host.empty() && f == 0) f = 2;
    if (f == 1 || f == 0 || f == 5) {
        ServerCfg cfg; if (W->serverFor) cfg = W->serverFor(host, c->id);
        c->srv = new Server(c, cfg);
    }
    if (f == 2) { faultRec("connect", "ECONNREFUSED", c); errno = ECONNREFUSED; return -1; }
    if (f == 1) { faultRec("connect", "immediate", c); finishConnect(c); return 0; }
    c->connecting = true; c->connectAt = W->now + W->connectDelay;
    if (f == 3) { faultRec("connect", "delayed ECONNREFUSED", c); c->soError = ECONNREFUSED; }
    if (f == 4) { faultRec("connect", "never completes", c); c->never = true; }
    if (f == 5) { faultRec("connect", "slow (700 ms)", c); c->connectAt = W->now + 700 * MS; }
    if (c->nonblock) { errno = EINPROGRESS; return -1; }
    if (c->never) { W->now += c->sndto ? c->sndto : 127 * SEC; errno = c->sndto ? EINPROGRESS : ETIMEDOUT; return -1; }
    W->now = c->connectAt; settle(c);
    if (c->soError) { errno = c->soError; c->soError = 0; return -1; }
    return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (!clientMode()) return (int)syscall(SYS_connect, fd, a, l);
    return envConnect(fd, a, l);
}
static int selFault(const char *call) {
    int f = fault(FM_SELECT, 3, call);
    if (f == 1) { faultRec(call, "ENOMEM", nullptr); errno = ENOMEM; return -1; }
    if (f == 2) { faultRec(call, "EINTR", nullptr); errno = EINTR; return -1; }
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (!clientMode()) return (int)syscall(SYS_select, n, r, w, e, tv);
    EnvGuard g; sysPoint("select");
    if (n > FD_SETSIZE) { W->problem("select with a descriptor beyond FD_SETSIZE"); errno = EINVAL; return -1; }
    if (selFault("select")) return -1;
    std::vector<std::pair<Conn *, int>> set;
    for (int i = 0; i < n; i++) {
        int m = (r && FD_ISSET(i, r) ? 1 : 0) | (w && FD_ISSET(i, w) ? 2 : 0);
        if (!m) continue;
        Conn *c = W->byFd(i); if (!c || !c->open) { W->problem("select on descriptor " + std::to_string(i)); errno = EBADF; return -1; }
        set.push_back({c, m});
    }
    waitReady(set, tv ? tv->tv_sec * SEC + tv->tv_usec * US : -1);
    int cnt = 0;
    if (e) FD_ZERO(e);
    for (auto &p : set) {
        int fd = p.first->fd; bool rd = readable(p.first) || p.first->sawFin || p.first->rst, wr = !p.first->connecting;
        if (p.second & 1) { if (rd) cnt++; else FD_CLR(fd, r); }
        if (p.second & 2) { if (wr) cnt++; else FD_CLR(fd, w); }
    }
    return cnt;
}
static int envPoll(struct pollfd *f, nfds_t n, ns_t to) {
    EnvGuard g; sysPoint("poll");
    if (selFault("poll")) return -1;
    std::vector<std::pair<Conn *, int>> set;
    for (nfds_t i = 0; i < n; i++) {
        f[i].revents = 0; if (f[i].fd < 0) continue;
        Conn *c = W->byFd(f[i].fd); if (!c || !c->open) { W->problem("poll on descriptor " + std::to_string(f[i].fd)); f[i].revents = POLLNVAL; return 1; }
        set.push_back({c, ((f[i].events & (POLLIN | POLLRDNORM)) ? 1 : 0) | ((f[i].events & (POLLOUT | POLLWRNORM)) ? 2 : 0)});
    }
    waitReady(set, to);
    int cnt = 0;
    for (nfds_t i = 0; i < n; i++) {
        if (f[i].fd < 0) continue;
        Conn *c = W->byFd(f[i].fd); short re = 0;
        bool rd = readable(c) || c->sawFin || c->rst, wr = !c->connecting;
        if (rd) re |= f[i].events & (POLLIN | POLLRDNORM);
        if (wr) re |= f[i].events & (POLLOUT | POLLWRNORM);
        if (!c->connecting && c->soError) re |= POLLERR | POLLHUP;
        if (c->rst) re |= POLLERR | POLLHUP;
        f[i].revents = re; if (re) cnt++;
    }
    return cnt;
}
int poll(struct pollfd *f, nfds_t n, int to) {
    if (!clientMode()) return (int)syscall(SYS_poll, f, n, to);
    return envPoll(f, n, to < 0 ? -1 : to * MS);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *s) {
    if (!clientMode()) return (int)syscall(SYS_ppoll, f, n, ts, s, 8);
    return envPoll(f, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1);
}
int getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) {
    if (!clientMode()) return (int)syscall(SYS_getsockopt, fd, lv, opt, v, l);
    EnvGuard g; sysPoint("getsockopt");
    Conn *c = W->byFd(fd); if (!c || !c->open) { W->problem("getsockopt on descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    if (fault(FM_GETSOCKOPT, 2, "getsockopt")) { faultRec("getsockopt", "ENOBUFS", c); errno = ENOBUFS; return -1; }
    settle(c);
    if (lv == SOL_SOCKET && opt == SO_ERROR) { *(int *)v = c->connecting ? 0 : c->soError; *l = sizeof(int); if (!c->connecting) c->soError = 0; return 0; }
    if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { ns_t t = opt == SO_RCVTIMEO ? c->rcvto : c->sndto; timeval tv{t / SEC, (t % SEC) / US}; memcpy(v, &tv, sizeof tv); *l = sizeof tv; return 0; }
    memset(v, 0, *l); return 0;
}
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t l) {
    if (!clientMode()) return (int)syscall(SYS_setsockopt, fd, lv, opt, v, l);
    EnvGuard g; sysPoint("setsockopt");
    Conn *c = W->byFd(fd); if (!c || !c->open) { W->problem("setsockopt on descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    if (fault(FM_SETSOCKOPT, 2, "setsockopt")) { faultRec("setsockopt", "EDOM", c); errno = EDOM; return -1; }
    if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(timeval)) {
        timeval tv; memcpy(&tv, v, sizeof tv); ns_t t = tv.tv_sec * SEC + tv.tv_usec * US; (opt == SO_RCVTIMEO ? c->rcvto : c->sndto) = t;
    }
    return 0;
}
static int envFcntl(int fd, int cmd, long arg) {
    EnvGuard g; sysPoint("fcntl");
    Conn *c = W->byFd(fd);
    if (!c || !c->open) { W->problem("fcntl on descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    if (cmd == F_GETFL) { if (fault(FM_FCNTL, 2, "fcntl(F_GETFL)")) { faultRec("fcntl(F_GETFL)", "EIO", c); errno = EIO; return -1; } return O_RDWR | (c->nonblock ? O_NONBLOCK : 0); }
    if (cmd == F_SETFL) { if (fault(FM_FCNTL, 2, "fcntl(F_SETFL)")) { faultRec("fcntl(F_SETFL)", "EIO", c); errno = EIO; return -1; } c->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    if (cmd == F_GETFD) return 0;
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!clientMode() || (!W->byFd(fd) && fd > 2 && fd < W->fdBase)) return (int)syscall(SYS_fcntl, fd, cmd, a);
    return envFcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!clientMode() || (!W->byFd(fd) && fd > 2 && fd < W->fdBase)) return (int)syscall(SYS_fcntl, fd, cmd, a);
    return envFcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long rq, ...) noexcept {
    va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
    Conn *c = W ? W->byFd(fd) : nullptr;
    if (!clientMode() || !c) return (int)syscall(SYS_ioctl, fd, rq, a);
    EnvGuard g; sysPoint("ioctl");
    if (rq == FIONBIO) { c->nonblock = *(int *)a != 0; return 0; }
    if (rq == FIONREAD) { int n = 0; for (auto &s : c->in) if (!s.kind && s.at <= W->now) n += (int)s.b.size(); *(int *)a = n; return 0; }
    errno = EINVAL; return -1;
}
ssize_t send(int fd, const void *p, size_t n, int fl) {
    if (!clientMode()) return syscall(SYS_sendto, fd, p, n, fl, nullptr, 0);
    tsanRead(p, n); return envSend(fd, (const char *)p, n, fl, "send");
}
ssize_t sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    if (!clientMode()) return syscall(SYS_sendto, fd, p, n, fl, a, l);
    tsanRead(p, n); return envSend(fd, (const char *)p, n, fl, "sendto");
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (!clientMode()) return syscall(SYS_sendmsg, fd, m, fl);
    std::string b; { EnvGuard g; for (size_t i = 0; i < m->msg_iovlen; i++) b.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); }
    ssize_t r = envSend(fd, b.data(), b.size(), fl, "sendmsg"); int e = errno; { EnvGuard g; std::string().swap(b); } errno = e; return r;
}
ssize_t recv(int fd, void *p, size_t n, int fl) {
    if (!clientMode()) return syscall(SYS_recvfrom, fd, p, n, fl, nullptr, nullptr);
    ssize_t r = envRecv(fd, (char *)p, n, fl, "recv"); if (r > 0) tsanWrite(p, (size_t)r); return r;
}
ssize_t recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
    if (!clientMode()) return syscall(SYS_recvfrom, fd, p, n, fl, a, l);
    ssize_t r = envRecv(fd, (char *)p, n, fl, "recvfrom"); if (r > 0) tsanWrite(p, (size_t)r); return r;
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    if (!clientMode()) return syscall(SYS_recvmsg, fd, m, fl);
    if (m->msg_iovlen < 1) return 0;
    return envRecv(fd, (char *)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, "recvmsg");
}
static bool simFd(int fd) { return W && (W->byFd(fd) || fd <= 2 || fd >= W->fdBase); }
ssize_t read(int fd, void *p, size_t n) {
    if (clientMode() && !simFd(fd) && (W->fileShort || W->fileErrAt)) {
        struct stat st {}; bool mine = !W->fileIno || (syscall(SYS_fstat, fd, &st) == 0 && st.st_ino == W->fileIno); if (mine) W->fileReads++; if (mine && W->fileErrAt && W->fileReads >= W->fileErrAt) { errno = EIO; return -1; }
        if (W->fileShort && n > W->fileShort) n = W->fileShort;
    }
    if (!clientMode() || !simFd(fd)) return syscall(SYS_read, fd, p, n);
    ssize_t r = envRecv(fd, (char *)p, n, 0, "read"); if (r > 0) tsanWrite(p, (size_t)r); return r;
}
ssize_t write(int fd, const void *p, size_t n) {
    if (!clientMode() || !simFd(fd)) return syscall(SYS_write, fd, p, n);
    tsanRead(p, n); return envSend(fd, (const char *)p, n, 0, "write");
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
    if (!clientMode() || !simFd(fd)) return syscall(SYS_writev, fd, v, cnt);
    if (fd <= 2) return syscall(SYS_writev, fd, v, cnt);   // stdio of the C++ runtime
    std::string b; { EnvGuard g; for (int i = 0; i < cnt; i++) b.append((char *)v[i].iov_base, v[i].iov_len); }
    ssize_t r = envSend(fd, b.data(), b.size(), 0, "writev"); int e = errno; { EnvGuard g; std::string().swap(b); } errno = e; return r;
}
ssize_t readv(int fd, const struct iovec *v, int cnt) {
    if (!clientMode() || !simFd(fd)) return syscall(SYS_readv, fd, v, cnt);
    return envRecv(fd, (char *)v[0].iov_base, v[0].iov_len, 0, "readv");
}
int close(int fd) {
    if (!clientMode() || !simFd(fd)) return (int)syscall(SYS_close, fd);
    EnvGuard g; sysPoint("close");
    Conn *c = W->byFd(fd);
    if (!c) { W->problem("close of descriptor " + std::to_string(fd) + " which the client does not own"); errno = EBADF; return -1; }
    if (!c->open) { W->problem("descriptor " + std::to_string(fd) + " closed twice"); W->recs[c->id].closes++; errno = EBADF; return -1; }
    c->open = false; W->socketsOpen--; W->recs[c->id].clientClosed = true; W->recs[c->id].closes++;
    W->note("  close #" + std::to_string(c->id));
    return 0;
}
int shutdown(int fd, int how) noexcept {
    if (!clientMode() || !simFd(fd)) return (int)syscall(SYS_shutdown, fd, how);
    EnvGuard g; sysPoint("shutdown");
    Conn *c = W->byFd(fd); if (!c || !c->open) { W->problem("shutdown on descriptor " + std::to_string(fd)); errno = EBADF; return -1; }
    if (how != SHUT_RD) c->shutW = true; if (how != SHUT_WR) c->shutR = true;
    return 0;
}
unsigned int sleep(unsigned int s) {
    if (!clientMode()) { timespec t{(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
    EnvGuard g; sysPoint("sleep"); W->now += s * SEC; return 0;
}
int usleep(useconds_t u) {
    if (!clientMode()) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
    EnvGuard g; sysPoint("usleep"); W->now += u * US; return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    if (!clientMode()) return (int)syscall(SYS_nanosleep, t, r);
    EnvGuard g; sysPoint("nanosleep"); W->now += t->tv_sec * SEC + t->tv_nsec; return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    if (!clientMode()) return (int)syscall(SYS_clock_nanosleep, c, fl, t, r);
    EnvGuard g; sysPoint("clock_nanosleep"); ns_t v = t->tv_sec * SEC + t->tv_nsec;
    if (fl & TIMER_ABSTIME) { ns_t abs = c == CLOCK_REALTIME ? v - BASE_EPOCH * SEC : v - 1000 * SEC; if (abs > W->now) W->now = abs; } else W->now += v;
    return 0;
}
time_t time(time_t *t) noexcept {
    time_t r;
    if (W == nullptr) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else r = BASE_EPOCH + W->now / SEC;
    if (t) *t = r; return r;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    if (W == nullptr) return (int)syscall(SYS_gettimeofday, tv, nullptr);
    tv->tv_sec = BASE_EPOCH + W->now / SEC; tv->tv_usec = (W->now % SEC) / US; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
    if (W == nullptr || envDepth > 0) return (int)syscall(SYS_clock_gettime, c, ts);
    // reading a clock in a loop lets a little time pass, so that clock-polling loops end
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = BASE_EPOCH + W->now / SEC; ts->tv_nsec = W->now % SEC; }
    else if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME) { ts->tv_sec = 1000 + W->now / SEC; ts->tv_nsec = W->now % SEC; }
    else return (int)syscall(SYS_clock_gettime, c, ts);
    return 0;
}
static int resolveCommon(const char *name, unsigned &ip) {   // 0 ok, else h_errno style
    EnvGuard g; sysPoint("resolve"); W->lastStep = S_CONNECT;
    int f = fault(FM_RESOLVE, 3, "resolve");
    if (f == 1) { faultRec("resolve", "host not found", nullptr); return HOST_NOT_FOUND; }
    if (f == 2) { faultRec("resolve", "temporary failure", nullptr); return TRY_AGAIN; }
    return resolveHost(name, ip) ? 0 : HOST_NOT_FOUND;
}
struct hostent *gethostbyname(const char *name) {
    if (!clientMode()) return nullptr;
    unsigned ip; int e = resolveCommon(name, ip); tsanWrite(&gHe, sizeof gHe);
    if (e) { h_errno = e; return nullptr; }
    EnvGuard g;
    snprintf(gHeName, sizeof gHeName, "%s", name); unsigned n = htonl(ip); memcpy(gHeAddr, &n, 4);
    gHeAddrs[0] = gHeAddr; gHeAddrs[1] = nullptr; gHeAl[0] = nullptr;
    gHe.h_name = gHeName; gHe.h_aliases = gHeAl; gHe.h_addrtype = AF_INET; gHe.h_length = 4; gHe.h_addr_list = gHeAddrs;
    if (W->onSyscall) W->onSyscall();    // another thread may run before the caller copies the result
    return &gHe;
}
struct hostent *gethostbyname2(const char *name, int) { return gethostbyname(name); }
int gethostbyname_r(const char *name, struct hostent *ret, char *buf, size_t bl, struct hostent **res, int *he) {
    if (!clientMode()) { *res = nullptr; *he = HOST_NOT_FOUND; return ENOENT; }
    unsigned ip; int e = resolveCommon(name, ip);
    if (e) { *he = e; *res = nullptr; return 0; }
    EnvGuard g;
    if (bl < 256) { *res = nullptr; *he = NETDB_INTERNAL; return ERANGE; }
    char **pp = (char **)((((uintptr_t)buf) + 15) & ~(uintptr_t)15); char *ad = (char *)(pp + 4); unsigned n = htonl(ip); memcpy(ad, &n, 4);
    pp[0] = ad; pp[1] = nullptr; pp[2] = nullptr; ret->h_name = ad + 8; snprintf(ad + 8, 64, "%s", name);
    ret->h_aliases = pp + 2; ret->h_addrtype = AF_INET; ret->h_length = 4; ret->h_addr_list = pp; *res = ret; return 0;
}
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    if (!clientMode()) return EAI_FAIL;
    unsigned ip; int e = node ? resolveCommon(node, ip) : HOST_NOT_FOUND;
    if (e) return e == TRY_AGAIN ? EAI_AGAIN : EAI_NONAME;
    if (h && h->ai_family != AF_UNSPEC && h->ai_family != AF_INET) return EAI_ADDRFAMILY;
    struct addrinfo *a = (struct addrinfo *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));   // counted as the client's
    sockaddr_in *s = (sockaddr_in *)(a + 1); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(ip); s->sin_port = htons(svc ? atoi(svc) : 0);
    a->ai_family = AF_INET; a->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
    a->ai_addrlen = sizeof(sockaddr_in); a->ai_addr = (sockaddr *)s; *res = a; return 0;
}
void freeaddrinfo(struct addrinfo *a) noexcept { while (a) { auto n = a->ai_next; free(a); a = n; } }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) noexcept {
    if (!clientMode()) return (int)syscall(SYS_getpeername, fd, a, l);
    EnvGuard g; Conn *c = W->byFd(fd); if (!c || !c->connected) { errno = ENOTCONN; return -1; }
    sockaddr_in s{}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(W->recs[c->id].ip); s.sin_port = htons(W->recs[c->id].port);
    memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; return 0;
}
}

// ================================================================ allocation accounting
namespace mc {
static const size_t TBL = 1 << 18;
struct Ent { const void *p; size_t n; };
static Ent *tbl = nullptr; static bool tracking = false; static size_t liveN = 0, liveB = 0, usedSlots = 0;
static size_t slot(const void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) >> 46; }
void allocTrackStart() {
    if (!tbl) tbl = (Ent *)calloc(TBL, sizeof(Ent));
    else if (liveN || usedSlots > 4096) { memset((void *)tbl, 0, TBL * sizeof(Ent)); usedSlots = 0; }
    liveN = liveB = 0; tracking = true;
}
void allocTrackStop() { tracking = false; }
AllocStat allocLive() { return {liveN, liveB}; }
static void rehash() {
    Ent *o = tbl; tbl = (Ent *)calloc(TBL, sizeof(Ent)); usedSlots = 0;
    for (size_t k = 0; k < TBL; k++) if (o[k].p && o[k].p != (void *)1) { size_t i = slot(o[k].p); while (tbl[i].p) i = (i + 1) & (TBL - 1); tbl[i] = o[k]; usedSlots++; }
    free(o);
}
static void onMalloc(const void *p, size_t n) {
    if (!tracking || envDepth > 0 || !W || !p) return;
    size_t i = slot(p);
    while (tbl[i].p && tbl[i].p != (void *)1) i = (i + 1) & (TBL - 1);
    if (!tbl[i].p) usedSlots++;
    tbl[i] = {p, n}; liveN++;
    if (usedSlots > TBL / 2) { EnvGuard g; rehash(); } liveB += n;
    if (liveB > (size_t)1500 << 20 || liveN > TBL / 2) { tracking = false; fatalHang("client allocates without bound"); }
}
static void onFree(const void *p) {
    if (!tracking || !liveN || !p) return;
    size_t i = slot(p);
    for (size_t k = 0; k < TBL && tbl[i].p; k++, i = (i + 1) & (TBL - 1))
        if (tbl[i].p == p) { liveN--; liveB -= tbl[i].n; tbl[i].p = (void *)1; return; }
}
}  // namespace mc
#ifdef MC_ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" void __sanitizer_malloc_hook(const volatile void *p, size_t n) { mc::onMalloc((const void *)p, n); }
extern "C" void __sanitizer_free_hook(const volatile void *p) { mc::onFree((const void *)p); }
#endif
#include <dlfcn.h>
namespace mc {
static bool errorQueue(const void *p) {
#ifdef MC_ASAN
    void *tr[24]; int tid; size_t n = __asan_get_alloc_stack((void *)p, tr, 24, &tid);
    for (size_t j = 0; j < n; j++) { Dl_info di; if (dladdr((char *)tr[j] - 1, &di) && di.dli_sname && !strncmp(di.dli_sname, "ERR_", 4)) return true; }
#endif
    return false;
}
AllocStat allocLeaked() {
    AllocStat r{0, 0}; bool t = tracking; tracking = false;
    for (size_t i = 0; tbl && i < TBL; i++) if (tbl[i].p && tbl[i].p != (void *)1 && !errorQueue(tbl[i].p)) { r.blocks++; r.bytes += tbl[i].n; }
    tracking = t; return r;
}
std::string allocDescribe() {
    std::string r;
#ifdef MC_ASAN
    bool t = tracking; tracking = false; int shown = 0;
    for (size_t i = 0; tbl && i < TBL && shown < 3; i++) if (tbl[i].p && tbl[i].p != (void *)1 && !errorQueue(tbl[i].p)) {
        void *tr[24]; int tid; size_t n = __asan_get_alloc_stack((void *)tbl[i].p, tr, 24, &tid);
        r += " [" + std::to_string(tbl[i].n) + " bytes at"; char b[512];
        int k = 0;
        for (size_t j = 0; j < n && k < 6; j++) {
            __sanitizer_symbolize_pc((char *)tr[j] - 1, "%f", b, sizeof b);
            std::string f = b; if (f.find("operator new") != std::string::npos || f.find("malloc") != std::string::npos || f.find("std::") == 0) continue;
            r += (k ? " < " : " ") + f.substr(0, 90); k++;
        }
        r += "]"; shown++;
    }
    tracking = t;
#endif
    return r;
}
}  // namespace mc
