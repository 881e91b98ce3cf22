// Simulated operating environment (sockets, resolver, clock) and SMTP/TLS peer for the real client code.
// Every nondeterministic answer of the environment is a choice point of the explorer (core.h).
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

using ns_t = int64_t;
constexpr ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

enum Kind { PLAIN = 0, OPP = 1, FORCED = 2 };
const char *kindName(int k);

enum Step { S_CONNECT, S_GREET, S_EHLO, S_STARTTLS, S_TLS, S_EHLO2, S_AUTH, S_AUTH_USER, S_AUTH_PASS, S_MAIL, S_RCPT,
            S_DATA, S_EOD, S_QUIT, S_OTHER, S_NSTEPS };
const char *stepName(int s);

enum CertKind { CERT_GOOD, CERT_SELF, CERT_UNKNOWNCA, CERT_EXPIRED, CERT_NOTYET, CERT_WRONGHOST, CERT_SELF_WRONGHOST,
                CERT_UNTRUSTED_CHAIN, CERT_SELF_EXPIRED, CERT_SAN_OTHER, CERT_CLIENT_ONLY, CERT_CHAIN, CERT_CHAIN_MISSING, CERT_CHAIN_EXPIRED, CERT_CHAIN_NONCA, CERT_NKINDS,
                CERT_WILD = CERT_NKINDS, CERT_IP, CERT_IPNAME, CERT_ALL };
const char *certName(int c);

enum After { A_NONE, A_FIN, A_RST };
enum TlsAct { T_OK, T_SILENT, T_CLOSE, T_RESET, T_GARBAGE, T_ALERT, T_TRUNC_SILENT, T_TRUNC_CLOSE, T_CLOSE_AFTER };

struct Reply {
    std::string text;             // bytes to send (complete reply incl. CRLF), may be empty = silent
    bool effect = true;           // the server performs the state transition of a positive answer
    bool answered = true;         // a complete well-formed reply is sent within the time limit
    int code = 0;                 // reply code as the client must see it (-1: none)
    ns_t delay = 30 * MS;
    std::vector<size_t> cuts;     // split positions in text (segments / TLS records)
    ns_t gap = 1 * MS;            // delay between the pieces
    bool rawCuts = false;         // TLS: cut the encrypted byte stream instead of making separate records
    int after = A_NONE;
    TlsAct tls = T_OK; int tlsArg = 0;   // for S_TLS only
    std::string what;             // label of the deviation
};

struct StepCtx { int conn; int step; int idx; bool tls; std::string line; int sendNo; int stepNo; };

struct ServerCfg {
    bool implicitTls = false;
    int plainPort = 0;            // takes a TLS hello for a command: 1 answers 500, 2 ignores it, 3 closes, 4 takes it quietly as an empty line
    std::vector<std::string> ehloPlain{"SIZE 35882577", "8BITMIME", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2", "SMTPUTF8"};
    std::vector<std::string> ehloTls{"SIZE 35882577", "8BITMIME", "AUTH PLAIN LOGIN XOAUTH2", "SMTPUTF8"};
    int cert = CERT_GOOD;
    int tlsMax = 13;
    int tickets = 0;
    int ciphers = 0;              // 0 ordinary, 1 none with encryption, 2 none with authentication
    bool offersStartTls() const;
};

struct CmdRec { int conn, sendNo, step; bool tls; std::string line; std::string reply; int code; bool answered; ns_t at; int after = 0; bool effect = true; };
struct AuthRec { int conn, sendNo; bool tls; std::string mech; std::vector<std::string> payloads; bool accepted = false; };
struct Txn {
    int conn, sendNo; bool tls; std::string from;
    std::vector<std::string> rcptOk, rcptBad;
    bool dataOk = false;          // server answered 354
    bool ended = false;           // end-of-data seen
    bool accepted = false;        // 250 answer to end of data was issued completely
    bool accEffect = false;       // the server took responsibility (answer may have been lost)
    std::string raw, data;        // as received / dot-unstuffed
    int quitAfter = 0;
};
struct ConnRec {
    int id = 0, fd = -1; std::string host; unsigned ip = 0; int port = 0; int sendNo = 0;
    bool connected = false, clientClosed = false, tlsUp = false, quit = false;
    int greeted = 0, ehlos = 0, quits = 0, closes = 0;
    std::string plainBytes;       // application bytes received outside TLS
    std::string appBytes;         // application bytes received inside TLS
    bool plainAfterTls = false;   // client wrote non-TLS bytes after TLS start
    std::string tlsErr, weak;     // weak: why the TLS session protects nothing
};

// which system calls may be made to fail (as deviations)
enum FaultMask : unsigned {
    FM_SOCKET = 1, FM_RESOLVE = 2, FM_FCNTL = 4, FM_CONNECT = 8, FM_SELECT = 16, FM_GETSOCKOPT = 32, FM_SETSOCKOPT = 64,
    FM_SEND_SHORT = 128, FM_SEND_ERR = 256, FM_RECV_ERR = 512, FM_EINTR = 1024, FM_SEND_STALL = 2048,
    FM_ALL = 0xfff
};
struct FaultRec { std::string call, what; int conn; int step; int sendNo; size_t cmdPos; };

struct Conn;
struct Server;

struct World {
    World(); ~World();
    World(const World &) = delete;
    // ---- configuration ----
    std::function<ServerCfg(const std::string &host, int connNo)> serverFor;
    std::function<void(StepCtx &, Reply &)> decide;
    std::function<int(const std::string &host)> resolveFault;
    std::function<void()> onSyscall;        // scheduler hook (thread exploration)
    unsigned faults = 0;
    int fdBase = 700;
    size_t fileShort = 0; int fileErrAt = 0, fileReads = 0; unsigned long fileIno = 0;   // reads of ordinary files: at most so many bytes at a time; an I/O error from the n-th read on, of the file with that number
    ns_t connectDelay = 20 * MS;
    std::map<std::string, unsigned> hosts;   // name -> IPv4 (host order); unknown names do not resolve
    bool recvAtBoundary = true;
    // ---- state ----
    ns_t now = 0, horizon = 0;
    int sendNo = 0;                         // number of the current sendMail call (1..), 0 outside
    std::vector<Conn *> conns;
    std::vector<ConnRec> recs;
    std::vector<CmdRec> cmds;
    std::vector<Txn> txns;
    std::vector<AuthRec> auths;
    std::vector<FaultRec> faultLog;
    std::vector<std::string> problems;      // environment-level violations (foreign descriptors, ...)
    std::vector<std::string> protocol;      // protocol violations seen by the server
    std::vector<std::string> wire;          // readable transcript
    std::map<int, int> stepCount;           // per step counters in current send
    ns_t lastServerActivity = 0;
    int nextFd;
    int socketsOpen = 0;
    long envCalls = 0, idleCalls = 0; ns_t idleAt = -1;
    bool hung = false;
    int lastStep = S_CONNECT;
    void note(const std::string &s);
    void problem(const std::string &s);
    uint64_t stateHash() const;
    void beginSend(); void endSend();
    Conn *byFd(int fd);
    std::string lastRcv;
};

extern thread_local World *W;               // world of the current thread (null: pass through)
extern thread_local int envDepth;           // >0 while executing environment/harness code
#ifdef MC_TSAN
void tsanIgnore(bool on);                   // the sanitizer does not look at what the environment and the harness do
void tsanWrite(const void *p, size_t n); void tsanRead(const void *p, size_t n);   // ... except for the caller's memory
struct EnvGuard { EnvGuard() { if (!envDepth++) tsanIgnore(true); } ~EnvGuard() { if (!--envDepth) tsanIgnore(false); } };
#else
inline void tsanWrite(const void *, size_t) {} inline void tsanRead(const void *, size_t) {}
struct EnvGuard { EnvGuard() { ++envDepth; } ~EnvGuard() { --envDepth; } };
#endif

void initTls(const std::string &certDir);   // once, before forking

// allocation accounting of client-mode allocations
void allocTrackStart(); void allocTrackStop();
struct AllocStat { size_t blocks, bytes; };
AllocStat allocLive();
std::string allocDescribe();
AllocStat allocLeaked();                     // as allocLive, without what the error queue of the TLS library keeps for reuse

std::string esc(const std::string &s, size_t max = 300);
[[noreturn]] void fatalHang(const std::string &why);   // implemented in core.cpp
ns_t realNowNs();
}  // namespace mc
