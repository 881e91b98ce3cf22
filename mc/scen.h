// Scenario engine: runs send calls of the real clients in a World and compares what happened with the server's truth.
#pragma once
#include <functional>
#include <memory>
#include <set>
#include "client.h"
#include "core.h"
namespace mc {
struct Scn {
    int kind = PLAIN, api = 0; bool batch = false; unsigned timeout = 5; bool hasCred = false; CredSpec cred; bool self = false;
    std::string host = "mail.test"; unsigned port = 2525; ServerCfg srv; size_t minSecret = 5;
    std::string str() const;
};
Scn scn(int kind, int api = 0, bool cred = false, bool batch = false);
IClient *make(const Scn &s);

struct SendRes { int no = 0, rc = 0; std::string log; size_t cmd0 = 0, cmd1 = 0, txn0 = 0, txn1 = 0, flt0 = 0, flt1 = 0, con0 = 0, con1 = 0, prb0 = 0, prt0 = 0, auth0 = 0, auth1 = 0; ns_t t0 = 0, t1 = 0, lastAct = 0; MsgSpec msg; bool freshSession = false, wasBatch = false, retClosed = false; int lastConn = -1, retQuits = 0, firstConn = -1; };
// one environment plus the sends performed in it
struct Run {
    World w; std::vector<SendRes> sends; Scn def; World *prev;
    explicit Run(const Scn &s); ~Run();
    SendRes &send(IClient *c, const MsgSpec &m);
    void dtor(std::unique_ptr<IClient> &c);       // destroys the client, with time check
    ns_t dtorStart = 0, dtorEnd = 0, dtorAct = 0;
};
MsgSpec msgOf(int variant, int serial = 1);       // library of ordinary messages
void judgeLeak(const std::string &what);   // ends the allocation accounting: memory that every one of 4 runs of the same operations leaves behind is a leak
const std::vector<std::string> &oddTexts();       // texts that mean something to some format, encoder or shell
std::string msgDesc(const MsgSpec &m);

// ---- server deviations
struct DevOpt { std::string what; std::function<void(Reply &)> f; };
enum Menu : unsigned {
    M_REFUSE = 1, M_CODES = 2, M_GARBAGE = 4, M_SILENT = 8, M_CLOSE = 16, M_AFTER = 32, M_PARTIAL = 64, M_LONG = 128, M_MULTI = 256, M_DELAY = 512,
    M_TLS = 1024, M_SPLIT = 2048, M_WEIRD = 4096, M_LOST = 8192, M_ODD = 16384, M_TEXTS = 32768,
    M_BASIC = M_REFUSE | M_SILENT | M_CLOSE | M_AFTER | M_TLS,
    M_ALLFAIL = M_REFUSE | M_CODES | M_GARBAGE | M_SILENT | M_CLOSE | M_AFTER | M_PARTIAL | M_TLS | M_LOST
};
std::vector<DevOpt> devMenu(const StepCtx &c, const Reply &good, unsigned menu, unsigned timeout);
void applyMenu(StepCtx &c, Reply &r, unsigned menu, unsigned timeout);      // one dev() choice

// ---- oracle
std::vector<int> plan(const Scn &s, const MsgSpec &m, bool fresh);          // steps of an undisturbed send
std::set<int> codesOf(int step, const Scn &s);                              // documented error and timeout codes
int timeoutCode(int step, const Scn &s);
struct Expect { bool known = true; std::set<int> rc; std::string why; bool clean = true; };
Expect expected(Run &r, const SendRes &s, const Scn &sc);
std::vector<std::string> rcptList(const MsgSpec &m);
std::string angle(const std::string &s);                                    // address in an envelope argument

// ---- monitors (each reports through violate)
void monResult(Run &r, const SendRes &s, const Scn &sc);         // C02
void monSuccess(Run &r, const SendRes &s, const Scn &sc);        // C01
void monEnvelope(Run &r, const SendRes &s, const Scn &sc);       // C03
void monNoData(Run &r, const SendRes &s, const Scn &sc);         // C04
void monProtocol(Run &r);                                        // strict-server complaints
void monProblems(Run &r);                                        // descriptor discipline
void monClosed(Run &r);                                          // after destruction: everything closed once
void monContent(Run &r, const SendRes &s, const Scn &sc, unsigned what);   // MIME comparison of every accepted transaction
enum { MC_BODY = 1, MC_ATT = 2, MC_HEAD = 4, MC_STRUCT = 8, MC_ALL = 15 };
void monTime(Run &r, const SendRes &s, const Scn &sc);           // C10
void monClear(Run &r, const Scn &sc);                            // C16
void monLogSecret(Run &r, const SendRes &s, const Scn &sc);      // C19
void monLogComplete(Run &r, const SendRes &s, const Scn &sc);    // C20
void monSession(Run &r, const SendRes &s, const Scn &sc);        // C13
void setExtensions(Scn &s, std::vector<std::string> l);
std::vector<std::string> extensionList(std::string &d);             // chooses what the server advertises besides STARTTLS and AUTH
void monAuth(Run &r, const SendRes &s, const Scn &sc);           // C18
void outcomeOf(Run &r);
std::string outcomeText(Run &r);
std::string transcriptOf(Run &r, size_t cmd0);                   // client-visible behaviour for comparisons
std::string b64(const std::string &s); std::string unb64(const std::string &s, bool *ok = nullptr);

// ---- MIME
struct MimePart { std::vector<std::pair<std::string, std::string>> headers; std::string raw, content; std::string get(const std::string &h) const; int count(const std::string &h) const; };
struct Mime { std::vector<std::pair<std::string, std::string>> headers; std::string boundary; std::vector<MimePart> parts; bool closed = false; std::string err; std::string get(const std::string &h) const; int count(const std::string &h) const; };
Mime parseMime(const std::string &data);
std::string param(const std::string &v, const std::string &name);
std::string readFile(const std::string &f);
std::string mkFile(const std::string &name, const std::string &content);   // in the scratch directory, written once
}  // namespace mc
