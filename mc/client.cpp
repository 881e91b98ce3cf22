#include "client.h"
#include <map>
#include <memory>
#include <type_traits>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/htmlmessage.hpp"

namespace mc {
using RAM = jed_utils::RecommendedAuthenticationMethod;
static const RAM kRam[] = {RAM::kImplicit, RAM::kPlain, RAM::kLogin, RAM::kXOauth2};
static int ramIdx(RAM r) { for (int i = 0; i < 4; i++) if (kRam[i] == r) return i; return -1; }

// Address validation is expensive under the sanitizers: every distinct address is constructed once (by the real constructor) and then copied
template <class A> static const A &addrOf(const AddrSpec &a) {
    static std::map<std::pair<std::string, std::string>, std::unique_ptr<A>> known; EnvGuard g; auto &p = known[{a.addr, a.name}];
    if (!p) { try { if constexpr (std::is_same<A, jed_utils::MessageAddress>::value) p.reset(new A(a.addr.c_str(), a.name.c_str())); else p.reset(new A(a.addr, a.name)); } catch (...) { known.erase({a.addr, a.name}); throw; } }
    return *p;
}
template <class A> static std::vector<A> addrsOf(const std::vector<AddrSpec> &v) { std::vector<A> r; r.reserve(v.size()); for (auto &a : v) r.emplace_back(addrOf<A>(a)); return r; }
static std::vector<jed_utils::MessageAddress> cAddrs(const std::vector<AddrSpec> &v) { return addrsOf<jed_utils::MessageAddress>(v); }
static std::vector<jed_utils::cpp::MessageAddress> pAddrs(const std::vector<AddrSpec> &v) { return addrsOf<jed_utils::cpp::MessageAddress>(v); }

template <class C, class F> static int cSend(const MsgSpec &m, C &c, F) {
    auto to = cAddrs(m.to), cc = cAddrs(m.cc), bcc = cAddrs(m.bcc);
    std::vector<jed_utils::Attachment> at; at.reserve(m.atts.size()); for (auto &a : m.atts) at.emplace_back(a.file.c_str(), a.name.c_str(), a.cid.c_str());
    jed_utils::MessageAddress from(addrOf<jed_utils::MessageAddress>(m.from));
    auto p = [](auto &v) { return v.empty() ? nullptr : v.data(); };
    if (m.html) { jed_utils::HTMLMessage msg(from, p(to), to.size(), m.subject.c_str(), m.body.c_str(), p(cc), cc.size(), p(bcc), bcc.size(), p(at), at.size()); return c.sendMail(msg); }
    jed_utils::PlaintextMessage msg(from, p(to), to.size(), m.subject.c_str(), m.body.c_str(), p(cc), cc.size(), p(bcc), bcc.size(), p(at), at.size());
    return c.sendMail(msg);
}
template <class C> static int pSend(const MsgSpec &m, C &c) {
    auto to = pAddrs(m.to), cc = pAddrs(m.cc), bcc = pAddrs(m.bcc);
    std::vector<jed_utils::cpp::Attachment> at; at.reserve(m.atts.size()); for (auto &a : m.atts) at.emplace_back(a.file, a.name, a.cid);
    jed_utils::cpp::MessageAddress from(addrOf<jed_utils::cpp::MessageAddress>(m.from));
    if (m.html) { jed_utils::cpp::HTMLMessage msg(from, to, m.subject, m.body, cc, bcc, at); return c.sendMail(msg); }
    jed_utils::cpp::PlaintextMessage msg(from, to, m.subject, m.body, cc, bcc, at);
    return c.sendMail(msg);
}
template <class C> static auto selfSet(C &c, bool v, int) -> decltype(c.setAcceptSelfSignedCert(v)) { c.setAcceptSelfSignedCert(v); }
template <class C> static void selfSet(C &, bool, long) {}
template <class C> static auto selfGet(C &c, int) -> decltype((bool)c.getAcceptSelfSignedCert()) { return c.getAcceptSelfSignedCert(); }
template <class C> static bool selfGet(C &, long) { return false; }

template <class C, bool CPP> struct Impl : IClient {
    std::unique_ptr<C> c;
    Impl(C *p, int k, int a) : c(p) { kind = k; api = a; }
    int send(const MsgSpec &m) override { if constexpr (CPP) return pSend(m, *c); else return cSend(m, *c, 0); }
    std::string log() override { return c->getCommunicationLog(); }
    void setBatch(bool v) override { c->setBatchMode(v); }
    void setTimeout(unsigned v) override { c->setCommandTimeout(v); }
    void setCred(const CredSpec &s) override {
        if constexpr (CPP) { if (s.method) c->setCredentials(jed_utils::cpp::Credential(s.user, s.pass, kRam[s.method])); else c->setCredentials(jed_utils::cpp::Credential(s.user, s.pass)); }
        else { if (s.method) c->setCredentials(jed_utils::Credential(s.user.c_str(), s.pass.c_str(), kRam[s.method])); else c->setCredentials(jed_utils::Credential(s.user.c_str(), s.pass.c_str())); }
    }
    void setServer(const std::string &s) override { if constexpr (CPP) c->setServerName(s); else c->setServerName(s.c_str()); }
    void setPort(unsigned p) override { c->setServerPort(p); }
    void setSelf(bool v) override { selfSet(*c, v, 0); }
    std::string server() override { return c->getServerName(); }
    unsigned port() override { return c->getServerPort(); }
    bool batch() override { return c->getBatchMode(); }
    unsigned timeout() override { return c->getCommandTimeout(); }
    bool hasCred() override { return c->getCredentials() != nullptr; }
    CredSpec cred() override { auto *p = c->getCredentials(); CredSpec s; if (p) { s.user = p->getUsername(); s.pass = p->getPassword(); s.method = ramIdx(p->getRecommendedAuthOption()); } return s; }
    bool self() override { return selfGet(*c, 0); }
    IClient *copy() override { return new Impl(new C(*c), kind, api); }
    IClient *moved() override { return new Impl(new C(std::move(*c)), kind, api); }
    void assign(IClient &o) override { *c = *static_cast<Impl &>(o).c; }
    void assignMove(IClient &o) override { *c = std::move(*static_cast<Impl &>(o).c); }
};
IClient *newClient(int kind, int api, const std::string &s, unsigned port) {
    if (api == 0) {
        if (kind == PLAIN) return new Impl<jed_utils::SmtpClient, false>(new jed_utils::SmtpClient(s.c_str(), port), kind, api);
        if (kind == OPP) return new Impl<jed_utils::OpportunisticSecureSMTPClient, false>(new jed_utils::OpportunisticSecureSMTPClient(s.c_str(), port), kind, api);
        return new Impl<jed_utils::ForcedSecureSMTPClient, false>(new jed_utils::ForcedSecureSMTPClient(s.c_str(), port), kind, api);
    }
    if (kind == PLAIN) return new Impl<jed_utils::cpp::SmtpClient, true>(new jed_utils::cpp::SmtpClient(s, port), kind, api);
    if (kind == OPP) return new Impl<jed_utils::cpp::OpportunisticSecureSMTPClient, true>(new jed_utils::cpp::OpportunisticSecureSMTPClient(s, port), kind, api);
    return new Impl<jed_utils::cpp::ForcedSecureSMTPClient, true>(new jed_utils::cpp::ForcedSecureSMTPClient(s, port), kind, api);
}
std::string settingsOf(IClient &c) {
    std::string r = c.server() + ":" + std::to_string(c.port()) + " batch=" + std::to_string(c.batch()) + " timeout=" + std::to_string(c.timeout()) + " self=" + std::to_string(c.self());
    if (c.hasCred()) { auto k = c.cred(); r += " cred=" + k.user + "/" + k.pass + "/" + std::to_string(k.method); } else r += " nocred";
    return r;
}
}  // namespace mc
