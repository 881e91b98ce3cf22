// Uniform access to the six client classes of the library (3 kinds x C / C++ interface).
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "env.h"
namespace mc {
struct AddrSpec { std::string addr, name; };
struct AttSpec { std::string file, name, cid; };
struct MsgSpec {
    bool html = false; AddrSpec from; std::vector<AddrSpec> to, cc, bcc; std::string subject, body; std::vector<AttSpec> atts;
};
struct CredSpec { std::string user, pass; int method = 0; };   // method 0 implicit 1 plain 2 login 3 xoauth2
struct IClient {
    int kind = 0, api = 0;
    virtual ~IClient() {}
    virtual int send(const MsgSpec &m) = 0;      // builds the message, sends, destroys the message
    virtual std::string log() = 0;
    virtual void setBatch(bool) = 0; virtual void setTimeout(unsigned) = 0; virtual void setCred(const CredSpec &) = 0;
    virtual void setServer(const std::string &) = 0; virtual void setPort(unsigned) = 0; virtual void setSelf(bool) = 0;
    virtual std::string server() = 0; virtual unsigned port() = 0; virtual bool batch() = 0; virtual unsigned timeout() = 0;
    virtual bool hasCred() = 0; virtual CredSpec cred() = 0; virtual bool self() = 0;
    virtual IClient *copy() = 0; virtual IClient *moved() = 0;
    virtual void assign(IClient &) = 0; virtual void assignMove(IClient &) = 0;
};
IClient *newClient(int kind, int api, const std::string &server, unsigned port);
std::string settingsOf(IClient &c);
}  // namespace mc
