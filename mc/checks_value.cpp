// Value classes and client objects: C21 (values), C22 (copied and moved clients), C28 (arguments)
#include <algorithm>
#include <cstring>
#include <stdexcept>
#include "scen.h"
#include "credential.h"
#include "errorresolver.h"
#include "htmlmessage.h"
#include "plaintextmessage.h"
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "cpp/htmlmessage.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/credential.hpp"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
namespace mc {
namespace J = jed_utils; namespace P = jed_utils::cpp;
typedef std::string S;
static void note(const S &x) { EnvGuard g; scenarioNote(x); }

// ------------------------------------------------------------------ uniform access to an object of a value class
struct Obj {
    virtual ~Obj() {} virtual Obj *copy() const = 0; virtual Obj *moved() = 0; virtual void assign(const Obj &) = 0; virtual void assignMove(Obj &) = 0; virtual void read(S &) const = 0; virtual void set(int) {}
};
struct Family {
    S name; int variants = 0, setters = 0; bool selfMove = true;
    std::function<Obj *(int)> make; std::function<S(int)> model; std::function<S(const S &, int)> modelSet; std::function<S(const S &, const S &)> modelAssign;
    std::function<S(int)> what;
};
template <class A> static void readAddr(S &o, const A &a) { o += '{'; o += a.getEmailAddress(); o += '|'; o += a.getDisplayName(); o += '|'; o += (S)a; o += a == a ? '}' : '?'; }
static S addrModel(const S &e, const S &n) { return "{" + e + "|" + n + "|" + (n.empty() ? e : n + " <" + e + ">") + "}"; }
template <class A> static void readAtt(S &o, const A &a) { o += '['; o += a.getFilename(); o += '|'; o += a.getName(); o += '|'; o += a.getContentId(); o += '|'; o += a.getMimeType(); o += ']'; }
static S attModel(const S &f, const S &n, const S &c) { size_t p = f.rfind('.'); S e = p == S::npos ? "" : f.substr(p); return "[" + f + "|" + n + "|" + c + "|" + (e == ".png" ? "image/png" : e == ".txt" ? "text/plain" : "") + "]"; }
template <class T> struct Read;
template <> struct Read<J::MessageAddress> { static void go(S &o, const J::MessageAddress &a) { readAddr(o, a); } };
template <> struct Read<P::MessageAddress> { static void go(S &o, const P::MessageAddress &a) { readAddr(o, a); J::MessageAddress s = a.toStdMessageAddress(); readAddr(o, s); } };
template <> struct Read<J::Attachment> { static void go(S &o, const J::Attachment &a) { readAtt(o, a); } };
template <> struct Read<P::Attachment> { static void go(S &o, const P::Attachment &a) { readAtt(o, a); J::Attachment s = a.toStdAttachment(); readAtt(o, s); } };
template <class C> static void readCred(S &o, const C &c) { o += c.getUsername(); o += '|'; o += c.getPassword(); o += '|'; o += (char)('0' + (int)c.getRecommendedAuthOption()); }
template <> struct Read<J::Credential> { static void go(S &o, const J::Credential &c) { readCred(o, c); } };
template <> struct Read<P::Credential> { static void go(S &o, const P::Credential &c) { readCred(o, c); } };
template <> struct Read<J::ErrorResolver> { static void go(S &o, const J::ErrorResolver &e) { o += std::to_string(e.getErrorCode()); o += '|'; o += e.getErrorMessage(); } };
static void readMsg(S &o, const J::Message &m) {
    o += m.getMimeType(); o += ' '; readAddr(o, m.getFrom());
    auto l = [&](J::MessageAddress **p, size_t n) { o += '('; for (size_t i = 0; i < n; i++) readAddr(o, *p[i]); o += ')'; };
    l(m.getTo(), m.getToCount()); l(m.getCc(), m.getCcCount()); l(m.getBcc(), m.getBccCount()); for (size_t i = 0; i < m.getAttachmentsCount(); i++) readAtt(o, *m.getAttachments()[i]); o += m.getSubject(); o += '\1'; o += m.getBody();
}
static void readMsg(S &o, const P::Message &m) {
    o += m.getMimeType(); o += ' '; readAddr(o, m.getFrom());
    auto l = [&](const std::vector<P::MessageAddress> &v, size_t n) { o += v.size() == n ? '(' : '?'; for (auto &a : v) readAddr(o, a); o += ')'; };
    l(m.getTo(), m.getToCount()); l(m.getCc(), m.getCcCount()); l(m.getBcc(), m.getBccCount()); if (m.getAttachments().size() != m.getAttachmentsCount()) o += '?'; for (auto &a : m.getAttachments()) readAtt(o, a); o += m.getSubject(); o += '\1'; o += m.getBody();
}
template <class T> struct ObjOf : Obj {
    T v; std::function<void(T &, int)> *st;
    template <class... A> ObjOf(std::function<void(T &, int)> *s, A &&...a) : v(std::forward<A>(a)...), st(s) {}
    Obj *copy() const override { return new ObjOf(st, v); }
    Obj *moved() override { return new ObjOf(st, std::move(v)); }
    void assign(const Obj &o) override { v = static_cast<const ObjOf &>(o).v; }
    void assignMove(Obj &o) override { v = std::move(static_cast<ObjOf &>(o).v); }
    void read(S &o) const override { Read<T>::go(o, v); }
    void set(int k) override { if (st) (*st)(v, k); }
};
// messages: assignment between the two kinds goes through the base class
template <class B, class PT, class HT> struct MsgObj : Obj {
    std::unique_ptr<B> m; bool html;
    MsgObj(B *p, bool h) : m(p), html(h) {}
    Obj *copy() const override { if (html) return new MsgObj(new HT(static_cast<HT &>(*m)), true); return new MsgObj(new PT(static_cast<PT &>(*m)), false); }
    Obj *moved() override { if (html) return new MsgObj(new HT(std::move(static_cast<HT &>(*m))), true); return new MsgObj(new PT(std::move(static_cast<PT &>(*m))), false); }
    void assign(const Obj &x) override { auto &o = static_cast<const MsgObj &>(x); if (html != o.html) *m = *o.m; else if (html) static_cast<HT &>(*m) = static_cast<HT &>(*o.m); else static_cast<PT &>(*m) = static_cast<PT &>(*o.m); }
    void assignMove(Obj &x) override { auto &o = static_cast<MsgObj &>(x); if (html != o.html) *m = std::move(*o.m); else if (html) static_cast<HT &>(*m) = std::move(static_cast<HT &>(*o.m)); else static_cast<PT &>(*m) = std::move(static_cast<PT &>(*o.m)); }
    void read(S &o) const override { readMsg(o, *m); }
    void set(int) override {   // conversion to the C class: the result is an equal message, the source is unchanged
        if constexpr (std::is_same<B, P::Message>::value) { S a, b; readMsg(a, *m); if (html) { J::HTMLMessage c = static_cast<HT &>(*m); readMsg(b, c); } else { J::PlaintextMessage c = static_cast<PT &>(*m); readMsg(b, c); } if (a != b) violate("a message converted to the C class differs: " + esc(b) + " instead of " + esc(a)); }
    }
};
static S longText(size_t n) { S t; unsigned k = 0; while (t.size() < n) t += std::to_string(k++) + " text. "; t.resize(n); return t; }
static S dup(const S &m) { return m + m; }

template <class A> static Family addrFamily(const char *n, bool twice, bool real) {
    static const std::vector<AddrSpec> v{{"a@b.co", ""}, {"longer.address-1@sub.example.com", "Display Name"}, {"c_d@e.info", longText(300)}};
    static std::vector<std::unique_ptr<A>> proto; Family f; f.name = n; f.variants = 3; auto mk = [&](int i) { return A(v[(size_t)i].addr.c_str(), v[(size_t)i].name.c_str()); };
    if (proto.empty()) for (int i = 0; i < 3; i++) proto.emplace_back(new A(mk(i)));
    f.make = [real](int i) -> Obj * { if (real) return new ObjOf<A>(nullptr, v[(size_t)i].addr.c_str(), v[(size_t)i].name.c_str()); return new ObjOf<A>(nullptr, *proto[(size_t)i]); };
    f.model = [twice](int i) { S m = addrModel(v[(size_t)i].addr, v[(size_t)i].name); return twice ? dup(m) : m; }; f.what = [](int i) { return v[(size_t)i].addr; }; return f;
}
template <class A> static Family attFamily(const char *n, bool twice) {
    struct V { S f, n, c; }; static const std::vector<V> v{{"file.txt", "", ""}, {"/some/long/path/that/does/not/exist/picture.png", "A name.png", "cid-1@x"}, {S(200, 'p') + ".dat", longText(120), longText(90)}}; static const std::vector<S> cid{"", "new-id", longText(70)};
    static std::function<void(A &, int)> set = [](A &a, int k) { a.setContentId(cid[(size_t)k].c_str()); }; Family f; f.name = n; f.variants = 3; f.setters = 3;
    f.make = [](int i) -> Obj * { return new ObjOf<A>(&set, v[(size_t)i].f.c_str(), v[(size_t)i].n.c_str(), v[(size_t)i].c.c_str()); };
    f.model = [twice](int i) { S m = attModel(v[(size_t)i].f, v[(size_t)i].n, v[(size_t)i].c); return twice ? dup(m) : m; };
    f.modelSet = [twice](const S &m, int k) { S h = twice ? m.substr(0, m.size() / 2) : m; size_t b = h.rfind('|'), a = h.rfind('|', b - 1); h = h.substr(0, a + 1) + cid[(size_t)k] + h.substr(b); return twice ? dup(h) : h; };
    f.what = [](int i) { return v[(size_t)i].f.substr(0, 20); }; return f;
}
template <class C> static Family credFamily(const char *n) {
    struct V { S u, p; int m; }; static const std::vector<V> v{{"u", "p", 0}, {"user@example.com", longText(150), 3}, {longText(80), "pw", -1}}; using R = J::RecommendedAuthenticationMethod;
    static const std::vector<S> val{"new user name", "x", longText(60)};
    static std::function<void(C &, int)> set = [](C &c, int k) { if (k == 0) c.setUsername(val[0].c_str()); else if (k == 1) c.setPassword(val[1].c_str()); else if (k == 2) c.setRecommendedAuthOption(R::kLogin); else if (k == 3) c.setPassword(val[2].c_str()); else { c.setUsername(c.getUsername()); c.setPassword(c.getPassword()); } };
    Family f; f.name = n; f.variants = 3; f.setters = 5;
    f.make = [](int i) -> Obj * { auto &x = v[(size_t)i]; if (x.m < 0) return new ObjOf<C>(&set, x.u.c_str(), x.p.c_str()); return new ObjOf<C>(&set, x.u.c_str(), x.p.c_str(), (R)x.m); };
    f.model = [](int i) { auto &x = v[(size_t)i]; return x.u + "|" + x.p + "|" + (char)('0' + std::max(0, x.m)); };
    f.modelSet = [](const S &m, int k) { size_t b = m.rfind('|'), a = m.find('|'); S u = m.substr(0, a), p = m.substr(a + 1, b - a - 1), o = m.substr(b + 1); if (k == 0) u = val[0]; else if (k == 1) p = val[1]; else if (k == 2) o = "2"; else if (k == 3) p = val[2]; return u + "|" + p + "|" + o; };
    f.what = [](int i) { return v[(size_t)i].u.substr(0, 20); }; return f;
}
static Family errFamily() {
    static const std::vector<int> v{-1, -98, 535, 12345}; Family f; f.name = "ErrorResolver"; f.variants = 4; f.make = [](int i) -> Obj * { return new ObjOf<J::ErrorResolver>(nullptr, v[(size_t)i]); };
    f.model = [](int i) { J::ErrorResolver e(v[(size_t)i]); S o; Read<J::ErrorResolver>::go(o, e); return o; }; f.what = [](int i) { return std::to_string(v[(size_t)i]); }; return f;
}
// message variants: lists as {address index}, -1 in the counts: pointer absent
struct MV { bool html, single; std::vector<int> to, cc, bcc, att; bool nullLists; const char *subj, *body; };
static S gLong1 = longText(700);
static const std::vector<MV> &msgVariants() {
    static const std::vector<MV> v{
        {false, true, {0}, {}, {}, {}, true, "Subject", "Body"}, {true, true, {1}, {2}, {0}, {0}, true, "", gLong1.c_str()},
        {false, false, {0, 1, 2}, {1, 0}, {2}, {1, 0}, true, "S", "B"}, {true, false, {}, {}, {}, {}, true, nullptr, nullptr},
        {false, false, {2}, {}, {}, {}, false, "non-null empty lists", ""}, {true, false, {}, {2, 2}, {}, {0, 0, 1}, true, "no To", "x"}};
    return v;
}
static const std::vector<AddrSpec> MA{{"a@b.co", ""}, {"longer.address-1@sub.example.com", "Display Name"}, {"c_d@e.info", longText(100)}};
struct AttV { S f, n, c; }; static const std::vector<AttV> MT{{"file.txt", "", ""}, {"/no/such/dir/picture.png", "A name.png", "cid-1@x"}};
static S msgModel(const MV &m) {
    S o = m.html ? "text/html " : "text/plain "; o += addrModel(MA[1].addr, MA[1].name);
    for (auto *l : {&m.to, &m.cc, &m.bcc}) { o += '('; for (int i : *l) o += addrModel(MA[(size_t)i].addr, MA[(size_t)i].name); o += ')'; } for (int i : m.att) o += attModel(MT[(size_t)i].f, MT[(size_t)i].n, MT[(size_t)i].c);
    return o + (m.subj ? m.subj : "") + "\1" + (m.body ? m.body : "");
}
static S mimeSwap(const S &d, const S &s) { return d.substr(0, d.find(' ')) + s.substr(s.find(' ')); }
static Family cMsgFamily() {
    typedef MsgObj<J::Message, J::PlaintextMessage, J::HTMLMessage> O; static std::vector<J::MessageAddress> ad; static std::vector<J::Attachment> at; if (ad.empty()) { ad.reserve(3); for (auto &a : MA) ad.emplace_back(a.addr.c_str(), a.name.c_str()); at.reserve(2); for (auto &a : MT) at.emplace_back(a.f.c_str(), a.n.c_str(), a.c.c_str()); }
    Family f; f.name = "Message"; f.variants = (int)msgVariants().size(); f.modelAssign = mimeSwap; f.model = [](int i) { return msgModel(msgVariants()[(size_t)i]); }; f.what = [](int i) { return msgVariants()[(size_t)i].html ? "HTML variant " + std::to_string(i) : "plain variant " + std::to_string(i); };
    f.make = [](int i) -> Obj * {
        auto &m = msgVariants()[(size_t)i]; std::vector<J::MessageAddress> to, cc, bcc; std::vector<J::Attachment> as; to.reserve(4); cc.reserve(4); bcc.reserve(4); as.reserve(4);
        for (int k : m.to) to.push_back(ad[(size_t)k]); for (int k : m.cc) cc.push_back(ad[(size_t)k]); for (int k : m.bcc) bcc.push_back(ad[(size_t)k]); for (int k : m.att) as.push_back(at[(size_t)k]);
        auto p = [&](auto &v) { return v.empty() && m.nullLists ? nullptr : v.data(); };
        if (m.single) { const J::MessageAddress *c = cc.empty() ? nullptr : &cc[0], *b = bcc.empty() ? nullptr : &bcc[0]; if (m.html) return new O(new J::HTMLMessage(ad[1], to[0], m.subj, m.body, c, b, p(as), as.size()), true); return new O(new J::PlaintextMessage(ad[1], to[0], m.subj, m.body, c, b, p(as), as.size()), false); }
        if (m.html) return new O(new J::HTMLMessage(ad[1], p(to), to.size(), m.subj, m.body, p(cc), cc.size(), p(bcc), bcc.size(), p(as), as.size()), true);
        return new O(new J::PlaintextMessage(ad[1], p(to), to.size(), m.subj, m.body, p(cc), cc.size(), p(bcc), bcc.size(), p(as), as.size()), false);
    }; return f;
}
static Family pMsgFamily() {
    typedef MsgObj<P::Message, P::PlaintextMessage, P::HTMLMessage> O; static std::vector<P::MessageAddress> ad; static std::vector<P::Attachment> at; if (ad.empty()) { ad.reserve(3); for (auto &a : MA) ad.emplace_back(a.addr, a.name); at.reserve(2); for (auto &a : MT) at.emplace_back(a.f, a.n, a.c); }
    static std::vector<MV> v; if (v.empty()) for (auto m : msgVariants()) { if (m.to.empty()) m.to = {2}; if (!m.subj) m.subj = ""; if (!m.body) m.body = "b"; v.push_back(m); }
    Family f; f.name = "C++ Message"; f.variants = (int)v.size(); f.setters = 1; f.selfMove = false; f.modelSet = [](const S &m, int) { return m; }; f.modelAssign = mimeSwap; f.model = [](int i) { return msgModel(v[(size_t)i]); }; f.what = [](int i) { return v[(size_t)i].html ? "HTML variant " + std::to_string(i) : "plain variant " + std::to_string(i); };
    f.make = [](int i) -> Obj * {
        auto &m = v[(size_t)i]; std::vector<P::MessageAddress> to, cc, bcc; std::vector<P::Attachment> as; for (int k : m.to) to.push_back(ad[(size_t)k]); for (int k : m.cc) cc.push_back(ad[(size_t)k]); for (int k : m.bcc) bcc.push_back(ad[(size_t)k]); for (int k : m.att) as.push_back(at[(size_t)k]);
        if (m.html) return new O(new P::HTMLMessage(ad[1], to, m.subj, m.body, cc, bcc, as), true); return new O(new P::PlaintextMessage(ad[1], to, m.subj, m.body, cc, bcc, as), false);
    }; return f;
}

// ------------------------------------------------------------------ all operation sequences over a few objects
enum { O_NEW, O_COPY, O_MOVE, O_ASSIGN, O_ASSIGNMOVE, O_DESTROY, O_SET };
struct Op { int k, i, j; };
enum { EMPTY, VALUE, GONE };
struct Seq {
    const Family &f; int slots, depth; std::vector<Op> ops, last; uint64_t runs = 0;
    std::vector<int> st; std::vector<std::vector<S>> model;   // model[level][slot]
    Seq(const Family &F, int n, int d) : f(F), slots(n), depth(d), st((size_t)n, EMPTY), model((size_t)d + 1, std::vector<S>((size_t)n)) {}
    S text(const std::vector<Op> &v) { static const char *nm[] = {"new", "copy", "move", "assign", "move-assign", "destroy", "set"}; S r; for (auto &o : v) { r += r.empty() ? "" : ", "; r += nm[o.k]; r += " " + S(1, (char)('a' + o.i)); if (o.k == O_NEW) r += "(" + f.what(o.j) + ")"; else if (o.k == O_SET) r += "#" + std::to_string(o.j); else if (o.k != O_DESTROY) r += S(" from ") + (char)('a' + o.j); } return r; }
    std::vector<Op> enabled() const {
        std::vector<Op> v; int fresh = -1; for (int i = 0; i < slots && fresh < 0; i++) if (st[(size_t)i] == EMPTY) fresh = i;
        if (fresh >= 0) { for (int k = 0; k < f.variants; k++) v.push_back({O_NEW, fresh, k}); for (int j = 0; j < slots; j++) if (st[(size_t)j] == VALUE) { v.push_back({O_COPY, fresh, j}); v.push_back({O_MOVE, fresh, j}); } }
        for (int i = 0; i < slots; i++) if (st[(size_t)i] != EMPTY) {
            for (int j = 0; j < slots; j++) if (st[(size_t)j] == VALUE) { v.push_back({O_ASSIGN, i, j}); if (i != j || f.selfMove) v.push_back({O_ASSIGNMOVE, i, j}); }
            v.push_back({O_DESTROY, i, 0}); if (st[(size_t)i] == VALUE) for (int k = 0; k < f.setters; k++) v.push_back({O_SET, i, k});
        }
        return v;
    }
    void apply(const Op &o, std::vector<int> &s, const std::vector<S> &m0, std::vector<S> &m) const {
        m = m0; size_t i = (size_t)o.i, j = (size_t)o.j; auto asg = [&] { return i == j || m0[i].empty() || !f.modelAssign ? m0[j] : f.modelAssign(m0[i], m0[j]); };
        switch (o.k) { case O_NEW: s[i] = VALUE; m[i] = f.model(o.j); break; case O_COPY: s[i] = VALUE; m[i] = m0[j]; break; case O_MOVE: s[i] = VALUE; m[i] = m0[j]; s[j] = GONE; break;
            case O_ASSIGN: m[i] = asg(); s[i] = VALUE; break; case O_ASSIGNMOVE: m[i] = asg(); if (i != j) s[j] = GONE; s[i] = VALUE; break; case O_DESTROY: s[i] = EMPTY; m[i].clear(); break; case O_SET: m[i] = f.modelSet(m0[i], o.j); break; }
    }
    void go() {
        auto en = enabled();
        for (auto &o : en) {
            auto s0 = st; size_t l = ops.size(); apply(o, st, model[l], model[l + 1]); ops.push_back(o);
            if ((int)ops.size() == depth) exec(); else go();
            ops.pop_back(); st = s0;
        }
    }
    void exec() {
        runs++; size_t known = 0; while (known < last.size() && known < ops.size() && !memcmp(&last[known], &ops[known], sizeof(Op))) known++; last = ops; if (runs == 1) known = 0;
        S leak; int pass = 0; for (; pass < 4; pass++) { leak.clear(); once(known, leak); if (leak.empty()) break; }   // what is created once and kept is no leak
        if (pass == 4) violate(leak);
    }
    void once(size_t known, S &leak) {
        std::vector<Obj *> o((size_t)slots, nullptr); std::vector<int> s((size_t)slots, EMPTY); S got; got.reserve(8192); size_t before; S what; allocTrackStart(); envDepth--; before = allocLive().blocks; std::vector<S> dummy;
        for (size_t n = 0; n < ops.size(); n++) {
            auto &p = ops[n]; size_t i = (size_t)p.i, j = (size_t)p.j;
            switch (p.k) { case O_NEW: o[i] = f.make(p.j); s[i] = VALUE; break; case O_COPY: o[i] = o[j]->copy(); s[i] = VALUE; break; case O_MOVE: o[i] = o[j]->moved(); s[i] = VALUE; s[j] = GONE; break;
                case O_ASSIGN: o[i]->assign(*o[j]); s[i] = VALUE; break; case O_ASSIGNMOVE: o[i]->assignMove(*o[j]); if (i != j) s[j] = GONE; s[i] = VALUE; break; case O_DESTROY: delete o[i]; o[i] = nullptr; s[i] = EMPTY; break; case O_SET: o[i]->set(p.j); break; }
            if (n < known && n + 1 < ops.size()) continue;
            for (size_t k = 0; k < (size_t)slots; k++) if (s[k] == VALUE) { got.clear(); o[k]->read(got); if (got != model[n + 1][k]) { EnvGuard g; violate(f.name + ": after " + text(std::vector<Op>(ops.begin(), ops.begin() + (long)n + 1)) + ": object " + S(1, (char)('a' + k)) + " is " + esc(got) + " instead of " + esc(model[n + 1][k])); } }
        }
        for (auto *x : o) delete x;
        envDepth++; auto lv = allocLive(); if (lv.blocks != before) leak = f.name + ": after " + text(ops) + ": " + std::to_string(lv.blocks) + " blocks are never released:" + allocDescribe();
        allocTrackStop();
    }
};
static const std::vector<std::function<Family()>> &families() {
    static const std::vector<std::function<Family()>> v{[] { return addrFamily<J::MessageAddress>("MessageAddress", false, false); }, [] { return addrFamily<P::MessageAddress>("C++ MessageAddress", true, false); }, [] { return attFamily<J::Attachment>("Attachment", false); }, [] { return attFamily<P::Attachment>("C++ Attachment", true); },
        [] { return credFamily<J::Credential>("Credential"); }, [] { return credFamily<P::Credential>("C++ Credential"); }, [] { return errFamily(); }, [] { return cMsgFamily(); }, [] { return pMsgFamily(); }};
    return v;
}
static void runSeq(const Family &f, int slots, int depth) {
    World w; World *prev = W; W = &w; envDepth++; note(f.name); Seq q(f, slots, depth); int split = std::min(2, depth - 1);
    for (int k = 0; k < split; k++) { auto en = q.enabled(); envDepth--; int c = pick((int)en.size(), "operation"); envDepth++; size_t l = q.ops.size(); auto s0 = q.st; q.apply(en[(size_t)c], q.st, q.model[l], q.model[l + 1]); q.ops.push_back(en[(size_t)c]); }
    q.go(); countEval(q.runs, 0); outcome(f.name); W = prev; envDepth--;
}
static void c21Seq(int slots, int dq, int dt) { int k = pick((int)families().size(), "class"); Family f; { EnvGuard g; f = families()[(size_t)k](); } int d = tierSel(dq, dt); if (k >= 7) d--; if (k == 7 && thorough() && slots == 2) d++; runSeq(f, slots, d); }
// every pair of lengths of a text field: an object with the one assigned, copied, moved from an object with the other
static const std::vector<int> &lens() { static const std::vector<int> q{1, 2, 3, 5, 7, 8, 9, 14, 15, 16, 17, 20, 22, 23, 24, 30, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}, t = [] { std::vector<int> v; for (int i = 1; i <= 140; i++) v.push_back(i); for (int i : q) if (i > 140) v.push_back(i); return v; }(); return thorough() ? t : q; }
// C23: texts that both interfaces hand out
template <class A, class B> static uint64_t textsOf(const char *cls) {
    uint64_t n = 0; auto cmp = [&](const S &a, const S &b, const S &what) { n++; if (a != b) { EnvGuard g; violate(S(cls) + ": " + what + " is " + esc(a, 200) + " in C and " + esc(b, 200) + " in C++"); } };
    for (int c = -1100; c <= 1100; c++) { char *p = A::getErrorMessage(c); S a = p; delete[] p; cmp(a, B::getErrorMessage(c), "the message of error " + std::to_string(c)); char buf[1024]; int r = A::getErrorMessage_r(c, buf, sizeof buf); S out, w = "the reentrant message of error " + std::to_string(c); int q = B::getErrorMessage_r(c, out); cmp(buf, out, w); cmp(std::to_string(r), std::to_string(q), "the result of getting " + w); }
    for (int l : lens()) { S name; for (int i = 0; i < l; i++) name += (char)('a' + i % 26); A x(name.c_str(), 25); B y(name, 25); cmp(x.getServerName(), y.getServerName(), "a server name of " + std::to_string(l)); S other = name + "2"; x.setServerName(other.c_str()); y.setServerName(other); cmp(x.getServerName(), y.getServerName(), "a changed server name of " + std::to_string(l)); cmp(x.getCommunicationLog(), y.getCommunicationLog(), "the log of an unused client");
        J::Credential jc(name.c_str(), other.c_str()); P::Credential pc(name.c_str(), other.c_str()); x.setCredentials(jc); y.setCredentials(pc); S a, b; readCred(a, *x.getCredentials()); readCred(b, *y.getCredentials()); cmp(a, b, "the credential"); }
    return n;
}
void c23Texts() { int k = pick(3, "class"); World w; World *prev = W; W = &w; note("texts"); uint64_t n = k == 0 ? textsOf<J::SmtpClient, P::SmtpClient>("SmtpClient") : k == 1 ? textsOf<J::OpportunisticSecureSMTPClient, P::OpportunisticSecureSMTPClient>("OpportunisticSecureSMTPClient") : textsOf<J::ForcedSecureSMTPClient, P::ForcedSecureSMTPClient>("ForcedSecureSMTPClient"); W = prev; EnvGuard g; countEval(n, 0); outcome("texts"); }
static void c21Real() { int k = pick(2, "class"); Family f; { EnvGuard g; f = k ? addrFamily<P::MessageAddress>("C++ MessageAddress", true, true) : addrFamily<J::MessageAddress>("MessageAddress", false, true); } runSeq(f, 2, tierSel(3, 4)); }
template <class T> static uint64_t pairOf(const char *cls, const char *field, int a, const std::function<T(const S &)> &mk, const std::function<S(const T &)> &get, const std::function<void(T &, const S &)> &set, int most = 1 << 20) {
    uint64_t n = 0; auto txt = [](int k, char c) { S t; for (int i = 0; i < k; i++) t += (char)(c + i % 23); return t; }; S x = txt(a, 'a');
    for (int b : lens()) if (b <= most) { S y = txt(b, 'A'); auto chk = [&](const T &o, const S &want, const char *op) { n++; if (get(o) != want) { EnvGuard g; violate(S(cls) + ": " + op + " (" + field + " of " + std::to_string(b) + " characters onto " + std::to_string(a) + ") gives " + esc(get(o), 100) + " instead of " + esc(want, 100)); } };
        { T o = mk(x), p = mk(y); o = p; chk(o, y, "assignment"); chk(p, y, "the source of an assignment"); o = mk(x); chk(o, x, "assigning back"); o = p; chk(o, y, "second assignment"); T q(o); chk(q, y, "a copy"); T r(std::move(q)); chk(r, y, "a move"); T z = mk(x); z = std::move(r); chk(z, y, "move assignment"); r = z; chk(r, y, "assignment to a moved-from object"); }
        if (set) { T o = mk(x); set(o, y); chk(o, y, "setting"); T c(o); chk(c, y, "a copy after setting"); set(o, x); chk(o, x, "setting back"); chk(c, y, "the copy after setting the original"); } }
    return n;
}
static void c21Lens() {
    int cls = pick(16, "class and field"), i = pick((int)lens().size(), "length"), a = lens()[(size_t)i]; World w; World *prev = W; W = &w; uint64_t n = 0; note("lengths"); allocTrackStart();
    using MA_ = J::MessageAddress; using PA = P::MessageAddress; using JT = J::Attachment; using PT_ = P::Attachment; using JC = J::Credential; using PC = P::Credential;
    switch (cls) {
        case 0: n = pairOf<MA_>("MessageAddress", "name", a, [](const S &t) { return MA_("a@b.co", t.c_str()); }, [](const MA_ &o) { return S(o.getDisplayName()); }, nullptr); break;
        case 1: n = pairOf<PA>("C++ MessageAddress", "name", a, [](const S &t) { return PA("a@b.co", t); }, [](const PA &o) { return S(o.getDisplayName()); }, nullptr); break;
        case 2: case 3: { auto ad = [](const S &t) { return "x" + t + "@e.com"; }; if (a > 129) break; auto un = [](const S &q) { return q.substr(1, q.size() - 7); }; if (cls == 3) n = pairOf<PA>("C++ MessageAddress", "address", a, [ad](const S &t) { return PA(ad(t), ""); }, [un](const PA &o) { return un(S(o.getEmailAddress())); }, nullptr, 129); else n = pairOf<MA_>("MessageAddress", "address", a, [ad](const S &t) { return MA_(ad(t).c_str(), ""); }, [un](const MA_ &o) { return un(o.getEmailAddress()); }, nullptr, 129); break; }
        case 4: n = pairOf<JT>("Attachment", "file name", a, [](const S &t) { return JT(t.c_str(), "n", "c"); }, [](const JT &o) { return S(o.getFilename()); }, nullptr); break;
        case 5: n = pairOf<JT>("Attachment", "name", a, [](const S &t) { return JT("f", t.c_str(), "c"); }, [](const JT &o) { return S(o.getName()); }, nullptr); break;
        case 6: n = pairOf<JT>("Attachment", "content id", a, [](const S &t) { return JT("f", "n", t.c_str()); }, [](const JT &o) { return S(o.getContentId()); }, [](JT &o, const S &t) { o.setContentId(t.c_str()); }); break;
        case 7: n = pairOf<PT_>("C++ Attachment", "file name", a, [](const S &t) { return PT_(t, "n", "c"); }, [](const PT_ &o) { return S(o.getFilename()); }, nullptr); break;
        case 8: n = pairOf<PT_>("C++ Attachment", "content id", a, [](const S &t) { return PT_("f", "n", t); }, [](const PT_ &o) { return S(o.getContentId()); }, [](PT_ &o, const S &t) { o.setContentId(t.c_str()); }); break;
        case 9: n = pairOf<JC>("Credential", "user name", a, [](const S &t) { return JC(t.c_str(), "p"); }, [](const JC &o) { return S(o.getUsername()); }, [](JC &o, const S &t) { o.setUsername(t.c_str()); }); break;
        case 10: n = pairOf<JC>("Credential", "password", a, [](const S &t) { return JC("u", t.c_str()); }, [](const JC &o) { return S(o.getPassword()); }, [](JC &o, const S &t) { o.setPassword(t.c_str()); }); break;
        case 11: n = pairOf<PC>("C++ Credential", "user name", a, [](const S &t) { return PC(t.c_str(), "p"); }, [](const PC &o) { return S(o.getUsername()); }, [](PC &o, const S &t) { o.setUsername(t.c_str()); }); break;
        case 12: n = pairOf<PC>("C++ Credential", "password", a, [](const S &t) { return PC("u", t.c_str()); }, [](const PC &o) { return S(o.getPassword()); }, [](PC &o, const S &t) { o.setPassword(t.c_str()); }); break;
        case 13: n = pairOf<J::PlaintextMessage>("PlaintextMessage", "subject", a, [](const S &t) { MA_ f("a@b.co"); return J::PlaintextMessage(f, f, t.c_str(), "body"); }, [](const J::PlaintextMessage &o) { return S(o.getSubject()); }, nullptr); break;
        case 14: n = pairOf<J::HTMLMessage>("HTMLMessage", "body", a, [](const S &t) { MA_ f("a@b.co"); return J::HTMLMessage(f, f, "subject", t.c_str()); }, [](const J::HTMLMessage &o) { return S(o.getBody()); }, nullptr); break;
        default: n = pairOf<P::PlaintextMessage>("C++ PlaintextMessage", "body", a, [](const S &t) { PA f("a@b.co"); return P::PlaintextMessage(f, {f}, "subject", t); }, [](const P::PlaintextMessage &o) { return S(o.getBody()); }, nullptr); break;
    }
    EnvGuard g; judgeLeak("lengths"); W = prev; countEval(n, 0); outcome("lengths");
}
// lists of every size: copied, moved and assigned to a message with a list of another size
static const std::vector<int> &counts() { static const std::vector<int> q{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 101, 128, 255, 256, 257}, t = [] { std::vector<int> v; for (int i = 0; i <= 130; i++) v.push_back(i); for (int i : {200, 255, 256, 257, 511, 512, 513, 1000}) v.push_back(i); return v; }(); return thorough() ? t : q; }
template <class M, class F> static uint64_t listPairs(const char *cls, int a, bool one, F mk) {
    uint64_t n = 0; S want, got; auto rd = [&](const M &m) { EnvGuard g; S o; readMsg(o, m); return o; }; M x = mk(a); S mx = rd(x);
    for (int b : counts()) { M y = mk(b); S my = rd(y); auto chk = [&](const M &m, const S &w, const char *op) { n++; if (rd(m) != w) { EnvGuard g; violate(S(cls) + ": " + op + " (lists of " + std::to_string(b) + " onto " + std::to_string(a) + ") gives " + esc(rd(m), 300) + " instead of " + esc(w, 300)); } };
        { M o(x); chk(o, mx, "a copy"); o = y; chk(o, my, "assignment"); chk(y, my, "the source of an assignment"); o = x; chk(o, mx, "assigning back"); M q(std::move(o)); chk(q, mx, "a move"); M r(y); r = std::move(q); chk(r, mx, "move assignment"); q = y; chk(q, my, "assignment to a moved-from object"); } if (one) break; S().swap(my); }
    S().swap(mx); return n;
}
static void c21Counts() {
    int cls = pick(4, "class"), f = pick(4, "list"), i = pick((int)counts().size(), "length"), a = counts()[(size_t)i]; World w; World *prev = W; W = &w; uint64_t n = 0; note("list lengths");
    std::vector<J::MessageAddress> ja; std::vector<J::Attachment> jt; std::vector<P::MessageAddress> pa; std::vector<P::Attachment> pt; for (int k = 0; k < 8; k++) { S num = std::to_string(k); ja.emplace_back(("a" + num + "@b.co").c_str(), k % 2 ? "N" : ""); pa.emplace_back("a" + num + "@b.co", k % 2 ? "N" : ""); jt.emplace_back(("f" + num + ".txt").c_str(), "n", ""); pt.emplace_back("f" + num + ".txt", "n", ""); }
    allocTrackStart();
    auto j = [&](auto *d, int c) { typedef typename std::remove_pointer<decltype(d)>::type M; std::vector<J::MessageAddress> l; std::vector<J::Attachment> t; if (f < 3) for (int k = 0; k < c; k++) l.push_back(ja[(size_t)(k * 3 + k / 8) % 8]); else for (int k = 0; k < c; k++) t.push_back(jt[(size_t)(k * 3 + k / 8) % 8]); auto *b = ja.data(); auto p = [&](int w, size_t &z) -> J::MessageAddress * { if (f == w) { z = l.size(); return l.empty() ? nullptr : l.data(); } z = w == 0 ? 1 : 0; return w == 0 ? b : nullptr; }; size_t z0, z1, z2; auto *p0 = p(0, z0), *p1 = p(1, z1), *p2 = p(2, z2); return M(ja[1], p0, z0, "s", "b", p1, z1, p2, z2, t.empty() ? nullptr : t.data(), t.size()); };
    auto q = [&](auto *d, int c) { typedef typename std::remove_pointer<decltype(d)>::type M; std::vector<P::MessageAddress> l, none, one{pa[0]}; std::vector<P::Attachment> t; if (f < 3) for (int k = 0; k < c; k++) l.push_back(pa[(size_t)(k * 3 + k / 8) % 8]); else for (int k = 0; k < c; k++) t.push_back(pt[(size_t)(k * 3 + k / 8) % 8]); return M(pa[1], f == 0 ? l : one, "s", "b", f == 1 ? l : none, f == 2 ? l : none, t); };
    if (cls == 0) n = listPairs<J::PlaintextMessage>("PlaintextMessage", a, false, [&](int c) { return j((J::PlaintextMessage *)nullptr, c); }); else if (cls == 1) n = listPairs<J::HTMLMessage>("HTMLMessage", a, false, [&](int c) { return j((J::HTMLMessage *)nullptr, c); });
    else if (f == 0 && a == 0) {} else if (cls == 2) n = listPairs<P::PlaintextMessage>("C++ PlaintextMessage", a, false, [&](int c) { return q((P::PlaintextMessage *)nullptr, f == 0 && !c ? 1 : c); }); else n = listPairs<P::HTMLMessage>("C++ HTMLMessage", a, false, [&](int c) { return q((P::HTMLMessage *)nullptr, f == 0 && !c ? 1 : c); });
    EnvGuard g; judgeLeak("list lengths"); W = prev; countEval(n, 0); outcome("list lengths");
}
// lists that are absent although a length comes with them: as if they were empty
static void c21Absent() {
    int html = pick(2, "kind"), single = pick(2, "constructor"), mask = pick(single ? 2 : 16, "absent lists"); static const std::vector<size_t> cs{0, 1, 2, 3, 1000}; size_t c = cs[(size_t)pick((int)cs.size(), "length")], z[4] = {2, 1, 3, 2}; if (single) mask *= 8; World w; World *prev = W; W = &w; note("absent lists " + std::to_string(mask) + " with the length " + std::to_string(c));
    std::vector<J::MessageAddress> ad; ad.reserve(3); std::vector<J::Attachment> at; at.reserve(2); for (int k = 0; k < 3; k++) ad.emplace_back(("a" + std::to_string(k) + "@b.co").c_str(), k ? "N" : ""); for (int k = 0; k < 2; k++) at.emplace_back(("f" + std::to_string(k) + ".txt").c_str(), "n", "");
    S want = html ? "text/html " : "text/plain "; want += addrModel("a1@b.co", "N"); size_t n[4]; for (int f = 0; f < 4; f++) { n[f] = mask >> f & 1 ? 0 : single ? (f == 0 ? 1 : f == 3 ? z[3] : 0) : z[f]; if (f < 3) want += '('; for (size_t k = 0; k < n[f]; k++) want += f < 3 ? addrModel("a" + std::to_string(k) + "@b.co", k ? "N" : "") : attModel("f" + std::to_string(k) + ".txt", "n", ""); if (f < 3) want += ')'; } want += "s\1" "b"; uint64_t done = 0;
    allocTrackStart();
    auto run = [&](auto *d) { typedef typename std::remove_pointer<decltype(d)>::type M;
        auto p = [&](int f) -> J::MessageAddress * { return mask >> f & 1 ? nullptr : ad.data(); }; auto l = [&](int f) { return mask >> f & 1 ? c : z[f]; }; J::Attachment *t = mask >> 3 & 1 ? nullptr : at.data();
        M m = single ? M(ad[1], ad[0], "s", "b", nullptr, nullptr, t, l(3)) : M(ad[1], p(0), l(0), "s", "b", p(1), l(1), p(2), l(2), t, l(3));
        auto chk = [&](const M &x, const char *op) { EnvGuard g; done++; size_t h[4] = {x.getToCount(), x.getCcCount(), x.getBccCount(), x.getAttachmentsCount()}; for (int f = 0; f < 4; f++) if (h[f] != n[f]) { violate(S(op) + ": a list of " + std::to_string(n[f]) + " is announced with " + std::to_string(h[f])); return false; } S o; readMsg(o, x); if (o != want) { violate(S(op) + ": " + esc(o) + " instead of " + esc(want)); return false; } return true; };
        if (!chk(m, "construction")) return; M q(m); chk(q, "copy"); M r(ad[0], ad.data(), 3, "x", "y", ad.data(), 2, ad.data(), 1, at.data(), 1); r = m; chk(r, "assignment"); M s(std::move(q)); chk(s, "move"); M u(ad[0], ad.data(), 3, "x", "y"); u = std::move(r); chk(u, "move assignment"); q = u; chk(q, "assignment to a moved-from message"); };
    if (html) run((J::HTMLMessage *)nullptr); else run((J::PlaintextMessage *)nullptr);
    EnvGuard g; S().swap(want); judgeLeak("absent lists"); W = prev; countEval(done, 0); outcome("absent lists");
}
static Reg rC21("C21", {
    {"two objects", [] { c21Seq(2, 5, 6); }, 0, 0, "every sequence of 5 (6) operations {construct variant, copy, move, copy-assign, move-assign incl. to itself, destroy, set} on 2 objects of each of 9 classes (messages one shorter; C and C++ variants, several shapes)"},
    {"three objects", [] { c21Seq(3, 4, 5); }, 0, 0, "every sequence of 4 (5) operations on 3 objects (messages one shorter)"},
    {"constructed addresses", c21Real, 0, 0, "every sequence of 3 (4) operations on 2 addresses, every one constructed from text"},
    {"field lengths", c21Lens, 0, 0, "every pair of 40 (over 150) lengths of every text field of every class: assigned, copied, moved, set and set back"},
    {"list lengths", c21Counts, 0, 0, "every pair of 27 (138) lengths up to 257 (1000) of the To, Cc, Bcc and attachment lists, plain and HTML, C and C++: copied, moved, assigned"},
    {"absent lists", c21Absent, 0, 0, "every subset of the lists absent with the lengths 0..3, 1000, both constructors: constructed, copied, assigned, moved"},
});

// ================================================================== C22
// Several clients, each modelled as settings + connection; every operation sequence is run against the real clients
struct CSet { S host; unsigned port; bool batch; int cred; unsigned timeout; bool self; };
static const std::vector<CSet> CV{{"mail.test", 2525, true, 1, 5, false}, {"mail2.test", 2526, false, 0, 7, true}, {"mail3.test", 2527, true, 0, 4, false}};
static const std::vector<CredSpec> CK{{}, {"us3r.name", "S3cr3t-passw0rd", 0}, {"other.user", "0ther-secret", 1}};
enum { K_NEW, K_SEND, K_COPY, K_MOVE, K_ASSIGN, K_ASSIGNMOVE, K_DESTROY, K_SET };
struct CM { int st = EMPTY; CSet s{}; int conn = -1; };
struct CSeq {
    int kind, api, slots, depth, variants; bool noTls; std::vector<CM> st; std::vector<Op> ops, last; uint64_t runs = 0;
    S text(const std::vector<Op> &v) { static const char *nm[] = {"new", "send", "copy", "move", "assign", "move-assign", "destroy", "set"}; S r; for (auto &o : v) { r += r.empty() ? "" : ", "; r += nm[o.k]; r += " " + S(1, (char)('a' + o.i)); if (o.k == K_NEW) r += "(" + CV[(size_t)o.j].host + ")"; else if (o.k >= K_COPY && o.k <= K_ASSIGNMOVE) r += S(" from ") + (char)('a' + o.j); } return r; }
    std::vector<Op> enabled() const {
        std::vector<Op> v; int fresh = -1; for (int i = 0; i < slots && fresh < 0; i++) if (st[(size_t)i].st == EMPTY) fresh = i;
        if (fresh >= 0) { for (int k = 0; k < variants; k++) v.push_back({K_NEW, fresh, k}); for (int j = 0; j < slots; j++) if (st[(size_t)j].st == VALUE) { v.push_back({K_COPY, fresh, j}); v.push_back({K_MOVE, fresh, j}); } }
        for (int i = 0; i < slots; i++) if (st[(size_t)i].st != EMPTY) {
            if (st[(size_t)i].st == VALUE) v.push_back({K_SEND, i, 0});
            for (int j = 0; j < slots; j++) if (st[(size_t)j].st == VALUE) { v.push_back({K_ASSIGN, i, j}); v.push_back({K_ASSIGNMOVE, i, j}); }
            v.push_back({K_DESTROY, i, 0}); if (st[(size_t)i].st == VALUE) v.push_back({K_SET, i, 0});
        }
        return v;
    }
    // connections: whether a slot holds one is decided by the operations alone; its number is taken from the run
    void apply(const Op &o, std::vector<CM> &s) const {
        size_t i = (size_t)o.i, j = (size_t)o.j;
        switch (o.k) { case K_NEW: s[i] = {VALUE, CV[(size_t)o.j], -1}; break; case K_SEND: s[i].conn = s[i].s.batch ? 1 : -1; break; case K_COPY: s[i] = {VALUE, s[j].s, -1}; break; case K_MOVE: s[i] = s[j]; s[j] = {GONE, {}, -1}; break;
            case K_ASSIGN: if (i != j) s[i] = {VALUE, s[j].s, -1}; break; case K_ASSIGNMOVE: if (i != j) { s[i] = s[j]; s[j] = {GONE, {}, -1}; } break; case K_DESTROY: s[i] = {}; break; case K_SET: s[i].s.cred = 2; s[i].s.timeout = 9; break; }
    }
    void go() { auto en = enabled(); for (auto &o : en) { auto s0 = st; apply(o, st); ops.push_back(o); if ((int)ops.size() == depth) exec(); else go(); ops.pop_back(); st = s0; } }
    S settings(const CSet &c) { S r = c.host + ":" + std::to_string(c.port) + " batch=" + std::to_string(c.batch) + " timeout=" + std::to_string(c.timeout) + " self=" + std::to_string(c.self && kind != PLAIN); if (c.cred) { auto &k = CK[(size_t)c.cred]; r += " cred=" + k.user + "/" + k.pass + "/" + std::to_string(k.method); } else r += " nocred"; return r; }
    void exec() {
        runs++; size_t known = 0; while (known < last.size() && known < ops.size() && !memcmp(&last[known], &ops[known], sizeof(Op))) known++; last = ops; if (runs == 1) known = 0;
        S leak; int pass = 0; for (; pass < 4; pass++) { leak.clear(); once(known, leak); if (leak.empty()) break; }   // the TLS library fills its caches in the first runs
        if (pass == 4) violate("after " + text(ops) + ": " + leak);
    }
    void once(size_t known, S &leak) {
        Scn d = scn(kind, api); if (noTls) d.srv.ehloPlain = {"SIZE 1000", "AUTH PLAIN LOGIN"}; Run r(d); World &w = r.w; std::vector<IClient *> o((size_t)slots, nullptr); std::vector<CM> m((size_t)slots); size_t n = 0; std::vector<MsgSpec> msgs; for (int i = 0; i < 8; i++) msgs.push_back(msgOf(0, i + 1)); S tr;
        auto here = [&] { return "after " + text(std::vector<Op>(ops.begin(), ops.begin() + (long)n + 1)) + ": "; };
        allocTrackStart(); 
        for (n = 0; n < ops.size(); n++) {
            auto &p = ops[n]; size_t i = (size_t)p.i, j = (size_t)p.j; bool check = n >= known || n + 1 == ops.size(); envDepth--;
            switch (p.k) {
                case K_NEW: { auto &v = CV[(size_t)p.j]; o[i] = newClient(kind, api, v.host, v.port); o[i]->setTimeout(v.timeout); if (v.batch) o[i]->setBatch(true); if (v.cred) o[i]->setCred(CK[(size_t)v.cred]); if (v.self) o[i]->setSelf(true); break; }
                case K_COPY: o[i] = o[j]->copy(); break; case K_MOVE: o[i] = o[j]->moved(); break; case K_ASSIGN: o[i]->assign(*o[j]); break; case K_ASSIGNMOVE: o[i]->assignMove(*o[j]); break; case K_DESTROY: delete o[i]; o[i] = nullptr; break;
                case K_SET: o[i]->setCred(CK[2]); o[i]->setTimeout(9); break; default: break;
            }
            SendRes x; if (p.k == K_SEND) x = r.send(o[i], msgs[n]); envDepth++;
            auto before = m; apply(p, m);
            if (p.k == K_SEND) {   // numbers of the connections
                bool had = before[i].conn >= 0; if (m[i].conn >= 0) m[i].conn = had ? before[i].conn : x.con1 > x.con0 ? (int)x.con0 : -2;
                if (check) {
                    if (x.rc) violate(here() + "the send failed with " + std::to_string(x.rc));
                    if (x.con1 - x.con0 != (had ? 0u : 1u)) violate(here() + "the send opened " + std::to_string(x.con1 - x.con0) + " connections instead of " + (had ? "0" : "1"));
                    int acc = 0; for (size_t t = 0; t < w.txns.size(); t++) if (w.txns[t].sendNo == x.no) { acc += w.txns[t].accepted; if (had && w.txns[t].conn != before[i].conn) violate(here() + "the message went over another client's connection"); } if (acc != 1) violate(here() + std::to_string(acc) + " copies of the message accepted");
                    if (!had && x.con1 > x.con0) { auto &rec = w.recs[x.con0]; if (rec.host != before[i].s.host || rec.port != (int)before[i].s.port) violate(here() + "connected to " + rec.host + ":" + std::to_string(rec.port) + " instead of " + before[i].s.host + ":" + std::to_string(before[i].s.port)); }
                    S want; if (!had && before[i].s.cred && !noTls) { auto &k = CK[(size_t)before[i].s.cred]; want = S(1, '\0') + k.user + S(1, '\0') + k.pass; } S got; for (size_t a = x.auth0; a < x.auth1; a++) if (!w.auths[a].payloads.empty()) got = unb64(w.auths[a].payloads[0]); if (x.auth1 - x.auth0 != (want.empty() ? 0u : 1u) || got != want) violate(here() + "authenticated " + std::to_string(x.auth1 - x.auth0) + " times with " + esc(got) + " instead of " + esc(want));
                    monContent(r, x, d, MC_BODY);
                }
            }
            if (p.k != K_NEW && p.k != K_SET && p.k != K_SEND && check && p.k != K_COPY) {}
            if (check) {
                for (size_t k = 0; k < (size_t)slots; k++) if (m[k].st == VALUE) { envDepth--; S s; { s = settingsOf(*o[k]); if (settings(m[k].s) != s) { EnvGuard g; violate(here() + "client " + S(1, (char)('a' + k)) + " has the settings " + s + " instead of " + settings(m[k].s)); } S l = o[k]->log(); if (p.k == K_SEND && k == i && l != x.log) violate(here() + "log changed"); } S().swap(s); envDepth++; }
                for (auto &rec : w.recs) { int owner = 0; for (auto &k : m) if (k.st == VALUE && k.conn == rec.id) owner++; if (rec.closes != (owner ? 0 : 1)) violate(here() + "connection " + std::to_string(rec.id) + (owner ? " of a client is closed" : rec.closes ? " was closed " + std::to_string(rec.closes) + " times" : " has no client but is still open")); }
                if (!w.problems.empty()) violate(here() + w.problems[0]);
            }
        }
        for (auto *x : o) { envDepth--; delete x; envDepth++; } n = ops.size() - 1;
        for (auto &rec : w.recs) { if (rec.closes != 1) violate(here() + "finally connection " + std::to_string(rec.id) + " has been closed " + std::to_string(rec.closes) + " times"); if (rec.quits != 1) violate(here() + "finally connection " + std::to_string(rec.id) + " has seen " + std::to_string(rec.quits) + " QUIT commands"); } if (!w.problems.empty()) violate(here() + w.problems[0]); monProtocol(r);
        AllocStat a = allocLive(); if (a.blocks && kind != PLAIN) a = allocLeaked(); if (a.blocks) leak = std::to_string(a.blocks) + " blocks are never released:" + allocDescribe(); allocTrackStop();
    }
};
static void c22(int kinds0, int nk, int slots, int depth, int variants, int apis) {
    int k = kinds0 + pick(nk, "kind"); CSeq q; q.noTls = k == 3; q.kind = k == 3 ? OPP : k; q.api = pick(apis, "api"); q.slots = slots; q.depth = depth; q.variants = variants; envDepth++; q.st.resize((size_t)slots); note(S(k == 3 ? "opportunistic without STARTTLS" : kindName(k)) + (q.api ? " C++" : " C"));
    for (int s = 0; s < std::min(3, depth - 1); s++) { auto en = q.enabled(); envDepth--; int c = pick((int)en.size(), "operation"); envDepth++; q.apply(en[(size_t)c], q.st); q.ops.push_back(en[(size_t)c]); }
    q.go(); countEval(q.runs, 0); outcome(kindName(q.kind)); envDepth--;
}
static Reg rC22("C22", {
    {"two plain clients", [] { c22(PLAIN, 1, 2, tierSel(5, 6), 2, 2); }, 0, 0, "every sequence of 5 (6) operations {new with one of 2 settings, send, copy, move, assign, move-assign incl. to itself, set, destroy} on 2 plain clients, C and C++"},
    {"three plain clients", [] { c22(PLAIN, 1, 3, tierSel(4, 5), 3, 2); }, 0, 0, "every sequence of 4 (5) operations on 3 clients, 3 settings"},
    {"two secure clients", [] { c22(OPP, 2, 2, tierSel(4, 5), 2, 2); }, 0, 0, "every sequence of 4 (5) operations on 2 opportunistic or forced-TLS clients, C and C++"},
    {"opportunistic without STARTTLS", [] { c22(3, 1, 2, tierSel(4, 5), 2, 2); }, 0, 0, "the same, opportunistic against a server without STARTTLS"},
});

// ================================================================== C28
static bool blankText(const S &t) { for (char c : t) if (!strchr(" \t\n\v\f\r", c)) return false; return true; }
// runs f; 0: returned, 1: documented error, 2: another exception
template <class F> static int outcomeOfCall(F f) { try { f(); return 0; } catch (std::invalid_argument &) { return 1; } catch (...) { return 2; } }
static void judge(int got, bool ok, const S &what) { static const char *n[] = {"accepted", "refused", "answered with an undocumented exception"}; if (got != (ok ? 0 : 1)) violate(what + " is " + n[got]); }
struct Tracked { World w; World *prev; Tracked() : prev(W) { W = &w; allocTrackStart(); } void done(const char *what) { EnvGuard g; judgeLeak(what); W = prev; } ~Tracked() { allocTrackStop(); W = prev; } };
static void texts(const S &al, int mx, int first, const std::function<void(const S &)> &f) { std::function<void(S, int)> go = [&](S t, int left) { f(t); if (left) for (char c : al) go(t + c, left - 1); }; if (first < 0) f(""); else go(S(1, al[(size_t)first]), mx - 1); }
static const S AL = " \t\n\v\f\r" "aZ.\xE9\"";
static const char *PT(const S &t, bool null) { return null ? nullptr : t.c_str(); }
static void c28Client() {
    int kind = pick(3, "kind"), api = pick(2, "api"), f = pick((int)AL.size() + 1, "first character") - 1; uint64_t n = 0; note("server names"); Scn base = scn(kind, api, true); Tracked T;
    auto one = [&](const S &t) {
        n++; bool ok = !blankText(t); std::unique_ptr<IClient> c; int g = outcomeOfCall([&] { c.reset(newClient(kind, api, t, 25)); }); if (g != (ok ? 0 : 1)) judge(g, ok, "the server name " + esc(t)); else if (ok && (c->server() != t || c->port() != 25 || c->batch() || c->timeout() != 5 || c->hasCred() || c->self())) violate("a client constructed with the server name " + esc(t) + " has the settings " + settingsOf(*c));
        c.reset(make(base)); S before = settingsOf(*c); g = outcomeOfCall([&] { c->setServer(t); }); if (g != (ok ? 0 : 1)) judge(g, ok, "setting the server name " + esc(t)); S after = settingsOf(*c); S want = ok ? t + before.substr(base.host.size()) : before; if (after != want) violate("after setting the server name " + esc(t) + " the settings are " + esc(after) + " instead of " + esc(want));
    };
    texts(AL, tierSel(3, 4), f, one); if (f < 0) for (int b = 1; b < 256; b++) { S q(1, (char)b); one(q); one(q + "x"); one("x" + q); one("x" + q + "x"); } T.done("server names"); EnvGuard g; countEval(n, 0); outcome("server names");
}
template <class C> static void credOne(const S &t, bool null) {
    using R = J::RecommendedAuthenticationMethod; bool u = !null && !blankText(t), p = !null && !t.empty(); auto same = [&](const C &c, const S &a, const S &b, int m, const S &w) { if (S(c.getUsername()) != a || S(c.getPassword()) != b || (int)c.getRecommendedAuthOption() != m) violate(w + " the credential is " + esc(S(c.getUsername()) + "/" + S(c.getPassword())) + "/" + std::to_string((int)c.getRecommendedAuthOption())); };
    S w = null ? S("null") : esc(t); const char *q = PT(t, null); std::unique_ptr<C> c; auto mk = [&](const char *a, const char *b, int m) { if (m) return new C(a, b, (R)m); return new C(a, b); };
    for (int m = 0; m < 2; m++) {
        int g = outcomeOfCall([&] { c.reset(mk(q, "pw", m * 3)); }); judge(g, u, "the user name " + w); if (!g) same(*c, t, "pw", m * 3, "constructed with the user name " + w);
        g = outcomeOfCall([&] { c.reset(mk("usr", q, m * 3)); }); judge(g, p, "the password " + w); if (!g) same(*c, "usr", t, m * 3, "constructed with the password " + w);
    }
    c.reset(mk("usr", "pw", 2)); int g = outcomeOfCall([&] { c->setUsername(q); }); judge(g, u, "setting the user name " + w); same(*c, u ? t : S("usr"), "pw", 2, "after setting the user name " + w);
    g = outcomeOfCall([&] { c->setPassword(q); }); judge(g, p, "setting the password " + w); same(*c, u ? t : S("usr"), p ? t : S("pw"), 2, "after setting the password " + w);
    for (int m = 0; m < 7; m++) { c->setRecommendedAuthOption((R)m); same(*c, u ? t : S("usr"), p ? t : S("pw"), m, "after setting the method"); }
}
template <class A> static void attOne(const S &t) {
    bool ok = !blankText(t); std::unique_ptr<A> a; S w = esc(t); int g = outcomeOfCall([&] { a.reset(new A(t.c_str(), "n", "c")); }); judge(g, ok, "the file name " + w); if (!g && (S(a->getFilename()) != t || S(a->getName()) != "n" || S(a->getContentId()) != "c")) violate("an attachment with the file name " + w + " has " + esc(a->getFilename()));
    g = outcomeOfCall([&] { a.reset(new A("f", t.c_str(), "c")); }); judge(g, true, "the display name " + w); if (!g && (S(a->getName()) != t || S(a->getFilename()) != "f")) violate("an attachment with the name " + w + " has " + esc(a->getName()));
    g = outcomeOfCall([&] { a.reset(new A("f", "n", t.c_str())); }); judge(g, true, "the content identifier " + w); if (!g && S(a->getContentId()) != t) violate("an attachment with the content identifier " + w + " has " + esc(a->getContentId()));
    a.reset(new A("f", "n", "c")); a->setContentId(t.c_str()); if (S(a->getContentId()) != t || S(a->getName()) != "n" || S(a->getFilename()) != "f") violate("setting the content identifier " + w + " gives " + esc(a->getContentId()));
}
static void c28Values() {
    int k = pick(4, "class"), f = pick((int)AL.size() + 1, "first character") - 1; uint64_t n = 0; note("values"); Tracked T;
    auto one = [&](const S &t) { n++; if (k == 0) credOne<J::Credential>(t, false); else if (k == 1) credOne<P::Credential>(t, false); else if (k == 2) attOne<J::Attachment>(t); else attOne<P::Attachment>(t); }; texts(AL, tierSel(3, 4), f, one); if (f < 0) for (int b = 1; b < 256; b++) { S q(1, (char)b); one(q); one(q + "x"); one("x" + q); one("x" + q + "x"); }
    if (f < 0 && k == 0) { credOne<J::Credential>("", true); n++; } T.done("values"); EnvGuard g; countEval(n, 0); outcome("values");
}
template <class F> static void clientTypes(int kind, F f) { if (kind == PLAIN) f((J::SmtpClient *)nullptr); else if (kind == OPP) f((J::OpportunisticSecureSMTPClient *)nullptr); else f((J::ForcedSecureSMTPClient *)nullptr); }
static void c28Null() {
    int kind = pick(3, "kind"); note("null server names"); Tracked T; auto t = [&](auto *dummy) { typedef typename std::remove_pointer<decltype(dummy)>::type C; std::unique_ptr<C> c; judge(outcomeOfCall([&] { c.reset(new C(nullptr, 25)); }), false, "a null server name"); c.reset(new C("mail.test", 25)); judge(outcomeOfCall([&] { c->setServerName(nullptr); }), false, "setting a null server name"); if (S(c->getServerName()) != "mail.test") violate("a refused null server name changed the client"); };
    clientTypes(kind, t); T.done("null names"); outcome("null");
}
template <class M> static void msgOne(const S &t, const P::MessageAddress &a, const std::vector<P::MessageAddress> &l, const std::vector<P::Attachment> &at) {
    std::unique_ptr<M> m; static const std::vector<P::MessageAddress> none; static const std::vector<P::Attachment> noAtt;
    for (int k = 0; k < 16; k++) { auto &to = k & 1 ? l : none; auto &cc = k & 2 ? l : none; auto &bcc = k & 4 ? l : none; auto &as = k & 8 ? at : noAtt; int g = outcomeOfCall([&] { m.reset(new M(a, to, t, t + "b", cc, bcc, as)); }); judge(g, k & 1, "a message with " + std::to_string(to.size()) + " recipients, " + std::to_string(cc.size()) + " copies and " + std::to_string(bcc.size()) + " blind copies");
        if (!g && (m->getSubject() != t || m->getBody() != t + "b" || m->getToCount() != to.size() || m->getCcCount() != cc.size() || m->getBccCount() != bcc.size() || m->getAttachmentsCount() != as.size())) violate("a message does not return the values it was constructed with"); }
}
static void c28Messages() {
    int k = pick(2, "class"), f = pick((int)AL.size() + 1, "first character") - 1; uint64_t n = 0; note("messages"); std::unique_ptr<P::MessageAddress> a; std::vector<P::MessageAddress> l; std::vector<P::Attachment> at; a.reset(new P::MessageAddress("a@b.co", "N")); l.push_back(*a); l.push_back(*a); at.emplace_back("f.txt", "n");
    { Tracked T; texts(AL, 2, f, [&](const S &t) { n++; if (k) msgOne<P::HTMLMessage>(t, *a, l, at); else msgOne<P::PlaintextMessage>(t, *a, l, at); }); T.done("messages"); } EnvGuard g; countEval(n, 0); outcome("messages");
}
static void c28Sends() {   // sequences of accepted and refused settings, then a send
    int kind = pick(3, "kind"), api = pick(2, "api"), len = 1 + pick(tierSel(3, 4), "settings"); Scn s = scn(kind, api, false); s.host = "mail.test"; Run r(s); std::unique_ptr<IClient> c(make(s)); S host = "mail.test"; unsigned port = 2525, T = 5; int cred = 0; bool self = false; S h;
    r.w.decide = [&](StepCtx &x, Reply &rp) { if (x.step == S_MAIL) rp.delay = 15 * SEC; };
    for (int i = 0; i < len; i++) {
        int op = pick(10, "setting"); int g = 0; bool ok = true;
        switch (op) { case 0: g = outcomeOfCall([&] { c->setServer("mail2.test"); }); host = "mail2.test"; h += "server2 "; break; case 1: g = outcomeOfCall([&] { c->setServer(""); }); ok = false; h += "server() "; break; case 2: g = outcomeOfCall([&] { c->setServer(" \t"); }); ok = false; h += "server(blank) "; break;
            case 3: c->setPort(2600); port = 2600; h += "port "; break; case 4: c->setTimeout(20); T = 20; h += "timeout20 "; break; case 5: c->setTimeout(3); T = 3; h += "timeout3 "; break; case 6: c->setCred(CK[1]); cred = 1; h += "cred1 "; break; case 7: c->setCred(CK[2]); cred = 2; h += "cred2 "; break; case 8: g = outcomeOfCall([&] { c->setCred({" ", "x", 0}); }); ok = false; h += "cred(blank) "; break; case 9: c->setSelf(!self); self = !self; h += "self "; break; }
        EnvGuard q; judge(g, ok, "setting " + h); S want = host + ":" + std::to_string(port) + " batch=0 timeout=" + std::to_string(T) + " self=" + std::to_string(self && kind != PLAIN) + (cred ? " cred=" + CK[(size_t)cred].user + "/" + CK[(size_t)cred].pass + "/" + std::to_string(CK[(size_t)cred].method) : " nocred"); S got = settingsOf(*c); if (got != want) violate("after " + h + "the settings are " + got + " instead of " + want);
    }
    if (kind != PLAIN) { EnvGuard g; r.def.srv.cert = self ? CERT_SELF : CERT_GOOD; } MsgSpec m; { EnvGuard g; m = msgOf(0); note(h); } if (kind != PLAIN && self && host != "mail.test") { r.def.srv.cert = CERT_GOOD; }
    SendRes x = r.send(c.get(), m); { EnvGuard g;
        if ((x.rc == 0) != (T == 20)) violate("after " + h + "a reply to MAIL after 15 s gives " + std::to_string(x.rc)); if (r.w.recs.size() != 1) violate(std::to_string(r.w.recs.size()) + " connections"); else if (r.w.recs[0].host != host || r.w.recs[0].port != (int)port) violate("after " + h + "the send connects to " + r.w.recs[0].host + ":" + std::to_string(r.w.recs[0].port));
        S want; if (cred) want = S(1, '\0') + CK[(size_t)cred].user + S(1, '\0') + CK[(size_t)cred].pass; S got; for (auto &a : r.w.auths) if (!a.payloads.empty()) got = unb64(a.payloads[0]); if (got != want) violate("after " + h + "authenticated with " + esc(got)); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c28Numbers() {   // ports and time-outs
    int kind = pick(3, "kind"), api = pick(2, "api"), part = pick(8, "part"); note("ports and time-outs"); uint64_t n = 0; S name = "mail.test"; unsigned to = 5; Tracked T; std::unique_ptr<IClient> c(newClient(kind, api, name, 25));
    auto one = [&](unsigned v) {
        n++; c->setPort(v); if (c->port() != v) { EnvGuard g; violate("the port set to " + std::to_string(v) + " is read back as " + std::to_string(c->port())); } if (c->timeout() != to || c->server() != name) { EnvGuard g; violate("setting the port " + std::to_string(v) + " changes another setting"); }
        c->setTimeout(v); to = v; if (c->timeout() != v) { EnvGuard g; violate("the time-out set to " + std::to_string(v) + " is read back as " + std::to_string(c->timeout())); } if (c->port() != v) { EnvGuard g; violate("setting the time-out " + std::to_string(v) + " changes the port"); }
        std::unique_ptr<IClient> d(newClient(kind, api, name, v)); if (d->port() != v || d->timeout() != 5) { EnvGuard g; violate("a client constructed with the port " + std::to_string(v) + " has the port " + std::to_string(d->port())); }
    };
    unsigned top = thorough() ? 1100000 : 70000; for (unsigned v = (unsigned)part; v <= top; v += 8) one(v);
    if (part == 0) for (int b = 0; b < 32; b++) for (int e = -2; e <= 2; e++) for (int q = -1; q < b; q++) one((1u << b) + (q < 0 ? 0u : 1u << q) + (unsigned)e);
    if (part == 1) for (unsigned p = 1; p < 1000000000u; p *= 10) for (unsigned k = 1; k < 10; k++) for (int e = -1; e <= 1; e++) one(p * k + (unsigned)e);
    c.reset(); T.done("ports and time-outs"); EnvGuard g; countEval(n, 0); outcome("numbers");
}
static Reg rC28("C28", {
    {"server names", c28Client, 0, 0, "constructor and setter of 6 client classes with every text of length 0..3 (4) over 6 white-space characters, letters of both cases, a period, a quote and a high byte"},
    {"credentials and attachments", c28Values, 0, 0, "constructors and setters of the C and C++ classes with the same texts and null"},
    {"null", c28Null, 0, 0, "null server names"},
    {"messages", c28Messages, 0, 0, "C++ messages with empty and non-empty lists"},
    {"settings and sends", c28Sends, 0, 0, "every sequence of 1..3 (4) of 10 accepted and refused settings, then a send: server, port, credentials, timeout, self-signed"},
    {"ports and time-outs", c28Numbers, 0, 0, "every port and time-out 0..70000 (1100000), 2^i + 2^j +- 2 and 1..9 powers of ten over the whole unsigned range: constructed, set, read back, other settings unchanged"},
});
}  // namespace mc
