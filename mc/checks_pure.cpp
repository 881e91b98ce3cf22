// Pure functions decided by exhaustive enumeration: C25 (error messages), C26 (base64), C27 (addresses), C29 (replies), C30 (media types)
#include <algorithm>
#include <cstring>
#include <ctime>
#include <map>
#include <stdexcept>
#include "scen.h"
#include "base64.h"
#include "attachment.h"
#include "errorresolver.h"
#include "messageaddress.h"
#include "serverauthoptions.h"
#include "serveroptionsanalyzer.h"
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "cpp/attachment.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
namespace mc {
namespace J = jed_utils; namespace P = jed_utils::cpp;
typedef std::string S;
static void note(const S &x) { EnvGuard g; scenarioNote(x); }
// a violation per kind is enough for one execution
struct Once { std::map<S, int> n; void operator()(const S &kind, const S &msg) { EnvGuard g; if (n[kind]++ == 0) violate(msg); } };

// ================================================================== C25
static const std::vector<std::pair<int, std::vector<const char *>>> &documented() {   // every documented code, with words its text must contain (any letter case)
    static const std::vector<std::pair<int, std::vector<const char *>>> d{
        {-1, {"create", "socket"}}, {-2, {"connect"}}, {-3, {"timed out"}}, {-4, {"wsa"}}, {-5, {"address"}}, {-6, {"host"}}, {-7, {"get", "flags"}}, {-8, {"set", "flags"}}, {-9, {"socket options"}}, {-10, {"delayed"}},
        {-20, {"ehlo"}}, {-21, {"ehlo", "timed out"}}, {-30, {"starttls"}}, {-31, {"starttls", "timed out"}},
        {-51, {"ssl context"}}, {-52, {"bio"}}, {-53, {"windows", "store"}}, {-54, {"ca cert"}}, {-55, {"connect", "bio"}}, {-56, {"handshake"}}, {-57, {"certificate"}}, {-58, {"verif"}}, {-59, {"ehlo", "secure"}}, {-60, {"ehlo", "secure", "timed out"}},
        {-81, {"authenticate"}}, {-82, {"authentication", "timed out"}}, {-83, {"not needed"}}, {-84, {"method", "not supported"}}, {-85, {"mail from"}}, {-86, {"mail from", "timed out"}}, {-87, {"rcpt to"}}, {-88, {"rcpt to", "timed out"}},
        {-89, {"data command"}}, {-90, {"data command", "timed out"}}, {-91, {"from header"}}, {-92, {"to and cc header"}}, {-93, {"subject"}}, {-94, {"content type"}}, {-95, {"body part"}}, {-96, {"body"}}, {-97, {"end data"}}, {-98, {"end data", "timed out"}}, {-99, {"quit"}},
        {530, {"authentication required"}}, {534, {"weak"}}, {535, {"invalid"}}, {538, {"encryption"}}, {334, {"token"}}};
    return d;
}
static S lower(S t) { for (char &c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static S textOf(int c) { std::unique_ptr<char[]> p(J::SMTPClientBase::getErrorMessage(c)); return p.get() ? p.get() : ""; }
static const int BLK = 32;
static void c25() {
    const int LO = -1000, HI = 1100; int nb = (HI - LO) / BLK + 1; int b = pick(nb + 1, "block of codes"); note(b == nb ? "extreme codes" : "codes from " + std::to_string(LO + b * BLK)); Once bad; uint64_t n = 0;
    std::vector<int> codes; if (b == nb) codes = {-2147483647 - 1, 2147483647, 65536, -65536, 100000, -100000}; else for (int c = LO + b * BLK; c < LO + (b + 1) * BLK; c++) codes.push_back(c);
    for (int c : codes) {
        S t = textOf(c), id = "code " + std::to_string(c) + ": "; auto same = [&](const S &form, const S &x) { n++; if (x != t) bad("same" + form, id + form + " gives " + esc(x) + ", getErrorMessage gives " + esc(t)); };
        if (t.empty() && c != 0) bad("empty", id + "the text is empty");
        J::ErrorResolver e(c), e2(e), e3(7), e4(-55); e3 = e; same("ErrorResolver", e.getErrorMessage()); same("a copied ErrorResolver", e2.getErrorMessage()); same("an assigned ErrorResolver", e3.getErrorMessage());
        if (e.getErrorCode() != c || e2.getErrorCode() != c || e3.getErrorCode() != c) bad("code", id + "the resolver reports another code"); { J::ErrorResolver m(std::move(e2)); same("a moved ErrorResolver", m.getErrorMessage()); e4 = std::move(m); same("a move-assigned ErrorResolver", e4.getErrorMessage()); if (e4.getErrorCode() != c) bad("code", id + "the resolver reports another code"); }
        same("SmtpClient", P::SmtpClient::getErrorMessage(c)); same("OpportunisticSecureSMTPClient", P::OpportunisticSecureSMTPClient::getErrorMessage(c)); same("ForcedSecureSMTPClient", P::ForcedSecureSMTPClient::getErrorMessage(c));
        S o; int r = P::SmtpClient::getErrorMessage_r(c, o); same("SmtpClient::getErrorMessage_r", o); if (r != 0) bad("r", id + "the C++ reentrant form returns " + std::to_string(r)); o = S(2000, 'x'); r = P::OpportunisticSecureSMTPClient::getErrorMessage_r(c, o); same("OpportunisticSecureSMTPClient::getErrorMessage_r", o); if (r != 0) bad("r", id + "the C++ reentrant form returns " + std::to_string(r)); r = P::ForcedSecureSMTPClient::getErrorMessage_r(c, o); same("ForcedSecureSMTPClient::getErrorMessage_r", o); if (r != 0) bad("r", id + "the C++ reentrant form returns " + std::to_string(r));
        if (J::SMTPClientBase::getErrorMessage_r(c, nullptr, 100) != -1) bad("null", id + "a null buffer is not answered with -1");
        for (size_t z = 0; z <= t.size() + 3; z++, n++) {
            const char G = (char)(z % 2 ? 0x5A : 0xA5); std::vector<char> buf(z + 32, G); int q = J::SMTPClientBase::getErrorMessage_r(c, buf.data() + 16, z); S w = id + "buffer of " + std::to_string(z) + ": ";
            for (size_t i = 0; i < 16; i++) if (buf[i] != G || buf[16 + z + i] != G) bad("guard", w + "bytes outside the buffer are written");
            if (z == 0) { if (q != -1) bad("zero", w + "returns " + std::to_string(q)); continue; }
            size_t k = std::min(z - 1, t.size()); int want = t.size() < z ? 0 : (int)(z - 1); if (memcmp(buf.data() + 16, t.data(), k) || buf[16 + k]) bad("content", w + "contains " + esc(S(buf.data() + 16, z)) + " instead of " + esc(t.substr(0, k)) + " and a terminator"); if (q != want) bad("result", w + "returns " + std::to_string(q) + " instead of " + std::to_string(want));
            // the same in a buffer of exactly this size, for the sanitizer
            { std::unique_ptr<char[]> ex(new char[z]); J::SMTPClientBase::getErrorMessage_r(c, ex.get(), z); }
        }
        for (auto &d : documented()) if (d.first == c) for (auto w : d.second) if (lower(t).find(w) == S::npos) bad("words", id + esc(t) + " does not name what failed (" + w + ")");
    }
    EnvGuard g; countEval(n, 0); outcome("messages");
}
static void c25Distinct() {
    note("all documented codes"); Once bad; std::map<S, int> seen; seen[textOf(123456)] = 123456; uint64_t n = 0; for (auto &d : documented()) { S t = textOf(d.first); n++; if (seen.count(t)) bad("dup", "codes " + std::to_string(d.first) + " and " + std::to_string(seen[t]) + " have the same text " + esc(t)); seen[t] = d.first; }
    { World w; W = &w; allocTrackStart(); for (auto &d : documented()) { delete[] J::SMTPClientBase::getErrorMessage(d.first); char b[20]; J::SMTPClientBase::getErrorMessage_r(d.first, b, 20); P::SmtpClient::getErrorMessage(d.first); J::ErrorResolver e(1), f(d.first); e = f; e = std::move(f); } EnvGuard g; judgeLeak("error messages"); W = nullptr; }
    EnvGuard g; countEval(n, 0); outcome("distinct");
}
static Reg rC25("C25", {
    {"codes and buffers", c25, 0, 0, "every code in -1000..1100 and the extreme integers; every form (C, C++ of three classes, ErrorResolver and its copies); every buffer size 0..text length + 3, guarded on both sides"},
    {"distinct", c25Distinct, 0, 0, "all documented codes: distinct from each other and from the text of unknown codes; nothing leaked"},
});

// ================================================================== C26
static S refB64(const S &s) { static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; o.reserve(s.size() * 4 / 3 + 4); for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16; if (i + 1 < s.size()) v |= (unsigned)(unsigned char)s[i + 1] << 8; if (i + 2 < s.size()) v |= (unsigned char)s[i + 2]; o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < s.size() ? A[v >> 6 & 63] : '='; o += i + 2 < s.size() ? A[v & 63] : '='; } return o; }
static const size_t LINE = 64 * 1024;
static void b64One(Once &bad, const S &in) {
    S e = J::Base64::Encode((const unsigned char *)in.data(), in.size()), flat; size_t col = 0; auto id = [&] { return in.size() < 12 ? esc(in) + ": " : std::to_string(in.size()) + " bytes: "; };
    if (in.size() < LINE * 3 / 4) flat = e; else for (size_t i = 0; i < e.size(); i++) { if (e.compare(i, 2, "\r\n") == 0) { if (col != LINE) bad("break", id() + "a line break after " + std::to_string(col) + " characters"); col = 0; i++; } else { flat += e[i]; if (++col > LINE) { bad("long", id() + "a line of more than 65536 characters"); col = 0; } } }
    S want = refB64(in); if (flat != want) { size_t i = 0; while (i < flat.size() && i < want.size() && flat[i] == want[i]) i++; bad("enc", id() + "encoded as " + esc(flat.substr(i > 4 ? i - 4 : 0, 40)) + " instead of " + esc(want.substr(i > 4 ? i - 4 : 0, 40)) + " at position " + std::to_string(i)); }
    S d = J::Base64::Decode(want); if (d != in) bad("dec", id() + "decoding gives " + esc(d.substr(0, 40)) + " (" + std::to_string(d.size()) + " bytes)");
}
static void c26Short() {   // all inputs of 0..3 bytes
    int a = pick(256, "first byte"); note("first byte " + std::to_string(a)); Once bad; uint64_t n = 0; S t(1, (char)a); if (!a) b64One(bad, ""); b64One(bad, t);
    int step = 1; for (int b = 0; b < 256; b++) { t = S(1, (char)a) + (char)b; b64One(bad, t); t += ' '; n++; for (int c = step > 1 ? (a + b) % step : 0; c < 256; c += step, n++) { t[2] = (char)c; b64One(bad, t); } }
    EnvGuard g; countEval(n + 2, 0); outcome("short");
}
static void c26Positions() {
    int len = 1 + pick(tierSel(40, 100), "length"); note("length " + std::to_string(len)); Once bad; uint64_t n = 0; for (int base : {0, 0xff, 0x41}) for (int p = 0; p < len; p++) for (int v = 0; v < 256; v++, n++) { S t((size_t)len, (char)base); t[(size_t)p] = (char)v; b64One(bad, t); }
    EnvGuard g; countEval(n, 0); outcome("positions");
}
static S pattern(size_t n, int k) { S t(n, 0); unsigned x = 12345u + (unsigned)k * 7919u; for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345u; t[i] = (char)(k == 0 ? 0 : k == 1 ? 255 : x >> 16); } return t; }
static void c26Lengths() {
    int b = pick(tierSel(40, 100), "hundreds"); note("lengths from " + std::to_string(b * 100)); Once bad; for (size_t l = (size_t)b * 100; l < (size_t)(b + 1) * 100; l++) for (int k = 0; k < 3; k++) b64One(bad, pattern(l, k)); EnvGuard g; countEval(300, 0); outcome("lengths");
}
static void c26Breaks() {
    int m = 1 + pick(tierSel(24, 90), "line"), d = pick(15, "offset") - 7; size_t l = (size_t)((long)m * 49152 + d); note(std::to_string(l) + " bytes"); Once bad; for (int k = 0; k < 3; k++) b64One(bad, pattern(l, k)); EnvGuard g; countEval(3, 0); outcome("breaks");
}
static void c26Foreign() {   // decoding of anything: no crash, and only what precedes the first foreign character counts
    static const S al = S("AZaz09+/=-_ \n\x80\xff") + S(1, '\0'); int f = pick((int)al.size(), "first character"); note("text begins with " + esc(S(1, al[(size_t)f]))); Once bad; uint64_t n = 0;
    std::function<void(const S &, int)> go = [&](const S &t, int left) {
        n++; S d = J::Base64::Decode(t); size_t k = t.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"); if (k == S::npos) k = t.size(); if (d.size() != k * 3 / 4 && d.size() != (k + 3) / 4 * 3) bad("size", esc(t) + " is decoded to " + std::to_string(d.size()) + " bytes"); if (left) for (char c : al) go(t + c, left - 1); };
    go(S(1, al[(size_t)f]), tierSel(4, 5)); EnvGuard g; countEval(n, 0); outcome("foreign");
}
static Reg rC26("C26", {
    {"up to three bytes", c26Short, 0, 0, "every input of 0..3 bytes"},
    {"positions", c26Positions, 0, 0, "every byte value at every position of inputs of 1..40 (100) bytes over three backgrounds"},
    {"lengths", c26Lengths, 0, 0, "every length 0..3999 (9999), three contents"},
    {"line breaks", c26Breaks, 0, 0, "lengths within 7 bytes of 1..24 (90) full lines"},
    {"foreign text", c26Foreign, 0, 0, "decoding of every text of 1..5 (6) characters over letters, digits, padding, white space, high bytes and NUL"},
});

// ================================================================== C27
// Reference acceptor: simulation of the automaton of the documented form (no backtracking)
//   local := W+ ( [^W CR LF] W+ )*    domain := D+ ( [^D CR LF] D+ )*    address := local '@' domain any-but-newline letter{2,4}
static bool refAddress(const S &in) {
    if (in.size() > 320) return false; bool blank = true; for (char c : in) if (!strchr(" \t\n\v\f\r", c) || !c) blank = false; if (blank) return false;
    auto isD = [](unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-'; }; auto isW = [&](unsigned char c) { return isD(c) || c == '_'; };
    enum { L0 = 1, L1 = 2, LS = 4, D0 = 8, D1 = 16, DS = 32, T0 = 64, T1 = 128, T2 = 256, T3 = 512, T4 = 1024 }; unsigned st = L0;
    for (char ch : in) {
        unsigned char c = (unsigned char)ch; if (c >= 'A' && c <= 'Z') c += 32; bool nl = c == '\n' || c == '\r', al = c >= 'a' && c <= 'z'; unsigned n = 0;
        if (st & L0) { if (isW(c)) n |= L1; }
        if (st & L1) { if (isW(c)) n |= L1; else if (!nl) n |= LS; if (c == '@') n |= D0; }
        if (st & LS) { if (isW(c)) n |= L1; }
        if (st & D0) { if (isD(c)) n |= D1; }
        if (st & D1) { if (isD(c)) n |= D1; else if (!nl) n |= DS; if (!nl) n |= T0; }
        if (st & DS) { if (isD(c)) n |= D1; }
        if (st & T0) { if (al) n |= T1; } if (st & T1) { if (al) n |= T2; } if (st & T2) { if (al) n |= T3; } if (st & T3) { if (al) n |= T4; }
        st = n; if (!st) return false;
    }
    return st & (T2 | T3 | T4);
}
static double cpuNow() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static double slowest;
static int addrCall(const S &t, bool cpp) {
    double t0 = cpuNow(); int r; try { if (cpp) { P::MessageAddress a(t, "n"); r = a.getEmailAddress() == t ? 0 : 3; } else { J::MessageAddress a(t.c_str()); r = t == a.getEmailAddress() ? 0 : 3; } } catch (std::invalid_argument &) { r = 1; } catch (...) { r = 2; }
    double d = cpuNow() - t0; if (d > slowest) slowest = d; return r;
}
static void addrOne(Once &bad, const S &t, bool cpp) {
    if (t.find('\0') != S::npos) return; bool want = refAddress(t); int r = addrCall(t, cpp); S sh = t.size() > 60 ? esc(t.substr(0, 40)) + "... (" + std::to_string(t.size()) + " characters)" : esc(t);
    if (r != (want ? 0 : 1)) bad(want ? "ref" : "acc", sh + (r == 0 ? " is accepted, though it is not of the documented form" : r == 1 ? " is refused, though it is of the documented form" : r == 2 ? " is answered with an undocumented exception" : " is stored differently"));
    if (r == 0 && t.find_first_of("\r\n") != S::npos) bad("nl", sh + " is accepted with a line break");
}
static void c27Small() {
    static const S al = "aZ9-_.@ \n"; int a = pick((int)al.size(), "1st"), b = pick((int)al.size(), "2nd"), cpp = pick(tierSel(1, 2), "api"); S p{al[(size_t)a], al[(size_t)b]}; note("all short texts beginning " + esc(p)); Once bad; uint64_t n = 0; int mx = tierSel(4, 5);
    std::function<void(const S &)> go = [&](const S &t) { n++; addrOne(bad, t, cpp); if ((int)t.size() < mx) for (char c : al) go(t + c); }; if (!b) addrOne(bad, S(1, al[(size_t)a]), cpp); if (!a && !b) addrOne(bad, "", cpp); go(p); EnvGuard g; countEval(n, 0); outcome("short");
}
static void c27Shaped() {   // local and domain parts from all short texts, around the '@'
    static const S al = "a.-@_\n"; int x = pick((int)al.size(), "local"), y = pick((int)al.size(), "domain"), q = pick((int)al.size(), "local 2"); note("shaped"); Once bad; uint64_t n = 0; std::vector<S> ends{"co", ".co", ".c", ".comm", ".commu", ".c0", ".co\n", ".C-", "xco", ""}; S l{al[(size_t)x], al[(size_t)q]}, d0(1, al[(size_t)y]);
    for (int third = -1; third < (thorough() ? (int)al.size() : 0); third++) for (int i = -1; i < (int)al.size(); i++) for (int j = -1; j < (int)al.size(); j++) { if (i < 0 && j >= 0) continue; S d = d0; if (i >= 0) d += al[(size_t)i]; if (j >= 0) d += al[(size_t)j]; S ll = l; if (third >= 0) ll += al[(size_t)third]; for (auto &e : ends) { n++; addrOne(bad, ll + "@" + d + e, false); } }
    EnvGuard g; countEval(n, 0); outcome("shaped");
}
static const std::vector<S> &bases() { static const std::vector<S> b{"a@b.co", "john.doe@mail.example.com", "A_b-9@x-y.z.info", "first+tag@d.org", "a@b@c.net", "_@-.us", "a b@c d.fr"}; return b; }
static void c27Neighbours() {   // every single-byte edit of ordinary addresses
    int b = pick((int)bases().size(), "address"), c = pick(16, "bytes"); const S &t = bases()[(size_t)b]; note("edits of " + t); Once bad; uint64_t n = 0; for (size_t p = 0; p <= t.size(); p++) for (int v = c * 16; v < c * 16 + 16; v++) { if (!v) { addrOne(bad, t, true); addrOne(bad, S(t).erase(std::min(p, t.size() - 1), 1), false); continue; } n += 2; S u = t; u.insert(p, 1, (char)v); addrOne(bad, u, v & 1); if (p < t.size()) { u = t; u[p] = (char)v; addrOne(bad, u, v & 1); } }
    EnvGuard g; countEval(n, 0); outcome("neighbours");
}
static void c27Pairs() {   // pairs of edits
    static const S al = "a.@-_ \n\r\t<>\"\x80"; int b = pick((int)bases().size(), "address"); const S &t = bases()[(size_t)b]; int p = pick((int)t.size() + 1, "position"), c = pick((int)al.size(), "character"); note("pairs of edits of " + t); Once bad; uint64_t n = 0; S u = t; u.insert((size_t)p, 1, al[(size_t)c]);
    for (size_t q = 0; q <= u.size(); q++) for (char e : al) { n++; S v = u; v.insert(q, 1, e); addrOne(bad, v, false); } EnvGuard g; countEval(n, 0); outcome("pairs");
}
static void c27Long() {   // repetitive texts: correct, no crash, prompt
    static const S al = "a.@-\n"; int ul = 1 + pick(3, "unit length"); S unit; for (int i = 0; i < ul; i++) unit += al[(size_t)pick((int)al.size(), "unit")]; static const std::vector<S> heads{"", "a@", "a@b."}, tails{"", "!", "@", "@a.co", ".co", "\xff"}; static const std::vector<size_t> lens{40, 150, 319, 321, 3000, 40000};
    note("repetitions of " + esc(unit)); Once bad; uint64_t n = 0; for (auto &h : heads) for (auto &e : tails) for (size_t L : lens) { if (L < h.size() + e.size()) continue; size_t m = L - h.size() - e.size(); S t = h; while (t.size() < h.size() + m) t += unit; t.resize(h.size() + m); t += e; slowest = 0; n++; addrOne(bad, t, false); if (slowest > 4) bad("slow", esc(t.substr(0, 30)) + "... (" + std::to_string(t.size()) + " characters) takes " + std::to_string(slowest) + " s"); }
    EnvGuard g; countEval(n, 0); outcome("long");
}
static Reg rC27("C27", {
    {"short texts", c27Small, 0, 0, "every text of 0..4 (5, both interfaces) characters over letters, digit, - _ . @, space and newline"},
    {"shaped texts", c27Shaped, 0, 0, "every local part of 2 (3) and domain of 1..3 characters over {a . - @ _ newline} with 10 endings"},
    {"neighbours", c27Neighbours, 0, 0, "every single-byte insertion, replacement and deletion (255 values) in 7 ordinary addresses, C and C++"},
    {"pairs of edits", c27Pairs, -1, 0, "every pair of insertions over 13 characters in 7 ordinary addresses"},
    {"long texts", c27Long, 0, 0, "repetitions of every unit of 1..3 characters over {a . @ - newline} behind 3 heads and before 6 tails at 6 lengths from 40 to 40000, each within 4 s of CPU time (usually under 0.1 s)"},
});

// ================================================================== C29
struct Probe : J::SmtpClient { Probe() : J::SmtpClient("x", 1) {} static int code(const char *p) { return J::SMTPClientBase::extractReturnCode(p); } static J::ServerAuthOptions *auth(const char *p) { return J::SMTPClientBase::extractAuthenticationOptions(p); } };
template <class T> struct CppProbe : T { CppProbe() : T("x", 1) {} static int code(const S &p) { return T::extractReturnCode(p); } static J::ServerAuthOptions *auth(const S &p) { return T::extractAuthenticationOptions(p); } };
static int refCode(const S &t) { if (t.size() < 3) return -1; for (int i = 0; i < 3; i++) if (t[(size_t)i] < '0' || t[(size_t)i] > '9') return -1; return t[0] == '0' ? -1 : (t[0] - '0') * 100 + (t[1] - '0') * 10 + t[2] - '0'; }
static void codeOne(Once &bad, const S &t) { int g = Probe::code(t.c_str()), w = refCode(t); if (g != w) bad("code", esc(t) + " is read as " + std::to_string(g) + " instead of " + std::to_string(w)); }
static void c29Codes() {   // every three-byte beginning
    int a = pick(256, "first byte"); note("first byte " + std::to_string(a)); Once bad; uint64_t n = 0; if (!a) { codeOne(bad, ""); if (Probe::code(nullptr) != -1) bad("null", "a null reply is not invalid"); EnvGuard g; countEval(2, 0); outcome("codes"); return; }
    S t(1, (char)a); codeOne(bad, t); static const std::vector<S> tails{"", " ok\r\n", "-ok\r\n", "0", "\r\n"}; bool digitish = strchr("0123456789+-. \tx", a);
    for (int b = 1; b < 256; b++) { codeOne(bad, S{(char)a, (char)b}); for (int c = 1; c < 256; c++) { S u{(char)a, (char)b, (char)c}; n++; codeOne(bad, u); if (digitish) for (size_t k = 1; k < tails.size(); k++) codeOne(bad, u + tails[k]); if (b >= '0' && b <= '9' && c >= '0' && c <= '9') for (auto &e : tails) { int w = refCode(u + e); if (CppProbe<P::SmtpClient>::code(u + e) != w || CppProbe<P::OpportunisticSecureSMTPClient>::code(u + e) != w || CppProbe<P::ForcedSecureSMTPClient>::code(u + e) != w) bad("cpp", esc(u + e) + " is read differently by a C++ client"); } } }
    EnvGuard g; countEval(n, 0); outcome("codes");
}
static void c29Codes2() {   // longer texts
    static const S al = "0129 -+.a\n\r"; int a = pick((int)al.size(), "first"), b = pick((int)al.size(), "second"); note("texts"); Once bad; uint64_t n = 0; std::function<void(const S &, int)> go = [&](const S &t, int l) { n++; codeOne(bad, t); if (l) for (char c : al) go(t + c, l - 1); }; go(S{al[(size_t)a], al[(size_t)b]}, tierSel(3, 4)); EnvGuard g; countEval(n, 0); outcome("codes");
}
struct RefAuth { bool any = false; int set = 0; };
static const char *MECH[] = {"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH"};
static int authSet(const J::ServerAuthOptions *o) { return o->Plain | o->Login << 1 | o->XOAuth2 << 2 | o->Plain_ClientToken << 3 | o->OAuthBearer << 4 | o->XOAuth << 5; }
// reference: lines end with CR LF (the last one possibly without); the authentication line is "250-AUTH" or "250 AUTH" followed by space-separated names
static RefAuth refAuth(const S &t) {
    RefAuth r; size_t p = 0; while (p < t.size()) { size_t e = t.find("\r\n", p); S l = t.substr(p, e == S::npos ? S::npos : e - p); p = e == S::npos ? t.size() : e + 2; if ((l.compare(0, 9, "250-AUTH ") && l.compare(0, 9, "250 AUTH ")) && l != "250-AUTH" && l != "250 AUTH") continue; r.any = true; size_t q = 8; while (q < l.size()) { size_t f = l.find(' ', q + 1); S m = l.substr(q + 1, f == S::npos ? S::npos : f - q - 1); for (int k = 0; k < 6; k++) if (m == MECH[k]) r.set |= 1 << k; q = f == S::npos ? l.size() : f; } return r; }
    return r;
}
static S setText(bool any, int s) { if (!any) return "no authentication line"; S r; for (int k = 0; k < 6; k++) if (s >> k & 1) r += S(r.empty() ? "" : " ") + MECH[k]; return r.empty() ? "no mechanism" : r; }
static void authOne(Once &bad, const S &t, bool all) {
    RefAuth w = refAuth(t); auto judge = [&](J::ServerAuthOptions *o, const char *who) { std::unique_ptr<J::ServerAuthOptions> own(o); if (w.any != (o != nullptr) || (o && authSet(o) != w.set)) bad("auth", esc(t) + " is understood as " + setText(o, o ? authSet(o) : 0) + " instead of " + setText(w.any, w.set) + who); };
    judge(Probe::auth(t.c_str()), ""); if (all) { judge(CppProbe<P::SmtpClient>::auth(t), " by the C++ client"); judge(CppProbe<P::OpportunisticSecureSMTPClient>::auth(t), " by the C++ opportunistic client"); judge(CppProbe<P::ForcedSecureSMTPClient>::auth(t), " by the C++ forced client"); }
    bool fin = false; { S u = t; if (u.size() >= 2 && u.compare(u.size() - 2, 2, "\r\n") == 0) u.resize(u.size() - 2); size_t p = u.rfind("\r\n"); S l = p == S::npos ? u : u.substr(p + 2); fin = l.compare(0, 4, "250 ") == 0 || l == "250"; } if (J::ServerOptionsAnalyzer::containsAllOptions(t) != fin) bad("complete", esc(t) + (fin ? " is not considered complete" : " is considered complete"));
}
static const std::vector<S> OPT{"AUTH PLAIN LOGIN", "AUTH", "SIZE 1000", "STARTTLS", "X-AUTH PLAIN", "HELP AUTH LOGIN", "SIZE PLAIN LOGIN", "8BITMIME", "mail.test Hello", "AUTH XOAUTH2", "AUTHOR PLAIN"};
static void c29Lists() {   // lists of option lines with all separators and terminators
    int len = 1 + pick(tierSel(3, 4), "lines"), n0 = (int)OPT.size(), a = pick(n0, "first line"), b = len > 1 ? pick(n0, "second line") : 0; note("option lists of " + std::to_string(len) + " lines"); Once bad; uint64_t n = 0; std::vector<int> l((size_t)len); l[0] = a; if (len > 1) l[1] = b;
    World w; World *prev = W;
    std::function<void(int)> go = [&](int i) {
        if (i < len) { for (l[(size_t)i] = 0; l[(size_t)i] < n0; l[(size_t)i]++) go(i + 1); return; } int auths = 0; for (int k : l) auths += OPT[(size_t)k].compare(0, 5, "AUTHO") && OPT[(size_t)k].compare(0, 4, "AUTH") == 0; if (auths > 1) return;   // which of several authentication lines counts is not specified
        for (int sep = 0; sep < 1 << len; sep++) for (int end = 0; end < 2; end++) { S t; for (int k = 0; k < len; k++) { t += sep >> k & 1 ? "250 " : "250-"; t += OPT[(size_t)l[(size_t)k]]; if (k + 1 < len || end) t += "\r\n"; } n++; authOne(bad, t, len < 3); } };
    W = &w; allocTrackStart(); go(std::min(len, 2)); { EnvGuard g; judgeLeak("reading option lists"); } W = prev; EnvGuard g; countEval(n, 0); outcome("lists");
}
static void c29Mechanisms() {   // every selection and order of mechanism names and similar names on the line
    static const std::vector<S> N{"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH", "PLAINX", "XLOGIN", "XOAUTH3", "CRAM-MD5", "PLAIN-", ""}; int mx = tierSel(4, 5), a = pick((int)N.size() + 1, "first name") - 1, pos = pick(4, "position of the line"); note("mechanisms"); Once bad; uint64_t n = 0;
    std::function<void(const S &, int)> go = [&](const S &l, int left) { S t = pos == 0 ? "250 AUTH" + l : pos == 1 ? "250-mail.test\r\n250-AUTH" + l + "\r\n250 HELP\r\n" : pos == 2 ? "250-mail.test\r\n250 AUTH" + l + "\r\n" : "250-AUTH" + l + "\r\n250 STARTTLS"; n++; authOne(bad, t, left == 0 && n % 7 == 0); if (left) for (auto &m : N) go(l + " " + m, left - 1); };
    if (a < 0) go("", 0); else go(" " + N[(size_t)a], mx - 1); EnvGuard g; countEval(n, 0); outcome("mechanisms");
}
static void c29All() {   // all 64 subsets in both orders, and the short texts over the separators
    note("subsets"); Once bad; uint64_t n = 0; for (int s = 0; s < 64; s++) for (int rev = 0; rev < 2; rev++) for (int h = 0; h < 2; h++) for (int e = 0; e < 2; e++) { S t = h ? "250-AUTH" : "250 AUTH"; for (int i = 0; i < 6; i++) { int k = rev ? 5 - i : i; if (s >> k & 1) t += S(" ") + MECH[k]; } if (e) t += "\r\n"; n++; authOne(bad, t, true); }
    static const std::vector<S> tk{"250", "-", " ", "\r\n", "AUTH", "PLAIN", "x"}; std::function<void(const S &, int)> go = [&](const S &t, int left) { size_t c = 0; for (size_t p = 0; (p = t.find("AUTH", p)) != S::npos; p++) c++; n++; if (c < 2) authOne(bad, t, false); if (left) for (auto &x : tk) go(t + x, left - 1); }; go("", tierSel(5, 6));
    if (Probe::auth(nullptr)) bad("null", "a null list has mechanisms"); EnvGuard g; countEval(n, 0); outcome("subsets");
}
static void c29StartTls() {   // whether the client asks for TLS depends on the lines of the list
    static const std::vector<S> L{"STARTTLS", "SIZE 100", "XSTARTTLS", "STARTTLSX", "HELP STARTTLS", "AUTH PLAIN LOGIN", "starttls", "8BITMIME"}; int len = pick(tierSel(4, 5), "lines"); std::vector<S> ls; S d; bool offered = false; for (int i = 0; i < len; i++) { int k = pick((int)L.size(), "line"); EnvGuard g; ls.push_back(L[(size_t)k]); d += L[(size_t)k] + ";"; offered |= k == 0 || k == 6; }
    Scn s = scn(OPP, 0, false); { EnvGuard g; s.srv.ehloPlain = ls; } Run r(s); std::unique_ptr<IClient> c(make(s)); MsgSpec m; { EnvGuard g; m = msgOf(0); note("options " + d); } SendRes x = r.send(c.get(), m);
    { EnvGuard g; bool asked = false; for (auto &q : r.w.cmds) asked |= lower(q.line).compare(0, 8, "starttls") == 0; if (asked != offered) violate("options " + d + (asked ? ": STARTTLS is sent" : ": STARTTLS is not sent")); if (x.rc) violate("options " + d + ": the send fails with " + std::to_string(x.rc)); }
    r.dtor(c); EnvGuard g; outcomeOf(r);
}
static void c29LongLists() {
    int n = 1 + pick(tierSel(70, 150), "lines"); note("lists of " + std::to_string(n) + " lines"); Once bad; uint64_t k = 0; World w; World *prev = W; W = &w;
    for (int len : {4, 30, 110, 480}) for (int at = 0; at < n; at++) for (int a = 0; a < 3; a++) { static const char *ln[] = {"AUTH PLAIN LOGIN", "AUTH XOAUTH2", "AUTHX PLAIN"}; S t; { EnvGuard g; for (int i = 0; i < n; i++) { S o = "X" + std::to_string(i); while ((int)o.size() < len) o += o.size() % 9 == 3 ? ' ' : 'A'; t += (i + 1 < n ? "250-" : "250 ") + (i == at ? S(ln[a]) : o) + "\r\n"; } } k++; authOne(bad, t, a == 0 && len < 100); }
    for (int m = 0; m < 6; m++) for (int x = 0; x < 3; x++) { static const char *other[] = {"X", "SCRAM-SHA-256-PLUS", "PLAINX"}; S t = "250-SIZE\r\n250-AUTH"; { EnvGuard g; for (int i = 0; i < n * 4; i++) t += S(" ") + other[x]; t += S(" ") + MECH[m] + "\r\n250 HELP\r\n"; } k++; authOne(bad, t, true); }
    W = prev; EnvGuard g; countEval(k, 0); outcome("long lists");
}
static Reg rC29("C29", {
    {"codes", c29Codes, 0, 0, "every beginning of three bytes (255^3), with five continuations where it resembles a number; C++ clients on all numbers"},
    {"longer texts", c29Codes2, 0, 0, "every text of 2..5 (6) characters over digits, signs, blanks, a letter and newlines"},
    {"option lists", c29Lists, 0, 0, "every list of 1..3 (4) of 11 option lines with every choice of separators and with or without final line end: mechanisms, completeness, leaks"},
    {"mechanism lines", c29Mechanisms, 0, 0, "every sequence of 0..4 (5) names over the six mechanisms, similar names and repeated spaces, in four places of the list"},
    {"subsets and fragments", c29All, 0, 0, "all 64 subsets in two orders; every sequence of 0..5 (6) fragments of reply syntax"},
    {"long lists", c29LongLists, 0, 0, "lists of 1..70 (150) lines of 4..480 characters with an authentication line at every place; each mechanism after up to 280 (600) others"},
    {"STARTTLS", c29StartTls, 0, 0, "sends against servers offering every list of 0..3 (4) options over STARTTLS, look-alikes and others"},
});

// ================================================================== C30
static const std::map<S, S> &types() {
    static const std::map<S, S> t = [] { std::map<S, S> m; auto a = [&](const char *ty, std::initializer_list<const char *> e) { for (auto x : e) m[x] = ty; };
        a("image/png", {"png"}); a("image/jpeg", {"jpeg", "jpg", "jpe"}); a("image/gif", {"gif"}); a("image/tiff", {"tiff", "tif"}); a("image/x-icon", {"ico"}); a("application/xml", {"xml", "xsl"}); a("application/xhtml+xml", {"xhtml", "xht"}); a("application/pdf", {"pdf"}); a("application/javascript", {"js"}); a("text/css", {"css"}); a("text/csv", {"csv"}); a("text/html", {"html", "htm"});
        a("text/plain", {"txt", "text", "conf", "def", "list", "log", "in"}); a("video/mpeg", {"mpeg", "mpg", "mpe", "m1v", "m2v"}); a("video/mp4", {"mp4", "mp4v", "mpg4"}); a("video/quicktime", {"qt", "mov"}); a("video/x-ms-wmv", {"wmv"}); a("video/x-msvideo", {"avi"}); a("video/x-flv", {"flv"}); a("video/webm", {"webm"}); a("audio/wav", {"wav"}); a("audio/mpeg", {"mp3"}); a("audio/ogg", {"oga"}); a("audio/opus", {"opus"}); a("audio/aac", {"aac"});
        a("application/zip", {"zip"}); a("application/x-rar-compressed", {"rar"}); a("application/vnd.oasis.opendocument.text", {"odt"}); a("application/vnd.oasis.opendocument.spreadsheet", {"ods"}); a("application/vnd.oasis.opendocument.presentation", {"odp"}); a("application/vnd.oasis.opendocument.graphics", {"odg"}); a("application/vnd.ms-excel", {"xls", "xlm", "xla", "xlc", "xlt", "xlw"});
        a("application/vnd.ms-excel.addin.macroenabled.12", {"xlam"}); a("application/vnd.ms-excel.sheet.binary.macroenabled.12", {"xlsb"}); a("application/vnd.ms-excel.sheet.macroenabled.12", {"xlsm"}); a("application/vnd.ms-excel.template.macroenabled.12", {"xltm"}); a("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", {"xlsx"}); a("application/vnd.openxmlformats-officedocument.spreadsheetml.template", {"xltx"}); a("application/vnd.ms-powerpoint", {"ppt", "pps", "pot"});
        a("application/vnd.ms-powerpoint.addin.macroenabled.12", {"ppam"}); a("application/vnd.ms-powerpoint.presentation.macroenabled.12", {"pptm"}); a("application/vnd.ms-powerpoint.slide.macroenabled.12", {"sldm"}); a("application/vnd.ms-powerpoint.slideshow.macroenabled.12", {"ppsm"}); a("application/vnd.ms-powerpoint.template.macroenabled.12", {"potm"}); a("application/vnd.openxmlformats-officedocument.presentationml.presentation", {"pptx"}); a("application/vnd.openxmlformats-officedocument.presentationml.slide", {"sldx"});
        a("application/vnd.openxmlformats-officedocument.presentationml.slideshow", {"ppsx"}); a("application/vnd.openxmlformats-officedocument.presentationml.template", {"potx"}); a("application/msword", {"doc", "dot"}); a("application/vnd.openxmlformats-officedocument.wordprocessingml.document", {"docx"}); a("application/vnd.openxmlformats-officedocument.wordprocessingml.template", {"dotx"}); a("application/vnd.mozilla.xul+xml", {"xul"}); return m; }();
    return t;
}
static const S &typeOf(const S &file) { static const S none; size_t p = file.rfind('.'); if (p == S::npos) return none; auto i = types().find(lower(file.substr(p + 1))); return i == types().end() ? none : i->second; }
static void mimeOne(Once &bad, const S &file, const S &name, bool cpp) {
    S got; if (cpp) { P::Attachment a(file, name); got = a.getMimeType(); } else { J::Attachment a(file.c_str(), name.c_str()); got = a.getMimeType(); } const S &w = typeOf(file); if (got != w) bad("mime", "the type of " + esc(file) + (name.empty() ? S() : " named " + esc(name)) + " is " + (got.empty() ? "empty" : got) + " instead of " + (w.empty() ? "empty" : w));
}
static const S AN = "abcdefghijklmnopqrstuvwxyz0123456789";
static void c30All() {   // all extensions of up to three (four) letters and digits, both cases
    int a = pick(36, "first"), b = pick(37, "second") - 1; note(S("extensions beginning ") + AN[(size_t)a]); Once bad; uint64_t n = 0; S p = "f." + S(1, AN[(size_t)a]); auto one = [&](const S &t) { n += 2; mimeOne(bad, t, "", false); S u = t; for (char &c : u) if (c >= 'a' && c <= 'z' && &c != &u[0]) c -= 32; mimeOne(bad, u, "", false); }; if (b < 0) { one(p); if (!a) { one("f"); one("f."); } } else { p += AN[(size_t)b]; one(p); int mx = tierSel(4, 5); std::function<void(const S &)> go = [&](const S &t) { for (char c : AN) { one(t + c); if ((int)t.size() - 2 + 1 < mx) go(t + c); } }; go(p); }
    EnvGuard g; countEval(n, 0); outcome("extensions");
}
static void c30Letters() {   // all extensions of five (six) letters
    int a = pick(26, "first"), b = pick(26, "second"), mx = tierSel(5, 6); note(S("extensions of letters beginning ") + AN[(size_t)a] + AN[(size_t)b]); Once bad; uint64_t n = 0; S t = S("f.") + AN[(size_t)a] + AN[(size_t)b]; std::function<void()> go = [&] { for (int c = 0; c < 26; c++) { t += AN[(size_t)c]; if ((int)t.size() - 2 == mx) { n++; mimeOne(bad, t, "", false); } else go(); t.pop_back(); } }; go(); EnvGuard g; countEval(n, 0); outcome("letters");
}
static const std::vector<S> &exts() { static const std::vector<S> v = [] { std::vector<S> r; for (auto &t : types()) r.push_back(t.first); return r; }(); return v; }
static void c30Cases() {   // every letter case of every documented extension, in every surrounding
    int e = pick((int)exts().size(), "extension"); const S &x = exts()[(size_t)e]; note("extension " + x); Once bad; uint64_t n = 0; static const std::vector<S> dirs{"", "/tmp/", "/a.b/c d/", "../x.PNG/", "C:\\a.txt\\", "./"}, names{"file", "two.dots", "with space", ".hidden", "name.zip", "trailing.", "\xE9t\xE9", "png", ""}, disp{"", "other.exe", "pic.GIF"};
    for (unsigned m = 0; m < 1u << x.size(); m++) { S y = x; for (size_t i = 0; i < y.size(); i++) if (m >> i & 1 && y[i] >= 'a' && y[i] <= 'z') y[i] -= 32; for (auto &d : dirs) for (auto &f : names) { S t = d + f + "." + y; n++; mimeOne(bad, t, disp[n % 3], n & 1); if (m == 0) for (auto &q : disp) { n += 4; mimeOne(bad, t, q, false); mimeOne(bad, t, q, true); mimeOne(bad, d + f + y, q, false); mimeOne(bad, t + "/none", q, true); } } }
    EnvGuard g; countEval(n, 0); outcome("cases");
}
static void c30Edits() {   // one-byte edits of documented extensions
    int e = pick((int)exts().size(), "extension"); const S x = "f." + exts()[(size_t)e]; note("edits of " + x); Once bad; uint64_t n = 0; for (size_t p = 2; p <= x.size(); p++) for (int v = 1; v < 256; v++) { S u = x; u.insert(p, 1, (char)v); n += 2; mimeOne(bad, u, "", v & 1); if (p < x.size()) { u = x; u[p] = (char)v; mimeOne(bad, u, "", v & 1); } } for (size_t p = 1; p < x.size(); p++) mimeOne(bad, S(x).erase(p, 1), "", false);
    for (auto &o : exts()) { n += 2; mimeOne(bad, x + o, "", false); mimeOne(bad, x + "." + o, "", true); } EnvGuard g; countEval(n, 0); outcome("edits");
}
static void c30Long() {   // long paths, names and extensions
    int part = pick(16, "part"); note("long paths"); Once bad; uint64_t n = 0; int top = tierSel(1100, 5000); static const std::vector<S> ex{"png", "xhtml", "in", "jpegx", "p"};
    for (int l = part; l <= top; l += 16) for (auto &x : ex) { S d((size_t)l, 'd'), m; for (int i = 0; i < l; i++) m += i % 20 == 19 ? '/' : i % 7 == 3 ? '.' : 'e'; n += 6; mimeOne(bad, d + "." + x, "", l & 1); mimeOne(bad, m + "f." + x, "", l & 1); mimeOne(bad, "f." + x, d, l & 1); mimeOne(bad, "f." + d + x, "", l & 1); mimeOne(bad, "f." + x + d, "", l & 1); mimeOne(bad, S((size_t)l, '.') + x, "", l & 1); }
    EnvGuard g; countEval(n, 0); outcome("long paths");
}
static void c30Names() {   // display names with extensions of their own
    int e = pick((int)exts().size(), "extension"); const S &x = exts()[(size_t)e]; note("display names with the extension " + x); Once bad; uint64_t n = 0; S up = x; for (auto &c : up) if (c >= 'a' && c <= 'z') c -= 32;
    std::vector<S> files{"file", "dir.d/file", "file.", "file.unknown", "f.x.", "/a/b/c", "C:\\dir\\file", ".", "..", "\xE9"}; for (auto &o : exts()) files.push_back("f." + o);
    for (auto &f : files) for (const S &q : {S("report.") + x, S("report.") + up, S(".") + x, x, S("a.b.") + x, f + "." + x, S("dir/report.") + x}) { n += 2; mimeOne(bad, f, q, false); mimeOne(bad, f, q, true); }
    EnvGuard g; countEval(n, 0); outcome("display names");
}
static Reg rC30("C30", {
    {"all extensions", c30All, 0, 0, "no extension, the empty one, and every extension of 1..4 (5) letters and digits, in lower and upper case"},
    {"five letters", c30Letters, 0, 0, "every extension of 5 (6) letters"},
    {"documented extensions", c30Cases, 0, 0, "every letter case of every documented extension with 6 directories, 9 file names, 3 display names, C and C++"},
    {"long paths", c30Long, 0, 0, "paths, display names, extensions and rows of periods of every length up to 1100 (5000)"},
    {"display names", c30Names, 0, 0, "display names with each documented extension, for files without, with an unknown and with each documented extension"},
    {"edits", c30Edits, 0, 0, "every one-byte insertion, replacement, deletion and every concatenation of documented extensions"},
});
}  // namespace mc
