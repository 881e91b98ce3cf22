#include <cstdio>
#include <cstring>
#include <map>
#include "scen.h"
#include <fcntl.h>
#include <unistd.h>
namespace mc {
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
template <class V> static std::string getH(const V &v, const std::string &h) { for (auto &p : v) if (lower(p.first) == lower(h)) return p.second; return ""; }
template <class V> static int cntH(const V &v, const std::string &h) { int n = 0; for (auto &p : v) if (lower(p.first) == lower(h)) n++; return n; }
std::string MimePart::get(const std::string &h) const { return getH(headers, h); }
int MimePart::count(const std::string &h) const { return cntH(headers, h); }
std::string Mime::get(const std::string &h) const { return getH(headers, h); }
int Mime::count(const std::string &h) const { return cntH(headers, h); }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const std::string &s) {
    std::string r; size_t i = 0; auto u = [&](size_t k) { return (unsigned)(unsigned char)s[k]; };
    for (; i + 2 < s.size(); i += 3) { unsigned v = u(i) << 16 | u(i + 1) << 8 | u(i + 2); r += B64[v >> 18]; r += B64[v >> 12 & 63]; r += B64[v >> 6 & 63]; r += B64[v & 63]; }
    if (s.size() - i == 1) { unsigned v = u(i) << 16; r += B64[v >> 18]; r += B64[v >> 12 & 63]; r += "=="; }
    else if (s.size() - i == 2) { unsigned v = u(i) << 16 | u(i + 1) << 8; r += B64[v >> 18]; r += B64[v >> 12 & 63]; r += B64[v >> 6 & 63]; r += "="; }
    return r;
}
// strict decoder; white space (line breaks) is skipped
std::string unb64(const std::string &s, bool *ok) {
    std::string r; int n = 0, pad = 0; unsigned v = 0; bool good = true;
    for (char c : s) {
        if (c == '\r' || c == '\n' || c == ' ' || c == '\t') continue;
        if (c == '=') { pad++; n++; v <<= 6; } else { const char *p = c ? strchr(B64, c) : nullptr; if (!p || pad) { good = false; break; } v = v << 6 | (unsigned)(p - B64); n++; }
        if (n == 4) { r += (char)(v >> 16); if (pad < 2) r += (char)(v >> 8); if (pad < 1) r += (char)v; if (pad > 2) good = false; n = 0; v = 0; }
    }
    if (n) good = false;
    if (ok) *ok = good;
    return r;
}
static bool parseHeaders(const std::string &d, size_t &p, std::vector<std::pair<std::string, std::string>> &out, std::string &err) {
    for (;;) {
        if (p >= d.size()) { err = "header section does not end"; return false; }
        size_t e = d.find("\r\n", p); if (e == std::string::npos) { err = "header line without end"; return false; }
        std::string l = d.substr(p, e - p); p = e + 2;
        if (l.empty()) return true;
        if ((l[0] == ' ' || l[0] == '\t') && !out.empty()) { out.back().second += l; continue; }
        if (l.find('\n') != std::string::npos || l.find('\r') != std::string::npos) { err = "bare CR or LF in header line: " + esc(l, 80); return false; }
        size_t c = l.find(':'); if (c == std::string::npos || c == 0) { err = "not a header line: " + esc(l, 80); return false; }
        for (size_t i = 0; i < c; i++) if ((unsigned char)l[i] <= 32 || (unsigned char)l[i] >= 127) { err = "bad header name: " + esc(l, 80); return false; }
        std::string v = l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
        out.push_back({l.substr(0, c), v});
    }
}
// value of a parameter of a structured header, quoted or not
std::string param(const std::string &v, const std::string &name) {
    size_t p = v.find(';');
    while (p != std::string::npos) {
        p++; while (p < v.size() && (v[p] == ' ' || v[p] == '\t')) p++;
        size_t q = v.find('=', p); if (q == std::string::npos) return "";
        std::string n = lower(trim(v.substr(p, q - p))); std::string val; q++;
        if (q < v.size() && v[q] == '"') { q++; while (q < v.size() && v[q] != '"') { if (v[q] == '\\' && q + 1 < v.size()) q++; val += v[q++]; } p = v.find(';', q); }
        else { p = v.find(';', q); val = trim(v.substr(q, p == std::string::npos ? p : p - q)); }
        if (n == lower(name)) return val;
    }
    return "";
}
static std::string unqp(const std::string &s) {
    std::string r; auto hx = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '=' && i + 2 < s.size() + 0) { if (s[i + 1] == '\r' && s[i + 2] == '\n') { i += 2; continue; } if (hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { r += (char)(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 2; continue; } }
        r += s[i];
    }
    return r;
}
Mime parseMime(const std::string &d) {
    Mime m; size_t p = 0;
    if (!parseHeaders(d, p, m.headers, m.err)) return m;
    std::string ct = m.get("Content-Type");
    if (lower(ct).rfind("multipart/", 0) != 0) {
        MimePart part; for (auto &h : m.headers) if (lower(h.first).rfind("content-", 0) == 0) part.headers.push_back(h);
        part.raw = d.substr(p); part.content = part.raw;
        std::string cte = lower(part.get("Content-Transfer-Encoding")); if (cte == "base64") part.content = unb64(part.raw); else if (cte == "quoted-printable") part.content = unqp(part.raw);
        m.parts.push_back(part); m.closed = true; return m;
    }
    m.boundary = param(ct, "boundary"); if (m.boundary.empty()) { m.err = "no boundary in " + esc(ct); return m; }
    std::string delim = "--" + m.boundary;
    // delimiter lines: at line start, delim, optional --, optional blanks, CRLF or end
    struct D { size_t start, after; bool close; }; std::vector<D> ds;
    size_t q = p;
    while (q <= d.size()) {
        if (d.compare(q, delim.size(), delim) == 0) {
            size_t a = q + delim.size(); bool cl = d.compare(a, 2, "--") == 0; if (cl) a += 2;
            size_t b = a; while (b < d.size() && (d[b] == ' ' || d[b] == '\t')) b++;
            if (b == d.size() || d.compare(b, 2, "\r\n") == 0) { ds.push_back({q, b == d.size() ? b : b + 2, cl}); if (cl) break; }
        }
        size_t e = d.find("\r\n", q); if (e == std::string::npos) break; q = e + 2;
    }
    if (ds.empty()) { m.err = "no part delimiter"; return m; }
    for (size_t i = 0; i < ds.size(); i++) {
        if (ds[i].close) { m.closed = true; break; }
        size_t end = i + 1 < ds.size() ? ds[i + 1].start : d.size(); bool last = i + 1 >= ds.size();
        MimePart part; size_t s = ds[i].after; std::string sub = d.substr(s, end - s); size_t hp = 0;
        if (!parseHeaders(sub, hp, part.headers, part.raw)) { m.err = "part " + std::to_string(i) + ": " + part.raw; return m; }
        part.raw = sub.substr(hp);
        if (!last && part.raw.size() >= 2 && part.raw.compare(part.raw.size() - 2, 2, "\r\n") == 0) part.raw.resize(part.raw.size() - 2);   // the line break before a delimiter belongs to it
        std::string cte = lower(trim(part.get("Content-Transfer-Encoding")));
        if (cte == "base64") { bool ok; part.content = unb64(part.raw, &ok); if (!ok) { m.err = "part " + std::to_string(i) + " is not valid base64: " + esc(part.raw, 60); return m; } }
        else if (cte == "quoted-printable") part.content = unqp(part.raw); else part.content = part.raw;
        m.parts.push_back(part);
    }
    return m;
}
std::string readFile(const std::string &f) { std::string r; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return r; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n); close(fd); return r; }
std::string mkFile(const std::string &name, const std::string &content) {
    EnvGuard g;
    static std::map<std::string, std::string> made;
    std::string path = std::string(gScratch) + "/p" + std::to_string(getpid()) + "-" + name;
    auto it = made.find(path); if (it != made.end() && it->second == content) return path;
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); size_t o = 0; while (o < content.size()) { ssize_t n = write(fd, content.data() + o, content.size() - o); if (n <= 0) break; o += (size_t)n; } close(fd); made[path] = content; return path;
}
}  // namespace mc
