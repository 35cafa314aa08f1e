// HTTP messages made from known parts, and ways to feed them
#pragma once
#include "mon.h"
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
namespace ht {
using namespace mon; using fr::Http; using St = fr::Socket::Status; using KV = std::vector<std::pair<std::string, std::string>>;
static const St MORE = St::NotEnoughData, OK = St::Success;
inline std::string low(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
inline std::string mix(Rng &r, std::string s) { unsigned m = r.below(4); for(auto &c : s) if(m == 1 || (m == 2 && r.chance(50))) { if(c >= 'a' && c <= 'z') c -= 32; else if(c >= 'A' && c <= 'Z') c += 32; } return s; }
inline std::string word(Rng &r, const char *set, size_t lo, size_t hi) { std::string s; size_t n = r.range(lo, hi), k = strlen(set); while(s.size() < n) s += set[r.below(k)]; return s; }
#define TOKEN "abcxyzABCXYZ019-_."
// printable bytes without those of no
inline std::string text(Rng &r, const char *no, size_t hi) { std::string s; size_t n = r.below(hi + 1); while(s.size() < n) { char c = r.chance(30) ? "aA0= ?&/:%+;HTTP#.\"~!"[r.below(21)] : (char)r.range(32, 126); if(!strchr(no, c)) s += c; } return s; }
static const char *methods[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
static const int codes[] = {100, 101, 200, 201, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 413, 500, 501, 503, 505, 0, 1, 99, 999, 65536};
struct Msg {
    bool resp = false, v10 = false, form = false, announce = false, chunked = false; int method = 0, status = 200; std::string path = "/", reason, nl = "\r\n", body; KV query, headers, post; size_t head = 0; std::vector<std::string> bare;
    std::string first() const {
        if(resp) return std::string(v10 ? "HTTP/1.0 " : "HTTP/1.1 ") + std::to_string(status) + reason;
        std::string s = std::string(methods[method]) + " " + path; for(size_t i = 0; i < query.size(); ++i) s += (i ? "&" : "?") + query[i].first + "=" + query[i].second;
        return s + (v10 ? " HTTP/1.0" : " HTTP/1.1");
    }
    std::string head_text() const { std::string s = first(); for(auto &h : headers) s += nl + h.first + ":" + h.second; return s; }
    std::string wire() { std::string s = head_text(); head = s.size(); return s + nl + nl + body; }
};
inline std::string unspace(const std::string &v) { size_t p = v.find_first_not_of(' '); return p == std::string::npos ? "" : v.substr(p); }
inline Msg gen(Rng &r, bool resp) {
    Msg m; m.resp = resp; m.v10 = r.chance(25); m.nl = r.chance(80) ? "\r\n" : "\n";
    if(resp) { m.status = codes[r.below(sizeof(codes)/sizeof(*codes))]; static const char *re[] = {"", " ", " OK", " Not Found", " HTTP/1.0 404", " x: y"}; m.reason = re[r.below(6)]; }
    else {
        m.method = r.below(5); m.path = "/" + text(r, "?", r.chance(50) ? 3 : 30); if(r.chance(20)) m.path = "/";
        if(r.chance(50)) { unsigned n = r.range(1, 5); for(unsigned i = 0; i < n; ++i) m.query.push_back({r.chance(25) && i ? mix(r, m.query[r.below(i)].first) : word(r, TOKEN " +%:;/?HTP", 1, 6), text(r, "&", r.chance(60) ? 4 : 20)}); }
        if(!m.query.empty() && m.query[0].first[0] == '?') m.query[0].first[0] = 'q';
    }
    unsigned n = r.below(6); for(unsigned i = 0; i < n; ++i) { std::string v = text(r, "", 20); m.headers.push_back({r.chance(25) && i ? mix(r, m.headers[r.below(i)].first) : word(r, TOKEN, 1, 8), std::string(r.below(3), ' ') + v}); }
    return m;
}
inline void announce(Rng &r, Msg &m) { m.announce = true; m.headers.insert(m.headers.begin() + r.below(m.headers.size() + 1), {mix(r, "Content-Length"), std::string(r.below(3), ' ') + std::string(r.chance(10) ? 3 : 0, '0') + std::to_string(m.body.size())}); }
inline void body(Rng &r, Msg &m) {
    if(m.resp || m.method != 1 || r.chance(30)) { m.body = gen_bytes(r, 300); if(r.chance(20)) m.body += "\r\n\r\n" + gen_bytes(r, 10); }
    else { m.form = true; unsigned n = r.range(1, 4); std::set<std::string> seen; for(unsigned i = 0; i < n; ++i) { std::string k = word(r, TOKEN " +%:", 1, 6); if(seen.insert(low(k)).second) m.post.push_back({k, text(r, "&", 12)}); } for(size_t i = 0; i < m.post.size(); ++i) m.body += (i ? "&" : "") + m.post[i].first + "=" + m.post[i].second; }
    if(!m.body.empty() || r.chance(50)) announce(r, m);
}
inline const std::pair<std::string, std::string> *first_of(const KV &v, const std::string &n) { for(auto &e : v) if(low(e.first) == low(n)) return &e; return nullptr; }
// what the message says against what was parsed
template<class P> void check_parsed(Rng &r, const Msg &m, P &p) {
    eqn("version", (int)p.get_version(), m.v10 ? 1 : 2);
    if(m.resp) eqn("status code", (int)p.get_status(), m.status);
    else { eqn("method", (int)p.get_type(), m.method); eq("path", p.get_uri(), m.path); }
    for(auto &h : m.headers) { expect(p.header_exists(mix(r, h.first)), "header \"" + hex(h.first) + "\" is absent"); eq("header \"" + hex(h.first) + "\"", p.header(mix(r, h.first)), unspace(first_of(m.headers, h.first)->second)); }
    for(auto &q : m.query) { expect(p.get_exists(mix(r, q.first)), "query variable \"" + hex(q.first) + "\" is absent"); eq("query variable \"" + hex(q.first) + "\"", p.get(mix(r, q.first)), first_of(m.query, q.first)->second); }
    if(m.form) for(auto &q : m.post) { expect(p.post_exists(mix(r, q.first)), "posted variable \"" + hex(q.first) + "\" is absent"); eq("posted variable \"" + hex(q.first) + "\"", p.post(mix(r, q.first)), q.second); }
    for(auto x : {word(r, TOKEN, 1, 4), std::string("content-length"), std::string("host"), std::string("")}) {
        if(!first_of(m.headers, x)) expect(!p.header_exists(x), "header \"" + x + "\" is reported although absent");
        if(!first_of(m.query, x)) expect(!p.get_exists(x), "query variable \"" + x + "\" is reported although absent");
        if(!m.form || !first_of(m.post, x)) { if(m.resp || m.method != 1 || m.form) expect(!p.post_exists(x), "posted variable \"" + x + "\" is reported although absent"); }
    }
}
// every name which could have been parsed out of the bytes
inline std::set<std::string> names(const std::string &R) {
    std::set<std::string> o; std::string w; size_t b = 0;
    for(size_t i = 0; i <= R.size() && o.size() < 400; ++i) if(i == R.size() || strchr("\n:&=?", R[i])) { if(i - b < 200) { o.insert(low(R.substr(b, i - b))); } b = i + 1; }
    return o;
}
template<class P> std::string contents(P &p, const std::set<std::string> &ns, bool resp) {
    std::string s = resp ? "status " + std::to_string((int)p.get_status()) : "method " + std::to_string((int)p.get_type()) + " path " + p.get_uri();
    s += " version " + std::to_string((int)p.get_version()) + " body[" + std::to_string(p.get_body().size()) + "] " + p.get_body();
    for(auto &n : ns) { if(p.header_exists(n)) s += "\nheader " + n + "=" + p.header(n); if(p.get_exists(n)) s += "\nquery " + n + "=" + p.get(n); if(p.post_exists(n)) s += "\nposted " + n + "=" + p.post(n); }
    return s;
}
inline std::vector<size_t> cuts(Rng &r, size_t n) {
    std::vector<size_t> c; unsigned m = r.below(5);
    if(m == 0) return c;
    if(m == 1) { for(size_t i = 1; i < n && n < 3000; ++i) c.push_back(i); return c; }
    unsigned k = m == 2 ? 1 : r.range(1, 6); for(unsigned i = 0; i < k; ++i) c.push_back(r.below(n + 1)); std::sort(c.begin(), c.end()); return c;
}
// feeds R in pieces; stops at the first status other than more data. used: bytes fed
template<class P> St feed(P &p, const std::string &R, const std::vector<size_t> &cut, size_t &used) {
    size_t b = 0; St st = MORE; used = 0;
    for(size_t i = 0; i <= cut.size(); ++i) {
        size_t e = i < cut.size() ? cut[i] : R.size(); std::vector<char> piece(R.begin() + b, R.begin() + e);   // exactly sized, so that reading past it is seen
        st = p.parse(piece.data(), piece.size()); used = e; b = e; if(st != MORE) break;
    }
    return st;
}
inline std::string show(const std::vector<size_t> &c) { std::string s; if(c.size() > 12) return std::to_string(c.size() + 1) + " pieces"; for(auto x : c) s += " " + std::to_string(x); return "cut at" + (s.empty() ? " nothing" : s); }
inline std::string chunked(Rng &r, std::string &decoded, unsigned maxn = 6) {
    std::string s; unsigned n = r.below(maxn); char b[32];
    for(unsigned i = 0; i <= n; ++i) {
        std::string d; if(i < n) { d = r.chance(40) ? std::string("5\r\nhello\r\n0\r\n\r\n").substr(r.below(8)) : gen_bytes(r, 300); if(d.empty()) d = "x"; }
        snprintf(b, sizeof b, r.chance(50) ? "%zx" : "%zX", d.size()); s += std::string(r.chance(10) ? r.below(4) : 0, '0') + b + (r.chance(10) ? ";name=value" : "") + "\r\n" + d + "\r\n"; decoded += d;
    }
    return s;
}
inline std::string hostile(Rng &r, bool resp) {
    Msg m = gen(r, resp); body(r, m); std::string R = m.wire(); static const char *bits[] = {"\r\n\r\n", "\n\n", "\n", "\r\n", " ", ":", "?", "&", "=", "/", "HTTP", "HTTP/1.0", "Content-Length: ", "content-length:-1", "content-length: x", "content-length: 99999999999999999999", "Transfer-Encoding: chunked", "POST ", "GE", "\0", "ffffffffffffffff\r\n", "0\r\n\r\n", "-1\r\n", "G", "PATC", "DELETEX /"};
    if(resp && r.chance(40)) { std::string d; m = gen(r, true); m.headers.push_back({"Transfer-Encoding", " chunked"}); m.body = chunked(r, d); R = m.wire(); }
    if(!resp && r.chance(15)) R = "POST /" + word(r, "?=&a", 0, 3) + " HTTP/1.1\r\n\r\n" + word(r, "\r\n\n=&a", 0, 8);
    if(r.chance(15)) R = gen_bytes(r, 400);
    unsigned k = r.below(4); while(k--) switch(r.below(6)) {
        case 0: if(!R.empty()) R.erase(r.below(R.size()), r.range(1, 6)); break;
        case 1: { const char *b = bits[r.below(26)]; R.insert(r.below(R.size() + 1), b, *b ? strlen(b) : 1); break; }
        case 2: if(!R.empty()) R[r.below(R.size())] = (char)r.below(256); break;
        case 3: R.resize(r.below(R.size() + 1)); break;
        case 4: R.insert(r.below(R.size() + 1), gen_bytes(r, 12)); break;
        default: if(!dict_s.empty()) R.insert(r.below(R.size() + 1), r.pick(dict_s)); break;
    }
    return R;
}
}
