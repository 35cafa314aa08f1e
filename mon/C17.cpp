// build: src=Http,HttpRequest,HttpResponse,Socket,Base64,Sha1,WebFrame -Wl,--wrap=time
#include "fake.h"
#include <frnetlib/WebSocket.h>
#include <functional>
using namespace mon; using fake::St; using KV = std::vector<std::pair<std::string, std::string>>;
const char *monitor_name = "websocket handshakes";
static const char *GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
static uint64_t peer_seed; static time_t now = 0; extern "C" time_t __wrap_time(time_t *t) { if(t) *t = now; return now; }
template<class T, size_t N> static T one(Rng &r, T const (&a)[N]) { return a[r.below(N)]; } static St connect_status;
struct Peer : public fake::Sock {
    std::function<std::string(const std::string &)> answer; bool answered = false; unsigned connects = 0;
    Peer() : Sock(peer_seed) { p_block = 0; conn = false; }
    St connect(const std::string &, const std::string &, std::chrono::seconds) override { ++connects; conn = connect_status == St::Success; return connect_status; }
    St receive_raw(void *d, size_t n, size_t &got) override { if(!answered) { answered = true; if(answer) in = answer(out); } return Sock::receive_raw(d, n, got); }
    void set_descriptor(void *d) override { conn = d != nullptr; }
    int32_t get_socket_descriptor() const noexcept override { return conn ? 3 : -1; }
};
// FIPS 180 and RFC 4648, independently of the library
static std::string sha1(std::string m) {
    uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u}; uint64_t bits = m.size() * 8ull; m += (char)0x80; while(m.size() % 64 != 56) m += '\0'; for(int i = 7; i >= 0; --i) m += (char)(bits >> 8 * i);
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for(size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int t = 0; t < 16; ++t) { w[t] = 0; for(int k = 0; k < 4; ++k) w[t] = w[t] << 8 | (uint8_t)m[o + 4 * t + k]; }
        for(int t = 16; t < 80; ++t) w[t] = rol(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16], 1);
        for(int t = 0; t < 80; ++t) { uint32_t f = t < 20 ? (b & c) | (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d, k = t < 20 ? 0x5A827999u : t < 40 ? 0x6ED9EBA1u : t < 60 ? 0x8F1BBCDCu : 0xCA62C1D6u; uint32_t x = rol(a, 5) + f + e + w[t] + k; e = d; d = c; c = rol(b, 30); b = a; a = x; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string r; for(uint32_t x : h) for(int k = 24; k >= 0; k -= 8) r += (char)(x >> k); return r;
}
static std::string b64(const std::string &s) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for(size_t i = 0; i < s.size(); i += 3) { uint32_t v = 0; for(size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? (uint8_t)s[i + k] : 0); for(size_t k = 0; k < 4; ++k) r += i + k > s.size() ? '=' : A[v >> (18 - 6 * k) & 63]; } return r; }
static std::string accept_for(const std::string &key) { return b64(sha1(key + GUID)); }
static std::string low(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string mixc(Rng &r, std::string s) { unsigned m = r.below(4); for(auto &c : s) if(m == 1 || (m == 2 && r.chance(50))) { if(c >= 'a' && c <= 'z') c -= 32; else if(c >= 'A' && c <= 'Z') c += 32; } return s; }
static std::string word(Rng &r, const char *set, size_t lo, size_t hi) { std::string s; size_t n = r.range(lo, hi); while(s.size() < n) s += set[r.below(strlen(set))]; return s; }
#define ALNUM "abcxyzABCXYZ0189+/="
struct Head { std::string first; KV h; bool ok = false; size_t end = 0; const std::string *get(const std::string &k) const { for(auto &e : h) if(e.first == k) return &e.second; return nullptr; } };
static Head parse(const std::string &s) {
    Head o; size_t e = s.find("\r\n\r\n"); if(e == std::string::npos) return o; o.ok = true; o.end = e + 4; size_t b = 0;
    while(b < e) { size_t n = std::min(s.find("\r\n", b), e); std::string l = s.substr(b, n - b); b = n + 2; if(o.first.empty()) { o.first = l; continue; } size_t c = l.find(':'); if(c == std::string::npos) continue; size_t v = l.find_first_not_of(' ', c + 1); o.h.push_back({low(l.substr(0, c)), v == std::string::npos ? "" : l.substr(v)}); }
    return o;
}
static std::string message(Rng &r, const std::string &first, KV h) {
    for(size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[r.below(i)]);
    std::string s = first; for(auto &e : h) s += "\r\n" + mixc(r, e.first) + ":" + std::string(r.below(3), ' ') + e.second; return s + "\r\n\r\n";
}
static void extras(Rng &r, KV &h) { unsigned n = r.below(4); for(unsigned i = 0; i < n; ++i) h.push_back({"x-" + word(r, "abcz09-", 1, 6), word(r, "abc XYZ=/,;", 0, 12)}); }
// a value which is not the one wanted, but looks like it
static std::string spoil1(Rng &r, const std::string &v, const std::string &key) {
    switch(r.below(12)) {
        case 0: return ""; case 1: return v.substr(0, v.size() - 1); case 2: return v + "="; case 3: return mixc(r, v) == v ? "A" + v : low(v) == v ? "A" + v : low(v);
        case 4: { std::string s = v; size_t i = r.below(s.size()); s[i] = s[i] == 'A' ? 'B' : 'A'; return s; } case 5: return b64(sha1(key)); case 6: return key; case 7: return accept_for(key + " ");
        case 8: return accept_for(""); case 9: { std::string s = v; s[s.size() - 2] = s[s.size() - 2] == 'A' ? 'B' : 'A'; return s; } case 10: return v.substr(0, r.below(v.size())); default: { std::string s = v; s[0] = s[0] == 'A' ? 'B' : 'A'; return s; }
    }
}
static std::string spoil(Rng &r, const std::string &v, const std::string &key) { for(;;) { std::string s = spoil1(r, v, key); if(s != v) return s; } }
static void client(Rng &r) {
    connect_status = r.chance(10) ? fake::some_failure(r) : St::Success; fr::WebSocket<Peer> s; bool good_status = false, good_accept = false, whole = true; std::string key, want, sent, text; unsigned variant = r.below(10), cut = 0; int code = 101;
    static const int others[] = {200, 100, 102, 201, 301, 400, 403, 404, 426, 500, 503, 199, 10, 1010, 1, 110};
    s.answer = [&](const std::string &out) {
        sent = out; Head q = parse(out); expect(q.ok, "the request is no complete HTTP head: " + hex(out)); auto k = q.get("sec-websocket-key"); expect(k != nullptr, "the request carries no key"); key = *k; want = accept_for(key);
        eq("request method", q.first.substr(0, 4), "GET "); expect(q.get("upgrade") && *q.get("upgrade") == "websocket", "the request does not ask for a websocket"); expect(q.get("connection") && low(*q.get("connection")) == "upgrade", "the request does not ask for an upgrade");
        std::string acc = want; KV h;
        if(variant < 3) { good_status = good_accept = true; }
        else if(variant < 6) { good_status = true; acc = spoil(r, want, key); if(r.chance(15)) { extras(r, h); text = message(r, "HTTP/1.1 101 Switching Protocols", h); return text; } }
        else if(variant < 8) { good_accept = true; code = one(r, others); }
        else if(variant < 9) { code = one(r, others); acc = spoil(r, want, key); }
        else { whole = false; good_status = good_accept = true; }
        h = {{"sec-websocket-accept", acc}}; if(r.chance(80)) h.push_back({"upgrade", "websocket"}); if(r.chance(80)) h.push_back({"connection", "Upgrade"}); extras(r, h);
        if(code != 101) h.push_back({"content-length", "0"});
        text = message(r, (r.chance(80) ? "HTTP/1.1 " : "HTTP/1.0 ") + std::to_string(code) + (r.chance(80) ? " Switching Protocols" : " 101"), h);
        if(!whole) { cut = r.below(text.size() - 3); text = text.substr(0, cut); }
        return text;
    };
    s.mode = r.below(5); St late = St::Success; if(r.chance(8)) { late = fake::some_failure(r); if(r.chance(50)) { s.sfail_at = r.below(60); s.sfail_st = late; } else { s.fail_at = 0; s.fail_st = late; } }
    bool lost = late != St::Success; std::vector<std::string> protos; for(unsigned i = 0, n = r.below(4); i < n; ++i) protos.push_back(word(r, "abc", 1, 5));
    desc("connect, answer variant " + std::to_string(variant) + (lost ? ", transport fails" : ""));
    St got = r.chance(50) ? s.connect("host", "80", "/" + word(r, "abc/", 0, 8), protos, {}) : s.connect("host", "80", {}); adddesc(" answer " + hex(text));
    eqn("connections attempted", s.connects, 1);
    if(connect_status != St::Success) { eqn("status of a failed connection", (int)got, (int)connect_status); expect(s.out.empty(), "something was sent without a connection"); return; }
    if(lost) { expect(got != St::Success, "success although the transport failed"); return; }
    if(!whole) { expect(got != St::Success, "success on an answer cut short"); return; }
    if(good_status && good_accept) { eqn("status of a valid upgrade", (int)got, (int)St::Success); expect(s.connected(), "not connected after a valid upgrade"); eq("bytes sent", s.out, sent); }
    else { eqn("status of an answer which is no valid upgrade", (int)got, (int)St::HandshakeFailed); expect(!s.connected(), "still connected after a failed handshake"); }
}
static void server(Rng &r) {
    fr::WebSocket<Peer> s; unsigned variant = r.below(8); std::string key = b64(gen_bytes(r, 40)), up = "websocket", method = "GET"; bool bad = true; if(key.empty() || r.chance(20)) key = word(r, ALNUM, 1, 70); KV h;
    static const char *methods[] = {"POST", "PUT", "DELETE", "PATCH"}, *ups[] = {"websocke", "websocket2", "h2c", "x", "web socket", "websockets", "awebsocket", "TLS/1.0"}; bool cut = false, none = false;
    if(variant < 3) bad = false; else if(variant < 5) method = std::string(one(r, methods)); else if(variant < 6) up = std::string(one(r, ups)); else if(variant < 7) none = true; else cut = true;
    if(!none) h.push_back({"upgrade", up}); h.push_back({"sec-websocket-key", key}); if(r.chance(85)) h.push_back({"connection", r.chance(50) ? "Upgrade" : "keep-alive, Upgrade"}); if(r.chance(80)) h.push_back({"sec-websocket-version", "13"}); h.push_back({"host", "x"}); extras(r, h);
    s.in = message(r, method + " /" + word(r, "abc/", 0, 8) + (r.chance(20) ? "?upgrade=websocket" : "") + " HTTP/1.1", h); if(cut) s.in = s.in.substr(0, r.below(s.in.size() - 3)); s.mode = r.below(5);
    int fd = 3; bool threw = false; desc("accept, request " + hex(s.in));
    if(r.chance(5)) { s.set_descriptor(nullptr); expect(s.out.empty() && s.reads == 0, "a handshake without a descriptor"); return; }
    try { s.set_descriptor(&fd); } catch(const std::exception &) { threw = true; }
    if(bad) { expect(threw, "a request which asks for no upgrade was not rejected"); eq("bytes answered to a rejected request", s.out, ""); return; }
    expect(!threw, "a valid upgrade request was rejected"); Head a = parse(s.out); expect(a.ok, "no complete answer: " + hex(s.out)); eqn("bytes after the answer", s.out.size() - a.end, 0);
    eq("status line", a.first.substr(0, 12), "HTTP/1.1 101"); expect(a.first.size() == 12 || a.first[12] == ' ', "status line " + a.first); auto acc = a.get("sec-websocket-accept"); expect(acc != nullptr, "the answer carries no accept value"); eq("accept value", *acc, accept_for(key));
    expect(a.get("upgrade") && *a.get("upgrade") == "websocket", "the answer does not switch to a websocket"); expect(s.connected(), "disconnected after the handshake");
}
void run_case(Rng &r, uint64_t idx) { peer_seed = r.next(); now = r.chance(50) ? 1600000000 + r.below(1u << 30) : r.below(1000); if(idx % 2) client(r); else server(r); }
