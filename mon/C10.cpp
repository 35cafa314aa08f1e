// build: src=Http,HttpRequest,HttpResponse,Socket
#include "http.h"
using namespace ht;
const char *monitor_name = "header and body size limits";
static const size_t H = 0xC800, B = 0xA00000;
template<class P> static void head(Rng &r, bool resp) {
    Msg m = gen(r, resp); m.headers.clear(); if(resp) m.status = 200; m.headers.push_back({"X", " "}); bool many = r.chance(30);
    size_t want = r.chance(85) ? H - 5 + r.below(12) : H + r.below(60000), base = m.head_text().size(); if(want <= base) return;
    if(many) while(want - base > 400) { std::string v(r.range(1, 300), 'y'); m.headers.push_back({"Y" + std::to_string(m.headers.size()), v}); base = m.head_text().size(); }
    m.headers[0].second += std::string(want - base, (char)r.range(33, 126)); m.body = r.chance(50) ? "" : gen_bytes(r, 40);
    if(r.chance(50)) { m.headers.push_back({"Content-Length", std::to_string(m.body.size())}); }
    std::string R = m.wire(); size_t h = m.head; bool finish = r.chance(75); if(!finish) R.resize(std::min(R.size(), h + r.below(4)));
    std::vector<size_t> c; unsigned k = r.below(4); while(k--) c.push_back(r.chance(70) ? std::min(R.size(), h - 4 + r.below(10)) : r.below(R.size() + 1)); if(r.chance(20)) for(size_t i = 0; i < 12 && h + i < R.size(); ++i) c.push_back(h - 6 + i); std::sort(c.begin(), c.end());
    desc(std::string(resp ? "response" : "request") + " with a header of " + std::to_string(h) + " bytes (limit " + std::to_string(H) + "), line ends of " + std::to_string(m.nl.size()) + ", " + std::to_string(R.size()) + " bytes in all, " + show(c));
    P p; size_t u; St s = feed(p, R, c, u); size_t f = std::min(R.substr(0, u).find("\r\n\r\n"), R.substr(0, u).find("\n\n"));
    if(f != std::string::npos) { expect((s == St::HttpHeaderTooBig) == (f > H), "status " + std::to_string((int)s)); if(f <= H) expect(s == OK || s == MORE, "status " + std::to_string((int)s)); }
    else if(u > H + 3) expect(s == St::HttpHeaderTooBig, "more data asked for after " + std::to_string(u) + " bytes of header");
    else expect(s == MORE, "status " + std::to_string((int)s) + " within the limits");
}
template<class P> static void bod(Rng &r, bool resp) {
    Msg m = gen(r, resp); m.headers.clear(); if(resp) m.status = 200; else if(m.method == 1) m.method = 2;
    size_t n = r.chance(80) ? B - 2 + r.below(5) : B + r.below(2000000), cl = r.chance(50) ? n : r.chance(50) ? n + r.below(10) : B + 5; m.headers.push_back({"content-length", std::to_string(cl)}); m.body.assign(n, 'b');
    std::string R = m.wire(); std::vector<size_t> c; unsigned k = r.below(4); while(k--) c.push_back(r.chance(60) ? R.size() - r.below(5) : r.below(R.size() + 1)); std::sort(c.begin(), c.end());
    desc(std::string(resp ? "response" : "request") + " with a body of " + std::to_string(n) + " bytes announced as " + std::to_string(cl) + " (limit " + std::to_string(B) + ") " + show(c));
    P p; size_t u; St s = feed(p, R, c, u); size_t got = u > m.head + 2*m.nl.size() ? u - m.head - 2*m.nl.size() : 0;
    if(got > B) expect(s == St::HttpBodyTooBig, "status " + std::to_string((int)s) + " with " + std::to_string(got) + " bytes of body"); else eqn("status with " + std::to_string(got) + " bytes of body", (int)s, (int)(got >= cl ? OK : MORE));
}
static void chunks(Rng &r) {
    size_t total = 0; fr::HttpResponse p; std::string h = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"; St s = p.parse(h.data(), h.size()); eqn("status", (int)s, (int)MORE); char b[32];
    for(int i = 0; i < 40; ++i) {
        size_t n = r.chance(30) ? B - total + 2 - r.below(5) : r.range(1, 3000000); if(n == 0 || n > B + 5) n = 1; bool declared_only = r.chance(20); snprintf(b, 32, "%zx\r\n", n); std::string c = b; if(!declared_only) c += std::string(n, 'c') + "\r\n";
        desc("chunk of " + std::to_string(n) + " bytes after " + std::to_string(total) + " (limit " + std::to_string(B) + ")"); s = p.parse(c.data(), c.size()); total += n;
        if(total > B) { expect(s == St::HttpBodyTooBig, "status " + std::to_string((int)s)); return; }
        eqn("status", (int)s, (int)MORE); if(declared_only) { c = std::string(n, 'c') + "\r\n"; s = p.parse(c.data(), c.size()); eqn("status", (int)s, (int)MORE); }
    }
}
void run_case(Rng &r, uint64_t idx) {
    bool resp = r.chance(50); if(idx % 40 == 3) { if(r.chance(25)) chunks(r); else if(resp) bod<fr::HttpResponse>(r, true); else bod<fr::HttpRequest>(r, false); return; }
    if(resp) head<fr::HttpResponse>(r, true); else head<fr::HttpRequest>(r, false);
}
