// build: src=Http,HttpRequest,HttpResponse,Socket
#include "http.h"
using namespace ht;
const char *monitor_name = "chunked bodies";
static std::string start(Rng &r) { Msg m = gen(r, true); m.headers.insert(m.headers.begin() + r.below(m.headers.size() + 1), {mix(r, "Transfer-Encoding"), r.chance(70) ? " " + mix(r, "chunked") : r.chance(50) ? " gzip, chunked" : "chunked,gzip"}); return m.wire(); }
void run_case(Rng &r, uint64_t idx) {
    std::string h = start(r), d, c = chunked(r, d), R = h + c; if(idx % 3000 == 17) { std::string x(r.range(60000, 200000), 'z'); char b[32]; snprintf(b, 32, "%zx\r\n", x.size()); c = b + x + "\r\n" + c; d = x + d; R = h + c; }
    for(int k = 0; k < 3; ++k) {
        auto cu = cuts(r, R.size()); desc("chunked response \"" + hex(R, 3000) + "\" " + show(cu));
        fr::HttpResponse p; size_t u; St s = feed(p, R, cu, u); eqn("status", (int)s, (int)OK); eqn("bytes needed", u, R.size()); eq("body", p.get_body(), d);
        // not complete without its last byte; whatever follows does not belong to the body
        fr::HttpResponse q; s = feed(q, R.substr(0, R.size() - 1), {}, u); eqn("status without the last byte", (int)s, (int)MORE);
        fr::HttpResponse t; s = feed(t, R + gen_bytes(r, 30), {}, u); eqn("status with more behind it", (int)s, (int)OK); eq("body with more behind the message", t.get_body(), d);
    }
    // a bad length somewhere
    std::string e, good = chunked(r, e, 3); size_t z = good.rfind('0', good.size() - 5); static const char *bad[] = {"g", "-1\r\n", " 5\r\nhello\r\n", "\r\n", "+1\r\na\r\n", "x5\r\nhello\r\n", "fffffffffffffffff\r\n", "a00001\r\n", "ffffffffffffffff\r\n", "7fffffffffffffff\r\n", "80000000\r\n", "fffffffffffffffe\r\n", "\n5\r\n", "Z"};
    (void)z; std::string pre = good.substr(0, good.size()); size_t last = pre.rfind("\r\n", pre.size() - 5); pre = last == std::string::npos ? "" : pre.substr(0, last + 2); if(e.empty()) pre = "";
    std::string B = h + pre + bad[r.below(14)] + (r.chance(50) ? good : ""); auto cu = cuts(r, B.size()); desc("chunked response with a bad length \"" + hex(B, 3000) + "\" " + show(cu));
    fr::HttpResponse p; size_t u; St s; try { s = feed(p, B, cu, u); } catch(const std::exception &x) { fail(std::string("exception: ") + x.what()); }
    expect(s == St::ParseError || s == St::HttpBodyTooBig, "status " + std::to_string((int)s));
}
