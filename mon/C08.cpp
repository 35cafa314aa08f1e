// build: src=Http,HttpRequest,HttpResponse,Socket
#include "http.h"
using namespace ht;
const char *monitor_name = "parsing in pieces against parsing at once";
template<class P> static void run(Rng &r, const std::string &R, bool resp) {
    auto ns = names(R); P whole; size_t u; St w = feed(whole, R, {}, u);
    for(int k = 0; k < 4; ++k) {
        auto c = cuts(r, R.size()); desc(std::string(resp ? "response" : "request") + " \"" + hex(R) + "\" " + show(c));
        P p; St s = feed(p, R, c, u);
        if(u < R.size() && w == OK) eqn("status of a beginning of an accepted message", (int)s, (int)OK);
        if(u < R.size() && s == OK) continue;      // complete before its end: what follows is another message
        if(u < R.size()) { P q; size_t v; St t = feed(q, R.substr(0, u), {}, v); eqn("status after " + std::to_string(u) + " bytes", (int)s, (int)t); continue; }
        eqn("status", (int)s, (int)w);
        if(w == OK || w == MORE) { P q; size_t v; feed(q, R, {}, v); eq("contents", contents(p, ns, resp), contents(q, ns, resp)); }
    }
    if(w == OK) for(size_t i = 0; i < R.size() && i < 600; ++i) { desc(std::string(resp ? "response" : "request") + " \"" + hex(R) + "\" first " + std::to_string(i) + " bytes"); P p; St s = feed(p, R.substr(0, i), {}, u); expect(s == OK || s == MORE, "a beginning of an accepted message gives status " + std::to_string((int)s)); }
}
void run_case(Rng &r, uint64_t idx) {
    bool resp = r.chance(50); std::string R;
    if(r.chance(60)) { Msg m = gen(r, resp); std::string d; if(resp && r.chance(50)) { m.headers.push_back({"Transfer-Encoding", "chunked"}); m.body = chunked(r, d); } else body(r, m); if(r.chance(4) && !m.headers.empty()) m.headers[0].second += std::string(r.range(100, 60000), 'v'); R = m.wire(); }
    else R = hostile(r, resp);
    if(resp) run<fr::HttpResponse>(r, R, true); else run<fr::HttpRequest>(r, R, false);
}
