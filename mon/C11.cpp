// build: src=Http,HttpRequest,HttpResponse,Socket
#include "http.h"
using namespace ht;
const char *monitor_name = "parsed messages against the parts they were made of";
template<class P> static void run(Rng &r, Msg &m) {
    std::string R = m.wire(); auto c = r.chance(70) ? std::vector<size_t>() : cuts(r, R.size()); desc(std::string(m.resp ? "response" : "request") + " \"" + hex(R, 3000) + "\" " + show(c));
    P p; size_t u; St s = feed(p, R, c, u); if(!m.announce && u < R.size()) return;
    eqn("status", (int)s, (int)OK); eq("body", p.get_body(), m.body); check_parsed(r, m, p);
}
void run_case(Rng &r, uint64_t idx) {
    Msg m = gen(r, r.chance(35)); body(r, m); if(m.resp) run<fr::HttpResponse>(r, m); else run<fr::HttpRequest>(r, m);
}
