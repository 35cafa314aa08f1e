// build: src=Http,HttpRequest,HttpResponse,Socket
#include "http.h"
using namespace ht;
const char *monitor_name = "hostile HTTP input";
static std::vector<std::string> lines_of(const std::string &h) { std::vector<std::string> v; std::string w; for(char c : h) { if(c == '\n') { if(!w.empty()) v.push_back(w); w.clear(); } else w += c; } if(!w.empty()) v.push_back(w); return v; }
template<class P> static void run(Rng &r, const std::string &R, bool resp) {
    auto c = cuts(r, R.size()); desc(std::string(resp ? "response" : "request") + " \"" + hex(R, 3000) + "\" " + show(c));
    P p; size_t u; St s;
    try { s = feed(p, R, c, u); } catch(const Failure &) { throw; } catch(const std::exception &e) { fail(std::string("exception: ") + e.what()); } catch(...) { fail("exception"); }
    expect(s == OK || s == MORE || s == St::ParseError || s == St::HttpHeaderTooBig || s == St::HttpBodyTooBig, "status " + std::to_string((int)s));
    if(s != OK) return;
    size_t a = R.find("\r\n\r\n"), b = R.find("\n\n"); auto l = lines_of(R.substr(0, std::min(a, b))); expect(!l.empty(), "success without a first line");
    if(resp) { expect(l[0].compare(0, 4, "HTTP") == 0, "success without the protocol marker"); size_t q = l[0].find(' '); expect(q != std::string::npos, "success without a status code"); size_t d = l[0].find_first_not_of(" \t\v\f\r", q); if(d != std::string::npos && (l[0][d] == '+' || l[0][d] == '-')) ++d; expect(d != std::string::npos && isdigit((unsigned char)l[0][d]), "success without a numeric status code"); }
    else { bool ok = false; for(auto m : methods) ok |= l[0].compare(0, strlen(m) + 1, std::string(m) + " ") == 0; expect(ok, "success without a supported method"); size_t q = l[0].find('/'); expect(q != std::string::npos, "success without a path"); expect(l[0].rfind("HTTP") != std::string::npos && l[0].rfind("HTTP") > q, "success without the protocol marker after the path"); }
    for(size_t i = 1; i < l.size(); ++i) {
        size_t k = l[i].find(':'); if(k == std::string::npos || low(l[i].substr(0, k)) != "content-length") continue;
        size_t d = l[i].find_first_not_of(' ', k + 1); expect(d != std::string::npos, "success although the content length is empty");
        if(l[i][d] == '+' || l[i][d] == '-') ++d;
        expect(d < l[i].size() && isdigit((unsigned char)l[i][d]), "success although the content length is not a number"); break;
    }
}
void run_case(Rng &r, uint64_t idx) {
    bool resp = r.chance(50); std::string R = hostile(r, resp);
    if(idx % 5000 == 11) R.insert(r.below(R.size() + 1), std::string(r.range(50000, 53000), (char)r.below(256)));
    if(resp) run<fr::HttpResponse>(r, R, true); else run<fr::HttpRequest>(r, R, false);
}
