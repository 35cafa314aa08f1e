// build: src=Http,HttpRequest,HttpResponse,Socket
#include "http.h"
using namespace ht;
const char *monitor_name = "constructed HTTP messages parse back";
static std::string value(Rng &r, const char *no, size_t hi) { std::string s = text(r, no, hi); size_t p = s.find_first_not_of(' '); return p == std::string::npos ? "" : s.substr(p); }
static unsigned count(const std::string &head, const std::string &name) { unsigned n = 0; size_t b = 0; while(b < head.size()) { size_t e = std::min(head.find('\n', b), head.size()); std::string l = low(head.substr(b, e - b)); if(l.compare(0, name.size() + 1, name + ":") == 0) ++n; b = e + 1; } return n; }
template<class P> static void run(Rng &r, bool resp) {
    P m; KV heads, query, post; std::string body, path = "/", host = word(r, TOKEN, 1, 12); bool v10 = r.chance(30), setv = r.chance(80), settype = r.chance(85); int type = r.below(5), code = codes[r.below(sizeof(codes)/sizeof(*codes))]; bool form = false;
    if(setv) m.set_version(v10 ? Http::RequestVersion::V1 : Http::RequestVersion::V1_1);
    if(resp) m.set_status((Http::RequestStatus)code);
    else {
        if(settype) m.set_type((Http::RequestType)type); else type = 0;
        if(r.chance(80)) { path = "/" + text(r, "?", r.chance(50) ? 3 : 25); m.set_uri(r.chance(20) && path.size() > 1 && path[1] != '/' ? path.substr(1) : path); }
        unsigned n = r.chance(50) ? r.below(5) : 0; for(unsigned i = 0; i < n; ++i) { std::string k = word(r, TOKEN "+%:;/", 1, 6); if(k[0] == '?') k[0] = 'q'; std::string v = text(r, "&", 12); if(first_of(query, k)) continue; query.push_back({k, v}); m.get(k) = v; }
    }
    unsigned n = r.below(6); for(unsigned i = 0; i < n; ++i) { static const char *known[] = {"Host", "Connection", "Content-Type", "Accept", "X-Empty"}; std::string k = r.chance(30) ? mix(r, known[r.below(5)]) : word(r, TOKEN, 1, 8); if(first_of(heads, k)) continue; std::string v = value(r, "", 20); heads.push_back({k, v}); m.header(k) = v; }
    if(r.chance(60)) { body = r.chance(25) ? word(r, "\r\na=&0", 1, 8) : gen_bytes(r, 300); m.set_body(body); }
    else if(!resp && r.chance(70)) { form = true; type = 1; m.set_type(Http::RequestType::Post); unsigned k = r.range(1, 4); for(unsigned i = 0; i < k; ++i) { std::string a = word(r, TOKEN "+%:", 1, 6), v = text(r, "&", 12); if(first_of(post, a)) continue; post.push_back({a, v}); m.post(a) = v; } }
    size_t len = body.size(); bool own = false;
    if(!form && !body.empty() && r.chance(15)) { own = true; m.header(mix(r, "content-length")) = std::to_string(len); }
    std::string R = m.construct(host), head = R.substr(0, R.find("\r\n\r\n"));
    auto c = cuts(r, R.size()); desc(std::string(resp ? "response" : "request") + " constructed as \"" + hex(R, 3000) + "\" " + show(c));
    expect(R.find("\r\n\r\n") != std::string::npos, "no blank line"); size_t after = R.size() - head.size() - 4;
    if(form) expect(after > 0, "no posted variables");
    eqn("number of content lengths", (uint64_t)count(head, "content-length"), (uint64_t)((own || after) ? 1 : 0)); eqn("number of connection headers", (uint64_t)count(head, "connection"), (uint64_t)1); if(!resp) eqn("number of host headers", (uint64_t)count(head, "host"), (uint64_t)1);
    { size_t k = r.below(R.size()); P q; size_t u; St s = feed(q, R.substr(0, k), cuts(r, k), u); expect(s == MORE, "status " + std::to_string((int)s) + " after " + std::to_string(k) + " of " + std::to_string(R.size()) + " bytes"); }
    P p; size_t used; St s = feed(p, R, c, used); eqn("status", (int)s, (int)OK); eqn("bytes taken", used, R.size());
    eqn("version", (int)p.get_version(), setv && v10 ? 1 : 2);
    if(resp) eqn("status code", (int)p.get_status(), code); else { eqn("method", (int)p.get_type(), type); eq("path", p.get_uri(), path); if(!first_of(heads, "host")) eq("host", p.header("host"), host); }
    for(auto &h : heads) { expect(p.header_exists(h.first), "header \"" + hex(h.first) + "\" is lost"); eq("header \"" + hex(h.first) + "\"", p.header(h.first), h.second); }
    for(auto &q : query) { expect(p.get_exists(q.first), "query variable \"" + hex(q.first) + "\" is lost"); eq("query variable \"" + hex(q.first) + "\"", p.get(q.first), q.second); }
    for(auto &q : post) { expect(p.post_exists(q.first), "posted variable \"" + hex(q.first) + "\" is lost"); eq("posted variable \"" + hex(q.first) + "\"", p.post(q.first), q.second); }
    if(form) { if(!own) eq("announced length", p.header("content-length"), std::to_string(after)); } else { eq("body", p.get_body(), body); if(!body.empty()) eq("announced length", p.header("content-length"), std::to_string(len)); }
}
void run_case(Rng &r, uint64_t) { if(r.chance(40)) run<fr::HttpResponse>(r, true); else run<fr::HttpRequest>(r, false); }
