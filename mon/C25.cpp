// build: src=Http,URL,Socket
#include "mon.h"
#include "mime_table.h"
#include <frnetlib/Http.h>
#include <frnetlib/URL.h>
using namespace mon;
using fr::Http; using fr::URL;
const char *monitor_name = "name lookups against the listed tables";
static const char *methods[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
static const std::pair<const char *, Http::TransferEncoding> encs[] = {{"none", Http::TransferEncoding::None}, {"chunked", Http::TransferEncoding::Chunked}, {"compress", Http::TransferEncoding::Compress}, {"deflate", Http::TransferEncoding::Deflate}, {"gzip", Http::TransferEncoding::Gzip}, {"identity", Http::TransferEncoding::Identity}};
static const std::pair<const char *, URL::Scheme> schemes[] = {{"http", URL::HTTP}, {"https", URL::HTTPS}, {"ftp", URL::FTP}, {"mailto", URL::MAILTO}, {"irc", URL::IRC}, {"sftp", URL::SFTP}, {"unknown", URL::Unknown}};
static std::string low(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
static std::string mixcase(Rng &r, std::string s) { unsigned m = r.below(3); for(auto &c : s) { if(m == 1) c = toupper(c); if(m == 2 && r.chance(50)) c = toupper(c); } return s; }
static const std::map<std::string, std::string> &mime() { static std::map<std::string, std::string> m; if(m.empty()) for(auto &e : mime_table) m[e.first] = e.second; return m; }
static std::string mutate(Rng &r, std::string s) {
    switch(r.below(8)) {
        case 0: return s;
        case 1: return s.substr(0, r.below(s.size() + 1));
        case 2: return s + (char)r.below(256);
        case 3: if(!s.empty()) s[r.below(s.size())] = (char)r.below(256); return s;
        case 4: if(!s.empty()) s[r.below(s.size())] ^= 32; return s;
        case 5: return s + gen_bytes(r, 20);
        case 6: s.insert(r.below(s.size() + 1), 1, (char)r.below(256)); return s;
        default: return gen_bytes(r, 40);
    }
}
static void method(const std::string &s) {
    desc("string_to_request_type(\"" + hex(s) + "\")");
    Http::RequestType want = Http::RequestType::Unknown; bool partial = false;
    for(int i = 0; i < 5; i++) { std::string m = methods[i]; if(s.compare(0, m.size(), m) == 0) { want = (Http::RequestType)i; break; } if(m.compare(0, s.size(), s) == 0 && s.size() < m.size()) partial = true; }
    if(want == Http::RequestType::Unknown && partial) want = Http::RequestType::Partial;
    eqn("request type", (int)Http::string_to_request_type(s), (int)want);
}
static void encoding(const std::string &s) {
    desc("string_to_transfer_encoding(\"" + hex(s) + "\")");
    Http::TransferEncoding want = Http::TransferEncoding::None;
    for(auto &e : encs) if(low(s) == e.first) want = e.second;
    eqn("transfer encoding", (int)Http::string_to_transfer_encoding(s), (int)want);
}
static void scheme(const std::string &s) {
    desc("string_to_scheme(\"" + hex(s) + "\")");
    URL::Scheme want = URL::Unknown;
    for(auto &e : schemes) if(low(s) == e.first) want = e.second;
    eqn("scheme", (int)URL::string_to_scheme(s), (int)want);
}
static void mimet(const std::string &f) {
    desc("get_mimetype(\"" + hex(f) + "\")");
    size_t d = f.rfind('.'); std::string ext = d == std::string::npos ? "." + f : f.substr(d);
    auto it = mime().find(ext);
    eq("type of \"" + hex(f) + "\"", Http::get_mimetype(f), it == mime().end() ? "application/octet-stream" : it->second);
}
void run_case(Rng &r, uint64_t idx) {
    for(int i = 0; i < 5; i++) { desc("request_type_to_string"); eq("method name", Http::request_type_to_string((Http::RequestType)i), methods[i]); method(methods[i]); }
    int u = r.chance(50) ? (int)r.range(5, 9) : (int)(r.next() & 0x7fffffff); if(u < 5) u = 5;
    desc("request_type_to_string(" + std::to_string(u) + ")");
    std::string un = Http::request_type_to_string((Http::RequestType)u);
    for(auto m : methods) expect(un != m, "unknown method value named " + un);
    for(auto &e : schemes) { desc(std::string("scheme_to_string of ") + e.first); eq("scheme name", URL::scheme_to_string(e.second), e.first); }
    int su = 7;   // the only other value an enumeration with these members can hold
    desc("scheme_to_string(" + std::to_string(su) + ")");
    try { std::string n = URL::scheme_to_string((URL::Scheme)su); for(auto &e : schemes) if(e.second != URL::Unknown) expect(n != e.first, "unknown scheme value named " + n); } catch(std::logic_error &) {}
    auto &M = mime_table; size_t N = sizeof(M) / sizeof(*M);
    if(idx < N) { mimet(M[idx].first); mimet("a" + std::string(M[idx].first)); mimet("x.y" + std::string(M[idx].first)); if(M[idx].first[0] == '.') mimet(M[idx].first + 1); }
    method(mutate(r, methods[r.below(5)])); method(mutate(r, std::string(methods[r.below(5)]) + " /a"));
    encoding(mixcase(r, encs[r.below(6)].first)); encoding(mutate(r, encs[r.below(6)].first));
    scheme(mixcase(r, schemes[r.below(7)].first)); scheme(mutate(r, mixcase(r, schemes[r.below(7)].first)));
    mimet(mutate(r, M[r.below(N)].first)); mimet(mutate(r, std::string("f") + M[r.below(N)].first));
    if(r.chance(50)) { scheme(gen_bytes(r, 30)); method(gen_bytes(r, 30)); encoding(gen_bytes(r, 30)); mimet(gen_bytes(r, 60)); }
}
