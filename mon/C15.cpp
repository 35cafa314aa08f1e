// build: src=URL
#include "mon.h"
#include <frnetlib/URL.h>
using namespace mon; using fr::URL;
const char *monitor_name = "URL parsing against an independent splitter";
struct Parts { int scheme; std::string host, port, path, query, fragment; };
static std::string low(std::string s) { for(auto &c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
static const std::pair<const char *, int> schemes[] = {{"http", 0}, {"https", 1}, {"ftp", 2}, {"mailto", 3}, {"irc", 4}, {"sftp", 5}};
static Parts split(const std::string &u) {
    Parts p; p.scheme = 6;
    size_t q = u.find_first_of("/?#"); std::string rest = u; bool has_scheme = false;
    size_t s = u.find("://");
    if(s != std::string::npos && q == s + 1) { has_scheme = true; std::string n = low(u.substr(0, s)); for(auto &e : schemes) if(n == e.first) p.scheme = e.second; rest = u.substr(s + 3); }
    size_t e = rest.find_first_of("/?#");
    std::string auth = rest.substr(0, e), tail = e == std::string::npos ? "" : rest.substr(e);
    size_t c = auth.find(':');
    static const std::map<int, std::string> dflt = {{0, "80"}, {1, "443"}, {2, "21"}, {4, "6697"}, {5, "22"}};
    if(c != std::string::npos) { p.host = auth.substr(0, c); p.port = auth.substr(c + 1); }
    else {
        if(!has_scheme && e == std::string::npos) { tail = auth; auth.clear(); }   // none of the delimiters: a path
        p.host = auth;
        auto it = dflt.find(p.scheme); if(it != dflt.end()) p.port = it->second;
    }
    size_t f = tail.find('#'); if(f != std::string::npos) { p.fragment = tail.substr(f + 1); tail.resize(f); }
    size_t k = tail.find('?'); if(k != std::string::npos) { p.query = tail.substr(k + 1); tail.resize(k); }
    p.path = tail; if(!p.path.empty() && p.path[0] != '/') p.path = "/" + p.path;
    return p;
}
static std::string piece(Rng &r, const char *alphabet, size_t max) { std::string s; size_t n = r.below(max + 1); while(s.size() < n) s += r.chance(3) ? (char)r.range(32, 255) : alphabet[r.below(strlen(alphabet))]; return s; }
static std::string gen(Rng &r) {
    if(r.chance(15)) return gen_bytes(r, 200);
    if(r.chance(25)) { std::string s; size_t n = r.below(16); static const char *t[] = {"a", "b", ":", "/", "?", "#", "://", "http", "HTTPS", "//", "::", "80", "ftp", "irc", "sftp", "mailto", "unknown", "@", "."}; while(n--) s += t[r.below(19)]; return s; }
    std::string u;
    if(r.chance(70)) { std::string n = r.chance(85) ? schemes[r.below(6)].first : piece(r, "abcxyz+.", 8); if(r.chance(30)) for(auto &c : n) if(r.chance(50)) c = toupper(c); u += n + "://"; }
    u += r.chance(80) ? piece(r, "abc.-@xyz", 20) : "";
    if(r.chance(40)) u += ":" + piece(r, "0123456789:a", 6);
    if(r.chance(60)) u += "/" + piece(r, "abc/.:%=", 20);
    if(r.chance(50)) u += "?" + piece(r, "a=&b?/:c", 20);
    if(r.chance(50)) u += "#" + piece(r, "a#?/:b", 20);
    return u;
}
static void cmp(const std::string &w, const URL &u, const Parts &p) {
    eqn(w + "scheme", u.get_scheme(), p.scheme); eq(w + "host", u.get_host(), p.host); eq(w + "port", u.get_port(), p.port);
    eq(w + "path", u.get_path(), p.path); eq(w + "query", u.get_query(), p.query); eq(w + "fragment", u.get_fragment(), p.fragment);
}
void run_case(Rng &r, uint64_t) {
    URL used;
    for(int i = 0; i < 6; i++) {
        std::string s = gen(r); desc("URL(\"" + hex(s) + "\"); object reused " + std::to_string(i) + " times");
        std::string t(s.data(), s.size()); t.shrink_to_fit();
        Parts p = split(s);
        cmp("", URL(t), p); used.parse(t); cmp("reused: ", used, p);
        eq("argument afterwards", t, s);
    }
}
