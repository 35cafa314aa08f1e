#include "mon.h"
#include <frnetlib/Http.h>
using namespace mon;
const char *monitor_name = "url_encode/url_decode against an oracle, and their round trip";
struct H : fr::Http { using fr::Http::url_encode; using fr::Http::url_decode; };
static bool unres(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("-_.!~*'()", c)); }
static std::string enc(const std::string &s) { std::string o; char b[4]; for(unsigned char c : s) if(unres(c)) o += c; else if(c == ' ') o += '+'; else { snprintf(b, 4, "%%%02X", c); o += b; } return o; }
static std::string dec(const std::string &s) {
    std::string o;
    for(size_t i = 0; i < s.size();) {
        if(s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char)s[i+1]) && isxdigit((unsigned char)s[i+2])) { o += (char)strtoul(s.substr(i+1, 2).c_str(), 0, 16); i += 3; }
        else { o += s[i] == '+' ? ' ' : s[i]; i++; }
    }
    return o;
}
void run_case(Rng &r, uint64_t idx) {
    std::string in;
    if(idx < 256) in = std::string(1, (char)idx);
    else if(idx < 65536 + 256) { in = "%"; in += (char)((idx - 256) >> 8); in += (char)(idx - 256); }
    else if(r.chance(50)) { size_t n = r.below(30); while(in.size() < n) { if(r.chance(40)) in += '%'; else if(r.chance(50)) in += "0123456789abcdefABCDEFgGxX@`/:"[r.below(30)]; else in += (char)r.below(256); } }
    else in = gen_bytes(r, 5000);
    in.shrink_to_fit();
    desc("string \"" + hex(in) + "\"");
    eq("url_decode", H::url_decode(in), dec(in));
    std::string e = H::url_encode(in);
    eq("url_encode", e, enc(in)); eq("url_decode(url_encode(x))", H::url_decode(e), in);
}
