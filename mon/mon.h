// Native conformance monitors: run the real code of /repo on generated inputs against an oracle written from the property.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
namespace mon {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
struct Shared { volatile uint64_t cases, idx; volatile uint64_t cover[64]; char desc[1 << 16]; char msg[1 << 14]; };
extern Shared *sh;
extern std::vector<std::string> dict_s; extern std::vector<uint64_t> dict_n;
extern bool verbose;
inline std::string hex(const std::string &s, size_t max = 600) {
    std::string o; char b[8];
    for(size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i]; if(c >= 32 && c < 127 && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } }
    if(s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}
// description of the running case, kept outside the process so that it survives a crash
inline void desc(const std::string &s) { strncpy(sh->desc, s.c_str(), sizeof(sh->desc) - 1); }
inline void adddesc(const std::string &s) { size_t l = strnlen(sh->desc, sizeof(sh->desc)); if(l + s.size() + 1 < sizeof(sh->desc)) strcpy(sh->desc + l, s.c_str()); }
struct Failure { std::string m; };
[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
inline void expect(bool ok, const std::string &m) { if(!ok) fail(m); }
inline void eq(const std::string &what, const std::string &got, const std::string &want) { if(got != want) fail(what + ": expected \"" + hex(want) + "\", got \"" + hex(got) + "\""); }
inline void eqn(const std::string &what, long long got, long long want) { if(got != want) fail(what + ": expected " + std::to_string(want) + ", got " + std::to_string(got)); }
inline void cover(int k) { sh->cover[k]++; }
extern const char *cover_names[];
// generators
inline size_t gen_len(Rng &r, size_t max) {
    static const size_t in[] = {0,1,2,3,4,5,6,7,8,9,10,15,16,17,31,32,33,55,56,57,63,64,65,119,120,125,126,127,128,129,255,256,257,1000,1023,1024,2047,2048,2049,4095,4096,4097,8192,16383,16384,16385,32767,32768,65534,65535,65536,65537,70000,131072};
    size_t n;
    switch(r.below(8)) {
        case 0: case 1: n = in[r.below(sizeof(in)/sizeof(*in))]; break;
        case 2: if(!dict_n.empty()) { n = r.pick(dict_n) + r.below(3) - 1; if(n <= max) break; } // fallthrough
        default: n = r.below(r.chance(70) ? 20 : 300);
    }
    return n > max ? r.below(max + 1) : n;
}
inline std::string gen_bytes(Rng &r, size_t max) {
    size_t n = gen_len(r, max); std::string s; s.reserve(n + 64); unsigned mode = r.below(6);
    while(s.size() < n) {
        if(mode == 0) s += (char)r.below(256);
        else if(mode == 1) s += (char)r.range(32, 126);
        else if(mode == 2) s += "abcABC019 %+&=?#:/.\r\n-"[r.below(22)];
        else if(mode == 3 && !dict_s.empty() && r.chance(30)) s += r.pick(dict_s);
        else if(mode == 4) s += (char)(r.chance(50) ? 0 : 255);
        else s += (char)r.below(r.chance(50) ? 128 : 256);
    }
    if(s.size() > n && r.chance(80)) s.resize(n);
    if(s.size() > max) s.resize(max);
    return s;
}
}
// each monitor defines:
void run_case(mon::Rng &r, uint64_t idx);
extern const char *monitor_name;
