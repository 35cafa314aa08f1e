#include "mon.h"
#include <frnetlib/Sha1.h>
#include <sys/time.h>
using namespace mon;
const char *monitor_name = "Sha1::sha1_digest against a FIPS 180-4 oracle";
static std::string oracle(const std::string &m) {
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    std::string s = m + '\x80';
    while(s.size() % 64 != 56) s += '\0';
    uint64_t bits = (uint64_t)m.size() * 8;
    for(int i = 7; i >= 0; i--) s += (char)(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for(size_t p = 0; p < s.size(); p += 64) {
        uint32_t w[80];
        for(int t = 0; t < 16; t++) { w[t] = 0; for(int j = 0; j < 4; j++) w[t] = (w[t] << 8) | (unsigned char)s[p + 4 * t + j]; }
        for(int t = 16; t < 80; t++) w[t] = rol(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int t = 0; t < 80; t++) {
            uint32_t f = t < 20 ? (b & c) | (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
            uint32_t k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
            uint32_t x = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(b, 30); b = a; a = x;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string o;
    for(uint32_t x : h) for(int j = 3; j >= 0; j--) o += (char)(x >> (8 * j));
    return o;
}
void run_case(Rng &r, uint64_t idx) {
    std::string in;
    if(idx == 1300) {                                     // a length in bits which does not fit 32 bits
        desc("sha1_digest of 536870912 + 77 bytes 'b'"); in.assign((size_t(1) << 29) + 77, 'b');
        itimerval v{}; v.it_value.tv_sec = 200; setitimer(ITIMER_PROF, &v, nullptr); alarm(500);      // it takes several seconds
        eq("digest", fr::Sha1::sha1_digest(in), std::string("\x61\x1c\x1c\x89\x5b\x2c\x02\x65\x5f\x63\x0a\xbb\x5a\x51\xa4\x0e\x0d\x2d\x93\x52", 20)); return;
    }
    if(idx < 1300) { in.resize(idx % 260); for(auto &c : in) c = idx < 260 ? 'a' : idx < 520 ? '\xff' : idx < 780 ? '\0' : (char)r.next(); }
    else in = gen_bytes(r, 5000);
    std::string s(in.data(), in.size()); s.shrink_to_fit();
    desc("sha1_digest(\"" + hex(in) + "\")");
    eq("digest", fr::Sha1::sha1_digest(s), oracle(in)); eq("argument afterwards", s, in);
}
