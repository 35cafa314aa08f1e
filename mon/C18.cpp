#include "mon.h"
#include <frnetlib/Base64.h>
using namespace mon;
const char *monitor_name = "Base64::encode against an RFC 4648 oracle";
static std::string oracle(const std::string &s) {
    static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o; uint32_t acc = 0; int bits = 0;
    for(unsigned char c : s) { acc = (acc << 8) | c; bits += 8; while(bits >= 6) { bits -= 6; o += T[(acc >> bits) & 63]; } acc &= (1u << bits) - 1; }
    if(bits) o += T[(acc << (6 - bits)) & 63];
    while(o.size() % 4) o += '=';
    return o;
}
void run_case(Rng &r, uint64_t idx) {
    std::string in;
    if(idx < 256) in = std::string(1, (char)idx);
    else if(idx < 65536 + 256) { in += (char)((idx - 256) >> 8); in += (char)(idx - 256); }
    else { in = gen_bytes(r, 70000); }
    // a private heap copy without spare capacity lets the sanitizer see reads past the end
    std::string s(in.data(), in.size()); s.shrink_to_fit();
    desc("encode(\"" + hex(in) + "\")");
    eq("encoding", fr::Base64::encode(s), oracle(in)); eq("argument afterwards", s, in);
}
