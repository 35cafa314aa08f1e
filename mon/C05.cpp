// build: src=Socket,WebFrame
#include "fake.h"
#include <frnetlib/Packet.h>
#include <frnetlib/WebFrame.h>
#include <new>
#include <cstdlib>
using namespace mon; using namespace fake;
const char *monitor_name = "receive size limit";
static thread_local size_t g_biggest = 0;
void *operator new(size_t n) { if(n > g_biggest) g_biggest = n; if(n > (size_t)1 << 33) throw std::bad_alloc(); void *p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
static std::string be(uint64_t n, int k) { std::string s; for(int i = k - 1; i >= 0; --i) s += (char)(n >> (8*i)); return s; }
void run_case(Rng &r, uint64_t) {
    static const uint32_t lims[] = {1, 2, 3, 4, 5, 10, 100, 124, 125, 126, 127, 128, 255, 256, 1000, 4096, 65534, 65535, 65536, 65537, 100000, 1000000, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
    uint32_t lim = r.chance(20) ? 0 : r.chance(50) ? lims[r.below(26)] : 1 + r.below(2000);
    uint64_t L; bool over;
    unsigned kind = r.below(3);       // packet, frame read by the server, frame read by the client
    uint64_t top = kind == 0 ? 0xFFFFFFFFull : ~0ull;
    switch(r.below(6)) {
        case 0: L = lim; break; case 1: L = (uint64_t)lim + 1; break; case 2: L = lim ? lim - 1 : r.below(3000); break;
        case 3: L = r.below(3000); break; case 4: L = (uint64_t)lim + 4 - r.below(9); break;
        default: { static const uint64_t h[] = {0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 1ull << 40, ~0ull, 1ull << 63, 0x80000000ull, 70000, 65536}; L = h[r.below(9)] + (r.chance(30) ? r.below(200) : 0); if(kind == 0) L &= 0xFFFFFFFFull; } }
    if(L > top) L = top;
    over = lim && L > lim;
    if(!over && L > 300000) L = lim ? std::min<uint64_t>(lim, r.below(300000)) : r.below(300000);
    over = lim && L > lim;
    Sock s(r.next()); s.set_max_receive_size(lim); std::string key(4, 0), body, head;
    for(auto &c : key) c = (char)r.below(256);
    size_t have = over ? std::min<uint64_t>(L, r.below(500)) : L; for(size_t i = 0; i < have; ++i) body += (char)r.below(256);
    unsigned form = 0;
    if(kind == 0) head = be(L, 4);
    else {
        form = L > 65535 ? 2 : L > 125 ? 1 : 0; if(r.chance(30)) form = std::max(form, (unsigned)r.below(3));     // a longer form than needed announces the same length
        head += (char)(0x80 | 2); head += (char)((kind == 1 ? 0x80 : 0) | (form == 2 ? 127 : form == 1 ? 126 : L)); if(form == 1) head += be(L, 2); if(form == 2) head += be(L, 8);
    }
    size_t plain = head.size(); if(kind == 1) head += key;
    s.in = head + body + "next";
    desc(std::string(kind == 0 ? "packet" : kind == 1 ? "masked frame" : "unmasked frame") + " announcing " + std::to_string(L) + " bytes" + (kind ? " in length form " + std::to_string(form) : "") + ", limit " + std::to_string(lim) + ", " + std::to_string(have) + " bytes there, fragmentation " + std::to_string(s.mode) + ", would-block " + std::to_string(s.p_block) + "%");
    fr::Packet p; fr::ServerWebFrame sf; fr::ClientWebFrame cf; fr::WebFrame *f = kind == 1 ? (fr::WebFrame *)&sf : (fr::WebFrame *)&cf;
    St st; g_biggest = 0;
    for(;;) { st = kind == 0 ? p.receive(&s) : f->receive(&s); if(st == St::WouldBlock && s.pos == 0) continue; break; }
    size_t big = g_biggest;
    if(over) {
        eqn("status", (int)st, (int)St::MaxPacketSizeExceeded); expect(s.pos <= head.size(), "payload bytes were read"); expect(s.pos >= plain, "the length was not read");
        expect(big < 2048 || big < L / 2, "storage of " + std::to_string(big) + " bytes for a rejected message"); expect(s.biggest <= 10, "asked the transport for " + std::to_string(s.biggest) + " bytes");
    } else {
        expect(st != St::MaxPacketSizeExceeded, "rejected for its size"); eqn("status", (int)st, (int)St::Success); eqn("bytes consumed", s.pos, head.size() + L);
    }
}
