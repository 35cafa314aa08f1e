// build: src=Socket
#include "fake.h"
#include <sys/mman.h>
using namespace mon; using namespace fake;
const char *monitor_name = "exact receive";
// a transport that only counts: requests of any size, nothing is written
struct Counter : public Sock { uint64_t left, got = 0; uint64_t piece; char *base; St end; bool ok = true; size_t want;
    Counter(Rng &r, char *b, size_t n) : Sock(1), left(0), piece(0), base(b), end(St::Disconnected), want(n) { (void)r; }
    St receive_raw(void *d, size_t n, size_t &k) override { if((char *)d != base + got || n != want - got) ok = false; if(!left) { k = 0; return end; } k = std::min<uint64_t>(std::min<uint64_t>(n, piece), left); left -= k; got += k; return St::Success; } };
static char *g_space; static const size_t SPACE = (size_t)5 << 32;
static void big_case(Rng &r) {
    if(!g_space) { g_space = (char *)mmap(nullptr, SPACE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(g_space == MAP_FAILED) { g_space = nullptr; return; } }
    static const size_t b[] = {(size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + (1u << 31), (size_t)1 << 33, (size_t)1 << 34, (size_t)1 << 16, (size_t)1 << 30};
    size_t n = b[r.below(7)] + r.below(9) - 4; Counter s(r, g_space, n); s.left = r.chance(60) ? n : r.chance(30) ? 0 : r.next() % n; s.piece = r.chance(50) ? n : 1 + r.next() % n; if(s.piece < n / 50) s.piece = n / 50; s.end = some_failure(r); uint64_t all = s.left;
    desc("receive_all(" + std::to_string(n) + ") with " + std::to_string(all) + " bytes arriving in pieces of " + std::to_string(s.piece));
    St st = static_cast<fr::Socket &>(s).receive_all(g_space, n);
    expect(s.ok, "the transport was not asked for exactly the rest, behind what arrived");
    if(all == n) { eqn("status", (int)st, (int)St::Success); eqn("bytes read", s.got, n); } else { eqn("bytes read", s.got, all); eqn("status", (int)st, (int)(all ? St::Disconnected : s.end)); }
}
void run_case(Rng &r, uint64_t) {
    if(r.chance(5)) return big_case(r);
    Sock s(r.next()); s.in = gen_bytes(r, 20000);
    size_t n = r.chance(60) ? gen_len(r, s.in.size()) : gen_len(r, s.in.size() + 50); size_t skip = r.below(std::min<size_t>(s.in.size(), 40) + 1); s.pos = skip;
    if(r.chance(40)) { s.fail_at = skip + r.below(n + 2); s.fail_st = some_failure(r); }
    desc("receive_all(" + std::to_string(n) + ") from " + std::to_string(s.in.size() - skip) + " bytes, fragmentation " + std::to_string(s.mode) + ", would-block " + std::to_string(s.p_block) + "%" + (s.fail_at >= 0 ? ", failing with " + nm(s.fail_st) + " after " + std::to_string(s.fail_at - skip) : ""));
    std::string d(n, '#'), d0; std::vector<char> b(n); for(auto &c : b) c = '#';
    St st = s.receive_all(b.data(), n); d.assign(b.data(), n); size_t k = s.pos - skip;
    expect(k <= n, "read more than asked: " + std::to_string(k) + " of " + std::to_string(n));
    if(st == St::Success) { eqn("bytes read on success", k, n); eq("destination", d, s.in.substr(skip, n)); return; }
    expect(k < n, "failure although everything arrived");
    eq("bytes stored", d.substr(0, k), s.in.substr(skip, k)); eq("rest of the destination", d.substr(k), std::string(n - k, '#'));
    if(k == 0) eqn("status", (int)st, (int)s.last); else { eqn("status after some bytes", (int)st, (int)St::Disconnected); expect(s.last != St::WouldBlock, "would-block not retried"); }
}
