// build: src=Socket
#include "fake.h"
#include <frnetlib/Packet.h>
using namespace mon; using namespace fake;
const char *monitor_name = "packet framing over a stream";
static std::string be32(uint32_t n) { std::string s; for(int i = 3; i >= 0; --i) s += (char)(n >> (8*i)); return s; }
void run_case(Rng &r, uint64_t idx) {
    if(idx % 20000 == 7) {      // sizes around powers of 256, and larger than any socket buffer
        static const size_t b[] = {255, 256, 65535, 65536, (1u << 24) - 1, 1u << 24, (1u << 24) + 1, 3u << 23, 1u << 25};
        std::string body(b[r.below(9)], (char)r.below(256)); Sock s(r.next()); s.mode = 0; fr::Packet p; p.add_raw(body.data(), body.size()); desc("packet of " + std::to_string(body.size()) + " bytes"); eqn("status", (int)p.send(&s), (int)St::Success); expect(s.out == be32(body.size()) + body, "bytes on the stream");
        s.in = s.out; s.p_block = 0; fr::Packet q; eqn("status", (int)q.receive(&s), (int)St::Success); std::string got(body.size(), 0); q.extract_raw(&got[0], got.size()); expect(got == body, "data of the packet"); return;
    }
    if(r.chance(50)) {
        // several packets sent over one stream
        Sock s(r.next()); std::string want; unsigned n = 1 + r.below(3);
        for(unsigned i = 0; i < n; ++i) {
            fr::Packet p; std::string body = gen_bytes(r, r.chance(5) ? 200000 : 3000); p.add_raw(body.data(), body.size());
            if(r.chance(30)) { std::string t(std::min<size_t>(body.size(), 3), 0); p.extract_raw(&t[0], t.size()); }   // a read cursor elsewhere
            std::string m = be32(body.size()) + body;
            bool failing = r.chance(25); if(failing) { s.sfail_at = s.out.size() + r.below(m.size()); s.sfail_st = some_failure(r); }
            desc("send packet " + std::to_string(i) + " of " + std::to_string(body.size()) + " bytes, fragmentation " + std::to_string(s.mode) + ", would-block " + std::to_string(s.p_block) + "%" + (failing ? ", failing at " + std::to_string(s.sfail_at) + " with " + nm(s.sfail_st) : ""));
            s.blocks = 0; size_t reps = r.chance(20) ? 2 : 1;
            for(size_t k = 0; k < reps; ++k) {
                St st = p.send(&s);
                if(failing) { expect(st != St::Success, "success although the transport failed"); eqn("status", (int)st, (int)s.sfail_st); eq("accepted bytes", s.out, (want + m).substr(0, s.sfail_at)); return; }
                want += m; eqn("status", (int)st, (int)St::Success); eq("bytes on the stream", s.out, want);
            }
        }
        return;
    }
    Sock s(r.next()); std::vector<std::string> body; unsigned n = 1 + r.below(4);
    for(unsigned i = 0; i < n; ++i) { body.push_back(gen_bytes(r, r.chance(5) ? 100000 : 2000)); s.in += be32(body[i].size()) + body[i]; }
    if(r.chance(20)) s.fail_at = r.below(s.in.size() + 1), s.fail_st = some_failure(r);
    if(r.chance(20)) s.tmo_at = 0;
    fr::Packet p; std::string old = gen_bytes(r, 5000); bool fresh = r.chance(30); if(!fresh) { p.add_raw(old.data(), old.size()); if(old.size() && r.chance(50)) { char c; p.extract_raw(&c, 1); } }
    size_t pos = 0;
    for(unsigned i = 0; i < n;) {
        desc("receive packet " + std::to_string(i) + " of " + std::to_string(body[i].size()) + " bytes" + (fresh ? "" : " into a used packet") + ", fragmentation " + std::to_string(s.mode) + ", would-block " + std::to_string(s.p_block) + "%" + (s.fail_at >= 0 ? ", failing with " + nm(s.fail_st) + " at " + std::to_string(s.fail_at) : ""));
        St st = p.receive(&s);
        if(st == St::WouldBlock || st == St::Timeout) {
            eqn("bytes consumed", s.pos, pos);
            if(st == St::Timeout && s.fail_at >= 0 && (long)s.pos >= s.fail_at) return;
            continue;
        }
        if(st != St::Success) { expect(s.fail_at >= 0, "failure " + nm(st) + " without one in the transport"); expect((long)s.pos <= s.fail_at && s.pos < pos + 4 + body[i].size() + (body[i].empty() ? 1 : 0), "failure although the message was complete"); return; }
        pos += 4 + body[i].size(); eqn("bytes consumed", s.pos, pos);
        std::string got(body[i].size(), '#'); p.extract_raw(&got[0], got.size()); eq("data of the packet", got, body[i]);
        bool more = true; try { char c; p.extract_raw(&c, 1); } catch(const std::exception &) { more = false; }
        expect(!more, "the packet holds more than the message"); ++i;
    }
}
