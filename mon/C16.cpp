// build: src=Socket,WebFrame
#include "fake.h"
#include <frnetlib/WebFrame.h>
using namespace mon; using namespace fake;
const char *monitor_name = "WebSocket frames";
static std::string be(uint64_t n, int k) { std::string s; for(int i = k - 1; i >= 0; --i) s += (char)(n >> (8*i)); return s; }
static std::string mask(std::string b, const std::string &key) { for(size_t i = 0; i < b.size(); ++i) b[i] = (char)(b[i] ^ key[i % 4]); return b; }
static std::string payload(Rng &r) { static const size_t e[] = {0, 1, 3, 4, 5, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, 70000, 131073}; size_t n = r.chance(40) ? e[r.below(18)] : r.below(r.chance(10) ? 150000 : 600); std::string b(n, 0); for(auto &c : b) c = (char)r.below(256); return b; }
static std::string head(bool fin, unsigned op, bool masked, uint64_t n, unsigned form) { std::string h; h += (char)((fin ? 0x80 : 0) | op); h += (char)((masked ? 0x80 : 0) | (form == 2 ? 127 : form == 1 ? 126 : n)); if(form == 1) h += be(n, 2); if(form == 2) h += be(n, 8); return h; }
void run_case(Rng &r, uint64_t) {
    static const unsigned ops[] = {0, 1, 2, 8, 9, 10}; bool client = r.chance(50); fr::ClientWebFrame cf; fr::ServerWebFrame sf; fr::WebFrame &f = client ? (fr::WebFrame &)cf : (fr::WebFrame &)sf;
    Sock s(r.next()); const char *who = client ? "client" : "server";
    if(r.chance(50)) {
        unsigned op = ops[r.below(6)]; bool fin = r.chance(70); std::string b = payload(r); f.set_payload(b); f.set_opcode((fr::WebFrame::Opcode)op); f.set_final(fin);
        unsigned form = b.size() > 65535 ? 2 : b.size() > 125 ? 1 : 0; std::string h = head(fin, op, client, b.size(), form), keys; size_t total = h.size() + (client ? 4 : 0) + b.size();
        bool failing = r.chance(20); if(failing) { s.sfail_at = r.below(total); s.sfail_st = some_failure(r); }
        for(unsigned k = 0, n = 1 + r.below(2); k < n; ++k) {
            desc(std::string(who) + " sends a frame of " + std::to_string(b.size()) + " bytes, opcode " + std::to_string(op) + ", final " + std::to_string(fin) + ", time " + std::to_string(k + 1) + ", fragmentation " + std::to_string(s.mode) + ", would-block " + std::to_string(s.p_block) + "%" + (failing ? ", failing at " + std::to_string(s.sfail_at) : ""));
            s.out.clear(); s.blocks = 0; St st = f.send(&s); std::string o = s.out;
            expect(st != St::WouldBlock, "would-block returned");
            if(failing) { eqn("status", (int)st, (int)s.sfail_st); eqn("accepted bytes", o.size(), s.sfail_at); }
            else { eqn("status", (int)st, (int)St::Success); eqn("bytes written", o.size(), total); }
            eq("header", o.substr(0, h.size()), h.substr(0, o.size()));
            if(o.size() > h.size()) {
                if(client) { if(o.size() >= h.size() + 4) { std::string key = o.substr(h.size(), 4); eq("masked payload", o.substr(h.size() + 4), mask(b, key).substr(0, o.size() - h.size() - 4)); } }
                else eq("payload", o.substr(h.size()), b.substr(0, o.size() - h.size()));
            }
            eq("payload of the frame afterwards", f.get_payload(), b); eqn("opcode afterwards", (unsigned)f.get_opcode(), op); eqn("final flag afterwards", f.is_final(), fin);
        }
        return;
    }
    bool wrong = r.chance(15), masked = client ? wrong : !wrong; std::string key(4, 0); unsigned n = 1 + r.below(3);
    f.set_payload(payload(r).substr(0, 300)); f.set_final(r.chance(50));
    for(unsigned k = 0; k < n; ++k) {
        unsigned op = r.below(16); bool fin = r.chance(60); std::string b = payload(r); for(auto &c : key) c = (char)r.below(256); unsigned form = b.size() > 65535 ? 2 : b.size() > 125 ? 1 : 0; if(r.chance(15)) form = std::max(form, (unsigned)r.below(3));
        std::string h = head(fin, op, masked, b.size(), form) + (masked ? key : ""), w = h + (masked ? mask(b, key) : b); size_t p0 = s.pos; s.in = s.in.substr(0, p0) + w + "more";
        bool failing = r.chance(15); if(failing) { s.fail_at = p0 + r.below(w.size()); s.fail_st = some_failure(r); }
        desc(std::string(who) + " receives a" + (masked ? " masked" : "n unmasked") + " frame of " + std::to_string(b.size()) + " bytes, length form " + std::to_string(form) + ", opcode " + std::to_string(op) + ", final " + std::to_string(fin) + ", fragmentation " + std::to_string(s.mode) + ", would-block " + std::to_string(s.p_block) + "%" + (failing ? ", failing with " + nm(s.fail_st) + " at " + std::to_string(s.fail_at - p0) : ""));
        s.blocks = 0; St st; for(;;) { st = f.receive(&s); if((st == St::WouldBlock || (st == St::Timeout && !failing)) && s.pos == p0) continue; break; }
        if(failing && (st == s.fail_st || st == St::Disconnected) && (long)s.pos <= s.fail_at) { if(s.fail_st == St::Timeout || st == St::Timeout) { if(st == St::Timeout) eqn("bytes consumed before a timeout", s.pos, p0); } return; }
        if(wrong) { eqn("status of a wrongly masked frame", (int)st, (int)St::Error); return; }
        eqn("status", (int)st, (int)St::Success); eqn("bytes consumed", s.pos - p0, w.size()); eq("payload", f.get_payload(), b); eqn("opcode", (unsigned)f.get_opcode(), op); eqn("final flag", f.is_final(), fin);
    }
}
