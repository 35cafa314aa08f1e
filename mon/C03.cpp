// build: src=Socket
#include "pkt.h"
using namespace mon; using namespace pkt;
const char *monitor_name = "packet cursor";
static size_t off(Rng &r, size_t n) { switch(r.below(6)) { case 0: return n; case 1: return n + 1; case 2: return ~0ull - r.below(10); case 3: return (1ull << 63) + r.below(10) - 5; case 4: if(!dict_n.empty()) return r.pick(dict_n) + r.below(3) - 1; // fallthrough
 default: return r.below(n + 3); } }
void run_case(Rng &r, uint64_t) {
    fr::Packet p; std::string d; size_t pos = 0;
    auto check = [&] { eqn("size", p.size(), d.size()); eqn("position", p.get_cursor(), pos); eqn("remaining", p.get_bytes_remaining(), d.size() - pos); };
    check();
    for(int i = 0; i < 12; i++) {
        switch(r.below(8)) {
            case 0: { std::string s = gen_bytes(r, 30); if(r.below(2000) == 0) { s.resize(gen_len(r, 1u << 23) + (r.chance(30) ? r.below(1u << 23) : 0)); } adddesc("add " + std::to_string(s.size()) + "; "); p.add_raw(s.data(), s.size()); d += s; break; }
            case 1: { size_t n = r.below(d.size() - pos + 1); adddesc("extract " + std::to_string(n) + "; "); std::string s(n, 0); p.extract_raw(&s[0], n); eq("bytes", s, d.substr(pos, n)); pos += n; break; }
            case 2: { size_t n = off(r, d.size()); adddesc("set_cursor " + std::to_string(n) + "; "); p.set_cursor(n); pos = std::min(n, d.size()); break; }
            case 3: case 4: { ssize_t n; switch(r.below(6)) { case 0: n = -(ssize_t)pos - (ssize_t)r.below(3); break; case 1: n = d.size() - pos + r.below(3); break; case 2: n = INT64_MIN + (ssize_t)r.below(12); break; case 3: n = INT64_MAX - (ssize_t)r.below(12); break; default: n = (ssize_t)r.below(40) - 20; }
                adddesc("seek_cursor " + std::to_string(n) + "; "); p.seek_cursor(n);
                if(n < 0) pos = (size_t)0 - (size_t)n >= pos ? 0 : pos + n; else pos = (size_t)n >= d.size() - pos ? d.size() : pos + n; break; }
            case 5: if(r.chance(40)) { adddesc("clear; "); p.clear(); d.clear(); pos = 0; } break;
            case 6: if(r.chance(40)) { std::string b = gen_bytes(r, 30); adddesc("set_buffer of " + std::to_string(b.size()) + "; "); p.set_buffer(std::string(b)); d = b.size() > 4 ? b.substr(4) : "";
                size_t c = p.get_cursor(); expect(c <= d.size(), "position " + std::to_string(c) + " beyond the " + std::to_string(d.size()) + " bytes of the new contents"); pos = c; } break;
            default: p.reserve(r.below(100)); break;
        }
        check();
    }
}
