// build: src=Socket
#include "pkt.h"
using namespace mon; using namespace pkt;
const char *monitor_name = "packet extraction bounds";
template<class T> static void take(Rng &r, fr::Packet &p, const std::string &d, const char *name) {
    size_t at = p.get_cursor(), q = at; bool ok = Skip<T>::go(d, q);
    adddesc(std::string(name) + " at " + std::to_string(at) + "; ");
    T v = T(); if(!is_assoc<T>::value) gen(r, v);
    try {
        p >> v;
        expect(ok, std::string(name) + " extracted although the data is too short");
        eqn(std::string("position after ") + name, p.get_cursor(), q);
        if(std::is_same<T, bool>::value || !is_assoc<T>::value) if(std::string(name).find("bool") == std::string::npos && std::string(name).find("E8") == std::string::npos) eq(name, enc(v), d.substr(at, q - at));
    } catch(std::out_of_range &) {
        expect(!ok, std::string(name) + " not extracted although all its data is there");
        expect(p.get_cursor() <= d.size(), "position beyond the end");
        if(is_simple<T>::value) expect(p.get_cursor() <= q && p.get_cursor() >= at, std::string("position ") + std::to_string(p.get_cursor()) + " after failed " + name + ", at most " + std::to_string(q) + " allowed");
    }
}
static void raw(Rng &r, fr::Packet &p, const std::string &d) {
    size_t at = p.get_cursor(), left = d.size() - at, n;
    switch(r.below(6)) { case 0: n = left; break; case 1: n = left + 1; break; case 2: n = ~0ull - r.below(20); break; case 3: n = (size_t)0 - at - r.below(8); break; default: n = r.below(left + 3); }
    adddesc("extract_raw(" + std::to_string(n) + ") at " + std::to_string(at) + "; ");
    std::vector<char> b((n <= left ? n : 0) + 1); b.resize(b.size() - 1);
    try { p.extract_raw(b.data(), n); expect(n <= left, "raw block extracted although too long"); eq("raw block", std::string(b.data(), n), d.substr(at, n)); eqn("position", p.get_cursor(), at + n); }
    catch(std::out_of_range &) { expect(n > left, "raw block refused"); eqn("position after failed raw block", p.get_cursor() <= at, 1); }
    size_t q = p.get_cursor();
    try { p.assert_bytes_remaining(n); expect(n <= d.size() - q, "assert_bytes_remaining accepts too much"); } catch(std::out_of_range &) { expect(n > d.size() - q, "assert_bytes_remaining refuses"); }
    eqn("position", p.get_cursor(), q);
}
void run_case(Rng &r, uint64_t) {
    std::string d;
    if(r.chance(40)) d = gen_bytes(r, 300);
    else while(d.size() < 60 && !r.chance(15)) switch(r.below(4)) { case 0: d += be(r.below(5), 4); break; case 1: d += be(r.below(40), 4); break; case 2: d += gen_bytes(r, 12); break; default: d += be(gu(r), 4); }
    // booleans must hold 0 or 1 for the comparison of values
    desc("data \"" + hex(d) + "\": ");
    fr::Packet p; if(r.chance(50)) p.add_raw(d.data(), d.size()); else p.set_buffer("head" + d);
    eqn("size", p.size(), d.size());
    static const std::vector<std::function<void(Rng &, fr::Packet &, const std::string &)>> f = {
#define X(...) [](Rng &r, fr::Packet &p, const std::string &d) { take<__VA_ARGS__>(r, p, d, #__VA_ARGS__); },
        X(uint8_t) X(uint16_t) X(uint32_t) X(uint64_t) X(int16_t) X(int32_t) X(int64_t) X(float) X(double) X(pkt::E32) X(pkt::EI) X(std::string) X(std::string)
        X(std::pair<uint8_t COMMA std::string>) X(std::vector<uint8_t>) X(std::vector<uint32_t>) X(std::vector<std::string>) X(std::vector<std::vector<uint16_t>>) X(std::map<std::string COMMA uint32_t>) X(std::unordered_map<uint32_t COMMA std::string>)
#undef X
        raw, raw };
    for(int i = 0; i < 8; i++) { if(r.chance(20)) p.set_cursor(r.below(d.size() + 2)); f[r.below(f.size())](r, p, d); }
}
