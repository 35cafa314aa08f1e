// build: src=Socket
#include "pkt.h"
using namespace mon; using namespace pkt;
const char *monitor_name = "packet round trip and canonical encoding";
struct Item { virtual ~Item() {} virtual void put(fr::Packet &, std::string &) = 0; virtual void get(fr::Packet &, Rng &) = 0; virtual std::string name() = 0; };
template<class T> struct Val : Item {
    T v; const char *n; Val(Rng &r, const char *n) : n(n) { v = T(); gen(r, v); }
    void put(fr::Packet &p, std::string &e) override { p << v; e += enc(v); }
    void get(fr::Packet &p, Rng &r) override { T w = T(); if(!is_assoc<T>::value) gen(r, w); p >> w; if(!same(w, v)) fail(std::string("value of type ") + n + " came back as " + hex(enc(w)) + " instead of " + hex(enc(v))); }
    std::string name() override { return std::string(n) + "=" + hex(enc(v), 60); }
};
struct Raw : Item {
    std::string v; Raw(Rng &r) { v = gen_bytes(r, 300); }
    void put(fr::Packet &p, std::string &e) override { p.add_raw(v.data(), v.size()); e += v; }
    void get(fr::Packet &p, Rng &) override { std::string w(v.size(), 0); p.extract_raw(&w[0], w.size()); eq("raw block", w, v); }
    std::string name() override { return "raw " + hex(v, 40); }
};
struct Cstr : Item {
    std::string v; Cstr(Rng &r) { v = gen_bytes(r, 100); v = v.c_str(); if(r.chance(5)) { size_t n = gen_len(r, 140000); while(v.size() < n) v += (char)r.range(1, 255); } }
    void put(fr::Packet &p, std::string &e) override { p << v.c_str(); e += enc(v); }
    void get(fr::Packet &p, Rng &) override { std::string w = "old"; p >> w; eq("C string", w, v); }
    std::string name() override { return "C string " + hex(v, 40); }
};
struct Range : Item {
    std::vector<uint16_t> v; Range(Rng &r) { gen(r, v); }
    void put(fr::Packet &p, std::string &e) override { p.add_range(v.begin(), v.end()); e += enc(v); }
    void get(fr::Packet &p, Rng &) override { std::vector<uint16_t> w; p >> w; expect(w == v, "range differs"); }
    std::string name() override { return "range"; }
};
static Item *make(Rng &r) {
    static const std::vector<std::function<Item *(Rng &)>> f = {
#define X(...) [](Rng &r) -> Item * { return new Val<__VA_ARGS__>(r, #__VA_ARGS__); },
        PKT_TYPES(X)
#undef X
        [](Rng &r) -> Item * { return new Raw(r); }, [](Rng &r) -> Item * { return new Cstr(r); }, [](Rng &r) -> Item * { return new Range(r); } };
    return f[r.below(f.size())](r);
}
void run_case(Rng &r, uint64_t) {
    fr::Packet p;
    // whatever it held before
    if(r.chance(50)) { p << gen_bytes(r, 50) << (uint32_t)r.next(); if(r.chance(50)) { p.set_cursor(r.below(20)); } p.clear(); }
    std::string want; std::vector<std::unique_ptr<Item>> items; size_t n = r.below(7);
    for(size_t i = 0; i < n; i++) { items.emplace_back(make(r)); adddesc(items.back()->name() + "; "); }
    for(auto &i : items) i->put(p, want);
    eqn("size", p.size(), want.size()); eq("encoding", all(p), want);
    int rounds = r.chance(30) ? 2 : 1;
    for(int k = 0; k < rounds; k++) {
        p.set_cursor(0);
        for(auto &i : items) i->get(p, r);
        eqn("bytes left over", p.get_bytes_remaining(), 0);
    }
}
