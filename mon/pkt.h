// random typed values for packets, with their canonical encoding
#pragma once
#include "mon.h"
#include <memory>
#include <frnetlib/Packet.h>
namespace pkt {
using namespace mon;
inline std::string be(uint64_t v, int n) { std::string s; for(int i = n - 1; i >= 0; i--) s += (char)(v >> (8*i)); return s; }
enum E8 : uint8_t { e8a = 0, e8z = 255 }; enum class E32 : uint32_t { a = 0, z = 0xffffffffu }; enum EI : int32_t { eim = INT32_MIN, eiM = INT32_MAX };
// T -> generate, encode, decode (reads from data at pos; false: too short; pos then is the start of the data which was missing), compare
inline std::string enc(bool v) { return std::string(1, (char)v); }
inline std::string enc(uint8_t v) { return be(v, 1); }
inline std::string enc(uint16_t v) { return be(v, 2); }
inline std::string enc(uint32_t v) { return be(v, 4); }
inline std::string enc(uint64_t v) { return be(v, 8); }
inline std::string enc(int16_t v) { return be((uint16_t)v, 2); }
inline std::string enc(int32_t v) { return be((uint32_t)v, 4); }
inline std::string enc(int64_t v) { return be((uint64_t)v, 8); }
inline std::string enc(float v) { uint32_t x; memcpy(&x, &v, 4); return be(x, 4); }
inline std::string enc(double v) { uint64_t x; memcpy(&x, &v, 8); return be(x, 8); }
inline std::string enc(E8 v) { return be(v, 4); }
inline std::string enc(E32 v) { return be((uint32_t)v, 4); }
inline std::string enc(EI v) { return be((uint32_t)(int32_t)v, 4); }
inline std::string enc(const std::string &v) { return be(v.size(), 4) + v; }
template<class A, class B> std::string enc(const std::pair<A, B> &p) { return enc(p.first) + enc(p.second); }
inline std::string enc(const std::vector<bool> &v) { std::string s = be(v.size(), 4); for(bool b : v) s += enc(b); return s; }
template<class A> std::string enc(const std::vector<A> &v) { std::string s = be(v.size(), 4); for(auto &x : v) s += enc(x); return s; }
template<class A, class B> std::string enc(const std::map<A, B> &v) { std::string s = be(v.size(), 4); for(auto &x : v) s += enc(x.first) + enc(x.second); return s; }
template<class A, class B> std::string enc(const std::unordered_map<A, B> &v) { std::string s = be(v.size(), 4); for(auto &x : v) s += enc(x.first) + enc(x.second); return s; }
inline uint64_t gu(Rng &r) { switch(r.below(6)) { case 4: if(!dict_n.empty()) return r.pick(dict_n) + r.below(3) - 1; // fallthrough
 case 0: return r.below(3); case 1: return ~0ull - r.below(3); case 2: return 1ull << r.below(64); case 3: return (1ull << r.below(64)) - 1; default: return r.next(); } }
inline void gen(Rng &r, bool &v) { v = r.below(2); }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type gen(Rng &r, T &v) { v = (T)gu(r); }
inline void gen(Rng &r, float &v) { uint32_t x = r.chance(30) ? 0x7f800000u | (uint32_t)gu(r) : (uint32_t)gu(r); memcpy(&v, &x, 4); }
inline void gen(Rng &r, double &v) { uint64_t x = r.chance(30) ? 0x7ff0000000000000ull | gu(r) : gu(r); memcpy(&v, &x, 8); }
inline void gen(Rng &r, E8 &v) { v = (E8)gu(r); } inline void gen(Rng &r, E32 &v) { v = (E32)gu(r); } inline void gen(Rng &r, EI &v) { v = (EI)gu(r); }
inline void gen(Rng &r, std::string &v) { v = gen_bytes(r, r.chance(3) ? 70000 : 80); }
template<class A, class B> void gen(Rng &r, std::pair<A, B> &p) { gen(r, p.first); gen(r, p.second); }
inline size_t gn(Rng &r) { return r.chance(2) ? r.below(600) : r.chance(40) ? 0 : r.below(6); }
inline void gen(Rng &r, std::vector<bool> &v) { v.resize(gn(r)); for(size_t i = 0; i < v.size(); i++) v[i] = r.below(2); }
template<class A> void gen(Rng &r, std::vector<A> &v) { v.resize(gn(r)); for(auto &x : v) gen(r, x); }
template<class M> void genmap(Rng &r, M &m) { m.clear(); size_t n = gn(r); while(n--) { typename M::key_type k; typename M::mapped_type v; gen(r, k); gen(r, v); m[k] = v; } }
template<class A, class B> void gen(Rng &r, std::map<A, B> &m) { genmap(r, m); }
template<class A, class B> void gen(Rng &r, std::unordered_map<A, B> &m) { genmap(r, m); }
// bytes needed to decode a T from d at p: advances p; on failure returns false with p at the data which is missing
template<class T> bool fixed(const std::string &d, size_t &p, size_t n) { if(d.size() - p < n) return false; p += n; return true; }
inline bool u32(const std::string &d, size_t &p, uint32_t &v) { if(d.size() - p < 4) return false; v = 0; for(int i = 0; i < 4; i++) v = v << 8 | (uint8_t)d[p + i]; p += 4; return true; }
template<class T> struct Skip { static bool go(const std::string &d, size_t &p) { size_t n = std::is_enum<T>::value ? 4 : sizeof(T); if(d.size() - p < n) return false; p += n; return true; } };
template<> struct Skip<std::string> { static bool go(const std::string &d, size_t &p) { uint32_t n; if(!u32(d, p, n)) return false; if(d.size() - p < n) return false; p += n; return true; } };
template<class A, class B> struct Skip<std::pair<A, B>> { static bool go(const std::string &d, size_t &p) { return Skip<A>::go(d, p) && Skip<B>::go(d, p); } };
template<class A> bool many(const std::string &d, size_t &p) { uint32_t n; if(!u32(d, p, n)) return false; for(uint32_t i = 0; i < n; i++) if(!Skip<A>::go(d, p)) return false; return true; }
template<class A> struct Skip<std::vector<A>> { static bool go(const std::string &d, size_t &p) { return many<A>(d, p); } };
template<class A, class B> struct Skip<std::map<A, B>> { static bool go(const std::string &d, size_t &p) { return many<std::pair<A, B>>(d, p); } };
template<class A, class B> struct Skip<std::unordered_map<A, B>> { static bool go(const std::string &d, size_t &p) { return many<std::pair<A, B>>(d, p); } };
template<class T> struct is_simple { static const bool value = std::is_arithmetic<T>::value || std::is_enum<T>::value || std::is_same<T, std::string>::value; };
template<class T> struct is_assoc { static const bool value = false; };
template<class A, class B> struct is_assoc<std::map<A, B>> { static const bool value = true; };
template<class A, class B> struct is_assoc<std::unordered_map<A, B>> { static const bool value = true; };
template<class T> bool same(const T &a, const T &b) { return enc(a) == enc(b); }
template<class A, class B> bool same(const std::unordered_map<A, B> &a, const std::unordered_map<A, B> &b) { std::set<std::string> x, y; for(auto &e : a) x.insert(enc(e)); for(auto &e : b) y.insert(enc(e)); return a.size() == b.size() && x == y; }
inline std::string all(fr::Packet &p) { size_t c = p.get_cursor(); p.set_cursor(0); std::string s(p.size(), 'x'); if(!s.empty()) p.extract_raw(&s[0], s.size()); p.set_cursor(c); return s; }
#define PKT_TYPES(X) X(bool) X(uint8_t) X(uint16_t) X(uint32_t) X(uint64_t) X(int16_t) X(int32_t) X(int64_t) X(float) X(double) X(pkt::E8) X(pkt::E32) X(pkt::EI) X(std::string) \
  X(std::pair<uint8_t COMMA std::string>) X(std::pair<std::string COMMA int64_t>) X(std::vector<uint8_t>) X(std::vector<uint32_t>) X(std::vector<bool>) X(std::vector<std::string>) X(std::vector<double>) X(std::vector<std::vector<uint16_t>>) \
  X(std::vector<std::pair<int16_t COMMA std::string>>) X(std::map<std::string COMMA uint32_t>) X(std::map<int64_t COMMA std::string>) X(std::map<uint16_t COMMA std::vector<std::string>>) X(std::unordered_map<uint32_t COMMA std::string>) X(std::unordered_map<std::string COMMA float>)
#define COMMA ,
}
