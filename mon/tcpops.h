// Random histories of TCP sockets and listeners over the simulated system.
#pragma once
#include "os.h"
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <memory>
typedef fr::Socket::Status St;
struct TSock : public fr::TcpSocket { int p_fd() { return get_socket_descriptor(); } void p_close() { close_socket(); } };
template<class T> struct Pub : public T { using T::T; };
struct History {
    mon::Rng &r; std::unique_ptr<TSock> s[2]; std::unique_ptr<fr::TcpListener> l[2]; std::set<int> user; uint32_t rt[2] = {0, 0}, wt[2] = {0, 0};
    void (*check)(History &, int op, int i, int j, St st); bool keep = true; int before_fd = -1; bool before_mode = true;
    explicit History(mon::Rng &r) : r(r) {}
    void op(const std::string &m) { mon::adddesc("; " + m); os::w().ev("| " + m + ":"); }
    fr::TcpListener &L(int i) { if(!l[i]) l[i].reset(new fr::TcpListener); return *l[i]; }
    TSock &S(int i) { if(!s[i]) { s[i].reset(new TSock); rt[i] = wt[i] = 0; } return *s[i]; }
    uint32_t ms() { static const uint32_t v[] = {0, 1, 999, 1000, 1001, 1500, 2147483647u, 2147483648u, 4294967295u, 4294967u, 4294968u, 65535, 65536, 60000}; return r.chance(50) ? v[r.below(14)] : (uint32_t)r.next(); }
    void step() {
        int i = r.below(2), j = r.below(2), o = r.below(100); St st = St::Success; int code = 0; std::string si = std::to_string(i), sj = std::to_string(j);
        before_fd = S(i).p_fd(); before_mode = S(i).get_blocking();
        if(o < 25) { code = 1; op("s" + si + ".connect"); st = static_cast<fr::Socket &>(S(i)).connect("host", "80", std::chrono::seconds(r.chance(50) ? 0 : r.below(1u << 31))); }
        else if(o < 33) { code = 2; op("s" + si + ".close"); S(i).p_close(); }
        else if(o < 38) { code = 3; op("delete s" + si); s[i].reset(); }
        else if(o < 48) { code = 4; op("l" + sj + ".listen"); st = L(j).listen("80"); }
        else if(o < 62) { code = 5; op("l" + sj + ".accept(s" + si + ")"); st = L(j).accept(S(i)); }
        else if(o < 66) { code = 6; op("l" + sj + ".close"); L(j).close_socket(); }
        else if(o < 69) { code = 7; op("delete l" + sj); l[j].reset(); }
        else if(o < 72) { code = 8; op("l" + std::to_string(1 - j) + "(move(l" + sj + "))"); L(j); l[1-j].reset(); l[1-j].reset(new fr::TcpListener(std::move(*l[j]))); }
        else if(o < 75) { code = 9; op("s" + si + ".set_descriptor(new)"); int32_t f = os::w().fresh(); S(i).set_descriptor(&f); }
        else if(o < 77) { code = 10; op("s" + si + ".set_descriptor(null)"); int f = S(i).p_fd(); S(i).set_descriptor(nullptr); if(f > -1) user.insert(f); }
        else if(o < 79) { code = 11; op("s" + si + ".set_descriptor(own)"); int32_t f = S(i).p_fd(); if(f > -1) S(i).set_descriptor(&f); }
        else if(o < 87) { bool b = r.chance(50); code = b ? 12 : 13; op("s" + si + ".set_blocking(" + std::to_string(b) + ")"); st = S(i).set_blocking(b); }
        else if(o < 91) { code = 14; rt[i] = ms(); op("s" + si + ".set_receive_timeout(" + std::to_string(rt[i]) + ")"); S(i); uint32_t x = rt[i]; S(i).set_receive_timeout(x); }
        else if(o < 95) { code = 15; uint32_t x = ms(); op("s" + si + ".set_send_timeout(" + std::to_string(x) + ")"); S(i); wt[i] = x; S(i).set_send_timeout(x); }
        else if(o < 97) { code = 16; op("l" + sj + ".shutdown"); L(j).shutdown(); }
        else if(o < 99) { code = 17; op("s" + si + ".receive_raw"); char b[8]; size_t n; st = S(i).receive_raw(b, 8, n); }
        else { code = 18; op("s" + si + ".send_raw"); size_t n = 0; st = S(i).send_raw("hello", 5, n); }
        check(*this, code, i, j, st);
    }
    void run(int n) { for(int k = 0; k < n; k++) step(); op("end"); for(int i = 0; i < 2; i++) { s[i].reset(); l[i].reset(); } check(*this, 0, 0, 0, St::Success); }
    static void setup(mon::Rng &r, bool optfail) { os::reset(r); auto &w = os::w(); w.opt_fails = optfail; static const unsigned p[] = {0, 5, 20, 50, 80}; w.p_fail = p[r.below(5)]; w.p_fail_close = r.chance(30) ? 30 : 0; w.naddr = 1 + r.below(4); w.base = r.chance(70) ? 3 : r.chance(50) ? 0 : 1020; mon::desc("descriptors from " + std::to_string(w.base) + ", " + std::to_string(w.naddr) + " addresses, calls failing " + std::to_string(w.p_fail) + "%"); }
};
