// A scripted transport behind the fr::Socket interface: splits, delays and fails as it likes, and keeps what was asked of it.
#pragma once
#include "mon.h"
#include <frnetlib/Socket.h>
namespace fake {
using St = fr::Socket::Status;
struct Sock : public fr::Socket {
    mon::Rng r; std::string in, out; size_t pos = 0; unsigned p_block = 20, p_tmo = 0, mode = 0; long fail_at = -1, sfail_at = -1; St fail_st = St::Disconnected, sfail_st = St::SendError;
    St last = St::Success; size_t max_asked = 0, reads = 0, biggest = 0; unsigned blocks = 0; bool after_first_block_only = false; long tmo_at = -1;
    explicit Sock(uint64_t seed) : r(seed) { mode = r.below(5); p_block = r.chance(50) ? 0 : r.below(80); }
    size_t chunk(size_t n) { switch(mode) { case 0: return n; case 1: return 1; case 2: return 1 + r.below(n); case 3: return n > 1 && r.chance(50) ? n - 1 : n; default: return std::min<size_t>(n, 1 + r.below(7)); } }
    St connect(const std::string &, const std::string &, std::chrono::seconds) override { return St::Success; }
    St set_blocking(bool) override { return St::Success; }
    bool get_blocking() const override { return false; }
    St send_raw(const char *data, size_t size, size_t &sent) override {
        mon::expect(sent <= size, "send_raw called with a counter beyond the data");
        while(sent < size) {
            if(r.chance(p_block) && blocks < 200) { blocks++; return last = St::WouldBlock; }
            size_t n = chunk(size - sent);
            if(sfail_at >= 0 && (long)(out.size() + n) > sfail_at) { size_t k = sfail_at - out.size(); out.append(data + sent, k); sent += k; return last = sfail_st; }
            out.append(data + sent, n); sent += n;
        }
        return last = St::Success;
    }
    St receive_raw(void *data, size_t n, size_t &received) override {
        received = 0; reads++; if(n > biggest) biggest = n;
        mon::expect(n > 0, "receive_raw asked for nothing");
        { volatile char *p = (volatile char *)data; char c = p[n - 1]; p[n - 1] = c; }   // the buffer must have the room it claims
        if(r.chance(p_block) && blocks < 200) { blocks++; return last = St::WouldBlock; }
        if(tmo_at >= 0 && (long)pos == tmo_at) { tmo_at = -1; return last = St::Timeout; }
        if(fail_at >= 0 && (long)pos >= fail_at) return last = fail_st;
        if(pos == in.size()) return last = St::Disconnected;
        size_t k = std::min(chunk(n), in.size() - pos); if(fail_at >= 0) k = std::min<size_t>(k, fail_at - pos);
        memcpy(data, in.data() + pos, k); pos += k; received = k; return last = St::Success;
    }
    void set_descriptor(void *) override {}
    bool conn = true;
    bool connected() const noexcept override { return conn; }
    int32_t get_socket_descriptor() const noexcept override { return -1; }
    void close_socket() override { conn = false; }
    void reconfigure_socket() override {}
};
inline St some_failure(mon::Rng &r) { static const St f[] = {St::Disconnected, St::ReceiveError, St::SSLError, St::Timeout, St::Error, St::SendError}; return f[r.below(6)]; }
inline std::string nm(St s) { return std::to_string((int)s); }
}
