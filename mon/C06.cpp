// build: src=Socket,TcpSocket -Wl,--wrap=send -Wl,--wrap=recv -Wl,--wrap=close
#include "mon.h"
#include <frnetlib/TcpSocket.h>
#include <errno.h>
#include <sys/socket.h>
using namespace mon; using St = fr::Socket::Status;
const char *monitor_name = "TCP raw send and receive";
// the system calls: partial transfers, interruptions, would-blocks and errors as scripted by the case
static Rng *R; static std::string in, out; static size_t pos; static int mode, last_errno; static long last_ret; static unsigned p_fail, eintrs; static const int FD = 1234567;
static const int errs[] = {EWOULDBLOCK, EWOULDBLOCK, EINTR, EINTR, EINTR, ECONNRESET, EPIPE, ENOTCONN, EBADF, ETIMEDOUT, ENOMEM, EIO, EINPROGRESS, EALREADY, ECONNABORTED, EINVAL, ENOBUFS};
static size_t chunk(size_t n) { switch(mode) { case 0: return n; case 1: return 1; case 2: return 1 + R->below(n); default: return std::min<size_t>(n, 1 + R->below(9)); } }
static long fails() { if(!R->chance(p_fail)) return 0; int e = errs[R->below(sizeof(errs)/sizeof(*errs))]; if(e == EINTR && ++eintrs > 50) e = ECONNRESET; last_errno = errno = e; return last_ret = -1; }
extern "C" ssize_t __wrap_send(int fd, const void *b, size_t n, int) {
    eqn("descriptor used", fd, FD); if(fails()) return -1;
    size_t k = n ? chunk(n) : 0; if(R->chance(3)) k = 0; out.append((const char *)b, k); return last_ret = k;
}
extern "C" ssize_t __wrap_recv(int fd, void *b, size_t n, int) {
    eqn("descriptor used", fd, FD); if(fails()) return -1;
    if(pos == in.size()) return last_ret = 0;
    size_t k = std::min(chunk(n), in.size() - pos); memcpy(b, in.data() + pos, k); pos += k; return last_ret = k;
}
extern "C" int __wrap_close(int) { return 0; }
struct T : public fr::TcpSocket { T() { int d = FD; socket_descriptor = d; } void blocking(bool b) { is_blocking = b; } ~T() override { socket_descriptor = -1; } };
void run_case(Rng &r, uint64_t) {
    R = &r; mode = r.below(4); p_fail = r.chance(30) ? 0 : r.below(60); eintrs = 0; out.clear(); pos = 0; last_errno = 0; last_ret = 1; T s; bool b = r.chance(50); s.blocking(b); errno = errs[r.below(10)];
    std::string d = gen_bytes(r, 70000);
    if(r.chance(50)) {
        size_t sent = r.chance(50) ? 0 : r.below(d.size() + 1), s0 = sent; int tries = 0;
        desc("send_raw of " + std::to_string(d.size()) + " bytes from " + std::to_string(sent) + (b ? ", blocking" : ", non-blocking") + ", fragmentation " + std::to_string(mode) + ", failures " + std::to_string(p_fail) + "%: \"" + hex(d, 80) + "\"");
        while(true) {
            St st = s.send_raw(d.data(), d.size(), sent);
            expect(sent <= d.size() && sent >= s0, "counter " + std::to_string(sent) + " out of range"); eq("bytes accepted by the system", out, d.substr(s0, sent - s0));
            if(st == St::Success) { eqn("counter on success", sent, d.size()); return; }
            expect(last_ret < 0, "failure reported although the system reported none"); expect(sent < d.size(), "failure although everything was accepted"); expect(last_errno != EINTR, "interruption not retried");
            eqn("status for errno " + std::to_string(last_errno), (int)st, last_errno == EWOULDBLOCK ? (int)(b ? St::Timeout : St::WouldBlock) : (int)St::SendError);
            if(++tries > 30) return;
        }
    }
    in = d;
    for(int i = 0; i < 6; i++) {
        size_t n = 1 + gen_len(r, 5000), got = r.next(), p0 = pos; std::vector<char> buf(n, '#');
        desc("receive_raw of up to " + std::to_string(n) + " of " + std::to_string(d.size() - pos) + " bytes" + (b ? ", blocking" : ", non-blocking") + ", fragmentation " + std::to_string(mode) + ", failures " + std::to_string(p_fail) + "%");
        St st = s.receive_raw(buf.data(), n, got);
        eqn("count", got, pos - p0); eq("destination", std::string(buf.data(), n), d.substr(p0, pos - p0) + std::string(n - (pos - p0), '#'));
        eqn("success reported", st == St::Success, pos > p0);
        if(last_ret == 0) eqn("status at the end of the stream", (int)st, (int)St::Disconnected);
        if(last_ret < 0) { expect(last_errno != EINTR, "interruption not retried"); eqn("status for errno " + std::to_string(last_errno), (int)st, last_errno == EWOULDBLOCK ? (int)(b ? St::Timeout : St::WouldBlock) : (int)St::ReceiveError); }
    }
}
