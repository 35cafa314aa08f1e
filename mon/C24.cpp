// build: src=Socket,SSLSocket,TcpSocket -lmbedtls -lmbedx509 -lmbedcrypto -Wl,--wrap=mbedtls_ssl_read -Wl,--wrap=mbedtls_ssl_write -Wl,--wrap=mbedtls_net_set_block -Wl,--wrap=mbedtls_net_set_nonblock -Wl,--wrap=mbedtls_net_free
#include "mon.h"
#include <frnetlib/SSLSocket.h>
using namespace mon; using St = fr::Socket::Status;
const char *monitor_name = "TLS raw send and receive";
static Rng *R; static std::string in, out; static size_t pos; static int mode; static long last_ret; static unsigned p_fail; static int sysblock; static bool setfail; static mbedtls_ssl_context *CTX;
static const int errs[] = {MBEDTLS_ERR_SSL_WANT_READ, MBEDTLS_ERR_SSL_WANT_WRITE, MBEDTLS_ERR_SSL_WANT_READ, MBEDTLS_ERR_SSL_TIMEOUT, MBEDTLS_ERR_SSL_CONN_EOF, MBEDTLS_ERR_NET_CONN_RESET, MBEDTLS_ERR_SSL_INVALID_MAC, MBEDTLS_ERR_SSL_FATAL_ALERT_MESSAGE, MBEDTLS_ERR_SSL_BAD_INPUT_DATA, -1, -2147483647};
static size_t chunk(size_t n) { switch(mode) { case 0: return n; case 1: return 1; case 2: return 1 + R->below(n); default: return std::min<size_t>(n, 1 + R->below(9)); } }
static bool fails() { if(!R->chance(p_fail)) return false; last_ret = errs[R->below(sizeof(errs)/sizeof(*errs))]; return true; }
extern "C" int __wrap_mbedtls_ssl_write(mbedtls_ssl_context *c, const unsigned char *b, size_t n) {
    expect(c == CTX, "another TLS session used"); if(fails()) return last_ret;
    size_t k = n ? chunk(n) : 0; if(R->chance(3)) k = 0; out.append((const char *)b, k); return last_ret = k;
}
extern "C" int __wrap_mbedtls_ssl_read(mbedtls_ssl_context *c, unsigned char *b, size_t n) {
    expect(c == CTX, "another TLS session used"); if(fails()) return last_ret;
    if(pos == in.size()) return last_ret = R->chance(50) ? 0 : MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY;
    size_t k = std::min(chunk(n), in.size() - pos); memcpy(b, in.data() + pos, k); pos += k; return last_ret = k;
}
extern "C" int __wrap_mbedtls_net_set_block(mbedtls_net_context *) { if(setfail) return -1; sysblock = 1; return 0; }
extern "C" int __wrap_mbedtls_net_set_nonblock(mbedtls_net_context *) { if(setfail) return -1; sysblock = 0; return 0; }
extern "C" void __wrap_mbedtls_net_free(mbedtls_net_context *) {}
struct Keep { fr::SSLSocket s; mbedtls_net_context *n; Keep() : s(nullptr) { CTX = new mbedtls_ssl_context; mbedtls_ssl_init(CTX); s.set_ssl_context(std::unique_ptr<mbedtls_ssl_context>(CTX)); n = new mbedtls_net_context; n->fd = -1; s.set_descriptor(n); } };
static bool want(long e) { return e == MBEDTLS_ERR_SSL_WANT_READ || e == MBEDTLS_ERR_SSL_WANT_WRITE; }
void run_case(Rng &r, uint64_t) {
    R = &r; mode = r.below(4); p_fail = r.chance(30) ? 0 : r.below(60); out.clear(); pos = 0; last_ret = 1; Keep k; auto &s = k.s; sysblock = 1; bool b = true;
    for(int i = r.below(4); i > 0; i--) { setfail = r.chance(30); bool w = r.chance(50); desc("set_blocking"); St st = s.set_blocking(w); eqn("set_blocking success", st == St::Success, !setfail); if(!setfail) b = w; eqn("system mode", sysblock, b); eqn("reported mode", s.get_blocking(), b); }
    std::string d = gen_bytes(r, 70000);
    if(r.chance(50)) {
        size_t sent = r.chance(50) ? 0 : r.below(d.size() + 1), s0 = sent; int tries = 0;
        desc("send_raw of " + std::to_string(d.size()) + " bytes from " + std::to_string(sent) + (b ? ", blocking" : ", non-blocking") + ", fragmentation " + std::to_string(mode) + ", failures " + std::to_string(p_fail) + "%: \"" + hex(d, 80) + "\"");
        while(true) {
            St st = s.send_raw(d.data(), d.size(), sent);
            expect(sent <= d.size() && sent >= s0, "counter " + std::to_string(sent) + " out of range"); eq("bytes accepted by the TLS library", out, d.substr(s0, sent - s0));
            if(st == St::Success) { eqn("counter on success", sent, d.size()); return; }
            expect(last_ret < 0, "failure reported although the library reported none"); expect(sent < d.size(), "failure although everything was accepted");
            eqn("status for error " + std::to_string(last_ret), (int)st, want(last_ret) ? (int)(b ? St::Timeout : St::WouldBlock) : (int)St::SSLError);
            if(++tries > 30) return;
        }
    }
    in = d;
    for(int i = 0; i < 6; i++) {
        size_t n = 1 + gen_len(r, 5000), got = r.next(), p0 = pos; std::vector<char> buf(n, '#');
        desc("receive_raw of up to " + std::to_string(n) + " of " + std::to_string(d.size() - pos) + " bytes" + (b ? ", blocking" : ", non-blocking") + ", fragmentation " + std::to_string(mode) + ", failures " + std::to_string(p_fail) + "%");
        St st = s.receive_raw(buf.data(), n, got);
        eqn("count", got, pos - p0); eq("destination", std::string(buf.data(), n), d.substr(p0, pos - p0) + std::string(n - (pos - p0), '#'));
        eqn("success reported", st == St::Success, pos > p0);
        if(last_ret == 0 || last_ret == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY) eqn("status at the end of the stream", (int)st, (int)St::Disconnected);
        else if(last_ret < 0) eqn("status for error " + std::to_string(last_ret), (int)st, want(last_ret) ? (int)(b ? St::Timeout : St::WouldBlock) : (int)St::SSLError);
    }
}
