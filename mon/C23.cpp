// build: src=Socket,SSLSocket,TcpSocket -Wl,--wrap=socket,--wrap=accept,--wrap=accept4,--wrap=close,--wrap=connect,--wrap=bind,--wrap=listen,--wrap=shutdown,--wrap=poll,--wrap=select,--wrap=getsockopt,--wrap=setsockopt,--wrap=fcntl,--wrap=fcntl64,--wrap=ioctl,--wrap=getaddrinfo,--wrap=freeaddrinfo,--wrap=getnameinfo,--wrap=send,--wrap=recv -lmbedtls -lmbedx509 -lmbedcrypto -Wl,--wrap=mbedtls_ssl_config_defaults,--wrap=mbedtls_ssl_conf_authmode,--wrap=mbedtls_ssl_conf_ca_chain,--wrap=mbedtls_ssl_setup,--wrap=mbedtls_ssl_set_hostname,--wrap=mbedtls_ssl_set_bio,--wrap=mbedtls_ssl_handshake,--wrap=mbedtls_ssl_get_verify_result,--wrap=mbedtls_net_free
#include "os.h"
#include <frnetlib/SSLSocket.h>
using namespace mon; using St = fr::Socket::Status;
const char *monitor_name = "TLS connection";
struct Conf { int auth = -1; const void *ca = nullptr; };
struct Sess { Conf *conf = nullptr; std::string host; bool hset = false; void *bio = nullptr; bool done = false; uint32_t vres = 0xFFFFFFFFu; };
static std::map<const void *, Conf> confs; static std::map<const void *, Sess> sess; static Rng *R; static unsigned p_fail; static bool bad, bad_cert; static std::string trace_; static Sess done; static Conf done_conf; static bool hs_ok, hs_required, hs_ca, hs_fd; static const void *CA; static uint32_t last_v;
static bool fails(const char *w) { bool f = R->chance(p_fail); trace_ += std::string(" ") + w + (f ? "!" : ""); if(f) bad = true; return f; }
static int err() { static const int e[] = {-1, MBEDTLS_ERR_SSL_ALLOC_FAILED, MBEDTLS_ERR_SSL_BAD_INPUT_DATA, MBEDTLS_ERR_NET_CONN_RESET, MBEDTLS_ERR_X509_CERT_VERIFY_FAILED, MBEDTLS_ERR_SSL_FATAL_ALERT_MESSAGE, MBEDTLS_ERR_SSL_TIMEOUT, MBEDTLS_ERR_SSL_CONN_EOF, -2147483647}; return e[R->below(9)]; }
extern "C" {
int __wrap_mbedtls_ssl_config_defaults(mbedtls_ssl_config *c, int role, int, int) { if(fails("config_defaults")) return err(); confs[c].auth = role == MBEDTLS_SSL_IS_CLIENT ? MBEDTLS_SSL_VERIFY_REQUIRED : MBEDTLS_SSL_VERIFY_NONE; return 0; }
void __wrap_mbedtls_ssl_conf_authmode(mbedtls_ssl_config *c, int m) { confs[c].auth = m; }
void __wrap_mbedtls_ssl_conf_ca_chain(mbedtls_ssl_config *c, mbedtls_x509_crt *a, mbedtls_x509_crl *) { confs[c].ca = a; }
int __wrap_mbedtls_ssl_setup(mbedtls_ssl_context *s, const mbedtls_ssl_config *c) { if(fails("setup")) return err(); sess[s].conf = &confs[c]; return 0; }
int __wrap_mbedtls_ssl_set_hostname(mbedtls_ssl_context *s, const char *h) { if(fails("set_hostname")) return err(); sess[s].hset = h; sess[s].host = h ? h : ""; return 0; }
void __wrap_mbedtls_ssl_set_bio(mbedtls_ssl_context *s, void *b, mbedtls_ssl_send_t *, mbedtls_ssl_recv_t *, mbedtls_ssl_recv_timeout_t *) { sess[s].bio = b; }
int __wrap_mbedtls_ssl_handshake(mbedtls_ssl_context *sp) {
    auto &s = sess[sp]; if(R->chance(30)) { trace_ += " handshake..."; return R->chance(50) ? MBEDTLS_ERR_SSL_WANT_READ : MBEDTLS_ERR_SSL_WANT_WRITE; }
    if(!s.conf || !s.bio) { bad = true; trace_ += " handshake(not set up)"; return MBEDTLS_ERR_SSL_BAD_INPUT_DATA; } if(fails("handshake")) return err();
    auto *n = (mbedtls_net_context *)s.bio; uint32_t flags = bad_cert ? 1u << R->below(16) : 0;
    if(s.conf->auth == MBEDTLS_SSL_VERIFY_REQUIRED && flags && R->chance(70)) { bad = true; trace_ += " handshake(certificate rejected)"; return MBEDTLS_ERR_X509_CERT_VERIFY_FAILED; }
    s.vres = s.conf->auth == MBEDTLS_SSL_VERIFY_NONE ? (R->chance(50) ? 0x80 : flags) : flags; s.done = true; done = s; done_conf = *s.conf; hs_ok = true; hs_fd = os::w().fds.count(n->fd); trace_ += " handshake=" + std::to_string(s.vres); last_v = s.vres; return 0; }
uint32_t __wrap_mbedtls_ssl_get_verify_result(const mbedtls_ssl_context *s) { return sess[s].vres; }
void __wrap_mbedtls_net_free(mbedtls_net_context *c) { if(c->fd != -1) __wrap_close(c->fd); c->fd = -1; }
}
static std::shared_ptr<fr::SSLContext> ctx;
void run_case(Rng &r, uint64_t) {
    R = &r; if(!ctx) ctx = std::make_shared<fr::SSLContext>(); CA = &ctx->cacert; confs.clear(); sess.clear(); os::reset(r); os::w().naddr = 1 + r.below(3); os::w().p_fail = r.chance(60) ? 0 : r.below(60); p_fail = r.chance(40) ? 0 : r.below(40);
    bool ver = true; desc("TLS socket"); fr::SSLSocket s(ctx);
    for(int k = 1 + r.below(3); k > 0; k--) {
        if(r.chance(40)) { ver = r.chance(60); s.verify_certificates(ver); adddesc("; verify_certificates(" + std::to_string(ver) + ")"); }
        sess.clear(); bad = hs_ok = false; bad_cert = r.chance(40); trace_.clear(); done = Sess(); std::string host = r.chance(50) ? "example.org" : r.chance(50) ? "127.0.0.1" : "h" + std::to_string(r.below(1000)) + ".test";
        adddesc("; connect " + host + (bad_cert ? ", certificate not acceptable" : "")); St st = static_cast<fr::Socket &>(s).connect(host, "443", std::chrono::seconds(0)); bool ok = st == St::Success;
        std::string t = "; TLS steps:" + trace_ + "; system calls:" + os::w().trace();
        if(bad) expect(!ok, "success although a step failed" + t);
        if(!ok) continue;
        expect(hs_ok, "success without a completed handshake" + t); expect(hs_fd, "the handshake did not run over an open descriptor" + t);
        if(ver) { expect(done_conf.auth == MBEDTLS_SSL_VERIFY_REQUIRED, "success after a handshake without peer verification required" + t); expect(done_conf.ca == CA, "success after a handshake against other authorities than configured" + t); expect(done.hset && done.host == host, "success after a handshake for host \"" + done.host + "\" instead of \"" + host + "\"" + t); expect(done.vres == 0, "success with verification result " + std::to_string(done.vres) + t); }
        if(!ver) cover(0); else cover(1);
    }
}
const char *mon::cover_names[64] = {"connected without verification", "connected with verification"};
