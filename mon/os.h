// A simulated operating system for descriptor, address and option calls (linked in with --wrap): every call may fail, everything is recorded.
#pragma once
#include "mon.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <stdarg.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
namespace os {
struct Fd { bool nb = false; long long rcv = -1, snd = -1; bool watched = false; };
struct World {
    std::map<int, Fd> fds; mon::Rng r{1}; unsigned p_fail = 0, p_fail_close = 0; bool opt_fails = true; int base = 3, naddr = 1, live_lists = 0; std::string bad; std::vector<std::string> log; std::set<addrinfo *> lists; int made = 0;
    int fresh() { int f = base; while(fds.count(f)) f++; fds[f] = Fd(); made++; return f; }
    void say(const std::string &m) { if(bad.empty()) bad = m; }
    void ev(const std::string &m) { if(log.size() < 200) log.push_back(m); }
    bool fails(const char *what) { bool f = r.chance(p_fail); ev(std::string(what) + (f ? "!" : "")); if(f) { static const int e[] = {EMFILE, ENOBUFS, EINVAL, EINTR, EACCES, ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EAGAIN, EADDRINUSE}; errno = e[r.below(10)]; } return f; }
    bool open(int fd, const char *what) { if(fds.count(fd)) return true; errno = EBADF; ev(std::string(what) + "(" + std::to_string(fd) + ": not open)"); return false; }
    std::string trace() { std::string s; for(size_t i = log.size() > 40 ? log.size() - 40 : 0; i < log.size(); i++) s += " " + log[i]; return s; }
};
inline World &w() { static World *x = nullptr; static bool b = (x = new World, true); (void)b; return *x; }
inline void reset(mon::Rng &r) { for(auto *a : w().lists) free(a); auto *o = &w(); *o = World(); o->r = mon::Rng(r.next()); }
}
extern "C" {
int __wrap_socket(int, int type, int) { auto &w = os::w(); if(w.fails("socket")) return -1; int f = w.fresh(); w.fds[f].nb = type & SOCK_NONBLOCK; w.log.back() += "=" + std::to_string(f); return f; }
int __wrap_accept4(int fd, sockaddr *a, socklen_t *l, int fl) { auto &w = os::w(); if(!w.open(fd, "accept") || w.fails("accept")) return -1; if(a && l) { memset(a, 0, *l < 16 ? *l : 16); a->sa_family = AF_INET; *l = 16; } int f = w.fresh(); w.fds[f].nb = fl & SOCK_NONBLOCK; w.log.back() += "=" + std::to_string(f); return f; }
int __wrap_accept(int fd, sockaddr *a, socklen_t *l) { return __wrap_accept4(fd, a, l, 0); }
int __real_close(int);
int __wrap_close(int fd) { auto &w = os::w(); w.ev("close(" + std::to_string(fd) + ")"); if(!w.fds.count(fd)) { w.say("close of descriptor " + std::to_string(fd) + ", which is not open"); errno = EBADF; return -1; } w.fds.erase(fd); if(w.r.chance(w.p_fail_close)) { errno = EINTR; return -1; } return 0; }
int __wrap_connect(int fd, const sockaddr *, socklen_t) { auto &w = os::w(); if(!w.open(fd, "connect")) return -1; if(w.r.chance(40)) { w.ev("connect"); return 0; } if(w.fails("connect")) return -1; if(w.fds[fd].nb) { errno = EINPROGRESS; w.ev("connect..."); return -1; } return 0; }
int __wrap_bind(int fd, const sockaddr *, socklen_t) { auto &w = os::w(); return !w.open(fd, "bind") || w.fails("bind") ? -1 : 0; }
int __wrap_listen(int fd, int) { auto &w = os::w(); return !w.open(fd, "listen") || w.fails("listen") ? -1 : 0; }
int __wrap_shutdown(int fd, int) { auto &w = os::w(); return !w.open(fd, "shutdown") ? -1 : 0; }
int __wrap_poll(pollfd *p, nfds_t n, int t) { auto &w = os::w(); (void)t; if(w.fails("poll")) return -1; int k = 0; for(nfds_t i = 0; i < n; i++) { p[i].revents = 0; if(!w.fds.count(p[i].fd)) p[i].revents = POLLNVAL; else if(!w.r.chance(w.p_fail)) p[i].revents = p[i].events; if(p[i].revents) k++; } return k; }
int __wrap_select(int n, fd_set *rd, fd_set *wr, fd_set *ex, timeval *) { auto &w = os::w(); if(w.fails("select")) return -1; if(w.r.chance(w.p_fail)) { if(rd) FD_ZERO(rd); if(wr) FD_ZERO(wr); if(ex) FD_ZERO(ex); return 0; } (void)n; return 1; }
int __wrap_getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) { auto &w = os::w(); if(!w.open(fd, "getsockopt") || w.fails("getsockopt")) return -1; if(lv == SOL_SOCKET && nm == SO_ERROR && v && *l >= 4) { *(int *)v = w.r.chance(w.p_fail) ? ECONNREFUSED : 0; *l = 4; } else if(v) memset(v, 0, *l); return 0; }
int __wrap_setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) { auto &w = os::w(); if(!w.open(fd, "setsockopt")) return -1; if(w.opt_fails && w.fails("setsockopt")) return -1;
    if(lv == SOL_SOCKET && (nm == SO_RCVTIMEO || nm == SO_SNDTIMEO)) { if(l < sizeof(timeval)) { errno = EINVAL; return -1; } timeval t; memcpy(&t, v, sizeof t); if(t.tv_usec < 0 || t.tv_usec >= 1000000) { errno = EDOM; w.ev("setsockopt(bad timeval)"); return -1; } (nm == SO_RCVTIMEO ? w.fds[fd].rcv : w.fds[fd].snd) = (long long)t.tv_sec * 1000000 + t.tv_usec; } return 0; }
static int os_fcntl(int fd, int cmd, long arg) { auto &w = os::w(); if(!w.open(fd, "fcntl") || w.fails("fcntl")) return -1; if(cmd == F_GETFL) return O_RDWR | (w.fds[fd].nb ? O_NONBLOCK : 0); if(cmd == F_SETFL) w.fds[fd].nb = arg & O_NONBLOCK; return 0; }
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return os_fcntl(fd, cmd, x); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return os_fcntl(fd, cmd, x); }
int __wrap_ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); int *x = va_arg(a, int *); va_end(a); auto &w = os::w(); if(!w.open(fd, "ioctl") || w.fails("ioctl")) return -1; if(rq == FIONBIO) w.fds[fd].nb = *x; return 0; }
int __wrap_getaddrinfo(const char *, const char *, const addrinfo *, addrinfo **out) { auto &w = os::w(); if(w.fails("getaddrinfo")) return EAI_NONAME; int n = w.naddr; struct B { addrinfo i; sockaddr_in a; }; B *b = (B *)calloc(n, sizeof(B)); for(int k = 0; k < n; k++) { b[k].i.ai_family = k % 2 ? AF_INET6 : AF_INET; b[k].i.ai_socktype = SOCK_STREAM; b[k].i.ai_addr = (sockaddr *)&b[k].a; b[k].i.ai_addrlen = sizeof(sockaddr_in); b[k].i.ai_next = k + 1 < n ? &b[k+1].i : nullptr; } w.lists.insert((addrinfo *)b); *out = (addrinfo *)b; return 0; }
void __wrap_freeaddrinfo(addrinfo *a) { auto &w = os::w(); w.ev("freeaddrinfo"); if(!w.lists.count(a)) { w.say("freeaddrinfo of something that is no live address list"); return; } w.lists.erase(a); free(a); }
int __wrap_getnameinfo(const sockaddr *, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) { auto &w = os::w(); if(w.fails("getnameinfo")) return EAI_AGAIN; if(h && hl) snprintf(h, hl, "127.0.0.1"); if(s && sl) snprintf(s, sl, "80"); return 0; }
ssize_t __wrap_send(int fd, const void *, size_t n, int) { auto &w = os::w(); if(!w.open(fd, "send") || w.fails("send")) return -1; return n ? 1 + w.r.below(n) : 0; }
ssize_t __wrap_recv(int fd, void *p, size_t n, int) { auto &w = os::w(); if(!w.open(fd, "recv") || w.fails("recv")) return -1; size_t k = n ? w.r.below(n + 1) : 0; memset(p, 'x', k); return k; }
}
