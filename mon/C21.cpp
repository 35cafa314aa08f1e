// build: src=Socket,TcpSocket,TcpListener,SocketSelector,Packet -Wl,--wrap=socket,--wrap=accept,--wrap=accept4,--wrap=close,--wrap=connect,--wrap=bind,--wrap=listen,--wrap=shutdown,--wrap=poll,--wrap=select,--wrap=getsockopt,--wrap=setsockopt,--wrap=fcntl,--wrap=fcntl64,--wrap=ioctl,--wrap=getaddrinfo,--wrap=freeaddrinfo,--wrap=getnameinfo,--wrap=send,--wrap=recv
#include "tcpops.h"
using namespace mon;
const char *monitor_name = "descriptor histories";
static void check(History &h, int op, int i, int j, St st) {
    auto &w = os::w();
    auto say = [&](const std::string &m) { fail(m + "; system calls:" + w.trace()); };
    if(!w.bad.empty()) say(w.bad);
    if(!w.lists.empty()) say("an address list was not released");
    std::set<int> held = h.user;
    for(auto &s : h.s) if(s) { int f = s->p_fd(); if(s->connected() != (f > -1)) say("connected() disagrees with the descriptor"); if(f > -1) { if(!w.fds.count(f)) say("a socket holds descriptor " + std::to_string(f) + ", which is closed"); if(!held.insert(f).second) say("descriptor " + std::to_string(f) + " has two owners"); } }
    for(auto &s : h.l) if(s) { int f = s->get_socket_descriptor(); if(s->connected() != (f > -1)) say("connected() disagrees with the descriptor"); if(f > -1) { if(!w.fds.count(f)) say("a listener holds descriptor " + std::to_string(f) + ", which is closed"); if(!held.insert(f).second) say("descriptor " + std::to_string(f) + " has two owners"); } }
    for(auto &f : w.fds) if(!held.count(f.first)) say("descriptor " + std::to_string(f.first) + " leaked");
    bool up = h.s[i] && h.s[i]->connected(), lup = h.l[j] && h.l[j]->connected();
    if(op == 1) expect(up == (st == St::Success), "connect: status " + std::to_string((int)st) + " but connected() is " + std::to_string(up));
    if(op == 2) expect(!up, "connected after close");
    if(op == 4) expect(lup == (st == St::Success), "listen: status " + std::to_string((int)st) + " but connected() is " + std::to_string(lup));
    if(op == 5 && st == St::Success) expect(up && h.s[i]->p_fd() != h.before_fd, "accept succeeded without a new descriptor");
    if(op == 5 && st != St::Success) expect(h.s[i]->p_fd() == h.before_fd, "a failed accept changed the socket");
    if(op == 6) expect(!lup, "listening after close");
}
void run_case(Rng &r, uint64_t) { History::setup(r, true); History h(r); h.check = check; h.run(1 + r.below(r.chance(50) ? 6 : 40)); }
