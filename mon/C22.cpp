// build: src=Socket,TcpSocket,TcpListener,SocketSelector,Packet -Wl,--wrap=socket,--wrap=accept,--wrap=accept4,--wrap=close,--wrap=connect,--wrap=bind,--wrap=listen,--wrap=shutdown,--wrap=poll,--wrap=select,--wrap=getsockopt,--wrap=setsockopt,--wrap=fcntl,--wrap=fcntl64,--wrap=ioctl,--wrap=getaddrinfo,--wrap=freeaddrinfo,--wrap=getnameinfo,--wrap=send,--wrap=recv
#include "tcpops.h"
using namespace mon;
const char *monitor_name = "modes and timeouts";
static void check(History &h, int op, int i, int j, St st) {
    (void)j; auto &w = os::w();
    auto say = [&](const std::string &m) { fail(m + "; system calls:" + w.trace()); };
    for(int k = 0; k < 2; k++) if(h.s[k] && h.s[k]->p_fd() > -1) {
        auto it = w.fds.find(h.s[k]->p_fd()); if(it == w.fds.end()) continue; auto &f = it->second; std::string n = "socket " + std::to_string(k);
        if(f.nb == h.s[k]->get_blocking()) say(n + " reports itself as " + (h.s[k]->get_blocking() ? "blocking" : "non-blocking") + ", the system socket is not");
        if(f.rcv != (long long)h.rt[k] * 1000) say(n + ": receive timeout set to " + std::to_string(h.rt[k]) + " ms, system socket has " + std::to_string(f.rcv) + " us");
        if(f.snd != (long long)h.wt[k] * 1000) say(n + ": send timeout set to " + std::to_string(h.wt[k]) + " ms, system socket has " + std::to_string(f.snd) + " us");
        expect(h.s[k]->get_receive_timeout() == h.rt[k] && h.s[k]->get_send_timeout() == h.wt[k], "reported timeouts");
    }
    if((op == 1 || op == 9 || (op == 5 && st == St::Success)) && h.s[i]->p_fd() > -1 && !h.s[i]->get_blocking()) say("a new connection does not start out blocking");
    if(op == 12 || op == 13) { if(st == St::Success) expect(h.s[i]->get_blocking() == (op == 12), "mode change reported as successful, the mode is another"); else expect(h.s[i]->get_blocking() == h.before_mode, "a failed mode change changed the reported mode"); }
}
void run_case(Rng &r, uint64_t) { History::setup(r, false); History h(r); h.check = check; h.run(1 + r.below(r.chance(50) ? 6 : 40)); }
