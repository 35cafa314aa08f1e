// build: src=SocketSelector -Wl,--wrap=epoll_create,--wrap=epoll_create1,--wrap=epoll_ctl,--wrap=epoll_wait,--wrap=epoll_pwait,--wrap=close
#include "mon.h"
#include <frnetlib/SocketSelector.h>
#include <sys/epoll.h>
#include <algorithm>
using namespace mon;
const char *monitor_name = "socket selector histories";
const char *mon::cover_names[64] = {"added", "refused", "failed addition", "removed", "removal of a closed socket", "failed removal", "waits with events", "interrupted waits", "failed waits", "more than 100 watched", "descriptor reused"};
namespace {
struct Reg { epoll_data_t data; uint32_t events; };
struct Kernel {
    std::set<int> open; std::map<int, Reg> ep; int epfd = -1; std::string bad;
    int fail_add = 0, fail_del = 0, wait_err = 0; bool nofd = false; std::vector<int> ready, reported;
} K;
struct Sock : fr::SocketDescriptor {
    int fd = -1, id; Sock(int i) : id(i) {}
    bool connected() const override { return fd > -1; }
    int32_t get_socket_descriptor() const override { return fd; }
};
}
extern "C" {
int __real_close(int);
int __wrap_epoll_create1(int) { if(K.nofd) { errno = EMFILE; return -1; } K.epfd = 900; return 900; }
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_close(int fd) { if(fd == 900 && K.epfd == 900) { K.epfd = -1; K.ep.clear(); return 0; } if(fd == 900 || K.open.count(fd)) { K.bad = "the selector closed descriptor " + std::to_string(fd); return 0; } return __real_close(fd); }
int __wrap_epoll_ctl(int ep, int op, int fd, epoll_event *e) {
    if(ep != K.epfd) { K.bad = "epoll_ctl on another descriptor"; errno = EBADF; return -1; }
    if(!K.open.count(fd)) { errno = EBADF; return -1; }
    if(op == EPOLL_CTL_ADD) {
        if(K.ep.count(fd)) { errno = EEXIST; return -1; }
        if(K.fail_add) { errno = K.fail_add; return -1; }
        K.ep[fd] = {e->data, e->events}; return 0;
    }
    if(!K.ep.count(fd)) { errno = ENOENT; return -1; }
    if(op == EPOLL_CTL_MOD) { K.ep[fd] = {e->data, e->events}; return 0; }
    if(op != EPOLL_CTL_DEL) { errno = EINVAL; return -1; }
    if(K.fail_del) { errno = K.fail_del; return -1; }
    K.ep.erase(fd); return 0;
}
int __wrap_epoll_wait(int ep, epoll_event *ev, int max, int) {
    K.reported.clear();
    if(ep != K.epfd) { K.bad = "epoll_wait on another descriptor"; errno = EBADF; return -1; }
    if(K.wait_err) { errno = K.wait_err; return -1; }
    if(max <= 0) { errno = EINVAL; return -1; }
    int n = 0;
    for(int f : K.ready) { auto i = K.ep.find(f); if(i == K.ep.end() || !(i->second.events & EPOLLIN) || n >= max) continue; ev[n].events = EPOLLIN; ev[n].data = i->second.data; n++; K.reported.push_back(f);
        if(i->second.events & EPOLLONESHOT) i->second.events = 0; }
    return n;
}
int __wrap_epoll_pwait(int ep, epoll_event *ev, int max, int t, const sigset_t *) { return __wrap_epoll_wait(ep, ev, max, t); }
}
namespace {
struct Env {
    std::vector<std::shared_ptr<Sock>> s; std::vector<std::weak_ptr<Sock>> w; std::map<int, void *> added; std::map<int, int> reg;   // reg: descriptor -> socket it is watched for
    std::set<int> used; std::unique_ptr<fr::SocketSelector> sel;
    void close(int i) { auto p = w[i].lock(); if(!p || p->fd < 0) return; K.open.erase(p->fd); K.ep.erase(p->fd); reg.erase(p->fd); p->fd = -1; }
    void open(int i) { auto p = w[i].lock(); if(!p || p->fd >= 0) return; int f = 10; while(K.open.count(f)) f++; if(!used.insert(f).second) cover(10); p->fd = f; K.open.insert(f); }
    void state(const char *after) {
        if(!K.bad.empty()) fail(K.bad);
        std::string want, got; for(auto &r : reg) want += std::to_string(r.first) + " "; for(auto &r : K.ep) got += std::to_string(r.first) + " ";
        for(auto &r : K.ep) { if(!(r.second.events & EPOLLIN)) fail(std::string("a registered socket is no longer watched for input after ") + after); if(r.second.events & EPOLLET) fail("a socket which stays ready is reported once only (edge triggered)"); }
        if(want != got) fail(std::string("descriptors watched after ") + after + ": expected " + want + ", got " + got);
    }
    void wait(Rng &r, bool all) {
        K.ready.clear(); for(auto &x : reg) if(all || r.below(2) == 0) K.ready.push_back(x.first);
        if(r.below(2) == 0) std::reverse(K.ready.begin(), K.ready.end());
        for(size_t i = 0; i + 1 < K.ready.size(); i++) std::swap(K.ready[i], K.ready[i + r.below(K.ready.size() - i)]);
        std::vector<std::pair<int, void *>> want;
        std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>> got;
        try { got = sel->wait(std::chrono::milliseconds(r.below(1000))); }
        catch(std::exception &e) { if(!K.wait_err || K.wait_err == EINTR) fail("wait threw although the system did not fail"); cover(8); state("a failed wait"); return; }
        if(K.wait_err && K.wait_err != EINTR) fail("a failed wait was hidden");
        if(K.wait_err) { cover(7); eqn("ready sockets when interrupted", got.size(), 0); return; }
        eqn("ready sockets", got.size(), K.reported.size());
        if(got.size()) cover(6); if(reg.size() > 100) cover(9);
        for(size_t i = 0; i < got.size(); i++) {
            int id = reg[K.reported[i]]; auto p = w[id].lock();
            if(!p) fail("a watched socket is gone");
            if(got[i].first.get() != p.get()) fail("another socket than the one which is ready was returned");
            if(got[i].second != added[id]) fail("another socket's opaque value was returned");
        }
        state("waiting");
    }
};
}
void run_case(Rng &r, uint64_t idx) {
    K = Kernel(); Env e; desc("");
    if(r.below(30) == 0) { K.nofd = true; try { fr::SocketSelector s; } catch(std::runtime_error &) { K.nofd = false; return; } fail("a selector without a descriptor was constructed"); }
    e.sel.reset(new fr::SocketSelector());
    int n = idx % 40 == 7 ? 130 : 1 + r.below(8); bool many = n > 100;
    for(int i = 0; i < n; i++) { e.s.push_back(std::make_shared<Sock>(i)); e.w.push_back(e.s.back()); }
    int steps = many ? 260 : 4 + r.below(40);
    for(int t = 0; t < steps; t++) {
        int i = many && t < 2 * n ? t / 2 : r.below(n); int op = many && t < 2 * n ? (t & 1 ? 2 : 0) : r.below(9); auto p = e.w[i].lock();
        if(!p) { adddesc("new " + std::to_string(i) + "; "); e.s[i] = std::make_shared<Sock>(i); e.w[i] = e.s[i]; if(e.added.count(i)) fail("the socket of a registration was released"); continue; }
        K.fail_add = K.fail_del = K.wait_err = 0;
        if(op < 2) { adddesc("open " + std::to_string(i) + "; "); e.open(i); }
        else if(op < 4) {
            if(!many && r.below(6) == 0) K.fail_add = r.below(2) == 0 ? ENOSPC : ENOMEM;
            void *o = r.below(8) == 0 ? nullptr : (void *)(uintptr_t)r.next(); adddesc("add " + std::to_string(i) + (K.fail_add ? " (system refuses)" : "") + "; ");
            bool refuse = p->fd < 0 || e.added.count(i);
            try {
                e.sel->add(p, o);
                if(refuse) fail("an unconnected or already added socket was not refused"); if(K.fail_add) fail("a failed addition was hidden");
                e.added[i] = o; e.reg[p->fd] = i; cover(0);
            } catch(std::logic_error &) { if(!refuse) fail("a connected, unwatched socket was refused"); cover(1); }
            catch(std::runtime_error &) { if(!K.fail_add) fail("adding failed although the system did not"); cover(2); }
            e.state("add");
        } else if(op < 6) {
            if(r.below(8) == 0) K.fail_del = ENOMEM;
            adddesc("remove " + std::to_string(i) + (K.fail_del ? " (system refuses)" : "") + "; ");
            bool was = e.added.count(i); void *want = was ? e.added[i] : nullptr; bool registered = false; for(auto &x : e.reg) if(x.second == i) registered = true;
            try {
                void *o = e.sel->remove(p);
                if(K.fail_del && registered) fail("a failed removal was hidden");
                if(o != want) fail("remove returned another opaque value");
                e.added.erase(i); for(auto x = e.reg.begin(); x != e.reg.end();) if(x->second == i) x = e.reg.erase(x); else ++x;
                if(was) cover(registered ? 3 : 4);
            } catch(std::runtime_error &) { if(!(K.fail_del && registered)) fail("removing failed although the system did not"); cover(5); }
            e.state("remove");
        } else if(op == 6) { adddesc("close " + std::to_string(i) + "; "); e.close(i); }
        else if(op == 7) {
            adddesc("drop handle " + std::to_string(i) + "; "); if(!e.added.count(i)) e.close(i);
            e.s[i].reset(); p.reset();
            if(e.added.count(i) && e.w[i].expired()) fail("a watched socket was released");
            if(!e.added.count(i) && !e.w[i].expired()) fail("a socket which is not watched is still held");
        } else {
            if(r.below(5) == 0) K.wait_err = r.below(2) == 0 ? EINTR : EBADF;
            adddesc(K.wait_err ? "failing wait; " : "wait; "); e.wait(r, false);
        }
    }
    K.fail_add = K.fail_del = K.wait_err = 0; adddesc("wait; "); e.wait(r, true);
    adddesc("destroy; "); e.sel.reset(); if(!K.bad.empty()) fail(K.bad); if(K.epfd != -1) fail("the epoll descriptor leaks");
}
