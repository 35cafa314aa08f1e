// usage: monitor SEED SECONDS OUTFILE DICT [first-case [last-case]]     (a single case range is a replay)
#include "mon.h"
#include <fcntl.h>
using namespace mon;
namespace mon { Shared *sh; std::vector<std::string> dict_s; std::vector<uint64_t> dict_n; bool verbose; }
__attribute__((weak)) const char *mon::cover_names[64] = {0};
__attribute__((weak)) void setup_case() {}
static void load_dict(const char *p) {
    std::ifstream f(p); std::string l;
    while(std::getline(f, l)) {
        if(l.size() < 2) continue;
        if(l[0] == 'n') dict_n.push_back(strtoull(l.c_str() + 2, 0, 10));
        else { std::string s; for(size_t i = 2; i + 1 < l.size(); i += 2) s += (char)strtoul(l.substr(i, 2).c_str(), 0, 16); dict_s.push_back(s); }
    }
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=6000:handle_abort=1:detect_stack_use_after_return=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }
// an endless loop burns CPU time; the wall clock limit is generous because the machine may be busy
static void limits(bool on) { itimerval v{}; v.it_value.tv_sec = on ? 20 : 0; setitimer(ITIMER_PROF, &v, nullptr); alarm(on ? 90 : 0); }
static int worker(uint64_t seed, uint64_t first, uint64_t last, uint64_t stride, double secs) {
    double t0 = now();
    for(uint64_t i = first; i <= last; i += stride) {
        if(first != last && now() - t0 > secs) break;
        sh->idx = i; sh->desc[0] = 0;
        limits(true);
        Rng r(seed * 1000003 + i);
        try { run_case(r, i); }
        catch(Failure &f) { strncpy(sh->msg, f.m.c_str(), sizeof(sh->msg) - 1); return 1; }
        catch(std::exception &e) { snprintf(sh->msg, sizeof(sh->msg), "uncaught exception %s: %s", typeid(e).name(), e.what()); return 1; }
        sh->cases = sh->cases + 1;
    }
    limits(false);
    return 0;
}
int main(int argc, char **argv) {
    if(argc < 5) return 2;
    uint64_t seed = strtoull(argv[1], 0, 10); double secs = atof(argv[2]); const char *outf = argv[3];
    load_dict(argv[4]);
    signal(SIGPIPE, SIG_IGN);
    unsigned W = 4; if(const char *w = getenv("MON_WORKERS")) W = atoi(w);
    uint64_t first = 0, last = ~0ull; if(argc > 5) { first = last = strtoull(argv[5], 0, 10); W = 1; verbose = true; }
    if(argc > 6) last = strtoull(argv[6], 0, 10);
    std::vector<Shared *> S(W); std::vector<pid_t> P(W); std::vector<std::string> E(W);
    for(unsigned w = 0; w < W; w++) {
        S[w] = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        E[w] = std::string(outf) + ".err" + std::to_string(w);
        pid_t p = fork();
        if(!p) {
            sh = S[w];
            int fd = open(E[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
            rlimit rl{256 << 20, 256 << 20}; rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
            setup_case();
            _exit(worker(seed, first + w, last, W, secs));
        }
        P[w] = p;
    }
    int bad = -1, status = 0; uint64_t cases = 0; unsigned left = W;
    while(left) {
        int st; pid_t p = wait(&st);
        if(p < 0) break;
        for(unsigned w = 0; w < W; w++) if(P[w] == p) {
            left--;
            if(st && bad < 0) { bad = w; status = st; for(unsigned x = 0; x < W; x++) if(x != w) kill(P[x], SIGKILL); }
        }
    }
    for(unsigned w = 0; w < W; w++) cases += S[w]->cases;
    std::ofstream o(outf);
    o << "monitor " << monitor_name << "\nseed " << seed << "\ncases " << cases << "\n";
    for(int k = 0; k < 64; k++) if(cover_names[k]) { uint64_t n = 0; for(unsigned w = 0; w < W; w++) n += S[w]->cover[k]; o << "cover " << cover_names[k] << " " << n << "\n"; }
    if(bad >= 0) {
        o << "failed case " << S[bad]->idx << "\n";
        o << "input " << S[bad]->desc << "\n";
        if(WIFSIGNALED(status)) o << "result " << (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGPROF ? "no answer within the time limit (endless loop)" : std::string("killed by signal ") + std::to_string(WTERMSIG(status))) << "\n";
        else if(WEXITSTATUS(status) == 1) o << "result " << S[bad]->msg << "\n";
        else o << "result sanitizer report or abnormal exit " << WEXITSTATUS(status) << "\n";
        std::ifstream e(E[bad]); std::string l; int n = 0; while(std::getline(e, l) && n++ < 60) o << "stderr " << l << "\n";
    }
    for(auto &e : E) unlink(e.c_str());
    o.close();
    if(bad >= 0 && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return 3;   // ended from outside (memory): no verdict
    return bad >= 0 ? 1 : 0;
}
