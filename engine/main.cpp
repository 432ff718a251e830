#include "interp.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <poll.h>
#include <csignal>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <time.h>
#include <cxxabi.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<std::string> g_fns; static std::string g_bc; static double g_time = 60; static int g_jobs = 8; static std::string g_sum;
static ucontext_t uc_main, uc_run;
static void onCrash(int s) {
    __sync_fetch_and_add(&g_sh->engineErrors, 1); const char m[] = "symex: engine crash\n"; (void) !write(2, m, sizeof m - 1);
    extern bool sx_owns_token(); if (sx_owns_token()) __sync_fetch_and_add(&g_sh->tokens, 1);
    _exit(4);
}
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c: s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) r += ' '; else r += c; } return r + "\""; }
static void body() {
    loadModule(g_bc);
    runCtors();
    std::string sum = "[";
    bool first = true;
    double tEnd = now() + g_time; size_t left = g_fns.size();
    for (auto &fn: g_fns) {
        if (!hasFunction(fn)) { fprintf(stderr, "no harness %s\n", fn.c_str()); exit(3); }
        memset((void *) g_sh, 0, sizeof *g_sh);
        double t0 = now();
        double share = (tEnd - t0) / (double) left; left--;
        // a harness may use up to the time not needed by the others
        g_sh->deadline = t0 + std::max(share, 1.0); g_sh->tokens = g_jobs - 1; g_sh->started = 1;
        int pfd[2]; if (pipe(pfd)) exit(3);
        pid_t p = fork();
        if (p == 0) { setpgid(0, 0); close(pfd[0]); runHarness(fn); _exit(0); }
        setpgid(p, p); close(pfd[1]);
        // whatever a path is busy with (a solver call, a huge expression), it ends soon after the deadline
        char c; pollfd pf{pfd[0], POLLIN, 0};
        while (true) {
            if (poll(&pf, 1, 1000) > 0) { if (read(pfd[0], &c, 1) <= 0) break; }
            else if (now() > g_sh->deadline + 45) { kill(-p, SIGKILL); g_sh->stop = 1; long long lost = (long long) (g_sh->started - g_sh->finished); g_sh->truncated += lost > 1 ? lost : 1; g_sh->finished = g_sh->started; break; }
        }
        close(pfd[0]);
        while (waitpid(-1, nullptr, WNOHANG) > 0) {}
        double dt = now() - t0;
        auto &S = *g_sh;
        char buf[2048];
        snprintf(buf, sizeof buf, "%s{\"h\":%s,\"wall\":%.2f,\"paths\":%llu,\"ok\":%llu,\"killed\":%llu,\"bound\":%llu,\"unsupported\":%llu,\"forks\":%llu,\"truncated\":%llu,\"steps\":%llu,\"checks\":%llu,\"checkQueries\":%llu,\"checksUnknown\":%llu,\"violations\":%llu,\"knowns\":%llu,\"unknownBranches\":%llu,\"engineErrors\":%llu,\"lost\":%lld,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cacheHits\":%llu,\"modelHits\":%llu,\"solverSeconds\":%.2f,\"reach\":{",
                 first ? "" : ",\n", js(fn).c_str(), dt, S.paths, S.pathsOk, S.pathsKilled, S.pathsBound, S.pathsUnsup, S.forks, S.truncated, S.steps, S.checks, S.checkQueries, S.checksUnknown, S.violations, S.knowns, S.unknownBranches, S.engineErrors, (long long) (S.started - S.finished), S.queries, S.sat, S.unsat, S.unknown, S.cacheHits, S.modelHits, S.solverUs / 1e6);
        sum += buf; first = false;
        for (int i = 0; i < S.nReach && i < 64; i++) { snprintf(buf, sizeof buf, "%s%s:%llu", i ? "," : "", js((char *) S.reachName[i]).c_str(), S.reach[i]); sum += buf; }
        sum += "},\"functions\":[";
        { extern std::vector<std::string> hitFunctions(); bool f1 = true; for (auto &n: hitFunctions()) { sum += (f1 ? "" : ",") + js(n); f1 = false; } }
        sum += "]}";
        if (getenv("SX_VERBOSE")) fprintf(stderr, "%-36s %6.1fs paths=%llu ok=%llu killed=%llu bound=%llu unsup=%llu trunc=%llu checks=%llu/%llu unk=%llu viol=%llu known=%llu q=%llu solver=%.1fs err=%llu lost=%lld\n", fn.c_str(), dt, S.paths, S.pathsOk, S.pathsKilled, S.pathsBound, S.pathsUnsup, S.truncated, S.checks, S.checkQueries, S.checksUnknown, S.violations, S.knowns, S.queries, S.solverUs / 1e6, S.engineErrors, (long long) (S.started - S.finished));
    }
    sum += "]\n";
    FILE *f = fopen(g_sum.c_str(), "w"); if (f) { fputs(sum.c_str(), f); fclose(f); }
    _exit(0);
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--out") g_cfg.outFile = val(); else if (a == "--summary") g_sum = val(); else if (a == "--time") g_time = atof(val().c_str()); else if (a == "--jobs") g_jobs = atoi(val().c_str()); else if (a == "--steps") g_cfg.stepLimit = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") g_cfg.tier = atoi(val().c_str()); else if (a == "--rlimit") g_cfg.rlimit = strtoull(val().c_str(), 0, 10); else if (a == "--check-rlimit") g_cfg.checkRlimit = strtoull(val().c_str(), 0, 10); else if (a == "--records") g_cfg.maxPathRecords = atoi(val().c_str());
        else if (g_bc.empty()) g_bc = a; else g_fns.push_back(a);
    }
    signal(SIGCHLD, SIG_IGN);
    g_sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
    size_t sz = (size_t) 4 << 30; void *st = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&uc_run); uc_run.uc_stack.ss_sp = st; uc_run.uc_stack.ss_size = sz; uc_run.uc_link = nullptr; makecontext(&uc_run, body, 0); swapcontext(&uc_main, &uc_run);
    return 0;
}
