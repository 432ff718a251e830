// Harness interface: the same harness is run by the symbolic engine (SX_ENGINE) on symbolic inputs and natively
// (ASan build of the real code) on the inputs the engine recorded.
#pragma once
#include <string>
#include <cstring>
#include <cstdint>
extern "C" {
long sx_int(const char *name, long lo, long hi);
uint32_t sx_bits32(const char *name);
uint64_t sx_bits64(const char *name);
void sx_assume(int c);
void sx_check(int c, const char *label);
void sx_obs_i(const char *name, long v);
void sx_obs_f(const char *name, float v);
void sx_obs_s(const char *name, const char *p, unsigned long n);
void sx_reach(const char *label);
void sx_known(const char *id, const char *prefix);
void sx_known_end();
long sx_fork(long v);
long sx_ite(int c, long a, long b);
float sx_itef(int c, float a, float b);
int sx_tier();
void sx_unsupported(const char *);
void sx_debug(const char *, long v);
}
#ifdef SX_ENGINE
#define SX_HARNESS(n) extern "C" void n()
inline const char *sx_scratch() { return "/sx"; }
inline void sx_real_hash() { std::__sx_real_hash = 1; }
inline void sx_loose_text() { std::__sx_loose_text = 1; } // the digits of symbolic numbers in messages do not matter
inline void sx_stdin(const std::string &s) { std::cin.b_.mem = s; std::cin.b_.r = 0; std::cin.clear(); }
// text written to the output object `o` between begin and end
inline void sx_cap_begin(std::ostream &o) { o.b_.isNull = false; o.b_.isFile = false; o.b_.mem.clear(); o.b_.w = 0; o.clear(); }
inline std::string sx_cap_end(std::ostream &o) { o.b_.isNull = true; return o.b_.mem; }
#else
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <fstream>
#include <filesystem>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
struct SxReg { const char *name; void (*fn)(); };
inline std::vector<SxReg> &sx_regs() { static std::vector<SxReg> v; return v; }
#define SX_HARNESS(n) static void sx_body_##n(); static int sx_reg_##n = (sx_regs().push_back({#n, sx_body_##n}), 0); static void sx_body_##n()
struct SxState { std::vector<std::pair<std::string, long>> in; size_t pos = 0; int fd = -1; int tier = 0; std::string scratch; };
inline SxState &sx_st() { static SxState s; return s; }
inline std::string sx_hex(const char *p, size_t n) { static const char *h = "0123456789abcdef"; std::string r; for (size_t i = 0; i < n; i++) { r += h[(unsigned char) p[i] >> 4]; r += h[p[i] & 15]; } return r; }
inline void sx_put(const std::string &s) { std::string t = s + "\n"; (void) !write(sx_st().fd, t.data(), t.size()); }
[[noreturn]] inline void sx_stop(const char *why) { sx_put(std::string("E ") + why); _exit(0); }
inline long sx_next(const char *name) { auto &s = sx_st(); if (s.pos >= s.in.size() || s.in[s.pos].first != name) sx_stop("diverged"); return s.in[s.pos++].second; }
extern "C" {
inline long sx_int(const char *name, long lo, long hi) { return sx_next(name); }
inline uint32_t sx_bits32(const char *name) { return (uint32_t) sx_next(name); }
inline uint64_t sx_bits64(const char *name) { return (uint64_t) sx_next(name); }
inline void sx_assume(int c) { if (!c) sx_stop("assume"); }
inline void sx_check(int c, const char *label) { if (!c) sx_put(std::string("F ") + label); }
inline void sx_obs_i(const char *name, long v) { sx_put("O i " + std::to_string(v) + " " + name); }
inline void sx_obs_f(const char *name, float v) { uint32_t b; memcpy(&b, &v, 4); sx_put("O f " + std::to_string(b) + " " + name); }
inline void sx_obs_s(const char *name, const char *p, unsigned long n) { sx_put("O s x" + sx_hex(p, n) + " " + name); }
inline void sx_reach(const char *) {}
inline void sx_known(const char *id, const char *prefix) { sx_put(std::string("K ") + id + " " + prefix); }
inline void sx_known_end() { sx_put("N"); }
inline long sx_fork(long v) { return v; }
inline long sx_ite(int c, long a, long b) { return c ? a : b; }
inline float sx_itef(int c, float a, float b) { return c ? a : b; }
inline int sx_tier() { return sx_st().tier; }
inline void sx_unsupported(const char *) { sx_stop("unsupported"); }
inline void sx_debug(const char *, long) {}
}
inline const char *sx_scratch() { return sx_st().scratch.c_str(); }
inline void sx_real_hash() {}
inline void sx_loose_text() {}
inline std::istringstream &sx_cinbuf() { static std::istringstream s; return s; }
inline void sx_stdin(const std::string &s) { sx_cinbuf().str(s); sx_cinbuf().clear(); std::cin.rdbuf(sx_cinbuf().rdbuf()); std::cin.clear(); }
inline std::map<std::ostream *, std::pair<std::streambuf *, std::stringbuf *>> &sx_caps() { static std::map<std::ostream *, std::pair<std::streambuf *, std::stringbuf *>> m; return m; }
inline void sx_cap_begin(std::ostream &o) { auto *b = new std::stringbuf(); sx_caps()[&o] = {o.rdbuf(b), b}; }
inline std::string sx_cap_end(std::ostream &o) { auto p = sx_caps()[&o]; o.rdbuf(p.first); std::string s = p.second->str(); delete p.second; return s; }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=0"; }
int main(int argc, char **argv) { // records result-file tier
    std::ifstream f(argv[1]); int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); sx_st().tier = atoi(argv[3]);
    std::string tok; long idx; std::string h; size_t n;
    while (f >> tok >> idx >> h >> n) {
        auto &s = sx_st(); s.in.clear(); s.pos = 0; f.ignore(1);
        for (size_t i = 0; i < n; i++) { std::string l; std::getline(f, l); size_t p = l.find(' '); s.in.push_back({l.substr(p + 1), (long) std::stoll(l.substr(0, p))}); }
        void (*fn)() = nullptr; for (auto &r: sx_regs()) if (h == r.name) fn = r.fn;
        { std::string t = "R " + std::to_string(idx) + "\n"; (void) !write(out, t.data(), t.size()); }
        char dir[] = "/tmp/sxreplayXXXXXX"; if (!mkdtemp(dir)) return 3;
        pid_t p = fork();
        if (p == 0) {
            s.fd = out; int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 2); dup2(nul, 0);
            s.scratch = std::string(dir) + "/a/b"; std::filesystem::create_directories(s.scratch); if (chdir(s.scratch.c_str())) _exit(3);
            alarm(getenv("SX_ALARM") ? (unsigned) atoi(getenv("SX_ALARM")) : 60);
            if (!fn) sx_stop("no-such-harness");
            try { fn(); } catch (const std::exception &e) { sx_stop((std::string("throw ") + typeid(e).name() + " " + e.what()).c_str()); } catch (...) { sx_stop("throw"); }
            sx_stop("ok");
        }
        int st = 0; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { std::string t = (WTERMSIG(st) == SIGALRM ? std::string("E timeout\n") : "E crash signal " + std::to_string(WTERMSIG(st)) + "\n"); (void) !write(out, t.data(), t.size()); }
        else if (WEXITSTATUS(st) != 0) { std::string t = "E crash exit " + std::to_string(WEXITSTATUS(st)) + "\n"; (void) !write(out, t.data(), t.size()); }
        std::error_code ec; std::filesystem::remove_all(std::string(dir), ec);
    }
    return 0;
}
#endif
