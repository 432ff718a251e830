#include "interp.hpp"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <deque>
using namespace llvm;

Shared *g_sh = nullptr;
Config g_cfg;
std::vector<std::string> g_funcNames;

// ------------------------------------------------------------------ decoded code
enum IOp : u8 { I_BIN, I_ICMP, I_FBIN, I_FNEG, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_FPCVT, I_F2SI, I_F2UI, I_SI2F, I_UI2F, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_SELECT,
    I_CALL, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_LANDINGPAD, I_RESUME, I_RMW, I_CMPXCHG, I_NOP, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_UNSUP };
struct Leaf { uint32_t off; uint16_t bits; };
struct Layout { std::vector<Leaf> leaves; u64 size; };
struct DFunc;
struct Edge { int block; std::vector<std::array<int, 3>> copies; };
struct SwitchInfo { std::vector<std::pair<std::vector<u64>, int>> groups; std::unordered_map<u64, int> map; int def; std::vector<Edge> edges; };
struct CallInfo { DFunc *direct = nullptr; std::vector<std::array<int, 2>> args; /* operand, nslots */ std::vector<std::array<u64, 2>> byval; /* arg index, size */ Edge normal, unwind; bool invoke = false; int nret = 0; int retw = 0; std::vector<int> argw; std::string asmText; };
struct GepInfo { i64 off; std::vector<std::array<i64, 3>> idx; /* operand, scale, width */ };
struct LPInfo { bool cleanup; std::vector<std::pair<bool, u64>> clauses; /* isCatch, tinfo addr (0 = all) */ };
struct DInst { u8 op, sub; uint16_t w, w2; int dst, a, b, c, n; void *p; i64 imm; };
typedef int (*Handler)(DFunc *self, CallInfo *ci, Slot *args, int nargs, Slot *ret);
struct DFunc {
    Function *F = nullptr; std::string name; bool decoded = false; int id = 0;
    int nslots = 0, nargs = 0; std::vector<int> blockStart; std::vector<DInst> code; std::vector<Slot> consts; Handler handler = nullptr; u64 addr = 0; bool isHappy = false; std::string pretty; bool isDecl = false; void *extra = nullptr;
};
enum { RC_OK = 0, RC_THROW = 1 };

static LLVMContext *g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout *g_dl;
static std::unordered_map<const Function *, DFunc *> g_funcs;
static std::unordered_map<std::string, Handler> g_handlers;
static std::unordered_map<const GlobalVariable *, u64> g_globals;
static std::unordered_map<Type *, Layout *> g_layouts;

// ------------------------------------------------------------------ path state
static std::vector<Obj> g_objs;
static std::deque<u32> *g_quar;
static std::vector<E> PC;
static std::unordered_map<E, bool> g_facts; // conditions implied by the path
static std::vector<std::vector<int>> g_varCons; // var -> indices in PC
static std::vector<u64> g_model; static bool g_modelOk = true;
struct InputRec { std::string name; int var; i64 off; int w; bool sgn; };
static std::vector<InputRec> g_inputs;
struct ObsRec { std::string name; char kind; Slot v; int w; std::vector<Slot> bytes; };
static std::vector<ObsRec> g_obs;
static u64 g_steps = 0; static bool g_ownToken = true, g_inHarness = false;
static std::vector<DFunc *> g_stack;
static std::vector<std::pair<std::string, std::string>> g_known; // id, label prefix
static std::vector<Slot> g_excStack; // caught exceptions (object pointers)
struct Exc { u64 obj, tinfo; int handlers; u64 dtor; };
static std::unordered_map<u64, Exc> g_excs;
static u64 g_curExc = 0;
static std::vector<std::vector<u64>> g_modelPool;
static Slot *g_regBase, *g_regTop, *g_regEnd;
static std::unordered_set<u64> g_unsatCache;
static std::string g_harness;
static std::string g_pathNote;
static int g_rid = 0;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
#define SHADD(f, n) __sync_fetch_and_add(&g_sh->f, (n))

static void flushStats() {
    static SolverStats last;
    SHADD(queries, g_sstats.queries - last.queries); SHADD(sat, g_sstats.sat - last.sat); SHADD(unsat, g_sstats.unsat - last.unsat); SHADD(unknown, g_sstats.unknown - last.unknown);
    SHADD(cacheHits, g_sstats.cacheHits - last.cacheHits);
    SHADD(solverUs, (u64) ((g_sstats.seconds - last.seconds) * 1e6));
    last = g_sstats;
}
bool sx_owns_token() { return g_ownToken; }
static u64 g_stepsFlushed = 0;
static void releaseAndExit() {
    flushStats();
    SHADD(steps, g_steps - g_stepsFlushed);
    SHADD(finished, 1);
    if (g_ownToken) __sync_fetch_and_add(&g_sh->tokens, 1);
    _exit(0);
}
static void writeRec(const std::string &s) {
    int fd = open(g_cfg.outFile.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0) return;
    size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
    close(fd);
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c: s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static std::string inputsJson(const std::vector<u64> &model) {
    std::string s = "[";
    for (size_t i = 0; i < g_inputs.size(); i++) {
        auto &in = g_inputs[i];
        i64 v = in.var >= 0 ? (i64) (((size_t) in.var < model.size() ? model[in.var] : g_vars[in.var].lo) + (u64) in.off) : in.off;
        if (i) s += ",";
        s += "[" + jstr(in.name) + "," + std::to_string(v) + "]";
    }
    return s + "]";
}
static std::string stackStr() {
    std::string s; int n = 0;
    for (int i = (int) g_stack.size() - 1; i >= 0 && n < 6; i--) { if (g_stack[i]->pretty.empty()) g_stack[i]->pretty = demangle(g_stack[i]->name); if (n++) s += " < "; s += g_stack[i]->pretty.substr(0, 140); }
    return s;
}
static std::string obsJson(const std::vector<u64> &model) {
    std::string s = "["; std::unordered_map<E, u128> memo;
    for (size_t i = 0; i < g_obs.size(); i++) {
        auto &o = g_obs[i]; if (i) s += ",";
        if (o.kind == 's') {
            std::string t; for (auto &b: o.bytes) t += (char) (b.e ? (u64) evalExpr(b.e, model, memo) : b.c);
            s += "[" + jstr(o.name) + ",\"s\"," + jstr(t) + "]";
        } else {
            u64 v = o.v.e ? (u64) evalExpr(o.v.e, model, memo) : o.v.c;
            i64 sv = o.kind == 'i' ? (i64) v : (i64) (uint32_t) v;
            s += "[" + jstr(o.name) + ",\"" + o.kind + "\"," + std::to_string(sv) + "]";
        }
    }
    return s + "]";
}
static void endPath(const char *status, const std::string &detail = "") {
    std::string st = status;
    if (st == "ok") SHADD(pathsOk, 1); else if (st == "killed") SHADD(pathsKilled, 1); else if (st == "bound") SHADD(pathsBound, 1); else if (st == "unsupported") SHADD(pathsUnsup, 1);
    if (st != "killed") {
        u64 n = SHADD(pathRecords, 1);
        bool bad = st != "ok";
        if (n < (u64) g_cfg.maxPathRecords || n % 64 == 0 || (bad && n < 5000))
            writeRec("{\"t\":\"path\",\"h\":" + jstr(g_harness) + ",\"status\":" + jstr(st) + ",\"detail\":" + jstr(detail) + ",\"modelOk\":" + (g_modelOk ? "true" : "false") + ",\"in\":" + inputsJson(g_model) + ",\"obs\":" + obsJson(g_model) + (st == "ok" ? "" : ",\"stack\":" + jstr(stackStr())) + "}\n");
    }
    SHADD(paths, 1);
    releaseAndExit();
}
[[noreturn]] static void unsupported(const std::string &why) { endPath("unsupported", why); abort(); }

static void reportViolation(const std::string &label, const std::vector<u64> &model, bool modelOk, const std::string &detail) {
    std::string known;
    for (auto &k: g_known) if (label.compare(0, k.second.size(), k.second) == 0) known = k.first;
    if (!known.empty()) { SHADD(knowns, 1); if (g_sh->knowns > 400) return; } else { u64 n = SHADD(violations, 1); if (n > 400) return; }
    writeRec("{\"t\":\"" + std::string(known.empty() ? "viol" : "known") + "\",\"h\":" + jstr(g_harness) + ",\"label\":" + jstr(label) + ",\"known\":" + jstr(known) + ",\"modelOk\":" + (modelOk ? "true" : "false") + ",\"detail\":" + jstr(detail) + ",\"in\":" + inputsJson(model) + ",\"stack\":" + jstr(stackStr()) + "}\n");
}
static std::string shortName(const std::string &mangled) { std::string fn = demangle(mangled); size_t p = fn.find('('); if (p != std::string::npos && p > 0) fn = fn.substr(0, p); p = fn.rfind(' '); if (p != std::string::npos) fn = fn.substr(p + 1); return fn; }
static std::string happyFrame() { for (int i = (int) g_stack.size() - 1; i >= 0; i--) if (g_stack[i]->isHappy) return shortName(g_stack[i]->name); return "?"; }
static std::string g_throwAt, g_throwStack;
[[noreturn]] static void crash(const std::string &kind, const std::string &detail = "") {
    SHADD(crashes, 1);
    if (!g_inHarness) { fprintf(stderr, "engine: crash outside harness: %s %s @ %s\n", kind.c_str(), detail.c_str(), stackStr().c_str()); _exit(3); }
    reportViolation("crash:" + kind + "@" + happyFrame(), g_model, g_modelOk, detail);
    SHADD(paths, 1);
    releaseAndExit();
    abort();
}

// ------------------------------------------------------------------ constraints and forking
static void addPC(E c) {
    if (isTrue(c)) return;
    // split conjunctions
    if (c->op == Op::AND && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
    if (!g_facts.emplace(c, true).second) return;
    int idx = (int) PC.size();
    PC.push_back(c);
    for (auto v: exprVars(c)) { if (g_varCons.size() <= v) g_varCons.resize(v + 1); g_varCons[v].push_back(idx); }
}
static void sliceFor(const std::vector<uint32_t> &vars, std::vector<E> &out) {
    std::set<uint32_t> seenV; std::vector<uint32_t> work; std::set<int> seenC;
    for (auto v: vars) if (seenV.insert(v).second) work.push_back(v);
    while (!work.empty()) {
        uint32_t v = work.back(); work.pop_back();
        if (v < g_varCons.size()) for (int ci: g_varCons[v]) if (seenC.insert(ci).second) for (auto u: exprVars(PC[ci])) if (seenV.insert(u).second) work.push_back(u);
    }
    for (int ci: seenC) out.push_back(PC[ci]);
}
static void syncModel() { if (g_model.size() < g_vars.size()) { size_t o = g_model.size(); g_model.resize(g_vars.size()); for (size_t i = o; i < g_model.size(); i++) g_model[i] = g_vars[i].lo; } }
static bool evalBool(E c, const std::vector<u64> &m) { std::unordered_map<E, u128> memo; return evalExpr(c, m, memo) != 0; }
static void poolAdd(const std::vector<u64> &m) { g_modelPool.push_back(m); if (g_modelPool.size() > 12) g_modelPool.erase(g_modelPool.begin()); }

// satisfiable(PC and cond)?  m receives a full model on SAT
static SatR feasible(E cond, std::vector<u64> &m, bool &mok, u64 rlimit) {
    if (isFalse(cond)) return SatR::UNSAT;
    syncModel();
    std::vector<E> cs;
    sliceFor(exprVars(cond), cs);
    if (g_modelOk) {
        // the pool: other models may satisfy slice + cond
        for (int i = (int) g_modelPool.size() - 1; i >= 0; i--) {
            auto pm = g_modelPool[i]; if (pm.size() < g_vars.size()) { size_t o = pm.size(); pm.resize(g_vars.size()); for (size_t q = o; q < pm.size(); q++) pm[q] = g_model[q]; }
            std::unordered_map<E, u128> memo; bool ok = evalExpr(cond, pm, memo) != 0;
            for (size_t q = 0; ok && q < cs.size(); q++) ok = evalExpr(cs[q], pm, memo) != 0;
            if (ok) {
                m = g_model; std::set<uint32_t> vs; for (auto v: exprVars(cond)) vs.insert(v); for (E c: cs) for (auto v: exprVars(c)) vs.insert(v);
                for (auto v: vs) m[v] = pm[v];
                mok = true; SHADD(modelHits, 1); return SatR::SAT;
            }
        }
    }
    u64 h = 1469598103934665603ull; { std::vector<uint32_t> ids; for (E c: cs) ids.push_back(c->id); std::sort(ids.begin(), ids.end()); ids.push_back(cond->id); for (auto i: ids) { h ^= i; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } }
    if (g_unsatCache.count(h)) { g_sstats.cacheHits++; return SatR::UNSAT; }
    cs.push_back(cond);
    m = g_model;
    SatR r = solveConj(cs, m, mok, rlimit);
    if (r == SatR::UNSAT) g_unsatCache.insert(h);
    if (r == SatR::SAT) { if (!g_modelOk) { /* other slices unknown */ mok = mok && false; } else if (mok) poolAdd(m); }
    return r;
}
static bool budgetGone() { if (g_sh->stop) return true; if (now() > g_sh->deadline) { g_sh->stop = 1; return true; } return false; }

// returns true in the child
static bool doFork() {
    flushStats();
    SHADD(forks, 1); SHADD(started, 1);
    bool got = false;
    int t = g_sh->tokens;
    while (t > 0) { if (__sync_bool_compare_and_swap(&g_sh->tokens, t, t - 1)) { got = true; break; } t = g_sh->tokens; }
    pid_t p = fork();
    if (p < 0) { if (got) __sync_fetch_and_add(&g_sh->tokens, 1); SHADD(truncated, 1); SHADD(started, -1); return false; }
    if (p == 0) { g_ownToken = got; g_stepsFlushed = g_steps; g_sh->tokens; return true; }
    if (!got) { int st; waitpid(p, &st, 0); }
    return false;
}
// decide a condition on this path; forks when both outcomes are feasible
static bool branch(E c) {
    if (c->isConst()) return c->c != 0;
    auto f = g_facts.find(c); if (f != g_facts.end()) return f->second;
    E nc = mkNot(c);
    f = g_facts.find(nc); if (f != g_facts.end()) return !f->second;
    syncModel();
    bool v; std::vector<u64> m; bool mok = false;
    if (g_modelOk) v = evalBool(c, g_model);
    else {
        SatR r = feasible(c, m, mok, g_cfg.rlimit);
        if (r == SatR::UNSAT) { g_facts[c] = false; return false; }
        if (r == SatR::UNKNOWN) SHADD(unknownBranches, 1);
        v = true;
    }
    if (budgetGone()) { SHADD(truncated, 1); addPC(v ? c : nc); return v; }
    E other = v ? nc : c;
    SatR r = feasible(other, m, mok, g_cfg.rlimit);
    if (r == SatR::UNSAT) { g_facts[c] = v; return v; }
    if (r == SatR::UNKNOWN) { SHADD(unknownBranches, 1); mok = false; m = g_model; }
    if (doFork()) { // child: other side
        g_model = m; g_modelOk = mok;
        addPC(other); g_facts[c] = !v;
        return !v;
    }
    addPC(v ? c : nc); g_facts[c] = v;
    return v;
}
static void assumeE(E c) {
    if (isTrue(c)) return;
    if (isFalse(c)) endPath("killed");
    syncModel();
    if (g_modelOk && evalBool(c, g_model)) { addPC(c); return; }
    std::vector<u64> m; bool mok;
    SatR r = feasible(c, m, mok, g_cfg.rlimit);
    if (r == SatR::UNSAT) endPath("killed");
    if (r == SatR::SAT) { g_model = m; g_modelOk = mok; } else { SHADD(unknownBranches, 1); g_modelOk = false; }
    addPC(c);
}
static inline E toE(const Slot &s, int w) { return s.e ? s.e : mkConst(s.c, w); }
static inline Slot fromE(E e) { if (e->isConst() && e->w <= 64) return {(u64) e->c, nullptr}; return {0, e}; }
// fork until the value is a constant on this path
static u64 concretize(const Slot &s, int w) {
    if (!s.e) return s.c;
    if (s.e->isConst()) return (u64) s.e->c;
    SHADD(concretized, 1);
    while (true) {
        syncModel();
        std::unordered_map<E, u128> memo; u64 v = (u64) evalExpr(s.e, g_model, memo);
        if (branch(mkBin(Op::EQ, s.e, mkConst(v, w)))) return v;
        if (!g_modelOk) { // cannot enumerate reliably
            std::vector<u64> m; bool mok; SatR r = feasible(mkTrue(), m, mok, g_cfg.rlimit); (void) r;
            unsupported("concretize without a reliable model");
        }
    }
}

// ------------------------------------------------------------------ memory
static u64 newObj(u64 size, ObjKind k, const char *name = nullptr) {
    if (size > MAX_OBJ) unsupported("allocation of " + std::to_string(size) + " bytes");
    u32 id;
    if (g_quar->size() > 20000) { id = g_quar->front(); g_quar->pop_front(); }
    else { id = (u32) g_objs.size(); g_objs.emplace_back(); }
    Obj &o = g_objs[id];
    o.data = (u8 *) malloc(size ? size : 1); memset(o.data, 0xAA, size);
    o.sym = nullptr; o.size = size; o.kind = k; o.alive = true; o.ro = false; o.name = name; o.fn = nullptr;
    return ((u64) id << ADDR_SHIFT) + ADDR_BIAS;
}
static inline Obj *objAt(u64 addr, i64 &off) {
    u64 id = addr >> ADDR_SHIFT; if (id >= g_objs.size()) return nullptr;
    off = (i64) (addr & ((1 << ADDR_SHIFT) - 1)) - (i64) ADDR_BIAS;
    return &g_objs[id];
}
static void killObj(u64 addr) {
    u32 id = (u32) (addr >> ADDR_SHIFT); Obj &o = g_objs[id];
    free(o.data); if (o.sym) free(o.sym);
    o.data = nullptr; o.sym = nullptr; o.alive = false; g_quar->push_back(id);
}
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long) v); return b; }
static Obj &access(u64 addr, u64 n, bool write, i64 &off) {
    if (addr < 4096) crash("null-deref");
    Obj *o = objAt(addr, off);
    if (!o || (addr >> ADDR_SHIFT) == 0) crash("wild-pointer", hex(addr));
    if (!o->alive) crash("use-after-free", hex(addr));
    if (off < 0 || (u64) off + n > o->size) crash(write ? "oob-write" : "oob-read", "offset " + std::to_string(off) + " size " + std::to_string(n) + " of object size " + std::to_string(o->size) + (o->name ? std::string(" ") + o->name : ""));
    if (o->kind == OK_FUNC) crash("access-to-code");
    if (write && o->ro) crash("write-to-constant", o->name ? o->name : "");
    return *o;
}
static Slot gather(Obj &o, i64 off, int n) { // n bytes, some symbolic
    SymByte *sb = o.sym + off;
    // whole expression?
    if (sb[0].e && sb[0].idx == 0 && sb[0].e->w == n * 8) {
        bool ok = true; for (int i = 1; i < n; i++) if (sb[i].e != sb[0].e || sb[i].idx != i) { ok = false; break; }
        if (ok) return fromE(sb[0].e);
    }
    E r = nullptr;
    for (int i = 0; i < n;) {
        E part; int j = i + 1;
        if (!sb[i].e) { while (j < n && !sb[j].e && j - i < 8) j++; u64 v = 0; memcpy(&v, o.data + off + i, j - i); part = mkConst(v, (j - i) * 8); }
        else { while (j < n && sb[j].e == sb[i].e && sb[j].idx == sb[i].idx + (j - i)) j++; part = mkExtract(sb[i].e, sb[i].idx * 8, (j - i) * 8); }
        r = r ? mkConcat(part, r) : part;
        i = j;
    }
    return fromE(r);
}
static Slot loadC(u64 addr, int bits) {
    int n = (bits + 7) / 8; i64 off; Obj &o = access(addr, n, false, off);
    if (o.sym) {
        bool any = false; for (int i = 0; i < n; i++) if (o.sym[off + i].e) { any = true; break; }
        if (any) { Slot s = gather(o, off, n); if (bits != n * 8) s = fromE(mkExtract(toE(s, n * 8), 0, bits)); return s; }
    }
    if (n > 8) { u128 v = 0; memcpy(&v, o.data + off, n); return {0, mkConst(v, bits)}; }
    u64 v = 0; memcpy(&v, o.data + off, n); if (bits < 64) v &= ((1ull << bits) - 1);
    return {v, nullptr};
}
static void storeC(u64 addr, const Slot &s, int bits) {
    int n = (bits + 7) / 8; i64 off; Obj &o = access(addr, n, true, off);
    if (!s.e) { memcpy(o.data + off, &s.c, n); if (o.sym) for (int i = 0; i < n; i++) o.sym[off + i].e = nullptr; return; }
    if (s.e->isConst()) { u128 v = s.e->c; memcpy(o.data + off, &v, n); if (o.sym) for (int i = 0; i < n; i++) o.sym[off + i].e = nullptr; return; }
    if (!o.sym) o.sym = (SymByte *) calloc(o.size ? o.size : 1, sizeof(SymByte));
    E e = bits == n * 8 ? s.e : mkZext(s.e, n * 8);
    for (int i = 0; i < n; i++) { o.sym[off + i].e = e; o.sym[off + i].idx = (u8) i; }
}
static int knownTZ(E e);
static int knownTZ1(E e) {
    switch (e->op) {
        case Op::CONST: { if (!e->c) return e->w; int t = 0; while (!((e->c >> t) & 1)) t++; return t; }
        case Op::ADD: case Op::SUB: case Op::OR: case Op::XOR: return std::min(knownTZ(e->k[0]), knownTZ(e->k[1]));
        case Op::MUL: return std::min((int) e->w, knownTZ(e->k[0]) + knownTZ(e->k[1]));
        case Op::SHL: return e->k[1]->isConst() ? std::min((int) e->w, knownTZ(e->k[0]) + (int) e->k[1]->c) : knownTZ(e->k[0]);
        case Op::AND: return std::max(knownTZ(e->k[0]), knownTZ(e->k[1]));
        case Op::ZEXT: case Op::SEXT: { int t = knownTZ(e->k[0]); return t >= e->k[0]->w ? e->w : t; }
        case Op::ITE: return std::min(knownTZ(e->k[1]), knownTZ(e->k[2]));
        case Op::CONCAT: { int t = knownTZ(e->k[1]); return t >= e->k[1]->w ? e->k[1]->w + knownTZ(e->k[0]) : t; }
        default: return 0;
    }
}
// shared subexpressions are visited once
static int knownTZ(E e) {
    if (e->nk == 0) return knownTZ1(e);
    static std::unordered_map<E, int> memo; auto f = memo.find(e); if (f != memo.end()) return f->second;
    int t = knownTZ1(e); memo[e] = t; return t;
}
// candidate concrete addresses for a symbolic pointer, after forking off out-of-bounds accesses
static bool candidates(E a, int n, bool write, std::vector<u64> &out, size_t maxc) {
    syncModel(); std::unordered_map<E, u128> memo; u64 c0 = (u64) evalExpr(a, g_model, memo);
    i64 off; 
    // object: prefer the constant base of the address expression
    u64 id = c0 >> ADDR_SHIFT;
    if (a->op == Op::ADD && a->k[1]->isConst() && ((u64) a->k[1]->c >> ADDR_SHIFT) > 0 && ((u64) a->k[1]->c >> ADDR_SHIFT) < g_objs.size()) id = (u64) a->k[1]->c >> ADDR_SHIFT;
    if (id == 0 || id >= g_objs.size()) { // fully symbolic pointer
        return false;
    }
    Obj &o = g_objs[id]; (void) off;
    u64 lo = (id << ADDR_SHIFT) + ADDR_BIAS;
    if (!o.alive || o.size < (u64) n) { return false; }
    u64 hi = lo + o.size - n;
    if (a->ulo < lo || a->uhi > hi) {
        E inb = mkBin(Op::AND, mkBin(Op::ULE, mkConst(lo, 64), a), mkBin(Op::ULE, a, mkConst(hi, 64)));
        if (!branch(inb)) { u64 v = concretize({0, a}, 64); i64 o2; access(v, n, write, o2); return false; }
    }
    lo = std::max(lo, a->ulo); hi = std::min(hi, a->uhi);
    int tz = std::min(knownTZ(a), 12); u64 step = 1ull << tz;
    lo = (lo + step - 1) & ~(step - 1);
    if (hi < lo) return false;
    u64 cnt = (hi - lo) / step + 1;
    if (cnt > maxc) return false;
    for (u64 v = lo; v <= hi; v += step) out.push_back(v);
    return true;
}
static Slot loadS(const Slot &addr, int bits) {
    if (!addr.e) return loadC(addr.c, bits);
    if (addr.e->isConst()) return loadC((u64) addr.e->c, bits);
    std::vector<u64> cand;
    if (!candidates(addr.e, (bits + 7) / 8, false, cand, 2048)) return loadC(concretize(addr, 64), bits);
    // group equal values to keep the chain short
    E r = nullptr;
    std::vector<std::pair<E, std::vector<u64>>> groups; std::unordered_map<E, size_t> gi;
    for (u64 v: cand) { E x = toE(loadC(v, bits), bits); auto it = gi.find(x); if (it == gi.end()) { gi[x] = groups.size(); groups.push_back({x, {v}}); } else groups[it->second].second.push_back(v); }
    std::stable_sort(groups.begin(), groups.end(), [](auto &a, auto &b) { return a.second.size() > b.second.size(); });
    for (auto &g: groups) {
        if (!r) { r = g.first; continue; }
        E c = mkFalse(); for (u64 v: g.second) c = mkBin(Op::OR, c, mkBin(Op::EQ, addr.e, mkConst(v, 64)));
        bool fl = (bits == 32 || bits == 64) && (g.first->op == Op::POLY || r->op == Op::POLY);
        r = fl ? mkFIte(c, g.first, r) : mkIte(c, g.first, r);
    }
    return fromE(r);
}
static void storeS(const Slot &addr, const Slot &v, int bits) {
    if (!addr.e) { storeC(addr.c, v, bits); return; }
    if (addr.e->isConst()) { storeC((u64) addr.e->c, v, bits); return; }
    std::vector<u64> cand;
    if (!candidates(addr.e, (bits + 7) / 8, true, cand, 64)) { storeC(concretize(addr, 64), v, bits); return; }
    E ve = toE(v, bits);
    for (u64 a: cand) { E old = toE(loadC(a, bits), bits); storeC(a, fromE(mkIte(mkBin(Op::EQ, addr.e, mkConst(a, 64)), ve, old)), bits); }
}
static void copyMem(u64 dst, u64 src, u64 n) {
    if (!n) return;
    i64 so, dof; Obj &s = access(src, n, false, so); Obj &d = access(dst, n, true, dof);
    memmove(d.data + dof, s.data + so, n);
    bool any = false; if (s.sym) for (u64 i = 0; i < n; i++) if (s.sym[so + i].e) { any = true; break; }
    if (any) { if (!d.sym) d.sym = (SymByte *) calloc(d.size, sizeof(SymByte)); memmove(d.sym + dof, s.sym + so, n * sizeof(SymByte)); }
    else if (d.sym) for (u64 i = 0; i < n; i++) d.sym[dof + i].e = nullptr;
}
static std::string readCStr(u64 addr) {
    std::string s; while (true) { Slot b = loadC(addr++, 8); u64 c = concretize(b, 8); if (!c) return s; s += (char) c; if (s.size() > 100000) return s; }
}

// ------------------------------------------------------------------ types
static int leafBits(Type *t) {
    if (t->isIntegerTy()) return (int) t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static void flat(Type *t, u64 off, std::vector<Leaf> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = g_dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + (u64) sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = g_dl->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = g_dl->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), off + i * es, out); return; }
    out.push_back({(uint32_t) off, (uint16_t) leafBits(t)});
}
static Layout *layout(Type *t) {
    auto it = g_layouts.find(t); if (it != g_layouts.end()) return it->second;
    auto *l = new Layout(); if (!t->isVoidTy() && t->isSized()) { flat(t, 0, l->leaves); l->size = g_dl->getTypeStoreSize(t); } else l->size = 0;
    if (t->isMetadataTy() || t->isTokenTy()) l->leaves.clear();
    return g_layouts[t] = l;
}
static int nslots(Type *t) { if (t->isVoidTy()) return 0; if (!t->isAggregateType() && !t->isVectorTy()) return 1; return (int) layout(t)->leaves.size(); }

static DFunc *getFunc(Function *F);
static u64 funcAddr(Function *F) {
    DFunc *d = getFunc(F);
    if (!d->addr) { d->addr = newObj(16, OK_FUNC, strdup(d->name.c_str())); g_objs[d->addr >> ADDR_SHIFT].fn = d; }
    return d->addr;
}
static u64 globalAddr(GlobalVariable *G);
static void constSlots(Constant *c, std::vector<Slot> &out);
static Slot constScalar(Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        auto &v = ci->getValue();
        if (v.getBitWidth() <= 64) return {v.getZExtValue(), nullptr};
        u128 x = 0; for (unsigned i = 0; i < v.getNumWords() && i < 2; i++) x |= (u128) v.getRawData()[i] << (64 * i);
        return {0, mkConst(x, (int) v.getBitWidth())};
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); if (v.getBitWidth() <= 64) return {v.getZExtValue(), nullptr}; u128 x = (u128) v.getRawData()[0] | ((u128) v.getRawData()[1] << 64); return {0, mkConst(x, 80)}; }
    if (isa<ConstantPointerNull>(c)) return {0, nullptr};
    if (isa<UndefValue>(c)) { int w = leafBits(c->getType()); if (w > 64) return {0, mkConst(0, w)}; return {0, nullptr}; }
    if (auto *f = dyn_cast<Function>(c)) return {funcAddr(f), nullptr};
    if (auto *g = dyn_cast<GlobalVariable>(c)) return {globalAddr(g), nullptr};
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
                Slot b = constScalar(cast<Constant>(g->getPointerOperand()));
                if (!g->accumulateConstantOffset(*g_dl, off)) break;
                return {b.c + (u64) off.getSExtValue(), nullptr};
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
            case Instruction::Add: return {constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c, nullptr};
            case Instruction::Sub: return {constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c, nullptr};
            case Instruction::Mul: return {constScalar(ce->getOperand(0)).c * constScalar(ce->getOperand(1)).c, nullptr};
            case Instruction::Trunc: { u64 v = constScalar(ce->getOperand(0)).c; int w = leafBits(ce->getType()); return {w < 64 ? v & ((1ull << w) - 1) : v, nullptr}; }
            case Instruction::ICmp: { u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c; if (ce->getPredicate() == CmpInst::ICMP_EQ) return {a == b, nullptr}; if (ce->getPredicate() == CmpInst::ICMP_NE) return {a != b, nullptr}; break; }
            default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "constScalar: %s\n", s.c_str()); abort();
}
static void constSlots(Constant *c, std::vector<Slot> &out) {
    Type *t = c->getType();
    if (!t->isAggregateType() && !t->isVectorTy()) { out.push_back(constScalar(c)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto &l: layout(t)->leaves) out.push_back(l.bits > 64 ? Slot{0, mkConst(0, l.bits)} : Slot{0, nullptr}); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) out.push_back(constScalar(cd->getElementAsConstant(i))); return; }
    for (unsigned i = 0; i < c->getNumOperands(); i++) constSlots(cast<Constant>(c->getOperand(i)), out);
}
static void initMem(u64 addr, Constant *c) {
    Type *t = c->getType(); i64 off; Obj *o = objAt(addr, off);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { memset(o->data + off, 0, g_dl->getTypeStoreSize(t)); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = g_dl->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(addr + (u64) sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = g_dl->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(addr + i * es, ca->getOperand(i)); return; }
    if (auto *cv = dyn_cast<ConstantVector>(c)) { u64 es = g_dl->getTypeStoreSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) initMem(addr + i * es, cv->getOperand(i)); return; }
    Slot s = constScalar(c); // may add objects: refetch
    o = objAt(addr, off);
    int n = (int) g_dl->getTypeStoreSize(t);
    if (s.e) { u128 v = s.e->c; memcpy(o->data + off, &v, std::min(n, 16)); } else memcpy(o->data + off, &s.c, std::min(n, 8));
}
static u64 globalAddr(GlobalVariable *G) {
    auto it = g_globals.find(G); if (it != g_globals.end()) return it->second;
    u64 size = G->getValueType()->isSized() ? (u64) g_dl->getTypeAllocSize(G->getValueType()) : 8;
    if (G->isDeclaration()) size = std::max<u64>(size, 64);
    std::string nm = G->getName().str();
    u64 a = newObj(size, OK_GLOBAL, strdup(nm.c_str()));
    g_globals[G] = a;
    i64 off; Obj *o = objAt(a, off); memset(o->data, 0, size);
    if (G->hasInitializer()) initMem(a, G->getInitializer());
    else if (nm == "__libc_single_threaded") o->data[0] = 1;
    o = objAt(a, off);
    o->ro = G->isConstant() && G->hasInitializer();
    return a;
}

// ------------------------------------------------------------------ decoding
struct Decoder {
    DFunc *d; std::unordered_map<const Value *, int> idx; std::unordered_map<const BasicBlock *, int> bb; std::unordered_map<const Constant *, int> cidx;
    int reg(const Value *v, int n) { auto it = idx.find(v); if (it != idx.end()) return it->second; int r = d->nslots; d->nslots += n; idx[v] = r; return r; }
    int op(Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto it = cidx.find(c); if (it != cidx.end()) return it->second;
            std::vector<Slot> s; constSlots(c, s);
            int r = ~(int) d->consts.size(); // consts: contiguous slots addressed downwards through get(i + k)
            // contiguous addressing: operand index -(base+1); element k is -(base+k+1)
            d->consts.insert(d->consts.end(), s.begin(), s.end());
            return cidx[c] = r;
        }
        return reg(v, nslots(v->getType()));
    }
    Edge edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.block = bb[to];
        for (auto &phi: to->phis()) { int s = op(phi.getIncomingValueForBlock(from)); e.copies.push_back({reg(&phi, nslots(phi.getType())), s, nslots(phi.getType())}); }
        return e;
    }
};
static Op binOp(unsigned o) {
    switch (o) { case Instruction::Add: return Op::ADD; case Instruction::Sub: return Op::SUB; case Instruction::Mul: return Op::MUL; case Instruction::UDiv: return Op::UDIV; case Instruction::SDiv: return Op::SDIV; case Instruction::URem: return Op::UREM;
        case Instruction::SRem: return Op::SREM; case Instruction::And: return Op::AND; case Instruction::Or: return Op::OR; case Instruction::Xor: return Op::XOR; case Instruction::Shl: return Op::SHL; case Instruction::LShr: return Op::LSHR; default: return Op::ASHR; }
}
static void decode(DFunc *d) {
    d->decoded = true; Function *F = d->F; Decoder D; D.d = d;
    for (auto &a: F->args()) D.reg(&a, nslots(a.getType()));
    d->nargs = d->nslots;
    int n = 0; for (auto &b: *F) D.bb[&b] = n++;
    for (auto &b: *F) {
        d->blockStart.push_back((int) d->code.size());
        for (auto &I: b) {
            if (isa<PHINode>(I)) { D.reg(&I, nslots(I.getType())); continue; }
            DInst x; memset(&x, 0, sizeof x); x.dst = -1; x.n = 1; Type *T = I.getType(); int ns = nslots(T);
            auto dst = [&]() { x.dst = D.reg(&I, ns); };
            unsigned oc = I.getOpcode();
            auto elemT = [&](Type *t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; };
            if (I.isBinaryOp()) {
                dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.n = ns; x.w = leafBits(elemT(T));
                switch (oc) {
                    case Instruction::FAdd: x.op = I_FBIN; x.sub = (u8) Op::FADD; break; case Instruction::FSub: x.op = I_FBIN; x.sub = (u8) Op::FSUB; break;
                    case Instruction::FMul: x.op = I_FBIN; x.sub = (u8) Op::FMUL; break; case Instruction::FDiv: x.op = I_FBIN; x.sub = (u8) Op::FDIV; break;
                    case Instruction::FRem: x.op = I_FBIN; x.sub = (u8) Op::FREM; break;
                    default: x.op = I_BIN; x.sub = (u8) binOp(oc);
                }
                if (x.op == I_FBIN && x.w == 80) { x.op = I_UNSUP; x.p = (void *) "x86_fp80 arithmetic"; }
            } else switch (oc) {
                case Instruction::FNeg: x.op = I_FNEG; dst(); x.a = D.op(I.getOperand(0)); x.n = ns; x.w = leafBits(elemT(T)); break;
                case Instruction::ICmp: x.op = I_ICMP; dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.n = ns; x.w = leafBits(elemT(I.getOperand(0)->getType())); x.sub = (u8) cast<ICmpInst>(I).getPredicate(); break;
                case Instruction::FCmp: x.op = I_FCMP; dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.n = ns; x.w = leafBits(elemT(I.getOperand(0)->getType())); x.sub = (u8) cast<FCmpInst>(I).getPredicate(); if (x.w == 80) { x.op = I_UNSUP; x.p = (void *) "x86_fp80 compare"; } break;
                case Instruction::Trunc: x.op = I_TRUNC; goto cast; case Instruction::ZExt: x.op = I_ZEXT; goto cast; case Instruction::SExt: x.op = I_SEXT; goto cast;
                case Instruction::FPTrunc: case Instruction::FPExt: x.op = I_FPCVT; goto cast;
                case Instruction::FPToSI: x.op = I_F2SI; goto cast; case Instruction::FPToUI: x.op = I_F2UI; goto cast; case Instruction::SIToFP: x.op = I_SI2F; goto cast; case Instruction::UIToFP: x.op = I_UI2F;
                cast: dst(); x.a = D.op(I.getOperand(0)); x.n = ns; x.w = leafBits(elemT(T)); x.w2 = leafBits(elemT(I.getOperand(0)->getType()));
                    if (x.w == 80 || (x.w2 == 80 )) { x.op = I_UNSUP; x.p = (void *) "x86_fp80 conversion"; }
                    break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: {
                    int wd = leafBits(T), ws = leafBits(I.getOperand(0)->getType()); dst(); x.a = D.op(I.getOperand(0)); x.w = wd; x.w2 = ws;
                    x.op = wd == ws ? I_COPY : wd < ws ? I_TRUNC : I_ZEXT; break;
                }
                case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
                    int s = nslots(I.getOperand(0)->getType()); dst(); x.a = D.op(I.getOperand(0)); x.n = ns; x.op = I_COPY;
                    if (s != ns || (oc == Instruction::BitCast && leafBits(elemT(T)) != leafBits(elemT(I.getOperand(0)->getType())))) { x.op = I_UNSUP; x.p = (void *) "vector bitcast"; if (ns > 0) D.reg(&I, ns); }
                    break;
                }
                case Instruction::Load: x.op = I_LOAD; dst(); x.a = D.op(I.getOperand(0)); x.n = ns; x.w = ns == 1 ? layout(T)->leaves[0].bits : 0; x.p = layout(T); break;
                case Instruction::Store: { x.op = I_STORE; Type *vt = I.getOperand(0)->getType(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.n = nslots(vt); x.w = x.n == 1 ? layout(vt)->leaves[0].bits : 0; x.p = layout(vt); break; }
                case Instruction::GetElementPtr: {
                    x.op = I_GEP; dst(); x.a = D.op(I.getOperand(0)); auto *gi = new GepInfo(); gi->off = 0; x.p = gi;
                    if (T->isVectorTy()) { x.op = I_UNSUP; x.p = (void *) "vector gep"; break; }
                    for (auto g = gep_type_begin(I), ge = gep_type_end(I); g != ge; ++g) {
                        Value *o = g.getOperand();
                        if (auto *st = g.getStructTypeOrNull()) gi->off += (i64) g_dl->getStructLayout(st)->getElementOffset((unsigned) cast<ConstantInt>(o)->getZExtValue());
                        else { i64 sc = (i64) g_dl->getTypeAllocSize(g.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(o)) gi->off += ci->getSExtValue() * sc; else gi->idx.push_back({D.op(o), sc, leafBits(o->getType())}); }
                    }
                    break;
                }
                case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.op = I_ALLOCA; dst(); x.imm = (i64) g_dl->getTypeAllocSize(A.getAllocatedType()); x.a = D.op(A.getArraySize()); x.w = leafBits(A.getArraySize()->getType()); break; }
                case Instruction::Select: x.op = I_SELECT; dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.c = D.op(I.getOperand(2)); x.n = ns; x.w = ns ? layout(T)->leaves[0].bits : 0; x.p = T; x.sub = elemT(T)->isPointerTy() ? 2 : elemT(T)->isFloatingPointTy() ? 1 : (T->isStructTy() ? 3 : 0); x.imm = I.getOperand(0)->getType()->isVectorTy(); break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto &CB = cast<CallBase>(I);
                    if (isa<DbgInfoIntrinsic>(I) || isa<AssumeInst>(I) || isa<LifetimeIntrinsic>(I)) { continue; }
                    x.op = I_CALL; if (ns) dst(); auto *ci = new CallInfo(); x.p = ci; x.n = ns; ci->nret = ns; ci->retw = ns == 1 ? leafBits(T) : 0;
                    if (ns >= 1 && !ci->retw) ci->retw = layout(T)->leaves[0].bits;
                    Value *cv = CB.getCalledOperand()->stripPointerCasts();
                    if (auto *f = dyn_cast<Function>(cv)) ci->direct = getFunc(f);
                    else if (CB.isInlineAsm()) ci->asmText = "asm";
                    else if (auto *al = dyn_cast<GlobalAlias>(cv)) { if (auto *f2 = dyn_cast<Function>(al->getAliasee()->stripPointerCasts())) ci->direct = getFunc(f2); else x.a = D.op(cv); }
                    else x.a = D.op(cv);
                    for (unsigned i = 0; i < CB.arg_size(); i++) {
                        Value *av = CB.getArgOperand(i); if (av->getType()->isMetadataTy()) continue;
                        ci->args.push_back({D.op(av), nslots(av->getType())}); ci->argw.push_back(leafBits(elemT(av->getType())));
                        if (CB.isByValArgument(i)) ci->byval.push_back({(u64) ci->args.size() - 1, (u64) g_dl->getTypeAllocSize(CB.getParamByValType(i))});
                    }
                    if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; ci->normal = D.edge(&b, iv->getNormalDest()); ci->unwind = D.edge(&b, iv->getUnwindDest()); }
                    break;
                }
                case Instruction::Ret: x.op = I_RET; if (I.getNumOperands()) { x.a = D.op(I.getOperand(0)); x.n = nslots(I.getOperand(0)->getType()); } else x.n = 0; break;
                case Instruction::Br: {
                    auto &B = cast<BranchInst>(I);
                    if (B.isUnconditional()) { x.op = I_BR; x.p = new Edge(D.edge(&b, B.getSuccessor(0))); }
                    else { x.op = I_CBR; x.a = D.op(B.getCondition()); auto *e = new Edge[2]; e[0] = D.edge(&b, B.getSuccessor(0)); e[1] = D.edge(&b, B.getSuccessor(1)); x.p = e; }
                    break;
                }
                case Instruction::Switch: {
                    auto &S = cast<SwitchInst>(I); x.op = I_SWITCH; x.a = D.op(S.getCondition()); x.w = leafBits(S.getCondition()->getType()); auto *si = new SwitchInfo(); x.p = si;
                    std::map<const BasicBlock *, int> di;
                    auto getE = [&](const BasicBlock *t) { auto it = di.find(t); if (it != di.end()) return it->second; int k = (int) si->edges.size(); si->edges.push_back(D.edge(&b, t)); di[t] = k; return k; };
                    si->def = getE(S.getDefaultDest()); std::map<int, std::vector<u64>> g;
                    for (auto &c: S.cases()) { int e = getE(c.getCaseSuccessor()); u64 v = c.getCaseValue()->getZExtValue(); si->map[v] = e; g[e].push_back(v); }
                    for (auto &p: g) if (p.first != si->def) si->groups.push_back({p.second, p.first});
                    break;
                }
                case Instruction::Unreachable: x.op = I_UNREACH; break;
                case Instruction::ExtractValue: case Instruction::InsertValue: {
                    bool ext = oc == Instruction::ExtractValue; Type *at = I.getOperand(0)->getType(); int base = 0;
                    ArrayRef<unsigned> ix = ext ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
                    for (unsigned q: ix) { if (auto *st = dyn_cast<StructType>(at)) { for (unsigned k = 0; k < q; k++) base += nslots(st->getElementType(k)); at = st->getElementType(q); } else { auto *ar = cast<ArrayType>(at); base += (int) q * nslots(ar->getElementType()); at = ar->getElementType(); } }
                    dst(); x.a = D.op(I.getOperand(0)); x.op = I_COPY;
                    if (ext) { x.a = x.a >= 0 ? x.a + base : x.a - base; x.n = ns; }
                    else { x.n = ns; d->code.push_back(x); DInst y; memset(&y, 0, sizeof y); y.op = I_COPY; y.dst = x.dst + base; y.a = D.op(I.getOperand(1)); y.n = nslots(at); x = y; }
                    break;
                }
                case Instruction::LandingPad: {
                    auto &L = cast<LandingPadInst>(I); x.op = I_LANDINGPAD; dst(); auto *li = new LPInfo(); li->cleanup = L.isCleanup(); x.p = li;
                    for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) li->clauses.push_back({true, constScalar(L.getClause(i)).c}); else li->clauses.push_back({false, 0}); }
                    break;
                }
                case Instruction::Resume: x.op = I_RESUME; x.a = D.op(I.getOperand(0)); break;
                case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); x.op = I_RMW; dst(); x.a = D.op(A.getPointerOperand()); x.b = D.op(A.getValOperand()); x.w = leafBits(T); x.sub = (u8) A.getOperation(); break; }
                case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); x.op = I_CMPXCHG; dst(); x.a = D.op(A.getPointerOperand()); x.b = D.op(A.getCompareOperand()); x.c = D.op(A.getNewValOperand()); x.w = leafBits(A.getNewValOperand()->getType()); break; }
                case Instruction::Fence: x.op = I_NOP; break;
                case Instruction::ExtractElement: x.op = I_EXTRACTELT; dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.n = nslots(I.getOperand(0)->getType()); x.w = leafBits(T); break;
                case Instruction::InsertElement: x.op = I_INSERTELT; dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.c = D.op(I.getOperand(2)); x.n = ns; break;
                case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); x.op = I_SHUFFLE; dst(); x.a = D.op(I.getOperand(0)); x.b = D.op(I.getOperand(1)); x.n = nslots(I.getOperand(0)->getType()); auto *m = new std::vector<int>(S.getShuffleMask().begin(), S.getShuffleMask().end()); x.p = m; break; }
                default: x.op = I_UNSUP; x.p = (void *) strdup(I.getOpcodeName()); if (ns) dst();
            }
            d->code.push_back(x);
        }
    }
    if (d->nslots > 100000) { fprintf(stderr, "huge frame %s\n", d->name.c_str()); }
}
static DFunc *getFunc(Function *F) {
    auto it = g_funcs.find(F); if (it != g_funcs.end()) return it->second;
    auto *d = new DFunc(); d->F = F; d->name = F->getName().str(); d->id = (int) g_funcNames.size(); g_funcNames.push_back(d->name); g_funcs[F] = d;
    d->isDecl = F->isDeclaration();
    d->isHappy = d->name.compare(0, 11, "_ZN7happyml") == 0 || d->name.compare(0, 12, "_ZNK7happyml") == 0;
    auto h = g_handlers.find(d->name.rfind("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIc", 0) == 0 ? "sx_to_xstring" : d->name); if (h != g_handlers.end()) d->handler = h->second;
    return d;
}

// ------------------------------------------------------------------ exceptions
static std::string objName(u64 a) { u64 id = a >> ADDR_SHIFT; return id && id < g_objs.size() && g_objs[id].name ? g_objs[id].name : ""; }
static const std::map<std::string, std::string> kExtBase = {
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
// is t == base or derived from it; off gets the base offset
static bool isSubtype(u64 t, u64 base, i64 &off) {
    if (t == base) return true;
    if (!t) return false;
    std::string n = objName(t), bn = objName(base);
    if (!n.empty() && n == bn) return true;
    auto it = kExtBase.find(n);
    u64 vt = 0; { i64 o; Obj *ob = objAt(t, o); if (ob && ob->alive && ob->size >= 8) memcpy(&vt, ob->data + o, 8); }
    std::string vn = objName(vt);
    if (vn.find("__si_class_type_info") != std::string::npos) { Slot b = loadC(t + 16, 64); return isSubtype(b.c, base, off); }
    if (vn.find("__vmi_class_type_info") != std::string::npos) {
        u64 cnt = loadC(t + 20, 32).c;
        for (u64 i = 0; i < cnt; i++) { u64 b = loadC(t + 24 + 16 * i, 64).c; i64 fl = (i64) loadC(t + 32 + 16 * i, 64).c; i64 o2 = off + (fl >> 8); if (fl & 1) continue; i64 save = o2; if (isSubtype(b, base, save)) { off = save; return true; } }
        return false;
    }
    if (it != kExtBase.end()) { if (it->second == bn) return true; auto it2 = kExtBase.find(it->second); while (it2 != kExtBase.end()) { if (it2->second == bn) return true; it2 = kExtBase.find(it2->second); } }
    return false;
}
static u64 typeId(u64 tinfo) { return tinfo ? (tinfo >> ADDR_SHIFT) : 0x7fffff; }

// ------------------------------------------------------------------ execution
static int callFunc(DFunc *f, CallInfo *ci, Slot *args, int nargs, Slot *ret);

static inline void opBin(Op op, int w, const Slot &a, const Slot &b, Slot &r) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, m = w >= 64 ? ~0ull : ((1ull << w) - 1);
        switch (op) {
            case Op::ADD: r = {(x + y) & m, nullptr}; return; case Op::SUB: r = {(x - y) & m, nullptr}; return; case Op::MUL: r = {(x * y) & m, nullptr}; return;
            case Op::AND: r = {x & y, nullptr}; return; case Op::OR: r = {x | y, nullptr}; return; case Op::XOR: r = {x ^ y, nullptr}; return;
            case Op::SHL: r = {y >= (u64) w ? 0 : (x << y) & m, nullptr}; return; case Op::LSHR: r = {y >= (u64) w ? 0 : x >> y, nullptr}; return;
            case Op::ASHR: r = {(u64) (sx64(x, w) >> (y >= (u64) w ? w - 1 : y)) & m, nullptr}; return;
            case Op::UDIV: if (!y) crash("div-by-zero"); r = {x / y, nullptr}; return; case Op::UREM: if (!y) crash("div-by-zero"); r = {x % y, nullptr}; return;
            case Op::SDIV: { if (!y) crash("div-by-zero"); i64 p = sx64(x, w), q = sx64(y, w); if (q == -1) { if (p == sx64(1ull << (w - 1), w)) crash("div-overflow"); r = {(u64) (-(u64) p) & m, nullptr}; } else r = {(u64) (p / q) & m, nullptr}; return; }
            case Op::SREM: { if (!y) crash("div-by-zero"); i64 p = sx64(x, w), q = sx64(y, w); r = {q == -1 ? 0 : (u64) (p % q) & m, nullptr}; return; }
            default: break;
        }
    }
    E x = toE(a, w), y = toE(b, w);
    if (op == Op::UDIV || op == Op::UREM || op == Op::SDIV || op == Op::SREM) { if (branch(mkBin(Op::EQ, y, mkConst(0, w)))) crash("div-by-zero"); }
    r = fromE(mkBin(op, x, y));
}
static E icmpE(int p, E a, E b) {
    switch (p) { case CmpInst::ICMP_EQ: return mkBin(Op::EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(Op::EQ, a, b)); case CmpInst::ICMP_UGT: return mkBin(Op::ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(Op::ULE, b, a);
        case CmpInst::ICMP_ULT: return mkBin(Op::ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(Op::ULE, a, b); case CmpInst::ICMP_SGT: return mkBin(Op::SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(Op::SLE, b, a);
        case CmpInst::ICMP_SLT: return mkBin(Op::SLT, a, b); default: return mkBin(Op::SLE, a, b); }
}
static E fcmpE(int p, E a, E b) {
    auto nan = [&]() { return mkFCmp(Op::FNAN, a, b); }; auto O = [&](E x, E y) { return mkBin(Op::OR, x, y); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
        case CmpInst::FCMP_OEQ: return mkFCmp(Op::FEQ, a, b); case CmpInst::FCMP_OGT: return mkFCmp(Op::FLT, b, a); case CmpInst::FCMP_OGE: return mkFCmp(Op::FLE, b, a); case CmpInst::FCMP_OLT: return mkFCmp(Op::FLT, a, b); case CmpInst::FCMP_OLE: return mkFCmp(Op::FLE, a, b);
        case CmpInst::FCMP_ONE: return mkBin(Op::AND, mkNot(mkFCmp(Op::FEQ, a, b)), mkNot(nan())); case CmpInst::FCMP_ORD: return mkNot(nan()); case CmpInst::FCMP_UNO: return nan();
        case CmpInst::FCMP_UEQ: return O(mkFCmp(Op::FEQ, a, b), nan()); case CmpInst::FCMP_UGT: return mkNot(mkFCmp(Op::FLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkFCmp(Op::FLT, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkFCmp(Op::FLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkFCmp(Op::FLT, b, a));
        default: return mkNot(mkFCmp(Op::FEQ, a, b));
    }
}
static bool isPtrConcrete(const Slot &s) { return !s.e; }

static int exec(DFunc *f, Slot *argv, Slot *ret) {
    if (!f->decoded) decode(f);
    g_sh->funcHit[f->id & 0xffff] = 1;
    Slot *regs = g_regTop; g_regTop += f->nslots;
    if (g_regTop > g_regEnd || g_stack.size() > 4000) { if (g_stack.size() > 4000) crash("stack-overflow"); unsupported("register stack overflow"); }
    if (f->nargs) memcpy(regs, argv, sizeof(Slot) * f->nargs);
    g_stack.push_back(f);
    std::vector<u64> allocas; int rc = RC_OK;
    const DInst *code = f->code.data(); Slot *consts = f->consts.data(); int pc = 0;
    Slot tmp[64];
#define GET(i) ((i) >= 0 ? regs[i] : consts[~(i)])
#define GETN(i, k) ((i) >= 0 ? regs[(i) + (k)] : consts[~(i) + (k)])
    auto jump = [&](const Edge &e) {
        size_t n = e.copies.size();
        if (n == 1) { auto &c = e.copies[0]; for (int k = 0; k < c[2]; k++) regs[c[0] + k] = GETN(c[1], k); }
        else if (n) {
            std::vector<Slot> big; Slot *t = tmp; int tot = 0; for (auto &c: e.copies) tot += c[2];
            if (tot > 64) { big.resize(tot); t = big.data(); }
            int q = 0; for (auto &c: e.copies) for (int k = 0; k < c[2]; k++) t[q++] = GETN(c[1], k);
            q = 0; for (auto &c: e.copies) for (int k = 0; k < c[2]; k++) regs[c[0] + k] = t[q++];
        }
        pc = f->blockStart[e.block];
    };
    while (true) {
        const DInst &x = code[pc++];
        if ((++g_steps & 0xfff) == 0) { if (g_steps > g_cfg.stepLimit && g_inHarness) endPath("bound", "step limit"); if ((g_steps & 0x3fff) == 0 && g_inHarness && budgetGone() && now() > g_sh->deadline + 20) { SHADD(truncated, 1); endPath("bound", "time budget"); } }
        switch (x.op) {
            case I_NOP: break;
            case I_BIN: for (int k = 0; k < x.n; k++) { Slot r; opBin((Op) x.sub, x.w, GETN(x.a, k), GETN(x.b, k), r); regs[x.dst + k] = r; } break;
            case I_FBIN: for (int k = 0; k < x.n; k++) {
                    const Slot &a = GETN(x.a, k), &b = GETN(x.b, k);
                    if (!a.e && !b.e) regs[x.dst + k] = {(u64) evalFloatOp((Op) x.sub, x.w, a.c, b.c, 0, x.w), nullptr};
                    else regs[x.dst + k] = fromE(mkFBin((Op) x.sub, toE(a, x.w), toE(b, x.w)));
                } break;
            case I_FNEG: for (int k = 0; k < x.n; k++) { const Slot &a = GETN(x.a, k); if (!a.e) regs[x.dst + k] = {a.c ^ (1ull << (x.w - 1)), nullptr}; else regs[x.dst + k] = fromE(mkFUn(Op::FNEG_, toE(a, x.w))); } break;
            case I_ICMP: for (int k = 0; k < x.n; k++) {
                    const Slot &a = GETN(x.a, k), &b = GETN(x.b, k);
                    if (!a.e && !b.e) {
                        u64 p = a.c, q = b.c; bool v;
                        switch (x.sub) { case CmpInst::ICMP_EQ: v = p == q; break; case CmpInst::ICMP_NE: v = p != q; break; case CmpInst::ICMP_UGT: v = p > q; break; case CmpInst::ICMP_UGE: v = p >= q; break; case CmpInst::ICMP_ULT: v = p < q; break; case CmpInst::ICMP_ULE: v = p <= q; break;
                            case CmpInst::ICMP_SGT: v = sx64(p, x.w) > sx64(q, x.w); break; case CmpInst::ICMP_SGE: v = sx64(p, x.w) >= sx64(q, x.w); break; case CmpInst::ICMP_SLT: v = sx64(p, x.w) < sx64(q, x.w); break; default: v = sx64(p, x.w) <= sx64(q, x.w); }
                        regs[x.dst + k] = {v, nullptr};
                    } else regs[x.dst + k] = fromE(icmpE(x.sub, toE(a, x.w), toE(b, x.w)));
                } break;
            case I_FCMP: for (int k = 0; k < x.n; k++) { const Slot &a = GETN(x.a, k), &b = GETN(x.b, k); regs[x.dst + k] = fromE(fcmpE(x.sub, toE(a, x.w), toE(b, x.w))); } break;
            case I_TRUNC: for (int k = 0; k < x.n; k++) { const Slot &a = GETN(x.a, k); if (!a.e) regs[x.dst + k] = {x.w >= 64 ? a.c : a.c & ((1ull << x.w) - 1), nullptr}; else regs[x.dst + k] = fromE(mkExtract(a.e, 0, x.w)); } break;
            case I_ZEXT: for (int k = 0; k < x.n; k++) { const Slot &a = GETN(x.a, k); if (!a.e && x.w <= 64) regs[x.dst + k] = a; else regs[x.dst + k] = fromE(mkZext(toE(a, x.w2), x.w)); } break;
            case I_SEXT: for (int k = 0; k < x.n; k++) { const Slot &a = GETN(x.a, k); if (!a.e && x.w <= 64) { u64 v = (u64) sx64(a.c, x.w2); regs[x.dst + k] = {x.w >= 64 ? v : v & ((1ull << x.w) - 1), nullptr}; } else regs[x.dst + k] = fromE(mkSext(toE(a, x.w2), x.w)); } break;
            case I_FPCVT: for (int k = 0; k < x.n; k++) regs[x.dst + k] = fromE(mkFCvt(toE(GETN(x.a, k), x.w2), x.w)); break;
            case I_F2SI: for (int k = 0; k < x.n; k++) regs[x.dst + k] = fromE(mkF2I(Op::F2SI, toE(GETN(x.a, k), x.w2), x.w)); break;
            case I_F2UI: for (int k = 0; k < x.n; k++) regs[x.dst + k] = fromE(mkF2I(Op::F2UI, toE(GETN(x.a, k), x.w2), x.w)); break;
            case I_SI2F: for (int k = 0; k < x.n; k++) regs[x.dst + k] = fromE(mkI2F(Op::SI2F, toE(GETN(x.a, k), x.w2), x.w)); break;
            case I_UI2F: for (int k = 0; k < x.n; k++) regs[x.dst + k] = fromE(mkI2F(Op::UI2F, toE(GETN(x.a, k), x.w2), x.w)); break;
            case I_COPY: if (x.n == 1) regs[x.dst] = GET(x.a); else { std::vector<Slot> t(x.n); for (int k = 0; k < x.n; k++) t[k] = GETN(x.a, k); for (int k = 0; k < x.n; k++) regs[x.dst + k] = t[k]; } break;
            case I_LOAD:
                if (x.n == 1) regs[x.dst] = loadS(GET(x.a), x.w);
                else { u64 a = concretize(GET(x.a), 64); auto *l = (Layout *) x.p; for (int k = 0; k < x.n; k++) regs[x.dst + k] = loadC(a + l->leaves[k].off, l->leaves[k].bits); }
                break;
            case I_STORE:
                if (x.n == 1) storeS(GET(x.b), GET(x.a), x.w);
                else { u64 a = concretize(GET(x.b), 64); auto *l = (Layout *) x.p; for (int k = 0; k < x.n; k++) storeC(a + l->leaves[k].off, GETN(x.a, k), l->leaves[k].bits); }
                break;
            case I_GEP: {
                auto *g = (GepInfo *) x.p; const Slot &b = GET(x.a);
                bool sym = b.e != nullptr; for (auto &ix: g->idx) if (GET((int) ix[0]).e) sym = true;
                if (!sym) { u64 a = b.c + (u64) g->off; for (auto &ix: g->idx) a += (u64) sx64(GET((int) ix[0]).c, (int) ix[2]) * (u64) ix[1]; regs[x.dst] = {a, nullptr}; }
                else {
                    E a = toE(b, 64);
                    for (auto &ix: g->idx) { E i = mkSext(toE(GET((int) ix[0]), (int) ix[2]), 64); if (i->w > 64) i = mkExtract(i, 0, 64); a = mkBin(Op::ADD, a, mkBin(Op::MUL, i, mkConst((u64) ix[1], 64))); }
                    regs[x.dst] = fromE(mkBin(Op::ADD, a, mkConst((u64) g->off, 64)));
                }
                break;
            }
            case I_ALLOCA: { u64 n = concretize(GET(x.a), x.w); u64 a = newObj((u64) x.imm * n, OK_STACK, f->name.c_str()); allocas.push_back(a); regs[x.dst] = {a, nullptr}; break; }
            case I_SELECT: {
                if (x.imm) { for (int k = 0; k < x.n; k++) { const Slot &c = GETN(x.a, k); if (!c.e) regs[x.dst + k] = c.c ? GETN(x.b, k) : GETN(x.c, k); else regs[x.dst + k] = fromE(mkIte(c.e, toE(GETN(x.b, k), x.w), toE(GETN(x.c, k), x.w))); } break; }
                Slot c = GET(x.a);
                if (c.e && (x.sub >= 2)) c = {branch(c.e), nullptr};
                if (!c.e) { Slot t[16]; std::vector<Slot> tv; Slot *tp = t; if (x.n > 16) { tv.resize(x.n); tp = tv.data(); } for (int k = 0; k < x.n; k++) tp[k] = c.c ? GETN(x.b, k) : GETN(x.c, k); for (int k = 0; k < x.n; k++) regs[x.dst + k] = tp[k]; }
                else for (int k = 0; k < x.n; k++) { E a = toE(GETN(x.b, k), x.w), b = toE(GETN(x.c, k), x.w); regs[x.dst + k] = fromE(x.sub == 1 ? mkFIte(c.e, a, b) : mkIte(c.e, a, b)); }
                break;
            }
            case I_BR: jump(*(Edge *) x.p); break;
            case I_CBR: { const Slot &c = GET(x.a); bool v = c.e ? branch(c.e) : c.c != 0; jump(((Edge *) x.p)[v ? 0 : 1]); break; }
            case I_SWITCH: {
                auto *si = (SwitchInfo *) x.p; const Slot &c = GET(x.a); int e = si->def;
                if (!c.e) { auto it = si->map.find(c.c); if (it != si->map.end()) e = it->second; }
                else { for (auto &g: si->groups) { E cond = mkFalse(); for (u64 v: g.first) cond = mkBin(Op::OR, cond, mkBin(Op::EQ, c.e, mkConst(v, x.w))); if (branch(cond)) { e = g.second; break; } } }
                jump(si->edges[e]); break;
            }
            case I_RET: for (int k = 0; k < x.n; k++) ret[k] = GETN(x.a, k); goto done;
            case I_UNREACH: crash("unreachable");
            case I_CALL: {
                auto *ci = (CallInfo *) x.p; DFunc *cf = ci->direct;
                if (!cf) {
                    if (!ci->asmText.empty()) { if (x.n == 0) break; unsupported("inline asm"); }
                    u64 a = concretize(GET(x.a), 64); u64 id = a >> ADDR_SHIFT;
                    if (a < 4096) crash("null-call");
                    if (id >= g_objs.size() || g_objs[id].kind != OK_FUNC) { std::string nm = objName(a); if (!nm.empty()) unsupported("call through unresolved pointer into " + nm); crash("wild-call", hex(a)); }
                    cf = (DFunc *) g_objs[id].fn;
                }
                Slot av[48]; std::vector<Slot> big; Slot *ap = av; int n = 0, tot = 0; for (auto &q: ci->args) tot += q[1];
                if (tot > 48) { big.resize(tot); ap = big.data(); }
                for (auto &q: ci->args) for (int k = 0; k < q[1]; k++) ap[n++] = GETN(q[0], k);
                for (auto &bv: ci->byval) { int si = 0; for (u64 i = 0; i < bv[0]; i++) si += ci->args[i][1]; u64 o = newObj(bv[1], OK_STACK, "byval"); allocas.push_back(o); copyMem(o, concretize(ap[si], 64), bv[1]); ap[si] = {o, nullptr}; }
                Slot rb[16]; std::vector<Slot> rbig; Slot *rp = rb; if (ci->nret > 16) { rbig.resize(ci->nret); rp = rbig.data(); }
                for (int k = 0; k < ci->nret; k++) rp[k] = {0, nullptr};
                int r = callFunc(cf, ci, ap, n, rp);
                if (r == RC_THROW) { if (ci->invoke) { jump(ci->unwind); break; } rc = RC_THROW; goto done; }
                for (int k = 0; k < ci->nret; k++) regs[x.dst + k] = rp[k];
                if (ci->invoke) jump(ci->normal);
                break;
            }
            case I_LANDINGPAD: {
                auto *li = (LPInfo *) x.p; u64 sel = 0; bool match = false; Exc &ex = g_excs[g_curExc];
                for (auto &c: li->clauses) { if (!c.first) continue; i64 off = 0; if (c.second == 0 || isSubtype(ex.tinfo, c.second, off)) { match = true; sel = typeId(c.second); break; } }
                if (!match && !li->cleanup) { rc = RC_THROW; goto done; }
                regs[x.dst] = {g_curExc, nullptr}; regs[x.dst + 1] = {match ? sel : 0, nullptr};
                break;
            }
            case I_RESUME: g_curExc = GET(x.a).c; rc = RC_THROW; goto done;
            case I_RMW: {
                Slot old = loadS(GET(x.a), x.w); Slot b = GET(x.b), r;
                switch (x.sub) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: opBin(Op::ADD, x.w, old, b, r); break; case AtomicRMWInst::Sub: opBin(Op::SUB, x.w, old, b, r); break; case AtomicRMWInst::And: opBin(Op::AND, x.w, old, b, r); break; case AtomicRMWInst::Or: opBin(Op::OR, x.w, old, b, r); break; case AtomicRMWInst::Xor: opBin(Op::XOR, x.w, old, b, r); break; default: unsupported("atomicrmw"); }
                storeS(GET(x.a), r, x.w); regs[x.dst] = old; break;
            }
            case I_CMPXCHG: {
                Slot old = loadS(GET(x.a), x.w); E eq = mkBin(Op::EQ, toE(old, x.w), toE(GET(x.b), x.w)); bool v = branch(eq);
                if (v) storeS(GET(x.a), GET(x.c), x.w); regs[x.dst] = old; regs[x.dst + 1] = {v, nullptr}; break;
            }
            case I_EXTRACTELT: { u64 i = concretize(GET(x.b), 64); if (i >= (u64) x.n) i = 0; regs[x.dst] = GETN(x.a, (int) i); break; }
            case I_INSERTELT: { u64 i = concretize(GET(x.c), 64); Slot v = GET(x.b); std::vector<Slot> t(x.n); for (int k = 0; k < x.n; k++) t[k] = GETN(x.a, k); if (i < (u64) x.n) t[i] = v; for (int k = 0; k < x.n; k++) regs[x.dst + k] = t[k]; break; }
            case I_SHUFFLE: { auto *m = (std::vector<int> *) x.p; std::vector<Slot> t; for (int q: *m) t.push_back(q < 0 ? Slot{0, nullptr} : q < x.n ? GETN(x.a, q) : GETN(x.b, q - x.n)); for (size_t k = 0; k < t.size(); k++) regs[x.dst + k] = t[k]; break; }
            default: unsupported(std::string("instruction ") + (x.p ? (const char *) x.p : "?"));
        }
    }
done:
    for (u64 a: allocas) killObj(a);
    g_regTop = regs; g_stack.pop_back();
    return rc;
}

// ------------------------------------------------------------------ builtin functions
#define H(name) static int name(DFunc *self, CallInfo *ci, Slot *a, int n, Slot *r)
static Slot fconstSlot(double d, int w) { if (w == 32) { float f = (float) d; uint32_t b; memcpy(&b, &f, 4); return {b, nullptr}; } u64 b; memcpy(&b, &d, 8); return {b, nullptr}; }
static int throwObj(const char *helper) { // call an rt function that throws
    Function *F = g_mod->getFunction(helper); if (!F) unsupported(std::string("missing ") + helper);
    return exec(getFunc(F), nullptr, nullptr);
}
static int doAlloc(Slot s, ObjKind k, Slot *r, bool nothrow) {
    u64 sz = concretize(s, 64);
    if (sz > (1ull << 40)) { if (nothrow) { r[0] = {0, nullptr}; return RC_OK; } return throwObj("sx_throw_bad_alloc"); }
    r[0] = {newObj(sz, k), nullptr}; return RC_OK;
}
static void doFree(Slot s, ObjKind k) {
    u64 a = concretize(s, 64); if (!a) return; i64 off; Obj *o = objAt(a, off);
    if (!o || (a >> ADDR_SHIFT) == 0) crash("bad-free", hex(a));
    if (!o->alive) crash("double-free");
    if (off != 0 || (o->kind != OK_HEAP_NEW && o->kind != OK_HEAP_NEWARR && o->kind != OK_HEAP_MALLOC)) crash("bad-free");
    if (o->kind != k) crash("alloc-dealloc-mismatch");
    killObj(a);
}
H(h_new) { return doAlloc(a[0], OK_HEAP_NEW, r, false); }
H(h_newarr) { return doAlloc(a[0], OK_HEAP_NEWARR, r, false); }
H(h_newnt) { return doAlloc(a[0], OK_HEAP_NEW, r, true); }
H(h_malloc) { return doAlloc(a[0], OK_HEAP_MALLOC, r, true); }
H(h_calloc) { u64 s = concretize(a[0], 64) * concretize(a[1], 64); doAlloc({s, nullptr}, OK_HEAP_MALLOC, r, true); i64 o; if (r[0].c) memset(objAt(r[0].c, o)->data, 0, s); return RC_OK; }
H(h_realloc) { u64 p = concretize(a[0], 64), s = concretize(a[1], 64); doAlloc({s, nullptr}, OK_HEAP_MALLOC, r, true); if (p) { i64 o; u64 os = objAt(p, o)->size; copyMem(r[0].c, p, std::min(os, s)); doFree({p, nullptr}, OK_HEAP_MALLOC); } return RC_OK; }
H(h_delete) { doFree(a[0], OK_HEAP_NEW); return RC_OK; }
H(h_deletearr) { doFree(a[0], OK_HEAP_NEWARR); return RC_OK; }
H(h_free) { doFree(a[0], OK_HEAP_MALLOC); return RC_OK; }
H(h_memcpy) { u64 len = concretize(a[2], 64); if (len) copyMem(concretize(a[0], 64), concretize(a[1], 64), len); if (ci->nret) r[0] = a[0]; return RC_OK; }
H(h_memset) {
    u64 len = concretize(a[2], 64); if (ci->nret) r[0] = a[0]; if (!len) return RC_OK; u64 d = concretize(a[0], 64);
    Slot v = a[1]; if (ci->argw[1] > 8) v = v.e ? fromE(mkExtract(v.e, 0, 8)) : Slot{v.c & 0xff, nullptr};
    if (v.e) { for (u64 i = 0; i < len; i++) storeC(d + i, v, 8); }
    else { i64 off; Obj &o = access(d, len, true, off); memset(o.data + off, (int) v.c, len); if (o.sym) for (u64 i = 0; i < len; i++) o.sym[off + i].e = nullptr; }
    return RC_OK;
}
H(h_memcmp) { // also bcmp
    u64 len = concretize(a[2], 64); u64 p = len ? concretize(a[0], 64) : 0, q = len ? concretize(a[1], 64) : 0; bool b = self->name == "bcmp";
    if (len) { i64 o; access(p, len, false, o); access(q, len, false, o); }
    E res = mkConst(0, 32);
    for (i64 i = (i64) len - 1; i >= 0; i--) {
        Slot x = loadC(p + i, 8), y = loadC(q + i, 8);
        if (!x.e && !y.e) { if (x.c != y.c) res = mkConst(b ? 1 : (u64) (x.c < y.c ? -1 : 1), 32); continue; }
        E ex = toE(x, 8), ey = toE(y, 8); E eq = mkBin(Op::EQ, ex, ey);
        if (b) res = mkIte(eq, res, mkConst(1, 32)); else res = mkIte(eq, res, mkIte(mkBin(Op::ULT, ex, ey), mkConst((u64) -1, 32), mkConst(1, 32)));
    }
    r[0] = fromE(res); return RC_OK;
}
H(h_strlen) { u64 p = concretize(a[0], 64), i = 0; while (true) { Slot b = loadC(p + i, 8); bool z = b.e ? branch(mkBin(Op::EQ, b.e, mkConst(0, 8))) : b.c == 0; if (z) break; i++; } r[0] = {i, nullptr}; return RC_OK; }
H(h_memchr) {
    u64 len = concretize(a[2], 64), p = concretize(a[0], 64); Slot c = a[1]; E ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(c.c, 8);
    for (u64 i = 0; i < len; i++) { Slot b = loadC(p + i, 8); if (branch(mkBin(Op::EQ, toE(b, 8), ce))) { r[0] = {p + i, nullptr}; return RC_OK; } }
    r[0] = {0, nullptr}; return RC_OK;
}
H(h_strcmp) {
    u64 p = concretize(a[0], 64), q = concretize(a[1], 64); u64 lim = self->name == "strncmp" ? concretize(a[2], 64) : ~0ull;
    for (u64 i = 0; i < lim; i++) { Slot x = loadC(p + i, 8), y = loadC(q + i, 8); E ex = toE(x, 8), ey = toE(y, 8); if (!branch(mkBin(Op::EQ, ex, ey))) { r[0] = {branch(mkBin(Op::ULT, ex, ey)) ? 0xffffffffu : 1u, nullptr}; return RC_OK; } if (branch(mkBin(Op::EQ, ex, mkConst(0, 8)))) break; }
    r[0] = {0, nullptr}; return RC_OK;
}
H(h_nop) { for (int i = 0; i < ci->nret; i++) r[i] = {0, nullptr}; return RC_OK; }
H(h_arg0) { r[0] = a[0]; return RC_OK; }
H(h_abort) { crash("abort"); }
H(h_terminate) { crash("terminate"); }
H(h_exit) { crash("exit"); }
H(h_pure) { crash("pure-virtual"); }
H(h_guard_acquire) { u64 g = a[0].c; Slot b = loadC(g, 8); if (b.c) { r[0] = {0, nullptr}; return RC_OK; } r[0] = {1, nullptr}; return RC_OK; }
H(h_guard_release) { storeC(a[0].c, {1, nullptr}, 8); return RC_OK; }
H(h_alloc_exc) { r[0] = {newObj(concretize(a[0], 64), OK_EXC), nullptr}; return RC_OK; }
H(h_free_exc) { killObj(a[0].c); return RC_OK; }
H(h_throw) { g_excs[a[0].c] = {a[0].c, a[1].c, 0, a[2].c}; g_curExc = a[0].c; g_throwAt = happyFrame(); g_throwStack = stackStr(); return RC_THROW; }
H(h_begin_catch) { Exc &e = g_excs[a[0].c]; e.handlers++; g_excStack.push_back({a[0].c, nullptr}); r[0] = a[0]; return RC_OK; }
H(h_end_catch) {
    if (g_excStack.empty()) return RC_OK; u64 p = g_excStack.back().c; g_excStack.pop_back(); Exc &e = g_excs[p]; if (--e.handlers > 0) return RC_OK;
    if (e.handlers < 0) { e.handlers = 0; return RC_OK; }
    if (g_curExc == p && e.handlers == -99) return RC_OK;
    if (e.dtor) { u64 id = e.dtor >> ADDR_SHIFT; Slot arg{p, nullptr}; Slot rr; u64 d = e.dtor; (void) d; int rc = callFunc((DFunc *) g_objs[id].fn, nullptr, &arg, 1, &rr); if (rc) return rc; }
    g_excs.erase(p); killObj(p); return RC_OK;
}
H(h_rethrow) { if (g_excStack.empty()) crash("terminate"); u64 p = g_excStack.back().c; g_excs[p].handlers += 1; /* end_catch of the current handler will drop it */ g_curExc = p; return RC_THROW; }
H(h_get_exc_ptr) { r[0] = a[0]; return RC_OK; }
H(h_typeid_for) { r[0] = {typeId(a[0].c), nullptr}; return RC_OK; }
H(h_dyncast) {
    u64 p = concretize(a[0], 64); if (!p) { r[0] = {0, nullptr}; return RC_OK; }
    u64 vt = concretize(loadC(p, 64), 64); i64 top = (i64) loadC(vt - 16, 64).c; u64 ti = loadC(vt - 8, 64).c; i64 off = 0;
    if (isSubtype(ti, a[2].c, off)) r[0] = {p + (u64) top + (u64) off, nullptr}; else r[0] = {0, nullptr};
    return RC_OK;
}
// math
static Slot fun1(Op op, const Slot &a, int w, u128 c = 0) { return fromE(mkFUn(op, toE(a, w), c)); }
H(h_sqrt) { r[0] = fun1(Op::FSQRT, a[0], ci->retw); return RC_OK; }
H(h_fabs) { r[0] = fun1(Op::FABS_, a[0], ci->retw); return RC_OK; }
H(h_floor) { r[0] = fun1(Op::FRND, a[0], ci->retw, R_FLOOR); return RC_OK; }
H(h_ceil) { r[0] = fun1(Op::FRND, a[0], ci->retw, R_CEIL); return RC_OK; }
H(h_trunc) { r[0] = fun1(Op::FRND, a[0], ci->retw, R_TRUNC); return RC_OK; }
H(h_round) { r[0] = fun1(Op::FRND, a[0], ci->retw, R_AWAY); return RC_OK; }
H(h_rint) { r[0] = fun1(Op::FRND, a[0], ci->retw, R_NEAR_EVEN); return RC_OK; }
H(h_lround) { int w = ci->argw[0]; E x = mkFUn(Op::FRND, toE(a[0], w), R_AWAY); r[0] = fromE(mkF2I(Op::F2SI, x, 64)); return RC_OK; }
H(h_exp) { r[0] = fromE(mkUF(UF_EXP, toE(a[0], ci->retw))); return RC_OK; }
H(h_log) { r[0] = fromE(mkUF(UF_LOG, toE(a[0], ci->retw))); return RC_OK; }
H(h_tanh) { r[0] = fromE(mkUF(UF_TANH, toE(a[0], ci->retw))); return RC_OK; }
H(h_sin) { r[0] = fromE(mkUF(UF_SIN, toE(a[0], ci->retw))); return RC_OK; }
H(h_cos) { r[0] = fromE(mkUF(UF_COS, toE(a[0], ci->retw))); return RC_OK; }
H(h_log2) { r[0] = fromE(mkUF(UF_LOG2, toE(a[0], ci->retw))); return RC_OK; }
H(h_exp2) { r[0] = fromE(mkUF(UF_EXP2, toE(a[0], ci->retw))); return RC_OK; }
H(h_pow) { r[0] = fromE(mkUF(UF_POW, toE(a[0], ci->retw), toE(a[1], ci->argw[1]))); return RC_OK; }
H(h_powi) { // llvm.powi: repeated multiplication for small constants
    int w = ci->retw; i64 e = sx64(concretize(a[1], ci->argw[1]), ci->argw[1]); if (e < 0 || e > 64) unsupported("powi"); E x = toE(a[0], w), v = toE(fconstSlot(1, w), w); for (i64 i = 0; i < e; i++) v = mkFBin(Op::FMUL, v, x); r[0] = fromE(v); return RC_OK;
}
H(h_fmod) { r[0] = fromE(mkFBin(Op::FREM, toE(a[0], ci->retw), toE(a[1], ci->retw))); return RC_OK; }
H(h_fmax) { int w = ci->retw; E x = toE(a[0], w), y = toE(a[1], w); E v = mkFIte(mkFCmp(Op::FLT, x, y), y, x); v = mkFIte(mkFCmp(Op::FNAN, x, x), y, v); r[0] = fromE(v); return RC_OK; }
H(h_fmin) { int w = ci->retw; E x = toE(a[0], w), y = toE(a[1], w); E v = mkFIte(mkFCmp(Op::FLT, y, x), y, x); v = mkFIte(mkFCmp(Op::FNAN, x, x), y, v); r[0] = fromE(v); return RC_OK; }
H(h_copysign) { int w = ci->retw; E x = toE(a[0], w), y = toE(a[1], w); E m = mkConst((u128) 1 << (w - 1), w); r[0] = fromE(mkBin(Op::OR, mkBin(Op::AND, x, mkNot(m)), mkBin(Op::AND, y, m))); return RC_OK; }
H(h_ldexp) { int w = ci->retw; i64 e = sx64(concretize(a[1], 32), 32); double d = ldexp(1.0, (int) e); r[0] = fromE(mkFBin(Op::FMUL, toE(a[0], w), toE(fconstSlot(d, w), w))); return RC_OK; }
H(h_fmuladd) { int w = ci->retw; r[0] = fromE(mkFBin(Op::FADD, mkFBin(Op::FMUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w))); return RC_OK; }
H(h_fpclass) {
    int w = ci->argw[0]; u64 t = concretize(a[1], 32); E x = toE(a[0], w); E c = mkFalse(); E inf = toE(fconstSlot(INFINITY, w), w), ninf = toE(fconstSlot(-INFINITY, w), w); E z = mkConst(0, w), nz = mkConst((u128) 1 << (w - 1), w);
    E ab = mkBin(Op::AND, x, mkConst(maskw(w) >> 1, w)); E nan = mkBin(Op::ULT, inf, ab); E isinf = mkBin(Op::EQ, ab, inf), iszero = mkBin(Op::EQ, ab, z); E sub = mkBin(Op::AND, mkBin(Op::ULT, ab, mkConst((u128) 1 << (w == 32 ? 23 : 52), w)), mkNot(iszero));
    E fin = mkNot(mkBin(Op::OR, nan, isinf)); E norm = mkBin(Op::AND, fin, mkNot(mkBin(Op::OR, sub, iszero))); E neg = mkNot(mkBin(Op::EQ, mkBin(Op::AND, x, nz), z)); E pos = mkNot(neg);
    if (floatView(x, *new Poly())) { nan = mkFalse(); }
    auto add = [&](int bit, E e) { if (t & bit) c = mkBin(Op::OR, c, e); }; auto A = [&](E p, E q) { return mkBin(Op::AND, p, q); };
    if ((t & 3) == 3) add(3, nan); else if (t & 3) add(3, nan);
    add(4, A(isinf, neg)); add(8, A(norm, neg)); add(16, A(sub, neg)); add(32, A(iszero, neg)); add(64, A(iszero, pos)); add(128, A(sub, pos)); add(256, A(norm, pos)); add(512, A(isinf, pos));
    r[0] = fromE(c); return RC_OK;
}
// integer intrinsics
H(h_smax) { int w = ci->retw; for (int k = 0; k < ci->nret; k++) { E x = toE(a[k], w), y = toE(a[ci->nret + k], w); r[k] = fromE(mkIte(mkBin(Op::SLT, x, y), y, x)); } return RC_OK; }
H(h_smin) { int w = ci->retw; for (int k = 0; k < ci->nret; k++) { E x = toE(a[k], w), y = toE(a[ci->nret + k], w); r[k] = fromE(mkIte(mkBin(Op::SLT, x, y), x, y)); } return RC_OK; }
H(h_umax) { int w = ci->retw; for (int k = 0; k < ci->nret; k++) { E x = toE(a[k], w), y = toE(a[ci->nret + k], w); r[k] = fromE(mkIte(mkBin(Op::ULT, x, y), y, x)); } return RC_OK; }
H(h_umin) { int w = ci->retw; for (int k = 0; k < ci->nret; k++) { E x = toE(a[k], w), y = toE(a[ci->nret + k], w); r[k] = fromE(mkIte(mkBin(Op::ULT, x, y), x, y)); } return RC_OK; }
H(h_iabs) { int w = ci->retw; E x = toE(a[0], w); r[0] = fromE(mkIte(mkBin(Op::SLT, x, mkConst(0, w)), mkBin(Op::SUB, mkConst(0, w), x), x)); return RC_OK; }
H(h_cabs) { int w = ci->retw; E x = toE(a[0], w); r[0] = fromE(mkIte(mkBin(Op::SLT, x, mkConst(0, w)), mkBin(Op::SUB, mkConst(0, w), x), x)); return RC_OK; }
H(h_ctpop) { int w = ci->retw; E x = toE(a[0], w), s = mkConst(0, w); for (int i = 0; i < w; i++) s = mkBin(Op::ADD, s, mkZext(mkExtract(x, i, 1), w)); r[0] = fromE(s); return RC_OK; }
H(h_ctlz) { int w = ci->retw; E x = toE(a[0], w), s = mkConst(w, w); for (int i = 0; i < w; i++) s = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), s); r[0] = fromE(s); return RC_OK; }
H(h_cttz) { int w = ci->retw; E x = toE(a[0], w), s = mkConst(w, w); for (int i = w - 1; i >= 0; i--) s = mkIte(mkExtract(x, i, 1), mkConst(i, w), s); r[0] = fromE(s); return RC_OK; }
H(h_bswap) { int w = ci->retw; E x = toE(a[0], w), s = nullptr; for (int i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); s = s ? mkConcat(s, b) : b; } r[0] = fromE(s); return RC_OK; }
H(h_fshl) { int w = ci->retw; u64 s = concretize(a[2], w) % w; E x = toE(a[0], w), y = toE(a[1], w); if (!s) { r[0] = a[0]; return RC_OK; } r[0] = fromE(mkConcat(mkExtract(x, 0, w - (int) s), mkExtract(y, w - (int) s, (int) s))); return RC_OK; }
H(h_fshr) { int w = ci->retw; u64 s = concretize(a[2], w) % w; E x = toE(a[0], w), y = toE(a[1], w); if (!s) { r[0] = a[1]; return RC_OK; } r[0] = fromE(mkConcat(mkExtract(x, 0, (int) s), mkExtract(y, (int) s, w - (int) s))); return RC_OK; }
H(h_uaddsat) { int w = ci->retw; E x = toE(a[0], w), y = toE(a[1], w), s = mkBin(Op::ADD, x, y); r[0] = fromE(mkIte(mkBin(Op::ULT, s, x), mkConst(~(u128) 0, w), s)); return RC_OK; }
H(h_usubsat) { int w = ci->retw; E x = toE(a[0], w), y = toE(a[1], w); r[0] = fromE(mkIte(mkBin(Op::ULT, x, y), mkConst(0, w), mkBin(Op::SUB, x, y))); return RC_OK; }
static void ovf(CallInfo *ci, Slot *a, Slot *r, Op op, bool sg) {
    int w = ci->argw[0]; E x = toE(a[0], w), y = toE(a[1], w);
    if (w > 64) unsupported("wide overflow intrinsic");
    int W = 2 * w; E X = sg ? mkSext(x, W) : mkZext(x, W), Y = sg ? mkSext(y, W) : mkZext(y, W); E R = mkBin(op, X, Y); E lo = mkExtract(R, 0, w);
    E back = sg ? mkSext(lo, W) : mkZext(lo, W);
    r[0] = fromE(mkBin(op, x, y)); r[1] = fromE(mkNot(mkBin(Op::EQ, back, R)));
}
H(h_uaddo) { ovf(ci, a, r, Op::ADD, false); return RC_OK; } H(h_usubo) { ovf(ci, a, r, Op::SUB, false); return RC_OK; } H(h_umulo) { ovf(ci, a, r, Op::MUL, false); return RC_OK; }
H(h_saddo) { ovf(ci, a, r, Op::ADD, true); return RC_OK; } H(h_ssubo) { ovf(ci, a, r, Op::SUB, true); return RC_OK; } H(h_smulo) { ovf(ci, a, r, Op::MUL, true); return RC_OK; }
H(h_objectsize) { r[0] = {ci->retw >= 64 ? ~0ull : (1ull << ci->retw) - 1, nullptr}; return RC_OK; }
H(h_false) { r[0] = {0, nullptr}; return RC_OK; }
// character classes (C locale), branch free
static E inRange(E c, int lo, int hi) { return mkBin(Op::AND, mkBin(Op::SLE, mkConst(lo, 32), c), mkBin(Op::SLE, c, mkConst(hi, 32))); }
static Slot boolSlot(E c) { return fromE(mkZext(c, 32)); }
H(h_isdigit) { r[0] = boolSlot(inRange(toE(a[0], 32), '0', '9')); return RC_OK; }
H(h_isalpha) { E c = toE(a[0], 32); r[0] = boolSlot(mkBin(Op::OR, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z'))); return RC_OK; }
H(h_isalnum) { E c = toE(a[0], 32); r[0] = boolSlot(mkBin(Op::OR, inRange(c, '0', '9'), mkBin(Op::OR, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z')))); return RC_OK; }
H(h_isspace) { E c = toE(a[0], 32); r[0] = boolSlot(mkBin(Op::OR, inRange(c, 9, 13), mkBin(Op::EQ, c, mkConst(32, 32)))); return RC_OK; }
H(h_isupper) { r[0] = boolSlot(inRange(toE(a[0], 32), 'A', 'Z')); return RC_OK; }
H(h_islower) { r[0] = boolSlot(inRange(toE(a[0], 32), 'a', 'z')); return RC_OK; }
H(h_isprint) { r[0] = boolSlot(inRange(toE(a[0], 32), 32, 126)); return RC_OK; }
H(h_isxdigit) { E c = toE(a[0], 32); r[0] = boolSlot(mkBin(Op::OR, inRange(c, '0', '9'), mkBin(Op::OR, inRange(c, 'a', 'f'), inRange(c, 'A', 'F')))); return RC_OK; }
H(h_ispunct) { E c = toE(a[0], 32); E al = mkBin(Op::OR, inRange(c, '0', '9'), mkBin(Op::OR, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z'))); r[0] = boolSlot(mkBin(Op::AND, inRange(c, 33, 126), mkNot(al))); return RC_OK; }
H(h_tolower) { E c = toE(a[0], 32); r[0] = fromE(mkIte(inRange(c, 'A', 'Z'), mkBin(Op::ADD, c, mkConst(32, 32)), c)); return RC_OK; }
H(h_toupper) { E c = toE(a[0], 32); r[0] = fromE(mkIte(inRange(c, 'a', 'z'), mkBin(Op::SUB, c, mkConst(32, 32)), c)); return RC_OK; }
// harness API
static int newInput(const std::string &nm, int w, u64 lo, u64 hi, i64 off) {
    E v = mkVar(nm, w, lo, hi); (void) v; int var = (int) g_vars.size() - 1; g_inputs.push_back({nm, var, off, w, true}); syncModel(); return var;
}
H(h_sx_int) {
    std::string nm = readCStr(a[0].c); i64 lo = (i64) concretize(a[1], 64), hi = (i64) concretize(a[2], 64);
    if (hi < lo) endPath("killed");
    u64 span = (u64) hi - (u64) lo; if (span == 0) { g_inputs.push_back({nm, -1, lo, 64, true}); r[0] = {(u64) lo, nullptr}; return RC_OK; }
    int w = 64 - __builtin_clzll(span); int var = newInput(nm, w, 0, span, lo);
    r[0] = fromE(mkBin(Op::ADD, mkZext(mkVarRef(var), 64), mkConst((u64) lo, 64))); return RC_OK;
}
H(h_sx_bits) { std::string nm = readCStr(a[0].c); int w = ci->retw; int var = newInput(nm, w, 0, w == 64 ? ~0ull : (1ull << w) - 1, 0); r[0] = fromE(mkVarRef(var)); return RC_OK; }
static E condE(const Slot &s, int w) { return mkNot(mkBin(Op::EQ, toE(s, w), mkConst(0, w))); }
H(h_sx_assume) { assumeE(condE(a[0], ci->argw[0])); return RC_OK; }
H(h_sx_check) {
    E c = condE(a[0], ci->argw[0]); SHADD(checks, 1);
    if (isTrue(c)) return RC_OK;
    std::string label = readCStr(a[1].c); syncModel();
    if (isFalse(c)) {
        reportViolation(label, g_model, g_modelOk, "");
        return RC_OK; // keep going: later checks on this path may differ
    }
    auto f = g_facts.find(c); if (f != g_facts.end() && f->second) return RC_OK;
    SHADD(checkQueries, 1);
    std::vector<u64> m; bool mok = false; E nc = mkNot(c); SatR q;
    if (g_modelOk && !evalBool(c, g_model)) { q = SatR::SAT; m = g_model; mok = true; }
    else q = feasible(nc, m, mok, g_cfg.checkRlimit);
    if (q == SatR::UNSAT) { g_facts[c] = true; return RC_OK; }
    if (q == SatR::UNKNOWN) { SHADD(checksUnknown, 1); if (g_sh->checksUnknown <= 20) writeRec("{\"t\":\"unknown\",\"h\":" + jstr(g_harness) + ",\"label\":" + jstr(label) + "}\n"); return RC_OK; }
    reportViolation(label, m, mok, "");
    assumeE(c); // continue on the part where it holds
    return RC_OK;
}
H(h_sx_obs_i) { g_obs.push_back({readCStr(a[0].c), 'i', a[1], 64, {}}); return RC_OK; }
H(h_sx_obs_f) { g_obs.push_back({readCStr(a[0].c), 'f', a[1], 32, {}}); return RC_OK; }
H(h_sx_obs_s) { ObsRec o{readCStr(a[0].c), 's', {0, nullptr}, 0, {}}; u64 p = concretize(a[1], 64), l = concretize(a[2], 64); for (u64 i = 0; i < l; i++) o.bytes.push_back(loadC(p + i, 8)); g_obs.push_back(o); return RC_OK; }
H(h_sx_reach) {
    std::string nm = readCStr(a[0].c);
    for (int i = 0; i < g_sh->nReach && i < 64; i++) if (nm == g_sh->reachName[i]) { SHADD(reach[i], 1); return RC_OK; }
    int i = __sync_fetch_and_add(&g_sh->nReach, 1); if (i < 64) { strncpy(g_sh->reachName[i], nm.c_str(), 47); SHADD(reach[i], 1); }
    return RC_OK;
}
H(h_sx_known) { g_known.push_back({readCStr(a[0].c), readCStr(a[1].c)}); return RC_OK; }
H(h_sx_known_end) { if (!g_known.empty()) g_known.pop_back(); return RC_OK; }
H(h_sx_fork) { r[0] = {concretize(a[0], 64), nullptr}; return RC_OK; }
H(h_sx_ite) { E c = condE(a[0], ci->argw[0]); r[0] = fromE(mkIte(c, toE(a[1], 64), toE(a[2], 64))); return RC_OK; }
H(h_sx_itef) { E c = condE(a[0], ci->argw[0]); r[0] = fromE(mkFIte(c, toE(a[1], 32), toE(a[2], 32))); return RC_OK; }
H(h_sx_tier) { r[0] = {(u64) g_cfg.tier, nullptr}; return RC_OK; }
H(h_sx_unsup) { unsupported(readCStr(a[0].c)); }
H(h_sx_issym) { r[0] = {a[0].e ? 1u : 0u, nullptr}; return RC_OK; }
H(h_sx_fmt) { // (char *buf, long cap, double v, const char *fmt) -> length
    u64 buf = concretize(a[0], 64), cap = concretize(a[1], 64); std::string fmt = readCStr(concretize(a[3], 64));
    if (a[2].e) unsupported("formatting a symbolic floating point value");
    double d; u64 b = a[2].c; memcpy(&d, &b, 8); char tmp[512]; int l = snprintf(tmp, sizeof tmp, fmt.c_str(), d); for (int i = 0; i <= l && (u64) i < cap; i++) storeC(buf + i, {(u64) (u8) tmp[i], nullptr}, 8);
    r[0] = {(u64) l, nullptr}; return RC_OK;
}
H(h_to_xstring) { // std::to_string(double): (string *result, int (*)(...), size_t, const char *fmt, double)
    if (n != 5) unsupported("to_string"); std::string fmt = readCStr(concretize(a[3], 64)); if (a[4].e) unsupported("formatting a symbolic floating point value");
    double d; u64 b = a[4].c; memcpy(&d, &b, 8); char tmp[512]; u64 l = (u64) snprintf(tmp, sizeof tmp, fmt.c_str(), d), to = concretize(a[0], 64), at = to + 16;
    if (l > 15) { Slot q; doAlloc({l + 1, nullptr}, OK_HEAP_NEW, &q, false); at = q.c; storeC(to + 16, {l, nullptr}, 64); }
    storeC(to, {at, nullptr}, 64); storeC(to + 8, {l, nullptr}, 64); for (u64 i = 0; i <= l; i++) storeC(at + i, {(u64) (u8) tmp[i], nullptr}, 8);
    return RC_OK;
}
H(h_sx_strtod) { // (const char *s, long *consumed) concrete only
    std::string s = readCStr(concretize(a[0], 64)); char *e; double d = strtod(s.c_str(), &e); storeC(a[1].c, {(u64) (e - s.c_str()), nullptr}, 64); r[0] = fconstSlot(d, 64); return RC_OK;
}
H(h_sx_debug) { fprintf(stderr, "[dbg %d] %s = ", getpid(), readCStr(a[0].c).c_str()); if (a[1].e) fprintf(stderr, "%s\n", exprStr(a[1].e, 8).c_str()); else fprintf(stderr, "%lld\n", (long long) a[1].c); return RC_OK; }
H(h_cxa_atexit) { r[0] = {0, nullptr}; return RC_OK; }
H(h_bad) { unsupported("call to " + self->name); }

static void initHandlers() {
    auto &h = g_handlers;
    h["_Znwm"] = h_new; h["_Znam"] = h_newarr; h["_ZnwmRKSt9nothrow_t"] = h_newnt; h["_ZnwmSt11align_val_t"] = h_new;
    for (auto s: {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) h[s] = h_delete;
    for (auto s: {"_ZdaPv", "_ZdaPvm"}) h[s] = h_deletearr;
    h["malloc"] = h_malloc; h["calloc"] = h_calloc; h["realloc"] = h_realloc; h["free"] = h_free;
    h["memcpy"] = h["memmove"] = h_memcpy; h["memset"] = h_memset; h["memcmp"] = h["bcmp"] = h_memcmp; h["strlen"] = h_strlen; h["memchr"] = h_memchr; h["strcmp"] = h["strncmp"] = h_strcmp;
    h["abort"] = h_abort; h["_ZSt9terminatev"] = h_terminate; h["exit"] = h_exit; h["_exit"] = h_exit; h["__cxa_pure_virtual"] = h_pure; h["__cxa_call_unexpected"] = h_terminate; h["llvm.trap"] = h_abort; h["__clang_call_terminate"] = h_terminate;
    h["__cxa_guard_acquire"] = h_guard_acquire; h["__cxa_guard_release"] = h_guard_release; h["__cxa_guard_abort"] = h_nop; h["__cxa_atexit"] = h_cxa_atexit; h["atexit"] = h_cxa_atexit;
    h["__cxa_allocate_exception"] = h_alloc_exc; h["__cxa_free_exception"] = h_free_exc; h["__cxa_throw"] = h_throw; h["__cxa_begin_catch"] = h_begin_catch; h["__cxa_end_catch"] = h_end_catch; h["__cxa_rethrow"] = h_rethrow; h["__cxa_get_exception_ptr"] = h_get_exc_ptr;
    h["__dynamic_cast"] = h_dyncast;
    auto both = [&](const char *n, Handler f) { h[n] = f; h[std::string(n) + "f"] = f; };
    both("sqrt", h_sqrt); both("fabs", h_fabs); both("floor", h_floor); both("ceil", h_ceil); both("trunc", h_trunc); both("round", h_round); both("rint", h_rint); both("nearbyint", h_rint); both("exp", h_exp); both("log", h_log); both("tanh", h_tanh); both("sin", h_sin); both("cos", h_cos); both("log2", h_log2); both("exp2", h_exp2); both("pow", h_pow); both("fmod", h_fmod); both("fmax", h_fmax); both("fmin", h_fmin); both("copysign", h_copysign); both("ldexp", h_ldexp); both("lround", h_lround); both("llround", h_lround); h["abs"] = h["labs"] = h["llabs"] = h_cabs;
    h["isdigit"] = h_isdigit; h["isalpha"] = h_isalpha; h["isalnum"] = h_isalnum; h["isspace"] = h_isspace; h["isupper"] = h_isupper; h["islower"] = h_islower; h["isprint"] = h_isprint; h["isxdigit"] = h_isxdigit; h["ispunct"] = h_ispunct; h["tolower"] = h_tolower; h["toupper"] = h_toupper;
    h["sx_int"] = h_sx_int; h["sx_bits32"] = h["sx_bits64"] = h_sx_bits; h["sx_assume"] = h_sx_assume; h["sx_check"] = h_sx_check; h["sx_obs_i"] = h_sx_obs_i; h["sx_obs_f"] = h_sx_obs_f; h["sx_obs_s"] = h_sx_obs_s; h["sx_reach"] = h_sx_reach; h["sx_known"] = h_sx_known; h["sx_known_end"] = h_sx_known_end; h["sx_fork"] = h_sx_fork; h["sx_ite"] = h_sx_ite; h["sx_itef"] = h_sx_itef; h["sx_tier"] = h_sx_tier; h["sx_unsupported"] = h_sx_unsup; h["sx_issym"] = h_sx_issym; h["sx_fmt"] = h_sx_fmt; h["sx_strtod"] = h_sx_strtod; h["sx_to_xstring"] = h_to_xstring; h["sx_debug"] = h_sx_debug;
}
static Handler intrinsic(const std::string &n) {
    auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    struct P { const char *p; Handler h; };
    static const P t[] = {{"llvm.memcpy.", h_memcpy}, {"llvm.memmove.", h_memcpy}, {"llvm.memset.", h_memset}, {"llvm.lifetime", h_nop}, {"llvm.dbg", h_nop}, {"llvm.assume", h_nop}, {"llvm.experimental.noalias", h_nop}, {"llvm.donothing", h_nop}, {"llvm.expect.", h_arg0}, {"llvm.launder", h_arg0}, {"llvm.strip", h_arg0}, {"llvm.threadlocal.address", h_arg0}, {"llvm.stacksave", h_nop}, {"llvm.stackrestore", h_nop}, {"llvm.invariant", h_nop}, {"llvm.prefetch", h_nop},
        {"llvm.sqrt.", h_sqrt}, {"llvm.fabs.", h_fabs}, {"llvm.floor.", h_floor}, {"llvm.ceil.", h_ceil}, {"llvm.trunc.", h_trunc}, {"llvm.round.", h_round}, {"llvm.rint.", h_rint}, {"llvm.nearbyint.", h_rint}, {"llvm.roundeven.", h_rint}, {"llvm.exp.", h_exp}, {"llvm.exp2.", h_exp2}, {"llvm.log.", h_log}, {"llvm.log2.", h_log2}, {"llvm.sin.", h_sin}, {"llvm.cos.", h_cos}, {"llvm.pow.", h_pow}, {"llvm.powi.", h_powi}, {"llvm.maxnum.", h_fmax}, {"llvm.minnum.", h_fmin}, {"llvm.copysign.", h_copysign}, {"llvm.fmuladd.", h_fmuladd}, {"llvm.is.fpclass.", h_fpclass}, {"llvm.ldexp.", h_ldexp}, {"llvm.lround.", h_lround}, {"llvm.llround.", h_lround},
        {"llvm.smax.", h_smax}, {"llvm.smin.", h_smin}, {"llvm.umax.", h_umax}, {"llvm.umin.", h_umin}, {"llvm.abs.", h_iabs}, {"llvm.ctpop.", h_ctpop}, {"llvm.ctlz.", h_ctlz}, {"llvm.cttz.", h_cttz}, {"llvm.bswap.", h_bswap}, {"llvm.fshl.", h_fshl}, {"llvm.fshr.", h_fshr}, {"llvm.uadd.sat.", h_uaddsat}, {"llvm.usub.sat.", h_usubsat},
        {"llvm.uadd.with.overflow", h_uaddo}, {"llvm.usub.with.overflow", h_usubo}, {"llvm.umul.with.overflow", h_umulo}, {"llvm.sadd.with.overflow", h_saddo}, {"llvm.ssub.with.overflow", h_ssubo}, {"llvm.smul.with.overflow", h_smulo}, {"llvm.objectsize", h_objectsize}, {"llvm.is.constant", h_false}, {"llvm.eh.typeid.for", h_typeid_for}};
    for (auto &p: t) if (pre(p.p)) return p.h;
    return nullptr;
}
static int callFunc(DFunc *f, CallInfo *ci, Slot *args, int nargs, Slot *ret) {
    static CallInfo dummy;
    if (!ci) ci = &dummy;
    if (f->handler) { return f->handler(f, ci, args, nargs, ret); }
    if (f->isDecl) { f->handler = f->name.compare(0, 5, "llvm.") == 0 ? intrinsic(f->name) : nullptr; if (!f->handler) f->handler = h_bad; return f->handler(f, ci, args, nargs, ret); }
    return exec(f, args, ret);
}

// ------------------------------------------------------------------ entry points
void loadModule(const std::string &bc) {
    g_ctx = new LLVMContext(); SMDiagnostic err;
    g_mod = parseIRFile(bc, err, *g_ctx);
    if (!g_mod) { err.print("symex", errs()); exit(3); }
    g_dl = &g_mod->getDataLayout();
    g_quar = new std::deque<u32>();
    g_objs.reserve(1 << 16); g_objs.emplace_back();
    initHandlers();
    size_t n = 1 << 22; g_regBase = g_regTop = (Slot *) mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_regEnd = g_regBase + n - 100000;
    for (auto &F: *g_mod) getFunc(&F);
}
std::vector<std::string> hitFunctions() {
    std::unordered_set<std::string> seen; std::vector<std::string> r;
    for (auto &p: g_funcs) if (p.second->isHappy && g_sh->funcHit[p.second->id & 0xffff]) { std::string n = shortName(p.second->name); if (seen.insert(n).second) r.push_back(n); }
    std::sort(r.begin(), r.end()); return r;
}
bool hasFunction(const std::string &fn) { Function *F = g_mod->getFunction(fn); return F && !F->isDeclaration(); }
void runCtors() {
    if (auto *G = g_mod->getGlobalVariable("llvm.global_ctors")) {
        if (auto *ca = dyn_cast<ConstantArray>(G->getInitializer())) {
            std::vector<std::pair<u64, Function *>> v;
            for (auto &o: ca->operands()) { auto *cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
            std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p: v) { int r = exec(getFunc(p.second), nullptr, nullptr); if (r) { fprintf(stderr, "exception in static constructor\n"); exit(3); } }
        }
    }
    g_steps = 0;
}
void runHarness(const std::string &fn) {
    g_harness = fn; g_inHarness = true;
    Function *F = g_mod->getFunction(fn);
    int r = exec(getFunc(F), nullptr, nullptr);
    if (r == RC_THROW) {
        u64 ti = g_excs[g_curExc].tinfo; reportViolation("crash:uncaught-exception@" + g_throwAt, g_model, g_modelOk, demangle(objName(ti).c_str()) + " thrown in " + g_throwStack); SHADD(paths, 1); releaseAndExit();
    }
    endPath("ok");
}
