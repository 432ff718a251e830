#include "solver.hpp"
#include <z3.h>
#include <time.h>
SolverStats g_sstats;

static Z3_context C = nullptr;
static Z3_sort sF32, sF64, sBool;
static Z3_ast RNE;
static Z3_tactic tBV = nullptr, tFP = nullptr;

struct Lower {
    std::unordered_map<E, Z3_ast> bv, bl, fp;
    std::vector<Z3_ast> side; // side constraints
    std::map<int, std::vector<std::pair<E, Z3_ast>>> ufs;
    std::set<uint32_t> vars;
    bool hasFP = false, hasUF = false;
    std::vector<Z3_ast> refs;
};
// permanent lowering context: asts are kept alive for the life of the process
static std::unordered_map<E, Z3_ast> mBV, mBool, mFP;
static Z3_ast keep(Z3_ast a) { if (!a) { fprintf(stderr, "z3 returned null: %s\n", Z3_get_error_msg(C, Z3_get_error_code(C))); abort(); } Z3_inc_ref(C, a); return a; }
static Z3_ast asBV(E e);
static Z3_ast asBool(E e);
static Z3_ast asFP(E e);

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static void init() {
    if (C) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, onErr);
    sF32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sF32));
    sF64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sF64));
    sBool = Z3_mk_bool_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sBool));
    RNE = keep(Z3_mk_fpa_rne(C));
    auto T = [&](const char *n) { Z3_tactic t = Z3_mk_tactic(C, n); if (!t) { fprintf(stderr, "no tactic %s\n", n); abort(); } Z3_tactic_inc_ref(C, t); return t; };
    auto then = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(C, a, b); Z3_tactic_inc_ref(C, t); return t; };
    tBV = T("qfbv");
    tFP = then(T("simplify"), then(T("propagate-values"), then(T("fpa2bv"), T("qfbv"))));
}
static Z3_sort bvs(int w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast bvConst(u128 v, int w) {
    if (w <= 64) return keep(Z3_mk_unsigned_int64(C, (u64) v, bvs(w)));
    Z3_ast hi = keep(Z3_mk_unsigned_int64(C, (u64) (v >> 64), bvs(w - 64))), lo = keep(Z3_mk_unsigned_int64(C, (u64) v, bvs(64)));
    return keep(Z3_mk_concat(C, hi, lo));
}
static bool isFloatProducer(Op op) {
    switch (op) { case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FREM: case Op::FSQRT: case Op::FRND: case Op::FCVT: case Op::SI2F: case Op::UI2F: case Op::FABS_: case Op::FNEG_: case Op::POLY: return true; default: return false; }
}
static Z3_sort fs(int w) { return w == 32 ? sF32 : sF64; }
static std::unordered_map<E, Z3_ast> ufVar;
static Z3_ast ufAst(E e) {
    auto it = ufVar.find(e);
    if (it != ufVar.end()) return it->second;
    char nm[32]; snprintf(nm, sizeof nm, "uf%u", e->id);
    Z3_ast v = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(e->w)));
    ufVar[e] = v;
    return v;
}
static Z3_ast asFP(E e) {
    auto it = mFP.find(e);
    if (it != mFP.end()) return it->second;
    Z3_ast r;
    int w = e->w;
    auto K = [&](int i) { return asFP(e->k[i]); };
    switch (e->op) {
        case Op::FADD: r = keep(Z3_mk_fpa_add(C, RNE, K(0), K(1))); break;
        case Op::FSUB: r = keep(Z3_mk_fpa_sub(C, RNE, K(0), K(1))); break;
        case Op::FMUL: r = keep(Z3_mk_fpa_mul(C, RNE, K(0), K(1))); break;
        case Op::FDIV: r = keep(Z3_mk_fpa_div(C, RNE, K(0), K(1))); break;
        case Op::FREM: {
            // fmod: x - y*trunc(x/y) is not exact in FP; use IEEE remainder corrected:  r = rem(|x|,|y|); if r<0 r+=|y|; copysign
            Z3_ast ax = keep(Z3_mk_fpa_abs(C, K(0))), ay = keep(Z3_mk_fpa_abs(C, K(1)));
            Z3_ast q = keep(Z3_mk_fpa_rem(C, ax, ay));
            Z3_ast q2 = keep(Z3_mk_ite(C, keep(Z3_mk_fpa_is_negative(C, q)), keep(Z3_mk_fpa_add(C, RNE, q, ay)), q));
            r = keep(Z3_mk_ite(C, keep(Z3_mk_fpa_is_negative(C, K(0))), keep(Z3_mk_fpa_neg(C, q2)), q2));
            break;
        }
        case Op::FSQRT: r = keep(Z3_mk_fpa_sqrt(C, RNE, K(0))); break;
        case Op::FRND: {
            Z3_ast rm;
            switch ((int) e->c) { case R_FLOOR: rm = keep(Z3_mk_fpa_rtn(C)); break; case R_CEIL: rm = keep(Z3_mk_fpa_rtp(C)); break; case R_TRUNC: rm = keep(Z3_mk_fpa_rtz(C)); break; case R_AWAY: rm = keep(Z3_mk_fpa_rna(C)); break; default: rm = RNE; }
            r = keep(Z3_mk_fpa_round_to_integral(C, rm, K(0)));
            break;
        }
        case Op::FCVT: r = keep(Z3_mk_fpa_to_fp_float(C, RNE, K(0), fs(w))); break;
        case Op::SI2F: r = keep(Z3_mk_fpa_to_fp_signed(C, RNE, asBV(e->k[0]), fs(w))); break;
        case Op::UI2F: r = keep(Z3_mk_fpa_to_fp_unsigned(C, RNE, asBV(e->k[0]), fs(w))); break;
        case Op::FABS_: r = keep(Z3_mk_fpa_abs(C, K(0))); break;
        case Op::FNEG_: r = keep(Z3_mk_fpa_neg(C, K(0))); break;
        case Op::POLY: {
            int bw = 0; E v = polyBV(*e->poly, bw);
            r = keep(Z3_mk_fpa_to_fp_signed(C, RNE, asBV(v), fs(w)));
            if (e->poly->k != 0) {
                double d = ldexp(1.0, -e->poly->k);
                Z3_ast c = w == 32 ? keep(Z3_mk_fpa_numeral_float(C, (float) d, sF32)) : keep(Z3_mk_fpa_numeral_double(C, d, sF64));
                r = keep(Z3_mk_fpa_mul(C, RNE, r, c));
            }
            break;
        }
        case Op::ITE: r = keep(Z3_mk_ite(C, asBool(e->k[0]), K(1), K(2))); break;
        default: r = keep(Z3_mk_fpa_to_fp_bv(C, asBV(e), fs(w)));
    }
    mFP[e] = r;
    return r;
}
static Z3_ast asBool(E e) {
    auto it = mBool.find(e);
    if (it != mBool.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
        case Op::CONST: r = keep(e->c ? Z3_mk_true(C) : Z3_mk_false(C)); break;
        case Op::AND: { Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])}; r = keep(Z3_mk_and(C, 2, a)); break; }
        case Op::OR: { Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])}; r = keep(Z3_mk_or(C, 2, a)); break; }
        case Op::XOR:
            if (e->k[1]->isConst() && e->k[1]->c == 1) r = keep(Z3_mk_not(C, asBool(e->k[0])));
            else r = keep(Z3_mk_xor(C, asBool(e->k[0]), asBool(e->k[1])));
            break;
        case Op::EQ: if (e->k[0]->w == 1) r = keep(Z3_mk_iff(C, asBool(e->k[0]), asBool(e->k[1]))); else r = keep(Z3_mk_eq(C, asBV(e->k[0]), asBV(e->k[1]))); break;
        case Op::ULT: r = keep(Z3_mk_bvult(C, asBV(e->k[0]), asBV(e->k[1]))); break;
        case Op::ULE: r = keep(Z3_mk_bvule(C, asBV(e->k[0]), asBV(e->k[1]))); break;
        case Op::SLT: r = keep(Z3_mk_bvslt(C, asBV(e->k[0]), asBV(e->k[1]))); break;
        case Op::SLE: r = keep(Z3_mk_bvsle(C, asBV(e->k[0]), asBV(e->k[1]))); break;
        case Op::ITE: r = keep(Z3_mk_ite(C, asBool(e->k[0]), asBool(e->k[1]), asBool(e->k[2]))); break;
        case Op::FEQ: r = keep(Z3_mk_fpa_eq(C, asFP(e->k[0]), asFP(e->k[1]))); break;
        case Op::FLT: r = keep(Z3_mk_fpa_lt(C, asFP(e->k[0]), asFP(e->k[1]))); break;
        case Op::FLE: r = keep(Z3_mk_fpa_leq(C, asFP(e->k[0]), asFP(e->k[1]))); break;
        case Op::FNAN: { Z3_ast a[2] = {keep(Z3_mk_fpa_is_nan(C, asFP(e->k[0]))), keep(Z3_mk_fpa_is_nan(C, asFP(e->k[1])))}; r = keep(Z3_mk_or(C, 2, a)); break; }
        default: r = keep(Z3_mk_eq(C, asBV(e), bvConst(1, 1)));
    }
    mBool[e] = r;
    return r;
}
static Z3_ast asBV(E e) {
    auto it = mBV.find(e);
    if (it != mBV.end()) return it->second;
    Z3_ast r;
    int w = e->w;
    auto K = [&](int i) { return asBV(e->k[i]); };
    if (w == 1 && e->op != Op::CONST && e->op != Op::VAR && e->op != Op::EXTRACT && e->op != Op::ADD && e->op != Op::SUB && e->op != Op::SHL && e->op != Op::LSHR && e->op != Op::ASHR && e->op != Op::F2SI && e->op != Op::F2UI && e->op != Op::UDIV && e->op != Op::UREM && e->op != Op::SDIV && e->op != Op::SREM && e->op != Op::MUL) {
        r = keep(Z3_mk_ite(C, asBool(e), bvConst(1, 1), bvConst(0, 1)));
        mBV[e] = r;
        return r;
    }
    if (isFloatProducer(e->op)) {
        Z3_ast f = asFP(e);
        Z3_ast nan = w == 32 ? bvConst(0x7fc00000u, 32) : bvConst(0x7ff8000000000000ull, 64);
        r = keep(Z3_mk_ite(C, keep(Z3_mk_fpa_is_nan(C, f)), nan, keep(Z3_mk_fpa_to_ieee_bv(C, f))));
        mBV[e] = r;
        return r;
    }
    switch (e->op) {
        case Op::CONST: r = bvConst(e->c, w); break;
        case Op::VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned) e->c); r = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), bvs(w))); break; }
        case Op::ADD: r = keep(Z3_mk_bvadd(C, K(0), K(1))); break;
        case Op::SUB: r = keep(Z3_mk_bvsub(C, K(0), K(1))); break;
        case Op::MUL: r = keep(Z3_mk_bvmul(C, K(0), K(1))); break;
        case Op::UDIV: r = keep(Z3_mk_bvudiv(C, K(0), K(1))); break;
        case Op::SDIV: r = keep(Z3_mk_bvsdiv(C, K(0), K(1))); break;
        case Op::UREM: r = keep(Z3_mk_bvurem(C, K(0), K(1))); break;
        case Op::SREM: r = keep(Z3_mk_bvsrem(C, K(0), K(1))); break;
        case Op::AND: r = keep(Z3_mk_bvand(C, K(0), K(1))); break;
        case Op::OR: r = keep(Z3_mk_bvor(C, K(0), K(1))); break;
        case Op::XOR: if (e->k[1]->isConst() && e->k[1]->c == maskw(w)) r = keep(Z3_mk_bvnot(C, K(0))); else r = keep(Z3_mk_bvxor(C, K(0), K(1))); break;
        case Op::SHL: r = keep(Z3_mk_bvshl(C, K(0), K(1))); break;
        case Op::LSHR: r = keep(Z3_mk_bvlshr(C, K(0), K(1))); break;
        case Op::ASHR: r = keep(Z3_mk_bvashr(C, K(0), K(1))); break;
        case Op::ITE: r = keep(Z3_mk_ite(C, asBool(e->k[0]), K(1), K(2))); break;
        case Op::ZEXT: r = keep(Z3_mk_zero_ext(C, w - e->k[0]->w, K(0))); break;
        case Op::SEXT: r = keep(Z3_mk_sign_ext(C, w - e->k[0]->w, K(0))); break;
        case Op::EXTRACT: r = keep(Z3_mk_extract(C, (int) e->c + w - 1, (int) e->c, K(0))); break;
        case Op::CONCAT: r = keep(Z3_mk_concat(C, K(0), K(1))); break;
        case Op::F2SI: r = keep(Z3_mk_fpa_to_sbv(C, keep(Z3_mk_fpa_rtz(C)), asFP(e->k[0]), w)); break;
        case Op::F2UI: r = keep(Z3_mk_fpa_to_ubv(C, keep(Z3_mk_fpa_rtz(C)), asFP(e->k[0]), w)); break;
        case Op::UF: r = ufAst(e); break;
        default: fprintf(stderr, "asBV: op %d\n", (int) e->op); abort();
    }
    mBV[e] = r;
    return r;
}

static void collect(E e, std::set<E> &seen, std::vector<E> &ufs, bool &fp) {
    if (e->isConst() || !seen.insert(e).second) return;
    if (isFloatProducer(e->op) || e->op == Op::FEQ || e->op == Op::FLT || e->op == Op::FLE || e->op == Op::FNAN || e->op == Op::F2SI || e->op == Op::F2UI) fp = true;
    if (e->op == Op::UF) { ufs.push_back(e); fp = true; }
    if (e->op == Op::POLY) { for (auto &t: e->poly->terms) for (auto a: t.atoms) collect(a, seen, ufs, fp); }
    for (int i = 0; i < e->nk; i++) collect(e->k[i], seen, ufs, fp);
}
static E fconst(double d, int w) { if (w == 32) { float f = (float) d; uint32_t b; memcpy(&b, &f, 4); return mkConst(b, 32); } u64 b; memcpy(&b, &d, 8); return mkConst(b, 64); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

SatR solveConj(const std::vector<E> &cs, std::vector<u64> &model, bool &modelOk, u64 rlimit) {
    init();
    double t0 = now();
    std::set<E> seen; std::vector<E> ufs; bool fp = false;
    std::set<uint32_t> vars;
    for (E c: cs) { if (isFalse(c)) return SatR::UNSAT; collect(c, seen, ufs, fp); for (auto v: exprVars(c)) vars.insert(v); }
    g_sstats.queries++;
    Z3_solver s = Z3_mk_solver_from_tactic(C, fp ? tFP : tBV);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned) std::min<u64>(rlimit, 4000000000u));
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for (E c: cs) Z3_solver_assert(C, s, asBool(c));
    for (auto v: vars) {
        auto &vi = g_vars[v];
        if (vi.w > 64) continue;
        E ve = mkVarRef(v);
        u64 mx = vi.w >= 64 ? ~0ull : ((1ull << vi.w) - 1);
        if (vi.lo > 0) Z3_solver_assert(C, s, keep(Z3_mk_bvuge(C, asBV(ve), bvConst(vi.lo, vi.w))));
        if (vi.hi < mx) Z3_solver_assert(C, s, keep(Z3_mk_bvule(C, asBV(ve), bvConst(vi.hi, vi.w))));
    }
    // UF axioms: congruence (Ackermann) plus range facts
    auto isNan = [&](E x) { return mkFCmp(Op::FNAN, x, x); };
    auto A = [&](E c) { if (!isTrue(c)) Z3_solver_assert(C, s, asBool(c)); };
    auto impl = [&](E a, E b) { return mkBin(Op::OR, mkNot(a), b); };
    for (size_t i = 0; i < ufs.size(); i++) {
        E u = ufs[i]; E x = u->k[0]; int w = u->w;
        E zero = fconst(0, w), one = fconst(1, w), mone = fconst(-1, w), inf = fconst(INFINITY, w), minf = fconst(-INFINITY, w);
        E nn = mkNot(isNan(x));
        switch ((int) u->c) {
            case UF_EXP: case UF_EXP2:
                A(impl(nn, mkFCmp(Op::FLE, zero, u))); A(impl(isNan(x), isNan(u)));
                A(impl(mkFCmp(Op::FLE, zero, x), mkFCmp(Op::FLE, one, u))); A(impl(mkFCmp(Op::FLE, x, zero), mkFCmp(Op::FLE, u, one)));
                A(impl(mkFCmp(Op::FLE, x, fconst(80, w)), mkFCmp(Op::FLT, u, inf)));
                A(impl(mkFCmp(Op::FLE, fconst(-80, w), x), mkFCmp(Op::FLT, zero, u)));
                break;
            case UF_TANH:
                A(impl(nn, mkBin(Op::AND, mkFCmp(Op::FLE, mone, u), mkFCmp(Op::FLE, u, one)))); A(impl(isNan(x), isNan(u)));
                A(impl(mkFCmp(Op::FLE, zero, x), mkFCmp(Op::FLE, zero, u))); A(impl(mkFCmp(Op::FLE, x, zero), mkFCmp(Op::FLE, u, zero)));
                break;
            case UF_SIN: case UF_COS:
                A(impl(mkBin(Op::AND, mkFCmp(Op::FLT, minf, x), mkFCmp(Op::FLT, x, inf)), mkBin(Op::AND, mkFCmp(Op::FLE, mone, u), mkFCmp(Op::FLE, u, one))));
                break;
            case UF_LOG: case UF_LOG2:
                A(impl(mkFCmp(Op::FLT, zero, x), mkNot(isNan(u)))); A(impl(mkFCmp(Op::FLE, one, x), mkFCmp(Op::FLE, zero, u)));
                A(impl(mkBin(Op::AND, mkFCmp(Op::FLT, zero, x), mkFCmp(Op::FLE, x, one)), mkFCmp(Op::FLE, u, zero)));
                A(impl(mkBin(Op::AND, mkFCmp(Op::FLT, zero, x), mkFCmp(Op::FLT, x, inf)), mkBin(Op::AND, mkFCmp(Op::FLT, minf, u), mkFCmp(Op::FLT, u, inf))));
                A(impl(mkFCmp(Op::FLT, x, zero), isNan(u)));
                break;
            default: break;
        }
        for (size_t j = 0; j < i; j++) {
            E v = ufs[j];
            if (v->c != u->c || v->w != w) continue;
            E same = mkBin(Op::EQ, u->k[0], v->k[0]);
            if (u->nk > 1) same = mkBin(Op::AND, same, mkBin(Op::EQ, u->k[1], v->k[1]));
            A(impl(same, mkBin(Op::EQ, u, v)));
            if (u->c == UF_EXP || u->c == UF_TANH) { // monotone
                A(impl(mkFCmp(Op::FLE, u->k[0], v->k[0]), mkFCmp(Op::FLE, u, v)));
                A(impl(mkFCmp(Op::FLE, v->k[0], u->k[0]), mkFCmp(Op::FLE, v, u)));
            }
        }
    }
    Z3_lbool r = Z3_solver_check(C, s);
    SatR res = r == Z3_L_TRUE ? SatR::SAT : r == Z3_L_FALSE ? SatR::UNSAT : SatR::UNKNOWN;
    modelOk = false;
    if (res == SatR::SAT) {
        Z3_model m = Z3_solver_get_model(C, s);
        if (m) {
            Z3_model_inc_ref(C, m);
            for (auto v: vars) {
                if (model.size() <= v) { size_t o = model.size(); model.resize(v + 1); for (size_t i = o; i <= v; i++) model[i] = g_vars[i].lo; }
                Z3_ast out = nullptr; u64 val = g_vars[v].lo;
                if (Z3_model_eval(C, m, asBV(mkVarRef(v)), true, &out) && out) { Z3_inc_ref(C, out); uint64_t q; if (Z3_get_numeral_uint64(C, out, &q)) val = q; Z3_dec_ref(C, out); }
                model[v] = val;
            }
            Z3_model_dec_ref(C, m);
            std::unordered_map<E, u128> memo; modelOk = true;
            for (E c: cs) if (evalExpr(c, model, memo) != 1) { modelOk = false; break; }
        }
    }
    Z3_solver_dec_ref(C, s);
    double dt = now() - t0;
    g_sstats.seconds += dt;
    if (getenv("SX_SLOWQ") && dt > atof(getenv("SX_SLOWQ"))) { fprintf(stderr, "[slow query %.2fs res=%d fp=%d ufs=%zu ncs=%zu] %s\n", dt, (int) res, fp, ufs.size(), cs.size(), exprStr(cs.back(), 7).c_str()); }
    if (res == SatR::SAT) g_sstats.sat++; else if (res == SatR::UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
    return res;
}
