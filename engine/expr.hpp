// Symbolic expressions: hash-consed bit-vector DAG with IEEE float nodes and an exact dyadic-polynomial float domain.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum class Op : uint8_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
    // float ops: operands and results are bit patterns of width 32 / 64 (or 1 for comparisons)
    FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FRND /* c = mode */, FEQ, FLT, FLE, FNAN, FCVT /* width change */,
    SI2F, UI2F, F2SI, F2UI, FABS_, FNEG_,
    POLY, UF
};
enum RndMode { R_NEAR_EVEN = 0, R_FLOOR, R_CEIL, R_TRUNC, R_AWAY };
enum UfId { UF_EXP = 0, UF_LOG, UF_TANH, UF_POW, UF_SIN, UF_COS, UF_LOG2, UF_EXP2, UF_COUNT };

struct Expr;
typedef Expr *E;

// sum of coeff * product(atoms), all scaled by 2^-k. Atoms are bit-vector expressions read as signed integers.
struct Mono {
    std::vector<E> atoms; // sorted by id
    i64 coeff;
};
struct Poly {
    std::vector<Mono> terms; // canonical: sorted, no zero coeff
    int k = 0;               // scale 2^-k, minimal (some coeff odd, or k==0 .. may be negative)
    i128 lo = 0, hi = 0;     // bounds of the scaled integer (value * 2^k)
};

struct Expr {
    Op op;
    uint16_t w;
    uint8_t nk;
    uint32_t id;
    E k[3];
    u128 c;          // const value / var index / extract offset / rounding mode / UF id
    u64 ulo, uhi;    // unsigned range (w<=64)
    i64 slo, shi;    // signed range (w<=64)
    Poly *poly;      // POLY only
    std::vector<uint32_t> *vars; // sorted variable ids, lazily computed
    bool isConst() const { return op == Op::CONST; }
};

struct VarInfo {
    std::string name;
    int w;
    u64 lo, hi;
};
extern std::vector<VarInfo> g_vars;

inline u128 maskw(int w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline i64 sx64(u64 v, int w) { if (w >= 64) return (i64) v; return (i64) (v << (64 - w)) >> (64 - w); }
inline i128 sx128(u128 v, int w) { if (w >= 128) return (i128) v; return (i128) (v << (128 - w)) >> (128 - w); }

E mkConst(u128 v, int w);
E mkVar(const std::string &name, int w, u64 lo, u64 hi);
E mkVarRef(size_t idx);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, int w);
E mkSext(E a, int w);
E mkExtract(E a, int off, int w);
E mkConcat(E hi, E lo);
E mkNot(E a); // boolean (w==1) or bitwise
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isTrue(E e) { return e->isConst() && e->c == 1; }
inline bool isFalse(E e) { return e->isConst() && e->c == 0; }

// floats
E mkFBin(Op op, E a, E b);
E mkFCmp(Op op, E a, E b);   // FEQ FLT FLE FNAN(either is NaN)
E mkFUn(Op op, E a, u128 c = 0); // FSQRT FRND FABS_ FNEG_
E mkFCvt(E a, int w);
E mkI2F(Op op, E a, int w);  // SI2F UI2F
E mkF2I(Op op, E a, int w);  // F2SI F2UI
E mkUF(UfId id, E a, E b = nullptr);
E mkFIte(E c, E a, E b);
bool floatView(E e, Poly &out); // can e (float-typed) be seen as a dyadic polynomial?
E polyBV(const Poly &p, int &w); // scaled integer as signed bit-vector of (returned) width
int polyWidth(const Poly &p);

u128 evalExpr(E e, const std::vector<u64> &model, std::unordered_map<E, u128> &memo);
const std::vector<uint32_t> &exprVars(E e);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
double polyToDouble(const Poly &p, i128 scaled);
u128 evalFloatOp(Op op, int w, u128 a, u128 b, u128 c, int wa);
u128 evalUF(UfId id, int w, u128 a, u128 b);
