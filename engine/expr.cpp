#include "expr.hpp"

std::vector<VarInfo> g_vars;

struct Key {
    Op op; uint16_t w; E k0, k1, k2; u128 c;
    bool operator==(const Key &o) const { return op == o.op && w == o.w && k0 == o.k0 && k1 == o.k1 && k2 == o.k2 && c == o.c; }
};
struct KeyHash {
    size_t operator()(const Key &k) const {
        u64 h = (u64) k.op * 0x9E3779B97F4A7C15ull ^ k.w * 0xC2B2AE3D27D4EB4Full;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
        mix((u64) (uintptr_t) k.k0); mix((u64) (uintptr_t) k.k1); mix((u64) (uintptr_t) k.k2); mix((u64) k.c); mix((u64) (k.c >> 64));
        return h;
    }
};
static std::unordered_map<Key, E, KeyHash> g_table;
static std::unordered_map<std::string, E> g_polys;
static uint32_t g_next_id = 1;
size_t exprCount() { return g_next_id; }

static char *g_arena = nullptr;
static size_t g_arena_left = 0;
static Expr *newExpr() {
    if (g_arena_left < sizeof(Expr)) { g_arena = (char *) calloc(1, 1 << 20); g_arena_left = 1 << 20; }
    Expr *e = (Expr *) g_arena; size_t s = (sizeof(Expr) + 15) & ~15ull; g_arena += s; g_arena_left -= std::min(s, g_arena_left);
    e->id = g_next_id++;
    return e;
}

static i64 smin(int w) { return w >= 64 ? INT64_MIN : -((i64) 1 << (w - 1)); }
static i64 smax(int w) { return w >= 64 ? INT64_MAX : ((i64) 1 << (w - 1)) - 1; }
static u64 umax(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

static void computeRange(E e) {
    int w = e->w;
    if (w > 64) { e->ulo = 0; e->uhi = ~0ull; e->slo = INT64_MIN; e->shi = INT64_MAX; return; }
    u64 ul = 0, uh = umax(w); i64 sl = smin(w), sh = smax(w);
    bool su = false, ss = false; // which side was derived
    auto a = e->k[0], b = e->k[1];
    switch (e->op) {
        case Op::CONST: ul = uh = (u64) e->c; sl = sh = sx64(ul, w); e->ulo = ul; e->uhi = uh; e->slo = sl; e->shi = sh; return;
        case Op::VAR: ul = g_vars[(size_t) e->c].lo; uh = g_vars[(size_t) e->c].hi; su = true; break;
        case Op::ADD: {
            u128 l = (u128) a->ulo + b->ulo, h = (u128) a->uhi + b->uhi;
            if (h <= umax(w)) { ul = (u64) l; uh = (u64) h; su = true; }
            i128 l2 = (i128) a->slo + b->slo, h2 = (i128) a->shi + b->shi;
            if (l2 >= smin(w) && h2 <= smax(w)) { sl = (i64) l2; sh = (i64) h2; ss = true; }
            break;
        }
        case Op::SUB: {
            if (a->ulo >= b->uhi) { ul = a->ulo - b->uhi; uh = a->uhi - b->ulo; su = true; }
            i128 l2 = (i128) a->slo - b->shi, h2 = (i128) a->shi - b->slo;
            if (l2 >= smin(w) && h2 <= smax(w)) { sl = (i64) l2; sh = (i64) h2; ss = true; }
            break;
        }
        case Op::MUL: {
            u128 h = (u128) a->uhi * b->uhi;
            if (h <= umax(w)) { ul = a->ulo * b->ulo; uh = (u64) h; su = true; }
            i128 c[4] = {(i128) a->slo * b->slo, (i128) a->slo * b->shi, (i128) a->shi * b->slo, (i128) a->shi * b->shi};
            i128 l2 = *std::min_element(c, c + 4), h2 = *std::max_element(c, c + 4);
            if (l2 >= smin(w) && h2 <= smax(w)) { sl = (i64) l2; sh = (i64) h2; ss = true; }
            break;
        }
        case Op::UDIV: if (b->ulo > 0) { ul = a->ulo / b->uhi; uh = a->uhi / b->ulo; su = true; } break;
        case Op::UREM: if (b->uhi > 0 && b->ulo > 0) { ul = 0; uh = std::min(a->uhi, b->uhi - 1); su = true; } break;
        case Op::AND: ul = 0; uh = std::min(a->uhi, b->uhi); su = true; break;
        case Op::OR: {
            u64 m = a->uhi | b->uhi; int bits = m ? 64 - __builtin_clzll(m) : 0;
            ul = std::max(a->ulo, b->ulo); uh = bits >= 64 ? ~0ull : ((1ull << bits) - 1); uh = std::min(uh, umax(w)); su = true; break;
        }
        case Op::XOR: {
            u64 m = a->uhi | b->uhi; int bits = m ? 64 - __builtin_clzll(m) : 0;
            uh = bits >= 64 ? ~0ull : ((1ull << bits) - 1); uh = std::min(uh, umax(w)); su = true; break;
        }
        case Op::LSHR: if (b->isConst() && b->c < (u128) w) { ul = a->ulo >> (u64) b->c; uh = a->uhi >> (u64) b->c; su = true; } break;
        case Op::SHL: if (b->isConst() && b->c < (u128) w) {
                u128 h = (u128) a->uhi << (u64) b->c; if (h <= umax(w)) { ul = a->ulo << (u64) b->c; uh = (u64) h; su = true; }
                i128 l2 = (i128) a->slo << (u64) b->c, h2 = (i128) a->shi << (u64) b->c;
                if (l2 >= smin(w) && h2 <= smax(w)) { sl = (i64) l2; sh = (i64) h2; ss = true; }
            } break;
        case Op::ASHR: if (b->isConst() && b->c < (u128) w) { sl = a->slo >> (u64) b->c; sh = a->shi >> (u64) b->c; ss = true; } break;
        case Op::ITE: ul = std::min(b->ulo, e->k[2]->ulo); uh = std::max(b->uhi, e->k[2]->uhi); sl = std::min(b->slo, e->k[2]->slo); sh = std::max(b->shi, e->k[2]->shi); su = ss = true; break;
        case Op::ZEXT: ul = a->ulo; uh = a->uhi; su = true; break;
        case Op::SEXT: sl = a->slo; sh = a->shi; ss = true; break;
        case Op::EXTRACT: if (a->w <= 64) {
                int off = (int) e->c;
                if (off == 0 && a->uhi <= umax(w)) { ul = a->ulo; uh = a->uhi; su = true; }
                else if (off > 0) { u64 h = a->uhi >> off; if (h <= umax(w)) { ul = a->ulo >> off; uh = h; su = true; } }
                if (off == 0 && a->slo >= smin(w) && a->shi <= smax(w)) { sl = a->slo; sh = a->shi; ss = true; }
            } break;
        case Op::CONCAT: if (b->w < 64) { ul = ((u128) a->ulo << b->w) + b->ulo; uh = (a->uhi << b->w) + b->uhi; su = true; } break;
        case Op::SREM: if (b->isConst() && b->slo > 0) { i64 m = b->slo - 1; sh = a->shi > 0 ? std::min(m, a->shi) : 0; sl = a->slo < 0 ? std::max(-m, a->slo) : 0; ss = true; } break;
        case Op::SDIV: if (b->isConst() && b->slo > 0) { sl = a->slo / b->slo; sh = a->shi / b->slo; ss = true; } break;
        default: break;
    }
    // cross-derive
    if (su) { if (uh <= (u64) smax(w)) { sl = std::max(sl, (i64) ul); sh = std::min(sh, (i64) uh); } }
    if (ss) { if (sl >= 0) { ul = std::max(ul, (u64) sl); uh = std::min(uh, (u64) sh); } }
    e->ulo = ul; e->uhi = uh; e->slo = sl; e->shi = sh;
}

static E intern(Op op, int w, int nk, E k0, E k1, E k2, u128 c) {
    Key key{op, (uint16_t) w, k0, k1, k2, c};
    auto it = g_table.find(key);
    if (it != g_table.end()) return it->second;
    E e = newExpr();
    e->op = op; e->w = w; e->nk = nk; e->k[0] = k0; e->k[1] = k1; e->k[2] = k2; e->c = c; e->poly = nullptr; e->vars = nullptr;
    computeRange(e);
    g_table.emplace(key, e);
    return e;
}

E mkConst(u128 v, int w) { return intern(Op::CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(const std::string &name, int w, u64 lo, u64 hi) {
    g_vars.push_back({name, w, lo, hi});
    return intern(Op::VAR, w, 0, nullptr, nullptr, nullptr, g_vars.size() - 1);
}

E mkVarRef(size_t idx) { return intern(Op::VAR, g_vars[idx].w, 0, nullptr, nullptr, nullptr, idx); }

static u128 foldBin(Op op, int w, u128 a, u128 b) {
    u128 m = maskw(w);
    switch (op) {
        case Op::ADD: return (a + b) & m;
        case Op::SUB: return (a - b) & m;
        case Op::MUL: return (a * b) & m;
        case Op::UDIV: return b ? a / b : m;
        case Op::UREM: return b ? a % b : a;
        case Op::SDIV: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (u128) (-(u128) x) & m; return (u128) (x / y) & m; }
        case Op::SREM: { i128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128) (x % y) & m; }
        case Op::AND: return a & b;
        case Op::OR: return a | b;
        case Op::XOR: return a ^ b;
        case Op::SHL: return b >= (u128) w ? 0 : (a << (int) b) & m;
        case Op::LSHR: return b >= (u128) w ? 0 : (a >> (int) b);
        case Op::ASHR: { i128 x = sx128(a, w); int s = b >= (u128) w ? w - 1 : (int) b; return (u128) (x >> s) & m; }
        case Op::EQ: return a == b;
        case Op::ULT: return a < b;
        case Op::ULE: return a <= b;
        case Op::SLT: return sx128(a, w) < sx128(b, w);
        case Op::SLE: return sx128(a, w) <= sx128(b, w);
        default: abort();
    }
}

E mkNot(E a) {
    if (a->isConst()) return mkConst(~a->c, a->w);
    if (a->op == Op::XOR && a->k[1]->isConst() && a->k[1]->c == maskw(a->w)) return a->k[0];
    if (a->w == 1) {
        if (a->op == Op::ULT) return mkBin(Op::ULE, a->k[1], a->k[0]);
        if (a->op == Op::ULE) return mkBin(Op::ULT, a->k[1], a->k[0]);
        if (a->op == Op::SLT) return mkBin(Op::SLE, a->k[1], a->k[0]);
        if (a->op == Op::SLE) return mkBin(Op::SLT, a->k[1], a->k[0]);
    }
    return intern(Op::XOR, a->w, 2, a, mkConst(~(u128) 0, a->w), nullptr, 0);
}

static bool isBoolNot(E a) { return a->w == 1 && a->op == Op::XOR && a->k[1]->isConst() && a->k[1]->c == 1; }

E mkBin(Op op, E a, E b) {
    int w = a->w;
    if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op=%d %d %d\n", (int) op, a->w, b->w); abort(); }
    bool cmp = op == Op::EQ || op == Op::ULT || op == Op::ULE || op == Op::SLT || op == Op::SLE;
    if (a->isConst() && b->isConst()) return mkConst(foldBin(op, w, a->c, b->c), cmp ? 1 : w);
    u128 m = maskw(w);
    // commutative: const on right, else order by id
    if (op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR || op == Op::EQ) {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    }
    bool bc = b->isConst();
    switch (op) {
        case Op::ADD:
            if (bc && b->c == 0) return a;
            if (bc && a->op == Op::ADD && a->k[1]->isConst()) return mkBin(Op::ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
            if (w == 1) return mkBin(Op::XOR, a, b);
            // push const out: (x + c) + y -> (x+y)+c
            if (!bc && a->op == Op::ADD && a->k[1]->isConst()) return mkBin(Op::ADD, mkBin(Op::ADD, a->k[0], b), a->k[1]);
            if (!bc && b->op == Op::ADD && b->k[1]->isConst()) return mkBin(Op::ADD, mkBin(Op::ADD, a, b->k[0]), b->k[1]);
            // (x - y) + y -> x
            if (a->op == Op::SUB && a->k[1] == b) return a->k[0];
            if (b->op == Op::SUB && b->k[1] == a) return b->k[0];
            break;
        case Op::SUB:
            if (bc) return mkBin(Op::ADD, a, mkConst((~b->c + 1), w));
            if (a == b) return mkConst(0, w);
            if (w == 1) return mkBin(Op::XOR, a, b);
            if (a->op == Op::ADD) {
                if (a->k[0] == b) return a->k[1];
                if (a->k[1] == b) return a->k[0];
                if (a->k[1]->isConst()) return mkBin(Op::ADD, mkBin(Op::SUB, a->k[0], b), a->k[1]);
            }
            if (b->op == Op::ADD && b->k[1]->isConst()) return mkBin(Op::ADD, mkBin(Op::SUB, a, b->k[0]), mkConst(~b->k[1]->c + 1, w));
            break;
        case Op::MUL:
            if (bc && b->c == 0) return b;
            if (bc && b->c == 1) return a;
            if (w == 1) return mkBin(Op::AND, a, b);
            if (bc && a->op == Op::MUL && a->k[1]->isConst()) return mkBin(Op::MUL, a->k[0], mkConst(a->k[1]->c * b->c, w));
            if (bc && a->op == Op::ADD && a->k[1]->isConst()) return mkBin(Op::ADD, mkBin(Op::MUL, a->k[0], b), mkConst(a->k[1]->c * b->c, w));
            if (bc && (b->c & (b->c - 1)) == 0) { int s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(Op::SHL, a, mkConst(s, w)); }
            break;
        case Op::UDIV:
            if (bc && b->c == 1) return a;
            if (bc && b->c && (b->c & (b->c - 1)) == 0) { int s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(Op::LSHR, a, mkConst(s, w)); }
            if (bc && w <= 64 && a->uhi < (u64) b->c) return mkConst(0, w);
            break;
        case Op::SDIV:
            if (bc && b->c == 1) return a;
            if (w <= 64 && a->slo >= 0 && b->slo > 0) return mkBin(Op::UDIV, a, b);
            break;
        case Op::UREM:
            if (bc && b->c == 1) return mkConst(0, w);
            if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(Op::AND, a, mkConst(b->c - 1, w));
            if (bc && w <= 64 && a->uhi < (u64) b->c) return a;
            break;
        case Op::SREM:
            if (w <= 64 && a->slo >= 0 && b->slo > 0) return mkBin(Op::UREM, a, b);
            break;
        case Op::AND:
            if (a == b) return a;
            if (bc && b->c == 0) return b;
            if (bc && b->c == m) return a;
            if (bc && a->op == Op::AND && a->k[1]->isConst()) return mkBin(Op::AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
            if (bc && a->op == Op::ZEXT && w <= 64) {
                u128 im = maskw(a->k[0]->w);
                if ((b->c & im) == im) return a;
                if (a->k[0]->w < w) return mkZext(mkBin(Op::AND, a->k[0], mkConst(b->c & im, a->k[0]->w)), w);
            }
            if (bc && (b->c & (b->c + 1)) == 0 && w <= 64) { // low mask
                if (a->uhi <= (u64) b->c) return a;
                int n = 0; while ((b->c >> n) & 1) n++;
                return mkZext(mkExtract(a, 0, n), w);
            }
            if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
            break;
        case Op::OR:
            if (a == b) return a;
            if (bc && b->c == 0) return a;
            if (bc && b->c == m) return b;
            if (bc && a->op == Op::OR && a->k[1]->isConst()) return mkBin(Op::OR, a->k[0], mkConst(a->k[1]->c | b->c, w));
            if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
            // concat patterns: zext(x) | (zext(y) << n)
            {
                E lo = a, hi = b;
                for (int t = 0; t < 2; t++, std::swap(lo, hi)) {
                    if (hi->op == Op::SHL && hi->k[1]->isConst() && w <= 128) {
                        int s = (int) hi->k[1]->c;
                        E lz = nullptr;
                        if (lo->op == Op::ZEXT && lo->k[0]->w <= s) lz = lo->k[0];
                        if (lz) {
                            E rest = mkExtract(hi->k[0], 0, w - s);
                            return mkConcat(rest, mkZext(lz, s));
                        }
                    }
                    if (hi->op == Op::CONCAT && hi->k[1]->isConst() && hi->k[1]->c == 0 && lo->op == Op::ZEXT && lo->k[0]->w <= hi->k[1]->w)
                        return mkConcat(hi->k[0], mkZext(lo->k[0], hi->k[1]->w));
                    // concat(0, X...) | concat(Y, 0)
                    if (hi->op == Op::CONCAT && lo->op == Op::CONCAT && hi->k[1]->w == lo->k[1]->w)
                        return mkConcat(mkBin(Op::OR, hi->k[0], lo->k[0]), mkBin(Op::OR, hi->k[1], lo->k[1]));
                }
            }
            break;
        case Op::XOR:
            if (a == b) return mkConst(0, w);
            if (bc && b->c == 0) return a;
            if (bc && b->c == m) return mkNot(a);
            if (bc && a->op == Op::XOR && a->k[1]->isConst()) return mkBin(Op::XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
            break;
        case Op::SHL:
            if (bc && b->c == 0) return a;
            if (bc && b->c >= (u128) w) return mkConst(0, w);
            if (bc && a->op == Op::SHL && a->k[1]->isConst()) return mkBin(Op::SHL, a->k[0], mkConst(a->k[1]->c + b->c, w));
            if (bc && a->op == Op::ZEXT && a->k[0]->w + (int) b->c <= w && false) {}
            break;
        case Op::LSHR:
            if (bc && b->c == 0) return a;
            if (bc && b->c >= (u128) w) return mkConst(0, w);
            if (bc) return mkZext(mkExtract(a, (int) b->c, w - (int) b->c), w);
            break;
        case Op::ASHR:
            if (bc && b->c == 0) return a;
            if (bc && w <= 64 && a->slo >= 0) return mkBin(Op::LSHR, a, b);
            if (bc && a->op == Op::SHL && a->k[1] == b && b->c < (u128) w) return mkSext(mkExtract(a->k[0], 0, w - (int) b->c), w);
            break;
        case Op::EQ:
            if (a == b) return mkTrue();
            if (w <= 64 && (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo)) return mkFalse();
            if (w == 1 && bc) return b->c ? a : mkNot(a);
            if (bc && a->op == Op::ZEXT) {
                if (b->c > maskw(a->k[0]->w)) return mkFalse();
                return mkBin(Op::EQ, a->k[0], mkConst(b->c, a->k[0]->w));
            }
            if (bc && a->op == Op::SEXT) {
                u128 t = b->c & maskw(a->k[0]->w);
                if ((((u128) sx128(t, a->k[0]->w)) & m) != b->c) return mkFalse();
                return mkBin(Op::EQ, a->k[0], mkConst(t, a->k[0]->w));
            }
            if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(Op::EQ, a->k[0], b->k[0]);
            if (a->op == Op::SEXT && b->op == Op::SEXT && a->k[0]->w == b->k[0]->w) return mkBin(Op::EQ, a->k[0], b->k[0]);
            if (bc && a->op == Op::ADD && a->k[1]->isConst()) return mkBin(Op::EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
            if (bc && a->op == Op::XOR && a->k[1]->isConst()) return mkBin(Op::EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
            if (bc && a->op == Op::CONCAT)
                return mkBin(Op::AND, mkBin(Op::EQ, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)), mkBin(Op::EQ, a->k[1], mkConst(b->c, a->k[1]->w)));
            if (bc && a->op == Op::ITE && (a->k[1]->isConst() || a->k[2]->isConst())) {
                E x = mkBin(Op::EQ, a->k[1], b), y = mkBin(Op::EQ, a->k[2], b);
                if (x->isConst() || y->isConst()) return mkIte(a->k[0], x, y);
            }
            break;
        case Op::ULT:
            if (a == b) return mkFalse();
            if (w <= 64) { if (a->uhi < b->ulo) return mkTrue(); if (a->ulo >= b->uhi) return mkFalse(); }
            if (bc && b->c == 1) return mkBin(Op::EQ, a, mkConst(0, w));
            if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(Op::ULT, a->k[0], b->k[0]);
            if (bc && a->op == Op::ZEXT) return mkBin(Op::ULT, a->k[0], mkConst(b->c, a->k[0]->w)); // b fits (range check above)
            if (a->isConst() && b->op == Op::ZEXT) return mkBin(Op::ULT, mkConst(a->c, b->k[0]->w), b->k[0]);
            if (w == 1) return mkBin(Op::AND, mkNot(a), b);
            break;
        case Op::ULE:
            if (a == b) return mkTrue();
            if (w <= 64) { if (a->uhi <= b->ulo) return mkTrue(); if (a->ulo > b->uhi) return mkFalse(); }
            if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(Op::ULE, a->k[0], b->k[0]);
            if (bc && b->c != m) return mkBin(Op::ULT, a, mkConst(b->c + 1, w));
            if (a->isConst() && a->c != 0) return mkBin(Op::ULT, mkConst(a->c - 1, w), b);
            if (w == 1) return mkBin(Op::OR, mkNot(a), b);
            break;
        case Op::SLT:
            if (a == b) return mkFalse();
            if (w <= 64) {
                if (a->shi < b->slo) return mkTrue();
                if (a->slo >= b->shi) return mkFalse();
                if (a->slo >= 0 && b->slo >= 0) return mkBin(Op::ULT, a, b);
            }
            if (a->op == Op::SEXT && b->op == Op::SEXT && a->k[0]->w == b->k[0]->w) return mkBin(Op::SLT, a->k[0], b->k[0]);
            if (bc && a->op == Op::SEXT) return mkBin(Op::SLT, a->k[0], mkConst(b->c, a->k[0]->w));
            break;
        case Op::SLE:
            if (a == b) return mkTrue();
            if (w <= 64) {
                if (a->shi <= b->slo) return mkTrue();
                if (a->slo > b->shi) return mkFalse();
                if (a->slo >= 0 && b->slo >= 0) return mkBin(Op::ULE, a, b);
            }
            if (bc && (i128) sx128(b->c, w) != sx128(maskw(w) >> 1, w)) return mkBin(Op::SLT, a, mkConst(b->c + 1, w));
            break;
        default: break;
    }
    return intern(op, cmp ? 1 : w, 2, a, b, nullptr, 0);
}

E mkIte(E c, E a, E b) {
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    if (isBoolNot(c)) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkBin(Op::OR, c, b);
        if (isFalse(a)) return mkBin(Op::AND, mkNot(c), b);
        if (isTrue(b)) return mkBin(Op::OR, mkNot(c), a);
        if (isFalse(b)) return mkBin(Op::AND, c, a);
    }
    if (a->op == Op::ITE && a->k[0] == c) a = a->k[1];
    if (b->op == Op::ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return intern(Op::ITE, a->w, 3, c, a, b, 0);
}
E mkZext(E a, int w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst(a->c, w);
    if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
    return intern(Op::ZEXT, w, 1, a, nullptr, nullptr, 0);
}
E mkSext(E a, int w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst((u128) sx128(a->c, a->w), w);
    if (a->op == Op::SEXT) return mkSext(a->k[0], w);
    if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
    if (a->w <= 64 && a->slo >= 0) return mkZext(a, w);
    return intern(Op::SEXT, w, 1, a, nullptr, nullptr, 0);
}
E mkExtract(E a, int off, int w) {
    if (off == 0 && a->w == w) return a;
    if (a->isConst()) return mkConst(a->c >> off, w);
    switch (a->op) {
        case Op::EXTRACT: return mkExtract(a->k[0], off + (int) a->c, w);
        case Op::ZEXT: {
            int iw = a->k[0]->w;
            if (off >= iw) return mkConst(0, w);
            if (off + w <= iw) return mkExtract(a->k[0], off, w);
            if (off == 0) return mkZext(a->k[0], w);
            return mkZext(mkExtract(a->k[0], off, iw - off), w);
        }
        case Op::SEXT: {
            int iw = a->k[0]->w;
            if (off + w <= iw) return mkExtract(a->k[0], off, w);
            if (off == 0) return mkSext(a->k[0], w);
            break;
        }
        case Op::CONCAT: {
            int lw = a->k[1]->w;
            if (off >= lw) return mkExtract(a->k[0], off - lw, w);
            if (off + w <= lw) return mkExtract(a->k[1], off, w);
            return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
        }
        case Op::SHL:
            if (a->k[1]->isConst()) {
                int s = (int) a->k[1]->c;
                if (off >= s) return mkExtract(a->k[0], off - s, w);
                if (off + w <= s) return mkConst(0, w);
                return mkConcat(mkExtract(a->k[0], 0, off + w - s), mkConst(0, s - off));
            }
            break;
        case Op::AND: case Op::OR: case Op::XOR:
            return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
        case Op::ADD: case Op::SUB: case Op::MUL:
            if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            break;
        case Op::ITE:
            if (a->k[1]->isConst() || a->k[2]->isConst()) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
            break;
        default: break;
    }
    return intern(Op::EXTRACT, w, 1, a, nullptr, nullptr, off);
}
E mkConcat(E hi, E lo) {
    int w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->isConst() && hi->c == 0) return mkZext(lo, w);
    // extract(x, h) ++ extract(x, l) adjacent
    auto parts = [](E e, E &src, int &off) { if (e->op == Op::EXTRACT) { src = e->k[0]; off = (int) e->c; } else { src = e; off = 0; } };
    E s1, s2; int o1, o2;
    parts(hi, s1, o1); parts(lo, s2, o2);
    if (s1 == s2 && o1 == o2 + lo->w && (hi->op == Op::EXTRACT)) return mkExtract(s1, o2, w);
    if (hi->op == Op::CONCAT) { // right-assoc merge:  (h ++ m) ++ lo  -> try merge m,lo
        E m = mkConcat(hi->k[1], lo);
        if (m->op != Op::CONCAT) return mkConcat(hi->k[0], m);
    }
    if (lo->op == Op::CONCAT) {
        E m = mkConcat(hi, lo->k[0]);
        if (m->op != Op::CONCAT) return mkConcat(m, lo->k[1]);
    }
    return intern(Op::CONCAT, w, 2, hi, lo, nullptr, 0);
}

// ---------------------------------------------------------------- floats
static const int PREC(int w) { return w == 32 ? 24 : 53; }

static bool polyLess(const Mono &a, const Mono &b) {
    if (a.atoms.size() != b.atoms.size()) return a.atoms.size() < b.atoms.size();
    for (size_t i = 0; i < a.atoms.size(); i++) if (a.atoms[i] != b.atoms[i]) return a.atoms[i]->id < b.atoms[i]->id;
    return false;
}
static bool sameAtoms(const Mono &a, const Mono &b) { return a.atoms == b.atoms; }

static bool normPoly(Poly &p) { // canonicalise; false on coefficient overflow
    std::sort(p.terms.begin(), p.terms.end(), polyLess);
    std::vector<Mono> out;
    for (auto &t: p.terms) {
        if (!out.empty() && sameAtoms(out.back(), t)) {
            i64 r; if (__builtin_add_overflow(out.back().coeff, t.coeff, &r)) return false;
            out.back().coeff = r;
        } else out.push_back(t);
        if (out.back().coeff == 0) out.pop_back();
    }
    p.terms.swap(out);
    if (p.terms.empty()) { p.k = 0; p.lo = p.hi = 0; return true; }
    // scale down
    int tz = 63;
    for (auto &t: p.terms) tz = std::min(tz, __builtin_ctzll((u64) t.coeff));
    // keep k >= 0 normal form: only strip while k>0, integers keep k==0
    int strip = std::min(tz, std::max(p.k, 0));
    if (strip > 0) { for (auto &t: p.terms) t.coeff >>= strip; p.k -= strip; }
    // bounds
    i128 lo = 0, hi = 0;
    for (auto &t: p.terms) {
        i128 l = t.coeff, h = t.coeff;
        size_t i = 0;
        while (i < t.atoms.size()) {
            size_t j = i; while (j < t.atoms.size() && t.atoms[j] == t.atoms[i]) j++;
            i128 al = t.atoms[i]->slo, ah = t.atoms[i]->shi;
            i128 pl = 1, ph = 1;
            int n = (int) (j - i);
            if (n % 2 == 0) {
                i128 mx = std::max(al < 0 ? -al : al, ah < 0 ? -ah : ah), mn = (al <= 0 && ah >= 0) ? 0 : std::min(al < 0 ? -al : al, ah < 0 ? -ah : ah);
                for (int q = 0; q < n; q++) { pl *= mn; ph *= mx; if (ph > ((i128) 1 << 62)) return false; }
            } else {
                for (int q = 0; q < n; q++) { pl *= al; ph *= ah; if (pl < -((i128) 1 << 62) || ph > ((i128) 1 << 62)) return false; }
            }
            i128 c[4] = {l * pl, l * ph, h * pl, h * ph};
            l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
            if (l < -((i128) 1 << 62) || h > ((i128) 1 << 62)) return false;
            i = j;
        }
        lo += l; hi += h;
    }
    if (lo < -((i128) 1 << 62) || hi > ((i128) 1 << 62)) return false;
    p.lo = lo; p.hi = hi;
    return true;
}
static bool polyExact(const Poly &p, int w) { // every value representable exactly in the format
    i128 m = std::max(p.hi < 0 ? -p.hi : p.hi, p.lo < 0 ? -p.lo : p.lo);
    if (m > ((i128) 1 << PREC(w))) {
        // integer with trailing zeros: strip common factor
        int tz = 63; for (auto &t: p.terms) tz = std::min(tz, __builtin_ctzll((u64) t.coeff));
        if ((m >> tz) > ((i128) 1 << PREC(w))) return false;
    }
    int emin = w == 32 ? 126 : 1022;
    if (p.k > emin) return false;
    return m < ((i128) 1 << 62);
}
static E internPoly(const Poly &p, int w) {
    if (p.terms.empty()) return mkConst(0, w);
    std::string key; key.reserve(64);
    key.append((const char *) &w, 4); key.append((const char *) &p.k, 4);
    for (auto &t: p.terms) { for (auto a: t.atoms) key.append((const char *) &a->id, 4); uint32_t z = 0; key.append((const char *) &z, 4); key.append((const char *) &t.coeff, 8); }
    auto it = g_polys.find(key);
    if (it != g_polys.end()) return it->second;
    if (p.terms.size() == 1 && p.terms[0].atoms.empty()) { // constant
        double d = ldexp((double) p.terms[0].coeff, -p.k);
        if (w == 32) { float f = (float) d; uint32_t b; memcpy(&b, &f, 4); return mkConst(b, 32); }
        u64 b; memcpy(&b, &d, 8); return mkConst(b, 64);
    }
    E e = newExpr();
    e->op = Op::POLY; e->w = w; e->nk = 0; e->k[0] = e->k[1] = e->k[2] = nullptr; e->c = 0; e->vars = nullptr; e->poly = new Poly(p);
    computeRange(e);
    g_polys[key] = e;
    return e;
}
bool floatView(E e, Poly &out) {
    if (e->op == Op::POLY) { out = *e->poly; return true; }
    if (e->isConst()) {
        double d;
        if (e->w == 32) { uint32_t b = (uint32_t) e->c; float f; memcpy(&f, &b, 4); d = f; } else { u64 b = (u64) e->c; memcpy(&d, &b, 8); }
        if (!std::isfinite(d)) return false;
        out = Poly();
        if (d == 0) return !std::signbit(d) || true;
        int ex; double m = frexp(d, &ex); // d = m*2^ex, 0.5<=|m|<1
        i64 mi = (i64) ldexp(m, 53); int k = 53 - ex;
        int tz = __builtin_ctzll((u64) mi);
        mi >>= tz; k -= tz;
        if (k < 0) { if (-k > 60) return false; i128 v = (i128) mi << (-k); if (v > ((i128) 1 << 61) || v < -((i128) 1 << 61)) return false; mi = (i64) v; k = 0; }
        if (k > 200) return false;
        out.terms.push_back({{}, mi}); out.k = k;
        return normPoly(out);
    }
    return false;
}
static bool addPoly(const Poly &a, const Poly &b, int sign, Poly &r) {
    int k = std::max(a.k, b.k);
    int sa = k - a.k, sb = k - b.k;
    if (sa > 60 || sb > 60) return false;
    r = Poly(); r.k = k;
    for (auto t: a.terms) { i128 v = (i128) t.coeff << sa; if (v > INT64_MAX / 4 || v < INT64_MIN / 4) return false; t.coeff = (i64) v; r.terms.push_back(t); }
    for (auto t: b.terms) { i128 v = ((i128) t.coeff << sb) * sign; if (v > INT64_MAX / 4 || v < INT64_MIN / 4) return false; t.coeff = (i64) v; r.terms.push_back(t); }
    return normPoly(r);
}
static bool mulPoly(const Poly &a, const Poly &b, Poly &r) {
    if (a.terms.size() * b.terms.size() > 4000) return false;
    r = Poly(); r.k = a.k + b.k;
    for (auto &x: a.terms) for (auto &y: b.terms) {
        i128 v = (i128) x.coeff * y.coeff; if (v > INT64_MAX / 4 || v < INT64_MIN / 4) return false;
        Mono m; m.coeff = (i64) v; m.atoms = x.atoms; m.atoms.insert(m.atoms.end(), y.atoms.begin(), y.atoms.end());
        std::sort(m.atoms.begin(), m.atoms.end(), [](E p, E q) { return p->id < q->id; });
        r.terms.push_back(std::move(m));
    }
    return normPoly(r);
}
int polyWidth(const Poly &p) {
    // width for evaluating every partial sum without wrapping: use modular arithmetic, only the result must fit.
    i128 m = std::max(p.hi < 0 ? -p.hi : p.hi, p.lo < 0 ? -p.lo : p.lo);
    int w = 2; while (((i128) 1 << (w - 1)) <= m) w++;
    return w;
}
E polyBV(const Poly &p, int &w) {
    if (w == 0) w = polyWidth(p);
    E sum = nullptr;
    for (auto &t: p.terms) {
        E m = nullptr;
        for (auto a: t.atoms) {
            E x = a->w >= w ? mkExtract(a, 0, w) : mkSext(a, w);
            m = m ? mkBin(Op::MUL, m, x) : x;
        }
        E c = mkConst((u128) (i128) t.coeff, w);
        m = m ? mkBin(Op::MUL, m, c) : c;
        sum = sum ? mkBin(Op::ADD, sum, m) : m;
    }
    return sum ? sum : mkConst(0, w);
}

static float asF(u128 b) { uint32_t x = (uint32_t) b; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 b) { u64 x = (u64) b; double f; memcpy(&f, &x, 8); return f; }
static u128 ofF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 ofD(double f) { u64 x; memcpy(&x, &f, 8); return x; }

u128 evalFloatOp(Op op, int w, u128 a, u128 b, u128 c, int wa) {
    if (wa == 32 || (wa == 0 && w == 32)) {
        float x = asF(a), y = asF(b);
        switch (op) {
            case Op::FADD: return ofF(x + y);
            case Op::FSUB: return ofF(x - y);
            case Op::FMUL: return ofF(x * y);
            case Op::FDIV: return ofF(x / y);
            case Op::FREM: return ofF(fmodf(x, y));
            case Op::FSQRT: return ofF(sqrtf(x));
            case Op::FABS_: return a & 0x7fffffffu;
            case Op::FNEG_: return (a ^ 0x80000000u) & 0xffffffffu;
            case Op::FRND: switch ((int) c) { case R_NEAR_EVEN: return ofF(rintf(x)); case R_FLOOR: return ofF(floorf(x)); case R_CEIL: return ofF(ceilf(x)); case R_TRUNC: return ofF(truncf(x)); default: return ofF(roundf(x)); }
            case Op::FEQ: return x == y;
            case Op::FLT: return x < y;
            case Op::FLE: return x <= y;
            case Op::FNAN: return x != x || y != y;
            case Op::FCVT: return w == 32 ? a : ofD((double) x);
            case Op::F2SI: case Op::F2UI: {
                if (op == Op::F2SI) { double d = truncf(x); if (!(d >= -9.3e18 && d <= 9.2e18)) return (w == 64 ? (u128) 0x8000000000000000ull : (u128) 0x80000000u) & maskw(w); return (u128) (i128) (i64) d & maskw(w); }
                double d = truncf(x); if (!(d >= 0 && d < 1.8446744e19)) return 0x8000000000000000ull & maskw(w); return (u128) (u64) d & maskw(w);
            }
            default: break;
        }
    } else {
        double x = asD(a), y = asD(b);
        switch (op) {
            case Op::FADD: return ofD(x + y);
            case Op::FSUB: return ofD(x - y);
            case Op::FMUL: return ofD(x * y);
            case Op::FDIV: return ofD(x / y);
            case Op::FREM: return ofD(fmod(x, y));
            case Op::FSQRT: return ofD(sqrt(x));
            case Op::FABS_: return a & 0x7fffffffffffffffull;
            case Op::FNEG_: return (u64) (a ^ 0x8000000000000000ull);
            case Op::FRND: switch ((int) c) { case R_NEAR_EVEN: return ofD(rint(x)); case R_FLOOR: return ofD(floor(x)); case R_CEIL: return ofD(ceil(x)); case R_TRUNC: return ofD(trunc(x)); default: return ofD(round(x)); }
            case Op::FEQ: return x == y;
            case Op::FLT: return x < y;
            case Op::FLE: return x <= y;
            case Op::FNAN: return x != x || y != y;
            case Op::FCVT: return w == 64 ? a : ofF((float) x);
            case Op::F2SI: { double d = trunc(x); if (!(d >= -9.3e18 && d <= 9.2e18)) return (w == 64 ? (u128) 0x8000000000000000ull : (u128) 0x80000000u) & maskw(w); return (u128) (i128) (i64) d & maskw(w); }
            case Op::F2UI: { double d = trunc(x); if (!(d >= 0 && d < 1.8446744e19)) return 0x8000000000000000ull & maskw(w); return (u128) (u64) d & maskw(w); }
            default: break;
        }
    }
    fprintf(stderr, "evalFloatOp: bad op %d\n", (int) op); abort();
}
u128 evalUF(UfId id, int w, u128 a, u128 b) {
    if (w == 32) {
        float x = asF(a), y = asF(b);
        switch (id) { case UF_EXP: return ofF(expf(x)); case UF_LOG: return ofF(logf(x)); case UF_TANH: return ofF(tanhf(x)); case UF_POW: return ofF(powf(x, y));
            case UF_SIN: return ofF(sinf(x)); case UF_COS: return ofF(cosf(x)); case UF_LOG2: return ofF(log2f(x)); case UF_EXP2: return ofF(exp2f(x)); default: abort(); }
    }
    double x = asD(a), y = asD(b);
    switch (id) { case UF_EXP: return ofD(exp(x)); case UF_LOG: return ofD(log(x)); case UF_TANH: return ofD(tanh(x)); case UF_POW: return ofD(pow(x, y));
        case UF_SIN: return ofD(sin(x)); case UF_COS: return ofD(cos(x)); case UF_LOG2: return ofD(log2(x)); case UF_EXP2: return ofD(exp2(x)); default: abort(); }
}

E mkFIte(E c, E a, E b) {
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    Poly pa, pb;
    if ((a->op == Op::POLY || b->op == Op::POLY || (a->isConst() && b->isConst())) && floatView(a, pa) && floatView(b, pb)) {
        // negative zero constants would lose their sign: keep bit form then
        auto negz = [](E e) { return e->isConst() && (e->c == ((u128) 1 << (e->w - 1))); };
        int k = std::max(pa.k, pb.k);
        if (!negz(a) && !negz(b) && k - pa.k <= 40 && k - pb.k <= 40) {
            Poly one; one.terms.push_back({{}, 1}); one.k = 0; normPoly(one);
            // scale both to k
            auto scaled = [&](const Poly &p) { Poly q = p; int s = k - p.k; for (auto &t: q.terms) t.coeff = (i64) ((i128) t.coeff << s); q.k = 0; q.lo = p.lo << s; q.hi = p.hi << s; return q; };
            Poly qa = scaled(pa), qb = scaled(pb);
            int w = std::max(polyWidth(qa), polyWidth(qb));
            if (w <= 60) {
                int wa = w, wb = w;
                E A = polyBV(qa, wa), B = polyBV(qb, wb);
                E at = mkIte(c, A, B);
                Poly r; r.k = k;
                if (at->isConst()) r.terms.push_back({{}, (i64) sx128(at->c, at->w)}); else r.terms.push_back({{at}, 1});
                if (normPoly(r) && polyExact(r, a->w)) return internPoly(r, a->w);
            }
        }
    }
    return mkIte(c, a, b);
}

E mkFBin(Op op, E a, E b) {
    int w = a->w;
    if (a->isConst() && b->isConst()) return mkConst(evalFloatOp(op, w, a->c, b->c, 0, w), w);
    Poly pa, pb, r;
    bool va = floatView(a, pa), vb = floatView(b, pb);
    auto isC = [&](E e, double v) { return e->isConst() && (w == 32 ? asF(e->c) == (float) v : asD(e->c) == v) && !(v == 0 && (e->c >> (w - 1))); };
    if (va && vb) {
        bool ok = false;
        if (op == Op::FADD) ok = addPoly(pa, pb, 1, r);
        else if (op == Op::FSUB) ok = addPoly(pa, pb, -1, r);
        else if (op == Op::FMUL) ok = mulPoly(pa, pb, r);
        else if (op == Op::FDIV && b->isConst() && pb.terms.size() == 1 && pb.terms[0].coeff != 0) {
            i64 c = pb.terms[0].coeff; i64 ac = c < 0 ? -c : c;
            if ((ac & (ac - 1)) == 0) { // +-2^n * 2^-k
                int n = __builtin_ctzll((u64) ac);
                r = pa; int sh = n - pb.k; // value / 2^(n-pb.k)
                if (sh >= 0) r.k = pa.k + sh; else { Poly m; m.terms.push_back({{}, (i64) 1 << std::min(60, -sh)}); m.k = 0; normPoly(m); ok = -sh <= 60 && mulPoly(pa, m, r); if (!ok) goto generic; }
                if (c < 0) for (auto &t: r.terms) t.coeff = -t.coeff;
                ok = normPoly(r);
            }
        }
        if (ok && polyExact(r, w)) return internPoly(r, w);
    }
generic:
    if (op == Op::FMUL && isC(b, 1.0)) return a;
    if (op == Op::FMUL && isC(a, 1.0)) return b;
    if (op == Op::FDIV && isC(b, 1.0)) return a;
    if (op == Op::FMUL || op == Op::FADD) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
    return intern(op, w, 2, a, b, nullptr, 0);
}
E mkFCmp(Op op, E a, E b) {
    int w = a->w;
    if (a->isConst() && b->isConst()) return mkConst(evalFloatOp(op, w, a->c, b->c, 0, w), 1);
    Poly pa, pb, d;
    bool va = floatView(a, pa), vb = floatView(b, pb);
    if (op == Op::FNAN) {
        if (va && vb) return mkFalse();
        if (va && !b->isConst()) return mkFCmp(Op::FNAN, b, b);
        if (vb && !a->isConst()) { if (a != b) return mkFCmp(Op::FNAN, a, a); }
        if ((a->isConst() && evalFloatOp(Op::FNAN, w, a->c, a->c, 0, w)) || (b->isConst() && evalFloatOp(Op::FNAN, w, b->c, b->c, 0, w))) return mkTrue();
        if (a->id > b->id) std::swap(a, b);
    } else if (va && vb && addPoly(pa, pb, -1, d)) {
        if (op == Op::FEQ) { if (d.lo > 0 || d.hi < 0) return mkFalse(); if (d.lo == 0 && d.hi == 0) return mkTrue(); }
        if (op == Op::FLT) { if (d.hi < 0) return mkTrue(); if (d.lo >= 0) return mkFalse(); }
        if (op == Op::FLE) { if (d.hi <= 0) return mkTrue(); if (d.lo > 0) return mkFalse(); }
        // drop common power of two
        int tz = 63; for (auto &t: d.terms) tz = std::min(tz, __builtin_ctzll((u64) t.coeff));
        if (tz > 0) { for (auto &t: d.terms) t.coeff >>= tz; d.k = 0; normPoly(d); }
        int bw = 0; E v = polyBV(d, bw);
        if (op == Op::FEQ) return mkBin(Op::EQ, v, mkConst(0, bw));
        if (op == Op::FLT) return mkBin(Op::SLT, v, mkConst(0, bw));
        return mkBin(Op::SLE, v, mkConst(0, bw));
    }
    if (op == Op::FEQ && a->id > b->id) std::swap(a, b);
    return intern(op, 1, 2, a, b, nullptr, 0);
}
E mkFUn(Op op, E a, u128 c) {
    int w = a->w;
    if (a->isConst()) return mkConst(evalFloatOp(op, w, a->c, 0, c, w), w);
    Poly p;
    if (floatView(a, p)) {
        if (op == Op::FNEG_) { for (auto &t: p.terms) t.coeff = -t.coeff; if (normPoly(p) && polyExact(p, w)) return internPoly(p, w); }
        if (op == Op::FABS_) {
            if (p.lo >= 0) return a;
            E neg = mkFUn(Op::FNEG_, a);
            return mkFIte(mkFCmp(Op::FLT, a, mkConst(0, w)), neg, a);
        }
        if (op == Op::FRND) {
            if (p.k <= 0) return a;
            int bw = polyWidth(p) + 2;
            if (p.k < 40) {
                bw = std::max(bw, p.k + 2);
                E v = polyBV(p, bw);
                E r = nullptr;
                E kk = mkConst(p.k, bw);
                E fl = mkBin(Op::ASHR, v, kk);
                E frac = mkBin(Op::AND, v, mkConst(((u128) 1 << p.k) - 1, bw));
                E one = mkConst(1, bw), zero = mkConst(0, bw);
                E half = mkConst((u128) 1 << (p.k - 1), bw);
                switch ((int) c) {
                    case R_FLOOR: r = fl; break;
                    case R_CEIL: r = mkIte(mkBin(Op::EQ, frac, zero), fl, mkBin(Op::ADD, fl, one)); break;
                    case R_TRUNC: r = mkIte(mkBin(Op::AND, mkBin(Op::SLT, v, zero), mkNot(mkBin(Op::EQ, frac, zero))), mkBin(Op::ADD, fl, one), fl); break;
                    case R_AWAY: { // half away from zero
                        E up = mkIte(mkBin(Op::SLT, v, zero), mkBin(Op::ULT, half, frac), mkBin(Op::ULE, half, frac));
                        r = mkIte(up, mkBin(Op::ADD, fl, one), fl); break;
                    }
                    default: {
                        E odd = mkBin(Op::EQ, mkBin(Op::AND, fl, one), one);
                        E up = mkBin(Op::OR, mkBin(Op::ULT, half, frac), mkBin(Op::AND, mkBin(Op::EQ, frac, half), odd));
                        r = mkIte(up, mkBin(Op::ADD, fl, one), fl);
                    }
                }
                // narrow to the integral range
                i128 lo = (p.lo >> p.k), hi = (p.hi >> p.k) + 1;
                int nw = 2; while (-((i128) 1 << (nw - 1)) > lo || ((i128) 1 << (nw - 1)) <= hi) nw++;
                r = mkExtract(r, 0, std::min(nw, bw));
                return mkI2F(Op::SI2F, r, w);
            }
        }
    }
    if (op == Op::FABS_) return mkBin(Op::AND, a, mkConst(maskw(w) >> 1, w));
    if (op == Op::FNEG_) return mkBin(Op::XOR, a, mkConst((u128) 1 << (w - 1), w));
    return intern(op, w, 1, a, nullptr, nullptr, c);
}
E mkFCvt(E a, int w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst(evalFloatOp(Op::FCVT, w, a->c, 0, 0, a->w), w);
    Poly p;
    if (floatView(a, p) && polyExact(p, w)) return internPoly(p, w);
    if (w == 32 && a->op == Op::FCVT && a->k[0]->w == 32) return a->k[0]; // float->double->float
    return intern(Op::FCVT, w, 1, a, nullptr, nullptr, 0);
}
E mkI2F(Op op, E a, int w) {
    if (a->isConst()) {
        i128 v = op == Op::SI2F ? sx128(a->c, a->w) : (i128) a->c;
        if (w == 32) return mkConst(ofF((float) v), 32);
        return mkConst(ofD((double) v), 64);
    }
    if (a->w <= 64) {
        bool okS = op == Op::SI2F ? true : (a->slo >= 0);
        if (!okS && a->w < 64) { a = mkZext(a, a->w + 1); okS = true; op = Op::SI2F; }
        if (okS) {
            Poly p; 
            // fold linear integer structure: strip constant addends so that atoms stay canonical
            i128 off = 0; E base = a;
            // peel extensions/adds whose arithmetic does not wrap
            while (true) {
                if (base->op == Op::SEXT) { base = base->k[0]; continue; }
                if (base->op == Op::ZEXT && base->w != base->k[0]->w + 1) { base = mkZext(base->k[0], base->k[0]->w + 1); break; }
                if (base->op == Op::ADD && base->k[1]->isConst()) {
                    i128 l = (i128) base->k[0]->slo + sx128(base->k[1]->c, base->w), h = (i128) base->k[0]->shi + sx128(base->k[1]->c, base->w);
                    if (l >= smin(base->w) && h <= smax(base->w)) { off += sx128(base->k[1]->c, base->w); base = base->k[0]; continue; }
                }
                break;
            }
            p.terms.push_back({{base}, 1});
            if (off) p.terms.push_back({{}, (i64) off});
            p.k = 0;
            if (normPoly(p) && polyExact(p, w)) return internPoly(p, w);
        }
    }
    return intern(op, w, 1, a, nullptr, nullptr, 0);
}
E mkF2I(Op op, E a, int w) {
    if (a->isConst()) return mkConst(evalFloatOp(op, w, a->c, 0, 0, a->w), w);
    Poly p;
    if (floatView(a, p)) {
        if (p.k > 0) { E t = mkFUn(Op::FRND, a, R_TRUNC); if (t->isConst()) return mkF2I(op, t, w); if (!floatView(t, p) || p.k > 0) goto generic; }
        int bw = polyWidth(p);
        if (bw <= w || op == Op::F2SI) {
            E v = polyBV(p, bw);
            return bw >= w ? mkExtract(v, 0, w) : mkSext(v, w);
        }
    }
generic:
    return intern(op, w, 1, a, nullptr, nullptr, 0);
}
E mkUF(UfId id, E a, E b) {
    int w = a->w;
    if (a->isConst() && (!b || b->isConst())) return mkConst(evalUF(id, w, a->c, b ? b->c : 0), w);
    if (id == UF_POW && b && b->isConst()) { // pow(x, 2) and pow(x,1): exact by IEEE (correct rounding of x*x is what libm gives)
        double y = w == 32 ? asF(b->c) : asD(b->c);
        if (y == 2.0) return mkFBin(Op::FMUL, a, a);
        if (y == 1.0) return a;
    }
    return intern(Op::UF, w, b ? 2 : 1, a, b, nullptr, id);
}

// ---------------------------------------------------------------- evaluation
double polyToDouble(const Poly &p, i128 scaled) { return ldexp((double) scaled, -p.k); }

u128 evalExpr(E e, const std::vector<u64> &model, std::unordered_map<E, u128> &memo) {
    if (e->isConst()) return e->c;
    if (e->op == Op::VAR) { size_t i = (size_t) e->c; return i < model.size() ? model[i] : g_vars[i].lo; }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 r;
    if (e->op == Op::POLY) {
        i128 s = 0;
        for (auto &t: e->poly->terms) { i128 m = t.coeff; for (auto a: t.atoms) m *= sx128(evalExpr(a, model, memo), a->w); s += m; }
        double d = polyToDouble(*e->poly, s);
        r = e->w == 32 ? ofF((float) d) : ofD(d);
    } else {
        u128 a = e->nk > 0 ? evalExpr(e->k[0], model, memo) : 0;
        if (e->op == Op::ITE) { r = evalExpr(a ? e->k[1] : e->k[2], model, memo); memo[e] = r; return r; }
        u128 b = e->nk > 1 ? evalExpr(e->k[1], model, memo) : 0;
        int wa = e->nk > 0 ? e->k[0]->w : 0;
        switch (e->op) {
            case Op::ZEXT: r = a; break;
            case Op::SEXT: r = (u128) sx128(a, wa) & maskw(e->w); break;
            case Op::EXTRACT: r = (a >> (int) e->c) & maskw(e->w); break;
            case Op::CONCAT: r = (a << e->k[1]->w) | b; break;
            case Op::SI2F: case Op::UI2F: { i128 v = e->op == Op::SI2F ? sx128(a, wa) : (i128) a; r = e->w == 32 ? ofF((float) v) : ofD((double) v); break; }
            case Op::UF: r = evalUF((UfId) (int) e->c, e->w, a, b); break;
            case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FREM: case Op::FSQRT: case Op::FRND: case Op::FEQ: case Op::FLT: case Op::FLE: case Op::FNAN: case Op::FCVT:
            case Op::F2SI: case Op::F2UI: case Op::FABS_: case Op::FNEG_: r = evalFloatOp(e->op, e->w, a, b, e->c, wa); break;
            default: r = foldBin(e->op, wa, a, b);
        }
    }
    memo[e] = r;
    return r;
}

const std::vector<uint32_t> &exprVars(E e) {
    static std::vector<uint32_t> empty;
    if (e->vars) return *e->vars;
    if (e->isConst()) return empty;
    std::vector<uint32_t> v;
    if (e->op == Op::VAR) v.push_back((uint32_t) e->c);
    else {
        auto add = [&](E x) { auto &o = exprVars(x); if (o.empty()) return; std::vector<uint32_t> t; t.reserve(v.size() + o.size()); std::set_union(v.begin(), v.end(), o.begin(), o.end(), std::back_inserter(t)); v.swap(t); };
        if (e->op == Op::POLY) { for (auto &t: e->poly->terms) for (auto a: t.atoms) add(a); }
        else for (int i = 0; i < e->nk; i++) add(e->k[i]);
    }
    e->vars = new std::vector<uint32_t>(std::move(v));
    return *e->vars;
}

static const char *opn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "frnd", "feq", "flt", "fle", "fnan", "fcvt", "si2f", "ui2f", "f2si", "f2ui", "fabs", "fneg", "poly", "uf"};
std::string exprStr(E e, int depth) {
    char buf[96];
    if (e->isConst()) { snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long) e->c, e->w); return buf; }
    if (e->op == Op::VAR) return g_vars[(size_t) e->c].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + opn[(int) e->op];
    if (e->op == Op::EXTRACT || e->op == Op::UF || e->op == Op::FRND) { snprintf(buf, sizeof buf, "[%d]", (int) e->c); s += buf; }
    if (e->op == Op::POLY) {
        snprintf(buf, sizeof buf, " 2^-%d*", e->poly->k); s += buf;
        int n = 0;
        for (auto &t: e->poly->terms) { if (n++ > 6) { s += "..."; break; } snprintf(buf, sizeof buf, " %+lld", (long long) t.coeff); s += buf; for (auto a: t.atoms) s += "*" + exprStr(a, depth - 1); }
    }
    for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
