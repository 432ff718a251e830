// P13: reductions and searches over tensors
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "kit.hpp"
static std::vector<float> flat(const Cube &v) { std::vector<float> f; for (auto &x: v) for (auto &y: x) for (float z: y) f.push_back(z); return f; }
static Cube shaped(const char *nm, long lo, long hi) { size_t c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 2 + sx_tier()); return cubeInts(c, r, k, nm, lo, hi); }
SX_HARNESS(totals) { Cube v = shaped("v", -20, 20); T t = full(v); double s = 0, p = 1; for (float f: flat(v)) { s += f; p *= f; } sx_check(t->sum() == s, "sum"); sx_check(flat(v).size() > 5 || t->product() == p, "product"); }
SX_HARNESS(extremes) { size_t c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 2); Cube v = c * r * k <= 4 ? cubeBits(c, r, k, "v") : cubeOf(c, r, k, 3); if (c * r * k > 4) { size_t at = pick("at", 0, 3); v[0][at / 2][at % 2] = symf("a"); v[1][1 - at / 2][at % 2] = symf("b"); } int ok = 1; for (float f: flat(v)) ok &= !nanBits(bitsOf(f)); sx_assume(ok); T t = std::make_shared<TensorNoOpView>(full(v)); float hi = t->max(), lo = t->min(), ab = t->max_abs(); auto g = t->range(); int up = 0, dn = 0, ua = 0, all = 1; for (float f: flat(v)) { float a = f < 0 ? -f : f; up |= f == hi; dn |= f == lo; ua |= a == ab; all &= (f <= hi) & (f >= lo) & (a <= ab); } sx_check(up, "the maximum is one of the values"); sx_check(dn, "the minimum is one of the values"); sx_check(ua, "the largest magnitude is one of the magnitudes"); sx_check(all, "no value lies outside"); sx_check((g.first == lo) & (g.second == hi), "range"); }
SX_HARNESS(invalid) { sx_loose_text(); size_t c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 2); Cube v = cubeBits(c, r, k, "v"); int bad = 0; for (float f: flat(v)) bad |= (bitsOf(f) & 0x7f800000u) == 0x7f800000u; T t = full(v); sx_check(t->hasNaNOrInf() == (bool) bad, "NaN and infinity are found anywhere"); sx_check(hasInvalidValues(t) == (bool) bad, "and reported"); } // opts: time=60
SX_HARNESS(searches) { size_t c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 3), ch = pick("channel", 0, 1), row = pick("row", 0, 1); if (ch >= c || row >= r) return; Cube v = cubeOf(c, r, k); int n = 0; for (auto &x: v) for (auto &y: x) for (float &z: y) z = (float) (n++ * 7 % 5); for (size_t i = 0; i < k; i++) v[ch][row][i] = symi("v" + std::to_string(i), -3, 3); auto &w = v[ch][row]; T t = full(v); size_t hi = t->maxIndexByRow(ch, row), lo = t->minIndex(ch, row); int ok = hi < k && lo < k; for (size_t i = 0; i < k; i++) ok &= (w[i] <= w[hi]) & (w[i] >= w[lo]) & (i >= hi || w[i] < w[hi]) & (i >= lo || w[i] > w[lo]); sx_check(ok, "first greatest and first least of the row"); auto H = t->maxIndices(ch, row), L = t->minIndices(ch, row); size_t a = 0, b = 0; ok = 1; for (size_t i = 0; i < k; i++) { if (w[i] == w[hi]) ok &= a < H.size() && H[a++] == i; if (w[i] == w[lo]) ok &= b < L.size() && L[b++] == i; } sx_check(ok && a == H.size() && b == L.size(), "all greatest and all least, in order"); sx_check(t->getRowValues(row, ch) == w, "row values"); if (ch == 0 && row == 0) sx_check(maxIndex(t) == hi, "maxIndex"); sx_check(sameF(scalar(t), v[0][0][0]), "scalar"); }
SX_HARNESS(columns) { size_t c = pick("channels", 1, 2), r = pick("rows", 1, 3), k = pick("columns", 1, 2), ch = pick("channel", 0, 1), col = pick("column", 0, 1); if (ch >= c || col >= k) return; Cube v = cubeOf(c, r, k); int n = 0; for (auto &x: v) for (auto &y: x) for (float &z: y) z = (float) (n++ * 7 % 5); for (size_t i = 0; i < r; i++) v[ch][i][col] = symi("v" + std::to_string(i), -3, 3); size_t hi = full(v)->maxIndexByCol(ch, col); int ok = hi < r; for (size_t i = 0; i < r; i++) ok &= (v[ch][i][col] <= v[ch][hi][col]) & (i >= hi || v[ch][i][col] < v[ch][hi][col]); sx_check(ok, "first greatest of the column"); }
SX_HARNESS(top) { size_t k = pick("columns", 1, 4 + sx_tier()), n = pick("results", 0, 5), two = pick("second row", 0, 1); std::vector<float> w; for (size_t i = 0; i < k; i++) w.push_back(symi("v" + std::to_string(i), -2, 2)); Cube v{{w}}; if (two) { v[0].insert(v[0].begin(), std::vector<float>(k, 9)); v.insert(v.begin(), cubeOf(1, 2, k, 7)[0]); } auto t = full(v)->topIndices(n, two, two); sx_check(t.size() == std::min(n, k), "as many as asked for"); int ok = 1; for (size_t i = 0; i < t.size(); i++) { size_t x = t[i].getIndex(); ok &= x < k && t[i].getValue() == w[x] && (i == 0 || t[i - 1].getValue() >= t[i].getValue()); for (size_t j = 0; j < i; j++) ok &= t[j].getIndex() != x; } sx_check(ok, "distinct places, their values, falling"); if (n) for (size_t i = 0; i < k; i++) { bool in = false; for (auto &q: t) in |= q.getIndex() == i; if (!in) sx_check(w[i] <= t.back().getValue(), "none greater left out"); } }
// statistics: exact values for few elements, tolerance otherwise
static Cube sample() { size_t n = pick("n", 1, 3 + sx_tier()), lay = pick("layout", 0, 2); Cube v = lay == 0 ? cubeOf(1, 1, n) : lay == 1 ? cubeOf(1, n, 1) : cubeOf(n, 1, 1); for (size_t i = 0; i < n; i++) (lay == 0 ? v[0][0][i] : lay == 1 ? v[0][i][0] : v[i][0][0]) = (float) pick("v" + std::to_string(i), -2, 3); return v; }
SX_HARNESS(statistics) { Cube v = sample(); auto f = flat(v); double n = (double) f.size(), m = 0, q = 0, s2 = 0, lg = 0; bool pos = true; for (float x: f) m += x / n; for (float x: f) { q += (x - m) * (x - m) / n; s2 += (double) x * x; pos &= x > 0; if (x > 0) lg += std::log(x) / n; } T t = full(v); sx_check(within(t->arithmeticMean(), (float) m, 1e-5f), "mean"); sx_check(within(t->standardDeviation(), (float) std::sqrt(q), 1e-4f), "standard deviation"); sx_check(within(t->variance(), (float) q, 1e-4f), "variance"); double vp = 0; for (float x: f) vp += ((double) x - 1.5) * (x - 1.5) / n; sx_check(within(t->variance_point(1.5f), (float) vp, 1e-4f), "variance around a point"); sx_check(within(t->euclidean_norm(), (float) std::sqrt(s2), 1e-4f), "euclidean norm"); float g = t->geometricMean(); sx_check(pos ? within(g, (float) std::exp(lg), 1e-4f) : g != g, "geometric mean, NaN unless all values are positive"); }
SX_HARNESS(norm_of_any) { float x = floatOf((unsigned) sx_bits32("x") & 0xfff80000u); sx_assume((x >= -1e30f) & (x <= 1e30f)); float n = full({{{x}}})->euclidean_norm(); sx_check(sameF(n, x < 0 ? -x : x == 0 ? 0.0f : x), "the norm of a number is its magnitude"); }
SX_HARNESS(equal) { sx_loose_text(); float a = symf("a"), b = symf("b"); sx_assume((a > -1e4f) & (a < 1e4f) & (b > -1e4f) & (b < 1e4f)); Cube v = cubeOf(2, 2, 2, 1), w = v; int c = pick("channel", 0, 1), r = pick("row", 0, 1), k = pick("column", 0, 1); v[c][r][k] = a; w[c][r][k] = b; bool no = throws([&] { assertEqual(full(v), full(w)); }); if (no) sx_check(a != b, "equal tensors are equal"); else sx_check(within(a, b, 0.01f + 0.01f * (a < 0 ? -a : a)), "different ones are not"); sx_check(throws([&] { assertEqual(full(v), full(cubeOf(2, 2, 1, 1))); }) && throws([&] { assertEqual(full(v), full(cubeOf(2, 1, 2, 1))); }) && throws([&] { assertEqual(full(v), full(cubeOf(1, 2, 2, 1))); }), "shapes are compared"); }
SX_HARNESS(whole_set) { // mean, deviation and range over several tensors are those of all their values
    size_t n = pick("tensors", 1, 2); std::vector<T> ts; std::vector<float> f; auto run = std::make_shared<StandardizationAndNormalizationValues>(); for (size_t i = 0; i < n; i++) { size_t k = pick("columns" + std::to_string(i), 1, 2); Cube v = i == 0 ? cubeOf(1, 1, k) : cubeOf(k, 1, 1); for (size_t j = 0; j < k; j++) { float x = (float) pick("v" + std::to_string(i) + std::to_string(j), -2, 2); (i == 0 ? v[0][0][j] : v[j][0][0]) = x; f.push_back(x); } T t = full(v); ts.push_back(t); update_standardization_normalization_values_calculation(run, t); } double m = 0, q = 0; float lo = f[0], hi = f[0]; for (float x: f) { m += x / (double) f.size(); lo = std::min(lo, x); hi = std::max(hi, x); } for (float x: f) q += (x - m) * (x - m) / (double) f.size(); float a, b, c, d; calcStandardizationValuesForEntireSet(ts, a, b); calcNormalizationValuesForEntireSet(ts, c, d); sx_check(within(a, (float) m, 1e-5f) && within(b, (float) std::sqrt(q), 1e-4f), "mean and deviation"); sx_check(c == lo && d == hi, "range"); sx_check(within((float) run->mean_result, (float) m, 1e-5f) && within((float) run->standard_deviation, (float) std::sqrt(q), 1e-4f) && run->min_value == lo && run->max_value == hi && run->total_elements == f.size(), "accumulated one tensor at a time too"); }
SX_HARNESS(larger_sums) { int w = pick("shape", 0, 3); Cube v = large(w, pick("values", 0, 1)); for (int i = 0; i < 4; i++) nth(v, i) = symi("v" + std::to_string(i), -20, 20); double s = 0; auto f = flat(v); for (float x: f) s += x; T t = full(v); sx_check(t->sum() == s && std::make_shared<TensorNoOpView>(t)->sum() == s, "sum"); Cube p = cubeOf(2, 3, 4, 1); for (int i = 0; i < 4; i++) nth(p, i) = symi("p" + std::to_string(i), -9, 9); double q = 1; for (float x: flat(p)) q *= x; sx_check(full(p)->product() == q, "product"); }
SX_HARNESS(larger_extremes) { int w = pick("shape", 0, 3), i = pick("first", 0, 3), j = (i + 1) % 4; Cube v = large(w); nth(v, i) = symf("a"); if (i != j) nth(v, j) = symf("b"); auto f = flat(v); int ok = 1; for (float x: f) ok &= !nanBits(bitsOf(x)); sx_assume(ok); T t = std::make_shared<TensorNoOpView>(full(v)); float hi = t->max(), lo = t->min(), ab = t->max_abs(), a = nth(v, i), b = nth(v, j); int all = (a <= hi) & (b <= hi) & (a >= lo) & (b >= lo) & (hi >= 5) & (lo <= -5) & ((hi == a) | (hi == b) | (hi == 5)) & ((lo == a) | (lo == b) | (lo == -5)); float x = a < 0 ? -a : a, y = b < 0 ? -b : b, m = x < y ? y : x; if (m < 5) m = 5; sx_check(all, "greatest and least"); sx_check(ab == m, "largest magnitude"); auto g = t->range(); sx_check((g.first == lo) & (g.second == hi), "range"); }
SX_HARNESS(larger_invalid) { sx_loose_text(); int w = pick("shape", 0, 3); Cube v = large(w); float &x = nth(v, pick("where", 0, 3)); x = symf("x"); bool bad = (bitsOf(x) & 0x7f800000u) == 0x7f800000u; T t = full(v); sx_check(t->hasNaNOrInf() == bad, "found anywhere"); if (w == 1) sx_check(hasInvalidValues(t) == bad, "and reported"); }
SX_HARNESS(larger_searches) { size_t ch = pick("channel", 0, 2), row = (ch * 2 + 1) % 4, where = pick("where", 0, 3); static const size_t at[] = {0, 9, 17, 18}; size_t i = at[where]; Cube v = pattern(3, 4, 19); float x = v[ch][row][i] = symi("x", -6, 6); auto &w = v[ch][row]; T t = full(v); size_t hi = t->maxIndexByRow(ch, row), lo = t->minIndex(ch, row), eh = 0, el = 0; for (size_t k = 1; k < w.size(); k++) { if (w[k] > w[eh]) eh = k; if (w[k] < w[el]) el = k; } sx_check(hi == eh && lo == el, "first greatest and first least of the row"); std::vector<size_t> H, L; for (size_t k = 0; k < w.size(); k++) { if (w[k] == w[eh]) H.push_back(k); if (w[k] == w[el]) L.push_back(k); } auto h = t->maxIndices(ch, row), l = t->minIndices(ch, row); sx_check(std::equal(h.begin(), h.end(), H.begin(), H.end()) && std::equal(l.begin(), l.end(), L.begin(), L.end()), "all of them, in order"); Cube u = pattern(3, 19, 4); u[ch][i][row] = x; size_t c = full(u)->maxIndexByCol(ch, row), ec = 0; for (size_t k = 1; k < 19; k++) if (u[ch][k][row] > u[ch][ec][row]) ec = k; sx_check(c == ec, "first greatest of the column"); sx_check(t->getRowValues(row, ch) == w, "row values"); }
SX_HARNESS(larger_top) { static const size_t many[] = {1, 5, 12}; size_t n = many[pick("results", 0, 2)], where = pick("where", 0, 3); static const size_t at[] = {0, 9, 17, 18}; Cube v = pattern(1, 1, 19); for (int k = 0; k < 19; k++) v[0][0][k] = (float) ((k * 5) % 19) * 2; v[0][0][at[where]] = symi("x", -1, 39); auto &w = v[0][0]; auto t = full(v)->topIndices(n, 0, 0); sx_check(t.size() == n, "as many as asked for"); std::vector<bool> in(19); int ok = 1; for (size_t i = 0; i < t.size(); i++) { size_t x = t[i].getIndex(); ok &= x < 19 && !in[x] && t[i].getValue() == w[x] && (i == 0 || t[i - 1].getValue() >= t[i].getValue()); if (x < 19) in[x] = true; } sx_check(ok, "distinct places, their values, falling"); ok = 1; for (size_t i = 0; i < 19; i++) if (!in[i]) ok &= w[i] <= t.back().getValue(); sx_check(ok, "none greater left out"); } // opts: time=200
SX_HARNESS(larger_statistics) { int w = pick("shape", 0, 3); Cube v = large(w); nth(v, pick("where", 0, 3)) = (float) pick("x", -3, 3) * 10; auto f = flat(v); double n = (double) f.size(), m = 0, q = 0, s2 = 0; for (float x: f) m += x / n; for (float x: f) { q += (x - m) * (x - m) / n; s2 += (double) x * x; } T t = full(v); sx_check(within(t->arithmeticMean(), (float) m, 1e-4f), "mean"); sx_check(within(t->standardDeviation(), (float) std::sqrt(q), 1e-3f), "standard deviation"); sx_check(within(t->variance(), (float) q, 1e-2f), "variance"); sx_check(within(t->euclidean_norm(), (float) std::sqrt(s2), 1e-3f), "euclidean norm"); std::vector<T> ts{t, full(pattern(1, 1, 7, 2)), full(pattern(2, 2, 2, 3)), full(pattern(1, 5, 1, 4))}; auto run = std::make_shared<StandardizationAndNormalizationValues>(); for (auto &x: ts) update_standardization_normalization_values_calculation(run, x); f.clear(); for (auto &x: ts) for (float y: flat(read(x))) f.push_back(y); m = q = 0; n = (double) f.size(); float lo = f[0], hi = f[0]; for (float x: f) { m += x / n; lo = std::min(lo, x); hi = std::max(hi, x); } for (float x: f) q += (x - m) * (x - m) / n; float a, b, c, d; calcStandardizationValuesForEntireSet(ts, a, b); calcNormalizationValuesForEntireSet(ts, c, d); sx_check(within(a, (float) m, 1e-4f) && within(b, (float) std::sqrt(q), 1e-3f) && c == lo && d == hi, "over several tensors"); sx_check(within((float) run->mean_result, (float) m, 1e-4f) && within((float) run->standard_deviation, (float) std::sqrt(q), 1e-3f) && run->min_value == lo && run->max_value == hi && run->total_elements == f.size(), "accumulated one tensor at a time too"); }
