// P11: lazy tensor views say exactly what the operation they stand for says, element by element
#include "types/quarter_float.hpp"
#include "types/half_float.hpp"
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/half_tensor.hpp"
#include "types/tensor_impls/quarter_tensor.hpp"
#include "types/tensor_impls/pixel_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_impls/uniform_tensor.hpp"
#include "types/tensor_impls/tensor_from_function.hpp"
#include "types/tensor_views/absolute_tensor_view.hpp"
#include "types/tensor_views/add_tensor_view.hpp"
#include "types/tensor_views/channel_to_tensor_view.hpp"
#include "types/tensor_views/clip_tensor_view.hpp"
#include "types/tensor_views/column_flatten_tensor_view.hpp"
#include "types/tensor_views/concat_wide_tensor_view.h"
#include "types/tensor_views/element_wise_divide_tensor_view.hpp"
#include "types/tensor_views/element_wise_inverse_tensor_view.hpp"
#include "types/tensor_views/element_wise_multiply_tensor_view.hpp"
#include "types/tensor_views/exponential_tensor_view.hpp"
#include "types/tensor_views/less_than_scalar_tensor_view.hpp"
#include "types/tensor_views/log2_tensor_view.hpp"
#include "types/tensor_views/log_tensor_view.hpp"
#include "types/tensor_views/masked_select_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
#include "types/tensor_views/power_tensor_view.hpp"
#include "types/tensor_views/reshape_tensor_view.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/round_tensor_view.hpp"
#include "types/tensor_views/row_flatten_tensor_view.hpp"
#include "types/tensor_views/scalar_add_tensor_view.hpp"
#include "types/tensor_views/scalar_divide_tensor_view.hpp"
#include "types/tensor_views/scalar_multiply_tensor_view.hpp"
#include "types/tensor_views/scalar_subtract_tensor_view.hpp"
#include "types/tensor_views/sqrt_tensor_view.hpp"
#include "types/tensor_views/subtract_tensor_view.hpp"
#include "types/tensor_views/sum_channels_tensor_view.hpp"
#include "types/tensor_views/sum_to_channel_tensor_view.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/value_transform_tensor_view.hpp"
#include "types/tensor_views/value_transform_with_double_tensor_view.hpp"
#include "types/tensor_views/window_tensor_view.hpp"
#include "types/tensor_views/zero_pad_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "kit.hpp"
struct Dim { size_t c, r, k; };
static Dim dim(size_t mc = 2, size_t mr = 2, size_t mk = 2, bool larger = true) { Dim d; int big = larger ? pick("larger", 0, 2) : 0; if (big) { d.c = big == 1 ? 5 : 1; d.r = big == 1 ? 3 : 34; d.k = big == 1 ? 35 : 2; return d; } d.c = pick("channels", 1, mc); d.r = pick("rows", 1, mr); d.k = pick("columns", 1, mk + sx_tier()); return d; }
template<class F> static Cube each(const Cube &v, F f) { Cube o = v; for (auto &x: o) for (auto &y: x) for (float &z: y) z = f(z); return o; }
template<class F> static Cube zip(const Cube &a, const Cube &b, F f) { Cube o = a; for (size_t c = 0; c < a.size(); c++) for (size_t r = 0; r < a[0].size(); r++) for (size_t k = 0; k < a[0][0].size(); k++) o[c][r][k] = f(a[c][r][k], b[c][r][k]); return o; }
// the view shows want, still does after being stored, contains its sources and leaves them alone
static void shows(const T &v, const Cube &want, const T &src, const Cube &content) { sx_check(sameCube(v, want), "every element is the operation's"); sx_check(sameCube(materializeTensor(v), want), "storing it keeps the values"); sx_check(v->contains(src) && v->contains(v) && !v->contains(full({{{1}}})), "knows its sources"); sx_check(!v->isMaterialized() && src->isMaterialized(), "is computed, not stored"); sx_check(sameCube(src, content), "the source is untouched"); sx_check(v->size() == want.size() * want[0].size() * want[0][0].size() && v->elementsPerChannel() == want[0].size() * want[0][0].size() && v->getShape() == std::vector<size_t>({want[0].size(), want[0][0].size(), want.size()}), "size"); size_t i = 0; int ok = 1; for (auto &x: want) for (auto &y: x) for (float z: y) ok &= sameF(v->getValue(i++), z); sx_check(ok, "elements by position: channel, row, column"); }
static float clampF(float v, float lo, float hi) { return v < lo ? lo : hi < v ? hi : v; }
SX_HARNESS(unary) { Dim d = dim(); Cube v = cubeBits(d.c, d.r, d.k, "v"); T s = full(v); T t; Cube w; float q = 0;
    switch (pick("operation", 0, 15)) {
        case 0: t = std::make_shared<AbsoluteTensorView>(s); w = each(v, [](float x) { return std::fabs(x); }); break;
        case 1: t = std::make_shared<TensorNoOpView>(s); w = v; break;
        case 2: t = std::make_shared<SqrtTensorView>(s); w = each(v, [](float x) { return std::sqrt(x); }); break;
        case 3: t = std::make_shared<RoundTensorView>(s); w = each(v, [](float x) { return std::round(x); }); break;
        case 4: t = std::make_shared<ExponentialTensorView>(s); w = each(v, [](float x) { return std::exp(x); }); break;
        case 5: t = std::make_shared<Log2TensorView>(s); w = each(v, [](float x) { return std::log2(x); }); break;
        case 6: t = std::make_shared<ScalarAddTensorView>(s, q = symf("q")); w = each(v, [q](float x) { return x + q; }); break;
        case 7: t = std::make_shared<ScalarSubtractTensorView>(s, q = symf("q")); w = each(v, [q](float x) { return x - q; }); break;
        case 8: t = std::make_shared<ScalarSubtractTensorView>(q = symf("q"), s); w = each(v, [q](float x) { return q - x; }); break;
        case 9: t = std::make_shared<ScalarMultiplyTensorView>(s, q = symf("q")); w = each(v, [q](float x) { return x * q; }); break;
        case 10: t = std::make_shared<ScalarMultiplyTensorView>(q = symf("q"), s); w = each(v, [q](float x) { return q * x; }); break;
        case 11: t = std::make_shared<ScalarDivideTensorView>(s, q = symf("q")); w = each(v, [q](float x) { return x / q; }); break;
        case 12: t = std::make_shared<ScalarDivideTensorView>(q = symf("q"), s); w = each(v, [q](float x) { return q / x; }); break;
        case 13: t = std::make_shared<LessThanScalarTensorView>(s, q = symf("q")); w = each(v, [q](float x) { return sx_itef(x < q, 1.f, 0.f); }); break;
        case 14: t = std::make_shared<ValueTransformTensorView>(s, [](float x) { return x * 2; }); w = each(v, [](float x) { return x * 2; }); break;
        case 15: t = std::make_shared<ValueTransformWithDoubleTensorView>(s, [](float x, double y) { return x + (float) y; }, 3.5); w = each(v, [](float x) { return x + 3.5f; }); break;
    } shows(t, w, s, v); }
SX_HARNESS(clipped) { // clip, log and inverse keep their results finite
    float x = symf("x"), lo = symf("lo"), hi = symf("hi"); sx_assume(!nanBits(bitsOf(x)) & (lo <= hi)); T s = full({{{x, 1}}}); ClipTensorView c(s, lo, hi); sx_check(sameF(c.getValue(0, 0, 0), sx_itef(x < lo, lo, sx_itef(hi < x, hi, x))), "clipped into the range"); LogTensorView l(s); float y = sx_itef(x < 1e-8f, 1e-8f, sx_itef(1.0f < x, 1.0f, x)); sx_check(sameF(l.getValue(0, 0, 0), std::log(y)), "log of the value limited to 1e-8..1"); auto i = std::make_shared<ElementWiseInverseTensorView>(s); sx_check(sameF(i->getValue(0, 0, 0), 1.0f / (x + 1e-8f)), "inverse"); sx_check(shapeIs(i, 1, 1, 2), "shape"); int p = pick("power", 1, 2); PowerTensorView w(s, (float) p); sx_check(sameF(w.getValue(0, 0, 0), p == 1 ? x : x * x), "power"); }
SX_HARNESS(binary) { Dim d = dim(); Cube a = cubeBits(d.c, d.r, d.k, "a"), b = cubeBits(d.c, d.r, d.k, "b"); T s = full(a), u = full(b), t; Cube w;
    switch (pick("operation", 0, 3)) {
        case 0: t = std::make_shared<AddTensorView>(s, u); w = zip(a, b, [](float x, float y) { return x + y; }); break;
        case 1: t = std::make_shared<SubtractTensorView>(s, u); w = zip(a, b, [](float x, float y) { return x - y; }); break;
        case 2: t = std::make_shared<ElementWiseMultiplyTensorView>(s, u); w = zip(a, b, [](float x, float y) { return x * y; }); break;
        case 3: t = std::make_shared<ElementWiseDivideTensorView>(s, u); w = zip(a, b, [](float x, float y) { return x / sx_itef(y == 0.0f, 1e-8f, y); }); break;
    } shows(t, w, s, a); sx_check(t->contains(u) && sameCube(u, b), "the other source"); }
SX_HARNESS(mismatch) { // operands of other shapes are refused
    Dim d = dim(); size_t c = pick("channels2", 1, 2), r = pick("rows2", 1, 2), k = pick("columns2", 1, 2); int op = pick("operation", 0, 4); T s = full(cubeOf(d.c, d.r, d.k, 1)), u = full(cubeOf(c, r, k, 2)); bool same = c == d.c && r == d.r && k == d.k; if (op == 4) same = r == d.r && (c == d.c || sx_tier() > 5); if (op == 4 && c != d.c) return; sx_check(throws([&] { T t; switch (op) { case 0: t = std::make_shared<AddTensorView>(s, u); break; case 1: t = std::make_shared<SubtractTensorView>(s, u); break; case 2: t = std::make_shared<ElementWiseMultiplyTensorView>(s, u); break; case 3: t = std::make_shared<ElementWiseDivideTensorView>(s, u); break; case 4: t = std::make_shared<ConcatWideTensorView>(s, u); break; } }) == !same, "accepted exactly when the shapes fit"); sx_check(throws([&] { ReshapeTensorView t(s, r, k); }) == (r * k != d.r * d.k), "reshape keeps the number of elements"); sx_check(throws([&] { ReshapeTensorView t(s, r, k, c); }) == (r * k * c != d.r * d.k * d.c), "and in all channels together"); }
SX_HARNESS(moved) { // views that only move elements
    Dim d = dim(2, 2, 3); Cube v = cubeBits(d.c, d.r, d.k, "v"), w; T s = full(v), t; size_t n = d.c * d.r * d.k; std::vector<float> flat; for (auto &x: v) for (auto &y: x) for (float z: y) flat.push_back(z);
    switch (pick("operation", 0, 11)) {
        case 0: t = std::make_shared<TransposeTensorView>(s); w = cubeOf(d.c, d.k, d.r); for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) w[c][k][r] = v[c][r][k]; break;
        case 1: t = std::make_shared<Rotate180TensorView>(s); w = v; for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) w[c][d.r - 1 - r][d.k - 1 - k] = v[c][r][k]; break;
        case 2: t = std::make_shared<RowFlattenTensorView>(s); w = Cube{{flat}}; break;
        case 3: { t = std::make_shared<ColumnFlattenTensorView>(s); w = cubeOf(1, n, 1); for (size_t i = 0; i < n; i++) w[0][i][0] = flat[i]; break; }
        case 4: t = std::make_shared<ReshapeTensorView>(s, d.k, d.r); w = cubeOf(d.c, d.k, d.r); for (size_t i = 0; i < n; i++) w[i / (d.r * d.k)][i % (d.r * d.k) / d.r][i % d.r] = flat[i]; break;
        case 5: { size_t a = pick("from", 0, 2), b = pick("to", 1, 3); if (a >= b || b > d.k) { sx_check(throws([&] { WindowTensorView x(s, a, b); }), "a window outside the tensor is refused"); return; } t = std::make_shared<WindowTensorView>(s, a, b); w = cubeOf(d.c, d.r, b - a); for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = a; k < b; k++) w[c][r][k - a] = v[c][r][k]; sx_check(throws([&] { t->getValue(0, b - a, 0); }), "nothing beyond the window"); break; }
        case 6: { size_t p[4]; for (int i = 0; i < 4; i++) p[i] = pick("pad" + std::to_string(i), 0, 1 + (i == 2)); t = std::make_shared<ZeroPadTensorView>(s, p[0], p[1], p[2], p[3]); w = cubeOf(d.c, d.r + p[0] + p[1], d.k + p[2] + p[3]); for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) w[c][r + p[0]][k + p[2]] = v[c][r][k]; break; }
        case 7: { size_t c = pick("channel", 0, 1); if (c >= d.c) return; t = std::make_shared<ChannelToTensorView>(s, c); w = Cube{v[c]}; break; }
        case 8: { t = std::make_shared<ConcatWideTensorView>(s, std::make_shared<ScalarAddTensorView>(s, 1.0f)); w = cubeOf(d.c, d.r, 2 * d.k); for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) { w[c][r][k] = v[c][r][k]; w[c][r][d.k + k] = v[c][r][k] + 1.0f; } break; }
        case 9: { size_t at = pick("channel", 0, 1), of = at + pick("of", 1, 2); t = std::make_shared<SumToChannelTensorView>(s, at, of); w = cubeOf(of, d.r, d.k); for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) { float x = 0; for (size_t c = 0; c < d.c; c++) x += v[c][r][k]; w[at][r][k] = x; } break; }
        case 11: t = std::make_shared<ReshapeTensorView>(s, d.k, d.c, d.r); w = cubeOf(d.r, d.k, d.c); for (size_t i = 0; i < n; i++) w[i / (d.k * d.c)][i % (d.k * d.c) / d.c][i % d.c] = flat[i]; break;
        case 10: { t = std::make_shared<SumChannelsTensorView>(s); w = cubeOf(1, d.r, d.k); for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) { float x = 0; for (size_t c = 0; c < d.c; c++) x += v[c][r][k]; w[0][r][k] = x; } break; }
    } shows(t, w, s, v); }
SX_HARNESS(masked) { // a mask chooses between two tensors element by element
    Dim d = dim(2, 2, 2, false); Cube m = cubeBits(d.c, d.r, d.k, "m"), a = cubeBits(d.c, d.r, d.k, "a"), b = cubeBits(d.c, d.r, d.k, "b"), w = m; float q = pick("default", 0, 1) ? 0.0f : symf("q"); T s = full(m), x = full(a), y = full(b); auto t = std::make_shared<MaskedSelectTensorView>(s, x, y, q); for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) w[c][r][k] = sx_itef(m[c][r][k] > q, a[c][r][k], b[c][r][k]); shows(t, w, s, m); sx_check(t->contains(x) && t->contains(y), "all three sources"); }
SX_HARNESS(stacked) { // views of views: twice transposed, rotated, negated is the original
    Dim d = dim(2, 2, 2, false); Cube v = cubeBits(d.c, d.r, d.k, "v"); T s = full(v); auto mv = [&](int k, T t) -> T { switch (k) { case 0: return std::make_shared<TransposeTensorView>(t); case 1: return std::make_shared<Rotate180TensorView>(t); case 2: return std::make_shared<ScalarMultiplyTensorView>(t, -1.0f); case 3: return std::make_shared<ReshapeTensorView>(t, t->columnCount(), t->rowCount()); default: return std::make_shared<ScalarSubtractTensorView>(0.0f, t); } }; int a = pick("first", 0, 3), b = pick("second", 0, 4); T t = mv(a, mv(a, s)); sx_check(sameCube(t, v), "applied twice it undoes itself"); T u = mv(b, mv(a, s)), x = mv(b, materializeTensor(mv(a, s))); sx_check(shapeIs(u, x->channelCount(), x->rowCount(), x->columnCount()) && sameCube(u, read(x)), "storing in between changes nothing"); sx_check(u->contains(s) && !x->contains(s), "a stored tensor no longer depends on its source"); }
SX_HARNESS(generated) { // tensors without storage
    Dim d = dim(2, 3, 3); float q = symf("q"); auto u = std::make_shared<UniformTensor>(d.r, d.k, d.c, q); sx_check(sameCube(u, cubeOf(d.c, d.r, d.k, q)), "uniform"); UniformTensor z(std::vector<size_t>{d.r, d.k, d.c}, q); sx_check(z.rowCount() == d.r && z.columnCount() == d.k && z.channelCount() == d.c && sameF(z.getValue(0, 0, 0), q), "uniform of a shape"); Cube w = cubeOf(d.c, d.r, d.k), f = w; for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) { w[c][r][k] = r == k ? 1.f : 0.f; f[c][r][k] = (float) (r * 100 + k * 10 + c); } sx_check(sameCube(std::make_shared<IdentityTensor>(d.r, d.k, d.c), w), "identity"); auto g = std::make_shared<TensorFromFunction>([](size_t r, size_t k, size_t c) { return (float) (r * 100 + k * 10 + c); }, d.r, d.k, d.c); sx_check(sameCube(g, f) && sameCube(materializeTensor(g), f), "from a function of row, column, channel"); sx_check(g->contains(g) && !g->contains(u), "contains itself"); }
SX_HARNESS(stored) { // what storing at 32, 16 and 8 bits keeps
    Dim d = dim(2, 2, 2); Cube v = cubeOf(d.c, d.r, d.k); for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) v[c][r][k] = (float) (1 + c * 4 + r * 2 + k) * 0.5f; float x = symf("x"); v[d.c - 1][d.r - 1][d.k - 1] = x; T s = full(v); T t = std::make_shared<TensorNoOpView>(s); sx_check(materializeTensor(s, 32) == s && materializeTensor(s) == s, "a stored tensor is not copied"); sx_check(sameCube(materializeTensor(t, 32), v), "32 bits keep everything"); Cube h = each(v, [](float z) { return halfToFloat(floatToHalf(z)); }); sx_check(sameCube(materializeTensor(t, 16), h), "16 bits keep the nearest half"); sx_assume((x > -100.f) & (x < 100.f)); T q = materializeTensor(t, 8); int bias = std::static_pointer_cast<QuarterTensor>(q)->get_bias(); sx_check(bias >= 4 && bias <= 15, "8 bits choose a bias"); float m = quarterToFloat(QUARTER_MAX, bias); int fit = 1; for (auto &a: v) for (auto &b: a) for (float z: b) fit &= (z < m) & (z > -m); sx_check(fit, "every value fits the bias chosen"); Cube w = each(v, [bias](float z) { return quarterToFloat(floatToQuarter(z, bias), bias); }); sx_check(sameCube(q, w), "8 bits keep the nearest quarter"); }
SX_HARNESS(masked_larger) { // whichever elements the mask chooses
    Dim d = dim(); Cube m = cubeOf(d.c, d.r, d.k), a = cubeBits(d.c, d.r, d.k, "a"), b = cubeBits(d.c, d.r, d.k, "b"), w = m; int seed = pick("pattern", 0, 2), n = 0; for (size_t c = 0; c < d.c; c++) for (size_t r = 0; r < d.r; r++) for (size_t k = 0; k < d.k; k++) { m[c][r][k] = (float) ((n * 7 + seed) % 5) - 2; n++; w[c][r][k] = m[c][r][k] > 0 ? a[c][r][k] : b[c][r][k]; } T s = full(m), x = full(a), y = full(b); auto t = std::make_shared<MaskedSelectTensorView>(s, x, y); shows(t, w, s, m); }
