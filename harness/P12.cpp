// P12: matrix products, inverses, correlations and convolutions
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_impls/identity_tensor.hpp"
#include "types/tensor_views/dot_product_tensor_view.hpp"
#include "types/tensor_views/outer_product_tensor_view.hpp"
#include "types/tensor_views/matrix_multiply_tensor_view.hpp"
#include "types/tensor_views/inverse_tensor_view.hpp"
#include "types/tensor_views/matrix_divide_tensor_view.hpp"
#include "types/tensor_views/transpose_tensor_view.hpp"
#include "types/tensor_views/diagonal_tensor_view.hpp"
#include "types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/zero_pad_tensor_view.hpp"
#include "types/tensor_views/rotate_180_tensor_view.hpp"
#include "types/tensor_views/full_2d_cross_correlation_tensor_view.hpp"
#include "types/tensor_views/full_2d_convolve_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "kit.hpp"
static T mul(T a, T b) { return std::make_shared<MatrixMultiplyTensorView>(a, b); }
static Cube product(const Cube &a, const Cube &b) { Cube o = cubeOf(a.size(), a[0].size(), b[0][0].size()); for (size_t c = 0; c < o.size(); c++) for (size_t i = 0; i < o[0].size(); i++) for (size_t j = 0; j < o[0][0].size(); j++) { float s = 0; for (size_t k = 0; k < b[0].size(); k++) s += a[c][i][k] * b[c][k][j]; o[c][i][j] = s; } return o; }
static Cube correlation(const Cube &a, const Cube &k, size_t pr, size_t pc, bool turned) { size_t R = a[0].size(), C = a[0][0].size(), kr = k[0].size(), kc = k[0][0].size(); Cube o = cubeOf(a.size(), R + 2 * pr - kr + 1, C + 2 * pc - kc + 1); for (size_t c = 0; c < o.size(); c++) for (size_t i = 0; i < o[0].size(); i++) for (size_t j = 0; j < o[0][0].size(); j++) { float s = 0; for (size_t x = 0; x < kr; x++) for (size_t y = 0; y < kc; y++) { long r = (long) (i + x) - (long) pr, q = (long) (j + y) - (long) pc; if (r < 0 || q < 0 || r >= (long) R || q >= (long) C) continue; s += a[c][r][q] * (turned ? k[c][kr - 1 - x][kc - 1 - y] : k[c][x][y]); } o[c][i][j] = s; } return o; }
SX_HARNESS(matmul) { size_t c = pick("channels", 1, 2), n = pick("rows", 1, 2 + sx_tier()), m = pick("inner", 1, 3), p = pick("columns", 1, 2 + sx_tier()); Cube a = cubeInts(c, n, m, "a", -50, 50), b = cubeInts(c, m, p, "b", -50, 50); T x = full(a), y = full(b), t = mul(x, y); sx_check(sameCube(t, product(a, b)), "sums of products"); sx_check(sameCube(materializeTensor(t), product(a, b)), "stored"); sx_check(t->contains(x) && t->contains(y), "sources"); }
SX_HARNESS(matmul_laws) { size_t n = pick("n", 1, 2), m = pick("m", 1, 2); Cube a = cubeInts(1, n, m, "a", -9, 9), b = cubeInts(1, m, 2, "b", -9, 9), d = cubeInts(1, 2, n, "d", -9, 9); T x = full(a), y = full(b), z = full(d); sx_check(sameCube(mul(mul(x, y), z), read(mul(x, mul(y, z)))), "associative"); sx_check(sameCube(mul(x, std::make_shared<IdentityTensor>(m, m, 1)), a) && sameCube(mul(std::make_shared<IdentityTensor>(n, n, 1), x), a), "identity"); T yt = std::make_shared<TransposeTensorView>(y), xt = std::make_shared<TransposeTensorView>(x); sx_check(sameCube(std::make_shared<TransposeTensorView>(mul(x, y)), read(mul(yt, xt))), "transpose of a product"); }
SX_HARNESS(matmul_shapes) { size_t r = pick("rows", 1, 2), k = pick("columns", 1, 3), c = pick("channels", 1, 2), r2 = pick("rows2", 1, 3), c2 = pick("channels2", 1, 2); sx_check(throws([&] { mul(full(cubeOf(c, r, k)), full(cubeOf(c2, r2, 1))); }) == (k != r2 || c != c2), "refused exactly when the shapes do not fit"); }
SX_HARNESS(products) { size_t n = pick("n", 1, 3), m = pick("m", 1, 3), c = pick("channels", 1, 2); Cube a = cubeInts(1, 1, n, "a", -99, 99), b = cubeInts(1, 1, n, "b", -99, 99); float s = 0; for (size_t i = 0; i < n; i++) s += a[0][0][i] * b[0][0][i]; sx_check(sameCube(std::make_shared<DotProductTensorView>(full(a), full(b)), Cube{{{s}}}), "dot product"); sx_check(throws([&] { DotProductTensorView(full(cubeOf(1, 1, n)), full(cubeOf(1, 1, m))); }) == (n != m), "lengths must match"); sx_check(throws([&] { DotProductTensorView(full(cubeOf(c, m, n)), full(cubeOf(c, 1, n))); }) == (m != 1 || c != 1), "rows only"); Cube u = cubeInts(c, m, 1, "u", -99, 99), v = cubeInts(c, 1, n, "v", -99, 99), w = cubeOf(c, m, n); for (size_t z = 0; z < c; z++) for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) w[z][i][j] = u[z][i][0] * v[z][0][j]; sx_check(sameCube(std::make_shared<OuterProductTensorView>(full(u), full(v)), w), "outer product"); }
SX_HARNESS(diagonal) { size_t n = pick("n", 1, 3), up = pick("column", 0, 1), c = pick("channels", 1, 2); Cube v = cubeBits(c, up ? n : 1, up ? 1 : n, "v"), w = cubeOf(c, n, n); for (size_t z = 0; z < c; z++) for (size_t i = 0; i < n; i++) w[z][i][i] = up ? v[z][i][0] : v[z][0][i]; sx_check(sameCube(std::make_shared<DiagonalTensorView>(full(v)), w), "the vector on the diagonal, zeros elsewhere"); }
static Cube small(size_t n, const std::string &nm, int lo, int hi) { Cube a = cubeOf(1, n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a[0][i][j] = (float) pick(nm + std::to_string(i) + std::to_string(j), lo, hi); return a; }
static float det(const Cube &a) { auto &m = a[0]; if (m.size() == 1) return m[0][0]; if (m.size() == 2) return m[0][0] * m[1][1] - m[0][1] * m[1][0]; float d = 0; for (int i = 0; i < 3; i++) d += m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]); return d; }
static void inverted(const Cube &a) { size_t n = a[0].size(); T i; bool no = throws([&] { i = std::make_shared<InverseTensorView>(full(a)); }); sx_check(no == (det(a) == 0), "refused exactly when singular"); if (no) return; Cube e = cubeOf(1, n, n); for (size_t k = 0; k < n; k++) e[0][k][k] = 1; sx_check(nearCube(mul(full(a), i), e, 1e-4f) && nearCube(mul(i, full(a)), e, 1e-4f), "times its inverse is the identity"); }
SX_HARNESS(inverse) { size_t n = pick("n", 1, 2); inverted(small(n, "a", -1 - (n == 1), 2)); if (n == 1) { float x = symf("x"); sx_assume((x > 0.001f) & (x < 1000.f)); sx_check(sameF(InverseTensorView(full({{{x}}})).getValue(0, 0, 0), 1.0f / x), "of a number"); } }
SX_HARNESS(inverse3) { inverted(small(3, "a", sx_tier() ? -1 : 0, 1)); } // opts: jobs=6
SX_HARNESS(inverse_channels) { Cube a = small(2, "a", 0, 1), b = small(2, "b", 0, 1); if (det(a) == 0 || det(b) == 0) return; Cube two{a[0], b[0]}, e = cubeOf(2, 2, 2); for (int c = 0; c < 2; c++) e[c][0][0] = e[c][1][1] = 1; sx_check(nearCube(mul(full(two), std::make_shared<InverseTensorView>(full(two))), e, 1e-5f), "channel by channel"); sx_check(throws([&] { InverseTensorView x(full(cubeOf(1, pick("r", 1, 2), 3, 1))); }), "only square matrices have one"); }
SX_HARNESS(division) { Cube b = small(2, "b", -1, 2); if (det(b) == 0) return; Cube a = cubeOf(1, 2, 2); a[0][0][0] = 3; a[0][0][1] = -1; a[0][1][0] = 2; a[0][1][1] = 5; T q = std::make_shared<MatrixDivideTensorView>(full(a), full(b)); sx_check(shapeIs(q, 1, 2, 2) && nearCube(mul(q, full(b)), a, 1e-4f), "the quotient times the divisor is the dividend"); sx_check(throws([&] { MatrixDivideTensorView x(full(cubeOf(1, 1, 2)), full(b)); }) && throws([&] { MatrixDivideTensorView x(full(cubeOf(2, 2, 2)), full(b)); }), "other shapes are refused"); }
SX_HARNESS(valid) { size_t c = pick("channels", 1, 2), R = pick("rows", 1, 3), C = pick("columns", 1, 3), kr = pick("kernel rows", 1, 2 + sx_tier()), kc = pick("kernel columns", 1, 3); Cube a = cubeInts(c, R, C, "a", -30, 30), k = cubeInts(c, kr, kc, "k", -30, 30); if (kr > R || kc > C) { sx_check(throws([&] { Valid2DCrossCorrelationTensorView x(full(a), full(k)); }), "a kernel larger than the tensor is refused"); return; } sx_check(sameCube(std::make_shared<Valid2DCrossCorrelationTensorView>(full(a), full(k)), correlation(a, k, 0, 0, false)), "the kernel over every place it fits"); }
SX_HARNESS(full_size) { size_t c = pick("channels", 1, 2), R = pick("rows", 1, 2), C = pick("columns", 1, 2), kr = pick("kernel rows", 1, 5), kc = pick("kernel columns", 1, 5), turned = pick("convolution", 0, 1); if (c == 2 && kr + kc > 5) return; Cube a = cubeInts(c, R, C, "a", -30, 30), k = cubeInts(c, kr, kc, "k", -30, 30); T t; if (turned) t = std::make_shared<Full2DConvolveTensorView>(full(a), full(k)); else t = std::make_shared<Full2DCrossCorrelationTensorView>(full(a), full(k)); sx_check(shapeIs(t, c, R + kr - 1, C + kc - 1), "every overlap of tensor and kernel"); sx_check(sameCube(t, correlation(a, k, kr - 1, kc - 1, turned)), turned ? "convolution" : "cross-correlation"); }
SX_HARNESS(larger_products) { // beyond the small shapes
    static const size_t S[5][4] = {{3, 2, 17, 2}, {1, 5, 6, 4}, {1, 1, 67, 1}, {1, 9, 2, 17}, {10, 1, 1, 1}}; auto &s = S[pick("shape", 0, 4)]; Cube a = cubeInts(s[0], s[1], s[2], "a", -9, 9), b = pattern(s[0], s[2], s[3], pick("values", 0, 1)); for (auto &x: b) x.back().back() = symi("b", -9, 9); T t = mul(full(a), full(b)); sx_check(sameCube(t, product(a, b)), "sums of products"); Cube u = cubeInts(1, 1, 35, "u", -9, 9), w = cubeInts(1, 1, 35, "w", -9, 9); float d = 0; for (int i = 0; i < 35; i++) d += u[0][0][i] * w[0][0][i]; sx_check(sameCube(std::make_shared<DotProductTensorView>(full(u), full(w)), Cube{{{d}}}), "dot product"); Cube e = cubeOf(1, 35, 35); for (int i = 0; i < 35; i++) e[0][i][i] = u[0][0][i]; sx_check(sameCube(std::make_shared<DiagonalTensorView>(full(u)), e), "diagonal"); }
SX_HARNESS(larger_inverse) { // a product of two triangular matrices with ones on the diagonal, so that every intermediate value is whole
    size_t n = pick("n", 4, 6); Cube l = pattern(1, n, n, pick("lower", 0, 3)), u = pattern(1, n, n, pick("upper", 0, 3)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { float &x = l[0][i][j], &y = u[0][i][j]; x = i == j ? 1.f : j < i ? (float) ((int) x % 2) : 0.f; y = i == j ? 1.f : j > i ? (float) ((int) y % 2) : 0.f; } u[0][n - 2][n - 1] = (float) pick("entry", -2, 2); Cube a = product(l, u), e = cubeOf(1, n, n); for (size_t i = 0; i < n; i++) e[0][i][i] = 1; T i = std::make_shared<InverseTensorView>(full(a)); sx_check(nearCube(mul(full(a), i), e, 1e-3f) && nearCube(mul(i, full(a)), e, 1e-3f), "times its inverse is the identity"); a[0][n - 1] = a[0][0]; sx_check(throws([&] { InverseTensorView x(full(a)); }), "equal rows: refused"); }
SX_HARNESS(larger_correlations) { static const size_t S[4][5] = {{3, 6, 7, 3, 4}, {1, 9, 2, 9, 1}, {1, 2, 19, 2, 5}, {9, 2, 2, 2, 2}}; auto &s = S[pick("shape", 0, 3)]; Cube a = cubeInts(s[0], s[1], s[2], "a", -9, 9), k = pattern(s[0], s[3], s[4], pick("values", 0, 1)); for (auto &x: k) x[0][0] = symi("k", -9, 9); sx_check(sameCube(std::make_shared<Valid2DCrossCorrelationTensorView>(full(a), full(k)), correlation(a, k, 0, 0, false)), "valid"); T t; bool turned = pick("convolution", 0, 1); if (turned) t = std::make_shared<Full2DConvolveTensorView>(full(a), full(k)); else t = std::make_shared<Full2DCrossCorrelationTensorView>(full(a), full(k)); sx_check(sameCube(t, correlation(a, k, s[3] - 1, s[4] - 1, turned)), "full"); }
