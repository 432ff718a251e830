// P18: losses and their derivatives
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
typedef std::function<float(float, float)> F2; // prediction, truth
static Cube zip(const Cube &p, const Cube &t, F2 f) { Cube o = p; for (size_t c = 0; c < p.size(); c++) for (size_t r = 0; r < p[0].size(); r++) for (size_t k = 0; k < p[0][0].size(); k++) o[c][r][k] = f(p[c][r][k], t[c][r][k]); return o; }
static Cube shaped(int lay, size_t n) { return lay == 0 ? cubeOf(1, 1, n) : lay == 1 ? cubeOf(1, n, 1) : cubeOf(n, 1, 1); }
static std::vector<float *> cells(Cube &v) { std::vector<float *> at; for (auto &x: v) for (auto &y: x) for (float &z: y) at.push_back(&z); return at; }
static std::vector<float> flat(const Cube &v) { std::vector<float> at; for (auto &x: v) for (auto &y: x) for (float z: y) at.push_back(z); return at; }
static float sign(float d) { return (float) (d > 0) - (float) (d < 0); }
static bool finite(float x) { return (bitsOf(x) & 0x7f800000u) != 0x7f800000u; }
static int sameOrZero(const T &t, const Cube &c) { if (!shapeIs(t, c.size(), c[0].size(), c[0][0].size())) return 0; int ok = 1; Cube a = read(t); for (size_t i = 0; i < c.size(); i++) for (size_t r = 0; r < c[0].size(); r++) for (size_t k = 0; k < c[0][0].size(); k++) ok &= sameF(a[i][r][k], c[i][r][k]) | (a[i][r][k] == c[i][r][k]); return ok; }
static std::shared_ptr<LossFunction> loss(int k) { switch (k) { case 0: return std::make_shared<MeanSquaredErrorLossFunction>(); case 1: return std::make_shared<MeanAbsoluteErrorLossFunction>(); case 2: return std::make_shared<SmoothMeanAbsoluteErrorLossFunction>(); case 3: return std::make_shared<CategoricalCrossEntropyLossFunction>(); default: return std::make_shared<BinaryCrossEntropyLossFunction>(); } }
SX_HARNESS(any_value) { // every finite prediction and truth
    int lay = pick("layout", 0, 2); Cube p = shaped(lay, 2), t = p; int i = 0; for (float *z: cells(p)) { *z = symf("p" + std::to_string(i++)); sx_assume(finite(*z)); } i = 0; for (float *z: cells(t)) { *z = symf("t" + std::to_string(i++)); sx_assume(finite(*z)); } T a = tens(p), b = tens(t); int k = pick("loss", 0, 3); auto f = loss(k); T e = f->compute_error(b, a), d = f->compute_loss_derivative(e, b, a); Cube diff = zip(p, t, [](float x, float y) { return x - y; });
    switch (k) {
        case 0: sx_check(sameOrZero(e, diff), "error: prediction - truth"); sx_check(sameOrZero(d, zip(p, t, [](float x, float y) { return 2.0f * (x - y); })), "slope: twice the error"); break;
        case 1: sx_check(sameOrZero(e, zip(p, t, [](float x, float y) { return fabsf(x - y); })), "error: |prediction - truth|"); sx_check(sameOrZero(d, zip(p, t, [](float x, float y) { return sign(x - y); })), "slope: its sign"); break;
        case 2: sx_check(sameOrZero(d, zip(p, t, [](float x, float y) { float q = x - y; return fabsf(q) < 1.0f ? q : sign(q); })), "slope: the difference, at most 1 either way"); break;
        default: sx_check(sameOrZero(d, diff), "slope: prediction - truth"); break;
    } sx_check(sameCube(a, p) && sameCube(b, t), "inputs untouched"); }
SX_HARNESS(regression) { // whole and half differences, and the loss over them
    size_t n = pick("n", 1, 2 + sx_tier()); int lay = pick("layout", 0, n == 1 ? 0 : 2), k = pick("loss", 0, 2); static const float q[] = {0, 0.5f, -0.75f, 1, -1, 1.5f, -3, 20}; Cube p = shaped(lay, n), t = p; int i = 0; for (float *z: cells(t)) *z = (float) (i++ * 2 - 1); i = 0; auto ts = cells(t); for (float *z: cells(p)) { *z = *ts[i] + q[pick("d" + std::to_string(i), 0, 7)]; i++; }
    auto g = [k](float x, float y) { float d = fabsf(x - y); return k == 0 ? d * d : k == 1 ? d : d < 1 ? 0.5f * d * d : d - 0.5f; }; auto f = loss(k); T a = tens(p), b = tens(t); T e = f->compute_error(b, a); float sum = 0; for (float z: flat(zip(p, t, g))) sum += z; sx_check(within(f->compute_loss(e), sum / (float) n, 1e-4f), "loss: the mean over all elements"); if (k == 2) sx_check(nearCube(e, zip(p, t, g), 1e-5f), "error: squared below 1, straight beyond"); if (k == 1) sx_check(nearCube(e, zip(p, t, g), 1e-5f), "error"); sx_check(within(f->compute_loss(e), sum / (float) n, 1e-4f), "asked again"); }
SX_HARNESS(smoothness) { static const float q[] = {0, 0.5f, -0.75f, 1, -1, 1.5f, -3, 20}; static const float sm[] = {0.5f, 2, 4}; float s = sm[pick("smoothness", 0, 2)], d = q[pick("d", 0, 7)]; auto f = std::make_shared<SmoothMeanAbsoluteErrorLossFunction>(); f->smoothness = s; T a = rowv({3 + d}), b = rowv({3}); T e = f->compute_error(b, a); float m = fabsf(d); sx_check(within(e->getValue(0, 0, 0), m < s ? 0.5f * m * m / s : m - 0.5f * s, 1e-5f), "error"); sx_check(within(f->compute_loss_derivative(e, b, a)->getValue(0, 0, 0), m < s ? d / s : sign(d), 1e-5f), "slope"); }
SX_HARNESS(cross_entropy) { size_t n = pick("n", 1, 2); int lay = pick("layout", 0, n == 1 ? 0 : 2), k = pick("loss", 3, 4); static const float ps[] = {0, 1e-10f, 0.001f, 0.25f, 0.5f, 0.9f, 1}; static const float tr[] = {0, 1, 0.5f}; Cube p = shaped(lay, n), t = p; int i = 0; for (float *z: cells(p)) *z = ps[pick("p" + std::to_string(i++), 0, 6)]; i = 0; for (float *z: cells(t)) *z = tr[pick("t" + std::to_string(i++), 0, 2)];
    auto lg = [](float x) { return std::log(std::max((double) x, 1e-8)); }; auto g = [=](float x, float y) { return (float) (k == 3 ? -y * lg(x) : -(y * lg(x) + (1 - y) * lg(1 - x))); }; auto f = loss(k); T a = tens(p), b = tens(t); T e = f->compute_error(b, a); sx_check(nearCube(e, zip(p, t, g), 1e-4f), "error: minus truth times log of the prediction (and of what is left, if binary)"); float sum = 0; for (float z: flat(zip(p, t, g))) sum += z; sx_check(within(f->compute_loss(e), sum, 1e-3f), "loss: the sum over all elements");
    if (k == 4) { auto dv = [](float u, float v) { return v == 0 ? u / 1e-8f : u / v; }; Cube w = zip(p, t, [=](float x, float y) { return -(dv(y, x) - dv(1 - y, 1 - x)); }); T d = f->compute_loss_derivative(e, b, a); Cube r = read(d); auto u = flat(r), v = flat(w); bool ok = u.size() == v.size() && shapeIs(d, p.size(), p[0].size(), p[0][0].size()); for (size_t j = 0; ok && j < u.size(); j++) ok = relWithin(u[j], v[j], 1e-4f, 1e-4f); sx_check(ok, "slope: (1 - truth) / (1 - prediction) - truth / prediction"); } }
SX_HARNESS(larger) { // many elements, two of them arbitrary
    int k = pick("loss", 0, 3), where = pick("where", 0, 3); Cube p = large(pick("shape", 0, 3)), t = p; int i = 0; for (float *z: cells(t)) *z = (float) (i++ % 3) - 1; if (k == 3) for (float *z: cells(p)) *z = 0.25f; float &x = nth(p, where), &y = nth(t, where); if (k == 3) { y = 1; x = (float) pick("p", 1, 4) * 0.25f; } else { x = (float) pick("p", -4, 4) * 0.75f; y = (float) pick("t", -1, 1); } T a = tens(p), b = tens(t); auto f = loss(k); T e = f->compute_error(b, a), d = f->compute_loss_derivative(e, b, a); double n = (double) p.size() * p[0].size() * p[0][0].size(), sum = 0; auto u = flat(p), v = flat(t); float g = 0; size_t at = 0; for (size_t j = 0; j < u.size(); j++) { float q = u[j] - v[j], m = fabsf(q); g = k == 0 ? q * q : k == 1 ? m : k == 2 ? (m < 1 ? 0.5f * m * m : m - 0.5f) : -v[j] * std::log(u[j]); sum += g; } sx_check(within(f->compute_loss(e) * (k == 3 ? 1.f : (float) n), (float) sum, 0.05f), k == 3 ? "loss: the sum" : "loss: the mean over all elements"); (void) at; Cube w = zip(p, t, [k](float x, float y) { float q = x - y; return k == 0 ? 2 * q : k == 1 ? sign(q) : k == 2 ? (fabsf(q) < 1 ? q : sign(q)) : q; }); sx_check(nearCube(d, w, 1e-5f), "slope everywhere"); }
