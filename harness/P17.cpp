// P17: activation functions and their derivatives are the ones their names say
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
typedef std::function<float(float)> F;
struct Act { std::shared_ptr<ActivationFunction> f; F value, slope; };
static float sig(float x) { return 1.0f / (1.0f + expf(-x)); }
static float sigA(float x) { return 0.5f * (x / (1.0f + fabsf(x)) + 1.0f); }
static float th(float x) { return tanhf(x); }
static float thA(float x) { return 2.0f * sig(2.0f * x) - 1.0f; }
static Act smooth(int k) {
    switch (k) {
        case 0: return {std::make_shared<SigmoidActivationFunction>(), sig, [](float x) { float s = sig(x); return s * (1.0f - s); }};
        case 1: return {std::make_shared<TanhActivationFunction>(), th, [](float x) { float t = th(x); return 1.0f - t * t; }};
        case 2: return {std::make_shared<TanhApproximationActivationFunction>(), thA, [](float x) { float t = thA(x); return 1.0f - t * t; }};
        default: return {std::make_shared<SigmoidApproximationActivationFunction>(), sigA, [](float x) { float s = sigA(x); return s * (1.0f - s); }};
    }
}
static Cube each(const Cube &v, F f) { Cube o = v; for (auto &x: o) for (auto &y: x) for (float &z: y) z = f(z); return o; }
static int closeCube(const T &t, const Cube &c, float rel, float abs) { if (!shapeIs(t, c.size(), c[0].size(), c[0][0].size())) return 0; int ok = 1; for (size_t a = 0; a < c.size(); a++) for (size_t b = 0; b < c[0].size(); b++) for (size_t d = 0; d < c[0][0].size(); d++) { float g = t->getValue(b, d, a); ok &= sameF(g, c[a][b][d]) | relWithin(g, c[a][b][d], rel, abs); } return ok; }
static bool finite(float x) { return (bitsOf(x) & 0x7f800000u) != 0x7f800000u; }
static Cube values(int layout, const std::string &n) { size_t c = layout == 2 ? 2 : 1, r = layout == 1 ? 2 : 1, k = layout == 0 ? 2 : 1; Cube v = cubeBits(c, r, k, n); for (auto &x: v) for (auto &y: x) for (float z: y) sx_assume(finite(z)); return v; }
SX_HARNESS(piecewise) { // every finite value
    int lay = pick("layout", 0, 2); Cube v = values(lay, "v"); T x = tens(v); switch (pick("function", 0, 2)) {
        case 0: { LinearActivationFunction f; sx_check(sameCube(f.activate(x), v), "linear is the value itself"); sx_check(sameCube(f.derivative(x), each(v, [](float) { return 1.0f; })), "slope 1"); break; }
        case 1: { ReLUActivationFunction f; T y = f.activate(x), d = f.derivative(x); Cube a = read(y), s = read(d); sx_check(shapeIs(y, v.size(), v[0].size(), v[0][0].size()) && shapeIs(d, v.size(), v[0].size(), v[0][0].size()), "shape"); for (size_t c = 0; c < v.size(); c++) for (size_t r = 0; r < v[0].size(); r++) for (size_t k = 0; k < v[0][0].size(); k++) { float z = v[c][r][k]; sx_check(((z > 0) & sameF(a[c][r][k], z)) | (!(z > 0) & (a[c][r][k] == 0)), "relu keeps what is positive"); sx_check(s[c][r][k] == (float) (z > 0), "its slope is 1 there and 0 elsewhere"); } break; }
        default: { LeakyReLUActivationFunction f; T y = f.activate(x), d = f.derivative(x); Cube a = read(y), s = read(d); sx_check(shapeIs(y, v.size(), v[0].size(), v[0][0].size()) && shapeIs(d, v.size(), v[0].size(), v[0][0].size()), "shape"); for (size_t c = 0; c < v.size(); c++) for (size_t r = 0; r < v[0].size(); r++) for (size_t k = 0; k < v[0][0].size(); k++) { float z = v[c][r][k], w = 0.01f * z; sx_check(((z >= 0) & (a[c][r][k] == z)) | ((z < 0) & (a[c][r][k] == w)), "leaky relu keeps a hundredth of what is negative"); sx_check(((z >= 0) & (s[c][r][k] == 1.0f)) | ((z < 0) & (s[c][r][k] == 0.01f)), "and its slope"); } break; }
    } sx_check(sameCube(x, v), "the input is untouched"); }
SX_HARNESS(formulas) { // every finite value, exp and tanh being functions of their argument
    int k = pick("function", 0, 3), lay = pick("layout", 0, 2); Act a = smooth(k); Cube v = values(lay, "v"); T x = tens(v); sx_check(closeCube(a.f->activate(x), each(v, a.value), 1e-5f, 2e-6f), "its value"); sx_check(closeCube(a.f->derivative(x), each(v, a.slope), 1e-5f, 2e-6f), "its slope"); sx_check(sameCube(x, v), "the input is untouched"); }
SX_HARNESS(ranges) { // every finite value: outputs stay where the function's name puts them
    int k = pick("function", 0, 2); Act a = smooth(k); Cube v = values(1, "v"); float y = a.f->activate(tens(v))->getValue(1, 0, 0); sx_check((y <= 1.0f) & (y >= (k == 0 ? 0.0f : -1.0f)), "in range"); }
SX_HARNESS(points) { // against the real exp and tanh
    int k = pick("function", 0, 3); static const float at[] = {0, 0.5f, 1, 1.25f, 2, 3.75f, 5, 6.5f, 8, 12, 20, 50, 90, 200, 1e4f, 1e30f}; float x = at[pick("value", 0, 15)] * (pick("negative", 0, 1) ? -1.0f : 1.0f); Act a = smooth(k); T t = mat({{x}, {0.25f}}); double e = k == 0 ? 1 / (1 + std::exp(-(double) x)) : k == 3 ? 0.5 * (x / (1 + std::fabs((double) x)) + 1) : std::tanh((double) x), s = k == 0 || k == 3 ? e * (1 - e) : 1 - e * e;
    sx_check(within(a.f->activate(t)->getValue(0, 0, 0), (float) e, 1e-5f), "its value"); sx_check(within(a.f->derivative(t)->getValue(0, 0, 0), (float) s, 1e-5f), "its slope"); }
SX_HARNESS(softmax) { // probabilities over all elements, however large the inputs
    size_t n = pick("n", 1, 3 + sx_tier()), lay = pick("layout", 0, 2); Cube v = lay == 0 ? cubeOf(1, 1, n) : lay == 1 ? cubeOf(1, n, 1) : cubeOf(n, 1, 1); if (n == 1 && lay) sx_assume(false); std::vector<float *> at; for (auto &x: v) for (auto &y: x) for (float &z: y) at.push_back(&z);
    static const float far[] = {0, 1000, -1000, 80}; float shift = far[pick("shift", 0, 3)]; std::vector<double> raw; for (size_t i = 0; i < n; i++) { int q = pick("v" + std::to_string(i), 0, 4); static const double steps[] = {0, 1, -2.5, 0.75, 130}; raw.push_back(steps[q]); *at[i] = (float) (shift + steps[q]); }
    double top = -1e9, sum = 0; for (size_t i = 0; i < n; i++) top = std::max(top, raw[i]); for (size_t i = 0; i < n; i++) sum += std::exp(raw[i] - top); Cube e = v; size_t i = 0; for (auto &x: e) for (auto &y: x) for (float &z: y) z = (float) (std::exp(raw[i++] - top) / sum);
    SoftmaxActivationFunction f; T x = tens(v); T y = f.activate(x); sx_check(nearCube(y, e, 1e-5f), "each value's share"); sx_check(std::fabs(y->sum() - 1.0) < 1e-4, "adding up to 1"); sx_check(sameCube(f.derivative(x), v), "its derivative hands its input on, as cross entropy expects"); }
static Act every(int k) { switch (k) { case 4: return {std::make_shared<LinearActivationFunction>(), [](float x) { return x; }, [](float) { return 1.0f; }}; case 5: return {std::make_shared<ReLUActivationFunction>(), [](float x) { return x > 0 ? x : 0; }, [](float x) { return x > 0 ? 1.0f : 0; }}; case 6: return {std::make_shared<LeakyReLUActivationFunction>(), [](float x) { return x >= 0 ? x : 0.01f * x; }, [](float x) { return x >= 0 ? 1.0f : 0.01f; }}; default: return smooth(k); } }
SX_HARNESS(larger) { // many elements, one of them arbitrary
    int k = pick("function", 0, 6); Act a = every(k); Cube v = large(pick("shape", 0, 3)); float &z = nth(v, pick("where", 0, 3)); z = symf("v"); sx_assume(finite(z)); T x = tens(v), y = a.f->activate(x), d = a.f->derivative(x); sx_check(closeCube(y, each(v, a.value), 1e-5f, 2e-6f), "its value everywhere"); sx_check(closeCube(d, each(v, a.slope), 1e-5f, 2e-6f), "its slope everywhere"); }
SX_HARNESS(larger_softmax) { Cube v = large(pick("shape", 0, 3)); static const float q[] = {0, 1, -2.5f, 30, 700, -700}; nth(v, pick("where", 0, 3)) = q[pick("v", 0, 5)]; double top = -1e9, sum = 0; for (auto &x: v) for (auto &y: x) for (float z: y) top = std::max(top, (double) z); for (auto &x: v) for (auto &y: x) for (float z: y) sum += std::exp(z - top); SoftmaxActivationFunction f; sx_check(nearCube(f.activate(tens(v)), each(v, [=](float z) { return (float) (std::exp(z - top) / sum); }), 1e-5f), "each value's share"); }
