// P14: standardizing and normalizing, and undoing it
#include "types/tensor_impls/full_tensor.hpp"
#include "types/tensor_views/standardize_tensor_view.hpp"
#include "types/tensor_views/unstandardize_tensor_view.hpp"
#include "types/tensor_views/normalize_tensor_view.hpp"
#include "types/tensor_views/denormalize_tensor_view.hpp"
#include "util/tensor_utils.hpp"
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "training_data/training_dataset.hpp"
#include "util/dataset_utils.hpp"
#include "kit.hpp"
static float norm(float v, float lo, float hi) { return hi - lo == 0.0f ? v - lo : (v - lo) / (hi - lo); }
static Cube each(const Cube &v, std::function<float(float)> f) { Cube o = v; for (auto &x: o) for (auto &y: x) for (float &z: y) z = f(z); return o; }
struct Dim { size_t c, r, k; };
static Dim dim() { Dim d; int big = pick("larger", 0, 2); if (big) { d.c = big == 1 ? 5 : 1; d.r = big == 1 ? 3 : 34; d.k = big == 1 ? 35 : 2; return d; } d.c = pick("channels", 1, 2); d.r = pick("rows", 1, 2); d.k = pick("columns", 1, 2 + sx_tier()); return d; }
SX_HARNESS(formulas) { Dim d = dim(); Cube v = cubeBits(d.c, d.r, d.k, "v"); float m = symf("m"), s = symf("s"); T x = full(v);
    switch (pick("operation", 0, 3)) {
        case 0: { auto t = std::make_shared<StandardizeTensorView>(x, m, s); sx_check(sameCube(t, each(v, [=](float z) { return (z - m) / s; })), "standardized"); sx_check(sameF(t->get_mean(), m) && sameF(t->get_std_dev(), s), "the scale it was given"); break; }
        case 1: sx_check(sameCube(std::make_shared<UnstandardizeTensorView>(x, m, s), each(v, [=](float z) { return z * s + m; })), "unstandardized"); break;
        case 2: sx_check(sameCube(std::make_shared<NormalizeTensorView>(x, m, s), each(v, [=](float z) { return norm(z, m, s); })), "normalized"); break;
        case 3: sx_check(sameCube(std::make_shared<DenormalizeTensorView>(x, m, s), each(v, [=](float z) { return z * (s - m) + m; })), "denormalized"); break;
    } sx_check(sameCube(x, v), "the source is untouched"); }
SX_HARNESS(own_scale) { // a tensor's own mean, deviation and range
    size_t n = pick("n", 1, 3 + sx_tier()), lay = pick("layout", 0, 2); Cube v = lay == 0 ? cubeOf(1, 1, n) : lay == 1 ? cubeOf(1, n, 1) : cubeOf(n, 1, 1); std::vector<float *> at; for (auto &x: v) for (auto &y: x) for (float &z: y) at.push_back(&z); for (size_t i = 0; i < n; i++) *at[i] = (float) pick("v" + std::to_string(i), -2, 3) * 1.5f; double m = 0, q = 0; float lo = *at[0], hi = lo; for (auto p: at) { m += *p / (double) n; lo = std::min(lo, *p); hi = std::max(hi, *p); } for (auto p: at) q += (*p - m) * (*p - m) / (double) n; float sd = q < 1e-12 ? 1.0f : (float) std::sqrt(q);
    auto t = std::make_shared<StandardizeTensorView>(full(v)); sx_check(within(t->get_mean(), (float) m, 1e-5f) && within(t->get_std_dev(), sd, 1e-4f), "mean and deviation of all its values"); sx_check(nearCube(t, each(v, [=](float z) { return (float) ((z - m) / sd); }), 1e-4f), "standardized"); sx_check(nearCube(std::make_shared<UnstandardizeTensorView>(t, t->get_mean(), t->get_std_dev()), v, 1e-4f), "and back"); sx_check(sameCube(std::make_shared<NormalizeTensorView>(full(v)), each(v, [=](float z) { return norm(z, lo, hi); })), "normalized to 0..1"); }
SX_HARNESS(back) { // a scale given from outside is undone
    float x = (float) pick("x", -6, 6) * 0.75f, m = (float) pick("m", -2, 2) * 3.5f, s = 0.5f + (float) pick("s", 0, 4) * 1.25f; T t = full({{{x, 2}}, {{-x, 1}}}); Cube v = read(t); sx_check(nearCube(std::make_shared<UnstandardizeTensorView>(std::make_shared<StandardizeTensorView>(t, m, s), m, s), v, 1e-4f), "standardized and back"); sx_check(nearCube(std::make_shared<DenormalizeTensorView>(std::make_shared<NormalizeTensorView>(t, m, m + s), m, m + s), v, 1e-4f), "normalized and back"); float y = symi("y", -999, 999); T u = full({{{y}}}); sx_check(sameCube(std::make_shared<DenormalizeTensorView>(std::make_shared<NormalizeTensorView>(u, y, y), y, y), Cube{{{y}}}), "a constant column"); }
static std::shared_ptr<BinaryColumnMetadata> column(bool n, bool s, float lo, float hi, float m, float d) { auto c = std::make_shared<BinaryColumnMetadata>(); c->is_normalized = n; c->is_standardized = s; c->min_value = lo; c->max_value = hi; c->mean = m; c->standard_deviation = d; return c; }
SX_HARNESS(columns) { // a dataset column is standardized first and normalized second, and undone in the other order
    float v = symf("v"), lo = symf("lo"), hi = symf("hi"), m = symf("m"), d = symf("d"); bool n = pick("normalized", 0, 1), s = pick("standardized", 0, 1); auto c = column(n, s, lo, hi, m, d); T a = full({{{v, 1}}}), b = a; standardize_and_normalize(a, c); float w = v; if (s) w = (w - m) / d; if (n) w = norm(w, lo, hi); sx_check(sameF(a->getValue(0, 0, 0), w) && shapeIs(a, 1, 1, 2), "scaled"); unstandardize_and_denormalize(b, c); w = v; if (n) w = w * (hi - lo) + lo; if (s) w = w * d + m; sx_check(sameF(b->getValue(0, 0, 0), w) && shapeIs(b, 1, 1, 2), "unscaled"); }
SX_HARNESS(columns_back) { float v = (float) pick("v", -4, 4) * 1.25f, lo = (float) pick("lo", -2, 1), m = (float) pick("m", -2, 2), d = 0.5f + (float) pick("d", 0, 2); auto c = column(pick("normalized", 0, 1), pick("standardized", 0, 1), lo, lo + 1.5f, m, d); T a = full({{{v, 1}, {0, -v}}}); Cube w = read(a); standardize_and_normalize(a, c); unstandardize_and_denormalize(a, c); sx_check(nearCube(a, w, 1e-4f), "scaled and unscaled"); }
SX_HARNESS(rescaled) { // from one dataset's scale to another's
    float v = symf("v"), q[8]; for (int i = 0; i < 8; i++) q[i] = symf("q" + std::to_string(i)); bool n = pick("normalized", 0, 1), s = pick("standardized", 0, 1), rn = pick("renormalized", 0, 1), rs = pick("restandardized", 0, 1); T t = full({{{v, 1}}}); T u = renormalizeAndStandardize(t, n, s, q[0], q[1], q[2], q[3], rn, rs, q[4], q[5], q[6], q[7]); float w = v; if (n) w = w * (q[1] - q[0]) + q[0]; if (s) w = w * q[3] + q[2]; if (rs) w = (w - q[6]) / q[7]; if (rn) w = norm(w, q[4], q[5]); sx_check(sameF(u->getValue(0, 0, 0), w), "through the original values"); sx_check(shapeIs(u, 1, 1, 2) && sameCube(t, Cube{{{v, 1}}}), "same shape, source untouched"); }
SX_HARNESS(same_scale) { float v = (float) pick("v", -4, 4) * 1.25f, lo = (float) pick("lo", -2, 1), m = (float) pick("m", -1, 1), d = 0.5f + (float) pick("d", 0, 2); bool n = pick("normalized", 0, 1), s = pick("standardized", 0, 1); T t = full({{{v, 1}}}); sx_check(nearCube(renormalizeAndStandardize(t, n, s, lo, lo + 2, m, d, n, s, lo, lo + 2, m, d), Cube{{{v, 1}}}, 1e-4f), "rescaling to the same scale changes nothing"); }
SX_HARNESS(larger_scale) { // a tensor's own mean, deviation and range
    Cube v = large(pick("shape", 0, 3), pick("values", 0, 1)); nth(v, pick("where", 0, 3)) = (float) pick("x", -3, 3) * 10; double n = 0, m = 0, q = 0; float lo = v[0][0][0], hi = lo; for (auto &x: v) for (auto &y: x) for (float z: y) { m += z; n++; lo = std::min(lo, z); hi = std::max(hi, z); } m /= n; for (auto &x: v) for (auto &y: x) for (float z: y) q += (z - m) * (z - m) / n; float sd = (float) std::sqrt(q); auto t = std::make_shared<StandardizeTensorView>(full(v)); sx_check(within(t->get_mean(), (float) m, 1e-4f) && within(t->get_std_dev(), sd, 1e-3f), "mean and deviation of all its values"); sx_check(nearCube(t, each(v, [=](float z) { return (float) ((z - m) / sd); }), 1e-3f), "standardized"); sx_check(sameCube(std::make_shared<NormalizeTensorView>(full(v)), each(v, [=](float z) { return norm(z, lo, hi); })), "normalized to 0..1"); auto c = column(pick("normalized", 0, 1), pick("standardized", 0, 1), -3, 8, 2, 4); T a = full(v); standardize_and_normalize(a, c); unstandardize_and_denormalize(a, c); sx_check(nearCube(a, v, 1e-3f), "scaled and unscaled"); }
