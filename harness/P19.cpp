// P19: optimizers take the steps they are named for
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
static bool finite(float x) { return (bitsOf(x) & 0x7f800000u) != 0x7f800000u; }
static int close(const T &t, const Cube &c, float rel, float abs) { if (!shapeIs(t, c.size(), c[0].size(), c[0][0].size())) return 0; int ok = 1; for (size_t a = 0; a < c.size(); a++) for (size_t b = 0; b < c[0].size(); b++) for (size_t d = 0; d < c[0][0].size(); d++) { float g = t->getValue(b, d, a); ok &= sameF(g, c[a][b][d]) | relWithin(g, c[a][b][d], rel, abs); } return ok; }
static Cube zip(const Cube &p, const Cube &t, std::function<float(float, float)> f) { Cube o = p; for (size_t c = 0; c < p.size(); c++) for (size_t r = 0; r < p[0].size(); r++) for (size_t k = 0; k < p[0][0].size(); k++) o[c][r][k] = f(p[c][r][k], t[c][r][k]); return o; }
static Cube shape(int lay) { return lay == 0 ? cubeOf(1, 1, 2) : lay == 1 ? cubeOf(1, 2, 1) : cubeOf(2, 1, 1); }
static Cube anyValues(int lay, const std::string &n) { Cube v = shape(lay); int i = 0; for (auto &x: v) for (auto &y: x) for (float &z: y) { z = symf(n + std::to_string(i++)); sx_assume(finite(z)); } return v; }
// what the optimizers promise, with a memory for every registered parameter
struct Ref { int kind; float lr, blr; struct M { Cube m, v; bool set = false; }; M mem[2][2];
    Cube step(bool bias, int which, const Cube &w, const Cube &g) { float r = bias ? blr : lr; if (kind == 0) return zip(w, g, [=](float a, float b) { return a - b * r; }); M &q = mem[bias][which]; if (!q.set) { q.set = true; q.m = q.v = cubeOf(w.size(), w[0].size(), w[0][0].size()); }
        if (kind == 1) { q.m = zip(q.m, g, [=](float m, float b) { return m * 0.9f + b * r; }); return zip(w, q.m, [](float a, float m) { return a - m; }); }
        float b1 = 0.9, b2 = 0.999; q.m = zip(q.m, g, [=](float m, float b) { return m * b1 + b * (1 - b1); }); q.v = zip(q.v, g, [=](float v, float b) { return v * b2 + b * b * (1 - b2); }); Cube s = zip(q.m, q.v, [=](float m, float v) { return m * -r * (1.0f / (sqrtf(v) + 1e-8f + 1e-8f)); }); return zip(w, s, [](float a, float b) { return a + b; }); } };
static std::shared_ptr<BaseOptimizer> make(int kind, float lr, float blr, bool decay) { if (kind == 0) return std::make_shared<MBGDOptimizer>(lr, blr); if (kind == 1) return std::make_shared<SGDMOptimizer>(lr, blr, decay); return std::make_shared<AdamOptimizer>(lr, blr, decay); }
static T step(BaseOptimizer &o, bool bias, int id, const T &w, const T &g) { return bias ? o.calculateBiasChange(id, w, g) : o.calculateWeightsChange(id, w, g); }
SX_HARNESS(one_step) { // any parameters, gradient and rates
    int lay = pick("layout", 0, 2), kind = pick("optimizer", 0, 1); bool bias = pick("bias", 0, 1); float lr = symf("lr"), blr = symf("blr"); sx_assume(finite(lr) & finite(blr)); Cube w = anyValues(lay, "w"), g = anyValues(lay, "g"); auto o = make(kind, lr, blr, pick("decay", 0, 1)); sx_check(sameF(o->getLearningRate(), lr) & sameF(o->getBiasLearningRate(), blr), "rates as given"); int id = bias ? o->registerForBiasChanges() : o->registerForWeightChanges(); Ref r{kind, lr, blr}; T a = tens(w), b = tens(g); sx_check(close(step(*o, bias, id, a, b), r.step(bias, 0, w, g), 0, 0), "stepped against the gradient"); sx_check(sameCube(a, w) && sameCube(b, g), "inputs untouched"); }
SX_HARNESS(history) { // interleaved updates of two weights and two biases, each with a memory of its own
    int kind = pick("optimizer", 0, 2), n = 3 + sx_tier(); float lr = 0.125f, blr = 0.5f; auto o = make(kind, lr, blr, false); Ref r{kind, lr, blr}; int id[2][2]; for (int i = 0; i < 2; i++) { id[0][i] = o->registerForWeightChanges(); id[1][i] = o->registerForBiasChanges(); } Cube w[2][2] = {{{{{1, 2}}}, {{{-1}, {3}}}}, {{{{4}}}, {{{5, 0}}}}}; T t[2][2]; for (int b = 0; b < 2; b++) for (int i = 0; i < 2; i++) t[b][i] = tens(w[b][i]); float v = 1;
    for (int s = 0; s < n; s++) { bool b = pick("bias" + std::to_string(s), 0, 1); int i = pick("which" + std::to_string(s), 0, 1); Cube g = w[b][i]; float q = (float) (float) pick("g" + std::to_string(s), 0, 1) * 2 - 1; for (auto &x: g) for (auto &y: x) for (float &z: y) z = q * (v += 0.5f); if (s % 2) o->update_time_step(); t[b][i] = step(*o, b, id[b][i], t[b][i], tens(g)); w[b][i] = r.step(b, i, w[b][i], g); sx_check(close(t[b][i], w[b][i], 1e-4f, 1e-4f), "each parameter follows its own history"); } sx_check(o->getLearningRate() == lr && o->getBiasLearningRate() == blr, "rates stay without decay"); } // opts: time=200
SX_HARNESS(history_any) { // momentum over steps with any gradients
    int kind = pick("optimizer", 0, 1); bool b = pick("bias", 0, 1); auto o = make(kind, 0.25f, 0.0625f, false); Ref r{kind, 0.25f, 0.0625f}; int id0 = b ? o->registerForBiasChanges() : o->registerForWeightChanges(), id1 = b ? o->registerForBiasChanges() : o->registerForWeightChanges(); Cube w = anyValues(0, "w"); T t = tens(w); for (int s = 0; s < 2; s++) { Cube g = anyValues(0, "g" + std::to_string(s)), h = anyValues(0, "h" + std::to_string(s)); step(*o, b, id1, tens(h), tens(h)); t = step(*o, b, id0, t, tens(g)); w = r.step(b, 0, w, g); sx_check(close(t, w, 0, 0), "step"); } }
SX_HARNESS(decay) { // rates that adapt stay between 1e-5 and 0.1 and move once per time step
    int kind = pick("optimizer", 1, 2); bool b = pick("bias", 0, 1); auto o = make(kind, 0.05f, 0.05f, true); int id = b ? o->registerForBiasChanges() : o->registerForWeightChanges(), id2 = b ? o->registerForBiasChanges() : o->registerForWeightChanges(); auto rate = [&] { return b ? o->getBiasLearningRate() : o->getLearningRate(); }; auto other = [&] { return b ? o->getLearningRate() : o->getBiasLearningRate(); }; int steps = 0; T w = rowv({1, -1});
    for (int s = 0; s < 3 + sx_tier(); s++) { static const float q[] = {0, 0.001f, -2, 1000}; float g = q[pick("g" + std::to_string(s), 0, 3)]; if (pick("tick" + std::to_string(s), 0, 1)) { o->update_time_step(); steps++; } w = step(*o, b, id, w, rowv({g, g * 0.5f})); float r1 = rate(); sx_check(steps <= 1 ? r1 == 0.05f : (r1 >= 1e-5f * 0.999f && r1 <= 0.1f * 1.001f), "in bounds"); step(*o, b, id2, w, rowv({1, 1})); sx_check(rate() == r1, "once per time step"); sx_check(other() == 0.05f, "the other rate is left alone"); } }
SX_HARNESS(factory) { int k = pick("type", 0, 4); static const OptimizerType types[] = {OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::sgdm_with_decaying_momentum, OptimizerType::adam_with_decaying_momentum}; OptimizerType type = types[k]; bool decays = k > 2; if (decays) k -= 2; float lr = 0.25f, blr = 0.75f; auto o = createOptimizer(type, lr, blr); sx_check(o->getLearningRate() == lr && o->getBiasLearningRate() == blr, "rates"); int id = o->registerForWeightChanges(), bid = o->registerForBiasChanges(); Ref r{k, lr, blr}; Cube w = {{{1, -2}}}, g = {{{0.5f, 3}}}; T a = tens(w), c = a; Cube x = w, y = w; for (int s = 0; s < 2; s++) { a = o->calculateWeightsChange(id, a, tens(g)); x = r.step(false, 0, x, g); c = o->calculateBiasChange(bid, c, tens(g)); y = r.step(true, 0, y, g); } sx_check(close(a, x, 1e-4f, 1e-4f) && close(c, y, 1e-4f, 1e-4f), "the optimizer asked for"); for (int i = 0; i < 3; i++) o->update_time_step(); for (int i = 0; i < 2; i++) { o->calculateWeightsChange(id, a, tens(g)); o->calculateBiasChange(bid, a, tens(g)); } sx_check((o->getLearningRate() != lr) == decays && (o->getBiasLearningRate() != blr) == decays, "rates adapt only if asked to"); }
SX_HARNESS(larger) { // many elements and many parameters over many steps
    int kind = pick("optimizer", 0, 2), which = pick("which", 0, 11); bool b = pick("bias", 0, 1); auto o = make(kind, 0.125f, 0.5f, false); int id[12]; for (int i = 0; i < 12; i++) { id[i] = b ? o->registerForBiasChanges() : o->registerForWeightChanges(); if (i % 3 == 0) { if (b) o->registerForWeightChanges(); else o->registerForBiasChanges(); } } Ref r{kind, 0.125f, 0.5f}; Cube w = large(which % 4), one = pattern(1, 1, 2); T t = tens(w); std::vector<T> others(12, tens(one)); bool ok = true; for (int s = 0; s < 12; s++) { Cube g = large(which % 4, s); for (int i = 0; i < 12; i++) if (i != which) others[i] = step(*o, b, id[i], others[i], tens(pattern(1, 1, 2, s + i))); t = step(*o, b, id[which], t, tens(g)); w = r.step(b, 0, w, g); if (s == 0 || s > 9) ok &= close(t, w, 1e-3f, 1e-3f); t = tens(read(t)); o->update_time_step(); } sx_check(ok, "each parameter follows its own history"); } // opts: time=200
