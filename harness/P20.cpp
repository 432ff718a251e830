// P20: layers compute what they are for, pass back the gradient, and learn from exactly the errors they were given
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
typedef std::vector<std::vector<float>> M;
static int close(const T &t, const Cube &c, float rel, float abs) { if (!shapeIs(t, c.size(), c[0].size(), c[0][0].size())) return 0; int ok = 1; for (size_t a = 0; a < c.size(); a++) for (size_t b = 0; b < c[0].size(); b++) for (size_t d = 0; d < c[0][0].size(); d++) { float g = t->getValue(b, d, a); ok &= (g == c[a][b][d]) | relWithin(g, c[a][b][d], rel, abs); } return ok; }
static M mul(const M &a, const M &b) { M o(a.size(), std::vector<float>(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) o[i][j] += a[i][k] * b[k][j]; return o; }
static M turn(const M &a) { M o(a[0].size(), std::vector<float>(a.size())); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) o[j][i] = a[i][j]; return o; }
static Cube each(const Cube &v, std::function<float(float)> f) { Cube o = v; for (auto &x: o) for (auto &y: x) for (float &z: y) z = f(z); return o; }
static Cube zip(const Cube &p, const Cube &t, std::function<float(float, float)> f) { Cube o = p; for (size_t c = 0; c < p.size(); c++) for (size_t r = 0; r < p[0].size(); r++) for (size_t k = 0; k < p[0][0].size(); k++) o[c][r][k] = f(p[c][r][k], t[c][r][k]); return o; }
static std::string N(const char *s, int i) { return s + std::to_string(i); }
static void put(const std::string &name, const Cube &w) { FullTensor t(w); t.save(sub(name)); }
static std::shared_ptr<BaseOptimizer> plain(float lr, float blr) { return std::make_shared<MBGDOptimizer>(lr, blr); }
SX_HARNESS(dense) { // any whole-number weights, inputs and errors
    int in = pick("in", 1, 3), out = pick("out", 1, 2); bool l2 = pick("l2", 0, 1); Cube w = cubeInts(1, in, out, "w", -50, 50), x = cubeInts(1, 1, in, "x", -50, 50), e = cubeInts(1, 1, out, "e", -50, 50); put("d.tensor", w); FullyConnectedLayer l("d", in, out, 32, 0, l2, 3.0f); sx_check(l.getOutputShape() == std::vector<size_t>({1, (size_t) out, 1}) && l.get_parameter_count() == (size_t) in * out && l.is_trainable(), "shape"); l.loadKnowledge(sx_scratch()); sx_check(sameCube(l.forward({tens(x)}, pick("ask first", 0, 1) == 0), Cube{mul(x[0], w[0])}), "forward: input times weights");
    FullyConnectedLayer m("d", in, out, 32, 0, l2, 3.0f); m.loadKnowledge(sx_scratch()); m.forward({tens(x)}, true); auto back = m.backward(tens(e)); sx_check(back.size() == 1 && sameCube(back[0], Cube{mul(e[0], turn(w[0]))}), "passes back error times weights turned"); m.apply(plain(1, 7)); Cube g = {mul(turn(x[0]), e[0])}, want = zip(w, g, [](float a, float b) { return a - b; }); if (l2) want = zip(want, w, [](float a, float b) { return a - 3 * b; }); m.saveKnowledge(sub("")); sx_check(sameCube(std::make_shared<FullTensor>(sub("d.tensor")), want), "weights move against input times error, and towards 0 if regularized"); Cube y = cubeInts(1, 1, in, "y", -50, 50); sx_check(sameCube(m.forward({tens(y)}, false), Cube{mul(y[0], want[0])}), "the new weights are used"); }
SX_HARNESS(dense_batch) { // several records between steps, several backward passes between steps
    int n = pick("records", 1, 2 + sx_tier()), passes = pick("passes", 1, 2); bool l2 = pick("l2", 0, 1); int bits = 8 << pick("bits", 0, 2); Cube w = {{{1, -2}, {3, 0.5f}}}; put("d.tensor", w); FullyConnectedLayer l("d", 2, 2, bits, 0, l2, 0.25f); l.loadKnowledge(sx_scratch()); Cube want = w, g = cubeOf(1, 2, 2); int at = 0;
    for (int p = 0; p < passes; p++) { Cube sum = cubeOf(1, 1, 2); for (int i = 0; i < n; i++) { Cube x = {{{(float) pick(N("x", at++), 0, 1) * 2 - 1, (float) (i + p)}}}; l.forward({tens(x)}, true); if (i == 1) l.forward({tens({{{9, 9}}})}, false); sum = zip(sum, x, [](float a, float b) { return a + b; }); } Cube e = {{{(float) pick(N("e", p), 0, 1) * 3 - 1, 2}}}; l.backward(tens(e)); Cube s = {mul(turn(each(sum, [n](float a) { return a / (float) n; })[0]), e[0])}; if (l2) s = zip(s, w, [](float a, float b) { return a + 0.25f * b; }); g = zip(g, s, [](float a, float b) { return a + b; }); }
    l.apply(plain(0.5f, 9)); want = zip(w, g, [passes](float a, float b) { return a - 0.5f * (b / (float) passes); }); T q = materializeTensor(tens(want), bits); for (int i = 0; i < 2; i++) sx_check(close(l.forward({rowv({(float) (i == 0), (float) (i == 1)})}, false), Cube{{{q->getValue(i, 0, 0), q->getValue(i, 1, 0)}}}, bits == 32 ? 1e-5f : bits == 16 ? 2e-3f : 0.13f, 1e-4f), "one step against the average gradient"); sx_check(throws([&] { l.backward(rowv({1, 1})); }) && throws([&] { l.apply(plain(1, 1)); }), "nothing is left over for the next batch"); } // opts: time=200
SX_HARNESS(stored_bits) { // only the new weights are rounded to the layer's bits, nothing on the way to them
    static const float E[] = {0.7f, 1.f / 3, -9.123f, 1000.77f, -0.0131f}, W[] = {0.1f, -3.7f, 100.3f}; int bits = 8 << pick("bits", 0, 2), kind = pick("layer", 0, 2); bool l2 = kind != 1 && pick("l2", 0, 1); float e = E[pick("e", 0, 4)], v = W[pick("w", 0, 2)], s = l2 ? 0.25f * v : 0; T q = materializeTensor(tens({{{v - 0.5f * (e + s)}}}), bits); float want = q->getValue(0, 0, 0);
    std::shared_ptr<BaseLayer> l; if (kind == 0) { put("s.tensor", {{{v}}}); l = std::make_shared<FullyConnectedLayer>("s", 1, 1, bits, 0, l2, 0.25f); } else if (kind == 1) { put("s.tensor", {{{v}}}); l = std::make_shared<BiasLayer>("s", std::vector<size_t>{1, 1, 1}, std::vector<size_t>{1, 1, 1}, bits, 0); } else { put("s_0.tensor", {{{v}}}); l = std::make_shared<Convolution2dValidFunction>("s", std::vector<size_t>{1, 1, 1}, 1, 1, bits, 0, l2, 0.25f); }
    l->loadKnowledge(sx_scratch()); l->forward({rowv({1})}, true); l->backward(rowv({e})); l->apply(plain(0.5f, 0.5f)); float got = l->forward({rowv({kind == 1 ? 0.f : 1.f})}, false)->getValue(0, 0, 0); sx_check(got == want, "the stored weight is the moved weight at the layer's bits"); }
SX_HARNESS(bias) { int lay = pick("layout", 0, 2), n = pick("passes", 1, 2); std::vector<size_t> sh = lay == 0 ? std::vector<size_t>{1, 2, 1} : lay == 1 ? std::vector<size_t>{2, 1, 1} : std::vector<size_t>{1, 1, 2}; BiasLayer l("b", sh, sh, 32, 0); auto shaped = [&](const std::string &s) { return cubeInts(sh[2], sh[0], sh[1], s, -100, 100); }; sx_check(l.is_trainable() && l.get_parameter_count() == 2, "parameters"); Cube z = cubeOf(sh[2], sh[0], sh[1]); sx_check(close(l.forward({tens(z)}, true), each(z, [](float) { return 0.1f; }), 0, 0), "starts at 0.1"); Cube b = shaped("b"), x = shaped("x"); put("b.tensor", b); l.loadKnowledge(sx_scratch()); sx_check(sameCube(l.forward({tens(x)}, true), zip(b, x, [](float p, float q) { return p + q; })), "adds"); Cube g = z; for (int i = 0; i < n; i++) { Cube e = shaped(N("e", i)); if (n == 2) e = each(e, [](float v) { return v * 2; }); T t = tens(e); auto r = l.backward(t); sx_check(r.size() == 1 && sameCube(r[0], e), "passes the error on"); g = zip(g, n == 2 ? each(e, [](float v) { return v / 2; }) : e, [](float p, float q) { return p + q; }); } l.apply(plain(5, 2)); sx_check(close(l.forward({tens(z)}, false), zip(b, g, [](float p, float q) { return p - 2 * q; }), 0, 0), "one step against the average error, at the bias rate"); sx_check(throws([&] { l.apply(plain(1, 1)); }), "errors are used once"); }
SX_HARNESS(convolution) { // any whole-number kernels, inputs and errors
    int ch = pick("channels", 1, 2), fl = pick("filters", 1, 2), k = pick("kernel", 1, 2 + sx_tier()), rows = k + pick("more rows", 0, 1), cols = k + pick("more columns", 0, 1), orow = rows - k + 1, oc = cols - k + 1; bool l2 = pick("l2", 0, 1); std::vector<Cube> w; for (int f = 0; f < fl; f++) { w.push_back(cubeInts(ch, k, k, N("w", f), -20, 20)); put("c_" + std::to_string(f) + ".tensor", w[f]); } Cube x = cubeInts(ch, rows, cols, "x", -20, 20), e = cubeInts(fl, orow, oc, "e", -20, 20); Convolution2dValidFunction l("c", {(size_t) rows, (size_t) cols, (size_t) ch}, fl, k, 32, 0, l2, 2.0f); sx_check(l.get_parameter_count() == (size_t) fl * ch * k * k && l.is_trainable() && l.get_kernel_size() == (size_t) k, "parameters"); l.loadKnowledge(sx_scratch());
    Cube y = cubeOf(fl, orow, oc), xe = cubeOf(ch, rows, cols); auto nw = w; for (int f = 0; f < fl; f++) for (int c = 0; c < ch; c++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) { float g = 0; for (int r = 0; r < orow; r++) for (int q = 0; q < oc; q++) { y[f][r][q] += x[c][r + a][q + b] * w[f][c][a][b]; xe[c][r + a][q + b] += e[f][r][q] * w[f][c][a][b]; g += x[c][r + a][q + b] * e[f][r][q]; } nw[f][c][a][b] -= g + (l2 ? 2 * w[f][c][a][b] : 0); }
    sx_check(sameCube(l.forward({tens(x)}, true), y), "forward: correlation summed over channels, one channel for each filter"); auto r = l.backward(tens(e)); sx_check(r.size() == 1 && sameCube(r[0], xe), "passes back each input's share of the error"); l.apply(plain(1, 7)); l.saveKnowledge(sub("")); for (int f = 0; f < fl; f++) sx_check(sameCube(std::make_shared<FullTensor>(sub("c_" + std::to_string(f) + ".tensor")), nw[f]), "kernels move against input times error"); sx_check(throws([&] { l.backward(tens(e)); }), "each record is used once"); } // opts: time=200
SX_HARNESS(filters_learn_apart) { // momentum does not leak from one filter into another
    auto o = createOptimizer(OptimizerType::sgdm, 1.0f, 1.0f); auto o1 = createOptimizer(OptimizerType::sgdm, 1.0f, 1.0f); int other = o->registerForWeightChanges(); Convolution2dValidFunction l("c", {2, 2, 1}, 2, 2, 32, o->registerForWeightChanges(), false, 0), s("s", {2, 2, 1}, 1, 2, 32, o1->registerForWeightChanges(), false, 0); put("c_0.tensor", {{{1, 2}, {3, 4}}}); put("c_1.tensor", {{{5, 6}, {7, 8}}}); put("s_0.tensor", {{{5, 6}, {7, 8}}}); l.loadKnowledge(sx_scratch()); s.loadKnowledge(sx_scratch()); T w = rowv({0}); for (int i = 0; i < 2 + sx_tier(); i++) { Cube x = {{{(float) pick(N("x", i), -1, 1), 1}, {2, 3}}}; float e0 = (float) pick(N("e", i), -1, 1), e1 = (float) pick(N("f", i), -1, 1); l.forward({tens(x)}, true); l.backward(tens({{{e0}}, {{e1}}})); l.apply(o); s.forward({tens(x)}, true); s.backward(tens({{{e1}}})); s.apply(o1); w = o->calculateWeightsChange(other, w, rowv({1000})); T a = l.forward({tens(x)}, false), b = s.forward({tens(x)}, false); sx_check(within(a->getValue(0, 0, 1), b->getValue(0, 0, 0), 1e-3f), "the second filter learns as if it were alone"); } }
SX_HARNESS(activation) { int n = pick("records", 1, 2), kind = pick("function", 0, 2); std::shared_ptr<ActivationFunction> f; if (kind == 0) f = std::make_shared<ReLUActivationFunction>(); else if (kind == 1) f = std::make_shared<TanhActivationFunction>(); else f = std::make_shared<LinearActivationFunction>(); ActivationLayer l(f); Cube d = cubeOf(1, 1, 2), v; for (int i = 0; i < n; i++) { Cube x = {{{(float) pick(N("x", 2 * i), -1, 1), (float) pick(N("x", 2 * i + 1), -1, 1)}}}; sx_check(close(l.forward({tens(x)}, true), read(f->activate(tens(x))), 0, 0), "activates"); l.forward({rowv({5, 5})}, false); d = zip(d, read(f->derivative(tens(x))), [](float a, float b) { return a + b; }); } Cube e = kind == 1 ? Cube{{{(float) pick("e", -1, 1) * 7, 3}}} : cubeInts(1, 1, 2, "e", -100, 100); auto r = l.backward(tens(e)); sx_check(r.size() == 1 && close(r[0], zip(d, e, [n](float a, float b) { return a / (float) n * b; }), 1e-5f, 1e-4f), "passes back the error times the average slope"); sx_check(throws([&] { l.backward(tens(e)); }), "each record is used once"); }
SX_HARNESS(flatten) { int c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 3); Cube v = cubeBits(c, r, k, "v"); FlattenLayer l; T y = l.forward({tens(v)}, pick("training", 0, 1)); Cube row = cubeOf(1, 1, c * r * k); size_t i = 0; for (auto &x: v) for (auto &a: x) for (float z: a) row[0][0][i++] = z; sx_check(sameCube(y, row), "one row of all values"); Cube e = cubeBits(1, 1, c * r * k, "e"), want = v; i = 0; for (auto &x: want) for (auto &a: x) for (float &z: a) z = e[0][0][i++]; auto b = l.backward(tens(e)); sx_check(b.size() == 1 && sameCube(b[0], want), "each error returns to its value"); }
SX_HARNESS(concatenate) { int n = pick("inputs", 2, 3), c = pick("channels", 1, 2), r = pick("rows", 1, 2); std::vector<std::vector<size_t>> sh; std::vector<Cube> v; std::vector<T> t; Cube all = cubeOf(c, r, 0); for (int i = 0; i < n; i++) { int k = pick(N("columns", i), 1, 2); sh.push_back({(size_t) r, (size_t) k, (size_t) c}); v.push_back(cubeBits(c, r, k, N("v", i))); t.push_back(tens(v[i])); for (int a = 0; a < c; a++) for (int b = 0; b < r; b++) for (int d = 0; d < k; d++) all[a][b].push_back(v[i][a][b][d]); } ConcatenateWideLayer l("x", sh); sx_check(l.get_output_shape() == std::vector<size_t>({(size_t) r, all[0][0].size(), (size_t) c}), "shape"); sx_check(sameCube(l.forward(t, true), all), "side by side"); auto b = l.backward(tens(all)); sx_check(b.size() == (size_t) n, "one error for each input"); for (int i = 0; i < n; i++) sx_check(sameCube(b[i], v[i]), "each input gets its own columns back"); std::vector<T> turned(t.rbegin(), t.rend()); auto tb = l.backward(l.forward(turned, true)); for (int i = 0; i < n; i++) sx_check(tb.size() == (size_t) n && sameCube(tb[i], v[n - 1 - i]), "whatever order they came in"); auto bad = sh; bad[n - 1][pick("bad", 0, 1) * 2]++; sx_check(throws([&] { ConcatenateWideLayer q("y", bad); }) && throws([&] { l.forward({t[0]}, true); }) && throws([&] { ConcatenateWideLayer q("z", {sh[0]}); }), "inputs that do not fit are refused"); }
SX_HARNESS(dropout) { int q = pick("rate", 0, 4); float rate = 0.25f * q, keep = q == 4 ? 0 : 1 / (1 - rate); size_t r = pick("rows", 1, 2), c = pick("channels", 1, 2); DropoutLayer l("d", {r, 5, c}, rate); sx_check(l.get_output_shape() == std::vector<size_t>({r, 5, c}), "shape"); Cube x = cubeOf(c, r, 5), e = cubeInts(c, r, 5, "e", -100, 100); float next = 1; for (auto &p: x) for (auto &y: p) for (float &z: y) z = next++; if (q == 1) e = zip(x, x, [](float a, float) { return 3 - a; }); sx_check(sameCube(l.forward({tens(x)}, false), x), "nothing is dropped outside of training"); std::set<std::string> seen; for (int i = 0; i < 4; i++) { T y = l.forward({tens(x)}, true); Cube m = cubeOf(c, r, 5); std::string s; Cube a = read(y); for (size_t p = 0; p < c; p++) for (size_t g = 0; g < r; g++) for (size_t d = 0; d < 5; d++) { bool on = a[p][g][d] > 0; s += on ? '1' : '0'; m[p][g][d] = on ? keep : 0; } sx_check(shapeIs(y, c, r, 5) && close(y, zip(x, m, [](float u, float v) { return u * v; }), 1e-6f, 0), "a value is dropped, or scaled to keep the expected value"); sx_check(close(y, read(y), 0, 0), "asked again"); auto b = l.backward(tens(e)); sx_check(b.size() == 1 && close(b[0], zip(e, m, [](float u, float v) { return u * v; }), 1e-6f, 0), "the error goes the same ways"); sx_check(q != 0 || s.find('0') == std::string::npos, "rate 0 drops nothing"); sx_check(q != 4 || s.find('1') == std::string::npos, "rate 1 drops everything"); seen.insert(s); } sx_check(q == 0 || q == 4 || seen.size() > 1, "another choice each time"); sx_check(throws([] { DropoutLayer z("z", {1, 1, 1}, 1.5f); }) && throws([] { DropoutLayer z("z", {1, 1, 1}, -0.5f); }), "rates outside 0..1 are refused"); }
SX_HARNESS(dropout_share) { int q = pick("rate", 0, 4); float rate = 0.25f * q; DropoutLayer l("d", {20, 40, 1}, rate); Cube x = cubeOf(1, 20, 40, 1); Cube a = read(l.forward({tens(x)}, true)); int zero = 0; for (auto &p: a[0]) for (float z: p) zero += z == 0; sx_check(std::abs(zero - (int) (800 * rate)) < 80, "about the share of values asked for"); }
SX_HARNESS(normalization) { size_t n = pick("n", 2, 3), lay = n == 3 ? 0 : pick("layout", 0, 2); Cube x = lay == 0 ? cubeOf(1, 1, n) : lay == 1 ? cubeOf(1, n, 1) : cubeOf(n, 1, 1), e = x; std::vector<double> v(n), d(n); size_t i = 0; for (auto &p: x) for (auto &q: p) for (float &z: q) { v[i] = pick(N("x", i), 0, 3); z = (float) v[i++]; } i = 0; for (auto &p: e) for (auto &q: p) for (float &z: q) { d[i] = pick(N("e", i), -1, 1); z = (float) d[i++]; } double m = 0, s = 0; for (double z: v) m += z / n; for (double z: v) s += (z - m) * (z - m) / n; sx_assume(s > 1e-6); s = std::sqrt(s); NormalizationLayer l; Cube y = x, g = x; i = 0; for (auto &p: y) for (auto &q: p) for (float &z: q) z = (float) ((v[i++] - m) / s); sx_check(close(l.forward({tens(x)}, true), y, 1e-4f, 1e-4f), "standardizes"); sx_check(close(l.forward({tens(x)}, false), y, 1e-4f, 1e-4f), "also outside of training");
    double dm = 0, dx = 0; for (size_t j = 0; j < n; j++) { dm += d[j] / n; dx += d[j] * (v[j] - m) / s / n; } i = 0; for (auto &p: g) for (auto &q: p) for (float &z: q) { z = (float) ((d[i] - dm - (v[i] - m) / s * dx) / s); i++; } auto r = l.backward(tens(e)); sx_check(r.size() == 1 && close(r[0], g, 1e-3f, 1e-3f), "passes back the gradient"); }
SX_HARNESS(misuse) { T x = rowv({1, 2}); std::vector<T> two = {x, x}; FullyConnectedLayer a("a", 2, 1, 32, 0, false, 0); BiasLayer b("b", {1, 2, 1}, {1, 2, 1}, 32, 0); ActivationLayer c(std::make_shared<LinearActivationFunction>()); FlattenLayer d; NormalizationLayer e; Convolution2dValidFunction f("f", {1, 2, 1}, 1, 1, 32, 0, false, 0); switch (pick("layer", 0, 8)) { case 0: sx_check(throws([&] { a.forward(two, true); }), "one input"); break; case 1: sx_check(throws([&] { b.forward(two, true); }), "one input"); break; case 2: sx_check(throws([&] { c.forward(two, true); }), "one input"); break; case 3: sx_check(throws([&] { d.forward(two, true); }), "one input"); break; case 4: sx_check(throws([&] { e.forward(two, true); }), "one input"); break; case 5: sx_check(throws([&] { f.forward(two, true); }), "one input"); break; case 6: a.forward({x}, false); sx_check(throws([&] { a.backward(rowv({1})); }) && throws([&] { a.apply(plain(1, 1)); }), "no training without training input"); break; case 7: sx_check(throws([&] { b.apply(plain(1, 1)); }), "no step without an error"); break; case 8: c.forward({x}, false); e.forward({x}, false); sx_check(throws([&] { c.backward(x); }) && throws([&] { e.backward(x); }), "no training without training input"); break; } }
SX_HARNESS(larger) { // wide layers, more records, more passes; a few of the values are any whole number
    int kind = pick("layer", 0, 5), where = pick("where", 0, 3), other = pick("other", 0, 3);
    if (kind == 0) { // dense
        int size = pick("size", 0, 2), in = size == 0 ? 5 : size == 1 ? 33 : 9, out = size == 0 ? 17 : size == 1 ? 3 : 40, n = size == 2 ? 8 : 1 << size, passes = 1 << pick("passes", 0, 2); Cube w = pattern(1, in, out, size), g = cubeOf(1, in, out); nth(w, where) = symi("w", -20, 20); put("d.tensor", w); FullyConnectedLayer l("d", in, out, 32, 0, false, 0); l.loadKnowledge(sx_scratch()); for (int p = 0; p < passes; p++) { Cube sum = cubeOf(1, 1, in), e = pattern(1, 1, out, p + 3); for (auto &z: e[0][0]) z *= (float) (n * passes); for (int i = 0; i < n; i++) { Cube x = pattern(1, 1, in, i * 5 + p); if (p == 0 && i == n - 1) nth(x, other) = symi("x", -20, 20); sx_check(sameCube(l.forward({tens(x)}, true), Cube{mul(x[0], w[0])}), "forward: input times weights"); sum = zip(sum, x, [](float a, float b) { return a + b; }); } auto b = l.backward(tens(e)); sx_check(sameCube(b[0], Cube{mul(e[0], turn(w[0]))}), "passes back error times weights turned"); for (auto &z: e[0][0]) z /= (float) (n * passes); g = zip(g, Cube{mul(turn(sum[0]), e[0])}, [](float a, float b) { return a + b; }); } l.apply(plain(1, 7)); l.saveKnowledge(sub("")); sx_check(sameCube(std::make_shared<FullTensor>(sub("d.tensor")), zip(w, g, [](float a, float b) { return a - b; })), "weights move against the average gradient"); }
    if (kind == 1) { // convolution
        int size = pick("size", 0, 2), ch = size == 0 ? 5 : 1 + size, fl = size == 0 ? 2 : size == 1 ? 4 : 3, k = size == 0 ? 2 : 3 + (size == 2), rows = size == 0 ? 3 : 5 + size, cols = size == 0 ? 7 : 6, orow = rows - k + 1, oc = cols - k + 1; std::vector<Cube> w; for (int f = 0; f < fl; f++) w.push_back(pattern(ch, k, k, f * 3 + 1)); nth(w[other % fl], where) = symi("w", -20, 20); for (int f = 0; f < fl; f++) put("c_" + std::to_string(f) + ".tensor", w[f]); Cube x = pattern(ch, rows, cols, 2), e = pattern(fl, orow, oc, 5); nth(x, other) = symi("x", -20, 20); Convolution2dValidFunction l("c", {(size_t) rows, (size_t) cols, (size_t) ch}, fl, k, 32, 0, false, 0); l.loadKnowledge(sx_scratch()); Cube y = cubeOf(fl, orow, oc), xe = cubeOf(ch, rows, cols); auto nw = w; for (int f = 0; f < fl; f++) for (int c = 0; c < ch; c++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) { float g = 0; for (int r = 0; r < orow; r++) for (int q = 0; q < oc; q++) { y[f][r][q] += x[c][r + a][q + b] * w[f][c][a][b]; xe[c][r + a][q + b] += e[f][r][q] * w[f][c][a][b]; g += x[c][r + a][q + b] * e[f][r][q]; } nw[f][c][a][b] -= g; }
        sx_check(sameCube(l.forward({tens(x)}, true), y), "forward: correlation summed over channels, one channel for each filter"); auto r = l.backward(tens(e)); sx_check(sameCube(r[0], xe), "passes back each input's share of the error"); l.apply(plain(1, 7)); l.saveKnowledge(sub("")); for (int f = 0; f < fl; f++) sx_check(sameCube(std::make_shared<FullTensor>(sub("c_" + std::to_string(f) + ".tensor")), nw[f]), "kernels move against input times error"); }
    if (kind == 2) { Cube x = large(where), e = large(where, 4), b = large(where, 9); nth(x, other) = symi("x", -99, 99); nth(e, other) = symi("e", -99, 99); std::vector<size_t> sh = {x[0].size(), x[0][0].size(), x.size()}; BiasLayer l("b", sh, sh, 32, 0); put("b.tensor", b); l.loadKnowledge(sx_scratch()); auto add = [](float p, float q) { return p + q; }; sx_check(sameCube(l.forward({tens(x)}, true), zip(b, x, add)), "adds"); sx_check(sameCube(l.backward(tens(e))[0], e), "passes the error on"); l.apply(plain(5, 2)); sx_check(sameCube(l.forward({tens(x)}, false), zip(zip(b, x, add), e, [](float p, float q) { return p - 2 * q; })), "one step at the bias rate"); }
    if (kind == 3) { Cube x = large(where), e = large(where, 4); nth(x, other) = symi("x", -99, 99); nth(e, other) = symi("e", -99, 99); ActivationLayer l(std::make_shared<ReLUActivationFunction>()); int n = 1 << pick("records", 0, 3); Cube d = each(x, [](float) { return 0.f; }); for (int i = 0; i < n; i++) { Cube v = i == n / 2 ? x : large(where, i + 2); sx_check(sameCube(l.forward({tens(v)}, true), each(v, [](float z) { return sx_itef(z > 0, z, 0.f); })), "activates"); d = zip(d, v, [](float a, float z) { return a + sx_itef(z > 0, 1.f, 0.f); }); } sx_check(sameCube(l.backward(tens(e))[0], zip(d, e, [n](float a, float b) { return a / (float) n * b; })), "passes back the error times the average slope"); FlattenLayer f; Cube row = cubeOf(1, 1, 0); for (auto &p: x) for (auto &q: p) for (float z: q) row[0][0].push_back(z); sx_check(sameCube(f.forward({tens(x)}, true), row), "one row of all values"); sx_check(sameCube(f.backward(tens(row))[0], x), "each error returns to its value"); }
    if (kind == 4) { int n = 4 + where; std::vector<std::vector<size_t>> sh; std::vector<Cube> v; std::vector<T> t; Cube all = cubeOf(3, 2, 0); for (int i = 0; i < n; i++) { int k = (i * 5 + other) % 7 + 1; sh.push_back({2, (size_t) k, 3}); v.push_back(pattern(3, 2, k, i)); nth(v[i], other) = floatOf(sx_bits32(N("x", i).c_str())); t.push_back(tens(v[i])); for (int a = 0; a < 3; a++) for (int b = 0; b < 2; b++) for (int d = 0; d < k; d++) all[a][b].push_back(v[i][a][b][d]); } ConcatenateWideLayer l("x", sh); sx_check(sameCube(l.forward(t, true), all), "side by side"); auto b = l.backward(tens(all)); sx_check(b.size() == (size_t) n, "one error for each input"); for (int i = 0; i < n; i++) sx_check(sameCube(b[i], v[i]), "each input gets its own columns back"); }
    if (kind == 5) { Cube x = large(where), e = large(where, 4); nth(x, other) = (float) pick("x", -2, 2) * 20; double m = 0, s = 0, n = 0; for (auto &p: x) for (auto &q: p) for (float z: q) m += z, n++; m /= n; for (auto &p: x) for (auto &q: p) for (float z: q) s += (z - m) * (z - m) / n; s = std::sqrt(s); NormalizationLayer l; sx_check(close(l.forward({tens(x)}, true), each(x, [m, s](float z) { return (float) ((z - m) / s); }), 1e-3f, 1e-3f), "standardizes"); double dm = 0, dx = 0; zip(x, e, [&](float z, float d) { dm += d / n; dx += d * (z - m) / s / n; return 0.f; }); sx_check(close(l.backward(tens(e))[0], zip(x, e, [&](float z, float d) { return (float) ((d - dm - (z - m) / s * dx) / s); }), 1e-2f, 1e-2f), "passes back the gradient"); } } // opts: time=200
