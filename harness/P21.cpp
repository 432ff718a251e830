// P21: a network is the composition of its layers, forwards and backwards
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
typedef std::shared_ptr<NeuralNetworkNode> Node;
static std::string N(const char *s, int i) { return s + std::to_string(i); }
static T one(float v) { return tens({{{v}}}); }
// a layer that does what it is told and remembers what it was asked
struct Probe : BaseLayer { int a; size_t inputs = 0, forwards = 0, trained = 0, backwards = 0, applies = 0, parameters = 0; bool fails = false; std::vector<float> errors; explicit Probe(int a) : a(a) {}
    std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool training) override { if (fails) throw std::runtime_error("told to fail"); forwards++; trained += training; inputs = in.size(); float s = 0; for (size_t i = 0; i < in.size(); i++) s += in[i]->getValue(0, 0, 0) * (float) (i + 1); return one(s * (float) a); }
    std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &e) override { backwards++; float v = e->getValue(0, 0, 0); errors.push_back(v); std::vector<std::shared_ptr<BaseTensor>> r; for (size_t i = 0; i < inputs; i++) r.push_back(one(v * (float) (a * (int) (i + 1)))); return r; }
    void apply(const std::shared_ptr<BaseOptimizer> &) override { applies++; }
    bool is_trainable() override { return parameters > 0; } size_t get_parameter_count() override { return parameters; } };
static const int factors[] = {2, 3, 5, 7, 11};
// every acyclic graph: bit k of shape says whether the k-th pair of places is connected
struct Graph { int n; std::vector<std::shared_ptr<Probe>> probes; std::vector<Node> nodes; std::vector<std::vector<int>> in, out; std::vector<int> heads, outputs; std::shared_ptr<NeuralNetworkForTraining> net;
    Graph(int n, int shape, bool backwardsAdded, bool materialized) : n(n), in(n), out(n) { int k = 0; std::vector<std::pair<int, int>> edges; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) if (shape >> k++ & 1) edges.push_back({i, j}); if (backwardsAdded) std::reverse(edges.begin(), edges.end()); for (auto &e: edges) { out[e.first].push_back(e.second); in[e.second].push_back(e.first); }
        net = std::make_shared<NeuralNetworkForTraining>("net", sx_scratch(), OptimizerType::sgd, 0.5f, 0.5f, LossType::mse); net->setSilentMode(true);
        for (int i = 0; i < n; i++) { probes.push_back(std::make_shared<Probe>(factors[i])); if (out[i].empty()) { auto o = std::make_shared<NeuralNetworkOutputNode>(probes[i]); net->addOutput(o); outputs.push_back(i); nodes.push_back(o); } else nodes.push_back(std::make_shared<NeuralNetworkNode>(probes[i])); nodes[i]->setMaterialized(materialized); if (in[i].empty()) { net->addHeadNode(nodes[i]); heads.push_back(i); } }
        for (auto &e: edges) nodes[e.first]->add(nodes[e.second]); }
    std::vector<float> values(const std::vector<float> &given) { std::vector<float> v(n); size_t h = 0; for (int i = 0; i < n; i++) { float s = 0; if (in[i].empty()) s = given[h++]; for (size_t k = 0; k < in[i].size(); k++) s += v[in[i][k]] * (float) (k + 1); v[i] = s * (float) factors[i]; } return v; }
    std::vector<float> inputs(const std::string &name) { std::vector<float> g; for (size_t i = 0; i < heads.size(); i++) g.push_back(symi(name + std::to_string(i), -100, 100)); return g; }
    static std::vector<T> tensors(const std::vector<float> &g) { std::vector<T> t; for (float f: g) t.push_back(one(f)); return t; }
    int right(const std::vector<T> &r, const std::vector<float> &given) { auto v = values(given); if (r.size() != outputs.size()) return 0; int ok = 1; for (size_t i = 0; i < r.size(); i++) ok &= shapeIs(r[i], 1, 1, 1) && r[i]->getValue(0, 0, 0) == v[outputs[i]]; return ok; } };
static Graph someGraph(int n) { int pairs = n * (n - 1) / 2; return Graph(n, pick("shape", 0, (1 << pairs) - 1), pick("added from the end", 0, 1), pick("materialized", 0, 1)); }
SX_HARNESS(predict) { // every acyclic graph of up to four layers, any inputs
    Graph g = someGraph(pick("layers", 1, 4)); auto x = g.inputs("x"), y = g.inputs("y"); bool training = pick("training", 0, 1); sx_check(g.right(g.net->predict(Graph::tensors(x), training), x), "composition of the layers"); for (auto &p: g.probes) sx_check(p->forwards == 1 && p->trained == training && p->backwards == 0 && p->applies == 0, "every layer ran once"); sx_check(g.right(g.net->predict(Graph::tensors(y)), y), "independent of earlier predictions"); for (auto &p: g.probes) sx_check(p->forwards == 2 && p->trained == training, "every layer ran once more"); if (g.heads.size() == 1) { sx_check(g.right(g.net->predict(one(x[0])), x), "one input"); auto v = g.values(x); sx_check(g.net->predictScalar(one(x[0])) == v[g.outputs[0]] && g.net->predictOne(one(x[0]))->getValue(0, 0, 0) == v[g.outputs[0]], "first output"); } } // opts: time=200
SX_HARNESS(failing) { // a refused or failing prediction leaves nothing behind
    int n = pick("layers", 2, 4); Graph g(n, pick("shape", 0, (1 << n * (n - 1) / 2) - 1), pick("added from the end", 0, 1), true); auto x = g.inputs("x"), y = g.inputs("y"); auto wrong = Graph::tensors(x); if (pick("too many", 0, 1)) wrong.push_back(one(1)); else wrong.pop_back(); sx_check(throws([&] { g.net->predict(wrong); }), "as many inputs as the network has"); int f = pick("failing", 0, n - 1); g.probes[f]->fails = true; sx_check(throws([&] { g.net->predict(Graph::tensors(x)); }), "failure is reported"); g.probes[f]->fails = false; for (auto &p: g.probes) p->forwards = 0; sx_check(g.right(g.net->predict(Graph::tensors(y)), y), "next prediction is right"); for (auto &p: g.probes) sx_check(p->forwards == 1, "every layer ran once"); } // opts: time=200
// the errors handed to the outputs are the expected values
struct Echo : LossFunction { std::shared_ptr<BaseTensor> compute_error(std::shared_ptr<BaseTensor> &t, std::shared_ptr<BaseTensor> &) override { return t; } float compute_loss(std::shared_ptr<BaseTensor> &) override { return 1; } std::shared_ptr<BaseTensor> compute_loss_derivative(std::shared_ptr<BaseTensor> &e, std::shared_ptr<BaseTensor> &, std::shared_ptr<BaseTensor> &) override { return e; } };
struct Fixed : TrainingDataSet { std::vector<std::shared_ptr<TrainingPair>> records; size_t at = 0, ins, outs; std::vector<size_t> in{1, 1, 1}, out{1, 1, 1}; Fixed(size_t i, size_t o) : ins(i), outs(o) {} void shapes(const std::vector<size_t> &i, const std::vector<size_t> &o) { in = i; out = o; } size_t recordCount() override { return records.size(); } void restart() override { at = 0; } std::shared_ptr<TrainingPair> nextRecord() override { return at < records.size() ? records[at++] : nullptr; } std::vector<std::vector<size_t>> getGivenShapes() override { return std::vector<std::vector<size_t>>(ins, in); } std::vector<std::vector<size_t>> getExpectedShapes() override { return std::vector<std::vector<size_t>>(outs, out); } };
SX_HARNESS(errors) { // every acyclic graph, any errors: each layer gets the mean of what its branches pass back, once per record
    Graph g = someGraph(pick("layers", 1, 4)); int n = pick("records", 1, 2); auto data = std::make_shared<Fixed>(g.heads.size(), g.outputs.size()); std::vector<std::vector<float>> e; for (int r = 0; r < n; r++) { std::vector<float> v; for (size_t o = 0; o < g.outputs.size(); o++) v.push_back(symi(N("e", r) + N(".", (int) o), -50, 50)); e.push_back(v); data->records.push_back(std::make_shared<TrainingPair>(g.tensors(std::vector<float>(g.heads.size(), 1)), g.tensors(v))); }
    g.net->setLossFunction(std::make_shared<Echo>()); g.net->setExitStrategy(std::make_shared<DefaultExitStrategy>(9, 1000000, 1, 0.f, 0.f, 1, 9.f)); g.net->train(data, 1 + pick("together", 0, n - 1), TrainingRetentionPolicy::last); bool together = false;
    for (int i = 0; i < g.n; i++) sx_check(g.probes[i]->errors.size() == (size_t) n && g.probes[i]->forwards == (size_t) n && g.probes[i]->trained == (size_t) n, "one forward and one backward pass for each record");
    for (int r = 0; r < n; r++) { std::vector<float> want(g.n); int o = (int) g.outputs.size(), ok = 1; for (int i = g.n - 1; i >= 0; i--) { if (g.out[i].empty()) want[i] = e[r][--o]; else { float s = 0; for (int t: g.out[i]) { int place = 0; while (g.in[t][place] != i) place++; s += want[t] * (float) (factors[t] * (place + 1)); } want[i] = g.out[i].size() == 1 ? s : s / (float) g.out[i].size(); } float got = g.probes[i]->errors[r]; ok &= (got == want[i]) | relWithin(got, want[i], 1e-5f, 1e-3f); } sx_check(ok, "mean of the errors of the branches"); } } // opts: time=300
SX_HARNESS(applied) { // one change per layer and batch
    int layers = pick("layers", 1, 3 + sx_tier()); Graph g(layers, pick("shape", 0, (1 << layers * (layers - 1) / 2) - 1), pick("added from the end", 0, 1), true); int n = pick("records", 1, 3), batch = pick("batch", 1, 3), epochs = pick("epochs", 1, 2); if (batch > n) return; auto data = std::make_shared<Fixed>(g.heads.size(), g.outputs.size()); for (int r = 0; r < n; r++) data->records.push_back(std::make_shared<TrainingPair>(g.tensors(std::vector<float>(g.heads.size(), 1)), g.tensors(std::vector<float>(g.outputs.size(), 1)))); g.net->setLossFunction(std::make_shared<Echo>()); g.net->setExitStrategy(std::make_shared<DefaultExitStrategy>(9, 1000000, epochs, 0.f, 0.f, epochs, 9.f)); g.net->train(data, batch, TrainingRetentionPolicy::last); for (auto &p: g.probes) sx_check(p->applies == (size_t) ((n + batch - 1) / batch * epochs) && p->backwards == (size_t) (n * epochs), "once per batch"); } // opts: time=200
SX_HARNESS(counts) { int n = pick("layers", 1, 4); Graph g(n, pick("shape", 0, (1 << n * (n - 1) / 2) - 1), false, true); size_t sum = 0, trainable = 0; for (int i = 0; i < n; i++) { bool t = pick(N("trainable", i), 0, 1); size_t p = t ? (size_t) sx_int(N("p", i).c_str(), 1, 1000000) : 0; g.probes[i]->parameters = p; sum += p; trainable += t; } sx_check(g.net->get_total_parameters() == sum && g.net->get_total_trainable_layers() == trainable, "every layer counted once"); }
SX_HARNESS(larger) { // graphs of five layers
    Graph g(5, pick("shape", 0, 1023), false, true); auto x = g.inputs("x"); sx_check(g.right(g.net->predict(Graph::tensors(x)), x), "composition of the layers"); for (auto &p: g.probes) sx_check(p->forwards == 1, "every layer ran once"); } // opts: tier=thorough
// a layer that passes back what it got
struct Pass : BaseLayer { T got; std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool) override { return in[0]; } std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &e) override { got = e; return {e}; } };
SX_HARNESS(clipped) { // an error longer than the threshold is shortened to it, in its direction
    bool on = pick("clipping", 0, 1), defaults = pick("default threshold", 0, 1), one = pick("single", 0, 1); float t = defaults ? 5 : (float) pick("threshold", 1, 3); auto a = std::make_shared<Pass>(), b = std::make_shared<Pass>(); auto first = std::make_shared<NeuralNetworkNode>(a); auto last = std::make_shared<NeuralNetworkOutputNode>(b); first->add(last); last->set_use_norm_clipping(on); if (!defaults) last->set_norm_clipping_threshold(t); last->setMaterialized(pick("materialized", 0, 1)); first->forwardFromInput(rowv({1, 1}), true); last->consumeLastOutput(); Cube e = one ? Cube{{{on ? (float) pick("e", -9, 9) : symf("e")}}} : Cube{{{(float) (3 * pick("p", -3, 3)), (float) (4 * pick("q", -3, 3))}}}; last->backward(tens(e)); sx_check(a->got && b->got && sameCube(b->got, e), "the output gets the error as it is"); if (!a->got) return;
    if (!on) { sx_check(sameCube(a->got, e), "errors pass"); return; } float n = 0; for (float f: e[0][0]) n += f * f; if (n <= t * t) sx_check(sameCube(a->got, e), "short errors pass"); else { float s = 0; int ok = shapeIs(a->got, 1, 1, e[0][0].size()); for (size_t i = 0; ok && i < e[0][0].size(); i++) { float g = a->got->getValue(0, i, 0); s += g * g; ok &= relWithin(g * sqrtf(n), e[0][0][i] * t, 1e-4f, 1e-4f); } sx_check(ok, "shortened to the threshold"); } } // opts: time=200
SX_HARNESS(clipped_apart) { // the errors for several inputs are shortened each by itself
    struct Many : BaseLayer { std::vector<Cube> errors; std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool) override { return in[0]; } std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &) override { std::vector<std::shared_ptr<BaseTensor>> r; for (auto &e: errors) r.push_back(tens(e)); return r; } };
    int n = pick("inputs", 2, 3), wide = pick("wide", 0, 1); bool on = pick("clipping", 0, 1); auto join = std::make_shared<Many>(); auto last = std::make_shared<NeuralNetworkOutputNode>(join); last->set_use_norm_clipping(on); last->setMaterialized(pick("materialized", 0, 1)); std::vector<std::shared_ptr<Pass>> from; std::vector<Node> nodes; for (int i = 0; i < n; i++) { from.push_back(std::make_shared<Pass>()); nodes.push_back(std::make_shared<NeuralNetworkNode>(from[i])); nodes[i]->add(last); float v = (float) (pick(N("e", i), n == 3 ? 0 : -2, 2) * 4); join->errors.push_back(wide ? Cube{{{v * 0.75f, v, 0}}} : Cube{{{v}}}); } last->backward(rowv({1}));
    for (int i = 0; i < n; i++) { sx_check(!!from[i]->got, "every input gets its error"); if (!from[i]->got) continue; Cube e = join->errors[i]; float s = 0; for (float f: e[0][0]) s += f * f; s = sqrtf(s); if (!on || s <= 5) sx_check(sameCube(from[i]->got, e), "short errors pass"); else { for (float &f: e[0][0]) f *= 5 / s; sx_check(nearCube(from[i]->got, e, 1e-4f), "shortened to the threshold"); } } }
static void put(const std::string &name, const Cube &w) { std::filesystem::create_directories(sub("net/default")); FullTensor t(w); t.save(sub("net/default/" + name)); }
SX_HARNESS(built) { // flattened, multiplied, biased, normalized, activated, in that order
    int r = pick("rows", 1, 2), c = pick("channels", 1, 2), act = pick("activation", 0, 2); bool bias = pick("bias", 0, 1), norm = pick("normalized", 0, 1), last = pick("last", 0, 1); size_t in = r * 2 * c; ActivationType type = act == 0 ? ActivationType::linear : act == 1 ? ActivationType::relu : ActivationType::leaky; int k = 0; Cube w = cubeOf(1, in, 2), q = {{{1, -2}}}, x = cubeOf(c, r, 2), v = {{{3}, {-2}}}; for (auto &a: w) for (auto &b: a) for (float &f: b) f = (float) (k++ * 5 % 7) - 3; if (act == 0) w = cubeInts(1, in, 2, "w", -9, 9); if (act == 0 || !norm) { q = cubeInts(1, 1, 2, "b", -9, 9); } for (auto &a: x) for (auto &b: a) for (float &f: b) f = (float) (k++ * 5 % 7) - 2; if (norm) { w = cubeOf(1, in, 2); for (auto &a: w) for (auto &b: a) for (float &f: b) f = (float) (k++ * 3 % 7) - 3; q = {{{1, -2}}}; } else x = cubeInts(c, r, 2, "x", -9, 9); put("1_full.tensor", w); put("1_bias.tensor", q); if (!last) put("2_full.tensor", Cube{{{3}, {-2}}});
    auto dsl = neuralNetworkBuilder(OptimizerType::sgd, "net", sx_scratch()); auto l = last ? dsl->addInputOutputLayer({(size_t) r, 2, (size_t) c}, {1, 2, 1}, LayerType::full, type) : dsl->addInputLayer({(size_t) r, 2, (size_t) c}, {1, 2, 1}, LayerType::full, type); l->setUseBias(bias); l->setUseNormalization(norm); l->setMaterialized(pick("materialized", 0, 1)); if (!last) l->addOutput(1, ActivationType::linear); auto net = l->build(); net->setSilentMode(true); net->loadKnowledge("default"); sx_check(net->get_total_parameters() == in * 2 + (bias ? 2 : 0) + (last ? 0 : 2) && net->get_total_trainable_layers() == (size_t) (1 + bias + !last), "parameters");
    T t = tens(x); T flat = FlattenLayer().forward({t}, false); FullyConnectedLayer f("1_full", in, 2, 32, 0, false, 0); f.loadKnowledge(sub("net/default")); T h = f.forward({flat}, false); if (bias) { BiasLayer b("1_bias", {1, 2, 1}, {1, 2, 1}, 32, 0); b.loadKnowledge(sub("net/default")); h = b.forward({h}, false); } if (norm) h = NormalizationLayer().forward({h}, false); T y = act == 0 ? h : act == 1 ? ReLUActivationFunction().activate(h) : LeakyReLUActivationFunction().activate(h); if (!last) { FullyConnectedLayer o("2_full", 2, 1, 32, 0, false, 0); o.loadKnowledge(sub("net/default")); y = o.forward({y}, false); } sx_check(nearCube(net->predictOne(t), read(y), norm ? 1e-3f : 0), "the layers asked for, in order"); }
SX_HARNESS(options) { // what is asked of a layer is what it does while learning: its kind, bits, bias, regularization, clipping, normalization and activation
    bool conv = pick("convolution", 0, 1), bias = pick("bias", 0, 1), norm = pick("normalized", 0, 1), l2 = pick("regularized", 0, 1), clip = pick("clipped", 0, 1); int act = norm || clip ? pick("activation", 0, 1 + 2 * sx_tier()) : pick("activation", 0, 7), bits = bias == l2 ? 32 : 8 << pick("bits", 0, 1); if (!sx_tier() && norm && !clip && act) return; static const ActivationType A[] = {ActivationType::linear, ActivationType::relu, ActivationType::sigmoid, ActivationType::tanhDefault, ActivationType::leaky, ActivationType::softmax, ActivationType::sigmoidApprox, ActivationType::tanhApprox}; float strength = 0.25f, threshold = 0.75f; bool before = clip && pick("after another", 0, 1); std::string id = before ? "2" : "1", next = before ? "3" : "2"; bool symbolic = act == 0 && !norm && !clip && bits == 32; auto tie = [&](const std::string &n, float v) { return symbolic ? symi(n, -4, 4) : v; };
    auto dsl = neuralNetworkBuilder(OptimizerType::sgd, "net", sx_scratch())->setLearningRate(0.5f)->setBiasLearningRate(0.25f)->setLossFunction(LossType::mse); auto l = conv ? (before ? dsl->addInputLayer({3, 4, 2}, 2, 1, LayerType::convolution2dValid, ActivationType::linear) : dsl->addInputLayer({3, 4, 2}, 2, 2, LayerType::convolution2dValid, A[act])) : before ? dsl->addInputLayer({2, 2, 1}, {1, 4, 1}, LayerType::full, ActivationType::linear) : dsl->addInputLayer({2, 2, 1}, {1, 2, 1}, LayerType::full, A[act]); if (before) { l->setUseL2Regularization(false); l = conv ? l->addLayer(2, 2, LayerType::convolution2dValid, A[act]) : l->addLayer(2, LayerType::full, A[act]); } l->setUseBias(bias)->setBits(bits)->setUseNormalization(norm)->setMaterialized(pick("materialized", 0, 1)); l->setUseL2Regularization(l2)->setRegularizationStrength(strength); if (clip) l->setUseNormClipping(true)->setNormClippingThreshold(threshold); l->addOutput(2, ActivationType::linear)->setUseL2Regularization(false); auto net = l->build(); net->setSilentMode(true);
    struct Stage { std::shared_ptr<BaseLayer> layer; bool clip; }; std::vector<Stage> chain; auto add = [&](std::shared_ptr<BaseLayer> x, bool c) { chain.push_back({x, c}); }; if (!conv) add(std::make_shared<FlattenLayer>(), false); if (before) { if (conv) add(std::make_shared<Convolution2dValidFunction>("1_c2dv", std::vector<size_t>{3, 4, 2}, 2, 1, 32, 0, false, 0.f), false); else add(std::make_shared<FullyConnectedLayer>("1_full", 4, 4, 32, 0, false, 0.f), false); add(std::make_shared<ActivationLayer>(std::make_shared<LinearActivationFunction>()), false); } if (conv) add(std::make_shared<Convolution2dValidFunction>(id + "_c2dv", std::vector<size_t>{3, 4, 2}, 2, 2, bits, 0, l2, strength), clip); else add(std::make_shared<FullyConnectedLayer>(id + "_full", 4, 2, bits, 0, l2, strength), clip); std::vector<size_t> shape = conv ? std::vector<size_t>{2, 3, 2} : std::vector<size_t>{1, 2, 1}; if (bias) add(std::make_shared<BiasLayer>(id + "_bias", shape, shape, bits, 0), clip); if (norm) add(std::make_shared<NormalizationLayer>(), clip);
    std::shared_ptr<ActivationFunction> f; switch (act) { case 0: f = std::make_shared<LinearActivationFunction>(); break; case 1: f = std::make_shared<ReLUActivationFunction>(); break; case 2: f = std::make_shared<SigmoidActivationFunction>(); break; case 3: f = std::make_shared<TanhActivationFunction>(); break; case 4: f = std::make_shared<LeakyReLUActivationFunction>(); break; case 5: f = std::make_shared<SoftmaxActivationFunction>(); break; case 6: f = std::make_shared<SigmoidApproximationActivationFunction>(); break; default: f = std::make_shared<TanhApproximationActivationFunction>(); } add(std::make_shared<ActivationLayer>(f), clip); if (conv) add(std::make_shared<FlattenLayer>(), false); add(std::make_shared<FullyConnectedLayer>(next + "_full", conv ? 12 : 2, 2, 32, 0, false, 0.f), false); add(std::make_shared<ActivationLayer>(std::make_shared<LinearActivationFunction>()), false);
    int k = 0; auto fill = [&](Cube &c) { for (auto &a: c) for (auto &b: a) for (float &v: b) v = (float) (conv ? k++ * 7 / 3 % 3 - 1 : k++ * 5 % 7 - 3) * 0.5f; }; std::filesystem::create_directories(sub("net/default")); net->saveWithOverwrite(); if (before) { if (conv) for (int i = 0; i < 2; i++) { Cube w = cubeOf(2, 1, 1); fill(w); put("1_c2dv_" + std::to_string(i) + ".tensor", w); } else { Cube w = cubeOf(1, 4, 4); fill(w); put("1_full.tensor", w); } } if (conv) { for (int i = 0; i < 2; i++) { Cube w = cubeOf(2, 2, 2); fill(w); put(id + "_c2dv_" + std::to_string(i) + ".tensor", w); } } else { Cube w = cubeOf(1, 4, 2); fill(w); put(id + "_full.tensor", w); } Cube w2 = cubeOf(1, conv ? 12 : 2, 2); fill(w2); put(next + "_full.tensor", w2); if (bias) { Cube b = cubeOf(shape[2], shape[0], shape[1]); fill(b); put(id + "_bias.tensor", b); } net->loadKnowledge("default"); for (auto &s: chain) s.layer->loadKnowledge(sub("net/default"));
    Cube x = conv ? cubeOf(2, 3, 4) : cubeOf(1, 2, 2), z = x; fill(x); k += 3; fill(z); std::vector<float> y{tie("y0", 1), tie("y1", -2)}; auto data = std::make_shared<Fixed>(1, 1); data->shapes(conv ? std::vector<size_t>{3, 4, 2} : std::vector<size_t>{2, 2, 1}, {1, 2, 1}); data->records.push_back(std::make_shared<TrainingPair>(std::vector<T>{tens(x)}, std::vector<T>{rowv(y)})); net->setExitStrategy(std::make_shared<DefaultExitStrategy>(9, 1000000, 1, -1.f, 0.f, 1, 9.f)); net->train(data, 1, TrainingRetentionPolicy::last);
    auto forward = [&](const Cube &c, bool training) { T t = tens(c); for (auto &s: chain) t = s.layer->forward({t}, training); return t; }; T p = forward(x, true); Cube e = {{{2 * (p->getValue(0, 0, 0) - y[0]), 2 * (p->getValue(0, 1, 0) - y[1])}}}; T err = tens(e); for (size_t i = chain.size(); i-- > 0;) { err = chain[i].layer->backward(err)[0]; if (chain[i].clip) { Cube c = read(err); float n = 0; for (auto &a: c) for (auto &b: a) for (float v: b) n += v * v; n = sqrtf(n); if (n > threshold) { for (auto &a: c) for (auto &b: a) for (float &v: b) v *= threshold / n; err = tens(c); } } } auto o = createOptimizer(OptimizerType::sgd, 0.5f, 0.25f); for (auto &s: chain) s.layer->apply(o); T got = net->predictOne(tens(z)), want = forward(z, false); sx_check(nearCube(got, read(want), symbolic ? 0 : 2e-4f), "learns as the layers asked for"); } // opts: time=300
