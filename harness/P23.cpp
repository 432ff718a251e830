// P23: a saved model comes back as the model it was
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
static std::string N(const char *s, int i) { return s + std::to_string(i); }
typedef std::shared_ptr<NeuralNetworkForTraining> Net;
typedef std::shared_ptr<HappymlDSL::NNVertex> V;
static const OptimizerType optimizers[] = {OptimizerType::sgd, OptimizerType::sgdm, OptimizerType::adam, OptimizerType::sgdm_with_decaying_momentum, OptimizerType::adam_with_decaying_momentum};
static const LossType losses[] = {LossType::mse, LossType::mae, LossType::smae, LossType::categoricalCrossEntropy, LossType::binaryCrossEntropy};
static const ActivationType activations[] = {ActivationType::linear, ActivationType::relu, ActivationType::leaky, ActivationType::sigmoid, ActivationType::sigmoidApprox, ActivationType::tanhDefault, ActivationType::tanhApprox, ActivationType::softmax};
struct Model { Net net; std::vector<std::vector<size_t>> in, out; bool random = false; int plain = 0; /* inputs that may be symbolic */ };
static std::shared_ptr<HappymlDSL> builder(int optimizer, int loss, float rate = 0.25f, float biasRate = 0.5f) { auto d = neuralNetworkBuilder(optimizers[optimizer], "net", sx_scratch()); d->setLossFunction(losses[loss]); d->setLearningRate(rate); d->setBiasLearningRate(biasRate); return d; }
static const int TOPOLOGIES = 12;
static Model topology(int k, std::shared_ptr<HappymlDSL> d, ActivationType a) { Model m; m.in = {{1, 2, 1}}; m.out = {{1, 1, 1}}; V l; switch (k) {
    case 0: l = d->addInputLayer(2, 3, LayerType::full, a); l->addOutput(1, ActivationType::linear); break;
    case 1: m.out = {{1, 2, 1}}; l = d->addInputOutputLayer({1, 2, 1}, {1, 2, 1}, LayerType::full, a); break;
    case 2: m.in = {{2, 1, 2}}; l = d->addInputLayer({2, 1, 2}, {1, 2, 1}, LayerType::full, a); l->addDropoutLayer(0.25f)->addOutput(1, ActivationType::sigmoid); m.random = true; break;
    case 3: l = d->addInputLayer(2, 2, LayerType::full, a); l->addNormalizationLayer()->addLayer(2, LayerType::full, ActivationType::relu)->addOutput(1, ActivationType::linear); break;
    case 4: m.in = {{1, 2, 1}, {2, 1, 1}}; l = d->add_concatenated_input_layer(m.in)->addLayer(2, LayerType::full, a); l->addOutput(1, ActivationType::linear); break;
    case 5: { auto f = d->addInputLayer(2, 2, LayerType::full, a); l = f->addLayer(3, LayerType::full, ActivationType::linear); d->add_concatenated_layer({f, l})->addLayer(1, LayerType::full, ActivationType::linear)->addOutput(1, ActivationType::linear); break; } // a branch that skips a layer
    case 6: m.in = {{3, 3, 1}}; l = d->addInputLayer({3, 3, 1}, 2, 2, LayerType::convolution2dValid, a); l->addLayer(2, LayerType::full, ActivationType::relu)->addOutput(1, ActivationType::linear); break;
    case 7: m.in = {{3, 3, 1}}; m.out = {{1, 1, 1}}; l = d->addInputLayer({3, 3, 1}, 2, 2, LayerType::convolution2dValid, a); l->addOutput({1, 1, 1}, 2, LayerType::convolution2dValid, ActivationType::linear); break;
    case 8: m.in = {{2, 2, 1}}; m.out = {{1, 1, 2}}; l = d->addInputOutputLayer({2, 2, 1}, 2, 2, LayerType::convolution2dValid, a); break;
    case 9: m.out = {{1, 1, 1}, {1, 2, 1}}; l = d->addInputLayer(2, 2, LayerType::full, a); l->addOutput(1, ActivationType::linear); l->addLayer(2, LayerType::full, ActivationType::relu)->addOutput(2, ActivationType::softmax); break; // two outputs
    case 10: { m.in = {{1, 2, 1}, {1, 1, 1}}; auto f = d->addInputLayer(2, 2, LayerType::full, a); auto g = d->addInputLayer(1, 3, LayerType::full, ActivationType::linear); l = f; auto h = f->addLayer(1, LayerType::full, ActivationType::relu); d->add_concatenated_layer({g, h, f})->addOutput(1, ActivationType::linear); break; } // joined in another order
    case 11: { m.in = {{1, 2, 1}}; auto f = d->addInputLayer({1, 2, 1}, {1, 2, 1}, LayerType::flatten, ActivationType::linear); l = f->addLayer(2, LayerType::full, a); auto g = f->addLayer(1, LayerType::full, ActivationType::tanhDefault); d->add_concatenated_layer({l, g})->addLayer(2, LayerType::full, ActivationType::relu)->addOutput(1, ActivationType::sigmoid); break; } }
    if (pick("bias", 0, 1)) l->setUseBias(true); int more = pick("options", 0, 6); m.plain = more != 1 && (k <= 2 || k == 8) ? 2 : 0; if (more == 1) l->setUseNormalization(true); if (more == 2) l->setBits(16); if (more == 3) l->setBits(8); if (more == 4) { l->setUseL2Regularization(true); l->setRegularizationStrength(0.125f); } if (more == 5) l->setNormClippingThreshold(0.0625f); if (more == 6) { l->setMaterialized(k % 2); l->setUseL2Regularization(false); } m.net = l->build(); m.net->setSilentMode(true); return m; }
// whole-number knowledge, saved with the model
static void whole(const Net &net) { net->saveWithOverwrite(); int k = 0; for (auto &e: std::filesystem::directory_iterator(sub("net/default"))) { std::string f = sub("net/default/") + e.path().filename().string(); Cube c = read(std::make_shared<FullTensor>(f)); for (auto &x: c) for (auto &y: x) for (float &z: y) z = (float) (k++ * 5 % 7) - 3; FullTensor t(c); t.save(f); } net->loadKnowledge("default"); }
static std::vector<T> inputs(const Model &m, const std::string &n, int symbolic) { std::vector<T> t; int k = 0; for (auto &s: m.in) { Cube c = cubeOf(s[2], s[0], s[1]); int j = k++; for (auto &x: c) for (auto &y: x) for (float &z: y) { z = j < symbolic ? symi(n + std::to_string(j), -9, 9) : (float) (j * 3 % 5) - 1.5f; j++; } t.push_back(tens(c)); } return t; }
static int same(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= sameCube(a[i], read(b[i])); return ok; }
// the files below a folder and what is in them
static void walk(const std::string &folder, const std::string &name, std::map<std::string, std::string> &m) { for (auto &e: std::filesystem::directory_iterator(folder)) { std::string n = e.path().filename().string(); if (std::filesystem::is_directory(folder + "/" + n)) walk(folder + "/" + n, name + "/" + n, m); else m[name + "/" + n] = slurp(folder + "/" + n); } }
static std::map<std::string, std::string> files(const std::string &folder) { std::map<std::string, std::string> m; walk(folder, "", m); return m; }
struct Data : TrainingDataSet { std::vector<T> given, expected; int at = 0; std::vector<std::vector<size_t>> in, out; size_t recordCount() override { return 2; } void restart() override { at = 0; } std::shared_ptr<TrainingPair> nextRecord() override { return at++ < 2 ? std::make_shared<TrainingPair>(given, expected) : nullptr; } std::vector<std::vector<size_t>> getGivenShapes() override { return in; } std::vector<std::vector<size_t>> getExpectedShapes() override { return out; } };
static void train(const Model &m, const Net &net) { net->setSilentMode(true); auto d = std::make_shared<Data>(); d->in = m.in; d->out = m.out; d->given = inputs(m, "", 0); for (auto &s: m.out) d->expected.push_back(tens(cubeOf(s[2], s[0], s[1], 0.5f))); net->setExitStrategy(std::make_shared<DefaultExitStrategy>(9, 1000000, 1, -1.f, 0.f, 1, 9.f)); net->train(d, 2, TrainingRetentionPolicy::last); }
SX_HARNESS(reloaded) { // any of the layer graphs and options, any inputs
    int k = pick("topology", 0, TOPOLOGIES - 1); Model m = topology(k, builder(k % 5, 0), activations[k % 8]); whole(m.net); auto l = loadNeuralNetworkForTraining("net", sx_scratch()); l->setSilentMode(true); auto x = inputs(m, "x", m.plain); sx_check(same(m.net->predict(x), l->predict(x)), "the same predictions"); sx_check(m.net->get_total_parameters() == l->get_total_parameters() && m.net->get_total_trainable_layers() == l->get_total_trainable_layers(), "the same layers"); auto before = files(sub("net")); l->saveAs(sub("copy"), false); sx_check(before.size() > 1 && (k == 10 || before == files(sub("copy"))), "saving it again gives the same files"); } // opts: time=300
SX_HARNESS(learns_alike) { // what is learned after reloading is what would have been learned without
    int k = pick("topology", 0, TOPOLOGIES - 1); Model m = topology(k, builder(k % 2, k % 3), activations[k % 8]); whole(m.net); auto l = loadNeuralNetworkForTraining("net", sx_scratch()); if (m.random) return; train(m, m.net); train(m, l); auto x = inputs(m, "x", 0); sx_check(same(m.net->predict(x), l->predict(x)), "the same predictions"); m.net->saveAs(sub("a"), true); l->saveAs(sub("b"), true); sx_check(files(sub("a/default")) == files(sub("b/default")), "the same knowledge"); } // opts: time=300
SX_HARNESS(settings) { // optimizer, loss and rates
    int o = pick("optimizer", 0, 4), loss = pick("loss", 0, 4), a = pick("activation", 0, 7); static const float rates[] = {0.25f, 0.1f, 1e-9f, 12345.678f, 3e-20f}; float rate = rates[pick("rate", 0, 4)], other = rates[(o + loss) % 4]; auto d = builder(o, loss, rate, other); Model m; m.in = {{1, 2, 1}}; m.out = {{1, 2, 1}}; auto l = d->addInputLayer(2, 2, LayerType::full, activations[a]); l->setUseBias(true)->setRegularizationStrength(rates[(a + o) % 5])->setUseL2Regularization(true); l->addOutput(2, ActivationType::sigmoid); m.net = l->build(); m.net->setSilentMode(true); m.net->saveWithOverwrite(); auto n = loadNeuralNetworkForTraining("net", sx_scratch()); sx_check(n->getOptimizer()->getLearningRate() == rate && n->getOptimizer()->getBiasLearningRate() == other, "rates"); n->saveAs(sub("copy"), false); sx_check(slurp(sub("net/model.config")) == slurp(sub("copy/model.config")), "the same description"); if (rate > 1 || other > 1) return; train(m, m.net); train(m, n); auto x = inputs(m, "", 0); sx_check(same(m.net->predict(x), n->predict(x)), "learns alike"); } // opts: time=300
SX_HARNESS(labels) { // knowledge is kept under labels
    Model m; auto d = builder(0, 0); m.in = {{1, 2, 1}}; m.out = {{1, 1, 1}}; auto l = d->addInputLayer(2, 2, LayerType::full, ActivationType::relu); l->setUseBias(true); l->addOutput(1, ActivationType::linear); m.net = l->build(); auto x = inputs(m, "x", 2); std::map<std::string, std::vector<T>> known; static const char *L[] = {"default", "one", "two"}; m.net->saveWithOverwrite(); known["default"] = m.net->predict(x); std::string now = "default"; int dirty = 0; for (int s = 0; s < 3; s++) { int what = pick(N("step", s), 0, 3), which = pick(N("label", s), 0, 2); std::string name = L[which]; if (what == 0) { train(m, m.net); dirty++; } else if (what == 1) { m.net->saveKnowledgeWithOverwrite(name); known[name] = m.net->predict(x); } else if (what == 2) { if (known.count(name)) { m.net->loadKnowledge(name); sx_check(same(m.net->predict(x), known[name]), "the knowledge saved under the label"); } else sx_check(throws([&] { m.net->loadKnowledge(name); }), "unknown label is refused"); } else { m.net->removeKnowledge(name); known.erase(name); sx_check(!std::filesystem::exists(sub("net/" + name)) && std::filesystem::exists(sub("net/model.config")), "removed, and nothing else"); } } for (auto &k: known) { m.net->loadKnowledge(k.first); sx_check(same(m.net->predict(x), k.second), "every label keeps its own"); } } // opts: time=300
SX_HARNESS(elsewhere) { // saving over and beside an existing model
    auto d = builder(0, 0); auto l = d->addInputLayer(2, 2, LayerType::full, ActivationType::relu); l->addOutput(1, ActivationType::linear); Model m; m.net = l->build(); m.in = {{1, 2, 1}}; m.out = {{1, 1, 1}}; std::string name = pick("own place", 0, 1) ? "net" : "other/place"; auto save = [&](bool over) { if (name == "net") { if (over) m.net->saveWithOverwrite(); else m.net->saveWithoutOverwrite(); } else m.net->saveAs(sub(name), over); }; save(pick("at first", 0, 1)); auto first = files(sub(name)); sx_check(first.count("/model.config") == 1 && first.size() == 3, "description and knowledge of both layers"); train(m, m.net); if (pick("stale", 0, 1)) { std::filesystem::create_directories(sub(name + "/old")); spew(sub(name + "/old/file"), "x"); first["/old/file"] = "x"; } bool over = pick("overwrite", 0, 1); sx_cap_begin(std::cerr); save(over); sx_cap_end(std::cerr); size_t around = 0; std::string beside; std::string parent = name == "net" ? sx_scratch() : sub("other"); for (auto &e: std::filesystem::directory_iterator(parent)) { around++; if (e.path().string() != sub(name)) beside = e.path().string(); } m.net->saveAs(sub("copy"), true); auto fresh = files(sub("copy")); if (over) sx_check(around == 1 && files(sub(name)) == fresh && fresh != first, "replaced"); else sx_check(around == 2 && files(sub(name)) == first && files(beside) == fresh, "kept, and saved beside"); }
SX_HARNESS(broken) { // descriptions that make no sense are refused
    auto d = builder(0, 0); d->addInputLayer(2, 2, LayerType::full, ActivationType::relu)->addOutput(1, ActivationType::linear); d->build()->saveWithOverwrite(); std::string c = slurp(sub("net/model.config")), want; int what = pick("problem", 0, 7); auto replace = [&](const std::string &a, const std::string &b) { size_t at = c.find(a); if (at != std::string::npos) c = c.substr(0, at) + b + c.substr(at + a.size()); }; if (what == 0) replace("optimizer", "optimiser"); if (what == 1) replace("SGD", "SGDX"); if (what == 2) replace("mse", "msx"); if (what == 3) replace("full", "fool"); if (what == 4) replace("relu", "rely"); if (what == 5) replace("\"edge\":1:2", "\"edge\":1:9"); if (what == 6) std::filesystem::remove(sub("net/model.config")); if (what == 7) std::filesystem::remove_all(sub("net/default")); if (what < 6) spew(sub("net/model.config"), c); sx_check(throws([&] { loadNeuralNetworkForTraining("net", sx_scratch()); }), "refused"); sx_check(throws([&] { loadNeuralNetworkForTraining("nothing", sx_scratch()); }), "no such model"); }
SX_HARNESS(names) { static const char *OK[] = {"a", "A_9", ""}, *BAD[] = {"a/b", "..", "a b", "a.b", "a\\b"}; int k = pick("name", 0, 7); bool ok = k < 3; std::string n = ok ? OK[k] : BAD[k - 3]; sx_check(throws([&] { neuralNetworkBuilder(OptimizerType::sgd, n, sx_scratch()); }) == !ok && throws([&] { neuralNetworkBuilder(OptimizerType::sgd, "x", sx_scratch())->setModelName(n); }) == !ok, "only letters, digits and underscores"); std::string name = "first", at = "here"; auto d = neuralNetworkBuilder(OptimizerType::sgd, "first", sub("here")); if (pick("renamed", 0, 1)) d->setModelName(name = "second"); if (pick("moved", 0, 1)) d->setModelRepo(sub(at = "there")); d->addInputLayer(1, 2, LayerType::full, ActivationType::linear)->addOutput(1, ActivationType::linear); auto m = d->build(); m->setSilentMode(true); m->saveWithOverwrite(); sx_check(m->get_name() == name && m->get_repoRootPath() == sub(at) && std::filesystem::exists(sub(at + "/" + name + "/model.config")), "saved under its name, in its repository"); auto l = loadNeuralNetworkForTraining(name, sub(at)); sx_check(l->get_name() == name && l->get_repoRootPath() == sub(at), "and loaded from there"); }
SX_HARNESS(values) { // any knowledge: every bit of it is loaded, and saved again
    Model m; auto d = builder(0, 0); V l; if (pick("kind", 0, 1)) { m.in = {{2, 2, 1}}; l = d->addInputLayer({2, 2, 1}, 2, 2, LayerType::convolution2dValid, ActivationType::relu); } else { m.in = {{1, 2, 1}}; l = d->addInputLayer(2, 2, LayerType::full, ActivationType::relu); } l->setUseBias(true); l->addOutput(1, ActivationType::linear); m.net = l->build(); m.net->saveWithOverwrite(); int k = 0; std::map<std::string, Cube> want; for (auto &f: files(sub("net/default"))) { Cube c = read(std::make_shared<FullTensor>(sub("net/default") + f.first)); for (auto &x: c) for (auto &y: x) for (float &z: y) z = floatOf(sx_bits32(N("w", k++).c_str())); want[f.first] = c; FullTensor t(c); t.save(sub("net/default") + f.first); }
    auto n = loadNeuralNetworkForTraining("net", sx_scratch()); n->saveAs(sub("copy"), true); int ok = 1, count = 0; for (auto &f: files(sub("copy/default"))) { auto t = FullTensor(sub("copy/default") + f.first); auto w = want.find(f.first); sx_check(w != want.end(), "the same parts"); Cube c; for (size_t ch = 0; ch < t.channelCount(); ch++) { c.emplace_back(); for (size_t r = 0; r < t.rowCount(); r++) { c[ch].emplace_back(); for (size_t q = 0; q < t.columnCount(); q++) c[ch][r].push_back(t.getValue(r, q, ch)); } } sx_check(c.size() == w->second.size() && c[0].size() == w->second[0].size() && c[0][0].size() == w->second[0][0].size(), "the same shape"); for (size_t ch = 0; ch < c.size(); ch++) for (size_t r = 0; r < c[ch].size(); r++) for (size_t q = 0; q < c[ch][r].size(); q++) ok &= bitsOf(c[ch][r][q]) == bitsOf(w->second[ch][r][q]); count++; } sx_check(count == (int) want.size(), "all parts"); sx_check(ok, "the same bits"); }
SX_HARNESS(cut_short) { // knowledge that is cut short is refused
    Model m; auto d = builder(0, 0); auto l = d->addInputLayer(2, 2, LayerType::full, ActivationType::relu); l->setUseBias(true); l->addOutput(1, ActivationType::linear); m.net = l->build(); m.net->saveWithOverwrite(); auto f = files(sub("net/default")); auto which = f.begin(); std::advance(which, pick("part", 0, (int) f.size() - 1)); size_t keep = pick("bytes kept", 0, (int) which->second.size() - 1); spew(sub("net/default") + which->first, which->second.substr(0, keep)); sx_cap_begin(std::cerr); bool refused = throws([&] { m.net->loadKnowledge("default"); }); bool refusedAgain = throws([&] { loadNeuralNetworkForTraining("net", sx_scratch()); }); sx_cap_end(std::cerr); sx_check(refused && refusedAgain, "refused"); spew(sub("net/default") + which->first, which->second); m.net->loadKnowledge("default"); m.net->saveAs(sub("copy"), true); sx_check(files(sub("copy/default")) == f, "and still usable when the knowledge is back"); }
