// P25: hyperband finds the configuration that does best, giving the promising ones more to train with
#include "ml/happyml_dsl.hpp"
#include "util/dataset_utils.hpp"
#include "util/encoder_decoder_builder.hpp"
#include <execution>
#include <unordered_set>
#include <mutex>
#include "ml/hyperband/hyperband.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef std::shared_ptr<BinaryColumnMetadata> Meta;
static std::string N(const char *s, int i) { return s + std::to_string(i); }
// ---- the search, with trainings that are stand-ins: what a configuration reaches is up to the harness
struct Eval { int which, time, batch, bits; size_t patience, epochs; int64_t ms; size_t records, tested; };
static std::mutex evalMutex; static std::vector<Eval> evals; static std::map<int, int> times; static std::vector<std::vector<float>> metric; static const float RATES[] = {0.5f, 0.25f, 0.125f, 0.0625f, 0.03125f}; static const float FAILS = -77;
namespace happyml_stand_in { using namespace happyml;
    struct Built { float rate = 0; int bits = 32; };
    struct NeuralNetworkForTraining { Built b; std::string name, repo; float reached = 0; int loaded = -1, loadedTime = -1; shared_ptr<ExitStrategy> exit; string get_name() { return name; } void setSilentMode(bool) {} void setExitStrategy(const shared_ptr<ExitStrategy> &e) { exit = e; }
        shared_ptr<TrainingResult> train(const shared_ptr<TrainingDataSet> &d, const shared_ptr<TrainingDataSet> &t, int batch) { Eval v{}; for (int i = 0; i < 5; i++) if (RATES[i] == b.rate) v.which = i; v.batch = batch; v.bits = b.bits; v.records = d->recordCount(); v.tested = t->recordCount(); exit->isDone(1, 0.5f, 0); size_t e = 2; for (; e < 40 && !exit->isDone(e, 0.5f, 0); e++); v.patience = e - 1; std::this_thread::sleep_for(std::chrono::milliseconds(2)); { std::lock_guard<std::mutex> g(evalMutex); v.time = times[v.which]++; evals.push_back(v); } reached = metric[v.which][v.time]; loaded = v.which; loadedTime = v.time; if (reached == FAILS) throw std::runtime_error("cannot be trained"); auto r = make_shared<TrainingResult>(); r->final_test_loss = reached; return r; }
        void saveWithOverwrite() { std::filesystem::create_directories(repo + "/" + name); spew(repo + "/" + name + "/model", std::to_string(loaded) + std::to_string(loadedTime)); } float compute_categorical_accuracy(const shared_ptr<TrainingDataSet> &, const vector<shared_ptr<RawDecoder>> &) { return reached; } float compute_binary_accuracy(const shared_ptr<TrainingDataSet> &) { return reached; } };
    struct Vertex : std::enable_shared_from_this<Vertex> { shared_ptr<Built> a; explicit Vertex(shared_ptr<Built> x) : a(std::move(x)) {} typedef shared_ptr<Vertex> P; P me() { return shared_from_this(); } template<class S, class... R> P addLayer(const S &, R...) { return me(); } template<class S, class... R> P addOutputLayer(const S &, R...) { return me(); } P addDropoutLayer(float = 0) { return me(); } P setUseBias(bool) { return me(); } P setUseL2Regularization(bool) { return me(); } P setUseNormClipping(bool) { return me(); } P setUseNormalization(bool) { return me(); } P setBits(int x) { a->bits = x; return me(); } P setMaterialized(bool) { return me(); } P setRegularizationStrength(float) { return me(); } };
    struct HappymlDSL { using NNVertex = Vertex; };
    struct Builder : std::enable_shared_from_this<Builder> { shared_ptr<Built> a = make_shared<Built>(); string name, repo; typedef shared_ptr<Builder> P; P setModelName(const string &n) { name = n; return shared_from_this(); } P setModelRepo(const string &n) { repo = n; return shared_from_this(); } P setLearningRate(float r) { a->rate = r; return shared_from_this(); } P setBiasLearningRate(float) { return shared_from_this(); } P setLossFunction(LossType) { return shared_from_this(); } shared_ptr<Vertex> add_concatenated_input_layer(const vector<vector<size_t>> &) { return make_shared<Vertex>(a); } template<class S, class Q, class... R> shared_ptr<Vertex> addInputLayer(const S &, const Q &, R...) { return make_shared<Vertex>(a); } shared_ptr<NeuralNetworkForTraining> build() { auto n = make_shared<NeuralNetworkForTraining>(); n->b = *a; n->name = name; n->repo = repo; return n; } };
    inline shared_ptr<Builder> standInBuilder(OptimizerType) { return make_shared<Builder>(); }
    inline shared_ptr<NeuralNetworkForTraining> standInLoad(const string &name, const string &repo) { std::string s = slurp(repo + "/" + name + "/model"); if (s.size() != 2) throw std::runtime_error("no such model"); auto n = make_shared<NeuralNetworkForTraining>(); n->loaded = s[0] - '0'; n->loadedTime = s[1] - '0'; return n; } }
#undef HAPPYML_HYPERBAND_HPP
#undef HAPPYML_HYPERBAND_SPACE_HPP
#undef HAPPYML_CONFIGURATION_EVALUATOR_HPP
#undef HAPPYML_RESOURCE_ALLOCATOR_HPP
#undef HAPPYML_HYPERBAND_RANDOM_SEARCH_HPP
#define happyml happyml_stand_in
#define neuralNetworkBuilder standInBuilder
#define loadNeuralNetworkForTraining standInLoad
#include "ml/hyperband/hyperband.hpp"
#undef happyml
#undef neuralNetworkBuilder
#undef loadNeuralNetworkForTraining
static Meta meta(char purpose, const std::string &name, size_t k, size_t r = 1, size_t c = 1) { auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = purpose; m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->source_column_count = k; m->channels = c; m->rows = r; m->columns = k; m->name = name; if (purpose == 'L') for (size_t i = 0; i < k; i++) m->ordered_labels.push_back(N("l", (int) i)); return m; }
static void dataset(const std::string &p, const std::vector<Meta> &g, const std::vector<Meta> &e, size_t rows) { BinaryDatasetWriter w(p, g, e, 0); auto row = [&](const std::vector<Meta> &v, size_t n) { std::vector<T> t; for (auto &m: v) { Cube c = cubeOf(m->channels, m->rows, m->columns); c[0][0][n % m->columns] = 1; t.push_back(tens(c)); } return t; }; for (size_t i = 0; i < rows; i++) w.writeRow(row(g, i), row(e, i)); w.close(); }
template<class Space> static void narrow(Space &s, int n) { s.learning_rate_space.assign(RATES, RATES + n); s.bias_learning_rate_space = {0.5f}; s.complexity_depth_space = {1}; s.complexity_width_space = {1}; s.dropout_rate_space = {0}; s.l2_regularization_strength_space = {0}; s.batch_size_space = {2}; s.use_normalization_layers_space = s.use_hidden_bias_space = s.use_bias_space = s.use_normal_clipping_space = {true}; }
static size_t inFolder(const std::string &p) { size_t n = 0; if (std::filesystem::exists(p)) for (auto &e: std::filesystem::directory_iterator(p)) n++; return n; }
struct Found { std::shared_ptr<happyml_stand_in::NeuralNetworkForTraining> model; float best; };
static Found search(int n, long asked, int rf, int most, LossType loss, float target, int bits) { evals.clear(); times.clear(); dataset(sub("data.bin"), {meta('N', "a", 2)}, {meta('L', "b", 2)}, 10); std::filesystem::create_directories(sub("cache/other")); spew(sub("cache/other/file"), "x"); auto s = std::make_shared<happyml_stand_in::HyperparameterSpace>(2); narrow(*s, n); auto e = std::make_shared<happyml_stand_in::ConfigurationEvaluator>(loss, OptimizerType::sgd, sub("data.bin"), 0.8f, sub("data.bin"), -0.2f, sub(""), 33, (int64_t) 1000); happyml_stand_in::Hyperband h(s, e, most, rf); std::cout.setstate(std::ios::failbit); Found f; f.model = h.run((size_t) asked, target, bits); std::cout.clear(); f.best = e->getBestEvaluationMetric(); sx_check(inFolder(sub("cache")) == 1 && slurp(sub("cache/other/file")) == "x" && inFolder(sx_scratch()) == 2, "nothing is left behind, and nothing else removed"); return f; }
// what happened is a search as it should be
static void proper(const Found &f, int n, int rf, int most, bool least, float target) { auto better = [&](float a, float b) { return least ? a < b : a > b; }; auto value = [&](int w, int t) { return metric[w][t]; };
    size_t at = 0, count = n; std::vector<int> alive; for (int i = 0; i < n; i++) alive.push_back(i); bool any = false; float best = 0; for (int round = 0; count > 1 || round == 0; round++) { if (evals.size() < at + count) { sx_check(false, "every remaining configuration is tried"); return; } int p = most; for (int i = 0; i < round; i++) p /= rf; p = std::max(2, p); std::vector<int> seen; for (size_t i = at; i < at + count; i++) { auto &e = evals[i]; sx_check(e.time == round, "once a round"); sx_check(e.patience == (size_t) std::min(p, 32), "with the patience of the round"); sx_check(e.batch == 2 && e.records == 8 && e.tested == 2, "with its part of the data"); seen.push_back(e.which); float v = value(e.which, round); if (v != FAILS && (!any || better(v, best))) { any = true; best = v; } } at += count; std::sort(seen.begin(), seen.end()); sx_check(seen == alive, "those that are left"); if (any && better(best, target)) break; if (!any && least) break; size_t keep = count / rf; if (keep <= 1) break; std::vector<int> next; for (size_t i = at; i < evals.size() && i < at + keep; i++) next.push_back(evals[i].which); if (next.size() < keep) { sx_check(false, "the search goes on"); return; } std::sort(next.begin(), next.end()); for (int k: next) for (int d: alive) if (std::find(next.begin(), next.end(), d) == next.end()) { float a = value(k, round), b = value(d, round); sx_check(b == FAILS || (a != FAILS && !better(b, a)), "the best go on"); } alive = next; count = keep; }
    sx_check(evals.size() == at, "and no others"); if (!any) { sx_check(!f.model, "no model when none can be trained"); return; } sx_check(f.model != nullptr, "a model is found"); if (!f.model) return; sx_check(f.best == best && value(f.model->loaded, f.model->loadedTime) == best, "the model that did best, as it was then"); }
SX_HARNESS(search) { // whatever the configurations reach
    int n = pick("configurations", 1, 4), rf = pick("reduction", 2, 3), kind = pick("loss", 0, 2), all = sx_tier() ? pick("asked for", 0, 1) : n % 2; int most = rf == 2 ? 13 : 3; LossType loss = kind == 0 ? LossType::mse : kind == 1 ? LossType::categoricalCrossEntropy : LossType::binaryCrossEntropy; if (n == 4 && kind == 2 && !sx_tier()) return; metric.assign(n, {}); for (int i = 0; i < n; i++) for (int r = 0; r < 3; r++) metric[i].push_back(r == 0 || n / rf > 1 ? symi(N("m", i) + N(".", r), 0, 9) : 0); float target = symi("target", -1, 10); auto f = search(n, all ? -1 : n, rf, most, loss, target, 32); proper(f, n, rf, most, kind == 0, target); } // opts: time=300
SX_HARNESS(failing) { // configurations that cannot be trained, or reach nothing that is defined, are passed over
    int n = pick("configurations", 1, 3 + sx_tier()), least = pick("least", 0, 1), undefined = pick("undefined", 0, 1), rf = 2; unsigned bad = pick("bad", 1, (1 << n) - 1); metric.assign(n, {}); for (int i = 0; i < n; i++) for (int r = 0; r < 3; r++) metric[i].push_back(bad >> i & 1 ? (undefined ? NAN : FAILS) : symi(N("m", i) + N(".", r), 0, 9)); bool whole = bad == (1u << n) - 1; auto f = search(n, n, rf, 9, least ? LossType::mae : LossType::categoricalCrossEntropy, least ? -1 : 10, 16); if (whole) { if (!undefined) sx_check(!f.model, "no model when none can be trained"); return; } for (auto &m: metric) for (auto &v: m) if (v != v) v = FAILS; proper(f, n, rf, 9, least, least ? -1 : 10); }
SX_HARNESS(space) { // batches fit the data, and every combination counts
    int most = sx_int("most", 0, 3000); HyperparameterSpace s(most); static const int B[] = {32, 64, 128, 1, 256, 512, 1024}; std::vector<int> want; for (int b: B) if (b == 1 || b <= most) want.push_back(b); sx_check(s.batch_size_space == want, "batches of at most the size given"); size_t n = 1; for (size_t k: {s.learning_rate_space.size(), s.bias_learning_rate_space.size(), s.complexity_depth_space.size(), s.complexity_width_space.size(), s.dropout_rate_space.size(), s.l2_regularization_strength_space.size(), s.batch_size_space.size(), s.use_normalization_layers_space.size(), s.use_hidden_bias_space.size(), s.use_bias_space.size(), s.use_normal_clipping_space.size()}) n *= k; sx_check(s.getNumConfigurations() == n, "every combination counts"); }
template<class V, class X> static bool among(const V &v, X x) { return std::find(v.begin(), v.end(), x) != v.end(); }
SX_HARNESS(proposed) { // configurations come from the space, and none twice while there are others
    auto s = std::make_shared<HyperparameterSpace>(pick("most", 0, 2) * 40); int small = pick("small", 0, 2); if (small) { narrow(*s, small == 1 ? 3 : 5); if (small == 2) s->complexity_depth_space = {1, 2}; } HyperBandRandomSearch q(s); std::set<std::string> seen; int n = small ? (int) s->getNumConfigurations() : 12, bits = pick("bits", 0, 1) ? 8 : 32; for (int i = 0; i < n; i++) { auto c = q.generateRandomConfiguration(bits); sx_check(among(s->learning_rate_space, c->learning_rate) && among(s->bias_learning_rate_space, c->bias_learning_rate) && among(s->complexity_depth_space, c->complexity_depth) && among(s->complexity_width_space, c->complexity_width) && among(s->dropout_rate_space, c->dropout_rate) && among(s->l2_regularization_strength_space, c->l2_regularization_strength) && among(s->batch_size_space, c->batch_size) && among(s->use_normalization_layers_space, c->use_normalization_layers) && among(s->use_hidden_bias_space, c->use_hidden_bias) && among(s->use_bias_space, c->use_bias) && among(s->use_normal_clipping_space, c->use_normal_clipping) && c->bits == bits, "from the space"); sx_check(seen.insert(c->as_string()).second, "each once"); } }
SX_HARNESS(trains) { // whatever the configuration: the network made of it fits the data, is trained with it and can be kept
    int kind = pick("given", 0, 2), what = pick("expected", 0, 2), depth = pick("depth", 0, 1), o = pick("options", 0, 7); std::vector<Meta> g{meta('N', "a", 2)}, e{meta('L', "b", 3)}; if (kind == 1) g = {meta('I', "a", 8, 8)}; if (kind == 2) g = {meta('N', "a", 1), meta('L', "k", 2)}; if (what == 1) e = {meta('N', "b", 1)}; if (what == 2) e = {meta('L', "b", 2), meta('N', "c", 1)}; dataset(sub("data.bin"), g, e, 5); auto c = std::make_shared<Hyperparameters>(); c->learning_rate = 0.01f; c->bias_learning_rate = 0.001f; c->complexity_depth = depth; c->complexity_width = o & 1 ? 1.5f : 2; c->dropout_rate = o & 2 ? 0.5f : 0; c->l2_regularization_strength = o & 4 ? 0.1f : 0; c->batch_size = o & 1 ? 1 : 2; c->use_normalization_layers = o & 2; c->use_bias = o & 4; c->use_hidden_bias = o & 1; c->use_normal_clipping = o & 2; c->bits = o & 4 ? 8 : 32; LossType loss = what == 0 ? LossType::categoricalCrossEntropy : what == 1 ? LossType::binaryCrossEntropy : LossType::mse; ConfigurationEvaluator v(loss, OptimizerType::adam, sub("data.bin"), 0.8f, sub("data.bin"), -0.2f, sub(""), 2, 60000); float target = loss == LossType::mse ? 100 : -1; std::cout.setstate(std::ios::failbit); bool good = v.evaluateConfiguration(c, 2, target); std::cout.clear(); sx_check(good && v.getBestConfiguration() == c && v.getBestEvaluationMetric() == c->evaluation_metric && c->minimize_metric == (what == 2), "evaluated, and beyond the target"); sx_check(what == 2 ? c->evaluation_metric >= 0 : c->evaluation_metric == 0 || c->evaluation_metric == 1, "what it reached on the one test record"); auto m = v.getBestModel(); m->setSilentMode(true); BinaryDataSet d(sub("data.bin"), -0.2f); auto p = m->predict(d.nextRecord()->getGiven()); sx_check(p.size() == e.size(), "a result for every column"); for (size_t i = 0; i < p.size() && i < e.size(); i++) sx_check(shapeIs(p[i], e[i]->channels, e[i]->rows, e[i]->columns), "of its shape"); sx_check(inFolder(sub("cache")) == 1, "kept in a place of its own"); v.remove_temp_folder(); sx_check(inFolder(sub("cache")) == 0 && std::filesystem::exists(sub("data.bin")), "which can be removed"); } // opts: time=300
