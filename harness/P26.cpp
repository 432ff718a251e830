// P26: creating a task ends, with a model that fits its data or with a failure that is reported
#include "ml/happyml_dsl.hpp"
#include "util/dataset_utils.hpp"
#include "util/pretty_print_row.hpp"
#include "lang/happyml_variant.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef std::shared_ptr<BinaryColumnMetadata> Meta;
static std::string N(const char *s, int i) { return s + std::to_string(i); }
// ---- the search, with trainings that are stand-ins: what they reach is up to the harness
struct Attempt { float rate, biasRate; std::vector<size_t> sizes; size_t records, tested; int batch; };
static bool alike(const Attempt &a, const Attempt &b) { return a.rate == b.rate && a.sizes == b.sizes; }
static std::vector<Attempt> attempts; static std::vector<int> saved; static std::string savedAs; struct TooMany {}; static std::function<float(const Attempt &, int)> reach; static int limitOfAttempts;
namespace happyml_stand_in { using namespace happyml;
    struct NeuralNetworkForTraining { Attempt a{}; std::string where; int id = -1; void setExitStrategy(const shared_ptr<ExitStrategy> &) {}
        shared_ptr<TrainingResult> train(const shared_ptr<TrainingDataSet> &d, const shared_ptr<TrainingDataSet> &t, int batch) { a.records = d->recordCount(); a.tested = t ? t->recordCount() : 0; a.batch = batch; id = (int) attempts.size(); attempts.push_back(a); if (id > limitOfAttempts) throw TooMany(); reached = reach(a, id); if (reached < 0) throw std::runtime_error("cannot be trained"); auto r = make_shared<TrainingResult>(); r->epochs = 3; r->total_records = a.records; r->batch_size = batch; r->final_test_loss = 1 - reached; r->best_train_loss = 1 - reached; r->trained = true; return r; }
        shared_ptr<TrainingResult> train(const shared_ptr<TrainingDataSet> &d, int batch) { return train(d, nullptr, batch); }
        float compute_categorical_accuracy(const shared_ptr<TrainingDataSet> &, const vector<shared_ptr<RawDecoder>> &, int = -1) { return reached; } float compute_binary_accuracy(const shared_ptr<TrainingDataSet> &, int = -1) { return reached; } size_t get_total_parameters() { return 7; } vector<shared_ptr<BaseTensor>> predict(const vector<shared_ptr<BaseTensor>> &) { return {}; } void saveWithOverwrite() { saved.push_back(id); savedAs = where; std::filesystem::create_directories(where); spew(where + "/model.config", "attempt"); } float reached = 0; };
    struct Vertex : std::enable_shared_from_this<Vertex> { shared_ptr<Attempt> a; explicit Vertex(shared_ptr<Attempt> x) : a(std::move(x)) {} typedef shared_ptr<Vertex> P; P me() { return shared_from_this(); } P note(size_t n) { a->sizes.push_back(n); return me(); } P note(const vector<size_t> &n) { for (auto x: n) a->sizes.push_back(x); return me(); } template<class S, class... R> P addLayer(const S &s, R...) { return note(s); } template<class S, class... R> P addOutputLayer(const S &s, R...) { return note(s); } template<class S, class... R> P addOutput(const S &s, R...) { return note(s); } P addDropoutLayer(float = 0) { return me(); } P addNormalizationLayer() { return me(); } P setUseBias(bool) { return me(); } P setUseL2Regularization(bool) { return me(); } P setUseNormClipping(bool) { return me(); } P setUseNormalization(bool) { return me(); } P setBits(int) { return me(); } P setMaterialized(bool) { return me(); } P setNormClippingThreshold(float) { return me(); } P setRegularizationStrength(float) { return me(); } };
    struct HappymlDSL { using NNVertex = Vertex; };
    struct Builder : std::enable_shared_from_this<Builder> { shared_ptr<Attempt> a = make_shared<Attempt>(); string name, repo; typedef shared_ptr<Builder> P; P setModelName(const string &n) { name = n; return shared_from_this(); } P setModelRepo(const string &n) { repo = n; return shared_from_this(); } P setLearningRate(float r) { a->rate = r; return shared_from_this(); } P setBiasLearningRate(float r) { a->biasRate = r; return shared_from_this(); } P setLossFunction(LossType) { return shared_from_this(); } shared_ptr<Vertex> add_concatenated_input_layer(const vector<vector<size_t>> &) { return make_shared<Vertex>(a); } template<class S, class Q, class... R> shared_ptr<Vertex> addInputLayer(const S &, const Q &q, R...) { return make_shared<Vertex>(a)->note(q); } shared_ptr<NeuralNetworkForTraining> build() { auto n = make_shared<NeuralNetworkForTraining>(); n->a = *a; n->where = repo + name; return n; } };
    inline shared_ptr<Builder> standInBuilder(OptimizerType) { return make_shared<Builder>(); } inline shared_ptr<NeuralNetworkForTraining> standInLoad(const string &, const string &) { return make_shared<NeuralNetworkForTraining>(); } }
#define happyml happyml_stand_in
#define neuralNetworkBuilder standInBuilder
#define loadNeuralNetworkForTraining standInLoad
#include "util/task_utils.hpp"
#undef happyml
#undef neuralNetworkBuilder
#undef loadNeuralNetworkForTraining
static const std::string TASKS = "../happyml_repo/tasks/", DATA = "../happyml_repo/datasets/";
static Meta meta(char purpose, const std::string &name, size_t k, size_t r = 1, size_t c = 1) { auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = purpose; m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->source_column_count = k; m->channels = c; m->rows = r; m->columns = k; m->name = name; if (purpose == 'L') for (size_t i = 0; i < k; i++) m->ordered_labels.push_back(N("l", (int) i)); return m; }
static void dataset(const std::string &name, const std::vector<Meta> &g, const std::vector<Meta> &e, size_t rows) { std::filesystem::create_directories(DATA + name); std::string p = DATA + name + "/dataset.bin"; BinaryDatasetWriter w(p, g, e, 0); auto row = [&](const std::vector<Meta> &v) { std::vector<T> t; for (auto &m: v) { Cube c = cubeOf(m->channels, m->rows, m->columns); c[0][0][0] = 1; t.push_back(tens(c)); } return t; }; w.close(); std::string head = slurp(p); { BinaryDatasetWriter v(p, g, e, 0); if (rows) v.writeRow(row(g), row(e)); v.close(); } std::string one = slurp(p).substr(head.size()), all = head; for (size_t i = 0; i < rows; i++) all += one; spew(p, all); }
struct Made { bool ok, endless; std::string out; };
static Made create(const std::string &goal, bool test = false) { attempts.clear(); saved.clear(); Made m{}; sx_cap_begin(std::cout); try { m.ok = happyml_stand_in::create_happyml_task("label", "t", goal, "d", DATA + "d", TASKS, test ? DATA + "e" : ""); } catch (const TooMany &) { m.endless = true; } m.out = sx_cap_end(std::cout); return m; }
static const char *GOALS[] = {"speed", "memory", "accuracy"};
static void described(const std::vector<Meta> &g, const std::vector<Meta> &e) { BinaryDatasetReader r(TASKS + "t/dataset.bin"); sx_check(r.rowCount() == 0 && r.get_given_names().size() == g.size() && r.get_expected_names().size() == e.size(), "the task knows its columns"); for (size_t i = 0; i < g.size(); i++) sx_check(r.get_given_names()[i] == g[i]->name, "by name"); for (size_t i = 0; i < e.size(); i++) sx_check(r.get_expected_metadata(i)->ordered_labels == e[i]->ordered_labels, "and by label"); }
SX_HARNESS(ends) { // whatever the attempts reach, the search ends; one good enough on all the data ends it at once and is kept, else the best parameters are
    static const int ROWS[] = {2, 20, 700}; int rows = ROWS[pick("records", 0, 2)], goal = sx_tier() ? pick("goal", 0, 2) : 0, test = pick("test data", 0, 1); std::vector<Meta> g{meta('N', "a", 2)}, e{meta('L', "b", 3)}; dataset("d", g, e, rows); if (test) dataset("e", g, e, 3); limitOfAttempts = 2000; int good = sx_int("good attempt", -1, goal ? 200 : 34), hit = sx_int("attempt that reaches the target", -1, goal ? 250 : 70); if (!sx_tier()) sx_assume((good < 0) | (hit < 0)); bool some = false; Attempt best{}; int found = -1; size_t whole = test ? rows : (size_t) ((float) rows * 0.9f);
    reach = [&](const Attempt &a, int n) { if (n == good) { best = a; some = true; } if (n == hit) { if (a.records == whole) found = n; return 0.95f; } return some && alike(a, best) ? 0.8f : 0.5f; };
    Made m = create(GOALS[goal], test); sx_check(!m.endless, "it ends"); if (m.endless) return; sx_check(m.ok && saved.size() == 1 && savedAs == TASKS + "t", "one model is kept, under the name of the task"); if (saved.size() != 1) return; sx_check(saved[0] == (int) attempts.size() - 1, "that of the last attempt"); auto &last = attempts[saved[0]]; sx_check(last.records == whole, "trained with all the data"); sx_check(last.tested == (test ? 3 : (size_t) rows - (size_t) ((float) rows * 0.9f)), "tested with the rest, or the data given for that"); if (found >= 0) sx_check(saved[0] == found, "good enough, and used at once"); else if (some && hit < 0) sx_check(alike(last, best), "the best parameters seen"); for (auto &a: attempts) { sx_check(a.batch >= 1 && (size_t) a.batch <= whole && a.batch <= 128, "batches fit the data"); for (auto s: a.sizes) sx_check(s > 0, "no empty layer"); } described(g, e); } // opts: time=300
SX_HARNESS(failing) { // attempts that fail are passed over; if all do, there is no task
    int rows = pick("records", 0, 1) ? 700 : 20, which = pick("failing", 0, 3); std::vector<Meta> g{meta('N', "a", 2)}, e{meta('L', "b", 3)}; dataset("d", g, e, rows); limitOfAttempts = 2000; std::vector<Attempt> bad; size_t n = 0; int from = pick("from", 0, 3); reach = [&](const Attempt &a, int k) { if (which == 0) return -1.f; for (auto &b: bad) if (alike(a, b)) return -1.f; if (k < 30 && (which == 1 ? k % 4 == from : which == 2 ? k >= 30 - from : k != from * 7)) { bad.push_back(a); return -1.f; } n++; return 0.5f; };
    Made m = create("speed"); sx_check(!m.endless, "it ends"); if (m.endless) return; if (which == 0) { sx_check(!m.ok && saved.empty() && !std::filesystem::exists(TASKS + "t/model.config"), "no task without a model"); return; } sx_check(m.ok && saved.size() == 1, "created"); if (saved.size() != 1) return; for (auto &b: bad) sx_check(!alike(attempts[saved[0]], b), "a model that could be trained"); }
SX_HARNESS(again) { // an existing task stays as it is, an incomplete one is made anew, and no data is no task
    int what = pick("before", 0, 3); std::vector<Meta> g{meta('N', "a", 2), meta('L', "k", 2)}, e{meta('L', "b", 3)}; if (what != 3) dataset("d", g, e, 20); limitOfAttempts = 2000; reach = [&](const Attempt &, int) { return 0.95f; }; if (what == 1 || what == 2) { std::filesystem::create_directories(TASKS + "t/default"); std::filesystem::create_directories(TASKS + "u"); spew(TASKS + "u/model.config", "other"); spew(TASKS + "t/default/1_full.tensor", "old"); if (what == 1) spew(TASKS + "t/model.config", "mine"); } Made m = create("speed"); sx_check(m.ok == (what != 3), "created, or there before"); if (what == 1) { sx_check(attempts.empty() && slurp(TASKS + "t/model.config") == "mine" && slurp(TASKS + "t/default/1_full.tensor") == "old", "left alone"); return; } if (what == 3) { sx_check(attempts.empty() && saved.empty() && !std::filesystem::exists(TASKS + "t"), "nothing is created"); return; } if (what == 2) sx_check(!std::filesystem::exists(TASKS + "t/default/1_full.tensor") && slurp(TASKS + "u/model.config") == "other", "made anew, and no other task touched"); sx_check(saved.size() == 1 && attempts.size() == 1, "one attempt is enough"); described(g, e); }
