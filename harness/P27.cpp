// P27: the model made for a task fits its data
#include "ml/happyml_dsl.hpp"
#include "util/task_utils.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef std::shared_ptr<BinaryColumnMetadata> Meta;
static std::string N(const char *s, int i) { return s + std::to_string(i); }
static const std::string TASKS = "../happyml_repo/tasks/", DATA = "../happyml_repo/datasets/";
static Meta meta(char purpose, const std::string &name, size_t k, size_t r = 1, size_t c = 1) { auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = purpose; m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->source_column_count = k; m->channels = c; m->rows = r; m->columns = k; m->name = name; if (purpose == 'L') for (size_t i = 0; i < k; i++) m->ordered_labels.push_back(N("l", (int) i)); return m; }
static void dataset(const std::string &name, const std::vector<Meta> &g, const std::vector<Meta> &e, size_t rows) { std::filesystem::create_directories(DATA + name); std::string p = DATA + name + "/dataset.bin"; BinaryDatasetWriter w(p, g, e, 0); auto row = [&](const std::vector<Meta> &v) { std::vector<T> t; for (auto &m: v) { Cube c = cubeOf(m->channels, m->rows, m->columns); c[0][0][0] = 1; t.push_back(tens(c)); } return t; }; w.close(); std::string head = slurp(p); { BinaryDatasetWriter v(p, g, e, 0); if (rows) v.writeRow(row(g), row(e)); v.close(); } std::string one = slurp(p).substr(head.size()), all = head; for (size_t i = 0; i < rows; i++) all += one; spew(p, all); }
static const char *GOALS[] = {"speed", "memory", "accuracy"};
SX_HARNESS(fits) { // for any data, goal and size the model takes the given values and yields results of the expected shape, and can be trained
    int kind = pick("given", 0, 3), what = pick("expected", 0, 3), goal = pick("goal", 0, 2), size = pick("size", 0, 2); std::vector<Meta> g{meta('N', "a", 2)}, e{meta('L', "b", 3)}; if (kind == 1) g = {meta('I', "a", 4, 4)}; if (kind == 2) g = {meta('N', "a", 1), meta('L', "k", 2)}; if (kind == 3) g = {meta('N', "a", 2, 2)}; if (what == 1) e = {meta('N', "b", 1)}; if (what == 2) e = {meta('L', "b", 2), meta('N', "c", 1)}; if (what == 3) e = {meta('N', "b", 1), meta('N', "c", 2)}; dataset("d", g, e, 4); static const double SIZE[] = {0.4, 1, 3}; auto data = std::make_shared<BinaryDataSet>(DATA + "d/dataset.bin"); BinaryDatasetReader r(DATA + "d/dataset.bin"); LossType loss = goal == 0 || e.size() > 1 ? LossType::mse : e[0]->columns == 1 ? LossType::binaryCrossEntropy : LossType::categoricalCrossEntropy; sx_cap_begin(std::cout); auto n = build_neural_network_for_label("t", TASKS, GOALS[goal], data, r, (float) pick("rate", 0, 1) * 4, goal == 1 ? OptimizerType::sgd : OptimizerType::adam, loss, ActivationType::leaky, SIZE[size]); n->setSilentMode(true); n->setExitStrategy(std::make_shared<DefaultExitStrategy>(9, 1000000, 1, -1.f, 0.f, 1, 9.f)); auto res = n->train(data, 2, TrainingRetentionPolicy::last); auto p = n->predict(data->nextRecord() ? (data->restart(), data->nextRecord()->getGiven()) : std::vector<T>()); sx_cap_end(std::cout); sx_check(res && res->total_records == 4, "every record is used"); sx_check(p.size() == e.size(), "a result for every column"); for (size_t i = 0; i < p.size() && i < e.size(); i++) { sx_check(shapeIs(p[i], e[i]->channels, e[i]->rows, e[i]->columns), "of its shape"); float sum = 0; bool in = true; for (size_t k = 0; k < p[i]->columnCount(); k++) { float v = p[i]->getValue(0, k, 0); in &= v >= 0 && v <= 1; sum += v; } sx_check(in, "a share"); if (loss == LossType::categoricalCrossEntropy) sx_check(within(sum, 1, 1e-4), "shares of the whole"); } n->saveWithOverwrite(); auto l = loadNeuralNetworkForTraining("t", TASKS); auto q = l->predict(data->nextRecord() ? (data->restart(), data->nextRecord()->getGiven()) : std::vector<T>()); int same = 1; for (size_t i = 0; i < p.size(); i++) same &= sameCube(n->predict((data->restart(), data->nextRecord()->getGiven()))[i], read(q[i])); sx_check(same, "and can be used later"); }
