// P22: training visits every record, keeps the best knowledge and reports what happened
#include "ml/happyml_dsl.hpp"
#include "kit.hpp"
#include <thread>
static std::string N(const char *s, int i) { return s + std::to_string(i); }
static T one(float v) { return tens({{{v}}}); }
// what happened, in order: a record used for training (0..), a record tested (100..), a change (200), an epoch judged (300)
static std::vector<int> events; static int version; // the knowledge is the number of changes made to it
struct Learner : BaseLayer { std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool training) override { events.push_back((training ? 0 : 100) + (int) in[0]->getValue(0, 0, 0)); return in[0]; } std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &e) override { return {e}; } void apply(const std::shared_ptr<BaseOptimizer> &) override { version++; events.push_back(200); } void saveKnowledge(const std::string &path) override { spew(path + "/learner", std::to_string(version)); } void loadKnowledge(const std::string &path) override { version = std::stoi(slurp(path + "/learner")); } };
// losses given by the harness: loss(epoch, record)
static std::vector<std::vector<float>> trainLoss, testLoss; static size_t epochNow;
struct Given : LossFunction { bool testing = false; int record = 0; std::shared_ptr<BaseTensor> compute_error(std::shared_ptr<BaseTensor> &t, std::shared_ptr<BaseTensor> &p) override { int r = (int) t->getValue(0, 0, 0); auto &l = r >= 50 ? testLoss : trainLoss; return one(epochNow < l.size() ? l[epochNow][r % 50] : 0); } float compute_loss(std::shared_ptr<BaseTensor> &e) override { return e->getValue(0, 0, 0); } std::shared_ptr<BaseTensor> compute_loss_derivative(std::shared_ptr<BaseTensor> &e, std::shared_ptr<BaseTensor> &, std::shared_ptr<BaseTensor> &) override { return e; } };
struct Stop : ExitStrategy { size_t epochs; std::vector<size_t> seen; std::vector<float> losses; std::vector<int64_t> times; int sleeps = 0; explicit Stop(size_t n) : epochs(n) {} bool isDone(size_t e, float l, int64_t t) override { seen.push_back(e); losses.push_back(l); times.push_back(t); events.push_back(300); epochNow++; return seen.size() >= epochs; } std::string whyDone(size_t, float, int64_t) override { return "asked to"; } };
struct Records : TrainingDataSet { size_t n, at = 0; int base; int restarts = 0; std::vector<size_t> in{1, 1, 1}, out{1, 1, 1}; int slow = 0; std::vector<std::vector<size_t>> ins{in}, outs{out}; Records(size_t n, int base) : n(n), base(base) {} size_t recordCount() override { return n; } void restart() override { at = 0; restarts++; } std::shared_ptr<TrainingPair> nextRecord() override { if (at >= n) return nullptr; if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(slow)); float v = (float) at++; return std::make_shared<TrainingPair>(std::vector<T>{one(v)}, std::vector<T>{one(v + (float) base)}); } std::vector<std::vector<size_t>> getGivenShapes() override { return ins; } std::vector<std::vector<size_t>> getExpectedShapes() override { return outs; } };
struct Setup { std::shared_ptr<NeuralNetworkForTraining> net; std::shared_ptr<Stop> stop; Setup(size_t epochs, bool silent) { net = std::make_shared<NeuralNetworkForTraining>("net", sx_scratch(), OptimizerType::sgd, 0.25f, 0.5f, LossType::mse); net->setSilentMode(silent); auto node = std::make_shared<NeuralNetworkOutputNode>(std::make_shared<Learner>()); net->addHeadNode(node); net->addOutput(node); net->setLossFunction(std::make_shared<Given>()); stop = std::make_shared<Stop>(epochs); net->setExitStrategy(stop); events.clear(); version = 0; epochNow = 0; } };
static std::vector<std::vector<float>> losses(const std::string &name, int epochs, int n, long hi) { std::vector<std::vector<float>> l(epochs); for (int e = 0; e < epochs; e++) for (int r = 0; r < n; r++) l[e].push_back(symi(name + std::to_string(e) + "." + std::to_string(r), 0, hi)); return l; }
// mean of the batches' means
static float epochLoss(const std::vector<float> &l, size_t batch) { float m = 0; size_t k = 0; for (size_t i = 0; i < l.size(); i += batch) { float s = 0; size_t j = i; for (; j < l.size() && j < i + batch; j++) s += l[j]; m += (s / (float) (j - i) - m) / (float) ++k; } return m; }
SX_HARNESS(visits) { // what happens, in which order
    int n = pick("records", 1, 3), batch = pick("batch", 1, 3), epochs = pick("epochs", 1, 3), tests = pick("tests", 0, 2); bool best = pick("keep best", 0, 1); trainLoss = std::vector<std::vector<float>>(epochs, std::vector<float>(n, 3)); testLoss = std::vector<std::vector<float>>(epochs, std::vector<float>(2, 2)); Setup s(epochs, pick("silent", 0, 1)); auto data = std::make_shared<Records>(n, 0), test = std::make_shared<Records>(tests, 50); auto policy = best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last; if (batch > n) { sx_check(throws([&] { s.net->train(data, test, batch, policy); }) && events.empty() && version == 0, "a batch larger than the data is refused"); return; } if (batch == 1 && best && pick("defaults", 0, 1)) { if (tests) s.net->train(data, test); else s.net->train(data); } else if (tests) s.net->train(data, test, batch, policy); else s.net->train(data, batch, policy);
    std::vector<int> want; for (int e = 0; e < epochs; e++) { for (int r = 0; r < n; r++) { want.push_back(r); if (r % batch == batch - 1 || r == n - 1) want.push_back(200); } for (int t = 0; t < tests; t++) want.push_back(100 + t); want.push_back(300); } sx_check(events == want, "every record once an epoch, a change after every batch, then the test records"); for (int e = 0; e < epochs; e++) sx_check(s.stop->seen[e] == (size_t) e + 1, "epochs are counted from one"); }
SX_HARNESS(keeps_best) { // whatever the losses
    int n = pick("records", 1, 3), epochs = pick("epochs", 1, 3), tests = pick("tests", 0, 1), batch = pick("batch", 1, 2); if (batch > n || n == 3 && (batch == 1 || epochs == 3 && !sx_tier())) return; bool best = pick("keep best", 0, 1); trainLoss = losses("train", epochs, n, 8); testLoss = losses("test", epochs, tests, 8); Setup s(epochs, true); std::filesystem::create_directories(sub("net/default")); spew(sub("net/default/learner"), "77"); auto data = std::make_shared<Records>(n, 0), test = std::make_shared<Records>(tests, 50); auto r = s.net->train(data, test, batch, best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last);
    std::vector<float> tr, te; for (int e = 0; e < epochs; e++) { tr.push_back(epochLoss(trainLoss[e], batch)); te.push_back(tests ? testLoss[e][0] : tr[e]); } int ok = 1; for (int e = 0; e < epochs; e++) ok &= (s.stop->losses[e] == te[e]) | within(s.stop->losses[e], te[e], 1e-4f); sx_check(ok, "the loss of the epoch decides");
    int changes = (n + batch - 1) / batch, lowest = 0; for (int e = 1; e < epochs; e++) if (s.stop->losses[e] < s.stop->losses[lowest]) lowest = e; sx_check(version == changes * (best ? lowest + 1 : epochs), best ? "the knowledge of the first epoch with the lowest loss is kept" : "the last knowledge is kept"); float bestTrain = tr[0]; for (float t: tr) bestTrain = sx_itef(t < bestTrain, t, bestTrain); auto near = [](float a, float b) { return (a == b) | within(a, b, 1e-4f); };
    sx_check(near(r->initial_train_loss, tr[0]) & near(r->best_train_loss, bestTrain) & near(r->initial_test_loss, te[0]) & (!best | near(r->final_test_loss, te[lowest])), "losses reported"); sx_check(r->batch_size == batch && r->total_records == (size_t) n && r->learning_rate == 0.25f && (!best || r->epochs == (size_t) lowest), "circumstances reported"); if (epochs > 1) { float later = tr[1]; for (int e = 2; e < epochs; e++) later = sx_itef(tr[e] < later, tr[e], later); if (tests || !best) sx_check(r->trained ? later < tr[0] + 1e-4f : later >= tr[0] - 1e-4f, "trained means a lower training loss than at first"); }
    size_t left = 0; for (auto &e: std::filesystem::directory_iterator(sub("net"))) left++; sx_check(left == 1 && slurp(sub("net/default/learner")) == "77", "no checkpoint is left and other knowledge is untouched"); } // opts: time=300
SX_HARNESS(larger) { // more records, batches and epochs; any loss of one record in one epoch decides
    int n = pick("records", 4, 11), batch = pick("batch", 1, 6), epochs = 4 + 4 * pick("epochs", 0, 2), tests = pick("tests", 0, 5); if (batch > n || !sx_tier() && ((n + batch * 3 + epochs * 5 + tests * 7) % 19)) return; bool best = pick("keep best", 0, 1); trainLoss.assign(epochs, {}); testLoss = trainLoss; for (int e = 0; e < epochs; e++) { for (int r = 0; r < n; r++) trainLoss[e].push_back((float) (20 + (e * 7 + r * 5) % 9)); for (int t = 0; t < tests; t++) testLoss[e].push_back((float) (20 + (e * 5 + t * 3) % 11)); }
    (tests ? testLoss : trainLoss)[pick("epoch", 0, 3) * (epochs - 1) / 3][tests ? tests - 1 : n - 1] = (float) (pick("loss", 0, 4) * 9); Setup s(epochs, true); auto data = std::make_shared<Records>(n, 0), test = std::make_shared<Records>(tests, 50); auto r = s.net->train(data, test, batch, best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last);
    std::vector<float> tr, te; for (int e = 0; e < epochs; e++) { tr.push_back(epochLoss(trainLoss[e], batch)); float m = 0; for (float f: testLoss[e]) m += f; te.push_back(tests ? m / (float) tests : tr[e]); } int ok = s.stop->losses.size() == (size_t) epochs; for (int e = 0; ok && e < epochs; e++) ok &= within(s.stop->losses[e], te[e], 1e-3f); sx_check(ok, "the loss of the epoch decides"); if (!ok) return;
    int changes = (n + batch - 1) / batch, lowest = 0; for (int e = 1; e < epochs; e++) if (s.stop->losses[e] < s.stop->losses[lowest]) lowest = e; sx_check(version == changes * (best ? lowest + 1 : epochs), best ? "the knowledge of the first epoch with the lowest loss is kept" : "the last knowledge is kept"); sx_check(within(r->initial_train_loss, tr[0], 1e-3f) & within(r->initial_test_loss, te[0], 1e-3f) & (!best | within(r->final_test_loss, te[lowest], 1e-3f)), "losses reported");
    std::vector<int> want; for (int e = 0; e < epochs; e++) { for (int q = 0; q < n; q++) { want.push_back(q); if (q % batch == batch - 1 || q == n - 1) want.push_back(200); } for (int t = 0; t < tests; t++) want.push_back(100 + t); want.push_back(300); } sx_check(events == want, "every record once an epoch, a change after every batch, then the test records"); } // opts: time=300
SX_HARNESS(refusals) { // data that does not fit is refused before anything changes, an undefined loss when it appears
    trainLoss = testLoss = {{1, 1}, {1, 1}}; int what = pick("problem", 0, 5); bool best = pick("keep best", 0, 1); Setup s(2, true); auto data = std::make_shared<Records>(2, 0), test = std::make_shared<Records>(1, 50); size_t axis = pick("axis", 0, 2); if (what == 0) test->ins[0][axis] = 2; if (what == 1) test->outs[0][axis] = 2; if (what == 2) test->ins.push_back({1, 1, 1}); if (what == 3) test->outs.push_back({1, 1, 1}); int epoch = 0; if (what == 4) trainLoss[epoch = pick("epoch", 0, 1)][pick("record", 0, 1)] = NAN; bool threw = throws([&] { s.net->train(data, test, what == 5 ? 3 : 1, best ? TrainingRetentionPolicy::best : TrainingRetentionPolicy::last); }); sx_check(threw, "refused"); if (what != 4) sx_check(events.empty() && version == 0, "before anything happened"); size_t left = 0; if (std::filesystem::exists(sub("net"))) for (auto &e: std::filesystem::directory_iterator(sub("net"))) left++; sx_check(left == 0, "no checkpoint is left"); }
SX_HARNESS(time_counts) { // the time passed to the exit strategy is the time since training began
    int n = pick("records", 1, 2), epochs = pick("epochs", 1, 3), slow = pick("slow", 1, 2) * 20; trainLoss = testLoss = {}; Setup s(epochs, true); auto data = std::make_shared<Records>(n, 0); data->slow = slow; s.net->train(data, 1, TrainingRetentionPolicy::last); for (int e = 0; e < epochs; e++) sx_check(s.stop->times[e] >= (e + 1) * n * slow && s.stop->times[e] < 60000, "all epochs so far"); Setup q(99, true); q.net->setExitStrategy(std::make_shared<DefaultExitStrategy>(50, (int64_t) slow * n * 2 - 5, 40, -1.f, 0.f, 1, 100.f)); trainLoss = std::vector<std::vector<float>>(1, std::vector<float>(n, 1)); auto d = std::make_shared<Records>(n, 0); d->slow = slow; q.net->train(d, 1, TrainingRetentionPolicy::last); sx_check((size_t) version <= (size_t) (2 * n), "training stops at its time limit"); }
SX_HARNESS(tested) { // the average loss over the test records, without learning
    int n = pick("records", 1, 2); trainLoss = {}; testLoss = losses("test", 1, n, 15); Setup s(1, pick("silent", 0, 1)); auto d = std::make_shared<Records>(n, 50); d->at = pick("already read", 0, 1); float got = s.net->test(d), sum = 0; for (float f: testLoss[0]) sum += f; sx_check(within(got * (float) n, sum, 1e-2f), "mean loss"); std::vector<int> want; for (int i = 0; i < n; i++) want.push_back(100 + i); sx_check(events == want && version == 0, "every record once, nothing learned"); }
// accuracy: the network passes its input through
struct Rows : TrainingDataSet { std::vector<std::pair<std::vector<T>, std::vector<T>>> rows; size_t at = 0; size_t outs = 1; size_t recordCount() override { return rows.size(); } void restart() override { at = 0; } std::shared_ptr<TrainingPair> nextRecord() override { return at < rows.size() ? std::make_shared<TrainingPair>(rows[at].first, rows[at++].second) : nullptr; } std::vector<std::vector<size_t>> getGivenShapes() override { return std::vector<std::vector<size_t>>(outs, {1, 2, 1}); } std::vector<std::vector<size_t>> getExpectedShapes() override { return std::vector<std::vector<size_t>>(outs, {1, 2, 1}); } };
struct Through : BaseLayer { std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool) override { return in[0]; } std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &e) override { return {e}; } };
static std::shared_ptr<NeuralNetworkForTraining> through(size_t outs) { auto net = std::make_shared<NeuralNetworkForTraining>("net", sx_scratch(), OptimizerType::sgd, 0.25f, 0.5f, LossType::mse); net->setSilentMode(true); for (size_t i = 0; i < outs; i++) { auto n = std::make_shared<NeuralNetworkOutputNode>(std::make_shared<Through>()); net->addHeadNode(n); net->addOutput(n); } return net; }
SX_HARNESS(binary_accuracy) { // any predictions between 0 and 1
    int n = pick("records", 1, 2), outs = pick("outputs", 1, 2), limit = pick("limit", -1, 2); if (limit == 0) return; auto d = std::make_shared<Rows>(); d->outs = outs; int seen = limit < 0 ? n : std::min(n, limit), hits = 0; for (int r = 0; r < n; r++) { std::vector<T> g, e; int all = 1; for (int o = 0; o < outs; o++) { Cube p = cubeOf(1, 1, 2), t = cubeOf(1, 1, 2); for (int k = 0; k < 2; k++) { std::string name = N("p", r) + N(".", o) + N(".", k); float f = (float) sx_int(name.c_str(), 0, 255) * 0.00390625f; float w = (float) sx_int((name + "t").c_str(), 0, 1); p[0][0][k] = f; t[0][0][k] = w; all &= (f >= 0.5f) == (w == 1); } g.push_back(tens(p)); e.push_back(tens(t)); } d->rows.push_back({g, e}); if (r < seen) hits += all; } d->at = 1; float got = through(outs)->compute_binary_accuracy(d, limit); sx_check(within(got * (float) seen, (float) hits, 1e-3f), "share of records whose every value rounds to the truth"); } // opts: time=200
SX_HARNESS(exit_strategy) { // any losses and limits
    size_t patience = pick("patience", 1, 2), maxE = pick("max epochs", 1, 3), minE = pick("min epochs", 1, 2); int64_t limit = sx_int("limit", 0, 100); float zero = (float) sx_int("zero", 0, 3), better = (float) sx_int("better", 0, 4); int part = pick("degradation", 0, 2); static const float parts[] = {0.25f, 0.5f, 2}; DefaultExitStrategy x(patience, limit, maxE, zero, better, minE, parts[part]); float low = 0; size_t lowAt = 0; bool any = false; for (size_t e = 1; e <= 2 + (size_t) sx_tier(); e++) { std::string k = std::to_string(e); float loss = symi("loss" + k, 0, 15); int64_t t = sx_int(("time" + k).c_str(), 0, 100); if (!any || loss + better <= low) { low = loss; lowAt = e; any = true; } int worse = ((loss - low) * 4 >= low * (part == 0 ? 1 : part == 1 ? 2 : 8)) & (loss > low); int done = (e >= minE) & ((e >= maxE) | worse | (t >= limit) | (e - lowAt >= patience) | (loss <= zero)); bool got = x.isDone(e, loss, t); sx_check(got == (bool) done, "done exactly when a limit is reached"); if (got) return; } } // opts: time=300
SX_HARNESS(reasons) { // a reason is given exactly when training is done
    size_t patience = pick("patience", 1, 2), maxE = pick("max epochs", 1, 3), minE = pick("min epochs", 1, 2); DefaultExitStrategy x(patience, 50, maxE, 0.5f, 1, minE, 0.5f); for (size_t e = 1; e <= 3; e++) { static const float L[] = {0, 4, 5, 8}; std::string k = std::to_string(e); float loss = L[pick("loss" + k, 0, 3)]; int64_t t = 10 + 50 * pick("late" + k, 0, 1); bool got = x.isDone(e, loss, t); std::string why = x.whyDone(e, loss, t); sx_check((why != "Unknown" && why.find("Should not") == std::string::npos) == got, "a reason is given exactly then"); if (got) return; } }
SX_HARNESS(categorical_accuracy) { // any scores; the first of the greatest decides
    int n = pick("records", 1, 2), outs = pick("outputs", 1, 2), limit = pick("limit", -1, 2); if (limit == 0) return; auto d = std::make_shared<Rows>(); d->outs = outs; std::vector<std::shared_ptr<RawDecoder>> dec; std::vector<std::string> labels{"a", "b"}; for (int o = 0; o < outs; o++) dec.push_back(std::make_shared<BestTextCategoryDecoder>(labels)); int seen = limit < 0 ? n : std::min(n, limit), hits = 0; for (int r = 0; r < n; r++) { std::vector<T> g, e; int all = 1; for (int o = 0; o < outs; o++) { std::string name = N("p", r) + N(".", o); float p = symi(name + "a", 0, 9), q = symi(name + "b", 0, 9); int t = pick(name + "t", 0, 1); all &= (q > p) == t; g.push_back(rowv({p, q})); e.push_back(rowv({(float) !t, (float) t})); } d->rows.push_back({g, e}); if (r < seen) hits += all; } d->at = 1; float got = through(outs)->compute_categorical_accuracy(d, dec, limit); sx_check(within(got * (float) seen, (float) hits, 1e-3f), "share of records whose every best label is the true one"); } // opts: time=200
struct Recording : BaseLayer { std::vector<T> errors; std::shared_ptr<BaseTensor> forward(const std::vector<std::shared_ptr<BaseTensor>> &in, bool) override { return in[0]; } std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &e) override { errors.push_back(e); return {e}; } };
SX_HARNESS(named_loss) { // a network is judged and corrected by the loss it was asked for
    int kind = pick("loss", 0, 4); static const LossType types[] = {mse, mae, smae, categoricalCrossEntropy, binaryCrossEntropy}; auto net = std::make_shared<NeuralNetworkForTraining>("net", sx_scratch(), OptimizerType::sgd, 0.25f, 0.5f, types[kind]); net->setSilentMode(true); auto layer = std::make_shared<Recording>(); auto node = std::make_shared<NeuralNetworkOutputNode>(layer); net->addHeadNode(node); net->addOutput(node); net->setExitStrategy(std::make_shared<Stop>(1));
    float p[2], t[2]; for (int k = 0; k < 2; k++) if (kind < 3) { p[k] = symi(N("p", k), -9, 9); t[k] = symi(N("t", k), -9, 9); } else { p[k] = (float) pick(N("p", k), 1, 3) * 0.25f; t[k] = (float) pick(N("t", k), 0, 1); }
    auto d = std::make_shared<Rows>(); d->rows.push_back({{rowv({p[0], p[1]})}, {rowv({t[0], t[1]})}}); float loss = net->test(d), want = 0; d->at = 0; net->train(d, 1, TrainingRetentionPolicy::last); sx_check(layer->errors.size() == 1, "one pass back"); T e = layer->errors[0];
    for (int k = 0; k < 2; k++) { float x = p[k] - t[k], a = sx_itef(x < 0, -x, x), sign = sx_itef(x < 0, -1.f, sx_itef(x > 0, 1.f, 0.f)), g = 0; switch (kind) { case 0: want += x * x * 0.5f; g = 2 * x; break; case 1: want += a * 0.5f; g = sign; break; case 2: want += sx_itef(a < 1, 0.5f * x * x, a - 0.5f) * 0.5f; g = sx_itef(a < 1, x, sign); break; case 3: want -= t[k] * std::log(p[k]); g = x; break; default: want -= t[k] * std::log(p[k]) + (1 - t[k]) * std::log(1 - p[k]); g = (1 - t[k]) / (1 - p[k]) - t[k] / p[k]; } sx_check(within(e->getValue(0, k, 0), g, 1e-3f), "corrected by its slope"); } sx_check(within(loss, want, 1e-3f), "judged by its value"); } // opts: time=200
