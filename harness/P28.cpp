// P28: generated values repeat themselves and stay within their range; networks built alike start alike
#include "ml/happyml_dsl.hpp"
#include "util/tensor_utils.hpp"
#include "kit.hpp"
static const uint32_t SEEDS[] = {0, 1, 42, 12345688, 12345689, 2147483648u, 4294967295u};
static void repeats(const T &t, const T &u, size_t c, size_t r, size_t k, float low, float high, float slack) { sx_check(shapeIs(t, c, r, k), "of the shape asked for"); Cube v = read(t); int in = 1; for (auto &a: v) for (auto &b: a) for (float f: b) in &= (f >= low - slack) & (f <= high + slack); sx_check(in, "within the range"); sx_check(sameCube(t, v) && sameCube(u, v) && sameCube(materializeTensor(t), v), "the same every time"); float last = t->getValue(r - 1, k - 1, c - 1); for (size_t i = c; i-- > 0;) for (size_t j = r; j-- > 0;) for (size_t l = k; l-- > 0;) sx_check(sameF(t->getValue(j, l, i), v[i][j][l]), "in any order"); sx_check(sameF(t->getValue(r - 1, k - 1, c - 1), last), "and again"); }
static bool varied(const T &t, float range) { Cube v = read(t); std::set<float> s; for (auto &a: v) for (auto &b: a) for (float f: b) s.insert(f); size_t n = t->rowCount() * t->columnCount() * t->channelCount(); return n < 4 || s.size() * 2 > n; }
SX_HARNESS(random_values) { // any range, position and seed
    size_t c = pick("channels", 1, 2), r = pick("rows", 1, 3), k = pick("columns", 1, 3) * 2 - 1; static const float B[] = {-1000, -1, -0.001f, 0, 0.5f, 1, 250}; float a = B[pick("from", 0, 6)], b = B[pick("to", 0, 6)]; if (!sx_tier() && (r == 2 || k == 3)) return; uint32_t seed = SEEDS[pick("seed", 0, 6)]; auto t = std::make_shared<TensorFromRandom>(r, k, c, a, b, seed); auto u = std::make_shared<TensorFromRandom>(std::vector<size_t>{r, k, c}, a, b, seed); float low = std::min(a, b), high = std::max(a, b); repeats(t, u, c, r, k, low, high, (high - low) * 1e-6f); sx_check(t->get_min_value() == low && t->get_max_value() == high && t->get_seed() == seed, "describes itself"); if (low == high) sx_check(sameCube(t, cubeOf(c, r, k, low)), "no range is one value"); else sx_check(varied(t, high - low), "values differ"); } // opts: time=200
SX_HARNESS(initial_weights) { // smaller for larger layers
    size_t c = pick("channels", 1, 2), r = pick("rows", 1, 4), k = pick("columns", 1, 4); uint32_t seed = SEEDS[pick("seed", 0, 6)]; auto t = std::make_shared<TensorFromXavier>(r, k, c, seed); auto u = std::make_shared<TensorFromXavier>(std::vector<size_t>{r, k, c}, seed); float bound = sqrtf(2.0f / (float) (r + k)) / 2; repeats(t, u, c, r, k, -bound, bound, bound * 1e-6f); sx_check(t->get_seed() == seed && t->get_min_value() == -t->get_max_value() && within(t->get_max_value(), bound, 1e-6f), "describes itself"); sx_check(varied(t, 2 * bound), "values differ"); }
SX_HARNESS(start_alike) { // the same description gives the same network, and its layers do not start with the same weights
    int shape = pick("shape", 0, 2), bias = pick("bias", 0, 1), bits = pick("bits", 0, 2); Cube x = shape == 1 ? cubeInts(1, 3, 3, "x", -9, 9) : cubeInts(1, 1, 2, "x", -9, 9); auto build = [&] { auto d = neuralNetworkBuilder(OptimizerType::adam, "net", sx_scratch()); if (shape == 1) { auto l = d->addInputLayer({3, 3, 1}, 2, 2, LayerType::convolution2dValid, ActivationType::linear); l->setUseBias(bias); l->setBits(8 << bits); l->addOutputLayer({1, 2, 1}, ActivationType::linear); return l->build(); } auto l = d->addInputLayer(2, 2, LayerType::full, ActivationType::linear); l->setUseBias(bias); l->setBits(8 << bits); if (shape == 2) { l = l->addLayer(2, LayerType::full, ActivationType::linear); l->setUseBias(bias); } l->addOutputLayer({1, 2, 1}, ActivationType::linear); return l->build(); }; auto a = build(), b = build(); T t = tens(x); sx_check(sameCube(a->predictOne(t), read(b->predictOne(t))), "the same prediction"); a->setSilentMode(true); a->saveWithOverwrite(); if (shape == 2) { std::map<std::string, int> seen; for (auto &e: std::filesystem::directory_iterator(sub("net/default"))) if (e.path().string().find("full") != std::string::npos) seen[slurp(e.path().string())]++; sx_check(seen.size() == 3, "each layer has its own start"); } }
