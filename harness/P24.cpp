// P24: executing a task prints what its model predicts, in the units and labels it was trained with
#include "ml/happyml_dsl.hpp"
#include "lang/interpreter.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef std::shared_ptr<BinaryColumnMetadata> Meta; typedef std::vector<HappyMLVariant> Vars; typedef std::unordered_map<std::string, Vars> Inputs;
static std::string N(const char *s, int i) { return s + std::to_string(i); }
static Meta meta(char purpose, const std::string &name, size_t k, size_t r = 1, size_t c = 1) { auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = purpose; m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->source_column_count = k; m->channels = c; m->rows = r; m->columns = k; m->name = name; return m; }
static Meta label(const std::string &name, const Strs &l) { auto m = meta('L', name, l.size()); m->ordered_labels = l; return m; }
static Meta scaled(const std::string &name, int how, float a, float b, size_t k = 1) { auto m = meta('N', name, k); if (how & 1) { m->is_normalized = true; m->min_value = a; m->max_value = b; } if (how & 2) { m->is_standardized = true; m->mean = b; m->standard_deviation = 0.5f; } return m; }
static const std::string TASKS = "../happyml_repo/tasks/", DATA = "../happyml_repo/datasets/";
// a task as create task leaves it: a model whose columns have the given weights (one row of weights per given value), and the description of its columns
static void task(const std::string &name, const std::vector<Meta> &g, const std::vector<Meta> &e, const std::vector<std::vector<Cube>> &w) {
    auto d = neuralNetworkBuilder(OptimizerType::sgd, name, TASKS); std::vector<std::vector<size_t>> in; for (auto &m: g) in.push_back({m->rows, m->columns, m->channels}); std::shared_ptr<HappymlDSL::NNVertex> l; std::vector<std::shared_ptr<HappymlDSL::NNVertex>> o; if (in.size() > 1) l = d->add_concatenated_input_layer(in); else l = d->addInputLayer(in[0], in[0], LayerType::flatten, ActivationType::linear); for (auto &m: e) o.push_back(l->addOutput(m->columns, ActivationType::linear)); auto n = l->build(); n->saveWithOverwrite(); auto f = std::vector<std::string>(); for (auto &x: std::filesystem::directory_iterator(TASKS + name + "/default")) f.push_back(x.path().filename().string()); std::sort(f.begin(), f.end()); sx_check(f.size() == e.size(), "one set of weights per result"); for (size_t i = 0; i < f.size() && i < w.size(); i++) FullTensor(w[i][0]).save(TASKS + name + "/default/" + f[i]); BinaryDatasetWriter t(TASKS + name + "/dataset.bin", g, e); t.close(); }
struct Run { bool ok, threw; std::string out, message; };
static Run execute(const std::string &name, const std::string &data, const Inputs &in) { Run r{}; sx_cap_begin(std::cout); try { ExecuteTaskStatement s(name, "", data, in); auto x = s.execute(std::make_shared<ExecutionContext>()); r.ok = x->isSuccessful(); r.message = x->getMessage(); r.threw = x->exitRequested(); } catch (const std::exception &e) { r.threw = true; } r.out = sx_cap_end(std::cout); return r; }
static Run script(const std::string &t) { Run r{}; sx_cap_begin(std::cout); sx_cap_begin(std::cerr); try { InterpreterSession s(initializeHappymlParser()); r.threw = s.interpretCommands(t); } catch (const std::exception &) { r.threw = true; } r.message = sx_cap_end(std::cerr); r.out = sx_cap_end(std::cout); r.ok = r.message.empty(); return r; }
static bool has(const std::string &t, const std::string &p) { return t.find(p) != std::string::npos; }
// the cells of what was printed, a line each, without the blanks around them
static std::vector<Strs> cells(const std::string &t) { std::vector<Strs> r; std::stringstream s(t); std::string l; while (std::getline(s, l)) { Strs c; std::string x; for (char q: l + "|") if (q == '|') { while (!x.empty() && x.back() == ' ') x.pop_back(); c.push_back(x); x.clear(); } else if (q != ' ' || !x.empty()) x += q; r.push_back(c); } return r; }
static Cube weights(const std::vector<std::vector<float>> &w) { Cube c(1); c[0] = w; return c; }
static std::string shown(float v) { std::stringstream b; b << std::fixed << std::setprecision(3) << v; return b.str(); }

SX_HARNESS(decides) { // the label printed is the one the model scores highest, for every input
    int s = pick("scale", 0, 3); auto a = scaled("Alpha", s, -4, 4), b = scaled("beta", 0, 0, 0); static const Strs L{"no", "yes", "may be"}; 
    static const int W[2][2][3] = {{{1, -1, 0}, {0, 1, -1}}, {{2, 1, -3}, {-1, 1, 2}}}; int which = pick("weights", 0, 1); std::vector<std::vector<float>> m(2, std::vector<float>(3)); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m[i][j] = (float) W[which][i][j];
    task("t", {a, b}, {label("verdict", L)}, {{weights(m)}}); float x = symi("x", -20, 20), y = symi("y", -20, 20); Run r = execute("t", "", {{"alpha", {HappyMLVariant(x)}}, {"beta", {HappyMLVariant(y)}}}); sx_check(r.ok && !r.threw, "executed"); auto c = cells(r.out); sx_check(c.size() == 3 && c[1] == Strs{"verdict"} && c[2].size() == 1, "one result under its name"); if (c.size() != 3) return;
    // exact scores, eight times as large
    float sx = x; if (s & 2) sx = (sx - 4) * 2; sx = s & 1 ? sx + 4 : sx * 8; size_t at = 0; while (at < 3 && L[at] != c[2][0]) at++; sx_check(at < 3, "one of the labels"); if (at == 3) return; int best = 1; for (int j = 0; j < 3; j++) best &= sx * m[0][at] + y * 8 * m[1][at] >= sx * m[0][j] + y * 8 * m[1][j]; sx_check(best, "a best label"); }
// units: a value as a column stores it
static float stored(const Meta &m, float v) { if (m->is_standardized) v = (v - m->mean) / m->standard_deviation; if (m->is_normalized) v = (v - m->min_value) / (m->max_value - m->min_value); return v; }
static float unstored(const Meta &m, float v) { if (m->is_normalized) v = v * (m->max_value - m->min_value) + m->min_value; if (m->is_standardized) v = v * m->standard_deviation + m->mean; return v; }
SX_HARNESS(from_dataset) { // a prediction for every record of a dataset, whatever scale and order of labels that dataset uses
    static const float V[] = {-2, 0.5f, 3}; int s = pick("task scale", 0, 3), d = pick("dataset scale", 0, 3), o = sx_tier() ? pick("result scale", 0, 3) : (s + d) % 4, swap = pick("labels in another order", 0, 2), n = pick("records", 0, 2); Strs kinds{"red", "blue", "green"}, other = kinds; if (swap == 1) other = {"green", "red", "blue"}; if (swap == 2) other = {"blue", "red"}; auto a = scaled("Size", s, -4, 4), b = label("kind", kinds), e = scaled("price", o, -1, 3), a2 = scaled("Size", d, -2, 14), b2 = label("kind", other), e2 = scaled("price", (d + 1) % 4, 0, 8);
    task("t", {a, b}, {e}, {{weights({{2}, {1}, {-3}, {5}})}}); std::filesystem::create_directories(DATA + "d"); std::multiset<std::string> want; { BinaryDatasetWriter w(DATA + "d/dataset.bin", {a2, b2}, {e2}, 0); for (int i = 0; i < n; i++) { static int vi, k; if (i == 0 || sx_tier()) { vi = pick(N("v", i), 0, 2); k = pick(N("k", i), 0, (int) other.size() - 1); } else { vi = (vi + 1) % 3; k = (k + 1) % (int) other.size(); } float v = V[vi]; std::vector<float> hot(other.size()); hot[k] = 1; w.writeRow({rowv({stored(a2, v)}), rowv(hot)}, {rowv({stored(e2, 1)})}); float q = 2 * stored(a, v); q += other[k] == "red" ? 1 : other[k] == "blue" ? -3 : 5; want.insert(shown(unstored(e, q)) + "/" + shown(v) + "/" + other[k]); } w.close(); }
    std::string before = slurp(DATA + "d/dataset.bin"); Run r = execute("t", "d", {}); sx_check(r.ok && !r.threw, "executed"); auto c = cells(r.out); std::multiset<std::string> got; if (n > 0) sx_check(c.size() > 1 && c[1] == Strs{"price", "Size", "kind"}, "results and inputs under their names"); for (size_t i = 2; i < c.size(); i++) { if (c[i].size() == 3) got.insert(c[i][0] + "/" + c[i][1] + "/" + c[i][2]); else sx_check(0, "three columns"); } sx_check(got == want, "every record once, with its prediction in the units of the task"); sx_check(slurp(DATA + "d/dataset.bin") == before, "the dataset stays as it is"); }
SX_HARNESS(several_results) { // each result comes from its own part of the model, in the order of the columns
    auto a = meta('N', "a", 2), e = label("first", {"x", "y"}), f = meta('N', "Second", 2), g = scaled("third", 1, -4, 4); task("t", {a}, {e, f, g}, {{weights({{1, 2}, {3, -1}})}, {weights({{1, 0}, {0, 2}})}, {weights({{0.5f}, {1}})}}); int u = pick("u", -3, 3), v = pick("v", -3, 3), how = pick("from a dataset", 0, 1); Run r; if (how) { std::filesystem::create_directories(DATA + "d"); BinaryDatasetWriter w(DATA + "d/dataset.bin", {a}, {e, f, g}, 0); w.writeRow({rowv({(float) u, (float) v})}, {rowv({1, 0}), rowv({0, 0}), rowv({0})}); w.close(); r = execute("t", "d", {}); } else r = execute("t", "", {{"a", {HappyMLVariant((float) u), HappyMLVariant((float) v)}}}); sx_check(r.ok, "executed"); auto c = cells(r.out); size_t k = how ? 4 : 3; sx_check(c.size() == 3 && c[1].size() == k && c[2].size() == k && c[1][0] == "first" && c[1][1] == "Second" && c[1][2] == "third", "under their names"); if (c.size() != 3 || c[2].size() != k) return; if (u + 3 * v != 2 * u - v) sx_check(c[2][0] == (u + 3 * v > 2 * u - v ? "x" : "y"), "the label"); std::string both = c[2][1], x = shown((float) u), y = shown((float) v * 2); sx_check(has(both, x) && both.find(y, both.find(x) + x.size()) != std::string::npos, "both numbers in order"); sx_check(c[2][2] == shown(((float) u * 0.5f + (float) v) * 8 - 4), "the scaled number"); }
SX_HARNESS(asked_in_a_script) { // names in any case and order; what is missing, unknown or unfit is said
    auto a = meta('N', "Size", 2), b = label("Kind Of", {"red", "big blue"}), e = label("verdict", {"no", "yes"}); task("t", {a, b}, {e}, {{weights({{0, 1}, {0, 1}, {2, 0}, {0, 1}})}}); int named = pick("size", 0, 5), kind = pick("kind", 0, 4), order = pick("order", 0, 1), more = pick("more", 0, 1); static const char *A[] = {"size: [1, 3]", "\"SIZE\": [1 3]", "Size: 1", "Size: [1, 2, 3]", "", "size: [\"1\", '3']"}, *B[] = {"\"kind of\": red", "'KIND OF': \"big blue\"", "\"Kind Of\": [\"red\"]", "\"kind of\": pink", ""}; std::string x = A[named], y = B[kind], in; auto add = [&](const std::string &p) { if (p.empty()) return; if (!in.empty()) in += ", "; in += p; }; if (order) add(y); add(x); if (more) add("colour: 7"); if (!order) add(y); if (in.empty()) return;
    Run r = script("execute task t using input (" + in + ")"); bool ok = (named < 2 || named == 5) && kind < 3; sx_check(!r.threw, "the session goes on"); sx_check(r.ok == ok, "done, or the failure is reported"); auto c = cells(r.out); if (ok) { sx_check(c.size() == 3 && c[1] == Strs{"verdict"} && c[2] == Strs{"yes"}, "the prediction"); } else { sx_check(!has(r.out, "verdict") && has(r.message, "t"), "nothing is predicted"); if (named == 4) sx_check(has(r.out, "Size"), "the missing field is named"); if (kind == 4) sx_check(has(r.out, "Kind Of"), "the missing field is named"); if (named == 4 || kind == 4) sx_check(((named > 1 && named < 5) || !has(r.out, "Size")) && (kind > 2 || !has(r.out, "Kind Of")), "and no other"); if (more && (named == 4 || kind == 4)) sx_check(has(r.out, "colour"), "the unknown field is named"); if (named < 2 && kind == 3) sx_check(has(r.out, "pink"), "the unknown label is named"); } Run q = script("execute task t using input (size: [1, 3], \"kind of\": red)"); sx_check(q.ok && has(q.out, "yes"), "and the next statement works"); }
SX_HARNESS(cannot) { // what cannot be executed is reported, and changes nothing
    auto a = scaled("size", 0, 0, 0), b = label("kind", {"red", "blue"}), e = label("verdict", {"no", "yes"}); task("t", {a, b}, {e}, {{weights({{0, 1}, {2, 0}, {0, 1}})}}); int what = pick("problem", 0, 11); Inputs in; std::string t = "t", data = "d"; auto make = [&](const std::vector<Meta> &g, const std::vector<Meta> &x) { std::filesystem::create_directories(DATA + "d"); BinaryDatasetWriter w(DATA + "d/dataset.bin", g, x, 0); std::vector<T> gt, xt; for (auto &m: g) { std::vector<float> v(m->columns); v[0] = 1; gt.push_back(rowv(v)); } for (auto &m: x) { std::vector<float> v(m->columns); v[0] = 1; xt.push_back(rowv(v)); } w.writeRow(gt, xt); w.close(); };
    bool ok = false; if (what == 0) { make({a, b}, {e}); ok = true; } if (what == 1) { make({a, b}, {e}); t = "u"; } if (what == 2) data = "nowhere"; if (what == 3) data = ""; if (what == 4) make({a}, {e}); if (what == 5) make({a, b, a}, {e}); if (what == 6) make({a, b}, {e, a}); if (what == 7) make({a, label("kind", {"green", "red"})}, {e}); if (what == 8) { make({a, b}, {e}); std::filesystem::remove(TASKS + "t/model.config"); } if (what == 9) { make({a, b}, {e}); std::filesystem::remove(TASKS + "t/dataset.bin"); } if (what == 10) { make({a, b}, {e}); std::filesystem::remove_all(TASKS + "t/default"); } if (what == 11) make({meta('N', "size", 2), b}, {e});
    bool inputs = what != 4 && what != 5 && what != 6 && what != 7 && what != 11 && what != 2 && what != 3 && pick("inputs", 0, 1); if (inputs) { data = ""; in = {{"size", {HappyMLVariant(1.f)}}, {"kind", {HappyMLVariant(std::string("red"))}}}; } sx_cap_begin(std::cerr); Run r = execute(t, data, in); sx_cap_end(std::cerr); sx_check(!r.threw, "the session goes on"); sx_check(r.ok == ok, "reported"); if (!ok) sx_check(!r.message.empty() && !has(r.out, "yes"), "nothing is predicted"); sx_check(!std::filesystem::exists(TASKS + "u") && !std::filesystem::exists(DATA + "nowhere"), "nothing is created"); }
