// P05: serving datasets: splits, shuffling, column selection, dataset creation
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "training_data/training_dataset.hpp"
#include "util/dataset_utils.hpp"
#include "lang/statements/create_dataset_statement.hpp"
#include "kit.hpp"
typedef std::shared_ptr<ColumnGroup> Group;
static std::shared_ptr<BinaryColumnMetadata> num() { auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = 'N'; m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->source_column_count = m->rows = m->columns = m->channels = 1; m->name = "c"; return m; }
static std::string file(size_t n) { std::string p = sub("d" + std::to_string(n) + ".bin"); BinaryDatasetWriter w(p, {num()}, {num()}, 0); for (size_t i = 0; i < n; i++) w.writeRow({rowv({(float) i})}, {rowv({(float) i + 100})}); w.close(); return p; }
// ids served by a full pass; -1 appended when given and expected do not belong together
static std::vector<int> drain(TrainingDataSet &d) { std::vector<int> r; while (auto p = d.nextRecord()) { float g = p->getGiven()[0]->getValue(0, 0, 0), e = p->getExpected()[0]->getValue(0, 0, 0); r.push_back((int) g); if (e != g + 100) r.push_back(-1); if (r.size() > 100) break; } return r; }
static bool permutationOf(std::vector<int> v, size_t n) { std::sort(v.begin(), v.end()); if (v.size() != n) return false; for (size_t i = 0; i < n; i++) if (v[i] != (int) i) return false; return true; }

SX_HARNESS(shuffler) { size_t n = pick("n", 0, 9); Shuffler s(n); int k = pick("shuffles", 0, 3); if (k == 1) s.shuffle(); if (k == 2) s.shuffle_predictably(); if (k == 3) { s.shuffle_predictably(); s.shuffle(); } sx_check(s.getSize() == n, "size"); std::vector<int> v; for (size_t i = 0; i < n; i++) { v.push_back((int) s.getShuffledIndex(i)); if (k == 0) sx_check(v[i] == (int) i, "unshuffled order"); } sx_check(permutationOf(v, n), "a permutation"); Shuffler a(n), b(n); a.shuffle_predictably(); b.shuffle_predictably(); for (size_t i = 0; i < n; i++) sx_check(a.getShuffledIndex(i) == b.getShuffledIndex(i), "the predictable shuffle is always the same"); }
SX_HARNESS(passes) { // every pass serves every record exactly once, whatever the shuffling, restarts included
    size_t n = pick("n", 0, 6); std::string p = file(n); int mem = pick("in memory", 0, 1), sh = pick("shuffle", 0, 2); std::shared_ptr<TrainingDataSet> d;
    if (mem) { auto m = std::make_shared<InMemoryTrainingDataSet>(); for (size_t i = 0; i < n; i++) m->addTrainingData(rowv({(float) i}), rowv({(float) i + 100})); d = m; } else d = std::make_shared<BinaryDataSet>(p);
    auto s = std::make_shared<Shuffler>(n); if (sh) d->setShuffler(s); sx_check(d->recordCount() == n, "record count");
    std::vector<int> first; for (int pass = 0; pass < 3; pass++) { if (sh == 1) s->shuffle_predictably(); if (sh == 2) s->shuffle(); d->restart(); if (pass == 1 && n) { d->nextRecord(); d->restart(); } auto v = drain(*d); sx_check(permutationOf(v, n), "every record exactly once per pass"); if (pass == 0) first = v; else if (sh == 0) sx_check(v == first, "an unshuffled dataset repeats its order"); sx_check(d->nextRecord() == nullptr, "nothing after the end"); }
    if (mem && !sh) for (size_t i = 0; i < first.size(); i++) sx_check(first[i] == (int) i, "in insertion order"); sx_check(throws([&] { d->setShuffler(std::make_shared<Shuffler>(n + 1)); }), "a shuffler of another size is refused");
    if (mem && sh) sx_check(throws([&] { std::static_pointer_cast<InMemoryTrainingDataSet>(d)->addTrainingData(rowv({1}), rowv({2})); }), "no additions once shuffled"); if (n) { auto g = d->getGivenShapes(), e = d->getExpectedShapes(); sx_check(g.size() == 1 && e.size() == 1 && g[0] == std::vector<size_t>({1, 1, 1}) && e[0] == std::vector<size_t>({1, 1, 1}), "shapes"); }
}
SX_HARNESS(shared_shuffler) { // two datasets sharing a shuffler stay aligned
    size_t n = pick("n", 1, 5); auto s = std::make_shared<Shuffler>(n); InMemoryTrainingDataSet a, b; for (size_t i = 0; i < n; i++) { a.addTrainingData(rowv({(float) i}), rowv({(float) i + 100})); b.addTrainingData(std::vector<T>{rowv({(float) i})}, std::vector<T>{rowv({(float) i + 100})}); } a.setShuffler(s); b.setShuffler(s);
    for (int k = 0; k < 3; k++) { s->shuffle(); a.restart(); b.restart(); auto x = drain(a), y = drain(b); sx_check(x == y && permutationOf(x, n), "aligned"); } }
SX_HARNESS(split_partition) { // the two sides of a split cover every record exactly once
    static const float S[] = {0.5f, 0.6f, 0.7f, 0.75f, 0.8f, 0.9f, 0.95f, 1.0f}; float s = S[pick("split", 0, 7)]; size_t n = pick("n", 0, 12); std::string p = file(n); BinaryDataSet l(p, s), r(p, std::vector<std::shared_ptr<BinaryColumnMetadata>>{num()}, std::vector<std::shared_ptr<BinaryColumnMetadata>>{num()}, -(1.0f - s));
    auto a = drain(l), b = drain(r); sx_check(a.size() == l.recordCount() && b.size() == r.recordCount(), "each side serves its record count"); sx_check(a.size() <= (size_t) ((float) n * s + 0.001f) && a.size() + 1 >= (size_t) ((float) n * s), "left side has its share");
    a.insert(a.end(), b.begin(), b.end()); sx_check(permutationOf(a, n), "both sides together cover every record once"); if (n >= 10 && s < 0.95f) { std::vector<int> h(a.begin(), a.begin() + l.recordCount()); sx_check(!permutationOf(h, h.size()), "the left side is not just the head of the file"); } }
SX_HARNESS(split_counts) { // for every split fraction
    size_t n = pick("n", 1, 7 + 8 * sx_tier()); std::string p = file(n); float s = symf("s"); sx_assume((s >= 0.5f) & (s < 1.0f)); BinaryDataSet l(p, s), r(p, -(1.0f - s)); sx_check(l.recordCount() + r.recordCount() == n, "record counts add up"); sx_check(l.recordCount() <= n, "no side exceeds the file"); }
SX_HARNESS(overlap) { // column groups overlap exactly when two of them claim the same column
    size_t n = pick("groups", 1, 3); std::vector<Group> g; long st[3], ct[3]; for (size_t i = 0; i < n; i++) { st[i] = sx_int(("start" + std::to_string(i)).c_str(), 0, 6); ct[i] = sx_int(("count" + std::to_string(i)).c_str(), 1, 3); g.push_back(std::make_shared<ColumnGroup>(i, st[i], ct[i], "given", "number", "g" + std::to_string(i), 1, ct[i], 1)); }
    int want = 0; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) want |= (st[i] < st[j] + ct[j]) & (st[j] < st[i] + ct[i]);
    int got = sort_and_check_overlaps(g); sx_check(got == want, "overlap is reported exactly when there is one"); for (size_t i = 1; i < n; i++) sx_check(g[i - 1]->start_index_ <= g[i]->start_index_, "groups end up in column order"); }
SX_HARNESS(select_columns) { // selected columns are moved in the order asked for, nothing else changes
    int header = pick("header", 0, 1); size_t w = pick("columns", 2, 4), rows = pick("rows", 0, 2), ng = pick("given groups", 1, 2); std::vector<Group> g, e; std::vector<size_t> idx; size_t need = 0;
    for (size_t i = 0; i <= ng; i++) { size_t s = pick("start" + std::to_string(i), 0, 2), c = i == 0 ? pick("count", 1, 2) : 1; (i < ng ? g : e).push_back(std::make_shared<ColumnGroup>(i, s, c, i < ng ? "given" : "expected", "number", "l", 1, c, 1)); for (size_t k = 0; k < c; k++) idx.push_back(s + k); need = std::max(need, s + c); }
    { DelimitedTextFileWriter o(sub("o.csv"), ','); for (size_t r = 0; r < rows + header; r++) { std::vector<std::string> v; for (size_t c = 0; c < w; c++) v.push_back("r" + std::to_string(r) + "," + std::to_string(c)); o.writeRecord(v); } }
    bool ok = false, refused = throws([&] { ok = update_column_positions(sub("o.csv"), sub("n.csv"), g, e, header); }); sx_check(refused == (rows > 0 && need > w), "a record too short for the selection is refused"); if (refused) return; sx_check(ok == (rows > 0), "an empty file is reported");
    DelimitedTextFileReader r(sub("n.csv"), ','); for (size_t i = 0; i < rows; i++) { auto v = r.nextRecord(); bool same = v.size() == idx.size(); for (size_t k = 0; same && k < idx.size(); k++) same = v[k] == "r" + std::to_string(i + header) + "," + std::to_string(idx[k]); sx_check(same, "selected values in order"); } sx_check(!r.hasNext(), "no more records"); }
static const char *NUM[] = {"1", "2.5", "-3", "100", "1.0"}; static const float NUMV[] = {1, 2.5f, -3, 100, 1};
SX_HARNESS(create) { // creating a dataset from a file: one row per distinct input, values recoverable, labels one-hot
    sx_real_hash(); int tsv = pick("tab separated", 0, 1), header = pick("header", 0, 1), order = pick("expected first", 0, 1); size_t n = pick("rows", 1, 2 + sx_tier()); std::vector<std::pair<int, int>> rows; std::string t, d = tsv ? "\t" : ",", want; if (header) t += "h1" + d + "h2" + d + "h3\n";
    for (size_t i = 0; i < n; i++) { int a = pick("number" + std::to_string(i), 0, 4), b = pick("label" + std::to_string(i), 0, 1); rows.push_back({a, b}); std::string x = NUM[a], y = b ? "yes, it is" : "no"; if (!tsv) y = "\"" + y + "\""; t += order ? y + d + "junk" + d + x + "\n" : x + d + "junk" + d + y + "\n"; }
    spew(sub(tsv ? "in.tsv" : "in.csv"), t); std::vector<Group> g{std::make_shared<ColumnGroup>(1, order ? 2 : 0, 1, "given", "number", "amount", 1, 1, 1), std::make_shared<ColumnGroup>(2, order ? 0 : 2, 1, "expected", "label", "verdict", 1, 1, 1)};
    auto ctx = std::make_shared<ExecutionContext>(); CreateDatasetStatement st("made", "file://" + sub(tsv ? "in.tsv" : "in.csv"), header, g, false); auto res = st.execute(ctx); sx_check(res->isSuccessful(), "created"); sx_check(ExecutionContext::dataset_exists("made"), "exists afterwards"); if (!res->isSuccessful()) return;
    BinaryDatasetReader r(ExecutionContext::get_dataset_path("made") + "/dataset.bin"); auto gm = r.get_given_metadata(0), em = r.get_expected_metadata(0); sx_check(gm->name == "amount" && em->name == "verdict" && gm->purpose == 'N' && em->purpose == 'L' && gm->source_column_count == 1 && em->source_column_count == 1, "column descriptions");
    std::set<std::string> labels, seen; for (auto &x: rows) labels.insert(x.second ? "yes, it is" : "no"); for (auto &l: em->ordered_labels) seen.insert(l); sx_check(labels == seen && em->ordered_labels.size() == labels.size() && em->columns == labels.size(), "labels are the distinct ones");
    std::set<float> inputs, got; for (auto &x: rows) inputs.insert(NUMV[x.first]); sx_check(r.rowCount() == inputs.size(), "one row per distinct input");
    for (size_t i = 0; i < r.rowCount(); i++) { auto p = r.readRow(i); float raw = p.first[0]->getValue(0, 0, 0); sx_check(raw >= -0.0001f && raw <= 1.0001f, "numbers are scaled into 0..1"); float v = unstandardize_and_denormalize(p.first[0], gm)->getValue(0, 0, 0); float best = 1e9f; for (float x: inputs) if (within(v, x, 0.001f)) best = x; sx_check(best != 1e9f, "value recoverable"); got.insert(best); int ones = 0, at = -1; for (size_t k = 0; k < em->columns; k++) { float z = p.second[0]->getValue(0, k, 0); if (z == 1.f) { ones++; at = (int) k; } else sx_check(z == 0.f, "zero elsewhere"); } sx_check(ones == 1, "exactly one label"); bool belongs = false; for (auto &x: rows) if (NUMV[x.first] == best && at >= 0 && em->ordered_labels[at] == (x.second ? "yes, it is" : "no")) belongs = true; sx_check(belongs, "label belongs to the input"); }
    sx_check(got == inputs, "every input is present"); CreateDatasetStatement again("made", "file://" + sub("missing.csv"), header, g, false); sx_check(r.rowCount() == inputs.size() && again.execute(ctx) != nullptr && ExecutionContext::dataset_exists("made"), "an existing dataset is left alone");
}
SX_HARNESS(create_refused) { int k = pick("problem", 0, 6); auto ctx = std::make_shared<ExecutionContext>(); spew(sub("in.csv"), k == 4 ? "" : k == 6 ? "1,2\n5\n" : "1,2\n3,4\n"); std::vector<Group> g{std::make_shared<ColumnGroup>(1, 0, 1, k == 0 ? "maybe" : "given", k == 1 ? "colour" : "number", "a", 1, 1, 1), std::make_shared<ColumnGroup>(2, k == 2 ? 0 : 1, 1, "expected", "number", "b", 1, 1, 1)};
    CreateDatasetStatement st("bad", k == 3 ? "http://x/in.csv" : "file://" + sub(k == 5 ? "missing.csv" : "in.csv"), false, g, false); bool ok = true; try { ok = st.execute(ctx)->isSuccessful(); } catch (const std::exception &e) { ok = false; } sx_check(!ok, "refused"); sx_check(!ExecutionContext::dataset_exists("bad"), "no dataset is left behind"); }
SX_HARNESS(larger) { // many records
    int kind = pick("kind", 0, 4); static const size_t NS[] = {31, 64, 257}; size_t n = NS[pick("records", 0, 2)]; auto drainAll = [](TrainingDataSet &d) { std::vector<int> r; while (auto p = d.nextRecord()) { float g = p->getGiven()[0]->getValue(0, 0, 0), e = p->getExpected()[0]->getValue(0, 0, 0); r.push_back(e == g + 100 ? (int) g : -1); if (r.size() > 999) break; } return r; };
    if (kind == 0) { Shuffler s(n); int k = pick("shuffles", 1, 3); for (int i = 0; i < k; i++) if (i % 2) s.shuffle_predictably(); else s.shuffle(); std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int) s.getShuffledIndex(i)); sx_check(permutationOf(v, n), "a permutation"); return; }
    if (kind == 1) { static const float S[] = {0.5f, 0.6f, 0.7f, 0.75f, 0.8f, 0.9f, 0.95f, 1.0f}; float s = S[pick("split", 0, 7)]; std::string p = file(n); BinaryDataSet l(p, s), r(p, -(1.0f - s)); int sh = pick("shuffle", 0, 1); if (sh) { auto q = std::make_shared<Shuffler>(l.recordCount()); q->shuffle(); l.setShuffler(q); l.restart(); } auto a = drainAll(l), b = drainAll(r); sx_check(a.size() == l.recordCount() && b.size() == r.recordCount(), "each side serves its record count"); sx_check(a.size() <= (size_t) ((float) n * s + 0.001f) && a.size() + 1 >= (size_t) ((float) n * s), "left side has its share"); l.restart(); auto again = drainAll(l); sx_check(sh || again == a, "the same again"); a.insert(a.end(), b.begin(), b.end()); sx_check(permutationOf(a, n), "both sides together cover every record once"); return; }
    if (kind == 2) { std::string p = file(n); bool mem = pick("in memory", 0, 1); size_t at = pick("where", 0, 1) * (n - 1); float any = symf("v"); auto make = [&](bool other) -> std::shared_ptr<TrainingDataSet> { if (!mem) return std::make_shared<BinaryDataSet>(p); auto m = std::make_shared<InMemoryTrainingDataSet>(); for (size_t i = 0; i < n; i++) m->addTrainingData(rowv({(float) i}), rowv({other && i == at ? any : (float) i + 100})); return m; }; auto d = make(false), m = make(true); auto s = std::make_shared<Shuffler>(n); d->setShuffler(s); m->setShuffler(s); for (int pass = 0; pass < 2; pass++) { s->shuffle(); d->restart(); m->restart(); std::vector<int> v; int ok = 1; while (auto x = d->nextRecord()) { auto y = m->nextRecord(); if (!y) { ok = 0; break; } float g = x->getGiven()[0]->getValue(0, 0, 0), e = y->getExpected()[0]->getValue(0, 0, 0); v.push_back((int) g); ok &= y->getGiven()[0]->getValue(0, 0, 0) == g; if (mem && (size_t) g == at) ok &= bitsOf(e) == bitsOf(any); else ok &= e == g + 100; } sx_check(ok && m->nextRecord() == nullptr, "two datasets sharing a shuffler stay aligned"); sx_check(permutationOf(v, n), "every record exactly once per pass"); } return; }
    if (kind == 3) { size_t w = 12; int header = pick("header", 0, 1); std::vector<Group> g, e; std::vector<size_t> idx; for (size_t i = 0; i < 5; i++) { size_t s = (i * 7 + 3) % 10, c = 1 + i % 3; (i < 4 ? g : e).push_back(std::make_shared<ColumnGroup>(i, s, c, i < 4 ? "given" : "expected", "number", "l", 1, c, 1)); for (size_t k = 0; k < c; k++) idx.push_back(s + k); } { DelimitedTextFileWriter o(sub("o.csv"), ','); for (size_t r = 0; r < n + header; r++) { std::vector<std::string> v; for (size_t c = 0; c < w; c++) v.push_back("r" + std::to_string(r) + (c % 3 ? "," : "\"") + std::to_string(c)); o.writeRecord(v); } } sx_check(update_column_positions(sub("o.csv"), sub("n.csv"), g, e, header), "selected"); DelimitedTextFileReader r(sub("n.csv"), ','); bool same = true; for (size_t i = 0; i < n && same; i++) { auto v = r.nextRecord(); same = v.size() == idx.size(); for (size_t k = 0; same && k < idx.size(); k++) same = v[k] == "r" + std::to_string(i + header) + (idx[k] % 3 ? "," : "\"") + std::to_string(idx[k]); } sx_check(same, "selected values in order"); sx_check(!r.hasNext(), "no more records"); return; }
    sx_real_hash(); n = 8 + n / 8; int header = pick("header", 0, 1), many = pick("labels", 1, 2) * 3; std::string t = header ? "a,b,c,d,e,f\n" : ""; static const char *L[] = {"red", "dark red", "green", "", "blue, light", "a \"x\" b"}; auto label = [&](size_t i) { return std::string(L[(i * 5 + 1) % many]); }; auto value = [&](size_t i, size_t c) { return (int) ((i * 13 + c * 5) % 97) - 40; }; for (size_t i = 0; i < n; i++) { std::string l = label(i), q; for (char c: l) { q += c; if (c == '"') q += c; } t += std::to_string(value(i, 0)) + ",\"" + q + "\"," + std::to_string(value(i, 1)) + "," + std::to_string(value(i, 2)) + ",junk," + std::to_string(value(i, 3)) + "\n"; } spew(sub("in.csv"), t);
    std::vector<Group> g{std::make_shared<ColumnGroup>(1, 2, 2, "given", "number", "pair", 1, 2, 1), std::make_shared<ColumnGroup>(2, 1, 1, "expected", "label", "kind", 1, 1, 1), std::make_shared<ColumnGroup>(3, 0, 1, "given", "number", "first", 1, 1, 1), std::make_shared<ColumnGroup>(4, 5, 1, "expected", "number", "last", 1, 1, 1)}; auto ctx = std::make_shared<ExecutionContext>(); CreateDatasetStatement st("made", "file://" + sub("in.csv"), header, g, false); auto res = st.execute(ctx); sx_check(res->isSuccessful(), "created"); if (!res->isSuccessful()) return; BinaryDatasetReader r(ExecutionContext::get_dataset_path("made") + "/dataset.bin"); sx_check(r.rowCount() == n && r.get_given_column_count() == 2 && r.get_expected_column_count() == 2, "every record, every column"); std::set<size_t> found; auto at = [&](const std::string &name, bool expected) { for (size_t i = 0; i < 2; i++) if ((expected ? r.get_expected_name(i) : r.get_given_name(i)) == name) return i; sx_check(false, "columns by name"); return (size_t) 0; }; size_t gp = at("pair", false), gf = at("first", false), ek = at("kind", true), el = at("last", true); auto em = r.get_expected_metadata(ek); std::set<std::string> labels; for (int i = 0; i < many; i++) labels.insert(L[i]); sx_check(em->ordered_labels.size() == labels.size() && std::set<std::string>(em->ordered_labels.begin(), em->ordered_labels.end()) == labels, "labels are the distinct ones"); for (size_t i = 0; i < r.rowCount(); i++) { auto p = r.readRow(i); T a = unstandardize_and_denormalize(p.first[gp], r.get_given_metadata(gp)), b = unstandardize_and_denormalize(p.first[gf], r.get_given_metadata(gf)), d = unstandardize_and_denormalize(p.second[el], r.get_expected_metadata(el)); bool ok = false; for (size_t k = 0; k < n && !ok; k++) if (within(a->getValue(0, 0, 0), (float) value(k, 1), 0.01f) && within(a->getValue(0, 1, 0), (float) value(k, 2), 0.01f) && within(b->getValue(0, 0, 0), (float) value(k, 0), 0.01f) && within(d->getValue(0, 0, 0), (float) value(k, 3), 0.01f)) { ok = true; found.insert(k); float hot = 0; for (size_t c = 0; c < em->columns; c++) { float z = p.second[ek]->getValue(0, c, 0); hot += z; ok &= z == (em->ordered_labels[c] == label(k) ? 1.f : 0.f); } } sx_check(ok, "a record of the file, with its label"); } sx_check(found.size() == n, "each of them"); } // opts: time=200
