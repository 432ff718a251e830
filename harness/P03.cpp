// P03: binary dataset files
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "kit.hpp"
typedef std::shared_ptr<BinaryColumnMetadata> Meta;
static Meta plain(char purpose, size_t rows, size_t cols, size_t chans, const std::string &name = "c") {
    auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = purpose; m->is_standardized = false; m->mean = 0; m->standard_deviation = 0; m->is_normalized = false; m->min_value = 0; m->max_value = 0;
    m->source_column_count = 1; m->rows = rows; m->columns = cols; m->channels = chans; m->name = name; return m;
}
static Meta symMeta(const std::string &n, bool deep) {
    auto m = plain('N', 1, 1, 1);
    m->purpose = (char) sx_int((n + ".purpose").c_str(), 'I', 'T'); m->is_standardized = sx_int((n + ".std").c_str(), 0, 1); m->is_normalized = sx_int((n + ".norm").c_str(), 0, 1);
    m->mean = symf(n + ".mean"); m->standard_deviation = symf(n + ".sd"); m->min_value = symf(n + ".min"); m->max_value = symf(n + ".max"); m->source_column_count = sx_bits64((n + ".scc").c_str());
    if (deep) { size_t k = sx_fork(sx_int((n + ".labels").c_str(), 0, 2)); for (size_t i = 0; i < k; i++) m->ordered_labels.push_back(symStr(n + ".label" + std::to_string(i), 0, 2)); m->name = symStr(n + ".name", 0, 2); }
    return m;
}
static void same(const Meta &a, const Meta &b) {
    sx_check(a->purpose == b->purpose, "purpose survives"); sx_check((a->is_standardized == b->is_standardized) & (a->is_normalized == b->is_normalized), "flags survive");
    sx_check(bitsOf(a->mean) == bitsOf(b->mean), "mean survives"); sx_check(bitsOf(a->standard_deviation) == bitsOf(b->standard_deviation), "standard deviation survives");
    sx_check(bitsOf(a->min_value) == bitsOf(b->min_value), "minimum survives"); sx_check(bitsOf(a->max_value) == bitsOf(b->max_value), "maximum survives");
    sx_check(a->source_column_count == b->source_column_count, "source column count survives"); sx_check((a->rows == b->rows) & (a->columns == b->columns) & (a->channels == b->channels), "dimensions survive");
    sx_check(a->ordered_labels.size() == b->ordered_labels.size(), "label count survives");
    for (size_t i = 0; i < a->ordered_labels.size() && i < b->ordered_labels.size(); i++) sx_check(sameStr(a->ordered_labels[i], b->ordered_labels[i]), "labels survive in order");
    sx_check(sameStr(a->name, b->name), "name survives");
}

SX_HARNESS(metadata) {
    std::string path = std::string(sx_scratch()) + "/d.bin"; int deep = (int) sx_fork(sx_int("deep", 0, 2));
    std::vector<Meta> g{symMeta("g0", deep == 0), symMeta("g1", deep == 1)}, e{symMeta("e0", deep == 2)};
    g[1]->rows = 2; g[0]->columns = 3; e[0]->channels = 2; e[0]->purpose = g[0]->purpose; // other dimensions: see rows
    g[1]->name = deep == 1 ? g[1]->name : "two"; e[0]->name = deep == 2 ? e[0]->name : "three";
    { BinaryDatasetWriter w(path, g, e, 0); sx_check(w.is_open(), "open"); w.close(); }
    BinaryDatasetReader r(path);
    sx_check(r.get_given_column_count() == 2 && r.get_expected_column_count() == 1 && r.rowCount() == 0, "column and row counts");
    for (size_t i = 0; i < 2; i++) { same(g[i], r.get_given_metadata(i)); sx_check(r.getGivenTensorPurpose(i) == g[i]->purpose, "purpose by index"); auto d = r.getGivenTensorDims(i); sx_check((d[0] == g[i]->rows) & (d[1] == g[i]->columns) & (d[2] == g[i]->channels), "dims by index"); sx_check(sameStr(r.get_given_name(i), g[i]->name), "name by index"); }
    same(e[0], r.get_expected_metadata(0)); sx_check(r.getExpectedTensorPurpose(0) == e[0]->purpose, "purpose by index"); auto d = r.getExpectedTensorDims(0); sx_check((d[0] == 1) & (d[1] == 1) & (d[2] == 2), "dims by index"); sx_check(sameStr(r.get_expected_name(0), e[0]->name), "name by index");
    sx_check(r.is_standardized(0) == e[0]->is_standardized && r.is_normalized(0) == e[0]->is_normalized, "flags by index");
    sx_check(throws([&] { r.get_given_metadata(2); }) && throws([&] { r.get_expected_metadata(1); }) && throws([&] { r.readRow(0); }) && throws([&] { r.getGivenTensorDims(2); }) && throws([&] { r.getExpectedTensorDims(1); }) && throws([&] { r.get_given_name(2); }) && throws([&] { r.get_expected_name(1); }) && throws([&] { r.getExpectedTensorOrderedLabels(1); }) && throws([&] { r.getGivenTensorOrderedLabels(2); }), "indexes past the end are refused");
}
SX_HARNESS(rows) { // random access returns what was appended, whatever the column shapes
    std::string path = std::string(sx_scratch()) + "/d.bin"; size_t C = sx_fork(sx_int("channels", 1, 2)), R = sx_fork(sx_int("rows", 1, 2)), K = sx_fork(sx_int("cols", 1, 3)), NE = sx_fork(sx_int("expected columns", 0, 1 + (K == 1)));
    std::vector<Meta> g{plain('N', R, K, C, "a"), plain('T', 1, 2, 1, "b")}, e; if (NE > 0) e.push_back(plain('N', 1, 1, C)); if (NE > 1) e.push_back(plain('N', K, 1, 1));
    size_t n = sx_fork(sx_int("n", 1, 3));
    std::vector<std::vector<std::vector<std::vector<std::vector<float>>>>> all;
    { BinaryDatasetWriter w(path, g, e, 0);
      for (size_t i = 0; i < n; i++) { std::vector<std::vector<std::vector<std::vector<float>>>> row; std::vector<std::shared_ptr<BaseTensor>> gt, et; int id = 0;
          for (int side = 0; side < 2; side++) for (auto &m: side ? e : g) { std::vector<std::vector<std::vector<float>>> v(m->channels, std::vector<std::vector<float>>(m->rows, std::vector<float>(m->columns))); for (auto &x: v) for (auto &y: x) for (auto &z: y) z = symf("v" + std::to_string(i) + "_" + std::to_string(id++)); row.push_back(v); (side ? et : gt).push_back(std::make_shared<FullTensor>(v)); }
          sx_check(NE ? w.writeRow(gt, et) : w.writeRow(gt), "row accepted"); all.push_back(row); } }
    BinaryDatasetReader r(path); sx_check(r.rowCount() == n, "row count");
    for (int step = 0; step < 2; step++) { size_t i = sx_fork(sx_int(step ? "second" : "first", 0, n - 1)); auto p = r.readRow(i);
        sx_check(p.first.size() == 2 && p.second.size() == NE, "tensor counts");
        for (size_t c = 0; c < all[i].size(); c++) { auto t = c < 2 ? p.first[c] : p.second[c - 2]; auto &v = all[i][c]; sx_check(t->channelCount() == v.size() && t->rowCount() == v[0].size() && t->columnCount() == v[0][0].size(), "shape");
            int ok = 1; for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v[0].size(); b++) for (size_t d = 0; d < v[0][0].size(); d++) ok &= bitsOf(t->getValue(b, d, a)) == bitsOf(v[a][b][d]);
            sx_check(ok, "row contents exactly as written"); } }
    sx_check(throws([&] { r.readRow(n); }), "row past the end is refused"); auto p = r.readRow(0); sx_check(bitsOf(p.first[0]->getValue(0, 0, 0)) == bitsOf(all[0][0][0][0][0]), "usable after a refused row");
}
SX_HARNESS(purposes) { // images come back as 8-bit pixels, labels as 8-bit floats
    std::string path = std::string(sx_scratch()) + "/d.bin"; std::vector<Meta> g{plain('I', 1, 2, 1)}, e{plain('L', 1, 3, 1)};
    int k = (int) sx_int("pixel", 0, 255); uint32_t lab = (uint32_t) sx_int("label", 0, 1); float px = (float) k / 255.f, lv = sx_itef(lab, 1.f, 0.f);
    { BinaryDatasetWriter w(path, g, e, 0); for (int i = 0; i < 2; i++) w.writeRow({rowv({i ? px : 1.f, i ? 0.f : px})}, {rowv({i ? 1.f : 0.f, lv, i ? 0.f : 1.f})}); }
    BinaryDatasetReader r(path); sx_check(r.rowCount() == 2, "row count");
    for (int i = 0; i < 2; i++) { auto p = r.readRow(i); auto a = p.first[0], b = p.second[0];
        for (int j = 0; j < 2; j++) { float got = a->getValue(0, j, 0), want = (j == 0) == (i == 1) ? px : i ? 0.f : 1.f; sx_check((got <= want + 0.002f) & (got >= want - 0.002f), "pixel within half a step"); }
        sx_check((b->getValue(0, 0, 0) == (i ? 1.f : 0.f)) & (b->getValue(0, 1, 0) == lv) & (b->getValue(0, 2, 0) == (i ? 0.f : 1.f)), "one-hot label exact"); }
}
SX_HARNESS(truncated) { // a file cut anywhere inside its rows (a crash while writing) serves exactly the complete rows
    std::string path = std::string(sx_scratch()) + "/d.bin"; std::vector<Meta> g{plain('N', 1, 2, 1)}, e{plain('N', 1, 1, 1)}; float v[3][3];
    { BinaryDatasetWriter w(path, g, e, 0); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) v[i][j] = symf("v" + std::to_string(3 * i + j)); w.writeRow({rowv({v[i][0], v[i][1]})}, {rowv({v[i][2]})}); } }
    std::string all; { std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); all = s.str(); }
    size_t cut = sx_fork(sx_int("lost bytes", 0, 36)); { std::ofstream f(path, std::ios::binary); f.write(all.data(), all.size() - cut); }
    BinaryDatasetReader r(path); size_t n = (36 - cut) / 12; sx_check(r.rowCount() == n, "complete rows are counted");
    for (size_t i = 0; i < n; i++) { auto p = r.readRow(i); sx_check((bitsOf(p.first[0]->getValue(0, 0, 0)) == bitsOf(v[i][0])) & (bitsOf(p.first[0]->getValue(0, 1, 0)) == bitsOf(v[i][1])) & (bitsOf(p.second[0]->getValue(0, 0, 0)) == bitsOf(v[i][2])), "complete rows are intact"); }
    sx_check(throws([&] { r.readRow(n); }), "the incomplete row is refused");
}
SX_HARNESS(duplicates) { // a row is skipped exactly when its inputs equal those of an earlier row still remembered
    sx_real_hash(); std::string path = std::string(sx_scratch()) + "/d.bin"; std::vector<Meta> g{plain('N', 1, 2, 1), plain('N', 1, 1, 1), plain('N', 1, 1, 1)}, e{plain('N', 1, 1, 1)}; size_t cap = sx_fork(sx_int("remembered rows", 0, 3));
    const float set[5][4] = {{1, 2, 3, 4}, {2, 1, 3, 4}, {1, 2, 4, 3}, {1, 2, 3.000001f, 4}, {0.5f, 2, -3, 4}}; std::vector<int> expectRows, window; size_t n = 4 + sx_tier();
    { BinaryDatasetWriter w(path, g, e, cap);
      for (size_t i = 0; i < n; i++) { int k = (int) sx_fork(sx_int(("row" + std::to_string(i)).c_str(), 0, i == 0 ? 0 : i == 1 ? 2 : 4)); bool dup = std::find(window.begin(), window.end(), k) != window.end();
          bool wrote = w.writeRow({rowv({set[k][0], set[k][1]}), rowv({set[k][2]}), rowv({set[k][3]})}, {rowv({(float) i})});
          sx_check(wrote == !dup, "skipped exactly when a remembered row has the same inputs");
          if (!dup) { expectRows.push_back((int) i * 10 + k); if (cap) { window.push_back(k); if (window.size() > cap) window.erase(window.begin()); } } } }
    BinaryDatasetReader r(path); sx_check(r.rowCount() == expectRows.size(), "every accepted row is in the file");
    for (size_t i = 0; i < expectRows.size() && i < r.rowCount(); i++) { auto p = r.readRow(i); int k = expectRows[i] % 10; sx_check(p.first[0]->getValue(0, 0, 0) == set[k][0] && p.first[0]->getValue(0, 1, 0) == set[k][1] && p.first[1]->getValue(0, 0, 0) == set[k][2] && p.first[2]->getValue(0, 0, 0) == set[k][3] && p.second[0]->getValue(0, 0, 0) == (float) (expectRows[i] / 10), "accepted rows in order"); }
}
SX_HARNESS(renormalise) { // every column is rescaled from its own stored scale to its own requested scale
    std::string path = std::string(sx_scratch()) + "/d.bin"; std::vector<Meta> g, e, ng, ne; int from = (int) sx_fork(sx_int("stored scale", 0, 3)), to = (int) sx_fork(sx_int("requested scale", 0, 3));
    for (int i = 0; i < 2; i++) for (int side = 0; side < 2; side++) { auto m = plain('N', 1, 1, 1), q = plain('N', 1, 1, 1); int id = i * 2 + side;
        m->is_normalized = from & 1; m->is_standardized = from >> 1; m->min_value = (float) id - 2; m->max_value = (float) id; m->mean = (float) id + 1; m->standard_deviation = id % 2 ? 2.f : 0.5f;
        q->is_normalized = to & 1; q->is_standardized = to >> 1; q->min_value = (float) id; q->max_value = (float) id + 4; q->mean = 3.f - (float) id; q->standard_deviation = id % 2 ? 0.25f : 4.f;
        (side ? e : g).push_back(m); (side ? ne : ng).push_back(q); }
    int sel = (int) sx_fork(sx_int("arbitrary column", 0, 3)); float v[4] = {1, 2, 4, 8}; v[sel] = (float) sx_int("v", -64, 64);
    { BinaryDatasetWriter w(path, g, e, 0); auto T = [&](int i) { return rowv({v[i]}); }; w.writeRow({T(0), T(2)}, {T(1), T(3)}); w.writeRow({T(2), T(0)}, {T(3), T(1)}); }
    BinaryDatasetReader r(path, ng, ne);
    for (int row = 0; row < 2; row++) { auto p = r.readRow(row); for (int i = 0; i < 2; i++) for (int side = 0; side < 2; side++) { auto &m = (side ? e : g)[i]; auto &q = (side ? ne : ng)[i]; float x = v[(row ? 1 - i : i) * 2 + side];
        if (m->is_normalized) x = x * (m->max_value - m->min_value) + m->min_value; if (m->is_standardized) x = x * m->standard_deviation + m->mean;
        if (q->is_standardized) x = (x - q->mean) / q->standard_deviation; if (q->is_normalized) x = (x - q->min_value) / (q->max_value - q->min_value);
        float got = (side ? p.second : p.first)[i]->getValue(0, 0, 0); float d = got - x; sx_check((d <= 0.001f) & (d >= -0.001f), "value on the requested scale"); } }
    ng.pop_back(); sx_check(throws([&] { BinaryDatasetReader bad(path, ng, ne); }), "mismatched rescaling columns are refused");
    sx_check(throws([&] { BinaryDatasetReader bad(path + "x"); }), "missing file is refused");
}
SX_HARNESS(relabel) { // a dataset that lists its labels otherwise is read by label, not by position
    std::string path = std::string(sx_scratch()) + "/d.bin"; int order = pick("stored order", 0, 2), wanted = pick("requested labels", 0, 5), side = pick("expected column", 0, 1), rowsN = pick("rows", 1, 2);
    const std::vector<std::vector<std::string>> stored{{"a", "b"}, {"b", "c"}, {"b", "a", "c"}}, requested{{"a", "b"}, {"b", "a"}, {"b", "c", "a"}, {"a", "b", "c"}, {"c"}, {"x", "b", "a"}};
    auto lab = [&](const std::vector<std::string> &l) { auto m = plain('L', 1, l.size(), 1, "label"); m->ordered_labels = l; return m; }; auto from = lab(stored[order]), to = lab(requested[wanted]); std::vector<Meta> other{plain('N', 1, 2, 1)};
    std::vector<int> at; std::vector<float> v; { BinaryDatasetWriter w(path, side ? other : std::vector<Meta>{from}, side ? std::vector<Meta>{from} : other, 0); for (int r = 0; r < rowsN; r++) { at.push_back(pick("label" + std::to_string(r), 0, (int) stored[order].size() - 1)); v.push_back(symf("v" + std::to_string(r))); std::vector<float> hot(stored[order].size(), 0.f); hot[at[r]] = 1.f; T l = rowv(hot), o = rowv({v[r], 2.f}); if (side) w.writeRow({o}, {l}); else w.writeRow({l}, {o}); } }
    BinaryDatasetReader r(path, side ? other : std::vector<Meta>{to}, side ? std::vector<Meta>{to} : other); sx_check(r.rowCount() == (size_t) rowsN, "row count");
    for (int i = 0; i < rowsN; i++) { const auto &label = stored[order][at[i]]; auto f = std::find(to->ordered_labels.begin(), to->ordered_labels.end(), label); if (f == to->ordered_labels.end()) { sx_check(throws([&] { r.readRow(i); }), "a label the request does not know is refused"); continue; } auto p = r.readRow(i); T l = (side ? p.second : p.first)[0], o = (side ? p.first : p.second)[0]; Cube want(1, {std::vector<float>(to->ordered_labels.size(), 0.f)}); want[0][0][f - to->ordered_labels.begin()] = 1.f; sx_check(sameCube(l, want), "the same label, where the request has it"); sx_check((bitsOf(o->getValue(0, 0, 0)) == bitsOf(v[i])) & (o->getValue(0, 1, 0) == 2.f), "other columns are as written"); } }
SX_HARNESS(larger) { // many rows, many columns, long names and label lists; a few values are any number
    sx_real_hash(); std::string path = sub("d.bin"); int kind = pick("kind", 0, 2); size_t n = kind == 0 ? 130 : kind == 1 ? 40 : 70, gn = kind == 0 ? 2 : kind == 1 ? 9 : 1, en = kind == 2 ? 5 : 1; std::vector<Meta> g, e; for (size_t i = 0; i < gn; i++) { g.push_back(plain('N', 1 + i % 3, 1 + i * 5 % 4, 1 + i % 2, std::string(i * 37 % 300, (char) ('a' + i)))); for (size_t k = 0; k < i * 11 % 50; k++) g[i]->ordered_labels.push_back(std::string(k * 7 % 20, 'l') + std::to_string(k)); } for (size_t i = 0; i < en; i++) { e.push_back(plain(i == 3 ? 'L' : 'N', 1, i == 1 ? 300 : 3, 1, "out" + std::to_string(i))); if (i == 3) e[i]->ordered_labels = {"x", "y", "z"}; }
    size_t any = n * pick("where", 0, 2) / 2; any -= any == n; float v = symf("v"); size_t cap = pick("remembered", 0, 2) * 50, repeated = pick("distance", 0, 3); repeated = repeated == 0 ? 1 : repeated == 1 ? 49 : repeated == 2 ? 50 : 51; std::vector<size_t> kept; auto value = [](size_t row, size_t column, size_t at) { return (float) (row * 64 + column * 7 + at % 5); };
    { BinaryDatasetWriter w(path, g, e, cap); auto write = [&](size_t row, bool first) { std::vector<T> a, b; for (size_t side = 0; side < 2; side++) for (size_t c = 0; c < (side ? en : gn); c++) { auto m = (side ? e : g)[c]; Cube x = cubeOf(m->channels, m->rows, m->columns); size_t k = 0; for (auto &p: x) for (auto &q: p) for (float &z: q) z = m->purpose == 'L' ? (float) (k == row % 3) : value(row, c + side * gn, k), k++; if (side == 1 && c == 0 && row == any) x[0][0][1] = v; (side ? b : a).push_back(tens(x)); } bool wrote = w.writeRow(a, b); if (first) kept.push_back(row); else { sx_check(wrote == !(cap >= repeated && repeated <= kept.size()), "a repeated row is left out while it is remembered"); if (wrote) kept.push_back(row); } }; for (size_t i = 0; i < n; i++) write(i, true); if (repeated <= n) write(n - repeated, false); }
    BinaryDatasetReader r(path); sx_check(r.rowCount() == kept.size(), "row count"); for (size_t i = 0; i < gn; i++) same(g[i], r.get_given_metadata(i)); for (size_t i = 0; i < en; i++) same(e[i], r.get_expected_metadata(i)); int ok = 1; for (size_t s = 0; s < kept.size(); s += 1 + (s > 5 && s + 5 < kept.size()) * 6) { size_t i = s * 37 % kept.size(); auto p = r.readRow(i); size_t row = kept[i]; ok &= p.first.size() == gn && p.second.size() == en; for (size_t side = 0; side < 2; side++) for (size_t c = 0; c < (side ? en : gn); c++) { auto m = (side ? e : g)[c]; T t = (side ? p.second : p.first)[c]; ok &= shapeIs(t, m->channels, m->rows, m->columns); size_t k = 0; for (size_t x = 0; x < m->channels; x++) for (size_t y = 0; y < m->rows; y++) for (size_t z = 0; z < m->columns; z++) { float want = m->purpose == 'L' ? (float) (k == row % 3) : value(row, c + side * gn, k); k++; if (side == 1 && c == 0 && row == any && z == 1) ok &= bitsOf(t->getValue(y, z, x)) == bitsOf(v); else ok &= t->getValue(y, z, x) == want; } } } sx_check(ok, "row contents exactly as written"); } // opts: time=200
