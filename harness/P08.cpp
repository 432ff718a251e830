// P08: turning values into tensors and results back into values
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "training_data/training_dataset.hpp"
#include "util/dataset_utils.hpp"
#include "util/encoder_decoder_builder.hpp"
#include "util/pretty_print_row.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef std::vector<std::vector<float>> Rows;
static std::shared_ptr<BinaryColumnMetadata> meta(char purpose, size_t c, size_t r, size_t k) { auto m = std::make_shared<BinaryColumnMetadata>(); m->purpose = purpose; m->is_standardized = m->is_normalized = false; m->mean = m->standard_deviation = m->min_value = m->max_value = 0; m->source_column_count = 1; m->channels = c; m->rows = r; m->columns = k; m->name = "c"; return m; }
static int oneAt(const std::vector<float> &v, long at) { int ok = 1; for (size_t i = 0; i < v.size(); i++) ok &= bitsOf(v[i]) == (uint32_t) sx_ite((long) i == at, 0x3f800000, 0); return ok; }
SX_HARNESS(one_hot_codes) { size_t largest = pick("largest", 1, 5), n = pick("tokens", 0, 2); std::vector<std::u16string> t; std::vector<long> flat; for (size_t i = 0; i < n; i++) { std::u16string s; for (size_t k = 0, l = pick("length" + std::to_string(i), 0, 2 - i); k < l; k++) { long c = sx_int(("c" + std::to_string(i) + std::to_string(k)).c_str(), 0, 0xffff); s += (char16_t) c; flat.push_back(c); } t.push_back(s); }
    Rows r = one_hot_encode_bpe_tokens(t, largest); sx_check(r.size() == flat.size(), "one vector per code"); for (size_t i = 0; i < r.size() && i < flat.size(); i++) { sx_check(r[i].size() == largest, "vector size"); sx_check(oneAt(r[i], flat[i]), "one at the code, zero elsewhere"); } }
SX_HARNESS(one_hot_characters) { std::string a = symStr("a", 0, 1), b = pick("b", 0, 1) ? "\xff~" : ""; Rows r = one_hot_encode_characters({a, b}); std::string s = a + b; sx_check(r.size() == s.size(), "one vector per character"); for (size_t i = 0; i < r.size() && i < s.size(); i++) { sx_check(r[i].size() == 255, "vector size"); sx_check(oneAt(r[i], (unsigned char) s[i]), "one at the character, zero elsewhere"); } }
SX_HARNESS(one_hot_words) { static const Strs W{"a", "bb", "c", "", "dd"}; size_t n = pick("vocabulary", 0, 3); std::unordered_map<std::string, int> v; for (size_t i = 0; i < n; i++) v[W[i]] = (int) (n - 1 - i); Strs t; for (size_t i = 0, k = pick("tokens", 0, 3); i < k; i++) t.push_back(W[pick("t" + std::to_string(i), 0, 4)]); Rows r = one_hot_encode_words(t, v); sx_check(r.size() == t.size(), "one vector per token"); for (size_t i = 0; i < r.size() && i < t.size(); i++) { sx_check(r[i].size() == n, "vector size"); sx_check(oneAt(r[i], v.count(t[i]) ? v[t[i]] : -1), "one at the word, zeros for an unknown word"); } }
SX_HARNESS(padding) { size_t n = pick("tokens", 0, 3), target = pick("target", 0, 4), w = pick("width", 1, 2); Rows r, keep; for (size_t i = 0; i < n; i++) { std::vector<float> v; for (size_t k = 0; k < w; k++) v.push_back(symf("v" + std::to_string(i) + std::to_string(k))); r.push_back(v); } keep = r; pad_or_truncate_tokens(r, target, w); sx_check(r.size() == target, "target length"); for (size_t i = 0; i < r.size(); i++) { sx_check(r[i].size() == w, "width"); for (size_t k = 0; k < w; k++) sx_check(i < n ? sameF(r[i][k], keep[i][k]) : bitsOf(r[i][k]) == 0, "tokens are kept, padding is zero"); } }
static const char *TXT[] = {"0", "1", "-2.5", "255", "1e2", "", "abc", "3x", " 7", "8 ", "+4"}; static const float VAL[] = {0, 1, -2.5f, 255, 100, 0, 0, 0, 7, 8, 0}; // " 7" needs trimming, "abc", "3x" and "+4" are not numbers
SX_HARNESS(text_numbers) { int pixel = pick("pixel", 0, 1), trim = pick("trim", 0, 1); size_t c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 2 + sx_tier()), at = pick("at", 0, c * r * k - 1); int which = pick("text", 0, 10); Strs w; for (size_t i = 0; i < c * r * k; i++) w.push_back(std::to_string(i * 3)); w[at] = TXT[which]; bool bad = which == 6 || which == 7 || which == 10 || (which == 8 && !trim);
    T t; std::shared_ptr<DataEncoder> e; if (pixel) e = std::make_shared<TextToPixelEncoder>(); else e = std::make_shared<TextToScalarEncoder>(); bool refused = throws([&] { t = e->encode(w, r, k, c, trim); }); sx_check(refused == bad, "text that is not a number is refused"); sx_check(e->calculate_output_shape(r, k, c) == std::vector<size_t>({r, k, c}), "output shape"); if (refused) return; sx_check(shapeIs(t, c, r, k), "shape");
    size_t i = 0; for (size_t a = 0; a < c; a++) for (size_t b = 0; b < r; b++) for (size_t d = 0; d < k; d++, i++) { float v = i == at ? VAL[which] : (float) (i * 3); if (pixel) { if (v < 0) continue; sx_check(within(t->getValue(b, d, a) * 255.f, v, 0.01f), "pixels are shares of 255, in order"); } else sx_check(t->getValue(b, d, a) == v, "numbers in order"); } }
SX_HARNESS(pixels) { int v = pick("v", 0, 255); TextToPixelEncoder e; T t = e.encode({std::to_string(v)}, 1, 1, 1, false); sx_check(t->getValue(0, 0, 0) == (float) v / 255.f, "every pixel value is kept"); }
static const Strs LABELS{"no", "yes", "maybe so", ""};
SX_HARNESS(categories) { size_t n = pick("labels", 1, 4), r = pick("rows", 1, 2); int trim = pick("trim", 0, 1); Strs l(LABELS.begin(), LABELS.begin() + n), w; std::vector<int> id; for (size_t i = 0; i < r; i++) { int k = pick("w" + std::to_string(i), 0, 4); id.push_back(k < (int) n ? k : -1); std::string s = k < 4 ? LABELS[k] : "?"; if (i == 0 && pick("blanks", 0, 1)) { s = " " + s + "\t"; if (!trim) id[0] = -1; } w.push_back(s); }
    TextToUniqueCategoryEncoder e(l); T t; bool bad = false; for (int x: id) bad |= x < 0; bool refused = throws([&] { t = e.encode(w, r, n, 1, trim); }); sx_check(refused == bad, "unknown labels are refused"); sx_check(e.calculate_output_shape(r, 9, 9) == std::vector<size_t>({r, n, 1}), "output shape"); sx_check(throws([&] { e.encode(w, r + 1, n, 1, trim); }) && throws([&] { e.encode(w, r, n + 1, 1, trim); }) && throws([&] { e.encode(w, r, n, 2, trim); }), "wrong shapes are refused"); if (refused) return;
    sx_check(shapeIs(t, 1, r, n), "shape"); for (size_t i = 0; i < r; i++) for (size_t k = 0; k < n; k++) sx_check(t->getValue(i, k, 0) == ((int) k == id[i] ? 1.f : 0.f), "one at the label"); BestTextCategoryDecoder d(l); sx_check(d.decodeBest(t) == l[id[0]], "the label comes back"); sx_check(d.decodeTop(t, 1) == Strs({l[id[0]]}), "as the top label too"); }
SX_HARNESS(category_scores) { // whatever the scores, the best label has a greatest score and the top ones come in falling order
    size_t n = pick("labels", 1, 3), k = pick("top", 0, 3), extra = pick("extra columns", 0, 1); Strs l(LABELS.begin(), LABELS.begin() + n); std::vector<float> s; for (size_t i = 0; i < n + extra; i++) { float f = symf("s" + std::to_string(i)); sx_assume((f > -1e30f) & (f < 1e30f)); s.push_back(f); } T t = rowv(s); BestTextCategoryDecoder d(l); sx_check(d.isText() && !d.isImage(), "text"); int best = 1;
    std::string b; bool refused = throws([&] { b = d.decodeBest(t); }); if (refused) { for (size_t i = 0; i < n; i++) best &= s[n] > s[i]; sx_check(extra && best, "refused only when no label has the best score"); } else { float v = 0; for (size_t i = 0; i < n; i++) if (l[i] == b) v = s[i]; for (float x: s) best &= v >= x; sx_check(best, "best label"); }
    Strs top; refused = throws([&] { top = d.decodeTop(t, k); }); if (refused) { sx_check(extra && k > 0, "refused only when a score has no label"); return; } sx_check(top.size() == std::min(k, n + extra), "as many as asked for"); std::set<std::string> u(top.begin(), top.end()); sx_check(u.size() == top.size(), "different labels"); std::vector<float> v; for (auto &x: top) for (size_t i = 0; i < n; i++) if (l[i] == x) v.push_back(s[i]); int ok = 1; for (size_t i = 1; i < v.size(); i++) ok &= v[i - 1] >= v[i]; sx_check(ok, "in falling order"); if (!v.empty()) { ok = 1; for (size_t i = 0; i < n; i++) if (!u.count(l[i])) ok &= s[i] <= v.back(); sx_check(ok, "nothing better is left out"); } }
SX_HARNESS(task_inputs) { // inputs of a task are laid out as the rows of its dataset are
    size_t c = pick("channels", 1, 2), r = pick("rows", 1, 2), k = pick("columns", 1, 3), n = c * r * k; int given = pick("given", 0, 2); int image = pick("image", 0, 1); std::vector<HappyMLVariant> v; std::vector<float> f; for (size_t i = 0; i < n + given - 1; i++) { if (image) { f.push_back((float) (i * 20)); v.emplace_back((int) (i * 20)); } else { f.push_back(symf("v" + std::to_string(i))); v.emplace_back(f.back()); } } HappyMLVariantEncoder e(meta(image ? 'I' : 'N', c, r, k)); T t; bool refused = throws([&] { t = e.encode(v); }); sx_check(refused == (given != 1), "the number of values has to fit"); if (refused) return; sx_check(shapeIs(t, c, r, k), "shape"); size_t i = 0; int ok = 1; for (size_t a = 0; a < c; a++) for (size_t b = 0; b < r; b++) for (size_t d = 0; d < k; d++, i++) ok &= image ? t->getValue(b, d, a) == f[i] / 255.f : sameF(t->getValue(b, d, a), f[i]); sx_check(ok, "values in record order"); sx_check(e.get_name() == "c", "name"); }
SX_HARNESS(task_inputs_scaled) { // ... and scaled by the column's description, which decoding undoes
    static const float V[] = {0, 1, -3.5f, 100}, M[] = {0, 2.5f, -7}, S[] = {1, 0.5f, 4}; auto m = meta('N', 1, 1, 2); m->is_standardized = pick("standardized", 0, 1); m->is_normalized = pick("normalized", 0, 1); m->mean = M[pick("mean", 0, 2)]; m->standard_deviation = S[pick("deviation", 0, 2)]; m->min_value = -1; m->max_value = pick("max", 0, 1) ? 3 : 9; float a = V[pick("a", 0, 3)], b = V[pick("b", 0, 3)]; HappyMLVariantEncoder e(m); T t = e.encode({HappyMLVariant(a), HappyMLVariant(b)});
    float want[2] = {a, b}; for (float &w: want) { if (m->is_standardized) w = (w - m->mean) / m->standard_deviation; if (m->is_normalized) w = (w - m->min_value) / (m->max_value - m->min_value); } for (int i = 0; i < 2; i++) sx_check(relWithin(t->getValue(0, i, 0), want[i], 1e-4f, 1e-4f), "scaled like the dataset"); T back = build_decoder(false, m)->decode(t); sx_check(relWithin(back->getValue(0, 0, 0), a, 1e-4f, 1e-3f) && relWithin(back->getValue(0, 1, 0), b, 1e-4f, 1e-3f), "decoding gives the value back"); T raw = build_decoder(true, m)->decode(t); sx_check(sameF(raw->getValue(0, 0, 0), t->getValue(0, 0, 0)), "raw results stay as they are"); }
SX_HARNESS(task_labels) { size_t n = pick("labels", 1, 3), r = pick("rows", 1, 2), given = pick("given", 0, 3); auto m = meta('L', 1, r, n); m->ordered_labels = Strs(LABELS.begin(), LABELS.begin() + n); std::vector<HappyMLVariant> v; std::vector<int> id; bool bad = given != r; for (size_t i = 0; i < given; i++) { int k = pick("w" + std::to_string(i), 0, 3); if (k >= (int) n) bad = true; id.push_back(k); v.emplace_back(std::string(LABELS[k])); } HappyMLVariantEncoder e(m); T t; bool refused = throws([&] { t = e.encode(v); }); sx_check(refused == bad, "unknown labels and wrong counts are refused"); if (refused) return; sx_check(shapeIs(t, 1, r, n), "shape"); for (size_t i = 0; i < r; i++) for (size_t k = 0; k < n; k++) sx_check(t->getValue(i, k, 0) == ((int) k == id[i] ? 1.f : 0.f), "one at the label"); sx_check(build_decoder(false, m)->decodeBest(t) == LABELS[id[0]], "the label comes back"); }
SX_HARNESS(variants) { int k = pick("kind", 0, 4); HappyMLVariant v; float want = 0; bool bad = false; std::string text; if (k == 0) { bad = true; text = "None"; } else if (k == 1) { long i = sx_int("i", -1000000, 1000000); v = HappyMLVariant((int) i); want = (float) i; } else if (k == 2) { float f = symf("f"); v = f; want = f; } else if (k == 3) { int b = pick("b", 0, 1); v = (bool) b; want = b; text = b ? "1" : "0"; } else { static const char *X[] = {"1.5", "-2", "x", ""}; static const float F[] = {1.5f, -2, 0, 0}; int s = pick("s", 0, 3); text = X[s]; v = text; want = F[s]; bad = s > 1; } float got = 0; bool refused = throws([&] { got = v.as_float(); }); sx_check(refused == bad, "only numbers become numbers"); if (!refused) sx_check(sameF(got, want), "value"); if (k != 1 && k != 2) sx_check(v.to_string() == text, "text"); }
SX_HARNESS(image_text) { // brighter never looks darker, the brightest is full, black is blank
    size_t c = pick("channels", 0, 1) ? 3 : 1, r = pick("rows", 1, 3), k = pick("columns", 1, 2); Cube v = cubeOf(c, r, k); std::vector<std::vector<int>> sum((r + 1) / 2, std::vector<int>(k, 0)); for (size_t a = 0; a < r; a++) for (size_t b = 0; b < k; b++) { static const int L[] = {0, 32, 64, 128}; int x = L[pick("p" + std::to_string(a) + std::to_string(b), 0, r * k > 4 ? 1 + 2 * sx_tier() : 3)]; for (size_t d = 0; d < c; d++) v[d][a][b] = (float) x / 128.f; sum[a / 2][b] += x * (a + 1 == r && r % 2 ? 2 : 1); }
    ImageDecoder d; sx_check(d.isImage() && !d.isText(), "image"); Strs t = d.decodeImage(full(v)); sx_check(t.size() == sum.size(), "a line per two rows"); int top = 0; for (auto &x: sum) for (int y: x) top = std::max(top, y); for (size_t a = 0; a < t.size(); a++) { sx_check(t[a].size() == k, "a character per column"); for (size_t b = 0; b < k; b++) { static const int G[] = {' ', 176, 177, 178, 219}; int at = -1; for (int i = 0; i < 5; i++) if ((unsigned char) t[a][b] == G[i]) at = i; int want = top == 0 ? 0 : sum[a][b] * 4 / top; bool exact = top && (sum[a][b] * 4) % top == 0; sx_check(at == want || (exact && at == want - 1 && want > 0 && c == 3 && sum[a][b] != top), "level is the share of the brightest"); } } }
SX_HARNESS(result_rows) { // results are printed under their names, every value once, right aligned
    Strs names{"n", "second"}; int lines = pick("lines", 0, 2); static const Strs X{"", "v", "wide value", "x|y"}; std::vector<Strs> v(2); for (int i = 0; i < lines; i++) v[0].push_back(X[pick("a" + std::to_string(i), 0, 3)]); v[1].push_back(X[pick("b", 0, 3)]); auto w = calculate_pretty_print_column_widths(names, v); sx_check(w.size() == 2, "a width per column"); for (int c = 0; c < 2; c++) { size_t m = names[c].size(); for (auto &s: v[c]) m = std::max(m, s.size()); sx_check(w[c] == m, "wide enough for every value"); }
    std::stringstream h, o; pretty_print_header(h, names, w); pretty_print_row(o, v, w); auto pad = [](const std::string &s, size_t n) { return std::string(n - s.size(), ' ') + s; }; sx_check(h.str() == pad(names[0], w[0]) + "|" + pad(names[1], w[1]) + "\n", "header"); std::string want; for (int i = 0; i < std::max(lines, 1); i++) want += pad(i < lines ? v[0][i] : "", w[0]) + "|" + pad(i < 1 ? v[1][0] : "", w[1]) + "\n"; sx_check(o.str() == want, "rows"); sx_check(pretty_print_merge_headers({"e"}, {"g", "h"}) == Strs({"e", "g", "h"}), "expected first"); v.pop_back(); sx_check(throws([&] { calculate_pretty_print_column_widths(names, v); }), "mismatched columns are refused"); }
SX_HARNESS(dataset_print) { // print shows each stored row, expected columns first, labels by name
    size_t n = pick("rows", 0, 2); int limit = pick("limit", 0, 3) - 1, raw = pick("raw", 0, 1); auto g = meta('N', 1, 1, 1), e = meta('L', 1, 1, 2); g->name = "amount"; e->name = "verdict"; e->ordered_labels = {"no", "yes"}; std::vector<int> lab; { BinaryDatasetWriter w(sub("d.bin"), {g}, {e}, 0); for (size_t i = 0; i < n; i++) { int b = pick("l" + std::to_string(i), 0, 1); lab.push_back(b); w.writeRow({rowv({(float) i + 5})}, {rowv({b ? 0.f : 1.f, b ? 1.f : 0.f})}); } w.close(); }
    BinaryDatasetReader r(sub("d.bin")); std::stringstream o; pretty_print(o, r, limit, raw); std::string s = o.str(); size_t shown = limit < 0 ? n : std::min<size_t>(n, limit), at = 0; if (shown == 0) { sx_check(s.empty(), "nothing to show"); return; } sx_check(s.find("verdict") != std::string::npos && s.find("verdict") < s.find("amount"), "header"); size_t lines = 0; for (char c: s) lines += c == '\n'; sx_check(lines == shown + 1, "one line per row"); at = s.find('\n'); for (size_t i = 0; i < shown; i++) { size_t end = s.find('\n', at + 1); std::string line = s.substr(at + 1, end - at - 1); at = end; sx_check(line.find(std::to_string(i + 5)) != std::string::npos, "value"); if (!raw) sx_check((line.find("yes") != std::string::npos) == (lab[i] == 1) && (line.find("no") != std::string::npos) == (lab[i] == 0), "label"); } }
SX_HARNESS(larger) { // wide label lists, larger images and columns
    int kind = pick("kind", 0, 4); static const size_t N[] = {5, 17, 40, 130}; size_t n = N[pick("size", 0, 3)]; auto name = [](size_t i) { return std::string(i % 3, ' ') + "label " + std::to_string(i * 7 % 1000); }; Strs l; for (size_t i = 0; i < n; i++) l.push_back(name(i).substr(i % 3)); size_t where = pick("where", 0, 2) * (n - 1) / 2;
    if (kind == 0) { TextToUniqueCategoryEncoder e(l); Strs w{l[where], l[n - 1], l[0]}; T t = e.encode(w, 3, n, 1, false); size_t at[] = {where, n - 1, 0}; int ok = shapeIs(t, 1, 3, n); for (size_t r = 0; r < 3; r++) for (size_t k = 0; k < n; k++) ok &= t->getValue(r, k, 0) == (k == at[r] ? 1.f : 0.f); sx_check(ok, "one at the label"); BestTextCategoryDecoder d(l); sx_check(d.decodeBest(t) == l[where], "the label comes back"); }
    if (kind == 1) { std::vector<float> s; for (size_t i = 0; i < n; i++) s.push_back((float) (i * 31 % n) / 4); s[where] = (n == 5 ? symi("score", -1, 5) : (float) pick("score", 0, 3) * n / 9) + 0.125f; BestTextCategoryDecoder d(l); T t = rowv(s); std::string b = d.decodeBest(t); float v = -9; size_t found = 0; for (size_t i = 0; i < n; i++) if (l[i] == b) { v = s[i]; found++; } int ok = found == 1; for (float x: s) ok &= v >= x; sx_check(ok, "best label"); Strs top = d.decodeTop(t, 4); sx_check(top.size() == 4, "as many as asked for"); std::vector<float> u; for (auto &x: top) for (size_t i = 0; i < n; i++) if (l[i] == x) u.push_back(s[i]); ok = u.size() == 4; for (size_t i = 1; i < u.size(); i++) ok &= u[i - 1] >= u[i]; size_t better = 0; if (!u.empty()) for (float x: s) better += sx_ite(x > u.back(), 1, 0); sx_check(ok & (better < 4), "the best ones, in falling order"); }
    if (kind == 2) { size_t c = 1 + n % 3, r = n / 5, k = 5; std::vector<HappyMLVariant> v; Cube want = cubeOf(c, r, k); size_t total = c * r * k, at = where * total / n; for (size_t i = 0; i < total; i++) { float f = i == at ? symf("v") : (float) i * 0.5f; v.emplace_back(f); want[i / (r * k)][i / k % r][i % k] = f; } HappyMLVariantEncoder e(meta('N', c, r, k)); sx_check(sameCube(e.encode(v), want), "in order"); Strs w; for (size_t i = 0; i < total; i++) w.push_back(std::to_string(i * 2)); TextToScalarEncoder s; T t = s.encode(w, r, k, c, false); int ok = shapeIs(t, c, r, k); for (size_t i = 0; i < total; i++) ok &= t->getValue(i / k % r, i % k, i / (r * k)) == (float) (i * 2); sx_check(ok, "numbers in order"); }
    if (kind == 3) { if (n > 40) return; auto m = meta('L', 1, 3, n); m->ordered_labels = l; HappyMLVariantEncoder e(m); size_t at[] = {n - 1, where, 0}; std::vector<HappyMLVariant> v; for (size_t x: at) v.emplace_back(std::string(l[x])); T t = e.encode(v); int ok = shapeIs(t, 1, 3, n); for (size_t r = 0; r < 3; r++) for (size_t k = 0; k < n; k++) ok &= t->getValue(r, k, 0) == (k == at[r] ? 1.f : 0.f); sx_check(ok, "one at the label"); }
    if (kind == 4) { size_t rows = n * 2; std::vector<std::shared_ptr<BinaryColumnMetadata>> g, e; for (int i = 0; i < 3; i++) { g.push_back(meta('N', 1, 1, 1)); g[i]->name = "in" + std::to_string(i); } e.push_back(meta('L', 1, 1, 4)); e[0]->name = "out"; e[0]->ordered_labels = {"no", "yes", "perhaps", "never"}; { BinaryDatasetWriter w(sub("d.bin"), g, e, 0); for (size_t i = 0; i < rows; i++) { std::vector<float> h(4, 0); h[i * 3 % 4] = 1; w.writeRow({rowv({(float) i}), rowv({(float) (i * 2)}), rowv({1000.f + (float) i})}, {rowv(h)}); } w.close(); } int limit = (int) where; BinaryDatasetReader r(sub("d.bin")); std::stringstream o; pretty_print(o, r, limit == 0 ? -1 : limit, false); size_t shown = limit == 0 ? rows : (size_t) limit; std::string line; std::getline(o, line); int ok = 1; for (size_t i = 0; i < shown; i++) { sx_check((bool) std::getline(o, line), "one line per row"); size_t p = line.find(e[0]->ordered_labels[i * 3 % 4]), q = line.find(std::to_string(1000 + i)); ok &= p != std::string::npos && q != std::string::npos && p < q; } sx_check(ok, "each row in its line"); sx_check(!std::getline(o, line), "nothing more"); } } // opts: time=200
