// P07: byte pair encoding
#include "ml/byte_pair_encoder.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef BytePairEncoderModel Bpe;
static const Strs CORPUS[] = {{}, {"a"}, {"ab", "ab"}, {"aa", "aaa", "aaaa"}, {"hello", "hell", "help"}, {"\xe9\xe8", "\xe9\xe8", "x"}, {"abab", "baba", " ab", "ab."}, {"", "ab", "", "ab"}, {"the", " the", " then", " other"}};
static bool same16(const std::u16string &a, const std::u16string &b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= a[i] ^ b[i]; return d == 0; }
static void wellFormed(Bpe &m) { // every code is new, unused and above the delimiter; it stands for something made of bytes, the delimiter and smaller codes
    unsigned delim = m.getDelimiter()[0]; std::set<unsigned> used; for (auto &c: m.getBpeCodes()) { sx_check(c.second.size() == 1, "one code"); unsigned v = c.second[0]; sx_check(used.insert(v).second, "codes are distinct"); sx_check(v > delim && v < m.getLargestCode(), "codes lie between the delimiter and the largest code"); for (char16_t x: c.first) sx_check(x <= 0xff || x >= 0xff80 || x == delim || (x > delim && x < v), "a code stands for older symbols"); sx_check(c.first.size() >= 2, "a code stands for at least two symbols"); } }
static void identity(Bpe &m, const std::string &t) { auto e = m.encode(t); sx_check(sameStr(m.decode(e), t), "decoding gives the text back"); sx_check(t.empty() ? e.empty() : !e.empty() && e.size() <= t.size() + 2, "encoding never adds more than the delimiters"); }
static void sameModel(Bpe &a, Bpe &b) { auto x = a.getBpeCodes(), y = b.getBpeCodes(); sx_check(a.getDelimiter() == b.getDelimiter() && a.getLargestCode() == b.getLargestCode(), "delimiter and largest code"); sx_check(x == y, "codes"); }
SX_HARNESS(trained) { sx_real_hash(); Bpe m("m", false, pick("delimiter", 0, 1) ? 1000 : 256); int c = pick("corpus", 0, 8), mf = pick("minimum frequency", 1, 2), nm = pick("merges", 0, 2); m.train(CORPUS[c], -1, 0.00001, mf, nm == 0 ? -1 : nm == 1 ? 1 : 3); wellFormed(m); sx_check(nm == 0 || m.getBpeCodes().size() <= (nm == 1 ? 1u : 3u), "no more merges than asked for"); for (auto &t: CORPUS[c]) identity(m, t); identity(m, symStr("text", 1, 1)); identity(m, "hello the abab world"); }
SX_HARNESS(any_text) { sx_real_hash(); Bpe m("m", false); m.train(CORPUS[pick("corpus", 2, 8)]); identity(m, symStr("text", 0, 3 + sx_tier())); }
SX_HARNESS(prefixed_text) { sx_real_hash(); Bpe m("m", false); m.train(CORPUS[pick("corpus", 2, 8)], -1, 0.00001, 1); static const char *F[] = {"ab", "aaa", "hel", " the"}; std::string f = F[pick("stem", 0, 3)]; identity(m, symStr("head", 0, 1) + f + symStr("tail", 0, 1)); }
SX_HARNESS(configured) { // any consistent set of codes: each stands for two or three older symbols
    Bpe m("m", false); unsigned d = pick("delimiter", 0, 1) ? 300 : 256; std::unordered_map<std::u16string, std::u16string> codes; size_t n = pick("codes", 1, 2 + sx_tier()); std::set<std::u16string> used; for (size_t i = 0; i < n; i++) { std::u16string s; size_t len = i == 0 ? pick("length", 2, 3) : 2; for (size_t k = 0; k < len; k++) { int v = pick("s" + std::to_string(i) + std::to_string(k), 0, 2 + i); s += v == 0 ? u'a' : v == 1 ? u'b' : v == 2 ? (char16_t) d : (char16_t) (d + v - 2); } sx_assume(used.insert(s).second); codes[s] = std::u16string(1, (char16_t) (d + 1 + i)); }
    m.configure(codes, d); wellFormed(m); sx_check(m.getBpeCodes().size() == n && m.getLargestCode() == d + 1 + n, "all codes are known"); static const char *X[] = {"a", "ab", "ba", "aab", "abab", "bbaab"}; for (auto x: X) identity(m, x); }
SX_HARNESS(retrained) { sx_real_hash(); Bpe m("m", false); m.train(CORPUS[pick("first", 1, 8)], -1, 0.00001, 2, 2); auto before = m.getBpeCodes(); unsigned top = m.getLargestCode(); m.train(CORPUS[pick("second", 1, 8)]); wellFormed(m); auto after = m.getBpeCodes(); for (auto &b: before) { bool kept = false; for (auto &a: after) kept |= a == b; sx_check(kept, "codes learned before are kept"); } sx_check(m.getLargestCode() >= top, "the largest code never shrinks"); identity(m, "ab hello the"); identity(m, symStr("text", 1, 1)); }
SX_HARNESS(early_stopping) { sx_real_hash(); Bpe m("m", false); m.train(CORPUS[pick("corpus", 0, 8)], pick("patience", 0, 2)); wellFormed(m); identity(m, "hello the abab"); }
SX_HARNESS(saved) { // a model loaded from its file is the model that was saved, whatever the loading model knew before
    sx_real_hash(); std::string dir = sub("k"); int had = pick("loader knew", 0, 2); Bpe m("n", false, pick("delimiter", 0, 1) ? 700 : 256); m.train(CORPUS[pick("corpus", 0, 8)], -1, 0.00001, 1); sx_check(m.save(dir, "l", pick("overwrite", 0, 1)), "saved"); Bpe o("n", false, 256); if (had) o.train(CORPUS[had == 1 ? 4 : 6], -1, 0.00001, 1); sx_check(!o.load(dir, "absent"), "a missing model is reported"); sx_check(o.load(dir, "l"), "loaded"); sameModel(m, o); std::string t = symStr("text", 0, 1) + "ab"; sx_check(same16(m.encode(t), o.encode(t)), "same encoding"); identity(o, t);
    m.train(CORPUS[8], -1, 0.00001, 1); o.train(CORPUS[8], -1, 0.00001, 1); wellFormed(o); identity(o, "the ab hello"); sx_check(m.getLargestCode() == o.getLargestCode(), "training goes on from where it was"); }
SX_HARNESS(saved_codes) { // any codes survive saving
    Bpe m("n", false), o("n", false); std::unordered_map<std::u16string, std::u16string> codes; size_t n = pick("codes", 0, 2); for (size_t i = 0; i < n; i++) { std::u16string s; for (size_t k = 0, l = pick("length" + std::to_string(i), 1, 2 + i); k < l; k++) s += (char16_t) sx_int(("s" + std::to_string(i) + std::to_string(k)).c_str(), 0, 0xffff); codes[s] = std::u16string(1, (char16_t) (257 + i)); } m.configure(codes, 256); m.save(sub("k"), "l"); sx_check(o.load(sub("k"), "l"), "loaded"); auto x = m.getBpeCodes(), y = o.getBpeCodes(); sx_check(x.size() == y.size(), "as many codes"); for (size_t i = 0; i < x.size() && i < y.size(); i++) sx_check(same16(x[i].first, y[i].first) & same16(x[i].second, y[i].second), "code"); sx_check(o.getLargestCode() == m.getLargestCode(), "largest code"); }
SX_HARNESS(from_files) { // training on a file, or on a folder of files, is training on their tokens
    sx_real_hash(); static const char *TXT[] = {"", "ab ab ab", "hello, hello\nhelp!\n", "the\tthe  the.3.5", "\r\n\x80\x81 \x80\x81"}; std::string t = TXT[pick("text", 0, 4)], t2 = TXT[pick("other", 0, 2)]; int folder = pick("folder", 0, 1); std::filesystem::create_directories(sub("in/nested")); spew(sub("in/a.txt"), t); if (folder) spew(sub("in/b.txt"), t2); Bpe m("m", false), w("m", false); sx_check(folder ? m.train_on_folder(sub("in")) : m.train_on_file(sub("in/a.txt")), "trained"); wellFormed(m); for (auto &x: string_to_tokens(t)) identity(m, x); identity(m, "hello");
    if (!folder) { w.train(string_to_tokens(t)); sx_check(m.getBpeCodes().size() == w.getBpeCodes().size(), "as many codes as from the tokens"); for (auto &c: m.getBpeCodes()) { bool in = false; for (auto &d: w.getBpeCodes()) in |= c.first == d.first; if (t.size() < 9) sx_check(in, "same pairs as from the tokens"); } }
    sx_check(!m.train_on_file(sub("absent.txt")), "a missing file is reported"); std::filesystem::create_directories(sub("empty")); sx_check(!m.train_on_folder(sub("empty")), "an empty folder is reported"); }
SX_HARNESS(compression) { sx_real_hash(); Bpe m("m", false); m.train(CORPUS[pick("corpus", 0, 8)]); Strs d = CORPUS[pick("data", 0, 8)]; double got = m.validate_compression_rate(d); long e = 0, r = 0; for (auto &t: d) { e += (long) m.encode(t).size(); r += (long) t.size(); } sx_check(r == 0 ? got == 0 : got == e / (double) r, "the compression rate is codes per character"); auto all = m.encode(d); sx_check(all.size() == d.size(), "one encoding per token"); for (size_t i = 0; i < d.size(); i++) sx_check(all[i] == m.encode(d[i]), "token by token"); }
