// P06: text helpers: tokenising, lines, replacing, splitting, tries, folders for saved knowledge
#include "util/data_util.hpp"
#include "util/file_writer.hpp"
#include "training_data/data_encoder.hpp"
#include "types/trie.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs;
static bool spaceC(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool digitC(unsigned char c) { return (c >= '0') & (c <= '9'); }
static bool alnumC(unsigned char c) { return digitC(c) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
static bool printC(unsigned char c) { return (c >= 32) & (c <= 126); }
// what tokenising means: drop CR and immediately repeated white space, show unprintable bytes as 254, cut before white space and around punctuation (a point after a digit is not punctuation)
static Strs tokensOf(const std::string &t) { Strs r; unsigned char prev = 0; bool cut = true; for (unsigned char c: t) { if (c == '\r') continue; bool sp = spaceC(c), pu = !sp && printC(c) && !alnumC(c) && !(c == '.' && digitC(prev)); if (sp && c == prev) continue; prev = c; if (sp || pu || cut) r.push_back(""); r.back() += sp || printC(c) ? (char) c : (char) 254; cut = pu; } return r; }
static bool sameStrs(const Strs &a, const Strs &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & sameStr(a[i], b[i]); return r; }
SX_HARNESS(tokens) { std::string t = symStr("text", 0, 3); Strs got = string_to_tokens(t); for (auto &x: got) sx_check(!x.empty(), "no empty token"); sx_check(sameStrs(got, tokensOf(t)), "tokens are the words, blanks and punctuation of the text");
    std::string cur, tok; char prev = 0; Strs viaCallback; for (char c: t) append_character(c, prev, cur, [&](const std::string &x) { viaCallback.push_back(x); }); if (!cur.empty()) viaCallback.push_back(cur); sx_check(sameStrs(viaCallback, got), "both tokenisers agree"); spew(sub("t.txt"), t); sx_check(sameStrs(load_file_to_tokens(sub("t.txt")), got), "a file gives the tokens of its text"); }
SX_HARNESS(tokens_words) { static const char *F[] = {"a", "7", ".", " ", "\t", "\n", "-", "\r", "\x80", "Z"}; std::string t; int n = pick("parts", 3, 4 + sx_tier()); for (int i = 0; i < n; i++) { t += F[pick("part" + std::to_string(i), 0, i < 2 ? 6 : 4)]; } sx_check(sameStrs(string_to_tokens(t), tokensOf(t)), "tokens are the words, blanks and punctuation of the text"); }
SX_HARNESS(tokens_boundary) { size_t n = 32 * 1024 - pick("before", 0, 2); std::string t(n, 'a'); t += symStr("text", 2, 2, 9, 126); sx_assume(t[n] != '\r'); t += "b c"; if (pick("a second buffer", 0, 1)) t += std::string(32 * 1024, 'd') + "  e"; spew(sub("t.txt"), t); Strs got = load_file_to_tokens(sub("t.txt")); std::string all; size_t total = 0; for (auto &x: got) { sx_check(!x.empty(), "no empty token"); total += x.size(); } sx_check(sameStrs(got, string_to_tokens(t)), "the read buffer leaves no trace in the tokens"); }
SX_HARNESS(lines) { std::string t = symStr("text", 0, 3 + sx_tier()), want; spew(sub("t.txt"), t); Strs w; bool open = false; for (char c: t) { if (!open) { w.push_back(""); open = true; } if (c == '\n') { w.back() += '\n'; open = false; } else w.back() += printC(c) ? c : (char) 254; } if (open) w.back() += '\n'; sx_check(sameStrs(load_file_to_lines(sub("t.txt")), w), "every line once, in order, printable"); sx_check(load_file_to_lines(sub("absent.txt")).empty(), "a missing file has no lines"); }
template<class S> static S replaced(const S &t, const S &f, const S &r) { if (f.empty()) return t; S o; for (size_t i = 0; i < t.size();) { bool m = i + f.size() <= t.size(); for (size_t k = 0; m && k < f.size(); k++) m = t[i + k] == f[k]; if (m) { o += r; i += f.size(); } else o += t[i++]; } return o; }
SX_HARNESS(replace) { std::string t = symStr("text", 0, 4, 'a', 'c'), f = symStr("find", 0, 2, 'a', 'b'), r = symStr("with", 0, 1 + sx_tier(), 'a', 'b'), got = t; string_replace_all(got, f, r); sx_check(sameStr(got, replaced(t, f, r)), "every occurrence is replaced, once, left to right"); }
SX_HARNESS(replace16) { std::u16string t, f, r; for (size_t i = 0, n = pick("text", 0, 3 + sx_tier()); i < n; i++) t += (char16_t) sx_int(("t" + std::to_string(i)).c_str(), 0, 0xffff); for (size_t i = 0, n = pick("find", 0, 2); i < n; i++) f += (char16_t) sx_int(("f" + std::to_string(i)).c_str(), 0, 0xffff); for (size_t i = 0, n = pick("with", 0, 2); i < n; i++) r += (char16_t) sx_int(("w" + std::to_string(i)).c_str(), 0, 0xffff);
    std::u16string want = replaced(t, f, r), b = u"old"; u16string_replace_all_to_buffer(t, b, f, r); sx_check(b.size() == want.size(), "length"); int d = 0; for (size_t i = 0; i < want.size() && i < b.size(); i++) d |= b[i] ^ want[i]; sx_check(d == 0, "every occurrence is replaced, once, left to right"); u16string_replace_all(t, f, r); sx_check(t == b, "both forms agree"); }
SX_HARNESS(max16) { std::u16string t; size_t n = pick("n", 0, 4); long want = 0; for (size_t i = 0; i < n; i++) { long v = sx_int(("c" + std::to_string(i)).c_str(), 0, 0xffff); t += (char16_t) v; want = sx_ite((v > want) & (v < 0x7fff), v, want); } sx_check(find_max_16bit_value(t) == want, "largest code below the reserved ones"); }
SX_HARNESS(joins_and_strips) { size_t n = pick("n", 0, 3); Strs v; std::string want, d = symStr("delimiter", 0, 1); for (size_t i = 0; i < n; i++) { v.push_back(symStr("s" + std::to_string(i), 0, 1)); if (i) want += d; want += v[i]; } sx_check(sameStr(join_strings(v, d), want), "joined in order with the delimiter between");
    std::string t = symStr("text", 0, 3 + sx_tier()); size_t a = 0, b = t.size(); while (b > 0 && spaceC(t[b - 1])) b--; sx_check(sameStr(trimEnd(t), t.substr(0, b)), "only trailing blanks are trimmed"); while (a < b && spaceC(t[a])) a++; sx_check(sameStr(strip(t), t.substr(a, b - a)), "only outer blanks are stripped"); } // opts: jobs=2
SX_HARNESS(split_texts) { static const float R[] = {0.f, 0.2f, 0.25f, 0.5f, 1.f}; float ratio = R[pick("ratio", 0, 4)]; size_t n = pick("n", 0, 9); Strs d, a, b; for (size_t i = 0; i < n; i++) d.push_back(std::to_string(i)); splitData(d, a, b, ratio); size_t want = (size_t) ((float) n * ratio); sx_check(b.size() == want && a.size() == n - want, "sides have their sizes"); a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); sx_check(a == d, "both sides together hold every text once");
    Strs s = sampleData(d, ratio); sx_check(s.size() == want, "sample size"); std::set<std::string> u(s.begin(), s.end()); sx_check(u.size() == s.size(), "a sample has no repeats"); for (auto &x: s) sx_check(std::find(d.begin(), d.end(), x) != d.end(), "a sample comes from the data"); }
SX_HARNESS(knowledge_folder) { int exists = pick("exists", 0, 1), over = pick("overwrite", 0, 1); std::string base = sub("models"), p = base + "/m"; if (exists) { std::filesystem::create_directories(p + "/inner"); spew(p + "/inner/w.bin", "kept"); spew(p + "/c.txt", "kept too"); } std::filesystem::create_directories(base + "/other"); spew(base + "/other/w.bin", "other"); std::string r = initialize_knowledge_path_directory(base, "m", over);
    sx_check(std::filesystem::is_directory(r), "the folder exists"); size_t n = 0; for (auto &e: std::filesystem::directory_iterator(r)) n++; sx_check(n == 0, "the folder is empty"); sx_check(slurp(base + "/other/w.bin") == "other", "other folders are left alone"); if (!exists || over) sx_check(r == p, "the folder asked for"); else { sx_check(r != p, "a new folder"); sx_check(slurp(p + "/inner/w.bin") == "kept" && slurp(p + "/c.txt") == "kept too", "what was saved before is kept"); sx_check(r.find("/m_") != std::string::npos, "a folder next to the old one"); } }
SX_HARNESS(trie) { Trie t; static const char *W[] = {"", "a", "ab", "abc", "b", "ac", "abd", "bb"}; size_t n = pick("words", 0, 2 + sx_tier()); Strs words, vals; for (size_t i = 0; i < n; i++) { std::string w = W[pick("w" + std::to_string(i), 0, 6)], v = "v" + std::to_string(i); t.insert(w, v); bool old = false; for (size_t k = 0; k < words.size(); k++) if (words[k] == w) { vals[k] = v; old = true; } if (!old) { words.push_back(w); vals.push_back(v); } }
    std::string q = W[pick("q", 0, 7)]; int at = -1; bool pre = q.empty(); std::string best = q; size_t len = 0; for (size_t k = 0; k < words.size(); k++) { if (words[k] == q) at = (int) k; if (words[k].compare(0, q.size(), q) == 0 && words[k].size() >= q.size()) { pre = true; len = std::max(len, words[k].size()); } }
    sx_check(t.search(q) == (at >= 0) && t.match(q) == (at >= 0), "a word is found exactly when inserted"); sx_check(t.startsWith(q) == pre, "a prefix is known exactly when a word has it"); sx_check(t.lookup(q) == (at >= 0 ? vals[at] : ""), "lookup gives the last value"); std::string c = t.complete(q); if (!pre) sx_check(c.empty(), "no completion of an unknown prefix"); else if (len <= q.size()) sx_check(c == q, "nothing longer"); else { bool in = false; for (auto &w: words) in |= w == c; sx_check(in && c.size() == len && c.compare(0, q.size(), q) == 0, "completion is a longest inserted word with the prefix"); } }
SX_HARNESS(trie_bytes) { Trie t; std::string a = symStr("a", 1, 1), b = symStr("b", 1, 1); t.insert(a, "A"); t.insert(b, "B"); bool eq = a == b; sx_check(t.lookup(b) == "B" && t.lookup(a) == (eq ? "B" : "A"), "any bytes"); std::string q = symStr("q", 1, 1); sx_check(t.search(q) == (q == a || q == b), "found exactly when inserted"); }
