// P15: sorting a text file keeps exactly its lines, in order
#include "util/text_file_sorter.hpp"
#include "kit.hpp"
typedef std::vector<std::string> L;
static L linesOf(const std::string &path) { L l; std::ifstream f(path, std::ios::binary); std::string s; while (std::getline(f, s)) l.push_back(s); return l; }
static bool same(const std::string &a, const std::string &b) { return sameStr(a, b); }
static void verify(const L &in, const L &out, bool unique) {
    for (size_t i = 1; i < out.size(); i++) sx_check(unique ? out[i - 1] < out[i] : out[i - 1] <= out[i], "in byte order");
    for (auto &a: in) { if (a.empty()) continue; int m = 0, n = 0; for (auto &b: in) m += same(a, b); for (auto &b: out) n += same(a, b); sx_check(unique ? n == 1 : n == m, "every line is kept"); }
    for (auto &b: out) { bool found = false; for (auto &a: in) found = found | same(a, b); sx_check(found && !b.empty(), "no line is added"); } }
static void run(const L &in, bool header, const std::string &head, int chunk, bool unique, bool lastNewline) {
    std::string t = header ? head + "\n" : ""; for (size_t i = 0; i < in.size(); i++) t += in[i] + (i + 1 == in.size() && !lastNewline ? "" : "\n"); std::string d = sub("a"), e = sub("b"); std::filesystem::create_directories(d); std::filesystem::create_directories(e); spew(d + "/in.txt", t); spew(d + "/chunk_0.txt", "mine"); spew(e + "/chunk_0.txt", "mine too"); bool ok = FileSorter::sort(d + "/in.txt", e + "/out.txt", header, chunk, unique); sx_check(ok, "sorted"); L out = linesOf(e + "/out.txt"); if (header) { sx_check(!out.empty() && same(out[0], head), "the header stays first"); if (!out.empty()) out.erase(out.begin()); } verify(in, out, unique);
    sx_check(sameStr(slurp(d + "/in.txt"), t), "the source is untouched"); sx_check(slurp(d + "/chunk_0.txt") == "mine" && slurp(e + "/chunk_0.txt") == "mine too", "so are its neighbours"); int files = 0; for (auto &p: {d, e}) for (auto &f: std::filesystem::directory_iterator(p)) { (void) f; files++; } sx_check(files == 4, "nothing is left behind"); }
SX_HARNESS(any_lines) { // any bytes
    int n = pick("lines", 0, 2 + sx_tier()); L in; for (int i = 0; i < n; i++) { std::string s = symStr("l" + std::to_string(i), 0, 2); for (char c: s) sx_assume(c != '\n'); if (i == n - 1) sx_assume(!s.empty()); in.push_back(s); } run(in, pick("header", 0, 1), "h,i", pick("chunk", 1, 2), pick("unique", 0, 1), pick("newline", 0, 1)); } // opts: time=200
SX_HARNESS(chunks) { // more lines over more chunks
    int n = pick("lines", 3, 4 + sx_tier()); L in; for (int i = 0; i < n; i++) { static const char *w[] = {"b", "ab", "\xc3\xa9,1"}; in.push_back(w[pick("l" + std::to_string(i), 0, 2)]); } run(in, pick("header", 0, 1), "z", pick("chunk", 1, 4), pick("unique", 0, 1), true); } // opts: time=200
SX_HARNESS(header) { std::string h = symStr("header", 0, 2); for (char c: h) sx_assume(c != '\n'); run({"b", "a", "a"}, true, h, pick("chunk", 1, 2), pick("unique", 0, 1), true); }
SX_HARNESS(in_place) { std::string s = symStr("line", 1, 2); for (char c: s) sx_assume(c != '\n'); std::string p = sub("x.txt"); spew(p, "m\n" + s + "\nb\n"); sx_check(FileSorter::sort(p, p, false, pick("chunk", 1, 3), true), "sorted"); verify({"m", s, "b"}, linesOf(p), true); }
SX_HARNESS(missing) { sx_check(!FileSorter::sort(sub("nothing.txt"), sub("out.txt")), "a missing file is reported"); }
SX_HARNESS(larger) { // many lines over many chunks, long lines; one line is any short text
    static const int N[] = {12, 40, 150, 600}; int n = N[pick("lines", 0, 3)], shape = pick("content", 0, 3), c = pick("chunk", 0, 3), chunk = c == 0 ? std::max(1, n / 40) : c == 1 ? n / 12 : c == 2 ? n : n + 1; L in; for (int i = 0; i < n; i++) in.push_back(shape == 0 ? std::to_string(i * 37 % n) : shape == 1 ? std::to_string(n - i) + std::string(i * 13 % 50, 'z') : shape == 2 ? std::string(1, (char) ('a' + i % 3)) : std::string(i % 4 ? 100 : 2000, (char) ('a' + i % 2)) + std::to_string(i * 7 % 11)); if (n == 12 && c != 3 && shape < 3) { static const char *A[] = {"z,head", "1", "\x80", "a b", "aa"}; in[pick("where", 0, 1) * (n - 1)] = c == 2 ? symStr("any", 1, 1) : std::string(A[pick("any", 0, 4)]); } for (auto &s: in) for (char z: s) sx_assume(z != '\n'); bool unique = pick("unique", 0, 1), header = pick("header", 0, 1); if (n == 12) { run(in, header, "z,head", chunk, unique, true); return; }
    std::string t = header ? "z,head\n" : ""; for (auto &l: in) t += l + "\n"; spew(sub("in.txt"), t); sx_check(FileSorter::sort(sub("in.txt"), sub("out.txt"), header, chunk, unique), "sorted"); L out = linesOf(sub("out.txt")); if (header) { sx_check(!out.empty() && out[0] == "z,head", "the header stays first"); if (!out.empty()) out.erase(out.begin()); } std::sort(in.begin(), in.end()); if (unique) in.erase(std::unique(in.begin(), in.end()), in.end()); sx_check(out == in, "exactly the lines, in order"); } // opts: time=200
