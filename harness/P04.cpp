// P04: delimited text
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"
#include "kit.hpp"
static bool sp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static std::string trimmed(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
static const char DELIMS[] = {',', ':', '\t', '|'};
static char delim(int n = 3) { return DELIMS[pick("delimiter", 0, n)]; }

SX_HARNESS(codec) {
    std::string s = symStr("s", 0, 4 + sx_tier()); char d = (char) sx_int("delimiter", -128, 127);
    std::string e = TextEncoderDecoder::encodeString(s, d); sx_check(sameStr(TextEncoderDecoder::decodeString(e, d), s), "decode undoes encode");
    int clean = 1; for (char c: e) clean &= (c != d) & (c != '\n'); int reserved = (d == '<') | (d == '_') | (d == '~') | (d == 'D') | (d == 'N') | (d == '>');
    sx_check(clean | reserved, "encoded text holds neither the delimiter nor a line break");
}
SX_HARNESS(decode_any) {
    std::string s = symStr("s", 0, 5 + sx_tier()); std::string r = TextEncoderDecoder::decodeString(s, ','); sx_check(r.size() <= s.size(), "decoding never grows the text");
    int plain = 1; for (char c: s) plain &= c != '<'; if (plain) sx_check(sameStr(r, s), "text without escapes is unchanged");
}
static void roundTrip(const std::string &v, char d) {
    std::string t = trimmed(v); if (!t.empty()) sx_assume(!((t[0] == '"') & (t[t.size() - 1] == '"'))); // a value already in quotes: see quoted
    std::string path = sub("r.txt"); { DelimitedTextFileWriter w(path, d); w.writeRecord({"first", v, "last one"}); w.writeRecord({v}); w.writeRecord({"-1.5", "", "x"}); w.close(); }
    DelimitedTextFileReader r(path, d); sx_check(r.hasNext(), "has a record"); auto a = r.nextRecord(); sx_check(a.size() == 3, "number of columns survives"); if (a.size() == 3) { sx_check(a[0] == "first" && a[2] == "last one", "other columns survive"); sx_check(sameStr(a[1], t), "value survives, but for outer blanks"); }
    sx_check(r.hasNext(), "has a second record"); auto b = r.nextRecord(); sx_check(b.size() == 1, "number of columns survives"); if (b.size() == 1) sx_check(sameStr(b[0], t), "value survives, but for outer blanks");
    sx_check(r.hasNext(), "has a third record"); auto c = r.nextRecord(); sx_check(c.size() == 3 && c[0] == "-1.5" && c[1].empty() && c[2] == "x", "third record"); sx_check(!r.hasNext(), "no more records");
}
SX_HARNESS(record) { roundTrip(symStr("v", 0, 3), delim()); }
SX_HARNESS(record_long) { std::string v = symStr("v", 1, 2); static const char *pre[] = {"1", "12.5 a", "<~N", "a\"\"", "\"a", "<~D>,", "-3e5,"}; roundTrip(pre[pick("prefix", 0, 6)] + v, delim(1)); } // opts: time=200
SX_HARNESS(quoted) { // a value that comes with its own enclosing quotes is stored as that quoted text and read back without them
    std::string v = symStr("v", 1, 2 + sx_tier()); char d = delim(1); std::string t = trimmed(v); sx_assume(!sp(v[0]) & !sp(v[v.size() - 1]));
    std::string path = sub("r.txt"); { DelimitedTextFileWriter w(path, d); w.writeRecord({"\"" + v + "\"", "z"}); }
    DelimitedTextFileReader r(path, d); auto a = r.nextRecord(); sx_check(a.size() == 2 && a[1] == "z", "columns survive"); sx_check(sameStr(a[0], v), "quoted text survives"); sx_check(!r.hasNext(), "no more records");
}
SX_HARNESS(standard_csv) { // conventional quoting: doubled quotes, delimiters and line breaks inside quotes, CRLF or LF line ends
    std::string v = symStr("v", 0, 3), q = "\""; if (pick("between letters", 0, 1)) { if (v.size() > 2) return; v = "a" + v + "b"; } for (char c: v) { sx_assume(c != '<'); if (c == '"') q += '"'; q += c; } q += "\""; std::string nl = pick("crlf", 0, 1) ? "\r\n" : "\n"; int lastNl = pick("final line break", 0, 1), header = pick("header", 0, 1);
    spew(sub("s.csv"), std::string("h1,h2,h3") + nl + "plain," + q + ",7" + nl + q + ",,x" + (lastNl ? nl : ""));
    DelimitedTextFileReader r(sub("s.csv"), ',', header); if (!header) { auto h = r.nextRecord(); sx_check(h.size() == 3 && h[0] == "h1" && h[2] == "h3", "header is the first record"); }
    auto a = r.nextRecord(); sx_check(a.size() == 3 && a[0] == "plain" && a[2] == "7", "plain columns"); if (a.size() == 3) sx_check(sameStr(a[1], trimmed(v)), "quoted column");
    sx_check(r.hasNext(), "has next"); auto b = r.nextRecord(); sx_check(b.size() == 3 && b[1].empty() && b[2] == "x", "plain columns"); if (b.size() == 3) sx_check(sameStr(b[0], trimmed(v)), "quoted column at the start of a line"); sx_check(!r.hasNext(), "no more records");
}
SX_HARNESS(any_file) { // any bytes: records or one clean error, never more records than lines, always an end
    std::string s = symStr("s", 0, 4 + sx_tier()); spew(sub("a.csv"), s); size_t lines = 0; for (char c: s) lines += c == '\n'; lines++;
    DelimitedTextFileReader r(sub("a.csv"), ',', pick("header", 0, 1)); size_t n = 0; bool bad = false; while (r.hasNext() && n < 10 && !bad) { try { r.nextRecord(); n++; } catch (const std::runtime_error &e) { bad = true; } }
    sx_check(n <= lines, "no more records than lines"); sx_check(!r.hasNext() || bad, "reading ends"); size_t quotes = 0; for (char c: s) quotes += c == '"'; sx_check(!bad || quotes > 0, "only an unclosed quote is an error");
}
SX_HARNESS(lines) { // every line of every file of a directory (or of one file) is served once, headers excepted
    int dir = pick("directory", 0, 1), skip = pick("header", 0, 1); size_t files = dir ? 3 : 1; std::vector<std::string> want; std::string base = sub("in"); if (dir) std::filesystem::create_directories(base);
    for (size_t f = 0; f < files; f++) { int n = pick("lines" + std::to_string(f), 0, 2), nl = n ? pick("final line break" + std::to_string(f), 0, 1) : 1; std::string t; for (int i = 0; i < n; i++) { std::string l = "f" + std::to_string(f) + "l" + std::to_string(i); t += l; if (i + 1 < n || nl) t += "\n"; if (i >= skip) want.push_back(l); } spew(dir ? base + "/f" + std::to_string(f) + ".txt" : base, t); }
    TextLinePathReader r(base, skip); std::vector<std::string> got; while (r.hasNext() && got.size() < 20) got.push_back(r.nextLine());
    if (dir) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); } sx_check(got == want, "every data line exactly once"); sx_check(r.nextLine().empty() && !r.hasNext(), "nothing after the end");
    TextLinePathReader none(sub("missing"), skip); sx_check(!none.hasNext() && !none.is_open(), "a missing file has no lines");
}
SX_HARNESS(tsv_to_csv) {
    std::string v = symStr("v", 0, 3); for (char c: v) sx_assume((c != '\t') & (c != '\n') & (c != '<') & (c != '"'));
    spew(sub("t.tsv"), "a\t" + v + "\t1\n" + v + "\tb, c\n"); sx_check(convert_tsv_to_csv(sub("t.tsv"), sub("t.csv")), "converted");
    DelimitedTextFileReader r(sub("t.csv"), ','); auto a = r.nextRecord(); sx_check(a.size() == 3 && a[0] == "a" && a[2] == "1" && sameStr(a[1], trimmed(v)), "first record"); auto b = r.nextRecord(); sx_check(b.size() == 2 && b[1] == "b, c" && sameStr(b[0], trimmed(v)), "second record"); sx_check(!r.hasNext(), "no more records");
    sx_check(!convert_tsv_to_csv(sub("missing"), sub("m.csv")), "missing source is reported");
}
SX_HARNESS(txt_to_csv) { // every word of the text lands in exactly one cell, in order, and cells respect the limit
    size_t n = pick("words", 1, 3); int limit = pick("limit", 4, 7 + 2 * sx_tier()); std::string text; std::vector<std::string> words;
    size_t at = pick("word with any last character", 0, n - 1), back = pick("or the one before", 0, 1); for (size_t i = 0; i < n; i++) { int l = pick("length" + std::to_string(i), 0, 2); std::string x(l == 0 ? 1 : l == 1 ? 2 : 5, (char) ('a' + i)); if (i == at) { char c = (char) sx_int("c", 33, 126); sx_assume((c != '"') & (c != '<')); if (x.size() > 1 && back) x[x.size() - 2] = c; else x[x.size() - 1] = c; } words.push_back(x); text += (i ? " " : "") + x; }
    spew(sub("t.txt"), text); sx_check(convert_txt_to_csv(sub("t.txt"), sub("t.csv"), limit), "converted"); std::vector<std::string> got; DelimitedTextFileReader r(sub("t.csv"), ','); bool one = true, fits = true, empty = false;
    while (r.hasNext() && got.size() < 20) { auto c = r.nextRecord(); one &= c.size() == 1; size_t k = 0; std::string x; for (char ch: c[0] + " ") if (ch != ' ') x += ch; else if (!x.empty()) { got.push_back(x); x.clear(); k++; } empty |= k == 0; fits &= k <= 1 || (int) c[0].size() <= limit; }
    sx_check(one, "one cell per record"); int same = got.size() == words.size(); for (size_t i = 0; same && i < got.size(); i++) same &= sameStr(got[i], words[i]); sx_check(same, "every word exactly once and in order"); sx_check(fits, "cells respect the limit"); sx_check(!empty, "no empty cells"); sx_check(!convert_txt_to_csv(sub("missing"), sub("m.csv"), limit), "missing source is reported");
}
SX_HARNESS(config) {
    std::string v = symStr("v", 1, 3); std::string t = trimmed(v); sx_assume(t.empty() || !((t[0] == '"') & (t[t.size() - 1] == '"'))); std::vector<std::vector<std::string>> m{{"name", v}, {"shape", "3", "1", "2"}, {v, "0.125"}};
    std::filesystem::create_directories(sub("cfg")); spew(sub("cfg/old"), "stale"); save_config(sub("cfg"), "model.config", m); sx_check(!std::filesystem::exists(sub("cfg/old")), "old contents are replaced"); auto g = read_config(sub("cfg"), "model.config");
    sx_check(g.size() == 3, "number of settings"); if (g.size() == 3) { sx_check(g[0].size() == 2 && g[1].size() == 4 && g[2].size() == 2, "number of values"); if (g[0].size() == 2 && g[1].size() == 4 && g[2].size() == 2) { sx_check(g[0][0] == "name" && sameStr(g[0][1], t), "first setting"); sx_check(g[1] == m[1], "second setting"); sx_check(sameStr(g[2][0], t) && g[2][1] == "0.125", "third setting"); } }
}
SX_HARNESS(larger) { // long values, many columns, many records, many files; one character is any
    int kind = pick("kind", 0, 4); static const size_t LEN[] = {9, 127, 1024, 4097, 8191}; size_t len = LEN[pick("length", 0, 4)];
    auto text = [](size_t n, size_t seed) { static const char A[] = "abc def, gh\"i;:|\tj<~D>k\nl1234.5"; std::string s; for (size_t i = 0; i < n; i++) s += A[(i * 7 + seed * 3 + i / 31) % (sizeof A - 1)]; s[0] = 'x'; s[n - 1] = 'y'; return s; };
    if (kind < 2) { char d = delim(); size_t cols = kind == 0 ? 3 : 70, recs = kind == 0 ? 2 : 5; if (kind == 1 && len > 200) return; size_t at = pick("where", 0, 2) * (len - 1) / 2; std::vector<std::vector<std::string>> all; for (size_t i = 0; i < recs; i++) { all.emplace_back(); for (size_t c = 0; c < cols; c++) all[i].push_back(c % 9 == 4 ? std::to_string((int) (i * c) - 7) : text(kind == 0 ? len : 1 + (c * 11 + i) % len, i * cols + c)); } char any = (char) sx_int("c", -128, 127); if (at == 0 || at + 1 == len) sx_assume(!sp(any)); if (kind == 0) all[0][1][at] = any; { DelimitedTextFileWriter w(sub("r.txt"), d); for (auto &r: all) w.writeRecord(r); } DelimitedTextFileReader r(sub("r.txt"), d); int ok = 1; for (auto &want: all) { sx_check(r.hasNext(), "has a record"); auto got = r.nextRecord(); sx_check(got.size() == want.size(), "number of columns survives"); for (size_t i = 0; i < got.size() && i < want.size(); i++) ok &= sameStr(got[i], want[i]); } sx_check(ok, "values survive"); sx_check(!r.hasNext(), "no more records"); return; }
    if (kind == 2) { size_t files = 1 + len % 13; int skip = pick("header", 0, 1); std::vector<std::string> want; std::filesystem::create_directories(sub("in")); for (size_t f = 0; f < files; f++) { std::string t; size_t n = (f * 5 + len) % 23 + (f == 1 ? 200 : 0); for (size_t i = 0; i < n; i++) { std::string l = std::to_string(f) + ":" + std::to_string(i) + std::string((i * 37 + f) % 300, 'a'); t += l + (i + 1 < n || f % 2 ? "\n" : ""); if (i >= (size_t) skip) want.push_back(l); } spew(sub("in/f" + std::to_string(f)), t); } TextLinePathReader r(sub("in"), skip); std::vector<std::string> got; while (r.hasNext() && got.size() < want.size() + 9) got.push_back(r.nextLine()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); sx_check(got == want, "every data line exactly once"); return; }
    if (kind == 3) { size_t n = std::min(len, (size_t) 400); int limit = pick("limit", 0, 2) * 45 + 10; std::string t; std::vector<std::string> words; for (size_t i = 0; i < n; i++) { std::string x((i * 5) % 9 + 1, (char) ('a' + i % 26)); if (i % 7 == 3) x += "."; words.push_back(x); t += x + " "; } spew(sub("t.txt"), t); sx_check(convert_txt_to_csv(sub("t.txt"), sub("t.csv"), limit), "converted"); std::vector<std::string> got; DelimitedTextFileReader r(sub("t.csv"), ','); bool fits = true; while (r.hasNext() && got.size() < n + 9) { auto c = r.nextRecord(); std::string x; size_t k = 0; for (char ch: c[0] + " ") if (ch != ' ') x += ch; else if (!x.empty()) { got.push_back(x); x.clear(); k++; } fits &= k <= 1 || (int) c[0].size() <= limit; } sx_check(got == words, "every word exactly once and in order"); sx_check(fits, "cells respect the limit"); return; }
    std::string t; std::vector<std::vector<std::string>> want; for (size_t i = 0; i < 60; i++) { want.emplace_back(); for (size_t c = 0; c < 1 + i % 12; c++) { std::string x = c % 3 ? std::to_string((long) (i * 31 + c)) : "v, " + std::string((i * c) % len, 'q') + "z"; want[i].push_back(x); t += (c ? "\t" : "") + x; } t += "\n"; } spew(sub("t.tsv"), t); sx_check(convert_tsv_to_csv(sub("t.tsv"), sub("t.csv")), "converted"); DelimitedTextFileReader r(sub("t.csv"), ','); for (auto &w: want) { sx_check(r.hasNext(), "has a record"); sx_check(r.nextRecord() == w, "the same values"); } sx_check(!r.hasNext(), "no more records"); } // opts: time=200
