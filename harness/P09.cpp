// P09: scripts are read as written: tokens, statements, errors
#include "lang/interpreter.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs; typedef std::shared_ptr<TokenStream> Stream;
static bool blankC(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
// tokens are pieces of the text, in order; what lies between them is blanks and comments
static bool covers(const std::string &t, const Stream &s) { size_t at = 0; while (s->hasNext()) { auto k = s->next(); if (k->getOffset() < at || k->getOffset() + k->getLength() > t.size() || k->getLength() == 0 || !sameStr(k->getValue(), t.substr(k->getOffset(), k->getLength()))) return false; for (bool comment = false; at < k->getOffset(); at++) { if (t[at] == '#') comment = true; if (t[at] == '\n') comment = false; if (!comment && !blankC(t[at])) return false; } at += k->getLength(); } for (bool comment = false; at < t.size(); at++) { if (t[at] == '#') comment = true; if (t[at] == '\n') comment = false; if (!comment && !blankC(t[at])) return false; } return true; }
static void lexed(const std::string &t) { auto l = initializeHappymlLexer(); auto r = l->lex(t); auto s = r->getMatchStream(); if (s) sx_check(covers(t, s), "tokens are the pieces of the text"); else sx_check(!r->getMessage().empty(), "an error has a message"); }
SX_HARNESS(lex_any) { lexed(symStr("text", 0, 1 + sx_tier())); }
SX_HARNESS(lex_between) { static const char *F[] = {"at", "a1", "12", "\"s\"", "'", "#c", "."}; lexed(F[pick("before", 0, 6)] + symStr("byte", 1, 1) + F[pick("after", 0, 6)]); } // opts: tier=thorough
SX_HARNESS(lex_after) { static const char *F[] = {"at", "12", "\"s", "#c"}; lexed(F[pick("before", 0, 3)] + symStr("byte", 1, 1)); }
static const char *KW[] = {"create", "dataset", "datasets", "at", "task", "to", "input", "with", "print", "limit"};
SX_HARNESS(keywords) { // keywords in any case, but only as whole words
    int k = pick("keyword", 0, 9), suf = pick("suffix", 0, 7); static const char *S[] = {"", " ", "x", "1", "_", "(", "\n", "S"}; std::string w = KW[k]; int up = pick("upper", 0, 2); for (size_t i = 0; i < w.size(); i++) if (up == 2 || (up == 1 && i % 2)) w[i] = (char) (w[i] - 32); std::string t = w + S[suf]; auto s = initializeHappymlLexer()->lex(t)->getMatchStream(); sx_check(s != nullptr, "lexed"); if (!s) return; auto n = s->next(); bool word = suf >= 2 && suf != 5 && suf != 6; std::string whole = word ? t : w; if (word && suf == 7 && (k == 1 || k == 4)) { sx_check(n->getLabel() == std::string("_") + KW[k] + "s", "longer keyword"); return; } sx_check(n->getValue() == whole, "the longest word"); sx_check(n->getLabel() == (word ? std::string("_word") : std::string("_") + KW[k]), "a keyword only when it is the whole word"); }
SX_HARNESS(strings) { // a string ends at the first quote that is not escaped
    char q = pick("quote", 0, 1) ? '"' : '\''; std::string b; size_t n = pick("length", 0, 2 + sx_tier()); for (size_t i = 0; i < n; i++) { int c = pick("c" + std::to_string(i), 0, 5); static const char C[] = {'"', '\'', '\\', '\n', '#', 0}; b += c == 5 ? (char) sx_int(("b" + std::to_string(i)).c_str(), 'a', 'z') : C[c]; } std::string t = std::string(1, q) + b + q + " x"; size_t end = 0; for (size_t i = 1; i < t.size(); i++) { if (t[i] == '\\' && i + 1 < t.size() && t[i + 1] == q) { i++; continue; } if (t[i] == q) { end = i; break; } }
    auto s = initializeHappymlLexer()->lex(t)->getMatchStream(); if (end == 0 || !s) return; auto k = s->next(); sx_check(k->getLabel() == "_string" && k->getLength() == end + 1, "string up to its closing quote"); }
SX_HARNESS(comments) { std::string b = symStr("comment", 0, 1 + sx_tier()); for (char c: b) sx_assume(c != '\n'); auto s = initializeHappymlLexer()->lex("at # " + b + "\nto#")->getMatchStream(); sx_check(s && s->size() == 2, "a comment runs to the end of its line"); if (s && s->size() == 2) { sx_check(s->next()->getLabel() == "_at" && s->next()->getLabel() == "_to", "what surrounds it stays"); } }
SX_HARNESS(numbers) { std::string a, b; size_t n = pick("digits", 0, 2), m = pick("decimals", 0, 2); int dot = pick("point", 0, 1); for (size_t i = 0; i < n; i++) a += (char) sx_int(("a" + std::to_string(i)).c_str(), '0', '9'); for (size_t i = 0; i < m; i++) b += (char) sx_int(("b" + std::to_string(i)).c_str(), '0', '9'); std::string t = a + (dot ? "." : "") + b; if (t.empty()) return; auto s = initializeHappymlLexer()->lex(t + " at")->getMatchStream(); sx_check(s && s->size() == 2, "one number"); if (!s) return; auto k = s->next(); sx_check(k->getLabel() == "_number" && sameStr(k->getValue(), t), "the whole number"); }
// ---- statements. OK: complete statements; CUT: how many leading words already form a statement of their own
static const Strs OK[] = {{"help"}, {"help", "dataset"}, {"exit"}, {"print", "raw", "d"}, {"print", "pretty", "d", "limit", "3"},
    {"create", "dataset", "d", "with", "given", "number", "a", "at", "0", "with", "expected", "label", "b", "at", "1", "using", "file", ":", "/", "/", "in", ".", "csv"},
    {"create", "dataset", "d", "with", "header", "with", "given", "number", "a", "(", "2", ")", "at", "0", "using", "file", ":", "/", "/", "in"},
    {"create", "dataset", "d", "with", "given", "image", "a", "(", "2", ",", "3", ")", "at", "0", "using", "file", ":", "/", "/", "in"},
    {"create", "dataset", "d", "with", "given", "image", "a", "(", "2", ",", "3", ",", "1", ")", "at", "0", "using", "https", ":", "/", "/", "in"},
    {"create", "task", "label", "t", "with", "goal", "speed", "with", "test", "e", "using", "d"},
    {"execute", "task", "t", "using", "dataset", "d"}, {"execute", "task", "t", "with", "label", "l", "using", "input", "(", "a", ":", "1", ",", "\"b c\"", ":", "\"x\"", ",", "v", ":", "[", "1", ",", "2.5", "]", ")"}};
static std::string text(const Strs &w, size_t n) { std::string t; for (size_t i = 0; i < n; i++) t += (i ? " " : "") + w[i]; return t; }
static std::shared_ptr<ParseResult> parsed(const std::string &t, const char *what) { std::shared_ptr<ParseResult> r; bool threw = throws([&] { r = initializeHappymlParser()->parse(t); }); sx_check(!threw && r, what); if (!r) return nullptr; sx_check(r->isSuccessful() ? r->getExecutable() != nullptr : !r->getMessage().empty(), "a statement or a message"); return r; }
SX_HARNESS(accepted) { int k = pick("statement", 0, 11), up = pick("upper", 0, 1), two = pick("followed by", 0, 2); std::string t = text(OK[k], OK[k].size()); if (up) for (char &c: t) if (c >= 'a' && c <= 'z') c = (char) (c - 32); if (two) t += std::string(two == 1 ? "\n" : " # note\n\n") + "print raw d\nexit"; auto r = parsed(t, "every documented statement parses"); sx_check(r && r->isSuccessful(), "every documented statement is accepted"); }
SX_HARNESS(truncated) { // a statement cut short anywhere is an error, never a crash
    int k = pick("statement", 0, 11); size_t n = pick("words", 0, 32); sx_assume(n < OK[k].size()); auto r = parsed(text(OK[k], n), "a cut statement parses or is reported"); if (!r) return; bool whole = n == 0 || (k == 1 && n == 1) || (k == 4 && n == 3) || (k == 5 && n >= 20) || (k == 6 && n >= 19) || (k == 7 && n >= 19) || (k == 8 && n >= 21); if (!(k >= 5 && k <= 8 && n >= OK[k].size() - 4)) sx_check(r->isSuccessful() == whole, "reported exactly when incomplete"); }
SX_HARNESS(replaced_word) { static const char *X[] = {"(", ")", "raw", "99999999999", ".", "\"s\"", "word", ":", "with", "[", "#", ","}; int k = pick("statement", 3, 11); size_t n = pick("at", 0, 32); sx_assume(n < OK[k].size()); Strs w = OK[k]; int x = pick("word", 0, 11); if (pick("insert", 0, sx_tier())) w.insert(w.begin() + (long) n, X[x]); else w[n] = X[x]; parsed(text(w, w.size()), "no text escapes as an exception"); }
SX_HARNESS(stray_byte) { int k = pick("statement", 3, 3 + sx_tier()); const Strs &w = OK[k]; size_t n = pick("at", 0, 4); sx_assume(n <= w.size()); std::string t; for (size_t i = 0; i < w.size(); i++) { if (i == n) t += symStr("byte", 1, 1); t += w[i] + " "; } if (n == w.size()) t += symStr("byte", 1, 1); parsed(t, "no text escapes as an exception"); }
SX_HARNESS(numbers_out_of_range) { static const char *N[] = {"2147483647", "2147483648", "99999999999999999999", "0", "1.5", "."}; std::string n = N[pick("number", 0, 5)]; static const char *A[] = {"print raw d limit ", "create dataset d with given number a at ", "create dataset d with given number a (", "execute task t using input (a: "}; static const char *B[] = {"", " using file://x", ") at 0 using file://x", ")"}; int k = pick("place", 0, 3); parsed(A[k] + n + B[k], "numbers out of range are reported"); }
SX_HARNESS(help_is_complete) { int k = pick("topic", 0, 6); static const char *H[] = {"", "dataset", "tasks", "future", "print raw d", "exit", "help task"}; auto r = parsed(std::string("help\n") + H[k], "help and what follows it"); sx_check(r && r->isSuccessful(), "help does not swallow the next statement"); }
