// P10: what running a script does: order, errors, exit, files and interactive sessions alike
#include "lang/interpreter.hpp"
#include "kit.hpp"
typedef std::vector<std::string> Strs;
struct Run { std::string out, err; bool done, threw; };
static Run run(InterpreterSession &s, const std::string &t, int how = 0) { Run r{}; if (how) spew(sub("script.happyml"), t); sx_cap_begin(std::cout); sx_cap_begin(std::cerr); try { r.done = how ? s.interpretFile(sub("script.happyml")) : s.interpretCommands(t); } catch (const std::exception &) { r.threw = true; } r.err = sx_cap_end(std::cerr); r.out = sx_cap_end(std::cout); return r; }
static Run run(const std::string &t, int how = 0) { InterpreterSession s(initializeHappymlParser()); return run(s, t, how); }
static std::string cli(const std::string &in) { InterpreterSession s(initializeHappymlParser()); sx_stdin(in); sx_cap_begin(std::cout); sx_cap_begin(std::cerr); try { s.interactiveInterpret(); } catch (const std::exception &) { std::cout << "threw"; } std::string e = sx_cap_end(std::cerr); return sx_cap_end(std::cout); }
static size_t lines(const std::string &t) { size_t n = 0; for (char c: t) n += c == '\n'; return n; }
static bool has(const std::string &t, const std::string &p) { return t.find(p) != std::string::npos; }
static std::string put(const std::string &name, const std::string &text) { std::string p = sub(name); spew(p, text); return "file://" + p; }
static std::string dataset(const std::string &name, size_t rows) { sx_real_hash(); std::string t; for (size_t i = 0; i < rows; i++) t += std::to_string(i) + "," + std::string(1, (char) ('a' + i)) + "\n"; return "create dataset " + name + " with given number n at 0 with expected label l at 1 using " + put(name + ".csv", t); }
static std::string bin(const std::string &name) { return "../happyml_repo/datasets/" + name + "/dataset.bin"; }
static const char *ST[] = {"help", "help dataset", "HELP Future", "exit", "print raw d", "print pretty d limit 1", "print raw nowhere", "execute task nothing using dataset d", "create dataset x with given number n at 0 using file://nofile.csv", "create task label t using nowhere"};
static bool fails(int k) { return k >= 6; }
static Run alone[10];
SX_HARNESS(in_order) { // statements run one after the other until one fails or exits; files do what text does
    if (run(dataset("d", 3)).err != "") { sx_check(0, "dataset"); return; } size_t n = pick("statements", 0, 2 + sx_tier()); int how = pick("from a file", 0, 1), sep = pick("separator", 0, 2); static const char *SEP[] = {"\n", " ", " # note\n\n  "}; std::string t, out, err; bool stop = false, done = false;
    for (size_t i = 0; i < n; i++) { int k = pick("s" + std::to_string(i), 0, 9); Run a = run(ST[k]); sx_check(!a.threw && a.err.empty() != fails(k) && a.done == (k == 3), "a statement succeeds or says why not"); t += std::string(ST[k]) + SEP[sep]; if (!stop) { out += a.out; err += a.err; } if (k == 3 && !stop) done = true; if (fails(k) || k == 3) stop = true; }
    Run r = run(t, how); sx_check(!r.threw && r.out == out, "each statement runs once, in order, up to the first failure or exit"); sx_check(r.err == err, "the failure is reported"); sx_check(r.done == done, "exit is reported exactly when reached"); }
SX_HARNESS(parse_failure) { // a script that does not parse does nothing at all
    static const char *BAD[] = {"create", "nonsense", "print", "print sideways d", "create dataset", "execute task", "create task label", ")", "create dataset x with given number a at x using file://f.csv"}; int k = pick("bad", 0, 8), where = pick("where", 0, 1), how = pick("from a file", 0, 1); std::string good = "help\n" + dataset("d", 2) + "\nexit\n"; Run r = run(where ? good + BAD[k] : std::string(BAD[k]) + "\n" + good, how);
    sx_check(!r.threw && r.out.empty() && !r.done, "nothing runs"); sx_check(!r.err.empty(), "the error is reported"); sx_check(!std::filesystem::exists(bin("d")), "nothing is created"); }
SX_HARNESS(interactive) { // an interactive session does line by line what scripts do, and goes on after errors
    if (run(dataset("d", 2)).err != "") { sx_check(0, "dataset"); return; } std::string head = cli(""), in, out = head; size_t n = pick("lines", 0, 2 + sx_tier()); bool over = false; int eof = pick("ends without newline", 0, 1);
    for (size_t i = 0; i < n; i++) { int k = pick("l" + std::to_string(i), -3, 8); std::string l = k == -3 ? "" : k == -2 ? "  \t" : k == -1 ? "create" : ST[k]; in += l + (eof && i + 1 == n ? "" : "\n"); bool read = !(eof && i + 1 == n && l.empty()); if (!over && read) { out += run(l).out; if (k == 3) over = true; else out += "> "; } }
    sx_check(cli(in) == out, "the session answers every line until exit"); sx_check(has(head, "> ") && has(head, "help"), "greeting and prompt"); }
SX_HARNESS(continued_lines) { // a line ending in a backslash goes on on the next one
    if (run(dataset("d", 3)).err != "") { sx_check(0, "dataset"); return; } static const char *W[] = {"print", "raw", "d", "limit", "2"}; std::string in; for (int i = 0; i < 5; i++) { in += W[i]; if (i < 4) { static const char *J[] = {" ", " \\\n", " \\ \n", "\\\n", "\\\n "}; in += J[pick("join" + std::to_string(i), 0, i < 2 || sx_tier() ? 4 : 1)]; } } std::string out = cli(in + "\nexit\n"); sx_check(out == cli("print raw d limit 2\nexit\n"), "the same as on one line"); sx_check(has(out, "0") && lines(out) >= 5, "two rows"); }
SX_HARNESS(files) { // scripts that cannot be read are reported; several scripts share a session
    Run r{}; InterpreterSession s(initializeHappymlParser()); sx_check(throws([&] { s.interpretFile(sub("nothere.happyml")); }), "a missing script is reported"); std::string a = dataset("d", 2); r = run(s, a, 1); sx_check(!r.done && r.err.empty(), "created"); sx_check(std::filesystem::exists(bin("d")), "datasets outlive their script"); r = run(s, "print raw d", 1); sx_check(r.err.empty() && !r.out.empty(), "and serve the next"); r = run(s, "", 1); sx_check(!r.done && r.err.empty() && r.out.empty(), "an empty script does nothing"); }
SX_HARNESS(again) { // creating a dataset twice keeps the first
    std::string a = dataset("d", 2); Run r = run(a); std::string b = slurp(bin("d")); put("d.csv", "7,z\n"); Run q = run(a); sx_check(r.err.empty() && !q.threw && has(q.out, "already exists"), "said"); sx_check(slurp(bin("d")) == b, "unchanged"); }
SX_HARNESS(limits) { // print shows the first rows, all of them without a limit
    size_t n = pick("rows", 1, 3); run(dataset("d", n)); int l = pick("limit", 0, 4), raw = pick("raw", 0, 1); std::string p = raw ? "print raw d" : "PRINT PRETTY d"; Run a = run(p), r = run(p + (l ? " limit " + std::to_string(l) : "")); size_t m = l == 0 ? n : std::min((size_t) l, n); sx_check(r.err.empty() && a.out.compare(0, r.out.size(), r.out) == 0, "the first rows"); sx_check(lines(a.out) - lines(r.out) == n - m, "as many as asked for"); if (!raw) for (size_t i = 0; i < n; i++) sx_check(has(r.out, std::string("\n") + (char) ('a' + i) + "|") == (i < m), "labels as given"); }
SX_HARNESS(shapes) { // a column's declared shape and place decide what is read from the file
    sx_real_hash(); int form = pick("form", 0, 3), r = pick("rows", 1, 2), c = pick("columns", 1, 2), ch = pick("channels", 1, 2), at = pick("at", 0, 2), header = pick("header", 0, 1), first = pick("expected first", 0, 1), up = pick("upper", 0, 1); if (form < 3) sx_assume(ch == 1); if (form < 2) sx_assume(r == 1); if (form < 1) sx_assume(c == 1);
    std::string dim = form == 0 ? "" : form == 1 ? "(" + std::to_string(c) + ")" : form == 2 ? "(" + std::to_string(r) + "," + std::to_string(c) + ")" : "(" + std::to_string(r) + ", " + std::to_string(c) + ", " + std::to_string(ch) + ")"; size_t n = (size_t) r * c * ch, w = (size_t) at + n + 1; std::string t, k = "zyx";
    if (header) { for (size_t i = 0; i < w; i++) t += (i ? ",h" : "h") + std::to_string(i); t += "\n"; } for (int row = 0; row < 2; row++) { for (size_t i = 0; i < w; i++) t += (i ? "," : "") + (i == w - 1 ? "l" + std::to_string(row) : std::to_string(row * 20 + (int) i)); t += "\n"; }
    std::string g = " with given number Value" + dim + " at " + std::to_string(at), e = " with expected label Kind at " + std::to_string(w - 1), s = std::string("create dataset d") + (header ? " with header" : "") + (first ? e + g : g + e) + " using "; if (up) for (char &q: s) if (q >= 'a' && q <= 'z' && q != 'd') q = (char) (q - 32); Run x = run(s + put("d.csv", t)); sx_check(!x.threw && x.err.empty(), "created"); if (!x.err.empty() || x.threw) return;
    BinaryDatasetReader d(bin("d")); sx_check(d.rowCount() == 2 && d.get_given_names().size() == 1 && d.get_expected_names().size() == 1, "rows and columns"); auto m = d.get_given_metadata()[0]; sx_check(m->rows == r && m->columns == c && m->channels == ch && m->purpose == 'N', "the declared shape"); sx_check(up || (d.get_given_names()[0] == "Value" && d.get_expected_names()[0] == "Kind"), "names");
    auto labels = d.get_expected_metadata()[0]->ordered_labels; sx_check(labels.size() == 2, "labels"); for (int row = 0; row < 2; row++) { auto rec = d.readRow(row); auto v = rec.first[0]; sx_check(v->rowCount() == (size_t) r && v->columnCount() == (size_t) c && v->channelCount() == (size_t) ch, "tensor shape"); RawDecoder raw; auto dec = build_given_decoders(false, d)[0]; auto strs = record_to_strings(dec, rec.first[0]); sx_check(strs.size() >= 1, "shown"); bool one = rec.second[0]->getValue(0, 0, 0) == 1.0f; std::string l = labels[one ? 0 : 1]; int src = l == "l0" ? 0 : 1; float lo = v->getValue(0, 0, 0); sx_check(lo == (src ? 1.0f : 0.0f) || n > 1, "scaled"); (void) src; }
    auto p = d.readRow(0), q = d.readRow(1); bool r0 = labels[p.second[0]->getValue(0, 0, 0) == 1.0f ? 0 : 1] == "l0"; auto a = r0 ? p.first[0] : q.first[0], b = r0 ? q.first[0] : p.first[0]; float span = 20.0f + (float) (n - 1); int ok = 1; size_t i = 0; for (int z = 0; z < ch; z++) for (int y = 0; y < r; y++) for (int xx = 0; xx < c; xx++, i++) ok &= within(a->getValue(y, xx, z), (float) i / span, 1e-5f) & within(b->getValue(y, xx, z), ((float) i + 20.0f) / span, 1e-5f); sx_check(ok, "values row by row from the declared place, scaled to the column's range"); }
SX_HARNESS(inputs_as_written) { // the inputs of a task are what the script says, quotes undone, names in any case
    char q = pick("quote", 0, 1) ? '"' : '\''; static const char *V[] = {"1.5", "word", "", "a b", "it\\q", "\\q\\q", "\\\\x", "#no", "12"}; int v = pick("value", 0, 8), key = pick("quoted name", 0, 1), many = pick("list", 0, 1); std::string body = V[v], want; bool quoted = v >= 2; for (size_t i = 0; i < body.size(); i++) if (body[i] == 'q' && v >= 4 && v <= 5) body[i] = q; want = body; if (quoted) { std::string u; for (size_t i = 0; i < want.size(); i++) { if (want[i] == '\\' && i + 1 < want.size() && want[i + 1] == q) continue; u += want[i]; } want = u; body = q + body + q; }
    std::filesystem::create_directories("../happyml_repo/tasks"); std::string t = std::string("execute task nothing using input (") + (key ? "\"My Name\"" : "MyName") + ": " + (many ? "[" + body + ", 7]" : body) + ")"; Run r = run(t); sx_check(!r.threw && !r.done, "reported"); sx_check(has(r.err, std::string(key ? "my name" : "myname") + ": " + want + (many ? ", 7\n" : "\n")), "the value as written"); }
