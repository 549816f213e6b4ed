// S03: filters and list utilities keep exactly the lines that their criteria select
#include "script.h"
#include <set>
#include <map>
#include <algorithm>
using namespace std; using namespace script;
static string text(const V & v) { string r; for (auto & l : v) r += l + "\n"; return r; }
static Out ok(mc::Ctx & c, const string & s, const V & a, const string & in = "") { Out o = run(s, a, in); CHECK(o.code == 0, "failed", s << " " << join(a) << ": exit code " << o.code << ": " << tail(o.err)); return o; }
static void same(mc::Ctx & c, const V & got, const V & want, const string & key, const string & what) {
    if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; set<string> w(want.begin(), want.end()), g(got.begin(), got.end()); string k = key; if (i < want.size() && !g.count(want[i])) k += "-lost"; else if (i < got.size() && !w.count(got[i])) k += "-extra"; else k += "-order";
    CHECK(false, k, what << "\nline " << i + 1 << " is " << (i < got.size() ? got[i] : "<end>") << " instead of " << (i < want.size() ? want[i] : "<end>"));
}
// ---------------------------------------------------------------- length filter of parallel text
static string sent(int kind) { static const V S = {"", "a", "a b", "\303\251 b c", "a b c d ", "a  b", "0"}; return S[kind]; }
static int slen(int kind) { static const int N[] = {0, 1, 2, 3, 4, 2, 1}; return N[kind]; }
MC_SPACE(clean, 3) {
    int files = c.range(1, 3), mn = c.choose(4), mx = c.choose(5), kinds = 7; static const char * const MN[] = {"", "0", "1", "2"}, * const MX[] = {"", "1", "2", "3", "0"}; int min_ = mn == 0 ? 1 : atoi(MN[mn]), max_ = mx == 0 ? 60 : atoi(MX[mx]); vector<V> in(files), out(files); V ids; int n = 1; for (int i = 0; i < files; i++) n *= kinds; int id = 0;
    for (int x = 0; x < n; x++) { id++; int y = x; bool good = true; V l; for (int i = 0; i < files; i++) { int k = y % kinds; y /= kinds; l.push_back(sent(k)); good &= slen(k) >= min_ && slen(k) <= max_; } for (int i = 0; i < files; i++) in[i].push_back(l[i]); if (good) { for (int i = 0; i < files; i++) out[i].push_back(l[i]); ids.push_back(to_string(id)); } c.state(((uint64_t)(files * 100 + mn * 10 + mx) << 32) + x); }
    V a; if (mn) a.push_back(string("-min_len=") + MN[mn]); if (mx) a.push_back(string("-max_len=") + MX[mx]); a.push_back("-ids=" + dir() + "ids"); for (int i = 0; i < files; i++) a.push_back(put("in" + to_string(i), text(in[i]))); for (int i = 0; i < files; i++) { string o = dir() + "out" + to_string(i); unlink(o.c_str()); a.push_back(o); } c.describe(join(a)); c.step(n); ok(c, "train/clean-corpus.pl", a); for (int i = 0; i < files; i++) same(c, lines(get("out" + to_string(i))), out[i], "clean", join(a)); same(c, lines(get("ids")), ids, "ids", join(a)); c.checked(n);
}
MC_SPACE(clean_errors, 3) {
    int n = c.choose(4), m = c.choose(4), ex = c.choose(2), nl = c.choose(2); V A, B; for (int i = 0; i < n; i++) A.push_back("a" + to_string(i)); for (int i = 0; i < m; i++) B.push_back("b"); string o = dir() + "out0", p = dir() + "out1"; unlink(o.c_str()); unlink(p.c_str()); if (ex) put("out1", "precious\n"); string ta = text(A); if (nl && n) ta.pop_back(); c.describe(to_string(n) + " and " + to_string(m) + " lines" + (ex ? ", existing output" : "")); c.step(); Out r = run("train/clean-corpus.pl", {put("in0", ta), put("in1", text(B)), o, p}); bool bad = n != m || ex; CHECK((r.code != 0) == bad, "status", r.code << tail(r.err)); if (ex) CHECK(get("out1") == "precious\n", "overwritten", get("out1")); if (!bad) { same(c, lines(get("out0")), A, "clean", ""); same(c, lines(get("out1")), B, "clean", ""); }
}
// ---------------------------------------------------------------- rule tables
// an element of a source side: a word or a variable
typedef vector<string> Side;    // "x" stands for a variable
static bool isvar(const string & s) { return s == "x"; }
static string token(const string & e, int & n) { return isvar(e) ? "x" + to_string(n++) + ":NP" : "\"" + e + "\""; }
// the ways of writing a sequence as the source of a rule
static string shape(const Side & s, int how) {
    int n = 0; string r; if (how == 0) { for (auto & e : s) r += token(e, n) + " "; return r + "@ X"; }            // grammar rule
    if (how == 1) { r = "S ("; for (auto & e : s) r += " " + token(e, n); return r + " )"; }                          // flat
    if (how == 2) { r = "S ("; for (auto & e : s) r += isvar(e) ? " " + token(e, n) : " N ( " + token(e, n) + " )"; return r + " )"; }  // preterminals
    string open = "S (", close = " )"; r = open; for (size_t i = 0; i < s.size(); i++) { if (i + 2 < s.size() || i + 1 == s.size()) { r += " " + token(s[i], n); if (i + 1 < s.size()) { r += " B ("; close += " )"; } } else r += isvar(s[i]) ? " " + token(s[i], n) : " N ( " + token(s[i], n) + " )"; } return r + close;
}
static vector<Side> sides(const V & words, int len) { vector<Side> r, last(1); for (int l = 1; l <= len; l++) { vector<Side> nx; for (auto & s : last) { for (auto & w : words) { Side t = s; t.push_back(w); nx.push_back(t); } Side t = s; t.push_back("x"); nx.push_back(t); } r.insert(r.end(), nx.begin(), nx.end()); last = nx; } return r; }
static string asinput(const V & s, const string & fmt, int i) {
    if (s.empty() && fmt == "penn") return i ? "(())\n" : "\n"; if (s.empty() && fmt == "egret") return "sentence " + to_string(i + 1) + " :\n\n\n\n";
    if (fmt == "word") return join(s) + "\n"; if (fmt == "penn") { string r = "(S"; for (size_t k = 0; k < s.size(); k++) r += k % 2 ? " (NP (N " + s[k] + "))" : " (D " + s[k] + ")"; return r + ")\n"; }
    string r = "sentence " + to_string(i + 1) + " :\n" + join(s) + "\n"; for (size_t k = 0; k < s.size(); k++) r += "N[" + to_string(k) + "," + to_string(k) + "] => " + s[k] + " ||| 0\n"; return r + "S[0," + to_string(s.size() - 1) + "] => N[0,0] ||| 0\n\n";
}
static string input(const vector<V> & ss, const string & fmt) { string r; for (size_t i = 0; i < ss.size(); i++) r += asinput(ss[i], fmt, i); return r; }
static bool contains(const vector<V> & ss, const V & run, size_t lim) { if (run.size() > lim) return false; for (auto & s : ss) for (size_t i = 0; i + run.size() <= s.size(); i++) if (equal(run.begin(), run.end(), s.begin() + i)) return true; return false; }
// every run of words stands somewhere in the input
static bool runs(const Side & s, const vector<V> & ss, size_t lim) { V r; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || isvar(s[i])) { if (r.size() && !contains(ss, r, lim)) return false; r.clear(); } else r.push_back(s[i]); return true; }
// the side as a whole fits a part of one sentence, with at least a word per variable
static bool fitsat(const Side & s, size_t k, const V & w, size_t p) { if (k == s.size()) return true; if (p >= w.size()) return false; if (!isvar(s[k])) return w[p] == s[k] && fitsat(s, k + 1, w, p + 1); for (size_t q = p + 1; q <= w.size(); q++) if (fitsat(s, k + 1, w, q)) return true; return false; }
static bool fits(const Side & s, const vector<V> & ss) { bool word = false; for (auto & e : s) word |= !isvar(e); if (!word) return true; for (auto & w : ss) for (size_t p = 0; p < w.size(); p++) if (fitsat(s, 0, w, p)) return true; return false; }
static vector<V> sentences(int k) { static const vector<vector<V> > S = {{{"a"}}, {{"a", "b"}}, {{"b", "a", "c"}}, {{"a", "0", "b"}}, {{"a", "b"}, {"c", "a"}}, {{"a", "c", "b", "a"}}, {{"\"", "\\", "a"}}, {{"\343\200\200", "a"}, {"\303\251\302\240", "b"}}, {{"[x]", "a"}, {"b"}}, {{"@", "x0:NP"}, {"a"}}, {{}, {"a", "b"}, {}}}; return S[k]; }
static const V WORDS[] = {{"a", "b"}, {"a", "0"}, {"\"", "\\"}, {"\343\200\200", "\303\251\302\240"}, {"[x]", "a"}, {"@", "x0:NP"}};
static void table(mc::Ctx & c, int ns, int len, bool py) {
    int k = c.choose(ns), w = c.choose(6), how = c.choose(4), f = c.choose(py ? 5 : 3), extra = c.choose(py ? 2 : 5); static const V FMT = {"penn", "egret", "word", "penn", "word"}; vector<V> ss = sentences(k); c.require(f < 3 || k != 1); vector<Side> all = sides(WORDS[w], len); V in, out; size_t lim = extra == 4 ? 2 : 1000; int terms = extra == 1 ? 1 : extra == 3 ? 2 : 1000, nts = extra == 2 ? 1 : extra == 3 ? 0 : 1000;
    for (auto & s : all) for (int t = 0; t < 2; t++) { string l = shape(s, how) + " ||| " + (t ? "\"q\" @ X" : "x0:X @ X") + " ||| p=1 w=2"; if (t) l += " ||| 1 2 3 ||| 0-0"; in.push_back(l); int nw = 0, nv = 0; for (auto & e : s) (isvar(e) ? nv : nw)++; bool keep = py ? fits(s, ss) : nw <= terms && nv <= nts && runs(s, ss, lim); if (py && extra && t && nv) keep = false; if (keep) out.push_back(l); }
    V a; if (py) { if (f < 3) a.push_back("--format=" + FMT[f]); if (extra) a.push_back("--min-non-initial-rule-count=2"); a.push_back(put("src", input(ss, FMT[f]))); } else { a.push_back("-src=" + put("src", input(ss, FMT[f]))); if (f) a.push_back("-src-format=" + FMT[f]); if (extra == 1) a.push_back("-len=1"); if (extra == 2) a.push_back("-ntlen=1"); if (extra == 3) { a.push_back("-len=2"); a.push_back("-ntlen=0"); } if (extra == 4) a.push_back("-max-rule-len=2"); }
    c.describe(join(a) + "\n" + input(ss, FMT[f])); for (size_t i = 0; i < all.size(); i++) c.state((((uint64_t)(py * 10000 + k * 1000 + w * 100 + how * 10 + f) * 10 + extra) << 24) + i); c.step(in.size()); Out o = ok(c, py ? "train/filter-rule-table.py" : "train/filter-rt.pl", a, text(in)); same(c, lines(o.out), out, "rules", join(a) + " shape " + to_string(how) + " input\n" + input(ss, FMT[f])); c.checked(in.size());
}
MC_SPACE(filter_rt, 3) { table(c, 11, 4, false); }
MC_SPACE(filter_table, 3) { table(c, 11, 4, true); }
MC_SPACE(filter_rt_long, 2) { table(c, 11, 6, false); }
MC_SPACE(filter_table_long, 2) { table(c, 11, 6, true); }
// without a source text only the sizes count
MC_SPACE(filter_sizes, 3) { int how = c.choose(4), a = c.choose(4), b = c.choose(4); V in, out; for (auto & s : sides({"a", "b"}, 4)) { string l = shape(s, how) + " ||| \"q\""; in.push_back(l); int nw = 0, nv = 0; for (auto & e : s) (isvar(e) ? nv : nw)++; if (nw <= a && nv <= b) out.push_back(l); } c.describe("sizes " + to_string(a) + " " + to_string(b)); c.step(in.size()); same(c, lines(ok(c, "train/filter-rt.pl", {"-len=" + to_string(a), "-ntlen=" + to_string(b)}, text(in)).out), out, "sizes", "limits " + to_string(a) + " " + to_string(b)); }
// long runs of words (beyond the ten that the python filter indexes)
MC_SPACE(filter_runs, 3) {
    int n = c.range(8, 23), gap = c.choose(3), bad = c.choose(3), py = c.choose(2); V s; for (int i = 0; i < 24; i++) s.push_back("w" + to_string(i)); Side r; for (int i = 0; i < n; i++) r.push_back(gap == 1 && i == n / 2 ? "x" : gap == 2 && i >= n - 2 ? "x" : s[i]); if (bad == 1) r[n - 3] = "z"; if (bad == 2) swap(r[0], r[1]); vector<V> ss = {{"w0", "w1"}, s, {"z"}}; string l = shape(r, 1) + " ||| \"q\""; c.describe(l); c.step(); V want; if (py ? fits(r, ss) : runs(r, ss, 1000)) want.push_back(l); string f = put("src", input(ss, "word")); same(c, lines((py ? ok(c, "train/filter-rule-table.py", {"-f", "word", f}, l + "\n") : ok(c, "train/filter-rt.pl", {"-src", f, "-src-format", "word"}, l + "\n")).out), want, "runs", l);
}
// counts in the table
MC_SPACE(filter_counts, 3) {
    int d = c.choose(4); static const char * const T[] = {"0", "1", "2", "2.5"}; V in, out; for (auto & s : sides({"a", "b"}, 2)) for (int x = 0; x < 27; x++) { double n[3] = {1.0 * (x % 3) + 0.5, 1.0 * (x / 3 % 3) + 1, 1.0 * (x / 9) + 1}; ostringstream l; l << shape(s, 0) << " ||| \"q\" ||| p=1 ||| " << n[0] << " " << n[1] << " " << n[2] << " ||| "; in.push_back(l.str()); bool v = false; for (auto & e : s) v |= isvar(e); if (fits(s, {{"a", "b"}}) && (!v || n[0] >= atof(T[d]))) out.push_back(l.str()); } c.describe(string("count at least ") + T[d]); c.step(in.size()); same(c, lines(ok(c, "train/filter-rule-table.py", {"-f", "word", string("-c"), T[d], put("src", "a b\n")}, text(in)).out), out, "counts", T[d]);
}
// ---------------------------------------------------------------- filtering all tables of a model
MC_SPACE(model, 3) {
    int n = c.range(1, 3), names = c.choose(4), gz = c.choose(2), secs = c.choose(3), cmd = c.choose(2); system(("rm -rf '" + dir() + "m' '" + dir() + "o'").c_str()); mkdir((dir() + "m").c_str(), 0755); V files; string conf; V before, after; if (secs) { conf += "[threads]\n2\n\n"; } conf += "[tm_file]\n";
    for (int i = 0; i < n; i++) { string d = "m/d" + to_string(names >= 2 ? i : 0); mkdir((dir() + d).c_str(), 0755); string f = d + (names % 2 ? "/rt" : "/rt" + to_string(i)) + (gz ? ".gz" : ""); if (names == 1) f = d + "/rt-" + to_string(i * i) + (gz ? ".gz" : ""); files.push_back(f); string body; for (int k = 0; k < 3; k++) body += "S ( \"" + string(1, 'a' + k) + "\" ) ||| \"t" + to_string(i) + "\" ||| p=1\n"; put("plain", body); int rc = system(gz ? ("gzip -nc '" + dir() + "plain' > '" + dir() + f + "'").c_str() : ("cp '" + dir() + "plain' '" + dir() + f + "'").c_str()); (void)rc; conf += dir() + f + "\n"; }
    conf += "\n"; if (secs == 2) conf += "[weight_vals]\np=1\ntm_file=2\n\n"; put("in.ini", conf); c.describe(conf); c.step(); unlink((dir() + "out.ini").c_str());
    string fc = cmd ? "grep -v '\"b\"'" : "cat"; Out r = run("train/filter-model.pl", {dir() + "in.ini", dir() + "out.ini", dir() + "o/p", fc}); CHECK(r.code == 0, "failed", tail(r.err)); V a = lines(conf), b = lines(get("out.ini")); while (a.size() && a.back().empty()) a.pop_back(); while (b.size() && b.back().empty()) b.pop_back(); CHECK(a.size() == b.size(), "configuration", get("out.ini")); int k = 0; set<string> used;
    for (size_t i = 0; i < a.size(); i++) { if (k < n && a[i] == dir() + files[k]) { CHECK(b[i].compare(0, dir().size() + 3, dir() + "o/p") == 0 && used.insert(b[i]).second, "collision", get("out.ini")); CHECK((b[i].size() > 3 && b[i].substr(b[i].size() - 3) == ".gz") == (gz == 1), "zipped", b[i]); int rc = system(((gz ? "gzip -dc '" : "cat '") + b[i] + "' > '" + dir() + "plain'").c_str()); (void)rc; V w; for (int q = 0; q < 3; q++) if (!(cmd && q == 1)) w.push_back("S ( \"" + string(1, 'a' + q) + "\" ) ||| \"t" + to_string(k) + "\" ||| p=1"); same(c, lines(get("plain")), w, "model", b[i]); k++; } else CHECK(a[i] == b[i], "configuration", get("out.ini")); } CHECK(k == n, "configuration", get("out.ini")); system(("rm -rf '" + dir() + "m' '" + dir() + "o'").c_str());
}
// ---------------------------------------------------------------- frequencies, deleting rules, reduced features
MC_SPACE(frequency, 3) {
    int th = c.choose(4), ml = c.choose(4); V in, out; for (int l = 1; l < 4; l++) for (int x = 0; x < 8; x++) { string s = "N ("; for (int i = 0; i < l; i++) s += " \"a\""; s += " )"; ostringstream o; o << s << " ||| \"q\" ||| p=1 ||| " << x / 2.0 << " 9 9 ||| 0-0"; in.push_back(o.str()); if (!(x / 2.0 <= (th ? th - 1 : 1) && (!ml || l + 3 >= ml + 3))) out.push_back(o.str()); } V a; if (th) a.push_back("-threshold=" + to_string(th - 1)); if (ml) a.push_back("-min-len=" + to_string(ml + 3)); c.describe(join(a)); c.step(in.size()); same(c, lines(ok(c, "filter/filter-infrequent.pl", a, text(in)).out), out, "frequency", join(a));
}
MC_SPACE(deleting, 3) {
    int inv = c.choose(2); static const V L = {"dt", "NN", "IN", "PRP$", "VB", "\345\212\251"}; V in, out; for (auto & x : L) for (auto & y : L) for (int t = 0; t < 3; t++) for (int s = 0; s < 3; s++) { string src = s == 0 ? x + " ( \"a\" )" : s == 1 ? "S ( " + x + " ( \"a\" ) " + y + " ( \"b\" ) )" : "S ( x0:" + x + " " + y + " ( \"b\" ) )"; string l = src + " ||| " + (t == 0 ? "x0:X" : t == 1 ? "\"q\"" : "") + (t < 2 ? " @ X" : "@ X") + " ||| p=1"; auto can = [](const string & q) { return q != "NN" && q != "VB"; }; bool good = t == 1 || (s == 0 ? can(x) : s == 1 ? can(x) && can(y) : can(y)); in.push_back(l); if (good != (inv == 1)) out.push_back(l); } c.describe(inv ? "show filtered" : "keep"); c.step(in.size()); V a; if (inv) a.push_back("-show-filtered"); same(c, lines(ok(c, "filter/filter-null.pl", a, text(in)).out), out, "deleting", join(a));
}
MC_SPACE(reduce, 3) {
    int w = c.choose(27); static const double W[3] = {0, 0.5, -2}; static const V N = {"p", "tl_a=b", "w"}; string conf = "[weight_vals]\n"; double ws[3]; int y = w; for (int i = 0; i < 3; i++) { ws[i] = W[y % 3]; y /= 3; ostringstream o; o << N[i] << "=" << ws[i] << "\n"; conf += o.str(); } conf += "\n[x]\ny=3\n"; V in; vector<double> want; for (int k = 0; k < 64; k++) { string f; double v = 0; int z = k; for (int i = 0; i < 3; i++) { int q = z % 4; z /= 4; if (q) { double d = q == 1 ? 1 : q == 2 ? -1.5 : 0.25; ostringstream o; o << (f.size() ? " " : "") << N[i] << "=" << d; f += o.str(); v += d * ws[i]; } } in.push_back("S ( \"a\" ) ||| \"q\" ||| " + f + " ||| 1 1 1 ||| 0-0"); want.push_back(v); } c.describe(conf); c.step(in.size()); V o = lines(ok(c, "train/reduce-features.pl", {put("conf", conf)}, text(in)).out); CHECK(o.size() == in.size(), "lines", o.size()); for (size_t i = 0; i < o.size(); i++) { V x = fields(o[i], " ||| "); CHECK(x.size() >= 3 && x[0] == "S ( \"a\" )" && x[1] == "\"q\"" && x[2].compare(0, 5, "rule=") == 0 && fabs(atof(x[2].c_str() + 5) - want[i]) < 1e-5, "reduced", o[i] << " instead of " << want[i]); }
}
// ---------------------------------------------------------------- n-best lists
static string nline(int id, int w, int f) { static const V W = {"a", "b c"}, F = {"p=1 w=2", "w=2 p=1", "p=2"}; return to_string(id) + " ||| " + W[w] + " ||| " + (f == 2 ? "-1" : "-2") + " ||| " + F[f]; }
static string nkey(const string & l) { V x = fields(l, " ||| "); V f = words(x[3]); sort(f.begin(), f.end()); return x[0] + "|" + x[1] + "|" + join(f); }
static V nbest(mc::Ctx & c, int maxid, int per, int kinds) { V r; for (int id = 0; id <= maxid; id++) { int n = c.choose(per + 1); for (int i = 0; i < n; i++) { int k = c.choose(kinds); r.push_back(nline(id, k & 1, k / 2)); } } return r; }
static void uniq(mc::Ctx & c, int prev, int ids, int per, int kinds, int perin) {
    vector<V> p; V a; set<string> seen; for (int i = 0; i < prev; i++) { p.push_back(nbest(c, ids - 1, per, kinds)); for (auto & l : p[i]) seen.insert(nkey(l)); } V in = nbest(c, ids - 1, perin, kinds), out; for (auto & l : in) if (seen.insert(nkey(l)).second) out.push_back(l); for (int i = 0; i < prev; i++) a.push_back(put("prev" + to_string(i), text(p[i]))); string d; for (auto & x : p) d += "previous:\n" + text(x); c.describe(d + "input:\n" + text(in)); c.step(); same(c, lines(ok(c, "mert/nbest-uniq.pl", a, text(in)).out), out, "uniq", d + "input:\n" + text(in));
}
MC_SPACE(uniq, 3) { int k = c.choose(3); if (k == 0) uniq(c, 0, 2, 2, 5, 2); else if (k == 1) uniq(c, 1, 2, 1, 3, 1); else uniq(c, 2, 2, 1, 1, 1); }
MC_SPACE(uniq_gaps, 3) { int k = c.choose(2); if (k == 0) uniq(c, 1, 4, 1, 1, 1); else uniq(c, 1, 2, 2, 2, 1); }
MC_SPACE(uniq_deep, 2) { int k = c.choose(3); if (k == 0) uniq(c, 1, 2, 2, 3, 2); else if (k == 1) uniq(c, 2, 3, 1, 1, 1); else uniq(c, 1, 3, 1, 2, 1); }
MC_SPACE(number, 3) {
    int first = c.choose(4), last = c.choose(5), rebase = c.choose(4); V in = {"0 ||| a ||| 1 ||| p=1", "0 ||| 3 ||| x", "1 ||| b ||| 2", "2 ||| ||| ", "3 |||  ||| q", "10 ||| c"}, out; V a; int F = 0, L = -1, R = 0; if (first) { F = first == 3 ? 10 : first; a.push_back("-first=" + to_string(F)); } if (last) { L = last - 1; a.push_back("-last=" + to_string(L)); } if (rebase) { R = rebase == 3 ? 100 : rebase; a.push_back("-rebase=" + to_string(R)); } for (auto & l : in) { int id = atoi(l.c_str()); if (id < F || (L >= 0 && id > L)) continue; out.push_back(to_string(id - F + R) + l.substr(l.find(' '))); } c.describe(join(a)); c.step(); same(c, lines(ok(c, "mert/number-nbest.pl", a, text(in)).out), out, "number", join(a));
}
// ---------------------------------------------------------------- trees and text
MC_SPACE(limit, 3) { int n = c.choose(6); V in, out; for (int k = 0; k < 6; k++) for (int m = 0; m < 1 << k; m++) { V s; for (int i = 0; i < k; i++) s.push_back(m >> i & 1 ? "\303\251" : "0"); in.push_back(join(s)); if ((int)s.size() > n) s.resize(n); out.push_back(join(s)); } c.describe("limit " + to_string(n)); c.step(in.size()); same(c, lines(ok(c, "tree/limit-length.pl", {to_string(n)}, text(in)).out), out, "limit", to_string(n)); }
MC_SPACE(replace, 3) {
    int fmt = c.choose(2), n = c.range(0, 3); V a, b, out; string A, B, want; for (int i = 0; i < n; i++) { int k = c.choose(fmt ? 3 : 5); string w = "w" + to_string(i); if (fmt == 0) { string g = "(S (N " + w + "))", h = k == 0 ? "(S (V " + w + "))" : k == 1 ? "" : k == 2 ? "(())" : k == 3 ? "( (S (V " + w + ")))" : "(())"; if (k == 4) g = "( (S (N " + w + ")))"; A += g + "\n"; B += h + "\n"; string r = k == 1 || k == 2 || k == 4 ? g : h; if (r.compare(0, 2, "( ") == 0) r = "(ROOT " + r.substr(2); want += r + "\n"; }
        else { string g = "sentence " + to_string(i + 1) + " :\n" + w + "\nN[0,0] => " + w + " ||| 0\n\n", h = "sentence " + to_string(i + 1) + " :\n" + w + "\n"; h += k == 0 ? "V[0,0] => " + w + " ||| -1\n\n" : k == 1 ? "\n\n" : "V[0,0] => " + w + " ||| -1\nS[0,0] => V[0,0] ||| -2\n\n"; A += g; B += h; want += k == 1 ? g : h; } }
    c.describe("complete:\n" + A + "possibly failed:\n" + B); c.step(); Out o = ok(c, "tree/replace-failed-parse.pl", {fmt ? "-format=egret" : "-format=penn", put("c", A), put("f", B)}); same(c, lines(o.out), lines(want), "replace", "complete:\n" + A + "possibly failed:\n" + B);
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
