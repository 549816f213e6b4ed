// R05: the decoder program on small models, against all derivations written out
#include "mc.h"
#define RUN_CATCH_EXIT
#include "run.h"
#include "arpa.h"
#include <set>
#include <algorithm>
#include <memory>
#include <travatar/dict.h>
#include <travatar/hyper-graph.h>
#include <travatar/tree-io.h>
#include <travatar/global-debug.h>
#include <travatar/travatar-runner.h>
#include <travatar/config-travatar-runner.h>
using namespace std; using namespace travatar;
typedef vector<string> V; typedef map<string, double> F;
static string join(const V & v, const char * s = " ") { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? s : "") + v[i]; return r; }
static V words(const string & s) { V r; istringstream is(s); string w; while (is >> w) r.push_back(w); return r; }
static bool near(double a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(a)); }
static F feats(const string & s) { F f; for (const string & x : words(s)) { size_t p = x.rfind('='); f[x.substr(0, p)] += atof(x.c_str() + p + 1); } return f; }
static bool same(F a, const F & b) { for (auto & x : b) a[x.first] -= x.second; for (auto & x : a) if (fabs(x.second) > 1e-4 * 3) return false; return true; }
static string show(const F & f) { string r; for (auto & x : f) { ostringstream o; o << x.second; r += x.first + "=" + o.str() + " "; } return r; }
// ---- trees and patterns: label, children; words are leaves with quotes in patterns
struct T { string lab; bool word, var; vector<T> ch; T() : word(false), var(false) {} };
static T parse(const V & k, size_t & i) { T t; if (k[i] != "(") { t.lab = k[i++]; t.word = true; return t; } t.lab = k[++i]; i++; while (k[i] != ")") t.ch.push_back(parse(k, i)); i++; return t; }
static T tree(const string & s) { string x; for (char c : s) if (c == '(' || c == ')') x += string(" ") + c + " "; else x += c; V k = words(x); size_t i = 0; return parse(k, i); }
static T pat1(const V & k, size_t & i) { T t; string s = k[i++]; if (s[0] == '"') { t.word = true; t.lab = s.substr(1, s.size() - 2); return t; } if (s[0] == 'x' && isdigit(s[1])) { t.var = true; t.lab = s.substr(s.find(':') + 1); return t; } t.lab = s; i++; while (k[i] != ")") t.ch.push_back(pat1(k, i)); i++; return t; }
static T pat(const string & s) { V k = words(s); size_t i = 0; return pat1(k, i); }
static bool match(const T & p, const T & t, vector<const T *> & vs) { if (p.lab != t.lab || p.word != t.word) return false; if (p.var) { vs.push_back(&t); return true; } if (p.word) return true; if (p.ch.size() != t.ch.size()) return false; for (size_t i = 0; i < p.ch.size(); i++) if (!match(p.ch[i], t.ch[i], vs)) return false; return true; }
static T binar(const T & t, int dir) { if (t.word) return t; T r = t; for (T & x : r.ch) x = binar(x, dir); string bar = t.lab + "'"; if (t.lab.find('\'') != string::npos) return r; function<T(vector<T>, string)> mk = [&](vector<T> v, string lab) { T n; n.lab = lab; if (v.size() <= 2) { n.ch = v; return n; } if (dir == 1) { n.ch.push_back(v[0]); n.ch.push_back(mk(vector<T>(v.begin() + 1, v.end()), bar)); } else { n.ch.push_back(mk(vector<T>(v.begin(), v.end() - 1), bar)); n.ch.push_back(v.back()); } return n; }; return mk(r.ch, t.lab); }
static string penn(const T & t) { if (t.word) return t.lab; string r = "(" + t.lab; for (const T & x : t.ch) r += " " + penn(x); return r + ")"; }
static int len(const T & t) { if (t.word) return 1; int n = 0; for (const T & x : t.ch) n += len(x); return n; }
struct Rule { string src, trg; F f; T p; vector<V> t; string line; };     // target sides per factor: words or #0, #1
static vector<V> targets(const string & s) { vector<V> r(1); bool lab = false; for (const string & w : words(s)) { if (w == "|COL|") { r.push_back(V()); lab = false; } else if (w == "@") lab = true; else if (lab) continue; else if (w[0] == '"') r.back().push_back(w.substr(1, w.size() - 2)); else r.back().push_back("#" + w.substr(1, w.find(':') - 1)); } return r; }
static Rule rule(const string & src, const string & trg, const string & f) { Rule r; r.src = src; r.trg = trg; r.f = feats(f); r.t = targets(trg); r.line = src + " ||| " + trg + " ||| " + f; return r; }
struct D { vector<V> y; F f; vector<string> trace; string tr; double score; };   // tr: the tree of rules
static void add(F & a, const F & b) { for (auto & x : b) a[x.first] += x.second; }
static D apply(const vector<V> & t, const F & f, const string & src, const vector<D> & kids, const string & head) { D d; d.f = f; d.trace.push_back(head); for (const V & side : t) { size_t k = d.y.size(); d.y.push_back(V()); for (const string & w : side) if (w[0] == '#' && w.size() > 1) { const V & c = kids[atoi(w.c_str() + 1)].y[k]; d.y[k].insert(d.y[k].end(), c.begin(), c.end()); } else d.y[k].push_back(w); } for (const D & k : kids) { add(d.f, k.f); d.trace.insert(d.trace.end(), k.trace.begin(), k.trace.end()); } int v = 0; V o; for (const string & w : words(src)) if (w[0] == 'x' && isdigit(w[1])) o.push_back(kids[v++].tr); else o.push_back(w); d.tr = join(o); return d; }
static vector<vector<D> > prod(const vector<vector<D> > & k) { vector<vector<D> > r(1); for (auto & x : k) { vector<vector<D> > n; for (auto & a : r) for (auto & b : x) { n.push_back(a); n.back().push_back(b); } r.swap(n); } return r; }
static string span(int a, int b) { return "[" + to_string(a) + ", " + to_string(b) + "]"; }
static vector<D> t2s(const T & t, int at, const vector<Rule> & rs, bool all, int factors, const T * base, map<const T *, int> & pos) {
    vector<D> r; bool any = false; for (const Rule & q : rs) { vector<const T *> vs; if (!match(q.p, t, vs)) continue; any = true; vector<vector<D> > k; for (const T * v : vs) k.push_back(t2s(*v, pos[v], rs, all, factors, base, pos)); for (auto & c : prod(k)) r.push_back(apply(q.t, q.f, q.src, c, span(at, at + len(t)) + " ||| " + q.src + " ||| " + q.trg)); }
    if (!any || all) { vector<vector<D> > k; string src = t.lab + " ("; V trg, side; if (t.ch[0].word) { src += " \"" + t.ch[0].lab + "\""; trg.push_back("\"" + t.ch[0].lab + "\""); side.push_back(t.ch[0].lab); } else for (size_t i = 0; i < t.ch.size(); i++) { src += " x" + to_string(i) + ":" + t.ch[i].lab; trg.push_back("x" + to_string(i)); side.push_back("#" + to_string(i)); k.push_back(t2s(t.ch[i], pos[&t.ch[i]], rs, all, factors, base, pos)); } src += " )"; V ts(factors, join(trg)); F u; u["unk"] = 1; for (auto & c : prod(k)) r.push_back(apply(vector<V>(factors, side), u, src, c, span(at, at + len(t)) + " ||| " + src + " ||| " + join(ts, " |COL| "))); }
    return r;
}
static void place(const T & t, int at, map<const T *, int> & pos) { pos[&t] = at; for (const T & x : t.ch) { place(x, at, pos); at += len(x); } }
static vector<D> t2s(const T & t, const vector<Rule> & rs, bool all, int factors = 1) { map<const T *, int> pos; place(t, 0, pos); return t2s(t, 0, rs, all, factors, &t, pos); }
// ---- models
struct Lm { arpa::Model m; string path, feat, unk; int factor; };
static arpa::Model lm(int k) { static const V W = {"X", "Y", "Z", "m", "b"}; if (k == 0) return arpa::make(3, W, true, 5, true, arpa::Density{5, 45}); return arpa::make(2, V{"Y", "m", "c", "Z"}, true, 9, true, arpa::Density{9, 60}); }
static const Lm & lmfile(int k) { static map<int, Lm> made; Lm & l = made[k]; if (l.path.empty()) { l.m = lm(k); l.path = run::put("lm" + to_string(k), l.m.text()); } return l; }
struct Setup { vector<pair<int, pair<string, string> > > lms; vector<int> lmfac; F w; int nbest; bool uniq; Setup() : nbest(1), uniq(false) {} };
static void score(vector<D> & ds, const Setup & s) { for (D & d : ds) { for (size_t i = 0; i < s.lms.size(); i++) { const V & y = d.y[s.lmfac.empty() ? 0 : s.lmfac[i]]; const arpa::Model & m = lmfile(s.lms[i].first).m; d.f[s.lms[i].second.first] += m.sentence(y); if (m.oov(y)) d.f[s.lms[i].second.second] += m.oov(y); } d.score = 0; for (auto & x : d.f) { auto it = s.w.find(x.first); if (it != s.w.end()) d.score += x.second * it->second; } } }
static string lmspec(const Setup & s) { string r; for (size_t i = 0; i < s.lms.size(); i++) { r += (i ? " " : "") + lmfile(s.lms[i].first).path; string o; if (s.lms[i].second.first != "lm") o += "lm_feat=" + s.lms[i].second.first; if (s.lms[i].second.second != "lmunk") o += (o.empty() ? "" : ",") + ("lm_unk_feat=" + s.lms[i].second.second); if (!s.lmfac.empty() && s.lmfac[i]) o += (o.empty() ? "" : ",") + ("factor=" + to_string(s.lmfac[i])); if (!o.empty()) r += "|" + o; } return r; }
static string wtext(const F & w) { string r; for (auto & x : w) { ostringstream o; o << x.second; r += (r.empty() ? "" : " ") + x.first + "=" + o.str(); } return r; }
struct Res { string out, err; bool threw; int code; };
static Res decode(const V & args, const string & in) { Res r; r.threw = false; run::Capture cap(in); r.code = run::guarded([&] { ConfigTravatarRunner conf; run::config(conf, args); TravatarRunner t; try { t.Run(conf); } catch (std::exception & e) { r.threw = true; r.err = e.what(); } }); r.out = cap.out.str(); return r; }
// ---- comparing what is printed with all derivations
static string ystr(const D & d) { V s; for (const V & v : d.y) s.push_back(join(v)); return join(s, " |COL| "); }
static string squeeze(const string & s) { return s; }
// exact: the search is exact, otherwise only true derivations are demanded; trees: ||| tree is printed
static void nbest(mc::Ctx & c, const vector<string> & lines, int sent, const vector<D> & ds, const Setup & s, bool exact, bool trees, string & first) {
    vector<const D *> left; for (const D & d : ds) left.push_back(&d); set<string> seen; vector<double> got; first = "";
    for (const string & l : lines) {
        size_t a = l.find(" ||| "), b = l.find(" ||| ", a + 4), e = l.find(" ||| ", b + 5), g = l.find(" ||| ", e + 5); CHECK(a != string::npos && b != string::npos && e != string::npos && (g != string::npos) == trees, "line", "malformed n-best line " << l); CHECK(atoi(l.c_str()) == sent, "line", "sentence number of " << l);
        string y = b > a + 4 ? l.substr(a + 5, b - a - 5) : ""; double sc = atof(l.c_str() + b + 5); F f = feats(l.substr(e + 5, g == string::npos ? string::npos : g - e - 5)); string tr = trees ? l.substr(g + 5) : ""; if (got.empty()) first = y;
        bool ok = false; for (size_t i = 0; i < left.size(); i++) if (ystr(*left[i]) == y && same(left[i]->f, f) && (!trees || left[i]->tr == tr)) { CHECK(near(sc, left[i]->score), "score", "the score of " << l << " should be " << left[i]->score); left.erase(left.begin() + i); ok = true; break; }
        CHECK(ok, "derivation", "no derivation is like " << l << (ds.empty() ? "" : " (one is " + ystr(ds[0]) + " with " + show(ds[0].f) + (trees ? " " + ds[0].tr : "") + ")")); if (s.uniq) CHECK(seen.insert(y).second, "unique", "repeated translation " << l); CHECK(got.empty() || sc <= got.back() + 1e-4 * (1 + fabs(sc)), "order", "out of order: " << l); got.push_back(sc);
    }
    vector<double> want; if (s.uniq) { map<string, double> b; for (const D & d : ds) { auto it = b.find(ystr(d)); if (it == b.end()) b[ystr(d)] = d.score; else it->second = max(it->second, d.score); } for (auto & x : b) want.push_back(x.second); } else for (const D & d : ds) want.push_back(d.score); sort(want.rbegin(), want.rend()); if ((int)want.size() > s.nbest) want.resize(s.nbest);
    if (!exact) { CHECK(got.empty() == want.empty(), "missing", "sentence " << sent << " has " << got.size() << " entries"); CHECK(got.size() <= want.size(), "missing", "too many entries"); return; }
    CHECK(got.size() == want.size(), "missing", "sentence " << sent << " has " << got.size() << " entries instead of " << want.size()); for (size_t i = 0; i < got.size(); i++) CHECK(near(got[i], want[i]), "best", "entry " << i << " of sentence " << sent << " scores " << got[i] << " instead of " << want[i]);
}
static bool isbest(const vector<D> & ds, const string & y) { if (ds.empty()) return y.empty(); double b = -1e99; for (const D & d : ds) b = max(b, d.score); for (const D & d : ds) if (near(d.score, b) && ystr(d) == y) return true; return false; }
static vector<vector<string> > bysent(const string & text, int n, bool & ok) { vector<vector<string> > r(n); int last = 0; ok = true; for (const string & l : run::lines(text)) { int k = atoi(l.c_str()); if (k < last || k >= n) { ok = false; return r; } last = k; r[k].push_back(l); } return r; }
static string drop(const string & s) { string r = s; for (const char * w : {"words", "viterbi"}) (void)w; return r; }
struct Run { Setup s; V args; string input; vector<vector<D> > ds; bool lmroot, exact; Run() : lmroot(false), exact(true) {} };
static string fpath(const string & n) { return run::dir() + n; }
// runs with n-best, then plain, then with traces, and compares everything
static void check(mc::Ctx & c, Run & r, bool trees, bool trace, bool one = true) {
    int n = r.ds.size(); for (auto & d : r.ds) score(d, r.s); V a = r.args; for (const string & x : V{"-debug", "0", "-weight_vals", wtext(r.s.w)}) a.push_back(x); if (!r.s.lms.empty()) { a.push_back("-lm_file"); a.push_back(lmspec(r.s)); } V nb = a; for (const string & x : V{"-nbest", to_string(r.s.nbest), "-nbest_out", fpath("nb"), "-nbest_uniq", r.s.uniq ? "true" : "false", "-nbest_tree", trees ? "true" : "false"}) nb.push_back(x); if (trace) { nb.push_back("-trace_out"); nb.push_back(fpath("tr")); }
    remove(fpath("nb").c_str()); Res o = decode(nb, r.input); c.step(); CHECK(!o.threw && !o.code, "failed", "decoding fails: " << o.err); V out = run::lines(o.out); CHECK((int)out.size() == n, "lines", out.size() << " lines are printed for " << n << " sentences: " << o.out);
    bool ok; auto by = bysent(run::get("nb"), n, ok); CHECK(ok, "order", "n-best lists out of order: " << run::get("nb")); for (int i = 0; i < n; i++) { string first; nbest(c, by[i], i, r.ds[i], r.s, r.exact, trees, first); CHECK(out[i] == first, "onebest", "sentence " << i << " is printed as '" << out[i] << "', the n-best list begins with '" << first << "'"); if (r.exact) CHECK(isbest(r.ds[i], out[i]), "best", "sentence " << i << " is translated as '" << out[i] << "', which is not the best"); }
    if (trace) { // rules of every entry
        auto tb = bysent(run::get("tr"), n, ok); CHECK(ok, "order", "traces out of order"); for (int i = 0; i < n; i++) { map<int, V> ent; map<int, F> fs; for (const string & l : tb[i]) { size_t p = l.find(" ||| "), q = l.find(" ||| ", p + 5), e = l.rfind(" ||| "); int k = atoi(l.c_str() + p + 5); string body = l.substr(q + 5, e - q - 5); add(fs[k], feats(l.substr(e + 5))); if (body.find("|||  ||| x0") == string::npos) ent[k].push_back(body); else CHECK(!r.s.lms.empty(), "trace", "edge without a rule: " << l); } CHECK(fs.size() == by[i].size(), "trace", "traces of " << fs.size() << " entries for " << by[i].size()); for (size_t k = 0; k < by[i].size(); k++) { size_t b = by[i][k].find(" ||| "), x = by[i][k].find(" ||| ", b + 4), z = by[i][k].find(" ||| ", x + 5); size_t zz = by[i][k].find(" ||| ", z + 5); CHECK(same(fs[k], feats(by[i][k].substr(z + 5, zz == string::npos ? string::npos : zz - z - 5))), "trace", "the features of the trace of entry " << k << " are " << show(fs[k])); string y = x > b + 4 ? by[i][k].substr(b + 5, x - b - 5) : ""; bool found = false; for (const D & d : r.ds[i]) { V t1 = d.trace, t2 = ent[k]; if (ystr(d) == y && t1 == t2) found = true; } CHECK(found, "trace", "no derivation of '" << y << "' is made of " << join(ent[k], " ; ") << " (one is " << join(r.ds[i][0].trace, " ; ") << ")"); } } }
    if (!one) return; remove(fpath("nb").c_str()); V pl = a; if (trace) { pl.push_back("-trace_out"); pl.push_back(fpath("tr")); } o = decode(pl, r.input); c.step(); CHECK(!o.threw && !o.code, "failed", "decoding fails: " << o.err); CHECK(run::lines(o.out).size() == out.size(), "lines", "without n-best output " << o.out << " is printed"); if (r.exact) for (int i = 0; i < n; i++) CHECK(isbest(r.ds[i], run::lines(o.out)[i]), "best", "without n-best output sentence " << i << " is translated as " << run::lines(o.out)[i]);
    if (trace) { auto tb = bysent(run::get("tr"), n, ok); CHECK(ok, "order", "traces out of order"); for (int i = 0; i < n; i++) { V ent; F f; for (const string & l : tb[i]) { size_t p = l.find(" ||| "), e = l.rfind(" ||| "); string body = l.substr(p + 5, e - p - 5); add(f, feats(l.substr(e + 5))); if (body.find("|||  ||| x0") == string::npos) ent.push_back(body); } bool found = r.ds[i].empty() && tb[i].empty(); for (const D & d : r.ds[i]) found |= d.trace == ent && ystr(d) == run::lines(o.out)[i] && same(d.f, f); CHECK(found, "trace", "the trace of sentence " << i << " is " << join(tb[i], " ; ")); } }
}
static vector<Rule> table(const vector<Rule> & u, int mask) { vector<Rule> r; for (size_t i = 0; i < u.size(); i++) if (mask >> i & 1) r.push_back(u[i]); return r; }
static string text(const vector<Rule> & rs) { string s; for (const Rule & r : rs) s += r.line + "\n"; return s; }
static const vector<Rule> & T2S() { static vector<Rule> u; if (u.empty()) { u = {rule("A ( x0:B x1:C )", "x1 \"m\" x0 @ S", "p=1"), rule("A ( B ( \"b\" ) x0:C )", "\"X\" x0 @ S", "p=1.25 q=1"), rule("B ( \"b\" )", "\"Y\" @ B", "q=0.5"), rule("B ( \"b\" )", "\"Z\" \"Y\" @ B", "p=-0.5"), rule("C ( x0:B )", "x0 @ C", "r=-0.75"), rule("A ( x0:B x1:C )", "x0 x1 @ S", "p=0.5 q=-1"), rule("C ( \"c\" )", "\"Y\" @ C", "r=2"), rule("A ( x0:B x1:A' )", "x1 x0 @ S", "p=2"), rule("A' ( x0:B x1:C )", "x0 \"X\" x1 @ S", "q=1"), rule("A ( x0:B x1:B x2:C )", "x2 x1 x0 @ S", "q=3")}; for (Rule & r : u) r.p = pat(r.src); } return u; }
static const V TREES = {"(A (B b) (C c))", "(A (B b) (C (B b)))", "(A (B c) (C b))", "(B b)", "(A (B b) (B b) (C c))", "(A (C c) (B b))", "(A (B b) (C (A (B b) (C c))))"};
static const F WS[] = {{{"p", 1}, {"q", 0.5}, {"r", -0.25}, {"unk", -1}, {"lm", 0.5}, {"lmunk", -2}}, {{"p", -1}, {"q", 2}, {"r", 0.5}, {"unk", 0.25}, {"lm", -0.25}, {"lmunk", 0.5}, {"other", 3}}, {{"p", 0.125}, {"lm", 2}}};
static const V BIN = {"none", "right", "left"};
static string describe(const Run & r, const vector<Rule> & rs) { return join(r.args) + " weights " + wtext(r.s.w) + " lms " + to_string(r.s.lms.size()) + " nbest " + to_string(r.s.nbest) + (r.s.uniq ? " unique" : "") + "\n" + text(rs) + "input:\n" + r.input; }
// all rule tables over the universe, all trees
static void t2s_space(mc::Ctx & c, int bits, int trees, bool alltm) {
    int mask = c.choose(1 << bits); Run r; vector<Rule> rs = table(T2S(), mask); c.require(!rs.empty()); int ti = c.choose(trees); int wi = c.choose(2); r.s.w = WS[wi]; int k = c.choose(2); r.s.nbest = k ? 100 : 2; r.s.uniq = c.flag(); int tm = alltm ? c.choose(2) : 0; bool all = c.flag();
    r.args = {"-tm_storage", tm ? "marisa" : "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", "none", "-all_unk", all ? "true" : "false"}; r.input = TREES[ti] + "\n"; r.ds.push_back(t2s(tree(TREES[ti]), rs, all)); c.describe([&] { return describe(r, rs); }); c.state(describe(r, rs)); check(c, r, false, false, false);
}
MC_SPACE(t2s, 3) { t2s_space(c, 6, 4, false); }
MC_SPACE(t2s_marisa, 3) { t2s_space(c, 4, 4, true); }
MC_SPACE(t2s_deep, 2) { t2s_space(c, 10, 7, true); }
// options of the output and the search, over pairs of sentences
MC_SPACE(output, 3) {
    static const int M[] = {7 + 8 + 64, 1023, 32 + 64 + 4, 128 + 256 + 12, 512 + 12 + 64}; int mask = M[c.choose(5)]; vector<Rule> rs = table(T2S(), mask); Run r; int n = c.range(1, 2); int bin = c.choose(3), tm = c.choose(2); bool all = c.flag(), trees = c.flag(), trace = c.flag(); r.s.uniq = c.flag(); int k = c.choose(3); r.s.nbest = k == 0 ? 1 : k == 1 ? 3 : 1000; r.s.w = WS[c.choose(c.thorough ? 2 : 1)]; c.require(n == 1 || c.thorough || !tm);
    r.args = {"-tm_storage", tm ? "marisa" : "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", BIN[bin], "-all_unk", all ? "true" : "false"}; if (c.thorough && c.flag()) { r.args.push_back("-buffer"); r.args.push_back("false"); } for (int i = 0; i < n; i++) { int t = c.choose(i ? 3 : TREES.size()); string s = TREES[t]; if (i && t == 2) { s = "()"; r.input += s + "\n"; r.ds.push_back(vector<D>()); continue; } r.input += s + "\n"; T x = tree(s); if (bin) x = binar(x, bin); r.ds.push_back(t2s(x, rs, all)); }
    c.describe([&] { return describe(r, rs) + (trees ? " trees" : "") + (trace ? " trace" : ""); }); c.state(describe(r, rs) + (trees ? "t" : "") + (trace ? "r" : "")); check(c, r, trees, trace);
}
// language models
MC_SPACE(models, 3) {
    static const int M[] = {7 + 8 + 64, 1023 - 512 - 256 - 128, 32 + 64 + 4 + 2}; vector<Rule> rs = table(T2S(), M[c.choose(3)]); Run r; int inc = c.choose(2), which = c.choose(4), tm = c.thorough ? c.choose(2) : 0, consec = which == 3 ? c.choose(2) : 0, ti = c.choose(TREES.size() + 1), wi = c.choose(3), pl = c.choose(c.thorough ? 3 : 2); bool trees = c.flag(); c.require(!inc || which < 3 || consec); int k = c.choose(2); r.s.nbest = k ? 1000 : 2; r.s.w = WS[wi]; r.s.uniq = c.flag();
    if (which == 0) r.s.lms = {{0, {"lm", "lmunk"}}}; else if (which == 1) r.s.lms = {{1, {"lm", "lmunk"}}}; else if (which == 2) r.s.lms = {{1, {"second", "oov"}}}; else r.s.lms = {{0, {"lm", "lmunk"}}, {1, {"second", "oov"}}}; if (which >= 2) { r.s.w["second"] = 1.5; r.s.w["oov"] = -1; }
    r.args = {"-tm_storage", tm ? "marisa" : "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", "none", "-search", inc ? "inc" : "cp", "-pop_limit", pl == 0 ? "100000" : pl == 1 ? "1" : "3", "-lm_multi_type", consec ? "consec" : "joint", "-chart_limit", "100000"}; r.exact = pl == 0 && !inc; string s = ti < (int)TREES.size() ? TREES[ti] : "()"; r.input = TREES[0] + "\n" + s + "\n"; r.ds.push_back(t2s(tree(TREES[0]), rs, false)); r.ds.push_back(s == "()" ? vector<D>() : t2s(tree(s), rs, false)); c.describe([&] { return describe(r, rs); }); c.state(describe(r, rs)); check(c, r, trees, false, false);
    if (inc && pl == 0) { V out = run::lines(decode([&] { V a = r.args; for (const string & x : V{"-debug", "0", "-weight_vals", wtext(r.s.w), "-lm_file", lmspec(r.s)}) a.push_back(x); return a; }(), r.input).out); for (size_t i = 0; i < r.ds.size(); i++) CHECK(isbest(r.ds[i], out[i]), "best", "sentence " << i << " is translated as '" << out[i] << "', which is not the best"); }
}
// ---- grammar-based translation
struct HRule { string src, trg, head; V s; vector<V> t; F f; string line; int table; };
static HRule hrule(const string & src, const string & trg, const string & f) { HRule r; r.src = src; r.trg = trg; r.f = feats(f); r.t = targets(trg); r.line = src + " ||| " + trg + " ||| " + f; r.table = 0; V k = words(src); r.head = k.back(); for (const string & w : k) { if (w == "@") break; r.s.push_back(w[0] == '"' ? w.substr(1, w.size() - 2) : "#" + w.substr(w.find(':') + 1)); } return r; }
struct HCfg { string root, unk; bool del; vector<int> lim; int factors; };
struct Chart { const V & w; const vector<HRule> & rs; HCfg k; map<pair<string, pair<int, int> >, vector<D> > memo; set<pair<string, pair<int, int> > > busy;
    void cover(const HRule & r, size_t p, int i, int j, vector<pair<string, pair<int, int> > > & cur, vector<vector<pair<string, pair<int, int> > > > & out) { if (p == r.s.size()) { if (i == j) out.push_back(cur); return; } if (r.s[p][0] != '#') { if (i < j && w[i] == r.s[p]) cover(r, p + 1, i + 1, j, cur, out); return; } for (int m = i + 1; m <= j && m - i <= k.lim[r.table]; m++) { cur.push_back({r.s[p].substr(1), {i, m}}); cover(r, p + 1, m, j, cur, out); cur.pop_back(); } }
    const vector<D> & at(const string & lab, int i, int j) { auto key = make_pair(lab, make_pair(i, j)); if (memo.count(key)) return memo[key]; vector<D> r; if (busy.count(key)) { static vector<D> none; return none; } busy.insert(key);
        for (const HRule & q : rs) if (q.head == lab) { vector<pair<string, pair<int, int> > > cur; vector<vector<pair<string, pair<int, int> > > > out; cover(q, 0, i, j, cur, out); for (auto & o : out) { vector<vector<D> > kids; for (auto & x : o) kids.push_back(at(x.first, x.second.first, x.second.second)); for (auto & c : prod(kids)) r.push_back(apply(q.t, q.f, q.src, c, span(i, j) + " ||| " + q.src + " ||| " + q.trg)); } }
        if (lab == k.unk && j == i + 1 && r.empty()) { F f; f["unk"] = 1; string x = k.del ? "" : w[i]; V y(1, x); string side = "\"" + x + "\" @ " + lab; r.push_back(apply(vector<V>(k.factors, y), f, "\"" + w[i] + "\" @ " + lab, vector<D>(), span(i, j) + " ||| \"" + w[i] + "\" @ " + lab + " ||| " + join(V(k.factors, side), " |COL| "))); }
        busy.erase(key); return memo[key] = r; } };
static const vector<HRule> & HIERO() { static vector<HRule> u; if (u.empty()) u = {hrule("\"b\" x0:X @ S", "\"X\" x0:X @ S", "p=1"), hrule("x0:X x1:X @ S", "x1:X \"m\" x0:X @ S", "q=1"), hrule("\"c\" @ X", "\"Y\" @ X", "p=0.5"), hrule("\"b\" @ X", "\"Z\" @ X", "r=1"), hrule("x0:X @ S", "x0:X @ S", "r=-1"), hrule("x0:X \"b\" @ X", "x0:X @ X", "q=-0.5"), hrule("\"b\" \"c\" @ X", "\"Z\" \"Y\" @ X", "p=-1"), hrule("x0:S x1:X @ S", "x0:S x1:X @ S", "q=2 p=0.25")}; return u; }
static void hiero(mc::Ctx & c, int bits, int maxlen, bool lms) {
    vector<HRule> rs; int mask = c.choose(1 << bits); c.require(mask); int two = c.choose(2); for (int i = 0; i < bits; i++) if (mask >> i & 1) { rs.push_back(HIERO()[i]); rs.back().table = two && i % 2; } string t[2]; for (auto & r : rs) t[r.table] += r.line + "\n"; HCfg k; k.factors = 1; int opt = c.choose(5); k.root = opt == 1 ? "X" : "S"; k.unk = "X"; k.del = opt == 2; k.lim = {opt == 3 ? 1 : 20, opt == 3 ? 2 : 20}; Run r; r.s.w = WS[c.choose(2)]; r.s.nbest = c.flag() ? 10000 : 2; r.s.uniq = opt == 4; if (lms) r.s.lms = {{c.choose(2), {"lm", "lmunk"}}};
    r.args = {"-tm_storage", "fsm", "-in_format", "word", "-tm_file", run::put("tm", t[0]) + (two ? " " + run::put("tm2", t[1]) : ""), "-hiero_span_limit", to_string(k.lim[0]) + (two ? " " + to_string(k.lim[1]) : ""), "-root_symbol", k.root, "-delete_unknown", k.del ? "true" : "false", "-search", "cp", "-pop_limit", "100000", "-chart_limit", "100000"}; int n = c.range(1, maxlen); V w; static const V A = {"b", "c", "q"}; for (int i = 0; i < n; i++) w.push_back(A[c.choose(n > 2 ? 2 : 3)]); vector<V> ss = {w, V(), V(1, "b"), w}; for (const V & s : ss) { r.input += join(s) + "\n"; Chart ch{s, rs, k, {}, {}}; r.ds.push_back(s.empty() ? vector<D>() : ch.at(k.root, 0, s.size())); }
    c.describe([&] { return join(r.args) + " weights " + wtext(r.s.w) + "\n" + t[0] + "---\n" + t[1] + "input:\n" + r.input; }); c.state(join(r.args) + t[0] + "-" + t[1] + r.input + wtext(r.s.w) + to_string(r.s.nbest) + to_string(lms ? r.s.lms[0].first : 9)); check(c, r, opt != 2, opt != 2, false);
}
MC_SPACE(grammar, 3) { hiero(c, c.thorough ? 8 : 7, c.thorough ? 4 : 3, false); }
MC_SPACE(grammar_lm, 3) { hiero(c, c.thorough ? 7 : 5, c.thorough ? 3 : 2, true); }
// ---- two factors
MC_SPACE(factors, 3) {
    static vector<Rule> u; if (u.empty()) { u = {rule("A ( x0:B x1:C )", "x1 \"m\" x0 @ S |COL| x0 x1 @ S", "p=1"), rule("B ( \"b\" )", "\"Y\" @ B |COL| \"X\" \"m\" @ B", "q=0.5"), rule("B ( \"b\" )", "\"Z\" \"Y\" @ B |COL| \"b\" @ B", "p=-0.5"), rule("C ( x0:B )", "x0 @ C |COL| x0 \"Z\" @ C", "r=-0.75")}; for (Rule & r : u) r.p = pat(r.src); }
    vector<Rule> rs = table(u, 1 + c.choose(15)); Run r; int ti = c.choose(TREES.size()); r.s.w = WS[c.choose(2)]; r.s.nbest = c.flag() ? 100 : 1; bool trace = c.flag(); r.s.uniq = c.flag(); int l = c.choose(4); if (l == 1) r.s.lms = {{0, {"lm", "lmunk"}}}; else if (l == 2) { r.s.lms = {{0, {"lm", "lmunk"}}}; r.s.lmfac = {1}; } else if (l == 3) { r.s.lms = {{1, {"lm", "lmunk"}}, {0, {"second", "oov"}}}; r.s.lmfac = {0, 1}; r.s.w["second"] = 0.75; r.s.w["oov"] = -0.5; }
    r.args = {"-tm_storage", c.flag() ? "marisa" : "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", "none", "-trg_factors", "2", "-search", "cp", "-pop_limit", "100000", "-chart_limit", "100000"}; r.input = TREES[ti] + "\n"; r.ds.push_back(t2s(tree(TREES[ti]), rs, false, 2)); c.describe([&] { return describe(r, rs); }); c.state(describe(r, rs)); check(c, r, false, trace); GlobalVars::trg_factors = 1;
}
// ---- forests
MC_SPACE(forests, 3) {
    static const int M[] = {7 + 8 + 64, 1023 - 512 - 256 - 128, 32 + 64 + 4 + 2, 12}; vector<Rule> rs = table(T2S(), M[c.choose(4)]); Setup s; s.w = WS[c.choose(2)]; int ti = c.choose(TREES.size()), trim = c.choose(3), l = c.choose(2), tm = c.choose(2), nb = c.choose(2); if (l) s.lms = {{0, {"lm", "lmunk"}}}; vector<vector<D> > ds; string in; for (const string & t : V{TREES[ti], "()", TREES[0]}) { in += t + "\n"; ds.push_back(t == "()" ? vector<D>() : t2s(tree(t), rs, false)); score(ds.back(), s); } remove(fpath("fo").c_str());
    V a = {"-debug", "0", "-weight_vals", wtext(s.w), "-tm_storage", tm ? "marisa" : "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", "none", "-forest_out", fpath("fo"), "-forest_nbest_trim", to_string(trim), "-search", "cp", "-pop_limit", "100000", "-chart_limit", "100000"}; if (l) { a.push_back("-lm_file"); a.push_back(lmspec(s)); } if (nb) for (const string & x : V{"-nbest_out", fpath("nb"), "-nbest", "5"}) a.push_back(x); c.describe([&] { return join(a) + "\n" + text(rs) + "input:\n" + in; }); c.state(join(a) + text(rs) + in);
    Res o = decode(a, in); c.step(); CHECK(!o.threw && !o.code, "failed", "decoding fails: " << o.err); istringstream fs(run::get("fo")); JSONTreeIO io;
    for (int i = 0; i < 3; i++) { unique_ptr<HyperGraph> g(io.ReadTree(fs)); CHECK(g.get(), "forests", "only " << i << " forests are printed"); if (ds[i].empty()) { CHECK(g->NumNodes() == 0, "empty", "a forest for an empty tree"); continue; }
        struct L { static void of(const HyperNode * n, vector<pair<vector<const HyperEdge *>, double> > & out) { for (const HyperEdge * e : n->GetEdges()) { vector<pair<vector<const HyperEdge *>, double> > cur(1); cur[0].first.push_back(e); cur[0].second = e->GetScore(); for (const HyperNode * t : e->GetTails()) { vector<pair<vector<const HyperEdge *>, double> > ch, nx; of(t, ch); for (auto & a : cur) for (auto & b : ch) { nx.push_back(a); nx.back().first.insert(nx.back().first.end(), b.first.begin(), b.first.end()); nx.back().second += b.second; } cur.swap(nx); } out.insert(out.end(), cur.begin(), cur.end()); } }
            static V yield(const vector<const HyperEdge *> & e, size_t & i) { const HyperEdge * m = e[i++]; vector<V> ch; for (int t = 0; t < m->NumTails(); t++) ch.push_back(yield(e, i)); V r; for (WordId w : m->GetTrgData()[0].words) if (w >= 0) r.push_back(Dict::WSym(w)); else r.insert(r.end(), ch[-1 - w].begin(), ch[-1 - w].end()); return r; } };
        vector<pair<vector<const HyperEdge *>, double> > dv; L::of(g->GetNode(0), dv); vector<const D *> left; for (auto & d : ds[i]) left.push_back(&d); double worst = 1e99; set<const HyperEdge *> used; for (auto & d : dv) { size_t q = 0; V y = L::yield(d.first, q); F f; for (const HyperEdge * e : d.first) { used.insert(e); for (auto & x : e->GetFeatures().GetImpl()) f[Dict::WSym(x.first)] += x.second; } bool ok = false; for (size_t z = 0; z < left.size(); z++) if (left[z]->y[0] == y && same(left[z]->f, f)) { CHECK(fabs(left[z]->score - d.second) < 1e-3, "score", "a derivation of forest " << i << " scores " << d.second << " instead of " << left[z]->score); left.erase(left.begin() + z); ok = true; break; } CHECK(ok, "derivation", "forest " << i << " has a derivation of " << join(y) << " that does not exist"); worst = min(worst, d.second); }
        if (!trim) { CHECK(left.empty(), "missing", "forest " << i << " lacks a derivation of " << ystr(*left[0])); continue; } vector<double> sc; for (auto & d : ds[i]) sc.push_back(d.score); sort(sc.rbegin(), sc.rend()); double cut = sc[min<size_t>(trim, sc.size()) - 1]; for (const D * d : left) CHECK(d->score <= cut + 1e-3, "trimmed", "forest " << i << " lacks " << ystr(*d) << ", which is among the " << trim << " best"); size_t most = 0; for (auto & d : ds[i]) if (d.score >= cut - 1e-3) most += d.trace.size() + l; CHECK((int)used.size() == g->NumEdges() && g->NumEdges() <= (int)most, "untrimmed", "forest " << i << " keeps " << g->NumEdges() << " edges for the " << trim << " best"); }
    unique_ptr<HyperGraph> g(io.ReadTree(fs)); CHECK(!g.get(), "forests", "more than three forests");
}
// ---- the input formats, the standard streams, several tables of options
MC_SPACE(streams, 3) {
    vector<Rule> rs = table(T2S(), 127); Run r; int fo = c.choose(2), where = c.choose(4), tr = c.choose(3), ti = c.choose(TREES.size()), tj = c.choose(TREES.size()); r.s.w = WS[0]; r.s.nbest = 3; ostringstream in; for (int t : {ti, tj}) { if (fo == 0) in << TREES[t] << "\n"; else { PennTreeIO p; EgretTreeIO e; istringstream is(TREES[t]); unique_ptr<HyperGraph> g(p.ReadTree(is)); e.WriteTree(*g, in); in << "\n"; } r.ds.push_back(t2s(tree(TREES[t]), rs, false)); } r.input = in.str();
    r.args = {"-tm_storage", "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", "none", "-in_format", fo ? "egret" : "penn"}; c.describe([&] { return describe(r, rs) + to_string(where) + to_string(tr); }); c.state(describe(r, rs) + to_string(where) + to_string(tr)); check(c, r, false, false, true);
    if (!where) return; V a = r.args; for (const string & x : V{"-debug", "0", "-weight_vals", wtext(r.s.w), "-nbest", "3"}) a.push_back(x); V b = a; for (const string & x : V{"-nbest_out", fpath("nb"), "-trace_out", fpath("tr")}) b.push_back(x); Res o = decode(b, r.input); multiset<string> want; string nb = run::get("nb"), trc = run::get("tr"); const char * W[] = {"", "STDOUT", "STDERR", "/dev/null"}; a.push_back("-nbest_out"); a.push_back(W[where]); if (tr) { a.push_back("-trace_out"); a.push_back(tr == 1 ? "STDOUT" : "STDERR"); } for (auto & l : run::lines(o.out)) want.insert(l); if (where == 1) for (auto & l : run::lines(nb)) want.insert(l); if (tr == 1) for (auto & l : run::lines(trc)) want.insert(l); o = decode(a, r.input); c.step(); CHECK(!o.threw && !o.code, "failed", "decoding fails: " << o.err); V got = run::lines(o.out); CHECK(multiset<string>(got.begin(), got.end()) == want, "streams", "with standard streams the output is " << o.out);
}
// ---- online tuning: every sentence is translated with the weights after those before it
MC_SPACE(tuning, 3) {
    vector<Rule> rs = table(T2S(), c.flag() ? 127 : 12 + 64 + 1); int w0 = c.choose(2); F w = WS[w0]; w.erase("lm"); w.erase("lmunk"); w.erase("other"); int n = c.range(1, 3), k = c.range(1, 3), rg = w0 ? 0 : c.choose(2); V refs; string in, ref; vector<vector<D> > ds; static const V R = {"Y m Y", "X Y", "Y", "Z Y", ""}; for (int i = 0; i < n; i++) { int t = c.choose(4); in += TREES[t] + "\n"; refs.push_back(R[c.choose(i == 2 ? 2 : 4)]); ref += refs.back() + "\n"; ds.push_back(t2s(tree(TREES[t]), rs, false)); }
    F start = w; V out; for (int i = 0; i < n; i++) { for (D & d : ds[i]) { d.score = 0; for (auto & x : d.f) d.score += w.count(x.first) ? w[x.first] * x.second : 0; } vector<D> v = ds[i]; sort(v.begin(), v.end(), [](const D & a, const D & b) { return a.score > b.score; }); for (size_t j = 0; j + 1 < v.size(); j++) c.require(v[j].score - v[j + 1].score > 1e-6); out.push_back(ystr(v[0])); int oracle = 0; for (int j = 0; j < k && j < (int)v.size(); j++) if (ystr(v[j]) == refs[i]) { oracle = j; break; } F ch = v[oracle].f; for (auto & x : v[0].f) ch[x.first] -= x.second; for (auto & x : ch) if (x.second != 0) { w[x.first] += x.second; if (rg) w[x.first] = x.first == "p" ? min(max(w[x.first], 0.0), 1.0) : max(w[x.first], -1.5); } }
    V a = {"-debug", "0", "-tm_storage", "hash", "-tm_file", run::put("tm", text(rs)), "-binarize", "none", "-weight_vals", wtext(start), "-nbest", to_string(k), "-tune_update", "perceptron", "-tune_loss", "zeroone", "-tune_ref_files", run::put("ref", ref), "-tune_weight_out", fpath("w")}; if (rg) { a.push_back("-tune_weight_ranges"); a.push_back("0|1|p -1.5|"); } c.describe([&] { return join(a) + "\n" + text(rs) + "input:\n" + in + "references:\n" + ref; }); c.state(join(a) + text(rs) + in + ref); Res o = decode(a, in); c.step(); CHECK(!o.threw && !o.code, "failed", "tuning fails: " << o.err); CHECK(run::lines(o.out) == out, "output", "while tuning " << o.out << " is printed instead of " << join(out, " / ")); F got; for (const string & l : run::lines(run::get("w"))) add(got, feats(l)); CHECK(same(got, w), "weights", "the weights become " << show(got) << " instead of " << show(w));
}
// ---- settings that must be refused
MC_SPACE(errors, 3) {
    struct E { const char * opt, * val; }; static const E es[] = {{"", ""}, {"-weight_vals", ""}, {"-tm_storage", "none"}, {"-in_format", "text"}, {"-binarize", "middle"}, {"-tm_file", "/nonexistent/tm"}, {"-lm_file", "/nonexistent/lm"}, {"-nbest_out", "/nonexistent/x"}, {"-trace_out", "/nonexistent/x"}, {"-forest_out", "/nonexistent/x"}, {"-nbest", "x"}, {"-all_unk", "maybe"}, {"-nbest_uniq", "2"}, {"-tune_update", "always"}, {"-weight_vals", "p"}, {"-weight_vals", "p=x"}, {"-notanoption", "1"}, {"positional", ""}, {"-threads", "1.5"}, {"-forest_nbest_trim", "q"}, {"-debug", "a"}, {"-search", "best"}, {"-lm_multi_type", "both"}, {"-pop_limit", "many"}, {"-pop_limit", "1 2"}, {"tune", "ref"}, {"tune", "out"}, {"tune", "threads"}, {"tune", "range"}, {"badrule", ""}};
    int k = c.choose(sizeof es / sizeof *es), tm = c.choose(3); string o = es[k].opt; c.require(!(tm == 2 && (o == "badrule" || o == "-all_unk"))); V a = {"-debug", "0", "-weight_vals", "p=1", "-binarize", "none", "-tm_storage", tm == 2 ? "fsm" : tm ? "marisa" : "hash", "-tm_file", run::put("tm", tm == 2 ? HIERO()[2].line + "\n" : o == "badrule" ? "B ( \"b\" ) ||| \n" : T2S()[2].line + "\n")}; if (o == "-search" || o == "-lm_multi_type" || o == "-pop_limit") { a.push_back("-lm_file"); a.push_back(lmfile(0).path); } string in = tm == 2 ? "c\n" : "(B b)\n"; if (tm == 2) { a.push_back("-in_format"); a.push_back("word"); a.push_back("-root_symbol"); a.push_back("X"); }
    if (o == "tune") { string v = es[k].val; a.push_back("-tune_update"); a.push_back("perceptron"); if (v != "out") { a.push_back("-tune_weight_out"); a.push_back(fpath("w")); } if (v != "ref") { a.push_back("-tune_ref_files"); a.push_back(run::put("ref", v == "short" ? "" : "x\n")); } if (v == "threads") { a.push_back("-threads"); a.push_back("2"); } if (v == "range") { a.push_back("-tune_weight_ranges"); a.push_back("0|1|p|q"); } } else if (o == "positional") a.push_back("x"); else if (o[0] == '-') { a.push_back(o); a.push_back(es[k].val); }
    c.describe(join(a)); c.state(join(a)); Res r; r.threw = false; r.code = 0; bool conf = false; { run::Capture cap(in); r.code = run::guarded([&] { try { ConfigTravatarRunner cf; run::config(cf, a); conf = true; TravatarRunner t; t.Run(cf); } catch (std::exception & e) { r.threw = true; } }); r.out = cap.out.str(); } c.step(); if (k == 0) { CHECK(!r.threw && !r.code, "refused", "a correct setting is refused"); CHECK(r.out == "Y\n", "output", "printed " << r.out); } else CHECK(r.threw || r.code, "accepted", "the setting is accepted, printing " << r.out);
}
// ---- configuration files
MC_SPACE(config, 3) {
    static const V L = {"[nbest]", "3", "", "[trace_out]", "a b", "# x", "[]", "[nothing]", "[nbest", "[tm_file] "}; int n = c.range(0, c.thorough ? 6 : 5); V ls; string t; for (int i = 0; i < n; i++) { ls.push_back(L[c.choose(i < 4 ? 10 : 6)]); t += ls.back() + (i + 1 < n || c.flag() ? "\n" : ""); } c.describe(t); c.state(t); map<string, string> want; bool bad = false; if (!t.empty() && t.back() != '\n' && ls.back() == "") ls.pop_back();
    for (size_t i = 0; i < ls.size() && !bad; i++) { const string & l = ls[i]; if (l == "" || l[0] == '#') continue; if (l[0] != '[' || l.back() != ']' || l.size() <= 2) { bad = true; break; } string id = l.substr(1, l.size() - 2); V v; for (i++; i < ls.size() && ls[i] != ""; i++) v.push_back(ls[i]); if (v.empty() || (id != "nbest" && id != "trace_out")) { bad = true; break; } want[id] = join(v); }
    string f = run::put("conf", t); bool threw = false; ConfigTravatarRunner conf, def; try { conf.LoadConfig(f); } catch (std::exception &) { threw = true; } c.step(); CHECK(threw == bad, "config", "the file is " << (threw ? "refused" : "accepted")); if (bad) return; for (const string & id : V{"nbest", "trace_out", "tm_file", "threads", "search", "weight_vals"}) CHECK(conf.GetString(id) == (want.count(id) ? want[id] : def.GetString(id)), "config", id << " is '" << conf.GetString(id) << "'"); run::config(conf, {"-nbest", "7", "-buffer", "-all_unk"}); CHECK(conf.GetInt("nbest") == 7 && conf.GetBool("buffer") && conf.GetBool("all_unk") && conf.GetString("trace_out") == (want.count("trace_out") ? want["trace_out"] : ""), "precedence", "options on the command line and in the file are mixed up");
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; GlobalVars::trg_factors = 1; Dict::WID("zero"); }); }
