// P03: word splitting
#include "pforest.h"
#include "run.h"
#include "arpa.h"
#include <travatar/word-splitter-regex.h>
#include <travatar/word-splitter-compound.h>
#include <travatar/tree-converter-runner.h>
#include <travatar/config-tree-converter-runner.h>
#include <boost/scoped_ptr.hpp>
using namespace std; using namespace travatar;
typedef vector<string> V;
static string join(const V & v, const char * s = " ") { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? s : "") + v[i]; return r; }
// ---- patterns, written as plain matchers: length of the match at position i (0: none)
struct Pat { const char * re; size_t (*m)(const string &, size_t); };
static size_t runm(const string & s, size_t i, char ch) { size_t n = 0; while (i + n < s.size() && s[i + n] == ch) n++; return n; }
static const Pat PATS[] = {
    {"-", [](const string & s, size_t i) -> size_t { return s[i] == '-'; }},
    {"(\\-+|\\\\/)", [](const string & s, size_t i) -> size_t { size_t n = runm(s, i, '-'); return n ? n : s.compare(i, 2, "\\/") == 0 ? 2 : 0; }},
    {"[-/]", [](const string & s, size_t i) -> size_t { return s[i] == '-' || s[i] == '/'; }},
    {"aa", [](const string & s, size_t i) -> size_t { return s.compare(i, 2, "aa") == 0 ? 2 : 0; }},
    {"zzz", [](const string &, size_t) -> size_t { return 0; }}};
static V cut(const string & s, int p, const string & pad = "") { V r; string cur; for (size_t i = 0; i < s.size();) { size_t n = PATS[p].m(s, i); if (n) { if (!cur.empty()) r.push_back(cur); cur = ""; r.push_back(pad + s.substr(i, n) + pad); i += n; } else cur += s[i++]; } if (!cur.empty()) r.push_back(cur); return r; }
static WordSplitterRegex & rx(int p) { static map<int, WordSplitterRegex *> m; if (!m[p]) m[p] = p == 0 ? new WordSplitterRegex : new WordSplitterRegex(PATS[p].re); return *m[p]; }
MC_SPACE(strings, 3) {
    static const V A = {"a", "-", "/", "\\", "b"}; int n = c.range(1, c.thorough ? 8 : 6); string s; for (int i = 0; i < n; i++) s += A[c.choose(n > 6 ? 3 : n > 5 ? 4 : 5)]; c.describe(s); c.state(s);
    for (int p = 0; p < 5; p++) for (int pad = 0; pad < 2; pad++) { V got = rx(p).StringSplit(s, pad ? "@" : ""), want = cut(s, p, pad ? "@" : ""); c.step(); CHECK(got == want, "pieces", PATS[p].re << (pad ? " padded" : "") << " splits into " << join(got) << " instead of " << join(want)); if (!pad) CHECK(join(got, "") == s, "text", PATS[p].re << " changes the text to " << join(got, "")); }
}
// ---- trees
static bool ignored(const string & s) { static const set<string> I = {"-LRB-", "-RRB-", "-lrb-", "-rrb-", "-LSB-", "-RSB-", "-lsb-", "-rsb-", "-LCB-", "-RCB-", "-lcb-", "-rcb-"}; return I.count(s); }
// the derivation trees below a node, printed with scores, features and words; split words as they should come out
static V trees(const HyperNode * n, const vector<V> * sp, set<string> & bad, const Sentence * words) {
    string sym = n->GetSym() >= 0 ? Dict::WSym(n->GetSym()) : "?"; auto s = n->GetSpan();
    if (n->IsTerminal()) { if (words) { if (s.second != s.first + 1 || s.first < 0 || s.first >= (int)words->size() || (*words)[s.first] != n->GetSym()) bad.insert("terminal " + sym + " does not cover its word"); } return V(1, "'" + sym + "'"); }
    V r; for (const HyperEdge * e : n->GetEdges()) {
        if (e->GetHead() != n) bad.insert("head of an edge"); ostringstream h; h << "(" << sym << "/" << n->GetTrgSym() << " " << e->GetScore() << " " << Dict::PrintSparseVector(e->GetFeatures()); V cur(1, h.str()); int at = s.first;
        for (const HyperNode * t : e->GetTails()) { V ch; const vector<V> * S = sp; if (S && t->IsTerminal() && (*S)[t->GetSpan().first].size() > 1) { const V & p = (*S)[t->GetSpan().first]; string x; for (size_t i = 0; i < p.size(); i++) x += (i ? " " : "") + (e->NumTails() == 1 ? "(" + sym + "/" + to_string(n->GetTrgSym()) + " 0  '" + p[i] + "')" : "'" + p[i] + "'"); ch.push_back(x); } else ch = trees(t, sp, bad, words); if (words) { if (t->GetSpan().first != at) bad.insert("the tails of " + sym + " do not cover its span"); at = t->GetSpan().second; }
            V nx; for (auto & a : cur) for (auto & b : ch) nx.push_back(a + " " + b); cur.swap(nx); }
        if (words && at != s.second) bad.insert("the tails of " + sym + " do not cover its span"); for (auto & a : cur) r.push_back(a + ")"); }
    return r;
}
static void tree_check(mc::Ctx & c, const HyperGraph & g, const WordSplitter & w, const vector<V> & pieces) {
    string before = hg::str(g); Sentence words = g.GetWords(); boost::scoped_ptr<HyperGraph> r(w.TransformGraph(g)); c.step(); CHECK(hg::str(g) == before && g.GetWords() == words, "input", "the input graph is changed to " << hg::str(g));
    V want, got; for (auto & p : pieces) want.insert(want.end(), p.begin(), p.end()); for (WordId x : r->GetWords()) got.push_back(Dict::WSym(x)); CHECK(got == want, "words", "the words become " << join(got) << " instead of " << join(want));
    set<string> bad, none; V a = trees(r->GetNode(0), 0, bad, &r->GetWords()), b = trees(g.GetNode(0), &pieces, none, 0); CHECK(bad.empty(), "spans", *bad.begin() << " in " << hg::str(*r)); multiset<string> x(a.begin(), a.end()), y(b.begin(), b.end()); CHECK(x == y, "trees", "the trees become " << join(V(x.begin(), x.end()), " | ") << " instead of " << join(V(y.begin(), y.end()), " | "));
    vector<int> off(1, 0); for (auto & p : pieces) off.push_back(off.back() + p.size()); for (int i = 0; i < g.NumNodes(); i++) { auto s = g.GetNode(i)->GetSpan(), t = r->GetNode(i)->GetSpan(); CHECK(t.first == off[s.first] && t.second == off[s.second], "spans", "node " << i << " covers " << t.first << "-" << t.second << " in " << hg::str(*r)); }
    for (int i = 0; i < r->NumNodes(); i++) { CHECK(r->GetNode(i) && r->GetNode(i)->GetId() == i, "ids", "node " << i << " of " << hg::str(*r)); } for (int i = 0; i < r->NumEdges(); i++) CHECK(r->GetEdge(i) && r->GetEdge(i)->GetId() == i, "ids", "edge " << i << " of " << hg::str(*r));
}
// forests with words directly below nodes that have other children, too
static void forest(mc::Ctx & c, HyperGraph & g, const V & w, int alt, int labels) {
    pf::Opt o; o.words = w.size(); o.labels = labels; o.vocab = 1; o.maxalt = alt; o.altpre = true; pf::Maker mk(c, g, o);
    for (size_t i = 0; i < w.size(); i++) g.GetWords()[i] = Dict::WID(w[i]); for (HyperNode * n : g.GetNodes()) if (n->IsTerminal()) n->SetSym(g.GetWord(n->GetSpan().first)); else n->SetTrgSym(Dict::WID("T" + to_string(n->GetSym() % 2)));
    for (int i = 0; i < g.NumEdges(); i++) { HyperEdge * e = g.GetEdge(i); e->SetScore(-1 - i); SparseVector f; f.Add(pf::names().feat[i % 32], i + 1); e->SetFeatures(f); if (e->NumTails() > 1) { vector<HyperNode *> t = e->GetTails(); for (HyperNode *& x : t) if (x->NumEdges() == 1 && x->GetEdge(0)->NumTails() == 1 && x->GetEdge(0)->GetTail(0)->IsTerminal() && c.flag()) x = x->GetEdge(0)->GetTail(0); e->SetTails(t); } }
}
static const V WORDS = {"a-b", "a", "-", "x--y/", "-LRB-", "\xc3\xa9-", "\\/"};
MC_SPACE(trees1, 3) { V w; int n = c.range(1, 3); int k = n == 3 ? (c.thorough ? 5 : 3) : 7; for (int i = 0; i < n; i++) w.push_back(WORDS[c.choose(k)]); HyperGraph g; forest(c, g, w, 1, n == 3 ? 1 : 2); int p = c.choose(3); c.describe([&] { return hg::str(g) + PATS[p].re; }); c.state(hg::str(g) + PATS[p].re); vector<V> pieces; for (auto & x : w) pieces.push_back(ignored(x) ? V(1, x) : cut(x, p)); tree_check(c, g, rx(p), pieces); }
MC_SPACE(forests, 3) { V w; int n = c.range(1, c.thorough ? 3 : 2); int k = n == 3 ? 2 : 3; for (int i = 0; i < n; i++) w.push_back(WORDS[c.choose(k)]); HyperGraph g; forest(c, g, w, 2, n == 3 ? 1 : 2); int p = 1; c.describe([&] { return hg::str(g); }); c.state(hg::str(g)); vector<V> pieces; for (auto & x : w) pieces.push_back(cut(x, p)); tree_check(c, g, rx(p), pieces); }
MC_SPACE(brackets, 3) { static const char * B[] = {"-LRB-", "-RRB-", "-lrb-", "-rrb-", "-LSB-", "-RSB-", "-lsb-", "-rsb-", "-LCB-", "-RCB-", "-lcb-", "-rcb-", "-Lrb-", "LRB-", "-LRB", "--"}; V w(1, B[c.choose(16)]); w.push_back("a-b"); HyperGraph g; forest(c, g, w, 1, 1); int p = c.choose(3); c.describe(hg::str(g) + PATS[p].re); vector<V> pieces; for (auto & x : w) pieces.push_back(ignored(x) ? V(1, x) : cut(x, p)); tree_check(c, g, rx(p), pieces); }
// ---- compounds: a unigram table over a small lexicon
static string lex(int mask, int scale) { arpa::Model m; m.g.resize(2); static const V L = {"a", "b", "ab", "ba", "aba", "abab", "bs", "absa"}; int q[8] = {-2, -3, -4, -1, -6, -5, -3, -2}; m.g[0][{"<unk>"}] = arpa::PB(-7, 0); m.g[0][{"<s>"}] = arpa::PB(-9, -0.5); m.g[0][{"</s>"}] = arpa::PB(-2, 0); for (int i = 0; i < 8; i++) if (mask >> i & 1) m.g[0][{L[i]}] = arpa::PB(q[i] * (scale ? i % 3 ? 1 : 0.25 : 1), -0.5); m.g[1][{"<s>", "</s>"}] = arpa::PB(-1, 0); return m.text(); }
struct Lm { int mask, scale; map<string, double> p; };
static Lm table(int mask, int scale) { Lm l; l.mask = mask; l.scale = scale; static const V L = {"a", "b", "ab", "ba", "aba", "abab", "bs", "absa"}; int q[8] = {-2, -3, -4, -1, -6, -5, -3, -2}; for (int i = 0; i < 8; i++) if (mask >> i & 1) l.p[L[i]] = q[i] * (scale ? i % 3 ? 1 : 0.25 : 1); l.p["<s>"] = -9; l.p["</s>"] = -2; return l; }
// every best way to split: pieces, or the word itself
static set<V> best(const Lm & l, const string & s, int minc, double thr, const V & fill) {
    double whole = l.p.count(s) ? l.p.at(s) : -99; set<V> r = {V(1, s)}; if ((int)s.size() <= 2 * minc || !(whole < log10(thr) || !l.p.count(s))) return r; double b = whole; for (int i = max(minc, 1); i + minc <= (int)s.size(); i++) for (const string & f : fill) { if (s.compare(i, f.size(), f) != 0) continue; string x = s.substr(0, i), y = s.substr(i + f.size()); if (y.empty() || !l.p.count(x) || !l.p.count(y)) continue; double m = (l.p.at(x) + l.p.at(y)) / 2; if (m > b + 1e-6) { b = m; r.clear(); r.insert({x, y}); } else if (fabs(m - b) <= 1e-6 && b > whole + 1e-6) r.insert({x, y}); } return r;
}
MC_SPACE(compounds, 3) {
    int mask = c.thorough ? c.choose(256) : c.choose(64), scale = c.thorough ? c.choose(2) : mask & 1; static const double T[] = {1, 0.0001, 0.01}; int minc = c.range(1, 3), th = c.choose(3), fi = c.choose(4); static const char * F[] = {"", "s", "b:s", "bs::a:"}; static const vector<V> FV = {{""}, {"s", ""}, {"b", "s", ""}, {"bs", "a", ""}}; if (!c.thorough) mask |= c.flag() ? 192 : 0; c.describe(to_string(mask) + " " + to_string(scale) + " min " + to_string(minc) + " threshold " + to_string(T[th]) + " fillers " + F[fi]);
    Lm l = table(mask, scale); static map<int, string> files; string & f = files[mask * 2 + scale]; if (f.empty()) f = run::put("lm" + to_string(mask * 2 + scale), lex(mask, scale)); WordSplitterCompound w(f, minc, T[th], F[fi]);
    static const V A = {"a", "b", "s"}; for (int n = 1; n <= (c.thorough ? 7 : 6); n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= n > 5 ? 2 : 3; for (int x = 0; x < tot; x++) { string s; for (int i = 0, y = x; i < n; i++, y /= (n > 5 ? 2 : 3)) s += A[y % (n > 5 ? 2 : 3)]; V got = w.StringSplit(s); set<V> want = best(l, s, minc, T[th], FV[fi]); c.step(); if (!want.count(got)) CHECK(false, "split", s << " is split into " << join(got) << " instead of " << join(*want.begin())); } }
}
MC_SPACE(compound_trees, 3) {
    int mask = 255; Lm l = table(mask, 0); static string f = run::put("lm", lex(mask, 0)); static map<int, WordSplitterCompound *> made; int minc = c.range(1, 2), fi = c.choose(2); WordSplitterCompound *& k = made[minc * 2 + fi]; if (!k) k = new WordSplitterCompound(f, minc, 1, fi ? "s" : ""); static const V CW = {"abba", "a", "abab", "absba", "-LRB-", "zz"}; V w; int n = c.range(1, 3); for (int i = 0; i < n; i++) w.push_back(CW[c.choose(n == 3 ? 4 : 6)]); HyperGraph g; forest(c, g, w, n == 3 ? 1 : 2, n > 1 ? 1 : 2); c.describe([&] { return hg::str(g) + to_string(minc) + to_string(fi); }); c.state(hg::str(g) + to_string(minc * 2 + fi)); vector<V> pieces; for (auto & x : w) { set<V> b = best(l, x, minc, 1, fi ? V{"s", ""} : V{""}); V got = k->StringSplit(x); CHECK(b.count(got), "split", x << " is split into " << join(got)); pieces.push_back(got); } tree_check(c, g, *k, pieces);
}
// ---- the tool: what is printed after splitting holds the same text, and reading it gives the tree again
MC_SPACE(tool, 3) {
    static const V FM = {"penn", "egret", "word"}; V w; int n = c.range(1, 3); for (int i = 0; i < n; i++) w.push_back(WORDS[c.choose(n == 3 ? 2 : 6)]); int fo = c.choose(3), p = 1 + c.choose(4), shape = n > 1 ? c.choose(2) : 0; string t; if (n == 1) t = "(A " + w[0] + ")"; else if (n == 2) t = "(A (B " + w[0] + ") (C " + w[1] + "))"; else t = shape ? "(A (B (C " + w[0] + ") (D " + w[1] + ")) (E " + w[2] + "))" : "(A (C " + w[0] + ") (D " + w[1] + ") (E " + w[2] + "))"; c.describe(t + " " + FM[fo] + " " + PATS[p].re); c.state(t + FM[fo] + PATS[p].re);
    auto sub = [&](const string & lab, const string & x) { V ps = ignored(x) ? V(1, x) : cut(x, p); if (ps.size() == 1) return "(" + lab + " " + x + ")"; string r = "(" + lab; for (auto & y : ps) r += " (" + lab + " " + y + ")"; return r + ")"; }; string want; if (n == 1) want = sub("A", w[0]); else if (n == 2) want = "(A " + sub("B", w[0]) + " " + sub("C", w[1]) + ")"; else want = shape ? "(A (B " + sub("C", w[0]) + " " + sub("D", w[1]) + ") " + sub("E", w[2]) + ")" : "(A " + sub("C", w[0]) + " " + sub("D", w[1]) + " " + sub("E", w[2]) + ")"; V ps; for (auto & x : w) { V q = ignored(x) ? V(1, x) : cut(x, p); ps.insert(ps.end(), q.begin(), q.end()); }
    string out; auto conv = [&](const string & in, const V & a) { run::Capture cap(in); ConfigTreeConverterRunner conf; run::config(conf, a); TreeConverterRunner r; r.Run(conf); return cap.out.str(); }; out = conv(t + "\n", {"-input_format", "penn", "-output_format", FM[fo], "-split", PATS[p].re}); c.step(); if (fo == 1) out = conv(out, {"-input_format", "egret", "-output_format", "penn"}); if (fo == 2) want = join(ps); CHECK(out == want + "\n", "output", "printed as " << out << " instead of " << want);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; GlobalVars::trg_factors = 1; Dict::WID("zero"); }); }
