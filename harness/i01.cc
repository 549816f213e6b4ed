// I01: tree and forest formats survive reading and writing
#include "pforest.h"
#include "canon.h"
#include "run.h"
#include <travatar/tree-io.h>
#include <travatar/tree-converter-runner.h>
#include <travatar/config-tree-converter-runner.h>
#include <travatar/global-debug.h>
#include <iostream>
#include <sstream>
using namespace std; using namespace travatar;
typedef boost::shared_ptr<HyperGraph> G;
static void init() { GlobalVars::debug = 0; GlobalVars::trg_factors = 1; }
// ---- plain trees of our own
struct T { string lab; bool word; vector<T> kids; int lo, hi; T() : word(false), lo(0), hi(0) {} };
static int spans(T & t, int p) { t.lo = p; if (t.word) return t.hi = p + 1; for (size_t i = 0; i < t.kids.size(); i++) p = spans(t.kids[i], p); return t.hi = p; }
static string show(const T & t) { ostringstream o; o << (t.word ? "'" : "") << t.lab << "@" << t.lo << "-" << t.hi; if (!t.word) { o << "{"; for (size_t i = 0; i < t.kids.size(); i++) o << show(t.kids[i]); o << "}"; } return o.str(); }
static void yield(const T & t, vector<string> & w) { if (t.word) w.push_back(t.lab); for (size_t i = 0; i < t.kids.size(); i++) yield(t.kids[i], w); }
static string join(const vector<string> & v, const string & s = " ") { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? s : "") + v[i]; return r; }
// what the reader produced, in the same notation; anything that is not a tree shows up as such
static string show(const HyperNode * n, int depth = 0) { ostringstream o; if (depth > 30) return "CYCLE"; bool w = !n->NumEdges(); o << (w ? "'" : "") << (n->GetSym() < 0 ? "NONE" : Dict::WSym(n->GetSym())) << "@" << n->GetSpan().first << "-" << n->GetSpan().second; if (n->NumEdges() > 1) o << "ALTERNATIVES"; if (!w) { o << "{"; const HyperEdge * e = n->GetEdge(0); for (int i = 0; i < e->NumTails(); i++) o << show(e->GetTail(i), depth + 1); o << "}"; } return o.str(); }
static string words(const HyperGraph & g) { vector<string> w; for (size_t i = 0; i < g.GetWords().size(); i++) w.push_back(Dict::WSym(g.GetWords()[i])); return join(w, "|"); }
static int count(const T & t) { int n = 1; for (size_t i = 0; i < t.kids.size(); i++) n += count(t.kids[i]); return n; }
static void same(mc::Ctx & c, const T & t, const HyperGraph & g, const string & what) {
    vector<string> w; yield(t, w); CHECK(g.NumNodes() > 0, "tree", what << " gives an empty graph instead of " << show(t)); string got = show(g.GetNode(0)); CHECK(got == show(t), "tree", what << " gives " << got << " instead of " << show(t));
    CHECK(words(g) == join(w, "|"), "words", what << " gives the words " << words(g) << " instead of " << join(w, "|")); CHECK(g.NumNodes() == count(t), "nodes", what << " has " << g.NumNodes() << " nodes instead of " << count(t));
    for (int i = 0; i < g.NumNodes(); i++) CHECK(g.GetNode(i)->GetId() == i, "ids", what << ": node " << i << " has number " << g.GetNode(i)->GetId()); for (int i = 0; i < g.NumEdges(); i++) CHECK(g.GetEdge(i)->GetId() == i, "ids", what << ": edge " << i << " has number " << g.GetEdge(i)->GetId());
}
static string xml(string s) { string r; for (size_t i = 0; i < s.size(); i++) r += s[i] == '&' ? string("&amp;") : s[i] == '<' ? string("&lt;") : s[i] == '>' ? string("&gt;") : s[i] == '"' ? string("&quot;") : s[i] == '\'' ? string("&apos;") : string(1, s[i]); return r; }
static string penn(const T & t) { if (t.word) return t.lab; string r = "(" + t.lab; for (size_t i = 0; i < t.kids.size(); i++) r += " " + penn(t.kids[i]); return r + ")"; }
static string rule(const T & t) { if (t.word) return "\"" + t.lab + "\""; string r = t.lab + " ( "; for (size_t i = 0; i < t.kids.size(); i++) r += rule(t.kids[i]) + " "; return r + ")"; }
static string moses(const T & t) { if (t.word) return xml(t.lab); string r = "<tree label=\"" + xml(t.lab) + "\">"; for (size_t i = 0; i < t.kids.size(); i++) r += " " + moses(t.kids[i]); return r + " </tree>"; }
static void lines(const T & t, vector<string> & o) { if (t.word) return; o.push_back(t.lab); for (size_t i = 0; i < t.kids.size(); i++) lines(t.kids[i], o); }

// ---- reading: every short text, against a reader of our own
struct Bad {};
struct PennReader { const string & s; size_t p; PennReader(const string & x) : s(x), p(0) {} bool ws(char c) { return c == ' ' || c == '\n'; } void skip() { while (p < s.size() && ws(s[p])) p++; } bool end() { skip(); return p >= s.size(); }
    T tree(bool top) { skip(); if (p >= s.size() || s[p] != '(') throw Bad(); p++; T t; if (top && p < s.size() && s[p] == ')') { p++; return t; } while (p < s.size() && !ws(s[p])) { if (s[p] == '(' || s[p] == ')') throw Bad(); t.lab += s[p++]; } if (t.lab.empty() || p >= s.size()) throw Bad(); skip(); if (p >= s.size()) throw Bad();
        if (s[p] == '(') { while (true) { skip(); if (p >= s.size()) throw Bad(); if (s[p] == ')') { p++; break; } t.kids.push_back(tree(false)); } }
        else { T w; w.word = true; while (p < s.size() && s[p] != ')') { if (ws(s[p]) || s[p] == '(') throw Bad(); w.lab += s[p++]; } if (p >= s.size() || w.lab.empty()) throw Bad(); p++; t.kids.push_back(w); } return t; } };
struct RuleReader { vector<string> k; size_t p; bool open; RuleReader(const string & s) : p(0), open(false) { istringstream i(s); string x; while (i >> x) k.push_back(x); } bool end() { return p >= k.size(); }
    T tree(bool) { if (p >= k.size()) throw Bad(); string x = k[p++]; T t; if (x == ")") throw Bad(); if (x.size() > 1 && x[0] == '"' && x[x.size() - 1] == '"') { t.word = true; t.lab = x.substr(1, x.size() - 2); return t; } if (x == "(") open = true; t.lab = x; if (p >= k.size() || k[p++] != "(") throw Bad(); while (true) { if (p >= k.size()) throw Bad(); if (k[p] == ")") { p++; return t; } t.kids.push_back(tree(false)); } } };
template<class R, class IO> static void readall(mc::Ctx & c, const string & s) {
    c.describe("text " + s); c.state(s); R r(s); IO io; istringstream in(s); int n = 0;
    while (true) {
        bool bad = false, none = r.end(); T t; if (!none) try { t = r.tree(true); spans(t, 0); } catch (Bad &) { bad = true; }
        G g; bool threw = false; try { g.reset(io.ReadTree(in)); } catch (std::runtime_error &) { threw = true; } c.step();
        if (bad) { CHECK(threw, "accepted", "malformed text gives " << (g ? (g->NumNodes() ? show(g->GetNode(0)) : "an empty tree") : string("no tree but no error")) << " as tree " << n + 1); return; }
        CHECK(!threw, "refused", "tree " << n + 1 << " is refused although it reads " << (none ? "(end)" : show(t)));
        if (none) { CHECK(!g, "invented", "a tree appears after the last one"); return; } CHECK(g.get(), "lost", "tree " << n + 1 << " is lost: " << show(t));
        if (t.lab.empty() && !t.word) CHECK(g->NumNodes() == 0 && g->GetWords().empty(), "empty", "the empty tree is read as " << show(g->GetNode(0))); else { same(c, t, *g, "text " + s); } n++;
    }
}
MC_SPACE(penn_text, 3) { static const char A[] = "()a \n"; int n = c.range(0, c.thorough ? 10 : 8); string s; int k = n > 7 ? 4 : 5; for (int i = 0; i < n; i++) s += A[c.choose(k)]; readall<PennReader, PennTreeIO>(c, s); }
MC_SPACE(penn_tokens, 3) { static const char * A[] = {"(S ", "(a b)", ")", " ", "(", "x"}; int n = c.range(1, c.thorough ? 9 : 7); string s; for (int i = 0; i < n; i++) s += A[c.choose(6)]; readall<PennReader, PennTreeIO>(c, s); }
MC_SPACE(rule_text, 3) { static const char * A[] = {"A ", "( ", ") ", "\"x\" ", "\"\"\" ", "\" "}; int n = c.range(0, c.thorough ? 8 : 7); string s; for (int i = 0; i < n; i++) s += A[c.choose(n > 6 ? 5 : 6)]; RuleReader t(s); try { while (!t.end()) t.tree(true); } catch (Bad &) {} c.require(!t.open); readall<RuleReader, RuleTreeIO>(c, s); }
MC_SPACE(word_text, 3) { static const char A[] = "a( \n\""; int n = c.range(0, 6); string s; for (int i = 0; i < n; i++) s += A[c.choose(5)]; c.describe("words " + s); istringstream in(s), mine(s); string l; WordTreeIO io;
    while (true) { bool more = (bool)getline(mine, l); G g(io.ReadTree(in)); c.step(); CHECK(more == (g.get() != 0), "lines", "line count differs"); if (!more) break; istringstream w(l); vector<string> v; string x; while (w >> x) v.push_back(x); T t; t.lab = "X"; for (size_t i = 0; i < v.size(); i++) { T p, q; p.lab = "X"; q.lab = v[i]; q.word = true; p.kids.push_back(q); t.kids.push_back(p); } spans(t, 0); same(c, t, *g, "the line '" + l + "'"); ostringstream o; io.WriteTree(*g, o); CHECK(o.str() == join(v), "words", "written as '" << o.str() << "'"); } }

// ---- converting: every tree through every pair of formats, two trees per stream
static const char * WD[] = {"x", "\"", "\\", "12", "a\"b", "<&>", "-1", "|||", "\xe3\x81\x82", "'"}, * LB[] = {"S", "NP^g", "\"", "X\\Y", "7", "<"};
static T tree(mc::Ctx & c, int n, int depth, bool bare, int vocab, int labs, int off) {
    T t; t.lab = LB[(labs > 1 ? c.choose(labs) : 0) + (labs ? 0 : 0)]; if (n == 1 && (depth == 0 || !c.flag())) { T w; w.word = true; w.lab = WD[(c.choose(vocab) + off) % 10]; t.kids.push_back(w); return t; }
    if (n == 1) { t.kids.push_back(tree(c, 1, depth - 1, bare, vocab, labs, off)); return t; }
    int left = n; bool first = true; while (left) { int k = 1 + c.choose(first ? left - (depth ? 0 : 1) : left); if (depth == 0) k = 1; first = false; if (bare && k == 1 && c.flag()) { T w; w.word = true; w.lab = WD[(c.choose(vocab) + off) % 10]; t.kids.push_back(w); } else t.kids.push_back(tree(c, k, depth ? depth - 1 : 0, bare, vocab, labs, off)); left -= k; }
    return t;
}
static const char * IN[] = {"penn", "rule", "egret", "json", "word"}, * OUT[] = {"penn", "rule", "egret", "json", "mosesxml", "word"};
static string egret(const T & t) { vector<string> l, w; struct R { static void go(const T & t, vector<string> & l) { if (t.word) return; for (size_t i = 0; i < t.kids.size(); i++) go(t.kids[i], l); ostringstream o; o << t.lab << "[" << t.lo << "," << t.hi - 1 << "] =>"; for (size_t i = 0; i < t.kids.size(); i++) { o << " " << t.kids[i].lab; if (!t.kids[i].word) o << "[" << t.kids[i].lo << "," << t.kids[i].hi - 1 << "]"; } o << " ||| 0"; l.push_back(o.str()); } }; R::go(t, l); yield(t, w); return "sentence :\n" + join(w) + "\n" + join(l, "\n") + "\n"; }
static TreeIO * reader(int k) { if (k == 0) return new PennTreeIO; if (k == 1) return new RuleTreeIO; if (k == 2) { EgretTreeIO * e = new EgretTreeIO; return e; } if (k == 3) return new JSONTreeIO; return new WordTreeIO; }
static bool unary_repeat(const T & t) { if (!t.word && t.kids.size() == 1 && !t.kids[0].word && t.kids[0].lab == t.lab) return true; for (size_t i = 0; i < t.kids.size(); i++) if (unary_repeat(t.kids[i])) return true; return false; }
static bool chain_repeat(const T & t, set<string> above, int lo, int hi) { if (t.word) return false; if (t.lo != lo || t.hi != hi) above.clear(); if (!above.insert(t.lab).second) return true; for (size_t i = 0; i < t.kids.size(); i++) if (chain_repeat(t.kids[i], above, t.lo, t.hi)) return true; return false; }
static bool has_bare(const T & t) { for (size_t i = 0; i < t.kids.size(); i++) { if (t.kids[i].word && t.kids.size() > 1) return true; if (has_bare(t.kids[i])) return true; } return false; }
static void convert(mc::Ctx & c, vector<T> ts, int a, int b) {
    string src; for (size_t i = 0; i < ts.size(); i++) { spans(ts[i], 0); vector<string> w; yield(ts[i], w); if (a == 2 || b == 2) { c.require(!chain_repeat(ts[i], set<string>(), -1, -1)); for (size_t k = 0; k < w.size(); k++) c.require(w[k] != "|||"); } if (a == 4) src += join(w) + "\n"; else if (a == 0) src += penn(ts[i]) + "\n"; else if (a == 1) src += rule(ts[i]) + "\n"; else if (a == 2) src += egret(ts[i]) + "\n"; else { istringstream in(rule(ts[i])); RuleTreeIO r; G g(r.ReadTree(in)); ostringstream o; JSONTreeIO j; j.WriteTree(*g, o); src += o.str() + "\n"; } }
    if (a == 4) for (size_t i = 0; i < ts.size(); i++) { vector<string> w; yield(ts[i], w); T t; t.lab = "X"; for (size_t k = 0; k < w.size(); k++) { T p, q; p.lab = "X"; q.lab = w[k]; q.word = true; p.kids.push_back(q); t.kids.push_back(p); } spans(t, 0); c.require(b != 2 || w.size() > 1); ts[i] = t; }
    c.describe(string(IN[a]) + " to " + OUT[b] + ": " + src); c.state(src); vector<string> args; args.push_back("-input_format"); args.push_back(IN[a]); args.push_back("-output_format"); args.push_back(OUT[b]); args.push_back("-debug"); args.push_back("0"); ConfigTreeConverterRunner conf; run::config(conf, args); string out; { run::Capture cap(src); TreeConverterRunner r; r.Run(conf); out = cap.out.str(); } c.step();
    if (b == 0 || b == 1 || b == 4 || b == 5) { string want; for (size_t i = 0; i < ts.size(); i++) { vector<string> w; yield(ts[i], w); want += (b == 0 ? penn(ts[i]) : b == 1 ? rule(ts[i]) : b == 4 ? moses(ts[i]) : join(w)) + "\n"; } CHECK(out == want, "written", "written as " << out << " instead of " << want); }
    if (b == 4) return; boost::shared_ptr<TreeIO> io(reader(b == 5 ? 4 : b)); istringstream in(out);
    for (size_t i = 0; i < ts.size(); i++) { G g(io->ReadTree(in)); CHECK(g.get(), "lost", "tree " << i + 1 << " cannot be read back from " << out); if (b == 5) { vector<string> w; yield(ts[i], w); CHECK(words(*g) == join(w, "|"), "words", "the words are " << words(*g)); } else same(c, ts[i], *g, string(OUT[b]) + " text " + out); }
    G g(io->ReadTree(in)); CHECK(!g, "invented", "more trees than written appear in " << out);
}
static void simple(mc::Ctx & c, int n, int vocab, int labs, int off) { int a = c.choose(5), b = c.choose(6), two = c.choose(2); vector<T> ts; ts.push_back(tree(c, n, 2, false, vocab, labs, off)); if (two) { T t; t.lab = "S"; T p, w; p.lab = "Q"; w.lab = "x"; w.word = true; p.kids.push_back(w); t.kids.push_back(p); w.lab = "z"; p.kids[0] = w; t.kids.push_back(p); ts.insert(c.flag() ? ts.begin() : ts.end(), t); } convert(c, ts, a, b); }
MC_SPACE(shapes, 3) { int n = c.range(1, 3); simple(c, n, 1, n > 2 ? (c.thorough ? 2 : 1) : 2, 0); }
MC_SPACE(words_labels, 3) { int n = c.range(1, 2), off = c.choose(10); simple(c, n, 2, n == 1 ? 6 : c.thorough ? 3 : 1, off); }
MC_SPACE(bare_words, 3) { int n = c.range(1, c.thorough ? 4 : 3), a = c.flag() ? 3 : 1, b = c.choose(5); if (b == 2) b = 5; vector<T> ts(1, tree(c, n, 1, true, 2, 1, c.choose(4))); if (b == 0) c.require(!has_bare(ts[0])); convert(c, ts, a, b); }

// ---- forests with everything JSON carries
static string field(const CfgData & d) { ostringstream o; o << "<"; for (size_t i = 0; i < d.words.size(); i++) { if (d.words[i] < 0) o << "$" << d.words[i]; else o << "'" << Dict::WSym(d.words[i]) << "'"; } o << ">"; return o.str(); }
static string dump(const HyperGraph & g) {
    ostringstream o; o << words(g) << "\n"; for (int i = 0; i < g.NumNodes(); i++) { const HyperNode * n = g.GetNode(i); o << "N" << n->GetId() << " " << Dict::WSym(n->GetSym()) << " " << n->GetSpan().first << "-" << n->GetSpan().second << " t"; const set<int> & t = n->GetTrgSpan(); for (set<int>::const_iterator k = t.begin(); k != t.end(); ++k) o << "," << *k; o << " f" << (int)n->GetFrontier() << " e"; for (int k = 0; k < n->NumEdges(); k++) o << "," << n->GetEdge(k)->GetId(); o << "\n"; }
    for (int i = 0; i < g.NumEdges(); i++) { const HyperEdge * e = g.GetEdge(i); o << "E" << e->GetId() << " " << e->GetHead()->GetId() << " ="; for (int k = 0; k < e->NumTails(); k++) o << " " << e->GetTail(k)->GetId(); o << " s" << e->GetScore() << " f"; map<string, double> f; for (auto it = e->GetFeatures().GetImpl().begin(); it != e->GetFeatures().GetImpl().end(); ++it) if (it->second != 0) f[Dict::WSym(it->first)] += it->second; for (auto it = f.begin(); it != f.end(); ++it) o << " " << it->first << "=" << it->second; o << " t"; for (size_t k = 0; k < e->GetTrgData().size(); k++) o << field(e->GetTrgData()[k]); o << "\n"; }
    return o.str();
}
static void roundtrip(mc::Ctx & c, const vector<G> & gs) {
    JSONTreeIO io; ostringstream o; string want; for (size_t i = 0; i < gs.size(); i++) { io.WriteTree(*gs[i], o); o << "\n"; want += dump(*gs[i]) + "--\n"; } c.describe(want); c.state(want); istringstream in(o.str()); JSONTreeIO r; string got; while (true) { G g(r.ReadTree(in)); if (!g) break; got += dump(*g) + "--\n"; } c.step(); CHECK(got == want, "roundtrip", "read back as\n" << got << "from the text\n" << o.str());
}
static const double SC[] = {0, -0.5, 1.25, 123456, 1e-5, -1e20};
static CfgDataVector trg(mc::Ctx & c, int tails, bool rich) { CfgDataVector v; int f = c.range(0, rich ? 2 : 1); for (int i = 0; i < f; i++) { CfgData d; int k = c.range(0, rich ? 2 : 1); for (int j = 0; j < k; j++) { int w = c.choose((rich ? 7 : 2) + tails); if (w < tails) d.words.push_back(-1 - w); else { static const char * x[] = {"x", "12", "-0", "\"q\"", "1.5", "\\", "-1x"}; d.words.push_back(Dict::WID(x[w - tails])); } } v.push_back(d); } return v; }
static SparseMap feats(mc::Ctx & c, bool rich) { SparseMap m; static const char * n[] = {"f", "a.b", "q\"\\", "lm", "1"}; int k = c.choose(rich ? 6 : 2); if (k) m[Dict::WID(n[k - 1])] = SC[1 + c.choose(rich ? 4 : 1)]; if (rich && c.flag()) m[Dict::WID("g")] = -3; return m; }
MC_SPACE(json_content, 3) {
    G g(new HyperGraph); HyperNode * a = new HyperNode(Dict::WID("S"), -1, make_pair(0, 2)), * b = new HyperNode(Dict::WID("\"x\\"), -1, make_pair(0, 1)); g->AddNode(a); g->AddNode(b); HyperEdge * e = new HyperEdge(a); int part = c.choose(2); int tails = c.choose(3); for (int i = 0; i < tails; i++) e->AddTail(b); g->AddEdge(e); a->AddEdge(e);
    e->SetTrgData(trg(c, tails, part == 0)); { SparseMap m = feats(c, part == 1); e->SetFeatures(SparseVector(vector<SparsePair>(m.begin(), m.end()))); } e->SetScore(SC[c.choose(part ? 6 : 2)]); if (part) { for (int k = 0; k < 2; k++) { HyperNode * n = k ? b : a; int t = c.choose(3); set<int> s; if (t > 0) s.insert(0); if (t > 1) s.insert(11); n->SetTrgSpan(s); static const HyperNode::FrontierType F[] = {HyperNode::UNSET_FRONTIER, HyperNode::IS_FRONTIER, HyperNode::NOT_FRONTIER}; n->SetFrontier(F[c.choose(3)]); } }
    g->SetWords(Dict::ParseWords("x 12")); roundtrip(c, vector<G>(1, g));
}
MC_SPACE(json_shapes, 3) {
    int gn = c.range(1, 2); vector<G> gs; for (int q = 0; q < gn; q++) { G g(new HyperGraph); int n = c.range(gn > 1 ? 0 : 1, gn > 1 ? 2 : 3); for (int i = 0; i < n; i++) g->AddNode(new HyperNode(Dict::WID(LB[i]), -1, make_pair(i, n))); int m = n ? c.range(0, gn > 1 ? 2 : c.thorough ? 4 : 3) : 0; for (int i = 0; i < m; i++) { int h = c.choose(n); HyperEdge * e = new HyperEdge(g->GetNode(h)); int t = c.choose(gn > 1 ? 2 : 3); for (int k = 0; k < t; k++) { int x = c.choose(n); c.require(x != h); e->AddTail(g->GetNode(x)); } e->SetScore(SC[i]); g->AddEdge(e); g->GetNode(h)->AddEdge(e); } g->SetWords(Dict::ParseWords(c.flag() ? "x" : "")); gs.push_back(g); } roundtrip(c, gs);
}
MC_SPACE(json_strings, 3) { G g(new HyperGraph); static const char A[] = "a\"\\/{,.1-:"; int n = c.range(1, c.thorough ? 5 : 4); string s; for (int i = 0; i < n; i++) s += A[c.choose(10)]; bool neg = s[0] == '-' && s.size() > 1 && (s.find_first_not_of('1', 1) == string::npos); g->AddNode(new HyperNode(Dict::WID(s), -1, make_pair(0, 1))); g->AddNode(new HyperNode(Dict::WID("N"), -1, make_pair(0, 1))); HyperEdge * e = new HyperEdge(g->GetNode(0)); e->AddTail(g->GetNode(1)); CfgData d; if (!neg) d.words.push_back(Dict::WID(s)); d.words.push_back(-1); e->GetTrgData().push_back(d); SparseMap m; m[Dict::WID(s)] = 2; e->SetFeatures(SparseVector(vector<SparsePair>(m.begin(), m.end()))); g->AddEdge(e); g->GetNode(0)->AddEdge(e); g->AddWord(Dict::WID(s)); roundtrip(c, vector<G>(1, g)); }
// a target word that is written like a variable
MC_SPACE(json_negative, 3) { G g(new HyperGraph); g->AddNode(new HyperNode(Dict::WID("S"), -1, make_pair(0, 1))); HyperEdge * e = new HyperEdge(g->GetNode(0)); CfgData d; d.words.push_back(Dict::WID(c.flag() ? "-1" : "-25")); e->GetTrgData().push_back(d); g->AddEdge(e); g->GetNode(0)->AddEdge(e); roundtrip(c, vector<G>(1, g)); }
// broken JSON: cut anywhere, or numbers of nodes that do not exist
MC_SPACE(json_broken, 3) {
    string s = "{\"nodes\": [{\"id\": 0, \"sym\": \"S\", \"span\": [0, 1]}, {\"id\": 1, \"sym\": \"x\", \"span\": [0, 1]}], \"edges\": [{\"id\": 0, \"head\": 0, \"tails\": [1], \"trg\": [{\"label\": -1, \"words\": [\"y\", -1]}], \"features\": {\"f\": 1}, \"score\": 2}], \"words\": [\"x\"]}";
    int k = c.choose(5); bool must = true; if (k == 0) { s = s.substr(0, c.choose(s.size() - 1) + 1); } else if (k == 1 || k == 2) { static const char * v[] = {"-1", "2", "3000000", "\"a\"", "1.5", ""}; string w = k == 1 ? "\"head\": 0" : "\"tails\": [1"; s.replace(s.find(w), w.size(), string(k == 1 ? "\"head\": " : "\"tails\": [") + v[c.choose(6)]); if (k == 2 && s.find("\"tails\": []") != string::npos) must = false; }
    else if (k == 3) { static const char * key[] = {"\"nodes\"", "\"edges\"", "\"words\": [\"x\"", "\"sym\"", "\"span\"", "\"head\"", "\"id\""}; string w = key[c.choose(7)]; s.replace(s.find(w) + 1, 1, "?"); } else { int p = c.choose(s.size()); s.erase(p, 1); must = false; }
    c.describe(s); c.state(s); istringstream in(s); JSONTreeIO io; bool threw = false; string d; try { G g(io.ReadTree(in)); if (g) d = dump(*g); } catch (std::exception &) { threw = true; } c.step(); CHECK(threw || !must, "accepted", "broken text is read as " << d);
}
// ---- Egret forests
struct EE { int h; vector<int> t; double p; };
MC_SPACE(egret_forests, 3) {
    // nodes with every span of up to two words, and their terminals
    static const char * NL[] = {"S", "A", "S", "A", "B"}; int lo[] = {0, 0, 1, 0, 1}, hi[] = {2, 1, 2, 2, 2}; string w0 = c.flag() ? "y" : "x"; vector<EE> es; int part = c.choose(2);
    if (part == 0) { static const int T[][3] = {{1, 2, -1}, {1, 4, -1}, {3, -1, -1}}; int n = c.range(1, 3); for (int i = 0; i < n; i++) { EE e; e.h = 0; const int * t = T[i]; for (int k = 0; t[k] >= 0; k++) e.t.push_back(t[k]); es.push_back(e); } if (n == 3) { EE e; e.h = 3; e.t.push_back(1); e.t.push_back(4); es.push_back(e); if (c.flag()) { e.t[1] = 2; es.push_back(e); } } if (n > 1) { EE e; e.h = 4; if (c.flag()) { e.t.push_back(2); es.push_back(e); e.t.clear(); } if (c.flag() || es.back().h != 4) { e.t.push_back(-2); es.push_back(e); } } EE a; a.h = 1; a.t.push_back(-1); es.push_back(a); a.h = 2; a.t[0] = -2; es.push_back(a); }
    else { int n = c.range(1, 3); for (int i = 0; i < n; i++) { EE e; e.h = i == 0 ? 0 : c.choose(3); int k = n == 3 && !c.thorough ? 1 : c.range(1, 2); for (int j = 0; j < k; j++) { e.t.push_back(c.choose(7) - 2); c.require(e.t.back() != e.h); } es.push_back(e); } }
    double P[] = {0.5, 0.25, 1, 0.125}; for (size_t i = 0; i < es.size(); i++) es[i].p = log(P[part == 0 && es[i].h == 0 ? c.choose(3) : (i % 4)]); bool norm = c.flag(); string W[] = {w0, "x"};
    auto nm = [&](int t, int h, bool txt) { ostringstream o; if (t < 0) { o << W[-1 - t]; if (!txt) o << "@" << lo[h] << "-" << hi[h]; } else { o << NL[t] << "[" << lo[t] << "," << hi[t] - 1 << "]"; } return o.str(); };
    ostringstream txt; txt.precision(17); int copies = c.range(1, 2); map<int, double> sum; for (size_t i = 0; i < es.size(); i++) sum[es[i].h] += exp(es[i].p);
    for (int q = 0; q < copies; q++) { txt << "sentence " << q + 1 << " :\n" << W[0] << " " << W[1] << "\n"; for (int i = (int)es.size() - 1; i >= 0; i--) { txt << nm(es[i].h, 0, true) << " =>"; for (size_t k = 0; k < es[i].t.size(); k++) txt << " " << nm(es[i].t[k], es[i].h, true); txt << " ||| " << es[i].p << "\n"; } txt << "\n"; }
    c.describe(txt.str()); c.state(txt.str() + (norm ? "n" : "")); string text = txt.str();
    for (int pass = 0; pass < 2; pass++) {
        EgretTreeIO io; io.SetNormalize(norm); istringstream in(text); ostringstream again;
        for (int q = 0; q < copies; q++) { G g(io.ReadTree(in)); c.step(); CHECK(g.get(), "lost", "forest " << q + 1 << " is lost"); CHECK(g->NumEdges() == (int)es.size(), "edges", g->NumEdges() << " edges"); CHECK(words(*g) == W[0] + "|" + W[1], "words", words(*g)); set<HyperNode *> seen; set<string> names;
            for (size_t i = 0; i < es.size(); i++) { const HyperEdge * e = g->GetEdge(i); auto show = [&](const HyperNode * n, bool term) { ostringstream o; o << Dict::WSym(n->GetSym()) << (term ? "@" : "[") << n->GetSpan().first << (term ? "-" : ",") << n->GetSpan().second - !term << (term ? "" : "]"); return o.str(); };
                CHECK(show(e->GetHead(), false) == nm(es[i].h, 0, false), "head", "edge " << i << " has head " << show(e->GetHead(), false)); CHECK(e->NumTails() == (int)es[i].t.size(), "tails", "edge " << i << " has " << e->NumTails() << " tails"); for (int k = 0; k < e->NumTails(); k++) CHECK(show(e->GetTail(k), es[i].t[k] < 0) == nm(es[i].t[k], es[i].h, false), "tails", "tail " << k << " of edge " << i << " is " << show(e->GetTail(k), es[i].t[k] < 0));
                double want = es[i].p - (norm ? log(sum[es[i].h]) : 0); CHECK(fabs(e->GetScore() - want) < 1e-5, "score", "edge " << i << " has score " << e->GetScore() << " instead of " << want); CHECK(fabs(const_cast<SparseVector &>(e->GetFeatures()).GetImpl().size() ? e->GetFeatures().GetImpl().begin()->second - want : want) < 1e-5 && (e->GetFeatures().GetImpl().empty() || Dict::WSym(e->GetFeatures().GetImpl().begin()->first) == "parse"), "feature", "edge " << i << " has features " << e->GetFeatures());
                int at = 0; for (int k = 0; k < e->GetHead()->NumEdges(); k++) at += e->GetHead()->GetEdge(k) == e; CHECK(at == 1, "links", "the head of edge " << i << " lists it " << at << " times"); }
            for (int i = 0; i < g->NumNodes(); i++) { const HyperNode * n = g->GetNode(i); ostringstream o; o << Dict::WSym(n->GetSym()) << "@" << n->GetSpan().first << "-" << n->GetSpan().second << (n->NumEdges() ? "" : "t"); if (n->NumEdges()) CHECK(names.insert(o.str()).second, "shared", "node " << o.str() << " appears twice"); }
            io.WriteTree(*g, again); again << "\n"; }
        G g(io.ReadTree(in)); CHECK(!g, "invented", "more forests than written"); if (pass == 0) { bool dangling = false; set<int> heads; for (size_t i = 0; i < es.size(); i++) heads.insert(es[i].h); for (size_t i = 0; i < es.size(); i++) for (size_t k = 0; k < es[i].t.size(); k++) dangling |= es[i].t[k] >= 0 && !heads.count(es[i].t[k]); if (dangling) break; text = again.str(); } }
}
MC_SPACE(egret_broken, 3) {
    string s = "sentence 1 :\nx y\nA[0,0] => x ||| -0.5\nB[1,1] => y ||| -0.25\nS[0,1] => A[0,0] B[1,1] ||| -1\n\n"; int k = c.choose(3); bool must = false; size_t body = s.find("A[0");
    if (k == 0) { size_t p = c.choose(s.size()); size_t last = s.rfind('\n', p ? p - 1 : 0); string tail = p ? s.substr(last == string::npos || last >= p ? 0 : last + 1, p - (last == string::npos ? 0 : last + 1)) : ""; if (p && s[p - 1] == '\n') tail = ""; s = s.substr(0, p); must = (p > 0 && p < 8) || (p >= 8 && p <= 13) || (p > body && !tail.empty() && (tail.find("||| ") == string::npos || tail[tail.size() - 1] == ' ' || tail[tail.size() - 1] == '-')); }
    else if (k == 1) { static const char * w[] = {"=>", "|||", "sentence", "||| -0.5", "-0.25"}; string x = w[c.choose(5)]; s.erase(s.find(x), x.size()); must = true; } else { size_t p = c.choose(s.size()); s.erase(p, 1); }
    c.describe(s); c.state(s); istringstream in(s); EgretTreeIO io; bool threw = false; string d; try { G g(io.ReadTree(in)); if (g) d = dump(*g); } catch (std::exception &) { threw = true; } c.step(); CHECK(threw || !must, "accepted", "broken text is read as " << d);
}
// the readers on nothing, and the whole program on a broken stream
MC_SPACE(program_errors, 3) {
    static const char * in[] = {"penn", "rule", "egret", "json", "word", "mosesxml", "xyz", ""}; static const char * bad[] = {"", "(S (A x)", "S ( A (", "sentence", "{\"nodes\": [", "(S (A x)))", "\n"}; int a = c.choose(8), b = c.choose(7), o = c.choose(8); static const char * out[] = {"penn", "rule", "egret", "json", "mosesxml", "word", "xyz", ""}; string txt = bad[b]; c.describe(string(in[a]) + " " + out[o] + " " + txt); vector<string> args; args.push_back("-input_format"); args.push_back(in[a]); args.push_back("-output_format"); args.push_back(out[o]); args.push_back("-debug"); args.push_back("0"); c.require(*in[a] && *out[o]);
    bool threw = false; string res; { run::Capture cap(txt); try { ConfigTreeConverterRunner conf; run::config(conf, args); TreeConverterRunner r; r.Run(conf); } catch (std::exception &) { threw = true; } res = cap.out.str(); } c.step(); static const bool ok[5][7] = {{1, 0, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0}, {1, 1, 1, 1, 1, 1, 1}}; bool good = o < 6 && a < 5 && ok[a][b]; CHECK(threw != good, "program", (threw ? "rejected" : "accepted, printing " + res)); if (good && b == 0) CHECK(res.empty(), "invented", res);
}

// sentences without a tree keep their place
MC_SPACE(empty_trees, 3) {
    int n = c.range(1, 3), a = c.choose(3), b = c.choose(6); static const int A[] = {0, 2, 3}; a = A[a]; vector<int> full; string src; T t, p, w; t.lab = "S"; p.lab = "A"; w.lab = "x"; w.word = true; p.kids.push_back(w); t.kids.push_back(p); spans(t, 0);
    for (int i = 0; i < n; i++) { full.push_back(c.choose(2)); if (a == 0) src += full[i] ? "(S (A x))\n" : "()\n"; else if (a == 2) src += full[i] ? egret(t) + "\n" : "sentence :\n\n\n\n"; else src += full[i] ? "{\"nodes\": [{\"id\": 0, \"sym\": \"S\", \"span\": [0, 1]}, {\"id\": 1, \"sym\": \"A\", \"span\": [0, 1]}, {\"id\": 2, \"sym\": \"x\", \"span\": [0, 1]}], \"edges\": [{\"id\": 0, \"head\": 0, \"tails\": [1]}, {\"id\": 1, \"head\": 1, \"tails\": [2]}], \"words\": [\"x\"]}\n" : "{\"nodes\": [], \"edges\": [], \"words\": []}\n"; }
    c.describe(string(IN[a]) + " to " + OUT[b] + ":\n" + src); vector<string> args; args.push_back("-input_format"); args.push_back(IN[a]); args.push_back("-output_format"); args.push_back(OUT[b]); args.push_back("-debug"); args.push_back("0"); ConfigTreeConverterRunner conf; run::config(conf, args); string out; { run::Capture cap(src); TreeConverterRunner r; r.Run(conf); out = cap.out.str(); } c.step();
    if (b != 2 && b != 3) { string want; for (int i = 0; i < n; i++) want += (full[i] ? b == 0 ? penn(t) : b == 1 ? rule(t) : b == 4 ? moses(t) : "x" : b == 0 ? "()" : "") + string("\n"); CHECK(out == want, "written", "written as " << out); return; }
    boost::shared_ptr<TreeIO> io(reader(b)); istringstream in(out); for (int i = 0; i < n; i++) { G g(io->ReadTree(in)); CHECK(g.get(), "lost", "tree " << i + 1 << " is lost in " << out); if (full[i]) same(c, t, *g, out); else CHECK(g->NumNodes() == 0 && g->NumEdges() == 0 && g->GetWords().empty(), "empty", "the empty tree is read as " << dump(*g)); } G g(io->ReadTree(in)); CHECK(!g, "invented", "more trees than written");
}
MC_SPACE(missing_file, 3) { static const char * in[] = {"penn", "rule", "egret", "json", "word"}; vector<string> args; args.push_back("-input_format"); args.push_back(in[c.choose(5)]); args.push_back("-output_format"); args.push_back("word"); args.push_back("/nonexistent/file"); c.describe(args[1]); bool threw = false; { run::Capture cap(""); try { ConfigTreeConverterRunner conf; run::config(conf, args); TreeConverterRunner r; r.Run(conf); } catch (std::exception &) { threw = true; } } c.step(); CHECK(threw, "missing", "a missing input file is not reported"); }
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
