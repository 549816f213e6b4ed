// R04: language model composition of every small forest against direct scoring
#include "canon.h"
#include "arpa.h"
#include "run.h"
#include <travatar/lm-composer-bu.h>
#include <travatar/lm-composer-incremental.h>
#include <lm/model.hh>
using namespace travatar; using namespace std;

static const char * W[] = {"a", "b", "c", "zz"};    // zz is in no model
static int wid(int i) { static vector<int> v; if (v.empty()) for (int k = 0; k < 4; k++) v.push_back(Dict::WID(W[k])); return v[i]; }
struct LM { arpa::Model m; string path; };
// model k in one of the storage formats
static LM & lmod(int k, int fmt) {
    static map<pair<int, int>, LM> made; pair<int, int> key(k, fmt); if (made.count(key)) return made[key]; LM & l = made[key];
    arpa::Gram ws; ws.push_back("a"); ws.push_back("b"); ws.push_back("c");
    struct { int order, pct; bool unk; } spec[] = {{2, 60, true}, {3, 45, true}, {3, 100, false}, {4, 30, true}, {3, 12, true}, {5, 25, false}, {2, 0, true}};
    arpa::Density d; d.salt = k; d.pct = spec[k].pct; l.m = arpa::make(spec[k].order, ws, spec[k].unk, k + 1, true, d);
    string a = run::put("m" + to_string(k) + "_" + to_string(fmt) + ".arpa", l.m.text()); l.path = a;
    if (fmt) {
        l.path = a + ".bin"; lm::ngram::Config cfg; cfg.show_progress = false; cfg.messages = 0; cfg.write_mmap = l.path.c_str();
        if (fmt == 1) lm::ngram::ProbingModel(a.c_str(), cfg); else if (fmt == 2) lm::ngram::TrieModel(a.c_str(), cfg); else { cfg.pointer_bhiksha_bits = 4; lm::ngram::ArrayTrieModel(a.c_str(), cfg); }
    }
    return l;
}
struct Use { int k, fmt, factor; string feat, unk; double w, uw; };
static string spec(const Use & u) { return lmod(u.k, u.fmt).path + "|factor=" + to_string(u.factor) + ",lm_feat=" + u.feat + ",lm_unk_feat=" + u.unk; }
template<class T> static T & composer(const vector<Use> & us) {
    static map<string, T *> made; string key = to_string(GlobalVars::trg_factors); vector<string> p; for (size_t i = 0; i < us.size(); i++) { p.push_back(spec(us[i])); key += p.back() + ";"; }
    if (!made.count(key)) { run::Capture cap; made[key] = new T(p); }
    T & t = *made[key]; SparseMap w; for (size_t i = 0; i < us.size(); i++) { w[Dict::WID(us[i].feat)] = us[i].w; w[Dict::WID(us[i].unk)] = us[i].uw; } t.UpdateWeights(w); return t;
}
static arpa::Gram words(const vector<int> & v) { arpa::Gram g; for (size_t i = 0; i < v.size(); i++) g.push_back(Dict::WSym(v[i])); return g; }
static int efeat(int e) { static vector<int> v; while ((int)v.size() <= e) v.push_back(Dict::WID("e" + to_string(v.size()))); return v[e]; }
static bool near(double a, double b) { return fabs(a - b) <= 2e-4 * (1 + fabs(a) / 100); }
struct Want { double score; map<int, double> feats; vector<int> y[2]; };
static string show(const map<int, double> & f) { return canon::fstr(f); }
static bool same(map<int, double> a, map<int, double> b) { for (map<int, double>::iterator i = a.begin(); i != a.end(); i++) if (!near(i->second, b.count(i->first) ? b[i->first] : 0)) return false; for (map<int, double>::iterator i = b.begin(); i != b.end(); i++) if (!a.count(i->first) && !near(i->second, 0)) return false; return true; }
// marks edges with features of their own so that a derivation can be recognised by its features
static void finish(HyperGraph & g) { static const double sc[] = {-0.5, -1.25, -0.0, -2.5, -0.75, 0.25, -3, -1}; for (int e = 0; e < g.NumEdges(); e++) { HyperEdge * d = g.GetEdge(e); d->SetScore(sc[e % 8]); d->GetFeatures().Add(efeat(e), 1); d->SetSrcStr("s" + to_string(e)); } }

static void check(mc::Ctx & c, const HyperGraph & g, const HyperGraph * out, const vector<Use> & us, bool complete) {
    vector<hg::Deriv> in = hg::derivs(g); map<string, Want> want; double best = -1e99;
    set<int> es; for (int e = 0; e < g.NumEdges(); e++) es.insert(efeat(e));
    set<int> dup;
    for (size_t i = 0; i < in.size(); i++) {
        Want w; w.score = in[i].score; w.feats = hg::feats(in[i].edges); string id = show(w.feats);
        for (int f = 0; f < GlobalVars::trg_factors; f++) { w.y[f] = hg::yield(in[i], f); id += hg::vstr(w.y[f]); }
        for (size_t l = 0; l < us.size(); l++) { const arpa::Model & m = lmod(us[l].k, us[l].fmt).m; arpa::Gram s = words(w.y[us[l].factor]); double p = m.sentence(s); int u = m.oov(s); w.score += p * us[l].w + u * us[l].uw; w.feats[Dict::WID(us[l].feat)] += p; w.feats[Dict::WID(us[l].unk)] += u; }
        want[id] = w; best = max(best, w.score);
    }
    if (in.empty()) { CHECK(out->NumNodes() == 0 || hg::derivs(*out).empty(), "invented", "a derivation out of a forest that has none: " + hg::str(*out)); return; }
    CHECK(out->NumNodes() > 0, "empty", "the composed forest is empty");
    string wf = canon::wellformed(*out); CHECK(wf.empty(), "malformed", wf + " " + hg::str(*out));
    vector<hg::Deriv> od = hg::derivs(*out); CHECK(!od.empty(), "empty", "no derivation left: " + hg::str(*out));
    set<string> seen; double obest = -1e99;
    for (size_t i = 0; i < od.size(); i++) {
        map<int, double> f = hg::feats(od[i].edges), ef; for (map<int, double>::iterator k = f.begin(); k != f.end(); k++) if (es.count(k->first)) ef[k->first] = k->second;
        string id = show(ef); for (int k = 0; k < GlobalVars::trg_factors; k++) id += hg::vstr(hg::yield(od[i], k));
        CHECK(want.count(id), "invented", "derivation " + id + " '" + hg::wstr(hg::yield(od[i])) + "' is not one of the forest: " + hg::str(*out));
        CHECK(seen.insert(id).second, "repeated", "derivation " + id + " occurs twice in " + hg::str(*out));
        Want & w = want[id];
        CHECK(near(od[i].score, w.score), "score", "'" + hg::wstr(w.y[0]) + "' " + id + " gets " + to_string(od[i].score) + ", truly " + to_string(w.score) + " in " + hg::str(*out));
        CHECK(same(f, w.feats), "features", "'" + hg::wstr(w.y[0]) + "' gets " + show(f) + ", truly " + show(w.feats));
        obest = max(obest, od[i].score);
        for (size_t e = 1; e < od[i].edges.size(); e++) {
            const HyperEdge * d = od[i].edges[e]; const HyperEdge * o = 0; for (int k = 0; k < g.NumEdges(); k++) if (g.GetEdge(k)->GetSrcStr() == d->GetSrcStr()) o = g.GetEdge(k);
            CHECK(o, "edge", "an edge lost its source side"); CHECK(o->GetHead()->GetSym() == d->GetHead()->GetSym() && o->GetHead()->GetSpan() == d->GetHead()->GetSpan(), "node", "a node changed its label or span: " + hg::str(*out));
            CHECK(canon::tstr(o->GetTrgData()) == canon::tstr(d->GetTrgData()), "edge", "an edge changed its target side: " + hg::str(*out));
            for (int t = 0; t < o->NumTails(); t++) CHECK(t < d->NumTails() && o->GetTail(t)->GetSym() == d->GetTail(t)->GetSym() && o->GetTail(t)->GetSpan() == d->GetTail(t)->GetSpan(), "tails", "an edge changed its children: " + hg::str(*out));
        }
    }
    CHECK(near(out->GetNode(0)->GetViterbiScore(), obest), "viterbi", "root's best score " + to_string(out->GetNode(0)->GetViterbiScore()) + " but the best derivation scores " + to_string(obest));
    CHECK(out->GetWords() == g.GetWords(), "words", "the input words changed");
    if (complete) {
        CHECK(near(obest, best), "best", "the best derivation scores " + to_string(best) + " but the best one kept " + to_string(obest) + " in " + hg::str(*out));
        CHECK(seen.size() == want.size(), "missing", to_string(want.size()) + " derivations but " + to_string(seen.size()) + " after composition");
    }
}
static void bu(mc::Ctx & c, const HyperGraph & g, const vector<Use> & us, int pop, int chart) {
    LMComposerBU & b = composer<LMComposerBU>(us); b.SetStackPopLimit(pop ? pop : 1000000); b.SetChartLimit(chart);
    for (int i = 0; i < g.NumNodes(); i++) const_cast<HyperGraph &>(g).GetNode(i)->SetViterbiScore(-REAL_MAX);
    shared_ptr<HyperGraph> out(b.TransformGraph(g)); check(c, g, out.get(), us, !pop && !chart); c.step();
}
static void inc(mc::Ctx & c, const HyperGraph & g, const vector<Use> & us, int pop) {
    LMComposerIncremental & b = composer<LMComposerIncremental>(us); b.SetStackPopLimit(pop ? pop : 1000000);
    shared_ptr<HyperGraph> out(b.TransformGraph(g)); check(c, g, out.get(), us, false); c.step();
    if (!pop) { double best = -1e99, ob = -1e99; vector<hg::Deriv> in = hg::derivs(g); for (size_t i = 0; i < in.size(); i++) { arpa::Gram s = words(hg::yield(in[i], us[0].factor)); const arpa::Model & m = lmod(us[0].k, us[0].fmt).m; best = max(best, in[i].score + us[0].w * m.sentence(s) + us[0].uw * m.oov(s)); }
        if (out->NumNodes()) { vector<hg::Deriv> od = hg::derivs(*out); for (size_t i = 0; i < od.size(); i++) ob = max(ob, od[i].score); } if (in.size()) CHECK(near(best, ob), "best", "without a limit, incremental search found " + to_string(ob) + " but the best is " + to_string(best)); }
}
// target sides with t variables: every order of the variables, every choice of material in the gaps
static const vector<Sentence> & sides(int t, bool rich) {
    static map<int, vector<Sentence> > memo; vector<Sentence> & r = memo[t * 2 + rich]; if (!r.empty()) return r;
    vector<Sentence> fill(1); { Sentence s(1, wid(0)); fill.push_back(s); if (rich) { s[0] = wid(3); fill.push_back(s); s[0] = wid(1); s.push_back(wid(0)); fill.push_back(s); } }
    vector<int> perm; for (int i = 0; i < t; i++) perm.push_back(-1 - i); vector<vector<int> > perms; sort(perm.rbegin(), perm.rend()); vector<int> base = perm; sort(perm.begin(), perm.end()); do perms.push_back(perm); while (next_permutation(perm.begin(), perm.end()));
    if (t == 0) { int k[][2] = {{0, -1}, {1, -1}, {3, -1}, {0, 1}, {1, 0}, {-1, -1}, {2, 2}}; for (int i = 0; i < 7; i++) { Sentence s; for (int j = 0; j < 2; j++) if (k[i][j] >= 0) s.push_back(wid(k[i][j])); r.push_back(s); } return r; }
    for (size_t p = 0; p < perms.size(); p++) { int gaps = t + 1, n = 1; for (int i = 0; i < gaps; i++) n *= fill.size(); for (int x = 0; x < n; x++) { Sentence s; int y = x; for (int i = 0; i < gaps; i++) { const Sentence & f = fill[y % fill.size()]; s.insert(s.end(), f.begin(), f.end()); y /= fill.size(); if (i < t) s.push_back(perms[p][i]); } r.push_back(s); } }
    return r;
}
static CfgDataVector trg(const Sentence & s) { CfgDataVector v; v.push_back(CfgData(s)); return v; }
static HyperNode * node(HyperGraph & g) { int i = g.NumNodes(); HyperNode * n = new HyperNode(Dict::WID("N" + to_string(i)), -1, make_pair(i, 9)); g.AddNode(n); return n; }
static HyperEdge * edge(HyperGraph & g, int h, const vector<int> & tails, const CfgDataVector & t) { HyperEdge * e = new HyperEdge(g.GetNode(h)); for (size_t i = 0; i < tails.size(); i++) e->AddTail(g.GetNode(tails[i])); e->SetTrgData(t); g.AddEdge(e); g.GetNode(h)->AddEdge(e); return e; }
static Use use1(mc::Ctx & c, int nm, bool weights) { Use u; u.k = c.choose(nm); u.fmt = 0; u.factor = 0; u.feat = "lm"; u.unk = "lmunk"; static const double ws[][2] = {{1, 0}, {0.5, -2}, {-0.75, 1}, {0, -1.5}}; int w = weights ? c.choose(4) : 1; u.w = ws[w][0]; u.uw = ws[w][1]; return u; }
static void words_of(HyperGraph & g) { g.AddWord(wid(0)); g.AddWord(wid(1)); }

// one derivation, put together in every way
MC_SPACE(bracketings, 3) {
    GlobalVars::trg_factors = 1; bool isinc = c.flag(); vector<Use> us(1, use1(c, 6, false)); HyperGraph g; words_of(g); node(g);
    int shape = c.choose(c.thorough ? 5 : 4);
    const vector<Sentence> & l = sides(0, false); int nl = c.thorough ? l.size() : 6;
    vector<int> t;
    #define LEAF(h) edge(g, h, vector<int>(), trg(l[c.choose(nl)]))
    #define PICK(n, rich) trg(sides(n, rich)[c.choose(sides(n, rich).size())])
    if (shape == 0) { LEAF(0); }
    else if (shape == 1) { node(g); node(g); t.push_back(1); t.push_back(2); edge(g, 0, t, PICK(2, false)); if (c.flag()) { LEAF(1); LEAF(2); } else { vector<int> u(1, 3); node(g); edge(g, 1, u, PICK(1, true)); LEAF(2); LEAF(3); } }
    else if (shape == 2) { node(g); node(g); t.push_back(1); edge(g, 0, t, PICK(1, true)); vector<int> u(1, 2); edge(g, 1, u, PICK(1, true)); LEAF(2); }
    else if (shape == 3) { for (int i = 0; i < 3; i++) { node(g); t.push_back(i + 1); } edge(g, 0, t, PICK(3, false)); int a = c.choose(3); static const int set[][3] = {{0, 1, 2}, {2, 5, 0}, {3, 4, 1}}; for (int i = 0; i < 3; i++) edge(g, i + 1, vector<int>(), trg(l[set[a][i]])); }
    else { for (int i = 0; i < 4; i++) node(g); t.push_back(1); t.push_back(2); edge(g, 0, t, PICK(2, false)); vector<int> u; u.push_back(3); u.push_back(4); edge(g, 1, u, PICK(2, false)); static const int set[][3] = {{0, 1, 3}, {4, 2, 0}, {1, 5, 6}}; int a = c.choose(3); for (int i = 0; i < 3; i++) edge(g, i + 2, vector<int>(), trg(l[set[a][i]])); }
    finish(g); c.describe([&] { return string(isinc ? "inc " : "bu ") + "model " + to_string(us[0].k) + " " + hg::str(g); });
    if (isinc) inc(c, g, us, 0); else bu(c, g, us, 0, 0);
}
// forests with alternatives, under every limit
MC_SPACE(forests, 3) {
    GlobalVars::trg_factors = 1; bool isinc = c.flag(); vector<Use> us(1, use1(c, c.thorough ? 6 : 4, false)); HyperGraph g; words_of(g);
    for (int i = 0; i < 3; i++) node(g);
    static const int l2[][2] = {{0, 1}, {3, 4}, {1, 2}};
    vector<vector<int> > tl; { vector<int> v; tl.push_back(v); v.push_back(1); tl.push_back(v); v[0] = 2; tl.push_back(v); v[0] = 1; v.push_back(2); tl.push_back(v); v[0] = 2; tl.push_back(v); v[1] = 1; tl.push_back(v); }
    for (int n = 0; n < 3; n++) {
        int ne = n == 2 ? 1 + c.choose(2) : c.choose(3); c.require(n || ne); int last = -1;   // inner nodes may be without edges
        for (int e = 0; e < ne; e++) {
            vector<vector<int> > o; for (size_t i = 0; i < tl.size(); i++) { bool ok = true; for (size_t k = 0; k < tl[i].size(); k++) ok = ok && tl[i][k] > n; if (ok && (n || i)) o.push_back(tl[i]); }
            int k = c.choose(o.size()); vector<int> t = o[k]; Sentence s;
            if (t.empty()) s = sides(0, false)[l2[n == 2 ? 0 : 1][e]]; else if (t.size() == 1) s = sides(1, false)[(n + e) % 2 + 1]; else { int r = c.choose(2); s = sides(2, false)[r ? 8 + 2 + e : 2 * e]; }
            c.require(k >= last); last = k; edge(g, n, t, trg(s));
        }
    }
    finish(g); int lim = c.choose(isinc ? 4 : 5); c.describe([&] { return string(isinc ? "inc " : "bu ") + "limit " + to_string(lim) + " model " + to_string(us[0].k) + " " + hg::str(g); });
    if (isinc) inc(c, g, us, lim); else bu(c, g, us, lim == 1 ? 1 : lim == 2 ? 2 : lim == 4 ? 3 : 0, lim >= 3 ? lim - 2 : 0);
}
// node with several alternatives that compete for the limits
MC_SPACE(competition, 3) {
    GlobalVars::trg_factors = 1; bool isinc = c.flag(); vector<Use> us(1, use1(c, 3, true)); if (isinc) c.require(us[0].w != 0); HyperGraph g; words_of(g); for (int i = 0; i < 3; i++) node(g);
    vector<int> t; t.push_back(1); t.push_back(2); bool swap = c.flag(); edge(g, 0, t, trg(sides(2, false)[(swap ? 8 : 0) + (c.flag() ? 2 : 0)])); if (c.flag()) edge(g, 0, t, trg(sides(2, false)[swap ? 0 : 8]));
    int mask1 = 1 + c.choose(31), mask2 = 1 + c.choose(31); for (int i = 0; i < 5; i++) if (mask1 >> i & 1) edge(g, 1, vector<int>(), trg(sides(0, false)[i])); for (int i = 0; i < 5; i++) if (mask2 >> i & 1) edge(g, 2, vector<int>(), trg(sides(0, false)[4 - i]));
    if (!c.thorough) c.require(__builtin_popcount(mask1) + __builtin_popcount(mask2) <= 4);
    finish(g); int pop = c.choose(4), chart = isinc ? 0 : c.choose(3); static const int pl[] = {0, 1, 3, 6}; c.describe([&] { return string(isinc ? "inc " : "bu ") + "pop " + to_string(pl[pop]) + " chart " + to_string(chart) + " model " + to_string(us[0].k) + " w " + to_string(us[0].w) + " " + hg::str(g); });
    if (isinc) inc(c, g, us, pl[pop]); else bu(c, g, us, pl[pop], chart);
}
// several models, factors, weights, storage formats
MC_SPACE(models, 3) {
    int factors = 1 + c.choose(2); GlobalVars::trg_factors = factors; HyperGraph g; words_of(g); for (int i = 0; i < 3; i++) node(g);
    vector<Use> us; int n = 1 + c.choose(2); static const double ws[] = {1, 0, -0.5}, uws[] = {0, -1.5, 2};
    for (int i = 0; i < n; i++) { Use u; u.k = i ? 1 : c.choose(3) * 3; u.fmt = i ? 0 : c.choose(4); u.factor = c.choose(factors); u.feat = i && c.flag() ? "lm2" : "lm"; u.unk = i && u.feat == "lm2" ? "lmunk2" : "lmunk"; int w = c.choose(3); u.w = ws[w]; u.uw = uws[i || c.thorough ? c.choose(3) : w]; us.push_back(u); }
    if (n == 2 && us[0].feat == us[1].feat) { us[1].w = us[0].w; us[1].uw = us[0].uw; }
    vector<int> t; t.push_back(1); t.push_back(2); CfgDataVector d(factors); int a = c.choose(4);
    for (int f = 0; f < factors; f++) d[f] = CfgData(sides(2, false)[(a * 5 + f * 9) % 16]); edge(g, 0, t, d);
    for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) { for (int f = 0; f < factors; f++) d[f] = CfgData(sides(0, false)[(a + 2 * k + 3 * i + 2 * f) % 7]); edge(g, 1 + k, vector<int>(), d); }
    finish(g); c.describe([&] { string s; for (size_t i = 0; i < us.size(); i++) s += spec(us[i]) + " weight " + to_string(us[i].w) + "," + to_string(us[i].uw) + "; "; return s + hg::str(g); });
    int lim = c.choose(3); bu(c, g, us, lim == 1 ? 2 : 0, lim == 2 ? 1 : 0);
    if (n == 1 && us[0].w != 0) inc(c, g, us, lim);
}
// a zero weight for the model leaves its feature as it is
MC_SPACE(zeroweight, 3) {
    GlobalVars::trg_factors = 1; HyperGraph g; words_of(g); for (int i = 0; i < 2; i++) node(g); Use u; u.k = c.choose(3); u.fmt = 0; u.factor = 0; u.feat = "lm"; u.unk = "lmunk"; u.w = 0; u.uw = c.choose(2); vector<Use> us(1, u);
    edge(g, 0, vector<int>(1, 1), trg(sides(1, true)[c.choose(16)])); for (int i = 0; i < 2; i++) edge(g, 1, vector<int>(), trg(sides(0, false)[c.choose(6)])); finish(g);
    c.describe([&] { return hg::str(g); }); inc(c, g, us, 0);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; for (int i = 0; i < 4; i++) wid(i); Dict::WID("lm"); Dict::WID("lmunk"); for (int i = 0; i < 12; i++) efeat(i); }); }
