// H01: n-best search against exhaustive enumeration of all derivations.
#include "hg.h"
using namespace travatar; using namespace std; using hg::Deriv;
static int W[32], F[32];
static void init() {
    GlobalVars::debug = 0; GlobalVars::trg_factors = 1;
    for (int i = 0; i < 32; i++) { ostringstream o; o << "w" << i; W[i] = Dict::WID(o.str()); }
    for (int i = 0; i < 32; i++) { ostringstream o; o << "f" << i; F[i] = Dict::WID(o.str()); }
}
static void add_edge(HyperGraph & g, int head, const vector<int> & tails, double score, const Sentence & trg, int feat) {
    HyperEdge * e = new HyperEdge(g.GetNode(head)); g.AddEdge(e); g.GetNode(head)->AddEdge(e);
    for (size_t i = 0; i < tails.size(); i++) e->AddTail(g.GetNode(tails[i]));
    e->SetScore(score); CfgDataVector d; d.push_back(CfgData(trg)); 
    if (GlobalVars::trg_factors == 2) { Sentence s2(trg.rbegin(), trg.rend()); d.push_back(CfgData(s2)); }
    e->SetTrgData(d);
    SparseVector v; v.Add(F[feat % 3], 1 + feat); v.Add(F[3], -score); e->SetFeatures(v);
}
static void verify(mc::Ctx & c, HyperGraph & g, bool uniq, double tol, bool lastk_only) {
    vector<Deriv> all = hg::derivs(g);
    c.require(all.size() <= 400);
    c.describe(hg::str(g) + (uniq ? " uniq" : ""));
    map<vector<int>, double> valid;
    for (size_t i = 0; i < all.size(); i++) valid[hg::ids(all[i].edges)] = all[i].score;
    // the expected score list
    vector<double> exp;
    if (!uniq) { for (size_t i = 0; i < all.size(); i++) exp.push_back(all[i].score); }
    else {
        map<vector<vector<int> >, double> best;
        for (size_t i = 0; i < all.size(); i++) {
            vector<vector<int> > y; for (int f = 0; f < GlobalVars::trg_factors; f++) y.push_back(hg::yield(all[i], f));
            if (!best.count(y) || best[y] < all[i].score) best[y] = all[i].score;
        }
        for (map<vector<vector<int> >, double>::iterator it = best.begin(); it != best.end(); ++it) exp.push_back(it->second);
    }
    sort(exp.rbegin(), exp.rend());
    int D = exp.size();
    set<int> ks; ks.insert(D + 3); if (!lastk_only) { ks.insert(1); ks.insert(2); ks.insert(D); ks.insert((D + 1) / 2); }
    for (set<int>::iterator k = ks.begin(); k != ks.end(); ++k) {
        HyperGraph g2(g);   // fresh Viterbi scores each time
        NbestList nb = g2.GetNbest(*k, uniq);
        c.step(nb.size() + 1);
        string ctx = "k=" + to_string(*k) + " derivations=" + to_string(all.size()) + ": ";
        CHECK((int)nb.size() == min(*k, D), "count", ctx + "returned " + to_string(nb.size()) + " entries instead of " + to_string(min(*k, D)));
        set<vector<int> > seen; set<vector<vector<int> > > seeny;
        for (size_t i = 0; i < nb.size(); i++) {
            HyperPath & p = *nb[i]; vector<const HyperEdge *> es(p.GetEdges().begin(), p.GetEdges().end());
            vector<int> id = hg::ids(es);
            map<vector<int>, double>::iterator it = valid.find(id);
            CHECK(it != valid.end(), "not-a-derivation", ctx + "entry " + hg::vstr(id) + " is not a derivation");
            CHECK(fabs(it->second - p.GetScore()) <= tol, "score", ctx + "entry " + hg::vstr(id) + " has score " + to_string(p.GetScore()) + ", its edges sum to " + to_string(it->second));
            CHECK(seen.insert(id).second, "duplicate", ctx + "derivation " + hg::vstr(id) + " returned twice");
            CHECK(i == 0 || nb[i - 1]->GetScore() >= p.GetScore() - tol, "order", ctx + "scores not in non-increasing order");
            CHECK(fabs(exp[i] - p.GetScore()) <= tol * 4, "not-best", ctx + "entry " + to_string(i) + " scores " + to_string(p.GetScore()) + " but the best possible is " + to_string(exp[i]));
            vector<vector<int> > ys;
            for (int f = 0; f < GlobalVars::trg_factors; f++) {
                size_t ix = 0; vector<int> y = hg::yield(es, ix, f); ys.push_back(y);
                CHECK((int)p.GetTrgData().size() > f && vector<int>(p.GetTrgData()[f].words) == y, "translation", ctx + "translation is '" + hg::wstr(p.GetTrgData()[f].words) + "', substitution gives '" + hg::wstr(y) + "'");
            }
            if (uniq) CHECK(seeny.insert(ys).second, "duplicate-translation", ctx + "translation '" + hg::wstr(ys[0]) + "' returned twice although unique entries were asked for");
            CHECK(hg::tomap(p.CalcFeatures()) == hg::feats(es), "features", ctx + "features " + Dict::PrintSparseVector(p.CalcFeatures()));
        }
        if (nb.size()) CHECK(fabs(g2.GetNode(0)->CalcViterbiScore() - exp[0]) <= tol, "viterbi", ctx + "Viterbi score differs from the best derivation");
    }
}
static void build(mc::Ctx & c, HyperGraph & g, int N, int maxe, int maxt, const vector<double> & sc, bool words) {
    for (int i = 0; i < N; i++) g.AddNode(new HyperNode(-1));
    int ec = 0;
    for (int i = N - 1; i >= 0; i--) {
        int ne = 1 + c.choose(maxe);
        for (int e = 0; e < ne; e++) {
            vector<int> t = hg::pick_tails(c, i + 1, N, maxt);
            double s = c.pick(sc);
            int w = words ? c.choose(2) : ec % 30, pat = words && t.size() == 2 ? c.choose(2) : ec & 1;
            Sentence trg = hg::trg_side(pat, t.size(), W[w]);
            if (words && t.size() == 1 && w == 1) { trg = Sentence(1, -1); }   // a rule that adds no words
            add_edge(g, i, t, s, trg, ec++);
        }
    }
}
static vector<double> V(double a, double b = 1e9, double d = 1e9) { vector<double> v; v.push_back(a); if (b < 1e8) v.push_back(b); if (d < 1e8) v.push_back(d); return v; }
MC_SPACE(nbest3, 3) { HyperGraph g; build(c, g, 1 + c.choose(3), 2, 2, c.thorough ? V(0, -1, -3) : V(0, -1), false); verify(c, g, false, 0, false); }
MC_SPACE(nbest3e3, 2) { HyperGraph g; build(c, g, 3, 3, 2, V(0, -1), false); verify(c, g, false, 0, true); }
MC_SPACE(nbest4, 2) { HyperGraph g; build(c, g, 4, 2, 2, V(-1, -2), false); verify(c, g, false, 0, true); }
MC_SPACE(chain3tails, 3) {   // three tails on one edge, ties everywhere
    HyperGraph g; for (int i = 0; i < 3; i++) g.AddNode(new HyperNode(-1)); int ec = 0; vector<int> none;
    for (int i = 2; i >= 1; i--) { int ne = 1 + c.choose(3); for (int e = 0; e < ne; e++) add_edge(g, i, none, -c.choose(2), Sentence(1, W[ec]), ec), ec++; }
    int ne = 1 + c.choose(2);
    for (int e = 0; e < ne; e++) { vector<int> t; for (int k = 0; k < 3; k++) t.push_back(1 + c.choose(2)); Sentence s; s.push_back(-3); s.push_back(W[ec]); s.push_back(-1); s.push_back(-2); add_edge(g, 0, t, -c.choose(2), s, ec); ec++; }
    verify(c, g, false, 0, false);
}
MC_SPACE(fractions, 3) {   // scores that do not add up exactly in binary
    HyperGraph g; for (int i = 0; i < 4; i++) g.AddNode(new HyperNode(-1)); int ec = 0; vector<int> none;
    static const double sc[] = {-0.1, -0.3, -0.7, -1.1};
    for (int i = 3; i >= 1; i--) { int ne = 1 + c.choose(i == 1 ? 2 : 3); for (int e = 0; e < ne; e++) add_edge(g, i, none, sc[c.choose(c.thorough ? 4 : 3)], Sentence(1, W[ec]), ec), ec++; }
    vector<int> t; t.push_back(3); t.push_back(2); if (c.flag()) t.push_back(1);
    Sentence s; s.push_back(-1); s.push_back(-2); if (t.size() == 3) s.push_back(-3);
    add_edge(g, 0, t, c.flag() ? -0.2 : 0, s, ec);
    verify(c, g, false, 1e-9, true);
}
MC_SPACE(uniq3, 3) { GlobalVars::trg_factors = 1; HyperGraph g; build(c, g, 2 + c.choose(2), 2, c.thorough ? 2 : 1, V(0, -1), true); verify(c, g, true, 0, !c.thorough); }
MC_SPACE(uniq2t, 1) { HyperGraph g; build(c, g, 2, 2, 2, V(0, -1), true); verify(c, g, true, 0, false); }
MC_SPACE(factors, 3) { GlobalVars::trg_factors = 2; HyperGraph g; build(c, g, 2, 2, 2, V(0, -1), true); bool u = c.flag(); verify(c, g, u, 0, false); GlobalVars::trg_factors = 1; }
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
