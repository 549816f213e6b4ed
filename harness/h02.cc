// H02: inside-outside posteriors against summing over all derivations; log-sum-exp and softmax against long double.
#include "hg.h"
#include <travatar/softmax.h>
using namespace travatar; using namespace std; using hg::Deriv;
static void init() { GlobalVars::debug = 0; GlobalVars::trg_factors = 1; }
typedef long double LD;
static LD lse(const vector<LD> & v) { if (v.empty()) return -INFINITY; LD m = *max_element(v.begin(), v.end()); if (m == -INFINITY) return m; LD s = 0; for (size_t i = 0; i < v.size(); i++) s += expl(v[i] - m); return m + logl(s); }
static bool close(double got, LD want) {
    if (want < -1e6) return !(got == got) ? false : got < -1e6 + 1 || fabsl(got - want) < fabsl(want) * 1e-9;
    return got == got && fabsl(got - want) <= 1e-7 + 1e-9 * fabsl(want);
}
static void graph(mc::Ctx & c, int N, int maxe, const vector<double> & sc, bool repeats) {
    HyperGraph g; for (int i = 0; i < N; i++) g.AddNode(new HyperNode(-1));
    for (int i = N - 1; i >= 0; i--) {
        int ne = i == 0 ? 1 + c.choose(maxe) : c.choose(maxe + 1);   // other nodes may be leaves
        for (int e = 0; e < ne; e++) {
            vector<int> t = hg::pick_tails(c, i + 1, N, 2);
            if (!repeats) c.require(t.size() < 2 || t[0] != t[1]);
            HyperEdge * ed = new HyperEdge(g.GetNode(i)); g.AddEdge(ed); g.GetNode(i)->AddEdge(ed);
            for (size_t k = 0; k < t.size(); k++) ed->AddTail(g.GetNode(t[k]));
            ed->SetScore(c.pick(sc));
        }
    }
    c.describe(hg::str(g));
    vector<Deriv> all; hg::tderivs(g.GetNode(0), all); c.require(all.size() <= 300);
    vector<vector<LD> > per(g.NumEdges()); vector<LD> tot;
    for (size_t i = 0; i < all.size(); i++) {
        LD s = 0; for (size_t k = 0; k < all[i].edges.size(); k++) s += all[i].edges[k]->GetScore();
        tot.push_back(s);
        for (size_t k = 0; k < all[i].edges.size(); k++) per[all[i].edges[k]->GetId()].push_back(s);
    }
    bool multi = false;   // does any derivation use an edge twice?
    for (size_t i = 0; i < all.size(); i++) { set<int> u; for (size_t k = 0; k < all[i].edges.size(); k++) if (!u.insert(all[i].edges[k]->GetId()).second) multi = true; }
    LD z = lse(tot);
    HyperGraph h(g); h.InsideOutsideNormalize(); c.step(h.NumEdges());
    double byroot = 0;
    for (int e = 0; e < h.NumEdges(); e++) {
        LD want = per[e].empty() ? -INFINITY : lse(per[e]) - z;
        double got = h.GetEdge(e)->GetScore();
        CHECK(close(got, want), "posterior", "edge " << e << " got log posterior " << got << ", enumeration gives " << (double)want);
        if (!multi) CHECK(got <= 1e-7, "above-one", "edge " << e << " has a posterior above one: log " << got);
        if (h.GetEdge(e)->GetHead()->GetId() == 0) byroot += exp(got);
        CHECK(h.GetEdge(e)->NumTails() == g.GetEdge(e)->NumTails(), "structure", "edge tails changed");
    }
    CHECK(fabs(byroot - 1) < 1e-7, "root-mass", "posteriors of the root's edges sum to " << byroot);
}
static vector<double> L(double a, double b, double d = 1e300) { vector<double> v; v.push_back(a); v.push_back(b); if (d < 1e299) v.push_back(d); return v; }
MC_SPACE(graphs3, 3) { graph(c, 1 + c.choose(3), 2, L(-1.5, 0.25, -800), true); }
MC_SPACE(graphs4, 2) { graph(c, 4, 2, L(-1.5, 0), false); }
MC_SPACE(wide, 3) { graph(c, 2, c.thorough ? 5 : 4, L(-2, 900, -900), true); }
MC_SPACE(edges3, 3) { graph(c, 3, c.thorough ? 3 : 2, L(-0.5, -3), false); }
static const double GR[] = {0, -0.5, 3, 800, -800, -1e5, 1e5, -REAL_MAX};
MC_SPACE(logsum, 3) {
    int n = c.choose(c.thorough ? 6 : 5); vector<Real> v; vector<LD> w; ostringstream d;
    for (int i = 0; i < n; i++) { v.push_back(GR[c.choose(8)]); w.push_back(v.back()); d << v.back() << " "; }
    c.describe(d.str());
    double got = AddLogProbs(v); LD want = n ? lse(w) : -REAL_MAX;
    CHECK(got == got && (want < -1e300 ? got < -1e300 : fabsl(got - want) <= 1e-9 + 1e-12 * fabsl(want)), "logsum", "sum of log probabilities " << d.str() << "is " << (double)want << ", got " << got);
    vector<Real> s = Softmax(v); double tot = 0;
    CHECK((int)s.size() == n, "softmax-size", "softmax of " << n << " values has " << s.size());
    for (int i = 0; i < n; i++) { LD p = expl(w[i] - want); tot += s[i]; if (want < -1e300) p = (LD)1 / n; CHECK(s[i] == s[i] && fabsl(s[i] - p) < 1e-9, "softmax", "softmax of " << d.str() << "gives " << s[i] << " at " << i << " instead of " << (double)p); }
    if (n) CHECK(fabs(tot - 1) < 1e-9, "softmax-sum", "softmax sums to " << tot);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
