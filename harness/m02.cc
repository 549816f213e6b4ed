// M02: line search over packed forests against all their derivations
#include "ev.h"
#include "hg.h"
#include <travatar/tuning-example-forest.h>
#include <travatar/mert-geometry.h>
#include <travatar/tune-mert.h>
using namespace std; using namespace travatar; using hg::Deriv;
static int FA, FB, FC, UNK;
static void init() { ev::init(40); GlobalVars::trg_factors = 1; FA = Dict::WID("fa"); FB = Dict::WID("fb"); FC = Dict::WID("fc"); UNK = Dict::WID("<unk>"); }
// a measure whose statistics identify the sentence
static double code(const Sentence & s) { double r = 1; for (size_t i = 0; i < s.size(); i++) { int k = find(ev::words().begin(), ev::words().end(), s[i]) - ev::words().begin(); r = r * 41 + k + 1; } return r; }
struct Ident : EvalMeasure { EvalStatsPtr CalculateStats(const Sentence & ref, const Sentence & sys) const { return EvalStatsPtr(new EvalStatsAverage(code(sys))); } EvalStatsPtr ReadStats(const string &) { return EvalStatsPtr(); } };
struct Ln { double m, c; Sentence words; };
static void add(vector<Ln> & out, const HyperGraph & g, double wa, double wb, double ga, double gb) {
    vector<Deriv> all = hg::derivs(g); for (size_t i = 0; i < all.size(); i++) { map<int, double> f = hg::feats(all[i].edges); Ln l; l.m = ga * f[FA] + gb * f[FB]; l.c = wa * f[FA] + wb * f[FB];
        // words with unknown words replaced by the source word
        l.words = hg::yield(all[i]); for (size_t k = 0; k < l.words.size(); k++) if (l.words[k] == UNK) l.words[k] = g.GetWord(0); out.push_back(l); }
}
static void compare(mc::Ctx & c, const vector<Ln> & L, const ConvexHull & h, double mult) {
    CHECK(!h.empty(), "hull", "no segments"); CHECK(h[0].first.first == -REAL_MAX && h.back().first.second == REAL_MAX, "hull", "the segments do not reach to both infinities but from " << h[0].first.first << " to " << h.back().first.second);
    for (size_t k = 0; k < h.size(); k++) {
        double lo = h[k].first.first, hi = h[k].first.second; if (k) CHECK(fabs(lo - h[k-1].first.second) < 1e-9, "hull", "segment " << k << " starts at " << lo << " but the one before ends at " << h[k-1].first.second);
        CHECK(lo <= hi + 1e-300, "hull", "segment from " << lo << " to " << hi); EvalStatsAverage * st = dynamic_cast<EvalStatsAverage *>(h[k].second.get()); double id = st->GetVals()[0] / mult; CHECK(ev::near(st->GetVals()[1], mult), "scale", "weight " << st->GetVals()[1] << " instead of " << mult);
        bool found = false, any = false; Sentence w; for (size_t i = 0; i < L.size(); i++) if (fabs(code(L[i].words) - id) < 0.25) { found = true; w = L[i].words; bool top = true; for (size_t j = 0; j < L.size() && top; j++) { c.step();
            if (lo == -REAL_MAX) top = top && (L[i].m < L[j].m || (L[i].m == L[j].m && L[i].c >= L[j].c)); else top = top && L[i].m * lo + L[i].c >= L[j].m * lo + L[j].c - 1e-9;
            if (hi == REAL_MAX) top = top && (L[i].m > L[j].m || (L[i].m == L[j].m && L[i].c >= L[j].c)); else top = top && L[i].m * hi + L[i].c >= L[j].m * hi + L[j].c - 1e-9; } any = any || top; }
        CHECK(found, "sentence", "the segment from " << lo << " to " << hi << " has a translation of no derivation"); CHECK(any, "envelope", "the segment from " << lo << " to " << hi << " shows '" << hg::wstr(w) << "', which is not the best there");
    }
}
struct Sh { int nodes, maxe, nf; bool unk; };
static const double FV[][2] = {{1, 0}, {0, 1}, {0, 0}, {-1, 1}, {2, -1}};
static HyperGraph * forest(mc::Ctx & c, const Sh & o, int & word) {
    HyperGraph * g = new HyperGraph; g->AddWord(ev::words()[39]); for (int i = 0; i < o.nodes; i++) g->AddNode(new HyperNode(-1, -1, SpanId(0, 1)));
    for (int i = o.nodes - 1; i >= 0; i--) { int ne = 1 + c.choose(o.maxe); for (int e = 0; e < ne; e++) { vector<int> t = hg::pick_tails(c, i + 1, o.nodes, 2); HyperEdge * ed = new HyperEdge(g->GetNode(i)); g->AddEdge(ed); g->GetNode(i)->AddEdge(ed); for (size_t k = 0; k < t.size(); k++) ed->AddTail(g->GetNode(t[k]));
        Sentence s = hg::trg_side(word % 3, t.size(), ev::words()[word % 38]); if (o.unk && t.empty() && c.flag()) s[0] = UNK; word++; ed->SetTrgData(CfgDataVector(1, CfgData(s))); int f = c.choose(o.nf); SparseVector v; if (FV[f][0]) v.Add(FA, FV[f][0]); if (FV[f][1]) v.Add(FB, FV[f][1]); ed->SetFeatures(v); } }
    return g;
}
static const double D[][4] = {{0, 1, 1, 0}, {1, 1, 1, -1}, {0.5, 0, 2, 1}, {0, 0, 1, 0}};
static SparseMap two(double a, double b) { SparseMap m; if (a) m[FA] = a; if (b) m[FB] = b; return m; }
static void check(mc::Ctx & c, const vector<HyperGraph *> & g, int d, double mult, bool pot) {
    ostringstream o; for (size_t i = 0; i < g.size(); i++) o << (i ? " AND " : "") << hg::str(*g[i]); o << " direction " << d << " mult " << mult << (pot ? " gain first" : ""); vector<boost::shared_ptr<HyperGraph> > own; for (size_t i = 0; i < g.size(); i++) own.push_back(boost::shared_ptr<HyperGraph>(g[i])); c.describe(o.str()); c.state(o.str());
    vector<Ln> L; for (size_t i = 0; i < g.size(); i++) add(L, *g[i], D[d][0], D[d][1], D[d][2], D[d][3]); c.require(L.size() < 400);
    Ident me; vector<Sentence> refs(1, Sentence(1, ev::words()[0])); TuningExampleForest ex(&me, refs, 0, mult); for (size_t i = 0; i < g.size(); i++) ex.AddHypothesis(own[i]);
    SparseMap w = two(D[d][0], D[d][1]), dir = two(D[d][2], D[d][3]); if (pot) { SparseMap p = ex.CalculatePotentialGain(w); }
    compare(c, L, ex.CalculateConvexHull(w, dir), mult); compare(c, L, ex.CalculateConvexHull(w, dir), mult);
    // a direction no derivation uses leaves the whole line to the current best
    SparseMap none; none[FC] = 1; vector<Ln> M = L; for (size_t i = 0; i < M.size(); i++) M[i].m = 0; compare(c, M, ex.CalculateConvexHull(w, none), mult);
    set<WordId> cnt, want; ex.CountWeights(cnt); for (size_t i = 0; i < g.size(); i++) for (int e = 0; e < g[i]->NumEdges(); e++) { map<int, double> f = hg::tomap(g[i]->GetEdge(e)->GetFeatures()); for (map<int, double>::iterator k = f.begin(); k != f.end(); ++k) want.insert(k->first); } CHECK(cnt == want, "features", cnt.size() << " features are listed instead of " << want.size());
}
MC_SPACE(forests, 3) { Sh s = {3, 2, 2, false}; int d = c.choose(c.thorough ? 4 : 2), word = 0; if (c.thorough) s.nf = 3; vector<HyperGraph *> g(1, forest(c, s, word)); check(c, g, d, 1, c.flag()); }
MC_SPACE(slopes, 3) { Sh s = {2, c.thorough ? 4 : 3, c.thorough ? 5 : 4, false}; int d = c.choose(4), word = 0; vector<HyperGraph *> g(1, forest(c, s, word)); check(c, g, d, 0.5, false); }
MC_SPACE(chains, 3) { Sh s = {c.thorough ? 5 : 4, 1, 3, false}; int d = c.choose(2), word = 0; if (c.flag()) { s.nodes = 3; s.maxe = c.thorough ? 3 : 2; s.nf = 1 + c.choose(2); } vector<HyperGraph *> g(1, forest(c, s, word)); check(c, g, d, 2, false); }
MC_SPACE(runs, 3) { Sh s = {2, 2, c.thorough ? 3 : 2, false}; int d = c.choose(4), word = 0, n = 2 + c.choose(2); if (n == 3) { s.nodes = 1; s.nf = 3; } vector<HyperGraph *> g; for (int i = 0; i < n; i++) g.push_back(forest(c, s, word)); check(c, g, d, c.choose(2) ? 0.25 : 1, c.flag()); }
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
