// M01: line search over n-best lists against evaluating every hypothesis between all intersections
#include "ev.h"
#include <travatar/tune-mert.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/sparse-map.h>
#include <travatar/dict.h>
using namespace std; using namespace travatar;
typedef pair<Real, Real> RR;
static int FA, FB;
static void init() { ev::init(); FA = Dict::WID("fa"); FB = Dict::WID("fb"); }
struct Hyp { double a, b; int s; EvalStatsPtr st; };
struct Line { double m, c; };
static const vector<EvalStatsPtr> & pool(int kind) {
    static map<int, vector<EvalStatsPtr> > memo; vector<EvalStatsPtr> & v = memo[kind]; if (!v.empty()) return v;
    static const char * M[] = {"zeroone", "bleu:order=2,smooth=1", "wer:reverse=true", "ribes"}; boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(M[kind])); const vector<int> & w = ev::words();
    Sentence ref; for (int i = 0; i < 3; i++) ref.push_back(w[i]); Sentence h1 = ref, h2 = ref, h3(1, w[0]), h4(3, w[5]); h2[2] = w[4];
    Sentence H[] = {h1, h2, h4, h3}; for (int i = 0; i < 4; i++) v.push_back(m->CalculateStats(ref, H[i])); return v;
}
typedef vector<Hyp> List;
static Line line(const Hyp & h, double wa, double wb, double ga, double gb) { Line l; l.m = ga * h.a + gb * h.b; l.c = wa * h.a + wb * h.b; return l; }
static boost::shared_ptr<TuningExample> example(const List & l) { TuningExampleNbest * e = new TuningExampleNbest; for (size_t i = 0; i < l.size(); i++) { SparseVector f; f.Add(FA, l[i].a); f.Add(FB, l[i].b); e->AddHypothesis(f, l[i].st); } return boost::shared_ptr<TuningExample>(e); }
static SparseMap two(double a, double b) { SparseMap m; if (a) m[FA] = a; if (b) m[FB] = b; return m; }
static string show(const vector<List> & x) { ostringstream o; for (size_t i = 0; i < x.size(); i++) { o << (i ? " / " : ""); for (size_t j = 0; j < x[i].size(); j++) o << (j ? ", " : "") << "a=" << x[i][j].a << " b=" << x[i][j].b << " s" << x[i][j].s; } return o.str(); }
static List make(mc::Ctx & c, int n, int kind, const vector<double> & A, const vector<double> & B, int ns) {
    List l; for (int i = 0; i < n; i++) { Hyp h; h.a = c.pick(A); h.b = c.pick(B); h.s = c.choose(ns); if (kind >= 0) h.st = pool(kind)[h.s]->Clone(); else h.st.reset(new EvalStatsAverage(h.s)); l.push_back(h); }
    return l;
}
static void hull(mc::Ctx & c, int n, const vector<double> & A, const vector<double> & B, int ns, double wa, double wb, double ga, double gb) {
    vector<List> x(1, make(c, n, -1, A, B, ns)); const List & l = x[0]; c.describe([&]() { ostringstream o; o << show(x) << " weights " << wa << "," << wb << " direction " << ga << "," << gb; return o.str(); });
    ConvexHull h = example(l)->CalculateConvexHull(two(wa, wb), two(ga, gb)); c.state(show(x)); CHECK(!h.empty(), "hull", "no segments");
    CHECK(h[0].first.first == -REAL_MAX && h.back().first.second == REAL_MAX, "hull", "the segments do not reach to both infinities");
    for (size_t k = 0; k < h.size(); k++) {
        if (k) CHECK(h[k].first.first == h[k-1].first.second, "hull", "segment " << k << " starts at " << h[k].first.first << " but the one before ends at " << h[k-1].first.second);
        double lo = h[k].first.first, hi = h[k].first.second; CHECK(lo <= hi, "hull", "segment from " << lo << " to " << hi); if (lo == hi) continue;
        // some hypothesis with these statistics must be on top all along
        int who = -1; bool any = false; for (size_t i = 0; i < l.size(); i++) if (l[i].st.get() == h[k].second.get() || *l[i].st == *h[k].second) { who = i; Line me = line(l[i], wa, wb, ga, gb); bool top = true;
            for (size_t j = 0; j < l.size() && top; j++) { Line o = line(l[j], wa, wb, ga, gb);
                if (lo == -REAL_MAX) top = top && (me.m < o.m || (me.m == o.m && me.c >= o.c)); else top = top && me.m * lo + me.c >= o.m * lo + o.c - 1e-9;
                if (hi == REAL_MAX) top = top && (me.m > o.m || (me.m == o.m && me.c >= o.c)); else top = top && me.m * hi + me.c >= o.m * hi + o.c - 1e-9; c.step(); }
            any = any || top; }
        CHECK(who >= 0, "hull", "segment from " << lo << " to " << hi << " has statistics of no hypothesis"); CHECK(any, "hull", "segment from " << lo << " to " << hi << " shows " << h[k].second->ConvertToString() << ", which is not the best there");
    }
}
MC_SPACE(hulls, 3) {
    int n = 1 + c.choose(c.thorough ? 5 : 4); vector<double> A = {0, 1, -1, 2}, B = {0, 1, -1}; int dir = c.choose(n > 3 ? 1 : 3); if (n > 3) A.resize(3 + (n == 4 && c.thorough)); if (n > 4) B.resize(2);
    static const double D[][4] = {{0, 1, 1, 0}, {1, 1, 1, -1}, {0.5, -1, 2, 1}}; hull(c, n, A, B, n > 3 ? 2 : 3, D[dir][0], D[dir][1], D[dir][2], D[dir][3]);
}
static void search(mc::Ctx & c, const vector<List> & x, double wa, double wb, double ga, double gb, RR range) {
    c.describe([&]() { ostringstream o; o << show(x) << " weights " << wa << "," << wb << " direction " << ga << "," << gb << " range [" << range.first << "," << range.second << "]"; return o.str(); });
    // identical lines with different statistics leave the selection open
    vector<vector<Line> > L(x.size()); vector<double> cut; int total = 0;
    for (size_t e = 0; e < x.size(); e++) { total += x[e].size(); for (size_t i = 0; i < x[e].size(); i++) { L[e].push_back(line(x[e][i], wa, wb, ga, gb)); for (size_t j = 0; j < i; j++) {
        const Line & p = L[e][i], & q = L[e][j]; if (p.m == q.m) { if (p.c == q.c) c.require(x[e][i].s == x[e][j].s); } else cut.push_back((p.c - q.c) / (q.m - p.m)); } } }
    c.require(total > 0); sort(cut.begin(), cut.end()); cut.erase(unique(cut.begin(), cut.end(), [](double a, double b) { return fabs(a - b) < 1e-12; }), cut.end());
    function<EvalStatsPtr(double)> at = [&](double p) { EvalStatsPtr r; for (size_t e = 0; e < x.size(); e++) { if (x[e].empty()) continue; int b = 0; for (size_t i = 1; i < L[e].size(); i++) if (L[e][i].m * p + L[e][i].c > L[e][b].m * p + L[e][b].c + 1e-13) b = i; if (r) r->PlusEquals(*x[e][b].st); else r = x[e][b].st->Clone(); c.step(); } return r; };
    double best = -1e300; vector<double> edge(1, -1e3); edge.insert(edge.end(), cut.begin(), cut.end()); edge.push_back(1e3);
    for (size_t i = 0; i + 1 < edge.size(); i++) { double lo = max(edge[i], range.first), hi = min(edge[i+1], range.second); if (lo < hi || (lo == hi && edge[i] < lo && hi < edge[i+1])) best = max(best, (double)at((lo + hi) / 2)->ConvertToScore()); }
    vector<boost::shared_ptr<TuningExample> > ex; for (size_t e = 0; e < x.size(); e++) ex.push_back(example(x[e])); c.state(show(x));
    LineSearchResult r = TuneMert::LineSearch(two(wa, wb), two(ga, gb), ex, range);
    CHECK(r.before && r.after, "result", "a result without scores"); double before = r.before->ConvertToScore(), after = r.after->ConvertToScore();
    CHECK(r.pos >= range.first && r.pos <= range.second, "range", "the step " << r.pos << " leaves the range"); CHECK(ev::near(r.gain, after - before), "gain", "gain " << r.gain << " with scores " << before << " and " << after);
    double l0 = at(-1e-7)->ConvertToScore(), r0 = at(1e-7)->ConvertToScore(); CHECK(ev::near(before, l0, 1e-7) || ev::near(before, r0, 1e-7), "before", "the score before is given as " << before << " but the selections score " << l0 << " or " << r0);
    bool tie = false, on = false; for (size_t i = 0; i < cut.size(); i++) if (fabs(cut[i] - r.pos) < 1e-9 && (on = true) && at(r.pos - 1e-7)->ConvertToScore() != at(r.pos + 1e-7)->ConvertToScore()) tie = true;
    if (range.first < range.second) { CHECK(ev::near(after, best, 1e-7), "best", "the best score is given as " << after << " at " << r.pos << " but " << best << " can be reached"); CHECK(!tie, "tie", "the step " << r.pos << " is on a boundary"); }
    if (!on) CHECK(ev::near(after, at(r.pos)->ConvertToScore(), 1e-7), "after", "the score after the step " << r.pos << " is given as " << after << " but the selections score " << at(r.pos)->ConvertToScore());
    else { double l = at(r.pos - 1e-7)->ConvertToScore(), q = at(r.pos + 1e-7)->ConvertToScore(); CHECK(ev::near(after, l, 1e-7) || ev::near(after, q, 1e-7), "after", "the score after the step " << r.pos << " is given as " << after << " but the selections score " << l << " or " << q); }
}
static const RR R[] = {RR(-REAL_MAX, REAL_MAX), RR(-0.75, 0.75), RR(0, REAL_MAX), RR(0.25, 2.5), RR(-REAL_MAX, -1), RR(0, 0), RR(1, 1)};
MC_SPACE(one_list, 3) {
    int kind = c.choose(3), n = 1 + c.choose(c.thorough ? 4 : 3), r = c.choose(7), d = c.choose(n > 2 ? 1 : 2); vector<double> A = {0, 1, -1}, B = {0, 1, -1}; vector<List> x(1, make(c, n, kind, A, B, n > 3 ? 2 : 3));
    static const double D[][4] = {{0, 1, 1, 0}, {1, 0.5, -1, 2}}; search(c, x, D[d][0], D[d][1], D[d][2], D[d][3], R[r]);
}
MC_SPACE(two_lists, 3) {
    int kind = c.choose(4), r = c.choose(7), n1 = c.choose(3), n2 = 1 + c.choose(c.thorough ? 3 : 2); vector<double> A = {0, 1, 2}, B = {0, 1}, A2 = {0, 1}; vector<List> x; x.push_back(make(c, n1, kind, A, B, 3)); x.push_back(make(c, n2, kind, n2 > 2 ? A2 : A, B, kind == 1 ? 4 : 2)); search(c, x, 0, 1, 1, 0, R[r]);
}
MC_SPACE(three_lists, 3) {
    int kind = c.choose(2), r = c.choose(4); vector<double> A = {0, 1, -1}, B = {0, 1}; vector<List> x; for (int i = 0; i < 3; i++) { List l; Hyp h; h.a = h.b = 0; h.s = c.choose(2); h.st = pool(kind)[h.s]->Clone(); l.push_back(h); for (int k = 0; k < (c.thorough ? 2 : 1); k++) { h.a = c.pick(A); h.b = c.pick(B); h.s = 1 + c.choose(2); h.st = pool(kind)[h.s]->Clone(); l.push_back(h); } x.push_back(l); }
    search(c, x, -0.5, 1, 1, 0, R[r]);
}
// the steps allowed by a weight range
MC_SPACE(ranges, 3) {
    static const double W[] = {0, 1, -1, 0.5}, G[] = {0, 1, -1, 2}, L[] = {-REAL_MAX, -1, 0, 1}; double wa = W[c.choose(4)], wb = W[c.choose(4)], ga = G[c.choose(4)], gb = G[c.choose(4)]; RR r(L[c.choose(4)], 0); int h = c.choose(4); r.second = h == 3 ? REAL_MAX : L[1 + h];
    c.require(r.first <= r.second && (ga || gb)); c.describe([&]() { ostringstream o; o << "weights " << wa << "," << wb << " direction " << ga << "," << gb << " range [" << r.first << "," << r.second << "]"; return o.str(); });
    TuneMert t; RR got = t.FindGradientRange(two(wa, wb), two(ga, gb), r);
    for (double p = -4; p <= 4; p += 0.25) { bool ok = (!ga || (wa + p * ga >= r.first && wa + p * ga <= r.second)) && (!gb || (wb + p * gb >= r.first && wb + p * gb <= r.second)); CHECK(ok == (p >= got.first && p <= got.second), "range", "step " << p << " is " << (ok ? "" : "not ") << "allowed, but the range is given as [" << got.first << "," << got.second << "]"); }
    t.SetRange(-1, r.first, r.second); t.SetRange(FB, -2, 3); RR a = t.FindGradientRange(two(wa, wb), FA), b = t.FindGradientRange(two(wa, wb), FB), ea(r.first == -REAL_MAX ? r.first : r.first - wa, r.second == REAL_MAX ? r.second : r.second - wa);
    CHECK(a.first == ea.first && a.second == ea.second, "range", "the steps for fa are given as [" << a.first << "," << a.second << "]"); CHECK(b.first == -2 - wb && b.second == 3 - wb, "range", "the steps for fb are given as [" << b.first << "," << b.second << "]");
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
