// M05: online weight updates against the update rules applied eagerly, feature by feature and step by step
#define RUN_CATCH_EXIT
#include "run.h"
#include "ev.h"
#include <travatar/batch-tune-runner.h>
#include <travatar/config-batch-tune.h>
#include <travatar/weights.h>
#include <travatar/weights-perceptron.h>
#include <travatar/weights-average-perceptron.h>
#include <travatar/weights-adagrad.h>
#include <travatar/weights-delayed-perceptron.h>
#include <travatar/weights-online-pro.h>
#include <travatar/sparse-map.h>
#include <travatar/hyper-graph.h>
using namespace std; using namespace travatar;
static int F[3];
static void init() { ev::init(); F[0] = Dict::WID("fa"); F[1] = Dict::WID("fb"); F[2] = Dict::WID("fc"); }
enum { PERC, AVG, ADA, DELAY };
static const char * NAME[] = {"perceptron", "average perceptron", "adagrad", "delayed perceptron"};
struct Range { double lo, hi; };
// the rules, applied to all features at every update
struct Spec {
    int kind, n; double rate, l1; Range rg[3]; double w[3], sum[3], var[3], acc[3];
    Spec() : kind(0), n(0), rate(1), l1(0) { for (int i = 0; i < 3; i++) { w[i] = sum[i] = var[i] = acc[i] = 0; rg[i].lo = -1e300; rg[i].hi = 1e300; } }
    double clip(int i, double v) const { return min(max(v, rg[i].lo), rg[i].hi); }
    void shrink(int i) { if (w[i] == 0) return; w[i] = w[i] > 0 ? max(w[i] - l1, 0.0) : min(w[i] + l1, 0.0); w[i] = clip(i, w[i]); }
    void update(const double * o, const double * s, bool act) {
        n++; for (int i = 0; i < 3; i++) { double d = o[i] - s[i]; if (kind == ADA) { shrink(i); }
            if (act && d != 0) { if (kind == DELAY) acc[i] += d; else if (kind == ADA) { var[i] += d * d; w[i] = clip(i, w[i] + rate * d / sqrt(var[i])); } else w[i] = clip(i, w[i] + d * (kind == PERC ? rate : 1)); }
            if (kind == PERC) shrink(i); sum[i] += w[i]; }
    }
    double current(int i) const { return w[i]; }
    double final(int i) const { return kind == AVG && n ? sum[i] / n : kind == DELAY ? acc[i] : w[i]; }
};
static Weights * create(int kind, const SparseMap & m, double rate, double l1, double margin) {
    if (kind == DELAY) return new WeightsDelayedPerceptron(m); WeightsPerceptron * p = kind == PERC ? new WeightsPerceptron(m) : kind == AVG ? new WeightsAveragePerceptron(m) : (WeightsPerceptron*)new WeightsAdagrad(m);
    p->SetLearningRate(rate); p->SetL1Coeff(l1); p->SetMarginScale(margin); return p;
}
static SparseVector vec(const double * v) { SparseVector r; for (int i = 0; i < 3; i++) if (v[i]) r.Add(F[i], v[i]); return r; }
static double get(const SparseMap & m, int k) { SparseMap::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
static void compare(mc::Ctx & c, const Spec & s, Weights & w, const string & when) {
    const SparseMap & f = w.GetFinal(); for (int i = 0; i < 3; i++) CHECK(ev::near(get(f, F[i]), s.final(i)), "final", "the final weight of f" << char('a' + i) << " is " << get(f, F[i]) << " instead of " << s.final(i) << when);
}
struct Step { int what; double o[3], s[3]; double os, oe, ss, se; };   // 0 update, 1-3 read a weight, 4 read all, 5 read the final weights
static const double V[][3] = {{1, 0, 0}, {0, 1, 0}, {0.5, 1, 0}, {0, 0, 1}, {0, 0, 0}, {1, -1, 0}};
static void drive(mc::Ctx & c, int kind, int len, const vector<int> & kinds, int feats) {
    static const double L1[] = {0, 0.25, 0.75}, RATE[] = {1, 0.5}, INIT[][3] = {{0, 0, 0}, {1, 0, -0.5}}; Spec s; s.kind = kind; int li = kind == PERC || kind == ADA ? c.choose(3) : 0, ri = kind == PERC || kind == ADA ? c.choose(2) : 0, ii = c.choose(2), gi = kind == DELAY ? 0 : c.choose(ii ? 4 : 3);
    if (kind == ADA) c.require(li == 0 || c.thorough); s.l1 = L1[li]; s.rate = RATE[ri]; SparseMap m; for (int i = 0; i < 3; i++) { s.w[i] = INIT[ii][i]; if (INIT[ii][i]) m[F[i]] = INIT[ii][i]; }
    boost::shared_ptr<Weights> w(create(kind, m, s.rate, s.l1, 0)); if (gi == 1) { for (int i = 0; i < 3; i++) { s.rg[i].lo = -0.75; s.rg[i].hi = 1; } w->SetRange(-1, -0.75, 1); } if (gi == 2) { s.rg[0].lo = 0; s.rg[0].hi = 2; w->SetRange(F[0], 0, 2); } if (gi == 3) { s.rg[0].lo = 0.25; s.rg[0].hi = 2; w->SetRange(F[0], 0.25, 2); s.rg[2].lo = -1; s.rg[2].hi = -0.25; w->SetRange(F[2], -1, -0.25); }   // ranges away from zero
    vector<Step> st(len); ostringstream d; d << NAME[kind] << " l1=" << s.l1 << " rate=" << s.rate << " start " << ii << " ranges " << gi << ":";
    for (int i = 0; i < len; i++) { Step & p = st[i]; p.what = kinds[c.choose(kinds.size())]; if (p.what == 0) { int a = c.choose(feats), b = c.choose(feats); for (int k = 0; k < 3; k++) { p.o[k] = V[a][k]; p.s[k] = V[b][k]; } bool act = c.flag(); p.os = 0.5; p.oe = 1; p.ss = act ? 0.5 : 0.25; p.se = act ? 0.5 : 1; d << " update(" << a << "," << b << "," << act << ")"; } else d << (p.what < 4 ? " read f" + string(1, 'a' + p.what - 1) : p.what == 4 ? " read all" : " final"); }
    c.describe(d.str()); 
    for (int i = 0; i < len; i++) { const Step & p = st[i]; c.step();
        if (p.what == 0) { bool act = p.ss >= p.os; w->Update(vec(p.o), p.os, p.oe, vec(p.s), p.ss, p.se); s.update(p.o, p.s, act); }
        else if (p.what < 4) { double g = w->GetCurrent(F[p.what - 1]); CHECK(ev::near(g, s.current(p.what - 1)), "current", "the weight of f" << char('a' + p.what - 1) << " is " << g << " instead of " << s.current(p.what - 1) << " after step " << i); }
        else if (p.what == 4) for (int k = 0; k < 3; k++) { double g = w->GetCurrent(F[k]); CHECK(ev::near(g, s.current(k)), "current", "the weight of f" << char('a' + k) << " is " << g << " instead of " << s.current(k) << " after step " << i); }
        else compare(c, s, *w, " after step " + to_string(i));
        ostringstream o; for (int k = 0; k < 3; k++) o << s.w[k] << "," << s.sum[k] << "," << s.var[k] << "," << s.n << ";"; o << kind; c.state(o.str()); }
    compare(c, s, *w, " at the end"); if (kind != DELAY) for (int k = 0; k < 3; k++) { double g = w->GetCurrent(F[k]); CHECK(ev::near(g, s.current(k)), "current", "the weight of f" << char('a' + k) << " is " << g << " instead of " << s.current(k) << " at the end"); }
}
MC_SPACE(updates, 3) { int k = c.choose(4); vector<int> only(1, 0); int n = 1 + c.choose(c.thorough ? 4 : 3); drive(c, k, n, only, n == 1 ? 6 : n == 2 ? 5 : n == 3 ? 3 : 2); }
MC_SPACE(reads, 3) { int k = c.choose(3); vector<int> what = {0, 1, 2, 4, 5}; int n = 3 + c.choose(c.thorough ? 3 : 2); drive(c, k, n, what, n == 3 ? 4 : 2); }
MC_SPACE(long_runs, 3) { int k = c.choose(3); vector<int> what = {0, 4}; drive(c, k, c.thorough ? 6 : 5, what, 2); }
// the pair an n-best list trains on
MC_SPACE(nbest, 3) {
    int kind = c.choose(3), n = 1 + c.choose(c.thorough ? 4 : 3), rounds = n < 3 ? 2 : 1; static const double M[] = {0, 1, -1}, S[] = {0, 1, 0.5}; double margin = M[c.choose(3)]; Spec s; s.kind = kind; SparseMap m; boost::shared_ptr<Weights> w(create(kind, m, 1, 0, margin)); ostringstream d; d << NAME[kind] << " margin " << margin; vector<vector<pair<Real, Real> > > sc(rounds); vector<vector<int> > fv(rounds);
    for (int r = 0; r < rounds; r++) { d << " |"; for (int i = 0; i < n; i++) { int a = c.choose(3), b = c.choose(n > 3 ? 2 : 3); sc[r].push_back(make_pair(S[a], S[b])); fv[r].push_back(i); d << " (model " << S[a] << " eval " << S[b] << ")"; } } c.describe(d.str());
    for (int r = 0; r < rounds; r++) { vector<SparseVector *> f; vector<boost::shared_ptr<SparseVector> > own; for (int i = 0; i < n; i++) { own.push_back(boost::shared_ptr<SparseVector>(new SparseVector(vec(V[fv[r][i]])))); f.push_back(own[i].get()); } w->AdjustNbest(sc[r], f);
        // oracle: best evaluation; system: best model score less the margin; ties are open, so all choices are followed
        vector<int> O, Y; for (int i = 0; i < n; i++) { bool o = true, y = true; for (int j = 0; j < n; j++) { if (sc[r][j].second > sc[r][i].second) o = false; if (sc[r][j].first - margin * sc[r][j].second > sc[r][i].first - margin * sc[r][i].second) y = false; } if (o) O.push_back(i); if (y) Y.push_back(i); }
        bool ok = false; Spec next = s; string tried; for (size_t a = 0; a < O.size() && !ok; a++) for (size_t b = 0; b < Y.size() && !ok; b++) { int o = O[a], y = Y[b]; const pair<Real, Real> & p = sc[r][o], & q = sc[r][y];
            bool act = kind == PERC ? q.first >= p.first : kind == AVG ? q.second < p.second : q.first + (p.second - q.second) * margin >= p.first; Spec t = s; t.update(V[fv[r][o]], V[fv[r][y]], act); bool same = true; for (int k = 0; k < 3; k++) same = same && ev::near(w->GetCurrent(F[k]), t.w[k]); if (same) { ok = true; next = t; } c.step(); }
        CHECK(ok, "pair", "round " << r << ": weights " << w->GetCurrent(F[0]) << " " << w->GetCurrent(F[1]) << " " << w->GetCurrent(F[2]) << " follow from no oracle and system pair"); s = next; c.state(d.str() + to_string(r)); }
    compare(c, s, *w, "");
}
// pairwise ranking: with few, clearly different hypotheses the sampled updates are all on the widest pair
MC_SPACE(ranking, 3) {
    int kind = c.choose(2), n = 2 + c.choose(2); static const double S[] = {0, 0.5, 1}; vector<pair<Real, Real> > sc; ostringstream d; d << NAME[kind]; for (int i = 0; i < n; i++) { int a = c.choose(3), b = c.choose(4); sc.push_back(make_pair(S[a], b)); d << " (model " << S[a] << " eval " << b << ")"; } c.describe(d.str());
    double lo = 1e9, hi = -1e9; for (int i = 0; i < n; i++) lo = min<double>(lo, sc[i].second), hi = max<double>(hi, sc[i].second); int cnt = 0, o = -1, y = -1; for (int i = 0; i < n; i++) { if (sc[i].second == hi) o = i, cnt++; if (sc[i].second == lo) y = i, cnt++; } c.require(lo == hi || cnt == 2);
    SparseMap m; boost::shared_ptr<Weights> in(create(kind, m, 1, 0, 0)); WeightsOnlinePro w(in); w.SetAlphaScale(3); vector<SparseVector *> f; vector<boost::shared_ptr<SparseVector> > own; for (int i = 0; i < n; i++) { own.push_back(boost::shared_ptr<SparseVector>(new SparseVector(vec(V[i ? i + 1 : 0])))); f.push_back(own[i].get()); }
    w.AdjustNbest(sc, f); Spec s; s.kind = kind; if (lo < hi) for (int i = 0; i < 50; i++) s.update(V[o ? o + 1 : 0], V[y ? y + 1 : 0], kind == PERC ? sc[y].first >= sc[o].first : true); compare(c, s, *in, ""); c.state(d.str()); c.step(50);
}
// a whole online tuning run of the program over one n-best list: 100 rounds of the same rule, with all its options
MC_SPACE(tuning, 3) {
    static const char * U[] = {"perceptron", "avgperceptron", "adagrad"}, * H[] = {"w0 w1 w2", "w0 w1 w5", "w4"}, * FN[] = {"fa", "fb", "fc"}; static const double E[] = {1, 2 / 3.0, 0}, R[] = {1, 0.5}, MG[] = {0, 0.5, 1.5};
    int kind = c.choose(3), n = 2 + c.choose(2), ri = c.choose(2), mi = c.choose(3), nf = n > 2 && !c.thorough ? 3 : 4; vector<int> h, f; string nb; for (int i = 0; i < n; i++) { h.push_back(c.choose(n > 2 && !c.thorough && i == 0 ? 2 : 3)); f.push_back(c.choose(nf)); ostringstream o; o << "0 ||| " << H[h[i]] << " ||| 0 |||"; for (int k = 0; k < 3; k++) if (V[f[i]][k]) o << " " << FN[k] << "=" << V[f[i]][k]; if (!V[f[i]][0] && !V[f[i]][1] && !V[f[i]][2]) o << " "; nb += o.str() + "\n"; }
    ostringstream d; d << U[kind] << " rate " << R[ri] << " margin " << MG[mi] << "\n" << nb; c.describe(d.str()); c.state(d.str());
    vector<string> a; const char * A[] = {"-algorithm", "online", "-restarts", "0", "-rand_seed", "1", "-eval", "wer:reverse=true", "-update", U[kind]}; for (int i = 0; i < 10; i++) a.push_back(A[i]); a.push_back("-nbest"); a.push_back(run::put("nb", nb)); a.push_back("-rate"); a.push_back(ri ? "0.5" : "1"); a.push_back("-margin_scale"); a.push_back(mi == 0 ? "0" : mi == 1 ? "0.5" : "1.5"); a.push_back(run::put("ref", "w0 w1 w2\n"));
    // ties are open, so every outcome they allow is followed
    vector<Spec> cur(1); cur[0].kind = kind; cur[0].rate = R[ri]; double mg = MG[mi];
    for (int it = 0; it < 100; it++) { vector<Spec> nx; for (size_t q = 0; q < cur.size(); q++) { Spec & s = cur[q]; vector<double> m, t; double be = -1e9, bs = -1e9; for (int i = 0; i < n; i++) { double x = 0; for (int k = 0; k < 3; k++) x += s.w[k] * V[f[i]][k]; m.push_back(x); t.push_back(x - mg * E[h[i]]); be = max(be, E[h[i]]); bs = max(bs, t[i]); }
            for (int o = 0; o < n; o++) for (int y = 0; y < n; y++) { if (E[h[o]] < be - 1e-9 || t[y] < bs - 1e-9) continue; double gap = kind == ADA ? m[y] + (E[h[o]] - E[h[y]]) * mg - m[o] : m[y] - m[o]; int lo = gap >= -1e-9, hi = gap > 1e-9; if (kind == AVG) lo = hi = E[h[y]] < E[h[o]] - 1e-9; if (fabs(gap) <= 1e-12) hi = lo;   /* exactly equal scores update */
                for (int act = hi; act <= lo; act++) { Spec u = s; u.update(V[f[o]], V[f[y]], act); bool have = false; for (size_t z = 0; z < nx.size() && !have; z++) { have = true; for (int k = 0; k < 3; k++) have = have && nx[z].w[k] == u.w[k] && nx[z].var[k] == u.var[k] && nx[z].sum[k] == u.sum[k]; } if (!have) nx.push_back(u); c.step(); } } }
        cur = nx; c.require(cur.size() <= 200); }
    ConfigBatchTune conf; run::config(conf, a); string so; int code; { run::Capture cap; { BatchTuneRunner r; code = run::guarded([&]() { r.Run(conf); }); } so = cap.out.str(); } CHECK(code == 0, "runs", "the program ends with " << code);
    double v[3] = {0, 0, 0}; istringstream in(so); string t; while (in >> t) { size_t q = t.find('='); for (int k = 0; k < 3; k++) if (q != string::npos && t.substr(0, q) == FN[k]) v[k] = atof(t.c_str() + q + 1); }
    bool ok = false; for (size_t q = 0; q < cur.size() && !ok; q++) { ok = true; for (int k = 0; k < 3; k++) ok = ok && fabs(cur[q].final(k) - v[k]) <= 1e-4 * max(1.0, fabs(v[k])); }
    ostringstream w; w << cur[0].final(0) << " " << cur[0].final(1) << " " << cur[0].final(2); CHECK(ok, "tuned", "the program prints '" << so << "' but the rule gives " << w.str() << (cur.size() > 1 ? " or another outcome of ties" : ""));
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
