// M04: tuning never ends worse than it started, reports what it reaches, and stays in range
#define RUN_CATCH_EXIT
#include "run.h"
#include "ev.h"
#include <travatar/batch-tune-runner.h>
#include <travatar/config-batch-tune.h>
#include <travatar/tune-mert.h>
#include <travatar/tune-greedy-mert.h>
#include <travatar/tune-online.h>
#include <travatar/tuning-example-nbest.h>
#include <iostream>
#include <sstream>
using namespace std; using namespace travatar;
static int F[2];
static void init() { ev::init(); F[0] = Dict::WID("fa"); F[1] = Dict::WID("fb"); }
struct Hyp { double f[2]; int s; EvalStatsPtr st; };
typedef vector<vector<Hyp> > Lists;
static const char * M[] = {"zeroone", "bleu:order=2,smooth=1", "wer:reverse=true", "ribes"};
static const vector<EvalStatsPtr> & pool(int kind) {
    static map<int, vector<EvalStatsPtr> > memo; vector<EvalStatsPtr> & v = memo[kind]; if (!v.empty()) return v; boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(M[kind])); const vector<int> & w = ev::words();
    Sentence r; for (int i = 0; i < 3; i++) r.push_back(w[i]); Sentence H[4]; H[0] = r; H[0][2] = w[5]; H[1] = r; H[2] = Sentence(8, w[4]); H[3] = Sentence(2, w[0]); for (int i = 0; i < 4; i++) v.push_back(m->CalculateStats(r, H[i])); return v;   // H[2] has more errors than the reference has words
}
static boost::shared_ptr<TuningExample> example(const vector<Hyp> & l) { TuningExampleNbest * e = new TuningExampleNbest; for (size_t i = 0; i < l.size(); i++) { SparseVector f; for (int k = 0; k < 2; k++) if (l[i].f[k]) f.Add(F[k], l[i].f[k]); e->AddHypothesis(f, l[i].st); } return boost::shared_ptr<TuningExample>(e); }
static double get(const SparseMap & m, int k) { SparseMap::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
static string show(const Lists & x) { ostringstream o; for (size_t i = 0; i < x.size(); i++) { o << (i ? " / " : ""); for (size_t j = 0; j < x[i].size(); j++) o << (j ? ", " : "") << x[i][j].f[0] << "," << x[i][j].f[1] << " s" << x[i][j].s; } return o.str(); }
// the scores the corpus can have at these weights: ties may go either way
static vector<double> scores(const Lists & l, double a, double b) {
    vector<EvalStatsPtr> cur; for (size_t i = 0; i < l.size(); i++) { if (l[i].empty()) continue; double mx = -1e300; for (size_t k = 0; k < l[i].size(); k++) mx = max(mx, a * l[i][k].f[0] + b * l[i][k].f[1]); vector<EvalStatsPtr> nx; set<int> used;
        for (size_t k = 0; k < l[i].size(); k++) if (a * l[i][k].f[0] + b * l[i][k].f[1] >= mx - 1e-9 && used.insert(l[i][k].s).second) { if (cur.empty()) nx.push_back(l[i][k].st->Clone()); for (size_t q = 0; q < cur.size(); q++) { nx.push_back(cur[q]->Clone()); nx.back()->PlusEquals(*l[i][k].st); } } cur = nx; }
    vector<double> r; for (size_t i = 0; i < cur.size(); i++) r.push_back(cur[i]->ConvertToScore()); sort(r.begin(), r.end()); return r;
}
static const double FV[][2] = {{0, 0}, {1, 0}, {0, 1}, {-1, 1}};
static vector<Hyp> make(mc::Ctx & c, int n, int kind, int nf, int ns) { vector<Hyp> l; for (int i = 0; i < n; i++) { Hyp h; int f = c.choose(nf); h.f[0] = FV[f][0]; h.f[1] = FV[f][1]; h.s = c.choose(ns); h.st = pool(kind)[h.s]; l.push_back(h); } return l; }
static const double W[][2] = {{0, 0}, {1, 0}, {-1, 0.5}, {0.25, 1}, {1, -0.5}};
struct Quiet { ostringstream o; streambuf * b; Quiet() : b(cerr.rdbuf(o.rdbuf())) {} ~Quiet() { cerr.rdbuf(b); } };
static bool has(const vector<double> & v, double x) { for (size_t i = 0; i < v.size(); i++) if (fabs(v[i] - x) < 1e-7) return true; return false; }
static bool any(const Lists & l) { for (size_t i = 0; i < l.size(); i++) for (size_t k = 0; k < l[i].size(); k++) if (l[i][k].f[0] || l[i][k].f[1]) return true; return false; }
static void check(mc::Ctx & c, const Lists & l, int kind, const double * w, int algo, double thr, int rg) {
    c.describe([&]() { ostringstream o; o << (algo ? "greedy" : "mert") << " " << algo << " " << M[kind] << " " << show(l) << " start " << w[0] << "," << w[1] << " threshold " << thr << " ranges " << rg; return o.str(); }); c.state(show(l) + M[kind]); c.require(any(l));
    double lo[2] = {-1e300, -1e300}, hi[2] = {1e300, 1e300}; if (rg == 1) { lo[0] = lo[1] = 0; } if (rg == 2) { lo[0] = -1; hi[0] = 1; lo[1] = -1; hi[1] = 1; } if (rg == 3) { lo[0] = -2; hi[0] = 0.5; } if (rg == 4) { lo[0] = 0.5; hi[0] = 3; lo[1] = -2; hi[1] = 0; }
    for (int k = 0; k < 2; k++) c.require(w[k] >= lo[k] && w[k] <= hi[k]); boost::shared_ptr<Tune> t; 
    if (algo < 3) { TuneMert * m = new TuneMert; t.reset(m); static const char * D[] = {"coord", "coord rand=2", "coord xeval=0.1:10:10"}; m->SetDirections(D[algo]); } else { TuneGreedyMert * g = new TuneGreedyMert; g->SetThreads(0); t.reset(g); }
    t->SetGainThreshold(thr); if (rg == 1 || rg == 2) t->SetRange(-1, lo[0] == -1e300 ? -REAL_MAX : lo[0], hi[0] == 1e300 ? REAL_MAX : hi[0]); if (rg >= 3) t->SetRange(F[0], lo[0], hi[0]); if (rg == 4) t->SetRange(-1, -2, 0);
    for (size_t i = 0; i < l.size(); i++) t->AddExample(example(l[i])); SparseMap in; for (int k = 0; k < 2; k++) if (w[k]) in[F[k]] = w[k]; vector<double> before = scores(l, w[0], w[1]); double got; { Quiet q; t->Init(in); srand(1); got = t->RunTuning(in); } c.step();
    double a = get(in, F[0]), b = get(in, F[1]); CHECK(a == a && b == b, "weights", "the weights are not numbers"); vector<double> after = scores(l, a, b);
    CHECK(after.back() >= before[0] - 1e-7, "worse", "the score goes from " << before[0] << " to " << after.back() << " with weights " << a << "," << b); CHECK(has(after, got), "reported", "the score is reported as " << got << " but the weights " << a << "," << b << " give " << after[0] << (after.size() > 1 ? " to " + to_string(after.back()) : ""));
    double v[2] = {a, b}; for (int k = 0; k < 2; k++) CHECK(v[k] >= lo[k] - 1e-9 && v[k] <= hi[k] + 1e-9, "range", "f" << char('a' + k) << " ends at " << v[k]);
    for (SparseMap::const_iterator i = in.begin(); i != in.end(); ++i) CHECK(i->first == F[0] || i->first == F[1], "features", "a weight for " << Dict::WSym(i->first) << " appears");
}
MC_SPACE(mert, 3) { int kind = c.choose(4), w = c.choose(4), n1 = 1 + c.choose(3), n2 = c.choose(c.thorough ? 4 : 3); Lists l; l.push_back(make(c, n1, kind, 3, 3)); l.push_back(make(c, n2, kind, n2 > 2 ? 3 : 4, n2 > 1 ? 2 : 3)); check(c, l, kind, W[w], 0, 1e-6, 0); }
MC_SPACE(directions, 3) { int kind = c.choose(4), w = c.choose(4), d = 1 + c.choose(2), th = c.choose(2), r = c.choose(2); if (d == 2) c.require(kind != 2); Lists l; l.push_back(make(c, 2, kind, 3, 3)); l.push_back(make(c, c.thorough ? 2 : 1, kind, 4, 3)); check(c, l, kind, W[w], d, th ? 0.2 : 1e-6, r); }
MC_SPACE(mert_ranges, 3) { int kind = c.choose(4), w = c.choose(4), r = 1 + c.choose(4); if (r == 4) w = 4; Lists l; l.push_back(make(c, 2, kind, 4, 3)); l.push_back(make(c, 1 + c.choose(c.thorough ? 3 : 2), kind, 4, 2)); check(c, l, kind, W[w], 0, 1e-6, r); }
MC_SPACE(greedy, 3) { static const int K[] = {0, 2, 3}; int kind = K[c.choose(3)], w = c.choose(4), r = c.choose(5), th = c.choose(2), n1 = 1 + c.choose(2), n2 = c.choose(c.thorough ? 4 : 3); if (r == 4) w = 4; Lists l; l.push_back(make(c, n1, kind, 3, 3)); l.push_back(make(c, n2, kind, n2 > 1 ? 3 : 4, n2 > 1 ? 2 : 3)); check(c, l, kind, W[w], 3, th ? 0.2 : 1e-6, r); }
// online tuning runs with every update rule and reports the score of the weights it returns
MC_SPACE(online, 3) {
    static const char * U[] = {"perceptron", "avgperceptron", "adagrad"}; int kind = c.choose(4), u = c.choose(3), n1 = 1 + c.choose(2), n2 = c.choose(2), mg = c.choose(2); Lists l; l.push_back(make(c, n1, kind, 4, 3)); if (n2) l.push_back(make(c, 2, kind, 3, 3)); c.describe([&]() { return string(U[u]) + " " + M[kind] + " " + show(l) + (mg ? " margin" : ""); }); c.state(show(l) + U[u]);
    TuneOnline t; t.SetUpdate(U[u]); t.SetMarginScale(mg); for (size_t i = 0; i < l.size(); i++) t.AddExample(example(l[i])); SparseMap kv; srand(1); double got; { Quiet q; t.Init(kv); got = t.RunTuning(kv); } vector<double> after = scores(l, get(kv, F[0]), get(kv, F[1]));
    CHECK(has(after, got), "reported", "the score is reported as " << got << " but the weights " << get(kv, F[0]) << "," << get(kv, F[1]) << " give " << after[0]); c.step(100);
}
// the whole program: n-best file, references, start weights and ranges as texts
MC_SPACE(program, 3) {
    static const char * A[] = {"mert", "greedy-mert", "online", "lbfgs", "onlinepro"}; static const char * R[] = {"", "-0.5|0.5", "0|", "|0.25|fa", "-1|1 0|0.75|fb"}; static const char * H[] = {"w0 w1 w5", "w0 w1 w2", "w4", "w0 w0"}; static const char * FT[] = {"", "fa=1", "fb=1", "fa=-1 fb=1"};
    int alg = c.choose(4), rg = alg < 2 ? c.choose(5) : 0, w = c.choose(c.thorough ? 3 : 2), n = 2 + c.choose(c.thorough && alg < 2 ? 2 : 1), ns = 1 + c.choose(alg < 2 || c.thorough ? 2 : 1), ev = alg == 3 ? 1 : c.choose(2); vector<pair<int, int> > e; bool feat = false; string nb, refs; vector<int> sent;
    for (int q = 0; q < ns; q++) { refs += "w0 w1 w2\n"; for (int i = 0; i < (q ? 2 : n); i++) { int h = c.choose(q ? 2 : 3), f = c.choose(q ? 3 : 4); nb += to_string(q) + " ||| " + H[h] + " ||| 0 ||| " + FT[f] + "\n"; e.push_back(make_pair(h, f)); sent.push_back(q); feat = feat || f; } }
    c.require(feat); static const double W0[][2] = {{0, 0}, {0.25, 0}, {-0.25, 0.5}}; if (rg == 2) c.require(w < 2);
    c.describe([&]() { return string(A[alg]) + " ranges '" + R[rg] + "' start " + to_string(w) + " eval " + to_string(ev) + "\n" + nb; }); c.state(nb);
    string wt; if (W0[w][0]) wt += "fa=" + to_string(W0[w][0]) + "\n"; if (W0[w][1]) wt += "fb=" + to_string(W0[w][1]) + "\n";
    vector<string> a; a.push_back("-nbest"); a.push_back(run::put("nb", nb)); a.push_back("-algorithm"); a.push_back(A[alg]); a.push_back("-weight_in"); a.push_back(run::put("w", wt)); a.push_back("-restarts"); a.push_back("0"); a.push_back("-rand_seed"); a.push_back("1"); a.push_back("-eval"); a.push_back(ev ? "bleu:order=2,smooth=1" : "zeroone"); if (alg == 1) c.require(!ev);   // more threads are the business of C05
    if (rg) { a.push_back("-weight_ranges"); a.push_back(R[rg]); } a.push_back(run::put("ref", refs)); ConfigBatchTune conf; run::config(conf, a); string so; int code; { run::Capture cap; { BatchTuneRunner r; code = run::guarded([&]() { r.Run(conf); }); } so = cap.out.str(); } CHECK(code == 0, "runs", "the program ends with " << code);
    double v[2] = {0, 0}; istringstream in(so); string t; while (in >> t) { size_t q = t.find('='); CHECK(q != string::npos, "format", "output '" << so << "'"); string k = t.substr(0, q); double x = atof(t.c_str() + q + 1); CHECK(x == x, "weights", "output '" << so << "'"); if (k == "fa") v[0] = x; else if (k == "fb") v[1] = x; else CHECK(k == "__SCALE__", "format", "output '" << so << "'"); }
    double lo[2] = {-1e300, -1e300}, hi[2] = {1e300, 1e300}; if (rg == 1) lo[0] = lo[1] = -0.5, hi[0] = hi[1] = 0.5; if (rg == 2) lo[0] = lo[1] = 0; if (rg == 3) hi[0] = 0.25; if (rg == 4) lo[0] = -1, hi[0] = 1, lo[1] = 0, hi[1] = 0.75;
    for (int k = 0; k < 2; k++) CHECK(v[k] >= lo[k] - 1e-5 && v[k] <= hi[k] + 1e-5, "range", "f" << char('a' + k) << " ends at " << v[k]); c.step();
    if (alg < 2) { boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(ev ? "bleu:order=2,smooth=1" : "zeroone")); static const double G[][2] = {{0, 0}, {1, 0}, {0, 1}, {-1, 1}}; Lists l(ns); Sentence ref = Dict::ParseWords("w0 w1 w2"); for (size_t i = 0; i < e.size(); i++) { Hyp h; h.f[0] = G[e[i].second][0]; h.f[1] = G[e[i].second][1]; h.s = e[i].first; h.st = m->CalculateStats(ref, Dict::ParseWords(H[h.s])); l[sent[i]].push_back(h); }
        double x = scores(l, v[0], v[1]).back(), y = max(scores(l, W0[w][0], W0[w][1])[0], scores(l, 0, 0)[0]); CHECK(x >= y - 1e-7, "worse", "the tuned weights " << so << " score " << x << " but a start scores " << y); }
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
