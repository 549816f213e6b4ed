// C05: greedy tuning with worker threads keeps the best line-search result of all features
#include "vsched.h"
#include "ev.h"
#include <travatar/tune-mert.h>
#include <travatar/tune-greedy-mert.h>
#include <travatar/tune-lbfgs.h>
#include <travatar/tune-online.h>
#include <travatar/gradient-xeval.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/tuning-example-forest.h>
#include <travatar/hyper-graph.h>
#include <travatar/translation-rule.h>
#include <travatar/cfg-data.h>
#include <iostream>
#include <sstream>
using namespace std; using namespace travatar;
static int F[3];
static void init() { ev::init(); F[0] = Dict::WID("fa"); F[1] = Dict::WID("fb"); F[2] = Dict::WID("fc"); }
struct NullBuf : streambuf { int overflow(int c) { return c; } streamsize xsputn(const char *, streamsize n) { return n; } };
struct Mute { NullBuf b; streambuf * o; Mute() : o(cerr.rdbuf(&b)) {} ~Mute() { cerr.rdbuf(o); } };
typedef vector<boost::shared_ptr<TuningExample> > Examples;
static double get(const SparseMap & m, int k) { SparseMap::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
// one round with worker threads: the result is the best line search over all features, and weights, position and scores belong together
static void round(mc::Ctx & c, TuneGreedyMert & t, SparseMap & w, const Examples & ex, int nf, LineSearchResult & r, const vector<LineSearchResult> & each, const SparseMap & before) {
    (void)ex; double best = 0; for (int f = 0; f < nf; f++) best = max(best, (double)each[f].gain); double thr = t.GetGainThreshold();
    ostringstream all; for (int f = 0; f < nf; f++) all << " " << Dict::WSym(F[f]) << ":" << each[f].gain;
    if (best <= thr) { CHECK(r.gain <= thr, "gain", "a gain of " << r.gain << " is reported where the features reach" << all.str()); for (int f = 0; f < nf; f++) CHECK(get(w, F[f]) == get(before, F[f]), "moved", "weights changed without a gain"); return; }
    CHECK(fabs(r.gain - best) < 1e-9, "lost", "the round ends with gain " << r.gain << " although the features reach" << all.str() << "  schedule: " << vs::vsched_trace());
    int moved = -1; for (int f = 0; f < nf; f++) if (get(w, F[f]) != get(before, F[f])) { CHECK(moved < 0, "moved", "more than one weight changed"); moved = f; }
    CHECK(moved >= 0, "moved", "no weight changed although the gain is " << r.gain << "  schedule: " << vs::vsched_trace());
    CHECK(fabs(each[moved].gain - best) < 1e-9, "mixed", "the weight of " << Dict::WSym(F[moved]) << " changed, but the gains are" << all.str() << "  schedule: " << vs::vsched_trace());
    CHECK(fabs(get(w, F[moved]) - get(before, F[moved]) - each[moved].pos) < 1e-9 && r.pos == each[moved].pos, "mixed", "the weight of " << Dict::WSym(F[moved]) << " moved by " << get(w, F[moved]) - get(before, F[moved]) << " to a result at " << r.pos << " instead of " << each[moved].pos << "  schedule: " << vs::vsched_trace());
    CHECK(r.before && r.after && r.before->ConvertToString() == each[moved].before->ConvertToString() && r.after->ConvertToString() == each[moved].after->ConvertToString(), "mixed", "the scores of the result are not those of " << Dict::WSym(F[moved]) << "  schedule: " << vs::vsched_trace());
}
static vector<LineSearchResult> alone(TuneGreedyMert & t, const SparseMap & w, Examples ex, int nf) { vector<LineSearchResult> v; for (int f = 0; f < nf; f++) { SparseMap g; g[F[f]] = 1; v.push_back(TuneMert::LineSearch(w, g, ex, t.FindGradientRange(w, F[f]))); } return v; }
static void go(mc::Ctx & c, const Examples & ex, SparseMap w, int nf, int threads, int pre, int rounds, bool scope) {
    Mute q; TuneGreedyMert t; t.SetThreads(threads); t.SetExamples(ex); vector<vector<LineSearchResult> > each; vector<SparseMap> at(1, w); vector<LineSearchResult> res(rounds);
    if (!threads) { for (int i = 0; i < rounds; i++) { res[i] = t.TuneOnce(w); at.push_back(w); } c.step(10); }
    else vs::run(c, vs::Options(pre), [&]() { if (scope) { vs::scope(); vs::scope(&t, sizeof t); } for (int i = 0; i < rounds; i++) { res[i] = t.TuneOnce(w); vs::Quiet q; at.push_back(w); } });
    for (int i = 0; i < rounds; i++) round(c, t, at[i + 1], ex, nf, res[i], alone(t, at[i], ex, nf), at[i]);
}
// n-best lists: every list has a hypothesis without features (first at zero weights) and one or more per feature
static Examples nbest(mc::Ctx & c, int nf, int nex, bool mixed, int ns, ostringstream & d) {
    static const double SC[] = {1, 0.75, 0, 0.5}; Examples ex;
    for (int e = 0; e < nex; e++) {
        TuningExampleNbest * x = new TuningExampleNbest; ex.push_back(boost::shared_ptr<TuningExample>(x)); x->AddHypothesis(SparseVector(), EvalStatsPtr(new EvalStatsAverage(0.5, 1))); d << " | 0:0.5";
        for (int f = 0; f < nf; f++) { int s = c.choose(ns); double v = mixed && c.flag() ? 1 : -1; SparseVector y; y.Add(F[f], v); if (f) y.Add(F[0], -0.3); else if (nf > 1) y.Add(F[1], -0.3); x->AddHypothesis(y, EvalStatsPtr(new EvalStatsAverage(SC[s], 1))); d << " " << v << Dict::WSym(F[f]) << ":" << SC[s]; }
    }
    return ex;
}
static SparseMap start(int nf) { SparseMap w; for (int f = 0; f < nf; f++) w[F[f]] = 1 + 0.125 * f; return w; }
MC_SPACE(sequential, 3) { int nf = c.range(1, 3); ostringstream d; d << "one thread"; Examples ex = nbest(c, nf, nf < 3 ? c.range(1, 2) : 1, nf < 3 || c.thorough, nf < 3 || c.thorough ? 4 : 3, d); c.describe(d.str()); c.state(d.str()); go(c, ex, start(nf), nf, 0, 0, 3, true); }
// two workers, every schedule around the shared best result
MC_SPACE(two_features, 3) { ostringstream d; Examples ex = nbest(c, 2, c.thorough ? c.range(1, 2) : 1, false, 3, d); d << " two threads"; c.describe(d.str()); go(c, ex, start(2), 2, 2, c.thorough ? 3 : 2, 1, true); }
MC_SPACE(three_features, 3) { ostringstream d; Examples ex = nbest(c, 3, 1, false, 3, d); int th = c.thorough ? c.range(2, 3) : 2; d << " " << th << " threads"; c.describe(d.str()); go(c, ex, start(3), 3, th, c.thorough ? 2 : 1, 1, true); }
// with preemption at every synchronisation operation (pool, messages, names) 
MC_SPACE(everywhere, 3) { ostringstream d; Examples ex = nbest(c, 2, 1, false, 2, d); d << " two threads, everywhere"; c.describe(d.str()); go(c, ex, start(2), 2, 2, c.thorough ? 2 : 1, 1, false); }
MC_SPACE(rounds, 3) { ostringstream d; Examples ex = nbest(c, 2, c.thorough ? 2 : 1, false, 2, d); d << " two threads, two rounds"; c.describe(d.str()); go(c, ex, start(2), 2, 2, 1, c.thorough ? 3 : 2, true); }
// packed forests: one node with a choice of translations, under a sentence-level measure
MC_SPACE(forests, 3) {
    ostringstream d; int nf = 2; static boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString("zeroone")); Examples ex; int nex = c.range(1, c.thorough ? 2 : 1);
    for (int e = 0; e < nex; e++) {
        TuningExampleForest * x = new TuningExampleForest(m.get(), vector<Sentence>(1, Sentence(1, ev::words()[0])), e, 1); ex.push_back(boost::shared_ptr<TuningExample>(x)); boost::shared_ptr<HyperGraph> g(new HyperGraph); g->AddWord(ev::words()[7]); HyperNode * n = new HyperNode(-1, -1, SpanId(0, 1)); g->AddNode(n);
        for (int f = -1; f < nf; f++) { int w = f < 0 ? 1 : c.choose(2); HyperEdge * ed = new HyperEdge(n); g->AddEdge(ed); n->AddEdge(ed); ed->SetTrgData(CfgDataVector(1, CfgData(Sentence(1, ev::words()[w])))); SparseVector v; if (f >= 0) { v.Add(F[f], -1); v.Add(F[1 - f], -0.3); } ed->SetFeatures(v); d << (f < 0 ? " | none" : f ? " fb" : " fa") << ":w" << w; }
        x->AddHypothesis(g);
    }
    int th = c.choose(2) ? 2 : 0; d << (th ? " two threads" : " one thread"); c.describe(d.str()); go(c, ex, start(nf), nf, th, c.thorough ? 2 : 1, 1, true);
}
// restarts: several runs over the same examples and tuner at once give what each gives alone
static boost::shared_ptr<Tune> tuner(int a) { if (a == 0) { TuneMert * m = new TuneMert; m->SetDirections("coord"); return boost::shared_ptr<Tune>(m); } if (a == 1) { TuneLbfgs * l = new TuneLbfgs(new GradientXeval); l->SetIters(3); return boost::shared_ptr<Tune>(l); } if (a == 2) { TuneOnline * o = new TuneOnline; o->SetUpdate("perceptron"); return boost::shared_ptr<Tune>(o); } return boost::shared_ptr<Tune>(); }
static Examples make(int kind, const vector<int> & out, boost::shared_ptr<EvalMeasure> m) {
    Examples ex; const vector<int> & w = ev::words(); Sentence ref; for (int i = 0; i < 3; i++) ref.push_back(w[i]); int nh = out.size() / 2;
    for (int e = 0; e < 2; e++) {
        boost::shared_ptr<HyperGraph> g(new HyperGraph); g->AddWord(w[7]); HyperNode * n = new HyperNode(-1, -1, SpanId(0, 1)); g->AddNode(n); TuningExampleNbest * x = new TuningExampleNbest;
        for (int h = 0; h < nh; h++) { int o = out[e * nh + h]; Sentence t = ref; if (o == 1) t[2] = w[4]; if (o == 2) t = Sentence(2, w[5]); SparseVector v; if (h) v.Add(F[(h + e) % 2], h == 1 ? 1 : -1.5); if (h == 2) v.Add(F[e], 0.3);
            if (kind) { HyperEdge * ed = new HyperEdge(n); g->AddEdge(ed); n->AddEdge(ed); ed->SetTrgData(CfgDataVector(1, CfgData(t))); ed->SetFeatures(v); } else x->AddHypothesis(v, m->CalculateCachedStats(vector<Sentence>(1, ref), vector<Sentence>(1, t), e)); }
        if (kind) { delete x; TuningExampleForest * f = new TuningExampleForest(m.get(), vector<Sentence>(1, ref), e, 0.5); f->AddHypothesis(g); ex.push_back(boost::shared_ptr<TuningExample>(f)); } else ex.push_back(boost::shared_ptr<TuningExample>(x));
    }
    return ex;
}
static string show(const SparseMap & m) { map<string, double> o; for (SparseMap::const_iterator i = m.begin(); i != m.end(); ++i) o[Dict::WSym(i->first)] = i->second; ostringstream s; for (map<string, double>::iterator i = o.begin(); i != o.end(); ++i) s << " " << i->first << "=" << i->second; return s.str(); }
static void restarts(mc::Ctx & c, int a, int kind, int pre) {
    static const char * A[] = {"mert", "lbfgs", "online"}; static const char * M[] = {"zeroone", "bleu:order=2,smooth=1"}; int me = c.choose(2); vector<int> out; for (int i = 0; i < (c.thorough ? 6 : 4); i++) out.push_back(c.choose(i == 3 ? 3 : 2)); int n = c.thorough ? 3 : 2;
    ostringstream d; d << n << " runs of " << A[a] << " " << M[me] << (kind ? " forests" : " n-best") << " outcomes"; for (size_t i = 0; i < out.size(); i++) d << out[i]; c.describe(d.str()); Mute q;
    static const double S[][2] = {{1, 0.125}, {-1, 0.5}, {0.25, -1}}; vector<SparseMap> want(n), got(n); vector<double> ws(n), gs(n);
    for (int t = 0; t < n; t++) { want[t][F[0]] = got[t][F[0]] = S[t][0]; want[t][F[1]] = got[t][F[1]] = S[t][1]; boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(M[me])); boost::shared_ptr<Tune> tu = tuner(a); tu->SetExamples(make(kind, out, m)); tu->Init(want[t]); ws[t] = tu->RunTuning(want[t]); }
    boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(M[me])); boost::shared_ptr<Tune> tu = tuner(a); tu->SetExamples(make(kind, out, m)); tu->Init(got[0]);
    vs::run(c, vs::Options(pre), [&]() { vs::scope(); if (kind) for (int e = 0; e < 2; e++) vs::scope(tu->GetExamples()[e].get(), sizeof(TuningExampleForest)); boost::thread_group g; for (int t = 0; t < n; t++) g.create_thread([&, t]() { vs::point("start"); gs[t] = tu->RunTuning(got[t]); }); g.join_all(); });
    if (a != 2) for (int t = 0; t < n; t++) CHECK(fabs(gs[t] - ws[t]) < 1e-9 && show(got[t]) == show(want[t]), "disturbed", "run " << t << " ends at" << show(got[t]) << " with score " << gs[t] << " next to other runs, but at" << show(want[t]) << " with " << ws[t] << " alone");
}
MC_SPACE(restarts_nbest, 3) { int a = c.choose(3); restarts(c, a, 0, 1); }
MC_SPACE(restarts_forest, 3) { restarts(c, 0, 1, 1); }
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
