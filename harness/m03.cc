// M03: the expected-score objective and its gradient against a direct computation and its central differences
#include "ev.h"
#include <travatar/gradient-xeval.h>
#include <travatar/tune-lbfgs.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/eval-measure-bleu.h>
#include <functional>
using namespace std; using namespace travatar; typedef long double LD;
static int F[2], SC;
static void init() { ev::init(); F[0] = Dict::WID("fa"); F[1] = Dict::WID("fb"); SC = Dict::WID("__SCALE__"); }
struct Hyp { double f[2]; EvalStatsPtr st; int s; };
typedef vector<vector<Hyp> > Lists;
static const char * M[] = {"bleu:order=2", "bleu:order=2,smooth=1", "ter:inverse=true", "ter", "ribes", "zeroone", "bleu:order=2,scope=sentence,smooth=1", "bleu", "bleu:order=2,prec=0.5,smooth=1", "bleu:order=2,mean=arith", "bleu:order=3,brev=false,smooth=0.5", "bleu:order=2,mean=arith,prec=0.25"};
static const bool BLEU[] = {true, true, false, false, false, false, false, true, true, true, true, true}, ARITH[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1}, BREV[] = {1, 1, 0, 0, 0, 0, 0, 1, 1, 1, 0, 1}; static const int ORDER[] = {2, 2, 0, 0, 0, 0, 0, 4, 2, 2, 3, 2}; static const double SMOOTH[] = {0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0.5, 0}, PREC[] = {1, 1, 0, 0, 0, 0, 0, 1, 0.5, 1, 1, 0.25};
static const vector<vector<EvalStatsPtr> > & pool(int kind) {
    static map<int, vector<vector<EvalStatsPtr> > > memo; vector<vector<EvalStatsPtr> > & v = memo[kind]; if (!v.empty()) return v; boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(M[kind])); const vector<int> & w = ev::words();
    Sentence r0, r1; for (int i = 0; i < 3; i++) r0.push_back(w[i]); for (int i = 0; i < 4; i++) r1.push_back(w[i]); Sentence H[5]; H[0] = r0; H[1] = r0; H[1][2] = w[5]; H[2] = r1; H[2].push_back(w[4]); H[3] = Sentence(1, w[0]); H[3].push_back(w[6]);
    v.resize(2); for (int i = 0; i < 5; i++) v[0].push_back(m->CalculateStats(r0, H[i])), v[1].push_back(m->CalculateStats(r1, H[i])); return v;
}
// the objective
static LD value(const Lists & l, int kind, const LD * x, LD gamma, double l2, double ent, bool * kink = NULL) {
    vector<LD> E; LD H = 0; for (size_t i = 0; i < l.size(); i++) { vector<LD> s; LD mx = -1e300L, z = 0; for (size_t k = 0; k < l[i].size(); k++) { s.push_back(gamma * (x[0] * l[i][k].f[0] + x[1] * l[i][k].f[1])); mx = max(mx, s[k]); } for (size_t k = 0; k < s.size(); k++) z += expl(s[k] - mx);
        for (size_t k = 0; k < s.size(); k++) { LD p = expl(s[k] - mx) / z; if (p > 0) H -= p * log2l(p); const vector<EvalStatsDataType> & v = l[i][k].st->GetVals(); E.resize(v.size()); for (size_t j = 0; j < v.size(); j++) E[j] += p * v[j]; } }
    LD r; if (BLEU[kind]) { r = ARITH[kind] ? 0 : 1; int n = ORDER[kind]; for (int o = 0; o < n; o++) { LD sm = o ? SMOOTH[kind] : 0, den = PREC[kind] * (E[3*o+1] + sm) + (1 - PREC[kind]) * (E[3*o+2] + sm), f = den > 0 && E[3*o+1] + sm > 0 ? (E[3*o] + sm) / den : 0; if (ARITH[kind]) r += f / n; else r *= f; } if (!ARITH[kind]) r = powl(r, 1.0L / n); if (BREV[kind] && E[1] < E[2]) r *= E[1] > 0 ? expl(1 - E[2] / E[1]) : 0; if (kink) *kink = BREV[kind] && fabsl(E[2] / E[1] - 1) < 0.01L; }
    else { r = E[1] > 0 ? E[0] / E[1] : 0; if (kind == 2) r = 1 - r; }
    return r - l2 * gamma * gamma * (x[0] * x[0] + x[1] * x[1]) + ent * H;
}
static boost::shared_ptr<TuningExample> example(const vector<Hyp> & l) { TuningExampleNbest * e = new TuningExampleNbest; for (size_t i = 0; i < l.size(); i++) { SparseVector f; for (int k = 0; k < 2; k++) if (l[i].f[k]) f.Add(F[k], l[i].f[k]); e->AddHypothesis(f, l[i].st); } return boost::shared_ptr<TuningExample>(e); }
static const double FV[][2] = {{0, 0}, {1, 0}, {0, 1}, {-1, 2}, {1, 1}};
static vector<Hyp> make(mc::Ctx & c, int n, int kind, int sent, int nf, int ns) { vector<Hyp> l; for (int i = 0; i < n; i++) { Hyp h; int f = c.choose(nf); h.f[0] = FV[f][0]; h.f[1] = FV[f][1]; h.s = c.choose(ns); h.st = pool(kind)[sent][h.s]; l.push_back(h); } return l; }
static string show(const Lists & x, int kind) { ostringstream o; o << M[kind]; for (size_t i = 0; i < x.size(); i++) { o << " / "; for (size_t j = 0; j < x[i].size(); j++) o << (j ? ", " : "") << x[i][j].f[0] << "," << x[i][j].f[1] << " s" << x[i][j].s; } return o.str(); }
static double get(const SparseMap & m, int k) { SparseMap::const_iterator i = m.find(k); return i == m.end() ? 0 : i->second; }
static void check(mc::Ctx & c, const Lists & l, int kind, const double * w, double scale, double l2, double ent, bool autos, double mult) {
    c.describe([&]() { ostringstream o; o << show(l, kind) << " weights " << w[0] << "," << w[1] << " scale " << scale << " l2 " << l2 << " ent " << ent << " autoscale " << autos << " mult " << mult; return o.str(); }); c.state(show(l, kind));
    GradientXeval gx; gx.SetAutoScale(autos); gx.SetL2Coefficient(l2); gx.SetEntCoefficient(ent); gx.SetMult(mult); vector<boost::shared_ptr<TuningExample> > ex; for (size_t i = 0; i < l.size(); i++) ex.push_back(example(l[i]));
    SparseMap in; for (int k = 0; k < 2; k++) if (w[k]) in[F[k]] = 1; gx.Init(in, ex); SparseMap x, g; for (int k = 0; k < 2; k++) if (w[k]) x[F[k]] = w[k]; if (scale) x[SC] = scale;
    double got = gx.CalcSparseGradient(x, g); LD gamma = scale ? scale : 1, xs[2] = {w[0], w[1]}; bool kink = false; LD want = value(l, kind, xs, gamma, l2, ent, &kink); c.step();
    CHECK(fabsl(got - mult * want) < 1e-8L, "value", "the value is " << got << " instead of " << (double)(mult * want)); if (kink) return;
    for (int k = 0; k < 3; k++) { LD h = 1e-5L, a[2] = {xs[0], xs[1]}, b[2] = {xs[0], xs[1]}, ga = gamma, gb = gamma; if (k < 2) a[k] += h, b[k] -= h; else ga += h, gb -= h; LD d = (value(l, kind, a, ga, l2, ent) - value(l, kind, b, gb, l2, ent)) / (2 * h) * mult, e = get(g, k < 2 ? F[k] : SC); if (k == 2 && !autos) d = 0; c.step(2);
        CHECK(fabsl(d - e) < 1e-6L, "gradient", "the derivative " << (k < 2 ? "in f" + string(1, 'a' + k) : string("in the scale")) << " is " << (double)e << " instead of " << (double)d); }
    // the optimizer hands over the same array again and again
    vector<Real> dx(3), dg(3, 0), dg2; { vector<int> ids; ids.push_back(F[0]); ids.push_back(F[1]); ids.push_back(SC); sort(ids.begin(), ids.end()); for (int i = 0; i < 3; i++) dx[i] = get(x, ids[i]); if (!scale) dx[find(ids.begin(), ids.end(), SC) - ids.begin()] = 1; double v1 = gx.CalcGradient(3, &dx[0], &dg[0]); dg2 = dg; double v2 = gx.CalcGradient(3, &dx[0], &dg2[0]); CHECK(v1 == v2, "again", "two different values for the same weights"); for (int i = 0; i < 3; i++) CHECK(ev::near(dg[i], dg2[i]), "again", "the derivative is " << dg2[i] << " the second time and " << dg[i] << " the first"); }
}
static const double W[][2] = {{0, 0}, {1, -0.5}, {-0.75, 2}, {0, 1}, {8, -3}};
MC_SPACE(one_list, 3) { int kind = c.choose(12), n = 1 + c.choose(3), w = c.choose(3), s = c.choose(n > 2 ? 2 : 3), r = c.choose(n > 2 && !c.thorough ? 2 : 4); static const double S[] = {0, 2, 0.5}; Lists l(1, make(c, n, kind, 0, n > 2 ? (c.thorough ? 4 : 2) : 4, n > 2 && !c.thorough ? 4 : 5)); check(c, l, kind, W[w], S[s], r & 1 ? 0.01 : 0, r & 1 ? 0.1 : 0, true, r & 2 ? -1 : 1); }
MC_SPACE(two_lists, 3) { int kind = c.choose(12), n1 = 1 + c.choose(2), n2 = c.choose(c.thorough ? 4 : 3), w = 1 + c.choose(4), s = c.choose(2), r = c.choose(2); Lists l; l.push_back(make(c, n1, kind, 0, 3, 4)); l.push_back(make(c, n2, kind, 1, c.thorough ? 4 : n2 > 1 ? 3 : 5, n2 > 1 ? 3 : 4)); check(c, l, kind, W[w], s ? 1.5 : 0, r ? 0.1 : 0, r ? 0.25 : 0, true, 1); }
MC_SPACE(settings, 3) { int kind = c.choose(12), w = c.choose(5), s = c.choose(3), a = c.choose(3), b = c.choose(3), t = c.choose(2), m = c.choose(2); static const double S[] = {0, 1, 3}, L[] = {0, 0.01, 1}; Lists l; l.push_back(make(c, 2, kind, 0, 3, 2)); l.push_back(make(c, 2, kind, 1, 2, 2)); check(c, l, kind, W[w], S[s], L[a], L[b], t, m ? -1 : 1); }
// measures and settings without an exact gradient are refused
MC_SPACE(refused, 3) {
    static const char * U[] = {"nist", "bleu:inverse=true", "interp:0.5|bleu|0.5|ribes"}; int k = c.choose(3); c.describe(U[k]); boost::shared_ptr<EvalMeasure> m; m.reset(EvalMeasureLoader::CreateMeasureFromString(U[k])); Sentence s(3, ev::words()[0]); m->InitializeWithReferences(vector<vector<Sentence> >(1, vector<Sentence>(1, s))); TuningExampleNbest * e = new TuningExampleNbest; SparseVector f; f.Add(F[0], 1); e->AddHypothesis(f, m->CalculateStats(s, s)); vector<boost::shared_ptr<TuningExample> > ex(1, boost::shared_ptr<TuningExample>(e));
    GradientXeval gx; gx.Init(SparseMap(), ex); SparseMap g; bool threw = false; try { gx.CalcSparseGradient(SparseMap(), g); } catch (exception &) { threw = true; } CHECK(threw, "refused", "a gradient is given for " << U[k]); c.state(U[k]);
}
// tuning with the gradient never ends below its start, and reports what it reaches
MC_SPACE(optimize, 3) {
    int kind = c.choose(12), w = c.choose(4), r = c.choose(3); static const double L2[] = {0, 0.01, 0.1}, EN[] = {0, 0, 0.05}; Lists l; l.push_back(make(c, c.thorough ? 3 : 2, kind, 0, 4, 3)); l.push_back(make(c, 2, kind, 1, c.thorough ? 3 : 2, 2)); bool bad = kind == 3; c.require(!bad); c.describe([&]() { ostringstream o; o << show(l, kind) << " weights " << W[w][0] << "," << W[w][1] << " reg " << r; return o.str(); }); c.state(show(l, kind));
    GradientXeval * gx = new GradientXeval; gx->SetL2Coefficient(L2[r]); gx->SetEntCoefficient(EN[r]); TuneLbfgs t(gx); t.SetIters(20); vector<boost::shared_ptr<TuningExample> > ex; for (size_t i = 0; i < l.size(); i++) ex.push_back(example(l[i])); t.SetExamples(ex); SparseMap in; in[F[0]] = W[w][0]; in[F[1]] = W[w][1]; t.Init(in); SparseMap kv = in; double got = t.RunTuning(kv);
    LD a[2] = {W[w][0], W[w][1]}, b[2] = {get(kv, F[0]), get(kv, F[1])}, ga = get(kv, SC), va = value(l, kind, a, 1, L2[r], EN[r]), vb = value(l, kind, b, ga ? ga : 1, L2[r], EN[r]); c.step(20);
    CHECK(fabsl(got - vb) < 1e-8L, "reported", "the value reported is " << got << " but that of the weights " << (double)b[0] << "," << (double)b[1] << " is " << (double)vb); CHECK(vb >= va - 1e-9L, "worse", "the value goes from " << (double)va << " to " << (double)vb);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
