// E02: RIBES of every small pair of sentences equals its published definition.
#include "ev.h"
using namespace travatar; using namespace std; using ev::near;
static int occ(const Sentence & s, const Sentence & g) { int n = 0; for (int i = 0; i + g.size() <= s.size(); i++) if (equal(g.begin(), g.end(), s.begin() + i)) n++; return n; }
static int pos(const Sentence & s, const Sentence & g) { for (int i = 0; i + g.size() <= s.size(); i++) if (equal(g.begin(), g.end(), s.begin() + i)) return i; return -1; }
static double ribes(const Sentence & ref, const Sentence & sys, double alpha, double beta, vector<int> & order) {
    order.clear(); int n = sys.size();
    if (ref.empty()) return sys.empty() ? 1 : 0; if (sys.empty()) return 0;
    double bp = min(1.0, exp(1.0 - (double)ref.size() / n));
    for (int i = 0; i < n; i++) {
        Sentence u(1, sys[i]); if (!occ(ref, u)) continue;
        if (occ(ref, u) == 1 && occ(sys, u) == 1) { order.push_back(pos(ref, u)); continue; }
        for (int w = 1; w < max(i + 1, n - i + 1); w++) {
            if (w <= i) { Sentence g(sys.begin() + i - w, sys.begin() + i + 1); if (occ(ref, g) == 1 && occ(sys, g) == 1) { order.push_back(pos(ref, g) + w); break; } }
            if (i + w < n) { Sentence g(sys.begin() + i, sys.begin() + i + w + 1); if (occ(ref, g) == 1 && occ(sys, g) == 1) { order.push_back(pos(ref, g)); break; } }
        }
    }
    int k = order.size();
    if (k == 1 && ref.size() == 1) return pow(1.0 / n, alpha) * pow(bp, beta);
    if (k < 2) return 0;
    double asc = 0; for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (order[i] < order[j]) asc++;
    return asc / (k * (k - 1) / 2) * pow((double)k / n, alpha) * pow(bp, beta);
}
static void pairs(mc::Ctx & c, int hi, int k) {
    const Sentence & ref = c.pick(ev::all(0, hi, k)); const Sentence & sys = c.pick(ev::all(0, hi, k)); c.describe(ev::str(ref) + " / " + ev::str(sys));
    double ab[4][2] = {{0.25, 0.1}, {1, 0}, {0, 1}, {0.5, 2}};
    static EvalMeasure * m[5]; static bool up = false; if (!up) { up = true; m[4] = EvalMeasureLoader::CreateMeasureFromString("ribes"); for (int i = 0; i < 4; i++) { ostringstream o; o << "ribes:alpha=" << ab[i][0] << ",beta=" << ab[i][1]; m[i] = EvalMeasureLoader::CreateMeasureFromString(o.str()); } }
    vector<int> ord; for (int i = 0; i < 5; i++) {
        const double * p = ab[i % 4]; double want = ribes(ref, sys, p[0], p[1], ord); c.step(); EvalStatsPtr st = m[i]->CalculateStats(ref, sys); double got = st->ConvertToScore();
        CHECK(near(got, want), "ribes", "alpha=" << p[0] << " beta=" << p[1] << " gives " << got << " instead of " << want);
        CHECK(got >= 0 && got <= 1 + 1e-12, "ribes-range", "gives " << got);
        CHECK(st->GetVals().size() == 2 && st->GetVals()[1] == 1, "ribes-average", "one sentence does not count once");
        if (ref == sys && (ord.size() == ref.size() && (ref.size() != 1 || true))) CHECK(near(got, 1), "ribes-identity", "identical sentences score " << got);
    }
}
MC_SPACE(pairs2, 3) { pairs(c, c.thorough ? 8 : 6, 2); }
MC_SPACE(pairs3, 3) { pairs(c, c.thorough ? 6 : 5, 3); }
MC_SPACE(pairs4, 3) { pairs(c, c.thorough ? 5 : 4, 4); }
MC_SPACE(perms, 3) {   // distinct words in every order
    int n = 1 + c.choose(c.thorough ? 7 : 6); Sentence ref, sys; vector<int> left; for (int i = 0; i < n; i++) { ref.push_back(ev::words()[i]); left.push_back(i); }
    for (int i = 0; i < n; i++) { int k = c.choose(left.size()); sys.push_back(ev::words()[left[k]]); left.erase(left.begin() + k); } c.describe(ev::str(ref) + " / " + ev::str(sys));
    static EvalMeasure * m = EvalMeasureLoader::CreateMeasureFromString("ribes"); vector<int> ord; double got = m->CalculateStats(ref, sys)->ConvertToScore(), want = ribes(ref, sys, .25, .1, ord);
    CHECK(near(got, want), "ribes", "gives " << got << " instead of " << want); CHECK((got == 1) == (ref == sys), "ribes-identity", "scores " << got);
}
MC_SPACE(corpora, 3) {
    EvalStatsPtr sum; double want = 0; string d; static EvalMeasure * m = EvalMeasureLoader::CreateMeasureFromString("ribes"); vector<int> ord; vector<pair<Sentence, Sentence> > v;
    for (int i = 0; i < 2; i++) { const Sentence & a = c.pick(ev::all(0, c.thorough ? 3 : 2, 2)), & b = c.pick(ev::all(0, c.thorough ? 3 : 2, 2)); v.push_back(make_pair(a, b)); d += ev::str(a) + " / " + ev::str(b) + "; "; } c.describe(d);
    for (int i = 0; i < 2; i++) { EvalStatsPtr s = m->CalculateStats(v[i].first, v[i].second); want += ribes(v[i].first, v[i].second, .25, .1, ord) / 2; if (i) sum->PlusEquals(*s); else sum = s; }
    CHECK(near(sum->ConvertToScore(), want), "ribes-corpus", "corpus score " << sum->ConvertToScore() << " instead of " << want);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { ev::init(); }); }
