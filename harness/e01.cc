// E01: BLEU and NIST of every small pair of sentences equal their definitions.
#include "ev.h"
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-nist.h>
using namespace travatar; using namespace std; using ev::near;
typedef map<Sentence, int> NG;
static NG ngrams(const Sentence & s, int n) { NG r; for (int i = 0; i + n <= (int)s.size(); i++) r[Sentence(s.begin() + i, s.begin() + i + n)]++; return r; }
struct Conf { int order; double smooth, prec; bool arith, inv, brev, sent; string s() const {
    ostringstream o; o << "bleu:order=" << order << ",smooth=" << smooth << ",prec=" << prec << ",mean=" << (arith ? "arith" : "geom") << ",inverse=" << (inv ? "true" : "false") << ",brev=" << (brev ? "true" : "false") << ",scope=" << (sent ? "sentence" : "corpus"); return o.str(); } };
static double bleu(const Conf & f, const vector<Sentence> & ref, const vector<Sentence> & sys) {
    double rl = 0, sl = 0; for (size_t i = 0; i < ref.size(); i++) { rl += ref[i].size(); sl += sys[i].size(); }
    if (sl == 0) return f.brev && rl > 0 ? 0 : -1;         // -1: 0/0, left open
    if (rl == 0) return -1;
    vector<double> p;
    for (int n = 1; n <= f.order; n++) {
        double m = 0, a = 0, b = 0;
        for (size_t i = 0; i < ref.size(); i++) {
            NG r = ngrams(ref[i], n), s = ngrams(sys[i], n);
            for (NG::iterator it = s.begin(); it != s.end(); ++it) { a += it->second; m += min(it->second, r.count(it->first) ? r[it->first] : 0); }
            for (NG::iterator it = r.begin(); it != r.end(); ++it) b += it->second;
        }
        double sm = n == 1 ? 0 : f.smooth; m += sm; a += sm; b += sm;
        double den = f.prec * a + (1 - f.prec) * b, v = den == 0 || a == 0 ? 0 : m / den;
        p.push_back(f.inv ? 1 - v : v);
    }
    double s = f.arith ? 0 : 1; for (size_t i = 0; i < p.size(); i++) { if (f.arith) s += p[i] / p.size(); else s *= pow(p[i], 1.0 / p.size()); }
    if (f.brev && sl < rl) s *= exp(1 - rl / sl);
    return s;
}
static vector<Conf> confs(bool all) {
    vector<Conf> r; double sm[] = {0, 1, 0.5}, pr[] = {1, 0.3, 0, 0.9};
    int orders[] = {1, 2, 4, 3};
    for (int o = 0; o < (all ? 4 : 3); o++) for (int s = 0; s < (all ? 3 : 2); s++) for (int p = 0; p < (all ? 4 : 3); p++) for (int m = 0; m < 16; m++) { Conf f = {orders[o], sm[s], pr[p], !!(m & 1), !!(m & 2), !(m & 4), !!(m & 8)}; r.push_back(f); }
    return r;
}
static EvalMeasureBleu & meas(const Conf & f) { static map<string, EvalMeasureBleu*> m; EvalMeasureBleu *& e = m[f.s()]; if (!e) e = dynamic_cast<EvalMeasureBleu*>(EvalMeasureLoader::CreateMeasureFromString(f.s())); return *e; }
static Sentence renum(const Sentence & s) { Sentence r; for (size_t i = 0; i < s.size(); i++) r.push_back(ev::words()[7 - (s[i] - ev::words()[0])]); return r; }
static void pairs(mc::Ctx & c, int hi, int k, bool all) {
    const Sentence & ref = c.pick(ev::all(0, hi, k)); const Sentence & sys = c.pick(ev::all(0, hi, k)); c.describe(ev::str(ref) + " / " + ev::str(sys));
    static vector<Conf> fs; if (fs.empty()) fs = confs(all);
    for (size_t i = 0; i < fs.size(); i++) {
        const Conf & f = fs[i]; EvalMeasureBleu & m = meas(f); c.step();
        double want = bleu(f, vector<Sentence>(1, ref), vector<Sentence>(1, sys));
        EvalStatsPtr st = m.CalculateStats(ref, sys); double got = st->ConvertToScore();
        if (want >= 0) CHECK(near(got, want), "bleu", f.s() << " gives " << got << " instead of " << want);
        CHECK(got >= 0 && got <= 1 + 1e-12, "bleu-range", f.s() << " gives " << got);
        if (ref == sys && (int)ref.size() >= f.order && !f.inv) CHECK(near(got, 1), "bleu-identity", f.s() << " gives " << got << " for identical texts");
        // a cache of n-grams and the numbering of words are irrelevant
        m.ClearCache();
        double g1 = m.CalculateStats(ref, sys, 1, 2)->ConvertToScore(), g2 = m.CalculateStats(ref, sys, 1, 2)->ConvertToScore(), g3 = m.CalculateStats(sys, ref, 2, 1)->ConvertToScore(), g4 = m.CalculateStats(sys, ref)->ConvertToScore();
        CHECK(g1 == got && g2 == got, "bleu-cache", f.s() << " gives " << g1 << ", " << g2 << " with a cache and " << got << " without");
        CHECK(g3 == g4 || (g3 != g3 && g4 != g4), "bleu-cache", f.s() << " gives " << g3 << " with a cache and " << g4 << " without for the swapped pair");
        double g5 = m.CalculateStats(renum(ref), renum(sys))->ConvertToScore(); CHECK(near(g5, got), "bleu-numbering", f.s() << " gives " << g5 << " after renumbering words");
        if (!f.sent) {
            BleuReport r = dynamic_cast<EvalStatsBleu&>(*st).CalcBleuReport();
            CHECK(r.sys_len == sys.size() && r.ref_len == ref.size() && (int)r.scores.size() == f.order, "bleu-report", "report lengths are wrong");
            if (sys.size() && ref.size()) CHECK(near(r.ratio, (double)sys.size() / ref.size()) && near(r.brevity, f.brev && sys.size() < ref.size() ? exp(1 - (double)ref.size() / sys.size()) : 1.0), "bleu-report", "ratio " << r.ratio << " brevity " << r.brevity);
        }
    }
}
MC_SPACE(bleu_pairs2, 3) { pairs(c, c.thorough ? 6 : 4, 2, c.thorough); }
MC_SPACE(bleu_pairs3, 3) { pairs(c, c.thorough ? 4 : 3, 3, c.thorough); }
// longer identical / nearly identical texts: rounding of weighted F-measures
MC_SPACE(bleu_identity, 3) {
    int n = 1 + c.choose(c.thorough ? 60 : 30); int w = c.choose(11); int order = 1 + c.choose(4); bool arith = c.flag(); int sm = c.choose(3); Sentence s; for (int i = 0; i < n; i++) s.push_back(ev::words()[(i * i) % 7]);
    Conf f = {order, sm * 0.5, w / 10.0, arith, false, true, false}; ostringstream d; d << f.s() << " on " << n << " words"; c.describe(d.str());
    double got = meas(f).CalculateStats(s, s)->ConvertToScore(); c.step();
    if (n >= order) CHECK(near(got, 1), "bleu-identity", "identical texts score " << got);
}
MC_SPACE(bleu_corpus, 3) {
    int hi = c.thorough ? 3 : 2; vector<Sentence> ref, sys; for (int i = 0; i < 2; i++) { ref.push_back(c.pick(ev::all(0, hi, 2))); sys.push_back(c.pick(ev::all(0, hi + (c.thorough ? 0 : 1), 2))); }
    c.describe(ev::str(ref[0]) + " / " + ev::str(sys[0]) + " ; " + ev::str(ref[1]) + " / " + ev::str(sys[1]));
    static vector<Conf> fs; if (fs.empty()) { fs = confs(false); }
    for (size_t i = 0; i < fs.size(); i++) {
        const Conf & f = fs[i]; EvalMeasureBleu & m = meas(f); c.step();
        EvalStatsPtr a = m.CalculateStats(ref[0], sys[0]), b = m.CalculateStats(ref[1], sys[1]); double x = a->ConvertToScore(), y = b->ConvertToScore();
        a->PlusEquals(*b); double got = a->ConvertToScore();
        double want = f.sent ? (x + y) / 2 : bleu(f, ref, sys);
        if (want >= 0) CHECK(near(got, want), "bleu-corpus", f.s() << " gives " << got << " instead of " << want);
    }
}
static double nist(int order, double beta, const vector<Sentence> & all, const vector<Sentence> & ref, const vector<Sentence> & sys) {
    double rl = 0, sl = 0, total = 0; for (size_t i = 0; i < ref.size(); i++) { rl += ref[i].size(); sl += sys[i].size(); }
    vector<NG> cnt(order + 1); for (size_t i = 0; i < all.size(); i++) { cnt[0][Sentence()] += all[i].size(); for (int n = 1; n <= order; n++) { NG x = ngrams(all[i], n); for (NG::iterator it = x.begin(); it != x.end(); ++it) cnt[n][it->first] += it->second; } }
    for (int n = 1; n <= order; n++) {
        double num = 0, den = 0;
        for (size_t i = 0; i < ref.size(); i++) {
            NG r = ngrams(ref[i], n), s = ngrams(sys[i], n);
            for (NG::iterator it = s.begin(); it != s.end(); ++it) { den += it->second; if (r.count(it->first)) num += min(it->second, r[it->first]) * log2((double)cnt[n-1][Sentence(it->first.begin(), it->first.end() - 1)] / cnt[n][it->first]); }
        }
        if (den > 0) total += num / den;
    }
    double ratio = rl > 0 ? min(1.0, sl / rl) : 1;
    return ratio <= 0 ? 0 : total * exp(-beta * log(ratio) * log(ratio));
}
static void nists(mc::Ctx & c, int k, int hi, int hi2) {
    vector<Sentence> ref, sys; ref.push_back(c.pick(ev::all(1, hi, k))); sys.push_back(c.pick(ev::all(0, hi, k))); ref.push_back(c.pick(ev::all(0, hi2, k))); sys.push_back(c.pick(ev::all(0, hi2, k)));
    c.describe(ev::str(ref[0]) + " / " + ev::str(sys[0]) + " ; " + ev::str(ref[1]) + " / " + ev::str(sys[1]));
    vector<vector<Sentence> > init; for (int i = 0; i < 2; i++) init.push_back(vector<Sentence>(1, ref[i]));
    for (int o = 1; o <= 5; o += 2) for (int b = 0; b < 2; b++) for (int sc = 0; sc < 2; sc++) {
        ostringstream cf; cf << "nist:order=" << o << (b ? ",beta=1.5" : "") << (sc ? ",scope=sentence" : ""); double beta = b ? 1.5 : pow(1 / log(1.5), 2) * log(2.0); c.step();
        unique_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(cf.str())); m->InitializeWithReferences(init);
        EvalStatsPtr a = m->CalculateStats(ref[0], sys[0]), z = m->CalculateStats(ref[1], sys[1]); double x = a->ConvertToScore(), y = z->ConvertToScore(), wx = nist(o, beta, ref, vector<Sentence>(1, ref[0]), vector<Sentence>(1, sys[0])), wy = nist(o, beta, ref, vector<Sentence>(1, ref[1]), vector<Sentence>(1, sys[1]));
        CHECK(near(x, wx, 1e-6), "nist", cf.str() << " gives " << x << " instead of " << wx); 
        if (ref[1].size()) CHECK(near(y, wy, 1e-6), "nist", cf.str() << " gives " << y << " instead of " << wy << " for the second pair");
        if (!ref[1].size() && sc) continue;
        a->PlusEquals(*z); double got = a->ConvertToScore(), want = sc ? (wx + wy) / 2 : nist(o, beta, ref, ref, sys);
        CHECK(near(got, want, 1e-6), "nist-corpus", cf.str() << " gives " << got << " instead of " << want);
        CHECK(got >= 0, "nist-range", cf.str() << " gives " << got);
        EvalStatsPtr p1 = m->CalculateStats(ref[0], ref[0]); p1->PlusEquals(*m->CalculateStats(ref[1], ref[1])); double top = p1->ConvertToScore();
        if (sys[0].size() == ref[0].size() && sys[1].size() == ref[1].size()) CHECK(got <= top + 1e-9, "nist-max", cf.str() << " gives " << got << ", more than identical texts (" << top << ")");
    }
}
MC_SPACE(nist_pairs, 3) { if (c.thorough) nists(c, 2, 4, 3); else nists(c, 2, 3, 2); }
MC_SPACE(nist_long, 3) { vector<Sentence> v; nists(c, c.thorough ? 2 : 1, c.thorough ? 5 : 7, c.thorough ? 1 : 6); }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { ev::init(); }); }
