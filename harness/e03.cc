// E03: WER is the Levenshtein distance; TER is a real edit sequence with block moves.
#include "ev.h"
#include <tercpp/tercalc.h>
using namespace travatar; using namespace std; using ev::near;
typedef vector<int> V;
// distance with unit-cost insert/delete/substitute and free-length block moves, by breadth-first search
static int bfs(const Sentence & a, const Sentence & b, int cap) {
    set<Sentence> al(b.begin() == b.end() ? set<Sentence>() : set<Sentence>()); set<int> w(b.begin(), b.end()); w.insert(a.begin(), a.end());
    set<Sentence> seen; vector<Sentence> cur(1, a); seen.insert(a); size_t maxlen = max(a.size(), b.size()) ;
    for (int d = 0; d <= cap; d++) {
        vector<Sentence> nx;
        for (size_t q = 0; q < cur.size(); q++) {
            const Sentence & s = cur[q]; if (s == b) return d; if (d == cap) continue; int n = s.size(); vector<Sentence> out;
            for (int i = 0; i < n; i++) { Sentence t = s; t.erase(t.begin() + i); out.push_back(t); for (set<int>::iterator x = w.begin(); x != w.end(); ++x) { t = s; t[i] = *x; out.push_back(t); } }
            if (s.size() < maxlen) for (int i = 0; i <= n; i++) for (set<int>::iterator x = w.begin(); x != w.end(); ++x) { Sentence t = s; t.insert(t.begin() + i, *x); out.push_back(t); }
            for (int i = 0; i < n; i++) for (int j = i + 1; j <= n; j++) for (int k = 0; k <= n; k++) if (k < i || k > j) {
                Sentence blk(s.begin() + i, s.begin() + j), t; for (int z = 0; z <= n; z++) { if (z == k) t.insert(t.end(), blk.begin(), blk.end()); if (z < n && (z < i || z >= j)) t.push_back(s[z]); } out.push_back(t); }
            for (size_t o = 0; o < out.size(); o++) if (seen.insert(out[o]).second) nx.push_back(out[o]);
        }
        cur.swap(nx);
    }
    return cap + 1;
}
static EvalMeasure * M(const char * s) { static map<string, EvalMeasure*> m; EvalMeasure *& e = m[s]; if (!e) e = EvalMeasureLoader::CreateMeasureFromString(s); return e; }
static void pairs(mc::Ctx & c, int hi, int k) {
    const Sentence & ref = c.pick(ev::all(0, hi, k)); const Sentence & sys = c.pick(ev::all(0, hi, k)); c.describe(ev::str(ref) + " / " + ev::str(sys));
    int lev = ev::levenshtein(ref, sys); EvalStatsPtr w = M("wer")->CalculateStats(ref, sys), wr = M("wer:reverse=true")->CalculateStats(ref, sys), t = M("ter")->CalculateStats(ref, sys), ti = M("ter:inverse=true")->CalculateStats(ref, sys); c.step(4);
    double rl = ref.size(), ws = rl ? lev / rl : 0;
    CHECK(w->GetVals()[0] == lev && w->GetVals()[1] == rl, "wer", "counts " << w->WriteStats() << " instead of " << lev << " " << rl);
    CHECK(near(w->ConvertToScore(), ws) && near(wr->ConvertToScore(), 1 - ws), "wer-score", "scores " << w->ConvertToScore() << ", reversed " << wr->ConvertToScore());
    double te = t->GetVals()[0]; CHECK(t->GetVals()[1] == rl, "ter", "reference length " << t->GetVals()[1]);
    CHECK((te == 0) == (ref == sys), "ter-zero", te << " edits"); CHECK(te <= lev, "ter-wer", te << " edits, but the Levenshtein distance is " << lev);
    CHECK(near(t->ConvertToScore(), rl ? te / rl : 0) && near(ti->ConvertToScore(), rl ? 1 - te / rl : 1), "ter-score", "scores " << t->ConvertToScore() << ", inverse " << ti->ConvertToScore());
    int lo = bfs(ref, sys, min(lev, 3)); CHECK(te >= min(lo, min(lev, 3)), "ter-minimum", te << " edits, but at least " << lo << " are needed");
}
MC_SPACE(pairs2, 3) { pairs(c, c.thorough ? 6 : 5, 2); }
MC_SPACE(pairs3, 3) { pairs(c, c.thorough ? 5 : 4, 3); }
MC_SPACE(moves, 3) {  // distinct words, one block moved: a single shift
    int n = 2 + c.choose(c.thorough ? 9 : 6); int i = c.choose(n), len = 1 + c.choose(n - i), k = c.choose(n + 1); c.require(k < i || k > i + len);
    Sentence ref, sys; for (int x = 0; x < n; x++) ref.push_back(ev::words()[x]);
    for (int z = 0; z <= n; z++) { if (z == k) sys.insert(sys.end(), ref.begin() + i, ref.begin() + i + len); if (z < n && (z < i || z >= i + len)) sys.push_back(ref[z]); } c.describe(ev::str(ref) + " / " + ev::str(sys));
    EvalStatsPtr t = M("ter")->CalculateStats(ref, sys); CHECK(t->GetVals()[0] == 1, "ter-shift", "one moved block costs " << t->GetVals()[0] << " edits");
}
MC_SPACE(corpora, 3) {
    vector<pair<Sentence, Sentence> > v; string d; int hi = c.thorough ? 3 : 2; for (int i = 0; i < 2; i++) { const Sentence & a = c.pick(ev::all(0, hi, 2)), & b = c.pick(ev::all(0, hi, 2)); v.push_back(make_pair(a, b)); d += ev::str(a) + " / " + ev::str(b) + "; "; } c.describe(d);
    const char * ms[] = {"wer", "wer:reverse=true", "ter", "ter:inverse=true"}; double rl = v[0].first.size() + v[1].first.size();
    for (int m = 0; m < 4; m++) {
        EvalStatsPtr a = M(ms[m])->CalculateStats(v[0].first, v[0].second), b = M(ms[m])->CalculateStats(v[1].first, v[1].second); double e = a->GetVals()[0] + b->GetVals()[0]; a->PlusEquals(*b); double s = rl ? e / rl : 0;
        CHECK(near(a->ConvertToScore(), m % 2 ? 1 - s : s), "corpus", ms[m] << " of the corpus is " << a->ConvertToScore());
    }
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { ev::init(16); }); }
