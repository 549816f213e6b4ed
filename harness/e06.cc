// E06: the evaluation and segmentation programs on every small corpus.
#include "ev.h"
#include "run.h"
#include <travatar/mt-evaluator-runner.h>
#include <travatar/config-mt-evaluator-runner.h>
#include <travatar/mt-segmenter-runner.h>
#include <travatar/config-mt-segmenter-runner.h>
using namespace travatar; using namespace std; using ev::near;
static string line(const Sentence & s) { return Dict::PrintWords(s); }
static string text(const vector<Sentence> & v) { string r; for (size_t i = 0; i < v.size(); i++) r += line(v[i]) + "\n"; return r; }
static string brief(const vector<Sentence> & v) { string r; for (size_t i = 0; i < v.size(); i++) r += ev::str(v[i]); return r; }
typedef boost::shared_ptr<EvalMeasure> MP;
static MP measure(const string & conf, const vector<Sentence> & refs) { MP m(EvalMeasureLoader::CreateMeasureFromString(conf)); vector<vector<Sentence> > r; for (size_t i = 0; i < refs.size(); i++) r.push_back(vector<Sentence>(1, refs[i])); m->InitializeWithReferences(r); return m; }
static vector<Sentence> corpus(mc::Ctx & c, int n, int lo, int hi, int k) { vector<Sentence> v; for (int i = 0; i < n; i++) v.push_back(c.pick(ev::all(lo, hi, k))); return v; }
static vector<string> evaluate(const vector<Sentence> & ref, const vector<vector<Sentence> > & sys, const string & evals, bool sent, int boot, vector<string> & names) {
    vector<string> a; a.push_back("-ref"); a.push_back(run::put("ref", text(ref))); a.push_back("-eval"); a.push_back(evals); if (sent) { a.push_back("-sent"); a.push_back("true"); } if (boot) { a.push_back("-bootstrap"); a.push_back(to_string(boot)); }
    for (size_t i = 0; i < sys.size(); i++) { names.push_back(run::put("sys" + to_string(i), text(sys[i]))); a.push_back(names.back()); }
    ConfigMTEvaluatorRunner conf; run::config(conf, a); run::Capture cap; MTEvaluatorRunner r; r.Run(conf); return run::lines(cap.out.str());
}
static const char * EV[] = {"bleu:order=2,smooth=1", "ribes", "nist:order=2", "wer", "ter", "zeroone", "interp:1|ribes|2|wer:reverse=true"};
// scores of one or two files
MC_SPACE(scores, 3) {
    int n = 1 + c.choose(2), files = 1 + c.choose(2); bool sent = c.flag(); int hi = c.thorough ? 2 : 1 + (n == 1); vector<Sentence> ref = corpus(c, n, 1, c.thorough ? 2 : 1, 2); vector<vector<Sentence> > sys; string d = brief(ref);
    for (int f = 0; f < files; f++) { sys.push_back(corpus(c, n, 0, hi, 2)); d += " / " + brief(sys[f]); } c.describe(d + (sent ? " -sent" : ""));
    string evals; vector<MP> ms; for (int i = 0; i < 7; i++) { evals += string(i ? " " : "") + EV[i]; ms.push_back(measure(EV[i], ref)); }
    vector<string> names, out = evaluate(ref, sys, evals, sent, 0, names), want; c.step();
    for (int f = 0; f < files; f++) {
        vector<EvalStatsPtr> tot(ms.size()); for (int i = 0; i < n; i++) for (size_t m = 0; m < ms.size(); m++) { EvalStatsPtr s = ms[m]->CalculateStats(ref[i], sys[f][i]); if (sent) want.push_back((files > 1 ? names[f] + " " : "") + "Sent " + to_string(i) + ": " + s->ConvertToString()); if (tot[m]) tot[m] = tot[m]->Plus(*s); else tot[m] = s; }
        string l = files > 1 ? names[f] + "\t" : ""; for (size_t m = 0; m < ms.size(); m++) l += string(m ? "\t" : "") + tot[m]->ConvertToString(); want.push_back(l);
    }
    for (size_t i = 0; i < max(want.size(), out.size()); i++) CHECK(i < out.size() && i < want.size() && out[i] == want[i], "scores", "line " << i << " is \"" << (i < out.size() ? out[i] : "(missing)") << "\" instead of \"" << (i < want.size() ? want[i] : "(none)") << "\"");
}
// wrong lengths are reported, other files still evaluated
MC_SPACE(lengths, 3) {
    int n = 1 + c.choose(3), files = 1 + c.choose(3); vector<Sentence> ref(n, ev::all(1, 2, 2)[3]); vector<vector<Sentence> > sys; vector<int> len; string d = to_string(n) + " references; systems of"; for (int f = 0; f < files; f++) { len.push_back(c.choose(5)); d += " " + to_string(len[f]); sys.push_back(vector<Sentence>(len[f], ev::all(1, 2, 2)[2 + f])); } int boot = c.choose(2) && n > 1 ? 2 : 0; c.describe(d + (boot ? " with bootstrap" : ""));
    bool longer = false; int firstlong = files; for (int f = 0; f < files; f++) if (len[f] > n && !longer) { longer = true; firstlong = f; }
    vector<string> names, out; bool thrown = false; try { out = evaluate(ref, sys, "bleu:order=1 ribes", false, boot, names); } catch (runtime_error & e) { thrown = true; } c.step();
    CHECK(thrown == longer, "too-long", (longer ? "a file longer than the reference is accepted" : "an error is raised"));
    if (!thrown) for (int f = 0; f < files; f++) { CHECK(f < (int)out.size(), "missing", "no line for file " << f); bool fail = out[f].find("FAILED") != string::npos; CHECK(fail == (len[f] != n), "mismatch", "file with " << len[f] << " lines for " << n << " references reports: " << out[f]); if (!fail) CHECK(out[f].find("BLEU = ") != string::npos && out[f].find("RIBES = ") != string::npos, "scores", out[f]); }
    if (!thrown && boot) {   // pairs of the files that were evaluated
        vector<string> good; for (int f = 0; f < files; f++) if (len[f] == n) good.push_back(names[f]); vector<string> want; for (size_t i = 0; i + 1 < good.size(); i++) { want.push_back(good[i]); for (size_t j = i + 1; j < good.size(); j++) { want.push_back(" " + good[j]); want.push_back("  bleu:order=1"); want.push_back("  ribes"); } }
        size_t k = files; CHECK(out.size() == k + 2 + want.size(), "boot-shape", out.size() << " lines"); for (size_t i = 0; i < want.size(); i++) CHECK(run::split(out[k + 2 + i], '\t')[0] == want[i], "boot-shape", "line \"" << out[k + 2 + i] << "\" instead of \"" << want[i] << "\"");
    }
}
// win, tie and loss rates are those of some choice of half-size subsets, the same for all pairs and measures
MC_SPACE(bootstrap, 3) {
    int n = 2 + c.choose(2), files = 2 + (n == 2 ? c.choose(2) : 0), B = 2 + c.choose(2); vector<Sentence> ref(1, ev::all(2, 2, 2)[0]); ref.push_back(ev::all(2, 2, 2)[1]); ref.push_back(ev::all(1, 1, 2)[0]); ref.resize(n); vector<vector<Sentence> > sys; string d = brief(ref); for (int f = 0; f < files; f++) { vector<Sentence> s; for (int i = 0; i < n; i++) s.push_back(ev::all(1, 2, 2)[c.choose(n == 2 ? 5 : 3)]); sys.push_back(s); d += " / " + brief(s); } c.describe(d + " sets=" + to_string(B));
    const char * evs[] = {"wer:reverse=true", "ribes", "zeroone"}; int ne = 3; vector<MP> ms; for (int i = 0; i < ne; i++) ms.push_back(measure(evs[i], ref));
    vector<string> names, out = evaluate(ref, sys, "wer:reverse=true ribes zeroone", false, B, names); c.step();
    size_t k = files; CHECK(out.size() > k + 1 && out[k] == "" && out[k+1] == "Bootstrap Resampling Significance:", "boot-shape", "no significance table"); k += 2;
    // each subset of n/2 sentences is one sentence here
    vector<vector<double> > got; vector<vector<vector<int> > > res; // row -> {win,tie,loss}; row -> sentence -> outcome
    for (int i = 0; i < files - 1; i++) { CHECK(k < out.size() && out[k] == names[i], "boot-shape", "first file name"); k++; for (int j = i + 1; j < files; j++) { CHECK(k < out.size() && out[k] == " " + names[j], "boot-shape", "second file name"); k++;
        for (int m = 0; m < ne; m++, k++) { CHECK(k < out.size(), "boot-shape", "table too short"); vector<string> col = run::split(out[k], '\t'); CHECK(col.size() == 2 && col[0] == string("  ") + evs[m], "boot-shape", "measure column " << out[k]); istringstream is(col[1]); vector<double> v(3); is >> v[0] >> v[1] >> v[2]; got.push_back(v);
            vector<vector<int> > o; for (int s = 0; s < n; s++) { double a = ms[m]->CalculateStats(ref[s], sys[i][s])->ConvertToScore(), b = ms[m]->CalculateStats(ref[s], sys[j][s])->ConvertToScore(); o.push_back(vector<int>(1, a > b ? 0 : a < b ? 2 : 1)); } res.push_back(o); } } }
    CHECK(k == out.size(), "boot-shape", "table too long");
    bool feasible = false; for (int a = 0; a <= B && !feasible; a++) for (int b = 0; a + b <= B && !feasible; b++) { if (n == 2 && a + b != B) continue; int cnt[3] = {a, b, B - a - b}; bool good = true;
        for (size_t r = 0; r < got.size() && good; r++) { double w[3] = {0, 0, 0}; for (int s = 0; s < n; s++) w[res[r][s][0]] += cnt[s] / (double)B; for (int x = 0; x < 3; x++) if (fabs(w[x] - got[r][x]) > 1e-5) good = false; } feasible = good; }
    ostringstream dump; for (size_t r = 0; r < got.size(); r++) dump << got[r][0] << " " << got[r][1] << " " << got[r][2] << "; "; CHECK(feasible, "boot-counts", "no choice of subsets gives the reported rates: " << dump.str());
}
// ---- segmentation
static double best(const vector<Sentence> & ref, const Sentence & corpus, EvalMeasure & m, double slack, size_t r, size_t at, EvalStatsPtr acc, int & count) {
    if (r == ref.size()) { if (at != corpus.size()) return -1e9; count++; return acc->ConvertToScore(); }
    double b = -1e9; for (size_t e = at; e <= corpus.size() && e - at <= (size_t)(int)(slack * ref[r].size()); e++) { Sentence s(corpus.begin() + at, corpus.begin() + e); EvalStatsPtr st = m.CalculateStats(ref[r], s); b = max(b, best(ref, corpus, m, slack, r + 1, e, acc ? acc->Plus(*st) : st, count)); } return b;
}
static void segment(mc::Ctx & c, int refs, int lo, int hi, int slen, int k) {
    vector<Sentence> ref = corpus(c, refs, lo, hi, k); Sentence all = c.pick(ev::all(0, slen, k)); const double SL[] = {1, 1.5, 2, 0.5, 3}; double slack = SL[c.choose(c.thorough ? 5 : 3)]; int cut = c.choose(3); const char * MM[] = {"ribes", "wer:reverse=true", "zeroone", "bleu:order=2,smooth=1,scope=sentence"}; int mi = c.choose(4); string mn = MM[mi];
    ostringstream d; d << brief(ref) << " <- " << ev::str(all) << " slack " << slack << " " << mn << " lines " << cut; c.describe(d.str());
    MP m = measure(mn, ref); int count = 0; double want = best(ref, all, *m, slack, 0, 0, EvalStatsPtr(), count);
    vector<Sentence> input; if (cut == 0) input.push_back(all); else { Sentence x; for (size_t i = 0; i < all.size(); i++) { x.push_back(all[i]); if ((int)x.size() == cut) { input.push_back(x); x.clear(); } } if (x.size()) input.push_back(x); }
    vector<string> a; a.push_back("-ref"); a.push_back(run::put("ref", text(ref))); a.push_back("-eval"); a.push_back(mn); ostringstream sl; sl << slack; a.push_back("-slack"); a.push_back(sl.str()); a.push_back(run::put("sys", text(input)));
    vector<string> out; bool thrown = false; { ConfigMTSegmenterRunner conf; run::config(conf, a); run::Capture cap; MTSegmenterRunner r; try { r.Run(conf); } catch (runtime_error & e) { thrown = true; } out = run::lines(cap.out.str()); } c.step();
    if (count == 0) { CHECK(thrown, "impossible", "no segmentation exists but one is printed"); return; }
    CHECK(!thrown, "failed", "a segmentation exists but none is found"); CHECK(out.size() == ref.size(), "pieces", out.size() << " pieces for " << ref.size() << " references");
    Sentence cat; EvalStatsPtr acc; for (size_t i = 0; i < out.size(); i++) { Sentence s = Dict::ParseWords(out[i]); cat.insert(cat.end(), s.begin(), s.end()); CHECK((int)s.size() <= (int)(slack * ref[i].size()), "length", "piece " << i << " has " << s.size() << " words"); EvalStatsPtr st = m->CalculateStats(ref[i], s); acc = acc ? acc->Plus(*st) : st; }
    CHECK(cat == all, "concatenation", "pieces concatenate to " << ev::str(cat)); CHECK(near(acc->ConvertToScore(), want), "best", "score " << acc->ConvertToScore() << ", but " << want << " is possible");
}
MC_SPACE(segment1, 3) { segment(c, 1, 1, 2, 3, 2); }
MC_SPACE(segment2, 3) { segment(c, 2, 1, 2, c.thorough ? 6 : 4, 2); }
MC_SPACE(segment3, 3) { segment(c, 3, 1, c.thorough ? 2 : 1, c.thorough ? 5 : 4, 2); }
MC_SPACE(segment3w, 2) { segment(c, 3, 1, 2, 6, 2); }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { ev::init(); run::dir(); }); }
