// M06: n-best rescoring against sorting by the criterion computed directly
#define RUN_CATCH_EXIT
#include "run.h"
#include "ev.h"
#include <travatar/rescorer-runner.h>
#include <travatar/config-rescorer-runner.h>
using namespace std; using namespace travatar;
struct El { int words, feat; double score; };
static const char * TXT[] = {"w0 w1 w2", "w0 w1", "w3", "w0 w2 w1 w3", ""}; static const char * FT[] = {"fa=1", "fb=1 fa=-1", "fb=2", ""}; static const double FV[][2] = {{1, 0}, {-1, 1}, {0, 2}, {0, 0}};
static Sentence words(int i) { return Dict::ParseWords(TXT[i]); }
struct Set { bool weights, mbr; double w[2], scale; int cnt; string eval; };
static string num(double d) { ostringstream o; o << d; return o.str(); }
// one sentence: lines printed must be the retained entries in the order of the criterion
static void sentence(mc::Ctx & c, const vector<El> & in, const Set & s, int id, const vector<string> & nb, const string & top) {
    vector<double> sc; for (size_t i = 0; i < in.size(); i++) sc.push_back(s.weights ? s.w[0] * FV[in[i].feat][0] + s.w[1] * FV[in[i].feat][1] : in[i].score);
    // which entries are left, and their posteriors; with ties at the cut any of them may stay
    size_t keep = s.mbr && s.cnt && (int)in.size() > s.cnt ? s.cnt : in.size(); CHECK(nb.size() == keep, "count", "sentence " << id << " has " << nb.size() << " lines instead of " << keep);
    vector<vector<string> > col; for (size_t i = 0; i < nb.size(); i++) { vector<string> f; string r = nb[i]; size_t p; while ((p = r.find(" ||| ")) != string::npos) { f.push_back(r.substr(0, p)); r = r.substr(p + 5); } f.push_back(r); CHECK(f.size() == 4, "format", "line '" << nb[i] << "'"); col.push_back(f); CHECK(f[0] == to_string(id), "id", "the line of sentence " << id << " is numbered " << f[0]); }
    vector<int> perm(in.size()); for (size_t i = 0; i < perm.size(); i++) perm[i] = i; double cut = -1e300; if (keep < in.size()) { vector<double> q = sc; sort(q.rbegin(), q.rend()); cut = q[keep - 1]; }
    boost::shared_ptr<EvalMeasure> m; if (s.mbr) m.reset(EvalMeasureLoader::CreateMeasureFromString(s.eval)); string why; bool ok = false;
    for (int mask = 0; mask < (1 << in.size()) && !ok; mask++) { if (__builtin_popcount(mask) != (int)keep) continue; bool valid = true; for (size_t i = 0; i < in.size(); i++) if ((sc[i] > cut && !(mask >> i & 1)) || (sc[i] < cut && (mask >> i & 1))) valid = false; if (!valid) continue; c.step();
        vector<int> who; for (size_t i = 0; i < in.size(); i++) if (mask >> i & 1) who.push_back(i); vector<double> crit; if (!s.mbr) for (size_t i = 0; i < who.size(); i++) crit.push_back(sc[who[i]]);
        else { double mx = -1e300, z = 0; for (size_t i = 0; i < who.size(); i++) mx = max(mx, s.scale * sc[who[i]]); vector<double> p; for (size_t i = 0; i < who.size(); i++) { p.push_back(exp(s.scale * sc[who[i]] - mx)); z += p[i]; } for (size_t i = 0; i < who.size(); i++) { double e = 0; for (size_t j = 0; j < who.size(); j++) e += p[j] / z * m->CalculateStats(words(in[who[j]].words), words(in[who[i]].words))->ConvertToScore(); crit.push_back(e); } }
        // match printed lines one to one
        vector<bool> used(who.size()); bool all = true; double prev = 1e300; for (size_t k = 0; k < col.size() && all; k++) { bool hit = false; for (size_t i = 0; i < who.size() && !hit; i++) { const El & e = in[who[i]]; if (used[i] || col[k][1] != TXT[e.words]) continue; map<string, double> a, b; istringstream x(col[k][3]); string t; while (x >> t) { size_t q = t.find('='); a[t.substr(0, q)] = atof(t.c_str() + q + 1); } istringstream y(FT[e.feat]); while (y >> t) { size_t q = t.find('='); b[t.substr(0, q)] = atof(t.c_str() + q + 1); } if (a != b || !ev::near(atof(col[k][2].c_str()), crit[i], 2e-5)) continue; if (crit[i] > prev + 1e-9) continue; used[i] = true; hit = true; prev = crit[i]; }
            if (!hit) { all = false; ostringstream o; o << "line '" << nb[k] << "' is not the next entry; the criterion gives"; for (size_t i = 0; i < who.size(); i++) o << " " << crit[i]; why = o.str(); } }
        ok = all; }
    CHECK(ok, "order", "sentence " << id << ": " << why); if (!col.empty()) CHECK(top == col[0][1], "best", "the output line of sentence " << id << " is '" << top << "' but the best is '" << col[0][1] << "'");
}
static void rescore(mc::Ctx & c, const vector<pair<int, vector<El> > > & x, const Set & s) {
    string text; for (size_t i = 0; i < x.size(); i++) for (size_t k = 0; k < x[i].second.size(); k++) { const El & e = x[i].second[k]; text += to_string(x[i].first) + " ||| " + TXT[e.words] + " ||| " + num(e.score) + " ||| " + FT[e.feat] + "\n"; }
    c.describe([&]() { return text + (s.weights ? "weights " + num(s.w[0]) + "," + num(s.w[1]) + " " : "") + (s.mbr ? "mbr " + s.eval + " scale " + num(s.scale) + " top " + to_string(s.cnt) : ""); }); c.state(text);
    string in = run::put("in", text), out = run::dir() + "out"; vector<string> a; a.push_back("-nbest"); a.push_back(in); a.push_back("-nbest_out"); a.push_back(out); if (s.weights) { a.push_back("-weight_in"); a.push_back(run::put("w", "fa=" + num(s.w[0]) + "\nfb=" + num(s.w[1]) + "\n")); } if (s.mbr) { a.push_back("-mbr_eval"); a.push_back(s.eval); a.push_back("-mbr_scale"); a.push_back(num(s.scale)); a.push_back("-mbr_hyp_cnt"); a.push_back(to_string(s.cnt)); }
    ConfigRescorer conf; run::config(conf, a); string so; int code; { run::Capture cap; { RescorerRunner r; code = run::guarded([&]() { r.Run(conf); }); } so = cap.out.str(); } CHECK(code == 0, "runs", "the program ends with " << code);
    vector<string> top = run::lines(so), nb = run::lines(run::get("out")); CHECK(top.size() == x.size(), "lines", top.size() << " output lines for " << x.size() << " sentences"); size_t at = 0;
    for (size_t i = 0; i < x.size(); i++) { vector<string> mine; string pre = to_string(x[i].first) + " |||"; size_t end = at; while (end < nb.size() && nb[end].compare(0, pre.size(), pre) == 0) mine.push_back(nb[end++]); if (mine.empty() && end < nb.size()) c.fail("id", "line '" + nb[end] + "' where sentence " + to_string(x[i].first) + " is due"); sentence(c, x[i].second, s, x[i].first, mine, top[i]); at = end; } CHECK(at == nb.size(), "extra", "extra line '" << nb[at] << "'");
}
static const double SC[] = {0, -1, 1.5};
static El el(mc::Ctx & c, int nw, int nf, int ns) { El e; e.words = c.choose(nw); e.feat = c.choose(nf); e.score = SC[c.choose(ns)]; return e; }
static const double W[][2] = {{1, 0.5}, {-1, 2}, {0, 0}};
MC_SPACE(weights, 3) { int n = 1 + c.choose(c.thorough ? 4 : 3), k = c.choose(4); Set s = Set(); s.weights = k < 3; if (k < 3) { s.w[0] = W[k][0]; s.w[1] = W[k][1]; } vector<pair<int, vector<El> > > x(1); for (int i = 0; i < n; i++) x[0].second.push_back(el(c, n > 2 ? 2 : 3, k < 3 ? (n > 2 ? 3 : 4) : 2, k < 3 ? 1 : 3)); rescore(c, x, s); }
static const char * EV[] = {"bleu:smooth=1", "wer:reverse=true", "ribes", "bleu:order=1,scope=sentence", "zeroone"};
MC_SPACE(mbr, 3) { int n = 1 + c.choose(c.thorough ? 4 : 3), k = c.choose(5), sc = c.choose(3), cnt = c.choose(n > 2 ? 3 : 2), w = c.choose(2); static const double S[] = {1, 0.5, 3}; Set s = Set(); s.mbr = true; s.eval = EV[k]; s.scale = S[sc]; s.cnt = cnt; s.weights = w; s.w[0] = 1; s.w[1] = 0.5; vector<pair<int, vector<El> > > x(1); for (int i = 0; i < n; i++) x[0].second.push_back(el(c, n > 3 ? 3 : 4, w ? 2 : 1, w ? 1 : n > 2 ? 2 : 3)); rescore(c, x, s); }
MC_SPACE(sentences, 3) { static const int ID[][3] = {{0, 1, 2}, {0, 2, 3}, {1, 2, 4}, {5, 3, 4}}; int ns = 2 + c.choose(2), ids = c.choose(4), k = c.choose(2); Set s = Set(); s.mbr = k; s.eval = EV[0]; s.scale = 1; vector<pair<int, vector<El> > > x; for (int i = 0; i < ns; i++) { vector<El> v; int n = 1 + c.choose(2); for (int j = 0; j < n; j++) v.push_back(el(c, ns > 2 ? 2 : 4, 1, ns > 2 && !c.thorough ? 1 : 2)); x.push_back(make_pair(ID[ids][i], v)); } rescore(c, x, s); }
// lines that are not n-best lines are refused
MC_SPACE(malformed, 3) { static const char * B[] = {"0 ||| a ||| 1", "0 ||| a ||| x ||| fa=1", "x ||| a ||| 1 ||| fa=1", "0 ||| a ||| 1 ||| fa=1 ||| b", "a", "0 ||| a ||| 1 ||| fa"}; int b = c.choose(6), at = c.choose(3); string t; for (int i = 0; i < 3; i++) t += i == at ? string(B[b]) + "\n" : "0 ||| a ||| 1 ||| fa=1\n"; c.describe(t); c.state(t); vector<string> a; a.push_back("-nbest"); a.push_back(run::put("in", t)); ConfigRescorer conf; run::config(conf, a); int code; bool threw = false; { run::Capture cap; RescorerRunner r; code = run::guarded([&]() { try { r.Run(conf); } catch (exception &) { threw = true; } }); } CHECK(code || threw, "refused", "the line '" << B[b] << "' is accepted"); }
static void init() { ev::init(); }
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
