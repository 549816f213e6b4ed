// P02: casing
#include "pforest.h"
#include "run.h"
#include <travatar/caser.h>
#include <travatar/train-caser-runner.h>
#include <travatar/config-train-caser-runner.h>
#include <travatar/tree-io.h>
#include <travatar/tree-converter-runner.h>
#include <travatar/config-tree-converter-runner.h>
#include <boost/scoped_ptr.hpp>
using namespace std; using namespace travatar;
static Caser & cs() { static Caser * c = new Caser; return *c; }
typedef vector<string> V;
static string low(string s) { string r; for (size_t i = 0; i < s.size(); i++) { if (i + 1 < s.size() && s[i] == '\xc3' && s[i + 1] == '\x89') { r += "\xc3\xa9"; i++; } else r += s[i] >= 'A' && s[i] <= 'Z' ? char(s[i] + 32) : s[i]; } return r; }
static string title(string s) { s = low(s); if (s.compare(0, 2, "\xc3\xa9") == 0) return "\xc3\x89" + s.substr(2); if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') s[0] -= 32; return s; }
static const V END = {".", ":", "!", "?"}, LATE = {"(", "[", "\"", "'", "`", "``"};
static bool in(const V & v, const string & s) { return find(v.begin(), v.end(), s) != v.end(); }
// a sentence starts at the beginning and after an end mark; quotes and brackets do not use the start up
static vector<bool> starts(const V & w) { vector<bool> r(w.size()); for (size_t i = 0; i < w.size(); i++) { if (i == 0) { r[i] = true; continue; } if (in(END, w[i]) || in(LATE, w[i])) continue; size_t j = i; while (j > 0 && in(LATE, w[j - 1])) j--; r[i] = j == 0 || in(END, w[j - 1]); } return r; }
static string join(const V & v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + v[i]; return s; }
static Sentence sent(const V & w) { Sentence s; for (const string & x : w) s.push_back(Dict::WID(x)); return s; }
static V strs(const Sentence & s) { V v; for (WordId w : s) v.push_back(Dict::WSym(w)); return v; }
static const V WORDS = {"he", "HE", "iPad", "\xc3\x89t\xc3\xa9", ".", "?", "\"", "``", "(", ":", "5a", "'"};
MC_SPACE(sentences, 3) {
    int n = c.range(0, c.thorough ? 6 : 5), voc = n > 4 ? 9 : 12; V w; for (int i = 0; i < n; i++) w.push_back(WORDS[c.choose(voc)]); c.describe(join(w)); c.state(join(w)); vector<bool> f = starts(w); CHECK(cs().SentenceFirst(sent(w)) == f, "starts", "other words are taken for sentence starts"); V lo = w, ti = w; for (int i = 0; i < n; i++) { lo[i] = low(w[i]); if (f[i]) ti[i] = title(w[i]); } Sentence s = sent(w); cs().ToLower(s); CHECK(strs(s) == lo, "lower", "lower-cased to " << join(strs(s))); cs().ToLower(s); CHECK(strs(s) == lo, "lower", "lower-casing twice gives " << join(strs(s))); s = sent(w); cs().ToTitle(s); CHECK(strs(s) == ti, "title", "title-cased to " << join(strs(s)) << " instead of " << join(ti)); c.step(3);
}
// trees: words and terminals change alike, nothing else changes
MC_SPACE(trees, 3) {
    pf::Opt o; o.words = c.range(1, 3); o.labels = o.words > 2 ? 1 : 2; o.vocab = 1; o.maxalt = o.words > 2 ? 1 : 2; HyperGraph g; pf::Maker mk(c, g, o); V w; for (int i = 0; i < o.words; i++) { w.push_back(WORDS[c.choose(o.words > 2 ? 9 : 12)]); g.GetWords()[i] = Dict::WID(w[i]); } for (HyperNode * n : g.GetNodes()) { if (n->IsTerminal()) n->SetSym(g.GetWord(n->GetSpan().first)); else n->SetSym(Dict::WID("He")); } int type = c.choose(4); for (int i = 0; i < g.NumEdges(); i++) g.GetEdge(i)->SetScore(-1 - i);
    static Caser * made[4]; Caser *& k = made[type]; V want = w; vector<bool> f = starts(w); if (type == 0) { if (!k) k = Caser::CreateCaserFromString("low"); for (string & x : want) x = low(x); } else if (type == 1) { if (!k) k = Caser::CreateCaserFromString("title"); for (size_t i = 0; i < w.size(); i++) if (f[i]) want[i] = title(w[i]); } else if (type == 2) { if (!k) { string m = run::put("model", "iPad 3\nHe\nhE\n.\n"); k = Caser::CreateCaserFromString("true:model=" + m); } for (size_t i = 0; i < w.size(); i++) if (f[i]) { if (low(w[i]) == "he") want[i] = "hE"; if (low(w[i]) == "ipad") want[i] = "iPad"; } } else if (!k) k = new Caser;
    string before = hg::str(g); c.describe(before + " " + to_string(type)); c.state(before + to_string(type)); boost::scoped_ptr<HyperGraph> r(k->TransformGraph(g)); c.step(); CHECK(hg::str(g) == before && strs(g.GetWords()) == w, "input", "the input graph is changed to " << hg::str(g)); CHECK(strs(r->GetWords()) == want, "words", "words become " << join(strs(r->GetWords())) << " instead of " << join(want)); for (HyperNode * n : g.GetNodes()) if (n->IsTerminal()) n->SetSym(Dict::WID(want[n->GetSpan().first])); CHECK(hg::str(*r) == hg::str(g), "graph", "graph becomes " << hg::str(*r) << " instead of " << hg::str(g));
}
// training on small corpora, and applying the model that comes out
MC_SPACE(training, 3) {
    static const V T = {"he", "He", "HE", ".", "x", "X", "\""}; int lines = c.range(1, 2); string text; map<string, map<string, int> > cnt; for (int l = 0; l < lines; l++) { int n = c.range(0, lines == 1 ? (c.thorough ? 6 : 5) : c.thorough ? 3 : 2); V w; for (int i = 0; i < n; i++) w.push_back(T[c.choose(lines == 1 ? (n > 4 ? 5 : 6) : 7)]); vector<bool> f = starts(w); for (int i = 0; i < n; i++) if (!f[i]) cnt[low(w[i])][w[i]]++; text += join(w) + "\n"; }
    c.describe(text); c.state(text); string out; { run::Capture cap(text); ConfigTrainCaserRunner conf; run::config(conf, V()); TrainCaserRunner r; r.Run(conf); out = cap.out.str(); } c.step(); V got; istringstream in(out); string line; while (getline(in, line)) got.push_back(line); map<string, string> form; for (const string & x : got) { CHECK(!form.count(low(x)), "twice", "two forms of " << low(x) << " are printed: " << out); form[low(x)] = x; CHECK(cnt.count(low(x)), "invented", x << " was not seen in the middle of a sentence"); int best = 0; for (auto & y : cnt[low(x)]) best = max(best, y.second); CHECK(cnt[low(x)].count(x) && cnt[low(x)][x] == best, "frequent", x << " is not the most frequent form"); } CHECK(form.size() == cnt.size(), "lost", "forms are missing from " << out);
    static Caser k; k.LoadTrueCaseModel(run::put("model", out)); V probe = {"he", "HE", "x", "X", "y", "Y"}; for (const string & x : probe) { string want = form.count(low(x)) ? form[low(x)] : x; CHECK(k.TrueCase(x) == want, "model", x << " is true-cased to " << k.TrueCase(x) << " instead of " << want); } Sentence s = sent(V{"HE", "HE", ".", "HE"}); string e = form.count("he") ? form["he"] : "HE"; k.TrueCase(s); CHECK(strs(s) == (V{e, "HE", ".", e}), "sentence", "true-cased to " << join(strs(s)));
}
// single words: only the case changes
MC_SPACE(single_words, 3) { static const V A = {"a", "B", "1", "-", "\xc3\xa9", "\xc3\x89", "'", "\xe3\x81\x82"}; int n = c.range(1, c.thorough ? 6 : 5); string s; for (int i = 0; i < n; i++) s += A[c.choose(8)]; c.describe(s); c.state(s); string l = cs().ToLower(s), t = cs().ToTitle(s); c.step(2); CHECK(l == low(s), "lower", "lower-cased to " << l); CHECK(low(t) == low(s), "title", "title-cased to " << t); CHECK(cs().ToTitle(t) == t, "title", "title-casing twice gives " << cs().ToTitle(t)); CHECK(cs().TrueCase(s) == s, "untrained", "true-cased to " << cs().TrueCase(s) << " without a model"); CHECK(Dict::WSym(cs().ToLower(Dict::WID(s))) == l && Dict::WSym(cs().ToTitle(Dict::WID(s))) == t, "ids", "words and strings are cased differently"); if (s.find_first_not_of("aB") == string::npos) CHECK(t == title(s), "title", "title-cased to " << t); }
MC_SPACE(options, 3) { static const char * S[] = {"none", "low", "title", "true:model=/nonexistent/x", "", "lower", "true", "Low", "true:model="}; int k = c.choose(9); c.describe(S[k]); bool threw = false; Caser * r = 0; try { r = Caser::CreateCaserFromString(S[k]); } catch (std::exception &) { threw = true; } c.step(); CHECK(threw == (k > 2), "options", (threw ? "rejected" : "accepted")); CHECK((r == 0) == (k == 0 || threw), "options", "no caser"); delete r; }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; GlobalVars::trg_factors = 1; Dict::WID("zero"); }); }
