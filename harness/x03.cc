// X03: phrase pairs and hierarchical rules against the definition
#include "mc.h"
#include "run.h"
#include <travatar/hiero-extractor.h>
#include <travatar/hiero-extractor-runner.h>
#include <travatar/config-hiero-extractor-runner.h>
#include <travatar/alignment.h>
#include <travatar/global-debug.h>
#include <algorithm>
#include <cstring>
using namespace std; using namespace travatar;
typedef vector<pair<int, int> > Links; struct Ph { int a, b, c, d; };
struct Spec {
    int n, m, mi, mt; Links L; Spec(int n_, int m_, int i, int t) : n(n_), m(m_), mi(i), mt(t) { }
    bool ok(const Ph & p) const { int in = 0; for (size_t i = 0; i < L.size(); i++) { bool s = L[i].first >= p.a && L[i].first <= p.b, t = L[i].second >= p.c && L[i].second <= p.d; if (s != t) return false; in += s; } return in && p.b - p.a < mi && p.d - p.c < mi; }
    vector<Ph> phrases() const { vector<Ph> r; for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int c = 0; c < m; c++) for (int d = c; d < m; d++) { Ph p = {a, b, c, d}; if (ok(p)) r.push_back(p); } return r; }
    // of the pairs with one source span, the one without unaligned target words at its edges
    vector<Ph> tight() const { vector<Ph> all = phrases(), r; for (size_t i = 0; i < all.size(); i++) { bool best = true; for (size_t j = 0; j < all.size(); j++) if (all[j].a == all[i].a && all[j].b == all[i].b && all[j].d - all[j].c < all[i].d - all[i].c) best = false; if (best) r.push_back(all[i]); } return r; }
    static bool in(const Ph & x, const Ph & y) { return x.a >= y.a && x.b <= y.b && x.c >= y.c && x.d <= y.d; }
    string rule(const Ph & p, const vector<Ph> & v) const {   // "" if not allowed
        string s, t; vector<int> sw, tw; int vs = 0; bool adj = false, last = false;
        for (int i = p.a; i <= p.b; i++) { int k = -1; for (size_t q = 0; q < v.size(); q++) if (i >= v[q].a && i <= v[q].b) k = q; if (k < 0) { s += (s.empty() ? "" : " ") + ("\"s" + to_string(i) + "\""); sw.push_back(i); last = false; } else if (i == v[k].a) { s += (s.empty() ? "" : " ") + ("x" + to_string(k) + ":X"); if (last) adj = true; last = true; vs++; } }
        for (int i = p.c; i <= p.d; i++) { int k = -1; for (size_t q = 0; q < v.size(); q++) if (i >= v[q].c && i <= v[q].d) k = q; if (k < 0) { t += (t.empty() ? "" : " ") + ("\"t" + to_string(i) + "\""); tw.push_back(i); } else if (i == v[k].c) t += (t.empty() ? "" : " ") + ("x" + to_string(k) + ":X"); }
        if (sw.empty() || tw.empty() || (int)sw.size() > mt || (int)tw.size() > mt || adj) return "";
        set<pair<int, int> > al; for (size_t i = 0; i < L.size(); i++) { vector<int>::iterator x = find(sw.begin(), sw.end(), L[i].first), y = find(tw.begin(), tw.end(), L[i].second); if (x != sw.end() && y != tw.end()) al.insert(make_pair(x - sw.begin(), y - tw.begin())); }
        string a; for (set<pair<int, int> >::iterator i = al.begin(); i != al.end(); ++i) a += (a.empty() ? "" : " ") + to_string(i->first) + "-" + to_string(i->second); return s + " @ X ||| " + t + " @ X ||| # ||| " + a;
    }
    vector<string> rules() const {
        vector<Ph> ph = tight(); vector<string> out;
        for (size_t i = 0; i < ph.size(); i++) { vector<string> g; vector<Ph> v; g.push_back(rule(ph[i], v)); for (size_t j = 0; j < ph.size(); j++) if (j != i && in(ph[j], ph[i])) { v.assign(1, ph[j]); g.push_back(rule(ph[i], v)); for (size_t k = 0; k < ph.size(); k++) if (k != i && in(ph[k], ph[i]) && ph[j].b < ph[k].a && (ph[k].c > ph[j].d || ph[j].c > ph[k].d)) { v.assign(1, ph[j]); v.push_back(ph[k]); g.push_back(rule(ph[i], v)); } }
            vector<string> h; for (size_t k = 0; k < g.size(); k++) if (!g[k].empty()) h.push_back(g[k]); ostringstream sc; sc << 1.0 / h.size(); for (size_t k = 0; k < h.size(); k++) { size_t q = h[k].find('#'); out.push_back(h[k].substr(0, q) + sc.str() + h[k].substr(q + 1)); } }
        sort(out.begin(), out.end()); return out;
    }
};
static string pal(const Links & l) { string s; for (size_t i = 0; i < l.size(); i++) s += (i ? " " : "") + to_string(l[i].first) + "-" + to_string(l[i].second); return s; }
static string diff(const vector<string> & want, const vector<string> & got) { vector<string> a, b; set_difference(want.begin(), want.end(), got.begin(), got.end(), back_inserter(a)); set_difference(got.begin(), got.end(), want.begin(), want.end(), back_inserter(b)); string r; for (size_t i = 0; i < a.size() && i < 3; i++) r += "\n   missing " + a[i]; for (size_t i = 0; i < b.size() && i < 3; i++) r += "\n   surplus " + b[i]; return r; }
static void words(int n, const char * p, Sentence & s, string & t) { for (int i = 0; i < n; i++) { string w = p + to_string(i); s.push_back(Dict::WID(w)); t += (i ? " " : "") + w; } }
static void check(mc::Ctx & c, const Spec & sp) {
    c.describe([&]() { return to_string(sp.n) + " to " + to_string(sp.m) + " words, " + pal(sp.L) + ", phrases up to " + to_string(sp.mi) + ", words up to " + to_string(sp.mt); });
    static Sentence S, T; static string st, tt; if (S.empty()) { words(8, "s", S, st); words(8, "t", T, tt); } Sentence src(S.begin(), S.begin() + sp.n), trg(T.begin(), T.begin() + sp.m);
    Alignment al; for (size_t i = 0; i < sp.L.size(); i++) al.AddAlignment(sp.L[i]); HieroExtractor x; x.SetMaxInitialPhrase(sp.mi); x.SetMaxTerminals(sp.mt);
    HieroExtractor::PhrasePairs pp = x.ExtractPhrase(al, src, trg); vector<string> want, got; vector<Ph> ph = sp.phrases(); for (size_t i = 0; i < ph.size(); i++) want.push_back(to_string(ph[i].a) + "-" + to_string(ph[i].b) + "/" + to_string(ph[i].c) + "-" + to_string(ph[i].d)); for (size_t i = 0; i < pp.size(); i++) got.push_back(to_string(pp[i].first.first) + "-" + to_string(pp[i].first.second) + "/" + to_string(pp[i].second.first) + "-" + to_string(pp[i].second.second)); sort(want.begin(), want.end()); sort(got.begin(), got.end()); c.step(got.size()); CHECK(want == got, "phrases", "phrase pairs:" << diff(want, got));
    vector<vector<HieroRule *> > r = x.ExtractHieroRule(al, src, trg); got.clear(); for (size_t i = 0; i < r.size(); i++) for (size_t k = 0; k < r[i].size(); k++) { ostringstream o; o << r[i][k]->ToString() << " ||| " << 1.0 / r[i].size() << " ||| "; vector<pair<int, int> > a = r[i][k]->GetAlignments(); sort(a.begin(), a.end()); o << pal(a); got.push_back(o.str()); delete r[i][k]; } sort(got.begin(), got.end()); want = sp.rules(); c.step(got.size()); CHECK(want == got, "rules", diff(want, got)); c.state(pal(sp.L));
}
MC_SPACE(dense, 3) { int n = 1 + c.choose(4), m = c.choose(5); if (!c.thorough) c.require(n * m <= 12); else c.require(n * m <= 16); int bits = c.choose(1 << (n * m)); int mx = max(n, m); bool big = n * m > 9; int mi = c.choose(mx + 1) + 1, mt = c.choose(3) + 1; if (big && !c.thorough) c.require(mi >= mx && mt > 1); if (n * m > 12) c.require(mi >= 3 && mt > 1); Spec sp(n, m, mi, mt); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (bits >> (i * m + j) & 1) sp.L.push_back(make_pair(i, j)); check(c, sp); }
// longer sentences, every word linked to at most one (from either side)
MC_SPACE(sparse, 3) { int n = 5 + c.choose(c.thorough ? 2 : 1), m = 3 + c.choose(c.thorough ? 3 : 3); if (!c.thorough) c.require(m <= 5); bool rev = c.flag(); Spec sp(rev ? m : n, rev ? n : m, 0, 0); for (int i = 0; i < n; i++) { int t = c.choose(m + 1); if (t) sp.L.push_back(rev ? make_pair(t - 1, i) : make_pair(i, t - 1)); } sort(sp.L.begin(), sp.L.end()); static const int MI[] = {10, 3}, MT[] = {5, 2}; int k = c.choose(2); sp.mi = MI[k]; sp.mt = MT[k]; check(c, sp); }
// links outside the sentences are an error
MC_SPACE(outside, 3) { int n = 1 + c.choose(3), m = c.choose(4); Spec sp(n, m, 10, 5); int k = 1 + c.choose(2); bool bad = false; for (int i = 0; i < k; i++) { int a = c.choose(n + 2), b = c.choose(m + 2); sp.L.push_back(make_pair(a, b)); bad = bad || a >= n || b >= m; } c.require(bad); c.describe(to_string(n) + " to " + to_string(m) + " words, " + pal(sp.L)); Sentence s, t; string x, y; words(n, "s", s, x); words(m, "t", t, y); Alignment al; for (int i = 0; i < k; i++) al.AddAlignment(sp.L[i]); bool thrown = false; try { HieroExtractor().ExtractHieroRule(al, s, t); } catch (runtime_error & e) { thrown = true; } c.step(); CHECK(thrown, "outside", "accepted"); }
MC_SPACE(program, 3) {
    int k = 1 + c.choose(3); string fs, ft, fa; vector<string> want; static const char * AL[] = {"0-0", "0-0 1-1", "0-1 1-0 2-2", "", "1-1", "2-0 0-0"}; int mi = 1 + c.choose(4), mt = 1 + c.choose(3); string d; for (int i = 0; i < k; i++) { int a = c.choose(6), n = 3 + c.choose(2), m = i == 2 ? 3 : 2 + c.choose(2); if (a == 2) m = max(m, 3); Spec sp(n, m, mi, mt); Alignment x = Alignment::FromString(AL[a]); sp.L.assign(x.GetAlignmentVector().begin(), x.GetAlignmentVector().end()); Sentence s; string l; words(n, "s", s, l); fs += l + "\n"; l = ""; words(m, "t", s, l); ft += l + "\n"; fa += string(AL[a]) + "\n"; vector<string> w = sp.rules(); want.insert(want.end(), w.begin(), w.end()); d += to_string(n) + "/" + to_string(m) + "/" + AL[a] + "; "; }
    bool shortf = c.flag(); if (shortf) { c.require(k == 2); fa = fa.substr(0, fa.find('\n') + 1); } c.describe(d + to_string(mi) + " " + to_string(mt)); vector<string> av; av.push_back("-max_initial_phrase"); av.push_back(to_string(mi)); av.push_back("-max_terminals"); av.push_back(to_string(mt)); av.push_back(run::put("x.s", fs)); av.push_back(run::put("x.t", ft)); av.push_back(run::put("x.a", fa)); ConfigHieroExtractorRunner cf; run::config(cf, av); vector<string> got; bool thrown = false; { run::Capture cap; try { HieroExtractorRunner().Run(cf); } catch (runtime_error & e) { thrown = true; } got = run::lines(cap.out.str()); } c.step(got.size()); if (shortf) { CHECK(thrown, "short", "files of different lengths accepted"); return; } sort(got.begin(), got.end()); sort(want.begin(), want.end()); CHECK(!thrown && got == want, "program", diff(want, got));
}
int main(int argc, char ** argv) { GlobalVars::debug = 0; return mc::main(argc, argv); }
