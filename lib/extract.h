// Rule extraction by definition: boundaries, minimal and composed rules, ranges of unaligned target words
#ifndef VERIF_EXTRACT_H
#define VERIF_EXTRACT_H
#include "pforest.h"
#include "run.h"
#include <travatar/forest-extractor.h>
#include <travatar/alignment.h>
#include <memory>
namespace ex { using namespace std; using namespace travatar;
typedef pair<int, int> Rng;
// the definition: everything from source spans and links
struct Spec {
    const HyperGraph & g; int n, T, attach; vector<vector<int> > link; vector<bool> null; map<Rng, string> lab; bool labels;
    Spec(const HyperGraph & g_, int T_) : g(g_), n(g_.GetWords().size()), T(T_), attach(0), link(g_.GetWords().size()), null(T_, true), labels(false) { order = 1; lex = 0; }
    void add(int s, int t) { link[s].push_back(t); null[t] = false; }
    bool range(const HyperNode * v, Rng & r) const { r = Rng(1 << 20, -1); for (int i = v->GetSpan().first; i < v->GetSpan().second; i++) for (size_t k = 0; k < link[i].size(); k++) { r.first = min(r.first, link[i][k]); r.second = max(r.second, link[i][k]); } return r.second >= 0; }
    bool frontier(const HyperNode * v) const {
        if (!v->NumEdges()) return false; Rng r; if (!range(v, r)) return false;
        for (int i = 0; i < n; i++) if (i < v->GetSpan().first || i >= v->GetSpan().second) for (size_t k = 0; k < link[i].size(); k++) if (link[i][k] >= r.first && link[i][k] <= r.second) return false;
        return true;
    }
    struct Frag { string src; vector<const HyperNode *> vars; vector<int> words; double score; int parts; Frag() : score(0), parts(1) { } };
    int order, lex; // composition: rules of up to order minimal rules, and rules without variables over up to lex words
    // source sides rooted at u; a node that is cut becomes a variable, numbered later (#)
    void expand(const HyperNode * u, vector<Frag> & out) const {
        for (int e = 0; e < u->NumEdges(); e++) {
            const HyperEdge * ed = u->GetEdge(e); vector<Frag> cur(1); cur[0].src = Dict::WSym(u->GetSym()) + " ("; cur[0].score = ed->GetScore();
            for (int t = 0; t < ed->NumTails(); t++) {
                const HyperNode * d = ed->GetTail(t); vector<Frag> sub;
                if (!d->NumEdges()) { Frag f; f.src = "\"" + Dict::WSym(d->GetSym()) + "\""; f.words.push_back(d->GetSpan().first); f.score = 0; sub.push_back(f); }
                else if (frontier(d)) { Frag f; f.src = "#:" + Dict::WSym(d->GetSym()); f.vars.push_back(d); f.score = 0; sub.push_back(f); }
                else expand(d, sub);
                vector<Frag> nx; for (size_t i = 0; i < cur.size(); i++) for (size_t j = 0; j < sub.size(); j++) { Frag f = cur[i]; f.src += " " + sub[j].src; f.vars.insert(f.vars.end(), sub[j].vars.begin(), sub[j].vars.end()); f.words.insert(f.words.end(), sub[j].words.begin(), sub[j].words.end()); f.score += sub[j].score; nx.push_back(f); } cur.swap(nx);
            }
            for (size_t i = 0; i < cur.size(); i++) { cur[i].src += " )"; out.push_back(cur[i]); }
        }
    }
    // all rules at a boundary: minimal ones with variables filled from left to right
    const vector<Frag> & produced(const HyperNode * v, map<const HyperNode *, vector<Frag> > & memo) const {
        if (memo.count(v)) return memo[v]; vector<Frag> mins, out; expand(v, mins); int len = v->GetSpan().second - v->GetSpan().first;
        for (size_t a = 0; a < mins.size(); a++) { vector<Frag> list(1, mins[a]); int nv = mins[a].vars.size();
            if (order > 1 || lex > 0) for (int k = 0; k < nv; k++) { const vector<Frag> & sub = produced(mins[a].vars[k], memo); size_t n = list.size(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < sub.size(); j++) { int parts = list[i].parts + sub[j].parts; bool one = list[i].vars.size() == 1 && sub[j].vars.empty(); if (parts <= order || (len <= lex && one)) list.push_back(fill(list[i], list[i].vars.size() - (nv - k), sub[j])); } }
            out.insert(out.end(), list.begin(), list.end()); }
        return memo[v] = out;
    }
    static Frag fill(const Frag & a, int k, const Frag & b) { Frag r = a; size_t p = 0; for (int i = 0; ; i++) { p = r.src.find('#', p); if (i == k) break; p++; } size_t e = p; while (r.src[e] != ' ') e++; r.src = r.src.substr(0, p) + b.src + r.src.substr(e); r.vars.erase(r.vars.begin() + k); r.vars.insert(r.vars.begin() + k, b.vars.begin(), b.vars.end()); r.words.insert(r.words.end(), b.words.begin(), b.words.end()); sort(r.words.begin(), r.words.end()); r.score += b.score; r.parts += b.parts; return r; }
    // ranges a boundary node may take
    vector<Rng> versions(const HyperNode * v, const string & mode) const {
        Rng r; range(v, r); vector<Rng> o; if (mode == "top" && v->GetId() == 0) { o.push_back(Rng(0, T - 1)); return o; } if (mode != "exhaustive") { o.push_back(r); return o; }
        for (int a = 0; a <= attach; a++) { int l = r.first - a; if (l < 0 || (a && !null[l])) break; for (int b = 0; b <= attach; b++) { int h = r.second + b; if (h >= T || (b && !null[h])) break; o.push_back(Rng(l, h)); } }
        return o;
    }
    string rule(const Frag & f, Rng h, const vector<Rng> & t, const Sentence & trg) const {
        string src; int k = 0; for (size_t i = 0; i < f.src.size(); i++) if (f.src[i] == '#') src += "x" + to_string(k++); else src += f.src[i];
        ostringstream o; o << src << " |||"; vector<int> tw; for (int j = h.first; j <= h.second; j++) { int in = -1; for (size_t v = 0; v < t.size(); v++) if (j >= t[v].first && j <= t[v].second) in = v; if (in < 0) { o << " \"" << Dict::WSym(trg[j]) << "\""; tw.push_back(j); } else if (j == t[in].first) { o << " x" << in; map<Rng, string>::const_iterator l = lab.find(t[in]); if (labels && l != lab.end()) o << ":" << l->second; } }
        map<Rng, string>::const_iterator l = lab.find(h); if (labels && l != lab.end()) o << " @ " << l->second;
        o << " ||| " << exp(f.score) << " ||| "; int c = 0; for (size_t i = 0; i < f.words.size(); i++) for (size_t j = 0; j < tw.size(); j++) { const vector<int> & L = link[f.words[i]]; if (find(L.begin(), L.end(), tw[j]) != L.end()) { if (c++) o << " "; o << i << "-" << j; } }
        return o.str();
    }
    void combos(const Frag & f, Rng h, size_t k, vector<Rng> & t, const string & mode, const Sentence & trg, vector<string> & out, int maxnt) const {
        if (k == f.vars.size()) { out.push_back(rule(f, h, t, trg)); return; }
        vector<Rng> vs = (int)f.vars.size() > maxnt ? versions(f.vars[k], "none") : versions(f.vars[k], mode);
        for (size_t i = 0; i < vs.size(); i++) { bool ok = vs[i].first >= h.first && vs[i].second <= h.second; for (size_t q = 0; q < t.size(); q++) if (vs[i].first <= t[q].second && t[q].first <= vs[i].second) ok = false; if (!ok) continue; t.push_back(vs[i]); combos(f, h, k + 1, t, mode, trg, out, maxnt); t.pop_back(); }
    }
    vector<string> rules(const string & mode, const Sentence & trg, int maxnt = 99) const {
        vector<string> out; map<const HyperNode *, vector<Frag> > memo; set<const HyperNode *> still;   // below a rule of too many variables (trees only)
        if (maxnt < 99) for (int i = 0; i < g.NumNodes(); i++) { const HyperNode * v = g.GetNode(i); if (!frontier(v)) continue; vector<Frag> fr; expand(v, fr); for (size_t a = 0; a < fr.size(); a++) if ((int)fr[a].vars.size() > maxnt) still.insert(fr[a].vars.begin(), fr[a].vars.end()); }
        for (int i = 0; i < g.NumNodes(); i++) { const HyperNode * v = g.GetNode(i); if (!frontier(v)) continue; const vector<Frag> & fr = produced(v, memo); vector<Rng> hv = versions(v, still.count(v) ? "none" : mode); for (size_t a = 0; a < fr.size(); a++) for (size_t h = 0; h < hv.size(); h++) { vector<Rng> t; combos(fr[a], hv[h], 0, t, mode, trg, out, maxnt); } }
        sort(out.begin(), out.end()); return out;
    }
};
static Sentence target(int T) { Sentence s; for (int i = 0; i < T; i++) s.push_back(Dict::WID("t" + to_string(i))); return s; }
static string diff(const vector<string> & want, const vector<string> & got) { vector<string> a, b; set_difference(want.begin(), want.end(), got.begin(), got.end(), back_inserter(a)); set_difference(got.begin(), got.end(), want.begin(), want.end(), back_inserter(b)); string r; for (size_t i = 0; i < a.size() && i < 3; i++) r += "\n   missing " + a[i]; for (size_t i = 0; i < b.size() && i < 3; i++) r += "\n   surplus " + b[i]; return r; }
static const char * MODE[] = {"none", "top", "exhaustive"};
static vector<string> printed(ForestExtractor & x, HyperGraph & r, const HyperGraph & src, const Sentence & trg, const Alignment & al, const LabeledSpans * l) { vector<string> o; for (int e = 0; e < r.NumEdges(); e++) { const RuleEdge * ed = static_cast<const RuleEdge *>(r.GetEdge(e)); if (ed->GetHead()->IsFrontier() == HyperNode::NOT_FRONTIER) continue; o.push_back(x.RuleToString(*ed, src.GetWords(), trg, al, l)); } sort(o.begin(), o.end()); return o; }
} // namespace ex
#endif
