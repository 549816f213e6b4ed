// Small hypergraphs: generator, exhaustive derivation enumeration, printing.
#ifndef VERIF_HG_H
#define VERIF_HG_H
#include "mc.h"
#include <algorithm>
#include <travatar/hyper-graph.h>
#include <travatar/dict.h>
#include <travatar/global-debug.h>
namespace hg {
using namespace travatar;

inline std::string str(const HyperGraph & g) {
    std::ostringstream o; o.precision(17);
    for (int i = 0; i < g.NumNodes(); i++) {
        const HyperNode * n = g.GetNode(i);
        if (!n) { o << i << ":NULL; "; continue; }
        o << n->GetId(); if (n->GetSym() >= 0) o << "(" << Dict::WSym(n->GetSym()) << ")";
        if (n->GetTrgSym() >= 0) o << "/" << Dict::WSym(n->GetTrgSym());
        if (n->GetSpan().second >= 0) o << "[" << n->GetSpan().first << "," << n->GetSpan().second << "]";
        o << ":";
        for (int e = 0; e < n->NumEdges(); e++) {
            const HyperEdge * ed = n->GetEdge(e);
            o << (e ? " | " : " ") << "e" << ed->GetId() << "(";
            for (int t = 0; t < ed->NumTails(); t++) o << (t ? "," : "") << ed->GetTail(t)->GetId();
            o << ")" << ed->GetScore();
            if (!ed->GetSrcStr().empty()) o << "<" << ed->GetSrcStr() << ">";
            for (size_t f = 0; f < ed->GetTrgData().size(); f++) {
                o << "{"; const CfgData & d = ed->GetTrgData()[f];
                for (size_t w = 0; w < d.words.size(); w++) o << (w ? " " : "") << (d.words[w] < 0 ? "x" + std::to_string(-1 - d.words[w]) : Dict::WSym(d.words[w]));
                o << "}";
            }
            if (ed->GetFeatures().size()) o << "#" << Dict::PrintSparseVector(ed->GetFeatures());
        }
        o << "; ";
    }
    return o.str();
}
// all derivations below a node as preorder edge lists
struct Deriv { std::vector<const HyperEdge *> edges; double score; };
inline void derivs(const HyperNode * n, std::vector<Deriv> & out, std::map<const HyperNode *, std::vector<Deriv> > & memo, size_t cap = 200000) {
    std::map<const HyperNode *, std::vector<Deriv> >::iterator it = memo.find(n);
    if (it != memo.end()) { out = it->second; return; }
    std::vector<Deriv> ret;
    for (int e = 0; e < n->NumEdges(); e++) {
        const HyperEdge * ed = n->GetEdge(e);
        std::vector<Deriv> cur(1); cur[0].edges.push_back(ed); cur[0].score = ed->GetScore();
        for (int t = 0; t < ed->NumTails(); t++) {
            std::vector<Deriv> ch; derivs(ed->GetTail(t), ch, memo, cap);
            std::vector<Deriv> nx;
            for (size_t i = 0; i < cur.size(); i++) for (size_t j = 0; j < ch.size(); j++) {
                Deriv d = cur[i]; d.edges.insert(d.edges.end(), ch[j].edges.begin(), ch[j].edges.end()); d.score += ch[j].score; nx.push_back(d);
                if (nx.size() > cap) throw mc::Reject();
            }
            cur.swap(nx);
        }
        ret.insert(ret.end(), cur.begin(), cur.end());
        if (ret.size() > cap) throw mc::Reject();
    }
    memo[n] = ret; out = ret;
}
inline std::vector<Deriv> derivs(const HyperGraph & g, int root = 0) { std::vector<Deriv> r; std::map<const HyperNode *, std::vector<Deriv> > m; derivs(g.GetNode(root), r, m); return r; }
// the same, but treating childless nodes without edges as leaves (parse trees)
inline void tderivs(const HyperNode * n, std::vector<Deriv> & out) {
    out.clear();
    if (n->NumEdges() == 0) { Deriv d; d.score = 0; out.push_back(d); return; }
    for (int e = 0; e < n->NumEdges(); e++) {
        const HyperEdge * ed = n->GetEdge(e);
        std::vector<Deriv> cur(1); cur[0].edges.push_back(ed); cur[0].score = ed->GetScore();
        for (int t = 0; t < ed->NumTails(); t++) {
            std::vector<Deriv> ch, nx; tderivs(ed->GetTail(t), ch);
            for (size_t i = 0; i < cur.size(); i++) for (size_t j = 0; j < ch.size(); j++) {
                Deriv d = cur[i]; d.edges.insert(d.edges.end(), ch[j].edges.begin(), ch[j].edges.end()); d.score += ch[j].score; nx.push_back(d);
            }
            cur.swap(nx);
        }
        out.insert(out.end(), cur.begin(), cur.end());
    }
}
// the words of a derivation, by plain substitution
inline std::vector<int> yield(const std::vector<const HyperEdge *> & e, size_t & i, int factor) {
    const HyperEdge * me = e[i++];
    std::vector<std::vector<int> > ch;
    for (int t = 0; t < me->NumTails(); t++) ch.push_back(yield(e, i, factor));
    std::vector<int> r;
    if (factor >= (int)me->GetTrgData().size()) return r;
    const Sentence & w = me->GetTrgData()[factor].words;
    for (size_t k = 0; k < w.size(); k++) { if (w[k] >= 0) r.push_back(w[k]); else r.insert(r.end(), ch[-1 - w[k]].begin(), ch[-1 - w[k]].end()); }
    return r;
}
inline std::vector<int> yield(const Deriv & d, int factor = 0) { size_t i = 0; return yield(d.edges, i, factor); }
inline std::vector<int> ids(const std::vector<const HyperEdge *> & e) { std::vector<int> r; for (size_t i = 0; i < e.size(); i++) r.push_back(e[i]->GetId()); return r; }
inline std::map<int, double> feats(const std::vector<const HyperEdge *> & e) {
    std::map<int, double> m; for (size_t i = 0; i < e.size(); i++) for (SparseVector::SparseVectorImpl::const_iterator it = e[i]->GetFeatures().begin(); it != e[i]->GetFeatures().end(); ++it) m[it->first] += it->second;
    for (std::map<int, double>::iterator it = m.begin(); it != m.end();) { if (it->second == 0) m.erase(it++); else ++it; }
    return m;
}
inline std::map<int, double> tomap(const SparseVector & v) { std::map<int, double> m; for (SparseVector::SparseVectorImpl::const_iterator it = v.begin(); it != v.end(); ++it) if (it->second != 0) m[it->first] += it->second; return m; }
inline std::string vstr(const std::vector<int> & v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
inline std::string wstr(const std::vector<int> & v) { std::ostringstream o; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << (v[i] < 0 ? "x" : Dict::WSym(v[i])); return o.str(); }

// one target side per number of tails
inline Sentence trg_side(int pat, int ntails, int w) {
    Sentence s;
    if (ntails == 0) { s.push_back(w); return s; }
    if (ntails == 1) { if (pat & 1) { s.push_back(-1); s.push_back(w); } else { s.push_back(w); s.push_back(-1); } return s; }
    if (pat == 0) { s.push_back(-1); s.push_back(w); s.push_back(-2); }
    else { s.push_back(-2); s.push_back(-1); s.push_back(w); }
    return s;
}
// A node-by-node generator of acyclic graphs.  next(nodes-available) picks tails.
struct Gen {
    int nodes, maxedges, maxtails; std::vector<double> scores; bool inorder; bool allow_dead;
    Gen() : nodes(3), maxedges(2), maxtails(2), inorder(false), allow_dead(false) {}
};
inline std::vector<int> pick_tails(mc::Ctx & c, int lo, int hi, int maxtails) {   // tail ids in [lo,hi)
    int n = hi - lo; std::vector<std::vector<int> > opts(1);
    for (int a = 0; a < n && maxtails >= 1; a++) { opts.push_back(std::vector<int>(1, lo + a)); }
    for (int a = 0; a < n && maxtails >= 2; a++) for (int b = 0; b < n; b++) { std::vector<int> v; v.push_back(lo + a); v.push_back(lo + b); opts.push_back(v); }
    if (maxtails >= 3) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int d = 0; d < n; d++) { std::vector<int> v; v.push_back(lo + a); v.push_back(lo + b); v.push_back(lo + d); opts.push_back(v); }
    return opts[c.choose(opts.size())];
}
} // namespace hg
#endif
