// Comparing a hypergraph with an expected one regardless of numbering: every
// node becomes a number standing for its name and the sorted set of its edges
// (target side, features, source string, children).
#ifndef VERIF_CANON_H
#define VERIF_CANON_H
#include "hg.h"
namespace canon {
using namespace travatar;
struct ON; struct OE { std::string trg, src; std::map<int, double> feats; std::vector<ON *> tails; };
struct ON { std::string name; std::vector<OE> edges; };
struct Exp { std::deque<ON> nodes; ON * root; Exp() : root(0) {} ON * add(const std::string & n) { nodes.push_back(ON()); nodes.back().name = n; return &nodes.back(); } };
inline std::string fstr(const std::map<int, double> & f) { std::map<std::string, double> m; for (std::map<int, double>::const_iterator i = f.begin(); i != f.end(); i++) if (i->second != 0) m[Dict::WSym(i->first)] = i->second; std::ostringstream o; o.precision(9); for (std::map<std::string, double>::iterator i = m.begin(); i != m.end(); i++) o << i->first << "=" << i->second << " "; return o.str(); }
inline std::string tstr(const CfgDataVector & d) { std::ostringstream o; for (size_t i = 0; i < d.size(); i++) { o << "{"; for (size_t w = 0; w < d[i].words.size(); w++) o << (d[i].words[w] < 0 ? "x" + std::to_string(-1 - d[i].words[w]) : Dict::WSym(d[i].words[w])) << " "; o << "@" << (d[i].label < 0 ? "" : Dict::WSym(d[i].label)) << ":"; for (size_t s = 0; s < d[i].syms.size(); s++) o << (d[i].syms[s] < 0 ? "-" : Dict::WSym(d[i].syms[s])) << " "; o << "}"; } return o.str(); }
inline std::string nname(const HyperNode * n) { return (n->GetSym() < 0 ? std::string("-") : Dict::WSym(n->GetSym())) + "[" + std::to_string(n->GetSpan().first) + "," + std::to_string(n->GetSpan().second) + "]"; }
inline std::map<std::string, int> & intern() { static std::map<std::string, int> m; return m; }
inline void fresh() { if (intern().size() > 100000) intern().clear(); }   // between comparisons only
inline int num(const std::string & s) { std::map<std::string, int> & m = intern(); std::map<std::string, int>::iterator i = m.find(s); if (i != m.end()) return i->second; int k = m.size(); m[s] = k; return k; }
inline int of(const ON * n, std::map<const ON *, int> & memo) {
    if (memo.count(n)) return memo[n]; std::vector<std::string> es;
    for (size_t e = 0; e < n->edges.size(); e++) { std::string s = n->edges[e].trg + "#" + fstr(n->edges[e].feats) + "#" + n->edges[e].src + "#"; for (size_t t = 0; t < n->edges[e].tails.size(); t++) s += std::to_string(of(n->edges[e].tails[t], memo)) + ","; es.push_back(s); }
    std::sort(es.begin(), es.end()); std::string r = n->name; for (size_t i = 0; i < es.size(); i++) r += "\n" + es[i]; return memo[n] = num(r);
}
inline int of(const HyperNode * n, std::map<const HyperNode *, int> & memo) {
    if (memo.count(n)) return memo[n]; std::vector<std::string> es;
    for (int e = 0; e < n->NumEdges(); e++) { const HyperEdge * d = n->GetEdge(e); std::string s = tstr(d->GetTrgData()) + "#" + fstr(hg::tomap(d->GetFeatures())) + "#" + d->GetSrcStr() + "#"; for (int t = 0; t < d->NumTails(); t++) s += std::to_string(of(d->GetTail(t), memo)) + ","; es.push_back(s); }
    std::sort(es.begin(), es.end()); std::string r = nname(n); for (size_t i = 0; i < es.size(); i++) r += "\n" + es[i]; return memo[n] = num(r);
}
inline std::string back(int k) { std::map<std::string, int> & m = intern(); for (std::map<std::string, int>::iterator i = m.begin(); i != m.end(); i++) if (i->second == k) return i->first; return "?"; }
// compares all nodes and the root; "" or what differs
inline std::string diff(const Exp & x, const HyperGraph & g) {
    std::map<const ON *, int> om; std::map<const HyperNode *, int> rm; std::vector<int> want, got;
    for (size_t i = 0; i < x.nodes.size(); i++) want.push_back(of(&x.nodes[i], om));
    for (int i = 0; i < g.NumNodes(); i++) got.push_back(of(g.GetNode(i), rm));
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    bool rootok = g.NumNodes() == 0 ? !x.root : x.root && om[x.root] == rm[g.GetNode(0)];
    if (want == got && rootok) return "";
    std::string a, b; for (size_t i = 0; i < want.size(); i++) if (!std::count(got.begin(), got.end(), want[i])) a += back(want[i]) + " ;; "; for (size_t i = 0; i < got.size(); i++) if (!std::count(want.begin(), want.end(), got[i])) b += back(got[i]) + " ;; ";
    return "missing nodes: " + a + " extra nodes: " + b + (rootok ? "" : " (root differs)") + " whole graph: " + hg::str(g);
}
inline std::string wellformed(const HyperGraph & g) {
    std::set<const HyperNode *> ns; std::set<const HyperEdge *> es; int ne = 0;
    for (int i = 0; i < g.NumNodes(); i++) { if (!g.GetNode(i) || g.GetNode(i)->GetId() != i) return "node " + std::to_string(i) + " has the wrong id"; ns.insert(g.GetNode(i)); }
    for (int i = 0; i < g.NumEdges(); i++) { if (!g.GetEdge(i) || g.GetEdge(i)->GetId() != i) return "edge " + std::to_string(i) + " has the wrong id"; es.insert(g.GetEdge(i)); if (!ns.count(g.GetEdge(i)->GetHead())) return "head of an edge is not a node of the graph"; for (int t = 0; t < g.GetEdge(i)->NumTails(); t++) if (!ns.count(g.GetEdge(i)->GetTail(t))) return "tail of an edge is not a node of the graph"; }
    for (int i = 0; i < g.NumNodes(); i++) for (int e = 0; e < g.GetNode(i)->NumEdges(); e++) { ne++; if (!es.count(g.GetNode(i)->GetEdge(e))) return "a node has an edge that is not in the graph"; if (g.GetNode(i)->GetEdge(e)->GetHead() != g.GetNode(i)) return "an edge has another head than its node"; }
    if (ne != g.NumEdges() || (int)es.size() != ne) return "edge list and nodes disagree"; return "";
}
} // namespace canon
#endif
