// Small parse trees and forests: nodes labelled and spanned, words below
// preterminals only.  Choices decide words, cut points, labels, alternatives.
#ifndef VERIF_PFOREST_H
#define VERIF_PFOREST_H
#include "hg.h"
namespace pf {
using namespace travatar;
struct Opt {
    int words, labels, vocab, maxalt, maxar, budget; bool feats, unary, rootlab, altpre;
    Opt() : words(2), labels(2), vocab(1), maxalt(1), maxar(3), budget(20), feats(false), unary(true), rootlab(true), altpre(false) {}
};
struct Names { std::vector<int> lab, word, feat; };
inline Names & names() { static Names n; if (n.lab.empty()) {
    const char * l[] = {"A", "AB", "B", "C"}, * w[] = {"a", "ab", "b", "c", "d", "e"};
    for (int i = 0; i < 4; i++) n.lab.push_back(Dict::WID(l[i])); for (int i = 0; i < 6; i++) n.word.push_back(Dict::WID(w[i]));
    for (int i = 0; i < 32; i++) n.feat.push_back(Dict::WID("p" + std::to_string(i))); } return n; }
struct Maker {
    mc::Ctx & c; HyperGraph & g; Opt o; std::map<std::vector<int>, int> made; int nedge, budget;
    Maker(mc::Ctx & c_, HyperGraph & g_, const Opt & o_) : c(c_), g(g_), o(o_), nedge(0), budget(o_.budget) {
        for (int i = 0; i < o.words; i++) g.AddWord(names().word[o.vocab > 1 ? c.choose(o.vocab) : i % 6]);
        node(0, o.words, o.rootlab ? c.choose(o.labels) : 0);
    }
    int term(int i) { std::vector<int> k(1, i); if (made.count(k)) return made[k]; HyperNode * nd = new HyperNode(g.GetWord(i), -1, SpanId(i, i + 1)); g.AddNode(nd); return made[k] = nd->GetId(); }
    // ids must be topological (parents first), which forests with sharing need a second pass for: see order()
    int node(int i, int j, int lab) {
        std::vector<int> k; k.push_back(i); k.push_back(j); k.push_back(lab); if (made.count(k)) return made[k];
        HyperNode * nd = new HyperNode(names().lab[lab], -1, SpanId(i, j)); g.AddNode(nd); made[k] = nd->GetId();
        int alts = 1 + (o.maxalt > 1 && (j - i > 1 || o.altpre) ? c.choose(o.maxalt) : 0); std::set<std::vector<std::vector<int> > > used; std::vector<std::vector<int> > last;
        for (int a = 0; a < alts; a++) {
            c.require(--budget >= 0);
            int m = j - i == 1 ? 0 : c.choose((1 << (j - i - 1)) - (o.unary && lab + 1 < o.labels ? 0 : 1));   // cut points; all-ones first
            m = (1 << (j - i - 1)) - 1 - m;
            std::vector<std::vector<int> > parts; int s = i; for (int b = i + 1; b <= j; b++) if (b == j || (m >> (b - i - 1) & 1)) { std::vector<int> p; p.push_back(s); p.push_back(b); parts.push_back(p); s = b; }
            c.require((int)parts.size() <= o.maxar); bool one = parts.size() == 1;
            for (size_t p = 0; p < parts.size(); p++) {
                if (one && j - i == 1) { int lo = lab + 1; int n = o.unary ? std::max(0, o.labels - lo) : 0; int ch = c.choose(1 + n); parts[p].push_back(ch == 0 ? -1 : lo + ch - 1); }
                else if (one) { parts[p].push_back(lab + 1 + c.choose(o.labels - lab - 1)); }
                else parts[p].push_back(c.choose(o.labels));
            }
            if (a) { c.require(used.insert(parts).second); c.require(last < parts); } else used.insert(parts); last = parts;
            HyperEdge * e = new HyperEdge(nd); g.AddEdge(e); nd->AddEdge(e); int id = nedge++;
            if (o.feats) { SparseVector f; f.Add(names().feat[id % 32], 1 << (id % 4)); e->SetFeatures(f); }
            std::vector<HyperNode *> tails; for (size_t p = 0; p < parts.size(); p++) { int t = parts[p][2] < 0 ? term(parts[p][0]) : node(parts[p][0], parts[p][1], parts[p][2]); tails.push_back(g.GetNode(t)); }
            e->SetTails(tails);
        }
        return nd->GetId();
    }
};
// rebuild so that node ids are topological (parents before children)
inline HyperGraph * ordered(const HyperGraph & g) {
    int n = g.NumNodes(); std::vector<int> key(n); 
    // by span length descending, then label index (unary edges only go to larger labels), terminals last
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i;
    std::vector<std::vector<int> > k(n);
    for (int i = 0; i < n; i++) { const HyperNode * d = g.GetNode(i); int l = 99; for (size_t q = 0; q < names().lab.size(); q++) if (d->NumEdges() && names().lab[q] == d->GetSym()) l = q; k[i].push_back(i == 0 ? 0 : 1); k[i].push_back(-(d->GetSpan().second - d->GetSpan().first)); k[i].push_back(l); k[i].push_back(d->GetSpan().first); }
    std::sort(id.begin(), id.end(), [&](int a, int b) { return k[a] < k[b]; });
    HyperGraph * r = new HyperGraph; r->SetWords(g.GetWords()); std::vector<HyperNode *> m(n);
    for (int i = 0; i < n; i++) { const HyperNode * d = g.GetNode(id[i]); HyperNode * x = new HyperNode(d->GetSym(), -1, d->GetSpan()); r->AddNode(x); m[id[i]] = x; }
    for (int i = 0; i < n; i++) { const HyperNode * d = g.GetNode(id[i]); for (int e = 0; e < d->NumEdges(); e++) { HyperEdge * x = new HyperEdge(m[id[i]]); x->SetFeatures(d->GetEdge(e)->GetFeatures()); x->SetScore(d->GetEdge(e)->GetScore()); for (int t = 0; t < d->GetEdge(e)->NumTails(); t++) x->AddTail(m[d->GetEdge(e)->GetTail(t)->GetId()]); m[id[i]]->AddEdge(x); r->AddEdge(x); } }
    return r;
}
inline std::string text(const HyperGraph & g) { return hg::str(g); }
} // namespace pf
#endif
