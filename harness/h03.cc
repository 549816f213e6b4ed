// H03: structure-changing transforms keep the derivations of every small parse forest.
#include "hg.h"
#include <travatar/binarizer-directional.h>
#include <travatar/binarizer-cky.h>
#include <travatar/unary-flattener.h>
#include <travatar/trimmer-nbest.h>
using namespace travatar; using namespace std; using hg::Deriv;
static vector<int> LAB, FE, WD;
static void init() {
    GlobalVars::debug = 0; GlobalVars::trg_factors = 1;
    const char * l[] = {"A", "A'", ".", "B", "ROOT"}; for (int i = 0; i < 5; i++) LAB.push_back(Dict::WID(l[i]));
    for (int i = 0; i < 64; i++) FE.push_back(Dict::WID("f" + to_string(i)));
    for (int i = 0; i < 8; i++) WD.push_back(Dict::WID("w" + to_string(i)));
    // intern in a fixed order
    for (size_t i = 0; i < LAB.size(); i++) Dict::WID(Dict::WSym(LAB[i]) + "'");
}
// grows a forest top down: choices decide labels, cut points and alternatives
struct Forest {
    mc::Ctx & c; HyperGraph & g; int n, labels, maxalt, maxar, budget; bool terms; map<vector<int>, int> made; int nedge;
    Forest(mc::Ctx & c_, HyperGraph & g_) : c(c_), g(g_), n(3), labels(2), maxalt(1), maxar(5), budget(30), terms(true), nedge(0) {}
    int term(int i) { vector<int> k(1, i); if (made.count(k)) return made[k]; HyperNode * nd = new HyperNode(WD[i], -1, SpanId(i, i + 1)); g.AddNode(nd); return made[k] = nd->GetId(); }
    int node(int i, int j, int lab, bool root = false) {
        vector<int> k; k.push_back(i); k.push_back(j); k.push_back(root ? 99 : lab);
        if (made.count(k)) return made[k];
        HyperNode * nd = new HyperNode(root ? LAB[4] : LAB[lab], -1, SpanId(i, j)); g.AddNode(nd); made[k] = nd->GetId();
        int alts = 1 + (maxalt > 1 && j - i > 1 ? c.choose(maxalt) : 0);
        set<vector<vector<int> > > used;
        for (int a = 0; a < alts; a++) {
            c.require(--budget >= 0);
            // segmentation of [i,j): a bit per inner boundary
            int m = c.choose(1 << (j - i - 1)); vector<vector<int> > parts; int s = i;
            for (int b = i + 1; b <= j; b++) if (b == j || (m >> (b - i - 1) & 1)) { vector<int> p; p.push_back(s); p.push_back(b); parts.push_back(p); s = b; }
            c.require((int)parts.size() <= maxar);
            bool unary = parts.size() == 1;
            for (size_t p = 0; p < parts.size(); p++) {
                bool one = parts[p][1] - parts[p][0] == 1; int lo = unary && !root ? lab + 1 : 0; int opts = max(0, labels - lo) + (one && terms ? 1 : 0);
                int ch = c.choose(opts);
                parts[p].push_back(one && terms ? (ch == 0 ? -1 : lo + ch - 1) : lo + ch);
            }
            c.require(used.insert(parts).second);
            HyperEdge * e = new HyperEdge(nd); g.AddEdge(e); nd->AddEdge(e); int id = nedge++;
            e->SetScore(-(double)(1 << (id % 20))); SparseVector f; f.Add(FE[id], 1); e->SetFeatures(f);
            Sentence trg; trg.push_back(WD[id % 8]); for (size_t p = 0; p < parts.size(); p++) trg.push_back(-1 - (int)p); e->SetTrgData(CfgDataVector(1, CfgData(trg)));
            vector<HyperNode*> tails;
            for (size_t p = 0; p < parts.size(); p++) { int t = parts[p][2] == -1 ? term(parts[p][0]) : node(parts[p][0], parts[p][1], parts[p][2]); tails.push_back(g.GetNode(t)); }
            e->SetTails(tails);
        }
        return nd->GetId();
    }
};
static void wellformed(mc::Ctx & c, const HyperGraph & g, bool strict_heads = true) {
    set<const HyperNode*> ns; set<const HyperEdge*> es;
    for (int i = 0; i < g.NumNodes(); i++) { CHECK(g.GetNode(i) && g.GetNode(i)->GetId() == i, "ids", "node " << i << " has the wrong id"); ns.insert(g.GetNode(i)); }
    for (int i = 0; i < g.NumEdges(); i++) { CHECK(g.GetEdge(i) && g.GetEdge(i)->GetId() == i, "ids", "edge " << i << " has the wrong id"); es.insert(g.GetEdge(i)); }
    for (int i = 0; i < g.NumEdges(); i++) {
        CHECK(ns.count(g.GetEdge(i)->GetHead()), "pointers", "head of edge " << i << " is not a node of this graph");
        for (int t = 0; t < g.GetEdge(i)->NumTails(); t++) CHECK(ns.count(g.GetEdge(i)->GetTail(t)), "pointers", "tail of edge " << i << " is not a node of this graph");
    }
    for (int i = 0; i < g.NumNodes(); i++) for (int e = 0; e < g.GetNode(i)->NumEdges(); e++) {
        CHECK(es.count(g.GetNode(i)->GetEdge(e)), "pointers", "node " << i << " has an edge that is not in this graph");
        CHECK(!strict_heads || g.GetNode(i)->GetEdge(e)->GetHead() == g.GetNode(i), "pointers", "an edge of node " << i << " has another head");
    }
}
struct DTree { string s; };
static string lab(const HyperNode * n) { ostringstream o; o << Dict::WSym(n->GetSym()) << "[" << n->GetSpan().first << "," << n->GetSpan().second << "]"; return o.str(); }
static bool inter(const HyperNode * n) { if (n->NumEdges() == 0) return false; for (int e = 0; e < n->NumEdges(); e++) if (n->GetEdge(e)->GetFeatures().size()) return false; return true; }
// canonical text of one derivation with intermediate nodes spliced out
static string text(const vector<const HyperEdge *> & e, size_t & i, const HyperNode * at) {
    string me = lab(at); if (at->NumEdges() == 0) return me + " ";
    const HyperEdge * ed = e[i++]; bool in = inter(at);
    string r = in ? "" : "(" + me + " "; if (!in) r += Dict::PrintSparseVector(ed->GetFeatures()) + " ";
    for (int t = 0; t < ed->NumTails(); t++) r += text(e, i, ed->GetTail(t));
    return r + (in ? "" : ") ");
}
static void tset(const HyperGraph & g, map<string, pair<int, double> > & out, int root = 0) {
    vector<Deriv> d; hg::tderivs(g.GetNode(root), d);
    for (size_t i = 0; i < d.size(); i++) { size_t k = 0; string s = text(d[i].edges, k, g.GetNode(root)); out[s].first++; out[s].second = d[i].score; }
}
static void binarize(mc::Ctx & c, const HyperGraph & g, const string & how) {
    unique_ptr<Binarizer> b(Binarizer::CreateBinarizerFromString(how));
    string before = hg::str(g);
    unique_ptr<HyperGraph> r(b->TransformGraph(g)); c.step();
    CHECK(hg::str(g) == before, how + "-input", "the input graph was changed");
    string rs = hg::str(*r);
    wellformed(c, *r);
    CHECK(r->GetWords() == g.GetWords(), how + "-words", "words changed");
    int root = 0;
    if (how == "cky" && r->NumNodes() > 0 && lab(r->GetNode(0)) != lab(g.GetNode(0)) && g.GetEdge(0)->NumTails() > 2) {   // listed finding: look for the root elsewhere
        c.soft("cky-root-wide", "node 0 is " + lab(r->GetNode(0)) + ", not the root: " + rs);
        for (int i = 0; i < r->NumNodes(); i++) if (lab(r->GetNode(i)) == lab(g.GetNode(0))) root = i;
    }
    CHECK(r->NumNodes() > 0 && lab(r->GetNode(root)) == lab(g.GetNode(0)), how + "-root", "root changed: " << rs);
    map<string, pair<int, double> > want, got; tset(g, want); tset(*r, got, root);
    bool right = how[0] == 'r', cky = how == "cky", rp = how.size() > 2 && how.substr(how.size() - 2) == "rp";
    for (map<string, pair<int, double> >::iterator it = want.begin(); it != want.end(); ++it) {
        CHECK(got.count(it->first), how + "-lost", "derivation " << it->first << " is missing from " << rs);
        CHECK(got[it->first].second == it->second.second, how + "-score", "derivation " << it->first << " scores " << got[it->first].second << " instead of " << it->second.second);
        CHECK(cky || got[it->first].first == 1, how + "-ambiguous", "derivation " << it->first << " appears " << got[it->first].first << " times in " << rs);
    }
    for (map<string, pair<int, double> >::iterator it = got.begin(); it != got.end(); ++it) CHECK(want.count(it->first), how + "-invented", "derivation " << it->first << " of " << rs << " does not exist in the input");
    for (int i = 0; i < r->NumEdges(); i++) {
        const HyperEdge * e = r->GetEdge(i); const HyperNode * h = e->GetHead();
        CHECK(e->NumTails() <= 2, how + "-tails", "edge " << i << " has " << e->NumTails() << " tails in " << rs);
        CHECK(e->GetTail(0)->GetSpan().first == h->GetSpan().first && e->GetTail(e->NumTails() - 1)->GetSpan().second == h->GetSpan().second && (e->NumTails() == 1 || e->GetTail(0)->GetSpan().second == e->GetTail(1)->GetSpan().first), how + "-span", "spans of edge " << i << " do not add up in " << rs);
        if (e->NumTails() == 2 && !cky && !rp) CHECK(!inter(e->GetTail(right ? 0 : 1)), how + "-direction", "edge " << i << " branches the wrong way in " << rs);
        if (!cky && inter(h)) CHECK(h->GetSpan().first >= 0 && Dict::WSym(h->GetSym()).substr(Dict::WSym(h->GetSym()).size() - 1) == "'", how + "-label", "intermediate node " << lab(h) << " has no barred label");
    }
    if (rp) for (int i = 0; i < g.NumEdges(); i++) {   // punctuation at the far end is split off first
        const HyperEdge * e = g.GetEdge(i); int m = e->NumTails(); if (m < 3) continue;
        const HyperNode * end = e->GetTail(right ? m - 1 : 0); bool punc = end->GetSym() == LAB[2];
        for (int k = 0; k < r->NumEdges(); k++) if (r->GetEdge(k)->GetFeatures() == e->GetFeatures()) {
            const HyperNode * a = r->GetEdge(k)->GetTail(0), * z = r->GetEdge(k)->GetTail(1); const HyperNode * far = right ? z : a, * near = right ? a : z;
            if (punc) CHECK(!inter(far), how + "-punct", "punctuation was not split off first: " << rs); else CHECK(inter(far) && !inter(near), how + "-nopunct", "wrong branching: " << rs);
        }
    }
}
static const char * HOW[] = {"left", "right", "leftrp", "rightrp", "cky"};
static void grow(mc::Ctx & c, HyperGraph & g, int n, int labels, int alts, bool terms, int budget, int maxar = 5) {
    Forest f(c, g); f.n = n; f.labels = labels; f.maxalt = alts; f.terms = terms; f.budget = budget; f.maxar = maxar;
    f.node(0, n, 0, true); for (int i = 0; i < n; i++) g.AddWord(WD[i]);
    c.describe(hg::str(g));
}
static void all_bin(mc::Ctx & c, HyperGraph & g) { for (int h = 0; h < 5; h++) binarize(c, g, HOW[h]); }
MC_SPACE(bin_trees, 3) { HyperGraph g; grow(c, g, 1 + c.choose(c.thorough ? 4 : 3), 3, 1, true, 30); all_bin(c, g); }
MC_SPACE(bin_forests, 3) { HyperGraph g; grow(c, g, 3, c.thorough ? 2 : 1, 2, true, c.thorough ? 9 : 5); all_bin(c, g); }
MC_SPACE(bin_forests4, 3) { HyperGraph g; grow(c, g, 4, 1, 2, true, c.thorough ? 7 : 5); all_bin(c, g); }
MC_SPACE(bin_forests5, 2) { HyperGraph g; grow(c, g, 5, 1, 2, true, 6); all_bin(c, g); }
MC_SPACE(bin_wide, 3) {   // one wide edge, every label pattern (3..6 children)
    HyperGraph g; int n = 3 + c.choose(c.thorough ? 4 : 3); HyperNode * root = new HyperNode(LAB[4], -1, SpanId(0, n)); g.AddNode(root);
    int two = 1 + c.choose(2); vector<vector<HyperNode*> > tl(two); int ec = 0;
    for (int i = 0; i < n; i++) { HyperNode * p = new HyperNode(LAB[c.choose(3)], -1, SpanId(i, i + 1)), * w = new HyperNode(WD[i], -1, SpanId(i, i + 1)); g.AddNode(p); g.AddNode(w); g.AddWord(WD[i]); for (int k = 0; k < two; k++) tl[k].push_back(p); }
    HyperNode * mid = 0;
    if (two == 2) { mid = new HyperNode(LAB[0], -1, SpanId(0, n)); g.AddNode(mid); }
    for (int k = 0; k < two; k++) { HyperNode * h = k ? mid : root; HyperEdge * e = new HyperEdge(h); g.AddEdge(e); h->AddEdge(e); e->SetTails(tl[k]); SparseVector f; f.Add(FE[ec], 1); e->SetFeatures(f); e->SetScore(-1 - ec); ec++; }
    if (mid) { HyperEdge * e = new HyperEdge(root); g.AddEdge(e); root->AddEdge(e); e->AddTail(mid); SparseVector f; f.Add(FE[ec++], 1); e->SetFeatures(f); }
    for (int i = 1; i < 1 + 2 * n; i += 2) { HyperEdge * e = new HyperEdge(g.GetNode(i)); g.AddEdge(e); g.GetNode(i)->AddEdge(e); e->AddTail(g.GetNode(i + 1)); SparseVector f; f.Add(FE[ec++], 1); e->SetFeatures(f); }
    c.describe(hg::str(g)); all_bin(c, g);
}
// ---- unary flattening
static string flat(const HyperNode * n) {   // reference for trees: labels of a unary chain joined
    if (n->NumEdges() == 0) return lab(n) + " ";
    string l = Dict::WSym(n->GetSym()); const HyperNode * x = n;
    while (x->GetEdge(0)->NumTails() == 1 && x->GetEdge(0)->GetTail(0)->NumEdges()) { x = x->GetEdge(0)->GetTail(0); l += "_" + Dict::WSym(x->GetSym()); }
    ostringstream o; o << "(" << l << "[" << n->GetSpan().first << "," << n->GetSpan().second << "] ";
    for (int t = 0; t < x->GetEdge(0)->NumTails(); t++) o << flat(x->GetEdge(0)->GetTail(t));
    return o.str() + ") ";
}
static string plain(const HyperNode * n) {
    if (n->NumEdges() == 0) return lab(n) + " "; string r = "(" + lab(n) + " "; for (int t = 0; t < n->GetEdge(0)->NumTails(); t++) r += plain(n->GetEdge(0)->GetTail(t)); return r + ") ";
}
static void flatten(mc::Ctx & c, const HyperGraph & g, bool tree) {
    UnaryFlattener u; string before = hg::str(g); unique_ptr<HyperGraph> r(u.TransformGraph(g)); c.step();
    CHECK(hg::str(g) == before, "flatten-input", "the input graph was changed");
    CHECK(r->GetWords() == g.GetWords(), "flatten-words", "words changed");
    if (tree) CHECK(plain(r->GetNode(0)) == flat(g.GetNode(0)), "flatten", "flattened to " << plain(r->GetNode(0)) << " instead of " << flat(g.GetNode(0)));
    vector<Deriv> a, b; hg::tderivs(g.GetNode(0), a); hg::tderivs(r->GetNode(0), b);
    multiset<pair<double, string> > want, got;
    for (int k = 0; k < 2; k++) { vector<Deriv> & d = k ? b : a; for (size_t i = 0; i < d.size(); i++) {
        ostringstream o; map<int, double> f = hg::feats(d[i].edges); for (map<int, double>::iterator it = f.begin(); it != f.end(); ++it) o << it->first << ":" << it->second << " ";
        for (size_t e = 0; e < d[i].edges.size(); e++) for (int t = 0; t < d[i].edges[e]->NumTails(); t++) if (d[i].edges[e]->GetTail(t)->NumEdges() == 0) o << lab(d[i].edges[e]->GetTail(t));
        (k ? got : want).insert(make_pair(d[i].score, o.str())); } }
    CHECK(want == got, "flatten-derivations", "flattening changed the derivations, their scores or words: " << hg::str(*r));
}
MC_SPACE(flat_trees, 3) { HyperGraph g; grow(c, g, 1 + c.choose(c.thorough ? 4 : 3), 3, 1, true, 30); flatten(c, g, true); }
MC_SPACE(flat_forests, 3) { HyperGraph g; grow(c, g, 2 + c.choose(2), 2, 2, true, c.thorough ? 8 : 6); flatten(c, g, false); }
// ---- pruning, copying, appending (translation-style forests: every node has a derivation)
MC_SPACE(trim, 3) {
    HyperGraph g; grow(c, g, 3, 2, 2, true, c.thorough ? 8 : 6);
    // drop the terminals, so that every remaining node has edges
    HyperGraph t; map<int, int> id;
    for (int i = 0; i < g.NumNodes(); i++) if (g.GetNode(i)->NumEdges()) { HyperNode * n = new HyperNode(g.GetNode(i)->GetSym(), -1, g.GetNode(i)->GetSpan()); t.AddNode(n); id[i] = n->GetId(); }
    for (int i = 0; i < g.NumNodes(); i++) for (int k = 0; k < g.GetNode(i)->NumEdges(); k++) {
        const HyperEdge * e = g.GetNode(i)->GetEdge(k); HyperEdge * n = new HyperEdge(t.GetNode(id[i])); t.AddEdge(n); t.GetNode(id[i])->AddEdge(n);
        for (int x = 0; x < e->NumTails(); x++) if (id.count(e->GetTail(x)->GetId())) n->AddTail(t.GetNode(id[e->GetTail(x)->GetId()]));
        n->SetScore(e->GetScore()); n->SetFeatures(e->GetFeatures()); }
    for (int i = 0; i < 3; i++) t.AddWord(WD[i]);
    vector<Deriv> all = hg::derivs(t); int D = all.size(); c.require(D <= 60);
    vector<pair<double, size_t> > ord; for (int i = 0; i < D; i++) ord.push_back(make_pair(-all[i].score, i)); sort(ord.begin(), ord.end());
    set<int> ks; ks.insert(1); ks.insert(2); ks.insert(3); ks.insert(D); ks.insert(D + 2);
    for (set<int>::iterator k = ks.begin(); k != ks.end(); ++k) {
        if (*k < D && ord[*k - 1].first == ord[*k].first) continue;   // a tie at the cut may be broken either way
        set<int> want; for (int i = 0; i < min(*k, D); i++) { vector<int> x = hg::ids(all[ord[i].second].edges); want.insert(x.begin(), x.end()); }
        multiset<string> we, ge;
        for (set<int>::iterator x = want.begin(); x != want.end(); ++x) { ostringstream o; const HyperEdge * e = t.GetEdge(*x); o << lab(e->GetHead()) << e->GetScore() << Dict::PrintSparseVector(e->GetFeatures()); for (int y = 0; y < e->NumTails(); y++) o << lab(e->GetTail(y)); we.insert(o.str()); }
        HyperGraph in(t); TrimmerNbest tr(*k); unique_ptr<HyperGraph> r(tr.TransformGraph(in)); c.step();
        wellformed(c, *r); CHECK(r->GetWords() == t.GetWords(), "trim-words", "words changed");
        CHECK(lab(r->GetNode(0)) == lab(t.GetNode(0)), "trim-root", "root changed");
        int reach = 0; for (int i = 0; i < r->NumNodes(); i++) { reach += r->GetNode(i)->NumEdges(); CHECK(r->GetNode(i)->NumEdges() > 0, "trim-node", "node without derivation kept"); }
        CHECK(reach == r->NumEdges(), "trim-links", "edges not linked from their nodes");
        for (int i = 0; i < r->NumEdges(); i++) { ostringstream o; const HyperEdge * e = r->GetEdge(i); o << lab(e->GetHead()) << e->GetScore() << Dict::PrintSparseVector(e->GetFeatures()); for (int y = 0; y < e->NumTails(); y++) o << lab(e->GetTail(y)); ge.insert(o.str()); }
        CHECK(we == ge, "trim-edges", "trimming to the best " << *k << " kept the wrong edges: " << hg::str(*r));
    }
}
MC_SPACE(copy, 3) {
    HyperGraph * g = new HyperGraph; grow(c, *g, 2 + c.choose(2), 2, 2, true, c.thorough ? 7 : 5);
    string s = hg::str(*g); HyperGraph h(*g), h2(h); wellformed(c, h);
    CHECK(hg::str(h) == s && h.GetWords() == g->GetWords() && h.CheckEqual(*g), "copy", "copy differs: " << hg::str(h));
    for (int i = 0; i < h2.NumEdges(); i++) { h2.GetEdge(i)->SetScore(77); h2.GetEdge(i)->GetTails().clear(); } for (int i = 0; i < h2.NumNodes(); i++) h2.GetNode(i)->SetSym(LAB[0]);
    CHECK(hg::str(h) == s && hg::str(*g) == s, "copy-shared", "changing a copy changed the original");
    // append h to g: the first part is unchanged, the second is h with shifted numbers
    int n0 = g->NumNodes(), e0 = g->NumEdges(); HyperGraph a(*g); int at = a.Append(h); wellformed(c, a);
    CHECK(at == n0 && a.NumNodes() == 2 * n0 && a.NumEdges() == 2 * e0, "append", "append returned " << at);
    vector<Deriv> d0 = vector<Deriv>(), d1, d2; hg::tderivs(g->GetNode(0), d0); hg::tderivs(a.GetNode(0), d1); hg::tderivs(a.GetNode(at), d2);
    CHECK(d0.size() == d1.size() && d0.size() == d2.size(), "append", "append changed the number of derivations");
    for (size_t i = 0; i < d0.size(); i++) {
        vector<int> x = hg::ids(d0[i].edges), y = hg::ids(d1[i].edges), z = hg::ids(d2[i].edges); for (size_t k = 0; k < z.size(); k++) z[k] -= e0;
        size_t p = 0, q = 0; string tx = text(d0[i].edges, p, g->GetNode(0)), tz = text(d2[i].edges, q, a.GetNode(at));
        CHECK(x == y && x == z && tx == tz && d0[i].score == d2[i].score, "append", "appended derivations differ: " << hg::str(a));
    }
    CHECK(hg::str(h) == s, "append-arg", "append changed its argument");
    delete g; CHECK(hg::str(h) == s, "copy-freed", "copy changed after the original was deleted");
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
