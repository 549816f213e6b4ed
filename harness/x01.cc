// X01: rules extracted from trees and forests against the definition
#include "extract.h"
#include <travatar/forest-extractor-runner.h>
#include <travatar/config-forest-extractor-runner.h>
#include <travatar/tree-io.h>
#include <travatar/binarizer.h>
using namespace ex;
static void check(mc::Ctx & c, HyperGraph & g, int T, unsigned bits, int attach, bool labels) {
    int n = g.GetWords().size(); Sentence trg = target(T); Spec sp(g, T); Alignment al; string als; sp.attach = attach;
    for (int s = 0; s < n; s++) for (int t = 0; t < T; t++) if (bits >> (s * T + t) & 1) { al.AddAlignment(make_pair(s, t)); sp.add(s, t); als += " " + to_string(s) + "-" + to_string(t); }
    c.describe([&]() { return pf::text(g) + " to " + to_string(T) + " words," + als + "; attach length " + to_string(attach); });
    LabeledSpans ls; if (labels) { sp.labels = true; for (int i = 0; i < T; i++) for (int j = i; j < T; j++) if ((i + j) % 3 != 2) { string s = "L" + to_string(i) + to_string(j); sp.lab[Rng(i, j)] = s; ls[make_pair(i, j + 1)] = Dict::WID(s); } }
    ForestExtractor x; x.SetMaxAttach(attach); x.SetMaxNonterm(99); string before = hg::str(g); unique_ptr<HyperGraph> m(x.ExtractMinimalRules(g, al)); CHECK(hg::str(g) == before, "source", "extraction changes the source forest to " << hg::str(g));
    for (int mo = 0; mo < 3; mo++) {
        unique_ptr<HyperGraph> r(mo == 0 ? 0 : mo == 1 ? x.AttachNullsTop(*m, al, T) : x.AttachNullsExhaustive(*m, al, T)); HyperGraph & R = mo ? *r : *m;
        vector<string> want = sp.rules(MODE[mo], trg), got = printed(x, R, g, trg, al, labels ? &ls : 0); c.step(got.size());
        CHECK(want == got, MODE[mo], "attaching " << MODE[mo] << ":" << diff(want, got));
        // the graph: every boundary reachable from the top, ids consistent
        for (int i = 0; i < R.NumNodes(); i++) { CHECK(R.GetNode(i)->GetId() == i, "graph", "node " << i << " has id " << R.GetNode(i)->GetId()); for (int e = 0; e < R.GetNode(i)->NumEdges(); e++) { const HyperEdge * ed = R.GetNode(i)->GetEdge(e); CHECK(ed->GetHead() == R.GetNode(i) && R.GetEdge(ed->GetId()) == ed, "graph", "edge " << e << " of node " << i << " is not filed properly"); for (int t = 0; t < ed->NumTails(); t++) CHECK(ed->GetTail(t) == R.GetNode(ed->GetTail(t)->GetId()), "graph", "a tail is not a node of the graph"); } }
        if (mo == 0) { Spec & s = sp; int k = 0; for (int i = 0; i < g.NumNodes(); i++) if (s.frontier(g.GetNode(i))) { CHECK(k < R.NumNodes() && R.GetNode(k)->GetSym() == g.GetNode(i)->GetSym() && R.GetNode(k)->GetSpan() == g.GetNode(i)->GetSpan(), "nodes", "boundary node " << k); k++; } CHECK(k == R.NumNodes(), "nodes", R.NumNodes() << " boundary nodes instead of " << k); CHECK(R.GetWords() == g.GetWords(), "words", "words differ"); }
        if (mo == 2 && R.NumNodes() && !want.empty()) { vector<Rng> v = sp.versions(g.GetNode(0), MODE[2]); CHECK((int)v.size() == R.GetNode(0)->NumEdges(), "pseudo", "the pseudo root has " << R.GetNode(0)->NumEdges() << " edges for " << v.size() << " forms of the root"); }
    }
    c.state(als);
}
MC_SPACE(trees, 3) {
    pf::Opt o; o.words = 1 + c.choose(3); o.labels = 3; o.rootlab = false; o.maxar = 3; if (o.words == 3 && !c.thorough) o.labels = 2; int T = c.choose(4); c.require(o.words < 3 || T < 3 || c.thorough || o.labels == 2);
    HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); int att = T > 1 ? c.choose(T == 3 ? 3 : 2) : 0; check(c, *g, T, c.choose(1 << (o.words * T)), att, (o.words + T) % 2);
}
MC_SPACE(trees4, 3) {
    pf::Opt o; o.words = 4; o.labels = 1; o.unary = false; o.rootlab = false; o.maxar = c.thorough ? 4 : 3; int T = c.thorough ? 2 + c.choose(3) : 3;
    HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); check(c, *g, T, c.choose(1 << (4 * T)), 1, T == 2);
}
MC_SPACE(forests, 3) {
    pf::Opt o; o.words = 2 + c.choose(2); o.labels = 2; o.rootlab = false; o.unary = true; o.maxalt = 2; o.altpre = o.words == 2; o.budget = o.words == 2 ? 7 : c.thorough ? 9 : 7; int T = o.words == 2 ? 1 + c.choose(3) : 2; HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); for (int e = 0; e < g->NumEdges(); e++) g->GetEdge(e)->SetScore(-0.25 * (e % 3)); check(c, *g, T, c.choose(1 << (o.words * T)), 1, false);
}
// words anywhere: beside constituents, several below one node
static HyperNode * mixed(mc::Ctx & c, HyperGraph & g, int i, int j, int & lab) {
    HyperNode * v = new HyperNode(Dict::WID("N" + to_string(lab++)), -1, make_pair(i, j)); g.AddNode(v); HyperEdge * e = new HyperEdge(v); g.AddEdge(e); v->AddEdge(e); int m = c.choose(1 << (j - i - 1)); if (m == 0 && j - i > 1) { c.require(lab < 7); }
    vector<HyperNode *> t; int s = i; for (int b = i + 1; b <= j; b++) if (b == j || (m >> (b - i - 1) & 1)) { if (b - s == 1 && c.choose(2) == 0) { HyperNode * w = new HyperNode(g.GetWord(s), -1, make_pair(s, b)); g.AddNode(w); t.push_back(w); } else { c.require(lab < 6); t.push_back(mixed(c, g, s, b, lab)); } s = b; } e->SetTails(t); return v;
}
MC_SPACE(mixed_trees, 3) {
    int n = 1 + c.choose(3), T = 1 + c.choose(n == 3 ? 2 : 3), lab = 0; HyperGraph g; for (int i = 0; i < n; i++) g.AddWord(pf::names().word[i]); mixed(c, g, 0, n, lab); check(c, g, T, c.choose(1 << (n * T)), 1, false);
}
// all source words in one row below a node: many variables, wide null runs
MC_SPACE(wide, 3) {
    int n = 2 + c.choose(c.thorough ? 5 : 4), nest = c.choose(3), T = 1 + c.choose(c.thorough ? 7 : n < 5 ? 6 : 4), att = c.choose(4); HyperGraph g; for (int i = 0; i < n; i++) g.AddWord(pf::names().word[i % 6]);
    HyperNode * root = new HyperNode(Dict::WID("A"), -1, make_pair(0, n)); g.AddNode(root); HyperEdge * re = new HyperEdge(root); g.AddEdge(re); root->AddEdge(re); HyperNode * mid = 0; if (nest && n > 2) { int a = nest == 1 ? 0 : 1, b = nest == 1 ? n - 1 : n; mid = new HyperNode(Dict::WID("M"), -1, make_pair(a, b)); g.AddNode(mid); } HyperEdge * me = 0; if (mid) { me = new HyperEdge(mid); g.AddEdge(me); mid->AddEdge(me); }
    vector<HyperNode *> rt, mt; for (int i = 0; i < n; i++) { HyperNode * p = new HyperNode(Dict::WID("P" + to_string(i)), -1, make_pair(i, i + 1)); g.AddNode(p); HyperEdge * e = new HyperEdge(p); g.AddEdge(e); p->AddEdge(e); HyperNode * w = new HyperNode(g.GetWord(i), -1, make_pair(i, i + 1)); g.AddNode(w); e->AddTail(w); if (mid && i >= mid->GetSpan().first && i < mid->GetSpan().second) { if (mt.empty()) rt.push_back(mid); mt.push_back(p); } else rt.push_back(p); } re->SetTails(rt); if (me) me->SetTails(mt);
    // every word linked to nothing or one word
    unsigned bits = 0; uint64_t b = 0; c.require(n * T <= 42); vector<pair<int, int> > L; for (int i = 0; i < n; i++) { int t = c.choose(T + 1); if (t) L.push_back(make_pair(i, t - 1)); } (void)bits; (void)b;
    Sentence trg = target(T); Spec sp(g, T); sp.attach = att; Alignment al; string as; for (size_t i = 0; i < L.size(); i++) { al.AddAlignment(L[i]); sp.add(L[i].first, L[i].second); as += " " + to_string(L[i].first) + "-" + to_string(L[i].second); } c.describe([&]() { return pf::text(g) + " to " + to_string(T) + " words," + as + "; attach length " + to_string(att); });
    // the number of variables a rule may have for its tails to grow
    int nt = c.choose(3) * 2; ForestExtractor x; x.SetMaxAttach(att); x.SetMaxNonterm(nt); unique_ptr<HyperGraph> m(x.ExtractMinimalRules(g, al)), r(x.AttachNullsExhaustive(*m, al, T)); vector<string> want = sp.rules("exhaustive", trg, nt), got = printed(x, *r, g, trg, al, 0); c.step(got.size()); CHECK(want == got, "wide", "up to " << nt << " variables:" << diff(want, got));
}
// the program on files of several sentences
MC_SPACE(program, 3) {
    static const char * TREE[] = {"(S (A a) (B (C b) (D c)))", "(S (A (B a)) (C b))", "(X x)", "(S (A a) (B b) (C (D c) (E d)))"}; static const char * TT[] = {"(T (U u) (V v))", "(T u)", "(T (U (V u)) (W (X v) (Y w)))"}; static const char * TW[] = {"u v", "u", "u v w"};
    int k = 1 + c.choose(2), mode = c.choose(3), labels = c.choose(2), bin = c.choose(3); string fs, ft, fa; vector<string> want; string desc; bool cnt = c.flag();
    for (int s = 0; s < k; s++) {
        int a = c.choose(4), b = c.choose(3), p = c.choose(4); PennTreeIO io; istringstream is(TREE[a]); unique_ptr<HyperGraph> g(io.ReadTree(is)); if (bin) { unique_ptr<GraphTransformer> tr(Binarizer::CreateBinarizerFromString(bin == 1 ? "left" : "right")); g.reset(tr->TransformGraph(*g)); }
        Sentence trg = Dict::ParseWords(TW[b]); int T = trg.size(), n = g->GetWords().size(); Spec sp(*g, T); sp.attach = 1; string al; for (int i = 0; i < n; i++) { int t = p == 0 ? i : p == 1 ? T - 1 - i : p == 2 ? (i == n - 1 ? 0 : -1) : i / 2; if (t >= 0 && t < T) { sp.add(i, t); al += (al.empty() ? "" : " ") + to_string(i) + "-" + to_string(t); } }
        if (labels) { istringstream it(TT[b]); unique_ptr<HyperGraph> tg(io.ReadTree(it)); sp.labels = true; for (int i = tg->NumNodes() - 1; i >= 0; i--) if (tg->GetNode(i)->NumEdges()) sp.lab[Rng(tg->GetNode(i)->GetSpan().first, tg->GetNode(i)->GetSpan().second - 1)] = Dict::WSym(tg->GetNode(i)->GetSym()); }
        fs += string(TREE[a]) + "\n"; ft += string(labels ? TT[b] : TW[b]) + "\n"; fa += al + "\n"; vector<string> w = sp.rules(MODE[mode], trg, 99); if (cnt) want.push_back(to_string(w.size())); else want.insert(want.end(), w.begin(), w.end()); desc += string(TREE[a]) + " / " + TW[b] + " / " + al + "; ";
    }
    c.describe(desc + MODE[mode] + (labels ? " with target trees" : "") + (bin ? " binarized" : "")); sort(want.begin(), want.end());
    vector<string> av; const char * opt[] = {"-compose", "1", "-src_lex_len", "0", "-nonterm_len", "20", "-term_len", "50", "-attach", MODE[mode], "-binarize", bin == 0 ? "none" : bin == 1 ? "left" : "right", "-output_format", labels ? "penn" : "word", "-count_rules", cnt ? "true" : "false"}; av.insert(av.end(), opt, opt + sizeof(opt) / sizeof(*opt));
    av.push_back(run::put("x.src", fs)); av.push_back(run::put("x.trg", ft)); av.push_back(run::put("x.al", fa)); ConfigForestExtractorRunner cf; run::config(cf, av); run::Capture cap; ForestExtractorRunner().Run(cf); vector<string> got = run::lines(cap.out.str()); sort(got.begin(), got.end()); c.step(got.size()); CHECK(want == got, "program", diff(want, got));
}
int main(int argc, char ** argv) { GlobalVars::debug = 0; return mc::main(argc, argv); }
