// X02: composed rules and rule filters against the definition
#include "extract.h"
#include <travatar/forest-extractor-runner.h>
#include <travatar/config-forest-extractor-runner.h>
#include <travatar/rule-composer.h>
#include <travatar/tree-io.h>
#include <travatar/binarizer.h>
using namespace ex;
static void check(mc::Ctx & c, HyperGraph & g, int T, unsigned bits, int order, int lex, bool exh) {
    int n = g.GetWords().size(); Sentence trg = target(T); Spec sp(g, T); Alignment al; string als; sp.attach = 1; sp.order = order; sp.lex = lex;
    for (int s = 0; s < n; s++) for (int t = 0; t < T; t++) if (bits >> (s * T + t) & 1) { al.AddAlignment(make_pair(s, t)); sp.add(s, t); als += " " + to_string(s) + "-" + to_string(t); }
    c.describe([&]() { return pf::text(g) + " to " + to_string(T) + " words," + als + "; up to " + to_string(order) + " rules, lexical up to " + to_string(lex); });
    ForestExtractor x; x.SetMaxAttach(1); x.SetMaxNonterm(99); unique_ptr<HyperGraph> m(x.ExtractMinimalRules(g, al)); string before = hg::str(*m); RuleComposer rc(order, lex); unique_ptr<HyperGraph> r(rc.TransformGraph(*m)); CHECK(hg::str(*m) == before, "input", "composition changes its input");
    vector<string> want = sp.rules("none", trg), got = printed(x, *r, g, trg, al, 0); c.step(got.size()); CHECK(want == got, "compose", diff(want, got));
    for (int i = 0; i < r->NumNodes(); i++) for (int e = 0; e < r->GetNode(i)->NumEdges(); e++) { const HyperEdge * ed = r->GetNode(i)->GetEdge(e); CHECK(ed->GetHead() == r->GetNode(i) && r->GetEdge(ed->GetId()) == ed, "graph", "edge " << e << " of node " << i << " is not filed properly"); for (int t = 0; t < ed->NumTails(); t++) CHECK(ed->GetTail(t) == r->GetNode(ed->GetTail(t)->GetId()), "graph", "tail from another graph"); }
    if (exh) { unique_ptr<HyperGraph> q(x.AttachNullsExhaustive(*r, al, T)); want = sp.rules("exhaustive", trg); got = printed(x, *q, g, trg, al, 0); c.step(got.size()); CHECK(want == got, "exhaustive", diff(want, got)); unique_ptr<HyperGraph> p(x.AttachNullsTop(*r, al, T)); want = sp.rules("top", trg); got = printed(x, *p, g, trg, al, 0); CHECK(want == got, "top", diff(want, got)); }
    c.state(als);
}
MC_SPACE(trees, 3) {
    pf::Opt o; o.words = 1 + c.choose(3); o.labels = o.words == 3 ? 2 : 3; o.rootlab = false; o.maxar = 3; int T = o.words == 3 && !c.thorough ? 2 : 1 + c.choose(o.words == 3 ? 3 : 2); HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); for (int e = 0; e < g->NumEdges(); e++) g->GetEdge(e)->SetScore(-0.125 * (e % 4));
    int order = 1 + c.choose(5), lex = c.choose(o.words + 1); check(c, *g, T, c.choose(1 << (o.words * T)), order, lex, order == 2 || order == 4);
}
MC_SPACE(trees4, 3) {
    pf::Opt o; o.words = 4; o.labels = 1; o.unary = false; o.rootlab = false; o.maxar = 4; int T = c.thorough ? 3 : 2; HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); int order = c.thorough ? 1 + c.choose(6) : 1 + 2 * c.choose(3), lex = c.thorough ? c.choose(5) : c.choose(2) * 3; check(c, *g, T, c.choose(1 << (4 * T)), order, lex, false);
}
// monotone alignments of longer sentences: many boundaries
MC_SPACE(long_trees, 3) {
    pf::Opt o; o.words = 4 + c.choose(c.thorough ? 2 : 1); o.labels = 2; o.unary = c.thorough; o.rootlab = false; o.maxar = 4; HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); int T = o.words, p = c.choose(3); unsigned bits = 0; for (int i = 0; i < T; i++) bits |= 1u << (i * T + (p == 0 ? i : p == 1 ? T - 1 - i : i ^ 1) % T); check(c, *g, T, bits, 1 + c.choose(c.thorough ? 5 : 4), c.choose(2) * 2, false);
}
MC_SPACE(forests, 3) {
    pf::Opt o; o.words = 2 + c.choose(2); o.labels = 2; o.rootlab = false; o.unary = true; o.maxalt = 2; o.altpre = o.words == 2; o.budget = o.words == 2 ? 7 : c.thorough ? 8 : 7; int T = 2; HyperGraph raw; pf::Maker m(c, raw, o); unique_ptr<HyperGraph> g(pf::ordered(raw)); for (int e = 0; e < g->NumEdges(); e++) g->GetEdge(e)->SetScore(-0.25 * (e % 3)); check(c, *g, T, c.choose(1 << (o.words * T)), 2 + c.choose(2), c.choose(2) * 2, c.flag());
}
// composing rules that already have target sides: substitution and renumbering of variables
struct Sub { vector<vector<int> > trg; vector<int> vars; double score; };
static const vector<HyperEdge *> & frags(const HyperEdge * e) { return static_cast<const RuleEdge *>(e)->GetFragmentEdges(); }
static bool inside(const HyperEdge * e, const set<const HyperEdge *> & fr) { for (size_t i = 0; i < frags(e).size(); i++) if (!fr.count(frags(e)[i])) return false; return true; }
static Sub subst(const HyperGraph & m, const HyperNode * v, const set<const HyperEdge *> & fr) {
    const HyperEdge * top = 0; for (int e = 0; e < v->NumEdges(); e++) if (inside(v->GetEdge(e), fr)) top = v->GetEdge(e); Sub s; s.score = top->GetScore(); vector<Sub> ch(top->NumTails()); vector<int> base;
    for (int t = 0; t < top->NumTails(); t++) { const HyperNode * d = top->GetTail(t); bool in = false; for (int e = 0; e < d->NumEdges(); e++) in = in || inside(d->GetEdge(e), fr); base.push_back(s.vars.size()); if (in) { ch[t] = subst(m, d, fr); s.score += ch[t].score; s.vars.insert(s.vars.end(), ch[t].vars.begin(), ch[t].vars.end()); } else s.vars.push_back(d->GetId()); }
    for (size_t f = 0; f < top->GetTrgData().size(); f++) { vector<int> o; const Sentence & w = top->GetTrgData()[f].words; for (size_t i = 0; i < w.size(); i++) if (w[i] >= 0) o.push_back(w[i]); else { int t = -1 - w[i]; if (ch[t].trg.empty()) o.push_back(-1 - base[t]); else for (size_t k = 0; k < ch[t].trg[f].size(); k++) { int x = ch[t].trg[f][k]; o.push_back(x >= 0 ? x : x - base[t]); } } s.trg.push_back(o); }
    return s;
}
MC_SPACE(target_sides, 3) {
    static const char * TREE[] = {"(S (A (C c) (D d)) (B b))", "(S (A a) (B (C c) (D d)))", "(S (A (C c) (D d)) (B (E e) (F f)))", "(S (A a) (B (C c) (D d) (E e)) (F f))", "(R (S (A a) (B b)))", "(S (A (C c)) (B (D d)) (E e))"};
    int which = c.choose(6), fac = 1 + c.choose(2), order = 2 + c.choose(5); PennTreeIO io; istringstream is(TREE[which]); unique_ptr<HyperGraph> g(io.ReadTree(is)); Alignment al; for (size_t i = 0; i < g->GetWords().size(); i++) al.AddAlignment(make_pair(i, i)); ForestExtractor x; unique_ptr<HyperGraph> m(x.ExtractMinimalRules(*g, al));
    static const int P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int e = 0; e < m->NumEdges(); e++) { RuleEdge * ed = static_cast<RuleEdge *>(m->GetEdge(e)); int nt = ed->NumTails(); CfgDataVector v(fac); for (int f = 0; f < fac; f++) { int perm = nt < 2 ? 0 : c.choose(nt == 2 ? 2 : 6), pad = f == 0 && nt < 3 ? c.choose(nt ? 3 : 2) : 1; Sentence w; if (pad == 1) w.push_back(Dict::WID("w" + to_string(e))); for (int k = 0; k < nt; k++) w.push_back(-1 - (nt == 1 ? 0 : nt == 2 ? (perm ? 1 - k : k) : P3[perm][k])); if (pad == 2) w.push_back(Dict::WID("v" + to_string(e))); v[f].words = w; } ed->SetTrgData(v); ed->SetScore(-0.5 * (e + 1)); }
    c.describe([&]() { return hg::str(*m) + " up to " + to_string(order) + " rules"; }); RuleComposer rc(order, 0); unique_ptr<HyperGraph> r(rc.TransformGraph(*m)); set<string> seen;
    for (int e = 0; e < r->NumEdges(); e++) {
        const HyperEdge * ed = r->GetEdge(e); const vector<HyperEdge *> & fe = frags(ed); set<const HyperEdge *> fr(fe.begin(), fe.end()); CHECK(fr.size() == fe.size(), "fragments", "a source hyperedge occurs twice in a rule"); for (size_t i = 1; i < fe.size(); i++) CHECK(fe[i - 1]->GetHead()->GetId() < fe[i]->GetHead()->GetId(), "fragments", "source hyperedges out of order");
        Sub s = subst(*m, m->GetNode(ed->GetHead()->GetId()), fr); vector<int> tails; for (int t = 0; t < ed->NumTails(); t++) tails.push_back(ed->GetTail(t)->GetId()); vector<vector<int> > got; for (size_t f = 0; f < ed->GetTrgData().size(); f++) got.push_back(ed->GetTrgData()[f].words); c.step();
        CHECK(tails == s.vars, "variables", hg::str(*r) << ": edge " << e << " has the wrong variables"); CHECK(got == s.trg, "target", hg::str(*r) << ": edge " << e << " has the wrong target side"); CHECK(ed->GetScore() == s.score, "score", "edge " << e << " scores " << ed->GetScore() << " instead of " << s.score);
        ostringstream k; k << ed->GetHead()->GetId(); for (size_t i = 0; i < fe.size(); i++) k << " " << fe[i]->GetId(); CHECK(seen.insert(k.str()).second, "twice", "the same combination twice");
    }
    c.state(hg::str(*m));
}
// the program's filters and partial counts
static pair<string, double> cut(const string & l) { size_t a = l.find(" ||| "), b = l.find(" ||| ", a + 5), e = l.find(" ||| ", b + 5); return make_pair(l.substr(0, b) + l.substr(e), atof(l.substr(b + 5, e - b - 5).c_str())); }
MC_SPACE(program, 3) {
    static const char * TREE[] = {"(S (A a) (B (C b) (D c)))", "(S (A (B a)) (C b))", "(X x)", "(S (A a) (B b) (C (D c) (E d)))", "(S (A (C c) (D d)) (B b))"}; static const char * TW[] = {"u v", "u", "u v w", "t u v w x"};
    int a = c.choose(5), b = c.choose(4), p = c.choose(5), mode = c.choose(3), order = 1 + c.choose(4), lex = c.choose(4), nt = c.choose(3), tl = c.choose(4), th = c.choose(4); bool norm = c.flag(); if (!c.thorough) { c.require(order != 3 && (lex == 3 || lex == 0)); }
    static const double TH[] = {0, 0.15, 0.3, 0.6}; c.require(!th || norm); c.require(mode != 2 || nt == 2 || order == 1); static const int TL[] = {0, 1, 2, 9}, NT[] = {0, 1, 9}; PennTreeIO io; istringstream is(TREE[a]); unique_ptr<HyperGraph> g(io.ReadTree(is)); Sentence trg = Dict::ParseWords(TW[b]); int T = trg.size(), n = g->GetWords().size(); string al; Spec sp(*g, T); sp.attach = 1; sp.order = order; sp.lex = lex == 3 ? TL[tl] : lex;
    for (int i = 0; i < n; i++) { int t = p == 0 ? i : p == 1 ? T - 1 - i : p == 2 ? (i == n - 1 ? 0 : -1) : p == 3 ? i / 2 : 2 * i + 1; if (t >= 0 && t < T) { sp.add(i, t); al += (al.empty() ? "" : " ") + to_string(i) + "-" + to_string(t); } }
    c.describe(string(TREE[a]) + " / " + TW[b] + " / " + al + " " + MODE[mode] + ", up to " + to_string(order) + " rules, lexical " + to_string(sp.lex) + ", variables " + to_string(NT[nt]) + ", words " + to_string(TL[tl]) + ", threshold " + to_string(TH[th]) + (norm ? " normalized" : ""));
    // what the limits leave
    map<string, vector<double> > count; bool post = norm; if (post) { ForestExtractor x; x.SetMaxAttach(1); x.SetMaxNonterm(NT[nt]); Alignment A = Alignment::FromString(al); unique_ptr<HyperGraph> r(x.ExtractMinimalRules(*g, A)); RuleComposer rc(order, sp.lex); r.reset(rc.TransformGraph(*r)); if (mode == 1) r.reset(x.AttachNullsTop(*r, A, T)); if (mode == 2) r.reset(x.AttachNullsExhaustive(*r, A, T));
        if (r->NumNodes()) { vector<hg::Deriv> d; map<const HyperNode *, vector<hg::Deriv> > memo; hg::derivs(r->GetNode(0), d, memo); map<const HyperEdge *, double> w; for (size_t i = 0; i < d.size(); i++) for (size_t k = 0; k < d[i].edges.size(); k++) w[d[i].edges[k]] += exp(d[i].score) / d.size(); for (int e = 0; e < r->NumEdges(); e++) { RuleEdge * ed = static_cast<RuleEdge *>(r->GetEdge(e)); if (ed->GetHead()->IsFrontier() == HyperNode::NOT_FRONTIER) continue; count[cut(x.RuleToString(*ed, g->GetWords(), trg, A)).first].push_back(w.count(ed) ? w[ed] : 0); } } }
    vector<string> all = sp.rules(MODE[mode], trg, NT[nt]); map<string, double> want, got;
    for (size_t i = 0; i < all.size(); i++) {
        pair<string, double> r = cut(all[i]); size_t bar = r.first.find(" |||"), bar2 = r.first.find(" ||| ", bar + 4); vector<string> s = run::split(r.first.substr(0, bar), ' '), t = run::split(r.first.substr(bar + 4, bar2 - bar - 4), ' '); int v = 0, sw = 0, tw = 0; for (size_t k = 0; k < s.size(); k++) { if (s[k][0] == '"') sw++; if (s[k][0] == 'x' && s[k].find(':') != string::npos) v++; } for (size_t k = 0; k < t.size(); k++) if (t[k][0] == '"') tw++;
        if (v > NT[nt] || sw > TL[tl] || tw > TL[tl]) continue; if (!post) { want[r.first] += 1; continue; } vector<double> & e = count[r.first]; double x = 0; bool any = false; for (size_t k = 0; k < e.size(); k++) { if (th && fabs(e[k] - TH[th]) < 1e-6) throw mc::Reject(); if (e[k] > TH[th]) { x += e[k]; any = true; } } if (any) want[r.first] = x;
    }
    vector<string> av; const char * opt[] = {"-attach", MODE[mode], "-binarize", "none"}; av.insert(av.end(), opt, opt + 4); const string o2[] = {"-compose", to_string(order), "-nonterm_len", to_string(NT[nt]), "-term_len", to_string(TL[tl]), "-normalize_probs", norm ? "true" : "false", "-partial_count_thresh", to_string(TH[th])}; av.insert(av.end(), o2, o2 + 10); if (lex < 3) { av.push_back("-src_lex_len"); av.push_back(to_string(lex)); }
    av.push_back(run::put("x.src", string(TREE[a]) + "\n")); av.push_back(run::put("x.trg", string(TW[b]) + "\n")); av.push_back(run::put("x.al", al + "\n")); ConfigForestExtractorRunner cf; run::config(cf, av); run::Capture cap; ForestExtractorRunner().Run(cf); vector<string> out = run::lines(cap.out.str()); for (size_t i = 0; i < out.size(); i++) { pair<string, double> r = cut(out[i]); got[r.first] += r.second; } c.step(out.size());
    string d; for (map<string, double>::iterator i = want.begin(); i != want.end(); ++i) if (!got.count(i->first)) d += "\n   missing " + i->first; else if (fabs(got[i->first] - i->second) > 1e-4) d += "\n   count " + to_string(got[i->first]) + " instead of " + to_string(i->second) + " for " + i->first; for (map<string, double>::iterator i = got.begin(); i != got.end(); ++i) if (!want.count(i->first)) d += "\n   surplus " + i->first;
    CHECK(d.empty(), norm ? "counts" : "filter", d);
}
int main(int argc, char ** argv) { GlobalVars::debug = 0; return mc::main(argc, argv); }
