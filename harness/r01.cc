// R01: applying a tree-to-string rule table to every small parse tree or forest
#include "pforest.h"
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/translation-rule.h>
using namespace travatar; using namespace std;

struct Frag { int kind, sym; vector<Frag> ch; };     // kind 0: inner node, 1: variable, 2: word
static string ftext(const Frag & f, int & v) {
    if (f.kind == 1) return "x" + to_string(v++) + ":" + Dict::WSym(f.sym);
    if (f.kind == 2) return "\"" + Dict::WSym(f.sym) + "\"";
    string r = Dict::WSym(f.sym) + " ("; for (size_t i = 0; i < f.ch.size(); i++) r += " " + ftext(f.ch[i], v); return r + " )";
}
static string ftext(const Frag & f) { int v = 0; return ftext(f, v); }
static int nvars(const Frag & f) { if (f.kind) return f.kind == 1; int n = 0; for (size_t i = 0; i < f.ch.size(); i++) n += nvars(f.ch[i]); return n; }
static void vlabs(const Frag & f, vector<int> & o) { if (f.kind == 1) o.push_back(f.sym); for (size_t i = 0; i < f.ch.size(); i++) vlabs(f.ch[i], o); }
struct Match { vector<const HyperNode *> vars; map<int, double> feats; };
static vector<Match> matches(const Frag & f, const HyperNode * n) {
    vector<Match> r; bool term = n->NumEdges() == 0;
    if (f.sym != n->GetSym() || (f.kind == 2) != term) return r;
    if (f.kind) { Match m; if (f.kind == 1) m.vars.push_back(n); r.push_back(m); return r; }
    for (int e = 0; e < n->NumEdges(); e++) {
        const HyperEdge * ed = n->GetEdge(e); if (ed->NumTails() != (int)f.ch.size()) continue;
        vector<Match> cur(1); cur[0].feats = hg::tomap(ed->GetFeatures());
        for (size_t t = 0; t < f.ch.size(); t++) { vector<Match> sub = matches(f.ch[t], ed->GetTail(t)), nx;
            for (size_t a = 0; a < cur.size(); a++) for (size_t b = 0; b < sub.size(); b++) { Match m = cur[a]; m.vars.insert(m.vars.end(), sub[b].vars.begin(), sub[b].vars.end()); for (map<int, double>::iterator i = sub[b].feats.begin(); i != sub[b].feats.end(); i++) m.feats[i->first] += i->second; nx.push_back(m); }
            cur.swap(nx); }
        r.insert(r.end(), cur.begin(), cur.end());
    }
    return r;
}
struct Rule { Frag src; CfgDataVector trg; map<int, double> feats; string line; };
// expected forest
struct ON; struct OE { string trg, src; map<int, double> feats; vector<ON *> tails; };
struct ON { string name; vector<OE> edges; };
struct Exp { deque<ON> nodes; ON * root; ON * add(const string & n) { nodes.push_back(ON()); nodes.back().name = n; return &nodes.back(); } };
static string fstr(const map<int, double> & f) { map<string, double> m; for (map<int, double>::const_iterator i = f.begin(); i != f.end(); i++) if (i->second != 0) m[Dict::WSym(i->first)] = i->second; ostringstream o; o.precision(9); for (map<string, double>::iterator i = m.begin(); i != m.end(); i++) o << i->first << "=" << i->second << " "; return o.str(); }
static string tstr(const CfgDataVector & d) { ostringstream o; for (size_t i = 0; i < d.size(); i++) { o << "{"; for (size_t w = 0; w < d[i].words.size(); w++) o << d[i].words[w] << " "; o << "@" << d[i].label << ":"; for (size_t s = 0; s < d[i].syms.size(); s++) o << d[i].syms[s] << " "; o << "}"; } return o.str(); }
static map<string, int> & intern() { static map<string, int> m; return m; }
static int num(const string & s) { map<string, int> & m = intern(); map<string, int>::iterator i = m.find(s); if (i != m.end()) return i->second; int k = m.size(); m[s] = k; return k; }
static int canon(const ON * n, map<const ON *, int> & memo) {
    if (memo.count(n)) return memo[n]; vector<string> es;
    for (size_t e = 0; e < n->edges.size(); e++) { string s = n->edges[e].trg + "#" + fstr(n->edges[e].feats) + "#" + n->edges[e].src + "#"; for (size_t t = 0; t < n->edges[e].tails.size(); t++) s += to_string(canon(n->edges[e].tails[t], memo)) + ","; es.push_back(s); }
    sort(es.begin(), es.end()); string r = n->name; for (size_t i = 0; i < es.size(); i++) r += "\n" + es[i]; return memo[n] = num(r);
}
static string nname(const HyperNode * n) { return Dict::WSym(n->GetSym()) + "[" + to_string(n->GetSpan().first) + "," + to_string(n->GetSpan().second) + "]"; }
static int canon(const HyperNode * n, map<const HyperNode *, int> & memo) {
    if (memo.count(n)) return memo[n]; vector<string> es;
    for (int e = 0; e < n->NumEdges(); e++) { const HyperEdge * d = n->GetEdge(e); string s = tstr(d->GetTrgData()) + "#" + fstr(hg::tomap(d->GetFeatures())) + "#" + d->GetSrcStr() + "#"; for (int t = 0; t < d->NumTails(); t++) s += to_string(canon(d->GetTail(t), memo)) + ","; es.push_back(s); }
    sort(es.begin(), es.end()); string r = nname(n); for (size_t i = 0; i < es.size(); i++) r += "\n" + es[i]; return memo[n] = num(r);
}
static string name_of(int k) { map<string, int> & m = intern(); for (map<string, int>::iterator i = m.begin(); i != m.end(); i++) if (i->second == k) return i->first; return "?"; }
struct Cfg { bool all, src, trg; int factors; };
static int UNK, PEN, CHI;
static void unk_edges(const HyperGraph & g, const HyperNode * n, ON * out, map<const HyperNode *, ON *> & m, const Cfg & k) {
    for (int e = 0; e < n->NumEdges(); e++) {
        const HyperEdge * d = n->GetEdge(e); OE o; o.feats = hg::tomap(d->GetFeatures()); o.feats[UNK] += 1; Sentence w; string src = Dict::WSym(n->GetSym()) + " (";
        for (int t = 0; t < d->NumTails(); t++) if (d->GetTail(t)->NumEdges()) { src += " x" + to_string(o.tails.size()) + ":" + Dict::WSym(d->GetTail(t)->GetSym()); w.push_back(-1 - (int)o.tails.size()); o.tails.push_back(m[d->GetTail(t)]); }
        if (o.tails.empty()) { w.push_back(g.GetWord(n->GetSpan().first)); src += " \"" + Dict::WSym(w[0]) + "\""; }
        o.trg = tstr(CfgDataVector(k.factors, CfgData(w))); if (k.src) o.src = src + " )";
        out->edges.push_back(o);
    }
}
static void expect(const HyperGraph & g, const vector<Rule> & rules, const Cfg & k, Exp & x) {
    map<const HyperNode *, ON *> m; int n = g.NumNodes(); x.root = 0;
    if (!k.trg) {
        for (int i = 0; i < n; i++) if (g.GetNode(i)->NumEdges()) { m[g.GetNode(i)] = x.add(nname(g.GetNode(i))); if (!x.root) x.root = m[g.GetNode(i)]; }
        for (int i = 0; i < n; i++) { const HyperNode * nd = g.GetNode(i); if (!nd->NumEdges()) continue; bool any = false;
            for (size_t r = 0; r < rules.size(); r++) { vector<Match> ms = matches(rules[r].src, nd);
                for (size_t q = 0; q < ms.size(); q++) { any = true; OE e; e.trg = tstr(rules[r].trg); e.feats = ms[q].feats; for (map<int, double>::const_iterator f = rules[r].feats.begin(); f != rules[r].feats.end(); f++) e.feats[f->first] += f->second; if (k.src) e.src = ftext(rules[r].src); for (size_t v = 0; v < ms[q].vars.size(); v++) e.tails.push_back(m[ms[q].vars[v]]); m[nd]->edges.push_back(e); } }
            if (!any || k.all) unk_edges(g, nd, m[nd], m, k); }
        return;
    }
    map<pair<const HyperNode *, vector<int> >, ON *> heads;
    for (int i = n - 1; i >= 0; i--) { const HyperNode * nd = g.GetNode(i); if (!nd->NumEdges()) continue;
        ON * chi = m[nd] = x.add(Dict::WSym(CHI) + nname(nd).substr(nname(nd).find('['))); vector<ON *> mine;
        for (size_t r = 0; r < rules.size(); r++) { vector<Match> ms = matches(rules[r].src, nd);
            for (size_t q = 0; q < ms.size(); q++) {
                vector<int> lab; for (size_t f = 0; f < rules[r].trg.size(); f++) lab.push_back(rules[r].trg[f].label);
                ON * & h = heads[make_pair(nd, lab)]; if (!h) { h = x.add(nname(nd)); mine.push_back(h); }
                OE e; e.trg = tstr(rules[r].trg); e.feats = ms[q].feats; for (map<int, double>::const_iterator f = rules[r].feats.begin(); f != rules[r].feats.end(); f++) e.feats[f->first] += f->second; if (k.src) e.src = ftext(rules[r].src);
                for (size_t v = 0; v < ms[q].vars.size(); v++) { vector<int> want; for (size_t f = 0; f < rules[r].trg.size(); f++) want.push_back(rules[r].trg[f].GetSym(v));
                    map<pair<const HyperNode *, vector<int> >, ON *>::iterator it = heads.find(make_pair(ms[q].vars[v], want));
                    if (it != heads.end()) e.tails.push_back(it->second); else { e.tails.push_back(m[ms[q].vars[v]]); e.feats[PEN] += 1; } }
                h->edges.push_back(e); } }
        for (size_t h = 0; h < mine.size(); h++) { OE e; e.trg = tstr(CfgDataVector(k.factors, CfgData(Sentence(1, -1)))); if (k.src) e.src = Dict::WSym(nd->GetSym()) + " ( x0:" + Dict::WSym(CHI) + " )"; e.tails.push_back(mine[h]); chi->edges.push_back(e); }
        if (mine.empty() || k.all) unk_edges(g, nd, chi, m, k);
        x.root = chi; }
}
static void check(mc::Ctx & c, const HyperGraph & g, const vector<Rule> & rules, const Cfg & k) {
    string table; for (size_t i = 0; i < rules.size(); i++) table += rules[i].line + "\n";
    c.describe("forest: " + hg::str(g) + (k.all ? " [match all unk]" : "") + (k.trg ? " [consider target]" : "") + (k.src ? " [save source]" : "") + " rules:\n" + table);
    GlobalVars::trg_factors = k.factors; if (intern().size() > 100000) intern().clear(); Exp x; expect(g, rules, k, x); map<const ON *, int> om; vector<int> want; for (size_t i = 0; i < x.nodes.size(); i++) want.push_back(canon(&x.nodes[i], om)); int wroot = om[x.root]; sort(want.begin(), want.end());
    string before = hg::str(g);
    for (int kind = 0; kind < 2; kind++) {
        istringstream in(table); unique_ptr<LookupTable> t; if (kind) t.reset(LookupTableMarisa::ReadFromRuleTable(in)); else t.reset(LookupTableHash::ReadFromRuleTable(in));
        t->SetMatchAllUnk(k.all); t->SetSaveSrcStr(k.src); t->SetConsiderTrg(k.trg);
        unique_ptr<HyperGraph> r(t->TransformGraph(g)); map<const HyperNode *, int> rm; vector<int> got; string nm = kind ? "compact" : "hash";
        for (int i = 0; i < r->NumNodes(); i++) { CHECK(r->GetNode(i)->GetId() == i, nm + "-ids", "node ids"); got.push_back(canon(r->GetNode(i), rm)); for (int e = 0; e < r->GetNode(i)->NumEdges(); e++) CHECK(r->GetNode(i)->GetEdge(e)->GetHead() == r->GetNode(i), nm + "-head", "edge with another head"); }
        set<const HyperEdge *> es; for (int i = 0; i < r->NumEdges(); i++) es.insert(r->GetEdge(i)); int ne = 0; for (int i = 0; i < r->NumNodes(); i++) { ne += r->GetNode(i)->NumEdges(); for (int e = 0; e < r->GetNode(i)->NumEdges(); e++) CHECK(es.count(r->GetNode(i)->GetEdge(e)), nm + "-list", "edge not in the graph's list"); } CHECK(ne == (int)es.size() && ne == r->NumEdges(), nm + "-list", "edge list and nodes disagree");
        int groot = rm[r->GetNode(0)]; sort(got.begin(), got.end());
        if (groot != wroot || got != want) {
            string a, b; for (size_t i = 0; i < want.size(); i++) if (!std::count(got.begin(), got.end(), want[i])) a += name_of(want[i]) + " ;; "; for (size_t i = 0; i < got.size(); i++) if (!std::count(want.begin(), want.end(), got[i])) b += name_of(got[i]) + " ;; ";
            c.fail(nm, "the " + nm + " table's forest differs. Missing nodes: " + a + " extra nodes: " + b + (groot != wroot ? " (root differs)" : "") + " whole forest: " + hg::str(*r));
        }
        CHECK(r->GetWords() == g.GetWords(), nm + "-words", "words of the sentence changed"); CHECK(hg::str(g) == before, nm + "-input", "the input forest changed"); c.step();
    }
    c.state(hash<string>()(hg::str(g) + table));
}
static Frag F(int kind, int sym) { Frag f; f.kind = kind; f.sym = sym; return f; }
static const vector<Frag> & universe(int labels, int words) {
    static map<pair<int, int>, vector<Frag> > memo; vector<Frag> & u = memo[make_pair(labels, words)]; if (!u.empty()) return u;
    vector<Frag> lv, pre, d1; for (int l = 0; l < labels; l++) { lv.push_back(F(1, pf::names().lab[l])); for (int w = 0; w < words; w++) { Frag f = F(0, pf::names().lab[l]); f.ch.push_back(F(2, pf::names().word[w])); pre.push_back(f); } }
    for (int l = 0; l < labels; l++) { for (size_t a = 0; a < lv.size(); a++) { Frag f = F(0, pf::names().lab[l]); f.ch.push_back(lv[a]); d1.push_back(f); for (size_t b = 0; b < lv.size(); b++) { Frag h = f; h.ch.push_back(lv[b]); d1.push_back(h); } } }
    vector<Frag> kids = lv; kids.insert(kids.end(), pre.begin(), pre.end()); kids.insert(kids.end(), d1.begin(), d1.end());
    u = pre; for (int l = 0; l < labels; l++) for (size_t a = 0; a < kids.size(); a++) { Frag f = F(0, pf::names().lab[l]); f.ch.push_back(kids[a]); u.push_back(f); for (size_t b = 0; b < kids.size(); b++) { Frag h = f; h.ch.push_back(kids[b]); u.push_back(h); } }
    return u;
}
// target sides: order of variables, labels
static Rule rule(const Frag & f, int variant, int id, int factors, bool labels) {
    Rule r; r.src = f; vector<int> vl; vlabs(f, vl); int n = vl.size(); ostringstream o;
    for (int fa = 0; fa < factors; fa++) {
        CfgData d; int v = (variant + fa) % 3;
        if (v == 1) d.words.push_back(Dict::WID("t" + to_string(id)));
        for (int i = 0; i < n; i++) d.words.push_back(-1 - (v == 1 ? n - 1 - i : i));
        if (v != 1) d.words.push_back(Dict::WID("t" + to_string(id)));
        if (labels && v != 2) { d.label = Dict::WID(v ? "X" : "Y"); for (int i = 0; i < n; i++) d.syms.push_back(Dict::WID((variant + i) % 2 ? "X" : "Y")); }
        r.trg.push_back(d); o << (fa ? " |COL| " : "") << Dict::PrintAnnotatedWords(d);
    }
    if (variant != 2) { r.feats[Dict::WID("f" + to_string(id))] = 0.5 * (variant + 1); r.feats[Dict::WID("p0")] = 3; }
    r.line = ftext(f) + " ||| " + o.str() + " |||"; for (map<int, double>::iterator i = r.feats.begin(); i != r.feats.end(); i++) r.line += " " + Dict::WSym(i->first) + "=" + to_string(i->second); if (r.feats.empty()) r.line += " ";
    return r;
}
static HyperGraph * forest(mc::Ctx & c, pf::Opt & o) { HyperGraph raw; pf::Maker m(c, raw, o); return pf::ordered(raw); }
// one rule of every shape against every tree and small forest
static void single(mc::Ctx & c, int words, int labels, int vocab, int alt, int budget) {
    pf::Opt o; o.words = words; o.labels = labels; o.vocab = vocab; o.maxalt = alt; o.budget = budget; o.feats = true; o.altpre = alt > 1; unique_ptr<HyperGraph> g(forest(c, o));
    const vector<Frag> & u = universe(labels, vocab); vector<Rule> rs(1, rule(u[c.choose(u.size())], 0, 0, 1, true)); int k = c.choose(3); Cfg cf = {k == 1, true, k == 2, 1};
    check(c, *g, rs, cf);
}
MC_SPACE(one_rule, 3) { single(c, c.range(1, 2), 2, 2, 1, 20); }
MC_SPACE(one_rule_forest, 3) { single(c, c.range(1, 2), 2, 1, 2, 6); }
// rules that could match, and near misses, in every combination
static void fragments(const HyperNode * n, int depth, vector<Frag> & out) {   // matching at n
    if (!n->NumEdges()) return;
    for (int e = 0; e < n->NumEdges(); e++) {
        vector<vector<Frag> > cur(1);
        for (int t = 0; t < n->GetEdge(e)->NumTails(); t++) { const HyperNode * ch = n->GetEdge(e)->GetTail(t); vector<Frag> opt; if (!ch->NumEdges()) opt.push_back(F(2, ch->GetSym())); else { opt.push_back(F(1, ch->GetSym())); if (depth > 0) fragments(ch, depth - 1, opt); }
            vector<vector<Frag> > nx; for (size_t a = 0; a < cur.size(); a++) for (size_t b = 0; b < opt.size(); b++) { nx.push_back(cur[a]); nx.back().push_back(opt[b]); } cur.swap(nx); }
        for (size_t a = 0; a < cur.size(); a++) { Frag f = F(0, n->GetSym()); f.ch = cur[a]; out.push_back(f); }
    }
}
static void multi(mc::Ctx & c, int words, int alt, int budget, int nr, int depth, int labels, bool trgonly) {
    pf::Opt o; o.words = words; o.labels = labels; o.maxalt = alt; o.budget = budget; o.feats = true; o.altpre = alt > 1; unique_ptr<HyperGraph> g(forest(c, o));
    vector<Frag> fs, uniq; set<string> seen; for (int i = 0; i < g->NumNodes(); i++) fragments(g->GetNode(i), depth, fs);
    for (size_t i = 0; i < fs.size(); i++) if (seen.insert(ftext(fs[i])).second) uniq.push_back(fs[i]);
    // near misses: another label on the last variable, another word
    if (!uniq.empty()) { Frag f = F(0, pf::names().lab[0]); f.ch.push_back(F(1, pf::names().lab[1])); f.ch.push_back(F(1, pf::names().lab[1])); f.ch.push_back(F(1, pf::names().lab[0])); if (seen.insert(ftext(f)).second) uniq.push_back(f); }
    c.require(uniq.size() <= 30);
    int mode = trgonly ? 2 + c.choose(2) : c.choose(2); Cfg cf = {(mode & 1) != 0, !trgonly, mode >= 2, 1};
    vector<Rule> rs; for (int i = 0; i < nr; i++) { int k = c.choose(uniq.size() + (i > 0)); if (k == (int)uniq.size()) break; int v = trgonly ? c.choose(3) : i % 3; rs.push_back(rule(uniq[k], v, i, 1, true)); }
    check(c, *g, rs, cf);
}
MC_SPACE(tables2, 3) { multi(c, 3, 1, 20, 2, 1, 2, false); }
MC_SPACE(tables3, 3) { multi(c, c.range(1, 2), 1, 20, 3, 2, 2, false); }
MC_SPACE(tables_forest, 3) { multi(c, 2, 2, 6, 2, 2, 2, false); }
MC_SPACE(target, 3) { multi(c, c.range(1, 2), 1, 20, 2, 1, 2, true); }
MC_SPACE(target_forest, 3) { multi(c, 2, 2, 5, 2, 1, 2, true); }
MC_SPACE(forest3, 2) { multi(c, 3, 2, 8, 2, 2, 2, false); }
MC_SPACE(tables2_deep, 2) { multi(c, 3, 1, 20, 2, 2, 2, false); }
MC_SPACE(tables3_words3, 2) { multi(c, 3, 1, 20, 3, 2, 2, false); }
MC_SPACE(target3, 2) { multi(c, c.range(1, 2), 2, 6, 3, 2, 2, true); }
MC_SPACE(one_rule_3, 2) { single(c, 3, 2, 2, 1, 20); }
// several factors
MC_SPACE(factors, 3) {
    pf::Opt o; o.words = c.range(1, 2); o.labels = 2; o.feats = true; unique_ptr<HyperGraph> g(forest(c, o)); vector<Frag> fs; for (int i = 0; i < g->NumNodes(); i++) fragments(g->GetNode(i), 1, fs);
    bool trg = c.flag(); Cfg cf = {c.flag(), true, trg, 2}; vector<Rule> rs; for (int i = 0; i < 2; i++) rs.push_back(rule(fs[c.choose(fs.size())], c.choose(3), i, 2, true)); check(c, *g, rs, cf);
}
// words and labels that look like table syntax
MC_SPACE(odd_names, 3) {
    static const char * L[] = {"A", "(", ")", "x0:A", "\"a\"", "A:B", "|||"}, * W[] = {"a", "\"", "(", ")", "x0:A", "|||", "@", "\\", "\xe3\x81\x82"};
    string l1 = L[c.choose(6)], l2 = L[c.choose(6)], w1 = W[c.choose(9)], w2 = W[c.choose(9)]; c.require(w1 != "|||" || true);
    HyperGraph g; g.AddWord(Dict::WID(w1)); g.AddWord(Dict::WID(w2)); int root = Dict::WID("R");
    HyperNode * n[5]; n[0] = new HyperNode(root, -1, SpanId(0, 2)); n[1] = new HyperNode(Dict::WID(l1), -1, SpanId(0, 1)); n[2] = new HyperNode(Dict::WID(l2), -1, SpanId(1, 2)); n[3] = new HyperNode(Dict::WID(w1), -1, SpanId(0, 1)); n[4] = new HyperNode(Dict::WID(w2), -1, SpanId(1, 2)); for (int i = 0; i < 5; i++) g.AddNode(n[i]);
    for (int i = 0; i < 3; i++) { HyperEdge * e = new HyperEdge(n[i]); n[i]->AddEdge(e); g.AddEdge(e); if (i == 0) { e->AddTail(n[1]); e->AddTail(n[2]); } else e->AddTail(n[2 + i]); }
    vector<Frag> fs, all; for (int i = 0; i < 3; i++) fragments(n[i], 2, fs); for (size_t i = 0; i < fs.size(); i++) all.push_back(fs[i]);
    vector<Rule> rs; for (size_t i = 0; i < all.size(); i++) if (i % 3 == 0 || c.replay || true) rs.push_back(rule(all[i], 0, i, 1, false));
    // the same text may be built twice when both words and labels agree
    set<string> seen; vector<Rule> u; for (size_t i = 0; i < rs.size(); i++) if (seen.insert(ftext(rs[i].src)).second) u.push_back(rs[i]);
    int drop = c.choose(4); vector<Rule> v; for (size_t i = 0; i < u.size(); i++) if ((int)(i % 4) != drop) v.push_back(u[i]); Cfg cf = {false, true, false, 1}; check(c, g, v, cf);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; pf::names(); UNK = Dict::WID("unk"); PEN = Dict::WID("unmatch_trg"); CHI = Dict::WID("\xcf\x87"); }); }
