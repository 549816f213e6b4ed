// R02: grammar-based parsing against a fixpoint computation of everything the grammar licenses
#include "canon.h"
#include <travatar/lookup-table-fsm.h>
#include <travatar/translation-rule-hiero.h>
using namespace travatar; using namespace std; using namespace canon;

static int LX, LS, LY, W[4];
struct Rule { CfgData src; CfgDataVector trg; map<int, double> feats; string line; int g; };
struct Item { int i, j; vector<int> lab; bool operator<(const Item & o) const { return i != o.i ? i < o.i : j != o.j ? j < o.j : lab < o.lab; } };
static vector<int> head(const Rule & r) { vector<int> v(1, r.src.label); for (size_t f = 0; f < r.trg.size(); f++) v.push_back(r.trg[f].label); return v; }
static vector<int> child(const Rule & r, int k) { vector<int> v(1, r.src.syms[k]); for (size_t f = 0; f < r.trg.size(); f++) v.push_back(r.trg[f].syms[k]); return v; }
// all ways of covering [i,j) by the source symbols from k on
static void cover(const Rule & r, size_t k, int i, int j, const Sentence & s, const set<Item> & have, int limit, vector<Item> & cur, vector<vector<Item> > & out) {
    if (k == r.src.words.size()) { if (i == j) out.push_back(cur); return; }
    int w = r.src.words[k];
    if (w >= 0) { if (i < j && s[i] == w) cover(r, k + 1, i + 1, j, s, have, limit, cur, out); return; }
    for (int m = i + 1; m <= j && m - i <= limit; m++) { Item it = {i, m, child(r, -1 - w)}; if (!have.count(it)) continue; cur.push_back(it); cover(r, k + 1, m, j, s, have, limit, cur, out); cur.pop_back(); }
}
struct Cfg { int root, unk, factors; bool src, del; vector<int> limits; };
static string iname(const Item & i) { return Dict::WSym(i.lab[0]) + "[" + to_string(i.i) + "," + to_string(i.j) + "]"; }
static void expect(const Sentence & s, const vector<Rule> & rules, const Cfg & k, Exp & x) {
    int n = s.size(); set<Item> have; vector<int> ul(k.factors + 1, k.unk); for (int i = 0; i < n; i++) { Item it = {i, i + 1, ul}; have.insert(it); }
    bool more = true; while (more) { more = false;
        for (size_t r = 0; r < rules.size(); r++) for (int i = 0; i < n; i++) for (int j = i + 1; j <= n; j++) { Item it = {i, j, head(rules[r])}; if (have.count(it)) continue; vector<Item> cur; vector<vector<Item> > out; cover(rules[r], 0, i, j, s, have, k.limits[rules[r].g], cur, out); if (!out.empty()) { have.insert(it); more = true; } } }
    Item root = {0, n, vector<int>(k.factors + 1, k.root)}; if (!have.count(root)) return;
    map<Item, ON *> m; vector<Item> todo(1, root); m[root] = x.root = x.add(iname(root));
    while (!todo.empty()) { Item it = todo.back(); todo.pop_back(); ON * o = m[it];
        for (size_t r = 0; r < rules.size(); r++) { if (head(rules[r]) != it.lab) continue; vector<Item> cur; vector<vector<Item> > out; cover(rules[r], 0, it.i, it.j, s, have, k.limits[rules[r].g], cur, out);
            for (size_t q = 0; q < out.size(); q++) { OE e; e.trg = tstr(rules[r].trg); e.feats = rules[r].feats; if (k.src) e.src = Dict::PrintAnnotatedWords(rules[r].src); for (size_t t = 0; t < out[q].size(); t++) { if (!m.count(out[q][t])) { m[out[q][t]] = x.add(iname(out[q][t])); todo.push_back(out[q][t]); } e.tails.push_back(m[out[q][t]]); } o->edges.push_back(e); } }
        if (it.lab == ul && it.j == it.i + 1 && o->edges.empty()) { OE e; e.trg = tstr(CfgDataVector(k.factors, CfgData(Sentence(1, k.del ? Dict::WID("") : s[it.i]), k.unk))); e.feats[Dict::WID("unk")] = 1; if (k.src) e.src = Dict::PrintAnnotatedWords(CfgData(Sentence(1, s[it.i]), k.unk)); o->edges.push_back(e); } }
}
struct Pat { const char * src; };
// source patterns: w word, x variable; each variable and the head get a label
static Rule mk(const string & pat, int heads, const vector<int> & labs, int tv, int id, int factors, int g, int thead, const vector<int> & tlabs) {
    Rule r; r.g = g; r.src.label = heads; int v = 0; for (size_t i = 0; i < pat.size(); i++) if (pat[i] == 'x') { r.src.words.push_back(-1 - v); r.src.syms.push_back(labs[v]); v++; } else r.src.words.push_back(W[pat[i] - 'a']);
    for (int f = 0; f < factors; f++) { CfgData d; d.label = thead; d.syms = tlabs; vector<int> vs; for (int i = 0; i < v; i++) vs.push_back(-1 - ((tv + f) % 2 ? v - 1 - i : i)); d.words.insert(d.words.end(), vs.begin(), vs.end()); if (pat.find_first_not_of('x') != string::npos) d.words.push_back(Dict::WID("t" + to_string(id))); r.trg.push_back(d); }
    r.feats[Dict::WID("r" + to_string(id))] = id + 1; r.line = Dict::PrintAnnotatedWords(r.src) + " ||| " + Dict::PrintAnnotatedVector(r.trg) + " ||| r" + to_string(id) + "=" + to_string(id + 1);
    return r;
}
static bool cyclic(const vector<Rule> & rs) {   // a cycle of unary rules
    map<vector<int>, set<vector<int> > > m; for (size_t i = 0; i < rs.size(); i++) if (rs[i].src.words.size() == 1 && rs[i].src.words[0] < 0) m[child(rs[i], 0)].insert(head(rs[i]));
    for (int k = 0; k < 6; k++) for (map<vector<int>, set<vector<int> > >::iterator a = m.begin(); a != m.end(); a++) { set<vector<int> > n = a->second; for (set<vector<int> >::iterator b = a->second.begin(); b != a->second.end(); b++) if (m.count(*b)) n.insert(m[*b].begin(), m[*b].end()); a->second = n; }
    for (map<vector<int>, set<vector<int> > >::iterator a = m.begin(); a != m.end(); a++) if (a->second.count(a->first)) return true; return false;
}
static string show(const vector<Rule> & rules) { string s; for (size_t i = 0; i < rules.size(); i++) s += "[" + to_string(rules[i].g + 1) + "] " + rules[i].line + "\n"; return s; }
static void check(mc::Ctx & c, const vector<Rule> & rules, int ng, const vector<Sentence> & sents, const Cfg & k) {
    ostringstream d; d << ng << " table(s), span limits"; for (int i = 0; i < ng; i++) d << " " << k.limits[i]; d << " root " << Dict::WSym(k.root) << " unk " << Dict::WSym(k.unk) << (k.del ? " delete" : "") << " rules:\n" << show(rules); c.describe(d.str());
    GlobalVars::trg_factors = k.factors; fresh();
    LookupTableFSM t; t.SetTrgFactors(k.factors); t.SetRootSymbol(k.root); t.SetUnkSymbol(k.unk); t.SetDeleteUnknown(k.del);
    vector<string> tab(ng); vector<vector<Rule> > per(ng); for (size_t i = 0; i < rules.size(); i++) { tab[rules[i].g] += rules[i].line + "\n"; per[rules[i].g].push_back(rules[i]); }
    for (int i = 0; i < ng; i++) { bool threw = false, cyc = cyclic(per[i]); istringstream in(tab[i]); try { t.AddRuleFSM(RuleFSM::ReadFromRuleTable(in)); } catch (std::exception &) { threw = true; } CHECK(threw == cyc, "unary-cycle", (cyc ? "a cycle of unary rules was accepted" : "a table without a cycle of unary rules was rejected")); if (threw) return; }
    c.require(!cyclic(rules)); t.SetSpanLimits(k.limits); t.SetSaveSrcStr(k.src);
    for (size_t q = 0; q < sents.size(); q++) {
        HyperGraph in; in.SetWords(sents[q]); Exp x; expect(sents[q], rules, k, x); unique_ptr<HyperGraph> g(t.TransformGraph(in)); string s = Dict::PrintWords(sents[q]);
        string w = wellformed(*g); CHECK(w.empty(), "wellformed", "sentence '" << s << "': " << w); string e = diff(x, *g); CHECK(e.empty(), "forest", "sentence '" << s << "': " << e);
        CHECK(!x.root || g->GetWords() == sents[q], "words", "words changed"); c.step(); c.state(hash<string>()(to_string(num(hg::str(*g)))));
    }
    c.state(d.str());
}
static vector<Sentence> sentences(int lo, int hi, int nw) { vector<Sentence> r; for (int n = lo; n <= hi; n++) { vector<int> a(n, 0); for (;;) { Sentence s; for (int i = 0; i < n; i++) s.push_back(W[a[i]]); r.push_back(s); int p = n - 1; while (p >= 0 && ++a[p] == nw) a[p--] = 0; if (p < 0) break; } } return r; }
static const vector<Rule> & universe(const vector<string> & pats, int labels) {
    static map<pair<vector<string>, int>, vector<Rule> > memo; vector<Rule> & u = memo[make_pair(pats, labels)]; if (!u.empty()) return u; int L[] = {LX, LS, LY};
    for (size_t p = 0; p < pats.size(); p++) { int nv = std::count(pats[p].begin(), pats[p].end(), 'x'); int tot = 1; for (int i = 0; i <= nv; i++) tot *= labels;
        for (int q = 0; q < tot; q++) { int z = q, h = L[z % labels]; vector<int> l; for (int i = 0; i < nv; i++) { z /= labels; l.push_back(L[z % labels]); } if (pats[p] == "x" && l[0] == h) continue; u.push_back(mk(pats[p], h, l, q % 2, u.size(), 1, 0, h, l)); } }
    return u;
}
static const char * P_[] = {"a", "b", "x", "ax", "xa", "axb", "xx", "xax", "ab", "xxa", "axx", "xbx"};
static void grammars(mc::Ctx & c, int npat, int labels, int nr, int ng, int maxlen, int nw) {
    const vector<Rule> & u = universe(vector<string>(P_, P_ + npat), labels); vector<Rule> rs; int last = -1;
    for (int i = 0; i < nr; i++) { int lo = last + 1; c.require(lo < (int)u.size()); int k = lo + c.choose(u.size() - lo + (i > 0)); if (k == (int)u.size()) break; rs.push_back(u[k]); last = k; if (ng > 1) rs.back().g = c.choose(ng); }
    Cfg k; k.root = labels > 1 ? LS : LX; k.unk = LX; k.factors = 1; k.src = true; k.del = false; for (int i = 0; i < ng; i++) { int q = c.choose(3); k.limits.push_back(q == 0 ? 20 : q); }
    check(c, rs, ng, sentences(1, maxlen, nw), k);
}
MC_SPACE(one_label3, 3) { grammars(c, 12, 1, 4, 1, 4, 2); }
MC_SPACE(two_labels2, 3) { grammars(c, 12, 2, 2, 1, 4, 2); }
MC_SPACE(two_labels3, 3) { grammars(c, 10, 2, 3, 1, 3, 2); }
MC_SPACE(two_tables, 3) { grammars(c, 10, 1, 3, 2, 3, 2); }
MC_SPACE(two_tables2, 3) { grammars(c, 6, 2, 3, 2, 3, 2); }
MC_SPACE(two_tables3, 2) { grammars(c, 10, 2, 3, 2, 3, 2); }
MC_SPACE(one_label5, 2) { grammars(c, 12, 1, 5, 1, 4, 2); }
MC_SPACE(two_labels3_deep, 2) { grammars(c, 12, 2, 3, 1, 4, 2); }
MC_SPACE(three_labels, 2) { grammars(c, 7, 3, 2, 1, 3, 2); }
// chains of unary rules over three labels, in one or two tables, with a word rule below and a rule above
MC_SPACE(unaries, 3) {
    int L[] = {LX, LS, LY}; vector<Rule> rs; int id = 0, ng = c.range(1, 2);
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (c.choose(2)) { rs.push_back(mk("x", L[b], vector<int>(1, L[a]), 0, id, 1, 0, L[b], vector<int>(1, L[a]))); if (ng > 1) rs.back().g = c.choose(2); id++; }
    c.require(rs.size() <= 4); int w = c.choose(3); rs.push_back(mk("a", L[w], vector<int>(), 0, id, 1, ng - 1, L[w], vector<int>())); vector<int> two(2, L[c.choose(3)]); rs.push_back(mk("xx", L[c.choose(3)], two, 0, id + 1, 1, 0, LX, two)); rs.back().trg[0].label = rs.back().src.label; rs.back().line = Dict::PrintAnnotatedWords(rs.back().src) + " ||| " + Dict::PrintAnnotatedVector(rs.back().trg) + " ||| r" + to_string(id + 1) + "=" + to_string(id + 2);
    Cfg k; k.root = L[c.choose(3)]; k.unk = LX; k.factors = 1; k.src = true; k.del = false; for (int i = 0; i < ng; i++) k.limits.push_back(c.choose(2) ? 1 : 20); check(c, rs, ng, sentences(1, 3, 1), k);
}
// target labels differ from source labels; two target factors; unknown words kept or deleted
MC_SPACE(target_labels, 3) {
    int L[] = {LX, LS}, f = c.range(1, 2); vector<Rule> rs; static const char * pats[] = {"a", "xx", "bx"}; 
    for (int i = 0; i < 3; i++) { string p = pats[i]; int nv = std::count(p.begin(), p.end(), 'x'); vector<int> l(nv, L[c.choose(2)]), tl(nv, L[c.choose(2)]); int h = L[c.choose(2)], th = L[c.choose(2)]; if (nv == 2) tl[1] = L[c.choose(2)]; rs.push_back(mk(p, h, l, i, i, f, 0, th, tl)); if (f == 2 && c.choose(2)) { Rule & r = rs.back(); r.trg[1].label = th == LX ? LS : LX; r.line = Dict::PrintAnnotatedWords(r.src) + " ||| " + Dict::PrintAnnotatedVector(r.trg) + " ||| r" + to_string(i) + "=" + to_string(i + 1); } }
    Cfg k; k.root = L[c.choose(2)]; k.unk = LX; k.factors = f; k.src = true; k.del = c.flag(); k.limits.push_back(20); check(c, rs, 1, sentences(1, c.thorough ? 3 : 2, 3), k);
}
// long spans: the limit applies to what a variable covers, not to the rule
MC_SPACE(span_limit, 3) {
    int n = c.range(1, 6); Sentence s(n, W[0]); vector<Rule> rs; vector<int> x1(1, LX), x2(2, LX), xs; xs.push_back(LX); xs.push_back(LS); rs.push_back(mk("a", LX, vector<int>(), 0, 0, 1, 0, LX, vector<int>())); rs.push_back(mk(c.flag() ? "ax" : "xa", LX, x1, 0, 1, 1, 0, LX, x1)); rs.push_back(mk("xax", LX, x2, 0, 2, 1, 0, LX, x2));
    rs.push_back(mk("xx", LS, xs, 0, 3, 1, 1, LS, xs)); rs.push_back(mk("x", LS, x1, 0, 4, 1, 1, LS, x1)); Cfg k; k.root = LS; k.unk = LX; k.factors = 1; k.src = false; k.del = false; k.limits.push_back(c.range(1, 6)); k.limits.push_back(c.range(1, 7)); check(c, rs, 2, vector<Sentence>(1, s), k);
}
MC_SPACE(empty, 3) { vector<Rule> rs(1, mk("a", LX, vector<int>(), 0, 0, 1, 0, LX, vector<int>())); Cfg k; k.root = LX; k.unk = LX; k.factors = 1; k.src = k.del = false; k.limits.push_back(20); c.choose(1); check(c, rs, 1, vector<Sentence>(1), k); }
// rule lines that must be rejected
MC_SPACE(malformed, 3) {
    static const char * bad[] = {"\"a\" @ X ||| \"b\" @ X", "x0 @ X ||| x0 @ X ||| f=1", "x0:X @ X ||| \"a\" @ X ||| f=1", "x0:X @ S ||| x1:X @ S ||| f=1", "x1:X x0:X @ X ||| x0:X x1:X @ X ||| f=1", "x0:X x0:X @ X ||| x0:X @ X ||| f=1", " @ X ||| \"a\" @ X ||| f=1", "x0:X @ X ||| x0:X @ X ||| f=1", "\"a\" x0:X @ X ||| x0:X x1:X @ X ||| f=1", "a @ X ||| \"a\" @ X ||| f=1", "\"a\" @ ||| \"a\" @ X ||| f=1", "\"a\" @ X Y ||| \"a\" @ X ||| f=1", "\"a\" @ X ||| \"a\" @ X ||| f", "x1:X @ X ||| x1:X @ X ||| f=1", "\"a\" x0 @ X ||| \"a\" x0 @ X ||| f=1", "xa:X @ S ||| xa:X @ S ||| f=1", "x0:X @ S ||| x0:X @ S |COL| \"a\" @ S ||| f=1"};
    int k = c.choose(sizeof bad / sizeof *bad), pos = c.choose(3); string good = "\"a\" @ X ||| \"b\" @ X ||| f=1\n"; string t = (pos > 0 ? good : "") + bad[k] + "\n" + (pos == 2 ? good : ""); c.describe(t); istringstream in(t); bool threw = false; RuleFSM * r = 0; try { r = RuleFSM::ReadFromRuleTable(in); } catch (std::exception &) { threw = true; } CHECK(threw, "accepted", "malformed rule accepted: " << bad[k]); delete r; c.step(); c.state(t);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; Dict::WID("zero"); LX = Dict::WID("X"); LS = Dict::WID("S"); LY = Dict::WID("Y"); const char * w[] = {"a", "b", "c", "d"}; for (int i = 0; i < 4; i++) W[i] = Dict::WID(w[i]); }); }
