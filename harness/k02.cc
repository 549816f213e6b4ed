// K02: putting sentences together from scored fragments, in every way
#include "klm.h"
using namespace std; using namespace klm;
static bool near(double a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(b) / 50); }
static string show(const arpa::Gram & g) { string s; for (size_t i = 0; i < g.size(); i++) s += (i ? " " : "") + g[i]; return "'" + s + "'"; }
struct Pair { arpa::Model m; unique_ptr<Any> k; int fmt; string name; };
static const int NMOD = 9;
static Pair & model(int id, int fmt) {
    static map<pair<int, int>, Pair> made; pair<int, int> key(id, fmt); if (made.count(key)) return made[key]; Pair & p = made[key];
    static const struct { int order, pct; bool unk, sfx; } spec[] = {{2, 0, true, true}, {2, 60, true, true}, {3, 12, true, true}, {3, 45, false, true}, {3, 100, true, true}, {4, 25, true, true}, {4, 60, true, true}, {5, 15, true, true}, {4, 8, true, false}, {5, 60, true, true}, {3, 30, true, false}, {4, 100, false, true}};
    arpa::Gram ws; ws.push_back("a"); ws.push_back("b"); arpa::Density d; d.salt = id; d.pct = spec[id].pct; p.m = arpa::make(spec[id].order, ws, spec[id].unk, id + 3, spec[id].sfx, d);
    if (p.m.g.back().empty()) { arpa::Gram x(p.m.order(), "a"); p.m.add(x, id + 3, spec[id].sfx); }
    Config c = conf(); c.probing_multiplier = 10; p.k.reset(load(fmt, run::put("k" + to_string(id) + ".arpa", p.m.text()), c)); p.fmt = fmt; p.name = string(FMT[fmt]) + " model " + to_string(id); return p;
}
static const char * W[] = {"a", "b", "zz"};
static arpa::Gram sent(mc::Ctx & c, int n, int nw) { arpa::Gram g; for (int i = 0; i < n; i++) g.push_back(W[c.choose(nw)]); return g; }
// score of a fragment where nothing is known on the left: what scoring it alone gives
static double inside(const arpa::Model & m, const arpa::Gram & g) { arpa::Gram h; double r = 0; for (size_t i = 0; i < g.size(); i++) { r += m.score(h, g[i]); h.push_back(g[i]); } return r; }
struct Frag { ChartState st; double score; string how; };
// all ways to build [i,j): up to three parts, each a word or an already built fragment, empty fragments optionally in between
static void build(mc::Ctx & c, const Pair & p, const arpa::Gram & s, int empties, map<pair<int, int>, vector<Frag> > & out, size_t cap) {
    int n = s.size(); ChartState em; p.k->rule(false, vector<int>(), vector<ChartState>(), em, false);
    for (int len = 1; len <= n; len++) for (int i = 0; i + len <= n; i++) {
        int j = i + len; vector<Frag> & f = out[make_pair(i, j)];
        // cut points
        for (int m = 0; m < (1 << (len - 1)); m++) {
            vector<int> cut(1, i); for (int b = 0; b < len - 1; b++) if (m >> b & 1) cut.push_back(i + 1 + b); cut.push_back(j); int parts = cut.size() - 1; if (parts > 3) continue;
            // each part: a word if it has one word, or any built fragment
            vector<vector<int> > opt(parts); for (int k = 0; k < parts; k++) { if (cut[k + 1] - cut[k] == 1) opt[k].push_back(-1); if (parts > 1 || cut[k + 1] - cut[k] == 1) for (size_t x = 0; x < out[make_pair(cut[k], cut[k + 1])].size(); x++) if (parts > 1) opt[k].push_back(x); if (opt[k].empty()) goto next; }
            { vector<size_t> ix(parts, 0);
            while (true) {
                for (int e = 0; e <= (empties ? parts : 0); e++) {   // an empty fragment before part e-1
                    vector<int> rhs; vector<ChartState> ch; double sc = 0; string how = "(";
                    for (int k = 0; k < parts; k++) { if (e == k + 1) { ch.push_back(em); rhs.push_back(-(int)ch.size()); how += "() "; } int o = opt[k][ix[k]]; if (o < 0) { rhs.push_back(p.k->index(s[cut[k]])); how += s[cut[k]] + " "; } else { const Frag & x = out[make_pair(cut[k], cut[k + 1])][o]; ch.push_back(x.st); sc += x.score; rhs.push_back(-(int)ch.size()); how += x.how + " "; } }
                    for (int fast = 0; fast < 2; fast++) { if (fast && (rhs.empty() || rhs[0] >= 0)) continue; Frag r; r.score = sc + p.k->rule(false, rhs, ch, r.st, fast); r.how = how + ")"; c.step(); if (f.size() < cap) f.push_back(r); else { f[(m + ix[0]) % cap] = r; } 
                        if (p.fmt != REST) CHECK(near(r.score, inside(p.m, arpa::Gram(s.begin() + i, s.begin() + j))), "fragment", p.name << ": " << r.how << " scores " << r.score << ", its words " << inside(p.m, arpa::Gram(s.begin() + i, s.begin() + j)));
                        CHECK(r.st == f[0].st, "state", p.name + ": " + r.how + " and " + f[0].how + " are the same words but differ in state"); CHECK(near(r.score, f[0].score), "differ", p.name << ": " << r.how << " scores " << r.score << " but " << f[0].how << " " << f[0].score); }
                }
                int k = parts - 1; while (k >= 0 && ++ix[k] == opt[k].size()) ix[k--] = 0; if (k < 0) break;
            } }
            next:;
        }
    }
}
// every bracketing of every sentence
MC_SPACE(bracketings, 3) {
    int id = c.choose(c.thorough ? 12 : NMOD), fmt = c.thorough || id % 3 == 1 ? c.choose(NFMT) : c.choose(2) * REST; int n = c.choose(c.thorough ? 7 : 6); if (id == 8 || id == 10) c.require(fmt == PROB); arpa::Gram s = sent(c, n, 3); int emp = c.flag(); c.require(!emp || n <= (c.thorough ? 4 : 3)); Pair & p = model(id, fmt); c.describe(p.name + " " + show(s));
    map<pair<int, int>, vector<Frag> > f; build(c, p, s, emp, f, 12); vector<Frag> top; if (n) top = f[make_pair(0, n)]; else { Frag x; x.score = p.k->rule(false, vector<int>(), vector<ChartState>(), x.st, false); x.how = "()"; top.push_back(x); }
    double want = p.m.sentence(s);
    for (size_t i = 0; i < top.size(); i++) {
        ChartState o; vector<int> rhs(1, -1); rhs.push_back(p.k->index("</s>")); double got = top[i].score + p.k->rule(true, rhs, vector<ChartState>(1, top[i].st), o, false);
        CHECK(near(got, want), "sentence", p.name << ": <s> " << top[i].how << " </s> scores " << got << ", left to right " << want);
        // the sentence end may be part of the last fragment
        rhs[1] = p.k->index("</s>"); ChartState q; double r = top[i].score + p.k->rule(false, rhs, vector<ChartState>(1, top[i].st), q, i % 2); rhs.resize(1); r += p.k->rule(true, rhs, vector<ChartState>(1, q), o, false); CHECK(near(r, want), "sentence-end", p.name << ": <s> (" << top[i].how << " </s>) scores " << r << ", left to right " << want);
    }
    // words and parts directly below the sentence rule
    for (int k = 1; k < n; k++) { vector<Frag> & a = f[make_pair(0, k)], & b = f[make_pair(k, n)]; for (size_t x = 0; x < a.size(); x += 3) for (size_t y = 0; y < b.size(); y += 3) { vector<int> rhs; rhs.push_back(-1); rhs.push_back(-2); rhs.push_back(p.k->index("</s>")); vector<ChartState> ch; ch.push_back(a[x].st); ch.push_back(b[y].st); ChartState o; double got = a[x].score + b[y].score + p.k->rule(true, rhs, ch, o, false); CHECK(near(got, want), "sentence", p.name << ": <s> " << a[x].how << " " << b[y].how << " </s> scores " << got << ", left to right " << want); } }
}
// fragments with equal states are interchangeable
MC_SPACE(interchange, 3) {
    int id = c.choose(c.thorough ? 12 : NMOD), fmt = c.choose(2) ? TRIE_ : PROB; if (id == 8 || id == 10) c.require(fmt == PROB); Pair & p = model(id, fmt); int L = c.thorough ? 5 : 4; arpa::Gram l = sent(c, c.choose(c.thorough ? 4 : 3), 3), r = sent(c, c.choose(c.thorough ? 4 : 3), 3); bool bos = c.flag(); c.describe(p.name + " " + show(l) + " _ " + show(r));
    vector<arpa::Gram> fr(1), cur(1); for (int n = 0; n < L; n++) { vector<arpa::Gram> nx; for (size_t i = 0; i < cur.size(); i++) for (int w = 0; w < 3; w++) { arpa::Gram x = cur[i]; x.push_back(W[w]); nx.push_back(x); } fr.insert(fr.end(), nx.begin(), nx.end()); cur = nx; }
    map<ChartState, vector<pair<size_t, double> > > groups; size_t total = 0;
    for (size_t i = 0; i < fr.size(); i++) {
        vector<int> rhs; for (size_t k = 0; k < fr[i].size(); k++) rhs.push_back(p.k->index(fr[i][k])); ChartState st; double in = p.k->rule(false, rhs, vector<ChartState>(), st, false);
        arpa::Gram whole = l; whole.insert(whole.end(), fr[i].begin(), fr[i].end()); whole.insert(whole.end(), r.begin(), r.end()); double out = (bos ? p.m.sentence(whole) : inside(p.m, whole)) - in;
        vector<pair<size_t, double> > & g = groups[st]; if (!g.empty()) { CHECK(near(g[0].second, out), "interchange", p.name << ": " << show(fr[i]) << " and " << show(fr[g[0].first]) << " have equal states but add " << out << " and " << g[0].second << " in the context " << show(l) << " _ " << show(r)); }
        g.push_back(make_pair(i, out)); total++;
        ChartState o; vector<int> R; for (size_t k = 0; k < l.size(); k++) R.push_back(p.k->index(l[k])); R.push_back(-1); for (size_t k = 0; k < r.size(); k++) R.push_back(p.k->index(r[k])); if (bos) R.push_back(p.k->index("</s>"));
        double got = p.k->rule(bos, R, vector<ChartState>(1, st), o, false); CHECK(near(got, out), "context", p.name << ": " << show(fr[i]) << " adds " << got << " in the context " << show(l) << " _ " << show(r) << ", by definition " << out); c.step();
        // equality, order and hash agree
        if (g.size() > 1) { }
    }
    vector<ChartState> ks; for (map<ChartState, vector<pair<size_t, double> > >::iterator i = groups.begin(); i != groups.end(); ++i) ks.push_back(i->first);
    for (size_t i = 0; i < ks.size() && i < 60; i++) for (size_t j = 0; j < ks.size() && j < 60; j++) { bool eq = ks[i] == ks[j]; CHECK(eq == (i == j), "order", "states ordered apart compare equal or the reverse"); CHECK(!(ks[i] < ks[j]) || !(ks[j] < ks[i]), "order", "the order of states is not antisymmetric"); if (i == j) CHECK(hash_value(ks[i]) == hash_value(ks[j]), "hash", "equal states hash differently"); }
    c.state(p.name);
}
// a model whose lower orders lack some suffixes of its longest n-grams: in the trie an inserted "b b" is not known to be the start of an inserted "b b a", so the fragment forgets what <s> would need
MC_SPACE(blanks, 3) {
    Pair & p = model(8, TRIE_); arpa::Gram s; s.push_back("b"); s.push_back("b"); s.push_back("a"); c.describe(p.name + " " + show(s)); c.step();
    vector<int> rhs; for (int i = 0; i < 3; i++) rhs.push_back(p.k->index(s[i])); ChartState st, o; double sc = p.k->rule(false, rhs, vector<ChartState>(), st, false); rhs.assign(1, -1); rhs.push_back(p.k->index("</s>")); sc += p.k->rule(true, rhs, vector<ChartState>(1, st), o, false);
    CHECK(near(sc, p.m.sentence(s)), "trie-missing-suffix", p.name << ": <s> (b b a) </s> scores " << sc << ", left to right " << p.m.sentence(s));
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
