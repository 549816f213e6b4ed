// S01: symmetrization of alignments, all pairs of small alignments
#include "script.h"
#include <set>
#include <functional>
using namespace std; using namespace script;
typedef pair<int, int> L; typedef set<L> A;
static string show(const A & a) { string s; for (auto & l : a) s += to_string(l.first) + "-" + to_string(l.second) + " "; return s; }
// GIZA record: words of side X with the positions of side Y; to[y] is the word (1..) that y is aligned to, 0 for none
static string record(const vector<int> & to, int nx, int style) {
    static const char * const W[] = {"a", "(", "})", "1", "b)"}; string y, x = "NULL ({ "; for (size_t i = 0; i < to.size(); i++) if (to[i] == 0) x += to_string(i + 1) + " "; x += "}) "; for (int k = 1; k <= nx; k++) { x += string(style ? W[k % 5] : "w") + " ({ "; for (size_t i = 0; i < to.size(); i++) if (to[i] == k) x += to_string(i + 1) + " "; x += "}) "; }
    for (size_t i = 0; i < to.size(); i++) y += (i ? " " : "") + string("y"); return "# Sentence pair\n" + y + "\n" + x + "\n";
}
struct Case { vector<int> fe, ef; };     // fe[y] -> x, ef[x] -> y
static vector<int> digits(long k, int n, int base) { vector<int> r; for (int i = 0; i < n; i++) { r.push_back(k % base); k /= base; } return r; }
static void sets(const Case & c, A & inter, A & feonly, A & efonly) {
    A f, e; for (size_t y = 0; y < c.fe.size(); y++) if (c.fe[y]) f.insert(L(c.fe[y] - 1, y)); for (size_t x = 0; x < c.ef.size(); x++) if (c.ef[x]) e.insert(L(x, c.ef[x] - 1));
    for (auto & l : f) if (e.count(l)) inter.insert(l); else feonly.insert(l); for (auto & l : e) if (!f.count(l)) efonly.insert(l);
}
static bool cov(const A & a, int x, int y, int which) { bool cx = false, cy = false; for (auto & l : a) { cx |= l.first == x; cy |= l.second == y; } return which == 0 ? cx && cy : cx || cy; }
// everything that the heuristic may give, whatever the order in which it looks at the links
static void closure(A a, const function<vector<L>(const A &)> & next, set<A> & seen, set<A> & out) { if (!seen.insert(a).second) return; vector<L> n = next(a); if (n.empty()) out.insert(a); for (auto & l : n) { A b = a; b.insert(l); closure(b, next, seen, out); } }
static set<A> results(const Case & c, bool diag, bool fin, bool both) {
    A in, fo, eo; sets(c, in, fo, eo); A un = in; un.insert(fo.begin(), fo.end()); un.insert(eo.begin(), eo.end()); set<A> seen, res;
    closure(in, [&](const A & a) { vector<L> r; for (auto & l : un) if (!a.count(l) && !cov(a, l.first, l.second, 0)) { bool near = false; for (auto & m : a) { int dx = abs(l.first - m.first), dy = abs(l.second - m.second); near |= diag ? dx <= 1 && dy <= 1 : dx + dy == 1; } if (near) r.push_back(l); } return r; }, seen, res);
    if (fin) for (const A * side : {&fo, &eo}) { set<A> nx, sn; for (auto & a : res) closure(a, [&](const A & b) { vector<L> r; for (auto & l : *side) if (!b.count(l) && !cov(b, l.first, l.second, both ? 1 : 0)) r.push_back(l); return r; }, sn, nx); res = nx; }
    return res;
}
static void batch(mc::Ctx & c, const vector<Case> & cs, int sym, bool diag, bool fin, bool both, int nx, int style, bool explicitly) {
    string fe, ef; for (const Case & k : cs) { fe += record(k.fe, nx, style); ef += record(k.ef, k.fe.size(), style); } V args; static const V SYM = {"grow", "intersect", "union"}; if (explicitly || sym) args.push_back("--sym=" + SYM[sym]); if (sym == 0 && explicitly) { args.push_back(string("--diag=") + (diag ? "true" : "false")); args.push_back(string("--final=") + (fin ? "true" : "false")); args.push_back(string("--and=") + (both ? "true" : "false")); } args.push_back(put("fe", fe)); args.push_back(put("ef", ef));
    Out o = run("train/symmetrize.pl", args); V ls = lines(o.out); CHECK(o.code == 0, "failed", "exit code " << o.code << ": " << tail(o.err)); CHECK(ls.size() == cs.size(), "lines", ls.size() << " lines for " << cs.size() << " sentences"); c.step(cs.size());
    for (size_t i = 0; i < cs.size(); i++) {
        A got; V w = words(ls[i]); for (auto & x : w) { int a = -1, b = -1; char t; CHECK(sscanf(x.c_str(), "%d-%d%c", &a, &b, &t) == 2 && got.insert(L(a, b)).second, "format", "sentence " << i << ": " << ls[i]); } A in, fo, eo; sets(cs[i], in, fo, eo); A un = in; un.insert(fo.begin(), fo.end()); un.insert(eo.begin(), eo.end());
        auto what = [&] { return "first direction\n" + record(cs[i].fe, nx, 0) + "second direction\n" + record(cs[i].ef, cs[i].fe.size(), 0) + "options " + join(args) + "\ngives " + ls[i]; };
        if (sym == 1) { CHECK(got == in, "intersect", what() << " instead of " << show(in)); } else if (sym == 2) { CHECK(got == un, "union", what() << " instead of " << show(un)); }
        else { set<A> want = results(cs[i], diag, fin, both); CHECK(want.count(got), "grow", what() << " instead of " << show(*want.begin())); }
        c.checked();
    }
}
static void all(mc::Ctx & c, int nx, int ny, int opts) {
    int k = c.choose(opts); bool ex = k < 8; int sym = k == 6 ? 1 : k == 7 ? 2 : 0; bool diag = k >= 8 || k % 2 == 0, fin = k >= 8 || k < 4, both = k >= 8 || k < 2; int style = k >= 8 ? 1 : 0; long nf = 1, ne = 1; for (int i = 0; i < ny; i++) nf *= nx + 1; for (int i = 0; i < nx; i++) ne *= ny + 1;
    long per = max(1L, 2000 / ne), groups = (nf + per - 1) / per; long g = c.choose(groups); vector<Case> cs; for (long f = g * per; f < min(nf, (g + 1) * per); f++) for (long e = 0; e < ne; e++) { Case x; x.fe = digits(f, ny, nx + 1); x.ef = digits(e, nx, ny + 1); cs.push_back(x); }
    c.describe(to_string(nx) + "x" + to_string(ny) + " words, options " + to_string(k) + ", alignments " + to_string(g * per) + "-"); for (size_t i = 0; i < cs.size(); i++) c.state(((uint64_t)k << 56) + ((uint64_t)nx << 52) + ((uint64_t)ny << 48) + (uint64_t)(g * per * ne) + i); batch(c, cs, sym, diag, fin, both, nx, style, ex);
}
MC_SPACE(small, 3) { int nx = c.range(1, 3), ny = c.range(1, 3); all(c, nx, ny, 9); }
MC_SPACE(wide, 3) { if (c.flag()) all(c, 4, 2, 9); else all(c, 2, 4, 9); }
MC_SPACE(mid, 3) { int k = c.choose(2); if (k) all(c, 4, 3, 8); else all(c, 3, 4, 8); }
MC_SPACE(large, 2) { all(c, 4, 4, 8); }
MC_SPACE(long_, 2) { if (c.flag()) all(c, 5, 3, 8); else all(c, 3, 5, 8); }
// files that do not belong together, unknown heuristics
MC_SPACE(errors, 3) {
    int n = c.choose(4), m = c.choose(4), sym = c.choose(4); static const V S = {"grow", "intersect", "union", "unite"}; string fe, ef; for (int i = 0; i < n; i++) fe += record({1, 0}, 2, 0); for (int i = 0; i < m; i++) ef += record({2, 1}, 2, 0); c.describe("files of " + to_string(n) + " and " + to_string(m) + " sentences, " + S[sym]); Out o = run("train/symmetrize.pl", {"--sym=" + S[sym], put("fe", fe), put("ef", ef)}); c.step();
    bool bad = n != m || (sym > 2 && n); CHECK((o.code != 0) == bad, "status", "exit code " << o.code << ": " << tail(o.err)); if (!bad) CHECK(lines(o.out).size() == (size_t)n, "lines", o.out);
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
