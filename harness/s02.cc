// S02: scoring, reversing and merging of extracted rules; lexical tables
#include "script.h"
#include <set>
#include <map>
#include <cmath>
#include <algorithm>
using namespace std; using namespace script;
static const string BAR = " ||| ";
struct Ext { string src, trg; double cnt; string align; };
struct Lex { map<string, double> p; };      // "f e" -> p(f|e)
static string num(double d) { char b[40]; snprintf(b, sizeof b, "%.15g", d); return b; }
static string csort(const string & t) { V v = lines(t); sort(v.begin(), v.end(), [](const string & a, const string & b) { return a.compare(b) < 0; }); string r; for (auto & l : v) r += l + "\n"; return r; }
static string text(const vector<Ext> & v) { string r; for (auto & e : v) r += e.src + BAR + e.trg + BAR + num(e.cnt) + BAR + e.align + "\n"; return r; }
// the words of a side (quotes and backslashes are not escaped)
static V quoted(const string & s) { V r; for (auto & t : words(s)) if (t.size() > 2 && t[0] == '"' && t[t.size() - 1] == '"') r.push_back(t.substr(1, t.size() - 2)); return r; }
static vector<pair<int, int> > links(const string & a) { vector<pair<int, int> > r; for (auto & w : words(a)) { int x, y; if (sscanf(w.c_str(), "%d-%d", &x, &y) == 2) r.push_back(make_pair(x, y)); } return r; }
static double lexw(const Lex & l, const string & src, const string & trg, const string & align, bool aligned) {
    V s = quoted(src), t = quoted(trg); double ret = 0; auto get = [&](const string & f, const string & e) { auto it = l.p.find(f + " " + e); return it == l.p.end() ? 0.0 : it->second; };
    for (size_t j = 0; j < t.size(); j++) {
        double p = 0; if (aligned && align.size()) { int n = 0; for (auto & k : links(align)) if (k.second == (int)j) { p += get(t[j], s[k.first]); n++; } p = n ? p / n : get(t[j], "NULL"); } else { for (auto & w : s) p += get(t[j], w); p += get(t[j], "NULL"); p /= s.size() + 1; }
        ret += p > 0 ? log(p) : -20;
    } return ret;
}
typedef map<string, double> F;
struct Rule { string src, trg; F f; double c, cs, ct; vector<string> aligns; };
static F feats(mc::Ctx & c, const string & s) { F f; for (auto & w : words(s)) { size_t p = w.rfind('='); CHECK(p != string::npos && p > 0, "format", "feature text " << s); char * e; double v = strtod(w.c_str() + p + 1, &e); CHECK(!*e && e != w.c_str() + p + 1 && f.insert(make_pair(w.substr(0, p), v)).second, "format", "feature text " << s); } return f; }
static bool near(double a, double b) { return fabs(a - b) <= 2e-6 + 1e-6 * fabs(b); }
static string shown(const F & f) { string s; for (auto & x : f) s += x.first + "=" + num(x.second) + " "; return s; }
typedef map<pair<string, string>, map<string, double> > Table;    // rule -> alignment -> count
static Table table(const vector<Ext> & v) { Table t; for (auto & e : v) t[make_pair(e.src, e.trg)][e.align] += e.cnt; return t; }
static double total(const map<string, double> & a) { double r = 0; for (auto & x : a) r += x.second; return r; }
static V best(const map<string, double> & a) { double m = 0; for (auto & x : a) m = max(m, x.second); V r; for (auto & x : a) if (x.second > m - 1e-9) r.push_back(x.first); return r; }
static string flip(const string & a) { V r; for (auto & k : links(a)) r.push_back(to_string(k.second) + "-" + to_string(k.first)); return join(r); }
static string lextext(const Lex & l) { string s; for (auto & x : l.p) s += x.first + " " + num(x.second) + "\n"; return s; }
struct Opt { double cooc; int smooth; int top; const Lex * egf, * fge; bool aligned, joint; };
// the whole way from extracted rules to a rule table, as the training script does it
static void pipeline(mc::Ctx & c, const vector<Ext> & v, const Opt & o, bool shuffled = false) {
    string ex = text(v); V fa = {"--fof-file=" + dir() + "fof", "--cond-prefix=egf", "--joint"}, ra = {"--cond-prefix=fge"}; if (o.cooc > 0) { fa.push_back("--cooc-min-freq=" + num(o.cooc)); ra.push_back(fa.back()); } if (o.egf) { fa.push_back("--lex-prob-file=" + put("egf", lextext(*o.egf))); ra.push_back("--lex-prob-file=" + put("fge", lextext(*o.fge))); } if (o.aligned) { fa.push_back("--lex-type=aligned"); ra.push_back("--lex-type=aligned"); }
    auto ok = [&](const Out & r, const char * what) { CHECK(r.code == 0, string("failed-") + what, "exit code " << r.code << ": " << tail(r.err) << "\nextracted:\n" << tail(ex, 2000)); return r.out; };
    string fwd = csort(ok(run("train/score-t2s.pl", fa, csort(ex)), "score")); string rev = csort(ok(run("train/reverse-rt.pl", {}, ok(run("train/score-t2s.pl", ra, csort(ok(run("train/reverse-rt.pl", {}, ex), "reverse"))), "score")), "reverse"));
    V ca; if (o.smooth) ca.push_back("--smooth=kn"); if (o.smooth || shuffled) ca.push_back("--fof-file=" + dir() + "fof"); if (o.top >= 0) ca.push_back("--top-n=" + to_string(o.top)); ca.push_back(put("rt0", fwd)); ca.push_back(put("rt1", rev));
    // what is to come out
    Table t = table(v); for (auto it = t.begin(); it != t.end(); ) if (total(it->second) < o.cooc - 1e-9) t.erase(it++); else ++it; map<string, double> ss, ts; for (auto & r : t) { ss[r.first.first] += total(r.second); ts[r.first.second] += total(r.second); }
    vector<double> fof(21, 0); size_t top = 0; for (auto & r : t) { double n = total(r.second); if (n <= 20) { fof[(int)(n + 1e-9)]++; top = max(top, (size_t)(n + 1e-9)); } } V fl = fields(get("fof"), "\n"); for (size_t i = 0; i < 21; i++) { double g = i < fl.size() ? atof(fl[i].c_str()) : 0; CHECK(g == fof[i], "fof", "frequency of frequency " << i << " is " << g << " instead of " << fof[i]); }
    Out r = run("train/combine-rt.pl", ca); double D[4] = {0, 0, 0, 0};
    if (o.smooth) { if (top < 4 || !fof[1] || !fof[2] || !fof[3]) { if (r.code) return; CHECK(top >= 4, "fof-size", "smoothing from frequencies up to " << top); } double Y = fof[1] / (fof[1] + 2 * fof[2]); for (int i = 1; i <= 3; i++) D[i] = max(0.0, i - (i + 1) * Y * fof[i + 1] / fof[i]); }
    ok(r, "combine"); auto disc = [&](double n) { int d = (int)(n + 1e-9); double u = n - d; return d >= 3 ? D[3] : D[d] * (1 - u) + D[d + 1] * u; };
    set<pair<string, string> > seen; map<string, vector<pair<double, string> > > kept; string prevkey; set<string> closed; V out = lines(r.out); vector<pair<string, string> > order;
    for (auto & l : out) {
        V x = fields(l, BAR); CHECK(x.size() == 5, "columns", l); pair<string, string> key(x[0], x[1]); order.push_back(key); CHECK(t.count(key), "invented", l); CHECK(seen.insert(key).second, "duplicate", l << "\n" << r.out.substr(0, 2000)); auto & al = t[key]; double n = total(al), cs = ss[x[0]], ct = ts[x[1]]; F f = feats(c, x[2]), w; double d = n - disc(n); double ls = -99, lf = -99;
        w["egfp"] = log(n / cs); w["fgep"] = log(n / ct); w["p"] = 1; if (quoted(x[1]).size()) w["w"] = quoted(x[1]).size(); if (o.smooth) { w["egfp"] = fabs(d) > 1e-9 ? log(d / cs) : -99; w["fgep"] = fabs(d) > 1e-9 ? log(d / ct) : -99; w["lfreq"] = fabs(d) > 1e-9 ? log(d) : -99; } (void)ls; (void)lf;
        V b = best(al); bool goodalign = false, lexok = !o.egf; for (auto & a : b) { if (x[4] == a) goodalign = true; }
        if (o.egf) { double gf = f.count("egfl") ? f["egfl"] : 1, gr = f.count("fgel") ? f["fgel"] : 1; bool a1 = false, a2 = false; for (auto & a : b) { if (x[4] == a) a1 |= near(gf, lexw(*o.egf, x[0], x[1], a, o.aligned)); a2 |= near(gr, lexw(*o.fge, x[1], x[0], flip(a), o.aligned)); } lexok = a1 && a2; if (!lexok) { w["egfl"] = lexw(*o.egf, x[0], x[1], b[0], o.aligned); w["fgel"] = lexw(*o.fge, x[1], x[0], flip(b[0]), o.aligned); } else { w["egfl"] = gf; w["fgel"] = gr; } }
        CHECK(goodalign, "alignment", l << "\nis not the most frequent alignment " << b[0]); bool same = w.size() == f.size(); for (auto & k : w) same &= f.count(k.first) && near(f[k.first], k.second); CHECK(same && lexok, lexok ? "features" : "lexical", l << "\ninstead of " << shown(w) << "\nextracted:\n" << tail(ex, 3000));
        V cn = words(x[3]); CHECK(cn.size() == 3 && near(atof(cn[0].c_str()), n) && near(atof(cn[1].c_str()), cs) && near(atof(cn[2].c_str()), ct), "counts", l << "\ninstead of " << n << " " << cs << " " << ct); string s = x[0]; size_t p = s.rfind(" @ "); if (p != string::npos) s = s.substr(0, p); if (s != prevkey) { CHECK(closed.insert(s).second, "grouping", l); prevkey = s; } kept[s].push_back(make_pair(d, x[1])); c.checked();
    }
    map<string, vector<double> > all; for (auto & k : t) { string s = k.first.first; size_t p = s.rfind(" @ "); if (p != string::npos) s = s.substr(0, p); double n = total(k.second); all[s].push_back(n - disc(n)); }
    for (auto & a : all) { sort(a.second.rbegin(), a.second.rend()); size_t n = o.top > 0 ? min((size_t)o.top, a.second.size()) : a.second.size(); vector<double> g; for (auto & k : kept[a.first]) g.push_back(k.first); sort(g.rbegin(), g.rend()); bool same = g.size() == n; for (size_t i = 0; same && i < n; i++) same = near(g[i], a.second[i]); CHECK(same, g.size() < n ? "lost" : g.size() > n ? "limit" : "best", "source " << a.first << " keeps " << g.size() << " of " << a.second.size() << " rules\n" << tail(r.out, 1500)); }
    CHECK(is_sorted(order.begin(), order.end(), [](const pair<string, string> & a, const pair<string, string> & b) { return (a.first + BAR + a.second + BAR) < (b.first + BAR + b.second + BAR); }), "order", tail(r.out, 1500));
}
static string tag(const string & s, int k) { string r; for (char ch : s) { if (ch == '#') r += to_string(k); else r += ch; } return r; }
static const V SRC = {"S ( \"a#\" )", "S ( \"a#\" x0:NP )"}, TRG = {"\"x#\" @ S", "\"x#\" \"y#\" @ S", "@ S#"};
// how often a rule was extracted: lines of (count, alignment)
static const vector<vector<pair<double, string> > > OCC = {{}, {{1, "0-0"}}, {{1, "0-0"}, {1, "0-0"}}, {{0.5, "0-0"}, {1, ""}, {1, ""}}, {{1, "0-0"}, {3, "0-0"}}};
static void add(vector<Ext> & v, const string & s, const string & t, int k) { for (auto & o : OCC[k]) v.push_back(Ext{s, t, o.first, o.second}); }
static Opt options(mc::Ctx & c, const V &, int k) { Opt o = {0, 0, -1, 0, 0, false, true}; (void)c; if (k == 1) o.cooc = 1; if (k == 2) o.cooc = 2.5; if (k == 3) o.top = 1; if (k == 4) o.top = 2; if (k == 5) { o.smooth = 1; } if (k == 6) { o.smooth = 1; o.top = 1; } if (k == 7) o.top = 0; return o; }
static void counts(mc::Ctx & c, int ns, int nt, int no, int per) {
    int k = c.choose(8), n = 1; for (int i = 0; i < ns * nt; i++) n *= no; int g = c.choose((n + per - 1) / per); Opt o = options(c, V(), k); vector<Ext> v; int m = 0; for (int x = g * per; x < min(n, (g + 1) * per); x++, m++) { int y = x; for (int i = 0; i < ns; i++) for (int j = 0; j < nt; j++) { add(v, tag(SRC[i], x), tag(TRG[j], x), y % no); y /= no; } c.state(((uint64_t)k << 40) + x); } c.describe("options " + to_string(k) + ", multisets " + to_string(g * per) + "-\n" + (per == 1 ? text(v) : "")); c.step(m); pipeline(c, v, o);
}
MC_SPACE(counts_small, 3) { counts(c, 2, 2, 5, 200); }
MC_SPACE(counts_wide, 3) { counts(c, 2, 3, 4, 1024); }
MC_SPACE(counts_all, 2) { counts(c, 2, 3, 5, 1000); }
// Kneser-Ney smoothing where the frequencies of frequencies allow it
static const double SM[] = {0, 1, 2, 3, 4, 1.5, 2.25, 3.5, 21};
MC_SPACE(smoothing, 3) {       // few rules, frequencies of frequencies that differ from corpus to corpus
    int n = c.thorough ? 6 : 5, shape = c.choose(2), top = (c.thorough ? c.choose(2) : shape) ? 1 : -1; vector<Ext> v; int have = 0; string d; for (int i = 0; i < n; i++) { int k = 1 + c.choose(5); have |= 1 << (int)SM[k]; d += num(SM[k]) + " "; int s = shape ? i % 2 : i / 3; v.push_back(Ext{tag(SRC[s], 0), tag("\"x#\" @ S", i / (shape ? 2 : 1)), SM[k], "0-0"}); }
    c.require((have & 30) == 30); Opt o = {0, 1, top, 0, 0, false, true}; c.describe("frequencies " + d + "\n" + text(v)); c.step(n); c.state(d + to_string(top * 2 + shape)); pipeline(c, v, o);
}
MC_SPACE(smoothing_all, 3) {   // many rules in one corpus
    int k = c.choose(3), no = 9, extra = c.choose(4), part = c.choose(4), m = 0; Opt o = {0, 1, k == 1 ? 1 : k == 2 ? 2 : -1, 0, 0, false, true}; vector<Ext> v; for (int x = part; x < no * no * no; x += 4, m++) { int y = x; for (int j = 0; j < 3; j++) { if (y % no) v.push_back(Ext{tag(SRC[0], x), tag(TRG[j], j ? x : x % 5), SM[y % no], "0-0"}); y /= no; } c.state(((uint64_t)(k * 4 + extra) << 40) + x); }
    for (int i = 0; i < extra * 400; i++) v.push_back(Ext{tag(SRC[1], i), tag(TRG[0], i), (double)extra, "0-0"}); c.describe("options " + to_string(k) + ", rules of frequency " + to_string(extra) + " more, part " + to_string(part)); c.step(m); pipeline(c, v, o);
}
// each multiset in files of its own: first and last rules of a file
MC_SPACE(files, 3) { counts(c, 1, 2, 4, 1); }
MC_SPACE(files_two, 2) { counts(c, 2, 2, 4, 1); }
// sources that are beginnings of others, labels of grammar rules
MC_SPACE(grouping, 3) {
    static const V S = {"\"a\"", "\"a\" \"b\"", "\"a\" @ X", "\"a\" @ Y", "\"a\" x0:X @ X", "x0:X \"a\" @ X", "\"\303\251\" @ X", "\"@\" @ X"}, T = {"\"x\" @ X", "x0:X \"x\" @ X", "\"\303\251\" \"x\" @ X", ""}; int n = c.range(1, 3), k = c.choose(3); vector<Ext> v; int lo = 0; for (int i = 0; i < n; i++) { int s = c.range(lo, S.size() * T.size() - 1); lo = s; v.push_back(Ext{S[s / T.size()], T[s % T.size()], 1.0 + i, "0-0"}); if (!c.thorough && n == 3) { s = (s * 7 + 5) % (S.size() * T.size()); v.push_back(Ext{S[s / T.size()], T[s % T.size()], 1, ""}); break; } }
    bool lab = false, plain = false; for (auto & e : v) (e.src.find(" @ ") == string::npos ? plain : lab) = true; c.require(!lab || !plain);   // a table has labels on its sources or has none
    c.describe("options " + to_string(k) + "\n" + text(v)); c.step(n); Opt o = options(c, V(), k == 0 ? 0 : k == 1 ? 3 : 1); pipeline(c, v, o);
}
// lexical weights
static Lex lextable(const V & f, const V & e, int kind) { Lex l; int k = 0; for (auto & x : f) for (auto & y : e) { k++; if (kind == 0 || (kind == 1 && k % 2) || (kind == 2 && k % 3 == 0)) l.p[x + " " + y] = 1.0 / (k + 1); } if (kind < 2) for (auto & x : f) { k++; l.p[x + " NULL"] = 0.5 / k; } return l; }
MC_SPACE(lexical, 3) {
    int kind = c.choose(3), al = c.choose(2), words_ = c.choose(2); static const V s[2] = {{"a", "b"}, {"\"", "\\b"}}, t[2] = {{"x", "y"}, {"\\", "c\"d"}}; const V * es = s, * et = t; auto q = [](const string & w) { return "\"" + w + "\""; };
    Lex egf = lextable(t[words_], s[words_], kind), fge = lextable(s[words_], t[words_], (kind + 1) % 3); vector<Ext> v; int id = 0;
    for (int ns = 0; ns < 3; ns++) for (int nt = 0; nt < 3; nt++) for (int so = 0; so < (ns == 2 ? 2 : 1); so++) for (int to = 0; to < (nt == 2 ? 2 : 1); to++) for (int a = 0; a < 1 << (ns * nt); a++) {
        string S = "N" + to_string(id++) + " ("; for (int i = 0; i < ns; i++) { int w = so ? 1 - i : i; S += " " + q(es[words_][w]); if (i == 0) S += " x0:A"; } S += " )"; string T; for (int j = 0; j < nt; j++) { int w = to ? 1 - j : j; T += q(et[words_][w]) + " "; if (j == 0 && id % 2) T += "x0:A "; } T += "@ A"; V L; for (int i = 0; i < ns; i++) for (int j = 0; j < nt; j++) if (a >> (i * nt + j) & 1) L.push_back(to_string(i) + "-" + to_string(j)); v.push_back(Ext{S, T, 1, join(L)}); c.state((kind * 2 + al) * 100000 + id);
        if (a && id % 3 == 0) v.push_back(Ext{S, T, 3, "0-0"});
    }
    c.describe("lexical table " + to_string(kind) + (al ? " aligned" : " all") + " words " + to_string(words_)); c.step(v.size()); Opt o = {0, 0, -1, &egf, &fge, al == 1, true}; pipeline(c, v, o);
}
// features of labels, and minimum frequencies, of the scoring script alone
MC_SPACE(labels, 3) {
    int k = c.choose(16), joint = c.choose(2), pre = c.choose(2); static const V SL = {"S", "NP%d", "-LRB-"}, TL = {"S", "@X@", "V%s", ""}; string in; vector<pair<string, string> > lab; V ls; for (auto & s : SL) for (auto & t : TL) for (int x = 0; x < 2; x++) { string l = s + " ( \"a\" )" + BAR + (x ? "\"x\"" : "x0:X") + (t.empty() ? "" : " @ " + t) + BAR + "1" + BAR; ls.push_back(l); } sort(ls.begin(), ls.end()); for (auto & l : ls) in += l + "\n";
    V a; if (k & 1) a.push_back("--trg-syntax"); if (k & 2) a.push_back("--src-label"); if (k & 4) a.push_back("--trg-label"); if (k & 8) a.push_back("--src-trg-label"); if (joint) a.push_back("--joint"); if (pre) a.push_back("--prefix=my"); c.describe("options " + join(a)); Out o = run("train/score-t2s.pl", a, in); CHECK(o.code == 0, "failed", o.code << " " << tail(o.err)); V out = lines(o.out); CHECK(out.size() == ls.size(), "lines", o.out); string P = pre ? "my" : ""; c.step(ls.size());
    for (size_t i = 0; i < out.size(); i++) {
        V x = fields(out[i], BAR), y = fields(ls[i], BAR); CHECK(x.size() == 5 && x[0] == y[0] && x[1] == y[1], "order", out[i] << "\nfor " << ls[i]); string s = words(x[0])[0], t; size_t p = x[1].find("@ "); if (p != string::npos) t = x[1].substr(p + 2); F w; w[P + "egfp"] = log(1.0 / 8); if (t == "@X@" && (k & 1)) w[P + "isx"] = 1; if (k & 2) w[P + "sl_" + s] = 1; if ((k & 4) && t.size()) w[P + "tl_" + t] = 1; if ((k & 8) && t.size()) w[P + "stl_" + s + "_" + t] = 1; if (joint) { w[P + "p"] = 1; if (x[1][0] == '"') w[P + "w"] = 1; }
        F f = feats(c, x[2]); bool same = f.size() == w.size(); for (auto & z : w) same &= f.count(z.first) && near(f[z.first], z.second); CHECK(same, "labels", out[i] << "\ninstead of " << shown(w)); c.checked();
    }
}
MC_SPACE(minimum, 3) {
    int s = c.choose(5), m = c.choose(3); int per = 625; vector<Ext> v; for (int x = 0; x < per; x++) { int y = x; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { add(v, tag(SRC[i], x), tag(TRG[j], x), y % 5); y /= 5; } } static const double CM[3] = {0, 1, 2.5}; V a; if (s) a.push_back("--src-min-freq=" + to_string(s)); if (m) a.push_back("--cooc-min-freq=" + num(CM[m])); c.describe("options " + join(a)); c.step(per); Out o = run("train/score-t2s.pl", a, csort(text(v))); CHECK(o.code == 0, "failed", o.code << " " << tail(o.err));
    Table t = table(v); for (auto it = t.begin(); it != t.end(); ) if (total(it->second) < CM[m] - 1e-9) t.erase(it++); else ++it; map<string, double> ss; for (auto & r : t) ss[r.first.first] += total(r.second); set<pair<string, string> > seen; for (auto & l : lines(o.out)) { V x = fields(l, BAR); CHECK(x.size() == 5, "columns", l); pair<string, string> k(x[0], x[1]); CHECK(t.count(k) && seen.insert(k).second && ss[x[0]] >= s, "extra", l); F f = feats(c, x[2]); CHECK(near(f["egfp"], log(total(t[k]) / ss[x[0]])), "features", l); c.checked(); } for (auto & r : t) CHECK(ss[r.first.first] < s || seen.count(r.first), "lost", r.first.first << BAR << r.first.second);
}
// tables that do not belong together
MC_SPACE(mismatch, 3) {
    static const V A = {"", "\"a\" ||| \"x\" ||| egfp=0 ||| 1 1 ||| 0-0\n", "\"a\" ||| \"y\" ||| egfp=0 ||| 1 1 ||| 0-0\n", "\"a\" ||| \"x\" ||| egfp=0 ||| 2 2 ||| 0-0\n", "\"a\" ||| \"x\" ||| egfp=0 ||| 1 1\n", "\"b\" ||| \"x\" ||| egfp=0 ||| 1 1 ||| 0-0\n"}; int a = c.choose(6), b = c.choose(6), x = c.choose(6), y = c.choose(6); c.require(a || !x); c.require(b || !y); c.describe(A[a] + A[x] + "with\n" + A[b] + A[y]); Out o = run("train/combine-rt.pl", {put("f0", A[a] + A[x]), put("f1", A[b] + A[y])}); c.step(); bool bad = a != b || x != y || a == 4 || x == 4; CHECK((o.code != 0) == bad, "status", "exit code " << o.code << "\n" << o.out);
}
// lexical tables from aligned text
static void lexicon(mc::Ctx & c, const vector<V> & fs, const vector<V> & es, const vector<vector<pair<int, int> > > & as, int style) {
    string F_, E_, A_; const char * b = style & 1 ? " " : ""; const char * g = style & 1 ? "  " : " "; map<string, double> fc, ec; map<pair<string, string>, double> fec; for (size_t i = 0; i < fs.size(); i++) { F_ += b + join(fs[i], g) + b + "\n"; E_ += join(es[i], g) + b + "\n"; A_ += b; V l; fc["NULL"]++; ec["NULL"]++; set<int> fu, eu; for (auto & k : as[i]) { l.push_back(to_string(k.first) + "-" + to_string(k.second)); fec[make_pair(fs[i][k.first], es[i][k.second])]++; fc[fs[i][k.first]]++; ec[es[i][k.second]]++; fu.insert(k.first); eu.insert(k.second); } A_ += join(l, g) + b + "\n"; for (size_t j = 0; j < fs[i].size(); j++) if (!fu.count(j)) { fec[make_pair(fs[i][j], "NULL")]++; ec["NULL"]++; } for (size_t j = 0; j < es[i].size(); j++) if (!eu.count(j)) { fec[make_pair("NULL", es[i][j])]++; fc["NULL"]++; } }
    Out o = run("train/align2lex.pl", {put("F", F_), put("E", E_), put("A", A_), dir() + "fge", dir() + "egf"}); CHECK(o.code == 0, "failed", o.code << " " << tail(o.err)); for (int d = 0; d < 2; d++) { map<string, double> w; for (auto & k : fec) { if (!d && k.first.first != "NULL") w[k.first.first + " " + k.first.second] = k.second / ec[k.first.second]; if (d && k.first.second != "NULL") w[k.first.second + " " + k.first.first] = k.second / fc[k.first.first]; } V ls = lines(get(d ? "egf" : "fge")); CHECK(ls.size() == w.size(), "entries", "table " << d << ":\n" << join(ls, "\n") << "\n" << F_ << E_ << A_); set<string> seen; for (auto & l : ls) { V x = words(l); CHECK(x.size() == 3 && w.count(x[0] + " " + x[1]) && seen.insert(x[0] + " " + x[1]).second && near(atof(x[2].c_str()), w[x[0] + " " + x[1]]), "probability", l << "\n" << F_ << E_ << A_); c.checked(); } }
}
MC_SPACE(lexicon_small, 3) {   // one sentence pair each
    int n = c.range(1, 2), m = c.range(1, 2), style = c.choose(2), w = c.choose(4), k = c.choose(1 << (n * m)); V f, e; for (int i = 0; i < n; i++) f.push_back(w & 1 ? "a" : i ? "b" : "a"); for (int i = 0; i < m; i++) e.push_back(w & 2 ? "x" : i ? "y" : "x"); vector<pair<int, int> > a; for (int i = 0; i < n * m; i++) if (k >> i & 1) a.push_back(make_pair(i / m, i % m)); c.describe(join(f) + " / " + join(e) + " links " + to_string(k)); c.step(); lexicon(c, {f}, {e}, {a}, style);
}
MC_SPACE(lexicon_corpus, 3) {  // all pairs of sentence pairs, told apart by their words, in one corpus
    int g = c.choose(16); vector<V> fs, es; vector<vector<pair<int, int> > > as; int id = 0; for (int s = 0; s < 2; s++) {} static const V FW = {"a", "b"}, EW = {"x", "y"};
    vector<pair<pair<V, V>, vector<pair<int, int> > > > all; for (int n = 0; n < 3; n++) for (int m = 0; m < 3; m++) for (int fw = 0; fw < 1 << n; fw++) for (int ew = 0; ew < 1 << m; ew++) for (int k = 0; k < 1 << (n * m); k++) { V f, e; for (int i = 0; i < n; i++) f.push_back(FW[fw >> i & 1]); for (int i = 0; i < m; i++) e.push_back(EW[ew >> i & 1]); vector<pair<int, int> > a; for (int i = 0; i < n * m; i++) if (k >> i & 1) a.push_back(make_pair(i / m, i % m)); all.push_back(make_pair(make_pair(f, e), a)); }
    for (size_t x = 0; x < all.size(); x++) for (size_t y = g; y < all.size(); y += 16) { string t = to_string(id++); for (size_t z : {x, y}) { V f = all[z].first.first, e = all[z].first.second; for (auto & q : f) q += t; for (auto & q : e) q += t; fs.push_back(f); es.push_back(e); as.push_back(all[z].second); } c.state((uint64_t)x * 100000 + y); } c.describe("pairs of " + to_string(all.size()) + " sentence pairs, part " + to_string(g)); c.step(id); lexicon(c, fs, es, as, 0);
}
MC_SPACE(lexicon_errors, 3) {
    int a = c.choose(3), b = c.choose(3), d = c.choose(3), k = c.choose(3); string f, e, l; for (int i = 0; i < a; i++) f += "a b\n"; for (int i = 0; i < b; i++) e += "x y\n"; for (int i = 0; i < d; i++) l += k == 1 ? "0-2\n" : k == 2 ? "2-0\n" : "0-0\n"; c.describe("lengths " + to_string(a) + " " + to_string(b) + " " + to_string(d)); c.step(); Out o = run("train/align2lex.pl", {put("F", f), put("E", e), put("A", l), dir() + "fge", dir() + "egf"}); bool bad = a != b || b != d || (k && d); CHECK((o.code != 0) == bad, "status", o.code << " " << tail(o.err));
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
