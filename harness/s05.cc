// S05: scripts that prepare trees, and the truecasing scripts, over all small inputs
#include "script.h"
#include <set>
#include <map>
#include <algorithm>
using namespace std; using namespace script;
static string text(const V & v) { string r; for (auto & l : v) r += l + "\n"; return r; }
static Out ok(mc::Ctx & c, const string & s, const V & a, const string & in) { Out o = run(s, a, in); CHECK(o.code == 0, "failed", s << " " << join(a) << ": exit code " << o.code << ": " << tail(o.err)); return o; }
static string nosp(const string & s) { string r; for (size_t i = 0; i < s.size(); i++) if (!(s[i] == ' ' && i + 1 < s.size() && s[i + 1] == '(')) r += s[i]; return r; }
struct Batch { mc::Ctx & c; string script, in, key; V args, want, what; Batch(mc::Ctx & c_, const string & s, const string & k) : c(c_), script(s), key(k) {}
    void add(const string & i, const string & w) { in += i; want.push_back(w); what.push_back(i); c.state(i); }
    void go() { c.step(want.size()); Out o = ok(c, script, args, in); V g = lines(o.out); if (key == "trace") for (auto & l : g) l = nosp(l); for (size_t i = 0; i < max(g.size(), want.size()); i++) CHECK(i < g.size() && i < want.size() && g[i] == want[i], key, "line " << i + 1 << ": " << (i < g.size() ? g[i] : "<nothing>") << " instead of " << (i < want.size() ? want[i] : "<nothing>") << " for\n" << (i < what.size() ? what[i] : "")); c.checked(want.size()); } };
// ---------------------------------------------------------------- dependency trees
typedef vector<int> Heads;
static bool under(const Heads & h, int x, int r) { for (int n = 0; x >= 0 && n < 10; n++, x = h[x]) if (x == r) return true; return false; }
static bool valid(const Heads & h) { int roots = 0; for (size_t i = 0; i < h.size(); i++) { if (h[i] < 0) roots++; int x = i, n = 0; while (x >= 0 && n++ < 10) x = h[x]; if (x >= 0) return false; } return roots == 1; }
static bool projective(const Heads & h) { for (size_t i = 0; i < h.size(); i++) { int lo = 99, hi = -1, n = 0; for (size_t x = 0; x < h.size(); x++) if (under(h, x, i)) lo = min(lo, (int)x), hi = max(hi, (int)x), n++; if (hi - lo + 1 != n) return false; } return true; }
static bool headfinal(const Heads & h) { for (size_t i = 0; i < h.size(); i++) if (h[i] >= 0 && h[i] < (int)i) return false; return true; }
struct Word { string w, p; bool punct() const { return p.find("\350\250\230\345\217\267") != string::npos; } };
static string safe(const string & s) { string r; for (char ch : s) { switch (ch) { case '(': r += "-LRB-"; break; case ')': r += "-RRB-"; break; case '[': r += "-LSB-"; break; case ']': r += "-RSB-"; break; case '{': r += "-LCB-"; break; case '}': r += "-RCB-"; break; default: r += ch; } } return r; }
// the head first takes what stands to its right, then what stands to its left, and at last the punctuation that ends the phrase
static string phrase(const Heads & h, const vector<Word> & w, int r) {
    string s = "(" + safe(w[r].p) + " " + safe(w[r].w) + ")"; vector<int> L, R, P; for (size_t i = 0; i < h.size(); i++) if (h[i] == r) ((int)i < r ? L : R).push_back(i); while (R.size() && w[R.back()].punct()) { P.insert(P.begin(), R.back()); R.pop_back(); }
    for (int x : R) s = "(" + safe(w[r].p) + "P " + s + " " + phrase(h, w, x) + ")"; for (size_t i = L.size(); i-- > 0;) s = "(" + safe(w[r].p) + "P " + phrase(h, w, L[i]) + " " + s + ")"; for (int x : P) s = "(" + safe(w[r].p) + "P " + s + " " + phrase(h, w, x) + ")"; return s;
}
// crossing: a word whose arc crosses an arc that begins left of it and ends inside gets the head of that arc
static void uncross(Heads & h) { for (size_t i = 0; i < h.size(); i++) for (int j = i + 1; j < h[i]; j++) if (h[j] > h[i]) h[j] = h[i]; }
static string block(const Heads & h, const vector<Word> & w, int id) { string r; if (id == 1) r = "ID 7\n"; for (size_t i = 0; i < h.size(); i++) { char b[32]; snprintf(b, sizeof b, id == 2 ? "%zu %d " : "%03zu %03d ", i + 1, h[i] < 0 ? (id == 2 ? -1 : 0) : h[i] + 1); r += b + w[i].w + " " + w[i].p + " _\n"; } return r + "\n"; }
MC_SPACE(dependency, 3) {
    int n = c.range(1, c.thorough ? 6 : 5), id = c.choose(3), pm = n > 4 ? c.choose(4) : c.choose(1 << n); static const char * const PW[] = {"\343\200\202", ",", "\343\200\201", ")", "!", "?"}; vector<Word> w(n); for (int i = 0; i < n; i++) { bool p = n > 4 ? (pm == 1 ? i == n - 1 : pm == 2 ? i >= n - 2 : pm == 3 ? i == 2 : false) : pm >> i & 1; w[i].w = p ? PW[i] : i == 1 ? "(b[" : string(1, 'a' + i); w[i].p = p ? "\350\250\230\345\217\267" : i == 2 ? "\345\212\250\350\251\236" : "N" + to_string(i); }
    Batch b(c, "tree/ja-dep2cfg.pl", "dependency"); Heads h(n, -1); c.describe([&]() { return to_string(n) + " words, punctuation " + to_string(pm) + ", form " + to_string(id); });
    function<void(int)> go = [&](int i) { if (i == n) { if (!valid(h)) return; Heads u = h; if (!projective(h)) { if (!headfinal(h)) return; uncross(u); } if (!projective(u)) return; int r = 0; while (u[r] >= 0) r++; string s = phrase(u, w, r); b.add(block(h, w, id), s.compare(0, 5, "(ROOT") == 0 ? s : "(ROOT " + s + ")"); return; } for (int x = -1; x < n; x++) if (x != i) { h[i] = x; go(i + 1); } }; go(0); b.go();
}
// ---------------------------------------------------------------- trees
struct T { string label; vector<T> kids; };     // a word has no children
static string str(const T & t) { if (t.kids.empty()) return t.label; string r = "(" + t.label; for (auto & k : t.kids) r += " " + str(k); return r + ")"; }
static string pretty(const T & t, int d) { if (t.kids.empty()) return t.label; string r = "(" + t.label; bool pre = true; for (auto & k : t.kids) pre &= k.kids.empty(); for (auto & k : t.kids) r += pre || d == 0 ? " " + pretty(k, d + 1) : "\n" + string(2 * d, ' ') + pretty(k, d + 1); return r + ")"; }
static bool ispunct(const T & t) { size_t i = 0; while (i < t.label.size() && t.label[i] == '$') i++; return i < t.label.size() && (t.label[i] == '.' || t.label[i] == ','); }
static T raised(T t) { if (t.kids.empty()) return t; for (auto & k : t.kids) k = raised(k); size_t last = 0; for (size_t i = 0; i < t.kids.size(); i++) if (t.kids[i].kids.size() && !ispunct(t.kids[i])) last = i + 1; if (last == 0 || last == t.kids.size()) return t; T o; o.label = t.label + "PUNC"; T in; in.label = t.label; in.kids.assign(t.kids.begin(), t.kids.begin() + last); o.kids.push_back(in); o.kids.insert(o.kids.end(), t.kids.begin() + last, t.kids.end()); return o; }
static T leaf(const string & l, const string & w) { T t, x; t.label = l; x.label = w; t.kids.push_back(x); return t; }
static const vector<pair<string, string> > PRE = {{"N", "dog"}, {".", "."}, {",", ","}, {"$,", ";"}, {"V", "Runs"}, {"$.", "."}, {"A.", "3.5"}, {"NP$", "\357\274\241\303\211"}};
// all trees over n preterminals: rows of 1..n parts
static void trees(int n, int first, const vector<pair<string, string> > & pre, int depth, vector<T> & out) {
    vector<T> rows; if (depth == 0) return; vector<vector<T> > seqs(1); function<void(int, vector<T>)> go = [&](int at, vector<T> sofar) { if (at == n) { if (sofar.size()) { T t; t.label = "S"; t.kids = sofar; out.push_back(t); } return; } for (int m = 1; at + m <= n; m++) { if (m == 1) { vector<T> s = sofar; s.push_back(leaf(pre[first + at].first, pre[first + at].second)); go(at + 1, s); } vector<T> sub; if (!(m == n)) trees(m, first + at, pre, depth - 1, sub); for (auto & x : sub) { T y = x; y.label = ispunct(leaf(pre[first + at].first, "")) ? "X" : "NP"; vector<T> s = sofar; s.push_back(y); go(at + m, s); } } }; go(0, {});
}
static vector<pair<string, string> > some(mc::Ctx & c, int n, int k) { vector<pair<string, string> > p; for (int i = 0; i < n; i++) p.push_back(PRE[c.choose(k)]); return p; }
MC_SPACE(punctuation, 3) { int n = c.range(1, 4); auto p = some(c, n, c.thorough ? 7 : n == 4 ? 4 : 6); vector<T> ts; trees(n, 0, p, 3, ts); c.describe([&]() { return str(ts[0]); }); Batch b(c, "tree/raise-punc.pl", "punctuation"); for (auto & t : ts) { T r = raised(t); b.add(str(t) + "\n", str(r)); } b.go(); }
static string low(const string & s) { string r; for (size_t i = 0; i < s.size(); i++) { unsigned char x = s[i]; if (x >= 'A' && x <= 'Z') r += x + 32; else if (x == 0xc3 && i + 1 < s.size() && (unsigned char)s[i + 1] == 0x89) r += "\303\251", i++; else if (x == 0xef && i + 2 < s.size() && (unsigned char)s[i + 1] == 0xbc && (unsigned char)s[i + 2] >= 0xa1 && (unsigned char)s[i + 2] <= 0xba) { int k = (unsigned char)s[i + 2] - 0xa1; int v = 0xff41 + k; r += (char)(0xe0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); i += 2; } else r += x; } return r; }
static T lowered(T t) { t.label = low(t.label); for (auto & k : t.kids) k = lowered(k); return t; }
MC_SPACE(lines_of_trees, 3) { int n = c.range(1, 4), how = c.choose(3); auto p = some(c, n, how == 2 ? 3 : c.thorough || n < 4 ? 8 : 5); vector<T> ts; trees(n, 0, p, 3, ts); c.describe([&]() { return str(ts[0]) + " " + to_string(how); });
    if (how == 0) { Batch b(c, "tree/stanford2oneline.pl", "oneline"); for (auto & t : ts) { T r; r.label = "ROOT"; r.kids.push_back(t); b.add(pretty(r, 1) + "\n\n", str(r)); } b.go(); }
    else { Batch b(c, "tree/lowercase.pl", "lowercase"); if (how == 2) b.args.push_back("-nobuf"); for (auto & t : ts) b.add(str(t) + "\n", str(lowered(t))); b.go(); } }
// ---------------------------------------------------------------- trees back from the rules of a trace (depth first, variables in source order)
static int inner(const T & t) { int n = t.kids.size() ? 1 : 0; for (auto & k : t.kids) n += inner(k); return n; }
struct Cutter { int mask, next, id, how; bool lab; V lines; 
    // the source side of the rule at t; subs: where other rules begin
    string frag(const T & t, vector<pair<const T *, int> > & subs, V & words) { if (t.kids.empty()) { words.push_back(t.label); return "\"" + t.label + "\""; } int me = next++; if (me && (mask >> (me - 1) & 1)) { int at = next; next += inner(t) - 1; subs.push_back({&t, at}); return "x" + to_string(subs.size() - 1) + ":" + t.label; } string r = t.label + " ("; for (auto & k : t.kids) r += " " + frag(k, subs, words); return r + " )"; }
    // returns the target tree
    string rule(const T & t, int at) { vector<pair<const T *, int> > subs; V words, trg; next = at; string src = t.label + " ("; for (auto & k : t.kids) src += " " + frag(k, subs, words); src += " )"; for (size_t i = 0; i < subs.size(); i++) trg.push_back("x" + to_string(i)); if (how & 1) reverse(trg.begin(), trg.end()); if (how & 2 || subs.empty()) for (auto & w : words) trg.insert(trg.begin() + min<size_t>(1, trg.size()), "\"" + w + "'\""); lines.push_back(to_string(id) + " ||| [0, 1] ||| " + src + (lab ? " @ " + t.label : "") + " ||| " + join(trg) + (lab ? " @ L" : "") + " ||| p=1"); V built; for (auto & x : subs) built.push_back(rule(*x.first, x.second)); string r = "(X "; for (auto & w : trg) r += w[0] == 'x' ? built[atoi(w.c_str() + 1)] : "(X " + w.substr(1, w.size() - 2) + ")"; return r + ")"; } };
MC_SPACE(trace, 3) { int n = c.range(1, c.thorough ? 4 : 3), how = c.choose(4), lab = c.choose(2), side = c.choose(2); auto p = some(c, n, n == 4 ? 2 : 3); c.require(p[0].first != "."); vector<T> ts; trees(n, 0, p, 3, ts); c.describe([&]() { return str(ts[0]) + " form " + to_string(how) + (lab ? " labelled" : "") + (side ? " target" : " source"); }); Batch b(c, "tree/trace2parse.pl", "trace"); if (side || how & 1) b.args.push_back(side ? "-side=trg" : "-side=src"); int id = 0; for (auto & t : ts) { T r; r.label = "ROOT"; r.kids.push_back(t); int k = inner(r) - 1; for (int m = 0; m < 1 << k; m++) { Cutter u; u.mask = m; u.id = id++; u.how = how; u.lab = lab; string tr = u.rule(r, 1); b.add(text(u.lines), nosp(side ? tr : str(r))); } } b.go(); }
// ---------------------------------------------------------------- truecasing
static bool isend(const string & w) { return w == "." || w == ":" || w == "?" || w == "!"; }
static bool delayed(const string & w) { static const set<string> d = {"(", "[", "\"", "'", "&apos;", "&quot;", "&#91;", "&#93;"}; return d.count(w); }
static string upper1(const string & s) { if (s.size() && s[0] >= 'a' && s[0] <= 'z') return string(1, s[0] - 32) + s.substr(1); if (s.size() > 1 && s.compare(0, 2, "\303\251") == 0) return "\303\211" + s.substr(2); return s; }
static const V CW = {"The", "the", ".", "(", "THE", "\303\211a", "b", "\303\251a", "?", "\""};
static vector<V> sents(int n, int k) { vector<V> r(1), cur(1); for (int i = 0; i < n; i++) { vector<V> nx; for (auto & s : cur) for (int j = 0; j < k; j++) { V t = s; t.push_back(CW[j]); nx.push_back(t); } r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
static V trim(V v) { for (auto & l : v) while (l.size() && l.back() == ' ') l.pop_back(); return v; }
static void same(mc::Ctx & c, const V & g, const V & w, const vector<V> & in, const string & key) { for (size_t i = 0; i < max(g.size(), w.size()); i++) CHECK(i < g.size() && i < w.size() && g[i] == w[i], key, (i < g.size() ? g[i] : "<nothing>") << " instead of " << (i < w.size() ? w[i] : "<nothing>") << " for " << (i < in.size() ? join(in[i]) : "")); c.checked(w.size()); }
MC_SPACE(train_truecaser, 3) {
    // two-line corpora; the model lists every cased form that counts, the most frequent one first
    int k = c.thorough ? 8 : 5; bool first = c.flag(); vector<V> S = sents(2, k), B = sents(c.thorough ? 4 : 3, c.thorough ? 5 : 4); const V & a = S[c.choose(S.size())]; int from = c.choose(8); c.describe(join(a) + " part " + to_string(from) + (first ? " with first words" : ""));
    for (size_t x = from; x < B.size(); x += 8) { const V & b = B[x]; map<string, map<string, double> > n; for (auto * l : {&a, &b}) { size_t st = 0; while (st < l->size() && delayed((*l)[st])) st++; for (size_t i = st; i < l->size(); i++) { const string & w = (*l)[i]; bool begin = i == st || isend((*l)[i - 1]); double v = 0; if (!begin) v = 1; else if (first) { if (low(w.substr(0, w[0] == '\303' ? 2 : 1)) == w.substr(0, w[0] == '\303' ? 2 : 1)) v = 1; else if (l->size() == 1) v = .1; } if (v > 0) n[low(w)][w] += v; } }
        put("corpus", join(a) + "\n" + join(b) + (first ? "" : "\n")); V args = {"--corpus=" + dir() + "corpus", "--model=" + dir() + "model"}; if (first) args.push_back("--possiblyUseFirstToken"); c.step(); c.state(join(a) + "/" + join(b) + (first ? "1" : "")); ok(c, "recaser/train-truecaser.pl", args, ""); V m = lines(get("model")); CHECK(m.size() == n.size(), "model", m.size() << " entries instead of " << n.size() << ": " << get("model"));
        for (auto & l : m) { V f = words(l); CHECK(f.size() >= 2 && f.size() % 2 == 0, "model", l); auto it = n.find(low(f[0])); CHECK(it != n.end() && it->second.size() == f.size() / 2, "model", "entry " << l); double best = 0, total = 0; for (auto & y : it->second) best = max(best, y.second), total += y.second; CHECK(fabs(it->second[f[0]] - best) < 1e-9, "model", "the first form is not the most frequent one: " << l << " in " << join(a) << " / " << join(b)); size_t sl = f[1].find('/'); CHECK(sl != string::npos && fabs(atof(f[1].c_str() + 1) - best) < 1e-6 && fabs(atof(f[1].c_str() + sl + 1) - total) < 1e-6, "model", "counts of " << l); for (size_t i = 2; i < f.size(); i += 2) CHECK(it->second.count(f[i]) && fabs(atof(f[i + 1].c_str() + 1) - it->second[f[i]]) < 1e-6, "model", "counts of " << l); } }
}
static const vector<vector<V> > MODELS = {{}, {{"the", "The", "THE"}}, {{"The", "the"}, {"b"}}, {{"\303\211a", "\303\251a"}, {"the"}}, {{"THE"}, {"\303\251a"}, {"B", "b"}}, {{"the", "THE", "The"}, {"."}, {"("}}};
MC_SPACE(truecase, 3) {
    int m = c.choose(MODELS.size()), b = c.choose(2), sp = c.choose(2); vector<V> in = sents(c.thorough ? 5 : 4, c.thorough ? 9 : 8); c.describe("model " + to_string(m)); string model, text; map<string, string> best; set<string> known; for (auto & e : MODELS[m]) { int n = e.size() + 2; best[low(e[0])] = e[0]; model += e[0] + " (" + to_string(n) + "/9)"; for (size_t i = 0; i < e.size(); i++) { known.insert(e[i]); if (i) model += " " + e[i] + " (" + to_string(n - (int)i) + ")"; } model += "\n"; }
    V want; for (auto & s : in) { text += (sp ? "  " : "") + join(s, sp ? "  " : " ") + "\n"; bool st = true; V o; for (auto & w : s) { auto it = best.find(low(w)); if (it != best.end() && (st || !known.count(w))) o.push_back(it->second); else o.push_back(w); if (isend(w)) st = true; else if (!delayed(w)) st = false; } want.push_back(join(o)); c.state(join(s) + to_string(m)); } put("model", model); c.step(in.size()); V args = {"--model", dir() + "model"}; if (b) { args.push_back("-b"); if (text.size()) text.erase(text.size() - 1); }  /* the last line may lack its end */ same(c, trim(lines(ok(c, "recaser/truecase.pl", args, text).out)), want, in, "truecase");
}
MC_SPACE(detruecase, 3) {
    int how = c.choose(3); vector<V> in = sents(c.thorough ? 5 : 4, 10); c.describe("form " + to_string(how)); string text; V want; for (auto & s : in) { text += (how == 1 ? " " : "") + join(s, how == 1 ? "  " : " ") + (how == 1 ? " " : "") + "\n"; bool st = true; V o; for (auto & w : s) { o.push_back(st ? upper1(w) : w); if (isend(w)) st = true; else if (!delayed(w)) st = false; } want.push_back(join(o)); c.state(join(s)); } c.step(in.size()); V args; if (how == 2) { args.push_back("--in=" + put("in", text)); text = ""; } same(c, lines(ok(c, "recaser/detruecase.pl", args, text).out), want, in, "detruecase");
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
