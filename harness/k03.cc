// K03 (k03a.cc compiles a part of it with the address sanitizer): lmplz estimates the interpolated modified Kneser-Ney model its definition prescribes
#include "mc.h"
#include "run.h"
#ifdef K03A
const bool small = true;
#define FULL 0
#else
const bool small = false;
#define FULL 3
#endif
#include "lm/builder/lmplz_main.cc"    // its main is called in forked children (linked with --wrap=main)
extern "C" int __real_main(int, char **);
#include <sys/mman.h>
#include <sys/wait.h>
#include <math.h>
#include <map>
#include <set>
using namespace std;
typedef vector<string> Gram; typedef vector<Gram> Corpus;
struct Res { int rc; string out, err; };
static string slurp(int fd) { string r; char b[4096]; lseek(fd, 0, 0); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return r; }
static string scratch() { return run::dir().substr(0, run::dir().size() - 1); }
static Res lmplz(const string & text, vector<string> args) {
    args.insert(args.begin(), "lmplz"); bool mem = false, voc = false, tmp = false; for (auto & a : args) { if (a == "-S") mem = true; if (a == "--vocab_estimate") voc = true; if (a == "-T") tmp = true; } if (!mem) { args.push_back("-S"); args.push_back("1M"); } if (!voc) { args.push_back("--vocab_estimate"); args.push_back("10"); } if (!tmp) { args.push_back("-T"); args.push_back(scratch() + "/lm"); }
    int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0); if (in < 0 || out < 0 || err < 0) abort(); if (write(in, text.data(), text.size()) != (ssize_t)text.size()) abort(); lseek(in, 0, 0);
    pid_t p = fork(); if (p < 0) abort();
    if (!p) { alarm(60); dup2(in, 0); dup2(out, 1); dup2(err, 2); vector<char *> v; for (auto & a : args) v.push_back(strdup(a.c_str())); v.push_back(0); signal(SIGABRT, SIG_DFL); int r = __real_main(args.size(), &v[0]); cout.flush(); cerr.flush(); _exit(r); }
    int st; waitpid(p, &st, 0); close(in); Res r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); r.out = slurp(out); r.err = slurp(err); if (r.err.find("Sanitizer") != string::npos) r.rc = 999; if (r.rc == 128 + SIGALRM) r.rc = 998; return r;
}
// ---------------------------------------------------------------- the definition
struct PB { double p, b; };
typedef vector<map<Gram, PB> > Model;
struct Conf { int order; vector<uint64_t> prune; bool fallback; double fb[4]; bool interp; uint64_t pad; bool limit; set<string> allow; Conf(int o = 2) : order(o), fallback(true), interp(true), pad(0), limit(false) { fb[0] = 0; fb[1] = .5; fb[2] = 1; fb[3] = 1.5; } uint64_t thr(int k) const { if (prune.empty()) return 0; return k < (int)prune.size() ? prune[k] : prune.back(); } };
struct Est { Model m; bool fails, close; set<string> words; };
static Est define(const Corpus & corpus, const Conf & cf) {
    int N = cf.order; Est e; e.fails = e.close = false; vector<map<Gram, uint64_t> > raw(N), adj(N); vector<map<Gram, set<string> > > left(N); set<string> words; words.insert("</s>");
    for (auto & s : corpus) { Gram x(N - 1 > 0 ? N - 1 : 0, "<s>"); x.insert(x.end(), s.begin(), s.end()); x.push_back("</s>"); for (auto & w : s) words.insert(w); for (size_t end = max(N - 1, 0); end < x.size(); end++) for (int k = 1; k <= N; k++) { Gram g(x.begin() + end - k + 1, x.begin() + end + 1); raw[k - 1][g]++; if (k < N) left[k - 1][g].insert(x[end - k]); } }
    if (corpus.empty()) words.clear(); e.words = words;
    for (int k = 1; k <= N; k++) for (auto & kv : raw[k - 1]) { const Gram & g = kv.first; if (k > 1 && g[1] == "<s>") continue; adj[k - 1][g] = k == N || g[0] == "<s>" ? kv.second : left[k - 1][g].size(); }
    adj[0][Gram(1, "<unk>")] = 0; adj[0][Gram(1, "<s>")] = 0;
    vector<vector<double> > D(N, vector<double>(4, 0));
    for (int k = 0; k < N; k++) { double n[5] = {0, 0, 0, 0, 0}; for (auto & kv : adj[k]) if (kv.second < 5) n[kv.second]++; bool bad = !(n[1] && n[2] && n[3]); if (!bad) { double y = n[1] / (n[1] + 2 * n[2]); for (int j = 1; j < 4; j++) { D[k][j] = j - (j + 1) * y * n[j + 1] / n[j]; if (fabs(D[k][j]) < 1e-5 || fabs(D[k][j] - j) < 1e-5) e.close |= fabs(D[k][j]) < 1e-5 ; if (D[k][j] < 0 || D[k][j] > j) bad = true; } } if (bad) { if (!cf.fallback) e.fails = true; for (int j = 0; j < 4; j++) D[k][j] = cf.fb[j]; } }
    if (e.fails) return e;
    auto special = [](const Gram & g) { return g.size() == 1 && (g[0] == "<unk>" || g[0] == "<s>" || g[0] == "</s>"); };
    vector<set<Gram> > keep(N); for (int k = 0; k < N; k++) for (auto & kv : adj[k]) { bool out = false; if (!special(kv.first)) { out = raw[k][kv.first] <= cf.thr(k); if (cf.limit) for (auto & w : kv.first) if (w != "<s>" && w != "</s>" && w != "<unk>" && !cf.allow.count(w)) out = true; } if (!out) keep[k].insert(kv.first); }
    e.m.resize(N); vector<map<Gram, double> > den(N), gam(N);
    for (int k = 0; k < N; k++) { for (auto & kv : adj[k]) { Gram h(kv.first.begin(), kv.first.end() - 1); den[k][h] += kv.second; bool kept = keep[k].count(kv.first); if (kept) gam[k][h] += D[k][min<uint64_t>(kv.second, 3)]; else gam[k][h] += kv.second; } for (auto & kv : gam[k]) kv.second /= den[k][kv.first]; }
    double uniform = 1.0 / max<double>(cf.pad, keep[0].size() - 1.0);
    for (int k = 0; k < N; k++) for (auto & g : keep[k]) { Gram h(g.begin(), g.end() - 1); uint64_t c = adj[k][g]; double un = (c - D[k][min<uint64_t>(c, 3)]) / den[k][h], low = k ? e.m[k - 1][Gram(g.begin() + 1, g.end())].p : uniform, ga = gam[k][h]; PB v; v.p = un + ga * low; if (k == 0 && !cf.interp) v.p = g[0] == "<unk>" ? ga : un; if (k == 0 && g[0] == "<s>") v.p = 1; v.b = k + 1 < N && gam[k + 1].count(g) ? gam[k + 1][g] : 1; e.m[k][g] = v; }
    return e;
}
static string words(const Gram & g) { string r; for (size_t i = 0; i < g.size(); i++) r += (i ? " " : "") + g[i]; return r; }
static string text(const Corpus & s) { string r; for (auto & x : s) r += words(x) + "\n"; return r; }
static bool parse(const string & t, Model & m, string & why, bool q = false) {
    istringstream in(t); string l; vector<size_t> want; m.clear(); while (getline(in, l) && l[0] == '#') ; if (l != "\\data\\") { why = "no header: " + l; return false; } while (getline(in, l) && !l.empty()) { unsigned k; unsigned long n; if (sscanf(l.c_str(), "ngram %u=%lu", &k, &n) != 2 || k != want.size() + 1) { why = l; return false; } want.push_back(n); } m.resize(want.size());
    for (size_t k = 0; k < want.size(); k++) { getline(in, l); if (l != "\\" + to_string(k + 1) + "-grams:") { why = "section: " + l; return false; } while (getline(in, l) && !l.empty()) { vector<string> f; size_t a = 0, b; while ((b = l.find('\t', a)) != string::npos) { f.push_back(l.substr(a, b - a)); a = b + 1; } f.push_back(l.substr(a)); if (f.size() != (k + 1 < want.size() ? 3u : 2u)) { why = "line: " + l; return false; } Gram g; istringstream w(f[1]); string x; while (getline(w, x, ' ')) g.push_back(x); if (g.size() != k + 1) { why = "words: " + l; return false; } PB v; char * e; v.p = strtod(f[0].c_str(), &e); if (*e) { why = "number: " + l; return false; } v.b = 0; if (f.size() > 2) { v.b = strtod(f[2].c_str(), &e); if (*e) { why = "number: " + l; return false; } } if (!m[k].insert(make_pair(g, v)).second) { why = "twice: " + l; return false; } } if (m[k].size() != want[k]) { why = to_string(want[k]) + " " + to_string(k + 1) + "-grams announced, " + to_string(m[k].size()) + " listed"; return false; } }
    getline(in, l); if (l != "\\end\\") { why = "no end"; return false; } if (getline(in, l)) { why = "text after the end"; return false; } return true;
}
static bool near(double log, double p) { if (!(p > 0)) return log == -INFINITY; double w = log10(p); return fabs(log - w) <= 2e-5 + 1e-5 * fabs(w); }
static double score(const Model & m, const Gram & hist, const string & w0) {   // ARPA definition
    string w = m[0].count(Gram(1, w0)) ? w0 : "<unk>"; double r = 0; for (size_t k = min(hist.size(), m.size() - 1);; k--) { Gram h(hist.end() - k, hist.end()), g = h; g.push_back(w); auto it = m[k].find(g); if (it != m[k].end()) return r + it->second.p; if (!k) return -1e9; auto ih = m[k - 1].find(h); if (ih != m[k - 1].end()) r += ih->second.b; }
}
// the printed model against the definition
static void compare(mc::Ctx & c, const string & t, const Est & e, const Conf & cf, Model * keepm = 0) {
    Model m; string why; CHECK(parse(t, m, why), "text", why << "\n" << t); CHECK((int)m.size() == cf.order, "order", t);
    for (int k = 0; k < cf.order; k++) { for (auto & kv : e.m[k]) { CHECK(m[k].count(kv.first), "missing", words(kv.first) << "\n" << t); const PB & g = m[k][kv.first]; CHECK(near(g.p, min(1.0, kv.second.p)), "probability", words(kv.first) << ": " << g.p << " instead of " << log10(kv.second.p) << "\n" << t); CHECK(k + 1 == cf.order || near(g.b, kv.second.b), "backoff", words(kv.first) << ": " << g.b << " instead of " << log10(kv.second.b) << "\n" << t); c.checked(2); } for (auto & kv : m[k]) CHECK(e.m[k].count(kv.first), "extra", words(kv.first) << "\n" << t); }
    // every context of the model distributes probability one
    if (cf.pad == 0 ) { vector<Gram> hs(1); for (int k = 0; k + 1 < cf.order; k++) for (auto & kv : m[k]) if (kv.first.back() != "</s>" && kv.first.back() != "<unk>") hs.push_back(kv.first); for (auto & h : hs) { double sum = 0; for (auto & kv : m[0]) if (kv.first[0] != "<s>") sum += pow(10, score(m, h, kv.first[0])); CHECK(fabs(sum - 1) < 1e-4, "sum", "after " << words(h) << ": " << sum << "\n" << t); c.checked(); } }
    if (keepm) *keepm = m;
}
static Corpus pickCorpus(mc::Ctx & c, int sents, int tokens, int letters, int least = 0) {
    int n = c.range(1, sents); Corpus r(n); int left = tokens, used = 0, total = 0; for (int i = 0; i < n; i++) { int len = c.range(0, left); left -= len; for (int k = 0; k < len; k++) { int w = c.choose(min(used + 1, letters)); used = max(used, w + 1); r[i].push_back(string(1, 'a' + w)); total++; } } c.require(total >= least); return r;
}
static vector<string> A(const Conf & cf) { vector<string> a = {"-o", to_string(cf.order)}; if (cf.fallback) a.push_back("--discount_fallback"); if (!cf.prune.empty()) { a.push_back("--prune"); for (auto x : cf.prune) a.push_back(to_string(x)); } if (!cf.interp) { a.push_back("--interpolate_unigrams"); a.push_back("0"); } if (cf.pad) { a.push_back("--vocab_pad"); a.push_back(to_string(cf.pad)); } return a; }
static string vis(const string & s) { string r; for (unsigned char ch : s) { char b[8]; if (ch < 32) { snprintf(b, 8, "\\%d", ch); r += b; } else r += ch; } return r; }
static string show(const Corpus & s, const vector<string> & a) { string r; for (auto & x : a) r += x + " "; return r + "on " + text(s); }
static void runone(mc::Ctx & c, const Corpus & s, const Conf & cf, Est * pe = 0) {
    Est e = define(s, cf); c.require(!e.close); vector<string> a = A(cf); c.describe([&] { return show(s, a); }); Res r = lmplz(text(s), a); c.step();
    CHECK(r.rc < 900, "crash", r.err); if (e.fails) { CHECK(r.rc != 0, "refuse", "estimates a model without usable discounts\n" << r.out); CHECK(r.out.find("\\end\\") == string::npos, "refuse", r.out); return; }
    bool empty = false; for (auto & o : e.m) empty |= o.empty(); if (empty && r.rc) { CHECK(r.out.find("\\end\\") == string::npos, "refuse", r.out); return; }   // nothing of the highest order is left
    CHECK(r.rc == 0, "run", "exit " << r.rc << "\n" << r.err); compare(c, r.out, e, cf);
}
MC_SPACE(estimate, 3) { Conf cf(c.range(1, 3)); Corpus s = pickCorpus(c, c.thorough ? 4 : 3, (c.thorough ? 6 : 4) - 2 * small, 3); runone(c, s, cf); }
MC_SPACE(prune, 3) { Conf cf(c.range(1, 3)); Corpus s = pickCorpus(c, 2, (c.thorough ? 6 : 5) - 2 * small, 2, 2); cf.prune.push_back(c.choose(2)); if (cf.order > 1) { cf.prune.push_back(cf.prune.back() + c.choose(2)); if (cf.order > 2 && c.flag()) cf.prune.push_back(cf.prune.back() + c.choose(2)); } runone(c, s, cf); }
// the vocabulary of the model can be limited to the words of a file
static void put(const string & f, const string & t) { FILE * o = fopen(f.c_str(), "w"); if (!o || fwrite(t.data(), 1, t.size(), o) != t.size() || fclose(o)) abort(); }
static string get(const string & f) { string r; FILE * i = fopen(f.c_str(), "r"); if (!i) return "(missing)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) r.append(b, n); fclose(i); return r; }
static string errs(const Res & r) { return "exit " + to_string(r.rc) + "\n" + r.err; }
static bool refused(mc::Ctx & c, const Est & e, const Res & r) { bool empty = false; for (auto & o : e.m) empty |= o.empty(); if ((empty || e.fails) && r.rc) { CHECK(r.rc < 900, "crash", r.err); CHECK(r.out.find("\\end\\") == string::npos, "refuse", r.out); return true; } return false; }
MC_SPACE(limit, 3) {
    Conf cf(c.range(1, 3)); cf.limit = true; Corpus s = pickCorpus(c, 2, (c.thorough ? 5 : 4) - 2 * small, 3, 2); set<string> ws; for (auto & x : s) ws.insert(x.begin(), x.end()); string file; const char * seps[] = {"\n", " ", "\t"}; for (auto & w : ws) if (c.flag()) { cf.allow.insert(w); file += w + seps[file.size() / 2 % 3]; } if (c.flag()) file = "unseen </s> <unk>\n" + file; if (cf.order > 1 && c.flag()) { cf.prune.push_back(0); cf.prune.push_back(1); }
    Est e = define(s, cf); c.require(!e.close); put(scratch() + "/limit", file); vector<string> a = A(cf); a.push_back("--limit_vocab_file"); a.push_back(scratch() + "/limit"); c.describe([&] { return show(s, a) + " with the words " + file; }); Res r = lmplz(text(s), a); c.step(); if (refused(c, e, r)) return; CHECK(r.rc == 0, "run", errs(r)); compare(c, r.out, e, cf);
}
// discounts estimated from the counts of counts
MC_SPACE(discounts_words, FULL) {
    Conf cf(1); cf.fallback = false; Corpus s(1); int w = 0, most = c.thorough ? 4 : 3; for (int k = 1; k <= 5; k++) { int n = c.choose(k == 5 ? 2 : most); for (int i = 0; i < n; i++, w++) for (int j = 0; j < k; j++) s[0].push_back(string(1, 'a' + w)); } if (c.flag()) reverse(s[0].begin(), s[0].end()); c.require(w); runone(c, s, cf);
}
static void letters(mc::Ctx & c, int order, int len, int alphabet, bool all) { Conf cf(order); cf.fallback = false; Corpus s(1); int used = 0; uint64_t n = 0; function<void(int, int)> rec = [&](int left, int used) { if (left == 0) { Est e = define(s, cf); n++; if (e.close || (e.fails && !all)) return; runone(c, s, cf); c.state(hash<string>()(text(s))); return; } for (int w = 0; w < min(used + 1, alphabet); w++) { s[0].push_back(string(1, 'a' + w)); rec(left - 1, max(used, w + 1)); s[0].pop_back(); } }; int first = min(5, len); for (int i = 0; i < first; i++) { int w = c.choose(min(used + 1, alphabet)); used = max(used, w + 1); s[0].push_back(string(1, 'a' + w)); } rec(len - first, used); c.describe([&] { return "order " + to_string(order) + " on the texts of " + to_string(len) + " letters starting with " + text(s); }); c.checked(n); }
MC_SPACE(discounts2, FULL) { letters(c, 2, c.range(7, c.thorough ? 11 : 9), 3, false); }
MC_SPACE(discounts3, FULL) { letters(c, 3, c.thorough ? c.range(12, 15) : 13, 2, false); }
MC_SPACE(discounts_fail, FULL) { Conf cf(c.range(1, 3)); cf.fallback = false; Corpus s = pickCorpus(c, 2, 4, 2); runone(c, s, cf); }
MC_SPACE(fallback, FULL) {   // the discounts of the command line
    Conf cf(c.range(1, 3)); Corpus s = pickCorpus(c, 2, 5, 2, 3); static const double F[3][4] = {{0, .25, .25, .25}, {0, .75, 1.25, 1.25}, {0, 1, 2, 3}}; int k = c.choose(3); for (int j = 0; j < 4; j++) cf.fb[j] = F[k][j]; Est e = define(s, cf); vector<string> a = {"-o", to_string(cf.order), "--discount_fallback"}; for (int j = 1; j <= k + 1; j++) { ostringstream o; o << F[k][j]; a.push_back(o.str()); } c.describe([&] { return show(s, a); }); Res r = lmplz(text(s), a); c.step(); if (refused(c, e, r)) return; CHECK(r.rc == 0, "run", errs(r)); compare(c, r.out, e, cf);
}
MC_SPACE(unigrams, FULL) { Conf cf(c.range(1, 3)); if (c.flag()) cf.interp = false; else cf.pad = c.pick(vector<int>{1, 4, 5, 6, 100}); Corpus s = pickCorpus(c, 2, 4, 3, 1); runone(c, s, cf); }
// --collapse_values keeps the score of every sentence of known words
MC_SPACE(collapse, FULL) {
    Conf cf(c.range(2, 3)); Corpus s = pickCorpus(c, 2, (c.thorough ? 5 : 4) - 2 * small, 3, 1); if (c.flag()) cf.prune = {0, 1}; Est e = define(s, cf); c.require(!e.close); vector<string> a = A(cf); c.describe([&] { return show(s, a) + " collapsed"; }); Res r = lmplz(text(s), a); a.push_back("--collapse_values"); Res q = lmplz(text(s), a); c.step(2); if (refused(c, e, r)) { refused(c, e, q); return; } CHECK(q.rc == 0, "run", errs(q)); Model m, mq; string why; CHECK(parse(r.out, m, why) && parse(q.out, mq, why), "text", why); vector<string> ws; for (auto & kv : m[0]) if (kv.first[0][0] != '<') ws.push_back(kv.first[0]); 
    function<void(Gram, double, double)> rec = [&](Gram h, double x, double y) { double ex = x + score(m, h, "</s>"), ey = y + score(mq, h, "</s>"); CHECK(fabs(ex - ey) < 1e-4, "sentence", words(h) << " </s> scores " << ey << " instead of " << ex << "\n" << r.out << q.out); c.checked(); if (h.size() > 4) return; for (auto & w : ws) { Gram g = h; g.push_back(w); rec(g, x + score(m, h, w), y + score(mq, h, w)); } }; rec(Gram(1, "<s>"), 0, mq[0][Gram(1, "<s>")].p);   // (the collapsed model scores <s> itself)
}
// reading text: white space, special symbols, files
MC_SPACE(reading, 3) {
    static const char * T[] = {"a", "b", " ", "\t", "\n", "\r", "<s>", "</s>", "<unk>", "\xc3\xa9"}; int n = c.range(1, (c.thorough ? 5 : 3) - small); string t; bool special = false; for (int i = 0; i < n; i++) { int k = c.choose(10); t += T[k]; special |= k >= 6 && k < 9; } if (t.find('\t') != string::npos && c.flag()) t[t.find('\t')] = 0; bool skip = special && c.flag(); special = false;
    Corpus s; { string l; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); l = t.substr(i, e == string::npos ? string::npos : e - i); i = e == string::npos ? t.size() : e + 1; Gram g; string w; for (char ch : l + " ") if (ch == ' ' || ch == '\t' || ch == '\r' || ch == 0) { if (!w.empty()) { if (w == "<s>" || w == "</s>" || w == "<unk>") special = true; else g.push_back(w); } w.clear(); } else w += ch; s.push_back(g); } } Conf cf(1 + (n & 1)); Est e = define(s, cf); vector<string> a = A(cf); if (skip) a.push_back("--skip_symbols"); c.describe([&] { return show(s, a) + " from " + vis(t); }); Res r = lmplz(t, a); c.step(); CHECK(r.rc < 900, "crash", r.err); if (special && !skip) { CHECK(r.rc && r.out.find("\\end\\") == string::npos, "special", "a text with special words is accepted\n" << r.out); return; } if (refused(c, e, r)) return; CHECK(r.rc == 0, "run", errs(r)); compare(c, r.out, e, cf);
}
MC_SPACE(files, FULL) {
    Conf cf(c.range(1, 3)); Corpus s = pickCorpus(c, 2, 3, 2, 1); int o = c.choose(16); Est e = define(s, cf); vector<string> a = A(cf); string d = scratch(); unlink((d + "/arpa").c_str()); unlink((d + "/vocab").c_str()); if (o & 1) { put(d + "/text", text(s)); a.push_back("--text"); a.push_back(d + "/text"); } if (o & 2) { a.push_back("--arpa"); a.push_back(d + "/arpa"); } if (o & 4) a.push_back("--verbose_header"); if (o & 8) { a.push_back("--vocab_file"); a.push_back(d + "/vocab"); } c.describe([&] { return show(s, a); });
    Res r = lmplz(o & 1 ? "x y z\n" : text(s), a); c.step(); if (refused(c, e, r)) return; CHECK(r.rc == 0, "run", errs(r)); if (o & 2) CHECK(r.out.empty(), "arpa", r.out); string t = o & 2 ? get(d + "/arpa") : r.out; size_t tokens = 0; for (auto & x : s) tokens += x.size(); if (o & 4) { CHECK(t.find("# Token count: " + to_string(tokens) + "\n") != string::npos, "header", t); if (o & 1) CHECK(t.find("# Input file: " + d + "/text\n") != string::npos, "header", t); } else CHECK(t[0] == '\\', "header", t); compare(c, t, e, cf);
    if (o & 8) { string v = get(d + "/vocab"); set<string> g, w = e.words; w.insert("<unk>"); w.insert("<s>"); w.insert("</s>"); size_t i = 0; while (i < v.size()) { string x = v.c_str() + i; CHECK(g.insert(x).second, "vocab", x << " twice"); i += x.size() + 1; } CHECK(g == w, "vocab", vis(v)); }
}
// how much memory there is, and how it is split, decides nothing but whether the program runs
MC_SPACE(memory, 3) {
    static const char * T[] = {"a b c\na b\n", "a b a c b\nb c\n\na a a\n", "a b c d e f g h i j k l m\nn o p q r s t u v w x y z\na b c\n", "a a b a b b c a c b c c a a c\nb a c a\nc c c b\nb\n"}; int k = c.choose(4); string t = T[k]; if (c.flag()) t += t + t; int order = c.range(1, 3); vector<string> a = {"-o", to_string(order), "--discount_fallback"}; if (c.flag()) { a.push_back("--prune"); if (order > 1) a.push_back("0"); a.push_back("1"); } Res ref = lmplz(t, a); c.require(ref.rc == 0);   // (pruning can leave nothing)
    vector<int> MEM = {300, 500, 800, 1300, 2200, 5000, 200000}, MB = {20, 60}, SB = {40, 400}, VE = {1}; if (c.thorough) { MEM = {300, 400, 500, 640, 800, 1000, 1300, 1700, 2200, 3000, 5000, 20000, 200000}; MB = {20, 28, 60, 200}; SB = {40, 100, 400, 4000}; VE = {1, 5, 100}; } if (small) { MEM = {300, 1000}; MB = {20}; SB = {100}; VE = {1}; } int m = c.pick(MEM), bc = c.range(1, 3), mb = c.pick(MB), sb = c.pick(SB), ve = c.pick(VE); auto add = [&](const string & o, int v, const char * u = "b") { a.push_back(o); a.push_back(to_string(v) + u); }; add("-S", m); add("--minimum_block", mb); add("--sort_block", sb); add("--block_count", bc, ""); add("--vocab_estimate", ve, ""); c.describe([&] { string x; for (auto & y : a) x += y + " "; return x + "on " + t; });
    Res r = lmplz(t, a); c.step(); CHECK(r.rc < 900, "crash", errs(r)); if (r.rc) { CHECK(r.rc == 1 || r.rc == 134, "crash", errs(r)); CHECK(r.out.find("\\end\\") == string::npos, "refuse", r.out); return; } c.state(m * 1000 + mb); CHECK(r.out == ref.out, "differs", r.out << "instead of\n" << ref.out); c.checked();
}
// wrong options are refused
MC_SPACE(options, FULL) {
    static const char * O[][6] = {{"--discount_fallback"}, {"-o", "2", "--discount_fallback", "--prune", "1", "0"}, {"-o", "2", "--discount_fallback", "--prune", "0", "x"}, {"-o", "1", "--discount_fallback", "--prune", "0", "0"}, {"-o", "2", "--discount_fallback", "2"}, {"-o", "2", "--discount_fallback", "-1"}, {"-o", "2", "--discount_fallback", "0.5", "2.5"}, {"-o", "2", "--vocab_pad", "10", "--interpolate_unigrams", "0"}, {"-o", "2", "--text", "/nonexistent/text"}, {"-o", "2", "--discount_fallback", "--limit_vocab_file", "/nonexistent/words"}, {"-o", "2", "--arpa", "/nonexistent/arpa"}, {"-o", "2", "-T", "/nonexistent/tmp"}}; int k = c.choose(12); vector<string> a; for (int i = 0; i < 6 && O[k][i]; i++) a.push_back(O[k][i]); c.describe([&] { string x; for (auto & y : a) x += y + " "; return x; }); Res r = lmplz("a b c\na b\n", a); c.step(); CHECK(r.rc > 0 && r.rc < 900, "option", "accepted: " << errs(r)); CHECK(r.out.find("\\end\\") == string::npos, "option", r.out); c.checked();
}
extern "C" int __wrap_main(int argc, char ** argv) { return mc::main(argc, argv); }
