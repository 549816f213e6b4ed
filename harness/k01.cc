// K01: every query of small back-off models in every storage format
#include "klm.h"
using namespace std; using namespace klm;

static bool near(double a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(b) / 50); }
static string show(const arpa::Gram & g) { string s; for (size_t i = 0; i < g.size(); i++) s += (i ? " " : "") + g[i]; return s; }
static const char * Q[] = {"a", "b", "oov", "</s>", "<unk>"};
// a state reached in another way must score everything that follows alike
static void onward(mc::Ctx & c, const arpa::Model & m, const Any & k, const arpa::Gram & hist, const State & st, int depth, const char * how) {
    for (int q = 0; q < 4; q++) { State o; float p = k.full(st, k.index(Q[q]), o).prob; double want = m.score(hist, Q[q]); CHECK(near(p, want), "state", "after " << how << " of '" << show(hist) << "', p(" << Q[q] << ") = " << p << " instead of " << want); if (depth > 1 && q < 3) { arpa::Gram h = hist; h.push_back(Q[q]); onward(c, m, k, h, o, depth - 1, how); } }
}
// walks all continuations up to a depth
static void walk(mc::Ctx & c, const arpa::Model & m, const Any & k, const arpa::Gram & hist, const State & st, int depth, bool lens, bool both) {
    vector<WI> rev; for (size_t i = hist.size(); i-- > 0;) rev.push_back(k.index(hist[i]));
    const WI * b = rev.data(), * e = b + rev.size();
    { State s; k.state(b, e, s); if (!same(s, st)) onward(c, m, k, hist, s, 2, "looking the state up"); }
    for (int q = 0; q < 5; q++) {
        if (q == 1 && !both) continue;
        State o, o2; lm::FullScoreReturn r = k.full(st, k.index(Q[q]), o), r2 = k.forgot(b, e, k.index(Q[q]), o2); int len = 0; double want = m.score(hist, Q[q], &len);
        c.step();
        CHECK(near(r.prob, want), "prob", "p(" << Q[q] << " | " << show(hist) << ") = " << r.prob << ", by definition " << want);
        CHECK(near(r2.prob, want), "forgot", "p(" << Q[q] << " | " << show(hist) << ") = " << r2.prob << " without the state, by definition " << want);
        if (!same(o, o2) && string(Q[q]) != "</s>") { arpa::Gram h = hist; h.push_back(Q[q]); onward(c, m, k, h, o2, 2, "scoring without the previous state"); }
        if (lens) CHECK(r.ngram_length == len && r2.ngram_length == len, "length", "p(" << Q[q] << " | " << show(hist) << ") matched " << (int)r.ngram_length << " words, should be " << len);
        if (lens && len == (int)hist.size() + 1) { bool ext = false; arpa::Gram x(hist.end() - (len - 1), hist.end()); x.push_back(m.has(arpa::Gram(1, Q[q])) ? Q[q] : "<unk>"); for (size_t n = len; n < m.g.size(); n++) for (map<arpa::Gram, arpa::PB>::const_iterator i = m.g[n].begin(); i != m.g[n].end(); ++i) ext = ext || equal(x.rbegin(), x.rend(), i->first.rbegin());
            if (ext && len < m.order()) CHECK(!r.independent_left, "independent", "'" << show(x) << "' extends to the left but is reported as complete"); }
        CHECK(o.length <= m.order() - 1, "state", "the state of '" + show(hist) + " " + Q[q] + "' is longer than the order allows");
        if (depth > 1 && string(Q[q]) != "</s>") { arpa::Gram h = hist; h.push_back(Q[q]); walk(c, m, k, h, o, depth - 1, lens, both); }
    }
}
static void queries(mc::Ctx & c, const arpa::Model & m, const Any & k, int depth, bool lens) {
    CHECK(k.order() == m.order(), "order", "order " << k.order() << " instead of " << m.order()); CHECK(k.index("oov") == 0, "index", "unknown word has an index");
    for (map<arpa::Gram, arpa::PB>::const_iterator i = m.g[0].begin(); i != m.g[0].end(); ++i) CHECK((k.index(i->first[0]) == 0) == (i->first[0] == "<unk>"), "index", "word " + i->first[0] + " has index " << k.index(i->first[0]));
    bool both = m.has(arpa::Gram(1, "b")); arpa::Gram h; walk(c, m, k, h, k.null(), depth, lens, both); h.push_back("<s>"); walk(c, m, k, h, k.begin(), depth, lens, both);
}
// one model in one format, from text and from its binary form
static void both(mc::Ctx & c, const arpa::Model & m, int fmt, int depth, bool lens) {
    string a = run::put("m.arpa", m.text()), bin = run::dir() + "m.bin"; Config cf = conf(); if (!lens) cf.probing_multiplier = 20; string vs;
    { Vocab v; Config q = cf; q.enumerate_vocab = &v; unique_ptr<Any> k(load(fmt, a, q)); queries(c, m, *k, depth, lens); for (map<string, WI>::iterator i = v.m.begin(); i != v.m.end(); i++) CHECK(k->index(i->first) == i->second, "vocab", "listed index of " + i->first + " is not its index"); CHECK(!v.dup && v.m.size() == m.g[0].size() + !m.has(arpa::Gram(1, "<unk>")), "vocab", "the vocabulary listing has " << v.m.size() << " words, the model " << m.g[0].size()); }
    for (int w = 0; w < 2; w++) {
        { Config q = cf; q.write_mmap = bin.c_str(); q.write_method = w ? Config::WRITE_MMAP : Config::WRITE_AFTER; unique_ptr<Any> k(load(fmt, a, q)); if (w) queries(c, m, *k, min(depth, 2), lens); }
        for (int l = 0; l < 2; l++) { Vocab v; Config q = conf(); q.load_method = l ? util::READ : util::LAZY; q.enumerate_vocab = &v; unique_ptr<Any> k(load(fmt, bin, q)); queries(c, m, *k, l ? depth : 1, lens); CHECK(v.m.size() == m.g[0].size() + !m.has(arpa::Gram(1, "<unk>")), "vocab", "the vocabulary stored has " << v.m.size() << " words"); for (map<string, WI>::iterator i = v.m.begin(); i != v.m.end(); i++) CHECK(k->index(i->first) == i->second, "vocab", "stored index of " + i->first + " is not its index"); lm::ngram::ModelType t; CHECK(RecognizeBinary(bin.c_str(), t), "recognize", "the binary form is not recognised"); }
        unlink(bin.c_str());
    }
    c.state(m.text());
}
static arpa::Gram words(int n) { arpa::Gram w; w.push_back("a"); if (n > 1) w.push_back("b"); return w; }
struct All { vector<arpa::Gram> v; bool operator()(const arpa::Gram & g) { v.push_back(g); return false; } };
static vector<arpa::Gram> candidates(int order, int nw) { vector<arpa::Gram> v; struct K { vector<arpa::Gram> * v; bool operator()(const arpa::Gram & g) const { v->push_back(g); return false; } } k; k.v = &v; arpa::make(order, words(nw), false, 0, true, k); return v; }
static arpa::Model chosen(int order, int nw, bool unk, unsigned salt, const vector<arpa::Gram> & keep, bool sfx) { struct N { bool operator()(const arpa::Gram &) const { return false; } }; arpa::Model m = arpa::make(order, words(nw), unk, salt, sfx, N()); for (size_t i = 0; i < keep.size(); i++) m.add(keep[i], salt, sfx); return m; }
static string desc(const arpa::Model & m) { string s; for (size_t n = 1; n < m.g.size(); n++) for (map<arpa::Gram, arpa::PB>::const_iterator i = m.g[n].begin(); i != m.g[n].end(); ++i) s += "[" + show(i->first) + "]"; return s; }
static bool closed(const arpa::Model & m) { for (size_t n = 1; n < m.g.size(); n++) for (map<arpa::Gram, arpa::PB>::const_iterator i = m.g[n].begin(); i != m.g[n].end(); ++i) { arpa::Gram x(i->first.begin() + 1, i->first.end()); if (!m.has(x)) return false; } return true; }

// all sets of bigrams over two words
MC_SPACE(bigrams, 3) {
    static vector<arpa::Gram> cand = candidates(2, 2); int fmt = c.choose(NFMT); bool unk = c.flag(); int mask = c.choose(1 << cand.size());
    vector<arpa::Gram> keep; for (size_t i = 0; i < cand.size(); i++) if (mask >> i & 1) keep.push_back(cand[i]);
    c.require(!keep.empty()); arpa::Model m = chosen(2, 2, unk, mask, keep, true); c.describe(string(FMT[fmt]) + " " + desc(m)); both(c, m, fmt, 3, true);
}
// all sets of n-grams of order 3 over one word; and sets of one to three trigrams over two words, with or without the shorter ends of each
MC_SPACE(trigrams, 3) {
    static vector<arpa::Gram> one = candidates(3, 1), two = candidates(3, 2); int fmt = c.choose(NFMT); bool sfx = c.flag(); int nw = 1 + c.choose(2); vector<arpa::Gram> keep; vector<arpa::Gram> & cand = nw == 1 ? one : two; bool any = false;
    if (nw == 1) { int mask = c.choose(1 << cand.size()); for (size_t i = 0; i < cand.size(); i++) if (mask >> i & 1) keep.push_back(cand[i]); }
    else { int n = 1 + c.choose(c.thorough ? 3 : 2), last = -1; for (int i = 0; i < n; i++) { int k = c.choose(cand.size()); c.require(k > last && cand[k].size() == 3); last = k; keep.push_back(cand[k]); } if (!c.thorough && n == 2) c.require(sfx == (last % 2 == 0)); }
    for (size_t i = 0; i < keep.size(); i++) any = any || keep[i].size() == 3; c.require(any);
    arpa::Model m = chosen(3, nw, true, keep.size(), keep, sfx); if (!sfx) c.require(!closed(m)); c.describe(string(FMT[fmt]) + " " + desc(m)); both(c, m, fmt, c.thorough ? 5 : 4, closed(m));
}
// longer n-grams; single n-grams of order 4 and 5 and mixtures
MC_SPACE(orders, 3) {
    int fmt = c.choose(NFMT), order = 4 + c.choose(2), pct = c.choose(4); static const int p[] = {3, 12, 40, 100}; bool sfx = c.flag(), unk = c.flag(); arpa::Density d; d.salt = c.choose(c.thorough ? 24 : 6); d.pct = p[pct]; c.require(pct < 3 || d.salt < 2);
    c.require(order < 5 || pct < 3 || c.thorough); arpa::Model m = arpa::make(order, words(2), unk, d.salt + 5, sfx, d); bool cl = closed(m); c.require(sfx || !cl); for (size_t n = 0; n < m.g.size(); n++) c.require(!m.g[n].empty());
    c.describe(string(FMT[fmt]) + " order " + to_string(order) + " density " + to_string(p[pct]) + " " + desc(m)); both(c, m, fmt, c.thorough ? 6 : 5, cl);
}
// quantization to few bits: every probability stays within the range of those stored for its length, and all formats agree on what a saved copy says
MC_SPACE(coarse, 3) {
    int fmt = QTRIE + c.choose(2), bits = 2 + c.choose(3); arpa::Density d; d.salt = c.choose(4); d.pct = 60; arpa::Model m = arpa::make(3, words(2), true, d.salt, true, d); c.describe(to_string(bits) + " bits " + desc(m));
    string a = run::put("q.arpa", m.text()), bin = run::dir() + "q.bin"; Config q = conf(); q.prob_bits = bits; q.backoff_bits = bits; q.write_mmap = bin.c_str(); unique_ptr<Any> k(load(fmt, a, q)), r(load(fmt, bin, conf()));
    vector<State> st(1, k->begin()); vector<arpa::Gram> hi(1, arpa::Gram(1, "<s>")); set<float> seen[4];
    for (int depth = 0; depth < 4; depth++) { vector<State> ns; vector<arpa::Gram> nh; for (size_t i = 0; i < st.size(); i++) for (int w = 0; w < 3; w++) { State o, o2; int len; m.score(hi[i], Q[w], &len); lm::FullScoreReturn x = k->full(st[i], k->index(Q[w]), o), y = r->full(st[i], r->index(Q[w]), o2); CHECK(x.prob == y.prob && same(o, o2), "saved", "the saved model answers differently"); CHECK(x.ngram_length == len, "length", "matched " << (int)x.ngram_length << " instead of " << len);
        if ((int)hi[i].size() + 1 >= len && len == 3) { double lo = 1, hiv = -1e9; for (map<arpa::Gram, arpa::PB>::iterator g = m.g[2].begin(); g != m.g[2].end(); ++g) { lo = min(lo, g->second.p); hiv = max(hiv, g->second.p); } CHECK(x.prob >= lo - 1e-4 && x.prob <= hiv + 1e-4, "range", "quantized to " << x.prob << " outside " << lo << ".." << hiv); seen[3].insert(x.prob); }
        ns.push_back(o); arpa::Gram h = hi[i]; h.push_back(Q[w]); nh.push_back(h); } st = ns; hi = nh; }
    CHECK((int)seen[3].size() <= (1 << bits), "bits", seen[3].size() << " different values in " << bits << " bits"); unlink(bin.c_str());
}
static bool loads(int fmt, const string & file, string & why) { try { Vocab v; Config q = conf(); q.enumerate_vocab = &v; unique_ptr<Any> k(load(fmt, file, q)); return true; } catch (const std::exception & e) { why = e.what(); return false; } }
static arpa::Model sample(int n) { arpa::Density d; d.salt = n; d.pct = n == 2 ? 20 : 50; return arpa::make(2 + n, words(2), n != 1, n, true, d); }
// damaged text files
MC_SPACE(badtext, 3) {
    int fmt = c.choose(NFMT), n = c.choose(2); if (!c.thorough) c.require(fmt < 2 || fmt == REST); arpa::Model m = sample(n); string t = m.text(), what, why; int kind = c.choose(3); vector<string> ls = run::lines(t);
    if (kind == 0) { int cut = c.choose(t.size() - 1); what = "cut after byte " + to_string(cut); t = t.substr(0, cut); }
    else if (kind == 1) { int l = c.choose(ls.size()), op = c.choose(6); string x = ls[l]; bool gram = x.find('\t') != string::npos, count = x.compare(0, 6, "ngram ") == 0; c.require(gram || count || (x != "" && op < 2)); what = "line " + to_string(l) + " '" + x + "' ";
        if (op == 0) { ls.erase(ls.begin() + l); what += "dropped"; } else if (op == 1) { ls.insert(ls.begin() + l, x); what += "doubled"; }
        else if (count) { c.require(op < 4); size_t e = x.find('='); int v = atoi(x.c_str() + e + 1) + (op == 2 ? 1 : -1); ls[l] = x.substr(0, e + 1) + to_string(v); what += "with another count"; }
        else { size_t tab = x.find('\t'); if (op == 2) { ls[l] = "0.5" + x.substr(tab); what += "positive"; } else if (op == 3) { ls[l] = "x" + x.substr(tab); what += "not a number"; } else if (op == 4) { c.require(x.find(' ') != string::npos); size_t e = x.find('\t', tab + 1); ls[l] = x.substr(0, tab + 1) + "new" + x.substr(x.find(' ')); what += "with a new word"; } else { ls[l] = x.substr(0, tab) + " " + x.substr(tab + 1); c.require(x.find("\t", tab + 1) != string::npos || true); c.require(x.find(' ') == string::npos); what += "without tab"; } }
        t = ""; for (size_t i = 0; i < ls.size(); i++) t += ls[i] + "\n"; }
    else { // a context that is not there, or no sentence markers
        int k = c.choose(3); static const char * w[] = {"<s>", "</s>", "a"}; arpa::Model x = m; what = string("without ") + w[k]; x.g[0].erase(arpa::Gram(1, w[k])); t = x.text(); }
    c.describe(string(FMT[fmt]) + " " + what); string f = run::put("bad.arpa", t);
    CHECK(!loads(fmt, f, why), "accepted", "a text model " + what + " was read without complaint"); c.step();
}
// damaged binary files: cut at every place, header damaged, read as another kind
MC_SPACE(badbinary, 3) {
    int fmt = c.choose(5), n = c.choose(2); arpa::Model m = sample(n); string a = run::put("g.arpa", m.text()), bin = run::dir() + "g.bin", why; { Config q = conf(); q.write_mmap = bin.c_str(); unique_ptr<Any> k(load(fmt, a, q)); } string t = run::get("g.bin"); unlink(bin.c_str());
    int kind = c.choose(3); string what;
    if (kind == 0) { int step = c.thorough ? 1 : 7; int k = c.choose((t.size() + step - 1) / step); what = "cut to " + to_string(k * step) + " of " + to_string(t.size()) + " bytes"; t = t.substr(0, k * step); }
    else if (kind == 1) { int k = c.choose(88); what = "with byte " + to_string(k) + " of the header changed"; c.require(t[k] != 0 || k < 52); t[k] ^= 4; }
    else { what = "of another kind"; }
    c.describe(string(FMT[fmt]) + " " + what); string f = run::put("bad.bin", t);
    if (kind == 2) { int g = c.choose(5); c.require(g != fmt); CHECK(!loads(g, f, why), "kind", string("a ") + FMT[fmt] + " file was read as " + FMT[g]); return; }
    CHECK(!loads(fmt, f, why), "accepted", "a binary model " + what + " was read without complaint"); c.step();
}
// vocabularies around the size of the reader's buffer
MC_SPACE(vocabulary, 3) {
    int fmt = c.choose(c.thorough ? 5 : 2), extra = c.choose(c.thorough ? 200 : 60), chunks = 1 + c.choose(2); arpa::Model m; m.g.resize(2); m.add(arpa::Gram(1, "<s>"), 1); m.add(arpa::Gram(1, "</s>"), 1); m.add(arpa::Gram(1, "<unk>"), 1);
    size_t goal = 16384 * chunks - 30 + extra, have = 9 + 1; arpa::Gram ws; for (int i = 0; have < goal; i++) { string w = "w" + to_string(i) + string(90, 'x'); if (have + w.size() + 1 > goal) { size_t n = goal - have; w = "q" + to_string(i) + string(n > 6 ? n - 6 : 0, 'y'); } ws.push_back(w); have += w.size() + 1; m.add(arpa::Gram(1, w), 1); }
    arpa::Gram b; b.push_back(ws[0]); b.push_back(ws.back()); m.add(b, 1); c.describe(string(FMT[fmt]) + " " + to_string(have) + " bytes of words");
    string a = run::put("v.arpa", m.text()), bin = run::dir() + "v.bin"; { Config q = conf(); q.write_mmap = bin.c_str(); unique_ptr<Any> k(load(fmt, a, q)); }
    Vocab v; Config q = conf(); q.enumerate_vocab = &v; unique_ptr<Any> k(load(fmt, bin, q)); CHECK(v.m.size() == m.g[0].size(), "vocab", v.m.size() << " words of " << m.g[0].size() << " read back");
    for (map<arpa::Gram, arpa::PB>::iterator i = m.g[0].begin(); i != m.g[0].end(); ++i) { CHECK(v.m.count(i->first[0]) && v.m[i->first[0]] == k->index(i->first[0]), "vocab", "word " + i->first[0] + " read back with another index"); State o; CHECK(near(k->full(k->null(), k->index(i->first[0]), o).prob, i->second.p), "prob", "probability of " + i->first[0]); }
    unlink(bin.c_str()); c.step();
}
int main(int argc, char ** argv) { return mc::main(argc, argv); }
