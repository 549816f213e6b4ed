// S07: preprocessing (preprocess.pl): whatever the number of parts and the way of splitting, every line goes through every step and parallel files stay in step.
// Stand-ins for the tokenizers and parsers work line by line, so that the whole result is known; the script's pauses are shortened.
#include "script.h"
#include <set>
#include <map>
#include <algorithm>
using namespace std; using namespace script;
static string T;
static void put_exec(const string & n, const string & text) { string p = put(n, text); chmod(p.c_str(), 0755); }
static void link_to(const string & from, const string & to) { string p = dir() + to; unlink(p.c_str()); if (symlink(from.c_str(), p.c_str())) throw runtime_error("symlink"); }
static const char * SO = R"(
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/select.h>
static int n;
unsigned sleep(unsigned s) { if (++n > 20000) _exit(99); usleep(1000); return 0; }
int select(int k, fd_set * a, fd_set * b, fd_set * c, struct timeval * t) { static int (*r)(int, fd_set *, fd_set *, fd_set *, struct timeval *); if (k == 0 || (!a && !b && !c)) return 0; if (!r) r = (int (*)(int, fd_set *, fd_set *, fd_set *, struct timeval *))dlsym(RTLD_NEXT, "select"); return r(k, a, b, c, t); }
)";
static void setup() {
    if (T == dir()) return; T = dir();
    for (const char * d : {"fake", "fake/src", "fake/src/bin", "fake/script", "fake/script/train", "fake/p", "fake/p/ckylark", "fake/p/ckylark/src", "fake/p/ckylark/src/bin", "fake/p/ckylark/data", "fake/p/egret", "fake/p/kytea", "fake/p/kytea/src", "fake/p/kytea/src/bin", "fake/p/kytea/data"}) mkdir((T + d).c_str(), 0755);
    put("pause.c", SO); if (system(("cc -shared -fPIC -O1 -w -o " + T + "pause.so " + T + "pause.c -ldl").c_str())) throw runtime_error("preload");
    link_to(repo() + "/script/tree", "fake/script/tree"); link_to(repo() + "/script/train/clean-corpus.pl", "fake/script/train/clean-corpus.pl"); link_to(repo() + "/script/train/symmetrize.pl", "fake/script/train/symmetrize.pl");
    for (const char * m : {"wsj", "jdc"}) put(string("fake/p/ckylark/data/") + m + ".grammar", "x\n"); put("fake/p/kytea/data/model.bin", "x\n"); for (const char * m : {"eng_grammar", "jpn_grammar", "chn_grammar"}) put(string("fake/p/egret/") + m, "x\n");
    put_exec("fake/src/bin/tokenizer", "#!/bin/sh\nexec sed 's/,/ ,/g'\n");
    put_exec("fake/p/kytea/src/bin/kytea", "#!/bin/sh\nfor a; do last=$a; done\nexec sed 's/,/ 、/g' $last\n");
    put_exec("fake/p/ckylark/src/bin/ckylark", "#!/bin/sh\nexec sed 's/ /) (X /g; s/^/(ROOT (X /; s/$/))/'\n");
    // conversions mark what was asked for, so that every line shows the steps it went through
    put_exec("fake/src/bin/tree-converter", "#!/bin/sh\nin=penn; out=penn; split=; cas=; bin=; last=\nfor a; do case $last in -input_format) in=$a;; -output_format) out=$a;; -split) split=$a;; -case) cas=$a;; -binarize) bin=$a;; esac; last=$a; done\n"
        "[ -z \"$cas\" ] || [ -f \"${cas#true:model=}\" ] || exit 3\ncat | { if [ -n \"$split\" ]; then sed \"s/-/) (X /g\"; else cat; fi; } | { if [ -n \"$cas\" ]; then sed 's/T/t/'; else cat; fi; } | { if [ -n \"$bin\" ]; then sed \"s/(ROOT/(ROOT-$bin/\"; else cat; fi; } | { if [ $in = penn ] && [ $out = word ]; then sed 's/([A-Za-z]* *//g; s/)//g'; elif [ $in = penn ] && [ $out = egret ]; then sed 's/.*/sentence 1 :\\n&\\n& => TREE\\n/'; else cat; fi; }\n");
    put_exec("fake/src/bin/train-caser", "#!/bin/sh\nsort\n");
    put_exec("fake/p/egret/egret", "#!/bin/sh\nfor a; do case $a in -i=*) f=${a#-i=};; esac; done\nsed 's/^s[14].*/sentence 1 :\\n&\\n\\n/; t; s/.*/sentence 1 :\\n&\\n& => EGRET^g\\n/' $f\n");
    put("fake/train.pl", "my %o; while (@ARGV) { my $k = shift; $o{$k} = shift; } sub rd { open F, '<', $_[0] or die; my @l = <F>; close F; chomp @l; @l } my @a = rd($o{'-src_words'}); my @b = rd($o{'-trg_words'} || $o{'-trg_file'}); my @t = rd($o{'-src_file'}); die if @a != @b or @a != @t; mkdir $o{'-work_dir'}; mkdir \"$o{'-work_dir'}/$_\" for qw(align lex); open G, '>', \"$o{'-work_dir'}/align/align.txt\"; for my $i (0 .. $#a) { my @x = split ' ', $a[$i]; my @y = split ' ', $b[$i]; print G join(' ', map { ($_ < @x ? $_ : $#x).\"-$_\" } 0 .. $#y).\"\\n\"; } close G;\n");
    put_exec("fake/script/train/train-travatar.pl", "#!/bin/sh\nexec perl " + T + "fake/train.pl \"$@\"\n");
}
static void wipe(const string & n) { string w = dir() + n; if (access(w.c_str(), F_OK)) return; pid_t p = fork(); if (!p) { execlp("rm", "rm", "-rf", w.c_str(), (char*)0); _exit(127); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
struct Setup { int n, threads, clean, pattern; bool inter, bi, true_, forest, align, split; string src; Setup() : n(3), threads(1), clean(0), pattern(0), inter(false), bi(true), true_(false), forest(false), align(false), split(false), src("en") {} };
// line i of a side; its length depends on the pattern
static string word(int i, int j, int side) { return (side ? "t" : "s") + to_string(i) + (j == 0 ? "T" : j == 1 ? "-B" : "c"); }
static int length(const Setup & s, int i, int side) { static const int L[6][6] = {{1, 2, 3, 1, 2, 3}, {5, 1, 1, 2, 2, 1}, {1, 1, 5, 1, 1, 5}, {2, 5, 1, 5, 1, 2}, {1, 1, 1, 1, 1, 1}, {5, 5, 1, 1, 5, 1}}; int l = L[s.pattern][i % 6]; return side ? (s.pattern == 3 ? 7 - l : l) : l; }
static string raw(const Setup & s, int i, int side) { string r; for (int j = 0; j < length(s, i, side); j++) r += (j ? " " : "") + word(i, j, side); return r + (i % 2 ? "," : ""); }
static string subst(string t, const string & a, const string & b, bool all = true) { size_t p = 0; while ((p = t.find(a, p)) != string::npos) { t.replace(p, a.size(), b); p += b.size(); if (!all) break; } return t; }
static string low(string t) { for (auto & c : t) c = tolower(c); return t; }
static string tok(const Setup & s, int i, int side) { return subst(raw(s, i, side), ",", !side && s.src == "ja" ? " 、" : " ,"); }
static string tree(const Setup & s, const string & t, int side) { string r = "(ROOT (X " + subst(t, " ", ") (X ") + "))"; return s.split && !side ? subst(r, "-", ") (X ") : r; }
static string plain(string t) { string r; for (auto & w : words(t)) { if (w[0] == '(') continue; while (w.size() && w[w.size() - 1] == ')') w.erase(w.size() - 1); r += (r.size() ? " " : "") + w; } return r; }
static string lines_(const V & v) { string r; for (auto & l : v) r += l + "\n"; return r; }
static Out preprocess(const Setup & s) {
    string d = dir(); V a = {"-travatar-dir", d + "fake", "-program-dir", d + "fake/p", "-threads", to_string(s.threads), "-src", s.src}; if (s.bi) { a.push_back("-trg"); a.push_back("de"); a.push_back("-ckylark-trg-model"); a.push_back(d + "fake/p/ckylark/data/wsj"); } if (s.inter) { a.push_back("-split-type"); a.push_back("interleave"); } if (s.clean) { a.push_back("-clean-len"); a.push_back(to_string(s.clean)); } if (s.true_) { a.push_back("-truecase-src"); if (s.bi) a.push_back("-truecase-trg"); } if (s.forest) a.push_back("-forest-src"); if (s.align) a.push_back("-align"); if (s.split) { a.push_back("-split-words-src"); a.push_back("-"); } a.push_back(d + "in.src"); if (s.bi) a.push_back(d + "in.trg"); a.push_back(d + "work");
    wipe("work"); string x, y; for (int i = 0; i < s.n; i++) { string t = raw(s, i, 0); if (i == 1) t = "\xE2\x80\xA8" + t + "\r"; x += t + "\n"; y += raw(s, i, 1) + (i == 2 ? "\r\n" : "\n"); } put("in.src", x); put("in.trg", y); setenv("LD_PRELOAD", (d + "pause.so").c_str(), 1); Out o = run("preprocess/preprocess.pl", a); unsetenv("LD_PRELOAD"); return o;
}
static V file(const string & n) { return lines(get("work/" + n)); }
static V blocks(const string & t) { V r; size_t p = 0; while (p < t.size()) { size_t q = t.find("\n\n", p); if (q == string::npos) { r.push_back(t.substr(p)); break; } r.push_back(t.substr(p, q - p)); p = q + 2; } return r; }
static void drive(mc::Ctx & c, const Setup & s) {
    setup(); c.describe(to_string(s.n) + " lines of pattern " + to_string(s.pattern) + " in " + to_string(s.threads) + " parts " + (s.inter ? "interleaved" : "consecutive") + " from " + s.src + (s.bi ? " with translations" : "") + (s.clean ? " up to " + to_string(s.clean) + " words" : "") + (s.true_ ? " truecased" : "") + (s.forest ? " forests" : "") + (s.align ? " aligned" : "") + (s.split ? " split" : ""));
    Out o = preprocess(s); c.step(s.n); CHECK(o.code == 0, "failed", "exit code " << o.code << ": " << tail(o.err, 500)); V L[2], ids; string langs[2] = {s.src, "de"}; int sides = s.bi ? 2 : 1;
    for (int d = 0; d < sides; d++) { V w, t; for (int i = 0; i < s.n; i++) { w.push_back(raw(s, i, d)); t.push_back(tok(s, i, d)); } V g = file("orig/" + langs[d]); CHECK(g == w, "original", "orig is\n" << lines_(g)); g = file("tok/" + langs[d]); CHECK(g == t, "tokens", "tok is\n" << lines_(g)); }
    // what is kept: as sequences unless pieces of different lengths are put together again line by line
    vector<pair<string, string> > want, got; for (int i = 0; i < s.n; i++) { string a = tok(s, i, 0), b = s.bi ? tok(s, i, 1) : ""; if (!s.clean || (words(a).size() <= (size_t)s.clean && words(b).size() <= (size_t)s.clean)) want.push_back(make_pair(a, b)); } L[0] = file("clean/" + langs[0]); L[1] = s.bi ? file("clean/" + langs[1]) : V(L[0].size()); CHECK(L[0].size() == L[1].size(), "step", "the cleaned texts have " << L[0].size() << " and " << L[1].size() << " lines"); for (size_t i = 0; i < L[0].size(); i++) got.push_back(make_pair(L[0][i], L[1][i])); if (s.clean && s.inter) { sort(want.begin(), want.end()); sort(got.begin(), got.end()); } CHECK(want == got, "clean", got.size() << " instead of " << want.size() << " lines after cleaning:\n" << lines_(L[0]));
    for (int d = 0; d < sides; d++) {
        V tr, tl, hi, tu, ttu; for (auto & l : L[d]) { string t = tree(s, l, d); tr.push_back(t); tl.push_back(low(t)); hi.push_back(plain(t)); tu.push_back(subst(plain(t), "T", "t", false)); ttu.push_back(subst(t, "T", "t", false)); }
        V g = file("tree/" + langs[d]); CHECK(g == tr, "trees", "tree is\n" << lines_(g)); g = file("treelow/" + langs[d]); for (size_t i = 0; i < g.size(); i++) CHECK(i < tl.size() && low(g[i]) == tl[i] && plain(g[i]) == plain(tl[i]), "lowercase", "treelow is\n" << lines_(g)); CHECK(g.size() == tl.size(), "lowercase", "treelow is\n" << lines_(g)); V pl; for (auto & t : g) pl.push_back(plain(t)); g = file("low/" + langs[d]); CHECK(g == pl, "words", "low is\n" << lines_(g) << "for\n" << lines_(pl));
        if (s.true_) { g = file("high/" + langs[d]); CHECK(g == hi, "words", "high is\n" << lines_(g)); g = file("true/" + langs[d]); CHECK(g == tu, "truecase", "true is\n" << lines_(g) << "instead of\n" << lines_(tu)); g = file("treetrue/" + langs[d]); CHECK(g == ttu, "truecase", "treetrue is\n" << lines_(g)); V m = file("truecaser/" + langs[d] + ".truecaser"); V h = hi; sort(h.begin(), h.end()); sort(m.begin(), m.end()); CHECK(m == h, "caser", "the casing model is trained on\n" << lines_(m)); }
        if (s.forest && !d) { V b = blocks(get("work/for/" + langs[d])); CHECK(b.size() == L[d].size(), "forests", b.size() << " forests for " << L[d].size() << " lines"); for (size_t i = 0; i < b.size(); i++) { V x = lines(b[i]); string w = L[d][i]; if (s.split) w = subst(w, "-", ") (X "); string e = w[1] == '1' || w[1] == '4' ? tree(s, L[d][i], d) + " => TREE" : w + " => EGRET" + (s.src == "ja" ? "^g" : ""); CHECK(x.size() == 3 && x[2] == e, "forests", "forest " << i << " is\n" << b[i] << "\nfor " << w); } V bl = blocks(get("work/forlow/" + langs[d])); CHECK(bl.size() == b.size(), "forests", "lowercase forests"); for (size_t i = 0; i < b.size(); i++) CHECK(bl[i] == low(b[i]), "forests", "lowercase forest\n" << bl[i]); }
    }
    if (s.align) { V a = file("low/" + langs[0]), b = file("low/" + langs[1]), g = file("giza/" + langs[0] + langs[1]), h = file("giza/" + langs[1] + langs[0]); CHECK(g.size() == a.size() && h.size() == a.size(), "alignment", g.size() << " and " << h.size() << " alignments for " << a.size() << " lines"); for (size_t i = 0; i < a.size(); i++) { int n = words(a[i]).size(), m = words(b[i]).size(); V x, y; for (int j = 0; j < m; j++) { int k = min(j, n - 1); x.push_back(to_string(k) + "-" + to_string(j)); y.push_back(to_string(j) + "-" + to_string(k)); } CHECK(g[i] == join(x) && h[i] == join(y), "alignment", g[i] << " and " << h[i] << " for " << a[i] << " and " << b[i]); } }
    c.checked(); c.state(s.n * 1000 + s.threads * 20 + s.pattern * 2 + s.inter);
}
// lines 15 and 16 have two-digit numbers of parts
MC_SPACE(parts, 3) { Setup s; s.n = c.range(1, c.thorough ? 12 : 7); static const int P[] = {1, 2, 3, 4, 5, 11}; s.threads = P[c.choose(c.thorough ? 6 : 5)]; s.inter = c.flag(); s.bi = c.flag(); s.pattern = 0; drive(c, s); }
MC_SPACE(many_parts, 3) { Setup s; static const int N[] = {1, 10, 13, 25}, P[] = {10, 11, 16}; s.n = N[c.choose(4)]; s.threads = P[c.choose(c.thorough ? 3 : 2)]; s.inter = c.flag(); s.bi = false; drive(c, s); }
MC_SPACE(cleaned, 3) { Setup s; s.n = c.range(1, 6); s.threads = c.range(1, 3); s.inter = c.flag(); s.clean = 3; s.pattern = c.choose(6); s.align = c.thorough ? c.flag() : s.n % 2 == 0; int kept = 0; for (int i = 0; i < s.n; i++) if (words(tok(s, i, 0)).size() <= 3 && words(tok(s, i, 1)).size() <= 3) kept++; c.require(kept > 0); drive(c, s); }
MC_SPACE(steps, 3) { Setup s; s.n = c.range(1, c.thorough ? 6 : 4); s.threads = c.range(1, 3); s.inter = c.flag(); int k = c.choose(5); s.src = c.choose(2) ? "en" : "ja"; s.bi = k != 1; s.true_ = k == 0 || k == 1; s.forest = k == 2 || k == 3; s.split = k == 3 || k == 4; s.align = k == 4; drive(c, s); }
int main(int argc, char ** argv) { return mc::main(argc, argv); }
