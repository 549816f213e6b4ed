// S06: the training pipeline (train-travatar.pl and the scripts it runs) against stand-ins for the aligner and the extractors.
// The run is killed at every change it makes to the file system (writes torn in half), or one program fails; it is then resumed.
#include "script.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <set>
#include <map>
#include <algorithm>
using namespace std; using namespace script;
static string T; static volatile int * ctl; static string preload;
static void put_exec(const string & n, const string & text) { string p = put(n, text); chmod(p.c_str(), 0755); }
static const char * SO = R"(
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
static volatile int * ctl; static char dirname_[4096];
static int on(void) { static int st; if (!st) { const char * f = getenv("CRASH_CTL"), * d = getenv("CRASH_DIR"); st = 2; if (f && d) { int (*o)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"); int fd = o(f, O_RDWR); if (fd >= 0) { void * p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (p != MAP_FAILED) { ctl = p; strncpy(dirname_, d, 4095); st = 1; } } } } return st == 1; }
static int inside(const char * p) { return on() && p && !strncmp(p, dirname_, strlen(dirname_)); }
static void die(void) { kill(0, SIGKILL); for (;;) pause(); }
static int now(void) { int n = __sync_add_and_fetch(ctl, 1); return n == ctl[1]; }
#define MAKES(fl) ((fl) & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))
#define OPEN(name) int name(const char * p, int fl, ...) { static int (*r)(const char *, int, ...); if (!r) r = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (MAKES(fl) && inside(p) && now()) die(); return r(p, fl, m); }
OPEN(open) OPEN(open64)
int mkdir(const char * p, mode_t m) { static int (*r)(const char *, mode_t); if (!r) r = (int (*)(const char *, mode_t))dlsym(RTLD_NEXT, "mkdir"); if (inside(p) && now()) die(); return r(p, m); }
int rename(const char * a, const char * b) { static int (*r)(const char *, const char *); if (!r) r = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename"); if (inside(b) && now()) die(); return r(a, b); }
ssize_t write(int fd, const void * b, size_t n) { static ssize_t (*r)(int, const void *, size_t); if (!r) r = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"); if (on() && n) { char l[64], p[4096]; snprintf(l, 64, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, p, 4095); if (k > 0) { p[k] = 0; if (inside(p) && now()) { r(fd, b, n / 2); die(); } } } return r(fd, b, n); }
)";
static void link_to(const string & from, const string & to) { string p = dir() + to; unlink(p.c_str()); if (symlink(from.c_str(), p.c_str())) throw runtime_error("symlink"); }
static void setup() {
    if (T == dir()) return; T = dir(); prctl(PR_SET_CHILD_SUBREAPER, 1);
    for (const char * d : {"fake", "fake/src", "fake/src/bin", "fake/script", "fake/script/train", "fake/bin"}) mkdir((T + d).c_str(), 0755);
    put("crash.c", SO); preload = T + "crash.so"; if (system(("cc -shared -fPIC -O1 -w -o " + preload + " " + T + "crash.c -ldl").c_str())) throw runtime_error("preload");
    put("ctl", string(4096, 0)); int fd = open((T + "ctl").c_str(), O_RDWR); void * m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (m == MAP_FAILED) throw runtime_error("mmap"); ctl = (volatile int *)m;
    // every program writes down that it ran; the one that is to fail leaves half of its output and fails
    const string head = "#!/bin/sh\nD=" + T + "\nme=${0##*/}\nmkdir $D/calls/$me.1 2>/dev/null && n=1 || { mkdir $D/calls/$me.2 2>/dev/null && n=2 || n=3; }\nread f < $D/fail\nfor a; do echo \"$a\"; done > $D/args.$me.$n\n";
    const string fails = "if [ $me.$n = $f ]; then go \"$@\" > $D/half.$me.$n; head -c $(( `wc -c < $D/half.$me.$n` / 2 )) $D/half.$me.$n; exit 3; fi\ngo \"$@\"\n";
    for (const char * s : {"align2lex.pl", "score-t2s.pl", "reverse-rt.pl", "combine-rt.pl", "symmetrize.pl"}) put_exec(string("fake/script/train/") + s, head + "go() { perl " + repo() + "/script/train/" + s + " \"$@\"; }\n" + fails);
    put_exec("fake/src/bin/tree-converter", head + "go() { sed -e 's/([A-Z]* *//g' -e 's/)//g'; }\n" + fails);
    const string ex = "go() { fs=; skip=; for a; do if [ -n \"$skip\" ]; then skip=; else case $a in -*) skip=1;; *) fs=\"$fs $a\";; esac; fi; done\nset -- $fs\nsed -e 's/([A-Z]* *//g' -e 's/)//g' $1 > $D/x1.$$; sed -e 's/([A-Z]* *//g' -e 's/)//g' $2 > $D/x2.$$; paste -d'|' $D/x1.$$ $D/x2.$$ $3 | awk -F'|' -v me=$me '{ n = split($1, s, / +/); split($2, t, / +/); k = split($3, l, / +/); for (i = 1; i <= k; i++) { split(l[i], p, /-/); a = p[1] + 1; b = p[2] + 1; print \"X ( \\\"\" s[a] \"\\\" ) ||| \\\"\" t[b] \"\\\" @ \" (me == \"hiero-extractor\" ? \"X\" : \"Y\") \" ||| 1 ||| 0-0\"; if (a < n) print \"X ( \\\"\" s[a] \"\\\" x0:X ) ||| x0:Y \\\"\" t[b] \"\\\" @ Y ||| 0.5 ||| 0-1\" } }'; }\n";
    put_exec("fake/src/bin/forest-extractor", head + ex + fails); put_exec("fake/src/bin/hiero-extractor", head + ex + fails);
    put_exec("fake/bin/mkcls", head + "go() { for a; do case $a in -V*) echo classes > ${a#-V};; esac; done; }\n" + fails);
    put_exec("fake/bin/snt2cooc.out", head + "go() { cat \"$@\"; }\n" + fails);
    put("giza.pl", "use strict; my %o; while (@ARGV) { my $k = shift; $o{$k} = shift; } my (%s, %t); for my $x (['-s', \\%s], ['-t', \\%t]) { open F, '<', $o{$x->[0]} or die; while (<F>) { chomp; my @a = split /\\t/; die \"bad vocabulary\" if defined $x->[1]{$a[0]}; $x->[1]{$a[0]} = $a[1]; } close F; } open C, '<', $o{'-CoocurrenceFile'} or die; close C;\n"
        "open F, '<', $o{'-c'} or die; my @l = <F>; close F; die if @l % 3; my $rev = $o{'-o'} =~ /trg-src/; open G, '>', \"$o{'-o'}.A3.final\" or die; for (my $i = 0; $i < @l; $i += 3) { my @a = map { $s{$_} } split ' ', $l[$i+1]; my @b = map { $t{$_} } split ' ', $l[$i+2]; my %al; for my $j (0 .. $#b) { my $k = $rev ? $#a - $j : $j; $k = $#a if $k > $#a; $k = 0 if $k < 0; $k = $j if $rev && $j == 0; next if $k > $#a; push @{$al{$k}}, $j + 1; }\n"
        "print G '# Sentence pair ('.($i/3+1).\") source length 1 target length 1 alignment score : 1\\n\".join(' ', @b).\"\\nNULL ({ }) \".join(' ', map { my $x = $al{$_}; $a[$_].' ({ '.join('', map { \"$_ \" } $x ? @$x : ()).'})' } 0 .. $#a).\"\\n\"; } close G;\n");
    put_exec("fake/bin/GIZA++", head + "go() { perl $D/giza.pl \"$@\"; }\n" + fails);
}
static void wipe(const string & n) { string w = dir() + n; if (access(w.c_str(), F_OK)) return; pid_t p = fork(); if (!p) { execlp("rm", "rm", "-rf", w.c_str(), (char*)0); _exit(127); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
struct Setup { bool hiero, words, nolm; int giza, lex, tm, threads, nbest, trees, corpus; string sym, smooth, last, fail, score, config, gz; Setup() : hiero(false), words(false), nolm(false), giza(0), lex(0), tm(0), threads(1), nbest(20), trees(0), corpus(0) {} };
static const vector<V> SRC = {{"a b c", "b d", "a", "c a b", "d d"}, {"a b", "b a"}}, TRG = {{"x y z", "y w y", "x", "z x y", "w v"}, {"x y", "y x"}}, AL = {{"0-0 1-1 2-2", "0-0 1-1 0-2", "0-0", "0-0 1-1 2-2", "0-0 1-0"}, {"0-0 1-1", "0-0"}};
static string text(const V & v) { string r; for (auto & l : v) r += l + "\n"; return r; }
static string trees(const V & v) { string r; for (auto & l : v) { string t = "(S"; for (auto & w : words(l)) t += " (X " + w + ")"; r += t + ")\n"; } return r; }
static V arguments(const Setup & s, bool resume) {
    string d = dir(); V a = {"-work_dir", d + "work", "-travatar_dir", d + "fake", "-src_file", d + "src", "-trg_file", d + "trg"}; auto add = [&](const string & k, const string & v) { a.push_back(k); a.push_back(v); };
    if (s.giza) add("-bin_dir", d + "fake/bin"); else add("-align_file", d + "align"); if (s.nolm) add("-no_lm", "true"); else add("-lm_file", d + "lm"); if (s.hiero) add("-method", "hiero"); if (s.words) { add("-src_words", d + "srcw"); add("-trg_words", d + "trgw"); } if (s.lex & 1) add("-lex_srctrg", d + "lex1"); if (s.lex & 2) add("-lex_trgsrc", d + "lex2"); if (s.tm) add("-tm_file", d + "tm"); if (s.sym.size()) add("-symmetrize", s.sym); if (s.smooth.size()) add("-smooth", s.smooth); if (s.last.size()) add("-last_step", s.last); if (s.threads != 1) add("-threads", to_string(s.threads)); if (s.nbest != 20) add("-nbest_rules", to_string(s.nbest)); if (s.score.size()) add("-score_options", s.score); if (s.trees & 1) add("-trg_format", "penn"); if (s.trees & 2) { add("-src_format", "word"); } if (resume) a.push_back("-resume"); return a;
}
static string describe(const Setup & s) { return "corpus " + to_string(s.corpus) + (s.fail.size() ? " " + s.fail + " fails" : "") + ": " + join(arguments(s, false)); }
static void prepare(const Setup & s) {
    setup(); wipe("work"); const V & a = SRC[s.corpus], & b = TRG[s.corpus]; put("src", s.hiero || (s.trees & 2) ? text(a) : trees(a)); put("trg", (s.trees & 1) ? trees(b) : text(b)); put("srcw", text(a)); put("trgw", text(b)); put("align", text(AL[s.corpus])); put("lm", "lm\n"); put("tm", "table\n"); put("lex1", "a x 0.5\nb y 0.25\n"); put("lex2", "x a 0.125\ny b 0.75\n"); put("fail", (s.fail.size() ? s.fail : "-") + "\n");
}
static set<string> called() { set<string> r; for (const char * t : {"tree-converter", "forest-extractor", "hiero-extractor", "mkcls", "snt2cooc.out", "GIZA++", "align2lex.pl", "score-t2s.pl", "reverse-rt.pl", "combine-rt.pl", "symmetrize.pl"}) for (int i = 1; i <= 3; i++) if (exists("calls/" + string(t) + "." + to_string(i))) r.insert(string(t) + "." + to_string(i)); return r; }
static Out train(const V & args, int at) {
    wipe("calls"); mkdir((dir() + "calls").c_str(), 0755); ctl[0] = 0; ctl[1] = at; string o = dir() + "stdout", e = dir() + "stderr", p = repo() + "/script/train/train-travatar.pl"; V a = {"perl", p}; a.insert(a.end(), args.begin(), args.end()); vector<char *> v; for (auto & x : a) v.push_back(const_cast<char *>(x.c_str())); v.push_back(0);
    pid_t pid = fork();
    if (pid == 0) { setpgid(0, 0); int fi = open("/dev/null", O_RDONLY), fo = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); if (chdir(dir().c_str())) _exit(126); setenv("LD_PRELOAD", preload.c_str(), 1); setenv("CRASH_CTL", (dir() + "ctl").c_str(), 1); setenv("CRASH_DIR", (dir() + "work").c_str(), 1); setenv("PERL_HASH_SEED", "0", 1); execvp(v[0], &v[0]); _exit(127); }
    setpgid(pid, pid); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Out r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (r.code) kill(-pid, SIGKILL);
    while (true) { int x; pid_t q = waitpid(-pid, &x, 0); if (q < 0 && errno == ECHILD) break; }   // the children left behind
    r.out = read(o); r.err = read(e); return r;
}
// tables with the features of each line in a fixed order
static V table(const string & s) { V r; for (auto & l : lines(s)) { V f = fields(l, " ||| "); if (f.size() > 2) { V w = words(f[2]); sort(w.begin(), w.end()); f[2] = join(w); } r.push_back(join(f, " ||| ")); } return r; }
static V bag(const string & s) { V r = lines(s); sort(r.begin(), r.end()); return r; }
static string unzip(const string & p) { FILE * f = popen(("gzip -cdf " + p + " 2>/dev/null").c_str(), "r"); string r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); pclose(f); return r; }
struct Want { V align, lex1, lex2, extract, rt1, rt2, tm; string srcw, trgw; };
static string sorted(const string & s) { return text(bag(s)); }
static const Want & wanted(mc::Ctx & c, const Setup & s) {
    static map<string, Want> memo; string key = to_string(s.corpus) + " " + to_string(s.giza) + " " + s.sym + " " + to_string(s.lex) + " " + s.smooth + " " + to_string(s.nbest) + " " + s.score + " " + to_string(s.hiero); auto it = memo.find(key); if (it != memo.end()) return it->second; Want & w = memo[key]; auto must = [&](const Out & o) -> const string & { if (o.code) throw runtime_error("reference: " + tail(o.err)); static string r; r = o.out; return r; };
    const V & A = SRC[s.corpus], & B = TRG[s.corpus]; w.srcw = text(A); w.trgw = text(B); string al = text(AL[s.corpus]);
    if (s.giza) { string g[2]; for (int d = 0; d < 2; d++) for (size_t i = 0; i < A.size(); i++) { V a = words(d ? B[i] : A[i]), b = words(d ? A[i] : B[i]); map<int, V> m; int n = a.size(); for (int j = 0; j < (int)b.size(); j++) { int k = d ? n - 1 - j : j; if (k >= n) k = n - 1; if (k < 0) k = 0; if (d && j == 0) k = 0; m[k].push_back(to_string(j + 1)); } g[d] += "# Sentence pair (" + to_string(i + 1) + ") source length 1 target length 1 alignment score : 1\n" + join(b) + "\nNULL ({ })"; for (int k = 0; k < n; k++) { g[d] += " " + a[k] + " ({ "; for (auto & x : m[k]) g[d] += x + " "; g[d] += "})"; } g[d] += "\n"; } al = must(run("train/symmetrize.pl", {"--sym=" + (s.sym.size() ? s.sym : string("grow")), put("g1", g[0]), put("g2", g[1])})); }
    w.align = lines(al); must(run("train/align2lex.pl", {put("wf", w.srcw), put("we", w.trgw), put("wa", al), dir() + "w1", dir() + "w2"})); string l1 = (s.lex & 1) ? "a x 0.5\nb y 0.25\n" : get("w1"), l2 = (s.lex & 2) ? "x a 0.125\ny b 0.75\n" : get("w2"); w.lex1 = bag(l1); w.lex2 = bag(l2);
    string ex; for (size_t i = 0; i < A.size(); i++) { V a = words(A[i]), b = words(B[i]); for (auto & l : words(w.align[i])) { int x, y; if (sscanf(l.c_str(), "%d-%d", &x, &y) != 2) throw runtime_error("link"); ex += "X ( \"" + a[x] + "\" ) ||| \"" + b[y] + "\" @ " + (s.hiero ? "X" : "Y") + " ||| 1 ||| 0-0\n"; if (x + 1 < (int)a.size()) ex += "X ( \"" + a[x] + "\" x0:X ) ||| x0:Y \"" + b[y] + "\" @ Y ||| 0.5 ||| 0-1\n"; } } w.extract = bag(ex);
    put("l1", l1); put("l2", l2); V so = words(s.score), a1 = so, a2 = so; a1.insert(a1.end(), {"--fof-file=" + dir() + "wfof", "--lex-prob-file=" + dir() + "l2", "--cond-prefix=egf", "--joint"}); a2.insert(a2.end(), {"--lex-prob-file=" + dir() + "l1", "--cond-prefix=fge"});
    string r1 = sorted(must(run("train/score-t2s.pl", a1, sorted(ex)))); string r2 = must(run("train/reverse-rt.pl", {}, ex)); r2 = must(run("train/score-t2s.pl", a2, sorted(r2))); r2 = sorted(must(run("train/reverse-rt.pl", {}, r2))); w.rt1 = table(r1); w.rt2 = table(r2); V ca = {"--fof-file=" + dir() + "wfof", "--top-n=" + to_string(s.nbest)}; if (s.smooth.size()) ca.push_back("--smooth=" + s.smooth); ca.push_back(put("r1", r1)); ca.push_back(put("r2", r2)); w.tm = table(must(run("train/combine-rt.pl", ca))); return w;
}
#define SAME(a, b, key, what) CHECK((a) == (b), key, what << " is\n" << join(a, "\n") << "\ninstead of\n" << join(b, "\n"))
static void judge(mc::Ctx & c, const Setup & s) {
    string d = dir(), w = d + "work/"; const Want & x = wanted(c, s); const bool early = s.last == "align" || s.last == "lex";
    if (s.giza) { V a = lines(read(w + "align/align.txt")); SAME(a, x.align, "alignment", "the alignment"); }
    if (!s.words && !s.hiero && !(s.trees & 2)) { V a = lines(read(w + "data/src.word")), b = lines(x.srcw); SAME(a, b, "words", "the source text"); }
    if (!s.words && (s.trees & 1)) { V a = lines(read(w + "data/trg.word")), b = lines(x.trgw); SAME(a, b, "words", "the target text"); }
    CHECK(get("align") == text(AL[s.corpus]) && get("lex1") == "a x 0.5\nb y 0.25\n" && get("lex2") == "x a 0.125\ny b 0.75\n" && get("tm") == "table\n" && get("srcw") == text(SRC[s.corpus]), "inputs", "a given file was changed");
    if (s.last != "align") { if (!(s.lex & 1)) { V a = bag(read(w + "lex/src_given_trg.lex")); SAME(a, x.lex1, "lexicon", "P(source|target)"); } if (!(s.lex & 2)) { V a = bag(read(w + "lex/trg_given_src.lex")); SAME(a, x.lex2, "lexicon", "P(target|source)"); } }
    string ini = read(w + "model/travatar.ini"); if (early) { CHECK(ini == "" && !exists("work/model/extract.gz"), "last-step", "training went on after its last step"); return; }
    if (!s.tm) { V a = bag(unzip(w + "model/extract.gz")); SAME(a, x.extract, "extract", "the extracted rules"); a = table(unzip(w + "model/rule-table.src-trg.gz")); SAME(a, x.rt1, "scores", "the source-target table"); a = table(unzip(w + "model/rule-table.trg-src.gz")); SAME(a, x.rt2, "scores", "the target-source table"); a = table(unzip(w + "model/rule-table.gz")); SAME(a, x.tm, "table", "the rule table"); }
    map<string, V> sec; string cur; for (auto & l : lines(ini)) { if (l.size() && l[0] == '[') { cur = l; CHECK(!sec.count(cur), "config", "repeated " << l); sec[cur]; } else if (l.size()) sec[cur].push_back(l); } auto is = [&](const string & k, const V & v) { V g = sec.count(k) ? sec[k] : V(); SAME(g, v, "config", k << " in the configuration"); };
    V tm = {s.tm ? d + "tm" : w + "model/rule-table.gz"}; if (s.hiero) tm.push_back(w + "model/glue-rules"); is("[tm_file]", tm); is("[lm_file]", s.nolm ? V() : V{d + "lm"}); is("[binarize]", {"right"}); if (s.hiero) { is("[in_format]", {"word"}); is("[tm_storage]", {"fsm"}); is("[hiero_span_limit]", {"20", "1000"}); V g = lines(read(w + "model/glue-rules")), e = {"x0:X @ S ||| x0:X @ S ||| ", "x0:X x1:S @ S ||| x0:X x1:S @ S ||| glue=1"}; SAME(g, e, "glue", "the glue rules"); }
    CHECK(sec["[weight_vals]"].size() == 10, "config", "weights in the configuration: " << ini); CHECK(sec.size() == (size_t)(3 + !s.nolm + 3 * s.hiero), "config", "sections in the configuration: " << ini); c.checked();
}
// the extractor's arguments
static void check_extractor(mc::Ctx & c, const Setup & s) { if (s.tm || s.last.size()) return; V a = lines(get(string("args.") + (s.hiero ? "hiero" : "forest") + "-extractor.1")); map<string, string> o; V pos; for (size_t i = 0; i < a.size(); i++) if (a[i][0] == '-' && i + 1 < a.size()) { o[a[i]] = a[i + 1]; i++; } else pos.push_back(a[i]); CHECK(pos.size() == 3 && read(pos[0]) == get("src") && read(pos[1]) == get("trg") && lines(read(pos[2])) == wanted(c, s).align, "options", join(a)); if (!s.hiero) CHECK(o["-input_format"] == ((s.trees & 2) ? "word" : "penn") && o["-output_format"] == ((s.trees & 1) ? "penn" : "word"), "options", join(a)); }
static void drive(mc::Ctx & c, Setup & s, int at, int at2 = 0) {
    c.describe([&]() { return describe(s) + (at ? " killed at change " + to_string(at) : "") + (at2 ? ", resumed and killed at change " + to_string(at2) : ""); }); prepare(s); Out o = train(arguments(s, false), at); c.step(called().size() + 1);
    if (!at && s.fail.empty()) { CHECK(o.code == 0, "failed", "exit code " << o.code << ": " << tail(o.err, 600)); check_extractor(c, s); judge(c, s); return; }
    if (at) { c.require(ctl[0] >= at); CHECK(o.code != 0, "harness", "not killed"); }
    else { c.require(called().count(s.fail)); CHECK(o.code != 0, "ignored", "a failing program is ignored: " << tail(o.err, 300)); CHECK(!exists("work/model/travatar.ini"), "ignored", "a model is written though a program failed"); }
    // without -resume nothing may be touched; with it, the result must be that of an undisturbed run
    put("fail", "-\n"); const bool aligned = s.giza && exists("work/lex/src_given_trg.lex"), extracted = exists("work/model/rule-table.src-trg.gz");
    if (at2) { Out r = train(arguments(s, true), at2); c.step(); c.require(ctl[0] >= at2); }
    Out r = train(arguments(s, true), 0); c.step(called().size() + 1); CHECK(r.code == 0, "resume", "exit code " << r.code << " when resuming: " << tail(r.err, 600)); judge(c, s); set<string> k = called(); if (aligned) CHECK(!k.count("GIZA++.1"), "again", "the words are aligned again"); if (extracted) CHECK(!k.count("forest-extractor.1") && !k.count("hiero-extractor.1"), "again", "rules are extracted again"); c.state(describe(s) + to_string(at) + " " + to_string(at2));
}
MC_SPACE(settings, 3) {
    Setup s; int k = c.choose(12); s.threads = 1 + c.choose(2); s.corpus = c.choose(2); if (k == 0) s.nolm = c.flag(); if (k == 1) { s.giza = 1; static const char * Y[] = {"", "grow", "union", "intersect"}; s.sym = Y[c.choose(4)]; } if (k == 2) s.hiero = true; if (k == 3) { s.words = true; s.trees = 1; } if (k == 4) s.lex = 1 + c.choose(3); if (k == 5) s.tm = 1; if (k == 6) { static const char * L[] = {"align", "lex"}; s.last = L[c.choose(2)]; s.giza = c.choose(2); } if (k == 7) { s.corpus = 0; s.nbest = 1 + c.choose(2); } if (k == 8) s.trees = 1; if (k == 9) { s.score = c.choose(2) ? "--trg-label" : "--src-min-freq=2"; s.corpus = 0; } if (k == 10) { s.giza = 1; s.hiero = true; } if (k == 11) { s.giza = 1; s.lex = c.choose(4); s.trees = 1; }
    drive(c, s, 0);
}
static void plan(mc::Ctx & c, Setup & s, int k) { if (k == 0) { s.giza = 1; s.trees = 1; } if (k == 1) s.hiero = true; if (k == 2) s.lex = 1; if (k == 3) { s.lex = 2; s.giza = 1; } if (k == 4) s.tm = 1; if (k == 5) { s.giza = 1; s.hiero = true; } if (k == 6) s.words = true; if (k == 7) { s.giza = 1; s.sym = "union"; } }
MC_SPACE(killed, 3) { Setup s; s.corpus = c.thorough ? c.choose(2) : 1; int k = c.choose(c.thorough ? 8 : 5); plan(c, s, k); int at = 1 + c.choose(k == 0 ? 60 : k == 1 ? 24 : k == 2 ? 26 : k == 4 ? 16 : 54); drive(c, s, at); }
MC_SPACE(killed_twice, 2) { Setup s; s.corpus = 1; plan(c, s, c.choose(3)); int at = 1 + c.choose(60), at2 = 1 + c.choose(60); drive(c, s, at, at2); }
MC_SPACE(fails, 3) { Setup s; s.corpus = 1; int k = c.choose(c.thorough ? 8 : 4); s.threads = 1 + c.choose(2); plan(c, s, k); static const char * F[] = {"tree-converter.1", "tree-converter.2", "forest-extractor.1", "hiero-extractor.1", "mkcls.1", "mkcls.2", "snt2cooc.out.1", "snt2cooc.out.2", "GIZA++.1", "GIZA++.2", "align2lex.pl.1", "score-t2s.pl.1", "score-t2s.pl.2", "reverse-rt.pl.1", "reverse-rt.pl.2", "combine-rt.pl.1", "symmetrize.pl.1"}; s.fail = F[c.choose(17)]; drive(c, s, 0); }
MC_SPACE(existing, 3) { Setup s; s.corpus = 1; c.describe(describe(s)); prepare(s); int k = c.choose(2); mkdir((dir() + "work").c_str(), 0755); if (k) { mkdir((dir() + "work/model").c_str(), 0755); put("work/model/travatar.ini", "mine\n"); } Out o = train(arguments(s, false), 0); c.step(); CHECK(o.code != 0 && ctl[0] <= 1 && called().empty(), "existing", "training into an existing directory: " << tail(o.err)); if (k) CHECK(get("work/model/travatar.ini") == "mine\n", "existing", "an existing model is overwritten"); c.checked(); }
int main(int argc, char ** argv) { return mc::main(argc, argv); }
