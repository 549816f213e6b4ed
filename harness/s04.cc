// S04: the tuning loop (mert-travatar.pl and the scripts it calls) against stand-ins for the decoder and the optimizers.
// The stand-ins' answers in every iteration and the call that fails are choices; what they were given is written down and judged.
#include "script.h"
#include <set>
#include <map>
#include <algorithm>
using namespace std; using namespace script;
typedef map<string, string> Wts;
static string T;   // directory of stand-ins
static void put_exec(const string & n, const string & text) { string p = put(n, text); chmod(p.c_str(), 0755); }
static void link_to(const string & from, const string & to) { string p = dir() + to; unlink(p.c_str()); if (symlink(from.c_str(), p.c_str())) throw runtime_error("symlink"); }
static void setup() {
    if (T == dir()) return; T = dir();
    for (const char * d : {"fake", "fake/src", "fake/src/bin", "fake/script", "fake/script/train", "fake/bin", "ans"}) mkdir((T + d).c_str(), 0755);
    link_to(repo() + "/script/mert", "fake/script/mert"); for (const char * s : {"filter-model.pl", "filter-rule-table.py", "filter-rt.pl"}) link_to(repo() + "/script/train/" + s, string("fake/script/train/") + s);
    // count calls; fail when told to; write down the arguments one per line, and the files that were read
    const string head = "#!/bin/sh\nD=" + T + "\nread n < $D/count\nn=$((n+1)); echo $n > $D/count\nread f < $D/fail\nshow() { echo \"FILE $1\"; cat \"$1\"; echo \"END\"; }\n";
    const string tail = "if [ $n = $f ]; then exit 3; fi\n";
    put_exec("fake/src/bin/travatar", head + "{ echo CALL decode; for a; do echo \"ARG $a\"; done; } >> $D/log\nlast=; cfg=; nb=; fo=; tr=\nfor a; do case $last in -config_file) cfg=$a;; -nbest_out) nb=$a;; -forest_out) fo=$a;; -trace_out) tr=$a;; esac; last=$a; done\n"
        "{ show $cfg; echo SRC; cat; echo END; } >> $D/log\ni=${cfg##*run}; i=${i%.ini}\nif [ $n = $f ]; then [ -z \"$nb\" ] || echo broken > $nb; exit 3; fi\n[ -z \"$nb\" ] || cat $D/ans/nbest.$i > $nb\n[ -z \"$fo\" ] || cat $D/ans/nbest.$i > $fo\n[ -z \"$tr\" ] || echo trace > $tr\necho out $i\necho err $i 1>&2\n");
    put_exec("fake/src/bin/batch-tune", head + "last=; nb=; so=; si=; wi=; fo=\nfor a; do case $last in -nbest) nb=$a;; -stat_out) so=$a;; -stat_in) si=$a;; -weight_in) wi=$a;; -forest) fo=$a;; esac; last=$a; done\n"
        "if [ -n \"$so\" ]; then { echo CALL stats; for a; do echo \"ARG $a\"; done; } >> $D/log; if [ $n = $f ]; then echo broken > $so; exit 3; fi; { echo stats; cat $nb; } > $so; exit 0; fi\n"
        "{ echo CALL tune; for a; do echo \"ARG $a\"; done; show $wi; IFS=,; for x in $nb $si $fo; do show $x; done; unset IFS; } >> $D/log\ni=${wi##*run}; i=${i%.weights}\nif [ $n = $f ]; then echo fa=99; exit 3; fi\ncat $D/ans/weights.$i\necho Best: $i 1>&2\n");
    put_exec("fake/stat", head + "last=; in=; ref=\nfor a; do case $last in -input) in=$a;; esac; last=$a; done\n{ echo CALL stats; for a; do echo \"ARG $a\"; done; } >> $D/log\n" + tail + "echo stats; cat $in\n");
    put_exec("fake/post", head + "echo CALL post >> $D/log\n" + tail + "sed 's/a b/A B/'\n");
    put_exec("fake/bin/extractor", head + "last=; sc=; fe=; nb=\nfor a; do case $last in --scfile) sc=$a;; --ffile) fe=$a;; -n) nb=$a;; esac; last=$a; done\n{ echo CALL extractor; for a; do echo \"ARG $a\"; done; show $nb; } >> $D/log\n" + tail + "{ echo scores; cat $nb; } > $sc; { echo feats; cat $nb; } > $fe\n");
    put_exec("fake/bin/mert", head + "last=; sc=; fe=; ini=\nfor a; do case $last in --scfile) sc=$a;; --ffile) fe=$a;; --ifile) ini=$a;; esac; last=$a; done\n{ echo CALL mert; for a; do echo \"ARG $a\"; done; show $ini; IFS=,; for x in $sc $fe; do show $x; done; unset IFS; } >> $D/log\n" + tail + "i=${ini##*run}; i=${i%.init.opt}\n{ echo 'Seeding'; echo \"Best point: `cat $D/ans/point.$i`  => 0.5\"; } 1>&2\n");
}
struct Call { string what; V args; map<string, string> files; V order; string src; string opt(const string & o) const { for (size_t i = 0; i + 1 < args.size(); i++) if (args[i] == o) return args[i + 1]; return ""; } bool has(const string & o) const { return find(args.begin(), args.end(), o) != args.end(); } };
static vector<Call> calls() {
    vector<Call> r; V l = lines(get("log")); for (size_t i = 0; i < l.size(); i++) { if (l[i].substr(0, 5) == "CALL ") { r.push_back(Call()); r.back().what = l[i].substr(5); } else if (l[i].substr(0, 4) == "ARG ") r.back().args.push_back(l[i].substr(4));
        else { string f = l[i], t; for (i++; i < l.size() && l[i] != "END"; i++) t += l[i] + "\n"; if (f == "SRC") r.back().src = t; else { f = f.substr(5); r.back().files[f] = t; r.back().order.push_back(f); } } } return r;
}
static Wts weights(const string & text) { Wts w; for (auto & l : lines(text)) for (auto & x : words(l)) { size_t e = x.find('='); w[x.substr(0, e)] = x.substr(e + 1); } return w; }
// a configuration without its weights, and the weights
static string config(const string & text, Wts & w) { string r; V l = lines(text); for (size_t i = 0; i < l.size(); i++) { r += l[i] + "\n"; if (l[i] == "[weight_vals]") { string t; for (i++; i < l.size() && l[i] != ""; i++) t += l[i] + "\n"; w = weights(t); r += "\n"; } } return r; }
static string show(const Wts & w) { string r; for (auto & x : w) r += x.first + "=" + x.second + " "; return r; }
// the answers
static const vector<V> LISTS = {{"0 ||| a b ||| -1 ||| fa=1 fb=2", "0 ||| b ||| -2 ||| fb=-1", "1 ||| c ||| 0 ||| fa=0.5"}, {"0 ||| a b ||| -1.5 ||| fb=2 fa=1", "0 ||| c ||| -1 ||| fc=3 fa=1", "1 ||| c ||| 1 ||| fa=0.75"}, {"1 ||| c ||| 0 ||| fa=0.5"}};
static string canon(const string & l) { V f = fields(l, " ||| "); V w = words(f[3]); sort(w.begin(), w.end()); return f[0] + " ||| " + f[1] + " ||| " + join(w); }
static const Wts START = {{"fa", "1"}, {"fb", "-0.5"}, {"fc", "0.25"}};
static const vector<Wts> WS = {START, {{"fa", "0.5"}, {"fb", "-0.5"}, {"fc", "0.25"}}, {{"fa", "1.5"}, {"fb", "-1"}, {"fc", "0.25"}}, {{"fa", "1.0004"}, {"fb", "-0.5004"}, {"fc", "0.25"}}, {{"fa", "1.0008"}, {"fb", "-0.5004"}, {"fc", "0.25"}}, {{"fa", "1"}, {"fb", "-0.5"}}, {{"fa", "1"}, {"fb", "-0.5"}, {"fc", "0.25"}, {"lm", "1e-05"}, {"fd", "2"}}, {{"fc", "0.25"}, {"fb", "0.5"}, {"fa", "0"}}};
static double diff(const Wts & a, const Wts & b) { set<string> k; for (auto & x : a) k.insert(x.first); for (auto & x : b) k.insert(x.first); double d = 0; for (auto & x : k) { double p = a.count(x) ? atof(a.at(x).c_str()) : 0, q = b.count(x) ? atof(b.at(x).c_str()) : 0; d += fabs(p - q); } return d; }
struct Setup { int iters, lists[4], ws[4]; bool forest, filter, post, stat, trace, moses; string fmt, eval, tune, dec; int threads, factors, nbest, fail; Setup() : iters(2), forest(false), filter(false), post(false), stat(false), trace(false), moses(false), eval("bleu"), threads(1), factors(1), nbest(200), fail(0) { for (int i = 0; i < 4; i++) lists[i] = ws[i] = 0; } };
static string ini(const Setup & s) { string w; w = "fb=-0.5\nfa=1\nfc=0.25\n"; return "[tm_file]\n" + dir() + "rt.txt\n\n[lm_file]\n" + dir() + "lm.arpa\n\n[weight_vals]\n" + w + "\n[trg_factors]\n" + to_string(s.factors) + "\n\n[binarize]\nright\n"; }
static V arguments(const Setup & s, bool resume) {
    V a = {"-travatar-dir", dir() + "fake", "-working-dir", dir() + "work", "-src", dir() + "src", "-ref", dir() + "ref", "-travatar-config", dir() + "model.ini", "-max-iters", to_string(s.iters), "-eval", s.eval, "-threads", to_string(s.threads), "-trg-factors", to_string(s.factors), "-nbest", to_string(s.nbest)};
    auto add = [&](const string & x, const string & y) { a.push_back(x); a.push_back(y); }; if (s.forest) add("-cand-type", "forest"); if (!s.filter) a.push_back("-no-filter-rt"); if (s.post) add("-post-processing", dir() + "fake/post"); if (s.stat) add("-stat-generator", dir() + "fake/stat"); if (s.trace) a.push_back("-trace"); if (s.moses) { add("-mert-solver", "moses"); add("-moses-dir", dir() + "fake"); } if (s.fmt.size()) add("-in-format", s.fmt); if (s.tune.size()) add("-tune-options", s.tune); if (s.dec.size()) add("-decoder-options", s.dec); if (resume) a.push_back("-resume"); return a;
}
static void clear() { string w = dir() + "work"; if (access(w.c_str(), F_OK) == 0) { pid_t p = fork(); if (!p) { execlp("rm", "rm", "-rf", w.c_str(), (char*)0); _exit(127); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} } }
static int wanted_iters(const Setup & s) { Wts cur = START; int i = 1; for (; i <= s.iters; i++) { const Wts & nx = WS[s.ws[i - 1]]; double d = diff(cur, nx); cur = nx; if (d < 0.001) break; } return min(i, s.iters); }
static const char * RULES[] = {"A ( \"a\" ) ||| \"x\" @ A ||| p=1", "A ( \"zz\" ) ||| \"y\" @ A ||| p=1", "S ( x0:A \"b\" ) ||| x0 \"z\" @ S ||| p=1"};
static void prepare(const Setup & s) {
    setup(); clear(); put("count", "0\n"); put("log", ""); put("fail", to_string(s.fail) + "\n"); put("src", s.fmt == "word" ? "a b\n" : "(S (A a) (B b))\n"); put("ref", "r s\n"); put("model.ini", ini(s)); string rt; for (auto r : RULES) rt += string(r) + "\n"; put("rt.txt", rt);
    for (int i = 1; i <= s.iters; i++) { string t; for (auto & l : LISTS[s.lists[i - 1]]) t += l + "\n"; put("ans/nbest." + to_string(i), t); t = ""; for (auto & w : WS[s.ws[i - 1]]) t += w.first + "=" + w.second + "\n"; put("ans/weights." + to_string(i), t); const Wts & w = WS[s.ws[i - 1]]; if (w.count("fa") && w.count("fb") && w.count("fc")) put("ans/point." + to_string(i), w.at("fb") + " " + w.at("fa") + " " + w.at("fc")); }
}
static string describe(const Setup & s) { ostringstream o; o << "lists"; for (int i = 0; i < s.iters; i++) o << " " << s.lists[i]; o << " weights"; for (int i = 0; i < s.iters; i++) o << " " << s.ws[i]; o << " call failing " << s.fail << ": " << join(arguments(s, false)); return o.str(); }
static void check_config(mc::Ctx & c, const Setup & s, const string & text, const Wts & want, bool filtered, const string & what) {
    Wts w, dummy; string g = config(text, w), e = config(ini(s), dummy); if (filtered) { size_t p = e.find(dir() + "rt.txt"); e = e.substr(0, p) + "*" + e.substr(e.find('\n', p)); size_t q = g.find("[tm_file]\n"); CHECK(q != string::npos, "config", what << " has no rule table: " << text); q += 10; string f = g.substr(q, g.find('\n', q) - q); g = g.substr(0, q) + "*" + g.substr(g.find('\n', q)); V keep; keep.push_back(RULES[0]); keep.push_back(RULES[2]); CHECK(lines(read(f)) == keep, "filtered", what << ": filtered rule table is " << read(f)); }
    CHECK(g == e, "config", what << ": the settings are\n" << g << "instead of\n" << e); CHECK(w == want, "weights", what << ": the weights are " << show(w) << "instead of " << show(want));
}
// judges a finished run from the calls that were made (first: iteration at which this run began)
static void judge(mc::Ctx & c, const Setup & s, int first) {
    int n = wanted_iters(s); vector<Call> cs = calls(); size_t k = 0; map<int, int> used; set<string> known; vector<V> uniq(5);
    for (int i = 1; i <= n; i++) for (auto l : LISTS[s.lists[i - 1]]) { if (s.post && !s.forest) { size_t p = l.find("a b"); if (p != string::npos) l.replace(p, 3, "A B"); } if (known.insert(canon(l)).second) uniq[i].push_back(l); }
    for (int i = first; i <= n; i++) {
        const Wts & cur = i == 1 ? START : WS[s.ws[i - 2]]; string at = " in iteration " + to_string(i); auto next = [&](const string & w) -> Call & { CHECK(k < cs.size(), "calls", "nothing is run instead of " << w << at); CHECK(cs[k].what == w, "calls", cs[k].what << " is run instead of " << w << at); return cs[k++]; };
        Call & d = next("decode"); CHECK(d.src == get("src"), "source", "the decoder reads " << d.src); check_config(c, s, d.files[d.opt("-config_file")], cur, s.filter, "the decoder" + at); CHECK(d.opt("-threads") == to_string(s.threads) && d.opt("-trg_factors") == to_string(s.factors), "options", "threads and factors" << at << ": " << join(d.args)); CHECK(d.opt("-in_format") == s.fmt, "options", "input format" << at << ": " << join(d.args));
        if (s.forest) CHECK(d.has("-forest_out") && d.opt("-forest_nbest_trim") == to_string(s.nbest), "options", join(d.args)); else CHECK(d.has("-nbest_out") && d.opt("-nbest") == to_string(s.nbest), "options", join(d.args)); if (s.dec.size()) { V w = words(s.dec); CHECK(d.opt(w[0]) == w[1], "options", "options for the decoder: " << join(d.args)); } CHECK(d.has("-trace_out") == s.trace, "options", "trace: " << join(d.args));
        if (s.post) next("post");
        if (s.moses) {
            Call & e = next("extractor"); V dense; for (auto l : LISTS[s.lists[i - 1]]) { if (s.post) { size_t p = l.find("a b"); if (p != string::npos) l.replace(p, 3, "A B"); } V f = fields(l, " ||| "); Wts w = weights(f[3]); dense.push_back(f[0] + " ||| " + f[1] + " ||| " + (w.count("fb") ? w["fb"] : "0") + " " + (w.count("fa") ? w["fa"] : "0") + " " + (w.count("fc") ? w["fc"] : "0")); } CHECK(lines(e.files[e.opt("-n")]) == dense, "dense", "the list for the extractor is\n" << e.files[e.opt("-n")]); CHECK(e.opt("-r") == dir() + "ref", "options", join(e.args));
            Call & m = next("mert"); CHECK(m.opt("-d") == "3", "options", "number of weights: " << join(m.args)); V sc = fields(m.opt("--scfile"), ","), fe = fields(m.opt("--ffile"), ","); CHECK(sc.size() == (size_t)i && fe.size() == (size_t)i, "files", sc.size() << " score files and " << fe.size() << " feature files" << at); for (int j = 0; j < i; j++) { V a = lines(m.files[sc[j]]), b = lines(m.files[fe[j]]); CHECK(a.size() && b.size() && a[0] == "scores" && b[0] == "feats", "files", "scores and features" << at); a[0] = b[0]; CHECK(a == b, "files", "scores and features of different lists" << at); }
            V st = lines(m.files[m.opt("--ifile")]); CHECK(st.size() >= 1, "start", "no starting points"); V v = words(st[0]); CHECK(v.size() == 3, "start", st[0]); double sum = 0; for (auto & x : cur) sum += fabs(atof(x.second.c_str())); const char * order[] = {"fb", "fa", "fc"}; if (i == 1 || 1) for (int j = 0; j < 3; j++) CHECK(fabs(atof(v[j].c_str()) - atof(cur.at(order[j]).c_str()) / sum) < 1e-6, "start", "the starting point is " << st[0] << " for " << show(cur));
            continue;
        }
        if (!s.forest) { Call & t = next("stats"); string f = s.stat ? t.opt("-input") : t.opt("-nbest"); V got = lines(read(f)); CHECK(got == uniq[i], "unique", "the list to be scored is\n" << read(f) << at); if (s.stat) CHECK(t.opt("-ref") == dir() + "ref", "options", join(t.args)); else CHECK(t.opt("-eval") == s.eval && t.args.back() == dir() + "ref", "options", join(t.args)); CHECK(t.opt("-trg_factors") == to_string(s.factors), "options", join(t.args)); }
        Call & t = next("tune"); CHECK(t.opt("-eval") == s.eval && t.args.back() == dir() + "ref" && t.opt("-threads") == to_string(s.threads), "options", join(t.args)); if (s.tune.size()) { V w = words(s.tune); for (size_t j = 0; j < w.size(); j += 2) CHECK(t.opt(w[j]) == w[j + 1], "options", "options for tuning: " << join(t.args)); }
        CHECK(weights(t.files[t.opt("-weight_in")]) == cur, "start", "tuning starts from " << t.files[t.opt("-weight_in")] << " instead of " << show(cur) << at);
        V fs = fields(t.opt(s.forest ? "-forest" : "-nbest"), ","), ss; if (!s.forest) ss = fields(t.opt("-stat_in"), ","); CHECK(fs.size() == (size_t)i && (s.forest || ss.size() == fs.size()), "files", fs.size() << " lists and " << ss.size() << " statistics" << at); vector<V> want, got; for (int j = 1; j <= i; j++) want.push_back(s.forest ? LISTS[s.lists[j - 1]] : uniq[j]); for (auto & f : fs) got.push_back(lines(t.files[f])); for (size_t j = 0; j < ss.size(); j++) { V x = lines(t.files[ss[j]]); CHECK(x.size() && x[0] == "stats", "files", "statistics of list " << j + 1 << at << ": " << t.files[ss[j]]); x.erase(x.begin()); CHECK(x == got[j], "pairs", "list " << j + 1 << " goes with the statistics of another" << at); } sort(want.begin(), want.end()); sort(got.begin(), got.end()); CHECK(got == want, "lists", "tuning is given other lists than those of the iterations so far" << at);
    }
    CHECK(k == cs.size(), "calls", "one more " << cs[k].what << " after iteration " << n); const Wts & last = WS[s.ws[n - 1]];
    check_config(c, s, get("work/travatar.ini"), last, false, "the result"); CHECK(get("work/last.out") == "out " + to_string(n) + "\n", "output", "last.out is " << get("work/last.out")); ostringstream o; for (int i = 0; i < n; i++) o << s.lists[i] << s.ws[i]; c.state(o.str());
}
static void drive(mc::Ctx & c, Setup & s) {
    c.describe([&]() { return describe(s); }); prepare(s); V a = arguments(s, false); Out o = run("mert/mert-travatar.pl", a); c.step(get("count") == "" ? 1 : atoi(get("count").c_str()));
    if (!s.fail) { CHECK(o.code == 0, "failed", "exit code " << o.code << ": " << tail(o.err, 600)); judge(c, s, 1); return; }
    int made = atoi(get("count").c_str()); c.require(made >= s.fail); CHECK(o.code != 0, "ignored", "a failing program is ignored"); CHECK(!exists("work/travatar.ini"), "ignored", "a result is written though a program failed"); CHECK(made == s.fail, "ignored", made - s.fail << " more programs are run after a failing one");
    // resuming does the rest
    vector<Call> cs = calls(); int first = 0; for (auto & x : cs) if (x.what == "decode") first++; put("count", "0\n"); put("fail", "0\n"); put("log", ""); Out r = run("mert/mert-travatar.pl", arguments(s, true)); c.step(); CHECK(r.code == 0, "resume", "exit code " << r.code << " when resuming: " << tail(r.err, 600)); judge(c, s, first);
}
MC_SPACE(loop, 3) { Setup s; s.iters = c.range(1, 3); for (int i = 0; i < s.iters; i++) { s.lists[i] = c.choose(s.iters == 3 && !c.thorough ? 2 : 3); s.ws[i] = c.choose(s.iters == 3 && !c.thorough ? 4 : 8); } drive(c, s); }
MC_SPACE(settings, 3) {
    Setup s; int k = c.choose(8); s.lists[1] = 1; s.ws[0] = 1 + c.choose(2); s.ws[1] = c.choose(3); s.iters = c.range(1, 2); s.threads = 1 + c.choose(2); s.factors = 1 + c.choose(2); s.nbest = c.choose(2) ? 200 : 7; if (k == 1) s.forest = true; if (k == 2) s.post = true; if (k == 3) s.stat = true; if (k == 4) s.trace = true; if (k == 5) { s.fmt = "word"; s.filter = true; } if (k == 6) { s.eval = "ainterp:A|bleu:smooth=1|B|ribes|2*A*B/(A+B)"; s.tune = "-algorithm lbfgs -l2 0.1"; } if (k == 7) { s.dec = "-tm_storage hash"; s.filter = true; s.fmt = c.choose(2) ? "penn" : ""; } drive(c, s);
}
MC_SPACE(faults, 3) { Setup s; int k = c.choose(5); s.iters = c.range(1, c.thorough ? 3 : 2); s.ws[0] = 1; s.ws[1] = c.choose(3); s.ws[2] = 2; s.lists[0] = c.choose(3); s.lists[1] = c.choose(3); s.lists[2] = 2; s.forest = k == 1; s.stat = k == 2; s.post = k == 3; s.filter = k == 4; s.fail = c.range(1, s.iters * (k == 1 ? 2 : k == 3 ? 4 : 3)); drive(c, s); }
MC_SPACE(moses, 3) { Setup s; s.moses = true; s.iters = c.range(1, c.thorough ? 3 : 2); static const int W[] = {0, 1, 2, 7}; for (int i = 0; i < s.iters; i++) { s.lists[i] = c.choose(3); s.ws[i] = W[c.choose(4)]; } s.post = c.flag(); int f = c.choose(3); if (f == 1) s.fail = 0; else if (f == 2) { c.require(!s.post); s.fail = c.range(1, 3 * s.iters); } drive(c, s); }
int main(int argc, char ** argv) { return mc::main(argc, argv); }
