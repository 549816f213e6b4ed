// C04: the decoder with several threads, under all schedules up to a bound, against one thread
#include "vsched.h"
#define RUN_CATCH_EXIT
#include "run.h"
#include "arpa.h"
#include <travatar/dict.h>
#include <travatar/hyper-graph.h>
#include <travatar/tree-io.h>
#include <travatar/global-debug.h>
#include <travatar/travatar-runner.h>
#include <travatar/config-travatar-runner.h>
using namespace std; using namespace travatar;
typedef vector<string> V;
static string join(const V & v, const char * s = " ") { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? s : "") + v[i]; return r; }
static string subst(const string & s, const string & a, const string & b) { string r; for (size_t i = 0; i < s.size();) if (s.compare(i, a.size(), a) == 0) { r += b; i += a.size(); } else r += s[i++]; return r; }
// every run uses symbols that no earlier run in this process has seen: ~ in labels and words becomes a fresh tag
static string fresh() { static int n = 0; char b[32]; sprintf(b, "q%06dq", ++n); return b; }
static const V TREES = {"(A~ (B~ b~) (C~ c~))", "()", "(A~ (B~ b~) (C~ (B~ b~)))", "(A~ (B~ c~) (E~ b~) (C~ c~))", "(B~ b~)", "(D~ (D~ (C~ (B~ b~)) (C~ c~) (B~ d~)) (B~ b~))"};
static const char * const T2S = "A~ ( x0:B~ x1:C~ ) ||| x1 \"m\" x0 @ S ||| p=1\nA~ ( B~ ( \"b~\" ) x0:C~ ) ||| \"X\" x0 @ S ||| p=1.25 q=1\nB~ ( \"b~\" ) ||| \"Y\" @ B ||| q=0.5\nB~ ( \"b~\" ) ||| \"Z\" \"Y\" @ B ||| p=-0.5\nC~ ( x0:B~ ) ||| x0 @ C ||| r=-0.75\nC~ ( \"c~\" ) ||| \"Y\" @ C ||| r=2.5\nA~ ( x0:B~ x1:A~' ) ||| x1 x0 @ S ||| p=2\nA~' ( x0:E~ x1:C~ ) ||| x0 \"X\" x1 @ S ||| q=1.125\n";
static const char * const T2F = "A~ ( x0:B~ x1:C~ ) ||| x1 \"m\" x0 @ S |COL| x0 x1 @ S ||| p=1\nB~ ( \"b~\" ) ||| \"Y\" @ B |COL| \"1\" \"2\" @ B ||| q=0.5\nB~ ( \"b~\" ) ||| \"Z\" @ B |COL| \"2\" @ B ||| p=-0.5\nC~ ( x0:B~ ) ||| x0 @ C |COL| \"3\" x0 @ C ||| r=-0.75\n";
static const V WORDS = {"b~ c~", "", "b~ e~", "b~ c~ b~", "c~"};
static const char * const HIERO = "\"b~\" @ X ||| \"Y\" @ X ||| p=1\n\"b~\" @ X ||| \"Z\" @ X ||| q=1.5\nx0:X \"c~\" @ X ||| \"m\" x0:X @ X ||| p=0.5\nx0:X x1:X @ X ||| x1:X x0:X @ X ||| r=0.25\nx0:X x1:X @ X ||| x0:X x1:X @ X ||| q=0.125\n\"c~\" @ X ||| \"X\" \"Y\" @ X ||| r=-1\n";
static string lm(int k) { static string p[2]; if (p[k].empty()) p[k] = run::put("lm" + to_string(k), k == 0 ? arpa::make(3, V{"X", "Y", "Z", "m", "b"}, true, 5, true, arpa::Density{5, 45}).text() : arpa::make(2, V{"Y", "m", "c", "Z"}, true, 9, true, arpa::Density{9, 60}).text()); return p[k]; }
struct Cfg { V args; string tm; V in; bool nb, tr, fo; Cfg() : nb(false), tr(false), fo(false) {} string key() const { return join(args) + (nb ? " nbest" : "") + (tr ? " trace" : "") + (fo ? " forest" : "") + "\n" + join(in, "\n"); } };
static string result(const Cfg & f, int threads, const string & tag, const function<void(function<void()>)> & around) {
    V a = f.args; a.insert(a.end(), {"-debug", "0", "-weight_vals", "p=1 q=0.5 r=-0.25 unk=-1.0625 lm=0.5 lmunk=-2 second=0.75", "-threads", to_string(threads), "-tm_file", run::put("tm", subst(f.tm, "~", tag))}); for (const char * n : {"nb", "tr", "fo"}) remove((run::dir() + n).c_str());
    if (f.nb) a.insert(a.end(), {"-nbest", "20", "-nbest_out", run::dir() + "nb"}); if (f.tr) a.insert(a.end(), {"-trace_out", run::dir() + "tr"}); if (f.fo) a.insert(a.end(), {"-forest_out", run::dir() + "fo"});
    string out; { run::Capture cap(subst(join(f.in, "\n") + "\n", "~", tag)); around([&] { ConfigTravatarRunner conf; run::config(conf, a); TravatarRunner t; t.Run(conf); }); out = cap.out.str(); }
    for (const char * n : {"nb", "tr", "fo"}) out += string("--") + n + "\n" + run::get(n); return subst(out, tag, "~");
}
static const string & alone(const Cfg & f) { static map<string, string> made; if (made.size() > 2000) made.clear(); auto it = made.find(f.key()); if (it == made.end()) it = made.insert(make_pair(f.key(), result(f, 1, fresh(), [](function<void()> go) { go(); }))).first; return it->second; }
static void check(mc::Ctx & c, const Cfg & f, int threads, int pre, bool scope, bool spread = false, int maxsteps = 60000) {
    string d = to_string(threads) + " threads: " + f.key() + "\n" + f.tm; if (spread) c.note(d); else c.describe(d); const string & want = alone(f); char here; char * lo = &here - 400000; vs::Options o(pre); o.maxsteps = maxsteps; string err;
    string got = result(f, threads, fresh(), [&](function<void()> go) { vs::run(c, o, [&] { if (scope) { vs::scope(); vs::scope(lo, 400000); } try { go(); } catch (std::exception & e) { err = e.what(); } }); });
    CHECK(err.empty(), "failed", "decoding fails: " << err); CHECK(got == want, "differs", "with " << threads << " threads:\n" << got << "\nwith one thread:\n" << want << "\nschedule: " << vs::vsched_trace());
}
static void inputs(mc::Ctx & c, Cfg & f, const V & pool, int n) { for (int i = 0; i < n; i++) f.in.push_back(pool[c.choose(pool.size())]); }
// rule tables, binarizers and outputs
MC_SPACE(t2s, 3) {
    Cfg f; int tm = c.choose(2), bin = c.choose(5), out = c.choose(c.thorough ? 8 : 3); bool all = c.choose(2); f.tm = T2S; f.nb = out != 0; f.tr = out == 2 || out >= 4; f.fo = out == 2 || out == 5; f.args = {"-tm_storage", tm ? "marisa" : "hash", "-binarize", V{"none", "right", "left", "rightrp", "cky"}[bin], "-all_unk", all ? "true" : "false"};
    if (out == 6) f.args.insert(f.args.end(), {"-nbest_tree", "true", "-nbest_uniq", "true"}); if (out == 7) { f.fo = true; f.args.insert(f.args.end(), {"-forest_nbest_trim", "2", "-buffer", "false"}); } c.require(c.thorough || all == (out == 2));
    static const int P[][2] = {{0, 0}, {0, 2}, {3, 5}, {2, 3}, {1, 4}, {3, 3}, {5, 5}, {0, 3}}; int p = c.choose(c.thorough ? 8 : 3); f.in = {TREES[P[p][0]], TREES[P[p][1]]}; check(c, f, 2, c.thorough ? 2 : p == 1 && out == 2, true);
}
// language models in the search
MC_SPACE(models, 3) {
    Cfg f; int s = c.choose(5); bool wide = !c.choose(2), hash = !c.choose(2); f.tm = T2S; f.nb = true; f.args = {"-binarize", "none", "-search", s == 1 || s == 4 ? "inc" : "cp", "-pop_limit", wide ? "1000" : "3", "-lm_file", s < 2 ? lm(0) : lm(0) + " " + lm(1) + "|lm_feat=second,lm_unk_feat=oov", "-lm_multi_type", s == 3 || s == 4 ? "consec" : "joint", "-tm_storage", hash ? "hash" : "marisa"};
    static const int P[][2] = {{0, 0}, {2, 3}, {0, 2}, {1, 0}}; int p = c.choose(c.thorough ? 4 : 2); f.in = {TREES[P[p][0]], TREES[P[p][1]]}; check(c, f, 2, c.thorough ? 2 : p == 1 && wide && hash, true);
}
// grammars over word input
MC_SPACE(grammar, 3) {
    Cfg f; bool l = c.flag(); int del = c.choose(2); f.tm = HIERO; f.nb = f.tr = true; f.args = {"-binarize", "none", "-tm_storage", "fsm", "-in_format", "word", "-root_symbol", "X", "-unk_symbol", "X", "-hiero_span_limit", "10", "-delete_unknown", del ? "true" : "false"}; if (l) f.args.insert(f.args.end(), {"-lm_file", lm(0), "-pop_limit", "50"});
    static const int P[][2] = {{0, 0}, {2, 3}, {1, 2}, {3, 4}}; int p = c.choose(c.thorough ? 4 : 2); f.in = {WORDS[P[p][0]], WORDS[P[p][1]]}; check(c, f, 2, c.thorough ? 2 : p == 1 && l, true, !c.thorough);
}
MC_SPACE(factors, 3) {
    Cfg f; bool hash = !c.choose(2); f.tm = T2F; f.nb = true; f.args = {"-binarize", "none", "-tm_storage", hash ? "hash" : "marisa", "-trg_factors", "2"}; if (c.flag()) f.args.insert(f.args.end(), {"-search", "cp", "-lm_file", lm(0) + " " + lm(1) + "|factor=1,lm_feat=second", "-pop_limit", "50"});
    inputs(c, f, V{TREES[0], TREES[2]}, 2); check(c, f, 2, c.thorough ? 2 : hash && f.in[0] != f.in[1], true, !c.thorough); }
// order and shutdown: many short sentences, a queue that fills up, more threads than sentences
MC_SPACE(order, 3) {
    Cfg f; int k = c.choose(c.thorough ? 7 : 5); f.tm = T2S; f.nb = true; f.args = {"-binarize", "none"}; static const int N[] = {3, 3, 1, 0, 4, 4, 13}, TH[] = {2, 3, 2, 2, 2, 3, 2}, PR[] = {0, 0, 1, 2, 0, 0, 0}; int n = N[k]; f.tr = k == 1 || k == 5; for (int i = 0; i < n; i++) f.in.push_back(i % 3 == 1 ? TREES[0] : i % 3 == 2 ? "()" : TREES[4]); if (c.flag()) f.args.insert(f.args.end(), {"-buffer", "false"}); check(c, f, TH[k], PR[k] + (c.thorough ? 1 : 0), true, true);
}
// preemption at every lock of every mutex, also those of the symbol table
MC_SPACE(locks, 3) {
    Cfg f; int k = c.choose(c.thorough ? 4 : 1); f.tm = T2S; f.nb = true; f.args = {"-binarize", k % 2 ? "right" : "none", "-tm_storage", k == 3 ? "marisa" : "hash"}; if (k == 2) f.args.insert(f.args.end(), {"-lm_file", lm(0), "-pop_limit", "50"}); f.in = {TREES[k == 1 ? 3 : 4], TREES[k == 1 ? 3 : 4]}; check(c, f, 2, 1, false, true);
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; GlobalVars::trg_factors = 1; vs::vsched_opaque("_ZN8travatar4Dict"); }); }
