// Bounded exhaustive exploration of the real code (stateless search).
//
// A "space" is a function of a Ctx.  Every ctx.choose(n) is a nondeterministic
// branch; the explorer re-executes the function once for every combination of
// choices (depth first, nothing sampled, nothing skipped), spread over worker
// processes that claim disjoint prefixes of the choice tree.  A crash, an
// abort, a hang or a failed comparison in any execution is a violation and is
// written down together with the exact choice sequence, which replays it.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <numeric>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct NotMine {};
struct Reject {};     // this combination of choices is outside the space
struct Violation { std::string key, msg; };

static const int MAXCHOICE = 4096, DESC = 6144, MAXW = 16;
static const uint64_t HSIZE = 1u << 22, UNITS = 1u << 20;

struct Slot {
    volatile int space, nch, ticks, owned; volatile bool running; volatile uint64_t unit;
    uint64_t execs, choices, steps, rejected, checks, nodes;
    int ch[MAXCHOICE], ar[MAXCHOICE];
    char desc[DESC];
};
struct Shared {
    std::atomic<uint64_t> states;
    std::atomic<uint64_t> vcount; std::atomic<int> timeout;
    Slot slot[MAXW];
    std::atomic<uint8_t> claimed[64][UNITS / 64];
    std::atomic<uint64_t> table[HSIZE];
};
inline Shared *& sh() { static Shared * s = 0; return s; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
inline uint64_t hash(const std::string & s) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; } return mix(h); }

class Ctx {
public:
    bool thorough, replay; double deadline;
    int worker, space, nworkers;
    std::vector<int> path, arity; size_t pos; uint64_t product; bool sharded; uint64_t unit; size_t owned, inc; bool dev;   // owned: length of the prefix this worker holds
    std::string logtext, desc_;
    Ctx() : thorough(false), replay(false), deadline(1e300), worker(0), space(0), nworkers(1), pos(0), product(1), sharded(false), unit(0), owned(0), inc(0), dev(false) {}

    int choose(int n) {
        if (n <= 0) throw Reject();
        if (pos == path.size()) { path.push_back(0); arity.push_back(n); }
        else if (arity.size() == pos) arity.push_back(n);      // replaying
        else if (arity[pos] != n) { fprintf(stdout, "HARNESS ERROR: nondeterministic choice structure\n"); fflush(stdout); _exit(3); }
        Slot & s = sh()->slot[worker];
        if (pos < (size_t)MAXCHOICE) { s.ch[pos] = path[pos]; s.ar[pos] = n; s.nch = pos + 1; }
        int r = path[pos++];
        if (!replay && !sharded) {
            product *= n;
            if (dev ? r != 0 : product >= 1024) { sharded = true; if (!claim()) throw NotMine(); own(); }
        }
        return r;
    }
    bool flag() { return choose(2) == 1; }
    template<class T> const T & pick(const std::vector<T> & v) { return v[choose((int)v.size())]; }
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
    void require(bool ok) { if (!ok) throw Reject(); }
    void step(uint64_t n = 1) { sh()->slot[worker].steps += n; }
    void checked(uint64_t n = 1) { sh()->slot[worker].checks += n; }
    void state(uint64_t h) {
        h = mix(h + 0x9e3779b97f4a7c15ULL * (space + 1)); if (!h) h = 1;
        Shared * s = sh(); if (s->states > HSIZE * 3 / 4) return;
        for (uint64_t i = h % HSIZE; ; i = (i + 1) % HSIZE) {
            uint64_t cur = s->table[i];
            if (cur == h) return;
            if (cur == 0 && s->table[i].compare_exchange_strong(cur, h)) { s->states++; return; }
            if (cur == h) return;
        }
    }
    void state(const std::string & str) { state(hash(str)); }
    template<class F> auto describe(const F & f) -> decltype(std::string(f()), void()) { describe(std::string(f())); }
    void describe(const std::string & d) {   // what input is being run (for reports)
        desc_ = d;
        if (!replay && !sharded) { sharded = true; if (!claim()) throw NotMine(); own(); }
        Slot & s = sh()->slot[worker]; size_t n = std::min(d.size(), (size_t)DESC - 1);
        memcpy(s.desc, d.data(), n); s.desc[n] = 0;
    }
    void note(const std::string & d) {       // the same, but what follows (schedules) are shared out among the workers by the first deviation
        dev = true; desc_ = d; Slot & s = sh()->slot[worker]; size_t n = std::min(d.size(), (size_t)DESC - 1); memcpy(s.desc, d.data(), n); s.desc[n] = 0;
    }
    void log(const std::string & t) { if (replay) { std::cout << t << std::endl; } }
    void fail(const std::string & key, const std::string & msg) { throw Violation{key, msg}; }
    void soft(const std::string & key, const std::string & msg);   // report and go on (for listed findings)
    void check(bool ok, const std::string & key, const std::string & msg) { checked(); if (!ok) fail(key, msg); }
private:
    void own() { owned = pos; sh()->slot[worker].owned = (int)owned; }
    bool claim() {
        // identify the prefix by its hash; equal prefixes get one owner
        uint64_t h = 7; for (size_t i = 0; i < pos; i++) h = mix(h * 31 + path[i] + 1);
        Shared * s = sh();
        // units are numbered in DFS order by each worker identically
        uint64_t u = unit; (void)h;
        if (u >= UNITS / 64) u = UNITS / 64 - 1 - (h % 64);
        return claim_unit(u, h);
    }
    bool claim_unit(uint64_t u, uint64_t h) {
        Shared * s = sh(); (void)h;
        if (unit >= UNITS / 64) { sh()->slot[worker].unit = ++unit; return (int)(h % nworkers) == worker; }
        sh()->slot[worker].unit = ++unit;
        uint8_t z = 0; return s->claimed[space][u].compare_exchange_strong(z, 1);
    }
public:
    bool claim_leaf() { if (replay) return true; sharded = true; return claim(); }
};

struct Space { const char * name; void (*fn)(Ctx &); int tiers; }; // tiers: 1 quick, 2 thorough, 3 both
inline std::vector<Space> & spaces() { static std::vector<Space> v; return v; }
struct Reg { Reg(const char * n, void (*f)(Ctx &), int t) { Space s = {n, f, t}; spaces().push_back(s); } };
#define MC_SPACE(NAME, TIERS) static void space_##NAME(mc::Ctx &); static mc::Reg reg_##NAME(#NAME, space_##NAME, TIERS); static void space_##NAME(mc::Ctx & c)

inline std::string jstr(const std::string & s) {
    std::string o = "\""; char b[8];
    for (size_t i = 0; i < s.size(); i++) { unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}
struct Opt { std::string out, replay; bool thorough; int workers; double budget, hang; int maxviol; size_t mem; std::string only; std::set<std::string> known; };
inline Opt & opt() { static Opt o; return o; }

inline void record(const std::string & space, const std::string & key, const std::string & msg, const std::vector<int> & path, const std::string & desc, bool softly = false);
inline void Ctx::soft(const std::string & key, const std::string & msg) {
    if (!sharded && !replay) return;
    record(spaces()[space].name, key, msg, std::vector<int>(path.begin(), path.begin() + pos), desc_, true);
    if (replay) std::cout << "VIOLATED " << key << ": " << msg << std::endl;
}
inline void record(const std::string & space, const std::string & key, const std::string & msg, const std::vector<int> & path, const std::string & desc, bool softly) {
    bool known = opt().known.count(space + "/" + key);
    if (known || softly) { static std::map<std::string, int> seen; if (++seen[space + "/" + key] > 2) return; }
    std::ostringstream o;
    o << "{\"space\":" << jstr(space) << ",\"key\":" << jstr(key) << ",\"msg\":" << jstr(msg.substr(0, 3000)) << ",\"input\":" << jstr(desc.substr(0, 3000)) << ",\"choices\":[";
    for (size_t i = 0; i < path.size(); i++) o << (i ? "," : "") << path[i];
    o << "]}\n";
    std::string s = o.str();
    int fd = open((opt().out + ".viol").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
    if (!known) sh()->vcount++;
}
inline int & tick_worker() { static int w = 0; return w; }
inline void on_tick(int) {
    Slot & s = sh()->slot[tick_worker()];
    if (s.running && ++s.ticks > opt().hang) _exit(77);   // timer ticks, not clock time: a suspended sandbox does not count
}
inline void sample(const std::string & space, const std::string & desc) {
    int fd = open((opt().out + ".samples").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string s = jstr(std::string(space) + ": " + desc.substr(0, 400)) + "\n";
    if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
}

// run one execution; returns false when it was not ours
inline bool run_one(Ctx & c, const Space & sp) {
    Slot & s = sh()->slot[c.worker];
    c.pos = 0; c.product = 1; c.dev = false; if (c.inc < c.owned) c.owned = 0; c.sharded = c.owned > 0; s.nch = 0; s.desc[0] = 0; s.space = c.space; c.desc_.clear();
    s.owned = (int)c.owned; s.unit = c.unit; s.ticks = 0; s.running = true;
    bool mine = true;
    try {
        sp.fn(c);
        if (!c.sharded && !c.claim_leaf()) mine = false;
        if (mine) { s.execs++; s.choices += c.pos; if (!c.desc_.empty()) c.state(c.desc_); }
    } catch (NotMine &) { mine = false; }
    catch (Reject &) { if (!c.sharded && !c.claim_leaf()) mine = false; if (mine) s.rejected++; }
    catch (Violation & v) {
        if (!c.sharded && !c.claim_leaf()) mine = false;
        if (mine) { s.execs++; record(sp.name, v.key, v.msg, std::vector<int>(c.path.begin(), c.path.begin() + c.pos), c.desc_); if (c.replay) std::cout << "VIOLATED " << v.key << ": " << v.msg << std::endl; }
    } catch (std::exception & e) {
        if (!c.sharded && !c.claim_leaf()) mine = false;
        if (mine) { s.execs++; record(sp.name, std::string("exception"), std::string("unexpected exception: ") + e.what(), std::vector<int>(c.path.begin(), c.path.begin() + c.pos), c.desc_); if (c.replay) std::cout << "VIOLATED exception: " << e.what() << std::endl; }
    }
    if (mine) s.nodes += c.pos > c.inc ? c.pos - c.inc : 0;
    s.running = false;
    return mine;
}
inline void worker(int w, double deadline, bool resume = false) {
    tick_worker() = w;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, 0);
    itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_REAL, &it, 0);
    if (opt().mem) { rlimit rl; rl.rlim_cur = rl.rlim_max = opt().mem; setrlimit(RLIMIT_AS, &rl); }
    rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
    Slot & me = sh()->slot[w]; if (me.nch >= MAXCHOICE || me.nch <= 0) resume = false;   // resume: continue after the execution that ended the previous process
    for (size_t i = resume ? me.space : 0; i < spaces().size(); i++) {
        const Space & sp = spaces()[i];
        if (!(sp.tiers & (opt().thorough ? 2 : 1))) continue;
        if (!opt().only.empty() && opt().only != sp.name) continue;
        Ctx c; c.thorough = opt().thorough; c.worker = w; c.space = i; c.nworkers = opt().workers; c.deadline = deadline;
        bool first = true; uint64_t mineN = 0;
        if (resume) { c.path.assign(me.ch, me.ch + me.nch); c.arity.assign(me.ar, me.ar + me.nch); c.pos = c.path.size(); c.owned = me.owned; c.unit = me.unit; }
        while (true) {
            bool mine = resume ? false : run_one(c, sp); resume = false;
            if (mine && !c.desc_.empty()) { ++mineN; if (first || (w == 0 && mineN == 200)) { sample(sp.name, c.desc_); first = false; } }
            // next path
            c.path.resize(c.pos); c.arity.resize(c.pos);
            while (!c.path.empty() && c.path.back() + 1 == c.arity.back()) { c.path.pop_back(); c.arity.pop_back(); }
            if (c.path.empty()) break;
            c.path.back()++; c.inc = c.path.size() - 1;
            if ((int)sh()->vcount >= opt().maxviol) return;
            if (now() > deadline) { sh()->timeout = 1; return; }
        }
    }
}

inline void s_reset(int w) { sh()->slot[w].running = false; }
inline int main(int argc, char ** argv, void (*init)() = 0) {
    Opt & o = opt(); o.out = "/tmp/mc-out.json"; o.thorough = false; o.workers = 8; o.budget = 600; o.hang = 60; o.maxviol = 40; o.mem = 0;
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        if (a == "--thorough") o.thorough = true; else if (a == "--workers") o.workers = atoi(argv[++i]);
        else if (a == "--out") o.out = argv[++i]; else if (a == "--budget") o.budget = atof(argv[++i]);
        else if (a == "--replay") o.replay = argv[++i]; else if (a == "--maxviol") o.maxviol = atoi(argv[++i]);
        else if (a == "--hang") o.hang = atof(argv[++i]); else if (a == "--mem") o.mem = (size_t)atoll(argv[++i]) << 20; else if (a == "--known") { std::istringstream is(argv[++i]); std::string t; while (getline(is, t, ';')) o.known.insert(t); }
        else if (a == "--only") o.only = argv[++i]; }
    if (o.workers > MAXW) o.workers = MAXW;
    void * m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh() = (Shared *)m;
    if (!o.replay.empty()) {    // --replay space:1,0,2  [--thorough]
        size_t cp = o.replay.find(':'); std::string sn = o.replay.substr(0, cp);
        if (init) init();
        for (size_t i = 0; i < spaces().size(); i++) if (sn == spaces()[i].name) {
            Ctx c; c.replay = true; c.thorough = o.thorough; c.space = i;
            std::istringstream is(o.replay.substr(cp + 1)); std::string tok;
            while (getline(is, tok, ',')) if (!tok.empty()) c.path.push_back(atoi(tok.c_str()));
            o.out = "/tmp/mc-replay"; unlink("/tmp/mc-replay.viol");
            run_one(c, spaces()[i]);
            unlink("/tmp/mc-replay.viol");
            std::cout << "input: " << c.desc_ << std::endl;
            return sh()->vcount ? 1 : 0;
        }
        std::cout << "no such space" << std::endl; return 2;
    }
    unlink((o.out + ".viol").c_str()); unlink((o.out + ".samples").c_str());
    double t0 = now(), deadline = t0 + o.budget;
    std::map<pid_t, int> pids; int restarts = 0; bool herr = false;
    fflush(stdout);
    auto spawn = [&](int w, bool resume) {
        pid_t p = fork();
        if (p == 0) {
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn);
            if (init) init();
            worker(w, deadline, resume); _exit(0);
        }
        pids[p] = w;
    };
    for (int w = 0; w < o.workers; w++) spawn(w, false);
    while (!pids.empty()) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
        int w = pids[p]; pids.erase(p);
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { herr = true; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 88) {    // already written down (vsched.h)
            s_reset(w); if (++restarts < 40 && (int)sh()->vcount < o.maxviol) spawn(w, true); continue; }
        if (bad) {
            Slot & s = sh()->slot[w]; std::ostringstream why;
            std::string key;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { key = "hang"; why << "no answer within " << o.hang << "s (deadlock or endless loop)"; }
            else if (WIFSIGNALED(st)) { key = "crash"; why << "process killed by signal " << WTERMSIG(st) << " (crash, failed assertion or memory error)"; }
            else { key = "exit"; why << "process exited with code " << WEXITSTATUS(st); }
            std::vector<int> path(s.ch, s.ch + (int)s.nch);
            record(s.space < (int)spaces().size() ? spaces()[s.space].name : "?", key, why.str(), path, s.desc);
            s.running = false;
            if (++restarts < 40 && (int)sh()->vcount < o.maxviol) spawn(w, true);
        }
    }
    Shared * s = sh();
    std::ostringstream js;
    uint64_t t[6] = {0, 0, 0, 0, 0, 1};
    for (int w = 0; w < MAXW; w++) { Slot & x = s->slot[w]; t[0] += x.execs; t[1] += x.choices; t[2] += x.steps; t[3] += x.checks; t[4] += x.rejected; t[5] += x.nodes; }
    js << "{\"execs\":" << t[0] << ",\"choices\":" << t[1] << ",\"steps\":" << t[2] << ",\"states\":" << s->states << ",\"checks\":" << t[3]
       << ",\"rejected\":" << t[4] << ",\"nodes\":" << t[5] << ",\"violations\":" << s->vcount << ",\"timeout\":" << s->timeout << ",\"crashes\":" << restarts << ",\"wall\":" << now() - t0 << ",\"spaces\":[";
    bool f = true; for (size_t i = 0; i < spaces().size(); i++) if (spaces()[i].tiers & (o.thorough ? 2 : 1)) { js << (f ? "" : ",") << jstr(spaces()[i].name); f = false; }
    js << "]}\n";
    std::ofstream(o.out.c_str()) << js.str();
    std::cout << js.str();
    if (herr) return 3;
    return s->vcount ? 1 : 0;
}
} // namespace mc
// lazily formatted comparison (needs a Ctx called c)
#define CHECK(COND, KEY, MSG) do { c.checked(); if (!(COND)) { std::ostringstream mc_o; mc_o.precision(15); mc_o << MSG; c.fail(KEY, mc_o.str()); } } while (0)
#endif
