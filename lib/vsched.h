// Controlled scheduler: runs real multi-threaded code one thread at a time and
// lets the explorer decide, at every synchronisation operation, who goes next.
//   * every pthread mutex/condition/create/join call of the program (and of
//     boost and libstdc++) goes through the scheduler
//   * a preemption (switching away from a thread that could go on) costs one
//     unit of a budget; switches at blocking operations are free
//   * code under test is compiled with -fsanitize=thread and its memory
//     accesses are checked by a happens-before race detector (vector clocks),
//     so exploring only synchronisation points is enough for race-free code,
//     and racy code is reported
#ifndef VERIF_VSCHED_H
#define VERIF_VSCHED_H
#include <functional>
#include <string>
#include "mc.h"
namespace vs {
struct Options { int preempt, spurious, maxsteps; bool races; Options(int p = 2, int s = 0) : preempt(p), spurious(s), maxsteps(20000), races(true) {} };
// raw interface of the runtime (lib/vsched.cc)
extern "C" {
    void vsched_begin(int preempt, int spurious, int maxsteps, int races, int (*choose)(int), void (*dead)(const char * key, const char * msg));
    void vsched_end();               // waits (under the scheduler) for all threads
    void vsched_point(const char * what);
    int  vsched_tid();
    int  vsched_active();
    long vsched_steps();
    int  vsched_races(const char ** buf);   // number, and a description
    const char * vsched_trace();
    void vsched_ignore(int on);      // harness bookkeeping: do not track accesses
    int  vsched_preemptions();
    unsigned long long vsched_hash();   // hash of the order of operations (which schedule this was)
    void vsched_opaque(const char * prefix);   // functions whose mangled names begin so: not tracked inside, and their locks order nothing else
    void vsched_scope(void *, size_t);   // after the first call only operations on objects in these ranges (and points, creations, joins) are places to preempt
}
inline mc::Ctx *& ctx() { static mc::Ctx * c = 0; return c; }
inline bool & abandoned() { static bool b; return b; }
inline int choose_cb(int n) {
    if (abandoned()) return 0;
    try { return ctx()->choose(n); } catch (mc::NotMine &) { abandoned() = true; return 0; }
}
inline void dead_cb(const char * key, const char * msg) {
    // no way to unwind threads that are stuck: write the violation down and end this process
    mc::Ctx & c = *ctx();
    if (!abandoned() || c.replay) {
        if (c.replay) std::cout << "VIOLATED " << key << ": " << msg << std::endl;
        mc::record(mc::spaces()[c.space].name, key, msg, std::vector<int>(c.path.begin(), c.path.begin() + c.pos), c.desc_);
    }
    _exit(88);
}
inline void point(const char * what = "point") { vsched_point(what); }
// preempt only at operations on mutexes and conditions inside [p, p+n) (call with 0 first: nowhere yet)
inline void scope(void * p = 0, size_t n = 0) { vsched_scope(p, n); }
struct Quiet { Quiet() { vsched_ignore(1); } ~Quiet() { vsched_ignore(-1); } };

template<class F> inline void run(mc::Ctx & c, const Options & o, F body) {
    ctx() = &c; abandoned() = false;
    vsched_begin(o.preempt, o.spurious, o.maxsteps, o.races, choose_cb, dead_cb);
    std::string ex; bool threw = false;
    try { body(); } catch (mc::Violation & v) { vsched_end(); if (abandoned()) throw mc::NotMine(); throw mc::Violation{v.key, v.msg + "  schedule: " + vsched_trace()}; }
    catch (std::exception & e) { threw = true; ex = e.what(); }
    vsched_end();
    c.step(vsched_steps());
    if (abandoned()) throw mc::NotMine();
    const char * r; if (vsched_races(&r)) c.fail("race", std::string(r) + "  schedule: " + vsched_trace());
    if (threw) c.fail("exception", "unexpected exception: " + ex + "  schedule: " + vsched_trace());
    c.state(vsched_hash());
}
}
#endif
