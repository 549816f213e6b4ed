// The controlled scheduler and race detector behind vsched.h.
// Compiled without instrumentation; uses only its own containers.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <unistd.h>
#include <time.h>
#include <new>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace {
const int MAXT = 12, MAXOBJ = 4096;
typedef unsigned long long u64;
enum St { FREE, RUN, LOCK, WAIT, JOIN, FINAL, DONE };
struct VC { unsigned c[MAXT]; };
struct Thread {
    St st; void * obj; void * mtx; int target; bool timed, woken, timedout; sem_t sem; pthread_t real;
    void *(*fn)(void *); void * arg; void * ret; VC vc; const char * op; uintptr_t slo, shi;
};
struct Obj { void * p; int owner, count; bool mutex; VC vc; };
struct Ev { signed char t; const char * op; int obj; };

Thread T[MAXT]; int nT;
Obj O[MAXOBJ]; int nO;
bool active, wantraces; int cur, budget, spurious, maxsteps; long steps; u64 ord;
int (*choosecb)(int); void (*deadcb)(const char *, const char *);
Ev ev[4096]; int nev;
char tracebuf[8192]; char racebuf[8192]; int nrace;
__thread int self_ = -1; __thread int ignore_ = 0; __thread int busy = 0;
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
inline bool on() { return active && self_ >= 0 && !busy; }

int objid(void * p, bool mutex) {
    for (int i = 0; i < nO; i++) if (O[i].p == p) return i;
    if (nO == MAXOBJ) { fprintf(stdout, "HARNESS ERROR: too many objects\n"); _exit(3); }
    O[nO].p = p; O[nO].owner = -1; O[nO].count = 0; O[nO].mutex = mutex; memset(&O[nO].vc, 0, sizeof(VC));
    return nO++;
}
void joinvc(VC & a, const VC & b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void event(int t, const char * op, int obj) { ord = (ord ^ (u64)(t * 131 + (obj + 7) * 7 + op[0] * 1031 + op[1])) * 1099511628211ULL; ord ^= ord >> 29; if (nev < 4096) { ev[nev].t = t; ev[nev].op = op; ev[nev].obj = obj; } nev++; }
const char * trace() {
    char * p = tracebuf, * e = tracebuf + sizeof tracebuf - 64; int n = nev < 4096 ? nev : 4096, from = n > 260 ? n - 260 : 0;
    *p = 0; if (from) p += sprintf(p, "(...%d earlier) ", from);
    for (int i = from; i < n && p < e; i++) { if (ev[i].obj >= 0) p += sprintf(p, "T%d:%s(%d) ", ev[i].t, ev[i].op, ev[i].obj); else p += sprintf(p, "T%d:%s ", ev[i].t, ev[i].op); }
    return tracebuf;
}
int oidx(void * p) { for (int i = 0; i < nO; i++) if (O[i].p == p) return i; return -1; }
bool enabled(int t, bool & paid) {
    paid = false; Thread & x = T[t];
    switch (x.st) {
    case RUN: return true;
    case LOCK: { int i = oidx(x.obj); return i < 0 || O[i].owner < 0 || O[i].owner == t; }
    case JOIN: return T[x.target].st == DONE;
    case FINAL: for (int i = 0; i < nT; i++) if (i != t && T[i].st != DONE) return false; return true;
    case WAIT: if (x.timed) { paid = true; return budget > 0; } if (spurious > 0) { paid = true; return true; } return false;
    default: return false;
    }
}
void report(const char * key, const char * what) {
    static char b[16384]; int n = snprintf(b, sizeof b, "%s;", what);
    for (int i = 0; i < nT && n < 3000; i++) if (T[i].st != DONE) n += snprintf(b + n, sizeof b - n, " T%d at %s(%d)", i, T[i].op ? T[i].op : "?", T[i].obj ? oidx(T[i].obj) : -1);
    snprintf(b + n, sizeof b - n, "  schedule: %s", trace());
    deadcb(key, b); _exit(88);
}
void handoff(int to) {
    int me = cur; if (to == me) return;
    cur = to; sem_post(&T[to].sem);
    if (T[me].st != DONE) { while (sem_wait(&T[me].sem)) {} }
}
// the running thread gives the scheduler a chance; on return it may execute its operation
extern "C" char __executable_start, etext;
struct Range { uintptr_t lo, hi; } scope_[64]; int nscope; bool scoped;
bool inscope(void * o) { if (!scoped) return true; for (int i = 0; i < nscope; i++) if ((uintptr_t)o >= scope_[i].lo && (uintptr_t)o < scope_[i].hi) return true; return false; }
bool inexe(void * pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }
void schedule(bool mayswitch = true) {
    if (++steps > maxsteps) report("livelock", "the program does not end within the step limit");
    int cand[MAXT], n = 0; bool pay[MAXT], p; int me = cur;
    bool selfok = T[me].st != WAIT && enabled(me, p);
    if (selfok) { cand[n] = me; pay[n++] = false; }
    if (selfok && !mayswitch) return;      // inside a library: not a place we preempt
    for (int i = 0; i < nT; i++) if (i != me || (!selfok && T[i].st == WAIT)) if (enabled(i, p)) {
        if (selfok && budget <= 0 && !p) continue;
        if (p && T[i].timed && budget <= 0) continue;
        cand[n] = i; pay[n++] = p; 
    }
    if (n == 0) {
        // a timed wait may end when nothing else can happen
        for (int i = 0; i < nT; i++) if (T[i].st == WAIT && T[i].timed) { cand[n] = i; pay[n++] = false; }
        if (n == 0) report("deadlock", "no thread can go on");
    }
    int k = 0;
    if (n > 1) { Busy b; k = choosecb(n); }
    int to = cand[k];
    if (selfok && to != me) budget--;
    if (T[to].st == WAIT) {
        if (T[to].timed) { T[to].timedout = true; if (pay[k] && !selfok) budget--; } else spurious--;
        event(to, "wake", -1);
        T[to].st = LOCK; T[to].obj = T[to].mtx; T[to].op = "relock";
        bool q; if (!enabled(to, q)) { schedule(); return; }   // must first get the mutex: somebody else goes on
    }
    handoff(to);
}
// ---- opaque functions: while a thread is inside one of them its accesses are not tracked
// and its locks order nothing else (so that a busy library lock does not hide races around it)
struct Fn { uintptr_t lo, hi; } fn_[2048]; int nfn; __thread int depth_, opaque_;
bool isopaque(uintptr_t pc) { int a = 0, b = nfn; while (a < b) { int m = (a + b) / 2; if (fn_[m].hi <= pc) a = m + 1; else b = m; } return a < nfn && fn_[a].lo <= pc; }
extern "C" char __ehdr_start;
void loadopaque(const char * prefix) {
    int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return; char * p = (char *)mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if (p == MAP_FAILED) return;
    Elf64_Ehdr * h = (Elf64_Ehdr *)p; Elf64_Shdr * sh = (Elf64_Shdr *)(p + h->e_shoff); uintptr_t bias = h->e_type == ET_DYN ? (uintptr_t)&__ehdr_start : 0; size_t n = strlen(prefix);
    for (int i = 0; i < h->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) { Elf64_Sym * y = (Elf64_Sym *)(p + sh[i].sh_offset); const char * str = p + sh[sh[i].sh_link].sh_offset; for (size_t k = 0; k < sh[i].sh_size / sizeof *y; k++) if (ELF64_ST_TYPE(y[k].st_info) == STT_FUNC && y[k].st_size && !strncmp(str + y[k].st_name, prefix, n) && nfn < 2048) { fn_[nfn].lo = bias + y[k].st_value; fn_[nfn++].hi = bias + y[k].st_value + y[k].st_size; } }
    munmap(p, st.st_size); for (int i = 1; i < nfn; i++) for (int j = i; j > 0 && fn_[j].lo < fn_[j - 1].lo; j--) { Fn t = fn_[j]; fn_[j] = fn_[j - 1]; fn_[j - 1] = t; }
}
void lock(void * m, bool try_, int & rc, bool sw) {
    Busy b; Thread & me = T[self_]; me.st = LOCK; me.obj = m; me.op = "lock"; 
    if (try_) { me.st = RUN; me.op = "trylock"; }
    schedule(sw);
    me.st = RUN; int i = objid(m, true);
    bool rec = (((pthread_mutex_t *)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (O[i].owner == self_ && !rec) { if (try_) { rc = EBUSY; return; } event(self_, "lock", i); report("deadlock", "a thread locks a mutex it already holds"); }
    if (try_ && O[i].owner >= 0 && O[i].owner != self_) { rc = EBUSY; event(self_, "trylock-busy", i); return; }
    O[i].owner = self_; O[i].count++; if (!opaque_) joinvc(me.vc, O[i].vc); event(self_, try_ ? "trylock" : "lock", i); rc = 0;
}
void unlock(void * m) {
    Busy b; int i = objid(m, true);
    if (O[i].owner != self_) { event(self_, "unlock", i); report("bad-unlock", "a thread unlocks a mutex it does not hold"); }
    if (--O[i].count == 0) { O[i].owner = -1; if (!opaque_) { O[i].vc = T[self_].vc; T[self_].vc.c[self_]++; } }
    event(self_, "unlock", i);
}
int condwait(void * cv, void * m, bool timed, bool sw) {
    Busy b; Thread & me = T[self_]; 
    me.st = RUN; me.op = "wait"; schedule(sw);
    int i = objid(m, true), ci = objid(cv, false);
    if (O[i].owner != self_) report("bad-wait", "a thread waits without holding the mutex");
    int saved = O[i].count; O[i].count = 0; O[i].owner = -1; if (!opaque_) { O[i].vc = me.vc; me.vc.c[self_]++; }
    event(self_, timed ? "timedwait" : "wait", ci);
    me.st = WAIT; me.obj = cv; me.mtx = m; me.timed = timed; me.timedout = false; me.op = "waiting";
    schedule();
    me.st = RUN; O[i].owner = self_; O[i].count = saved; if (!opaque_) joinvc(me.vc, O[i].vc); event(self_, "wakeup", ci);
    return me.timedout ? ETIMEDOUT : 0;
}
void signal(void * cv, bool all, bool sw) {
    Busy b; Thread & me = T[self_]; me.st = RUN; me.op = all ? "broadcast" : "signal"; schedule(sw);
    int ci = objid(cv, false); event(self_, all ? "broadcast" : "signal", ci);
    int w[MAXT], n = 0; for (int i = 0; i < nT; i++) if (T[i].st == WAIT && T[i].obj == cv) w[n++] = i;
    if (n == 0) return;
    int lo = 0, hi = n; if (!all) { lo = n > 1 ? choosecb(n) : 0; hi = lo + 1; }
    for (int k = lo; k < hi; k++) { Thread & x = T[w[k]]; x.st = LOCK; x.obj = x.mtx; x.op = "relock"; }
}

// ---------------------------------------------------------------- races
const int NSH = 1 << 20;     // shadow cells, open addressing
struct Acc { unsigned clk; unsigned char tid, mask, wr, used; uintptr_t pc; };
struct Cell { uintptr_t g; unsigned gen; Acc a[6]; };
Cell * shadow; int * used_; unsigned gen; long used_cells;
struct RaceRec { uintptr_t a, b; int t1, t2, w1, w2; uintptr_t addr; } R[32]; int nR;
Cell * cell(uintptr_t g, bool make) {
    uintptr_t h = (g * 0x9E3779B97F4A7C15ULL) >> 40; h &= NSH - 1;
    for (int k = 0; k < 64; k++, h = (h + 1) & (NSH - 1)) {
        Cell & c = shadow[h];
        if (c.gen != gen) { if (!make) return 0; c.gen = gen; c.g = g; memset(c.a, 0, sizeof c.a); used_[used_cells++] = h; return &c; }
        if (c.g == g) return &c;
    }
    return 0;
}
void access(uintptr_t p, size_t n, bool wr, uintptr_t pc) {
    if (!active || self_ < 0 || busy || ignore_ || opaque_ || !wantraces) return;
    if (nT == 1) return;       // nobody to race with yet (creation orders everything before it)
    Thread & me = T[self_]; if (p >= me.slo && p < me.shi) { /* own stack may still be shared: track it */ }
    for (uintptr_t g = p >> 3; g <= (p + n - 1) >> 3; g++) {
        uintptr_t lo = g << 3; unsigned mask = 0;
        for (int b = 0; b < 8; b++) if (lo + b >= p && lo + b < p + n) mask |= 1u << b;
        Cell * c = cell(g, true); if (!c) continue;
        int slot = -1, old = 0; unsigned oldclk = ~0u;
        for (int k = 0; k < 6; k++) {
            Acc & a = c->a[k];
            if (!a.used) { if (slot < 0) slot = k; continue; }
            if (a.tid == self_) {
                if (a.wr == wr && (a.clk == me.vc.c[self_] || (a.mask & ~mask) == 0)) slot = k;
                continue;
            }
            if ((a.mask & mask) && (a.wr || wr) && a.clk > me.vc.c[a.tid]) {
                bool dup = false; for (int r = 0; r < nR; r++) if (R[r].a == a.pc && R[r].b == pc) dup = true;
                if (!dup && nR < 32) { R[nR].a = a.pc; R[nR].b = pc; R[nR].t1 = a.tid; R[nR].t2 = self_; R[nR].w1 = a.wr; R[nR].w2 = wr; R[nR].addr = p; nR++; }
                nrace++;
            } 
        }
        if (slot < 0) { for (int k = 0; k < 6; k++) { // drop one that everybody running has seen, else the oldest of ours
                if (c->a[k].tid == self_ && c->a[k].clk < oldclk) { oldclk = c->a[k].clk; old = k; } } slot = old; c->a[slot].mask = 0; }
        Acc & a = c->a[slot];
        bool same = a.used && a.tid == self_ && a.wr == wr && a.clk == me.vc.c[self_];
        a.used = 1; a.tid = self_; a.wr = wr; a.clk = me.vc.c[self_]; a.mask = same ? a.mask | mask : mask; a.pc = pc;
    }
}
void forget(uintptr_t p, size_t n) {
    if (!active || !shadow || nT == 1) return;
    if (n > (1 << 16)) { for (long k = 0; k < used_cells; k++) { int i = used_[k]; if ((shadow[i].g << 3) + 7 >= p && (shadow[i].g << 3) < p + n) memset(shadow[i].a, 0, sizeof shadow[i].a); } return; }
    for (uintptr_t g = p >> 3; n && g <= (p + n - 1) >> 3; g++) { Cell * c = cell(g, false); if (c) memset(c->a, 0, sizeof c->a); }
}
const char * where(uintptr_t pc) {
    static char b[4][400]; static int k; char * o = b[k++ & 3]; char cmd[200]; 
    snprintf(cmd, sizeof cmd, "addr2line -s -f -C -e /proc/%d/exe %#lx 2>/dev/null", (int)getpid(), (unsigned long)pc - 1);
    FILE * f = popen(cmd, "r"); char l1[300] = "", l2[120] = "";
    if (f) { if (!fgets(l1, sizeof l1, f)) l1[0] = 0; if (!fgets(l2, sizeof l2, f)) l2[0] = 0; pclose(f); }
    l1[strcspn(l1, "\n")] = 0; l2[strcspn(l2, "\n")] = 0; snprintf(o, 400, "%.200s at %.100s", l1, l2); return o;
}
struct Sync { void * p; unsigned gen; VC vc; }; const int NSY = 1 << 16; Sync * S; int nS; VC fallback_;    // atomics seen
VC * sync(void * p) {
    uintptr_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ULL) >> 40;
    for (int k = 0; k < NSY; k++) { Sync & s = S[(h + k) & (NSY - 1)]; if (s.gen == gen) { if (s.p == p) return &s.vc; continue; } if (nS > NSY / 4 * 3) break; nS++; s.gen = gen; s.p = p; memset(&s.vc, 0, sizeof(VC)); return &s.vc; }
    return &fallback_;     // full: too much order rather than too little
}
void acq(void * p) { if (!opaque_) joinvc(T[self_].vc, *sync(p)); }
void rel(void * p) { if (opaque_) return; joinvc(*sync(p), T[self_].vc); T[self_].vc.c[self_]++; }

template<class F> F real(const char * n, const char * ver = 0) { void * r = ver ? dlvsym(RTLD_NEXT, n, ver) : dlsym(RTLD_NEXT, n); if (!r) r = dlsym(RTLD_NEXT, n); return (F)r; }

void * tramp(void * a) {
    Thread & me = T[(long)a]; int id = (long)a; busy = 1; self_ = id;
    while (sem_wait(&me.sem)) {}
    me.st = RUN; event(id, "start", -1); busy = 0;
    void * r = me.fn(me.arg);
    busy = 1; me.ret = r;
    me.op = "exit"; event(id, "exit", -1); me.st = DONE; self_ = -1; schedule();
    busy = 0; return r;
}
} // namespace

extern "C" {
void vsched_scope(void * p, size_t n) { scoped = true; if (p && nscope < 64) { scope_[nscope].lo = (uintptr_t)p; scope_[nscope++].hi = (uintptr_t)p + n; } }
int vsched_active() { return active; }
int vsched_tid() { return self_; }
long vsched_steps() { return steps; }
int vsched_preemptions() { return budget; }
unsigned long long vsched_hash() { return ord; }
const char * vsched_trace() { return trace(); }
void vsched_ignore(int d) { ignore_ += d; }
void vsched_begin(int pre, int spur, int ms, int races, int (*ch)(int), void (*dead)(const char *, const char *)) {
    static bool pinned = false;
    if (!pinned) { pinned = true; cpu_set_t s; sched_getaffinity(0, sizeof s, &s); int n = CPU_COUNT(&s), k = getpid() % (n ? n : 1); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &s) && k-- == 0) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i, &o); sched_setaffinity(0, sizeof o, &o); break; } }
    if (!shadow) { shadow = (Cell *)calloc(NSH, sizeof(Cell)); S = (Sync *)calloc(NSY, sizeof(Sync)); used_ = (int *)calloc(NSH, sizeof(int)); }
    gen++; nscope = 0; scoped = false; nO = 0; nS = 0; memset(&fallback_, 0, sizeof fallback_); nev = 0; steps = 0; nR = 0; nrace = 0; ord = 14695981039346656037ULL; used_cells = 0;
    for (int i = 0; i < MAXT; i++) T[i].st = FREE;
    nT = 1; memset(&T[0], 0, sizeof(Thread)); T[0].st = RUN; T[0].vc.c[0] = 1; sem_init(&T[0].sem, 0, 0); T[0].real = pthread_self();
    cur = 0; self_ = 0; budget = pre; spurious = spur; maxsteps = ms; wantraces = races; choosecb = ch; deadcb = dead; busy = 0; active = true;
}
void vsched_end() {
    { Busy b; T[0].st = FINAL; T[0].op = "end"; T[0].obj = 0; schedule(); }
    active = false; self_ = -1;
    for (int i = 1; i < nT; i++) sem_destroy(&T[i].sem);
}
void vsched_point(const char * w) { if (!on()) return; Busy b; T[self_].st = RUN; T[self_].op = w; schedule(); event(self_, w, -1); }
int vsched_races(const char ** buf) {
    char * p = racebuf, * e = racebuf + sizeof racebuf; *p = 0;
    for (int i = 0; i < nR && i < 4; i++) p += snprintf(p, e - p, "data race on %#lx: T%d %s in %s / T%d %s in %s; ", (unsigned long)0, R[i].t1, R[i].w1 ? "writes" : "reads", where(R[i].a), R[i].t2, R[i].w2 ? "writes" : "reads", where(R[i].b));
    *buf = racebuf; return nR;
}

// ---- pthread
int pthread_mutex_lock(pthread_mutex_t * m) __attribute__((visibility("default")));
int pthread_mutex_lock(pthread_mutex_t * m) { if (!on()) { static int (*f)(pthread_mutex_t *) = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return f(m); } int rc; lock(m, false, rc, inscope(m) && inexe(__builtin_return_address(0))); return rc; }
int pthread_mutex_trylock(pthread_mutex_t * m) { if (!on()) { static int (*f)(pthread_mutex_t *) = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return f(m); } int rc; lock(m, true, rc, inscope(m) && inexe(__builtin_return_address(0))); return rc; }
int pthread_mutex_unlock(pthread_mutex_t * m) { if (!on()) { static int (*f)(pthread_mutex_t *) = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return f(m); } unlock(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t * m) { if (!on()) { static int (*f)(pthread_mutex_t *) = real<int (*)(pthread_mutex_t *)>("pthread_mutex_destroy"); return f(m); }
    Busy b; int i = oidx(m); if (i >= 0) { if (O[i].owner >= 0) { event(self_, "destroy", i); report("destroyed-in-use", "a locked mutex is destroyed"); } O[i].p = 0; } return 0; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if (!on()) { static int (*f)(pthread_cond_t *, pthread_mutex_t *) = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait", "GLIBC_2.3.2"); return f(c, m); } return condwait(c, m, false, inscope(c) && inexe(__builtin_return_address(0))); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t) { if (!on()) { static int (*f)(pthread_cond_t *, pthread_mutex_t *, const timespec *) = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait", "GLIBC_2.3.2"); return f(c, m, t); } return condwait(c, m, true, inscope(c) && inexe(__builtin_return_address(0))); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t) { if (!on()) { static int (*f)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *) = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait"); return f(c, m, k, t); } return condwait(c, m, true, inscope(c) && inexe(__builtin_return_address(0))); }
int pthread_cond_signal(pthread_cond_t * c) { if (!on()) { static int (*f)(pthread_cond_t *) = real<int (*)(pthread_cond_t *)>("pthread_cond_signal", "GLIBC_2.3.2"); return f(c); } signal(c, false, inscope(c) && inexe(__builtin_return_address(0))); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { if (!on()) { static int (*f)(pthread_cond_t *) = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast", "GLIBC_2.3.2"); return f(c); } signal(c, true, inscope(c) && inexe(__builtin_return_address(0))); return 0; }
int pthread_cond_destroy(pthread_cond_t * c) { if (!on()) { static int (*f)(pthread_cond_t *) = real<int (*)(pthread_cond_t *)>("pthread_cond_destroy", "GLIBC_2.3.2"); return f(c); }
    Busy b; int i = oidx(c); if (i >= 0) { for (int t = 0; t < nT; t++) if (T[t].st == WAIT && T[t].obj == c) { event(self_, "destroy", i); report("destroyed-in-use", "a condition with waiters is destroyed"); } O[i].p = 0; } return 0; }
int pthread_create(pthread_t * t, const pthread_attr_t * a, void *(*fn)(void *), void * arg) {
    static int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!on()) return f(t, a, fn, arg);
    int id; int rc;
    { Busy b; id = nT; if (id == MAXT) { fprintf(stdout, "HARNESS ERROR: too many threads\n"); _exit(3); }
      memset(&T[id], 0, sizeof(Thread)); T[id].fn = fn; T[id].arg = arg; sem_init(&T[id].sem, 0, 0); T[id].st = RUN; T[id].op = "start";
      rc = f(t, a, tramp, (void *)(long)id); if (rc) return rc;
      T[id].real = *t; 
      pthread_attr_t at; if (!pthread_getattr_np(*t, &at)) { void * sp; size_t sz; pthread_attr_getstack(&at, &sp, &sz); T[id].slo = (uintptr_t)sp; T[id].shi = (uintptr_t)sp + sz; pthread_attr_destroy(&at); bool w = nT > 1; nT++; if (w) forget((uintptr_t)sp, sz); } else nT++;
      T[id].vc = T[self_].vc; T[id].vc.c[id] = 1; T[self_].vc.c[self_]++; event(self_, "create", id);
      T[self_].st = RUN; T[self_].op = "created"; schedule(); }
    return 0;
}
int pthread_join(pthread_t t, void ** ret) {
    static int (*f)(pthread_t, void **) = real<int (*)(pthread_t, void **)>("pthread_join");
    if (on()) { Busy b; int id = -1; for (int i = 0; i < nT; i++) if (T[i].real == t && i) id = i;
        if (id >= 0) { Thread & me = T[self_]; me.st = JOIN; me.target = id; me.op = "join"; me.obj = 0; schedule(); me.st = RUN; joinvc(me.vc, T[id].vc); event(self_, "join", id); } }
    return f(t, ret);
}
unsigned int sleep(unsigned int s) { if (!on()) { timespec t = {(time_t)s, 0}; return clock_nanosleep(CLOCK_REALTIME, 0, &t, 0) ? s : 0; } vsched_point("sleep"); return 0; }
int usleep(useconds_t u) { if (!on()) { timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return clock_nanosleep(CLOCK_REALTIME, 0, &t, 0) ? -1 : 0; } vsched_point("sleep"); return 0; }
int sched_yield() { if (!on()) return 0; vsched_point("yield"); return 0; }

// ---- instrumentation of -fsanitize=thread
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init() {}
void vsched_opaque(const char * prefix) { loadopaque(prefix); }
void __tsan_func_entry(void *) { if (!nfn) return; depth_++; if (!opaque_ && isopaque(PC)) opaque_ = depth_; }
void __tsan_func_exit() { if (!nfn) return; if (opaque_ == depth_) opaque_ = 0; depth_--; }
#define RW(N) void __tsan_read##N(void * p) { access((uintptr_t)p, N, false, PC); } void __tsan_write##N(void * p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read##N(void * p) { access((uintptr_t)p, N, false, PC); } void __tsan_unaligned_write##N(void * p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_volatile_read##N(void * p) { access((uintptr_t)p, N, false, PC); } void __tsan_volatile_write##N(void * p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { if (n) access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void * p, size_t n) { if (n) access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void ** p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
} // extern C
namespace {
struct Atom { void * p; bool a; Atom(const volatile void * q, bool point, const char * w) : p((void *)q), a(on()) { if (a) { if (point && nT > 1) vsched_point(w); Busy b; acq(p); } } void done(bool wr) { if (a && wr) { Busy b; rel(p); } } };
}
extern "C" {
#define ATOM(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY * p, int) { Atom a(p, false, "aload"); TY r = __atomic_load_n(p, __ATOMIC_SEQ_CST); return r; } \
void __tsan_atomic##B##_store(volatile TY * p, TY v, int) { Atom a(p, true, "astore"); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); a.done(true); } \
TY __tsan_atomic##B##_exchange(volatile TY * p, TY v, int) { Atom a(p, true, "axchg"); TY r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); a.done(true); return r; } \
TY __tsan_atomic##B##_fetch_add(volatile TY * p, TY v, int) { Atom a(p, false, "aadd"); TY r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); a.done(true); return r; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY * p, TY v, int) { Atom a(p, false, "asub"); TY r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); a.done(true); return r; } \
TY __tsan_atomic##B##_fetch_and(volatile TY * p, TY v, int) { Atom a(p, false, "aand"); TY r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); a.done(true); return r; } \
TY __tsan_atomic##B##_fetch_or(volatile TY * p, TY v, int) { Atom a(p, false, "aor"); TY r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); a.done(true); return r; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY * p, TY v, int) { Atom a(p, false, "axor"); TY r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); a.done(true); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY * p, TY * e, TY v, int, int) { Atom a(p, true, "acas"); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); a.done(r); return r; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY * p, TY * e, TY v, int, int) { Atom a(p, true, "acas"); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); a.done(r); return r; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY * p, TY e, TY v, int, int) { Atom a(p, true, "acas"); int r = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); a.done(r); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
} // extern C

// ---- memory: fresh memory has no history; freeing counts as a write
extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t); }
static void * fresh(void * p) { if (p && active && self_ >= 0) { Busy b; forget((uintptr_t)p, malloc_usable_size(p)); } return p; }
static void * get(size_t n) { return fresh(__libc_malloc(n ? n : 1)); }
static void put(void * p, uintptr_t pc) { if (!p) return; if (active && self_ >= 0 && !busy) { size_t n = malloc_usable_size(p); access((uintptr_t)p, n > 4096 ? 4096 : n, true, pc); Busy b; forget((uintptr_t)p, n); } __libc_free(p); }
extern "C" {
void * malloc(size_t n) { return fresh(__libc_malloc(n)); }
void * calloc(size_t n, size_t m) { return fresh(__libc_calloc(n, m)); }
void * memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
void * aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n)); }
int posix_memalign(void ** p, size_t a, size_t n) { *p = fresh(__libc_memalign(a, n)); return *p ? 0 : 12; }
void * realloc(void * p, size_t n) { if (p && active && self_ >= 0 && !busy) { size_t m = malloc_usable_size(p); access((uintptr_t)p, m > 4096 ? 4096 : m, true, PC); Busy b; forget((uintptr_t)p, m); } return fresh(__libc_realloc(p, n)); }
void free(void * p) { put(p, PC); }
}
void * operator new(size_t n) { void * p = get(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { void * p = get(n); if (!p) throw std::bad_alloc(); return p; }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void * p) noexcept { put(p, PC); }
void operator delete[](void * p) noexcept { put(p, PC); }
void operator delete(void * p, size_t) noexcept { put(p, PC); }
void operator delete[](void * p, size_t) noexcept { put(p, PC); }
