// C01: worker pool under every schedule (preemption bounded), with race detection
#include "vsched.h"
#include <travatar/thread-pool.h>
#include <travatar/task.h>
#include <travatar/global-debug.h>
using namespace travatar;

struct Log { int started[8], finished[8], deleted[8]; boost::mutex m; Log() { memset(started, 0, sizeof started); memset(finished, 0, sizeof finished); memset(deleted, 0, sizeof deleted); } };
struct Job : public Task {
    int id; Log & log; ThreadPool * pool; Job * next;
    Job(int i, Log & l) : id(i), log(l), pool(0), next(0) {}
    void Run() { { vs::Quiet q; log.started[id]++; } vs::point("work"); if (next) pool->Submit(next); { vs::Quiet q; log.finished[id]++; } }
    ~Job() { vs::Quiet q; log.deleted[id]++; }
};
// workers x tasks x queue limit x way of stopping, one submitter
static void one(mc::Ctx & c, int maxw, int maxt, int pre, int spurious) {
    int workers = c.range(1, maxw), tasks = c.range(0, maxt), limit = c.range(0, 2); bool rest = c.flag(), del = tasks && limit == 0 ? c.flag() : true;
    std::ostringstream d; d << workers << " workers, " << tasks << " tasks, queue limit " << limit << (rest ? ", stop after the rest" : ", stop at once") << (del ? "" : ", tasks kept");
    c.describe(d.str());
    Log log; std::vector<Job *> keep; int running_after = 0;
    for (int i = 0; i < tasks; i++) keep.push_back(new Job(i, log));
    int done_at_stop[8] = {0};
    vs::run(c, vs::Options(pre, spurious), [&]() {
        vs::scope(); ThreadPool pool(workers, limit); vs::scope(&pool, sizeof pool); pool.SetDeleteTasks(del);
        for (int i = 0; i < tasks; i++) pool.Submit(keep[i]);
        pool.Stop(rest);
        vs::Quiet q; for (int i = 0; i < tasks; i++) done_at_stop[i] = log.finished[i];
    });
    std::string out;
    for (int i = 0; i < tasks; i++) {
        CHECK(log.started[i] <= 1, "twice", "task " << i << " was run " << log.started[i] << " times; schedule: " << vs::vsched_trace());
        CHECK(log.started[i] == log.finished[i], "unfinished", "task " << i << " was started but not finished; schedule: " << vs::vsched_trace());
        CHECK(done_at_stop[i] == log.finished[i], "late", "task " << i << " finished after Stop had returned; schedule: " << vs::vsched_trace());
        if (rest) CHECK(log.finished[i] == 1, "lost", "task " << i << " was never run; schedule: " << vs::vsched_trace());
        CHECK(log.deleted[i] == (del ? log.finished[i] : 0), "ownership", "task " << i << " was deleted " << log.deleted[i] << " times; schedule: " << vs::vsched_trace());
        out += char('0' + log.finished[i]);
    }
    c.state(d.str() + out);
    vs::Quiet q; for (int i = 0; i < tasks; i++) if (!log.deleted[i]) delete keep[i];
}

// 1-2 extra submitter threads beside the stopping thread; a refused submission throws
static void many(mc::Ctx & c, int pre) {
    int workers = c.range(1, 2), subs = c.range(1, 2), per = subs == 1 ? c.range(1, 2) : 1, limit = c.range(0, 2); bool rest = c.flag();
    std::ostringstream d; d << workers << " workers, " << subs << " submitters of " << per << " tasks, queue limit " << limit << (rest ? ", stop after the rest" : ", stop at once");
    c.describe(d.str());
    Log log; int n = subs * per; std::vector<Job *> keep; for (int i = 0; i < n; i++) keep.push_back(new Job(i, log));
    std::vector<int> accepted(n, 0); int done_at_stop[8] = {0};
    vs::run(c, vs::Options(pre), [&]() {
        vs::scope(); ThreadPool pool(workers, limit); vs::scope(&pool, sizeof pool); pool.SetDeleteTasks(false);
        boost::thread_group g;
        for (int t = 0; t < subs; t++) g.create_thread([&, t]() { for (int i = 0; i < per; i++) try { pool.Submit(keep[t * per + i]); vs::Quiet q; accepted[t * per + i] = 1; } catch (std::exception &) {} });
        pool.Stop(rest);
        { vs::Quiet q; for (int i = 0; i < n; i++) done_at_stop[i] = log.finished[i]; }
        g.join_all();
    });
    std::string out;
    for (int i = 0; i < n; i++) {
        CHECK(log.started[i] <= 1 && log.started[i] == log.finished[i], "twice", "task " << i << " started " << log.started[i] << " and finished " << log.finished[i] << " times; schedule: " << vs::vsched_trace());
        CHECK(done_at_stop[i] == log.finished[i], "late", "task " << i << " finished after Stop had returned; schedule: " << vs::vsched_trace());
        CHECK(accepted[i] || !log.started[i], "refused", "task " << i << " was refused but run; schedule: " << vs::vsched_trace());
        if (rest) CHECK(log.finished[i] == accepted[i], "lost", "task " << i << " was accepted but never run; schedule: " << vs::vsched_trace());
        out += char('0' + log.finished[i] + 2 * accepted[i]);
    }
    c.state(d.str() + out);
    for (int i = 0; i < n; i++) delete keep[i];
}
// the queue limit: while every worker is inside a task, at most `limit` accepted tasks are waiting
static void limits(mc::Ctx & c, int maxt, int pre) {
    int workers = c.range(1, 2), limit = c.range(1, 2), tasks = c.range(workers + limit, maxt);
    std::ostringstream d; d << workers << " workers, " << tasks << " tasks, queue limit " << limit << ", watching the queue";
    c.describe(d.str());
    Log log; std::vector<Job *> keep; for (int i = 0; i < tasks; i++) keep.push_back(new Job(i, log));
    int worst = 0;
    vs::run(c, vs::Options(pre), [&]() {
        vs::scope(); ThreadPool pool(workers, limit); vs::scope(&pool, sizeof pool); pool.SetDeleteTasks(false);
        for (int i = 0; i < tasks; i++) { pool.Submit(keep[i]); vs::Quiet q; int st = 0, fi = 0; for (int k = 0; k < tasks; k++) { st += log.started[k]; fi += log.finished[k]; } if (st - fi == workers) worst = std::max(worst, i + 1 - st); }
        pool.Stop(true);
    });
    CHECK(worst <= limit, "limit", worst << " tasks were waiting with a queue limit of " << limit << "; schedule: " << vs::vsched_trace());
    for (int i = 0; i < tasks; i++) CHECK(log.finished[i] == 1, "lost", "task " << i << " was run " << log.finished[i] << " times; schedule: " << vs::vsched_trace());
    c.state(d.str() + char('0' + worst));
    for (int i = 0; i < tasks; i++) delete keep[i];
}
// waiting for the pool to drain, with tasks that submit further tasks
static void waiting(mc::Ctx & c, int maxt, int pre, int spurious) {
    int workers = c.range(1, 2), tasks = c.range(0, maxt); bool chain = tasks && c.flag(), again = c.flag();
    std::ostringstream d; d << workers << " workers, " << tasks << " tasks" << (chain ? ", the first submits another" : "") << ", wait" << (again ? ", submit one more, wait again" : "") << ", stop";
    c.describe(d.str());
    Log log; int n = tasks + chain + again; std::vector<Job *> keep; for (int i = 0; i < n; i++) keep.push_back(new Job(i, log));
    int done1[8] = {0}, done2[8] = {0};
    vs::run(c, vs::Options(pre, spurious), [&]() {
        vs::scope(); ThreadPool pool(workers, 0); vs::scope(&pool, sizeof pool); pool.SetDeleteTasks(false);
        if (chain) { keep[0]->pool = &pool; keep[0]->next = keep[tasks]; }
        for (int i = 0; i < tasks; i++) pool.Submit(keep[i]);
        pool.Wait();
        { vs::Quiet q; for (int i = 0; i < n; i++) done1[i] = log.finished[i]; }
        if (again) { pool.Submit(keep[n - 1]); pool.Wait(); vs::Quiet q; for (int i = 0; i < n; i++) done2[i] = log.finished[i]; }
        pool.Stop(false);
    });
    for (int i = 0; i < tasks + chain; i++) CHECK(done1[i] == 1, "wait", "task " << i << " had been run " << done1[i] << " times when Wait returned; schedule: " << vs::vsched_trace());
    if (again) CHECK(done2[n - 1] == 1, "wait", "the last task had been run " << done2[n - 1] << " times when Wait returned; schedule: " << vs::vsched_trace());
    for (int i = 0; i < n; i++) CHECK(log.finished[i] == 1 && log.started[i] == 1, "twice", "task " << i << " was run " << log.started[i] << " times");
    for (int i = 0; i < n; i++) delete keep[i];
}
// Stop from two threads, Stop twice, Stop at once while another Stop processes the rest
static void stops(mc::Ctx & c, int pre) {
    int workers = c.range(1, 2), tasks = c.range(0, 2), kind = c.choose(3); bool other = c.flag();
    std::ostringstream d; d << workers << " workers, " << tasks << " tasks, stop " << (kind == 0 ? "twice" : kind == 1 ? "twice, first after the rest" : "after the rest while a task is submitted afterwards") << (other ? "" : "");
    c.describe(d.str() + (other ? " (b)" : " (a)"));
    Log log; std::vector<Job *> keep; for (int i = 0; i <= tasks; i++) keep.push_back(new Job(i, log));
    bool refused = false;
    vs::run(c, vs::Options(pre), [&]() {
        vs::scope(); ThreadPool pool(workers, 0); vs::scope(&pool, sizeof pool); pool.SetDeleteTasks(false);
        for (int i = 0; i < tasks; i++) pool.Submit(keep[i]);
        pool.Stop(kind != 0 || other);
        if (kind < 2) pool.Stop(other); else { try { pool.Submit(keep[tasks]); } catch (std::exception &) { refused = true; } pool.Stop(other); }
    });
    if (kind == 2) CHECK(refused && !log.started[tasks], "refused", "a task submitted after the stop was accepted");
    for (int i = 0; i < tasks; i++) CHECK(log.started[i] <= 1 && log.started[i] == log.finished[i] && (log.finished[i] || !(kind != 0 || other)), "twice", "task " << i << " was run " << log.started[i] << " times; schedule: " << vs::vsched_trace());
    for (int i = 0; i <= tasks; i++) delete keep[i];
}
MC_SPACE(pool, 1) { one(c, 2, 2, 1, 0); }
MC_SPACE(pool_one, 1) { one(c, 1, 2, 2, 0); }
MC_SPACE(pool3, 1) { one(c, 2, 3, 1, 0); }
MC_SPACE(pool_spurious, 1) { one(c, 2, 2, 0, 1); }
MC_SPACE(submitters, 1) { many(c, 1); }
MC_SPACE(queue_limit, 1) { limits(c, 3, 1); }
MC_SPACE(waits, 1) { waiting(c, 2, 1, 0); }
MC_SPACE(stop_kinds, 1) { stops(c, 1); }
MC_SPACE(pool_p2, 2) { one(c, 2, 3, 2, 0); }
MC_SPACE(pool_w3, 2) { one(c, 3, 3, 1, 0); }
MC_SPACE(pool_one_p3, 2) { one(c, 1, 3, 3, 0); }
MC_SPACE(pool_spurious_deep, 2) { one(c, 2, 2, 1, 2); }
MC_SPACE(submitters_p2, 2) { many(c, 2); }
MC_SPACE(queue_limit_deep, 2) { limits(c, 4, 2); }
MC_SPACE(waits_deep, 2) { waiting(c, 3, 1, 1); }
MC_SPACE(stop_kinds_deep, 2) { stops(c, 2); }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; }); }
