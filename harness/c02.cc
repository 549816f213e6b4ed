// C02: the ordered output collector
#include "vsched.h"
#include <travatar/output-collector.h>
#include <boost/thread.hpp>
using namespace travatar;

// a stream that can be preempted in the middle of a write and counts flushes
struct Sink : public std::streambuf {
    std::string data; int flushes; bool points; Sink() : flushes(0), points(false) {}
    std::streamsize xsputn(const char * s, std::streamsize n) { size_t h = n / 2; data.append(s, h); if (points && n > 1) vs::point("io"); data.append(s + h, n - h); return n; }
    int overflow(int ch) { data.push_back(ch); return ch; }
    int sync() { flushes++; return 0; }
};
static std::string text(int id, int kind, bool err) {   // kind 0: skip, 1: text on out, 2: text on both, 3: empty strings
    if (kind == 0 || kind == 3 || (err && kind == 1)) return "";
    std::ostringstream o; o << (err ? "err" : "out") << id << (kind == 2 ? "|two words" : "") << "\n"; return o.str();
}
static void hist(mc::Ctx & c, int maxn) {
    int n = c.range(1, maxn); bool buffered = c.flag();
    std::vector<int> kind(n), order, left;
    for (int i = 0; i < n; i++) { kind[i] = c.choose(n <= 4 ? 4 : 3); left.push_back(i); }
    while (!left.empty()) { int k = c.choose(left.size()); order.push_back(left[k]); left.erase(left.begin() + k); }
    std::ostringstream d; d << (buffered ? "buffered" : "unbuffered") << ", writes in order"; for (int i = 0; i < n; i++) d << " " << order[i] << ":" << "sobe"[kind[order[i]]];
    c.describe(d.str());
    Sink o, e; std::ostream os(&o), es(&e); OutputCollector oc(&os, &es, buffered);
    std::vector<bool> done(n, false);
    for (int i = 0; i < n; i++) {
        int id = order[i], f0 = o.flushes, g0 = e.flushes; size_t before = o.data.size() + e.data.size();
        if (kind[id] == 0) oc.Skip(id); else oc.Write(id, text(id, kind[id], false), text(id, kind[id], true));
        done[id] = true; c.step();
        std::string wo, we; for (int k = 0; k < n && done[k]; k++) { wo += text(k, kind[k], false); we += text(k, kind[k], true); }
        CHECK(o.data == wo, "order", "after write " << i << " the output holds " << mc::jstr(o.data) << " instead of " << mc::jstr(wo));
        CHECK(e.data == we, "order", "after write " << i << " the error output holds " << mc::jstr(e.data) << " instead of " << mc::jstr(we));
        if (!buffered && o.data.size() + e.data.size() > before) CHECK(o.flushes > f0 && e.flushes > g0, "flush", "unbuffered output was not flushed after write " << i);
        c.state(d.str().substr(0, 10) + o.data + "#" + e.data);
    }
    int f0 = o.flushes, g0 = e.flushes; oc.Flush(); CHECK(o.flushes > f0 && e.flushes > g0, "flush", "Flush did not flush");
}
MC_SPACE(histories, 1) { hist(c, 5); }
MC_SPACE(histories6, 2) { hist(c, 6); }
static void threads(mc::Ctx & c, int nt, int per, int pre) {
    int n = nt * per; bool buffered = c.flag(); std::vector<int> kind(n), owner(n), left;
    for (int i = 0; i < n; i++) kind[i] = c.choose(3);
    // which thread writes which ids (each thread in increasing order), first thread gets id 0
    int used[4] = {0}; for (int i = 0; i < n; i++) { std::vector<int> can; for (int t = 0; t < nt; t++) if (used[t] < per) { can.push_back(t); if (!used[t]) break; } owner[i] = c.pick(can); used[owner[i]]++; }
    bool down = per > 1 && c.flag();    // every thread writes its ids in decreasing order
    std::ostringstream d; d << (buffered ? "buffered" : "unbuffered") << (down ? ", decreasing" : "") << ", sentences"; for (int i = 0; i < n; i++) d << " " << i << ":" << "sobe"[kind[i]] << "@T" << owner[i];
    c.describe(d.str());
    Sink o, e; o.points = e.points = true; std::ostream os(&o), es(&e); OutputCollector oc(&os, &es, buffered);
    vs::run(c, vs::Options(pre), [&]() {
        vs::scope(); vs::scope(&oc, sizeof oc);
        boost::thread_group g;
        for (int t = 0; t < nt; t++) g.create_thread([&, t]() { for (int k = 0; k < n; k++) { int i = down ? n - 1 - k : k; if (owner[i] != t) continue; vs::point("decode"); if (kind[i] == 0) oc.Skip(i); else oc.Write(i, text(i, kind[i], false), text(i, kind[i], true)); } });
        g.join_all();
    });
    std::string wo, we; for (int k = 0; k < n; k++) { wo += text(k, kind[k], false); we += text(k, kind[k], true); }
    CHECK(o.data == wo, "order", "output is " << mc::jstr(o.data) << " instead of " << mc::jstr(wo) << "; schedule: " << vs::vsched_trace());
    CHECK(e.data == we, "order", "error output is " << mc::jstr(e.data) << " instead of " << mc::jstr(we) << "; schedule: " << vs::vsched_trace());
}
MC_SPACE(threads2, 1) { threads(c, 2, 1, 3); }
MC_SPACE(threads2x2, 1) { threads(c, 2, 2, 2); }
MC_SPACE(threads3, 1) { threads(c, 3, 1, 1); }
MC_SPACE(threads2x2_deep, 2) { threads(c, 2, 2, 4); }
MC_SPACE(threads3_deep, 2) { threads(c, 3, 1, 3); }
int main(int argc, char ** argv) { return mc::main(argc, argv); }
