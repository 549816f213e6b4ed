// C03: the vocabulary (symbol table)
#include "vsched.h"
#include <travatar/symbol-set.h>
#include <travatar/dict.h>
using namespace travatar;
typedef SymbolSet<int> Set;
static const char * W[] = {"a", "b", "", "a b"};

// all histories against a map; also copies and saving
MC_SPACE(histories, 3) {
    bool safe = c.flag(); int n = c.range(1, c.thorough ? 6 : 5), nw = c.thorough && n < 6 ? 4 : 3;
    std::vector<int> op(n), arg(n); std::ostringstream d; d << (safe ? "locked" : "unlocked");
    for (int i = 0; i < n; i++) { op[i] = c.choose(2); arg[i] = c.choose(nw); d << (op[i] ? " add(" : " find(") << W[arg[i]] << ")"; }
    c.describe(d.str());
    Set s(safe); std::map<std::string, int> m; std::vector<std::string> v;
    for (int i = 0; i < n; i++) {
        std::string w = W[arg[i]]; int want = m.count(w) ? m[w] : -1;
        if (op[i] && want < 0) { want = m[w] = v.size(); v.push_back(w); }
        int got = op[i] ? s.GetId(w, true) : i % 2 ? s.GetId(w, false) : ((const Set &)s).GetId(w);
        CHECK(got == want, "id", "step " << i << " returned id " << got << " instead of " << want);
        CHECK(s.size() == v.size(), "size", "the table has " << s.size() << " entries instead of " << v.size() << " after step " << i);
        for (size_t k = 0; k < v.size(); k++) CHECK(s.GetSymbol(k) == v[k], "symbol", "id " << k << " maps back to '" << s.GetSymbol(k) << "' instead of '" << v[k] << "'");
        c.step(); std::string st; for (size_t k = 0; k < v.size(); k++) st += v[k] + "|"; c.state(st);
    }
    Set t(s); int extra = t.GetId("zz", true); CHECK(extra == (int)v.size() && s.GetId("zz") == -1 && s.size() == v.size(), "copy", "changing a copy changed the original, or the copy lost entries");
    for (size_t k = 0; k < v.size(); k++) CHECK(t.GetSymbol(k) == v[k] && t.GetId(v[k]) == (int)k, "copy", "the copy maps id " << k << " to '" << t.GetSymbol(k) << "'");
    std::ostringstream o; s.ToStream(o); std::istringstream in(o.str() + "rest\n"); Set * r = Set::FromStream(in); std::string rest; getline(in, rest);
    CHECK(rest == "rest" && r->size() == v.size(), "save", "reading a saved table back consumed the wrong amount");
    for (size_t k = 0; k < v.size(); k++) CHECK(r->GetSymbol(k) == v[k] && r->GetId(v[k]) == (int)k, "save", "the saved table maps id " << k << " to '" << r->GetSymbol(k) << "'");
    delete r;
}
struct Op { int kind, w; };                // 0 add, 1 find, 2 id->symbol of what this thread or the preparation interned
static void conc(mc::Ctx & c, int nt, int per, int pre, bool dict) {
    int prepared = c.choose(2); std::vector<std::vector<Op> > ops(nt); std::ostringstream d; d << (dict ? "dictionary" : "table") << (prepared ? " holding a" : " empty");
    int code[4];
    for (int t = 0; t < nt; t++) { d << " / T" << t; code[t] = 0; for (int i = 0; i < per; i++) { Op o; int k = c.choose(dict ? 3 : 5); o.kind = dict ? (k == 2 ? 2 : 0) : k == 4 ? 2 : k / 2; o.w = k < 4 ? k % 2 : 0; code[t] = code[t] * 8 + k; ops[t].push_back(o); d << (o.kind == 0 ? " add " : o.kind == 1 ? " find " : " symbol ") << (o.kind == 2 ? "" : W[o.w]); } c.require(t == 0 || code[t - 1] <= code[t]); }
    c.describe(d.str());
    static int fresh = 0; std::string pfx; if (dict) { std::ostringstream p; p << "c03." << getpid() << "." << fresh++ << "."; pfx = p.str(); }
    Set set(true); Set * s = &set;
    std::string name[2] = {pfx + "a", pfx + "b"}; int base = dict ? -1 : 0;
    std::vector<std::vector<int> > res(nt, std::vector<int>(per, -9)); std::vector<std::vector<std::string> > sym(nt, std::vector<std::string>(per));
    std::vector<std::vector<long> > t0(nt, std::vector<long>(per)), t1 = t0; long clock = 0;
    int aid = -1; if (prepared) aid = dict ? Dict::WID(name[0]) : s->GetId(name[0], true);
    vs::run(c, vs::Options(pre), [&]() {
        if (!dict) { vs::scope(); vs::scope(s, sizeof *s); }
        boost::thread_group g;
        for (int t = 0; t < nt; t++) g.create_thread([&, t]() {
            int known = aid; 
            for (int i = 0; i < per; i++) {
                const Op & o = ops[t][i]; { vs::Quiet q; t0[t][i] = ++clock; }
                int r = -9; 
                if (o.kind == 0) { r = dict ? Dict::WID(name[o.w]) : s->GetId(name[o.w], true); known = r; }
                else if (o.kind == 1) r = s->GetId(name[o.w], false);
                else if (known >= 0) { r = known; const std::string & x = dict ? Dict::WSym(known) : s->GetSymbol(known); std::string y(x); vs::Quiet q; sym[t][i] = y; }
                vs::Quiet q; res[t][i] = r; t1[t][i] = ++clock;
            } });
        g.join_all();
    });
    (void)base;
    std::string out; int id[2] = {-1, -1};
    for (int w = 0; w < 2; w++) { bool added = w == 0 && prepared; for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) if (ops[t][i].kind == 0 && ops[t][i].w == w) added = true;
        if (added) id[w] = dict ? Dict::WID(name[w]) : s->GetId(name[w], false);
        if (!dict) CHECK(added == (s->GetId(name[w], false) >= 0), "entry", "the table " << (added ? "lost" : "invented") << " '" << name[w] << "'; schedule: " << vs::vsched_trace());
        if (added) { std::string b = dict ? Dict::WSym(id[w]) : s->GetSymbol(id[w]); CHECK(b == name[w], "symbol", "id " << id[w] << " of '" << name[w] << "' maps back to '" << b << "'; schedule: " << vs::vsched_trace()); } }
    CHECK(id[0] < 0 || id[0] != id[1], "distinct", "both words have id " << id[0] << "; schedule: " << vs::vsched_trace());
    if (!dict) CHECK((int)s->size() == (id[0] >= 0) + (id[1] >= 0), "size", "the table has " << s->size() << " entries; schedule: " << vs::vsched_trace());
    for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) {
        const Op & o = ops[t][i]; int r = res[t][i];
        if (o.kind == 0) CHECK(r == id[o.w], "id", "T" << t << " got id " << r << " for '" << name[o.w] << "', later it is " << id[o.w] << "; schedule: " << vs::vsched_trace());
        if (o.kind == 1) {
            CHECK(r == -1 || r == id[o.w], "id", "T" << t << " found id " << r << " for '" << name[o.w] << "', later it is " << id[o.w] << "; schedule: " << vs::vsched_trace());
            bool before = o.w == 0 && prepared, possible = before;
            for (int u = 0; u < nt; u++) for (int j = 0; j < per; j++) if (ops[u][j].kind == 0 && ops[u][j].w == o.w) { if (t1[u][j] < t0[t][i]) before = true; if (t0[u][j] < t1[t][i]) possible = true; }
            CHECK(!before || r >= 0, "missed", "T" << t << " did not find '" << name[o.w] << "' although it had been added; schedule: " << vs::vsched_trace());
            CHECK(possible || r < 0, "early", "T" << t << " found '" << name[o.w] << "' before anybody added it");
        }
        if (o.kind == 2 && r >= 0) CHECK((r == id[0] && sym[t][i] == name[0]) || (r == id[1] && sym[t][i] == name[1]), "symbol", "T" << t << ": id " << r << " maps to '" << sym[t][i] << "'; schedule: " << vs::vsched_trace());
        out += char('0' + (dict ? (r == id[0]) : r + 1));
    }
    c.state(d.str() + out);
}
MC_SPACE(threads2, 1) { conc(c, 2, 1, 2, false); }
MC_SPACE(threads2x2, 1) { conc(c, 2, 2, 1, false); }
MC_SPACE(dict2, 1) { conc(c, 2, 1, 2, true); }
MC_SPACE(threads3, 1) { conc(c, 3, 1, 1, false); }
MC_SPACE(threads2_deep, 2) { conc(c, 2, 1, 4, false); }
MC_SPACE(threads2x2_deep, 2) { conc(c, 2, 2, 3, false); }
MC_SPACE(dict2_deep, 2) { conc(c, 2, 2, 2, true); }
MC_SPACE(threads3_deep, 2) { conc(c, 3, 1, 2, false); }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { Dict::WID("x"); }); }
