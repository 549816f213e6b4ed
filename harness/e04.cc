// E04: score statistics form a vector space, are independent when copied and survive saving.
#include "ev.h"
using namespace travatar; using namespace std; using ev::near;
struct Part { string conf; double coef; char var; };
struct Meas { string conf; vector<Part> parts; string expr; };
static vector<Meas> MS; static vector<pair<Sentence, Sentence> > PR;
static EvalMeasure & M(const string & s) {
    static map<string, EvalMeasure*> m; EvalMeasure *& e = m[s];
    if (!e) { e = EvalMeasureLoader::CreateMeasureFromString(s); vector<vector<Sentence> > refs; for (size_t i = 0; i < PR.size(); i++) refs.push_back(vector<Sentence>(1, PR[i].first)); e->InitializeWithReferences(refs); } return *e; }
static Sentence S(const char * t) { Sentence s; for (; *t; t++) s.push_back(ev::words()[*t - 'a']); return s; }
static void init() {
    ev::init();
    PR.push_back(make_pair(S("abc"), S("abd"))); PR.push_back(make_pair(S("ab"), S("ab"))); PR.push_back(make_pair(S("aabb"), S("babac")));
    const char * simple[] = {"bleu:order=2", "bleu:order=2,smooth=1", "bleu:order=2,scope=sentence,smooth=1", "ribes", "nist:order=1", "nist:order=1,scope=sentence", "ter", "wer:reverse=true", "wer", "ter:inverse=true", "zeroone"};
    for (int i = 0; i < 11; i++) { Meas m; m.conf = simple[i]; Part p = {simple[i], 1, 'A'}; m.parts.push_back(p); MS.push_back(m); }
    const char * ip[][2] = {{"bleu:order=2,smooth=1", "ribes"}, {"wer:reverse=true", "ter"}, {"zeroone", "bleu:order=1"}};
    double w[][2] = {{0.4, 0.6}, {2, 1}, {0.25, 0.25}};
    for (int i = 0; i < 3; i++) { Meas m; ostringstream o; o << "interp:" << w[i][0] << "|" << ip[i][0] << "|" << w[i][1] << "|" << ip[i][1]; m.conf = o.str(); for (int k = 0; k < 2; k++) { Part p = {ip[i][k], w[i][k], 'A'}; m.parts.push_back(p); } m.expr = "interp"; MS.push_back(m); }
    for (int i = 0; i < 3; i++) { Meas m; string e[] = {"2*A*B/(A+B+1)", "A-B*0.5", "(A+B)/2"}; m.conf = string("ainterp:A|") + ip[i][0] + "|B|" + ip[i][1] + "|" + e[i]; for (int k = 0; k < 2; k++) { Part p = {ip[i][k], 1, (char)('A' + k)}; m.parts.push_back(p); } m.expr = e[i]; MS.push_back(m); }
}
static string txt(const vector<double> & v) { ostringstream o; o.precision(17); for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; return o.str(); }
// the value of a linear combination, from the parts alone
static double score(const Meas & m, const vector<double> & co, vector<vector<double> > * vals = 0) {
    vector<double> s; for (size_t k = 0; k < m.parts.size(); k++) {
        EvalMeasure & p = M(m.parts[k].conf); vector<double> v; for (size_t i = 0; i < PR.size(); i++) { vector<double> x = p.CalculateStats(PR[i].first, PR[i].second)->GetVals(); v.resize(x.size()); for (size_t j = 0; j < x.size(); j++) v[j] += co[i] * x[j]; }
        if (vals) vals->push_back(v); s.push_back(p.ReadStats(txt(v))->ConvertToScore());
    }
    if (m.expr == "") return s[0]; double A = s[0], B = s[1]; if (m.expr == "interp") return (A * m.parts[0].coef + B * m.parts[1].coef) / (m.parts[0].coef + m.parts[1].coef);
    return m.expr[0] == '2' ? 2 * A * B / (A + B + 1) : m.expr[0] == 'A' ? A - B * 0.5 : (A + B) / 2;
}
static bool ok(double x) { return x == x && fabs(x) < 1e100; }
static void compare(mc::Ctx & c, const Meas & m, EvalStats & st, const vector<double> & co, const char * what) {
    vector<vector<double> > v; double want = 0; bool thrown = false; try { want = score(m, co, &v); } catch (std::runtime_error &) { thrown = true; }
    if (m.parts.size() == 1) { const vector<double> & g = st.GetVals(); if (g.empty() && !co[0] && !co[1] && !co[2]) return; CHECK(g.size() == v[0].size(), string(what) + "-size", "statistics have " << g.size() << " entries"); for (size_t i = 0; i < g.size(); i++) CHECK(near(g[i], v[0][i], 1e-12), string(what) + "-vals", m.conf << ": entry " << i << " is " << g[i] << " instead of " << v[0][i]); }
    if (thrown || !ok(want)) return;
    double got = st.ConvertToScore(); CHECK(near(got, want), string(what) + "-score", m.conf << ": score " << got << " instead of " << want);
    bool zero = true; for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < v[k].size(); i++) if (v[k][i]) zero = false;
    if (zero || fabs(co[0]) + fabs(co[1]) + fabs(co[2]) > 0) CHECK(st.IsZero() == zero, string(what) + "-iszero", m.conf << ": IsZero says " << st.IsZero());
}
MC_SPACE(ops, 3) {
    int mi = c.choose(MS.size()); const Meas & m = MS[mi]; int n = c.thorough ? 5 : 4; string d = m.conf + ":"; vector<int> hist;
    int first = c.choose(mi == 0 || mi == 1 || mi == 4 ? 3 : 2); if (first == 2) n--; for (int i = 0; i < n; i++) hist.push_back(c.choose(first == 2 ? 12 : 11));   // 2: from nothing (sums of corpus BLEU and NIST may start empty) for (int i = 0; i < n; i++) d += " " + to_string(hist[i]); c.describe(d + " from " + to_string(first));
    EvalMeasure & me = M(m.conf); vector<double> co(3, 0.0); EvalStatsPtr cur; if (first < 2) { co[first] = 1; cur = me.CalculateStats(PR[first].first, PR[first].second); } else cur = me.ReadStats(""); vector<EvalStatsPtr> keep; vector<vector<double> > keepco;
    for (int i = 0; i < n; i++) {
        int op = hist[i]; c.step(); EvalStatsPtr before = cur; vector<double> bco = co;
        if (op < 3) { EvalStatsPtr x = me.CalculateStats(PR[op].first, PR[op].second); string xs = x->WriteStats(); cur->PlusEquals(*x); co[op] += 1; CHECK(x->WriteStats() == xs, "operand", "adding changed the added statistics"); }
        else if (op == 3) { EvalStatsPtr x = me.CalculateStats(PR[2].first, PR[2].second); cur = cur->Plus(*x); co[2] += 1; keep.push_back(before); keepco.push_back(bco); }
        else if (op == 4) { cur->TimesEquals(0.5); for (int k = 0; k < 3; k++) co[k] *= .5; }
        else if (op == 5) { cur = cur->Times(2); for (int k = 0; k < 3; k++) co[k] *= 2; keep.push_back(before); keepco.push_back(bco); }
        else if (op == 6) { cur->PlusEqualsTimes(*me.CalculateStats(PR[2].first, PR[2].second), 0.25); co[2] += .25; }
        else if (op == 7) { cur->PlusEquals(*me.CalculateStats(PR[0].first, PR[0].second)->Times(-1)); co[0] -= 1; }
        else if (op == 8) { EvalStatsPtr cl = cur->Clone(); cl->PlusEquals(*me.CalculateStats(PR[1].first, PR[1].second)); }          // changing a copy leaves this alone
        else if (op == 9) { keep.push_back(cur); keepco.push_back(co); cur = cur->Clone(); }
        else if (op == 11) { EvalStatsPtr x = me.ReadStats(""); cur->PlusEquals(*x); cur->PlusEqualsTimes(*x, 3); }   // nothing
        else { if (m.parts.size() == 1 && cur->GetVals().empty()) continue; EvalStatsPtr again = me.ReadStats(cur->WriteStats()); double a = 0, b = 0; try { a = cur->ConvertToScore(); b = again->ConvertToScore(); } catch (std::runtime_error &) { continue; } if (ok(a)) CHECK(near(a, b, 3e-5) || fabs(a) > 100, "saved", m.conf << ": saved statistics score " << b << " instead of " << a); CHECK(again->WriteStats() == cur->WriteStats(), "saved", "saved statistics change when saved again"); }
        compare(c, m, *cur, co, "sum");
    }
    for (size_t i = 0; i < keep.size(); i++) compare(c, m, *keep[i], keepco[i], "independent");
    if (m.parts.size() == 1 && cur->GetVals().empty()) return;
    try { cur->ConvertToScore(); } catch (std::runtime_error &) { return; }   // more matches than words: no score
    EvalStatsPtr cl = cur->Clone(); CHECK(cl->Equals(*cur) && cur->Equals(*cl), "equals", "a copy is not equal"); CHECK(cl->GetIdString() == cur->GetIdString() && cl->ConvertToString() == cur->ConvertToString(), "clone-report", "a copy reports " << cl->ConvertToString());
    cl->PlusEquals(*me.CalculateStats(PR[2].first, PR[2].second)); if (m.conf != "zeroone") CHECK(!cl->Equals(*cur), "equals", "different statistics are equal");
}
// factored sentences: every part looks only at its own factor
MC_SPACE(factors, 3) {
    const char * base[] = {"bleu:order=2", "ribes:alpha=0.5", "ter:inverse=true", "wer:reverse=true"}; int a = c.choose(4), b = c.choose(4), fa = c.choose(2), fb = c.choose(2), kind = c.choose(3);
    int k = c.thorough ? 3 : 2; vector<Sentence> ref, sys; for (int f = 0; f < 2; f++) { ref.push_back(c.pick(ev::all(1, 2, k))); sys.push_back(c.pick(ev::all(0, 2, k))); }
    string ca = string(base[a]) + ",factor=" + to_string(fa), cb = string(base[b]) + ",factor=" + to_string(fb), conf = kind == 0 ? ca : kind == 1 ? "interp:1|" + ca + "|3|" + cb : "ainterp:A|" + ca + "|B|" + cb + "|A-B";
    c.describe(conf + " " + ev::str(ref[0]) + ev::str(ref[1]) + " / " + ev::str(sys[0]) + ev::str(sys[1]));
    double x = M(base[a]).CalculateStats(ref[fa], sys[fa])->ConvertToScore(), y = M(base[b]).CalculateStats(ref[fb], sys[fb])->ConvertToScore(), want = kind == 0 ? x : kind == 1 ? (x + 3 * y) / 4 : x - y;
    EvalMeasure & m = M(conf); double g1 = m.CalculateCachedStats(ref, sys)->ConvertToScore(); CfgDataVector cv; for (int f = 0; f < 2; f++) cv.push_back(CfgData(sys[f])); double g2 = m.CalculateCachedStats(ref, cv)->ConvertToScore(); c.step(2);
    CHECK(near(g1, want) && near(g2, want), "factor", g1 << " and " << g2 << " instead of " << want);
}
// the sum of sentence statistics does not depend on order or grouping
MC_SPACE(grouping, 3) {
    const Meas & m = MS[c.choose(MS.size())]; int k = c.thorough ? 5 : 4; vector<int> id; string d = m.conf; for (int i = 0; i < k; i++) { id.push_back(c.choose(3)); d += " " + to_string(id[i]); } int shape = c.choose(3); c.describe(d + " shape " + to_string(shape));
    EvalMeasure & me = M(m.conf); vector<double> co(3, 0.0); vector<EvalStatsPtr> v; for (int i = 0; i < k; i++) { v.push_back(me.CalculateStats(PR[id[i]].first, PR[id[i]].second)); co[id[i]]++; }
    EvalStatsPtr s; if (shape == 0) { s = v[0]; for (int i = 1; i < k; i++) s = s->Plus(*v[i]); } else if (shape == 1) { s = v[k-1]; for (int i = k - 2; i >= 0; i--) s = v[i]->Plus(*s); } else { s = v[0]->Plus(*v[1]); EvalStatsPtr t = v[2]; for (int i = 3; i < k; i++) t->PlusEquals(*v[i]); s->PlusEquals(*t); }
    compare(c, m, *s, co, "grouping");
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
