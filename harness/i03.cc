// I03: sparse vectors and maps against ordinary coordinate-wise arithmetic.
#include "mc.h"
#include <travatar/sparse-map.h>
#include <travatar/dict.h>
#include <travatar/global-debug.h>
using namespace travatar; using namespace std;
static int K[6];
static void init() { GlobalVars::debug = 0; for (int i = 0; i < 6; i++) K[i] = Dict::WID(string("k") + char('a' + i)); }
typedef vector<double> V;
static const int N = 4;
static V dense(const SparseVector & v) { V r(N, 0); for (size_t i = 0; i < v.size(); i++) for (int k = 0; k < N; k++) if ((v.begin() + i)->first == K[k]) r[k] += (v.begin() + i)->second; return r; }
static V dense(const SparseMap & v) { V r(N, 0); for (int k = 0; k < N; k++) { SparseMap::const_iterator it = v.find(K[k]); if (it != v.end()) r[k] = it->second; } return r; }
static bool sorted(const SparseVector & v) { for (size_t i = 1; i < v.size(); i++) if (!((v.begin() + i - 1)->first < (v.begin() + i)->first)) return false; return true; }
static string s(const V & v) { ostringstream o; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "(") << v[i]; return o.str() + ")"; }
static string s(const SparseVector & v) { ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (v.begin() + i)->first << ":" << (v.begin() + i)->second << " "; return o.str() + "]"; }
static V add(const V & a, const V & b, double f) { V r(a); for (int i = 0; i < N; i++) r[i] += f * b[i]; return r; }
// a sparse vector, built in ascending order through the list constructor
static SparseVector mk(const V & v) { vector<SparsePair> p; for (int k = 0; k < N; k++) if (v[k] != 0) p.push_back(SparsePair(K[k], v[k])); return SparseVector(p); }
static SparseMap mkm(const V & v) { SparseMap m; for (int k = 0; k < N; k++) if (v[k] != 0) m[K[k]] = v[k]; return m; }
static V pickv(mc::Ctx & c, int dims, int vals) { static const double g[] = {0, 1, -1, 2, -0.5}; V v(N, 0); for (int k = 0; k < dims; k++) v[k] = g[c.choose(vals)]; return v; }
#define SAME(EXPR, EXP, KEY) do { const SparseVector r_ = (EXPR); CHECK(dense(r_) == (EXP) && sorted(r_), KEY, #EXPR << " gives " << s(r_) << " instead of " << s(EXP)); } while (0)
#define SAMEM(EXPR, EXP, KEY) do { const SparseMap r_ = (EXPR); CHECK(dense(r_) == (EXP), KEY, #EXPR << " gives " << s(dense(r_)) << " instead of " << s(EXP)); } while (0)
MC_SPACE(pairs, 3) {
    int dims = c.thorough ? 4 : 3, vals = c.thorough ? 5 : 4; V a = pickv(c, dims, vals), b = pickv(c, dims, vals);
    c.describe(s(a) + " " + s(b));
    const SparseVector va = mk(a), vb = mk(b); const SparseMap ma = mkm(a), mb = mkm(b);
    double dot = 0; for (int i = 0; i < N; i++) dot += a[i] * b[i];
    SAME(va, a, "construct"); SAME(va + vb, add(a, b, 1), "plus"); SAME(va - vb, add(a, b, -1), "minus");
    { SparseVector x = va; x += vb; SAME(x, add(a, b, 1), "plus-assign"); x -= vb; SAME(x, a, "minus-assign-undo"); }
    { SparseVector x = va; x -= vb; SAME(x, add(a, b, -1), "minus-assign"); x += vb; SAME(x, a, "plus-assign-undo"); }
    { SparseVector x = va; x += x; SAME(x, add(a, a, 1), "self-plus"); }
    { SparseVector x = va; x -= x; SAME(x, V(N, 0), "self-minus"); }
    { SparseVector x = va; for (int k = N - 1; k >= 0; k--) x.Add(K[k], b[k]); SAME(x, add(a, b, 1), "add-single"); }
    { SparseVector x; for (int k = 0; k < N; k++) x.Add(K[(k * 3 + 1) % N], a[(k * 3 + 1) % N]); SAME(x, a, "add-single-order"); CHECK(x == va && !(x != va), "equal", "same content compares unequal"); }
    V zero(N, 0);
    SAME(va * 2.0, add(a, a, 1), "scale"); SAME(va * -1.0, add(zero, a, -1), "negate"); SAME(va * 0.0, zero, "scale-zero");
    CHECK(va * vb == dot && vb * va == dot, "dot", "dot product " << va * vb << " instead of " << dot);
    CHECK(ma * mb == dot && mb * ma == dot, "dot-map", "dot product of maps " << ma * mb << " instead of " << dot);
    CHECK(ma * vb == dot && mb * va == dot, "dot-mixed", "mixed dot product " << ma * vb << " instead of " << dot);
    SAMEM(ma + mb, add(a, b, 1), "map-plus"); SAMEM(ma - mb, add(a, b, -1), "map-minus"); SAMEM(ma * 2.0, add(a, a, 1), "map-scale");
    SAMEM(ma + vb, add(a, b, 1), "mixed-plus"); SAMEM(ma - vb, add(a, b, -1), "mixed-minus");
    { SparseMap x = ma; x += mb; SAMEM(x, add(a, b, 1), "map-plus-assign"); x -= mb; SAMEM(x, a, "map-minus-undo"); CHECK(x == ma, "map-equal", "sum minus summand is not equal to the original map"); }
    { SparseMap x = ma; x -= vb; SAMEM(x, add(a, b, -1), "mixed-minus-assign"); x += vb; SAMEM(x, a, "mixed-plus-undo"); }
    CHECK((va == vb) == (a == b) && (va != vb) == (a != b), "equality", "equality of sorted vectors");
    CHECK((ma == mb) == (a == b) && (ma != mb) == (a != b), "map-equality", "equality of maps");
    { SparseVector x = va; SAMEM(x.ToMap(), a, "to-map"); }
    { SparseMap x = ma; NormalizeL1(x); double n = 0; for (int i = 0; i < N; i++) n += fabs(a[i]); V e(a); if (n) for (int i = 0; i < N; i++) e[i] *= 1.0 / n; SAMEM(x, e, "normalize"); }
    { SparseMap x = ma; NormalizeL1(x, 2.5); double n = 0; for (int i = 0; i < N; i++) n += fabs(a[i]); V e(a); if (n) for (int i = 0; i < N; i++) e[i] *= 2.5 / n; SAMEM(x, e, "normalize"); }
    SAME(va, a, "operand-changed"); SAME(vb, b, "operand-changed"); SAMEM(ma, a, "operand-changed"); SAMEM(mb, b, "operand-changed");
}
MC_SPACE(construct, 3) {   // any list of pairs, repeated and unordered keys
    int n = c.choose(c.thorough ? 7 : 6); vector<SparsePair> p; V e(N, 0); string d;
    static const double g[] = {1, -2, 5};
    for (int i = 0; i < n; i++) { int k = c.choose(3); double v = g[c.choose(i < 4 ? 3 : 1)]; p.push_back(SparsePair(K[k], v)); e[k] += v; d += to_string(k) + ":" + to_string((int)v) + " "; }
    c.describe(d);
    SparseVector x(p); SAME(x, e, "construct-list");
    SparseVector y; for (int i = 0; i < n; i++) y.Add(p[i].first, p[i].second); SAME(y, e, "construct-add");
    SparseMap m; m += x; SAMEM(m, e, "construct-map");
}
MC_SPACE(history, 3) {   // operation sequences on one accumulator (explicit zeros arise on the way)
    static const double g[6][4] = {{1, 0, 0, 0}, {0, 1, -1, 0}, {-1, 0, 2, 0}, {0, 0, 1, 1}, {1, 1, 1, 1}, {0, -1, 0, 0}};
    SparseVector x; SparseMap m; V e(N, 0); string d; int n = c.thorough ? 5 : 4;
    for (int i = 0; i < n; i++) {
        int op = c.choose(7); int o = op < 5 ? c.choose(6) : 0; V b(g[o], g[o] + 4); SparseVector vb = mk(b);
        static const char * nm[] = {"+=", "-=", "+", "-", "r-", "*2", "*0"};
        d += string(nm[op]) + to_string(o) + " ";
        if (i == n - 1) c.describe(d);
        switch (op) {
            case 0: x += vb; m += vb; e = add(e, b, 1); break; case 1: x -= vb; m -= vb; e = add(e, b, -1); break;
            case 2: x = x + vb; m = m + vb; e = add(e, b, 1); break; case 3: x = x - vb; m = m - vb; e = add(e, b, -1); break;
            case 4: x = vb - x; m = mkm(b) - m; e = add(b, e, -1); break;
            case 5: x = x * 2; m = m * 2; e = add(e, e, 1); break; case 6: x = x * 0; m = m * 0; e = V(N, 0); break;
        }
        c.step();
        CHECK(dense(x) == e && sorted(x), "history", d << "gives " << s(x) << " instead of " << s(e));
        CHECK(dense(m) == e, "history-map", d << "gives " << s(dense(m)) << " instead of " << s(e));
        double dot = 0; for (int k = 0; k < N; k++) dot += e[k] * g[1][k];
        CHECK(x * mk(V(g[1], g[1] + 4)) == dot && m * x == inner_product(e.begin(), e.end(), e.begin(), 0.0), "history-dot", d << "dot product wrong");
    }
}
int main(int argc, char ** argv) { return mc::main(argc, argv, init); }
