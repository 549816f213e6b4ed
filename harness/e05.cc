// E05: every small arithmetic expression evaluates by the ordinary rules or is rejected.
#include "ev.h"
#include <travatar/math-query.h>
using namespace travatar; using namespace std; using ev::near;
static map<WordId, Real> VARS;
// reference: recursive descent over tokens; ok=false when not an expression
struct RD { const vector<string> & t; size_t i; bool ok; RD(const vector<string> & t_) : t(t_), i(0), ok(true) {}
    string peek() { return i < t.size() ? t[i] : ""; }
    double prim() { string s = peek(); if (s == "(") { i++; double v = sum(); if (peek() == ")") i++; else ok = false; return v; } if (s.empty() || string("+-*/)").find(s[0]) != string::npos) { ok = false; return 0; } i++; return isdigit(s[0]) ? strtod(s.c_str(), 0) : VARS[Dict::WID(s)]; }
    double prod() { double v = prim(); while (ok && (peek() == "*" || peek() == "/")) { bool m = peek() == "*"; i++; double w = prim(); v = m ? v * w : v / w; } return v; }
    double sum() { double v = prod(); while (ok && (peek() == "+" || peek() == "-")) { bool m = peek() == "+"; i++; double w = prod(); v = m ? v + w : v - w; } return v; } };
static void run(mc::Ctx & c, const vector<string> & t, int spaces) {
    string s; int open = 0, depth = 0, nops = 0, nval = 0; bool bal = true; bool glued = false;
    for (size_t i = 0; i < t.size(); i++) {
        bool num = isdigit(t[i][0]); if (i && num && (isdigit(t[i-1][0])) && spaces == 0) glued = true;
        s += (i && spaces ? string(spaces, ' ') : "") + t[i];
        if (t[i] == "(") depth++; else if (t[i] == ")") { if (--depth < 0) bal = false; } else if (string("+-*/").find(t[i][0]) != string::npos) nops++; else nval++;
    }
    (void)open; if (depth) bal = false; if (spaces == 2) s = " " + s + " ";
    c.require(!glued); c.describe("\"" + s + "\""); c.step();
    RD r(t); double want = r.sum(); if (r.i != t.size()) r.ok = false;
    double got = 0; bool thrown = false; try { got = MathQuery::Evaluate(VARS, s); } catch (std::runtime_error &) { thrown = true; }
    if (r.ok) { CHECK(!thrown, "rejected", "a correct expression is rejected"); bool nan = want != want; CHECK(nan ? got != got : near(got, want, 1e-12), "value", "gives " << got << " instead of " << want);
        MathQuery q(s, VARS); double g2 = MathQuery::Evaluate(q), g3 = MathQuery::Evaluate(q); CHECK(nan || (g2 == got && g3 == got), "again", "evaluating again gives " << g2 << ", " << g3);
        ostringstream o; o.precision(17); q.Print(o); double g4 = MathQuery::Evaluate(VARS, o.str()); CHECK(nan || near(g4, got, 1e-12), "printed", "the printed form " << o.str() << " gives " << g4); }
    else { if (!bal) CHECK(thrown, "unbalanced", "unbalanced parentheses are accepted and give " << got); else if (nval && nval != nops + 1) CHECK(thrown, "incomplete", "an expression with " << nval << " operands and " << nops << " operators gives " << got); }
}
MC_SPACE(tokens, 3) {
    static const char * T[] = {"2", "3.5", "A", "B", "+", "-", "*", "/", "(", ")"}; int n = 1 + c.choose(c.thorough ? 7 : 6); vector<string> t; for (int i = 0; i < n; i++) { if (n >= 7) { static const char * U[] = {"3.5", "B", "-", "*", "/", "(", ")"}; t.push_back(U[c.choose(7)]); } else if (n >= 6 && !c.thorough) { static const char * U[] = {"2", "A", "-", "/", "(", ")"}; t.push_back(U[c.choose(6)]); } else t.push_back(T[c.choose(10)]); }
    run(c, t, n <= 4 ? c.choose(3) : 1);
}
// well-formed expressions of every shape: operands joined by operators, every bracketing of depth two
MC_SPACE(chains, 3) {
    int n = 2 + c.choose(c.thorough ? 4 : 3); static const char * V[] = {"7", "A", "0.25", "B", "3", "C"}; vector<vector<string> > part; vector<string> ops; for (int i = 0; i < n; i++) { if (i) ops.push_back(string(1, "+-*/"[c.choose(4)])); }
    int a = c.choose(n), b = a + 1 + c.choose(n - a); int a2 = c.choose(n), b2 = a2 + 1 + c.choose(n - a2); c.require(b2 <= a || b <= a2 || (a <= a2 && b2 <= b)); int sp = c.choose(2);
    vector<string> t; for (int i = 0; i < n; i++) { if (i) t.push_back(ops[i-1]); if (i == a) t.push_back("("); if (i == a2) t.push_back("("); t.push_back(V[i]); if (i + 1 == b2) t.push_back(")"); if (i + 1 == b) t.push_back(")"); }
    run(c, t, sp);
}
MC_SPACE(numbers, 3) {   // digits and dots inside longer expressions, unknown characters
    static const char * D = "0129.5"; string s; int n = 1 + c.choose(4); s += D[c.choose(4)]; bool dot = false; for (int i = 1; i < n; i++) { char ch = D[c.choose(6)]; if (ch == '.') { c.require(!dot && i + 1 < n); dot = true; } s += ch; } vector<string> t; if (c.flag()) { t.push_back("A"); t.push_back("*"); } t.push_back(s); if (c.flag()) { t.push_back("-"); t.push_back("B"); } run(c, t, c.choose(2));
}
MC_SPACE(unknown, 3) {
    static const char * X[] = {"a", "D", "^", "%", "&", ",", "\t", "=", "_"}; static const char * P[] = {"", "1", "A+", "(", "2*"}; static const char * Q[] = {"", "+1", ")", " "}; string s = string(P[c.choose(5)]) + X[c.choose(9)] + Q[c.choose(4)]; c.describe("\"" + s + "\"");
    bool thrown = false; try { MathQuery::Evaluate(VARS, s); } catch (std::runtime_error &) { thrown = true; } CHECK(thrown, "unknown", "unknown characters or variables are accepted");
}
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { ev::init(); VARS[Dict::WID("A")] = 0.125; VARS[Dict::WID("B")] = 5; VARS[Dict::WID("C")] = 0; }); }
