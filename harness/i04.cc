// I04: command lines and configuration files
#define RUN_CATCH_EXIT
#include "run.h"
#include <travatar/global-debug.h>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
using namespace std; using namespace travatar;
struct Conf : ConfigBase { Conf(int mn = 0, int mx = 255) { minArgs_ = mn; maxArgs_ = mx; SetUsage("u"); AddConfigEntry("i", "7", "an integer"); AddConfigEntry("r", "0.5", "a real"); AddConfigEntry("b", "false", "a flag"); AddConfigEntry("s", "", "a string"); AddConfigEntry("l", "", "a list"); AddConfigEntry("ii", "1", "an integer"); } };
struct Spec { map<string, string> v; vector<string> args; bool bad; Spec() : bad(false) { v["i"] = "7"; v["r"] = "0.5"; v["b"] = "false"; v["s"] = ""; v["l"] = ""; v["ii"] = "1"; } };
static bool option(const string & t) { return t.size() && t[0] == '-' && !(t.size() > 1 && (isdigit(t[1]) || t[1] == '.')); }
static void line(Spec & s, const vector<string> & t) { for (size_t i = 0; i < t.size() && !s.bad; i++) { if (t[i].empty() || t[i][0] != '-') { s.args.push_back(t[i]); continue; } string n = t[i].substr(1); if (!s.v.count(n)) { s.bad = true; break; } if (i + 1 < t.size() && !option(t[i + 1])) s.v[n] = t[++i]; else s.v[n] = "true"; } }
static void file(Spec & s, const vector<string> & l) { for (size_t i = 0; i < l.size(); i++) { if (l[i].empty() || l[i][0] == '#') continue; if (l[i].size() < 3 || l[i][0] != '[' || l[i][l[i].size() - 1] != ']') { s.bad = true; return; } string n = l[i].substr(1, l[i].size() - 2), v; bool any = false; while (++i < l.size() && !l[i].empty()) { v += (any ? " " : "") + l[i]; any = true; } if (!any || !s.v.count(n)) { s.bad = true; return; } s.v[n] = v; } }
// numbers by grammar; 1 yes, 0 no, -1 undecided (leading space)
static int isint(const string & s) { if (s.size() && isspace(s[0])) return -1; size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t d = i; while (i < s.size() && isdigit(s[i])) i++; if (i == d || i < s.size()) return 0; double x = 0; for (size_t k = d; k < s.size(); k++) x = x * 10 + (s[k] - '0'); if (s[0] == '-') x = -x; return x >= INT_MIN && x <= INT_MAX; }
static int isreal(const string & s) { if (s.size() && isspace(s[0])) return -1; if (s.find_first_of("xX") != string::npos) return -1; size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; int d = 0; while (i < s.size() && isdigit(s[i])) i++, d++; if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) i++, d++; } if (!d) return 0; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; size_t e = i; while (i < s.size() && isdigit(s[i])) i++; if (i == e) return 0; } return i == s.size(); }
static string join(const vector<string> & t) { string r; for (size_t i = 0; i < t.size(); i++) r += (i ? " " : "") + ("'" + t[i] + "'"); return r; }
enum { OK, EXIT, THROW }; 
template<class F> int outcome(F f) { volatile int r = OK; run::Capture cap; int code = run::guarded([&]() { try { f(); } catch (exception & e) { r = THROW; } }); if (code) return EXIT; return r; }
static vector<string> bars(const string & s) { vector<string> r; if (s.empty()) return r; r.push_back(""); for (size_t i = 0; i < s.size(); i++) if (s[i] == '|' || s[i] == ' ') r.push_back(""); else r.back() += s[i]; return r; }
static void values(mc::Ctx & c, const Conf & f, const Spec & s) {
    for (map<string, string>::const_iterator i = s.v.begin(); i != s.v.end(); ++i) { const string & n = i->first, & v = i->second; CHECK(f.GetString(n) == v, "string", "-" << n << " is '" << f.GetString(n) << "' instead of '" << v << "'"); CHECK(f.GetStringArray(n) == bars(v), "list", "-" << n << " '" << v << "' splits into " << join(f.GetStringArray(n))); c.step(); }
    static const char * N[] = {"i", "ii"}; for (int k = 0; k < 2; k++) { string v = s.v.at(N[k]); int want = isint(v), got = 0, o = outcome([&]() { got = f.GetInt(N[k]); }); if (want >= 0) CHECK((o == OK) == (want == 1), "integer", "'" << v << "' is " << (o == OK ? "accepted as integer " + to_string(got) : "rejected as an integer")); if (o == OK && want == 1) CHECK(got == (int)strtol(v.c_str(), 0, 10), "integer", "'" << v << "' is read as " << got); }
    { string v = s.v.at("r"); int want = isreal(v), o; double got = 0; o = outcome([&]() { got = f.GetReal("r"); }); if (want >= 0) CHECK((o == OK) == (want == 1), "real", "'" << v << "' is " << (o == OK ? "accepted as a number " + to_string(got) : "rejected as a number")); if (o == OK && want == 1) CHECK(got == strtod(v.c_str(), 0), "real", "'" << v << "' is read as " << got); }
    { string v = s.v.at("b"); bool got = false; int o = outcome([&]() { got = f.GetBool("b"); }); CHECK((o == OK) == (v == "true" || v == "false"), "flag", "'" << v << "' " << (o == OK ? "accepted" : "rejected") << " as a flag"); if (o == OK) CHECK(got == (v == "true"), "flag", "'" << v << "' is read as " << got); }
    { vector<string> p = bars(s.v.at("l")); bool ok = true; for (size_t i = 0; i < p.size(); i++) ok = ok && isint(p[i]) == 1; vector<int> got; int o = outcome([&]() { got = f.GetIntArray("l"); }); CHECK((o == OK) == ok, "integers", "'" << s.v.at("l") << "' " << (o == OK ? "accepted" : "rejected") << " as integers"); if (o == OK) { CHECK(got.size() == p.size(), "integers", "wrong number"); for (size_t i = 0; i < p.size(); i++) CHECK(got[i] == atoi(p[i].c_str()), "integers", "'" << p[i] << "' is read as " << got[i]); } }
    { int o = outcome([&]() { f.GetString("zz"); }); CHECK(o == THROW, "undeclared", "an undeclared option has a value"); }
}
static int load(Conf & f, const vector<string> & t, bool print = false) { vector<string> a(1, "prog"); a.insert(a.end(), t.begin(), t.end()); vector<char *> p; for (size_t i = 0; i < a.size(); i++) p.push_back(const_cast<char *>(a[i].c_str())); p.push_back(0); return outcome([&]() { f.LoadConfig(a.size(), &p[0], print); }); }
static const char * TOK[] = {"-i", "-r", "-b", "-s", "-l", "-ii", "-x", "5", "-3", "w", "true", "a|b c", "", "-.5", "-"};
MC_SPACE(command_lines, 3) {
    int n = c.choose(c.thorough ? 6 : 5), mn = c.choose(3), mx = mn + c.choose(2); if (mn == 2) { mn = 0; mx = 255; } vector<string> t; for (int i = 0; i < n; i++) t.push_back(TOK[c.choose(n == 5 ? 13 : 15)]); c.describe([&]() { return join(t) + ", " + to_string(mn) + "-" + to_string(mx) + " arguments"; });
    Spec s; line(s, t); bool bad = s.bad || (int)s.args.size() < mn || (int)s.args.size() > mx; Conf f(mn, mx); int o = load(f, t, n % 2); CHECK((o == OK) == !bad, "accept", (o == OK ? "accepted" : "rejected")); if (bad) return; values(c, f, s); CHECK(f.GetMainArgs() == s.args, "arguments", "arguments are " << join(f.GetMainArgs())); for (size_t i = 0; i < s.args.size(); i++) CHECK(f.GetMainArg(i) == s.args[i], "arguments", "argument " << i); int q = outcome([&]() { f.GetMainArg(s.args.size()); }); CHECK(q == THROW, "arguments", "an argument beyond the last"); c.state(join(f.GetMainArgs()) + f.GetString("i") + f.GetString("s"));
}
MC_SPACE(numbers, 3) {
    static const char A[] = {'1', '0', '-', '+', '.', 'e', 'x', ' ', '9'}; int n = c.choose(c.thorough ? 7 : 6); string v; for (int i = 0; i < n; i++) v += A[c.choose(n > 4 ? 7 : 9)]; static const char * X[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "00000", "1e10", "1e-3", "0.00", "0000000000000000000000000001"}; if (n == 0) { int k = c.choose(11); if (k) v = X[k - 1]; }
    c.describe("'" + v + "'"); Spec s; s.v["i"] = s.v["r"] = s.v["l"] = s.v["ii"] = v; Conf f; static const char * N[] = {"i", "r", "l", "ii"}; for (int k = 0; k < 4; k++) f.SetString(N[k], v); values(c, f, s);
}
MC_SPACE(files, 3) {
    static const char * L[] = {"[i]", "[s]", "", "#c", "5", "v w", "[x]", "[]", "[s", "-3", "[ii]"}; int n = c.choose(c.thorough ? 7 : 6); vector<string> l; string text; for (int i = 0; i < n; i++) l.push_back(L[c.choose(n == 6 ? 8 : 11)]); bool nl = c.flag(); for (int i = 0; i < n; i++) text += l[i] + (i + 1 < n || nl ? "\n" : ""); if (!nl) c.require(n && !l[n - 1].empty());
    c.describe([&]() { return join(l); }); Spec s; file(s, l); Conf f; string p = run::put("conf", text); int o = outcome([&]() { f.LoadConfig(p); }); CHECK((o == OK) == !s.bad, "file", (o == OK ? "accepted" : "rejected")); if (!s.bad) values(c, f, s);
}
// first the command line names the file, then the file is read, then the command line again
MC_SPACE(overrides, 3) {
    static const char * L[] = {"[i]\n3\n\n", "[s]\nfile\n", "[b]\ntrue\n\n", "[l]\n1\n2\n\n", "#\n[r]\n2.5\n\n"}; static const char * A[] = {"-i 4", "-s cmd", "-b", "-l 9", "-b false", "-r -1"}; int fm = c.choose(32), am = c.choose(64); string text; vector<string> lines, t; for (int k = 0; k < 5; k++) if (fm >> k & 1) { text += L[k]; if (k == 1) text += "\n"; } for (int k = 0; k < 6; k++) if (am >> k & 1) { vector<string> x = run::split(A[k], ' '); t.insert(t.end(), x.begin(), x.end()); } lines = run::lines(text); c.describe(join(lines) + " and " + join(t));
    Spec s; file(s, lines); line(s, t); Conf f(0, 0); string p = run::put("conf", text); CHECK(load(f, t) == OK, "accept", "rejected"); int o = outcome([&]() { f.LoadConfig(p); }); CHECK(o == OK, "accept", "file rejected"); CHECK(load(f, t, true) == OK, "accept", "rejected"); values(c, f, s);
}
MC_SPACE(setters, 3) {
    static const double R[] = {0, 1, -2.5, 0.1, 1e-9, 123456789.125, 1.0 / 3, -0.0, 1e300, 5e-324}; static const int I[] = {0, 1, -1, INT_MAX, INT_MIN, 10}; int h = c.choose(10); Conf f; double r = R[h]; int i = I[h % 6]; bool b = h & 1; c.describe(to_string(r)); f.SetReal("r", r); f.SetInt("i", i); f.SetBool("b", b); c.step(); int gi = 0; bool gb = !b; double gr = 7; int o = outcome([&]() { gi = f.GetInt("i"); gb = f.GetBool("b"); gr = f.GetReal("r"); }); CHECK(o == OK && gi == i && gb == b && gr == r, "setter", "set " << i << " " << b << " " << r << ", read " << gi << " " << gb << " " << gr); o = outcome([&]() { f.SetString("x", ""); }); CHECK(o == THROW, "setter", "an undeclared option was set");
}
int main(int argc, char ** argv) { GlobalVars::debug = 0; return mc::main(argc, argv); }
