// I02: words, rule sides, features, alignments and their texts
#include "mc.h"
#include <travatar/dict.h>
#include <travatar/cfg-data.h>
#include <travatar/string-util.h>
#include <travatar/io-util.h>
#include <travatar/alignment.h>
#include <travatar/sparse-map.h>
#include <travatar/translation-rule-hiero.h>
#include <travatar/hyper-graph.h>
#include <travatar/global-debug.h>
using namespace std; using namespace travatar;
static const char * WD[] = {"a", "\"", "\\", "x0", "x1:X", "@", "|||", "\"a\"", "a\"", "|COL", "\xe3\x81\x82", "=", "-1", "\\\"", "|||x", "\"\""};
static const int NW = sizeof WD / sizeof *WD;
static const char * LB[] = {"X", "NP^g", "@", "x0", "\"X\"", "X:Y", "|||"};
static vector<string> split(const string & s) { vector<string> v; string x; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == ' ') { if (!x.empty()) v.push_back(x); x.clear(); } else x += s[i]; return v; }
static string show(const CfgData & d) { ostringstream o; for (size_t i = 0; i < d.words.size(); i++) { if (d.words[i] < 0) { o << "$" << -1 - d.words[i]; WordId s = d.GetSym(-1 - d.words[i]); if (s != -1) o << ":" << Dict::WSym(s); } else o << "'" << Dict::WSym(d.words[i]) << "'"; o << " "; } if (d.label != -1) o << "@" << Dict::WSym(d.label); return o.str(); }
MC_SPACE(words, 3) {
    int cols = c.range(1, 3), n = 0; vector<vector<string> > w(cols); CfgDataVector v(cols); string text; for (int k = 0; k < cols; k++) { int m = c.range(0, cols == 1 ? 4 : cols == 2 ? 2 : 1); for (int i = 0; i < m; i++, n++) w[k].push_back(WD[c.choose(NW)]); if (k) text += " |COL| "; for (size_t i = 0; i < w[k].size(); i++) { text += (i ? " " : "") + w[k][i]; v[k].words.push_back(Dict::WID(w[k][i])); } }
    c.describe(text); c.state(text); string got = cols == 1 ? Dict::PrintWords(v[0].words) : Dict::PrintWords(v); CHECK(got == text, "print", "printed as " << got); c.step(); vector<Sentence> r = Dict::ParseWordVector(got); CHECK((int)r.size() == cols, "columns", r.size() << " columns are read back"); for (int k = 0; k < cols; k++) CHECK(r[k] == v[k].words, "words", "column " << k << " is read back as " << Dict::PrintWords(r[k])); if (cols == 1) CHECK(Dict::ParseWords("  " + got + " \t") == v[0].words, "words", "surrounding blanks change the words"); for (int k = 0; k < cols; k++) for (size_t i = 0; i < w[k].size(); i++) CHECK(Dict::WSym(v[k].words[i]) == w[k][i], "symbol", "word " << w[k][i] << " comes back as " << Dict::WSym(v[k].words[i]));
}
// rule sides
static CfgData side(mc::Ctx & c, int n, int vocab, int labs, string & text) { CfgData d; map<int, int> lab; for (int i = 0; i < n; i++) { int k = c.choose(vocab + 3); if (i) text += " "; if (k < vocab) { d.words.push_back(Dict::WID(WD[k])); text += string("\"") + WD[k] + "\""; } else { static const int V[] = {0, 1, 12}; int v = V[k - vocab]; d.words.push_back(-1 - v); if (!lab.count(v)) { lab[v] = c.choose(labs + 1) - 1; if (lab[v] >= 0) { if ((int)d.syms.size() <= v) d.syms.resize(v + 1, -1); d.syms[v] = Dict::WID(LB[lab[v]]); } } ostringstream o; o << "x" << v; if (lab[v] >= 0) o << ":" << LB[lab[v]]; text += o.str(); } } int h = c.choose(labs + 1); if (h) { d.label = Dict::WID(LB[h - 1]); text += string(" @ ") + LB[h - 1]; } return d; }
static void rule(mc::Ctx & c, const CfgDataVector & v, const string & text, const CfgData * src, const string & stext) {
    c.describe(stext + " ||| " + text); c.state(text + stext); string got; if (src) { TranslationRuleHiero r(v, SparseVector(), *src); ostringstream o; r.Print(o); got = o.str(); CHECK(got == stext + " ||| " + text, "print", "printed as " << got); vector<string> col = Tokenize(got, " ||| "); CHECK(col.size() == 2, "columns", "splits into " << col.size() << " columns"); CHECK(col[0] == stext && col[1] == text, "columns", "splits into " << col[0] << " and " << col[1]); CHECK(show(Dict::ParseAnnotatedWords(col[0])) == show(*src), "source", "read back as " << show(Dict::ParseAnnotatedWords(col[0]))); got = col[1]; }
    else { got = Dict::PrintAnnotatedVector(v); CHECK(got == text, "print", "printed as " << got); } CfgDataVector r = Dict::ParseAnnotatedVector(got); c.step(); CHECK(r.size() == v.size(), "columns", r.size() << " columns are read back"); for (size_t i = 0; i < v.size(); i++) { CHECK(show(r[i]) == show(v[i]) && r[i].words == v[i].words && r[i].label == v[i].label, "side", "column " << i << " is read back as " << show(r[i])); CHECK(r[i].syms == v[i].syms, "syms", "the labels of column " << i << " are read back differently"); CHECK(r[i] == v[i] && !(r[i] < v[i]) && !(v[i] < r[i]), "equal", "the side that is read back is not equal"); }
}
MC_SPACE(sides, 3) { string t; CfgData d = side(c, c.range(0, c.thorough ? 4 : 3), c.thorough ? 10 : NW, c.thorough ? 3 : 2, t); rule(c, CfgDataVector(1, d), t, 0, ""); }
MC_SPACE(side_labels, 3) { string t; CfgData d = side(c, c.range(0, 3), 1, 7, t); rule(c, CfgDataVector(1, d), t, 0, ""); }
MC_SPACE(rules, 3) { string s, t; CfgData src = side(c, c.range(1, 2), 3, 1, s); int f = c.range(1, 2); CfgDataVector v; for (int i = 0; i < f; i++) { if (i) t += " |COL| "; v.push_back(side(c, c.range(0, f > 1 ? 1 : 2), f > 1 ? 4 : 8, 2, t)); } rule(c, v, t, &src, s); }
// any text as a rule side
MC_SPACE(side_text, 3) {
    static const char A[] = "x0\" :@a1"; int n = c.range(0, c.thorough ? 8 : 7); string s; for (int i = 0; i < n; i++) s += A[c.choose(n > 6 ? 6 : 8)]; c.describe(s); c.state(s); vector<string> k = split(s); bool bad = false, open = false; string want; map<int, string> lab; vector<pair<int, string> > items; string head;
    for (size_t i = 0; i < k.size() && !bad; i++) { const string & w = k[i]; if (w == "@") { if (i + 2 != k.size()) bad = true; else { head = k[i + 1]; break; } } else if (w.size() > 2 && w[0] == '"' && w[w.size() - 1] == '"') items.push_back(make_pair(-1, w.substr(1, w.size() - 2))); else if (w[0] == 'x') { size_t e = 1; while (e < w.size() && isdigit(w[e])) e++; if (e == 1) { bad = true; break; } int id = e > 5 ? 99999 : atoi(w.substr(1, e - 1).c_str()); if (e > 5) open = true; string l; if (e < w.size()) { if (w[e] != ':') { bad = true; break; } l = w.substr(e + 1); if (l.empty()) { bad = true; break; } } if (lab.count(id) && lab[id] != l) open = true; lab[id] = l; items.push_back(make_pair(id, "")); } else bad = true; }
    bool threw = false; CfgData d; try { d = Dict::ParseAnnotatedWords(s); } catch (std::exception &) { threw = true; } c.step(); if (open) return; CHECK(threw == bad, "accepted", (threw ? "well-formed text is rejected" : "malformed text is read as " + show(d))); if (bad) return; ostringstream o; for (size_t i = 0; i < items.size(); i++) { if (items[i].first < 0) o << "'" << items[i].second << "' "; else { o << "$" << items[i].first; if (!lab[items[i].first].empty()) o << ":" << lab[items[i].first]; o << " "; } } if (!head.empty()) o << "@" << head; CHECK(show(d) == o.str(), "content", "read as " << show(d) << " instead of " << o.str());
}
// features
static const char * FN[] = {"f", "a=b", "g", "\"", "=", "-1"}; static const double FV[] = {1, -0.5, 1e-7, 123456, 1e20, 0.1, -12.25, 0};
static map<string, double> content(const SparseMap & m) { map<string, double> r; for (auto & k : m) r[Dict::WSym(k.first)] += k.second; return r; }
static map<string, double> content(const SparseVector & m) { map<string, double> r; for (auto & k : m.GetImpl()) r[Dict::WSym(k.first)] += k.second; return r; }
static string show(const map<string, double> & m) { ostringstream o; o.precision(12); for (auto & k : m) o << k.first << "=" << k.second << " "; return o.str(); }
MC_SPACE(features, 3) { int n = c.range(0, 3), start = c.choose(6); map<string, double> want; SparseMap m; for (int i = 0; i < n; i++) { string f = FN[(start + (i ? c.choose(6) : 0)) % 6]; c.require(!want.count(f)); double v = FV[c.choose(8)]; want[f] = v; m[Dict::WID(f)] = v; } c.describe(show(want)); c.state(show(want)); string t = Dict::PrintSparseMap(m); c.step(); CHECK(content(Dict::ParseSparseMap(t)) == want, "map", "printed as " << t << " and read back as " << show(content(Dict::ParseSparseMap(t)))); SparseVector v(vector<SparsePair>(m.begin(), m.end())); string u = Dict::PrintSparseVector(v); SparseVector w = Dict::ParseSparseVector(u); for (map<string, double>::iterator it = want.begin(); it != want.end();) if (it->second == 0) want.erase(it++); else ++it; map<string, double> got = content(w); for (map<string, double>::iterator it = got.begin(); it != got.end();) if (it->second == 0) got.erase(it++); else ++it; CHECK(got == want, "vector", "printed as " << u << " and read back as " << show(got)); CHECK(w == v, "equal", "the vector read back differs"); istringstream in(t); CHECK(content(Dict::ParseSparseMap(in)) == content(m), "stream", "read differently from a stream"); }
static bool number(const string & s, double & v) { size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t d = 0; while (i < s.size() && isdigit(s[i])) { i++; d++; } if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) { i++; d++; } } if (!d) return false; if (i < s.size() && s[i] == 'e') { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t e = 0; while (i < s.size() && isdigit(s[i])) { i++; e++; } if (!e) return false; } if (i != s.size()) return false; v = atof(s.c_str()); return true; }
MC_SPACE(feature_text, 3) {
    static const char A[] = "a=1 -.e"; int n = c.range(0, c.thorough ? 8 : 7); string s; for (int i = 0; i < n; i++) s += A[c.choose(7)]; c.describe(s); c.state(s); vector<string> k = split(s); bool bad = false, dup = false, open = false; map<string, double> want; for (size_t i = 0; i < k.size(); i++) { size_t p = k[i].rfind('='); double v; if (p == string::npos || !number(k[i].substr(p + 1), v)) { bad = true; break; } if (p == 0) { open = true; break; } string f = k[i].substr(0, p); if (want.count(f)) dup = true; want[f] += v; } if (open) return;
    bool threw = false; SparseMap m; try { m = Dict::ParseSparseMap(s); } catch (std::exception &) { threw = true; } c.step(); CHECK(threw == (bad || dup), "accepted", (threw ? string("well-formed features are rejected") : "malformed or repeated features are read as " + show(content(m)))); if (!threw) CHECK(content(m) == want, "content", "read as " << show(content(m))); threw = false; SparseVector v; try { v = Dict::ParseSparseVector(s); } catch (std::exception &) { threw = true; } CHECK(threw == bad, "accepted", (threw ? string("well-formed features are rejected as a vector") : "malformed features are read as the vector " + show(content(v)))); if (!threw) { map<string, double> g = content(v); for (auto & x : want) CHECK(fabs(x.second - (g.count(x.first) ? g[x.first] : 0)) <= 1e-9 * (1 + fabs(x.second)), "content", "the vector is read as " << show(g)); for (auto & x : g) CHECK(want.count(x.first), "content", "the vector is read as " << show(g)); }
}
// alignments
MC_SPACE(alignments, 3) { static const int V[] = {0, 1, 2, 10, 123}; int n = c.range(0, 3); set<pair<int, int> > s; Alignment a; for (int i = 0; i < n; i++) { pair<int, int> p(V[c.choose(5)], V[c.choose(5)]); s.insert(p); a.AddAlignment(p); } ostringstream o; for (auto & p : s) o << (p == *s.begin() ? "" : " ") << p.first << "-" << p.second; c.describe(o.str()); c.state(o.str()); CHECK(a.ToString() == o.str(), "print", "printed as " << a.ToString()); Alignment b = Alignment::FromString(a.ToString()); c.step(); CHECK(set<Alignment::AlignmentPair>(b.GetAlignmentVector().begin(), b.GetAlignmentVector().end()) == set<Alignment::AlignmentPair>(s.begin(), s.end()), "content", "read back as " << b.ToString()); vector<set<int> > g = b.GetSrcAlignments(); int hi = s.empty() ? 0 : s.rbegin()->first + 1; CHECK((int)g.size() == hi, "rows", g.size() << " rows"); for (int i = 0; i < hi; i++) { set<int> w; for (auto & p : s) if (p.first == i) w.insert(p.second); CHECK(g[i] == w, "rows", "row " << i); } }
MC_SPACE(alignment_text, 3) { static const char A[] = "01- a\t"; int n = c.range(0, c.thorough ? 8 : 7); string s; for (int i = 0; i < n; i++) s += A[c.choose(n > 6 ? 5 : 6)]; c.describe(s); c.state(s); bool bad = false, open = false; set<pair<int, int> > want; vector<string> k = split(s); for (size_t i = 0; i < k.size(); i++) { if (k[i].find('\t') != string::npos) open = true; size_t p = k[i].find('-'); string l = p == string::npos ? "" : k[i].substr(0, p), r = p == string::npos ? "" : k[i].substr(p + 1); if (l.empty() || r.empty() || l.find_first_not_of("0123456789") != string::npos || r.find_first_not_of("0123456789") != string::npos) { bad = true; } else want.insert(make_pair(atoi(l.c_str()), atoi(r.c_str()))); } bool threw = false; Alignment a; try { a = Alignment::FromString(s); } catch (std::exception &) { threw = true; } c.step(); if (open) return; CHECK(threw == bad, "accepted", (threw ? "well-formed alignment is rejected" : "malformed alignment is read as " + a.ToString())); if (!bad) { set<pair<int, int> > got(a.GetAlignmentVector().begin(), a.GetAlignmentVector().end()); CHECK(got == want, "content", "read as " << a.ToString()); } }
// building target sides piece by piece, in any order of factors
MC_SPACE(builder, 3) { bool edge = c.choose(2); int n = c.range(1, c.thorough ? 6 : 5); TranslationRule r; HyperEdge e; CfgDataVector m; string d; for (int i = 0; i < n; i++) { int f = c.choose(3), op = edge ? 0 : c.choose(3), w = i; if ((int)m.size() <= f) m.resize(f + 1); d += string(1, "wsl"[op]) + char('0' + f) + " "; if (op == 0) { m[f].words.push_back(w); if (edge) e.AddTrgWord(w, f); else r.AddTrgWord(w, f); } else if (op == 1) { m[f].syms.push_back(w); r.AddTrgSym(w, f); } else { m[f].label = w; r.SetTrgLabel(w, f); } } c.describe(d); c.step(); CHECK((edge ? e.GetTrgData() : r.GetTrgData()) == m, "content", "factors or pieces are lost"); }
MC_SPACE(variables, 3) { int n = c.range(0, 6); CfgData d; string t; vector<int> pos; bool ord = true; int next = 0; for (int i = 0; i < n; i++) { int k = c.choose(4) - 3; d.words.push_back(k == 0 ? 5 : k); t += to_string(k) + " "; if (k) { pos.push_back(i); ord &= k == -1 - next; next++; } } c.describe(t); c.step(); CHECK(d.GetNontermPositions() == pos, "positions", "wrong variable positions"); CHECK(d.NontermsAreOrdered() == ord, "ordered", "variables are said to be " << (ord ? "un" : "") << "ordered"); CfgData a = d, b; b.label = 7; b.words.push_back(3); b.words.push_back(-1); b.syms.push_back(4); a.AppendChild(b); Sentence w = d.words; w.push_back(3); w.push_back(-1); CHECK(a.words == w && a.syms == Sentence(1, 7) && a.label == -1, "append", "appending a child gives something else"); }
// splitting and escaping
MC_SPACE(split_text, 3) { static const char A[] = "a |b"; int n = c.range(0, c.thorough ? 10 : 9); string s; for (int i = 0; i < n; i++) s += A[c.choose(4)]; c.describe(s); c.state(s); vector<string> one(1); for (char x : s) if (x == ' ') one.push_back(""); else one.back() += x; CHECK(Tokenize(s, ' ') == one && Tokenize(s.c_str(), ' ') == one, "character", "splits into " << Tokenize(s, ' ').size() << " pieces"); CHECK(FirstToken(s) == one[0], "first", "the first piece is " << FirstToken(s)); const string ds[] = {" | ", "a", "| |", "ab"}; for (int k = 0; k < 4; k++) { const string & d = ds[k]; vector<string> w; string cur; for (size_t i = 0; i < s.size();) if (s.compare(i, d.size(), d) == 0) { w.push_back(cur); cur.clear(); i += d.size(); } else cur += s[i++]; w.push_back(cur); CHECK(Tokenize(s, d) == w, "string", "splitting at '" << d << "' gives " << Tokenize(s, d).size() << " pieces instead of " << w.size()); } c.step(); }
MC_SPACE(escapes, 3) { static const char A[] = "a\"\\&<>';"; int n = c.range(0, c.thorough ? 7 : 6); string s; for (int i = 0; i < n; i++) s += A[c.choose(8)]; c.describe(s); c.state(s); string q, x; for (char ch : s) { if (ch == '"' || ch == '\\') q += '\\'; q += ch; x += ch == '&' ? "&amp;" : ch == '"' ? "&quot;" : ch == '\'' ? "&apos;" : ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : string(1, ch); } CHECK(EscapeQuotes(s) == q && Dict::EscapeString(s) == q, "quotes", EscapeQuotes(s) << " and " << Dict::EscapeString(s)); CHECK(Dict::EncodeXML(s) == x, "xml", Dict::EncodeXML(s)); CHECK(Dict::WSymEscaped(Dict::WID(s)) == "\"" + q + "\"", "word", Dict::WSymEscaped(Dict::WID(s))); c.step(); }
MC_SPACE(streams, 3) { static const char A[] = "ab ()"; int n = c.range(0, c.thorough ? 8 : 7); string s; for (int i = 0; i < n; i++) s += A[c.choose(5)]; int op = c.choose(2); c.describe(s + (op ? " read" : " trim")); istringstream in(s); if (op == 0) { size_t p = s.find_first_not_of(" a"); if (p == string::npos) p = s.size(); IoUtil::Trim(in, " a"); string rest; getline(in, rest); CHECK(rest == s.substr(p), "trim", "left with '" << rest << "'"); } else { size_t p = s.find_first_of(" )"), f = s.find('('); c.require(p != string::npos || f != string::npos); bool bad = f != string::npos && (p == string::npos || f < p), threw = false; string got, rest; try { got = IoUtil::ReadUntil(in, " )", "("); } catch (std::exception &) { threw = true; } CHECK(threw == bad, "forbidden", (threw ? "rejected" : "accepted")); if (!bad) { getline(in, rest); CHECK(got == s.substr(0, p) && rest == s.substr(p), "read", "reads '" << got << "' and leaves '" << rest << "'"); } } c.step(); }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; Dict::WID("zero"); }); }
