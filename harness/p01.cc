// P01: tokenization
#include "mc.h"
#include "run.h"
#include <travatar/tokenizer-penn.h>
#include <travatar/tokenizer.h>
#include <travatar/tokenizer-runner.h>
#include <travatar/config-tokenizer-runner.h>
#include <travatar/dict.h>
#include <travatar/global-debug.h>
#include <boost/scoped_ptr.hpp>
using namespace std; using namespace travatar;
static Tokenizer & penn() { static Tokenizer * t = Tokenizer::CreateFromString("penn"); return *t; }
static vector<string> split(const string & s) { vector<string> v; string x; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == ' ') { if (!x.empty()) v.push_back(x); x.clear(); } else x += s[i]; return v; }
static void rep(string & s, const string & a, const string & b) { size_t p = 0; while ((p = s.find(a, p)) != string::npos) { s.replace(p, a.size(), b); p += b.size(); } }
// the text without what tokenization may change: spaces, the form of quotes, bracket codes
static string canon(string s) { static const char * R[][2] = {{"\xe2\x80\xa6", "..."}, {"\xe2\x80\x93", "--"}, {"-LRB-", "("}, {"-RRB-", ")"}, {"-LSB-", "["}, {"-RSB-", "]"}, {"-LCB-", "{"}, {"-RCB-", "}"}, {"\"", "''"}, {"`", "'"}, {" ", ""}}; for (auto & r : R) rep(s, r[0], r[1]); return s; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static const set<string> & abbrev() { static set<string> s; if (s.empty()) for (const string & x : split("A B C D E F G H J K L M N O P Q R S T U V W X Y Z Jan Feb Mar Apr Jun Jul Aug Sep Sept Oct Dec Adj Adm Adv Asst Bart Bldg Brig Bros Capt Cmdr Co CO Col Comdr Con Corp Cpl Dept DR Dr Drs Ens Gen Gov Hon Hr Hosp Inc INC Insp Lt Ltd LTD MM MR MRS MS Maj Messrs Mlle Mme Mr Mrs Ms Msgr Mt No Op Ord Pfc Ph Prof Pvt Rep Reps Res Rev Rt Sen Sens Sfc Sgt Sr St Supt Surg v vs rev Nos Nr etc al c nos ca cf m p ed Vol vol no Fig fig Tab tab pp approx")) s.insert(x); return s; }
static string check(mc::Ctx & c, const string & in) {
    c.describe(in); c.state(in); string out = penn().Tokenize(in); c.step(); auto at = [&](const string & t) { return "'" + t + "' in '" + out + "'"; };
    CHECK(canon(out) == canon(in), "text", "'" << in << "' becomes '" << out << "'");
    CHECK(out.find("  ") == string::npos && (out.empty() || (out[0] != ' ' && out[out.size() - 1] != ' ')), "spaces", "'" << out << "' has an empty token"); CHECK(out.find('\n') == string::npos, "line", "a line break is added");
    vector<string> k = split(out); Sentence s = penn().TokenizeToSentence(in); CHECK(Dict::PrintWords(s) == out, "words", "as words: " << Dict::PrintWords(s));
    bool crowded = false; for (size_t p = 1; p < in.size(); p++) crowded |= strchr(",:", in[p]) && strchr(",:", in[p - 1]);
    for (size_t i = 0; i < k.size(); i++) { const string & w = k[i]; for (size_t p = 0; p < w.size(); p++) {
        if (strchr("?!()[]{}<>", w[p])) CHECK(w.size() == 1, "brackets", at(w));
        if (strchr(",:", w[p])) CHECK(w.size() == 1 || (p > 0 && p + 1 < w.size() && digit(w[p - 1]) && digit(w[p + 1])) || crowded, "comma", at(w));
        if (strchr(";@#$%&=*", w[p])) CHECK(w.find_first_not_of(";@#$%&=*") == string::npos, "symbols", at(w)); }
        if (w.find("--") != string::npos) CHECK(w == "--", "dash", at(w)); if (w.find("...") != string::npos) CHECK(w == "...", "dots", at(w)); if (w == "(" || w == ")" || w == "[" || w == "]" || w == "{" || w == "}") CHECK(false, "bracket", at(w));
        size_t d = w.find('.'); if (w.size() > 1 && d == w.size() - 1) CHECK(abbrev().count(w.substr(0, d)), "period", at(w));
        for (unsigned char x : string(1, w[0])) CHECK((x & 0xc0) != 0x80, "character", "a character is cut: " << at(w)); }
    return out;
}
static string build(mc::Ctx & c, const vector<string> & a, int lo, int hi) { int n = c.range(lo, hi); string s; for (int i = 0; i < n; i++) s += a[c.choose(a.size())]; return s; }
typedef vector<string> V;
MC_SPACE(numbers, 3) { check(c, build(c, V{"a", "5", ",", ":", ".", " ", "-"}, 0, c.thorough ? 8 : 6)); }
MC_SPACE(symbols, 3) { check(c, build(c, V{"a", ";", "%", "$", ".", " ", "="}, 0, c.thorough ? 7 : 6)); }
MC_SPACE(brackets, 3) { check(c, build(c, V{"a", "(", "]", "<", ".", "?", "!", "}", "'", " "}, 0, c.thorough ? 6 : 5)); }
MC_SPACE(quotes, 3) { check(c, build(c, V{"a", "'", "\"", "`", " ", ".", "(", ","}, 0, c.thorough ? 7 : 5)); }
MC_SPACE(unicode, 3) { check(c, build(c, V{"a", "\xc2\xab", "\xe2\x80\x9c", "\xe2\x80\xba", "\xe3\x80\x8c", "\xe3\x80\x82", "\xe2\x80\x93", "\xe2\x80\xa6", " ", ".", ",", "\xe3\x81\x82"}, 0, c.thorough ? 6 : 5)); }
MC_SPACE(contractions, 3) { check(c, build(c, V{"do", "n't", "'s", "'ll", "'", "Can", "not", "gon", "na", "'tis", " ", ".", ","}, 0, c.thorough ? 6 : 4)); }
MC_SPACE(abbreviations, 3) { check(c, build(c, V{"Mr", ".", "U", "a", " ", "..", "No", "5", ")"}, 0, c.thorough ? 7 : 5)); }
MC_SPACE(units, 3) { check(c, build(c, V{"5", "k", "m", "g", " ", ".", "Hz", "No", "c"}, 0, c.thorough ? 7 : 5)); }

// ---- exact results where the rules leave no doubt
static void join(string & o, const string & t) { if (!o.empty()) o += ' '; o += t; }
static bool clitic(const string & w, string & stem, string & tail) { static const char * C[] = {"n't", "'s", "'m", "'d", "'ll", "'re", "'ve"}; for (const char * x : C) { size_t n = strlen(x); if (w.size() > n && w.compare(w.size() - n, n, x) == 0) { stem = w.substr(0, w.size() - n); tail = x; return true; } } return false; }
static void word(string & o, string w) { static map<string, string> R; if (R.empty()) { R["Cannot"] = "Can not"; R["cannot"] = "can not"; R["gonna"] = "gon na"; R["wanna"] = "wan na"; R["More'n"] = "More 'n"; R["d'ye"] = "d' ye"; R["Gimme"] = "Gim me"; } vector<string> t; string st, tl; while (clitic(w, st, tl)) { t.insert(t.begin(), tl); w = st; } t.insert(t.begin(), w); for (string & x : t) join(o, R.count(x) ? R[x] : x); }
// letters, clitics and commas
MC_SPACE(exact_words, 3) { string in = build(c, V{"do", "n't", "'s", "'ll", "Can", "not", "gonna", "can", "d'ye", " ", ","}, 0, c.thorough ? 7 : 5); for (size_t i = 0; i < in.size(); i++) c.require(in[i] != '\'' || (i && in[i - 1] != ' ' && in[i - 1] != ',')); string pc; for (size_t i = 0; i <= in.size(); i++) if (i == in.size() || in[i] == ' ' || in[i] == ',') { size_t q = pc.find('\''); string x = q == string::npos ? "" : pc.substr(q); c.require(x.empty() || x == "'t" || x == "'t's" || x == "'t'll" || x == "'s" || x == "'ll" || pc == "d'ye"); pc.clear(); } else pc += in[i]; string out = check(c, in), want, w; for (size_t i = 0; i <= in.size(); i++) if (i == in.size() || in[i] == ' ' || in[i] == ',') { if (!w.empty()) word(want, w); w.clear(); if (i < in.size() && in[i] == ',') join(want, ","); } else w += in[i]; CHECK(out == want, "exact", "'" << in << "' becomes '" << out << "' instead of '" << want << "'"); }
// periods: dots, numbered abbreviations, abbreviations and sentence ends
MC_SPACE(exact_periods, 3) { string in = build(c, V{"Mr", ".", "U", "a", " ", "No", "5"}, 0, c.thorough ? 8 : 6); string out = check(c, in), want; for (const string & ch : split(in)) { vector<string> parts; size_t p = 0, f; while ((f = ch.find("...", p)) != string::npos) { if (f > p) parts.push_back(ch.substr(p, f - p)); parts.push_back("..."); p = f + 3; } if (p < ch.size()) parts.push_back(ch.substr(p)); vector<string> q; for (string x : parts) { if (x.size() > 3 && x.compare(0, 3, "No.") == 0 && digit(x[3])) { q.push_back("No."); x = x.substr(3); } q.push_back(x); } for (const string & x : q) if (x.size() > 1 && x.find('.') == x.size() - 1 && !abbrev().count(x.substr(0, x.size() - 1))) { join(want, x.substr(0, x.size() - 1)); join(want, "."); } else join(want, x); } CHECK(out == want, "exact", "'" << in << "' becomes '" << out << "' instead of '" << want << "'"); }
// double quotes open after blanks and brackets, and close before blanks and punctuation
MC_SPACE(exact_quotes, 3) { string in = build(c, V{"a", "\"", " ", ",", "(", "b."}, 0, c.thorough ? 8 : 6), t; c.require(in.find("\"\"") == string::npos); for (size_t i = 0; i < in.size(); i++) { if (in[i] == '"') { if (i == 0 || in[i - 1] == ' ' || in[i - 1] == '(') t += " `` "; else if (i + 1 == in.size() || in[i + 1] == ' ' || in[i + 1] == ',') t += " '' "; else { t += '"'; c.require(in[i - 1] != '.'); } } else if (in[i] == ',' || in[i] == '(') { t += in[i] == ',' ? " , " : " -LRB- "; } else t += in[i]; } string out = check(c, in), want; for (const string & x : split(t)) if (x.size() > 1 && x.find('.') == x.size() - 1 && !abbrev().count(x.substr(0, x.size() - 1))) { join(want, x.substr(0, x.size() - 1)); join(want, "."); } else join(want, x); CHECK(out == want, "exact", "'" << in << "' becomes '" << out << "' instead of '" << want << "'"); }
// numbers with units, thousands and times
MC_SPACE(exact_numbers, 3) { string in = build(c, V{"5", "kg", "m", "a", ",", ":", " ", ".5"}, 0, c.thorough ? 8 : 6), t; for (size_t i = 1; i < in.size(); i++) c.require(!(strchr(",:", in[i]) && strchr(",:", in[i - 1]))); for (size_t i = 0; i < in.size(); i++) { bool sep = strchr(",:", in[i]) && !(i && i + 1 < in.size() && digit(in[i - 1]) && digit(in[i + 1])); t += sep ? string(" ") + in[i] + " " : string(1, in[i]); } string out = check(c, in), want; for (const string & x : split(t)) { size_t u = x.size(); static const char * U[] = {"kg", "km", "m", "mm"}; size_t cut = 0; for (const char * k : U) { size_t n = strlen(k); if (u > n && x.compare(u - n, n, k) == 0 && digit(x[u - n - 1])) cut = u - n; } if (cut) { join(want, x.substr(0, cut)); join(want, x.substr(cut)); } else join(want, x); } CHECK(out == want, "exact", "'" << in << "' becomes '" << out << "' instead of '" << want << "'"); }
// the tool keeps lines apart
MC_SPACE(tool, 3) { int n = c.range(0, 3); string in, want; bool none = c.flag(); for (int i = 0; i < n; i++) { static const char * L[] = {"", "It's (5kg).", "  a  b ", "\"x\"", "Mr. A, B..."}, * T[] = {"", "It 's -LRB- 5 kg -RRB- .", "a b", "`` x ''", "Mr. A , B ..."}; int k = c.choose(5); in += string(L[k]) + "\n"; want += string(none ? L[k] : T[k]) + "\n"; } c.describe(in + (none ? "none" : "penn")); vector<string> a; if (none || c.flag()) { a.push_back("-type"); a.push_back(none ? "none" : "penn"); } ConfigTokenizerRunner conf; run::config(conf, a); string out; { run::Capture cap(in); TokenizerRunner r; r.Run(conf); out = cap.out.str(); } c.step(); CHECK(out == want, "tool", "printed " << out); }
int main(int argc, char ** argv) { return mc::main(argc, argv, [] { GlobalVars::debug = 0; Dict::WID("zero"); }); }
