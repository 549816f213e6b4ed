// Sentences over a small alphabet and plain-arithmetic helpers for the evaluation checks.
#ifndef VERIF_EV_H
#define VERIF_EV_H
#include "mc.h"
#include <travatar/dict.h>
#include <travatar/global-debug.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
namespace ev {
using namespace travatar;
inline std::vector<int> & words() { static std::vector<int> w; return w; }
inline void init(int n = 8) { GlobalVars::debug = 0; for (int i = 0; i < n; i++) words().push_back(Dict::WID("w" + std::to_string(i))); }
inline std::string str(const Sentence & s) { std::string r; for (size_t i = 0; i < s.size(); i++) r += (i ? " " : "") + Dict::WSym(s[i]); return "[" + r + "]"; }
// all sentences of length lo..hi over k words
inline const std::vector<Sentence> & all(int lo, int hi, int k) {
    static std::map<std::vector<int>, std::vector<Sentence> > memo; std::vector<int> key; key.push_back(lo); key.push_back(hi); key.push_back(k);
    std::vector<Sentence> & v = memo[key]; if (!v.empty()) return v;
    std::vector<Sentence> cur(1);
    for (int l = 0; l <= hi; l++) {
        if (l >= lo) v.insert(v.end(), cur.begin(), cur.end());
        std::vector<Sentence> nx; for (size_t i = 0; i < cur.size(); i++) for (int w = 0; w < k; w++) { Sentence s = cur[i]; s.push_back(words()[w]); nx.push_back(s); }
        cur.swap(nx);
    }
    return v;
}
inline bool near(double a, double b, double tol = 1e-9) { return a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
inline int levenshtein(const Sentence & a, const Sentence & b) {
    if (a.empty()) return b.size(); if (b.empty()) return a.size();
    std::vector<std::vector<int> > d(a.size() + 1, std::vector<int>(b.size() + 1));
    for (size_t i = 0; i <= a.size(); i++) for (size_t j = 0; j <= b.size(); j++)
        d[i][j] = !i ? j : !j ? i : std::min(std::min(d[i-1][j], d[i][j-1]) + 1, d[i-1][j-1] + (a[i-1] != b[j-1]));
    return d[a.size()][b.size()];
}
} // namespace ev
#endif
