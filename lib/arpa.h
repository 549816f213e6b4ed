// Small back-off n-gram models: construction, ARPA text, and the definition of their scores.
#ifndef VERIF_ARPA_H
#define VERIF_ARPA_H
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <set>
#include <functional>
namespace arpa {
typedef std::vector<std::string> Gram;
struct PB { double p, b; PB(double a = 0, double c = 0) : p(a), b(c) {} };
inline unsigned hash(const Gram & g, unsigned salt) { unsigned h = 2166136261u ^ (salt * 2654435761u); for (size_t i = 0; i < g.size(); i++) { for (size_t k = 0; k < g[i].size(); k++) { h ^= (unsigned char)g[i][k]; h *= 16777619u; } h ^= 255; h *= 16777619u; } h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16; return h; }
struct Model {
    std::vector<std::map<Gram, PB> > g;
    std::string unk; double missing_unk;
    Model() : unk("<unk>"), missing_unk(-100) {}
    int order() const { return g.size(); }
    bool has(const Gram & x) const { return x.size() >= 1 && x.size() <= g.size() && g[x.size() - 1].count(x); }
    const PB & at(const Gram & x) const { return g[x.size() - 1].find(x)->second; }
    // probability by the back-off definition; len: how many words of the n-gram were matched (1: the word alone)
    double score(const Gram & hist, const std::string & word, int * len = 0) const {
        std::string w = has(Gram(1, word)) ? word : unk; Gram h;
        for (size_t i = 0; i < hist.size(); i++) h.push_back(has(Gram(1, hist[i])) ? hist[i] : unk);
        double acc = 0;
        for (size_t k = std::min<size_t>(h.size(), g.size() - 1);; k--) {
            Gram c(h.end() - k, h.end()), n = c; n.push_back(w);
            if (has(n)) { if (len) *len = k + 1; return acc + at(n).p; }
            if (k == 0) { if (len) *len = 1; return acc + missing_unk; }
            if (has(c)) acc += at(c).b;
        }
    }
    double sentence(const Gram & s, bool bounds = true) const {
        Gram h; if (bounds) h.push_back("<s>"); double r = 0;
        for (size_t i = 0; i < s.size(); i++) { r += score(h, s[i]); h.push_back(s[i]); }
        return bounds ? r + score(h, "</s>") : r;
    }
    int oov(const Gram & s) const { int n = 0; for (size_t i = 0; i < s.size(); i++) n += !has(Gram(1, s[i])) || s[i] == unk; return n; }
    std::string text() const {
        std::ostringstream o; o.precision(10); o << "\\data\\\n";
        for (size_t i = 0; i < g.size(); i++) o << "ngram " << i + 1 << "=" << g[i].size() << "\n";
        for (size_t i = 0; i < g.size(); i++) {
            o << "\n\\" << i + 1 << "-grams:\n";
            for (std::map<Gram, PB>::const_iterator it = g[i].begin(); it != g[i].end(); ++it) {
                o << it->second.p << "\t"; for (size_t k = 0; k < it->first.size(); k++) o << (k ? " " : "") << it->first[k];
                if (i + 1 < g.size() && it->first.back() != "</s>") o << "\t" << it->second.b;
                o << "\n";
            }
        }
        o << "\n\\end\\\n"; return o.str();
    }
    // adds an n-gram with values derived from it, with everything it needs to be present
    // sfx: whether suffixes are completed too
    void add(const Gram & x, unsigned salt, bool sfx = true) {
        if (has(x) || x.empty()) return;
        if (x.size() > 1) { add(Gram(x.begin(), x.end() - 1), salt, sfx); if (sfx || x.size() == 2) add(Gram(x.begin() + 1, x.end()), salt, sfx); else for (size_t i = 1; i < x.size(); i++) add(Gram(1, x[i]), salt, sfx); }
        unsigned h = hash(x, salt); PB v;
        v.p = x.size() == 1 && x[0] == "<s>" ? -99 : -(1 + (int)(h % 61)) / 16.0;
        v.b = x.back() == "</s>" || x.size() == g.size() ? 0 : h / 64 % 5 == 0 ? 0 : h / 64 % 5 == 1 ? (1 + (int)(h / 1024 % 7)) / 32.0 : -(1 + (int)(h / 1024 % 31)) / 32.0;
        if (x.size() == 1 && x[0] == "<unk>") v.b = 0;
        g[x.size() - 1][x] = v;
    }
};
// every n-gram over the words (with <s> first or not at all, </s> last), kept by keep(gram)
template<class F> inline Model make(int order, const Gram & words, bool unk, unsigned salt, bool sfx, F keep) {
    Model m; m.g.resize(order); m.add(Gram(1, "<s>"), salt); m.add(Gram(1, "</s>"), salt); if (unk) m.add(Gram(1, "<unk>"), salt);
    for (size_t i = 0; i < words.size(); i++) m.add(Gram(1, words[i]), salt);
    std::vector<Gram> cur; Gram st = words; st.push_back("<s>");
    for (size_t i = 0; i < st.size(); i++) cur.push_back(Gram(1, st[i]));
    Gram ext = words; ext.push_back("</s>");
    for (int n = 2; n <= order; n++) {
        std::vector<Gram> nx;
        for (size_t i = 0; i < cur.size(); i++) { if (cur[i].back() == "</s>") continue; for (size_t w = 0; w < ext.size(); w++) { Gram x = cur[i]; x.push_back(ext[w]); nx.push_back(x); if (keep(x)) m.add(x, salt, sfx); } }
        cur.swap(nx);
    }
    return m;
}
struct Density { unsigned salt; int pct; bool operator()(const Gram & x) const { return (int)(hash(x, salt + 77) % 100) < pct; } };
} // namespace arpa
#endif
