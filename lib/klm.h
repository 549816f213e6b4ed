// The language model classes behind one interface
#ifndef VERIF_KLM_H
#define VERIF_KLM_H
#include "arpa.h"
#include "run.h"
#include <lm/model.hh>
#include <lm/left.hh>
#include <lm/enumerate_vocab.hh>
#include <memory>
namespace klm {
using namespace lm::ngram; typedef lm::WordIndex WI;
enum { PROB, TRIE_, ATRIE, QTRIE, QATRIE, REST, NFMT };
static const char * const FMT[] = {"probing", "trie", "array-trie", "quantized trie", "quantized array-trie", "probing with rest costs"};
struct Any {
    virtual ~Any() {}
    virtual lm::FullScoreReturn full(const State & in, WI w, State & out) const = 0;
    virtual lm::FullScoreReturn forgot(const WI * b, const WI * e, WI w, State & out) const = 0;
    virtual void state(const WI * b, const WI * e, State & out) const = 0;
    virtual WI index(const std::string & s) const = 0;
    virtual State begin() const = 0; virtual State null() const = 0; virtual int order() const = 0;
    // a rule: words >= 0, children -1-k; bos: starts a sentence
    virtual float rule(bool bos, const std::vector<int> & rhs, const std::vector<ChartState> & ch, ChartState & out, bool fast) const = 0;
};
template<class M> struct Of : Any {
    M m; Of(const char * f, const Config & c) : m(f, c) {}
    lm::FullScoreReturn full(const State & in, WI w, State & out) const { return m.FullScore(in, w, out); }
    lm::FullScoreReturn forgot(const WI * b, const WI * e, WI w, State & out) const { return m.FullScoreForgotState(b, e, w, out); }
    void state(const WI * b, const WI * e, State & out) const { m.GetState(b, e, out); }
    WI index(const std::string & s) const { return m.GetVocabulary().Index(s); }
    State begin() const { return m.BeginSentenceState(); } State null() const { return m.NullContextState(); } int order() const { return m.Order(); }
    float rule(bool bos, const std::vector<int> & rhs, const std::vector<ChartState> & ch, ChartState & out, bool fast) const {
        memset(&out, 0xA5, sizeof(out)); RuleScore<M> r(m, out); if (bos) r.BeginSentence();
        for (size_t i = 0; i < rhs.size(); i++) { if (rhs[i] >= 0) r.Terminal(rhs[i]); else if (i == 0 && !bos && fast) r.BeginNonTerminal(ch[-1 - rhs[i]], 0); else r.NonTerminal(ch[-1 - rhs[i]], 0); }
        return r.Finish();
    }
};
inline Config conf() { Config c; c.show_progress = false; c.messages = 0; c.unknown_missing = lm::SILENT; c.building_memory = 1 << 20; c.pointer_bhiksha_bits = 4; c.temporary_directory_prefix = run::dir() + "tmp"; return c; }
inline Any * load(int fmt, const std::string & file, const Config & c) {
    switch (fmt) { case PROB: return new Of<ProbingModel>(file.c_str(), c); case TRIE_: return new Of<TrieModel>(file.c_str(), c); case ATRIE: return new Of<ArrayTrieModel>(file.c_str(), c);
        case QTRIE: return new Of<QuantTrieModel>(file.c_str(), c); case QATRIE: return new Of<QuantArrayTrieModel>(file.c_str(), c); default: return new Of<RestProbingModel>(file.c_str(), c); }
}
struct Vocab : lm::EnumerateVocab { std::map<std::string, WI> m; bool dup; Vocab() : dup(false) {} void Add(WI i, const StringPiece & s) { dup = dup || m.count(s.as_string()); m[s.as_string()] = i; } };
inline bool same(const State & a, const State & b) { if (!(a == b)) return false; for (int i = 0; i < a.length; i++) if (a.backoff[i] != b.backoff[i]) return false; return true; }
} // namespace klm
#endif
