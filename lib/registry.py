"""One table for everything that is said about a property.
bin/gen writes properties.jsonl and MANIFEST.json from it; bin/check runs it."""
PROPS, CHECKS, NOT_APPLICABLE = [], {}, {}

def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    PROPS.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
                  'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
                  'why_tests_cant': ' '.join(why.split()),
                  'anchors': dict({'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
                                  **({'observe_at': observe} if observe else {}))})

def C(id, technique, note, parts, quick, thorough, assumptions):
    CHECKS[id] = {'technique': technique, 'note': ' '.join(note.split()), 'parts': parts,
                  'bounds': {'quick': ' '.join(quick.split()), 'thorough': ' '.join(thorough.split())}, 'assumptions': assumptions}

L = 'src/lib/'
K = 'src/kenlm/'

# ---------------------------------------------------------------- concurrency
P('C01', 'Worker pool runs every submitted task exactly once and always terminates',
  '''Every task handed to the worker pool is run exactly once, and a stop that asks to process the remaining work returns only
  after all of it has finished; an immediate stop runs no task twice and lets running tasks finish. No interleaving of
  submitters, workers and the stopping thread deadlocks, loses a wake-up, lets more tasks wait than the queue limit allows, or
  leaves shared state accessed without synchronisation.''',
  'schedules', 'all thread interleavings (up to a preemption bound) of 1-3 workers, 0-4 tasks, queue limits 0-2, failing, submitting or stopping clients',
  'The unit test runs one schedule per run on a machine that picks it; lost wake-ups and races need particular preemptions.',
  'src/lib/thread-pool.cc src/include/travatar/thread-pool.h src/include/travatar/task.h',
  [('mutex/condition queue', 'src/lib/thread-pool.cc ThreadPool::Submit/Run/Stop')])
P('C02', 'Parallel output is written exactly once and in input order',
  '''Results handed to the ordered output collector by concurrent workers reach the output and error streams exactly once, complete, and in
  increasing sentence order whatever order the workers finish in; skipped sentences never hold back later ones. Nothing is lost or
  written twice, unbuffered mode writes each result whole, and concurrent writers never race.''',
  'schedules histories', 'all completion orders of up to 6 sentences with every write/skip/empty mix, and all thread interleavings of small writer sets',
  'The unit tests write a couple of fixed orders from one thread.',
  'src/lib/output-collector.cc src/include/travatar/output-collector.h',
  [('pending-output map keyed by sentence id', 'src/lib/output-collector.cc OutputCollector::Write')])
P('C03', 'Vocabulary interning is a stable bijection, also under concurrent use',
  '''Interning a string returns the same id from every thread at every time, distinct strings get distinct ids, and every id maps back to
  exactly the string it was given for; read-only lookups never create entries. This holds for every interleaving of concurrent
  interning and lookup and is free of data races.''',
  'schedules histories', 'all interleavings (preemption bounded) of 2-3 threads interning overlapping strings, and all interning/lookup histories of bounded length',
  'Existing tests intern from a single thread in one order.',
  'src/include/travatar/symbol-set.h src/include/travatar/dict.h src/lib/dict.cc',
  [('reader/writer lock around the symbol table', 'src/include/travatar/symbol-set.h')])
P('C04', 'Multi-threaded decoding gives the single-threaded result',
  '''Running the decoder with several threads produces byte for byte the output, n-best lists, traces and forests that one thread
  produces, in input order. No interleaving of the sentence tasks deadlocks, races on shared models, or changes a result.''',
  'schedules', 'thread interleavings (preemption bounded) of the real decoder task graph on small models with 2-3 sentences and 1-2 workers',
  'No test runs the decoder program at all, let alone under more than one schedule.',
  'src/lib/travatar-runner.cc src/include/travatar/travatar-runner.h src/lib/lookup-table.cc src/lib/binarizer-directional.cc',
  [('one task per sentence over shared read-only models', 'src/lib/travatar-runner.cc TravatarRunnerTask::Run')])
P('C05', 'Parallel tuning gives the single-threaded result',
  '''The parallel greedy tuner ends each round with the largest gain that any evaluated feature offers; the weights, step and feature it
  reports belong together, and the result does not depend on the interleaving of the worker threads beyond ties. Restarts that run in parallel (line search, gradient and online
  tuning, over n-best lists or forests that they share) end with the weights they would reach alone, and nothing they share is accessed without synchronisation.''',
  'schedules', 'all interleavings (preemption bounded) of 2 workers over 2-3 features and of 2 restarts on small n-best sets and forests',
  'The unit test runs one schedule and checks one number.',
  'src/lib/tune-greedy-mert.cc src/include/travatar/tune-greedy-mert.h src/lib/batch-tune-runner.cc src/lib/tuning-example-forest.cc src/lib/tune-lbfgs.cc',
  [('best result guarded by a mutex', 'src/lib/tune-greedy-mert.cc TuneGreedyMert::UpdateBest'), ('restarts over shared examples', 'src/lib/batch-tune-runner.cc BatchTuneRunner::DoTuning')])

# ---------------------------------------------------------------- hypergraphs
P('H01', 'N-best search returns exactly the k best derivations, in order, no duplicates',
  '''For any acyclic translation hypergraph and any k, n-best search returns the min(k, number of derivations) derivations with the highest scores, in
  non-increasing score order and without repeating a derivation; asking for unique translations returns the best-scoring derivation of each of the best distinct
  translations. Each returned derivation's score is the sum of its edge scores, the single best equals the Viterbi score, and its translation and features
  read out are exactly those obtained by substituting along its edges.''',
  'inputs configurations', 'all hypergraphs of bounded size (nodes, edges, tails, shared nodes, equal and distinct scores), all k, unique on/off',
  'The unit tests use one or two hand-made forests; ties, shared sub-derivations, dead ends and k beyond the number of derivations are not reached.',
  'src/lib/hyper-graph.cc src/include/travatar/hyper-graph.h',
  [('lazy k-best with per-node candidate heaps', 'src/lib/hyper-graph.cc HyperGraph::GetNthBest'), ('path readout', 'src/lib/hyper-graph.cc HyperPath')])
P('H02', 'Inside-outside probabilities are the true derivation posteriors',
  '''After inside-outside on any acyclic hypergraph, every edge score is the log of the fraction of total derivation weight that passes through that edge (counting each use), so that values are
  finite, at most one where no derivation uses an edge twice, and sum to one over the root's edges. Log-probability addition and softmax agree with exact arithmetic for any order and magnitude of their arguments.''',
  'inputs', 'all hypergraphs of bounded size with edge weights from a grid incl. very large gaps; all log-score vectors over a grid of magnitudes incl. very large gaps',
  'One forest with one set of weights is tested.',
  'src/lib/hyper-graph.cc src/include/travatar/softmax.h',
  [('inside/outside recursion', 'src/lib/hyper-graph.cc HyperGraph::InsideOutsideNormalize'), ('softmax', 'src/include/travatar/softmax.h')])
P('H03', 'Structure-changing graph transforms keep the set of derivations and their yields',
  '''Binarization (left, right, chart-style), unary flattening, n-best pruning, copying and appending never change which derivations a forest contains beyond what they document:
  binarized forests have at most two children per node and un-binarize to exactly the original derivations with the same spans and scores,
  flattening only merges unary chains, pruning keeps exactly the edges used by the n best derivations, and a copy or append is structurally identical to its source and independent of it.''',
  'inputs configurations', 'all ordered trees and forests of bounded size, with and without symbols that look like binarized labels, scores and features present',
  'Each transform is tested on one or two trees.',
  'src/lib/binarizer-cky.cc src/lib/binarizer-directional.cc src/lib/unary-flattener.cc src/lib/trimmer-nbest.cc src/lib/trimmer.cc src/lib/hyper-graph.cc',
  [('directional binarizer', 'src/lib/binarizer-directional.cc'), ('CKY binarizer', 'src/lib/binarizer-cky.cc'), ('unary flattener', 'src/lib/unary-flattener.cc'), ('n-best trimmer', 'src/lib/trimmer-nbest.cc'), ('copy/append', 'src/lib/hyper-graph.cc')])

# ---------------------------------------------------------------- translation
P('R01', 'Tree translation applies exactly the rules whose source side matches',
  '''For any parse tree or forest and any rule table, the translation forest contains one edge for every way a rule's source tree fragment matches at a node, with that rule's target side, features and
  matched children, and no other edges; nodes that no rule covers get exactly the documented unknown-word or pass-through rule. The hash-based and the compact table give the same forest.''',
  'inputs configurations', 'all small trees/forests x all rule tables over bounded alphabets, both table implementations, with and without target-label constraints and multiple factors',
  'The tests match a few rules against one tree.',
  'src/lib/lookup-table.cc src/lib/lookup-table-hash.cc src/lib/lookup-table-marisa.cc src/lib/translation-rule.cc',
  [('state matching over the tree', 'src/lib/lookup-table.cc LookupTable::TransformGraph'), ('hash states', 'src/lib/lookup-table-hash.cc'), ('trie states', 'src/lib/lookup-table-marisa.cc')])
P('R02', 'Grammar-based parsing builds exactly the derivations the grammar licenses',
  '''For any input sentence and any synchronous grammar (hierarchical or syntax-labelled, one or several tables), the forest built by grammar-based parsing contains every derivation the grammar licenses within the span limit
  and nothing else, each edge carrying the right rule, children and span, including unknown words, unary rules and top-level combination of partial parses where configured.''',
  'inputs configurations', 'all sentences up to a length over a small alphabet x all small grammars (rank 0-2, terminals in any position, unary rules, labels), span limits, one or two tables',
  'Two or three grammars are tested on one sentence each.',
  'src/lib/lookup-table-fsm.cc src/lib/rule-fsm.cc src/lib/translation-rule-hiero.cc',
  [('rule FSM', 'src/lib/rule-fsm.cc'), ('chart parser', 'src/lib/lookup-table-fsm.cc')])
P('R04', 'Language model composition scores every derivation exactly',
  '''Composing a translation forest with n-gram language models adds to every derivation exactly the weighted log-probability of its full output sentence including sentence boundaries, plus the unknown-word feature,
  for every order, factor and weight. With pruning off, the bottom-up composition keeps the best derivation for every forest, and pruned or incremental search never reports a score that differs from the true score of the derivation it returns.''',
  'inputs configurations', 'all small translation forests (terminal/non-terminal orders, several tails, empty targets, unknown words) x several n-gram models x weights x pop limits',
  'Tests compose one forest with one model; the incremental tests do not pass on this machine.',
  'src/lib/lm-composer-bu.cc src/lib/lm-composer-incremental.cc src/lib/lm-func.cc src/kenlm/lm/left.hh src/kenlm/search/vertex.cc',
  [('cube pruning with LM states', 'src/lib/lm-composer-bu.cc'), ('incremental search', 'src/lib/lm-composer-incremental.cc')])
P('R05', 'The decoder program outputs the best translation its models define',
  '''For every input the decoder program prints, in input order, the translation with the highest weighted feature score among all those the configured models allow; its n-best list is sorted and each entry's printed score equals the weights applied to its printed features.
  Weights, factors, casing, splitting, binarization and input formats act as configured, a sentence without any translation yields an empty line without disturbing the others, and settings that make no sense are refused.''',
  'inputs configurations', 'all small rule tables, weight settings and sentences over a bounded alphabet, across rule-table implementations and output options',
  'The decoder program itself has no test.',
  'src/lib/travatar-runner.cc src/lib/config-base.cc src/bin/travatar.cc',
  [('sentence task', 'src/lib/travatar-runner.cc TravatarRunnerTask::Run')])

# ---------------------------------------------------------------- language model
P('K01', 'N-gram models return the exact back-off probability for every query',
  '''For any model and any word sequence, each of the storage formats returns the probability and matched length that the back-off definition gives, its context state never changes any later score, and a model saved in binary form and loaded again answers identically (up to the documented quantization).
  Malformed or truncated model files are rejected instead of answering wrongly.''',
  'inputs configurations', 'all small ARPA models (vocabulary, order, which n-grams and back-offs exist) x all queries up to a length x all storage formats; all truncation points of a model file',
  'The shipped tests query one model with a few sentences and several of them fail to run here.',
  'src/kenlm/lm/model.cc src/kenlm/lm/search_hashed.cc src/kenlm/lm/search_trie.cc src/kenlm/lm/read_arpa.cc src/kenlm/lm/binary_format.cc src/kenlm/lm/trie.cc src/kenlm/lm/quantize.cc',
  [('scoring with back-off', 'src/kenlm/lm/model.cc GenericModel'), ('binary format', 'src/kenlm/lm/binary_format.cc')])
P('K02', 'Chart scoring of fragments is independent of how a sentence was put together',
  '''Scoring a sentence by combining partially scored fragments in any bracketing gives the same total as scoring it left to right, for every model, sentence and tree of combinations, including fragments with non-terminals first, last or alone. Fragments whose chart states are equal are interchangeable in every context.''',
  'inputs', 'all sentences up to a length x all binary/ternary bracketings x several small models and storage formats',
  'One model and a few fixed bracketings are tested (and fail to load here).',
  'src/kenlm/lm/left.hh src/kenlm/lm/partial.hh src/kenlm/lm/state.hh',
  [('left/right state bookkeeping', 'src/kenlm/lm/left.hh RuleScore')])
P('K03', 'Language model estimation yields a proper smoothed distribution',
  '''For any training text, order and pruning threshold that estimation accepts, the written model assigns to every context probabilities that sum to one over the vocabulary, keeps exactly the n-grams that occur more often than their threshold (and always <unk>, <s> and </s>), and equals interpolated modified Kneser-Ney smoothing computed directly from the counts.
  The result does not depend on buffer sizes or block counts.''',
  'inputs configurations', 'all small corpora over a bounded vocabulary x orders 1-3 x prune thresholds x memory settings',
  'The estimation program has no enabled test.',
  'src/kenlm/lm/builder/adjust_counts.cc src/kenlm/lm/builder/initial_probabilities.cc src/kenlm/lm/builder/interpolate.cc src/kenlm/lm/builder/corpus_count.cc src/kenlm/lm/builder/pipeline.cc',
  [('estimation pipeline', 'src/kenlm/lm/builder/pipeline.cc')])
P('K04', 'Packed storage structures return exactly what was stored',
  '''Bit-packed integers and floats, sorted-array search, hash tables, joint sorting and the compact string trie return exactly the values stored for exactly the keys stored, for every width, offset, key set and insertion order, and never disturb neighbouring entries. Structures saved to disk and loaded again answer identically.''',
  'inputs histories', 'all bit widths, offsets and boundary values; all key sets/insert orders of bounded size; all lookups incl. absent keys',
  'Tests use a few widths and random key sets.',
  'src/kenlm/util/bit_packing.hh src/kenlm/util/sorted_uniform.hh src/kenlm/util/probing_hash_table.hh src/kenlm/util/joint_sort.hh src/kenlm/util/multi_intersection.hh src/marisa/marisa/trie.cc',
  [('bit packing', 'src/kenlm/util/bit_packing.hh'), ('probing table', 'src/kenlm/util/probing_hash_table.hh'), ('trie', 'src/marisa/marisa/trie.cc')])
P('K05', 'Text input gives the same lines and tokens however the bytes arrive',
  '''Reading a file yields exactly the same lines, tokens and numbers whether it is mapped or read, plain or (where decompression is built in) compressed, and whatever chunk sizes the operating system returns, including short and interrupted reads; a missing final newline, empty lines and NUL bytes are preserved and end of file is reported once.
  Truncated or failing input is reported as an error, never as a silently shorter text.''',
  'inputs fault_sequences', 'all small files over an alphabet of separators and text x all sequences of short reads/interrupts up to a depth x buffer sizes x access modes',
  'Tests read one file through each access path with whole reads.',
  'src/kenlm/util/file_piece.cc src/kenlm/util/read_compressed.cc src/kenlm/util/file.cc src/lib/input-file-stream.cc',
  [('buffer shifting', 'src/kenlm/util/file_piece.cc'), ('gz-aware stream', 'src/lib/input-file-stream.cc')])

# ---------------------------------------------------------------- rule extraction
P('X01', 'Tree-based extraction yields exactly the minimal rules the alignment permits',
  '''For any source tree or forest, target sentence and word alignment, the extracted minimal rules are exactly those of the definition: nodes whose target span does not overlap the words aligned outside them are rule boundaries,
  every derivation is cut at those boundaries and nowhere else, and unaligned target words attach as configured (not at all, to the highest boundary, or in every permitted way). Each rule's source and target side reproduce the covered words, with variables numbered consistently.''',
  'inputs configurations', 'all trees over up to 4 words x all alignments to up to 4 target words x attachment modes',
  'One sentence pair is tested per mode.',
  'src/lib/forest-extractor.cc src/lib/forest-extractor-runner.cc src/lib/alignment.cc',
  [('frontier computation', 'src/lib/hyper-graph.cc HyperGraph::CalculateFrontier'), ('rule graph', 'src/lib/forest-extractor.cc ForestExtractor::ExtractMinimalRules')])
P('X02', 'Composed rules are exactly the bounded combinations of minimal rules',
  '''Rule composition outputs each connected combination of minimal rules up to the configured number of parts and nonterminals exactly once, with the substituted target side, the combined source fragment and the product of the parts' probabilities, and no others. Size and count filters drop exactly the rules over their limits.''',
  'inputs configurations', 'all minimal rule graphs arising from trees up to 4 words x alignments x composition limits x filter limits',
  'One example tree is tested.',
  'src/lib/rule-composer.cc src/lib/rule-filter.cc',
  [('composition', 'src/lib/rule-composer.cc'), ('filters', 'src/lib/rule-filter.cc')])
P('X03', 'Hierarchical phrase extraction yields exactly the consistent phrase pairs',
  '''For any aligned sentence pair, the extracted initial phrases are exactly the span pairs that contain at least one link and no link leaving them, within the length limits; the hierarchical rules are exactly those made by replacing up to two non-overlapping inner phrase pairs by variables within the configured limits.
  Every rule's two sides re-expand to the words it was taken from.''',
  'inputs configurations', 'all alignments between sentences of up to 4x4 words x limits on initial and rule length',
  'One or two sentence pairs are tested.',
  'src/lib/hiero-extractor.cc src/include/travatar/hiero-extractor.h',
  [('phrase extraction', 'src/lib/hiero-extractor.cc HieroExtractor::ExtractPhrase'), ('rule generation', 'src/lib/hiero-extractor.cc HieroExtractor::ExtractHieroRule')])

# ---------------------------------------------------------------- input/output
P('I01', 'Tree and forest formats survive reading and writing',
  '''Writing any tree or forest in a format that can be read back and reading it again gives the same graph: nodes, labels, word spans, edge structure, scores, features and target data that the format carries. Converting between formats never changes the tree,
  several trees in one stream stay separate, and malformed input is rejected with an error rather than misread.''',
  'inputs', 'all trees/forests of bounded size over labels and words that need escaping; all truncations and single-character corruptions of small inputs; all format pairs',
  'Each format has a test of one well-formed example.',
  'src/lib/tree-io.cc src/lib/tree-converter-runner.cc src/lib/io-util.cc',
  [('readers/writers', 'src/lib/tree-io.cc')])
P('I02', 'Rule, sentence and feature text parse back to what was printed',
  '''Printing and re-parsing sentences, factored sentences, feature vectors and rule sides with variables and labels returns the same content for every word including ones with quotes, backslashes and separators, and parsing never conflates distinct texts (numbers up to the printed digits).
  Malformed annotated text is rejected rather than silently altered.''',
  'inputs', 'all word sequences and variable/label/factor patterns of bounded length over an alphabet of special characters; all short raw strings for rejection',
  'A few strings are tested.',
  'src/lib/dict.cc src/lib/cfg-data.cc src/lib/translation-rule-hiero.cc src/include/travatar/string-util.h',
  [('parse/print', 'src/lib/dict.cc')])
P('I03', 'Sparse feature vectors obey vector algebra',
  '''Sums, differences, scalings, products and dot products of sparse feature vectors, in both the map and the sorted-list form and in any mix of them, equal the coordinate-wise operation on ordinary vectors for every combination of overlapping and disjoint coordinates. Vectors of equal content compare equal, construction merges repeated coordinates, and no operation changes its operands.''',
  'inputs histories', 'all pairs/triples of vectors over 3-4 coordinates with values from a small grid and all operation sequences up to a depth',
  'A handful of fixed vectors are tested.',
  'src/lib/sparse-map.cc src/include/travatar/sparse-map.h',
  [('sorted merge', 'src/lib/sparse-map.cc')])
P('I04', 'Program options are read exactly as given',
  '''For every sequence of command-line arguments and configuration-file entries, each option gets exactly the value last given for it or its default, positional arguments keep their order, lists split at their separators, and command-line values override file values.
  Unknown options, wrong argument counts and values of the wrong type are rejected.''',
  'inputs configurations', 'all argument vectors and configuration files up to a length over flags, values and odd tokens',
  'Option handling has no test.',
  'src/lib/config-base.cc src/include/travatar/config-base.h',
  [('argument scan', 'src/lib/config-base.cc ConfigBase::LoadConfig')])

# ---------------------------------------------------------------- text processing
P('P01', 'Tokenization never loses or invents text',
  '''Tokenizing any line leaves its non-space text unchanged apart from the documented replacements (quotes, brackets, contractions), produces no empty tokens, and keeps each line on one line. Numbers, abbreviations and sentence-final punctuation are separated as documented.''',
  'inputs', 'all strings up to a length over an alphabet of letters, digits, punctuation, quotes, brackets and multi-byte characters',
  'A few sentences are tested.',
  'src/lib/tokenizer-penn.cc src/lib/tokenizer.cc', [('ordered substitutions', 'src/lib/tokenizer-penn.cc')])
P('P02', 'Casing changes only the words it should, consistently everywhere',
  '''Lower-, title- and true-casing change nothing but letter case, act on exactly the words that start a sentence (or all words when lower-casing), and change a sentence, its parse graph and its words in the same way; true-casing maps each word to its most frequent trained form and leaves unknown words alone.''',
  'inputs', 'all sentences up to a length over words of mixed case, sentence enders and quote marks; all small training corpora',
  'A few sentences are tested.',
  'src/lib/caser.cc src/lib/train-caser-runner.cc', [('sentence-start detection', 'src/lib/caser.cc Caser::SentenceFirst')])
P('P03', 'Word splitting preserves the text and produces a well-formed tree',
  '''Splitting words by pattern or by corpus frequency yields pieces whose concatenation is the original word (minus a configured filler), re-indexes all spans so that every node still covers the same text, and leaves unsplit words, scores and features untouched. Compounds are split at the best-scoring segmentation only when it beats the whole word.''',
  'inputs configurations', 'all trees up to 3 words over a small alphabet x split patterns; all frequency tables over a small lexicon',
  'One or two trees are tested.',
  'src/lib/word-splitter.cc src/lib/word-splitter-regex.cc src/lib/word-splitter-compound.cc', [('splitter', 'src/lib/word-splitter.cc')])

# ---------------------------------------------------------------- evaluation
P('E01', 'BLEU and NIST scores equal their definitions',
  '''For any reference and system output and any configuration, BLEU (all variants: order, smoothing, precision weight, mean, brevity, inverse, scope) and NIST equal the value computed directly from their definitions, lie in range, are 1 (maximal) for identical texts of sufficient length, and do not depend on how words are numbered or on caching.''',
  'inputs configurations', 'all sentence pairs up to a length over a 2-3 word alphabet, and pairs of sentences as corpora, x configurations',
  'A few sentence pairs are tested.',
  'src/lib/eval-measure-bleu.cc src/lib/eval-measure-nist.cc', [('clipped n-gram counts', 'src/lib/eval-measure-bleu.cc')])
P('E02', 'RIBES equals its published definition',
  '''For any reference and system output, RIBES equals normalized Kendall's tau over the one-to-one word correspondences found with growing context, times the precision and brevity factors with the configured exponents; it lies between 0 and 1 and is 1 for identical sentences of distinct or context-distinguishable words.''',
  'inputs configurations', 'all sentence pairs up to length 5-6 over a 2-4 word alphabet x parameter settings',
  'A few sentence pairs are tested.',
  'src/lib/eval-measure-ribes.cc', [('context disambiguation', 'src/lib/eval-measure-ribes.cc')])
P('E03', 'Edit-based scores count real edits',
  '''Word error rate equals the Levenshtein distance divided by the reference length. Translation edit rate counts no edit exactly for identical sentences, one edit when a single block of words is moved, never more edits than word error rate and never fewer than the true minimum with unit-cost block moves; reversed/inverse modes are one minus the score.''',
  'inputs', 'all sentence pairs up to length 5 over a 3-word alphabet',
  'A few sentence pairs are tested.',
  'src/lib/eval-measure-wer.cc src/lib/eval-measure-ter.cc src/tercpp/tercalc.cpp', [('edit distance', 'src/lib/eval-measure-wer.cc'), ('shift search', 'src/tercpp/tercalc.cpp')])
P('E04', 'Score statistics add up and survive saving',
  '''For every measure, statistics of a corpus are the sum of the sentence statistics in any order or grouping, scaling and subtracting undo adding, copies are independent, saved statistics read back to the same score up to the printed digits, and interpolated measures equal the same arithmetic on the parts' scores, including measures over different factors.''',
  'inputs histories', 'all measure configurations x all sequences of add/scale/copy/save operations up to a depth over a small set of sentence pairs',
  'Addition is tested for a couple of measures once.',
  'src/lib/eval-measure.cc src/include/travatar/eval-measure.h src/lib/eval-measure-interp.cc src/lib/eval-measure-adv-interp.cc', [('statistics vector', 'src/lib/eval-measure.cc')])
P('E05', 'Score expressions evaluate by ordinary arithmetic rules',
  '''An arithmetic expression over score variables evaluates to the value ordinary precedence, associativity and parentheses give, for every expression. Expressions with unbalanced parentheses, missing or surplus operands, unknown variables or unknown characters are rejected.''',
  'inputs', 'all token strings up to a length over numbers, variables, operators, parentheses and spaces',
  'About a dozen expressions are tested.',
  'src/lib/math-query.cc src/include/travatar/math-query.h', [('shunting-yard evaluation', 'src/lib/math-query.cc')])
P('E06', 'Evaluation and segmentation tools report what the measures define',
  '''The evaluation tool prints for every file the corpus score and for every sentence the sentence score of each measure, reports length mismatches, and its significance test counts wins, ties and losses of the resampled sets correctly. The segmenter splits output so that the pieces concatenate to the input, one per reference, with the best total score (for measures that average over sentences) among all segmentations allowed by the length limit, and reports when there is none.''',
  'inputs configurations', 'all small reference/system corpora x measures x options',
  'The evaluation tool is untested; the segmenter is tested on one example.',
  'src/lib/mt-evaluator-runner.cc src/lib/mt-segmenter-runner.cc', [('evaluation loop', 'src/lib/mt-evaluator-runner.cc'), ('segmentation search', 'src/lib/mt-segmenter-runner.cc')])

# ---------------------------------------------------------------- tuning
P('M01', 'Line search over n-best lists finds the true optimum along the line',
  '''For any n-best lists, weights and direction, the piecewise-constant description used by line search assigns to every interval a hypothesis with the highest model score there, and the chosen step lies in the allowed range and achieves the best corpus score attainable inside it; the reported before and after scores and the gain are those of the actual selections (where hypotheses tie at a boundary point, of either side).''',
  'inputs', 'all sets of 1-2 sentences with up to 4 hypotheses with small integer features and scores x directions x ranges',
  'A few hand-made lists are tested.',
  'src/lib/tuning-example-nbest.cc src/lib/tune-mert.cc', [('upper envelope', 'src/lib/tuning-example-nbest.cc'), ('line search', 'src/lib/tune-mert.cc TuneMert::LineSearch')])
P('M02', 'Forest line search equals line search over all its derivations',
  '''For any translation forest, weights and direction, the envelope computed over the packed forest equals the upper envelope of the score lines of all its derivations, and the translation attached to each segment is that of a derivation attaining it. Merging forests of several decoding runs gives the envelope of their union.''',
  'inputs', 'all small forests with small integer features, sharing and ties x directions',
  'One forest is tested.',
  'src/lib/mert-geometry.cc src/lib/tuning-example-forest.cc', [('envelope semiring', 'src/lib/mert-geometry.cc')])
P('M03', 'Tuning objectives return their exact value and gradient',
  '''The expected-score objective equals the score of the expected statistics under the softmax distribution plus the configured regularisers, and the gradient it returns equals the derivative of that value in every weight and in the scale, for every measure it supports (within one percent of equal lengths the brevity penalty of BLEU is smoothed, and the derivative is not exact there); other measures are refused. The gradient does not depend on what the caller's array held before, and gradient-based tuning never reports or returns less than its start.''',
  'inputs configurations', 'all small n-best sets over feature/score grids x weights x regularisers x measures',
  'A few points are tested for two measures.',
  'src/lib/gradient-xeval.cc src/lib/gradient.cc', [('expectation gradient', 'src/lib/gradient-xeval.cc')])
P('M04', 'Tuning never ends with a worse score than it started from',
  '''Whatever the n-best lists, starting weights, directions, ranges and thresholds, minimum-error-rate tuning and (for measures that are averages over sentences) greedy tuning return weights whose corpus score is at least that of the starting weights and equals the score they report, up to ties between equally scored hypotheses; weights that start within the configured ranges stay within them; tuning stops, for online updates too, which report the score of the weights they return.''',
  'inputs configurations', 'all small n-best sets x starting weights x direction settings x ranges',
  'One or two fixed problems are tested.',
  'src/lib/tune-mert.cc src/lib/tune-greedy-mert.cc src/lib/tune.cc src/lib/batch-tune-runner.cc', [('coordinate ascent', 'src/lib/tune-mert.cc TuneMert::RunTuning')])
P('M05', 'Online weight updates follow their update rules',
  '''After any sequence of updates and reads, perceptron, averaged perceptron and adaptive-gradient weights equal those obtained by applying the published update rule step by step (averages over all iterations, clipping to ranges, lazy regularisation), independent of when weights are read.''',
  'histories', 'all update/read sequences up to a depth over small feature vectors and scores x settings',
  'A few updates are tested.',
  'src/lib/weights-perceptron.cc src/lib/weights-average-perceptron.cc src/lib/weights-adagrad.cc src/lib/weights.cc', [('lazy updates', 'src/lib/weights-average-perceptron.cc')])
P('M06', 'N-best rescoring orders hypotheses by the requested criterion',
  '''Rescoring prints, for every sentence, all (or with minimum Bayes risk the retained) hypotheses in non-increasing order of the weighted feature score or of the exact expected gain under the scaled posterior, with features unchanged and the best one as the output line.''',
  'inputs configurations', 'all small n-best files x weights x measures x scale and size settings',
  'One or two lists are tested.',
  'src/lib/rescorer-runner.cc src/include/travatar/rescorer-runner.h', [('rescoring', 'src/lib/rescorer-runner.cc')])

# ---------------------------------------------------------------- training scripts
P('S01', 'Alignment symmetrization heuristics follow their definitions',
  '''For any pair of directional alignments, each symmetrization heuristic outputs the links its definition gives: results lie between intersection and union, growing steps only add neighbouring union links that cover an uncovered word, and sentence order is kept.''',
  'inputs configurations', 'all pairs of directional alignments between sentences of up to 3x3 words x heuristics',
  'Scripts have no tests.', 'script/train/symmetrize.pl', [('grow-diag-final', 'script/train/symmetrize.pl')])
P('S02', 'Rule scoring gives correct relative frequencies and lexical weights',
  '''Scoring, reversing and merging extracted rules gives each distinct rule exactly once with conditional probabilities equal to its count over the count of its condition (in both directions), lexical weights from the given table, and target sides per source limited to the best as configured. No rule is lost at file or source boundaries.''',
  'inputs configurations', 'all small multisets of extracted rules in sorted order x smoothing and limit options',
  'Scripts have no tests.', 'script/train/score-t2s.pl script/train/reverse-rt.pl script/train/combine-rt.pl script/train/align2lex.pl', [('grouping by source', 'script/train/score-t2s.pl'), ('merge of both directions', 'script/train/combine-rt.pl')])
P('S03', 'Corpus and model filters keep exactly the lines their criteria select',
  '''Length, vocabulary and rule-table filters and n-best utilities output exactly the lines that satisfy their documented criterion, in order and unchanged, keep parallel files in step, and never drop a rule that the input could use.''',
  'inputs configurations', 'all small parallel corpora, rule tables, n-best lists and trees x filter options',
  'Scripts have no tests.', 'script/train/clean-corpus.pl script/train/filter-rt.pl script/train/filter-model.pl script/mert/nbest-uniq.pl script/tree/limit-length.pl', [('line filters', 'script/train/filter-rt.pl')])

P('S04', 'The tuning loop tunes on all candidates so far and installs the tuned weights',
  '''In every iteration the tuning script decodes the development data with the weights of the previous iteration and otherwise unchanged settings,
  tunes from those weights on the candidates of all iterations so far (each distinct n-best entry once, with its own statistics), and
  stops when no weight changed (summed over old and new features) or the limit is reached; the final configuration is the original one with the last weights. A failing program
  stops the loop without a result, and resuming continues with the iteration that failed and reaches the result an undisturbed run reaches. Dense lists for the external optimizer keep each value in its weight's place.''',
  'histories fault_sequences', 'all answers of decoder and optimizer over 1-3 iterations, every failing call, with and without resuming, and all option settings',
  'Scripts have no tests; stopping, merging and resuming depend on several iterations.', 'script/mert/mert-travatar.pl script/mert/update-weights.pl script/mert/nbest-uniq.pl script/mert/densify-nbest.pl script/mert/make-init-opt.pl', [('outer loop', 'script/mert/mert-travatar.pl'), ('installing weights', 'script/mert/update-weights.pl')])

P('S05', 'Tree and casing scripts keep every word in order and apply their rule',
  '''Converting a dependency tree to a phrase structure tree keeps the words in order and makes every dependency phrase a constituent that its head builds up from the right side, then the left side,
  then closing punctuation; raising closing punctuation, joining pretty-printed trees and lowercasing change nothing else; trees rebuilt from the rules of a translation trace are the input tree and the tree of the translation. Truecasing counts the cased forms of words that do not begin
  sentences, gives words at sentence starts and unknown forms their most frequent form, and leaves known forms alone; undoing it capitalizes exactly the first words of sentences.''',
  'inputs', 'all dependency trees of 1-5 words, all small phrase structure trees with punctuation, all corpora of two short sentences, all sentences up to 4 words x models',
  'Scripts have no tests.', 'script/tree/ja-dep2cfg.pl script/tree/raise-punc.pl script/tree/stanford2oneline.pl script/tree/lowercase.pl script/tree/trace2parse.pl script/recaser/train-truecaser.pl script/recaser/truecase.pl script/recaser/detruecase.pl', [('building phrases around heads', 'script/tree/ja-dep2cfg.pl'), ('casing models', 'script/recaser/truecase.pl')])

P('S06', 'A training run that was killed or failed is completed by resuming it',
  '''The training script leads from the parallel text to alignment, lexical probabilities, extracted rules, scored rule table and configuration exactly as its parts define with the options and ready-made
  files it was given, and stops after the last step asked for. When any program it runs fails, it fails and leaves no configuration. Killed at any moment, also in the middle of writing a file, and
  run again with -resume, it ends with the files an undisturbed run gives, without repeating alignment or extraction once the step after them has been started. It does not touch an existing working directory unless told to resume, nor the files it was given.''',
  'crash_points fault_sequences configurations', 'every change the run makes to the file system (torn writes) and pairs of them, every failing program, all groups of options',
  'The training script has no tests; unfinished files are indistinguishable from finished ones unless the run was killed at that very moment.', 'script/train/train-travatar.pl script/train/align2lex.pl script/train/symmetrize.pl script/train/score-t2s.pl script/train/reverse-rt.pl script/train/combine-rt.pl', [('what is taken to be finished', 'script/train/train-travatar.pl'), ('running programs', 'script/train/train-travatar.pl')])

P('S07', 'Preprocessing takes every line through every step, in parts or at once',
  '''For any number of parts and either way of splitting, also with fewer lines than parts, preprocessing ends with the files that tokenizing, cleaning, parsing, word splitting, lowercasing,
  truecasing, forest parsing (with the tree in place of a failed forest) and aligning give line by line: no line is lost, repeated or changed otherwise, files of one text and both texts of a parallel corpus stay in step,
  and the casing model is trained on the whole text. Consecutive parts, and interleaved parts without cleaning, also keep the order.''',
  'configurations inputs', 'texts of 1-25 lines x 1-16 parts x both ways of splitting x length patterns around the cleaning limit x groups of steps',
  'Scripts have no tests; the parts only show with several processes.', 'script/preprocess/preprocess.pl script/train/clean-corpus.pl script/tree/replace-failed-parse.pl script/tree/lowercase.pl', [('parts', 'script/preprocess/preprocess.pl'), ('failed forests', 'script/tree/replace-failed-parse.pl')])

# ================================================================ checks
SEQ = 'exhaustive bounded enumeration (stateless model checking) of the real code against a reference model'
TRUST = ['g++ and the C++ library are correct', 'values outside the stated alphabet and sizes behave like those inside it']
C('H01', SEQ, '''Every hypergraph within the bounds is built and searched by the real n-best code; the oracle enumerates all derivations. Nothing is sampled.''',
  [{'src': 'h01.cc'}],
  'all graphs of 1-3 nodes, 1-2 edges per node, 0-2 tails, 2 scores; 3-tail edges with ties; fractional scores; unique mode with 2 words; 2 factors; k in {1,2,half,all,all+3}',
  'additionally 3 scores, 3 edges per node, and 4-node graphs (time-limited)', TRUST)

C('H02', SEQ, '''The real inside-outside and softmax code runs on every graph and score list within the bounds; the oracle sums over all derivations in extended precision.''',
  [{'src': 'h02.cc', 'budget': {'thorough': 1800}}],
  'all graphs of 1-3 nodes, up to 2 edges per node, 0-2 tails incl. leaves and unreachable nodes, 3 log weights spanning 800; up to 4 parallel edges; all score lists up to length 4 over 8 magnitudes',
  'additionally 3 edges per node, 4-node graphs, lists up to length 5', TRUST)
C('I03', SEQ, '''Every pair of vectors, every construction list and every operation history within the bounds runs on the real classes and is compared with dense arithmetic.''',
  [{'src': 'i03.cc'}],
  'all pairs of vectors over 3 coordinates and 4 values; all construction lists up to 5 entries; all operation histories of length 4 (6 operands, 7 operations)',
  'pairs over 4 coordinates and 5 values, lists up to 6, histories of length 5', TRUST + ['values are small dyadic numbers so that results are exact'])
C('H03', SEQ, '''Every small parse tree and forest is pushed through each real transform; derivations before and after are enumerated and compared as trees with labels, spans, features and scores.''',
  [{'src': 'h03.cc', 'budget': {'thorough': 3600}}],
  'all trees over 1-3 words with 3 labels, forests over 3-4 words with up to 2 alternatives per node (edge budget 5-6), wide edges of 3-5 children with every label pattern; 5 binarizers, flattening, n-best pruning, copy, append',
  'trees over 1-4 words, 2 labels in forests, forests over 5 words, 6 children', TRUST + ['CKY binarization is checked below its documented limit of 7 children'])
C('E01', SEQ, """Every pair of small texts is scored by the real measures under every configuration of a grid and compared with the definition computed by plain counting.""",
  [{'src': 'e01.cc'}],
  'all pairs of texts up to 4 words over 2 words and up to 3 over 3 words x 288 BLEU configurations; all two-sentence corpora up to 2-3 words; NIST of all two-sentence corpora x 12 configurations; identical texts up to 30 words for every precision weight in tenths',
  'texts up to 6 words over 2 words, 768 configurations, 3-word corpora, NIST up to 4-5 words', TRUST)
C('E02', SEQ, """Every pair of small sentences is scored by the real RIBES and by a direct transcription of the published definition (n-gram counting instead of candidate lists).""",
  [{'src': 'e02.cc'}],
  'all pairs up to 6 words over 2 words, 5 over 3, 4 over 4; all permutations of up to 6 words; all two-sentence corpora up to 2 words; 5 parameter settings',
  'up to 8 words over 2, 6 over 3, 5 over 4; permutations of 7; corpora up to 3 words', TRUST)
C('E03', SEQ, """Every pair of small sentences is scored by the real WER and TER; oracles are Levenshtein distance and breadth-first search over all edit and block-move sequences.""",
  [{'src': 'e03.cc'}],
  'all pairs up to 5 words over 2 words and 4 over 3; every single block move of up to 7 distinct words; all two-sentence corpora up to 2 words',
  'up to 6 words over 2, 5 over 3, moves of 10 words, corpora up to 3 words', TRUST + ['the lower bound on TER is checked up to 3 edits'])
C('E04', SEQ, """Every history of statistics operations within the bounds runs on the real classes and is compared with coordinate-wise arithmetic on the parts.""",
  [{'src': 'e04.cc'}],
  'all histories of 4 operations out of 11 (add, scale, subtract, copy, save and reload) over 3 sentence pairs for 17 measures; all groupings of 4 sentences; all factor assignments of combined measures over 2-factor sentences up to 2 words',
  'histories of 5 operations, groupings of 5, 3 words', TRUST)
C('E05', SEQ, """Every token string within the bounds is evaluated by the real parser and by recursive descent.""",
  [{'src': 'e05.cc'}],
  'all strings of up to 5 tokens out of 10 (6 out of 6) x spacing; all operator chains of 2-4 operands with every pair of nested or disjoint brackets; number formats; unknown characters',
  'strings up to 7 tokens, chains of 5 operands', TRUST)
C('E06', SEQ, """The real programs run in-process on every corpus within the bounds; the segmentation oracle enumerates all segmentations, the significance oracle all choices of subsets.""",
  [{'src': 'e06.cc'}],
  'all corpora of 1-2 lines with 1-2 systems over 2 words (7 measures at once, per-sentence output on/off); all file lengths 0-4 against 1-3 references; all significance tables of 2-3 sentences and 2-3 sets; all segmentations of up to 4 words into 1-3 pieces x slack x measures x line breaks',
  'longer sentences, 6 words in segmentation, 5 slack values', TRUST + ['the reference file has at least one line, two with significance testing'])
SCHED = 'exhaustive exploration of thread interleavings of the real code under a controlled scheduler, up to a preemption bound, with happens-before race detection'
STRUST = ['g++ and the C++ library are correct', 'preemption between two synchronisation operations matters only if the code races, and races are reported',
          'threads are preempted at the synchronisation operations of the objects under test and at marked points, not inside the C++ library']
C('C01', SCHED, """The real pool runs with real threads; every mutex, condition and thread operation is a scheduling point. Deadlocks, livelocks, races and misuse of synchronisation objects are reported by the scheduler, lost or repeated tasks by the harness.""",
  [{'src': 'c01.cc', 'config': 'sched'}],
  '1-3 workers, 0-4 tasks incl. failing and submitting ones, 1-2 submitters, queue limits 0-2, stops with and without processing, waits; up to 1-2 preemptions and 1 spurious wake-up',
  'up to 3 preemptions, 2 spurious wake-ups, larger client mixes', STRUST)
C('C02', SCHED, """Every history of writes, skips and flushes of up to 5-6 sentences is compared with a reference collector, and small sets of concurrent writers run under every schedule.""",
  [{'src': 'c02.cc', 'config': 'sched'}],
  'all completion orders of up to 5 sentences x write/skip/empty mixes x buffered and unbuffered; 2 writers with 1-2 writes each and 3 writers, up to 2 preemptions',
  '6 sentences, 3 preemptions', STRUST)
C('C03', SCHED, """Every interning history is compared with a map, and 2-3 threads interning, finding and reading back overlapping strings run under every schedule, on a table of their own and on the global dictionary.""",
  [{'src': 'c03.cc', 'config': 'sched'}],
  'all histories of up to 5 operations over 3 strings; 2 threads with 1 operation (2 preemptions) and 2 operations (1 preemption) each, 3 threads with 1 operation each',
  'histories of 6 operations, 2-4 preemptions', STRUST)
C('R01', SEQ, """Every small parse tree or forest is translated by both real rule tables with every table within the bounds; the oracle matches each rule's source fragment recursively at every node and builds the expected forest, including unknown-word rules and target-label constraints. Forests are compared as sets of nodes and edges, not by numbering.""",
  [{'src': 'r01.cc', 'budget': {'thorough': 2400}}],
  'trees over 1-3 words, forests over 1-2 words with 2 alternatives per node, 2 labels (one a prefix of the other); all 700 source fragments of depth 2 one at a time; all tables of 2-3 rules out of the fragments occurring in the tree plus a near miss; match-all, target-label and two-factor modes; names that look like table syntax',
  'forests over 3 words, 3-rule tables over 3 words', TRUST + ['words occur below preterminals only, node numbers put parents before children'])
C('R02', SEQ, """Every grammar within the bounds parses every small sentence; the oracle computes all licensed items as a fixpoint and from it the exact expected forest.""",
  [{'src': 'r02.cc', 'budget': {'thorough': 1800}}],
  'all grammars of up to 4 rules over 12 source patterns (1 label), up to 3 rules over 10 patterns (2 labels), distributed over 1-2 tables in every way, span limits 1, 2 and none, every sentence up to 3-4 words over 2 words; all unary-rule graphs over 3 labels; 1-2 target factors with labels of their own; 17 malformed rules',
  '5 rules, 3 labels, longer sentences', TRUST + ['every variable and head in a rule is labelled; unary cycles across two tables are outside'])
C('R04', SEQ, """Every small forest is composed with small models by the real bottom-up and incremental composers; every derivation of the result must be one of the input with the score and features that the back-off definition gives its full sentence.""",
  [{'src': 'r04.cc', 'budget': {'thorough': 1800}}],
  'single derivations of 1-4 rules with every target side (0-3 variables in every order, words in every gap, empty sides, unknown words) x 6 models of order 2-5; all 3-node forests with up to 2 edges per node (nodes without edges too) x 4 models x limits; 1-5 competing alternatives x weights (zero and negative) x pop and chart limits; 1-2 models x factors x 4 storage formats',
  'deeper single derivations, 6 models, more alternatives and weights', TRUST + ['every variable occurs exactly once in the target side'])
C('K01', SEQ, """Every model within the bounds is written as ARPA, loaded in all six storage formats, saved in binary form (both write methods, all load methods) and queried with every word sequence; probabilities, matched lengths and states are compared with the back-off definition on the model's own table. Damaged files must be rejected.""",
  [{'src': 'k01.cc', 'budget': {'thorough': 1800}}],
  'all bigram sets over 2 words, all order-3 n-gram sets over 1 word, trigram sets over 2 words with and without missing suffixes, order 4-5 mixtures; every query of 3-5 words; every byte cut and line damage of ARPA files, cuts and header damage of binary files; vocabularies around the 16 KB read buffer',
  'larger sets, longer queries', TRUST + ['context states are compared by what they do to later scores; quantizers use at least 2 bits'])
C('K02', SEQ, """Every sentence within the bounds is put together from scored fragments in every way (up to three parts per step, empty fragments in between, both entry points for leading fragments) and compared with the left-to-right back-off score; all fragments with equal states are compared in every context.""",
  [{'src': 'k02.cc'}],
  '9 models of order 2-5 x 6 storage formats; all sentences up to 5 words over 2 words and one unknown, all bracketings; all pairs of fragments up to 4 words in all contexts up to 2+2 words',
  '12 models, sentences up to 6 words, fragments up to 5 words, contexts up to 3+3', TRUST)
C('X01', SEQ, """Every small tree or forest with every alignment goes through the real extractor in all three attachment modes (directly and through the program); the printed rules are compared as a multiset with those of the definition, computed recursively from source spans and links alone.""",
  [{'src': 'x01.cc', 'budget': {'thorough': 2400}}],
  'all trees over 1-3 words (2-3 labels, unary chains) x all alignments to 0-3 words x attachment lengths 0-2; 4-word trees to 3 words; forests with 2 alternatives per node; trees with words beside constituents; rows of 2-5 words with every partial alignment to up to 6 words; 84672 runs of the program on 1-2 sentences with and without target trees and binarization',
  '4-word trees to 2-4 words, wider rows, larger forests', TRUST + ['alignments stay within the sentences'])
C('X02', SEQ, """Every small tree or forest with every alignment is extracted and composed by the real classes under every limit; rules are compared as a multiset with recursively enumerated combinations. Composition of given target sides is compared with substitution. The program's size, count and normalization options are compared with enumerated derivations.""",
  [{'src': 'x02.cc', 'budget': {'thorough': 1800}}],
  'all trees over 1-3 words x alignments x 1-5 parts x lexical spans 0-3, 4-word trees, forests; all target-side permutations of 6 trees with 1-2 factors; the program over 5 trees x 4 sentences x 5 alignments x modes x limits x thresholds',
  'longer sentences, all limits', TRUST + ['fully lexicalized rules beyond the part limit are those reachable by filling the last variable, as the code does', 'with a variable limit, exhaustive attachment is checked without composition'])
C('X03', SEQ, """Every alignment within the bounds goes through the real phrase and rule extraction under every limit and is compared with the definition (all span pairs, all choices of up to two inner pairs).""",
  [{'src': 'x03.cc'}],
  'all alignments between sentences of up to 4x3 words x phrase limits x word limits; 5 words to 3-5 words with at most one link per word on one side; links outside the sentences; 97056 runs of the program on 1-3 sentences',
  'all alignments of 4x4 words, 6 words to 5 words', TRUST + ['among phrase pairs with the same source span, rules use the one without unaligned target words at its edges'])
C('I04', SEQ, """Every short sequence of command-line tokens and every short configuration file is read by the real option classes and compared with an independent reader of the documented format; every short number-like text is read in all types.""",
  [{'src': 'i04.cc'}],
  'all command lines of up to 4 tokens out of 13-15 (options of every type, numbers, empty texts) x argument-count limits; all files of up to 5 lines out of 11; all number-like texts of up to 5 characters over 7-9 characters and the numeric limits; all combinations of file entries and overriding arguments; set-and-get of every type',
  'one token, line and character more', TRUST + ['hexadecimal numbers and leading blanks in numbers are left open'])

C('M01', SEQ, """Every small set of n-best lists is searched along every direction and range by the real line search; segments, steps and scores are compared with evaluating every hypothesis between all intersections.""",
  [{'src': 'm01.cc'}],
  'all lists of up to 4 hypotheses (envelope) and all corpora of one list of 3, two lists of 2+2, three lists of 2 hypotheses over small integer features x 4 measures x 7 ranges x directions; all weight/direction/range combinations of the range computation',
  'lists of 4-5, two lists of 2+3, three lists of 3', TRUST)
C('M02', SEQ, """The envelope of every small packed forest is compared with the lines of all its derivations, under a measure whose statistics identify the translation.""",
  [{'src': 'm02.cc'}],
  'all forests of 2-4 nodes with up to 2-3 edges per node, up to two tails each (shared nodes, reordering target sides) over 2-4 feature vectors x 4 directions x multipliers; forests of 2-3 decoding runs merged; calls repeated and after the potential gain',
  'more edges, 5 feature vectors', TRUST + ['literal <unk> tokens in the target side are outside'])
C('M03', SEQ, """Value and gradient are computed for every small corpus and setting and compared with the objective computed in extended precision and its central differences; the optimizer's result is compared with its start.""",
  [{'src': 'm03.cc'}],
  '12 measures (BLEU orders 2-4, smoothing, recall weight, arithmetic mean, no brevity, sentence-level; TER both ways, RIBES, 0/1) x all lists of 1-3 hypotheses and corpora of two lists over 2-5 feature vectors and 3-5 translations (one empty) x 5 weight settings x scales x regularizers x multipliers',
  'more feature vectors and longer lists', TRUST + ['the objective is compared up to 1e-8, derivatives up to 1e-6'])
C('M04', SEQ, """Every small tuning problem is tuned by the real tuners; the score of the returned weights is recomputed with all tie-breaks. The whole program runs on every small n-best file with ranges.""",
  [{'src': 'm04.cc'}],
  'all corpora of 1-3 + 0-2 hypotheses over 3-4 feature vectors and 3 translations x 4 measures x 4-5 starts x 5 range settings x 2 thresholds x coordinate, random and gradient directions (MERT), greedy MERT, 3 online rules x margins; 105k runs of the program over 4 algorithms x 5 range texts x 2 starts',
  'lists of 3, more starts, two sentences for all algorithms', TRUST)
C('M05', SEQ, """Every sequence of updates and reads up to the depth is applied to the real weight classes and to the rule applied step by step to all features.""",
  [{'src': 'm05.cc'}],
  'perceptron, averaged, adaptive and delayed perceptron: all sequences of up to 3 updates over 3-6 vectors, of 3-4 and 5 updates/reads (one weight, all, final) x 3 regularizers x 2 rates x 3 ranges x 2 starts; all n-best lists of up to 3 entries x 3 margins, two rounds; ranking with a unique widest pair',
  'sequences of 4-6', TRUST + ['the averaged perceptron is used without regularization, as it demands; pairwise ranking draws random pairs, so only inputs with a certain outcome are compared'])
C('M06', SEQ, """Every small n-best file is rescored by the real program; the printed lines are matched with the entries ordered by the directly computed criterion, all tie-breaks allowed.""",
  [{'src': 'm06.cc'}],
  'all lists of 1-3 entries over 3-4 translations, 2-4 feature vectors, 3 scores x weights or stored scores x 5 measures x 3 scales x 3 list sizes; files of 2-3 sentences with 4 id patterns; 18 malformed files',
  'lists of 4 entries', TRUST)

C('C05', SCHED, """The real tuners run under the controlled scheduler: every interleaving up to the preemption bound of the greedy tuner's worker threads and of parallel restarts (line search, L-BFGS, online) over shared n-best lists and forests, with a happens-before race detector on all instrumented accesses; the result is compared with the one computed directly or by a single thread.""",
  [{'src': 'c05.cc', 'config': 'sched', 'budget': {'thorough': 1800}}],
  '2-3 features, 1-2 workers, 1-2 rounds, 2 restarts, up to 2 preemptions (preemption at every access in one space)',
  'more preemptions and features', STRUST + ['no ties at the start weights; online restarts are only checked for races (they shuffle with rand)'])
C('I01', SEQ, """All short texts are read by the real readers and by independent readers of each format; all small trees go through every pair of formats with the real converter program, and forests with every field go through JSON and Egret and back and are compared field by field; every truncation and many corruptions of a document must be rejected.""",
  [{'src': 'i01.cc'}],
  'Penn text up to 8 characters or 7 tokens, rule text up to 7 tokens; trees of up to 3 words, 10 special words, 6 labels, 5x6 formats, 2 trees per stream; JSON forests up to 3 nodes and 3 edges with all edge contents from a grid; Egret forests up to 6 edges',
  'longer texts, more labels', TRUST + ['Penn trees have one word per preterminal; Egret text has no word |||; values print in 6 digits; JSON does not carry target labels'])
C('I02', SEQ, """All short sentences, factored sides, feature vectors, alignments and rules are printed and parsed by the real code and compared field by field; all short raw texts are parsed by the real parsers and by independent readers of the same grammar, which also decide what must be rejected.""",
  [{'src': 'i02.cc'}],
  'raw side texts up to 7-8 characters/tokens over quotes, backslashes, blanks, variables, labels and factors; sentences of up to 4 words out of 12+ special words; feature texts and alignment texts up to 7 characters; rules with up to 3 variables and 2 factors',
  'longer texts, more special words', TRUST + ['the unquoted word |COL|, huge variable ids and contradictory labels for one variable are open'])
C('P01', SEQ, """All short lines are tokenized by the real tokenizer: the text without blanks is compared after undoing the documented replacements, tokens are checked against an independent statement of what must stay together and what must be separated, and exact tokenizations are computed for restricted alphabets.""",
  [{'src': 'p01.cc'}],
  'all lines up to 5-8 pieces over 13 alphabets (numbers, symbols, brackets, quotes, multi-byte, contractions, abbreviations, units, ...) and through the tokenizer program',
  'lines 1-2 pieces longer', TRUST + ['adjacent commas/colons, quotes in mid-word and stacked clitics are open'])
C('P02', SEQ, """All small sentences and trees over words of mixed case are cased by the real code and compared with an independent statement of which words start a sentence and how a word is cased; models trained by the real trainer on all small corpora are compared with counted forms and applied again.""",
  [{'src': 'p02.cc'}],
  'sentences of up to 5 out of 12 words; trees of up to 3 words x 4 casers; corpora of 2 lines up to 5 words; words up to 5 characters; 9 option strings',
  'sentences of 6, corpora of 6 words', TRUST + ['letters outside ASCII: one accented letter and one uncased letter'])
C('P03', SEQ, """All small trees and forests are split by the real splitters; the whole set of derivation trees with scores, features and spans is compared with the one obtained by replacing each word by its pieces; pieces are computed independently from the pattern or the unigram table.""",
  [{'src': 'p03.cc'}],
  'strings up to 6 characters x 5 patterns; trees of up to 3 words out of 7 and forests with two alternatives per node, also with words next to other children; 64-128 unigram tables x 3 lengths x 3 thresholds x 4 filler lists x all words up to 6 letters; the converter program in 3 formats',
  'strings of 8, all 256 tables x 2 scales, three-word forests', TRUST + ['patterns match at least one character'])
C('R05', SEQ, """The decoder program itself runs in-process on all small rule tables, weights, inputs and options; each output line, n-best list, trace, forest and changed weight is compared with all derivations written out directly from the rules and scored directly, including language-model scores by definition.""",
  [{'src': 'r05.cc', 'budget': {'thorough': 1200}}],
  'tree-to-string and string grammars of up to 4 rules out of pools of 8-14, in all rule-table storages, 1-3 sentences, all output options, 1-2 language models x 2 searches, 1-2 factors, input formats, online tuning of 2-3 sentences; 31 bad settings; configuration files up to 5 lines',
  'more rules, longer sentences, 6-line configuration files', TRUST + ['incremental search: only the single best is demanded; several language models only with cube pruning'])
C('C04', SCHED, """The decoder program runs in-process with worker threads under the controlled scheduler, on fresh symbols in every execution; every schedule up to the preemption bound must give byte for byte what one thread gives, without deadlock and without a data race (happens-before detection on all instrumented accesses; the locks of the symbol table are not allowed to hide races around them).""",
  [{'src': 'c04.cc', 'config': 'sched', 'budget': {'thorough': 2400}}],
  '1-4 sentences, 2-3 threads; 1 preemption (2 and every lock operation in some spaces), otherwise all orders at blocking operations; tree-to-string in both table storages x 5 binarizers x output options, 5 language model setups, grammars, 2 factors, empty and failing sentences',
  '2 preemptions everywhere, 13 sentences over a full queue', STRUST + ['the locks of the symbol table itself are the matter of C03'])
C('S01', SEQ, """The real script symmetrizes every pair of directional alignments of small sentence pairs (batches of GIZA records); intersection and union are computed as sets, and the growing heuristics must give one of the results reachable by their definition whatever the order in which links are visited.""",
  [{'src': 's01.cc'}],
  'all pairs of directional alignments up to 3x3, 2x4 and 3x4 words x 8 option sets, special words, files of different lengths',
  '4x4 and 3x5 words', TRUST + ['the order in which growing visits links is open'])
C('S02', SEQ, """The real scripts score, reverse and merge all small multisets of extracted rules (many told apart by their words in one file, and small ones in files of their own), with every option; the resulting table is compared rule by rule with counts, relative frequencies, discounts, lexical weights and limits computed directly from the multiset.""",
  [{'src': 's02.cc', 'budget': {'thorough': 900}}],
  'multisets over 2 sources x 3 targets x 4-5 ways of occurring x 8 option sets; sources that are beginnings of others; lexical tables x all alignments up to 2x2; label features; frequency limits; all mismatched table pairs of 2 lines; lexical tables of all pairs of sentence pairs up to 2x2 words',
  'three-line groupings over all sources, all multisets', TRUST + ['any of several equally frequent alignments or equally good rules may be kept'])
C('S03', SEQ, """The real scripts filter all small parallel texts, rule tables, models, n-best lists and trees with every option; the lines they print are compared, in order, with the ones their criterion selects, where the use of a rule is decided by trying every placement of its source side in the input.""",
  [{'src': 's03.cc', 'budget': {'thorough': 1200}}],
  '3 parallel files of 7 kinds of lines x 20 length limits; all source sides up to 4 words/variables over 6 alphabets in 4 shapes x 11 inputs x 3 formats x options of both rule filters; 1-3 models; n-best lists of up to 4 sentences against up to 2 earlier ones; other utilities on all small inputs',
  'source sides up to 6, longer n-best lists', TRUST + ['lines with leading blanks are open in the length filter; sentence numbers of n-best lists ascend'])
C('S04', SEQ, """The real loop and the scripts it calls run with stand-ins for the decoder and the optimizers; what the stand-ins answer in each iteration and which call fails are choices, all of them are explored, and what each call was given (settings, weights, lists, statistics) is compared with what its place in the history demands; after every failure the loop is resumed.""",
  [{'src': 's04.cc', 'budget': {'quick': 400, 'thorough': 2400}}],
  '1-3 iterations x 2-3 candidate lists x 4-8 weight answers per iteration; 8 groups of options x threads, factors, list sizes; every failing call of 1-2 iterations in 5 modes and its resumption; external optimizer with every failing call',
  '3 iterations with all answers, faults in 3 iterations', TRUST + ['a failing program exits with an error status; copying of files does not fail'])
C('S05', SEQ, """All small dependency trees, phrase structure trees and sentences go through the real scripts in batches; every output line is compared with the tree or sentence built directly from the rule.""",
  [{'src': 's05.cc', 'budget': {'thorough': 1800}}],
  'dependency trees of 1-5 words that are projective or have all heads to the right (crossing or not) x punctuation patterns x 3 notations; trees over 1-4 preterminals out of 4-8, depth 3, cut into rules in every way; two-sentence corpora out of sentences up to 2 and 3 words over 4-5 words; all sentences up to 4 words out of 8-10 x 6 models',
  'dependency trees of 6 words, more preterminals, corpora over 8 words, sentences of 5 words', TRUST + ['dependency trees have one root; crossing arcs to the left are outside'])
C('S06', 'exhaustive exploration of crash points (kill at every file system change, writes torn) and failing programs on the real training script', """The real script and the real scoring scripts run with stand-ins for aligner and extractors. A preloaded library counts every file creation, write, directory creation and renaming below the working directory in all processes of the run and kills all of them at the chosen one, leaving half of a write; or the chosen program leaves half its output and fails. The run is then resumed, and every file is compared with what the parts give when applied one by one.""",
  [{'src': 's06.cc', 'budget': {'quick': 300, 'thorough': 2400}}],
  '12 groups of options x 1-2 threads x 2 corpora; all 12-60 file system changes of 5 kinds of runs; 17 failing programs in 4 kinds of runs x 1-2 threads',
  '8 kinds of runs; a second kill at every change of the resumed run', TRUST + ['what was written before a kill stays on disk in the order written; the stand-ins take the options of the real programs'])
C('S07', SEQ, """The real script and the real scripts it calls run with stand-ins for tokenizers, parsers and converters that work line by line, over every number of lines and parts within the bounds; every file it leaves is compared with the composition of the steps on each line.""",
  [{'src': 's07.cc', 'budget': {'quick': 300, 'thorough': 1800}}],
  '1-7 lines in 1-5 parts, 1-25 lines in 10-11 parts; 1-6 lines of 6 length patterns in 1-3 parts with cleaning and alignment; 5 groups of steps from 2 languages on 1-4 lines in 1-3 parts; all of it with both ways of splitting',
  '1-12 lines, 11 and 16 parts', TRUST + ['tools that work line by line; Nile alignment is outside'])

C('K04', SEQ, """The real storage templates under ASan: every field width, offset and set of neighbours for bit packing; every sorted array of key values from a pool that includes both ends of the range for the interpolation search; every operation sequence on probing hash tables with colliding keys, moving and doubling; all short and patterned long bit vectors; all sets of strings over two letters, special byte keys and all insertion orders for the trie, in memory, read, mapped and truncated. Oracle: plain arrays, std::set and std::map.""",
  [{'src': 'k04.cc', 'config': 'asan', 'budget': {'thorough': 1800}}],
  'fields of 1-57 bits at 16 offsets; arrays of up to 6 of 15 values per key width; 4 operations on tables of 2-5 buckets; bit vectors up to 14 bits and patterns to 1538 bits; sets of strings up to 3 letters; 300-key tries',
  'all subsets of the pool of sorted values, 5 operations on tables of 2-6 buckets, all 32768 sets of strings with 6 builds, bit vectors to 18 bits', TRUST + ['rank queries of bit vectors at positions inside the vector, the only ones the trie asks'])
C('K03', SEQ, """The estimation program itself (its main, in forked children with memory files) runs on every small corpus with every combination of order, pruning, vocabulary limit, discounts and output options; every printed probability and back-off weight is compared with interpolated modified Kneser-Ney smoothing computed from raw counts in double precision, every context must sum to one, and every memory setting must print the same bytes or refuse. A part runs under ASan.""",
  [{'src': 'k03.cc', 'link': ['-Wl,--wrap=main'], 'budget': {'thorough': 2400}}, {'src': 'k03a.cc', 'config': 'asan', 'link': ['-Wl,--wrap=main'], 'budget': {'thorough': 1200}}],
  'all corpora up to 3 lines, 4-5 words and 3 letters x orders 1-3 x prune thresholds x vocabulary limits x fallback discounts x unigram options; all texts of 7-9 letters over 3 (order 2) and 13 over 2 (order 3) whose discounts can be estimated; 4 texts x 7 memory sizes x block, sort block and block count settings; texts of up to 3 tokens, separators and special words',
  'corpora up to 4 lines and 6 words, texts up to 11 and 15 letters, 13 memory sizes x 48 block settings', TRUST + ['arithmetic compared within 2e-5 in log10', 'a model one of whose orders is pruned away entirely may be refused'])
C('K05', SEQ, """The real reading code runs on top of scripted read, pread, write, mmap and sysconf calls: every split of every small file into short reads, interrupts and errors at every call, page sizes of 1-8 bytes so that every shift of the window happens, files mapped, read, piped and compressed. Lines, words, numbers and offsets are compared with those of the whole text.""",
  [{'src': 'k05.cc', 'config': 'asan', 'budget': {'thorough': 2400}}, {'src': 'k05z.cc', 'config': 'asan', 'budget': {'thorough': 1200}}],
  'files up to 5-6 bytes over separators, letters and NUL x all splits into reads x page sizes; operations of up to 4 steps; an error or interrupt at every call; numbers in all spellings up to 5 characters; gzip files cut at every byte and damaged at every bit',
  'longer files, splits and numbers', TRUST + ['texts that begin with the magic bytes of a compressed format are open', 'at the end of the text reading a number may throw either of two exceptions'])
