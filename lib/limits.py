"""what a statement leaves open or a check does not reach, per property (goes into DESIGN.md)"""
LIMITS = {
'C01': 'The pool offers no way to restart; use after Stop is outside.',
'C02': 'Sentence ids are used once each.',
'C03': 'Dict is treated as opaque (only its public functions); one table per execution.',
'C04': 'Only decoding is threaded in this code base (the extractor has no threads), hence the title. Fresh symbols per execution.',
'C05': 'No ties at the start weights (which of two equal features wins depends on the order by design). Parallel online restarts are only race- and deadlock-checked since they draw random orders.',
'H01': 'Equal scores may be listed in any order.',
'H02': 'Comparison within 1e-9 relative of extended precision.',
'H03': 'CKY is checked below its documented 7 children; one finding (root placed second when its edge has >= 3 children) is pinned by an existing unit test and recorded.',
'R01': 'Words only below preterminals; nodes in topological order (what all readers produce).',
'R02': 'Variables must carry labels; unary cycles that cross tables are outside (the code searches cycles per table).',
'R04': 'Every variable once on the target side. Incremental search approximates when its limits bind: then only soundness (each derivation is a real one with the exact score) is required, and optimality when limits do not bind.',
'R05': '"-" values on the command line start an option; Moses XML is not a decoder input; several LMs in one joint model are refused with `inc`; exceptions thrown inside the main loop while the pool is alive end the program and are run only in children; `inc` n-best lists must only contain the 1-best exactly; deleted unknown words leave an empty word (pinned by TestUnkRulesDelete); empty lines under the word format with t2s tables are outside.',
'K01': 'States are compared by what they do in all continuations, not by bytes. Quantized formats with >= 2 bits.',
'K02': 'Models with missing suffixes are judged in the probing format; the trie case is a known finding.',
'K03': 'Tolerance 2e-5 in log10. `<s>`, `</s>`, `<unk>` are always kept. An order pruned away entirely may be refused. Discount fallback cases where a boundary is zero are skipped as the estimator defines them. Memory settings may be refused but not change bytes.',
'K04': 'Rank/select only inside the vector (outside is documented as undefined); CheckConsistency is a debugging helper.',
'K05': 'A number that ends at the end of the file may throw either documented exception; texts that begin with compression magic are outside; gzip needs HAVE_ZLIB, so the product build must refuse and a second build with the define must decompress; bit flips in a gzip header that keep the text are fine.',
'X01': 'Links within range. The "top" attachment attaches to the highest node whose range contains the word.',
'X02': 'Lexicalized extras beyond the part limit are open; exhaustive mode with a variable limit only without composition.',
'X03': 'Rules subtract the tight-target pair of each inner source span, as the extractor documents.',
'I01': 'One word per Penn preterminal; words containing "|||" are not representable in Egret; JSON does not carry target labels/symbols; one finding ("-1" as a JSON target word).',
'I02': '`|COL|` unquoted, ids beyond int range, inconsistent labels are open.',
'I03': 'Dyadic values so that sums are exact.',
'I04': 'Hexadecimal numbers and leading blanks are open (strtod accepts them).',
'E01': 'Relative tolerance 1e-9 against long double.',
'E03': 'TER is computed by a heuristic search: between the true minimum with unit-cost block moves and WER, 0 exactly for equal texts, 1 for one moved block.',
'E04': 'Printed digits are as many as the stream prints.',
'E05': 'Malformed texts such as "1 2 +" are open.',
'E06': 'Non-empty references, bootstrap over >= 2 lines; best segmentation is demanded only of measures that average over sentences.',
'M01': 'At a boundary point either side is accepted; ranges that are points are included.',
'M02': 'The literal word `<unk>` is outside.',
'M03': 'The brevity penalty is smoothed within 1% of equal length (documented); finite differences avoid that kink.',
'M04': 'Ties accepted; starts within range; greedy MERT only for sentence-averaging measures; at least one feature.',
'M05': 'Averaged perceptron without L1; online tuning starts from zero whatever the start weights (so the code does; noted, not demanded); ties are followed as sets of outcomes (> 200 outcomes: skipped); onlinepro only in cases where its random sampling cannot matter.',
'M06': 'Equal criteria may appear in either order.',
'P01': 'Adjacent commas/colons, mid-word quotes, stacked clitics and "cannot." are open.',
'P03': 'Patterns that match the empty string are outside.',
'S01': 'The order in which growing visits links is open: the result must be one of those reachable. An empty `--sym=` is outside.',
'S02': 'Ties between equally frequent alignments or equal rules are open; tables are consistently labelled or unlabelled; Kneser-Ney discounting needs nonzero counts of counts.',
'S03': 'Leading blanks are open in clean-corpus.pl; n-best ids ascend; replace-failed-parse inputs have equal lengths.',
'S04': 'Weights of zero are not listed, so that a weight file that lists no weight at all is outside. Copies made with cp/mv do not fail.',
'S05': 'One root per dependency tree; crossing arcs are only resolved between arcs to the right, as the script documents; ja-adjust-dep.pl (hand-written heuristics) is not covered.',
'S06': 'With two threads the order of changes is not fixed, so crash points are explored with one thread; progress display and power failures that lose unsynced data are outside; `-src_lex_len` and `-config_file` (which write nothing) are not judged.',
'S07': 'Restarting after a kill is outside (the script waits for the process that began a part, by design); how blanks in KyTea output are removed is open; Nile alignment is not covered.',
}
