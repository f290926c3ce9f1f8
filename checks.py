"""Registry: which harnesses decide which property."""
CHECKS = {}
NOT_APPLICABLE = {}
def c(pid, parts, rule, note, technique="property-based testing", assumptions=()):
    CHECKS[pid] = dict(parts=parts, rule=rule, note=note, technique=technique, assumptions=list(assumptions))
c("C04", [("cxx", "h_sparse", "plain")],
  "operands built by construction, additions or as maps over small and larger key ranges with repeated, cancelling and zero values; non-trivial: two operands of 2+ keys that overlap or extend past each other, or a history with 3+ vector operations",
  "differential against an ordered-map model on generated operands and operation histories; values compared to 1e-9 relative")
c("C01", [("cxx", "h_nbest", "plain")],
  "random acyclic forests (shared nodes, parallel edges, repeated tails, one or two target factors, tied/irregular scores) of up to 10 nodes whose derivations are enumerated; non-trivial: 3+ derivations and k >= 2 (for the Viterbi law: some node with a choice)",
  "k-best lists compared with the sorted brute-force enumeration of every derivation")
c("C02", [("cxx", "h_forest", "asan")],
  "random acyclic forests (shared nodes, parallel edges, repeated tails, terminal nodes, unreachable parts, scores up to +-2000) and histories of copy/append/trim/rescore/delete over several plain or rule graphs; non-trivial: 3+ derivations with a shared node (inside-outside), 3+ steps including a copy, append or trim (histories)",
  "posteriors against log-sum over enumerated derivations; graph histories against a structural model, under ASan/UBSan")
c("C03", [("cxx", "h_treeio", "plain")],
  "random trees and forests with unusual tokens (quotes, backslashes, numbers, entities, UTF-8, control characters), several per stream, empty and failed parses; non-trivial: 2+ words and 5+ nodes (trees), 4+ edges (forests)",
  "round trips and independent models of the Penn, rule, Moses XML, word, JSON and Egret formats")
c("C05", [("cxx", "h_dict", "asan"), ("cxx", "h_conc", "tsan")],
  "histories over symbol sets, and random words, rule sides (0-13 variables, labels, 1-3 factors), feature lists and alignments with unusual tokens and spacing, plus malformed variants; threads interning overlapping word lists under ThreadSanitizer; non-trivial: 3+ items of the kind concerned",
  "model comparison and round trips under ASan/UBSan; concurrent use under TSan")
c("C06", [("cxx", "h_binarize", "plain")],
  "random packed parse forests over 1-10 words (shared nodes, several analyses per node, equal labels, unary and mixed edges, arity up to 9, scores and features) binarised in every mode; non-trivial: an edge with 3+ children among 4+ edges",
  "invariants plus collapse of the introduced nodes compared with the enumerated original derivations")
c("C07", [("cxx", "h_transform", "asan")],
  "random words with separators, vocabularies of compound parts with fillers, trees and packed forests with unary chains, cased words of several scripts with sentence punctuation; non-trivial: a word split in two or more among several, a chain that is flattened, an ambiguous forest, 3+ words to case",
  "independent models of splitting, compound choice, chain joining and casing; forests compared by enumerated derivations")
c("C08", [("cxx", "h_extract", "plain"), ("cxx", "h_compose", "asan")],
  "random trees and packed forests (up to 6 words), target sentences or trees, alignments with crossing, many-to-many and null links, all extraction options, one to three sentences per run of forest-extractor's runner; rule graphs of up to 6 nodes with one or two target factors composed under random limits; non-trivial: 3+ expected rules, two composed ones",
  "printed rules compared as multisets with an independent extractor working from the definitions")
c("C29", [("cxx", "h_pool", "tsan"), ("cxx", "h_pool", "plain")],
  "random loads: 1-6 worker threads, queue limits, up to 60 tasks with random delays from several submitting threads, stopping with and without processing the rest, outputs and skips arriving in any order; non-trivial: 4+ tasks on 2+ threads, or an output arriving before an earlier one",
  "task execution counts and collected streams compared with the specification after every step, under ThreadSanitizer and without")
c("C19", [("cxx", "h_math", "asan")],
  "random formulas (nesting up to 4, all operators, numbers in several spellings, bound variables, arbitrary spacing) and damaged or arbitrary token sequences; non-trivial: two different operators, or a damaged formula of 3+ tokens",
  "differential against a recursive-descent reference evaluator that also decides well-formedness, under ASan/UBSan")
c("C26", [("cxx", "h_marisa", "asan")],
  "random key sets of up to 60 (small) or 3000 (large) byte strings over several alphabets (zero bytes, high bytes, long keys, duplicates, shared prefixes and suffixes), every build option, near-miss queries, each dictionary also transferred by one of seven routes; non-trivial: 5+ distinct keys",
  "differential against an ordered set for lookups, reverse lookups, prefix and predictive searches, under ASan/UBSan")

c("C28", [("cxx", "h_malformed", "asan")],
  "valid inputs of every reader (trees in six formats, rule tables for four storages, alignments, ARPA and binary language models, n-best lists, statistics, weights, forests to tune, texts, formulas and measure strings) damaged by 0-16 edits (truncation, deletion, duplication and swapping of pieces and lines, hostile tokens, raw bytes) and run through the program that reads them; non-trivial: the input differs from the valid one it was made from",
  "each damaged input is either processed or refused with an error: no ASan/UBSan report, abort, signal or time-out")
c("C27", [("cxx", "h_util", "asan")],
  "random operation histories on hash tables (colliding keys, several invalid keys, doublings), sorted arrays, bit fields of random kinds, widths and offsets written in random order, texts of up to 40 kB with long words and page-sized ends read by mixed operations through files, pipes and streams with small buffers, queues with several producers and consumers; non-trivial: 4+ entries, fields, tokens or reads",
  "differential against std::map, std::lower_bound, std::string and a cursor over the text, under ASan/UBSan")

c("C14", [("cxx", "h_eval", "asan")],
  "random corpora of 1-6 sentences over 2-12 words, the system side an edited (inserted, deleted, replaced, moved blocks) or independent copy, all options of every measure, sentences of 900-1500 words for the edit distances, and runs of mt-evaluator's runner over 1-4 files; non-trivial: a score strictly between the extremes, some edits, 2+ sentences (program)",
  "differential against the published formulas computed from scratch; TER's edit sequence is replayed; under ASan/UBSan")
c("C15", [("cxx", "h_evalstats", "asan")],
  "random measure strings (every measure and option, weighted and formula combinations), corpora of 1-6 sentences, histories of up to 14 sums, differences, multiples and copies, cached calls with reused ids; non-trivial: a combination over 2+ sentences, 5+ steps, a cache hit, a second factor",
  "histories compared with the statistics of the sentences they stand for; combinations with separately measured components; text round trips; under ASan/UBSan")

c("C18", [("cxx", "h_weights", "asan")],
  "random histories of up to 16 updates, n-best adjustments, reads and final reads over 2-6 features for each learner with random rates, margins, regularisation and ranges; lists of 2-4 hypotheses for the sampler, 1-3 lists of translations for the whole step; non-trivial: two or more updates applied, or the measure preferring another translation than the first",
  "differential against an eager step-by-step model of each update rule, under ASan/UBSan")

c("C16", [("cxx", "h_mert", "asan")],
  "random corpora of 1-4 n-best lists of 1-8 hypotheses over 1-4 features (tied, parallel, concurrent and irregular lines, averaged scores including negative ones, BLEU with and without smoothing), forests of up to 5 nodes with one or two factors under BLEU, 0/1 and WER, random weights, directions and ranges; non-trivial: three envelope spans, three different scores along the line, or an actual improvement",
  "envelopes and steps compared with the brute-force best hypothesis at points between all pairwise intersections; searches and whole tuning runs re-evaluated, under ASan/UBSan")

c("C17", [("cxx", "h_tune", "asan")],
  "random corpora of 1-4 n-best lists (0-5 hypotheses, 1-4 features) with BLEU (all smoothings and variants), average, RIBES, 0/1 and (inverse) TER statistics, random weights, scales, L2 and entropy coefficients, optimiser starts and iteration limits; non-trivial: two or more derivatives away from zero, an objective improved by tuning, two examples with a clear best hypothesis",
  "objectives against their definition computed from scratch, gradients against central differences of that definition, optimiser results re-evaluated, under ASan/UBSan")

c("C13", [("cxx", "h_lm", "asan")],
  "random ARPA models of orders 2-6 over 1-5 words (missing back-offs, missing unknown word, positive back-offs, pruned suffixes, entries for <unk>), each of the six implementations read from text and from a binary file it wrote (every write and load method, with and without vocabulary, 8-10 bits of quantisation, 0-8 bits of array compression, small sorting memory); random sentences biased to listed n-grams, with unknown words, random bracketings into chart pieces; non-trivial: three or more n-gram matches of length 2+",
  "differential against the textbook back-off recursion over the listed entries; scoring with, without and with shortened state, by pieces, and continuations of contexts with equal states; under ASan/UBSan")

c("C11", [("cxx", "h_cfg", "asan")],
  "random grammars of up to 10 rules (1-4 source symbols, words and variables mixed, reordering, several rules per source, source and target labels, one or two target factors, unary rules, glue rules), one to three grammars each with its own span limit, any root and unknown symbol, sentences of 1-5 words with unknown ones; the same with a random language model, with and without pop and chart limits; non-trivial: 4+ hyperedges over 2+ words, or 3+ derivations",
  "the parse forest compared with an independent brute-force chart (isomorphism from the root), the LM forest derivation by derivation with enumerated derivations scored by the textbook model, under ASan/UBSan")

c("C12", [("cxx", "h_lmcompose", "asan")],
  "random forests of up to 6 nodes with 0-3 tails per edge (reordered, shared, dead ends, empty target sides, two target factors), one or two random n-gram models (jointly or one after the other, text or one of five binary kinds, own feature names, positive, negative, zero and missing weights), cube pruning and incremental search, unlimited and with pop and state limits; non-trivial: four or more derivations (unlimited), the beam actually cut (limited)",
  "derivations of the result matched one to one with enumerated derivations of the forest, scored by the textbook model, under ASan/UBSan")

c("C09", [("cxx", "h_hiero", "asan")],
  "random corpora of 1-4 sentence pairs of 1-7 words (repeated words, words that look like rule syntax) with diagonal, inverted or random alignments including none, links in any order, random phrase and terminal limits; files of different lengths; links outside the sentences; non-trivial: 5+ expected rules, or an input that must be refused",
  "printed rules compared as multisets with an independent extractor working from the definition, phrases with a brute force over all span pairs, under ASan/UBSan")

c("C10", [("cxx", "h_lookup", "asan")],
  "random packed parse forests (1-7 words, ambiguous and shared nodes, unary chains, words with markup characters, edge features) and tables of up to 14 rules cut out of the forest at one to several levels, some damaged, several targets per source, one or two factors, labels, lines sorted or not; tables with sources that are no complete tree; non-trivial: 3+ rule edges with a rule of two or more levels that has variables",
  "every edge of the translation forest compared with an independent tree matcher, for both tables, under ASan/UBSan")

c("C22", [("cxx", "h_decode", "asan"), ("cxx", "h_decode", "tsan")],
  "random rule tables (hash, marisa, fsm, cfg; one or two target factors), arpa language models (none, one, two), weights, inputs of 1-3 trees or word strings as Penn or Egret files, binarisers, search types and limits, n-best sizes, unique, trees, traces, forests and trimming; each configuration is run with one thread and again with 2-5; non-trivial: several derivations and something beyond the one-best printed",
  "the program's output files parsed and compared with the enumerated derivations and a textbook language model, then byte for byte between thread counts, under ASan/UBSan and ThreadSanitizer")

c("C23", [("cxx", "h_config", "asan"), ("py", "cfg", "")],
  "random option tables driven through histories of command lines, configuration files and setters (comments, several lines per value, switches, negative numbers, overrides, damaged files and lines), values of every type in many spellings; each program with random settings split between file and command line, spelt-out defaults, stale values, and one damage to an otherwise valid invocation; non-trivial: something is overridden, read, or refused",
  "the reader compared with a list-of-settings model in contained processes; the programs' printed configuration compared with the documented defaults and the last values given, equal output for equal settings, scores computed from the weights written, and an error exit with a message for every damage")
c("C24", [("py", "scripts_train", "")],
  "random rule multisets of up to 40 extracted lines (repeated sources, targets, counts, labels, percent signs, one or two factors), lexical tables with missing entries, alignments, smoothing, limits, pairs of direct and inverse tables sharing and missing rules, sources and models to filter, whole runs of train-travatar.pl over a scratch corpus (given links or an aligner stand-in, any options, stopped while writing a step's files and resumed); non-trivial: several rules sharing a source or target, or something removed and something kept",
  "each script's output compared with an independent computation of the counts, probabilities and filters it stands for")

c("C25", [("py", "scripts_corpus", ""), ("py", "prep", "")],
  "random alignment pairs of up to 7x7 words (all heuristics), corpora with uneven files and any limits, n-best files with gaps and repeated entries, weight vectors, parse files with failures in both formats, trees with punctuation, cased text, whole preprocessing runs with stand-in parsers and aligner (1-3 parts, consecutive or interleaved, cleaning, splitting, forests, truecasing, resuming); non-trivial: something changed or removed and something kept",
  "each script's output compared with an independent model of what it is documented to do, and preprocessing in parts with its steps on the whole corpus")

c("C20", [("py", "tok", "")],
  "random lines of words, numbers, abbreviations, contractions, units, quotes of several scripts, brackets and symbols in random spacing, also arbitrary bytes; sentences of plain words and separated punctuation whose tokens are known by construction; token lines to join; non-trivial: two or more lines in which tokens are split off or joined",
  "program output checked for kept text and spacing, compared with a hand-written scanner of the same conventions, with known tokens, and by detokenising")

c("C21", [("cxx", "h_rescore", "asan"), ("cxx", "h_ftune", "asan"), ("cxx", "h_ftune", "tsan")],
  "random n-best files of 1-4 lists of 1-8 hypotheses (repeated and empty ones, gaps in the numbers), weights, measures, scales and cuts; references of 1-4 sentences with an edited word stream and slack 0.5-3; cased text with sentence punctuation; n-best lists and packed forests (of one or two runs) for batch tuning with every measure and algorithm, ranges, threads and precomputed statistics; malformed files; non-trivial: another best hypothesis than the first, few best segmentations, a word with two casings, a better score after tuning",
  "program output compared with the definition: exact expected gains, exhaustive and dynamic-programming segmentation, counts, re-evaluated weights, equal weights for any number of threads, under ASan/UBSan, forests also under ThreadSanitizer")

c("C30", [("py", "mert", "")],
  "whole runs of mert-travatar.pl on random small models (tree and hierarchical rules, glue tables, with and without a language model), development sets of 1-4 sentences, weights, measures, n-best sizes, candidates as lists or forests, decoder and tuner options; runs in which the k-th command of the loop fails after part of its output, or everything is killed there, then resumed; non-trivial: two or more iterations, or an interruption after the first command",
  "the files of every iteration compared with decoding again by the given weights with the whole model, an independent set of the new candidates and its scores before and after tuning, the stop rule, and the final configuration; the resumed run with the uninterrupted one")
