#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    if len(title) > 80: print('LONG', title)
    P.append(d)

L = "src/lib/"; H = "src/include/travatar/"
p("C01", "K-best extraction returns exactly the k best derivations of a forest",
  "For every acyclic weighted translation forest and every k, k-best extraction returns min(k, number of derivations) pairwise different derivations in non-increasing score order, and their scores are exactly the k largest scores obtainable by choosing one edge per reached node. Each returned derivation's score is the sum of its edges' scores, its features the sum of its edges' features, and its target words are those obtained by substituting the children's output into the edge templates (for every target factor). With the uniqueness option no two results have the same translation, and every translation is represented by its best derivation.",
  ["inputs"], "all forests (shared nodes, parallel edges, several target factors, ties, repeated tails), all scores, all k, with and without unique",
  "The unit tests use two or three hand-built graphs with a handful of derivations; correctness of lazy k-best enumeration depends on forest shape, shared sub-forests, ties and k.",
  [L+"hyper-graph.cc", H+"hyper-graph.h"],
  [("lazy k-best enumeration", L+"hyper-graph.cc HyperGraph::GetNbest/NbestGetNthPath"), ("Viterbi score", L+"hyper-graph.cc HyperNode::CalcViterbiScore"), ("translation substitution", L+"hyper-graph.cc HyperPath::CalcTranslation")],
  ["n-best list returned by the graph", "travatar -nbest output"])
p("C02", "Forest algorithms: inside-outside, rescoring, copy, append and pruning",
  "For every acyclic forest, inside-outside normalisation sets every edge score to the log posterior of the edge (its expected number of uses under the distribution that gives each derivation a probability proportional to the exponential of its score), and rescoring sets each edge to the dot product of weights and its features. Copying a forest yields an equal, fully independent forest, appending one forest to another keeps both derivation sets intact, and every reachable edge and node stays consistently numbered and linked. N-best pruning keeps precisely the nodes and edges used by the n best derivations, so the n-best list of the pruned forest is that of the original.",
  ["inputs", "histories"], "all forests and all sequences of copy/append/rescore/prune operations on them",
  "Tests check one small graph per operation; numerical range (very small or very large log scores), sharing and unreachable parts are not exercised.",
  [L+"hyper-graph.cc", H+"softmax.h", L+"trimmer.cc", L+"trimmer-nbest.cc"],
  [("inside/outside recursion", L+"hyper-graph.cc GetInsideProb/GetOutsideProb/InsideOutsideNormalize"), ("log-sum", H+"softmax.h AddLogProbs"), ("trimming", L+"trimmer.cc, "+L+"trimmer-nbest.cc")])
p("C03", "Tree and forest files survive reading and writing in every supported format",
  "Writing any parse tree in Penn or Moses-XML format and reading it back yields the same tree (labels, words, structure and spans), and writing any forest in JSON and reading it back yields an equal forest (nodes, spans, edges, tails, target words and variables, words, and scores and features to the printed precision). Reading a packed forest in Egret format yields the described nodes, edges and scores, and reading plain words or rule-format trees yields the described nodes and spans; conversions between formats preserve the words and the labelled bracketing.",
  ["inputs"], "all trees/forests with arbitrary shape and arbitrary (escaped) labels and words that the format can carry, in streams of several sentences",
  "Tests read one or two literal sentences per format; round-trip over arbitrary structure, escaping of special characters and multi-sentence streams is not sampled.",
  [L+"tree-io.cc", L+"tree-converter-runner.cc", L+"dict.cc", H+"string-util.h"],
  [("readers and writers", L+"tree-io.cc"), ("format dispatch", L+"tree-converter-runner.cc"), ("escaping", L+"dict.cc, "+H+"string-util.h")],
  ["tree-converter output", "reader/writer API"])
p("C04", "Sparse feature vectors obey vector-space algebra",
  "Sparse feature vectors and maps behave as mathematical vectors in which a missing key is zero: construction from key/value pairs (with repeated keys summed), single additions, +, -, +=, -=, scaling, dot product, equality, conversion and L1 normalisation agree with the pointwise definition for all operands, in every mix of vector and map. Results keep keys strictly increasing and unique, and aliasing an operand with the result or repeating operations in any order never changes the outcome.",
  ["inputs", "histories"], "all finite key/value sets (overlapping, disjoint, cancelling, duplicate keys) and all sequences of operations",
  "Tests check a few fixed vectors; merge branches depend on interleavings of keys, tails and cancellations.",
  [L+"sparse-map.cc", H+"sparse-map.h"],
  [("merge loops", L+"sparse-map.cc"), ("binary-search insertion", L+"sparse-map.cc SparseVector::Add")])
p("C05", "Vocabulary, rule-side, feature and alignment text parse and print faithfully",
  "Every word maps to one id and back to the same text, ids are never reused, and looking up or printing is unaffected by later insertions or by concurrent use. Printing a rule side (quoted words, numbered variables, variable labels, head label, several factors) and parsing it back yields the same data, as does printing and parsing feature lists; malformed rule sides (a variable without a number, missing or surplus labels, unclosed quotes) are rejected with an error rather than silently misread. Word-alignment strings parse to exactly the listed links and print back to the same set.",
  ["inputs", "schedules"], "all word strings, all rule sides the grammar format can express, all feature maps, all alignment strings, all interleavings of concurrent vocabulary insertions",
  "Tests contain a few literal strings; escaping, multi-factor strings, boundary variable numbers and concurrent insertion are unsampled.",
  [L+"dict.cc", H+"symbol-set.h", L+"alignment.cc", H+"string-util.h", L+"cfg-data.cc"],
  [("symbol table", H+"symbol-set.h"), ("rule side parser/printer", L+"dict.cc ParseAnnotatedVector/PrintAnnotatedVector"), ("feature parser/printer", L+"dict.cc ParseSparseMap/PrintSparseMap"), ("alignment parser", L+"alignment.cc")])
p("C06", "Binarisation keeps words, original brackets and derivations while bounding arity",
  "Left, right and CKY binarisation of any tree or forest produce a graph in which no edge has more than two children (CKY leaves edges of more than seven children as they are), the covered words and every original node taking part in an edge (label and span) are preserved, and every newly introduced node covers a contiguous sub-sequence of the children it groups. Collapsing the introduced nodes gives back exactly the original set of derivations with their scores (one-to-one for left and right binarisation, every original derivation for CKY).",
  ["inputs"], "all trees and packed forests with any arity, sharing and scores",
  "Tests binarise two fixed trees; sharing of prefixes between parallel edges, high arity, scores and spans interact.",
  [L+"binarizer-directional.cc", L+"binarizer-cky.cc", L+"binarizer.cc"],
  [("directional binarisation", L+"binarizer-directional.cc"), ("CKY binarisation", L+"binarizer-cky.cc")])
p("C07", "Splitting, unary flattening and casing change only what they claim",
  "Splitting words inside a tree whose words have their own part-of-speech nodes replaces each matching word by its pieces, keeps the remaining words in order, keeps the text recoverable and renumbers every span consistently; compound splitting picks the split with the highest geometric mean frequency subject to its thresholds. Unary flattening removes every unary non-terminal chain of a tree, keeping the words, the bracketing and multi-child nodes and their labels; in a forest it keeps the set of derivations apart from the removed single-alternative chains. Lower-casing, true-casing and case-restoring a sentence or tree changes only letter case and only at the positions the mode describes.",
  ["inputs", "configurations"], "all trees and sentences (Unicode words included) and all transformer settings",
  "Tests use single hand-written trees and ASCII words.",
  [L+"word-splitter.cc", L+"word-splitter-regex.cc", L+"word-splitter-compound.cc", L+"unary-flattener.cc", L+"caser.cc"],
  [("splitting and renumbering", L+"word-splitter.cc"), ("compound model", L+"word-splitter-compound.cc"), ("flattening", L+"unary-flattener.cc"), ("casing", L+"caser.cc")])
p("C08", "Tree-based rule extraction yields exactly the alignment-consistent rules",
  "For every parse tree, target sentence and word alignment, a tree node is a rule root or variable exactly when it covers aligned target words and no target word inside its target range is aligned to source words outside the node, and the extracted minimal rules tile the tree: replaying them top-down reproduces the whole source tree and, with variables substituted, the target sentence. Attaching unaligned target words never adds, drops or reorders a target word (without attachment only the aligned range of the sentence is covered; top attachment puts the outer unaligned words at the root), composed rules are exactly the combinations of adjacent minimal rules within the size limits, and printed rules have the source fragment, target side, labels and internal word alignments of the rule they denote.",
  ["inputs", "configurations"], "all trees, target sentences, alignments (many-to-many, crossing, null) and extraction options",
  "Tests check a handful of fixed sentence pairs; consistency depends on arbitrary crossing alignments, unary chains, null words and composition limits.",
  [L+"forest-extractor.cc", L+"rule-composer.cc", L+"hyper-graph.cc", L+"forest-extractor-runner.cc", L+"rule-filter.cc"],
  [("target spans and frontiers", L+"hyper-graph.cc CalculateTrgSpan/CalculateFrontier"), ("fragment extraction", L+"forest-extractor.cc ExtractRules"), ("null attachment", L+"forest-extractor.cc AttachNullsTop/AttachNullsExhaustive"), ("composition", L+"rule-composer.cc"), ("rule text", L+"forest-extractor.cc RuleToString")],
  ["forest-extractor standard output"])
p("C09", "Hierarchical rule extraction yields exactly the consistent phrase rules",
  "hiero-extractor takes as phrases every source span of at most max_initial_phrase words that has at least one alignment link, together with the tightest target span covering its links, when that target span is within the same limit and none of its words is aligned outside the source span; unaligned source words may stand at the edges of a phrase wherever they are in the sentence, the end included. For each phrase it prints the rule without variables and every rule obtained by cutting out one or two non-overlapping smaller phrases, keeping those with between one and max_terminals words on each side and no two variables next to each other on the source side, and it prints nothing else. x0 is the first variable in source order, the alignment column gives exactly the links between the remaining words by their position among the words of their side, and the rules of one phrase share a count of one equally. Files with different numbers of lines and alignments pointing outside a sentence are refused.",
  ["inputs", "configurations"], "all sentence pairs, all alignments and all limits (phrase length and terminals), over one or several sentences",
  "Tests use one example sentence; unaligned words at the edges, limits and nesting of sub-phrases are combinatorial.",
  [L+"hiero-extractor.cc", L+"hiero-extractor-runner.cc", L+"alignment.cc"],
  [("phrase extraction", L+"hiero-extractor.cc ExtractPhrase"), ("rule building", L+"hiero-extractor.cc ExtractHieroRule"), ("rule printing", L+"hiero-extractor-runner.cc")])
p("C10", "Tree rule lookup finds exactly the rule derivations, whichever table is used",
  "For every parse forest and tree rule table, the translation forest has one node per non-terminal parse node (same symbol and span, same order, same sentence words) and, at each node, one edge for every rule and every way its source tree can be laid over the forest below that node, leading to the nodes its variables fall on and carrying the rule's target side (every factor, with labels) and the sum of the rule's features and those of the parse edges it covers, plus the source text when asked for. Nodes no rule matches (or all nodes, when asked for) get one unknown-rule edge per parse edge, copying a single word or connecting the children in order; an unknown edge over several words is refused. When target labels are considered, each parse node has one node per target label of the rules matching it plus a connecting node, and a variable leads to the child with the wanted label if there is one and otherwise to the connecting node with a penalty feature. The hash table and the compact trie table give the same result whatever the order of the rule table, and rule sources that are not a complete tree never match.",
  ["inputs", "configurations"], "all rule tables (overlapping fragments, several targets per source, factors, labels, source order) and all input trees/forests",
  "Tests use one rule table and one tree; matching at several depths, shared prefixes between rule sources and forest input with ambiguous nodes is not sampled.",
  [L+"lookup-table.cc", L+"lookup-table-hash.cc", L+"lookup-table-marisa.cc"],
  [("incremental matching", L+"lookup-table.cc TransformGraphSrc"), ("target labels", L+"lookup-table.cc TransformGraphSrcTrg"), ("state transition text", L+"lookup-table-hash.cc, "+L+"lookup-table-marisa.cc"), ("table reading", L+"lookup-table-hash.cc ReadFromRuleTable")])
p("C11", "String parsing with a synchronous grammar yields exactly its derivations",
  "For every set of synchronous grammars and every input sentence, the parse forest built from the string (tm_storage=fsm) has as derivations exactly those of the grammars that have the root symbol over the whole sentence, whatever the order of the rules and of the grammar files: rules with words and non-terminals in any mixture, unary and glue rules, labels on the source and target side, each grammar's span limit applied to its variables, an unknown-word rule with feature unk=1 for every word for which the unknown symbol has no other derivation; each hyperedge carries its rule's features, target sides and (when asked for) source string, and its children in source order inside the parent's span. Where no derivation exists the forest is empty. Grammars whose unary rules form a cycle (of any length, also across several grammars) are refused. The parser with an integrated language model (tm_storage=cfg; one grammar, no unknown-word rules) yields, without limits, all derivations of the grammar with exact language model features at every derivation, and with pop or chart limits only such derivations.",
  ["inputs", "configurations"], "all grammars (lexical, one- and two-variable, unary, glue rules), all sentences, span limits and factor settings",
  "Tests check a few fixed grammars and counts of nodes or edges.",
  [L+"lookup-table-fsm.cc", L+"rule-fsm.cc", L+"lookup-table-cfglm.cc", L+"translation-rule-hiero.cc"],
  [("chart construction", L+"lookup-table-fsm.cc TransformGraph"), ("rule automaton and unaries", L+"rule-fsm.cc"), ("reader", L+"lookup-table-fsm.cc ReadFromRuleTable")])
p("C12", "Language-model composition is exact for every derivation it keeps",
  "After composing a translation forest with an n-gram language model, every derivation in the result corresponds to a derivation of the original forest with the same output, its score equals the original score plus the weighted language-model log probability of its whole output sentence (with sentence boundaries) and unknown-word count, and its features record those two quantities. With unlimited beam the result contains every original derivation, so the best translation is the true optimum; with a limited beam the result stays a subset, and cube pruning tries the combinations of kept parts from the best-scoring one down.",
  ["inputs", "configurations"], "all forests and n-gram models, model orders, weights, pop limits, target factors and several simultaneous language models",
  "Tests compose three fixed forests with one model and compare structure; exactness depends on boundary-word state merging across arbitrary forests.",
  [L+"lm-composer-bu.cc", L+"lm-composer.cc", L+"lm-composer-incremental.cc", L+"lookup-table-cfglm.cc", "src/kenlm/lm/left.hh"],
  [("cube pruning with LM state", L+"lm-composer-bu.cc BuildChart"), ("left/right state", "src/kenlm/lm/left.hh")])
p("C13", "N-gram language models score exactly by the back-off definition",
  "For every ARPA model and every word sequence, each model implementation (hash, trie, quantised or array-compressed trie, text or binary form, with or without back-off pruning of states) assigns each word the log probability given by the textbook back-off recursion up to its documented quantisation, and reports the matching n-gram length. Two contexts with equal model state give equal scores for every continuation, and scoring a phrase by pieces through left/right chart state gives the same total as scoring it left to right.",
  ["inputs", "configurations"], "all well-formed ARPA models (orders 1-6, missing back-offs, blanks), all sentences incl. unknown words, all implementations",
  "The language-model tests are not part of the passing suite here; single test.arpa sentences cannot settle arbitrary models.",
  ["src/kenlm/lm/model.cc", "src/kenlm/lm/search_hashed.cc", "src/kenlm/lm/search_trie.cc", "src/kenlm/lm/trie.cc", "src/kenlm/lm/left.hh", "src/kenlm/lm/vocab.cc", "src/kenlm/lm/read_arpa.cc", "src/kenlm/lm/quantize.cc", "src/kenlm/lm/bhiksha.cc"],
  [("scoring", "src/kenlm/lm/model.cc GenericModel::FullScore"), ("loading", "src/kenlm/lm/search_hashed.cc, src/kenlm/lm/search_trie.cc"), ("chart state", "src/kenlm/lm/left.hh")])
p("C14", "Translation quality scores equal their published definitions",
  "For every corpus of system outputs and references, the reported BLEU, RIBES, NIST, word error rate, sentence error rate and their documented options equal the published formula computed from scratch, and TER equals edits over reference length for a valid edit sequence with block shifts (never below the length-and-bag-of-words bound, never above the plain edit distance while that is within the search beam of 20, zero exactly for identical sentences), for sentences of any length. Scores of bounded measures stay within their bounds, and a perfect corpus gets the perfect score (for RIBES, whose definition skips words it cannot tell apart, when no word is repeated). The evaluation program reports these scores per sentence and per file, and its bootstrap comparison reports the share of resampled sets each system wins.",
  ["inputs", "configurations"], "all word sequences incl. empty and repeated words, all corpora, all option strings of each measure",
  "Tests evaluate a few literal sentence pairs.",
  [L+"eval-measure-bleu.cc", L+"eval-measure-ribes.cc", L+"eval-measure-ter.cc", L+"eval-measure-wer.cc", L+"eval-measure-zeroone.cc", L+"eval-measure-nist.cc", "src/tercpp/tercalc.cpp", L+"mt-evaluator-runner.cc"],
  [("n-gram statistics and BLEU formula", L+"eval-measure-bleu.cc"), ("rank correlation", L+"eval-measure-ribes.cc"), ("edit distance and shifts", L+"eval-measure-wer.cc, src/tercpp/tercalc.cpp"), ("information weights", L+"eval-measure-nist.cc")],
  ["mt-evaluator output"])
p("C15", "Evaluation statistics add up, round-trip and combine as configured",
  "For every measure, adding the statistics of sentences in any order or grouping gives the corpus score, adding and then subtracting a sentence restores it, scaling scales it, cloning is independent, cached computation equals uncached, and statistics written to text and read back give the same score. Interpolated measures equal the weighted combination, and formula-combined measures equal the formula, of their component scores; measures built from an option string behave like measures built directly with those options.",
  ["inputs", "histories", "configurations"], "all measures and option strings, all corpora, all sequences of statistic operations",
  "Tests combine two fixed sentences for one or two measures.",
  [L+"eval-measure.cc", H+"eval-measure.h", L+"eval-measure-interp.cc", L+"eval-measure-adv-interp.cc", L+"eval-measure-loader.cc", L+"eval-measure-bleu.cc"],
  [("statistics algebra", H+"eval-measure.h EvalStats*"), ("loader", L+"eval-measure-loader.cc"), ("interpolation", L+"eval-measure-interp.cc, "+L+"eval-measure-adv-interp.cc")])
p("C16", "Minimum error rate line search is exact",
  "For every n-best list or forest, weights and search direction, the computed envelope gives at every step size the derivation that maximises the model score at that step size, with boundaries exactly where the winner changes. The line search returns a step inside the allowed range whose corpus score equals re-evaluating the winners at that step, is at least as good as at every other interval and as at zero, and never reports a gain that re-evaluation does not confirm.",
  ["inputs", "configurations"], "all n-best lists and forests, weight vectors, gradients, ranges and evaluation measures",
  "Tests use two- or three-entry lists with chosen slopes; parallel lines, coincident breakpoints, ranges that exclude breakpoints and forests with sharing are unsampled.",
  [L+"mert-geometry.cc", L+"tuning-example-nbest.cc", L+"tuning-example-forest.cc", L+"tune-mert.cc", L+"tune-greedy-mert.cc"],
  [("envelope semiring", L+"mert-geometry.cc"), ("n-best and forest hulls", L+"tuning-example-nbest.cc, "+L+"tuning-example-forest.cc"), ("sweep", L+"tune-greedy-mert.cc, "+L+"tune-mert.cc LineSearch")])
p("C17", "Tuning objectives and their gradients agree",
  "For every set of n-best lists, the expectation-based tuning objective equals its definition (softmax expectation of the statistics, with L2 and entropy regularisation) and its reported gradient is the derivative of the reported objective in every feature for the measures it supports. Gradient-based optimisation never returns weights with a worse objective than it started from, and reported scores for given weights equal evaluating the argmax outputs under those weights.",
  ["inputs", "configurations"], "all n-best lists with arbitrary sparse features and statistics, all weights and regularisation settings",
  "Tests compare two hand-derived gradients.",
  [L+"gradient-xeval.cc", L+"gradient.cc", L+"tune-lbfgs.cc", L+"tune.cc", "src/liblbfgs/lbfgs.c"],
  [("gradient", L+"gradient-xeval.cc CalcAvgGradient/CalcSentGradient"), ("optimiser", L+"tune-lbfgs.cc")])
p("C18", "Online weight learners follow their update rules over any history",
  "For every sequence of updates, the perceptron, averaged perceptron and adaptive-gradient learners hold exactly the weights their update rule prescribes (including lazy L1 regularisation, range limits and averaging over all steps), and a pair update is made exactly when the learner's rule asks for it (perceptron: the system scores at least as high as the oracle; adaptive-gradient: also counting the margin; averaged: the oracle is strictly better by the measure; sampled pairs: the difference in quality exceeds the threshold). Reading current weights, final weights or scores at any point gives values consistent with each other and never changes what later steps compute.",
  ["inputs", "histories"], "all sequences of pairwise or n-best updates with arbitrary sparse features, scores and losses, learning rates and regularisers",
  "Tests perform one or two updates per learner; lazily applied regularisation and averaging only show over longer histories.",
  [L+"weights.cc", L+"weights-pairwise.cc", L+"weights-perceptron.cc", L+"weights-average-perceptron.cc", L+"weights-adagrad.cc", L+"weights-delayed-perceptron.cc", L+"tune-online.cc"],
  [("update rules", L+"weights-*.cc"), ("lazy regularisation", L+"weights-adagrad.cc, "+L+"weights-perceptron.cc")])
p("C19", "Formula queries evaluate like ordinary arithmetic",
  "Every well-formed arithmetic formula over numbers and named variables evaluates to the value standard precedence and associativity give, for all variable bindings, independent of whitespace; malformed formulas and unbound variables are rejected with an error rather than evaluated to something else.",
  ["inputs"], "all formulas of the query grammar (nesting, unary forms it supports, all operators) and all bindings",
  "Tests evaluate a few literal formulas.",
  [L+"math-query.cc", H+"math-query.h"],
  [("parser/evaluator", L+"math-query.cc")])
p("C20", "Tokenisation keeps the text and is stable",
  "For every input line, tokenisation only inserts or normalises spaces and applies its documented punctuation replacements (quotes, brackets, ellipsis, dashes), so that removing spaces and undoing those replacements gives back the input's text; the output has no leading, trailing or doubled spaces. Punctuation, quotes, brackets, symbols, contractions, units and sentence-final periods are split off exactly where the Penn conventions of the tokenizer say, words and abbreviations are left whole, and each line is treated on its own. Detokenising joins what tokenising split, so that an ordinarily spaced sentence survives both.",
  ["inputs"], "all byte strings/UTF-8 lines, incl. punctuation clusters, abbreviations, contractions and non-ASCII text",
  "Tests tokenise one sentence.",
  [L+"tokenizer-penn.cc", L+"tokenizer.cc", L+"tokenizer-runner.cc", "script/tok/detok.pl"],
  [("regex cascade", L+"tokenizer-penn.cc"), ("detokenisation", "script/tok/detok.pl")],
  ["standard output of tokenizer and detok.pl"])
p("C21", "Rescoring, segmentation, casing and batch tuning optimise what they state",
  "The rescorer orders each sentence's hypotheses by the weighted model score, or by the expected gain under the scaled model distribution (minimum Bayes risk), and keeps every hypothesis with its features and sentence number. The segmenter cuts the system's words into exactly as many segments as there are references, in order and without loss, within the length limit, maximising the score (each cut being the best for the best segmentation of what follows; the global optimum for measures that add up over sentences), and says so when no such cut exists. The case model gives each lower-cased word its most frequent casing away from sentence starts. Batch tuning returns finite weights, within their ranges, under which the translations score no worse than under the initial weights (MERT), the same whatever the number of threads (greedy search aside) and whether statistics are computed or read from a file, and refuses data without references.",
  ["inputs", "configurations"], "all n-best files, references, weights, measures and options",
  "No test runs these programs at all.",
  [L+"rescorer-runner.cc", L+"mt-segmenter-runner.cc", L+"train-caser-runner.cc", L+"batch-tune-runner.cc"],
  [("rescoring/MBR", L+"rescorer-runner.cc"), ("segmentation DP", L+"mt-segmenter-runner.cc"), ("case counts", L+"train-caser-runner.cc"), ("tuning runs", L+"batch-tune-runner.cc")],
  ["program standard output"])
p("C22", "The decoder is deterministic, order-preserving and consistent across its outputs",
  "For every rule table (read into any of the table types), language model, weight set, input file and option set, the decoder prints one translation per input sentence in input order, and all its output files are the same for any number of threads. The printed translations are the derivations of the rule graph: the n-best list consists of derivations of the sentence with their features, in non-increasing score, each score being the weights applied to the features shown, distinct and complete where asked and searched exactly; the first entry equals the one-best output, the derivation tree of an entry covers exactly the input's words, the trace lists the rules of the best derivation, and the forest written holds the derivations searched, trimmed to those the n-best entries use when that is asked.",
  ["inputs", "configurations", "schedules"], "all rule tables, weights, language models, tree and string inputs, thread counts and output options",
  "No test runs the decoder program; the runner's threading and output stages are untested.",
  [L+"travatar-runner.cc", L+"output-collector.cc", L+"thread-pool.cc", "src/bin/travatar.cc"],
  [("task execution", L+"travatar-runner.cc TravatarRunnerTask::Run"), ("ordered output", L+"output-collector.cc"), ("thread pool", L+"thread-pool.cc")],
  ["standard output, n-best, trace and forest files of travatar"])
p("C23", "Configuration is read exactly as written and bad configuration is refused",
  "For every combination of configuration file and command line, each option ends up with the value given last (command line over file), lists keep their order and grouping, weights are read as given, and every option not given has its documented default. Unknown options, missing values, wrong types and conflicting settings are refused with an error instead of being ignored.",
  ["configurations"], "all option names and types of every program, all file/command-line splits and section layouts",
  "No test covers the shared configuration reader beyond defaults.",
  [L+"config-base.cc", H+"config-travatar-runner.h", H+"config-base.h"],
  [("argument and file parser", L+"config-base.cc ParseCommandLine/ParseConfigFile"), ("typed getters", L+"config-base.cc GetInt/GetReal/GetBool/GetStringArray")])
p("C24", "Rule-table training scripts compute the model they describe",
  "For every set of extracted rules, the scoring pipeline (scoring in each direction, reversing, merging, filtering, alignment to lexical probabilities) gives each rule the relative-frequency and lexical probabilities defined by its counts, loses and invents no rule except those a stated limit removes, and is insensitive to the order in which equal keys arrive beyond sorting. A whole training run gives the table its steps give under the chosen options (alignment, symmetrization, extraction, scoring, limits), and a run that was stopped at any step and resumed gives the same table. Filtering a table for a test set keeps every rule that the decoder could use on that set.",
  ["inputs", "configurations", "crash_points"], "all rule multisets, alignments, lexical tables, smoothing and limit options",
  "The scripts have no tests.",
  ["script/train/score-t2s.pl", "script/train/reverse-rt.pl", "script/train/combine-rt.pl", "script/train/filter-rt.pl", "script/train/align2lex.pl", "script/train/reduce-features.pl", "script/train/filter-rule-table.py", "script/train/filter-model.pl", "script/filter/filter-null.pl", "script/train/train-travatar.pl"],
  [("scoring", "script/train/score-t2s.pl"), ("merging", "script/train/combine-rt.pl"), ("filtering", "script/train/filter-rt.pl")],
  ["script standard output"])
p("C25", "Corpus and alignment scripts keep parallel data parallel",
  "Symmetrising two directional alignments gives, for every heuristic, a link set between their intersection and union as the heuristic defines. Corpus cleaning and tree-filter scripts treat the same line of every file alike, keep the order, and drop exactly the lines outside the stated limits; n-best and weight utilities keep entries, order and numbering as documented, and the tree and text filters (replacing failed parses, moving punctuation, length limits, case changes, dependency conversion) change exactly what they say and nothing else. The preprocessing script gives, for any number of parts the corpus is split into and when it is run again, what its steps give on the whole corpus, with all files parallel.",
  ["inputs", "configurations"], "all alignment pairs, corpora, trees, n-best lists and option values",
  "The scripts have no tests.",
  ["script/train/symmetrize.pl", "script/train/clean-corpus.pl", "script/mert/nbest-uniq.pl", "script/mert/number-nbest.pl", "script/mert/update-weights.pl", "script/mert/densify-nbest.pl", "script/tree/replace-failed-parse.pl", "script/tree/limit-length.pl", "script/tree/lowercase.pl", "script/tree/raise-punc.pl", "script/tree/stanford2oneline.pl", "script/tree/ja-dep2cfg.pl", "script/recaser/truecase.pl", "script/recaser/detruecase.pl", "script/recaser/train-truecaser.pl", "script/preprocess/preprocess.pl"],
  [("grow-diag growth", "script/train/symmetrize.pl"), ("length limits", "script/train/clean-corpus.pl")])
p("C26", "Compact trie dictionary behaves as a set with ids",
  "For every set of byte strings and every build option, looking up a key succeeds exactly for members, ids are distinct and within range, reverse lookup of an id returns its key, common-prefix and predictive searches return exactly the matching members once each, and saving, loading or memory-mapping the dictionary preserves all of this.",
  ["inputs", "configurations", "histories"], "all key sets (shared prefixes, embedded zero bytes, long keys, duplicates), all build configurations, all query strings",
  "The trie has no tests in this repository.",
  ["src/marisa/trie.cc", "src/marisa/agent.cc", "src/marisa/keyset.cc", "src/marisa/grimoire/trie/louds-trie.cc", "src/marisa/grimoire/trie/tail.cc", "src/marisa/grimoire/vector/bit-vector.cc"],
  [("LOUDS trie", "src/marisa/grimoire/trie/louds-trie.cc"), ("rank/select", "src/marisa/grimoire/vector/bit-vector.cc")])
p("C27", "Low-level storage utilities behave like their reference structures",
  "Hash tables, sorted lookups, bit-packed arrays, tokenisers, line, word and number readers (over memory-mapped files, pipes and streams), string pieces, producer-consumer queues, multi-way intersection and joint sorting give the same answers as straightforward reference structures for every operation sequence; values written at one position never disturb their neighbours, and compressed input is refused with an error when no decompressor is compiled in, never read as text.",
  ["inputs", "histories"], "all operation sequences, key sets, bit widths and offsets, input texts, input sources and buffer sizes",
  "Unit tests sample fixed keys, widths and files.",
  ["src/kenlm/util/probing_hash_table.hh", "src/kenlm/util/sorted_uniform.hh", "src/kenlm/util/bit_packing.hh", "src/kenlm/util/file_piece.cc", "src/kenlm/util/read_compressed.cc", "src/kenlm/util/tokenize_piece.hh", "src/kenlm/util/joint_sort.hh", "src/kenlm/util/multi_intersection.hh"],
  [("probing hash", "src/kenlm/util/probing_hash_table.hh"), ("bit packing", "src/kenlm/util/bit_packing.hh"), ("line reading", "src/kenlm/util/file_piece.cc")])
p("C28", "Malformed input is rejected cleanly, never corrupting memory",
  "For every byte sequence given to a reader of external data (trees and forests, rule tables, alignments, n-best lists, statistics, weights, configuration, ARPA or truncated binary language models, measure and formula strings) the program that reads it either accepts it or reports an error; neither reading nor the processing of what was read reads or writes outside of memory, aborts, or hangs.",
  ["inputs", "fault_sequences"], "all byte strings, in particular truncations and small mutations of valid files",
  "Tests only give well-formed input.",
  [L+"tree-io.cc", L+"dict.cc", L+"lookup-table-hash.cc", L+"lookup-table-marisa.cc", L+"rule-fsm.cc", L+"alignment.cc", L+"eval-measure-loader.cc", L+"math-query.cc", L+"config-base.cc", "src/kenlm/lm/read_arpa.cc"],
  [("error reporting", H+"global-debug.h THROW_ERROR"), ("readers", L+"tree-io.cc, "+L+"dict.cc")])
p("C29", "Parallel execution helpers run every task once and release results in order",
  "For every set of tasks and number of worker threads, each submitted task is executed exactly once and is complete when the pool is stopped, and collected output appears on the output and error streams exactly once per task in submission order, as soon as all earlier ones have arrived, whatever order the tasks finish in.",
  ["schedules", "histories"], "all task sets, completion orders, thread counts and queue limits",
  "Tests do not cover the pool or the collector.",
  [L+"thread-pool.cc", L+"output-collector.cc", H+"task.h"],
  [("bounded queue", L+"thread-pool.cc"), ("in-order flush", L+"output-collector.cc")])
p("C30", "Tuning by repeated decoding accumulates, improves and can be resumed",
  "For every model, development set and setting of the tuning loop, each iteration decodes with the weights the previous one tuned; filtering the model for the development set does not change how it is translated; the candidates handed to the tuner are exactly the new distinct ones, and tuning never scores worse on the candidates gathered so far than the weights it started from; the loop ends exactly when the weights settle or the iterations run out, and leaves the given configuration with only its weights replaced. A failing step stops the loop, and resuming after a failure or kill at any point ends with the same weights as a run without interruption.",
  ["inputs", "configurations", "crash_points"], "all rule tables, development sets, loop settings, numbers of threads, and all points at which a step of the loop fails or the loop is killed",
  "The loop has no tests; what it leaves depends on several programs and scripts run in turns and on files kept between them.",
  ["script/mert/mert-travatar.pl", "script/mert/update-weights.pl", "script/mert/nbest-uniq.pl", "script/train/filter-model.pl", "script/train/filter-rule-table.py", L+"batch-tune-runner.cc", L+"tune.cc"],
  [("tuning loop and resumption", "script/mert/mert-travatar.pl"), ("new candidates", "script/mert/nbest-uniq.pl"), ("weight update", "script/mert/update-weights.pl")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
