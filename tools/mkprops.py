#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the statements are edited)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

# ------------------------------------------------------------------ decoder
prop("D01", "Forest inference is exact over the derivations of the forest",
 "For every acyclic translation forest, the best derivation, the total weight of all derivations, the number of derivations, the posterior of every edge and node, and the expected feature values that are reported equal the values obtained by listing every derivation of the goal one by one. The reported best translation, alignment trees and feature vector belong to a derivation of that best weight, and its weight is the sum of its edges' weighted feature values.",
 ["inputs"], "all acyclic forests (any arity, shared and repeated antecedents, zero and negative weights, any semiring the code instantiates)",
 "hg_test checks a handful of fixed forests; none has an edge that uses the same antecedent twice, and correctness for every forest shape needs an independent enumeration of derivations.",
 ["decoder/inside_outside.h", "decoder/viterbi.h", "decoder/viterbi.cc", "decoder/hg.h", "decoder/hg.cc", "training/crf/cllh_observer.cc"],
 [("Inside/Outside/InsideOutside sums over in-edges in topological order", "decoder/inside_outside.h"), ("Viterbi with traversal objects", "decoder/viterbi.h"), ("Hypergraph::ComputeEdgePosteriors / NumberOfPaths", "decoder/hg.cc")],
 observe=["return values of Inside, Outside, InsideOutside, Viterbi*, NumberOfPaths, ComputeEdgePosteriors"])

prop("D02", "K-best lists contain exactly the k best derivations, in order",
 "For every acyclic forest and every k, the k-best list holds the k highest-weighted derivations of the goal in non-increasing weight order without repeating a derivation, or all derivations when there are fewer than k. In unique mode it holds the k best distinct translations, each with the weight of its best derivation. Every entry's translation, feature vector and weight are those of one derivation of the forest.",
 ["inputs"], "all acyclic forests, all k, unfiltered and unique-translation mode, including ties and repeated requests",
 "The unit tests compare k-best on four stored forests with k<=10; laziness bugs (missed successor, premature exhaustion, duplicate candidate) depend on the shape of the forest and on the order of requests.",
 ["decoder/kbest.h", "decoder/oracle_bleu.h"],
 [("lazy successor enumeration with per-node candidate heaps and uniqueness filters", "decoder/kbest.h")],
 observe=["KBestDerivations::LazyKthBest"])

prop("D03", "Stored forests and word lattices load back unchanged",
 "Writing a forest and reading it back, compressed or not, yields a forest with the same nodes, edges, rules, antecedents, feature values and spans, hence the same derivations and weights. Reading a word lattice or a forest in the textual lattice format yields exactly the arcs, labels, target positions and costs that were written, and the textual output of a lattice denotes the same set of weighted paths.",
 ["inputs"], "all forests the decoder can write (rules with gaps and any labels, any feature values), all lattices expressible in the format, including quoted and multi-byte labels",
 "Tests round-trip one stored forest and two lattices; escaping, empty forests, unusual feature values, repeated reading and large structures are not reached.",
 ["decoder/hg_io.cc", "decoder/hg_io.h", "decoder/hg.h", "decoder/trule.h", "utils/fast_sparse_vector.h", "utils/small_vector.h", "decoder/lattice.cc"],
 [("boost serialization of Hypergraph/TRule/SparseVector", "decoder/hg.h"), ("PLF reader/writer", "decoder/hg_io.cc")],
 observe=["HypergraphIO::ReadFromBinary/WriteToBinary/ReadFromPLF/AsPLF/PLFtoLattice"])

prop("D04", "Pruning never loses the best derivation nor keeps a wrong set",
 "Pruning a forest by best-path margin never removes its best derivation, and no pruning adds a derivation or changes the weight, translation or features of one that survives. Beam pruning keeps precisely the edges whose margin (best path through the edge, or posterior) is within the beam of the best, up to rounding at the boundary, and density pruning keeps the best-ranked edges up to the requested multiple of the best path's length, except that edges tied at the boundary may go either way.",
 ["inputs", "configurations"], "all acyclic forests, all beam widths, densities, sum/max marginals and combinations, with and without preserved edges",
 "hg_test prunes one fixed forest at a few settings; the boundary between kept and dropped edges and the reindexing of what remains depend on the forest.",
 ["decoder/hg.cc", "decoder/hg.h", "decoder/decoder.cc"],
 [("PruneInsideOutside / BeamPruneInsideOutside / DensityPruneInsideOutside / MarginPrune", "decoder/hg.cc"), ("PruneEdges, PruneUnreachable, TopologicallySortNodesAndEdges", "decoder/hg.cc")],
 observe=["the set of derivations before and after"])

prop("D05", "Forest transformations preserve or combine derivations exactly",
 "Topologically reordering a forest and removing what the goal cannot reach leave the multiset of (translation, features, weight) of its derivations unchanged; pushing weights toward the goal or the source keeps every derivation, makes the weights at each node sum to one, and leaves the relative (scaled) weights of derivations unchanged. The union of two forests has the derivations of both without repeating shared edges, and intersecting a forest with a reference sentence or lattice leaves exactly the derivations whose translation that reference accepts, with their features.",
 ["inputs"], "all acyclic forests and pairs of forests, reference sentences and lattices",
 "Unit tests apply each transformation to one or two stored forests.",
 ["decoder/hg.cc", "decoder/hg_union.cc", "decoder/hg_intersect.cc", "decoder/hg_remove_eps.cc"],
 [("TopologicallySortNodesAndEdges, PruneUnreachable, PushWeightsToGoal, PushWeightsToSource, Union, CreateViterbiHypergraph", "decoder/hg.cc"), ("HG::Intersect", "decoder/hg_intersect.cc")],
 observe=["the multiset of derivations before and after"])

prop("D06", "Grammar decoding builds exactly the licensed derivations",
 "For every synchronous grammar and every input sentence or word lattice, the forest built for the input contains every derivation the grammar, glue rules, pass-through rules and span limit license for it, and no other, each once. Each derivation carries the features of its rules plus the lattice costs of the words it consumes, and the input is reported as unparseable precisely when no derivation exists.",
 ["inputs", "configurations"], "all epsilon-free, unary-cycle-free grammars, sentences and lattices, span limits, goal symbols, one or several grammars",
 "The system tests decode a few sentences with three grammars and compare scores; completeness over all inputs needs an independent enumeration of derivations.",
 ["decoder/bottom_up_parser.cc", "decoder/scfg_translator.cc", "decoder/grammar.cc", "decoder/translator.cc", "decoder/lattice.cc"],
 [("agenda of active and passive items with rule tries", "decoder/bottom_up_parser.cc"), ("glue/pass-through grammars", "decoder/grammar.cc"), ("shortest distances in lattices", "decoder/lattice.cc")],
 observe=["the forest returned by the translator", "decoder output"])

prop("D07", "Rescoring with feature functions scores every derivation correctly",
 "After rescoring a forest with any set of feature functions, every derivation present has exactly the feature values obtained by applying those functions to that derivation alone, and its weight is the weighted sum of them. Exhaustive rescoring keeps every derivation once; each approximate strategy returns a subset of those derivations, returns all of them when its limit is not reached, and never crashes or returns an empty forest for a non-empty one.",
 ["inputs", "configurations"], "all forests, stateless and stateful feature functions (any state size), all rescoring strategies, all pop limits",
 "System tests rescore a few sentences with one language model at the default limit and look only at the top score.",
 ["decoder/apply_models.cc", "decoder/ffset.cc", "decoder/ff.h", "decoder/ff.cc"],
 [("ApplyModelSet: full intersection, three cube-pruning/-growing variants", "decoder/apply_models.cc"), ("state concatenation", "decoder/ffset.cc")],
 observe=["derivations of the rescored forest"])

prop("D08", "Language-model features equal the n-gram score of the translation",
 "For every grammar, input and n-gram model, the language-model feature total of any derivation in the rescored forest equals the model's log-probability of that derivation's translation with its sentence boundary context, whichever of the available language-model feature implementations or model file formats is used, and however the translation is assembled. Out-of-vocabulary counts equal the number of target words the model does not know, and with explicit sentence markers a translation without them, or with them elsewhere than at its ends, is heavily penalised.",
 ["inputs", "configurations"], "all rule shapes (terminals before, between and after gaps), models of order 2-5 in text, probing, trie, compressed, quantised and rest-cost form or asked over the network (order 2-5), vocabularies with unknown words, class-mapped models, explicit sentence markers",
 "The system tests check top scores with one 3-gram model.",
 ["decoder/ff_klm.cc", "decoder/ff_lm.cc", "klm/lm/left.hh", "klm/lm/model.cc"],
 [("boundary state bookkeeping in KLanguageModel", "decoder/ff_klm.cc"), ("elided n-gram state", "decoder/ff_lm.cc")],
 observe=["feature values of derivations", "k-best output"])

prop("D09", "Phrase-based, finite-state and lexical decoding cover their space exactly",
 "For every phrase table and input, phrase-based decoding (of sentences and lattices) produces exactly the ways of covering each source word, or each position of a path through the lattice, once with table phrases that start at most the distortion limit after the first uncovered position; finite-state transduction, lexical translation, lexical alignment, tagging and compound splitting produce exactly the derivations their tables, references and tag sets license, each once and with its features, including those through pass-through and null words. No output skips or repeats an input word, an input without any licensed output is reported as such, and alignments printed are those of the best or most probable source words.",
 ["inputs", "configurations"], "all phrase tables, inputs and lattices, and limits",
 "Only single sentences per formalism are decoded by the system tests.",
 ["decoder/phrasebased_translator.cc", "decoder/phrasetable_fst.cc", "decoder/lextrans.cc", "decoder/tagger.cc", "decoder/lexalign.cc", "decoder/fst_translator.cc", "decoder/earley_composer.cc"],
 [("coverage-vector search", "decoder/phrasebased_translator.cc"), ("direct forest construction", "decoder/lextrans.cc")],
 observe=["forest returned by the translator"])

prop("D10", "Grammar rules mean what their text says and survive printing",
 "Every well-formed grammar line is read as the rule it denotes: left-hand side, source and target symbols with gaps and their correspondence, feature names and values, and word alignments. Printing a rule and reading the printed text again yields the same rule, and each line of a grammar file yields one rule independent of the lines around it.",
 ["inputs"], "all well-formed grammar lines: any labels, up to 99 gaps, any order of gaps, named and positional features, with or without alignments, monolingual lines, tree annotations, blank lines",
 "trule_test/grammar_test parse about ten fixed lines.",
 ["decoder/rule_lexer.ll", "decoder/trule.cc", "decoder/trule.h", "decoder/grammar.cc"],
 [("flex scanner building rules from static buffers", "decoder/rule_lexer.ll"), ("TRule::AsString / ReadFromString", "decoder/trule.cc")],
 observe=["the rule objects handed to the grammar"])

prop("D11", "Decoding is deterministic and sentences do not influence each other",
 "Decoding the same input with the same configuration always produces byte-identical output. The output for a sentence, including its k-best list, forest and any per-sentence grammar's effect, does not depend on which sentences were decoded before it in the same run (apart from the choice between exact ties when a forest is pruned, and from options that sample).",
 ["histories", "configurations"], "all sequences of input sentences (repeated, permuted, with per-sentence grammars, failing and empty ones) and decoder configurations",
 "System tests decode each corpus in one fixed order, once.",
 ["decoder/decoder.cc", "decoder/cdec.cc", "decoder/scfg_translator.cc", "decoder/ffset.cc", "decoder/sentence_metadata.h"],
 [("per-sentence grammars removed by SentenceComplete", "decoder/scfg_translator.cc"), ("weights reset per pass", "decoder/decoder.cc")],
 observe=["decoder standard output and written forests"])

prop("D12", "Reported k-best features, scores and partition values agree",
 "For every sentence decoded, each reported k-best entry's score is the sum of its reported feature values times the configured weights, entries appear in non-increasing score order, the first entry is the one-best translation, and the reported log partition is at least the best score and consistent with the forest written out. Unique lists hold the best derivation of each translation, a forest read back and rescored gives the same lists, and search spaces printed as grammars or target graphs have the same derivations. Constrained (reference) decoding reports exactly the derivations that yield the reference, with their conditional probability and feature expectations.",
 ["inputs", "configurations"], "all grammars, weights, inputs and output options",
 "The tests look at one stored gold score file.",
 ["decoder/decoder.cc", "decoder/viterbi.cc", "decoder/kbest.h", "decoder/hg_io.cc"],
 [("DecoderImpl::Decode multi-pass pipeline", "decoder/decoder.cc")],
 observe=["decoder stdout/stderr, forest files"])

prop("D13", "Forest sampling draws derivations from the posterior",
 "Random samples drawn from a forest are always derivations of that forest, reported with their own translation, features and weight, and occur with relative frequency equal to their normalised weight within sampling error. Drawing with the same seed gives the same samples.",
 ["inputs"], "all acyclic forests with non-zero total weight",
 "One unit test samples from one forest without checking the distribution.",
 ["decoder/hg_sampler.cc", "utils/sampler.h"],
 [("top-down sampling from inside weights", "decoder/hg_sampler.cc")],
 observe=["HypergraphSampler output"])

prop("D14", "Built-in sparse and penalty features count what they describe",
 "The features fired by the built-in feature functions (word and source-word penalties, arity, rule identity, rule shape, source/target rule bigrams, target n-grams, word sets, non-Latin counts, spans, source span sizes, source paths, source-tree agreement (SourceSyntax, SoftSyntax, ParseMatch), reordering, lexical and word-indicator features) sum, over the rules of a derivation other than the goal rule, to the values obtained by applying their definition to the finished derivation: its rules, spans, words, and the sentence's source tree. This is independent of the order in which rules are met, of the shape of the search, of pruning, of the number of sentences decoded before, and of whether the feature set is frozen (features outside it are ignored). Word indicators fire at most once per rule.",
 ["inputs"], "all derivations of all grammars, parameters of the feature functions, source trees, sentences in sequence, frozen and open feature sets",
 "Only top scores of few sentences are compared.",
 ["decoder/ff_basic.cc", "decoder/ff_ruleshape.cc", "decoder/ff_rules.cc", "decoder/ff_spans.cc", "decoder/ff_wordset.cc", "decoder/ff_ngrams.cc", "decoder/ff_source_syntax.cc", "decoder/ff_source_syntax2.cc", "decoder/ff_soft_syntax.cc", "decoder/ff_soft_syntax_mindist.cc", "decoder/ff_parse_match.cc", "decoder/ff_source_path.cc", "decoder/ff_lexical.h"],
 [("per-edge TraversalFeatures with boundary states", "decoder/ff_basic.cc")],
 observe=["feature vectors of derivations"])

prop("D15", "Tree-to-string decoding yields exactly the licensed derivations",
 "For every parse tree given as input, the forest of tree-to-string decoding holds exactly one derivation for each way to cover the tree from its root with rules whose source fragments occur in it (same labels, words, order and structure, each frontier nonterminal at a subtree of that label), where a rule given n times counts n times: with the rule's target side, its features, and the tree's words as source. Any label or word a tree may hold may also stand in a rule. All grammars given and the sentence's own grammars take part, those of other sentences do not. With pass-through rules, each distinct production of the tree adds one rule that copies it, with the pass-through features of its label and kind, unless it is abstract and another grammar holds it. A tree without derivation is reported as such, and with a reference exactly the derivations producing it remain.",
 ["inputs", "histories"], "all input trees, grammars and sequences of sentences with grammars of their own",
 "One system test translates one tree; rules that nearly match (same words, another structure) and trees without derivation do not occur in it.",
 ["decoder/tree2string_translator.cc", "decoder/tree_fragment.cc", "decoder/tree_fragment.h"],
 [("Tree2StringTranslatorImpl::Translate, rules in a trie matched along the tree's depth-first traversal", "decoder/tree2string_translator.cc"), ("DepthFirstIterator with truncate", "decoder/tree_fragment.h")],
 observe=["forests written by cdec -f t2s"])

prop("D16", "Coarse-to-fine decoding keeps exactly the fine derivations whose coarse projections are within the beam",
 "With coarse-to-fine grammars, where rules refine coarser rules level by level, the forest of a sentence holds exactly the derivations of the finest grammar all of whose projections, at every level, use only edges whose best derivation scores within the beam of the best one of that level's forest, each derivation once, with its own target side, features, pass-through and lattice costs. If no fine derivation is left, the beam is multiplied by the widening factor the given number of times; if still none is left, the forest is that of the finest grammar itself, or, with --ctf_no_exhaustive, the sentence counts as failed. The result for a sentence does not depend on the sentences before it.",
 ["inputs", "histories"], "all grammars with projections, beams, widening factors and numbers of widenings, sentences and lattices, and orders of sentences",
 "No test decodes coarse to fine.",
 ["decoder/scfg_translator.cc", "decoder/grammar.cc", "decoder/rule_lexer.ll", "decoder/trule.h", "decoder/hg.cc"],
 [("SCFGTranslatorImpl::RefineForest over the coarse forest's edges in topological order", "decoder/scfg_translator.cc"), ("PruneInsideOutside by max-marginals", "decoder/hg.cc")],
 observe=["forests written by cdec with --coarse_to_fine_beam_prune"])

prop("D17", "Reports over a whole forest equal their definitions",
 "What cdec reports about all derivations of a forest is what the forest's derivations define under the weights in force: summary features (expected node or edge agreement, edge posteriors) and the pass that uses them; the gradient and value of the conditional likelihood, per group of -C sentence pairs, in both formats; the translations sampled with -X, each drawn in proportion to the summed weight of its derivations and the list sorted by count and never longer than what was drawn; the translation of largest summed weight when the beam of --max_translation_beam cuts nothing; the constrained search space printed as a grammar; k-best lists in the Mr. MIRA format under weights changed cumulatively by the deltas sent with each sentence. Each rescoring pass uses its own features, weights, intersection strategy and limits, and a full intersection loses no derivation of the pass before.",
 ["inputs", "histories"], "all grammars, weights, sentences, references, random draws, and sequences of weight deltas",
 "Tests compare the one best translation and a few top scores.",
 ["decoder/decoder.cc", "decoder/maxtrans_blunsom.cc", "decoder/hg.cc", "decoder/inside_outside.h", "decoder/hg_io.cc", "utils/exp_semiring.h"],
 [("SummaryFeature, MaxTranslationSample, the gradient of DecoderImpl::Decode", "decoder/decoder.cc"), ("MaxTransBeamSearch", "decoder/maxtrans_blunsom.cc"), ("Hypergraph::ComputeEdgePosteriors, ComputeBestPathThroughEdges", "decoder/hg.cc")],
 observe=["standard output of cdec, forests written by the same configuration"])

prop("D18", "Lazy language-model search finds the best translation",
 "With --incremental_search, cdec prints for every sentence that parses exactly one line: a translation the grammar licenses and the score of a derivation of it - the weighted sum of its rule and input-arc features, its words' back-off log probabilities (log10) with the context there is, the word penalty and the count of unknown words. When the pop limit does not cut anything this is the best of all derivations of the forest, however its hypotheses are grouped by boundary words, for models read as text, hashed or with rest costs, for words, lattices and stored forests; features without a given weight count nothing. A smaller limit may miss the best but never changes what a printed score means.",
 ["inputs"], "all grammars, models, weights, sentences and pop limits",
 "The repository's tests never run this search.",
 ["decoder/incremental.cc", "klm/search/edge_generator.cc", "klm/search/vertex.cc", "klm/search/vertex.hh", "klm/search/vertex_generator.hh", "klm/search/rule.cc", "klm/search/nbest.hh", "klm/lm/partial.hh", "klm/lm/state.hh"],
 [("Incremental::ConvertEdge, Search", "decoder/incremental.cc"), ("EdgeGenerator::Pop and FastScore", "klm/search/edge_generator.cc"), ("VertexNode::BuildExtend, FinishedAppending", "klm/search/vertex.cc"), ("hash_value(ChartState) by which hypotheses are recombined", "klm/lm/state.hh")],
 observe=["standard output of cdec, forests written by the same configuration without the search"])
prop("D19", "Compound splitting lists exactly the licensed segmentations with their defined scores",
 "For every word, cdec's compound splitter (formalism csplit) derives exactly the segmentations into pieces of at least three characters (a shorter word as a whole), each piece with and without a linking element that may be dropped before another piece (es, s, and the n of en), a letter being a whole UTF-8 character. Every segmentation carries the sums over its pieces of the features' definitions: lengths, membership and frequency in the dictionary (every entry of it, the last one included), bad words and marked words whichever of the lists are given, length classes, and the reversed character model's probability that a word can start where a piece starts. --csplit_output_plf prints a lattice whose paths are these segmentations with their scores; with a beam, those made of pieces some segmentation within the beam uses, and the whole word where it is to be preserved. compound-split.pl prints for each line its words in order: short words, numbers and the like as they are, others as the best segmentation or its lattice, with their case restored on demand.",
 ["inputs"], "all words, dictionaries, character models, weights, beams and options",
 "The repository has no test of the compound splitter.",
 ["decoder/ff_csplit.cc", "decoder/csplit.cc", "decoder/freqdict.h", "decoder/hg_io.cc", "compound-split/compound-split.pl"],
 [("BasicCSplitFeaturesImpl::TraversalFeaturesImpl, LeftPhonotacticProb", "decoder/ff_csplit.cc"), ("CompoundSplitImpl::BuildTrellis, GetFullWordEdgeIndex", "decoder/csplit.cc"), ("FreqDict::Load", "decoder/freqdict.h"), ("HypergraphIO::AsPLF", "decoder/hg_io.cc")],
 observe=["k-best lists and lattices printed by cdec, standard output of compound-split.pl"])
prop("D20", "Grammars convert to exactly their derivations and reorderings",
 "grammar_convert prints for every grammar of its input, in order, the best-scoring string the grammar derives (an empty line if it derives none), and with -k the best k derivations with their strings, features and scores: no more and no fewer than there are, whatever rules cannot be reached or completed. With --reorder every rule that is its category's only one, from S down, also applies in every order of its right-hand side in which nothing moves farther than --max_reorder or across a punctuation category, each order adding the feature that names it; words and categories move together with what they derive. --collapse_weights replaces the features by one that carries the weighted sum.",
 ["inputs"], "all acyclic grammars, weights and options",
 "The repository has no test of grammar_convert.",
 ["training/utils/grammar_convert.cc", "decoder/hg.cc", "decoder/kbest.h", "decoder/trule.cc"],
 [("FilterAndCheckCorrectness, PermuteYKRecursive, CheckPermutationMask, ConstituentOrderFeature", "training/utils/grammar_convert.cc"), ("Hypergraph::TopologicallySortNodesAndEdges, PruneEdges", "decoder/hg.cc"), ("KBestDerivations", "decoder/kbest.h")],
 observe=["standard output of grammar_convert and the derivations it lists on standard error"])

# ------------------------------------------------------------------ utils
prop("U01", "Sparse vectors behave as maps from features to values",
 "Every sequence of sparse-vector operations (set, add, subtract, scale, dot product, erase, swap, copy, iterate, serialise) has the effect it has on a mathematical vector whose absent entries are zero, whatever its size and history; the library's small vectors and two-dimensional arrays likewise behave as the ordinary sequences they stand for.",
 ["histories", "inputs"], "all operation sequences, including those crossing the switch between inline and heap storage, self-assignment and self-addition",
 "sv_test/small_vector_test run about ten fixed sequences.",
 ["utils/fast_sparse_vector.h", "utils/sparse_vector.cc", "utils/small_vector.h", "utils/array2d.h", "utils/value_array.h"],
 [("inline small-vector representation with promotion to a map", "utils/fast_sparse_vector.h"), ("SmallVector tagged storage", "utils/small_vector.h")],
 observe=["values read back after every operation"])

prop("U02", "Log-domain weights follow real arithmetic",
 "Addition, subtraction, multiplication, division, powers, comparison and conversion of log-domain signed numbers agree with ordinary real arithmetic to rounding, including zero, one, negative values and magnitudes beyond what a double can represent, and never turn finite non-zero operands into zero, infinity or not-a-number while the result is representable and not lost to cancellation.",
 ["inputs"], "all pairs of representable values and operation sequences",
 "logval_test checks six fixed expressions.",
 ["utils/logval.h", "utils/prob.h", "utils/exp_semiring.h", "utils/semiring.h"],
 [("LogVal operators with sign and log magnitude", "utils/logval.h")],
 observe=["results of operations"])

prop("U03", "Word and feature dictionaries are stable bijections",
 "Converting a string to an identifier and back always returns the same string, two different strings never share an identifier, an identifier never changes during a run, and converting a sentence splits it precisely at its whitespace. A frozen feature dictionary answers consistently and never invents identifiers.",
 ["histories", "inputs"], "all strings and all conversion histories",
 "dict_test converts four words.",
 ["utils/dict.h", "utils/dict.cc", "utils/tdict.cc", "utils/fdict.cc"],
 [("hash map plus vector of strings", "utils/dict.h")],
 observe=["Convert results"])

prop("U04", "Weights and feature vectors survive being written and read",
 "Weights written to a file and read back (as a dense vector or compressed) keep every non-zero weight's name and value to the printed precision; feature vectors encoded for transport and decoded are bit-identical. Comments, blank lines and either accepted field layout are read as documented, and malformed binary or text input is rejected rather than misread.",
 ["inputs"], "all weight maps, names (including escaped and multi-byte) and values",
 "weights_test reads one file; the transport encoding has no test.",
 ["utils/weights.cc", "utils/b64featvector.cc", "utils/b64tools.cc", "utils/fdict.cc"],
 [("Weights::InitFromFile/WriteToFile", "utils/weights.cc"), ("B64 encode/decode", "utils/b64featvector.cc")],
 observe=["values read back"])

prop("U05", "Alignment combination implements its set definition",
 "For every pair of word alignments, the alignment tool's intersect, union, invert, convert and f-measure commands produce exactly the corresponding set operation or statistic, and the growing heuristics produce exactly the points their published definition adds, each result lying between intersection and union. Reading an alignment and writing it back preserves the set of points.",
 ["inputs"], "all pairs of alignment lines, including empty ones and different grid sizes, and multi-line files",
 "Nothing in the test suite runs the tool.",
 ["utils/atools.cc", "utils/alignment_io.cc", "utils/array2d.h"],
 [("RefineCommand::Grow", "utils/atools.cc")],
 observe=["tool output"])

prop("U06", "File streams deliver the bytes written, compressed or not",
 "Data written through the file-writing layer, plain or compressed by file name, and read back through the file-reading layer is identical byte for byte and line for line, for any content, chunking and length. Duplicate removal over a corpus keeps the first occurrence of every distinct line and the original order.",
 ["inputs", "histories"], "all byte strings, write/read/put-back/peek patterns and sizes across buffer boundaries",
 "Only small files are read by tests.",
 ["utils/filelib.cc", "utils/filelib.h", "utils/gzstream.cc", "utils/gzstream.h", "utils/dedup_corpus.cc"],
 [("gzstreambuf underflow/overflow/sync", "utils/gzstream.cc")],
 observe=["bytes read"])

# ------------------------------------------------------------------ mteval
prop("M01", "Evaluation metrics compute their published definitions",
 "For every hypothesis and reference set, the BLEU variants, word and character error rates, string-kernel and combined metrics computed equal an independent computation from their definitions, and the translation edit rate's reported edits are a valid edit script no worse than plain edit distance, the same from both implementations. (Character error rates count bytes; where references are equally close either one's length may be used.) An evaluator gives the same statistics however often it is used. Corpus scores are functions of the sum of sentence statistics only.",
 ["inputs"], "all hypotheses and reference sets, including empty, identical, very short, repeated-word and multi-reference ones",
 "scorer_test scores two sentences.",
 ["mteval/ns.cc", "mteval/ns_ter.cc", "mteval/ns_ter_impl.cc", "mteval/ns_wer.cc", "mteval/ns_cer.cc", "mteval/ns_ssk.cc", "mteval/ns_comb.cc", "mteval/scorer.cc", "mteval/ter.cc"],
 [("per-segment sufficient statistics plus a scoring function", "mteval/ns.cc")],
 observe=["sufficient statistics and scores", "fast_score output"])

prop("M02", "Metric statistics add, subtract and survive encoding",
 "Sufficient statistics form an additive group: accumulation is independent of order and grouping, subtracting undoes adding, and encoding then decoding statistics or an error surface returns the same statistics, so any distribution of the work over processes yields the same corpus score.",
 ["inputs", "histories"], "all statistics of all metrics including combined ones",
 "The tests encode one statistic once.",
 ["mteval/ns.h", "mteval/ns.cc", "training/dpmert/error_surface.cc", "mteval/scorer.cc"],
 [("SufficientStats operators and Encode", "mteval/ns.h"), ("ErrorSurface::Serialize", "training/dpmert/error_surface.cc")],
 observe=["decoded statistics"])

prop("M03", "Minimum-risk selection returns the least expected loss entry",
 "For every k-best list, the minimum-Bayes-risk tool outputs, for each sentence in order, the entry whose expected loss under the normalised scaled scores is smallest; with list output every entry appears once, ordered by that expected loss.",
 ["inputs", "configurations"], "all k-best lists, one or many sentences, scales, metrics",
 "No test runs the tool.",
 ["mteval/mbr_kbest.cc"],
 [("pairwise loss accumulation with early exit", "mteval/mbr_kbest.cc")],
 observe=["tool output"])

# ------------------------------------------------------------------ training
prop("T01", "Minimum-error line search sees the true error surface",
 "For every forest, starting weights and direction, the computed envelope lists, for every step size, a best-scoring derivation at that step, and switches exactly where the best derivation changes. The line search returns a step whose corpus score under the metric is the best attainable along the line among intervals wider than its tolerance, and reports that score.",
 ["inputs"], "all acyclic forests, directions, origins and collections of sentences; minimised and maximised metrics",
 "lo_test checks segment counts on two stored forests.",
 ["training/dpmert/mert_geometry.cc", "training/dpmert/ces.cc", "training/dpmert/line_optimizer.cc", "training/dpmert/mr_dpmert_map.cc", "training/dpmert/mr_dpmert_reduce.cc"],
 [("ConvexHull semiring over the forest", "training/dpmert/mert_geometry.cc"), ("sorted interval sweep", "training/dpmert/line_optimizer.cc")],
 observe=["envelope segments", "line search result"])

prop("T02", "Training gradients are the derivatives of their objectives",
 "For every candidate list or forest and every weight vector, the gradient reported for expected loss, entropy, pairwise ranking and conditional log-likelihood equals the numerical derivative of the reported objective, and the objective equals its definition over the listed candidates or derivations. (The decoder's gradient output is that of the conditional log-likelihood; the objective it prints is the negative of it.)",
 ["inputs"], "all candidate sets, forests and weights",
 "No test evaluates these gradients.",
 ["training/utils/risk.cc", "training/utils/entropy.cc", "training/crf/mpi_batch_optimize.cc", "decoder/decoder.cc", "training/crf/cllh_observer.cc", "training/minrisk/minrisk_optimize.cc"],
 [("expectation differences under the model", "training/utils/risk.cc")],
 observe=["objective and gradient values", "decoder gradient output"])

prop("T03", "Optimisers reach the optimum and survive being saved",
 "On every smooth, strictly convex objective (well-conditioned ones for RProp) the batch optimisers converge to its minimiser, never report convergence at a point with a large gradient, and respect their regulariser. Saving an optimiser's state between any two steps and restoring it elsewhere continues with the same trajectory.",
 ["inputs", "histories"], "all convex quadratics and logistic objectives, any interruption point",
 "optimize_test runs three optimisers on one parabola.",
 ["training/utils/optimize.cc", "training/utils/optimize.h", "training/utils/lbfgs.h", "training/liblbfgs/lbfgs.c", "training/utils/online_optimizer.h"],
 [("LBFGS with line search and serialised state", "training/utils/lbfgs.h")],
 observe=["iterates"])

prop("T04", "Candidate pools keep every distinct candidate exactly once",
 "Accumulating k-best candidates over iterations, writing the pool to disk and reading it back keeps precisely the distinct (translation, features) pairs seen, with their metric statistics; pairwise-ranking examples drawn from a pool always prefer the candidate the metric prefers and carry the feature difference as precisely as they are printed (six digits; differences below 1e-4 are left out; values closer than 1e-5 do not distinguish candidates).",
 ["inputs", "histories"], "all sequences of candidate additions, saves and loads",
 "No test covers the pool or the samplers.",
 ["training/utils/candidate_set.cc", "training/pro/mr_pro_map.cc", "training/pro/mr_pro_reduce.cc"],
 [("hash-based deduplication", "training/utils/candidate_set.cc")],
 observe=["pool contents", "sampled pairs"])

prop("T05", "Training programs take exactly the steps their update rules define",
 "Run over any corpus, every step of a training program follows its rule, computed over all derivations of the sentences' forests: mpi_online_optimize (stochastic gradient with cumulative L1 penalty and frozen features), mpi_adagrad_optimize (adaptive dual averaging with L1), mpi_flex_optimize (each minibatch's regularised optimum), mpi_baum_welch (normalised expected counts per event class), kbest_mira (hope against fear with capped steps; per-pass and final averages), kbest_cut_mira (fixed, passive-aggressive and dual-coordinate steps between hope and fear over a corpus; in a streaming session every translation, every update and every set of weights written reflects all updates and settings made before it), rampion_cccp (hope and fear subgradients) and dtrain (pairwise ranking with its samplings, scorers, margins, batch mode and choice of weights). They start from the weights given, train on the training data only, draw sentences as the seed says, and write the weights reached; mpi_extract_features and mpi_extract_reachable write exactly the features met (each once) and the reachable lines.",
 ["inputs", "histories", "configurations"], "all corpora, seeds, initial weights and settings of the programs",
 "No test runs these programs.",
 ["training/crf/mpi_online_optimize.cc", "training/crf/mpi_adagrad_optimize.cc", "training/crf/mpi_flex_optimize.cc", "training/crf/mpi_baum_welch.cc", "training/crf/mpi_extract_features.cc", "training/crf/mpi_extract_reachable.cc", "training/mira/kbest_mira.cc", "training/mira/kbest_cut_mira.cc", "training/rampion/rampion_cccp.cc", "training/dtrain/dtrain.cc", "training/dtrain/score.cc", "training/dtrain/pairsampling.h", "training/dtrain/kbestget.h", "training/utils/online_optimizer.h"],
 [("cumulative L1 clipping", "training/utils/online_optimizer.h"), ("dual averaging", "training/crf/mpi_adagrad_optimize.cc"), ("hope and fear", "training/mira/kbest_mira.cc"), ("pair sampling", "training/dtrain/pairsampling.h")],
 observe=["weight files", "feature lists"])

prop("T06", "Sentences distributed over workers come back complete, once and in order",
 "Whatever the pace of the input, the number of workers and the moments at which they connect, answer, are dismissed or fail, the sentence server writes the answer to every input line exactly once, in input order and as soon as all earlier answers are in. A line is given to one worker at a time, and again only after the one that held it failed; each worker gets lines in input order. Connections without the key, or that close at once, change nothing. The server ends with success when all lines are answered; when the last worker fails it writes the finished answers and ends with an error, or waits for another with --stay-alive. Decoding through parallelize.pl and decode-and-evaluate.pl therefore gives what the decoder gives alone, and decode-and-evaluate.pl reports that output's scores.",
 ["schedules", "crash points", "inputs"], "all schedules of workers, all points at which workers fail (between answers), all input pacing",
 "No test runs the server; lost or repeated sentences depend on when workers die and on what others do at that moment.",
 ["training/utils/sentserver.cc", "training/utils/sentclient.cc", "training/utils/parallelize.pl", "training/utils/decode-and-evaluate.pl"],
 [("queue of running, aborted and finished lines", "training/utils/sentserver.cc"), ("launching workers", "training/utils/parallelize.pl")],
 observe=["lines received by each worker", "server output and exit status"])

prop("T07", "Tuning drivers carry data and weights correctly from round to round",
 "For any development set, grammar, metric, starting weights, number of workers and of rounds, each round of dpmert.pl, pro.pl, rampion.pl and minrisk.pl decodes the whole development set with the weights the previous round left, stores those translations and reports their score; hands each sentence's forest with its references exactly once to the optimiser (MERT forests, and candidate lists where accumulated, grow over the rounds; otherwise they are those of this round); and leaves the weights the optimiser finds from there. The score MERT projects is the best over all directions (lowest for error metrics), never worse than before the step, and is what the 1-best of the accumulated forests reaches under the weights written. The final weights are those of the last round, and documented options are honoured.",
 ["inputs", "histories"], "all development sets, metrics, starting weights, option combinations and numbers of rounds",
 "No test runs a driver; a stale weight file, a sentence dropped from the agenda or a reversed metric still ends with plausible weights.",
 ["training/dpmert/dpmert.pl", "training/pro/pro.pl", "training/rampion/rampion.pl", "training/minrisk/minrisk.pl", "training/dpmert/mr_dpmert_generate_mapper_input.cc", "training/dpmert/mr_dpmert_map.cc", "training/dpmert/mr_dpmert_reduce.cc", "training/utils/parallelize.pl", "training/utils/libcall.pl"],
 [("main optimization loop", "training/dpmert/dpmert.pl"), ("agenda generation", "training/dpmert/mr_dpmert_generate_mapper_input.cc")],
 observe=["weights, translations, agendas and forests of every round", "scores the driver reports"])

# ------------------------------------------------------------------ corpus tools
prop("C01", "Corpus tools keep every sentence with its translations",
 "Over any corpus, paste-files.pl joins the i-th lines of its files (lines holding a separator emptied, spaces normalised) and refuses files of different lengths; cut-corpus.pl returns the fields asked for, so it undoes paste-files.pl; filter-length.pl keeps, unchanged and in order, exactly the well-formed pairs within the length limit whose length ratio is no outlier (short pairs always); add-sos-eos.pl marks every field and shifts every alignment link; lowercase.pl and corpus-stats.pl, add-self-translations.pl, conll2cdec.pl and moses-scfg-to-cdec.pl do what their usage says, line by line; moses-xml.pl unescape undoes escape; sample-dev-sets.py puts every line into exactly one part, development sets being whole documents. The tokenizer writes one line per line, keeps separators, characters and word boundaries, and treats each line alone, whether run plainly, unbuffered or by tokenize-parallel.py; untok.pl changes spaces only.",
 ["inputs"], "all corpora (empty and malformed lines, gzip files, missing last line end, extreme lengths)",
 "No test runs these scripts; a line lost or shifted in one file of a parallel corpus spoils everything after it without any error.",
 ["corpus/paste-files.pl", "corpus/cut-corpus.pl", "corpus/filter-length.pl", "corpus/add-sos-eos.pl", "corpus/lowercase.pl", "corpus/corpus-stats.pl", "corpus/add-self-translations.pl", "corpus/conll2cdec.pl", "corpus/moses-scfg-to-cdec.pl", "corpus/moses-xml.pl", "corpus/sample-dev-sets.py", "corpus/tokenize-anything.sh", "corpus/tokenize-parallel.py", "corpus/support/tokenizer.pl", "corpus/untok.pl"],
 [("two-pass ratio filter", "corpus/filter-length.pl"), ("line-parallel reading", "corpus/paste-files.pl")],
 observe=["script outputs", "exit status"])

# ------------------------------------------------------------------ aligner
prop("A01", "Word-alignment training performs exact expectation maximisation",
 "For every parallel corpus, each training iteration of the aligner computes the expected counts of its model exactly: the reported log-likelihood never decreases across iterations of plain training, translation tables written out are the normalised expected counts, and each printed link is the most probable source position (or none) for that target word under the trained model. Reversed training and scoring of held-out sentences use the same model.",
 ["inputs", "configurations"], "all parallel corpora, with and without diagonal prior, null word, variational estimation, reversal",
 "No test runs the aligner.",
 ["word-aligner/fast_align.cc", "word-aligner/da.h", "word-aligner/ttables.h", "word-aligner/ttables.cc"],
 [("E-step accumulation, Normalize", "word-aligner/ttables.h"), ("closed-form diagonal normaliser", "word-aligner/da.h")],
 observe=["alignments, likelihoods and parameters printed by fast_align"])

# ------------------------------------------------------------------ extractor
prop("X01", "Phrase lookup finds every occurrence in the training data",
 "For every corpus and every source phrase, contiguous or with gaps, the index reports exactly the places where the phrase occurs within one sentence under the configured gap and span limits, each once; sampling returns a subset of these of the requested size, deterministically.",
 ["inputs", "configurations"], "all corpora (repetitive ones in particular), query phrases, gap and rule-span limits, frequent-pattern precomputation settings",
 "Unit tests use one 9-word corpus and mock neighbours.",
 ["extractor/suffix_array.cc", "extractor/data_array.cc", "extractor/matchings_finder.cc", "extractor/fast_intersector.cc", "extractor/precomputation.cc", "extractor/phrase_location_sampler.cc", "extractor/suffix_array_sampler.cc", "extractor/matchings_sampler.cc"],
 [("suffix array construction and binary-search lookup", "extractor/suffix_array.cc"), ("intersection of collocation lists", "extractor/fast_intersector.cc")],
 observe=["phrase locations"])

prop("X02", "Extracted rules are exactly those the word alignment supports",
 "For every aligned corpus and input sentence, every rule in the extracted grammar occurs in some training sentence pair consistently with its word alignment, respecting the configured limits, and every consistent rule within the limits for a sampled occurrence is extracted; each rule is listed once with the word alignment it was seen with.",
 ["inputs", "configurations"], "all aligned corpora, input sentences and limits",
 "Unit tests check a few hand-made alignments through mocks.",
 ["extractor/rule_extractor.cc", "extractor/rule_extractor_helper.cc", "extractor/target_phrase_extractor.cc", "extractor/rule_factory.cc", "extractor/grammar_extractor.cc"],
 [("projection of spans through alignments with tight/loose growth", "extractor/rule_extractor_helper.cc")],
 observe=["grammar files"])

prop("X03", "A compiled corpus index loads back identical",
 "Compiling a corpus to disk and extracting from the compiled files gives the same grammars as extracting directly from the corpus text, and reading any compiled component back yields an object equal to the one written.",
 ["inputs", "configurations"], "all corpora and settings",
 "Unit tests round-trip one tiny object of each kind.",
 ["extractor/sacompile.cc", "extractor/extract.cc", "extractor/run_extractor.cc", "extractor/data_array.h", "extractor/suffix_array.h", "extractor/precomputation.h", "extractor/alignment.h", "extractor/translation_table.h"],
 [("boost archives for every component", "extractor/sacompile.cc")],
 observe=["grammar files", "equality after reading"])

prop("X04", "Grammar extraction does not depend on the number of threads",
 "For every corpus, extraction with any number of threads writes the same grammar for each sentence and the same annotated sentences in input order, and no memory location is accessed concurrently without synchronisation.",
 ["schedules", "configurations"], "all thread counts and interleavings",
 "Tests extract one grammar in one thread.",
 ["extractor/run_extractor.cc", "extractor/extract.cc", "extractor/fast_intersector.cc", "extractor/vocabulary.cc", "extractor/matchings_finder.cc"],
 [("OpenMP parallel loop over sentences; locks in vocabulary and caches", "extractor/extract.cc")],
 observe=["grammar files", "race detector reports"])

prop("X05", "Extracted rule scores follow their definitions",
 "For every extracted rule, its scores equal those computed from their definitions over the sampled occurrences and the corpus: counts of the source and of the pair, conditional coherence, singleton indicators, and maximum lexical weights under the relative-frequency translation table.",
 ["inputs"], "all corpora and rules",
 "Unit tests feed constants to each feature.",
 ["extractor/features", "extractor/translation_table.cc", "extractor/scorer.cc", "extractor/rule_extractor.cc"],
 [("feature objects over a feature context", "extractor/features")],
 observe=["grammar files"])

# ------------------------------------------------------------------ klm
prop("K01", "Every language-model format gives the backoff model's probability",
 "For every well-formed n-gram model file, each in-memory representation assigns every word in every context the probability defined by backoff over the file's entries (exactly for unquantised models), with the matched order reported correctly, and states obtained through different histories that agree on all relevant context compare equal. Unknown words receive the unknown-word probability.",
 ["inputs", "configurations"], "all ARPA models (orders 1-6, pruned, with missing lower orders where permitted), all contexts, all data structures",
 "model_test queries one 5-gram model at fixed points.",
 ["klm/lm/model.cc", "klm/lm/search_hashed.cc", "klm/lm/search_trie.cc", "klm/lm/trie.cc", "klm/lm/vocab.cc", "klm/lm/read_arpa.cc", "klm/lm/quantize.cc", "klm/lm/bhiksha.cc", "klm/util/bit_packing.hh", "klm/util/probing_hash_table.hh"],
 [("hashed and trie search with backoff accumulation", "klm/lm/model.cc")],
 observe=["FullScore results and states"])

prop("K02", "Binary language models are equivalent to the text they came from",
 "A model converted to its binary form and loaded back, by any loading method and with any conversion options, gives identical scores and vocabulary to the same structure built from the text; a truncated or mismatched binary file is rejected with an error rather than used.",
 ["inputs", "configurations"], "all models, data structures, load methods, write methods, damage to the file",
 "write_and_read tests cover one model.",
 ["klm/lm/binary_format.cc", "klm/lm/build_binary_main.cc", "klm/lm/vocab.cc", "klm/util/mmap.cc"],
 [("header with counts and sanity fields", "klm/lm/binary_format.cc")],
 observe=["query output"])

prop("K03", "Language-model scores do not depend on how a sentence is assembled",
 "For every sentence and every way of building it from fragments, left to right, by concatenating partial hypotheses, or by extending a fragment's known boundary, the total score equals the left-to-right score of the sentence, and two fragments whose boundary states are equal score equally in every larger context.",
 ["inputs"], "all models, sentences and bracketings, all data structures",
 "left_test covers fixed strings with one model.",
 ["klm/lm/left.hh", "klm/lm/partial.hh", "klm/lm/state.hh", "klm/lm/model.cc"],
 [("RuleScore with left and right state", "klm/lm/left.hh"), ("RevealBefore/RevealAfter/Subsume", "klm/lm/partial.hh")],
 observe=["RuleScore totals"])

prop("K04", "Model estimation is normalised and independent of resources",
 "For every corpus, the estimated n-gram model is a proper interpolated modified Kneser-Ney model: counts and discounts follow the definition and probabilities over the vocabulary sum to one in every context. The result does not depend on memory limits, block sizes or the number of blocks used.",
 ["inputs", "configurations"], "all corpora, orders, memory limits, pruning settings",
 "Unit tests cover two steps on one tiny corpus.",
 ["klm/lm/builder/corpus_count.cc", "klm/lm/builder/adjust_counts.cc", "klm/lm/builder/initial_probabilities.cc", "klm/lm/builder/interpolate.cc", "klm/lm/builder/pipeline.cc", "klm/util/stream/sort.hh"],
 [("streaming external-memory pipeline", "klm/lm/builder/pipeline.cc")],
 observe=["ARPA output"])

prop("K05", "Streaming workers neither lose, reorder nor race on records",
 "For every chain of concurrent workers, block size, block count and amount of memory, each record written by one stage is seen exactly once and in order by the next, external sorting outputs a sorted permutation of its input (combining equal records when asked), a bounded queue delivers every item exactly once, and no memory location is accessed concurrently without synchronisation.",
 ["schedules", "inputs", "configurations"], "all interleavings and configurations",
 "Unit tests run two small chains and a single-threaded queue.",
 ["klm/util/stream/chain.cc", "klm/util/stream/chain.hh", "klm/util/stream/sort.hh", "klm/util/stream/io.cc", "klm/util/pcqueue.hh", "klm/util/thread_pool.hh"],
 [("producer/consumer queues of blocks with poison", "klm/util/stream/chain.cc")],
 observe=["records at each stage", "race detector reports"])

prop("K06", "Text and compressed input is read identically",
 "For every file, plain, gzip, bzip2 or xz, concatenated members included, mapped or streamed, reading by lines, words, characters or numbers yields exactly the content of the uncompressed file in order, ending with an end-of-file report at the true end. Offsets count characters of that content, and a truncated compressed file is reported as such.",
 ["inputs"], "all contents, compressions and buffer sizes",
 "Tests read three small fixed files.",
 ["klm/util/file_piece.cc", "klm/util/read_compressed.cc", "klm/util/file.cc", "klm/util/mmap.cc"],
 [("buffer shifting and mapping windows", "klm/util/file_piece.cc")],
 observe=["data returned"])

prop("K07", "Hashing, packing and joint sorting utilities keep their contents",
 "Every key inserted in the probing hash table is found with its value and no other key is, bit-packed arrays return every value written regardless of neighbours, and searching sorted arrays or sorting parallel arrays agrees with the ordinary definition.",
 ["inputs", "histories"], "all key sets, bit widths, operation sequences",
 "Tests cover few widths and a small table.",
 ["klm/util/probing_hash_table.hh", "klm/util/bit_packing.hh", "klm/util/sorted_uniform.hh", "klm/util/joint_sort.hh", "klm/lm/bhiksha.cc"],
 [("open addressing; unaligned bit access", "klm/util/probing_hash_table.hh")],
 observe=["values returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, sort_keys=False) + "\n")
print(len(P), "properties")
