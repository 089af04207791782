#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, MANIFEST.json, known_findings.json, seeded/*/meta.json and the notes below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
KF = json.load(open(V + "/known_findings.json"))
HOW = {
"D01": "harness d01.cc builds random forests (repeated tails, unreachable nodes, ties, large weights) with the real Hypergraph class and calls Inside, Outside, InsideOutside, ComputeNodeFeatureExpectations/edge posteriors, Viterbi and the counting semiring; the oracle lists every derivation by recursion and sums in long double.",
"D02": "harness d02.cc asks KBest::KBestDerivations for the k-th best derivation of every forest, in several request orders and with and without the duplicate filter; the oracle sorts all derivations enumerated.",
"D03": "d03.cc writes forests and lattices in one process and dumps everything that is stored (nodes, edges, rules, features, spans, categories); a second process reads and dumps again; the dumps must be equal byte for byte. Word lattices (PLF) go through print and read.",
"D04": "d04.cc prunes random forests by margin, density and beam; the oracle computes each edge's best (max criterion) or expected weight from all derivations, and judges the set kept: no edge outside the margin is kept where the documentation says so, none inside is lost, and the best derivation survives.",
"D05": "d05.cc runs union, intersection with a reference (general and fast), epsilon removal, sorting, unique-goal, copy/reindex and weight pushing; the oracle compares multisets of (source, target, features, weight) of derivations before and after.",
"D06": "d06.cc hands random grammars (up to three gaps per rule, several categories, glue and pass-through rules, span limits) and sentences or lattices to the SCFG translator in process and compares the derivations of its forest with a recursive enumerator that knows nothing of charts.",
"D07": "d07.cc registers synthetic stateless and stateful feature functions (with states of several sizes, final features, estimates) and runs every intersection strategy; every derivation of the result is rescored by applying the recorded functions directly; exact strategies must keep all derivations, pruned ones must return a subset with correct values, cube pruning with a limit beyond the space must be exact.",
"D08": "d08.py drives the decoder built with sanitizers over random grammars, phrase tables and stored forests, with models that build_binary turned into every format, class maps, explicit markers and two models at once; a Python server speaks the network protocol of the remote client and splits its replies. hgdump prints every derivation of the stored forests, and a back-off scorer of 20 lines scores its target words.",
"D09": "d09.py drives the decoder in its pb, fst, lextrans, lexalign, tagger, csplit and rescore modes; Python enumerators list what the inputs license (permutations within the distortion limit over coverage sets, paths, tags, alignments, splits) as multisets.",
"D10": "d10.cc renders random rule models to text with the freedom the format leaves (spaces, tabs, forms of features, gaps by position or index), reads it by the real lexer and grammar reader, and compares fields; AsString is read again.",
"D11": "d11.py decodes the same sentences alone, twice, in permutations, with failing, blank and repeated sentences between them, with per-sentence grammars and references, and compares the k-best entries, one-best lines and forests of each sentence across histories.",
"D12": "d12.py runs the decoder with each of its reporting options on one forest (which it also stores) and recomputes every line printed from the derivations listed by hgdump.",
"D13": "d13.cc also judges the sampler's primitive draws; it draws tens of thousands of derivations from small forests and compares their frequencies with the exactly enumerated posterior under Bernstein bounds (failure probability below 1e-15 per comparison); features and words of every sample must be those of one derivation.",
"D14": "d14.py runs the decoder with one to five of 24 feature functions and random parameters; hgtree prints the edges of the stored forests; Python draws derivations by choosing edges at random and applies the definition of each function to the finished derivation. Names are compared both ways, so a feature fired too often, under another name or for another rule shows.",
"D15": "d15.py draws trees, cuts fragments from them, alters a quarter of these (same symbols in another structure, a word or label changed, a child added or dropped), writes grammars (several, per sentence, with and without pass-through) and compares the forest of every tree with what a matcher on nested tuples enumerates. The altered fragments found that rules were applied to trees of another structure.",
"D16": "d16.py writes a fine grammar, projects it by coarsening labels once or twice, decodes words and lattices with random beams, widenings and fall-backs, and computes in Python the coarse forest, its max-marginals, the surviving edges, and the fine derivations over them. Runs in which a margin is too close to the beam for doubles are skipped (counted).",
"D17": "d17.py has cdec write the forest of a configuration once, lists its derivations with hgdump (edge ids included for posteriors), and computes every report from this list: expectations, gradients, translation masses, rankings. Sampled frequencies must be within seven standard deviations plus a constant, so that a correct sampler fails with probability below 1e-9 per run. Weight deltas are encoded by the check itself.",
"D18": "d18.py writes a grammar and a back-off model, has cdec write the forests without any model, lists all derivations with hgdump, scores each with its own back-off scorer, and compares the lazy search's printed line: with an unlimited pop limit as the maximum, else as the score of one derivation of the printed words.",
"D19": "d19.py enumerates all segmentations of random words (with linking elements, multi-byte characters and the letter groups the features look for), computes each piece's features from their definitions (dictionary and lists it wrote, its own back-off scorer for the character model), and compares k-best lists, whole and pruned lattices, and compound-split.pl in a scratch directory with an own configuration. It found the ignored list of bad words and the lost last entry of the dictionary.",
"D20": "d20.py writes files of random acyclic grammars (dead and unreachable categories, comments, mixed rules), enumerates their derivations and the licensed orders of their rules in Python, and compares the strings and derivation lists grammar_convert prints. It found that --reorder had stopped working altogether, its reads past the tails of rules with words, and a crash on grammars that derive nothing.",
"U01": "u01.cc performs random histories on SparseVector, SmallVector, Array2D and ValueArray and the same on std::map / std::vector, comparing the whole state after each step.",
"U02": "u02.cc performs every operation of LogVal and the log-add helpers on operand pairs aimed at cancellation, zero and neighbouring magnitudes, and compares with 80-bit arithmetic within bounds derived from the condition number.",
"U03": "u03.cc mirrors every conversion of the word and feature dictionaries in a table; frozen dictionaries are observed in forked children; ConvertSentence is compared with an independent splitter.",
"U04": "u04.cc writes random maps by the real writers (text and binary weights, feature vector encodings, base64) and reads them back; truncated and altered encodings are decoded in children under ASan.",
"U05": "u05.py runs atools on random alignment pairs; every printed line is compared with the set definition of the command.",
"U06": "u06.cc writes and reads files by ReadFile/WriteFile and gzstream in all styles around the edges of the buffers; the bytes are compared, and .gz files are also produced and consumed by zlib itself.",
"M01": "m01.cc evaluates random hypotheses by the real metrics (BLEU variants, TER, WER, PER, CER, SSER/0-1, QCRI BLEU, combinations) and compares statistics and scores with independent computations; TER's counts must be achievable by an explicit script of shifts and edits.",
"M02": "m02.cc adds, subtracts, scales, encodes and decodes statistics along random histories and compares with sequential sums; error surfaces go through serialisation and base64.",
"M03": "m03.cc runs mbr_kbest on random k-best files and recomputes each entry's expected loss.",
"T01": "t01.cc compares upper envelopes, error surfaces and the optimum of line search with all derivations listed one by one; the map and reduce tools are run on stored forests.",
"T02": "t02.cc evaluates expected risk, entropy, CRF, log-likelihood and ranking objectives and compares value and gradient with sums over candidates in long double and with central differences; weights written by the tools are tested for stationarity.",
"T03": "t03.cc minimises random convex objectives by every batch and online optimizer class; a Newton method supplies the minimiser; a twin is saved and restored after every step.",
"T04": "t04.cc keeps candidate pools over several rounds in memory and in files, and compares with a model pool; ranking examples printed by mr_pro_map are traced back to pairs of candidates.",
"T05": "t05.py runs each program over random grammars and corpora with random settings; all derivations come from forests written by cdec for the same sentences, metric scores from the library (judged by M01-M03), dtrain's BLEU variants from their definitions; Python replays the Mersenne twister and each update, and compares every weight file written (runs decided by ties are left unjudged). kbest_cut_mira is run over corpora and through sessions of LEARN, WEIGHTS and plain lines, each answer compared with a replay of the session.",
"T06": "t06.py starts the sanitized server, feeds its input at several paces and connects simulated workers that are late, slow, closed or reset while holding a sentence or right after an answer, or strangers; what each worker received, the output, log and exit status are judged by an exactly-once and order oracle. parallelize.pl and decode-and-evaluate.pl run on the real decoder in a staged tree.",
"T07": "t07.py lays out the scripts and the sanitized programs as a build does and runs each driver on random small tasks (waits shortened by a module loaded into perl). An independent loop decodes with each round's weights, accumulates forests, finds 1-best translations among all derivations, scores them, reruns the deterministic optimisers, and compares every file and reported score.",
"C01": "c01.py runs the scripts themselves over random corpora with malformed, empty and extreme lines, and compares the output line by line with Python definitions; the tokenizer is monitored for what it must keep (lines, fields, characters, boundaries, plain words) and for agreement of its three ways of running.",
"A01": "a01.cc/a01.py run fast_align with random options on random corpora; an independent EM in doubles repeats the training (with the tension the tool reports) and predicts likelihoods, links, parameters and held-out scores.",
"X01": "x01.cc builds the suffix array, precomputation, intersector and samplers over random corpora and compares each lookup with a scan of the corpus.",
"X02": "x02.cc runs the rule extractor over random aligned corpora and derives all rules directly from the links.",
"X03": "x03.py compiles corpora with sacompile and extracts grammars from archives and text; components are written, read and compared by content and lookups.",
"X04": "x04.py runs run_extractor, `extract` and sacompile with several threads under ThreadSanitizer. libgomp is not instrumented, so a shim (gompshim.cc) provides the OpenMP entry points with pthread primitives TSan understands, adds delays at critical sections and loop steps, and logs interleavings.",
"X05": "x02.cc in its scoring mode recomputes each score of each extracted rule from its definition over the occurrences used.",
"K01": "k01.cc loads random ARPA files as probing, trie, array trie, quantised and rest-cost models and follows random histories.",
"K02": "k02.cc builds binary images in all ways (mmap, after, from another model) and compares scores, states and enumerated vocabularies bit for bit; damaged images must be refused.",
"K03": "k03.cc assembles sentences by RuleScore, SubsumeLeft/Right and partial scores in random bracketings, and substitutes fragments with equal state.",
"K04": "k04.py runs lmplz built with sanitizers on random corpora with random memory settings and recomputes interpolated modified Kneser-Ney in doubles.",
"K05": "k05.cc drives util/stream chains, sorts, queues, pools and multi-stage progress under TSan and ASan with injected delays; records carry identity and position.",
"K06": "k06.cc performs random sequences of reads over FilePiece and ReadCompressed on files of all encodings and compares with a cursor over the plain bytes.",
"K07": "k07.cc mirrors hash tables, bit packing, sorted search, joint sort, tokenizers, pools and pointer compression in ordinary containers.",
}
FALSE = """
- K05: two deadlocks were the harness's own (a consumer waiting for its poison); rewritten.
- X01: the harness read the index with the wrong reader. X02: order of span and gap headers in the harness. X03: lookup of the NULL marker. X04: quoted paths (fs::path's operator<<).
- M01: a blank unterminated last line; the property now speaks of lines as the readers define them. M02: display names of combined metrics are not parseable and are no longer parsed. M03: greedy matching of equal texts in the oracle.
- T01: ties and slopes equal up to rounding; searches over switches closer than four tolerances are left out. T02: a wrong option name of mr_pro_reduce. T03: the threshold of l1 sparsity, liblbfgs' documented rounding exits (judged by rate). T04: an uninitialised feature table in the harness.
- A01: rounding ties at threshold 0.
- D12: constrained k-best lists print the source side by design; gap numbering of printed grammars; the text gradient prints sign and log magnitude (a system test fixes that).
- D11: ties broken by numbers that depend on history under cube pruning are exempt (values are still compared). D09: reference translations are read target to source.
- D08: models with probabilities above one (positive back-off meeting inserted blanks), probing tables without room for blanks, the network client's floor of -100.
- D14: pass-through rules that coincide with grammar rules; weights files end names at '='; frozen sets must weight the features of the grammar itself; N-gram names of the text (a word "=" is written "_").
- D18 first used models that give a back-off weight to n-grams nothing continues. Estimation never does, and state minimisation relies on that: without an end of sentence the search charges such a weight although no word follows. The models of the check no longer have such weights.
"""
o = []
w = o.append
w("# How the properties of cdec are decided\n")
w("Technique for every property: **runtime monitoring and sanitizers**. The real code is compiled from /repo's working tree with AddressSanitizer and UndefinedBehaviorSanitizer (ThreadSanitizer where threads run), driven by generated workloads, and its observable behaviour is judged by an oracle that is written from the property, not from the code. A sanitizer report, an abort, a hang or a leak of an exception is a violation like a wrong value. Nothing is proved: a check says that the property held on everything it explored, and `evidence/<id>.json` says what that was (cases, values compared, distinct non-trivial observations, interleavings).\n")
w("""## Layout
- `run.py ID` runs one check (`checks/<id>.py`); `VERIF_SEED` and `VERIF_TIER` choose the workload, `VERIF_ONLY=n` repeats one case of a harness; `setup.py` builds every program in advance.
- `vlib/vf.py`: builds (objects are cached in `.cache` by content of the source, of what it includes, and of the flags, so a change in /repo rebuilds what it reaches), runs harnesses in parallel shards, collects their reports, writes evidence and replays. `vlib/closures.json` lists which objects a program needs, so that linking stays fast; a missing one falls back to the whole group.
- `harness/*.cc`: in-process drivers and oracles; `harness/forest.h` generates forests and enumerates derivations, `lmgen.h` language models, `ext.h`/`extgen.py` aligned corpora; `cdecgen.py` grammars, lattices and sentences for the whole decoder; `hgdump`/`hgtree` print stored forests as derivations or edges.
- A violation is printed as `VIOLATION property=<id> replay=evidence/<id>.replay.json`; the replay file holds message, inputs and command line of up to 20 violations. Known findings would be suppressed by key; the list is empty (`known_findings.json`), because every genuine defect found was small enough to repair.
- No hooks were added to /repo: all observation is at public interfaces (the guard CDEC_VERIF is reserved).
- Cost: the quick tier of a check takes 5 to 30 s on 8 cores once the objects are cached (`setup.py` builds them in about 5 minutes); thorough tiers run 10 to 60 times as many cases.
- Harmless refactorings stay quiet because oracles look at results: no source text is compared, no private symbol is needed beyond the public headers, orders that the code does not promise are not compared, and values are compared within the rounding the operations themselves justify.
""")
w("## Properties\n")
for p in P:
    i = p["id"]; c = M.get(i)
    w("### %s %s\n" % (i, p["title"])); w("%s\n" % p["statement"])
    w("- Method: %s." % c["technique"].rstrip(".")); w("- How: %s" % HOW.get(i, "")); w("- Bounds and what is not judged: %s" % c["level_note"])
    w("- Beyond the tests: %s" % p["why_tests_cant"]); w("")
w("## Genuine defects found and repaired\nEach is one `fix:` commit in /repo; the check reports it again when it returns.\n")
for f in KF["fixed"]: w("- " + f[len("fixed: property="):])
w("\nNoticed and left as they are (outside the properties): NgramFeatures with an empty cluster file writes past its map; `--summary_feature` alone does nothing; METEOR needs an external program.\n")
w("## False alarms met, and what was corrected in the machinery" + FALSE)
w("## Planted bugs\nEach was written from the property and the code, confirmed in a scratch build to pass the stable tests, to fail its own demonstration and to pass it unchanged. `tools/tryseed.sh` repeats that. All are reported by the check of their property in the quick tier with seed 1.\n")
w("| planted bug | check | needs | breaks |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); w("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
w("")
w("""## Where the technique ends
- Schedules (K05, X04) and statistical sampling (D13) are explored, not exhausted; their evidence counts interleavings and samples.
- line_input.cc and the language-model filter are not built by the repository's CMake and not run; MPI is not installed, so the MPI variants of trainers are not (their single-process form is). The build enables OpenMP but does not define HAVE_OPEN_MP, so the extractor's choice of thread numbers follows the OpenMP runtime; X04 sets it.
- Nothing is listed under not_applicable: every property written down is decided by monitoring executions.
""")
open(V + "/DESIGN.md", "w").write("\n".join(o))
