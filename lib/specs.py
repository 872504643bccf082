"""Statements of the properties (source of properties.jsonl; see lib/gen.py)."""
S = {}


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    S[id] = dict(id=id, title=title, statement=' '.join(statement.split()),
                 quantifier=dict(over=over, text=' '.join(text.split())),
                 why_tests_cant=' '.join(why.split()),
                 anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                              observe_at=observe or [], hook_needed=None))


p('C01', 'Inside/outside scores, posteriors and expectations equal sums over derivations',
  '''For every translation forest, the inside and outside scores, the edge posteriors (at any scale), the expected
  feature counts, the best-derivation-through-an-edge scores and the number of paths equal the corresponding sums (or
  maxima) over the explicit set of derivations of the goal. Pushing weights to the goal (sum or Viterbi) leaves every
  derivation with its own score divided by the total (or best) score.''',
  ['inputs'], '''every acyclic forest (any arity, shared sub-forests, an edge using a node twice, ties, positive and
  very small weights, either edge insertion order) up to the stated number of nodes and edges''',
  '''The tests check a few hand-made forests against stored numbers; the sums must be right for every forest shape and
  no finite sample covers duplicated tails, sharing and scale at once.''',
  ['decoder/inside_outside.h', 'decoder/hg.cc', 'decoder/hg.h'],
  [('Inside/Outside/InsideOutside templates', 'decoder/inside_outside.h'),
   ('ComputeEdgePosteriors, ComputeBestPathThroughEdges, PushWeightsToGoal', 'decoder/hg.cc')],
  ['return values and per-node / per-edge score vectors', 'edge_prob_ after pushing'])

p('C02', 'Viterbi and k-best lists are the exact highest-scoring derivations',
  '''The Viterbi derivation is a best derivation of the forest, and the yield and feature vector reported for it are those
  of that derivation. Asking for the k best derivations returns, in non-increasing score order and without repetition,
  exactly the scores of the k best derivations; with unique-yield filtering each distinct string appears once, with its
  best derivation, and no string with a higher score is skipped.''',
  ['inputs', 'histories'], '''every acyclic forest up to the stated size, every k up to beyond the number of
  derivations, any order of queries, all yield traversals''',
  '''The tests look at top few entries of a couple of stored forests; laziness bugs need particular sharing, ties or a
  k larger than the derivation count.''',
  ['decoder/kbest.h', 'decoder/viterbi.h', 'decoder/viterbi.cc', 'decoder/hg.cc'],
  [('lazy k-best enumeration with successor candidates', 'decoder/kbest.h'),
   ('Viterbi with traversal', 'decoder/viterbi.h')])

p('C03', 'Pruning a forest keeps the derivations it promises to keep',
  '''Beam pruning keeps every edge that lies on a derivation within the beam of the best one and removes those that do
  not; density pruning keeps the best edges up to the requested number; edges that are asked to be preserved survive. The
  pruned forest contains no derivation that was not in the original one, with unchanged scores, its best derivation is
  unchanged, and every remaining node and edge takes part in a derivation of the goal.''',
  ['inputs', 'configurations'], '''every forest up to the stated size and every combination of beam width, density,
  posterior (sum) or max mode, scale, and preserve mask''',
  '''The tests prune one stored forest with a couple of settings.''',
  ['decoder/hg.cc', 'decoder/hg.h'],
  [('PruneInsideOutside / BeamPruneInsideOutside / DensityPruneInsideOutside / MarginPrune', 'decoder/hg.cc'),
   ('PruneUnreachable, PruneEdges, TopologicallySortNodesAndEdges', 'decoder/hg.cc')])

p('C04', 'Forest transformations preserve the derivations',
  '''Topologically sorting a forest, removing edges or unreachable nodes, extracting the best derivation, an edge or a node subset,
  taking the union of two forests, and pushing weights to the source change the forest's representation but keep exactly
  the derivations (with their feature vectors, yields and scores) the operation is documented to keep.''',
  ['inputs'], '''every forest up to the stated size, every edge mask, every pair of small forests, unsorted node and edge
  orders, unreachable parts''',
  '''The tests check a handful of forests and only node/edge counts or one path.''',
  ['decoder/hg.cc', 'decoder/hg.h', 'decoder/hg_union.cc', 'decoder/hg_remove_eps.cc', 'decoder/viterbi.cc'],
  [('TopologicallySortNodesAndEdges, PruneEdges, CreateViterbiHypergraph, CreateEdgeSubset, CreateNodeSubset', 'decoder/hg.cc'),
   ('HG::Union', 'decoder/hg_union.cc'), ('RemoveEpsilons', 'decoder/hg_remove_eps.cc')])

p('C05', 'Forests and lattices survive serialisation',
  '''Writing a forest and reading it back yields a forest with the same nodes, edges, rules, spans and feature values.
  A lattice written in the lattice text format and parsed again is the same lattice (same arcs, spans, symbols - including quotes and
  backslashes - and costs), and printing a forest as a lattice or a grammar describes exactly its derivations.''',
  ['inputs'], '''every forest / lattice up to the stated size over an alphabet of awkward tokens and feature values''',
  '''The tests read stored files and round-trip a few cases.''',
  ['decoder/hg_io.cc', 'decoder/hg_io.h', 'decoder/lattice.cc', 'decoder/lattice.h', 'decoder/trule.h'],
  [('HypergraphIO::WriteToBinary/ReadFromBinary, PLFtoLattice, AsPLF, WriteAsCFG', 'decoder/hg_io.cc')])

p('C06', 'The parser builds exactly the derivations the grammar licenses',
  '''For a synchronous grammar and an input sentence or lattice, the forest built by the bottom-up parser contains exactly
  one derivation for each way the grammar (with the span limit, glue rules and pass-through rules in force) derives the input
  from the goal symbol, each carrying the scores of its rules and of the lattice arcs it covers, and parsing fails
  exactly when there is none.''',
  ['inputs', 'configurations'], '''every small grammar over the stated rule alphabet, every input up to the stated length,
  with and without glue / pass-through / span limits, sentences and lattices (a span of a lattice being as long as its shortest path)''',
  '''System tests translate a few sentences with a few grammars.''',
  ['decoder/bottom_up_parser.cc', 'decoder/grammar.cc', 'decoder/scfg_translator.cc', 'decoder/trule.cc'],
  [('ActiveChart / PassiveChart', 'decoder/bottom_up_parser.cc'), ('TextGrammar trie, GlueGrammar, PassThroughGrammar', 'decoder/grammar.cc')])

p('C07', 'Grammar rules are read as written',
  '''Every well-formed rule line is read into a rule with exactly the written left-hand side, source and target sides,
  reordering, feature values and word alignment, independent of which other lines surround it, of repeated reading and
  of layout, and its printed form reads back as the same rule; monolingual and lexical rule lines mean
  their documented expansion; lines with unmatched or inconsistent nonterminals, missing separators or feature
  values that are not numbers are rejected rather than misread.''',
  ['inputs', 'histories'], '''every rule line composed from the stated alphabet of sides, features and alignments, and
  every sequence of two or three lines''',
  '''Unit tests read a few lines.''',
  ['decoder/rule_lexer.ll', 'decoder/trule.cc', 'decoder/grammar.cc'],
  [('rule lexer', 'decoder/rule_lexer.ll'), ('TRule::ReadFromString', 'decoder/trule.cc')])

p('C08', 'Constraining a forest to a reference keeps exactly the matching derivations',
  '''Intersecting a translation forest with a reference sentence or reference lattice keeps exactly the derivations whose
  target yield is a path of the reference, with unchanged feature vectors, and reports failure exactly when there
  is none. For the chains of one-word rules that tagging, lexical translation and lexical alignment produce, where the result is turned
  round, this includes the source and target positions linked by each edge; a reference of another length is refused.''',
  ['inputs'], '''every forest (of rules with a nonempty target side) up to the stated size, every reference over its vocabulary up to the stated length, linear and
  branching references; every chain of the tagger and the lexical models up to the stated lengths with references of the same, smaller and larger length''',
  '''A regression test uses one sentence.''',
  ['decoder/hg_intersect.cc', 'decoder/hg_io.cc', 'decoder/bottom_up_parser.cc', 'decoder/tagger.cc', 'decoder/lextrans.cc', 'decoder/lexalign.cc'],
  [('HG::Intersect via parsing the reference with the forest as grammar', 'decoder/hg_intersect.cc')])

p('C09', 'Rescoring a forest with models keeps derivations and scores them exactly',
  '''Applying feature functions to a forest in full-intersection mode yields a forest with exactly the original
  derivations, each carrying its original features plus the sum of the model scores along it. Cube pruning in each of its variants yields a
  subset of those derivations, correctly scored; with a pop limit at least as large as the number of candidates
  it finds the best one, and with any limit it produces a translation whenever one exists.''',
  ['inputs', 'configurations'], '''every small forest, several state shapes (no state, left/right context n-gram states,
  models that merge or never merge states), all strategies and pop limits''',
  '''System tests compare one-best output on a few sentences.''',
  ['decoder/apply_models.cc', 'decoder/ffset.cc', 'decoder/ff.cc'],
  [('CubePruningRescorer, NoPruningRescorer', 'decoder/apply_models.cc')])

p('C10', 'A derivation\'s language model features equal the score of its yield',
  '''Whatever the derivation, order of composition or rule shapes, the language model features accumulated over a
  derivation equal the log probability (and out-of-vocabulary count) the model gives to the whole yielded sentence
  including sentence boundaries, and two partial translations with equal states score equally in every context.''',
  ['inputs', 'configurations'], '''every target rule tree up to the stated size over the model's vocabulary plus unknown words, LM
  orders 2-4, class-based and sentence marker options, each file representation''',
  '''System tests check a few sentences' totals.''',
  ['decoder/ff_klm.cc', 'decoder/ff_klm.h', 'klm/lm/left.hh'],
  [('KLanguageModelImpl::LookupWords / FinalTraversalCost', 'decoder/ff_klm.cc')])

p('C11', 'Word, phrase, tagging and segmentation decoders build exactly the licensed outputs',
  '''The finite-state, phrase-based, lexical, tree-to-string, tagging and compound-splitting decoders produce, for each input,
  a forest whose derivations are exactly the outputs their model licenses for that input, each once, with the features, scores and source spans of the entries used,
  whatever inputs came before. Pass-through entries are added only where they are due and only for the sentence at hand.''',
  ['inputs', 'configurations'], '''every small model/table and input up to the stated sizes''',
  '''System tests run one or two inputs per decoder.''',
  ['decoder/fst_translator.cc', 'decoder/phrasetable_fst.cc', 'decoder/hg_remove_eps.cc', 'decoder/lexalign.cc', 'decoder/tree_fragment.cc', 'decoder/phrasebased_translator.cc', 'decoder/lextrans.cc', 'decoder/tagger.cc', 'decoder/csplit.cc',
   'decoder/tree2string_translator.cc', 'decoder/earley_composer.cc'],
  [('per-formalism translators', 'decoder/*_translator.cc')])

p('C12', 'Suffix array lookup finds every occurrence of a phrase',
  '''The suffix array of a corpus lists every position exactly once in lexicographic order of the suffixes, its
  longest-common-prefix table is right, and narrowing a lookup word by word yields, for each phrase, exactly the
  positions where the phrase occurs. A sample of the occurrences holds distinct ones, none from an excluded sentence, and all of them if they fit.''',
  ['inputs'], '''every corpus up to the stated length and alphabet, sentence-separated or not, every phrase''',
  '''Unit tests use one small corpus.''',
  ['extractor/suffix_array.cc', 'extractor/data_array.cc'],
  [('InitialBucketSort, TernaryQuicksort, BuildLCPArray, LookupRangeStart/End', 'extractor/suffix_array.cc')])

p('C13', 'Gappy phrase lookup finds exactly the matching occurrences',
  '''For each source pattern of words and gaps, the occurrences found by intersecting the occurrences of its prefix and
  suffix - with or without precomputed collocations - are exactly those within one sentence that respect the minimum gap size and
  maximum span.''',
  ['inputs', 'configurations'], '''every corpus, pattern and span/gap setting up to the stated bounds''',
  '''Unit tests check selected phrases of one corpus.''',
  ['extractor/fast_intersector.cc', 'extractor/precomputation.cc', 'extractor/rule_factory.cc', 'extractor/matchings_finder.cc'],
  [('FastIntersector::Intersect', 'extractor/fast_intersector.cc'), ('Precomputation', 'extractor/precomputation.cc')])

p('C14', 'Extracted translation rules are consistent with the word alignment',
  '''Rules extracted with tight phrases for an occurrence are exactly the hierarchical rules consistent with the word alignment under the
  length, gap and symbol limits in force (with loose phrases, every extracted rule is consistent and none without gaps at its edges is missing), with the target gaps corresponding to the source gaps and only the alignment
  links between terminals. Their scores equal their definition as counts over the (sampled)
  occurrences.''',
  ['inputs', 'configurations'], '''every sentence pair with every alignment up to the stated size and every limit setting''',
  '''Unit tests check a few sentences.''',
  ['extractor/rule_extractor.cc', 'extractor/rule_extractor_helper.cc', 'extractor/target_phrase_extractor.cc', 'extractor/features', 'extractor/translation_table.cc'],
  [('RuleExtractor::ExtractRules', 'extractor/rule_extractor.cc')])

p('C15', 'Grammar extraction does not depend on compilation, caching, or threads',
  '''The data structures written by the corpus compiler and read back by the extractor are identical to the in-memory ones,
  and the grammar extracted for a sentence is the same whether structures were precomputed or loaded,
  whichever sentences were processed before and however threads interleave.''',
  ['schedules', 'inputs', 'histories'], '''every interleaving (up to the preemption bound) of two or three threads sharing the vocabulary, every
  small corpus for the round trip, every order of sentences''',
  '''Tests round-trip one corpus single threaded.''',
  ['extractor/vocabulary.cc', 'extractor/run_extractor.cc', 'extractor/compile.cc', 'extractor/grammar_extractor.cc', 'extractor/rule_factory.cc'],
  [('omp critical sections in Vocabulary', 'extractor/vocabulary.cc'), ('serialisation', 'extractor/*.h')])

p('C16', 'Evaluation metrics equal their definitions and their statistics add up',
  '''For every hypothesis and reference set each string-similarity metric reports the value of its published definition; sufficient
  statistics of a corpus are the sums of the sentences' statistics irrespective of order and grouping, scoring
  from encoded and decoded statistics gives the same value, and the two implementations of a metric agree where both exist. Reference files are read line by line
  whatever their layout, and minimum-risk selection from k-best lists picks a candidate of least expected loss.''',
  ['inputs', 'histories'], '''every hypothesis/reference combination up to the stated length, alphabet and number of
  references, every order of accumulation of small sets''',
  '''Tests compare a few numbers.''',
  ['mteval/ns.cc', 'mteval/scorer.cc', 'mteval/ns_ssk.cc', 'mteval/ns_cer.cc', 'mteval/ns_comb.cc', 'mteval/comb_scorer.cc', 'mteval/ns_docscorer.cc', 'mteval/mbr_kbest.cc'],
  [('BleuMetric, BLEUScorerBase', 'mteval/ns.cc')])

p('C17', 'Edit-distance metrics report a valid, minimal edit count',
  '''Word, character and translation error rates report the number of edits of an actual edit script that turns the
  hypothesis into the reference; the count is minimal for rates without block moves, and with block moves it is never
  larger than without, never smaller than possible, zero exactly for identical strings, and is taken from the best reference.''',
  ['inputs'], '''every hypothesis and reference up to the stated length and alphabet''',
  '''Tests compare a few sentences.''',
  ['mteval/ter.cc', 'mteval/ns_ter.cc', 'mteval/ns_wer.cc', 'mteval/ns_cer.cc', 'mteval/levenshtein.h'],
  [('minimum edit distance with shifts', 'mteval/ter.cc')])

p('C18', 'The error surface of a line search is exact',
  '''The convex envelope computed for a forest or k-best list along a search direction contains, for each step
  size, a best-scoring derivation under the moved weights with its translation and edges, and its breakpoints are increasing. The error surface of a sentence accumulates, at every step, the
  statistics of the translation that is best there (also when translations are empty or their statistics zero), and survives being encoded and decoded. Line search returns a
  step whose true metric value is the best of all steps (for metrics to maximise and to minimise) and equals the reported one; the programs that write the search agenda (every sentence with every direction, the full origin), map it to error
  surfaces and reduce these to one step and score per direction preserve all of this.''',
  ['inputs'], '''every small forest / candidate list with integer feature values, every direction and origin of the stated
  grid, both maximised and minimised metrics, breakpoints arbitrarily close together''',
  '''Tests evaluate one forest and direction.''',
  ['training/dpmert/mert_geometry.cc', 'training/dpmert/line_optimizer.cc', 'training/dpmert/error_surface.cc', 'training/dpmert/ces.cc', 'training/dpmert/mr_dpmert_map.cc', 'training/dpmert/mr_dpmert_reduce.cc', 'training/dpmert/mr_dpmert_generate_mapper_input.cc'],
  [('ConvexHull semiring', 'training/dpmert/mert_geometry.cc'), ('ComputeErrorSurface', 'training/dpmert/ces.cc'), ('LineOptimizer', 'training/dpmert/line_optimizer.cc'), ('map and reduce programs', 'training/dpmert/mr_dpmert_reduce.cc')])

p('C19', 'Training updates follow their objective',
  '''The gradients used to train weights (conditional likelihood, risk, entropy, pairwise ranking, regularisers) equal the derivative of
  the objective reported with them; optimisers and the training programs built on them (minimum risk, pairwise ranking, rampion, batch conditional
  likelihood) return weights at which the stated regularised objective is no worse than at the start and, where they report success, stationary;
  update rules follow their definition step by step; candidate sets and k-best repositories merge per sentence without losing, duplicating or
  mislabelling candidates; held-out data is only reported on, never learnt from.''',
  ['inputs', 'histories'], '''every small forest / candidate set and weight grid; every sequence of merges and optimiser calls up to the bound; every combination of program options on small corpora''',
  '''Tests check one or two points.''',
  ['training/utils', 'training/crf', 'training/minrisk', 'training/pro', 'training/rampion', 'training/liblbfgs'],
  [('objective/gradient code', 'training/utils'), ('training programs', 'training/pro')])

p('C20', 'Language model queries equal the ARPA definition in every representation',
  '''For each ARPA model and word sequence the query result (log probability, out-of-vocabulary treatment, matched
  length) equals the back-off definition applied to the file, and probing, trie, quantised-pointer and array-compressed trie representations, built in
  memory or saved and loaded again, all agree (quantised ones up to quantisation); files cut short or of the wrong type are refused rather than answered from.''',
  ['inputs', 'configurations'], '''every small ARPA model over the alphabet up to the stated order and every query sequence
  up to the stated length''',
  '''Tests query one model.''',
  ['klm/lm/model.cc', 'klm/lm/search_hashed.cc', 'klm/lm/search_trie.cc', 'klm/lm/trie.cc', 'klm/lm/vocab.cc', 'klm/lm/bhiksha.cc', 'klm/lm/binary_format.cc'],
  [('GenericModel::FullScore', 'klm/lm/model.cc')])

p('C21', 'Fragment scoring with language model states is composition invariant',
  '''Scoring a sentence from fragments in any bracketing gives the same total as scoring it left to right, the states it
  ends in hold exactly the context that can matter, compare equal only when they behave equally, and extending fragments or revealing context in any order agrees with scoring the whole.''',
  ['inputs', 'histories'], '''every bracketing of every sequence up to the stated length over several small models, all model types''',
  '''Tests score a few random bracketings of a few sentences of one model.''',
  ['klm/lm/left.hh', 'klm/lm/partial.hh', 'klm/lm/state.hh', 'klm/lm/model.cc'],
  [('RuleScore', 'klm/lm/left.hh'), ('RevealBefore/RevealAfter/Subsume', 'klm/lm/partial.hh')])

p('C22', 'Language model estimation is the interpolated Kneser-Ney definition at any memory setting',
  '''The model estimated from a corpus equals the interpolated modified Kneser-Ney definition computed from the counts,
  is a normalised distribution in every context, respects the pruning, fallback discount, vocabulary padding and unigram options, scores every sentence alike when values are collapsed
  (up to the back-off of the sentence start), and does not depend on memory, block count or buffer sizes. Reserved words in the text
  are refused or skipped as asked; options that make no sense are refused.''',
  ['inputs', 'configurations'], '''every corpus up to the stated size over the alphabet and larger generated ones, orders 1-5, each memory configuration''',
  '''Tests check counts of one short text.''',
  ['klm/lm/builder/corpus_count.cc', 'klm/lm/builder/adjust_counts.cc', 'klm/lm/builder/initial_probabilities.cc', 'klm/lm/builder/interpolate.cc', 'klm/lm/builder/pipeline.cc'],
  [('Pipeline', 'klm/lm/builder/pipeline.cc')])

p('C23', 'Concurrent pipelines deliver everything exactly once under every schedule',
  '''Producer/consumer queues, thread pools and stream chains deliver each item exactly once and in
  the documented order, lose nothing on shutdown, and never deadlock or race, whatever the thread schedule.''',
  ['schedules'], '''every interleaving of the stated threads and operations up to the preemption bound''',
  '''Tests run whatever schedule the machine produces.''',
  ['klm/util/pcqueue.hh', 'klm/util/thread_pool.hh', 'klm/util/stream/chain.cc', 'klm/util/stream/multi_progress.cc'],
  [('semaphore-guarded ring buffer', 'klm/util/pcqueue.hh'), ('Chain/Link block passing with poison', 'klm/util/stream/chain.cc')])

p('C24', 'Text input is read completely and exactly however the system delivers it',
  '''Line, token and number reading from plain and compressed input (gzip, bzip2, xz, several members in a row) returns exactly the file's content, and the right position in it, whatever the buffer size, the sizes in which the system
  delivers bytes, interruptions of reads, failing memory maps, and the position of compression member boundaries; the same holds for the decoder's plain and gzip files, for block reading and writing in pipelines, and for text and
  numbers written through the fast output stream. Short reads and writes are completed; a system error, a truncated or damaged compressed file, or a file that cannot be opened is reported, never taken for the end of the file, and never
  makes a reader loop. Splitting a string into tokens yields exactly its fields.''',
  ['fault_sequences', 'inputs'], '''every partition of the stated inputs into short reads/writes, every interruption point up to
  the deviation bound, every buffer size''',
  '''Tests read a file as the kernel delivers it.''',
  ['klm/util/file_piece.cc', 'klm/util/file_piece.hh', 'klm/util/file.cc', 'klm/util/read_compressed.cc', 'klm/util/mmap.cc', 'klm/util/fake_ofstream.hh', 'klm/util/tokenize_piece.hh', 'klm/util/stream/io.cc', 'utils/gzstream.cc', 'utils/gzstream.h', 'utils/filelib.h', 'utils/filelib.cc'],
  [('FilePiece::Shift, PartialRead, ReadOrThrow, WriteOrThrow', 'klm/util/file_piece.cc, klm/util/file.cc')])

p('C25', 'Containers behave like their simple counterparts under every operation sequence',
  '''The sparse vectors, small vectors, value arrays, two-dimensional arrays and index maps used throughout behave, after any sequence of operations, as the plain map, vector,
  matrix or list they stand for - including arithmetic, dot products and norms, equality, order and hashing, copying, swapping and self-assignment, archives, and the base64 encodings of bytes
  and feature vectors - and never touch memory they do not own or lose memory they do.''',
  ['histories'], '''every operation sequence up to the stated depth over small key and value domains crossing the inline/heap
  thresholds''',
  '''Unit tests run a few sequences.''',
  ['utils/fast_sparse_vector.h', 'utils/small_vector.h', 'utils/sparse_vector.h', 'utils/sparse_vector.cc', 'utils/value_array.h', 'utils/array2d.h', 'utils/indices_after.h', 'utils/batched_append.h', 'utils/b64tools.cc', 'utils/b64featvector.cc'],
  [('inline/heap switching', 'utils/fast_sparse_vector.h, utils/small_vector.h')])

p('C26', 'Lookup and sorting primitives of the language model toolkit are exact',
  '''Probing hash tables (fixed, doubled and automatically growing) behave exactly like a map that refuses entries beyond its capacity; interpolation and binary search find a key exactly when it is present in the sorted array, and the one they
  return is an entry with that key; packed bit fields read back what was written at any width and offset without changing neighbouring bits; joint sorting, sorting of sized records and external merge sort (from any block
  and buffer sizes, merged eagerly or lazily, with one or more passes) deliver exactly the input records in order, and with combining exactly the combined record per key; intersections of sorted ranges, the memory pool, fixed arrays and the
  hash functions match their definitions.''',
  ['inputs', 'configurations', 'histories'], '''every key multiset, bit width/offset, and sort configuration up to the bounds''',
  '''Unit tests use random samples.''',
  ['klm/util/probing_hash_table.hh', 'klm/util/sorted_uniform.hh', 'klm/util/bit_packing.hh', 'klm/util/joint_sort.hh', 'klm/util/sized_iterator.hh', 'klm/util/multi_intersection.hh', 'klm/util/pool.hh', 'klm/util/fixed_array.hh', 'klm/util/murmur_hash.cc', 'klm/util/stream/sort.hh'],
  [('open addressing, interpolation search', 'klm/util')])

p('C27', 'The sentence server processes each sentence exactly once',
  '''With any number of clients connecting, disconnecting or dying at any point, the sentence server hands each input line out, returns
  each result exactly once and in input order, and terminates when all are done.''',
  ['schedules', 'fault_sequences'], '''every interleaving of client requests, completions and failures up to the bound''',
  '''No test exercises it.''',
  ['training/utils/sentserver.cc', 'training/utils/sentclient.cc'],
  [('job queue under a mutex', 'training/utils/sentserver.cc')])

p('C28', 'Scores, weights, symbols and strings survive their encodings',
  '''Log-domain arithmetic, powers, comparison and hashing agree with real arithmetic for every sign and magnitude including zero; weights files (plain, compressed, from standard input, with comments,
  either separator, with or without final newline) are read as written, and weights survive being written or printed; feature names stay distinct and legal when escaped; dictionaries map symbols to ids and back consistently,
  sentences become ids and back; string utilities split, strip, count, change case, parse segment tags and translator input, print numbers and compute digests as their definitions say; parallel corpora are read
  completely and divided among readers without loss.''',
  ['inputs', 'histories'], '''every operand pair of the value grid, every chain of operations, every small weight map and file, every string up to the stated length over the
  alphabet of special characters''',
  '''Unit tests check a few values.''',
  ['utils/logval.h', 'utils/exp_semiring.h', 'utils/weights.cc', 'utils/dict.cc', 'utils/dict.h', 'utils/stringlib.cc', 'utils/stringlib.h', 'utils/tdict.cc', 'utils/fdict.cc', 'utils/utoa.h', 'utils/corpus_tools.cc', 'utils/dedup_corpus.cc'],
  [('LogVal', 'utils/logval.h'), ('Weights', 'utils/weights.cc'), ('ProcessAndStripSGML', 'utils/stringlib.cc'), ('Dict', 'utils/dict.h')])

p('C29', 'Word alignments are parsed, printed, combined and estimated exactly',
  '''Alignment strings round-trip and malformed ones are refused; inversion, intersection, union, the growing heuristics, display and F-measure give exactly
  what their definition demands, for every pair of lines. fast_align reports, writes (links, parameters above the beam or in a best alignment, test-set lines) and forces alignments exactly as EM from exact expected
  counts demands, under every option: null word, reverse, diagonal prior and tension optimisation, variational Bayes.''',
  ['inputs'], '''every pair of alignments up to the stated matrix size; every tiny corpus''',
  '''A regression test covers a few lines.''',
  ['utils/alignment_io.cc', 'utils/atools.cc', 'word-aligner/fast_align.cc', 'word-aligner/da.h', 'word-aligner/ttables.h', 'word-aligner/ttables.cc'],
  [('atools commands', 'utils/atools.cc'), ('EM', 'word-aligner/fast_align.cc'), ('diagonal prior', 'word-aligner/da.h')])

p('C30', 'Sampling from a forest follows its distribution',
  '''Under every outcome of the random generator, sampling returns a derivation of the forest with its true score, and
  each derivation is drawn for exactly the share of outcomes that its probability under the forest distribution demands; several samples are independent. The same holds for sampled trees and for
  the primitives: weighted and annealed choice, choice between two, Metropolis-Hastings acceptance, alias tables.''',
  ['inputs', 'schedules'], '''every small forest, weight list or ratio and every sequence of random outcomes''',
  '''A random test cannot see a small bias.''',
  ['decoder/hg_sampler.cc', 'utils/sampler.h', 'utils/alias_sampler.h'],
  [('HypergraphSampler::sample_hypotheses', 'decoder/hg_sampler.cc')])

p('C31', 'Feature functions describe the whole derivation however it is composed and shared',
  '''For every derivation of a rescored forest, the features each feature function contributes are exactly those its definition gives for the whole
  derivation: target, source and vocabulary counts, arity, rule identity, bigrams and shapes, every n-gram of the sentence with its markers (any order, classes, markers in the
  rules), span, reordering and span-size indicators, source-syntax, soft-syntax, parse-match and crossed-constituent labels, for the tagger tag bigrams, word-tag
  pairs, source paths and context templates, for lexical alignment relative positions, jumps, null patterns and identity cycles, and for compound splitting its basic features. They do not depend on how the forest shares or orders its edges, on the other functions in use, or on the sentences translated before.''',
  ['inputs', 'histories'], '''every grammar, sentence, function and parameter, and every sequence of sentences through the same functions''',
  '''The tests compute features for a few fixed edges; state that is too small, or caches that outlive their rule, span or sentence, need particular combinations.''',
  ['decoder/ff_basic.cc', 'decoder/ff_ngrams.cc', 'decoder/ff_rules.cc', 'decoder/ff_ruleshape.cc', 'decoder/ff_spans.cc', 'decoder/ff_source_syntax.cc', 'decoder/ff_source_syntax2.cc', 'decoder/ff_soft_syntax.cc', 'decoder/ff_soft_syntax_mindist.cc', 'decoder/ff_parse_match.cc', 'decoder/ff_soft_syn.cc', 'decoder/ff_wordalign.cc', 'decoder/ff_tagger.cc', 'decoder/ff_context.cc', 'decoder/ff_wordset.cc', 'decoder/ff_charset.cc', 'decoder/ff_source_path.cc', 'decoder/ff_csplit.cc', 'decoder/freqdict.h', 'decoder/ffset.cc'],
  [('NgramDetectorImpl::LookupWords', 'decoder/ff_ngrams.cc'), ('ModelSet::AddFeaturesToEdge', 'decoder/ffset.cc'), ('SpanFeatures::PrepareForInput', 'decoder/ff_spans.cc')])

p('C32', 'A decoding session writes, for every sentence, what the model defines for that sentence',
  '''Whatever the sequence of sentences and the configuration, the decoder writes for each sentence exactly what its model defines: the best translation or a complete,
  correctly scored and ordered (unique) k-best list under the weights of the last pass; every rescoring pass applies its own models, weights, summary feature, pruning and intersection strategy to the outcome of the
  pass before; with a reference, the forced derivations, the conditional probability, and gradients or feature expectations summed over each group and the last incomplete one; forests on disk hold
  exactly the derivations of their sentences; incremental search finds the best-scoring translation. Failures (no parse, unreachable reference) produce their
  own output and observer calls and affect no other sentence (derivations forced to a reference are listed with source and target exchanged); ids, per-sentence grammars and weight changes apply exactly where given.''',
  ['histories', 'configurations', 'inputs'], '''every sequence of sentences, every combination of passes and outputs''',
  '''System tests run a handful of configurations on one input each; wrong carry-over between passes or sentences needs particular sequences.''',
  ['decoder/decoder.cc', 'decoder/oracle_bleu.h', 'decoder/incremental.cc', 'decoder/forest_writer.cc', 'decoder/translator.cc', 'klm/search/edge_generator.cc', 'klm/search/vertex.cc', 'klm/search/vertex_generator.cc', 'klm/search/rule.cc'],
  [('DecoderImpl::Decode', 'decoder/decoder.cc'), ('DecoderImpl::DecoderImpl', 'decoder/decoder.cc'), ('OracleBleu::DumpKBest', 'decoder/oracle_bleu.h'), ('Incremental::Search', 'decoder/incremental.cc')])

p('C33', 'Incremental search with a language model finds the best derivations and scores them exactly',
  '''Searching a forest incrementally with an n-gram language model yields derivations of the forest, each listed once with exactly its score (rule features, word penalty, language
  model with or without sentence markers, unknown words), for models that come with every suffix of their n-grams. With a pop limit that covers the candidates it finds the best derivation or the k best in order, for every representation of the model; with any limit it finds one whenever one exists.''',
  ['inputs', 'configurations'], '''every forest, language model, weight setting and pop limit''',
  '''Partial states are refined word by word from both sides; a test of a few sentences reaches few of the refinements.''',
  ['klm/search/edge_generator.cc', 'klm/search/vertex.cc', 'klm/search/vertex_generator.cc', 'klm/search/nbest.cc', 'klm/search/rule.cc', 'klm/search/applied.hh', 'klm/search/edge.hh', 'klm/lm/partial.hh', 'decoder/incremental.cc'],
  [('EdgeGenerator::Pop', 'klm/search/edge_generator.cc'), ('AddHypothesis', 'klm/search/vertex_generator.cc'), ('NBestList::MoveTop', 'klm/search/nbest.cc'), ('Incremental::ConvertEdge', 'decoder/incremental.cc')])

p('C34', 'Filtering a language model keeps exactly the n-grams that can be used, whatever the number of threads',
  '''Filtering an ARPA or count file to a vocabulary writes every line whose n-gram (or, in context mode, whose context) can occur with it and no other, unchanged and in order, with the right
  counts: all words in the vocabulary in single mode, in the vocabulary of one common sentence in union mode, one file per sentence in multiple mode, a piece of a sequence of one sentence's phrases in phrase mode; words in angle brackets always pass (in phrase mode: in front and from the end marker on).
  The number of threads and the batch size make no difference under any schedule, and the program ends. The vocabulary of a phrase table for a sentence is the sentence and the target sides of rows whose source phrase of up to seven words occurs in it.''',
  ['inputs', 'schedules'], '''every model, vocabulary, mode, batch size and schedule of the threads''',
  '''There is no test of the filter; lost or reordered batches need particular sizes and schedules.''',
  ['klm/lm/filter/filter_main.cc', 'klm/lm/filter/vocab.hh', 'klm/lm/filter/vocab.cc', 'klm/lm/filter/phrase.hh', 'klm/lm/filter/phrase.cc', 'klm/lm/filter/format.hh', 'klm/lm/filter/thread.hh', 'klm/lm/filter/wrapper.hh', 'klm/lm/filter/arpa_io.cc', 'klm/lm/filter/arpa_io.hh', 'klm/lm/filter/count_io.hh', 'klm/lm/filter/phrase_table_vocab_main.cc', 'klm/util/multi_intersection.hh', 'klm/util/thread_pool.hh'],
  [('Controller::Flush', 'klm/lm/filter/thread.hh'), ('Union::PassNGram', 'klm/lm/filter/vocab.hh'), ('BuildGraph', 'klm/lm/filter/phrase.cc'), ('AllIntersection', 'klm/util/multi_intersection.hh'), ('ARPAOutput::Finish', 'klm/lm/filter/arpa_io.cc')])
