HEAD='''# Design: model checking redpony/cdec

Every property is decided by exhaustive enumeration of executions of the real code within stated bounds. No check samples, and no solver
looks at the source. There are two kinds of machinery, both running /repo's own sources compiled into a harness:

- **Explicit enumeration of inputs, operation sequences and environment answers.** `harness/cNN_*.cc` enumerates a finite space
  completely (forests, grammars, corpora, operation sequences, system call results, ...), runs the code on every element, and compares
  each observable with a reference model in the harness that is written for obviousness (explicit lists of derivations, brute force over
  spans, dynamic programming, definitions computed from the file). The reference model is the model, and the comparison of every case
  with the implementation is its conformance check: the model is never checked alone.
- **Stateless exploration of schedules.** Threads of the real code run under a scheduler that owns every synchronisation operation
  (`harness/vsched.*` for real threads, the coroutines of `c27_server.cc`, the OpenMP runtime stand-in of C15); a depth-first search
  runs every schedule up to a bound on preemptions or on deviations from a fixed order. Happens-before race detection, deadlock and
  livelock detection run in every schedule.

Random choices are treated the same way: the random generator's raw outputs are chosen by the harness (C12 pivots, C14/C15 sampling, C30),
so a probability is a share of enumerated outcomes, counted exactly. System calls are answered by the harness where delivery matters (C20, C24, C27).

## How a check runs

- `lib/specs.py` holds the statements, `lib/props.py` the builds and the description of the explored space; `lib/gen.py` writes
  properties.jsonl and MANIFEST.json from them.
- `lib/vbuild.py` compiles /repo's current working tree (never its build products) with the flags of /repo's build (C++14, -O3, asserts on)
  into `build/`, content-addressed, so an unchanged tree costs nothing; a moved or renamed helper file still links because libraries are
  taken by their directories. `lib/setup.py` (setup_cmd) fills the cache.
- `lib/run.py ID` runs each part in 8 processes. Cases are dealt by index; a crash or a hang (per-case time limit) is attributed to its case and
  the rest of the shard goes on. Every failing case is replayed alone before it is reported; evidence is written from the counters.
- exit status 1 and `VIOLATION property=ID replay=...` when something not listed in known-findings.txt fails. One finding is listed as open (C24);
  every other genuine defect found was repaired.
- `VERIF_TIER=thorough` (or the thorough command) takes the deeper bounds given in parentheses below.
- The harnesses only use public interfaces and run real programs where a property is about a program, so refactorings do not break them.
- No hooks: /repo carries only `fix:` commits. Instrumentation comes from outside (link-time wrapping, symbol interposition, a scheduler linked
  in place of the runtime).

'''
D={
'C01':dict(how='Explicit enumeration of acyclic forests x weights.',oracle='the explicit list of derivations, with sums in long double.',why='Inside/outside errors need a particular sharing pattern (repeated tails, arity 3, ties, underflow); tests use a handful of fixed forests.'),
'C02':dict(how='Explicit enumeration of forests x query sequences.',oracle='all derivations sorted by score.',why='Lazy enumeration depends on the history of queries and on ties; order, duplicates and exhaustion must be right for every k.'),
'C03':dict(how='Explicit enumeration of forests x pruning parameters.',oracle='marginals from the derivation list.',why='Tests prune one forest at one width.',**{'not':'edges within 1e-6 relative of a cutoff may go either way.'}),
'C04':dict(how='Explicit enumeration of forests x masks / node orders / pairs.',oracle='the multiset of derivations with features, yields and scores before the operation.',why='Renumbering errors need particular orders and masks.'),
'C05':dict(how='Explicit enumeration of forests, rules, lattices; a second process with another symbol numbering reads what the first wrote.',oracle='structural equality, and printed grammars parsed by the harness.',why='Symbol numbering, flags beyond 32/64 symbols and quoting are not sampled by tests.'),
'C06':dict(how='Explicit enumeration of grammars x inputs on one translator object.',oracle='an independent top-down derivation enumerator.',why='Chart errors need particular combinations of rules, spans and epsilon arcs.',**{'not':'grammars with unary cycles; on lattices whose paths differ in length, whether a span limit rejects a rule application with an inner state farther away than the limit (the code measures shortest distances cell by cell) is left open: every application whose states are all within the limit must be found, none whose ends are farther apart may be.'}),
'C07':dict(how='Explicit enumeration of rule lines and of sequences of lines through the stateful lexer.',oracle='the fields the line was composed from.',why='The lexer keeps static state across lines: a defect shows only after a particular history.'),
'C08':dict(how='Explicit enumeration of forests x references; the tagger, lexical translation and lexical alignment make the linear chains of the other intersection algorithm.',oracle='derivations x reference paths.',why='Tests have one forest; the linear algorithm shares rules between edges, so a fault shows at the second use of a rule.',**{'not':'rules with an empty target side.'}),
'C09':dict(how='Explicit enumeration of forests x model sets x pruning limits.',oracle='derivations with model scores computed on the whole yield; exact k best per node for limits.',why='State merging and candidate bookkeeping depend on ties and sharing.'),
'C10':dict(how='Explicit enumeration of models x rule trees.',oracle='the back-off definition applied to the yield.',why='Left/right state errors need particular missing n-grams.'),
'C11':dict(how='Explicit enumeration of tables x inputs, one translator object over the whole sequence of inputs.',oracle='brute force per formalism.',why='Caches carried from sentence to sentence and cut-offs are invisible to single-sentence tests.',**{'not':'lattice arc features in the phrase-based decoder (a TODO in the code); per-sentence lexical grammars; compound pieces of multibyte characters at the length thresholds; words containing "|||" or brackets.'}),
'C12':dict(how='Explicit enumeration of corpora; the random pivots of the sort are chosen by the harness.',oracle='sorting all suffixes.',why='A wrong partition shows only for particular pivots.'),
'C13':dict(how='Explicit enumeration of corpora x patterns x settings.',oracle='brute force.',why='Merging of matchings and precomputation depend on order and gaps of occurrences.'),
'C14':dict(how='Explicit enumeration of alignments x occurrences x limits.',oracle='brute force over source and target spans.',why='Consistency is a condition over all alignments.',**{'not':'with loose phrases only consistency and presence of rules without outer gaps; with sampling only rules whose occurrences were all sampled.'}),
'C15':dict(how='Explicit enumeration of corpora, histories of sentences, plus schedule exploration of the OpenMP loops of the real programs.',oracle='the in-memory grammar; one thread.',why='Interleavings and caches cannot be driven by tests.',**{'not':'a team size other than requested outside num_threads clauses.'}),
'C16':dict(how='Explicit enumeration of hypotheses x reference sets x groupings.',oracle='definitions by counting.',why='Clipping, empty strings, ties between references.',**{'not':'old and new BLEU are compared only when all orders occur; WER with several references (old: lowest rate, new: fewest edits).'}),
'C17':dict(how='Explicit enumeration of string pairs; breadth-first search over block moves.',oracle='dynamic programming and the graph of block moves.',why='Greedy search and limits.',**{'not':'optimality of the greedy search; one block move costs one only for distinct words within the limits.'}),
'C18':dict(how='Explicit enumeration of line sets, forests, k-best lists; exhaustive evaluation between all crossings; real map/reduce programs.',oracle='the best of all derivations at each step.',why='Envelope errors need particular slopes and ties.',**{'not':'documents whose metric is undefined; tied candidates with different translations; random directions beyond form and norm; breakpoints within epsilon may be merged, but the reported score must be that at the returned step.'}),
'C19':dict(how='Explicit enumeration of candidate sets, histories, optimiser interruptions and program inputs.',oracle='objective and gradient from the definition (long double, central differences are not used), stationarity and an independent Newton solver.',why='Sign and scaling errors are invisible in a run that "goes down".',**{'not':'candidates equal to six digits count as one; the line search may give up with an exception; L1 status -998 only implies near-optimality; held-out perplexity when status is negative; ties at k-best limits; batch optimisation without a prior is only checked at its first evaluation. Not explored: kbest_mira, kbest_cut_mira, dtrain, latent_svm, ada_opt_sm, mpi online/flex/adagrad optimisers, baum_welch.'}),
'C20':dict(how='Explicit enumeration of models x queries x representations x system call failures.',oracle='the back-off definition applied to the file.',why='Bit-level layouts depend on counts; crash points of the writer cannot be tested by hand.',**{'not':'failure of msync (the destructor aborts by design); matched length may count pruned suffixes; lack of probing space with pruned suffixes may be refused; ambiguous quantisation ties.'}),
'C21':dict(how='Explicit enumeration of fragments and bracketings; revealing explored as a state graph.',oracle='left-to-right scores and the definition.',why='Composition invariance quantifies over all bracketings.',**{'not':'models whose n-grams lack their parts are only checked on whole sentences; a missing <unk> keeps one word of right state (as upstream).'}),
'C22':dict(how='Explicit enumeration of corpora x options of the real lmplz.',oracle='the interpolated modified Kneser-Ney definition from counts.',why='Streams, block boundaries and pruning interact.',**{'not':'probability of <s>; memory settings below the documented minimum may be refused; empty input files; collapsed values are compared up to the constant back-off of <s>.'}),
'C23':dict(how='Schedule exploration of real threads.',oracle='sequence of items, counted per schedule; happens-before.',why='It is about schedules.',**{'not':'a Stream held in the main thread before a looping chain needs spare blocks.'}),
'C24':dict(how='Explicit enumeration of contents x system call answers.',oracle='the content.',why='Short reads, interruptions and page boundaries do not occur in tests.',**{'not':'LineInput (cannot be constructed); text that starts with a compression magic; number at end of file: EOF or parse exception; EINTR with gz streams.'}),
'C25':dict(how='Exhaustive operation sequences.',oracle='std::map / std::vector.',why='Inline/heap transitions, self-assignment.',**{'not':'vectors equal up to stored zeros; uninitialised elements of SmallVector(n); contents after a narrowing resize.'}),
'C26':dict(how='Exhaustive operation sequences and arrays, chosen hash functions.',oracle='std::map, std::sort, linear search.',why='Wrap-around and interpolation extremes.',**{'not':'stability of the sort; combining when only one block exists.'}),
'C27':dict(how='Schedule exploration of the real server with scripted clients; conformance by the real programs over loopback.',oracle='protocol monitor.',why='It is about schedules and failures.',**{'not':'after all clients died only the finished prefix is printed; clients dismissed while another still works do not come back; a client that sends half a key blocks accepting; a client that answers too much.'}),
'C28':dict(how='Exhaustive pairs, chains, files, strings.',oracle='long double arithmetic, character-wise definitions.',why='Signs, zeros and magnitudes.',**{'not':"feature names with '=' or blanks or a leading '#' in weights files; '>' in segment attributes; FD::Freeze."}),
'C29':dict(how='Exhaustive pairs of alignments through the real programs; corpora through the real fast_align.',oracle='set definitions; EM computed from the definition.',why='Growing heuristics depend on order.',**{'not':'blank lines; links with missing digits; ties between best links; entries exactly at the beam threshold.'}),
'C30':dict(how='Exhaustive enumeration of the generator\'s outcomes.',oracle='exact shares.',why='A statistical test can only bound a bias.',**{'not':'forests where one derivation uses a node twice; the raw value 0 with a zero-weight first item.'}),
'C31':dict(how='Exhaustive enumeration of grammars, sentences, reference sentences and tag sets with the real parser, tagger, lexical aligner and compound splitter, every feature function of the registry that has a definition, alone and together, each object living through the whole sequence of inputs (so that what it remembers from one input meets the next).',oracle='each feature function written again from its definition: as a function of one rule application and its spans, or of the whole yield; every derivation of the rescored forest is compared feature by feature.',why='Feature functions keep state words, caches and tries; which derivations share a state and what was seen before decide whether a shortcut shows, and no test covers them.',**{'not':'External, Bleu, ConstReorder and BlunsomSynchronousParseHack (no definition independent of the code); the final jump of NewJump for a reference of one word and its source positions beyond 254; the constituent distance of a span with none nearer than its length (taken as length - 1, at least 1); OutputIndicator when one rule repeats a word; the span-crossing count of NgramFeatures -x with a single marker; SourcePath outside taggers.'}),
'C32':dict(how='Exhaustive enumeration of sequences of sentences x decoder configurations, each run through the real Decoder object as the command line builds it, with an observer that records every call.',oracle='all derivations of each sentence enumerated from the grammar, with every pass (weights, models, beam, density, summary feature) applied to the explicit list; lists, sums, gradients and files computed from that.',why='What is carried from pass to pass and from sentence to sentence (references, accumulators, weights, grammars, ids) only shows in particular sequences.',**{'not':'wording on stderr; the order of equal scores; max_translation_beam and coarse-to-fine; forced derivations are listed with source and target exchanged, as HG::Intersect documents.'}),
'C33':dict(how='Explicit enumeration of forests x models x representations x pop limits x list sizes over the real search, once as a client of klm/search drives it and once through the decoder.',oracle='all derivations with the textbook definition of the back-off model on the whole yield.',why='Partial hypotheses are refined word by word from both sides and merged by a hash of their states; a test of a few sentences reaches few refinements and no collision.',**{'not':'quantised models (their values are C21); models that lack a suffix of one of their n-grams (states do not compose then, see C21); rest costs where the left context is never completed.'}),
'C34':dict(how='Explicit enumeration of models x vocabularies x modes through the main function of the filter; schedule exploration of the whole program with threads (the scheduler of C23).',oracle='set inclusion per sentence; for phrases a recursive search for a tiling of the n-gram by pieces of a sequence of phrases; the expected files line by line, in order, with counts.',why='Nothing tests the filter; lost, repeated or stuck batches need particular sizes and schedules.',**{'not':'vocabulary files with blank lines (not counted as sentences); tags inside an n-gram in phrase mode (treated as words, as a comment in the code says); the order of the words of phrase_table_vocab.'}),
}
TAIL=open('/verif/lib/design/tail.md').read()
