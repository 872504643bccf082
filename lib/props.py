"""How each property is checked: harness parts, deciding technique, level and notes."""
HGSRC = ['decoder/hg.cc', 'decoder/viterbi.cc', 'decoder/trule.cc', 'utils/tdict.cc', 'utils/fdict.cc', 'utils/dict.cc', 'utils/verbose.cc',
         'utils/filelib.cc', 'utils/gzstream.cc', 'utils/stringlib.cc', 'utils/murmur_hash3.cc', 'utils/weights.cc', 'utils/sparse_vector.cc']
PROPS = {}
NOT_APPLICABLE = {}
ENUM = 'bounded exhaustive enumeration on the real code against a reference model'


def c(id, parts, rule, level='model_checking', technique=ENUM, note='', assumptions=None):
    from specs import S
    PROPS[id] = dict(title=S[id]['title'], parts=parts, rule=' '.join(rule.split()), level=level, technique=technique,
                     level_note=' '.join((note or 'Complete within the stated bounds; says nothing beyond them. Trusts the reference model, the compiler and the exploration driver.').split()),
                     assumptions=assumptions or [])


def part(name, srcs, libsets, lexer=False, env=None, aux=None, **kw):
    d = dict(name=name, harness=name + '.cc', srcs=srcs, libsets=libsets)
    if lexer:
        d['lexer'] = True
    d.update(kw)
    r = dict(build=d)
    if env:
        r['env'] = env
    if aux:
        r['aux'] = aux
    return r


DEC = ['decoder', 'utils']
c('C01', [part('c01_inside', HGSRC, DEC, True)],
  '''Every acyclic forest of the bounded space (up to 4 nodes, 2-3 incoming edges per node, arity 0-3, repeated tails, shared nodes) with
  several weight patterns (ties, spread, underflowing magnitudes) and both edge insertion orders; the reference is the
  explicit list of derivations. States are distinct (inside, outside) score pairs; transitions are computed scores compared. A case is non-trivial when the goal has more than one derivation.''')
c('C02', [part('c02_kbest', HGSRC, DEC, True)],
  '''Every acyclic forest of the bounded space (up to 4 nodes, arity 0-3, shared nodes and repeated tails) with weight
  patterns including many ties, both edge insertion orders; all k from 1 to beyond the number of derivations, sequential and direct queries, queries at inner nodes,
  unique-yield filtering with colliding yields. Reference: explicit derivation list. Non-trivial: more than one derivation.''')
c('C03', [part('c03_prune', HGSRC, DEC, True)],
  '''Every acyclic forest of the bounded space without useless parts x weight patterns (ties, spread) x beam widths x densities x max/sum mode x
  scales x preserve masks (none, a whole derivation) x with/without the second reachability pass. Reference: marginals from the explicit derivation
  list; edges within 1e-6 relative of the cutoff may go either way. Non-trivial: something was pruned.''')
c('C04', [part('c04_transform', HGSRC + ['decoder/hg_union.cc', 'decoder/hg_remove_eps.cc'], DEC, True)],
  '''Every acyclic forest of the bounded space: every node order for sorting, every edge mask for edge pruning / subsets / masked Viterbi forests, every node mask,
  every pair of sub-forests (covering a common forest) for the two unions, every small lattice for weight pushing, every small concatenation forest over words and epsilons.
  Reference: explicit derivations of the input. Non-trivial: more than one derivation (unions: always; epsilon forests: an epsilon occurs).''')
c('C05', [part('c05_io', HGSRC + ['decoder/hg_io.cc', 'decoder/lattice.cc'], DEC, True, ldflags=['-lboost_serialization'])],
  '''Every forest of the bounded space, every rule shape from a grid of side lengths (crossing 32/64 symbols) x nonterminal positions x
  awkward tokens; each is written, read back here and in a second process with different symbol numbering. Every lattice over up to 3 states (4 thorough) with
  parallel arcs, awkward tokens, 1-3 costs and 8 layout styles. Printed grammars are parsed by the harness and expanded.
  Non-trivial: more than one edge / state.''')
c('C06', [part('c06_parse', ['@decoder', '@utils', '@mteval', '@klm_lm', '@klm_util', '@klm_search'], [], True)],
  '''Every grammar of up to three (thorough: four) rules from 18 rule shapes (words, gaps in every position, swaps, three nonterminals, unary chains, several categories, goal rewriting) plus large
  combinations x every input up to 4 (5) words x glue on/off x pass-through off/on/with length features x span limits; every connected
  lattice over up to 3 positions with words and epsilons, parallel arcs and two costs x 7 grammars. One translator object serves all sentences of a configuration.
  Reference: an independent top-down derivation enumerator. States are distinct derivations. Non-trivial: more than one derivation. Grammars with unary cycles are out of scope.''')
c('C07', [part('c07_rules', HGSRC + ['decoder/grammar.cc', 'decoder/tree_fragment.cc', 'utils/string_piece.cc'], DEC, True)],
  '''Every rule line from a grid of sides (up to 3 source symbols, every order and interleaving of the target gaps, awkward tokens, up to 12 nonterminals, long sides up to 1200 symbols) x feature and
  alignment notations x layouts; each read alone, printed and reread, and looked up in a grammar; every sequence of up to three of ten lines with/without
  final newline and blank lines, read as stream and file, repeatedly; monolingual / phrase / lexical forms after every other rule; malformed lines after every other line.
  States are distinct rules or texts. Non-trivial: more than a word pair.''')
FULL = ['@decoder', '@utils', '@mteval', '@klm_lm', '@klm_util', '@klm_search']
c('C08', [part('c08_intersect', FULL, [], True)],
  '''Every acyclic forest of the bounded space (up to 4 nodes, arity 0-3, reordering and unary rules) with three word assignments x every yield, truncated and
  extended yields, other strings up to 3 (thorough 4) words, and 26 branching references with costs.
  Reference: explicit derivations x explicit reference paths. Chains of the tagger, of lexical translation (three tables with repeated words) and of lexical alignment, with and without
  the null word: sources of up to 3 (4) words x targets of up to 3 (4) words, references of the same, smaller and larger length, compared by features and by linked positions. Rules with an empty target side are out of scope. Non-trivial: the forest has more than one derivation.''')
c('C09', [part('c09_models', FULL, [], True)],
  '''Every acyclic forest of the bounded space (up to 4 nodes, arity 0-3, shared and repeated tails, ties) plus a goal edge x 15 sets of one to three feature functions (stateless,
  bigram, constant state, unshared state, length modulo 3, state with ignored bytes, in various orders) x full rescoring and the three cube pruning variants with
  pop limits 1, 2, 3, 6 and unlimited. Reference: explicit derivations with model scores computed from whole yields; with limits: exact k best (unshared states) or best edges per node (one state).
  quick runs every third combination. Non-trivial: more than one derivation.''')
c('C10', [part('c10_lm', FULL, [], True)],
  '''Every back-off model of a family (all 255 bigram sets, ten bigram sets x 127 trigram sets, several 4-gram models; with/without <unk>, with/without back-offs on unextended n-grams, n-grams whose suffix is missing) as ARPA file and as
  probing, trie and array-trie binary, with generated or explicit sentence markers, word classes and feature names; each scores forests of some 1000 rule trees built from 12 phrases and 17 combining rules.
  Full rescoring merges equal states, so every derivation is also scored through the representative of its state. Reference: the definition applied to the yield. quick: a fifth of the trigram models.''')

c('C11', [part('c11_phrase', FULL, [], True), part('c11_words', FULL, [], True)],
  '''Every subset of an 8-entry phrase table (with repeated entries) x every source sentence of up to 3 words over three (plus longer ones) x distortion 0-3 x pass-through; every word lattice of two positions and a seventh (thorough: all) of those of three;
  finite-state composition of every table with every sentence of up to 4 words, any goal symbol, and with some 300 (thorough 1500) source forests; every lexical table of 7 entries x sentence pairs x option sets (null word, align only, dynasearch);
  lexical alignment, tag sets of up to 3 tags; compounds of up to 12 (13) characters; a third (thorough: all) of the subsets of 10 tree rules spread over one or two grammars or per-sentence ones x every parse tree of up to 6 (7) nodes x pass-through.
  One translator object handles the whole sequence of inputs. Reference: brute force; compared are multisets of (yield, features, score, source spans). Non-trivial: more than one derivation.''')

EXTR = ['@extractor', '@utils']
c('C12', [part('c12_suffix', EXTR, [])],
  '''Every corpus of up to 8 tokens over two words and line breaks (thorough 10), up to 13 (16) over one, 6 (7) over three, 5 (6) over four, long periodic and Fibonacci texts; the pivots of the sort are chosen by the harness:
  four policies and, for short corpora, every one or two deviations. Every phrase that can occur, plus one unmatched extension by every word; samples of every size with every set of excluded
  sentences. Non-trivial: a phrase of two words occurs twice.''')
c('C13', [part('c13_gappy', EXTR, [])],
  '''Every corpus of up to 8 tokens over two words and line breaks (thorough 9), 6 (7) over three, 14 over one, and 128 (512) longer ones x every pattern of two or three chunks of up to 2-3 words
  (the third only if the first two occur) x a share of 120 settings of span, gap, symbol limits and frequent-pattern precomputation. Reference: brute force. Non-trivial: a pattern occurs at least twice.''')
c('C14', [part('c14_extract', EXTR, [])],
  '''Every alignment of sentence pairs of up to 3x3, 4x3, 3x4, 5x2, 2x5, 6x2 words (thorough also 4x4), functional alignments of 5 and 7 words, all permutations of 7 words (quick: half) x every occurrence pattern x a share of 66 limit
  settings (span, gap size, one to three nonterminals, symbols, tight or loose); and whole grammars with all seven scores for inputs against corpora of two to three sentences with excluded
  sentences, few samples and precomputation. Reference: brute force over all source and target spans. With loose phrases, rules with outer gaps are only checked for consistency, and with fewer
  samples than occurrences only the fully sampled rules are compared. Non-trivial: several rules.''')
TSAN = ['-fsanitize=thread']  # instruments memory accesses; the runtime is harness/vsched.cc, not libtsan
_MT = {'mteval/fast_score.cc': ['-Dmain=fast_score_main', '-DInitCommandLine=fast_score_init'], 'mteval/mbr_kbest.cc': ['-Dmain=mbr_kbest_main']}
c('C16', [part('c16_metrics', ['@mteval', '@utils'] + sorted(_MT), [], per_src_flags=_MT)],
  '''Every hypothesis up to 5 (6) words over three words (one multi-byte) against every single reference up to 4 (5), and up to 6 (7) words over two against every pair and triple of short references, one evaluator serving all hypotheses: four BLEU
  variants, character BLEU, string kernel, exact match, combinations, alignment error, each against brute-force counting, and both implementations against each other (BLEU variants, TER, WER, combinations). Corpora of up to 3 (4) sentences: all orders
  and groupings of sums, differences, scaled sums, clones and text encodings at every magnitude. Reference files: every content of up to two files, empty lines, alternatives, missing final newline; printed corpus scores; minimum-risk choice from every k-best file of up to three entries.
  States are distinct scores. Non-trivial: a partial match.''')
c('C17', [part('c17_edits', ['@mteval', '@utils'], [])],
  '''Every hypothesis and reference up to 5 (6) words over three words (plus longer ones, one word multi-byte): word and character edit counts against dynamic programming; translation error rate against every arrangement reachable by block moves
  (breadth first) - a script with exactly the reported counts exists, not above the plain distance, not below the optimum, zero iff equal, one block move costs one; sets of two and three references; every single block move in sentences of 7 and 13 (24) distinct words,
  around the shift limits and in sentences of 1100 words; both implementations. States are distinct edit counts. Non-trivial: a shift was used.''')
c('C20', [part('c20_models', ['@klm_util', '@klm_lm'], [], ldflags=['-ldl', '-lbz2', '-llzma'], aux={'VC_QUERY': dict(name='c20_query', harness='/repo/klm/lm/query_main.cc', srcs=['@klm_util', '@klm_lm'], libsets=[]), 'VC_BUILD': dict(name='c20_build', harness='/repo/klm/lm/build_binary_main.cc', srcs=['@klm_util', '@klm_lm'], libsets=[])})],
  '''Models: every set of bigrams with everything that fits on top of it, every set of trigrams over several sets of bigrams, combinations up to 6-grams, with and without <unk>, zero and non-zero back-offs, contexts pruned away, in six
  representations; every query sequence of up to 4-5 words from both start states; FullScore, FullScoreForgotState and GetState against the back-off definition computed from the file. Configurations: probing multipliers, 1-20 quantisation bits,
  0-64 offset bits, two ways to write x words kept or not x five ways to load x every wrong type, the virtual interface, no temporary file left. Texts: eight line orders x seven styles, four compressions, every policy for missing words and
  positive probabilities, the text cut at every byte, each line deleted, doubled or misspelt. Binary files: the writing stopped before each system call, each call failing or short, the file cut at every byte: exact or refused. Models past one sort
  buffer. The real build_binary and query programs. States are distinct models; transitions are queries. Non-trivial: more than one n-gram order in use.''')
c('C21', [part('c21_states', ['@klm_util', '@klm_lm'], [], ldflags=['-ldl', '-lbz2', '-llzma'])],
  '''Models of orders 2-6 (sets of bigrams, trigrams and longer n-grams, contexts pruned away, with and without <unk>, zero and non-zero back-offs) x seven model types (probing; rest costs from maxima and from lower order models; four tries).
  Every fragment of up to 4-5 words over three or four words (7 over two, for orders 4-6), with and without a sentence start: score, left and right state from left to right against the definition; every rule of terminals and non-terminals that yields it,
  three ways to call and reuse the scorer, each with the identical state, hence every derivation; every pair of reachable states for equality, order and hash; every context in front of every scored fragment word by word; and rules of up to two children between words,
  revealed in every order and step size as incremental search does it, explored as a graph of states. States are distinct models and types; transitions are scoring operations. Non-trivial: all.''')
c('C23', [part('c23_concurrency', ['@klm_util'], [], aux=None, harness=['c23_concurrency.cc', 'vsched.cc'], ldflags=['-ldl'],
               per_src_flags={k: TSAN for k in ['c23_concurrency.cc', 'klm/util/stream/chain.cc', 'klm/util/stream/io.cc', 'klm/util/stream/multi_progress.cc']})],
  '''The real PCQueue, ThreadPool and Chain/Link/Stream on real threads under a scheduler that owns every mutex, condition, semaphore, join and atomic operation: for each configuration
  (1-3 producers x 1-3 consumers x sizes 1-3; copies that throw; 1-3 pool workers; nine chain shapes x 1-3 blocks x partly filled or empty blocks x restarts; two chains read together) every schedule with up to 1-3 preemptions
  or deviations from round robin and up to one interrupted semaphore wait; happens-before data race detection, deadlock and livelock detection in each. States are distinct explorations; transitions are schedules. Non-trivial: more than one schedule.''')
import glob as _g, os as _o
from vbuild import REPO as _R
_EX = [_o.path.relpath(f, _R) for f in sorted(_g.glob(_R + '/extractor/*.cc') + _g.glob(_R + '/extractor/features/*.cc')) if not f.endswith('_test.cc')]
_MAINS = {'extractor/%s.cc' % m: ['-Dmain=%s_main' % m, '-Domp_get_num_threads=%s_nt' % m] for m in ('sacompile', 'extract', 'run_extractor')}
c('C15', [part('c15_compiled', EXTR + sorted(_MAINS), [], harness=['c15_compiled.cc', 'vsched.cc'], ldflags=['-lgomp', '-ldl'],
               per_src_flags=dict([(k, TSAN + ['-fopenmp'] + _MAINS.get(k, [])) for k in _EX] + [('c15_compiled.cc', TSAN)]))],
  '''Small parallel corpora (every pair alignment, words, empty lines, awkward tokens) x six settings: every structure written, read back and compared member by member and by use; the grammars from memory, from structures read back,
  from the real sacompile + extract programs (plain and gzip) and from run_extractor, from files and bitext; every order of the sentences on one extractor. Then the real programs' OpenMP loops run on a scheduler that owns every critical section, loop
  hand-out, join and atomic operation: every schedule of 2-3 threads with up to 1-2 deviations from round robin (thorough 2-3), and every schedule with up to 2-4 preemptions of threads sharing the vocabulary; happens-before data race detection in each.
  Grammars are compared as multisets of lines. Transitions are grammars or schedules. Non-trivial: more than one rule or schedule.''')
c('C24', [part('c24_io', ['@klm_util', '@utils'], [], ldflags=['-ldl', '-lbz2', '-llzma'])],
  '''The harness answers the system calls (read, write, pread, pwrite, mmap, fstat, page size). Buffered text reading: every text of up to 4 (thorough 5) characters from two alphabets (words and separators; numbers), alone and behind a six byte head, read by repeated
  single operations and pairs (triples) out of ten, mapped, read or from a stream, with pages of 1-4 bytes, in every partition into short reads, an interruption before each, each mapping failing; mapped bytes end at an inaccessible page; files with
  tokens around every real page boundary. Compressed input: every one, two or three members of gzip, bzip2, xz and four contents, delivered in every pair of pieces, cut off at every byte, every byte changed, garbage appended; members that end around the end of the
  input buffer. Primitives: every plan of up to 4 (5) system results (1, 2, 5 bytes, interrupted, error, nothing). Output stream: every three string sizes around its buffer; floats and doubles of every exponent. gzip and plain files around buffer sizes, short calls,
  errors at each call, truncation. Pipelines: record size x block size x count x length x delivery. Tokens: every string of up to 6 (8) characters. Transitions are runs; states are distinct texts and outcomes. Non-trivial: more than one byte or member.''')
c('C25', [part('c25_containers', ['@utils'], [])],
  '''Sparse vectors of double, float, int and log values: every sequence of up to 3 (thorough 4) of 39 operations (set, add, erase at six keys, arithmetic with a second vector and with itself, copies, swaps, archives) on one of two vectors,
  from several starting sizes around the inline limits; after each one every observation is compared with a plain map. Small vectors of three types with 1-4 inline elements: every sequence of 4 (5) of some 50 operations; value arrays
  of bytes, ints and strings, two-dimensional arrays: every sequence of 3 (4); index maps: every subset of up to 7 (10) elements; hash map helpers: every 4 operations; base64: every string of one and two bytes, many of three and four, feature vectors of
  every size and name length. Every allocation is guarded: writes outside, double release and leaks are reported. States are distinct (contents, order, inline or heap); transitions are sequences. Non-trivial: past the inline limit.''')
_WRAP = ['-shared'] + ['-Wl,--wrap=' + f for f in '''pthread_exit pthread_join pthread_detach pthread_self pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_broadcast pthread_cond_signal exit _exit abort __assert_fail malloc free calloc realloc strdup socket setsockopt bind getsockname listen accept select poll read write send recv close signal sigaction sleep usleep sched_yield fputs puts fputc putc putchar fwrite fprintf printf fflush fclose perror'''.split()]
c('C27', [part('c27_server', [], [], ldflags=['-ldl', '-rdynamic'], aux={
    'VC_SERVER_SO': dict(name='c27_sentserver.so', harness='/repo/training/utils/sentserver.cc', srcs=[], libsets=[], flags=['-fPIC', '-U_FORTIFY_SOURCE', '-Dpthread_create=__vc_pthread_create'], ldflags=_WRAP),
    'VC_SENTSERVER': dict(name='c27_sentserver', harness='/repo/training/utils/sentserver.cc', srcs=[], libsets=[]), 'VC_SENTCLIENT': dict(name='c27_sentclient', harness='/repo/training/utils/sentclient.cc', srcs=[], libsets=[])})],
  '''The real sentserver.cc, compiled as a shared object whose thread, lock, socket, input, memory and output calls go to a scheduler; its writable image is restored before every execution. Every schedule of server threads and client actions
  (connect, answer, leave idle, leave with a sentence, reset, half an answer, one line too many) with up to 2 preemptions for one client, 1-2 for two, 0 for three (thorough: 3, 2, 1, and a switch also after each unlock); 0-3 sentences, synchronisation lines at every
  place, keys right, wrong, cut off or missing, multi-line answers, staying alive, input without final newline, memory filled with three patterns, lines around the buffer size. Judged on each: no sentence is held by two clients or handed out after its answer, output is
  the answers in input order, status 0 only when complete, no giving up while a client is left, no dismissal while a sentence has nobody, an end, no deadlock, no bad memory or lock use, not killed by a signal. Then the real server and clients over loopback, ten
  client mixes x four lengths x key, check the stand-ins. States are distinct (configuration, output, status); transitions are executions. A configuration that reaches the limit of schedules is counted in cut_at_limit. Non-trivial: more than one schedule.''')
c('C28', [part('c28_values', ['@utils'], [], aux={'VC_DEDUP': dict(name='c28_dedup', harness='/repo/utils/dedup_corpus.cc', srcs=['@utils'], libsets=[])})],
  '''Log values of double and float: every pair from a grid of signs and magnitudes (zero, both signs of zero, far beyond the range of a double) under every operation, comparison and conversion, and every chain of 3 (thorough 4)
  of 26 operations, against long double arithmetic with tracked rounding. Weights: every assignment of 5 (7) values to 4 (5) features written and read in 8 ways, every hand-written file of up to three of 14 lines, from file, gzip and standard input; every escaped
  name of up to 4 (5) characters. Dictionaries: every sequence of 4 (5) operations; every sentence of up to 6 (8) pieces; every string of up to 5 (6) pieces for splitting, counting, case, translator input; every attribute set x layout of segment tags; every 16-bit
  number and the boundaries of the wider ones; digests against md5sum; every small parallel text x part; deduplication by the real program. States are distinct operands, weight maps or tags. Non-trivial: mixed signs, more than one weight, token or attribute.''')
c('C29', [part('c29_align', ['@utils', 'word-aligner/ttables.cc'], [], aux={'VC_ATOOLS': dict(name='c29_atools', harness='/repo/utils/atools.cc', srcs=['@utils'], libsets=[]), 'VC_FAST_ALIGN': dict(name='c29_fast_align', harness='/repo/word-aligner/fast_align.cc', srcs=['@utils', 'word-aligner/ttables.cc'], libsets=[])})],
  '''The real atools: every pair of alignments of 2x2, 2x3, 2x4, 4x2 and 3x3 words (thorough also 3x4, 2x5, 5x2) under intersect, union and the three growing heuristics, every single alignment converted, inverted and displayed, seven layouts of
  lines from three kinds of input, every pair of file lengths, pairs of lines from one stream, F-measures. Alignment strings: every list of up to 2 (3) links from a grid of coordinates read, printed, typed and displayed; every string of up to 5 (6) characters. Translation
  tables: every sequence of 4 (5) operations; the diagonal prior's normaliser and its derivative against direct sums for up to 20x20 (60x60) words and seven tensions. The real fast_align: every corpus of one sentence of up to 2x2 words (thorough: of two, quick every fourth) and longer
  ones under 20 option sets: report, links, parameter file, test set, forced alignment against EM computed from the definition. States are distinct outputs. Non-trivial: more than one link, sentence or table entry.''')
c('C30', [part('c30_sample', HGSRC + ['decoder/hg_sampler.cc'], DEC, True)],
  '''The real sampler on the real generator, whose state is set so that its raw outputs are chosen: for every forest of the bounded space (as C01; no node twice in one derivation) x eight integer weight patterns (some edges of weight zero, inside values far outside the range of a
  double), every sequence of random outcomes on a grid that falls between all exact boundaries, one, two (and three) samples at a time; the share of each derivation counted exactly (where the grid would be too fine, up to its resolution), words, features and score of each sample, and
  trees. Selection among every list of up to 4 (5) weights at three temperatures, between two, Metropolis-Hastings acceptance, alias tables for every distribution in eighths (twelfths). States are distinct probabilities; transitions are executions. Non-trivial: more than one derivation.''')
DPM = ['training/dpmert/mert_geometry.cc', 'training/dpmert/ces.cc', 'training/dpmert/error_surface.cc', 'training/dpmert/line_optimizer.cc']
c('C18', [part('c18_lines', FULL + DPM, [], True, aux={
    'VC_GEN': dict(name='c18_gen', harness='/repo/training/dpmert/mr_dpmert_generate_mapper_input.cc', srcs=FULL + DPM, libsets=[], lexer=True),
    'VC_MAP': dict(name='c18_map', harness='/repo/training/dpmert/mr_dpmert_map.cc', srcs=FULL + DPM, libsets=[], lexer=True),
    'VC_REDUCE': dict(name='c18_reduce', harness='/repo/training/dpmert/mr_dpmert_reduce.cc', srcs=FULL + DPM, libsets=[], lexer=True)})],
  '''Envelopes: every forest of the bounded space (as C01) x four feature patterns x eight origins and directions, every list of up to 4 (thorough 5) lines from a 4x5 grid, compared at all pairwise crossings, between and beyond them with the best of all
  derivations. Error surfaces and line search: every list of up to three candidate translations from five strings (one empty) x 8 (24) feature patterns x four reference sets x one or two sentences x 7 (9) metrics x origins and directions (quick: every fourth combination, thorough every second), with the surface encoded and decoded, the decoder re-run at
  the returned step; all surfaces of two sentences with breakpoints nearer and farther than the merging threshold x all error counts; statistics vectors of up to 50 fields. The real agenda, map and reduce programs on six documents x five origins x five option sets x metrics.
  States are distinct lines and steps; transitions are segments, intervals, searches and program runs. Non-trivial: more than one line.''')
c('C22', [part('c22_lmplz', [], [], aux={'VC_LMPLZ': dict(name='c22_lmplz_main', harness='/repo/klm/lm/builder/lmplz_main.cc', srcs=['@klm_builder', '@klm_lm', '@klm_util', 'utils/murmur_hash3.cc'], libsets=[])})],
  '''The real lmplz program. Small corpora: every corpus of one or two sentences and every multiset of three sentences of up to three words over two words, each with every twenty-fourth (thorough third) of about 90 option sets (orders 1-4, pruning thresholds, four fallback
  discounts, uninterpolated unigrams, padded vocabulary, collapsed values); larger: 8 (40) generated corpora of 12, 60 and 200 lines at orders 1-5. Every n-gram, probability and back-off compared with the definition, and the sum over the vocabulary taken in every context, collapsed values against sentence scores.
  Memory: corpora x orders x pruning x every ninth (second) of 7 sizes x 4 minimum blocks x 3 sort blocks x 4 block counts: byte-identical output or a refusal. Texts: separators, empty lines, reserved words, headers, vocabulary file, files or pipes, bad options.
  States are distinct models; transitions are program runs, contexts and sentences. Non-trivial: more than one sentence or a special text.''')
TRN = FULL + ['training/utils/candidate_set.cc', 'training/utils/risk.cc', 'training/utils/entropy.cc', 'training/utils/optimize.cc', 'training/utils/online_optimizer.cc', 'training/liblbfgs/lbfgs.c']
CRF = TRN + ['training/crf/cllh_observer.cc']
def prog19(n, src, srcs): return dict(name='c19_' + n, harness='/repo/training/' + src, srcs=srcs, libsets=[], lexer=True)
c('C19', [part('c19_objectives', TRN, [], lexer=True), part('c19_programs', FULL, [], lexer=True, aux={
    'VC_MINRISK': prog19('minrisk', 'minrisk/minrisk_optimize.cc', TRN), 'VC_PROMAP': prog19('promap', 'pro/mr_pro_map.cc', TRN), 'VC_PROREDUCE': prog19('proreduce', 'pro/mr_pro_reduce.cc', TRN), 'VC_RAMPION': prog19('rampion', 'rampion/rampion_cccp.cc', TRN),
    'VC_CLLH': prog19('cllh', 'crf/mpi_compute_cllh.cc', CRF), 'VC_BATCH': prog19('batch', 'crf/mpi_batch_optimize.cc', CRF)})],
  '''Candidate sets of up to 3 (thorough 4) candidates over a feature grid x eight weight points (some extreme) x two kinds of metric: risk, entropy and gradients against their definition. Merge histories: every sequence of up to three forests (all pairs and
  sampled-by-stride triples of twelve candidates) x k-best, distinct k-best, limits, saving and loading. Optimisers: 100 functions x five starts x three optimisers, uninterrupted and saved and loaded before every step; the L1 minimiser on a grid of separable problems;
  online learning: every history of 4 (5) updates and epoch ends x schedules x penalties. Programs (real mains): six documents x two rounds x five start weights x metrics x options for minimum risk, pair sampling and rampion (repository contents, every printed pair, every update);
  ranking loss: training sets x held-out sets x previous weights x L2 x proximity x L1 x interpolation x tuning, judged by stationarity and an independent Newton solver; conditional likelihood and batch optimisation: corpora x weights x prior, means, test set and optimiser, against derivation lists.
  States are distinct results; transitions are evaluations, updates or program runs. Non-trivial: more than one candidate.''')
c('C26', [part('c26_tools', ['@klm_util', 'utils/murmur_hash3.cc'], [])],
  '''Probing tables of 1-7 buckets x five hash functions (identity, constant, mixing, negated, clustering) x two empty markers: every sequence of 5 (thorough 6) of nine operations (insert six keys, double, move, clear), compared with a map after each,
  with guard entries past the end; growing tables of seven starting sizes prefilled with 0-20 entries and every continuation of 3 (4). Searches over 16, 32 and 64 bit keys: every multiset of up to 5 (6) values from a grid including both extremes, and long
  uniform, exponential and clustered arrays, every key at or next to an entry. Bit packing: every width and offset x boundary values x neighbouring bits. Sorting: every sequence of up to 7 (8) keys of three values, every permutation of up to 7; records of eight sizes.
  External sort: record size x block count x block size x buffer x memory x length x key pattern x lazy memory x four ways to finish, with and without combining. States are distinct table layouts and outputs; transitions are sequences or searches. Non-trivial: more than one block or entry.''')
c('C31', [part('c31_features', FULL, [], True)],
  '''Hierarchical grammars: every pair and (quick: some) triple of nine structural rules x four lexicons (several words, repeated words, non-ASCII, characters that need escaping), parsed by the real parser
  over all sentences of up to 3 (thorough 4) words over two words; each feature function with each of its parameter settings alone, and all together, the same function objects used over the whole
  sequence of sentences; four shapes of source tree. Long spans up to 36 (60) words. Sentence markers brought by rules x five orders. Tagger: four tag sets x all sentences of up to 4 (5) words over three
  words x functions and templates. Compound splitting: every word of up to 3 (4) of nine pieces x three sets of word lists. Every derivation of every rescored forest is compared feature by feature with the definition on the whole derivation. States are distinct feature vectors; transitions are
  derivations. Non-trivial: a forest with more than one derivation.''')
c('C34', [part('c34_filter', ['@klm_util', '@klm_lm', 'klm/lm/filter/arpa_io.cc', 'klm/lm/filter/phrase.cc', 'klm/lm/filter/vocab.cc'], [], aux={'VC_PTVOCAB': dict(name='c34_ptvocab', harness='/repo/klm/lm/filter/phrase_table_vocab_main.cc', srcs=['@klm_util'], libsets=[])}, harness=['c34_filter.cc', 'vsched.cc'], ldflags=['-ldl'],
               per_src_flags={k: TSAN for k in ['c34_filter.cc', 'klm/lm/filter/phrase.cc']})],
  '''Four models (every n-gram of up to three words over three words and three tags, four over three words, five over two; odd words such as "<", "a<", long and non-ASCII ones; an order without n-grams; more lines than the
  header has room to shrink) in both formats x vocabularies: every subset of four words alone, in pairs and triples of sentences, 100 sets of one to three phrases in pairs and triples x single, union, multiple, copy x context x
  vocabulary or model on standard input x three layouts, through the program's own main; phrase tables x pairs of sentences through the real program. Threads: two or three workers x batch sizes 1, 2, 3, 100 x modes x formats x
  distributions of n-grams over orders: every schedule within one or two deviations from round robin, the whole program under the controlled scheduler with data race detection. States are distinct runs; transitions are runs and schedules. Non-trivial: all, and more than one schedule.''')
c('C32', [part('c32_decoder', FULL, [], True)],
  '''Ten small hierarchical grammars x 70 decoder configurations (0-3 rescoring passes with weights of their own, models, beams, densities and summary features of each type; all
  intersection strategies; k-best and unique lists, forced decoding, gradients and feature expectations in groups of 1-3 in both formats, conditional probabilities, forests on disk, samples,
  incremental search, weight changes by the caller or by the input) x every sequence of two (some: three) sentences from a pool that includes unparseable input, unreachable references, explicit and repeated ids and per-sentence
  grammars. Everything written and every observer call is compared with explicit enumeration of the derivations. States are distinct (configuration, derivation) results; transitions are sentences and derivations. Non-trivial: more derivations than sentences.''')
c('C33', [part('c33_incremental', FULL, [], True)],
  '''1008 four-node forests (leaf phrases of up to four words, unknown words, shared and repeated children, arity up to three, sentence markers at the root or none) x language models of orders 2 to 5
  (closed under suffixes, with and without <unk>; vocabularies of a few words and of 260) x two weight settings x probing, rest-cost, trie and array-trie representations x pop limits 1, 2, 5 and unlimited x single best and 1, 3, all best; the decoder's own
  incremental search on the same forests. Reference: all derivations with the definition of the model applied to the whole yield. quick: a third of the combinations. States are distinct scored derivations; transitions are
  results compared. Non-trivial: more derivations than forests.''')
