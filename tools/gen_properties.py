#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

SB = 'spgemm-blocks/'
NOT_TESTED = 'No test in the suite runs a multiplication; the 67 stable tests stop at accumulators, prefix sums, buffers, triples and the vendored sorts. '
prop('C01', 'One-phase masked product is the masked product',
     'For every row-compressed A, B and mask M of fitting shape, every semiring and every thread count, each one-phase row-by-row algorithm (dense one- and two-array accumulators, their older variants, hash, mask-compressed, and all heap variants) returns exactly the positions of A*B that M stores and that receive at least one product. '
     'The value at each position is the sum of its products under the given add and multiply, with the multiply applied to (A value, B value) in that order; mask values are ignored and explicitly stored zeros are kept.',
     ['inputs', 'configurations'], 'all A, B, M (any sparsity, empty rows, sorted rows; unsorted rows too for the dense and hash accumulators), index/value types, semirings, 1..n threads including more threads than rows',
     NOT_TESTED + 'A handful of samples could not cover the row shapes, collision patterns, mask shapes and thread counts that select the code paths.',
     [SB + 'masked-spgemm.h', SB + 'msa', SB + 'hash', SB + 'mca', SB + 'heap', SB + 'common.h', SB + 'scan.h'],
     [('per-row accumulation restricted to mask positions', SB + '*/**Algorithm*.h numericRow'), ('work split and stitching of thread-local results', SB + 'masked-spgemm.h, ' + SB + 'common.h')], ['returned matrix'])
prop('C02', 'Two-phase masked product is the masked product',
     'For every A, B, M, semiring and thread count, each two-phase row-by-row algorithm (size pass, then value pass) returns the same matrix as the definition: the positions of A*B stored in M that receive at least one product, each holding the sum of its products. '
     'In particular the sizes found by the first pass are exactly the sizes produced by the second, and reusing the first pass\'s scratch memory never leaks into the values.',
     ['inputs', 'configurations'], 'as C01, for the two-phase driver',
     NOT_TESTED + 'The hand-over of a partly dirty scratch buffer from size pass to value pass depends on the row mix that each thread gets.',
     [SB + 'masked-spgemm.h', SB + 'msa', SB + 'hash', SB + 'mca', SB + 'heap', SB + 'util.h'],
     [('symbolic pass sizes rows', SB + '*/*Algorithm*.h symbolicRow'), ('buffer hand-over with dirty-prefix tracking', SB + 'util.h splitMemory, releaseBuffer')], ['returned matrix'])
prop('C03', 'Complemented-mask product keeps exactly what the mask rejects',
     'For every A, B, M, semiring and thread count, each algorithm run with a complemented mask (dense, hash and heap accumulators, sorted and unsorted output, one and two phases) returns exactly the positions of A*B that M does not store, each with the sum of its products. '
     'Rows whose mask is empty are unrestricted; rows whose mask covers the whole product come out empty.',
     ['inputs', 'configurations'], 'all A, B, M including empty and full mask rows, all semirings, thread counts, sorted/unsorted variants',
     NOT_TESTED + 'The complemented heap path aborted on the first empty mask row until this work found it.',
     [SB + 'msa/MSAAlgorithm.h', SB + 'hash/MaskedHashAlgorithm.h', SB + 'heap/MaskedHeapAlgorithmInspect.h', SB + 'masked-spgemm.h'],
     [('mask positions are blocked, everything else accumulates', SB + 'msa, ' + SB + 'hash, ' + SB + 'heap complemented classes'), ('upper bound of the output is the product count', SB + 'common.h scanInputs')], ['returned matrix'])
prop('C04', 'Pull-based (dot-product) masked product is the masked product',
     'For every A and M compressed by rows and B compressed by columns (sorted), every semiring and thread count, the dot-product algorithms (one-phase, two-phase and their manually inlined twins) return exactly the masked product: one entry per mask position whose row of A and column of B share an index, holding the sum over the shared indices.',
     ['inputs', 'configurations'], 'all A, B, M with sorted rows/columns, all semirings and thread counts',
     NOT_TESTED + 'The merge loop has many exit combinations that depend on how row and column indices interleave.',
     [SB + 'inner', SB + 'masked-spgemm-inner.h', SB + 'common.h'],
     [('two-pointer intersection per mask entry', SB + 'inner/InnerAlgorithm.h'), ('offsets taken from the mask', SB + 'masked-spgemm-inner.h')], ['returned matrix'])
prop('C05', 'Hybrid masked product is the masked product',
     'For every sorted A, B, M, semiring and thread count, the hybrid algorithm, which picks an accumulator per row, returns exactly the masked product, whatever sequence of accumulator choices the rows cause.',
     ['inputs', 'configurations'], 'all sorted A, B, M, mixing rows that choose each accumulator in any order, all thread counts',
     NOT_TESTED + 'The hybrid driver never stored its row sizes and overlapped its accumulators, which no test noticed.',
     [SB + 'masked-spgemm-poly.h'], [('per-row choice between dense and mask-compressed accumulation', SB + 'masked-spgemm-poly.h')], ['returned matrix'])
prop('C06', 'Every masked product is a well-formed sparse matrix',
     'Every masked product, complemented or not, comes back as a valid zero-based row-compressed matrix of A\'s row count and B\'s column count: offsets start at 0, never decrease and end at the entry count, and no row repeats or exceeds a column. '
     'Stored positions lie inside the mask (outside it when complemented) and their number equals the number of positions that receive a product; algorithms that promise sorted rows, and mask-ordered algorithms given a sorted mask, return ascending columns.',
     ['inputs', 'configurations'], 'all operands, all algorithms (push, pull, hybrid, complemented), all semirings and thread counts',
     NOT_TESTED + 'Offsets are assembled from per-thread pieces, so holes and overlaps appear only for particular partitions.',
     [SB + 'masked-spgemm.h', SB + 'common.h', SB + 'masked-spgemm-inner.h', SB + 'masked-spgemm-poly.h'],
     [('row offsets from per-thread counts', SB + 'common.h setRowOffsets'), ('output allocation', SB + 'common.h initC')], ['row offsets, column ids, entry count of the result'])
prop('C07', 'Result does not depend on threads or on their interleaving',
     'A masked product gives the same matrix, entry for entry and in the same order within each row, for every number of threads and every legal interleaving of them, also when the runtime grants fewer threads than were asked for and when several threads of the caller multiply at the same time; '
     'and no two threads touch the same memory without synchronisation when one of them writes. The same holds for the baseline and unmasked products (except that those which do not promise sorted rows may order a row differently), and for the prefix sums, work estimates and storage conversions they are built from.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings of the parallel regions at the granularity of individual memory accesses, all team sizes, all operands',
     'Tests run each parallel step on whatever schedule the machine happens to give; a missing barrier or a wrong offset shows up only under a particular order.',
     [SB + 'masked-spgemm.h', SB + 'masked-spgemm-inner.h', SB + 'masked-spgemm-poly.h', SB + 'common.h', SB + 'scan.h', SB + 'inner', 'heap_mult_generic.h', 'mask_hash_mult.h', 'hash_mult_hw.h', 'spa_mult.h', 'inner_mult.h', 'utility.h', 'util/transpose.h'],
     [('barriers around the allocation of the result', SB + 'masked-spgemm.h'), ('disjoint row ranges per thread', SB + 'common.h distributeWork')], ['returned matrix', 'memory accesses of each thread'])
prop('C08', 'Operands survive, outputs may alias or be reused',
     'A multiplication leaves every operand that is not also its output unchanged, bit for bit. '
     'The output may be empty, may hold an earlier result of any shape, or (for the algorithms that take all operands by rows, and one-phase dot products) may be the same object as an operand or mask; its previous content never shows in the result. '
     'Any sequence of products, copies and assignments over a set of matrices therefore behaves as if matrices were values.',
     ['histories', 'inputs', 'configurations'], 'all sequences of products, copies, assignments and clearings over a pool of matrices, with all aliasing patterns',
     'The only related test program is not run and asserts nothing; aliasing errors need a history.',
     [SB + 'masked-spgemm.h', SB + 'common.h', 'CSR.h', SB + 'masked-spgemm-inner.h'],
     [('result replaces the output only after operands were read', SB + 'common.h initC; ' + SB + 'masked-spgemm.h'), ('deep copies', 'CSR.h')], ['all matrices after each step'])
prop('C09', 'Masked products touch only memory they own and initialise',
     'For all valid operands, every masked product stays inside its operands, its result and the scratch memory it allocated, releases nothing twice, uses nothing after release, and performs no undefined arithmetic, misaligned or null access. '
     'Its result never depends on what fresh memory happened to contain.',
     ['inputs', 'configurations'], 'all valid operands, algorithms, thread counts and initial contents of fresh heap memory',
     NOT_TESTED + 'Tests run without sanitizers and on benign heaps.',
     [SB + 'util.h', SB + 'masked-spgemm.h', SB + 'msa', SB + 'hash', SB + 'mca', SB + 'heap', SB + 'inner', SB + 'masked-spgemm-poly.h'],
     [('scratch sizing from scanned row maxima', SB + 'common.h scanInputs'), ('aligned buffers', SB + 'util.h')], ['sanitizer reports', 'results under different heap fill bytes'])
prop('C10', 'Baseline masked products agree with the definition',
     'The older masked multiplications kept as baselines (dense accumulator, dot product, hash with mask, heap and mask-compressed over rows, and multiply-then-intersect) return, for every valid A, B and M of their domain, exactly the masked product under the given operations.',
     ['inputs', 'configurations'], 'all sorted operands with at least one row, semirings whose sums can start from zero where the algorithm starts from zero, thread counts',
     NOT_TESTED + 'Several of these variants read the wrong operand or ran past an empty mask row and no test calls them.',
     ['spa_mult.h', 'inner_mult.h', 'mask_hash_mult.h', 'mask_hash.h', 'SPA.h', 'heap_mult_generic.h', 'hash_mult_hw.h', 'BIN.h'],
     [('masked row kernels', 'heap_mult_generic.h, mask_hash_mult.h, spa_mult.h, inner_mult.h'), ('flop binning', 'BIN.h')], ['returned matrix'])
prop('C11', 'Unmasked products agree with the definition',
     'Every unmasked sparse product offered (hash with sorted or unsorted output, heap over rows or columns, heap with linear search, outer-product with partial-result merging) returns exactly the product of its operands: one entry per position that receives a product, with the sum of its products (outer product: for blocks of at most 4096 rows and fewer than 2^20 columns, second variant: square operands below 65536, the ranges of their packed sort keys).',
     ['inputs', 'configurations'], 'all operands in the domain of each algorithm (index sizes, plus-times for the outer-product ones), thread counts',
     NOT_TESTED + 'Binning, blocking and radix sorting thresholds depend on sizes no test uses.',
     ['hash_mult_hw.h', 'heap_mult.h', 'heap_mult_generic.h', 'outer_mult.h', 'outer_mult2.h', 'BIN.h'],
     [('hash table per row sized from flops', 'hash_mult_hw.h, BIN.h'), ('k-way merge', 'heap_mult.h'), ('blocked outer product and merge', 'outer_mult.h')], ['returned matrix'])
prop('C12', 'Row accumulators behave as maps and return their memory clean',
     'Under any sequence of operations their callers may issue, the hash, one-array, two-array, mask-compressed, heap and legacy accumulators behave like an associative array (or priority queue): an entry is found exactly if it was inserted and not removed, with the last value stored, and gathering returns exactly the live entries. '
     'After a row is finished the accumulator is empty again, and the part of the buffer it hands over as clean really is clean, so the next user of the buffer starts empty.',
     ['histories', 'inputs'], 'all operation sequences over rows, resizes and buffer hand-overs between accumulators sharing memory, keys colliding in every way',
     'The tests insert a few hundred fixed keys; the state left behind between rows and between phases depends on the whole history.',
     [SB + 'hash/HashAccumulator.h', SB + 'msa/MaskedSparseAccumulator1A.h', SB + 'msa/MaskedSparseAccumulator2A.h', SB + 'mca/MaskCompressedAccumulator.h', SB + 'heap/Heap.h', SB + 'util.h', 'SPA.h', 'mask_hash.h'],
     [('open addressing with in-place clearing', SB + 'hash/HashAccumulator.h'), ('dirty-prefix protocol', SB + 'util.h splitMemory')], ['lookups, gathered entries, buffer bytes after release'])
prop('C13', 'Prefix sums are prefix sums for every length and team size',
     'For every non-empty array and every number of threads, the exclusive scan writes the sum of all earlier elements, the inclusive scan the sum up to and including each element, and the scan used by the baseline multiplications the exclusive sums including the final total; nothing outside the given arrays is read or written.',
     ['inputs', 'configurations', 'schedules'], 'all lengths from 1 up (including lengths below, at and above the parallel thresholds, and not divisible by the team size), all team sizes, 32- and 64-bit elements',
     'The tests try a few lengths and team sizes; off-by-one errors live at particular length/team remainders and thresholds.',
     [SB + 'scan.h', 'utility.h'], [('two-level parallel scan', SB + 'scan.h'), ('blocked scan of the baselines', 'utility.h scan')], ['output array'])
prop('C14', 'Work estimates are exact and the work split is a partition',
     'For all operands and team sizes, the operation counts computed before a product equal the true number of scalar products (only in rows with a non-empty mask when masked; list lengths for dot products), in total and per row. '
     'The row ranges handed to the threads are disjoint, in order and cover every row exactly once, none carries more than an even share plus its last row (and rounding); the per-range maxima and size bounds are exact, and the result assembled from the ranges\' pieces holds every row in its place.',
     ['inputs', 'configurations'], 'all operands, all work distributions (all zero, one heavy row, ties) and all team sizes',
     NOT_TESTED + 'Whether a split loses a row depends on how cumulative work falls on thread boundaries.',
     [SB + 'common.h', 'BIN.h', 'utility.h', 'heap_mult.h'],
     [('flop counting', SB + 'common.h'), ('binary search on cumulative work', SB + 'common.h distributeWork'), ('flop-balanced row bins', 'BIN.h')], ['counts and ranges'])
prop('C15', 'Conversions between row and column storage preserve the matrix',
     'Converting any matrix from row to column compression or back, transposing it (by reinterpretation or by any of the counting transposes), and converting to and from 1-based indexing keep exactly the same set of (row, column, value) entries, for every shape and sparsity; round trips are the identity and converted rows or columns come out sorted where the counting construction implies it.',
     ['inputs', 'configurations'], 'all matrices including rectangular, empty, with empty rows or columns, unsorted rows; all thread counts of the parallel transposes',
     'No test covers a conversion.',
     ['CSR.h', 'CSC.h', 'util/transpose.h', 'utility.h'], [('counting construction', 'CSR.h, CSC.h converting constructors'), ('parallel transposes', 'util/transpose.h')], ['entries of the converted matrix'])
prop('C16', 'Matrices built from entry lists contain exactly those entries',
     'Building a matrix from triples, from arrays or from an edge list, copying it, assigning it and clearing it yields exactly the listed entries in their rows or columns; where duplicates are merged, each coordinate appears once with the given combination of its values, and the triple utilities sort by the stated key and drop exactly the duplicates.',
     ['inputs', 'histories'], 'all triple lists (any order, duplicates, empty rows or columns), all shapes; self-assignment and assignment over existing content',
     'The triple tests use short fixed lists; the constructors are untested.',
     ['CSC.h', 'CSR.h', 'Triple.h', 'util/triple-util.h', 'utility.h'], [('counting construction from triples', 'CSC.h, CSR.h'), ('merge of duplicates', 'CSC.h MergeDuplicates, util/triple-util.h')], ['entries of the built matrix'])
prop('C17', 'Row and column operations do what they say',
     'Sorting or shuffling ids inside rows or columns permutes each row\'s (index, value) pairs without losing or mixing any; intersection keeps exactly the common positions; element sums, comparison and sub-matrix selection return the true sum, equality, and selected entries; a selection reaching beyond the matrix ends the program.',
     ['inputs'], 'all matrices, including unsorted, empty, with values that do not fit the index type',
     'No test covers them.', ['CSR.h', 'CSC.h', 'utility.h'],
     [('per-row sort and shuffle', 'CSR.h, CSC.h sortIds/shuffleIds'), ('intersection', 'CSC.h/CSR.h'), ('sub-matrix selection', 'CSC.h SpRef')], ['entries after the operation'])
prop('C18', 'Matrix files are read faithfully',
     'Reading a coordinate text file (general or symmetric; with or without comment lines, whatever they say and however long; words separated by any blanks, blank lines; pattern, integer or real values; any entry order) or a binary file yields a matrix of the stated shape with exactly the entries written in it, at zero-based positions and with their values, symmetric files mirrored across the diagonal. '
     'The options of the triple and GraphBLAS readers do just what they say: dropping the diagonal, random values from 7 to 16 that agree on mirrored entries, and symmetrising (the matrix plus its transpose). A binary file that is missing, too short or has an empty dimension is reported with -1.',
     ['inputs'], 'all well-formed files of the accepted formats (one space between fields, lines under 256 characters, one entry per line), all index and value types that can represent the contents',
     'No test reads a file.', ['IO.h', 'CSC.h', 'CSR.h', 'grb_util.h'], [('readers', 'IO.h ReadASCII, ReadASCII_Triples, ReadBinary; CSR.h CSR(filename); grb_util.h read_grb_mtx')], ['entries of the matrix read'])
prop('C19', 'Exchange with GraphBLAS preserves the matrix',
     'Exporting a row- or column-compressed matrix to GraphBLAS and importing it back, by copy or by handing over the storage, preserves shape and every (row, column, value) entry for every supported value type; a copied source stays usable and unchanged, a handed-over one gives up its storage. '
     'The GraphBLAS helpers do what they say: building from triples, conversion to column format (keeping the global format), setting an element, strictly lower triangle, relabelling vertices by decreasing degree (an isomorphic matrix), and the algebraic objects returned for each type.',
     ['inputs', 'histories'], 'all shapes (including rectangular and empty) and patterns, all supported types, copy and hand-over, both directions, zero- and one-based sources, iso-valued or not',
     'No test covers it.', ['grb_util.h', 'CSR.h', 'CSC.h'], [('import/export', 'CSR.h, CSC.h get_grb_mat*, constructors'), ('typed wrappers and helpers', 'grb_util.h')], ['GraphBLAS matrix entries', 'matrix after import'])
prop('C20', 'Triangle counting counts triangles',
     'For every undirected graph given as a coordinate file (symmetric or listing each edge once or twice, with or without self loops and values), both triangle-counting programs, TriCntAll and TriCntAllGrb, report for every algorithm they offer exactly the number of triangles of the graph.',
     ['inputs', 'configurations'], 'all graph files, all modes of both programs, repetitions and thread counts',
     'The benchmark programs are built but never run by the tests.', ['benchmarks/TriCntAll.cpp', 'benchmarks/TriCntAllGrb.cpp', 'CSR.h', 'CSC.h', SB + 'masked-spgemm.h', 'IO.h'],
     [('L*L masked by L, summed', 'benchmarks/TriCntAll.cpp')], ['reported counts'])
prop('C21', 'k-truss computation returns the k-truss',
     'For every undirected graph given as a coordinate file and every k from 3, the k-truss program ends, for every algorithm it offers, with exactly the edges of the maximal subgraph in which every edge lies in at least k-2 triangles (counted in both directions).',
     ['inputs', 'configurations'], 'all graphs, all k from 3, all algorithms and thread counts',
     'The benchmark programs are built but never run by the tests.', ['benchmarks/KTrussAllGrb.cpp', 'CSR.h', 'grb_util.h', SB + 'masked-spgemm.h'],
     [('repeated masked squaring and filtering', 'benchmarks/KTrussAllGrb.cpp')], ['reported edge counts'])
prop('C22', 'Batched betweenness centrality is correct',
     'For every directed or undirected unweighted graph and every batch of sources, the batched betweenness computation gives every vertex, for every pair of masked products it is run with, the sum over the sources of the dependencies defined by shortest-path counts (within float accuracy). '
     'The program, run with every vertex as a source, reports the sum of these centralities for every algorithm it offers.',
     ['inputs', 'configurations'], 'all graphs, batch sizes, algorithms and thread counts',
     'The benchmark programs are built but never run by the tests.', ['benchmarks/BCAllGrb.cpp', 'CSR.h', 'grb_util.h', SB + 'masked-spgemm.h'],
     [('forward sweep with complemented mask, backward sweep with mask', 'benchmarks/BCAllGrb.cpp')], ['centrality vector'])
prop('C23', 'Bundled sorts sort',
     'Every bundled sorting routine (both merge-run sorts, pattern-defeating quicksort plain and branchless, both copies of vergesort, radix, linear and counting sort) returns an ordered permutation of its input for every input and strict weak order, touches nothing outside its ranges and never reads an element it has moved from; the merge-run, radix and counting sorts also keep the order of equivalent elements. '
     'The comparison sorts over random access need O(n log n) comparisons on every input, adversarial ones included.',
     ['inputs'], 'all arrays: any length, runs ascending/descending, few distinct keys, sawtooth, organ pipe, adversarial patterns; default and custom comparators, all container kinds the routine takes, move-only and large elements, all radix key types (plain char as ASCII, floats without NaN and negative zero)',
     'The vendored tests sort random and a few structured arrays; run-merging errors need specific run-length sequences.',
     ['cpp-TimSort/include/gfx/timsort.hpp', 'timsort-cpp/include/tim', 'pdqsort/pdqsort.h', 'vergesort/vergesort.h', 'vergesort/include/vergesort', 'radix_sort/radix_sort.hpp'], [('run detection and galloping merges', 'cpp-TimSort, timsort-cpp'), ('partitioning with fallback', 'pdqsort'), ('digit passes', 'radix_sort')], ['sorted array'])
prop('C24', 'Graph generators honour their parameters',
     'The R-MAT generators (PaRMAT in memory, to a file or sorted, and GTgraph R-MAT, through their functions and their command lines) produce exactly the requested number of edges with endpoints inside the vertex range and honour the requested options: no self loops, no duplicate edges, no edge in both directions, sorted output, weights in range, requested probabilities, every vertex reachable, for every number of workers and memory limit; they always end. '
     'The sequential generator gives the same graph every time, whether kept in memory, sorted (stable by counting, any order of equals by heap), or written to a file; its random streams are reproducible and can be packed and resumed. The worker queue hands out every item once, in order, without lost wake-ups, and the capacity gate never lets more in than its capacity. A command line a program cannot follow ends it in failure and leaves no edges.',
     ['inputs', 'configurations'], 'all vertex and edge counts, probabilities, options and worker counts in the supported range',
     'No test runs a generator.', ['PaRMAT/src', 'GTgraph/R-MAT'], [('square splitting and edge filling', 'PaRMAT/src')], ['generated edge list'])
prop('C25', 'Memory and container utilities keep their contracts',
     'Aligned buffers are aligned, large enough, disjoint while live and keep their content until released. Splitting scratch memory into a dirty and a clean region yields regions that do not overlap, lie inside the buffer and are aligned, the second one entirely zero, and the dirty prefix it reports never leaves non-zero bytes behind it, for every admissible size and dirty prefix. '
     'Bit maps return exactly the bits set, by one thread or by many at once, beyond 2^32 positions too; scanning for the next set bit, copies and assignments agree with that. Cutting a matrix into row pieces puts every entry into exactly one piece. The other helpers (two-dimensional arrays, deleters, power-of-two arithmetic, rounding, tolerant equality, initialised allocation, heap entries) do what their names say.',
     ['inputs', 'histories'], 'all sizes, alignments, dirty prefixes and operation sequences',
     'The split test enumerates a few configurations.', [SB + 'util.h', 'BitMap.h', 'utility.h', 'Deleter.h', 'SplitTuples.h'], [('over-allocation with stored shift', SB + 'util.h'), ('lazy cleaning', SB + 'util.h splitMemory')], ['addresses and bytes'])
prop('C26', 'Masked products obey the algebra of masks and products',
     'For all operands, a product masked by M and the same product masked by the complement of M never overlap and together equal the unmasked product; masks split, restrict and compose accordingly, permuting, transposing, stacking or scaling operands transforms the result accordingly, and all algorithms agree with each other.',
     ['inputs', 'configurations'], 'all operands and all algorithm pairs, including sizes too large for an exhaustive reference',
     NOT_TESTED, [SB + 'masked-spgemm.h', SB + 'masked-spgemm-inner.h', 'hash_mult_hw.h'], [('one driver, many row algorithms', SB + 'masked-spgemm.h')], ['returned matrices'])
prop('C27', 'Multiplications release all temporary memory',
     'After a masked product returns, the only memory it still holds is the storage of its result; repeating products, in any order and with any algorithm, output reuse or aliasing, does not grow the memory held once all matrices are destroyed.',
     ['histories', 'inputs'], 'all sequences of products over all algorithms, thread counts and output reuse',
     'Tests never measure memory.', [SB + 'masked-spgemm.h', SB + 'masked-spgemm-inner.h', SB + 'masked-spgemm-poly.h', 'CSR.h', SB + 'util.h'], [('explicit frees at the end of each driver', SB + 'masked-spgemm.h')], ['bytes allocated minus bytes released'])
prop('C28', 'The random and SSCA2 graph generators honour their parameters',
     'For every parameter setting, the G(n,p), G(n,m) and SSCA2 generators produce edges between existing vertices with weights in range, without self loops unless asked for, in the number, density, clique structure and multiplicity the parameters describe; the same parameters give the same graph in memory, sorted, in a file or from the program, and files announce what they hold. A command line a program cannot follow ends it in failure and leaves no graph.',
     ['inputs', 'configurations'], 'all vertex counts, probabilities, clique sizes, weights, sort and storage options',
     NOT_TESTED, ['GTgraph/random/graph.c', 'GTgraph/random/utils.c', 'GTgraph/random/init.c', 'GTgraph/SSCA2/graph.c', 'GTgraph/SSCA2/utils.c', 'GTgraph/SSCA2/init.c'], [('estimated edge counts', 'GTgraph/random/graph.c'), ('clusters cut at the last vertex', 'GTgraph/SSCA2/graph.c')], ['edge lists, files and logs'])
prop('C29', 'The multiplication programs report the product they were asked for',
     'For every pair of matrices and mask given as text or binary files, or generated by the program, and every thread count and blocking, the sample and benchmark multiplication programs finish and report the operation count, number of entries, ratio, values, checksum and thread count of the (masked, complemented, blocked) product of exactly those matrices, once per algorithm and thread count; the matrix files they write hold the matrices they announce.',
     ['inputs', 'configurations'], 'all matrix files, generator parameters, thread counts, repetitions and blockings of fifteen programs',
     NOT_TESTED, ['sample/sample_common.hpp', 'sample/HashSpGEMM.cpp', 'sample/HeapSpGEMM.cpp', 'sample/InnerSpGEMM.cpp', 'sample/MaskedHashSpGEMM.cpp', 'sample/MaskedSPASpGEMM.cpp', 'sample/OuterSpGEMM.cpp', 'sample/NUMA-aware.cpp', 'sample/GenMatrices.cpp', 'sample/all_parallel_tc.cpp', 'sample/blocked_parallel_tc.cpp', 'benchmarks/MaskedAllSpGEMM.cpp', 'benchmarks/ComplementMaskedSpGEMM.cpp', 'benchmarks/benchmarks-util.h'], [('operands chosen by the command line', 'sample/sample_common.hpp'), ('results reported per algorithm', 'benchmarks/benchmarks-util.h')], ['standard output and files of the programs'])
prop('C30', 'Random number streams are reproducible, resumable and distinct',
     'For every history of creating, drawing from, spawning, packing, unpacking and freeing random number streams of the five SPRNG generators, the numbers of a stream depend only on the generator, parameter, seed and stream identity, never on other streams: integers in [0,2^31), doubles in [0,1) and floats follow the published recurrence; a packed stream resumes exactly where it was packed; the streams of one family (all numbers of one total and everything spawned from them) are pairwise different sequences; the default stream and the Fortran and pointer-checked interfaces give the same numbers; invalid generators, stream numbers and foreign packed data are refused; a stream answers its own seed.',
     ['inputs', 'histories'], 'all generator types, parameters, seeds, stream numbers and histories of operations on streams',
     NOT_TESTED, ['GTgraph/sprng2.0-lite/src/sprng/sprng.c', 'GTgraph/sprng2.0-lite/src/lfg/lfg.c', 'GTgraph/sprng2.0-lite/src/lcg/lcg.c', 'GTgraph/sprng2.0-lite/src/lcg64/lcg64.c', 'GTgraph/sprng2.0-lite/src/cmrg/cmrg.c', 'GTgraph/sprng2.0-lite/src/mlfg/mlfg.c', 'GTgraph/sprng2.0-lite/src/primes_32.c', 'GTgraph/sprng2.0-lite/src/primes_64.c', 'GTgraph/sprng2.0-lite/src/store.c', 'GTgraph/sprng2.0-lite/src/checkid.c', 'GTgraph/sprng2.0-lite/src/simple_.h', 'GTgraph/sprng2.0-lite/src/fwrap_.h'], [('streams numbered by total and offset', 'GTgraph/sprng2.0-lite/src/lcg/lcg.c'), ('node numbers doubled on spawning', 'GTgraph/sprng2.0-lite/src/lfg/lfg.c')], ['numbers drawn, packed bytes, counts'])
prop('C31', 'Masked products do only the work the mask admits',
     'For every A, B, M, semiring and thread count, a masked product (row-by-row, pull-based, hybrid or complemented; one or two phases) calls the user\'s multiply at most once for each product whose position the mask admits, never for a product the mask rejects, and the user\'s add at most once less than the number of products summed into an entry; size passes call neither. '
     'The baselines that apply the mask after multiplying, and the unmasked products, call each at most once per product.',
     ['inputs', 'configurations'], 'all A, B, M, semirings, thread counts, as C01-C05',
     NOT_TESTED + 'Superfluous work leaves every result right, so only a count over all row and mask shapes shows it.',
     [SB + 'masked-spgemm.h', SB + 'msa', SB + 'hash', SB + 'mca', SB + 'heap', SB + 'inner', SB + 'masked-spgemm-inner.h', SB + 'masked-spgemm-poly.h'],
     [('products are formed lazily, when the mask admits their position', SB + '*/*Accumulator*.h insert, update'), ('size passes work on patterns', SB + '*/*Algorithm*.h symbolicRow')], ['calls of the multiply and add operators'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
