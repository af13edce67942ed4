import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,title
    P.append(d)
LBC=['src/lbc_csc.cpp','src/lbc_csc_dag.cpp','src/lbc_blocked.cpp','src/lbc_tree.cpp','src/lbc_utils.cpp']
INS=['utils/sparse_inspector.cpp','src/hdagg/hdagg.cpp']
SP=['utils/sparse_utilities.cpp']
EX=['example/sptrsv_src/executor.cpp','example/sptrsv_src/sptrsv.cpp']
GR=['src/group.cpp','src/group_utils.cpp']
IO=['utils/sparse_io.cpp']
T="The stable tests run one levelset-vs-serial comparison and two demos on small generated lower-triangular matrices in a serial build; "
p('P01','Analysing or solving never modifies the caller\'s input data',
 "Every scheduler, inspector, conversion and solver leaves the data it is given as input exactly as it found it: the graph or matrix pattern and values, the node costs, the elimination tree, and a schedule handed to a solver. Only the arguments documented as outputs (or as caller-provided scratch space) are written. A caller can therefore schedule, convert and solve repeatedly from the same objects.",
 ['inputs','histories'],'every input graph/matrix and every sequence of calls that reuses the same input objects',
 T+"they compare solutions, not inputs before and after, and call most entry points not at all.",
 LBC+INS+SP+EX+GR,[('coarsening inspectors','src/lbc_*.cpp get_coarse_*'),('level-set inspectors','utils/sparse_inspector.cpp build_levelSet_*'),('executors','example/sptrsv_src sptrsv_*'),('conversions','utils/sparse_utilities.cpp')])
p('P02','Results depend only on the arguments: deterministic and re-entrant',
 "Every scheduler, inspector, conversion and solver computes its results from its arguments alone: no clock, random source, environment variable, thread identity, memory address or hidden state kept between calls can influence them. Two calls with equal arguments give equal results, whatever was called before or runs concurrently on other data.",
 ['histories','inputs','schedules'],'every call history, and every concurrent use on distinct data',
 T+"each entry point is called once per process, so state carried between calls or an address-dependent order never shows.",
 LBC+INS+SP+EX+GR,[('all library entry points','include/aggregation/*.h'),('file-scope variables','src/lbc_csc.cpp elap, elap_trans')])
p('P03','Parallel loops write shared data without races',
 "In a multi-threaded build, whenever two iterations of a parallel loop can run at the same time, neither writes a memory location that the other reads or writes, unless the access is atomic, in a critical section or a reduction, or all the conflicting writes store one and the same constant (a flag). This holds for every thread count and every interleaving.",
 ['schedules','inputs','configurations'],'every interleaving and thread count, for every schedule that is a partition of the nodes',
 "The tests are built without OpenMP, so no parallel region ever runs with more than one thread.",
 EX+['src/lbc_csc_dag.cpp','src/hdagg/hdagg.cpp'],[('parallel executors','example/sptrsv_src/*.cpp #pragma omp'),('parallel connected components','src/lbc_csc_dag.cpp parallel_cc, make_partitions_parallel'),('parallel HDagg phases','src/hdagg/hdagg.cpp #pragma omp')])
p('P04','A level starts only after the previous level is complete, in schedule order',
 "Every scheduled triangular solver processes levels one after another in increasing order, with every thread finished with one level before any thread starts the next. Inside a partition the rows (or groups of rows) are processed sequentially, in the order in which the schedule lists them.",
 ['schedules','inputs','configurations'],'every schedule, every thread count and interleaving',
 "The tests run serially, where the missing barrier, a parallelised level loop or a reversed inner loop on independent rows cannot be seen.",
 EX,[('level loop / partition loop nests','example/sptrsv_src/executor.cpp, example/sptrsv_src/sptrsv.cpp')])
p('P05','Every acquired buffer or file is released exactly once, in the matching way',
 "On every normal path through a library routine or through an object's lifetime, each block of heap memory and each file it opens is either handed over to the caller or released exactly once, using the release operation that matches the acquisition. No block is used after its release.",
 ['inputs','histories','fault_sequences'],'every return path (including early and error returns) of every routine that allocates or opens',
 T+"no leak checker runs, and early/error exits are not taken.",
 LBC+INS+SP+GR+IO+['utils/lfactor_creation.cpp','utils/metis_interface.cpp','utils/BCSCMatrix.cpp','include/aggregation/def.h'],[('work buffers of each inspector','new[]/malloc in src, utils'),('owning classes','include/aggregation/def.h, group.h')])
p('P06','Every result is defined whenever a routine returns normally',
 "When a scheduler, inspector or conversion returns normally, every output it advertises has been given a value: scalar outputs (counts of levels, partitions, groups), returned arrays and their boundary entries, and every field of a returned matrix object. This holds on early exits and for degenerate inputs as much as on the main path.",
 ['inputs'],'every input including diagonal, single-node and single-level graphs, and every return path',
 T+"they never look at most outputs, and never take the early-exit paths.",
 LBC+INS+SP+GR,[('output parameters','include/aggregation/lbc.h, hdagg.h, group.h, sparse_inspector.h'),('returned matrix objects','utils/sparse_utilities.cpp, include/aggregation/def.h constructors')])
p('P07','Nothing is read before it has been initialised',
 "No routine's behaviour depends on memory that was never given a value: every local variable, counter array, marker array and object field is initialised before it is read, on every path. Work arrays used as counters, flags or accumulators start from their defined initial value on every call.",
 ['inputs','histories'],'every input and path; every content that freshly allocated memory may have',
 T+"fresh heap pages are usually zero, so a missing initialisation mostly behaves well in a short test process.",
 LBC+INS+SP+GR+EX+IO,[('counter and marker arrays','new int[n]() / memset in inspectors'),('object constructors','include/aggregation/def.h')])
p('P08','Accesses stay inside the extents of the arrays they use',
 "For every valid input, each array a routine allocates is large enough for every index the routine uses on it, including the closing entry of pointer arrays, and loops over matrix arrays stop at the array's documented length. This includes the smallest inputs, diagonal inputs and schedules with as many partitions as nodes.",
 ['inputs'],'every valid input size and structure, including extreme ones',
 T+"an overrun by one element usually lands in allocator padding and is invisible to them.",
 LBC+INS+SP+GR+EX,[('pointer arrays of length n+1','finaLevelPtr/finalPartPtr, levelPtr, Ap'),('work arrays','src, utils')])
p('P09','Every triangular solver performs the exact forward-substitution row update',
 "Each lower-triangular solver - serial, level-set, load-balanced, grouped and hierarchical, parallel or sequential - applies to each row it processes the same update: it subtracts from the row's right-hand side the product of every stored off-diagonal entry with the already solved unknown of that entry's column, and then divides by the stored diagonal entry, once. It performs no other update of the unknowns.",
 ['inputs','configurations'],'every matrix, right-hand side and schedule, for every solver variant',
 "Only two or three of the solver variants are run by the tests, and only on matrices whose values make several wrong updates equal to the right one.",
 EX,[('row kernels','example/sptrsv_src/executor.cpp, example/sptrsv_src/sptrsv.cpp')])
p('P10','Every solver processes each scheduled row exactly once',
 "A solver driven by a schedule visits all levels, all partitions of each level, all groups or supernodes of each partition and all rows of each of those, each exactly once, and nothing outside the schedule. A solver without a schedule visits every row of the matrix once, in order.",
 ['inputs'],'every schedule, including ones with empty levels, single-row partitions and one level',
 T+"most variants are never executed, and boundary levels and partitions of unusual shape do not occur.",
 EX,[('schedule loop nests','example/sptrsv_src/executor.cpp, example/sptrsv_src/sptrsv.cpp')])
p('P11','Graph analyses examine every edge of every node they process',
 "Wherever a scheduler or inspector counts, propagates or removes dependences, it goes through the complete adjacency list of the node in hand, from its first to its last stored edge. Only an entry that is the node's own diagonal may be skipped.",
 ['inputs'],'every graph, including nodes whose only dependence is their first or their last stored edge',
 T+"their matrices have redundant dependences, so an analysis that ignores the first or last edge of a node still produces a working schedule.",
 LBC+INS+GR+SP,[('adjacency traversals','loops over lC[k]..lC[k+1] in src, utils')])
p('P12','Level sets place a node only after all of its predecessors',
 "Every level-set inspector puts a node into a level only when all of its incoming dependences come from nodes already placed in earlier levels, places it exactly once, and records the end of each level after all of the level's nodes are placed. A dependence count goes down once, and only once, for each edge leaving a placed node.",
 ['inputs'],'every acyclic dependence graph',
 T+"their handful of graphs exercises two of the implementations.",
 INS,[('level-set builders','utils/sparse_inspector.cpp build_levelSet_CSC/_Queue/_BCSC, level_set_bn, level_set_multi_graphs; src/hdagg/hdagg.cpp build_levelSet_CSC, GLC')])
p('P13','Output lists are filled densely: no gap, no overwritten entry',
 "Whenever a routine emits nodes, entries or edges into an output array through a running position, the position moves forward by exactly one for each element emitted and stays put when nothing is emitted. So no output slot is left unfilled, filled twice or counted without being filled.",
 ['inputs'],'every input and every pattern of conditional emission',
 T+"the conditional emission patterns they reach are few and their results are mostly not inspected.",
 LBC+INS+SP+GR,[('cursor-style emission','levelSet[cur++], finalNodePtr[base+cnt], Ci[p++]')])
p('P14','Segment pointer arrays start at zero and chain without gaps',
 "Every compressed pointer array a routine produces - levels, partitions, groups, supernodes or matrix columns and rows - has its first entry set to zero and each further entry set from its predecessor plus the number of elements emitted into that segment (or from the running emission position), so that consecutive segments tile the data exactly.",
 ['inputs'],'every input and number of segments, including empty segments',
 T+"they only see regular, non-empty segments on freshly zeroed memory.",
 LBC+INS+SP+GR,[('pointer array producers','finaLevelPtr/finalPartPtr, levelPtr, groupPtr, Cp')])
p('P15','Coarsened graphs keep every dependence between different groups',
 "When nodes are merged into groups or supernodes, the resulting group graph has, for each edge between nodes of different groups, the edge between their groups, mapped through the same node-to-group assignment at both ends. Only edges inside one group and duplicates of an edge already present may be left out.",
 ['inputs'],'every graph and every grouping of its nodes',
 T+"only one grouping is built by the demos and its graph is not compared with the original one.",
 GR+['src/hdagg/hdagg.cpp','utils/sparse_utilities.cpp'],[('group DAG builders','src/group_utils.cpp fs_*_inspector_*, Group_DAG; src/hdagg/hdagg.cpp buildGroupDAG, computePostOrderAndGroup')])
p('P16','Reused marker workspaces are restored before their next use',
 "A marker, visited or flag array that is used for successive rounds (one per level partition, per node or per call) is put back to its neutral state for exactly the elements that were marked before the next round looks at it. No round sees marks left by an earlier one, other than those that deliberately record finished work. The same goes for counts and costs that are added up anew in each round: they start at zero in every round.",
 ['histories','inputs'],'every number of rounds and every marking pattern',
 T+"on small inputs there are only one or two rounds, so stale marks do not matter.",
 LBC+SP+['src/hdagg/hdagg.cpp'],[('isMarked/visited/isUniq','src/lbc_*.cpp'),('make_unique workspace','src/lbc_utils.cpp')])
p('P17','Conversions move each value together with its index',
 "In every conversion, transposition, extraction, merge or copy of a sparse matrix, the value stored at a position of the result is the value of the same source entry whose row or column index is stored there. An entry's value is never dropped, taken from another entry or left unset while the matrix carries values.",
 ['inputs'],'every matrix pattern and value assignment',
 T+"most conversions are not run by them, and symmetric test data hides swapped values.",
 SP+['utils/sparse_io.cpp','utils/BCSCMatrix.cpp'],[('conversions','csc_to_csr, csr_to_csc, transpose_general, transpose_symmetric, make_half, make_full, copy_sparse, compress_triplets_to_csc')])
p('P18','Matrix results carry the right shape, size and symmetry description',
 "A matrix object returned by a conversion, transposition, copy or reader has the number of rows, columns and stored entries and the symmetry description that its operation implies: copies keep them, transpositions and format changes exchange or keep rows and columns as required, extractions of a triangle keep the square shape. This includes rectangular matrices.",
 ['inputs'],'every matrix shape, including rectangular ones, and each symmetry type',
 T+"all their matrices are square, so exchanged dimensions are invisible.",
 SP+['utils/sparse_io.cpp','include/aggregation/def.h'],[('result construction','new CSC/CSR(...) in utils')])
p('P19','Matrix files are validated before their contents are used',
 "Numbers read from a matrix file are used as sizes, positions or indices only after the read is known to have succeeded and the number has been checked against the range it must lie in; otherwise the reader reports a matrix error. No file content, truncated or malicious, makes a reader use an undefined number or touch memory outside the matrix.",
 ['inputs','fault_sequences'],'every file content, including truncated, malformed and out-of-range ones',
 T+"they read no file at all.",
 IO+['utils/external/mmio.cpp'],[('readers','read_mtx, read_header, read_triplets_real, compress_triplets_to_csc, read_mtx_csc_real, read_mtx_array_real')])
p('P20','Failures are reported to the caller, never ignored and never fatal',
 "When an operation a library routine relies on reports failure - a file that does not open, a reordering or partitioning library that returns an error, an inspector that returns its error code - the routine does not go on as if it had succeeded; it reports the failure through its return value or an exception. No library routine ends the process.",
 ['fault_sequences','inputs'],'every failure of a called operation that can report one',
 T+"no operation fails in them.",
 IO+['utils/metis_interface.cpp','utils/lfactor_creation.cpp','utils/sparse_utilities.cpp','src/lbc_csc.cpp'],[('fallible calls','fopen, fscanf, mm_read_*, METIS_*, amd_order, build_levelSet_*')])
p('P21','Value arrays that may be absent are never dereferenced unguarded',
 "Routines that accept a matrix without values, or an optional array argument, work from the pattern alone when it is absent: the missing array is never read or written, and no other behaviour changes. A pattern-only result never pretends to have values.",
 ['inputs'],'every combination of present and absent optional arrays',
 T+"all their matrices carry values and pass every optional argument the same way.",
 SP+['utils/sparse_inspector.cpp','utils/sparse_io.cpp','src/lbc_utils.cpp','include/aggregation/def.h'],[('optional arrays','x of pattern matrices, pinv, node2Level, slackGroups')])
p('P22','Serial and multi-threaded configurations run the same algorithm',
 "Building the library with or without multi-threading support yields the same entry points, and a result never depends on which configuration was chosen: the code selected only in one configuration merely queries the number or identity of threads, and the stand-in used in the serial configuration is a valid thread number and count. Per-thread slots are sized by the number of threads that use them.",
 ['configurations'],'both configurations and every thread count',
 "The tests exist in one configuration only and skip the routines that use per-thread slots.",
 ['src/hdagg/hdagg.cpp','example/sptrsv_src/executor.cpp','example/sptrsv_src/sptrsv.cpp','src/lbc_csc_dag.cpp'],[('conditional thread queries','#ifdef ENABLE_OPENMP blocks')])
p('P23','Every iteration of a data-driven loop makes progress',
 "Each loop that runs until a condition over its data is met changes, on every path through its body, at least one of the quantities the condition looks at. So traversals, fixed-point iterations and work-list loops cannot get stuck repeating the same state on any valid input.",
 ['inputs'],'every input and every path through a loop body',
 T+"a path through a loop body that forgets to advance is only taken by particular graph shapes.",
 LBC+INS+SP+GR+EX,[('while loops','level-set construction, DFS/BFS, post-order, bin packing')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
