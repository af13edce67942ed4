#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': ('interprocedural write-effect analysis on LLVM IR against a table of documented outputs', 'Sound over the analysed IR up to the pointer abstraction (access paths); external calls by summary.'),
 'P02': ('interprocedural effect query: hidden inputs (mutable globals, clocks, random sources, thread identity) on LLVM IR', 'Address-dependent ordering is recognised only through pointer comparisons/conversions and pointer-keyed containers.'),
 'P03': ('ownership and effect analysis of every OpenMP region on LLVM IR', 'Assumes schedules and permutations used as index maps hold distinct entries; solver dependence reads assumed scheduled.'),
 'P05': ('path-sensitive ownership typestate (allocate/own/release) on LLVM IR plus class field ownership', 'Heap identity by allocation site and access path; stores into caller-visible memory count as transfer.'),
 'P09': ('canonical-form dataflow rule for the row update on SSA form of every solver', 'Covers the solvers in example/sptrsv_src; floating-point reassociation accepted.'),
 'P13': ('path-sensitive counter/cursor dataflow (phi webs) over output-list stores on SSA form', 'Cursor identity by phi web or counter cell; content of the list is not judged.'),
 'P14': ('def-use rule on segment-pointer stores: chaining, start/end of recorded positions, closing and first entries', 'Covers the pointer arrays the routines build themselves.'),
 'P15': ('backward slices of every edge added to a group graph: neighbour segment, node-to-group map at both ends, the branches that can skip the edge, what shortens or copies the lists', 'Covers the routines agg/groups.txt lists; that the caller passes consistent group arrays is assumed.'),
 'P16': ('dataflow over the compiler IR: each constant mark matched with the reset that undoes it, paths from a mark to the next round, accumulators under restarting counters', 'marks no reset matches count as finished work (agg/rounds.txt lists what the routines restore); timestamps are not checked'),
 'P17': ('def-use pairing of value and index stores/loads (same SSA position, same path) in conversion loops', 'Companion arrays are the x and i fields of one matrix object or arrays used in the same loop.'),
 'P19': ('path exploration after every file read with the read value fixed to boundary values; text-conversion width vs buffer extent', 'Lossy text formats, and validity of the numeric content beyond index ranges and counts, are outside the rule.'),
 'P20': ('exploration of all control-flow paths after each fallible call with its result fixed to each failure value (result-code dataflow), plus call-graph rules for process-ending calls and exceptions in parallel regions', 'Reading values that are out of range is judged by P19. csv_utils.h and the example main programs are not part of the library build and are not examined.'),
 'P18': ('reaching-definition analysis of matrix object fields and evaluation of shape/symmetry/entry-count expressions on SSA form', 'Element counts are compared through the counting loops and closed forms; contents of the arrays are judged by P13, P14, P17.'),
 'P11': ('loop-range analysis of every adjacency-list loop on SSA form (segment bounds, step, exits, filters)', 'Graphs that keep the diagonal at one end of a list are listed per routine; marker-based filters are not judged here.'),
 'P12': ('counter/threshold/order dataflow rule for dependence counters and level rounds on SSA form', 'Counters recognised by their use; acyclic inputs assumed.'),
 'P23': ('path exploration of every loop body with the values the exit tests look at carried as offsets; consumption analysis of work-list additions', 'That links followed (parents, next pointers) do not form a circle is the structure\'s affair (P13, P10 judge the graphs built); a change of a looked-at quantity is taken for progress unless it is a step away from the exit.'),
 'P21': ('exploration of all control-flow paths with each optional array absent (null-pointer dataflow through calls, fields and constructors), plus guard and index-map rules over the IR', 'Every routine taking a matrix is explored with a pattern matrix; routines that need values are listed in agg/values.txt with their reason.'),
 'P22': ('source lint of threading-conditional regions plus symbol and thread-number dataflow queries on both compiled configurations', 'Result dependence on the team size is judged by P02.'),
 'P04': ('loop-nest and barrier placement rule over the outlined parallel regions and the serial loop nests', 'Covers the solvers in example/sptrsv_src.'),
 'P06': ('must-define path analysis: result parameters, returned arrays (symbolic join of writing loops), output vectors, fall-through ends', 'Serial configuration; returns of failure codes excluded; permutation/position-filled arrays rely on P12/P13/P18.'),
 'P08': ('symbolic extent analysis on SSA form: allocation sizes, class contracts and documented parameter sizes against the affine ranges of counted loops, refined by dominating conditions, carried through call sites; sizing rule for boundary arrays', 'Indices read from arrays are assumed within their documented ranges; accesses whose size cannot be compared symbolically are counted and left undecided.'),
 'P07': ('definite-initialisation dataflow on SSA form: undefined values, memory variables, heap arrays with interprocedural need/provide summaries, constructor fields', 'Serial configuration; elements are tracked per array with a distinction between complete and partial initialisation.'),
 'P10': ('loop-range/dominance rule over the solver loop nests on SSA form', 'Covers the solvers in example/sptrsv_src.'),
}
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
have = [i for i in ids if i in T]
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0,\'agg\'); import build; build.plugin()"',
 checks=[dict(property=i, quick_cmd='python3 agg/run.py ' + i, thorough_cmd='python3 agg/run.py ' + i, technique=T[i][0], level='other', level_note='Static analysis of every function of the shipped libraries, headers and solver sources in the serial and/or OpenMP configuration. ' + T[i][1]) for i in have],
 not_applicable=[dict(property=i, reason=NA.get(i, 'Check not built yet.')) for i in ids if i not in T])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print('claimed', have)
