"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
S = 'dwave/optimization/src/'
I = 'dwave/optimization/include/dwave-optimization/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ['values, shape and recorded updates of the arrays of a model'], hook_needed=None)))


ALLN = [S + 'nodes/_state.hpp', S + 'nodes/mathematical.cpp', S + 'nodes/indexing.cpp', S + 'nodes/manipulation.cpp', S + 'nodes/flow.cpp', S + 'nodes/collections.cpp', S + 'nodes/numbers.cpp', S + 'nodes/quadratic_model.cpp']
p('R01', 'Reverting restores exactly the last committed state',
  'Whatever moves were made on the decisions of a model since the last commit, and however they were propagated, reverting the affected nodes restores the value, the size and the shape of every array of the model to what they were at the last commit. No recorded updates are left afterwards, and further moves behave as if the reverted ones had never been made.',
  ['histories', 'inputs'], 'every model, every committed state, every sequence of moves since, including sequences that grow and shrink arrays or touch an element repeatedly',
  'The tests revert a handful of hand-written move sequences on small models; a revert that is wrong only for a repeated element, a shrink followed by a growth, or one operand order passes them.',
  ALLN, [('revert', S + 'nodes/_state.hpp'), ('revert', S + 'nodes/collections.cpp'), ('revert', S + 'graph.cpp')])
p('R02', 'Committing keeps the current state and leaves nothing pending',
  'Committing changes no value, size or shape of any array. Afterwards no recorded updates and no size change are reported until the next move, and a later revert returns to this committed state and not to an earlier one.',
  ['histories', 'inputs'], 'every model, every history of moves, commits and reverts',
  'A commit that forgets one piece of bookkeeping (a size, a cached value, a secondary list of updates) only shows after a particular later revert.',
  ALLN, [('commit', S + 'nodes/_state.hpp'), ('commit', S + 'nodes/collections.cpp')])
p('R03', 'Recorded updates describe exactly what changed since the last commit',
  'For every array of a model, after any moves and propagation, applying its recorded updates in order to the last committed values gives exactly the current values: each update names the value it replaces, and each placement or removal happens at the end of the array. The reported size change is the difference between the current and the committed size.',
  ['histories', 'inputs'], 'every model, every history of moves since the last commit',
  'Downstream nodes consume the updates of their operands, so a wrong old value or a missing update shows only in particular compositions of nodes and particular orders of moves.',
  ALLN + [I + 'array.hpp'], [('set, assign, update, emplace_back, pop_back', S + 'nodes/_state.hpp'), ('propagate', S + 'nodes')])
p('R04', 'Incremental evaluation equals evaluation from scratch',
  'After any moves on the decisions, propagating them through the affected nodes leaves every array of the model with the same values and shape as initialising a fresh state from the same decision values. This holds for every supported way of combining the nodes and for any number of propagations and commits or reverts in between.',
  ['histories', 'inputs', 'programs'], 'every model that can be built from the supported nodes, every initial state, every sequence of moves',
  'Each node has separate code for evaluation and for propagation; the tests compare them for a few models and a few moves only.',
  ALLN + [S + 'graph.cpp'], [('initialize_state / propagate', S + 'nodes')])
p('M01', 'Element-wise operations compute their mathematical function',
  'Every element-wise operation (sum, difference, product, quotient, modulus, minimum, maximum, comparisons, logical operations, absolute value, negation, square, square root, rounding, selection by condition, and the n-ary sum, product, minimum and maximum) has at each position the result of that operation on the operand elements at the same position. Operands of size one are used for every position, and the shape is that of the broadcast operands.',
  ['inputs', 'programs', 'histories'], 'all operand values, shapes and updates of the operands',
  'The tests check a few shapes and values per operation.',
  [S + 'nodes/mathematical.cpp', S + 'nodes/flow.cpp', I + 'nodes/mathematical.hpp'], [('BinaryOpNode, NaryOpNode, UnaryOpNode, WhereNode', S + 'nodes')])
p('M02', 'Reductions compute the fold of all their elements',
  'The sum, product, minimum, maximum, all and any of an array, with or without an initial value, equal the fold of the operation over all current elements of the array. A reduction along one axis equals that fold for each position of the remaining axes.',
  ['inputs', 'histories'], 'all arrays, including empty and growing ones, and all sequences of updates to them',
  'Incremental reductions keep summaries (counts of zeros, lazily recomputed extremes) whose errors need particular sequences of updates.',
  [S + 'nodes/mathematical.cpp'], [('ReduceNode, PartialReduceNode', S + 'nodes/mathematical.cpp')])
p('M03', 'Indexing, reshaping and concatenation select the right elements',
  'Basic indexing (integers and slices), advanced indexing (with index arrays and full slices), permutation, reshaping, concatenation and size give the elements, in the order and with the shape, that the same expression gives in NumPy. Index arrays that could leave the indexed array, and orders that are not valid, are rejected when the model is built.',
  ['inputs', 'programs', 'histories'], 'all shapes with fixed or dynamic first axis and no axis of length zero, all slices and index arrays, all updates',
  'The space of combinations of shapes, slices and index arrays is far larger than the tests; incremental propagation has separate code for each case.',
  [S + 'nodes/indexing.cpp', S + 'nodes/manipulation.cpp'], [('BasicIndexingNode, AdvancedIndexingNode, PermutationNode', S + 'nodes/indexing.cpp'), ('ReshapeNode, ConcatenateNode, SizeNode', S + 'nodes/manipulation.cpp')])
p('M04', 'A quadratic model evaluates its polynomial',
  'The value of a quadratic model node is the sum of its linear coefficients times the variables plus its quadratic coefficients times the products of the two variables, for every variable assignment and after every sequence of moves. Adding or setting a coefficient changes exactly that coefficient, and reading coefficients back returns what was set.',
  ['inputs', 'histories'], 'all coefficients, all assignments, all sequences of updates',
  'Incremental evaluation uses stored partial sums that depend on the order of the updates.',
  [S + 'nodes/quadratic_model.cpp'], [('QuadraticModel, QuadraticModelNode', S + 'nodes/quadratic_model.cpp')])
p('B01', 'Reported minimum, maximum and integrality bound all values',
  'In every reachable state every element of an array lies between the minimum and the maximum the array reports, and is an integer if the array reports integrality. This holds for all nodes whose reported range is finite.',
  ['inputs', 'histories', 'programs'], 'every model, every state',
  'The reported range is computed by interval arithmetic from the ranges of the operands; a wrong corner case needs operands at particular signs or extremes.',
  [S + 'nodes/mathematical.cpp', S + 'nodes/indexing.cpp', S + 'nodes/flow.cpp', S + 'nodes/collections.cpp', S + 'nodes/numbers.cpp', S + 'nodes/constants.cpp'], [('min, max, integral', S + 'nodes')])
p('D01', 'List and set decisions always hold distinct integers of their range',
  'A list or set decision over n values holds at all times distinct integers from 0 to n-1, and its size stays within its limits, through every initialisation, move, random default move, commit and revert. Exchange, rotate, grow and shrink have exactly their documented effect, and initial contents that break these rules are rejected.',
  ['inputs', 'histories'], 'all sizes and limits, all sequences of operations, all random choices of the default moves',
  'Few sizes and few operations are tested; hidden elements and rejected contents are hardly reached.',
  [S + 'nodes/collections.cpp', I + 'nodes/collections.hpp'], [('CollectionStateData, ListNode, SetNode', S + 'nodes/collections.cpp')])
p('D02', 'Disjoint sets and lists always partition their elements',
  'In disjoint bit-sets and disjoint lists every element of the primary set is in exactly one of the sets or lists at all times, through every initialisation, move, random default move, commit and revert. Moves have exactly their documented effect on the sets or lists concerned, and initial contents that are not a partition are rejected.',
  ['inputs', 'histories'], 'all sizes and numbers of sets or lists, all sequences of operations, all random choices of the default moves',
  'Few sizes and few operations are tested.',
  [S + 'nodes/collections.cpp'], [('DisjointBitSetsNodeData, DisjointListStateData', S + 'nodes/collections.cpp')])
p('D03', 'Integer and binary decisions stay within their bounds',
  'Integer and binary decisions hold integers within their bounds at all times, through every initialisation, move, random default move, commit and revert. Setting, flipping and exchanging values has exactly the documented effect, reports whether anything changed, and invalid bounds or values are rejected without changing the state.',
  ['inputs', 'histories'], 'all bounds within the supported range, all shapes, all sequences of operations, all random choices of the default moves',
  'The tests try a few bounds and values.',
  [S + 'nodes/numbers.cpp', I + 'nodes/numbers.hpp'], [('NumberNode, IntegerNode, BinaryNode', S + 'nodes/numbers.cpp')])
p('S01', 'Slices select the same elements as in Python',
  'For every start, stop and step, given or omitted, and every length, fitting a slice to an array of that length gives bounds within the array and selects exactly the indices that the same slice selects from a Python sequence of that length, and reports their number. A step of zero is rejected.',
  ['inputs'], 'all 64-bit starts, stops and steps, all lengths',
  'The space of starts, stops, steps and lengths, including extreme ones, cannot be sampled by a table of examples.',
  [I + 'array.hpp', S + 'array.cpp'], [('Slice', S + 'array.cpp')])
p('S02', 'Array iterators visit each element once, in order',
  'Iterating over a strided or masked array visits, in row-major order, exactly the elements that its shape and strides describe (for a mask: the unmasked ones, with the fill value elsewhere). Moving an iterator forwards or backwards by any distance, taking the distance between two iterators and comparing them agree with that order, and none of it changes the other iterator.',
  ['inputs', 'programs'], 'all shapes and strides of any dimension, all positions and distances',
  'Tests use a few shapes; carrying over several axes needs particular shapes and distances.',
  [I + 'array.hpp', S + 'array.cpp'], [('ArrayIterator, BufferIterator', I + 'array.hpp')])
p('S03', 'Shapes, strides, sizes and broadcasting follow NumPy',
  'The size of a shape is the product of its dimensions, the strides computed for it are those of a contiguous row-major array, and an array reports being contiguous exactly if its strides say so. Turning a flat index into a multi-index and back are inverse to each other, and broadcasting two shapes gives NumPy\'s result or is rejected where NumPy rejects it.',
  ['inputs'], 'all shapes, all strides, all indices',
  'A table of example shapes cannot cover all numbers of dimensions and sizes, including products beyond 32 bits.',
  [I + 'array.hpp', S + 'array.cpp'], [('shape_to_size, shape_to_strides, is_contiguous, broadcast_shape, unravel_index, ravel_multi_index', I + 'array.hpp')])
p('S04', 'Size information of dynamic arrays is exact',
  'For every array without a slice of a dynamic array among its ancestors, the size information it reports evaluates, from the current sizes of the arrays it refers to, to its actual size, and the actual size lies within the reported limits. The rational arithmetic behind it is exact: results are in lowest terms with a positive denominator and equal the mathematical result.',
  ['inputs', 'histories'], 'all models, all states, all rationals whose arithmetic does not overflow',
  'Size information is composed through several nodes; errors need particular compositions and sizes.',
  [I + 'array.hpp', I + 'utils.hpp', S + 'array.cpp'], [('SizeInfo, fraction', S + 'array.cpp')])
p('S05', 'Deduplicating updates keeps their net effect',
  'Deduplicating a valid list of updates of an array gives a list with at most one update per element, sorted by element, that leads from the same old array to the same new array. Elements that were added and removed again do not appear.',
  ['inputs'], 'all arrays and all valid lists of updates',
  'Which updates cancel depends on interleavings of placements, changes and removals that examples hardly sample.',
  [S + 'utils.cpp'], [('deduplicate_diff', S + 'utils.cpp')])
p('G01', 'Models are evaluated in dependency order and completely',
  'Sorting a model gives every node a distinct index from zero on, decisions first in the order they were added, and each node after all nodes it depends on; adding nodes to a sorted model is refused. The nodes affected by a change of decisions are exactly those that depend on them, each once and in that order, and a proposed change is propagated through, and then committed or reverted on, exactly these nodes.',
  ['programs', 'histories'], 'all acyclic models, all sets of changed decisions',
  'The tests use a few small graphs.',
  [S + 'graph.cpp', I + 'graph.hpp'], [('topological_sort, descendants, propose, initialize_state', S + 'graph.cpp')])
p('G02', 'Objective and feasibility report the state of the model',
  'The objective value of a state is the single value of the objective array, or zero without an objective, and a state is feasible exactly if every constraint holds in it. Arrays that do not have a single value, and constraints that are not logical, are rejected without changing the model.',
  ['programs', 'histories'], 'all models, all states, all sequences of setting objectives and adding constraints',
  'The tests check a few objectives and constraints in a few states.',
  [S + 'graph.cpp'], [('energy, feasible, set_objective, add_constraint', S + 'graph.cpp')])
p('G03', 'Removing unused nodes removes exactly the unused ones',
  'Removing unused nodes removes exactly the nodes that are neither decisions (or their outputs), nor the objective or a constraint, nor listened to (unless listeners are ignored), nor ancestors of such nodes, and returns their number. The remaining nodes keep their connections, and the objective value and feasibility of every state are unchanged.',
  ['programs'], 'all models, all choices of objective, constraints and listeners',
  'The tests use a few small graphs.',
  [S + 'graph.cpp'], [('remove_unused_nodes', S + 'graph.cpp')])
p('P01', 'Serialised models are restored unchanged',
  'Writing a model to a file and reading it back gives a model with the same nodes, objective, constraints and states. ',
  ['programs'], 'all models and states', 'Only a few models are written and read by the tests.', ['dwave/optimization/_model.pyx', 'dwave/optimization/symbols.pyx'], [('into_file, from_file', 'dwave/optimization/_model.pyx')], ['Python API'])
p('P02', 'A locked model cannot be changed',
  'While a model is locked no symbol, constraint or objective can be added, and unlocking restores the ability to change it and discards the states of intermediate symbols. ',
  ['histories'], 'all nestings of locks', 'Few nestings are tested.', ['dwave/optimization/_model.pyx'], [('lock, unlock', 'dwave/optimization/_model.pyx')], ['Python API'])
p('P03', 'Python state handles read and write the right state',
  'Setting and reading the state of a symbol through Python affects exactly the given state index, and resizing the states keeps the others. ',
  ['histories'], 'all sequences of resizing, setting and reading', 'Few sequences are tested.', ['dwave/optimization/_model.pyx', 'dwave/optimization/symbols.pyx'], [('States', 'dwave/optimization/_model.pyx')], ['Python API'])
with open(OUT, 'w') as f:
    for x in P:
        x['statement'] = x['statement'].strip()
        f.write(json.dumps(x) + '\n')
print(len(P))
