"""Which contracts decide which property."""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    'clang 18 (C++ to LLVM IR) and the LLVM passes inline, sroa, early-cse, simplifycfg, loop-simplify, globaldce',
    'engine/vc.py and engine/models.py (obligation generator and assumed contracts of the C++ runtime and standard library)',
    'z3, z3-new and cvc5 (only "unsat" answers are believed)',
]
ASSUMPTIONS = [
    'double is treated as the real numbers plus one absent-value marker (NaN); rounding is not modelled',
    'integer arithmetic is mathematical unless the contract says wrap=exact; lengths stay below 2^40',
    'allocation succeeds; destructors of owned objects have no effect on the state the contracts speak about',
    'single-threaded use of a state',
]
THREADY = ()

# pick(prefixes): the contracts of a module whose name starts with one of the prefixes
def pick(*pre):
    return lambda n: n.startswith(pre) or n in pre


_VALUE = pick('init_', 'prop_', 'observe_', 'shape_', 'Observe', 'Shape', 'reject_')
_PROP = pick('prop_', 'Prop')
_BOUNDS = pick('bounds_', 'Bounds')
_COMMIT = pick('commit_', 'Commit')
_REVERT = pick('revert_', 'Revert')
_NODES = ('binop', 'nary', 'unop', 'where', 'reduce')
_ALL = _NODES + ('quad',)
NARY = 'n-ary operations: proved for one, two and three operands (products: one and two); more operands are left to the stand-in'
EXACT_MUL = 'products and quotients of two unknown reals are treated as uninterpreted functions with the ring facts listed in the contracts'

PROPS = {
    'R01': dict(native='prop', specs=[('state', ['Revert', 'Set', 'Exchange', 'EmplaceBack', 'PopBack', 'Assign', 'Update']), ('coll', ['Revert', 'NodeRevert']), ('numbers_', ['Revert']), ('disjoint', ['Revert'])]
                + [(m, _REVERT) for m in _ALL], standin=['revert() of the node types not under contract']),
    'R02': dict(native='prop', specs=[('state', ['Commit', 'Diff', 'SizeDiff']), ('coll', ['Commit', 'NodeCommit']), ('numbers_', ['Commit']), ('disjoint', ['Commit', 'BitCommit'])]
                + [(m, _COMMIT) for m in _ALL], standin=['commit() of the node types not under contract']),
    'R03': dict(native='prop', specs=[('state', ['Set', 'Exchange', 'EmplaceBack', 'PopBack', 'Assign', 'Update', 'Diff', 'SizeDiff']), ('coll', ['Exchange', 'Rotate', 'Grow', 'Shrink', 'Observe']), ('numbers_', ['SetValue', 'Exchange', 'Flip', 'Observe']), ('disjoint', ['Rotate', 'Swap', 'Pop', 'SetState', 'Observe', 'BitSwap', 'BitSwapSame', 'BitObserve'])]
                + [(m, _PROP) for m in _NODES], standin=['propagate() of the node types not under contract']),
    'R04': dict(native='prop', specs=[(m, _PROP) for m in _ALL], standin=['propagate() of the node types not under contract; the composition of nodes in one model'], assumptions=[EXACT_MUL, NARY]),
    'M01': dict(native='prop', specs=[(m, _VALUE) for m in ('binop', 'nary', 'unop', 'where')], standin=['n-ary operations with more operands; division by zero'], assumptions=[EXACT_MUL, NARY]),
    'M02': dict(native='prop', specs=[('reduce', _VALUE)], standin=['partial reductions'], assumptions=[EXACT_MUL]),
    'M04': dict(native='prop', specs=[('quad', None)], standin=['operands that are not contiguous; bulk reading and adding of quadratic coefficients; num_interactions()'], assumptions=[EXACT_MUL,
               'M04: extended precision (long double) is treated as exact; the steps of the induction that links stored rows with the polynomial are proved, the induction principle itself is applied by hand']),
    'B01': dict(native='prop', specs=[(m, _BOUNDS) for m in _NODES], standin=['product reductions, sums of arrays of variable size, and the node types not under contract'], assumptions=[EXACT_MUL, NARY]),
    'D01': dict(native='coll', specs=[('coll', None)], standin=['random set_state/initialize_state calls of list and set nodes']),
    'D02': dict(native='coll', specs=[('disjoint', None)], standin=['initialisation from given contents; revert() of disjoint bit sets; default_move()'],
                assumptions=['D02: the lists or sets a move names are distinct objects (moves within one list through pop_to_list are left to the stand-in)']),
    'D03': dict(native='coll', specs=[('numbers_', None)], standin=['initialize_state of integer and binary nodes with shapes']),
    'S01': dict(native='pure', specs=[('slices', None)], standin=[], assumptions=['S01: 64-bit arithmetic is exact (wrap=exact), no mathematical-integer assumption']),
    'S02': dict(native='pure', specs=[('iters', None)], standin=['0-dimensional strided iterators; Array::View']),
    'S03': dict(native='pure', specs=[('shapes', None)], standin=['products that overflow 64 bits are not considered']),
    'S04': dict(native=['prop', 'pure'], specs=[('fractions_', None)], standin=['sizeinfo() of every node type, as composed in random models']),
    'G01': dict(native='graph', specs=[('graph', ['Propagate', 'Commit', 'Revert', 'Updates', 'Propose', 'Initialize', 'Reset', 'Locked', 'Order', 'TopologicalOrder', 'Descendants', 'Visit', 'TopologicalSort'])],
                standin=['emplace_node on an unsorted model, recursive_initialize, recursive_reset'],
                assumptions=['G01: std::sort sorts by the given comparison (the comparison itself is verified); the steps of the induction that counts the nodes without an index are proved, the induction principle itself is applied by hand; termination of the recursion is not proved',
                             'G01: the nodes of the contracts are of one class that notes the calls made on it (the functions under contract treat all nodes alike, through virtual functions)']),
    'G02': dict(native='graph', specs=[('graph', ['Energy', 'Feasible', 'SetObjective', 'AddConstraint'])], standin=['random sequences of set_objective and add_constraint'],
                assumptions=['G02: the arrays of the contracts are of one class with arbitrary value, bounds and size']),
    'S05': dict(native='pure', specs=[('dedup', None)], standin=['std::stable_sort (assumed contract)']),
}

NOT_YET = 'contracts for the functions this property depends on are not complete; bounded testing alone would be a different technique'
_PY = 'implemented in Cython/Python on top of the C++ core; the verifier used here (and every deductive verifier installed) reaches only the C++ core, so no contract within reach can express it'
NOT_APPLICABLE = {p: NOT_YET for p in 'M03 G03'.split()}
NOT_APPLICABLE.update(P01=_PY, P02=_PY, P03=_PY)


def specs(prop):
    out = []
    for m, names in PROPS[prop]['specs']:
        mod = importlib.import_module(m)
        for S in mod.ALL:
            if names is None or (names(S.__name__) if callable(names) else S.__name__ in names):
                out.append((m, S))
    return out


def findings(prop):
    f = os.path.join(HERE, 'known_findings.jsonl')
    if not os.path.exists(f):
        return []
    out = []
    for l in open(f):
        l = l.strip()
        if l.startswith('{'):
            d = json.loads(l)
            if d['property'] == prop:
                out.append(d['what'])
    return out
