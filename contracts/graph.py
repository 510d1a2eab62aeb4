"""Contracts of Graph (src/graph.cpp), for models of any number of nodes connected in any way.

The nodes are objects 0..n-1 of a class that notes the calls made on it; pointers to nodes are their numbers."""
from common import *
import vc
import models
from models import conc

SRC = 'graph.cpp'
INIT, PROPAGATE, COMMIT, REVERT = range(4)


class Base(Spec):
    src = SRC
    bounded = dict(maxlen=2, unroll=10, ints=dict(n=[0, 1, 2, 3], k=[0, 1, 2], j=[0, 1, 2]))
    opts = dict(ints=True)

    def refs(self, v, label, n=None):
        """they are nodes"""
        R = v.vec(label)
        v.assume(forall(0, R.n, lambda k: And(0 <= sel(R.a[0], k), sel(R.a[0], k) < v.inp('n')), lambda k: [sel(R.a[0], k)]))
        return R

    def pre(self, v, name):
        n = v.inp('n')
        if 'constraints' in v.st.labels:
            self.refs(v, 'constraints')
        v.assume(self.edges(v, lambda k, j, m: And(0 <= m, m < n)))
        for x in ('value', 'lo', 'hi'):
            v.assume(nonan(v.member(x), n))
        v.assume(forall(0, n, lambda k: Or(sel(v.member('whole'), k) == 0, sel(v.member('whole'), k) == 1), lambda k: [sel(v.member('whole'), k)]))
        self.requires(v)

    def requires(self, v):
        pass

    def edges(self, v, f, ks=None):
        """f(node, number, successor) for all nodes and their successors"""
        n, L = v.inp('n'), v.member('succ')
        if vc.BOUNDED[0]:
            return And([Implies(j < sel(L, k), f(z3.IntVal(k), z3.IntVal(j), sel(v.row('succ', k), j))) for k in range(conc(n)) for j in range(2)])
        k, j = z3.Ints('ek ej')
        return z3.ForAll([k, j], Implies(And(0 <= k, k < n, 0 <= j, j < sel(L, k)), f(k, j, sel(v.row('succ', k), j))), patterns=[sel(v.row('succ', k), j)])

    def same_nodes(self, e, p):
        return And(*[e.member(x) == p.member(x) for x in ('value', 'lo', 'hi', 'length', 'whole', 'ti')])

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            yield from self.ensures(v, v.at('end'), v.at('pre'))


def same_refs(A, B):
    return And(A.n == B.n, same_range(A.a[0], B.a[0], 0, B.n))


class Energy(Base):
    fn = 'h_energy'
    functions = ['Graph::energy']

    def requires(self, v):
        v.assume(sel(v.member('length'), v.inp('k')) == 1)

    def ensures(self, v, e, p):
        yield ('the value of the objective, or zero without one', e.r('rs') == If(v.inp('set'), sel(p.member('value'), v.inp('k')), 0))
        yield ('nothing changes', And(self.same_nodes(e, p), same_refs(e.vec('constraints'), p.vec('constraints'))))


class Feasible(Base):
    fn = 'h_feasible'
    functions = ['Graph::feasible']

    def holds(self, p, upto):
        C = p.vec('constraints')
        return forall(0, upto, lambda k: sel(p.member('value'), sel(C.a[0], k)) != 0, lambda k: [sel(C.a[0], k)])

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        return [('hold so far', self.holds(View(lc.ex, lc.cur.snaps['pre']), lc.it)), ('hold so far', self.holds(View(lc.ex, lc.cur.snaps['pre']), lc.it + 1))]

    def ensures(self, v, e, p):
        yield ('feasible exactly if every constraint holds', (e.arr('out')(0) == 1) == self.holds(p, p.vec('constraints').n))
        yield ('a truth value', Or(e.arr('out')(0) == 0, e.arr('out')(0) == 1))
        yield ('nothing changes', And(self.same_nodes(e, p), same_refs(e.vec('constraints'), p.vec('constraints'))))


class SetObjective(Base):
    fn = 'h_set_objective'
    functions = ['Graph::set_objective']

    def post(self, v, kind, ret):
        e, p = v.at('end') if kind == 'ret' else v, v.at('pre')
        bad = And(v.inp('set'), sel(p.member('length'), v.inp('k')) != 1)
        yield ('exactly the arrays without a single value are rejected', Not(bad) if kind == 'ret' else bad)
        yield ('nothing else changes', And(self.same_nodes(e, p), same_refs(e.vec('constraints'), p.vec('constraints'))))
        if kind == 'ret':
            yield ('the objective is set', e.arr('out')(0) == 1)
        else:
            a, b = (x.ex.load(x.st, x.st.labels['objective'], models.ll.PTR) for x in (e, p))
            yield ('the objective is not changed', a.obj == b.obj and (a.obj is None or a.off.same(b.off)))


class AddConstraint(Base):
    fn = 'h_add_constraint'
    functions = ['Graph::add_constraint', 'Array::logical']

    def post(self, v, kind, ret):
        e, p = v.at('end') if kind == 'ret' else v, v.at('pre')
        k = v.inp('k')
        m = lambda x: sel(p.member(x), k)
        bad = Or(m('length') != 1, m('lo') < 0, m('hi') > 1, m('whole') == 0)
        C, C0 = e.vec('constraints'), p.vec('constraints')
        yield ('exactly the arrays that are not a single truth value are rejected', Not(bad) if kind == 'ret' else bad)
        yield ('no node changes', self.same_nodes(e, p))
        if kind == 'ret':
            yield ('the constraint is added, the others stay', And(C.n == C0.n + 1, sel(C.a[0], C0.n) == k, same_range(C.a[0], C0.a[0], 0, C0.n), e.arr('out')(0) == C.n))
        else:
            yield ('the constraints are not changed', same_refs(C, C0))


def calls(v, Q, upto, what, frm=0):
    """the calls noted since number frm: function `what`, on the nodes Q[0..upto)"""
    W, F = v.vec('who'), v.vec('what')
    if vc.BOUNDED[0]:
        return And(W.n == frm + upto, F.n == frm + upto, forall(0, upto, lambda k: And(sel(W.a[0], frm + k) == sel(Q.a[0], k), sel(F.a[0], frm + k) == what)))
    return And(W.n == frm + upto, F.n == frm + upto, forall(frm, frm + upto, lambda k: And(sel(W.a[0], k) == sel(Q.a[0], k - frm), sel(F.a[0], k) == what), lambda k: [sel(W.a[0], k), sel(F.a[0], k)]))


class Calls(Base):
    """a function is called on each of the nodes, in order"""
    what = PROPAGATE

    def requires(self, v):
        self.refs(v, 'queue')

    def called(self, v, Q, upto):
        return calls(v, Q, upto, self.what)

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        return [('called so far', self.called(v, v.vec('queue'), lc.it)), ('called so far', self.called(v, v.vec('queue'), lc.it + 1))]

    def ensures(self, v, e, p):
        yield ('called on exactly these nodes, once for each, in their order', self.called(e, p.vec('queue'), p.vec('queue').n))
        yield ('nothing else is done', And(self.same_nodes(e, p), same_refs(e.vec('queue'), p.vec('queue')), same_refs(e.vec('constraints'), p.vec('constraints'))))


class Propagate(Calls):
    fn = 'h_propagate'
    functions = ['Graph::propagate']


class Commit(Calls):
    fn = 'h_commit'
    functions = ['Graph::commit']
    what = COMMIT


class Revert(Calls):
    fn = 'h_revert'
    functions = ['Graph::revert']
    what = REVERT




class Updates(Base):
    fn = 'h_update'
    functions = ['Node::propagate']

    def called(self, v, p, upto):
        W, F, k = v.vec('who'), v.vec('what'), v.inp('k')
        same = lambda A, B: And([Implies(j < upto, sel(A, j) == sel(B, j)) for j in range(2)]) if vc.BOUNDED[0] else same_range(A, B, 0, upto)
        return And(W.n == upto, F.n == upto, same(W.a[0], p.row('succ', k)), same(F.a[0], p.row('succ', k, 8)))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        return [('told so far', self.called(v, v, lc.it)), ('told so far', self.called(v, v, lc.it + 1))]

    def ensures(self, v, e, p):
        yield ('every successor is told, with its own number for this node', self.called(e, p, sel(p.member('succ'), p.inp('k'))))
        yield ('nothing else is done', self.same_nodes(e, p))


def fresh_refs(ex, st, at, like, name, n=None):
    """a vector of pointers to nodes, about which nothing is known"""
    t = View(ex, st)
    et = ex.obj(st, st.labels[like]).vecs[st.labels[like].off.c].et
    n = fresh('len_' + name) if n is None else n
    b = models.new_arr(ex, st, et, n, {0: (et.fields[0][1], fresh(name, AI))}, name)
    models.set_vec(ex, st, at, vc.VecState(b, n, et))
    st.labels = dict(st.labels)
    st.labels[name] = at
    R = t.vec(name)
    st.assume(n >= 0)
    st.assume(n < 2 ** 40)
    if ex.bounded:
        st.assume(n <= 2)
        st.assume(And([And(0 <= sel(R.a[0], k), sel(R.a[0], k) < t.inp('n')) for k in range(2)]))
    else:
        st.assume(forall(0, n, lambda k: And(0 <= sel(R.a[0], k), sel(R.a[0], k) < t.inp('n')), lambda k: [sel(R.a[0], k)]))
    return R


class Propose(Base):
    """with the contracts of descendants (contract Descendants) for the nodes affected"""
    fn = 'h_propose'
    functions = ['Graph::propose', 'Graph::propagate', 'Graph::commit', 'Graph::revert']

    def __init__(self):
        self.opts = dict(ints=True, contracts=[(r'Graph::descendants\(', self.descendants)])

    def requires(self, v):
        self.refs(v, 'queue')

    def descendants(self, ex, st, dem, ins, args):
        S, Q = View(ex, st).vec(args[2]), View(ex, st).vec('queue')
        ex.oblige(st, 'the nodes affected are those that depend on the given ones', And(S.n == Q.n, same_range(S.a[0], Q.a[0], 0, Q.n)))
        R = fresh_refs(ex, st, args[0], 'who', 'affected')
        st.snaps = dict(st.snaps, Q=R)
        return None

    def loop_cands(self, lc):
        if 'Q' not in lc.cur.snaps:
            return []
        v, Q = View(lc.ex, lc.cur), lc.cur.snaps['Q']
        done = lambda f, k: calls(v, Q, k, f, Q.n)
        out = []
        for k in (lc.it, lc.it + 1):
            out += [('propagated so far', calls(v, Q, k, PROPAGATE))]
            for f, n in ((COMMIT, 'committed'), (REVERT, 'reverted')):
                out += [(n + ' so far', And(done(f, k)))]
        first = forall(0, Q.n, lambda k: And(sel(v.vec('who').a[0], k) == sel(Q.a[0], k), sel(v.vec('what').a[0], k) == PROPAGATE), lambda k: [sel(v.vec('who').a[0], k), sel(v.vec('what').a[0], k)])
        return out + [('propagated before', first)]

    def ensures(self, v, e, p):
        Q = e.st.snaps['Q']
        W, F = e.vec('who'), e.vec('what')
        yield ('propagated on exactly the nodes affected, in their order', And(W.n == 2 * Q.n, forall(0, Q.n, lambda k: And(sel(W.a[0], k) == sel(Q.a[0], k), sel(F.a[0], k) == PROPAGATE), lambda k: [sel(W.a[0], k), sel(F.a[0], k)])))
        yield ('asked once, after that', And(e.arr('out')(0) == 1, e.arr('out')(1) == Q.n))
        yield ('committed on them if accepted, else reverted', calls(e, Q, Q.n, If(p.inp('accepted'), COMMIT, REVERT), Q.n))
        yield ('nothing else is done', And(self.same_nodes(e, p), same_refs(e.vec('constraints'), p.vec('constraints'))))


class OfNodes(Base):
    def requires(self, v):
        v.assume(v.vec('nodes').n == v.inp('n'))
        self.refs(v, 'nodes')
        self.more(v)

    def more(self, v):
        pass


class Initialize(OfNodes):
    fn = 'h_initialize'
    functions = ['Graph::initialize_state']
    COUNT = z3.Function('initialized_before', z3.IntSort(), z3.IntSort())     # number of nodes without a state before this one

    def more(self, v):
        S, n, C = v.vec('state'), v.inp('n'), self.COUNT
        v.assume(S.n == n)
        v.assume(forall(0, n, lambda k: And(sel(S.a[0], k) >= -1, sel(S.a[0], k) < v.inp('d')), lambda k: [sel(S.a[0], k)]))
        v.assume(C(0) == 0)
        v.assume(forall(0, n, lambda k: C(k + 1) == C(k) + If(sel(S.a[0], k) < 0, 1, 0), lambda k: [C(k)]))

    def called(self, v, upto):
        """a node without a state is initialised, as many calls after the start as there are such nodes before it"""
        W, F, N, S, C = v.vec('who'), v.vec('what'), v.vec('nodes'), v.vec('state'), self.COUNT
        return And(W.n == C(upto), F.n == W.n, forall(0, W.n, lambda k: sel(F.a[0], k) == INIT, lambda k: [sel(F.a[0], k)]), forall(0, upto, lambda k: And(0 <= C(k), C(k) <= W.n), lambda k: [C(k)]),
                   forall(0, upto, lambda k: Implies(sel(S.a[0], k) < 0, And(C(k) < W.n, sel(W.a[0], C(k)) == sel(N.a[0], k))), lambda k: [C(k), sel(S.a[0], k), sel(N.a[0], k)]))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        return [('initialised so far', self.called(v, i)) for i in [lc.it, lc.it + 1] + list(lc.ints)]

    def ensures(self, v, e, p):
        yield ('exactly the nodes without a state are initialised, in the order of the nodes', self.called(e, p.inp('n')))
        yield ('nothing else is done', And(self.same_nodes(e, p), same_refs(e.vec('nodes'), p.vec('nodes')), same_refs(e.vec('state'), p.vec('state'))))


class Reset(OfNodes):
    fn = 'h_reset'
    functions = ['Graph::reset_topological_sort']

    def more(self, v):
        n, N = v.inp('n'), v.vec('nodes')
        v.assume(v.vec('decisions').n <= n)
        self.place = z3.Function('place', z3.IntSort(), z3.IntSort())
        v.assume(forall(0, n, lambda k: And(0 <= self.place(k), self.place(k) < n, sel(N.a[0], self.place(k)) == k), lambda k: [self.place(k)]))
        v.assume(forall(0, n, lambda k: self.place(sel(N.a[0], k)) == k, lambda k: [sel(N.a[0], k)]))

    def reset(self, v, p, upto):
        T, T0, D = v.member('ti'), p.member('ti'), p.vec('decisions').n
        return forall(0, p.inp('n'), lambda k: sel(T, k) == If(And(D <= self.place(k), self.place(k) < upto), -1, sel(T0, k)), lambda k: [self.place(k), sel(T, k)])

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        return [('reset so far', self.reset(v, p, p.vec('decisions').n + i)) for i in (lc.it, lc.it + 1)]

    def ensures(self, v, e, p):
        yield ('the model is not sorted', e.arr('out')(0) == 0)
        yield ('the indices of all nodes but the decisions are gone', Or(Not(p.inp('sorted')), self.reset(e, p, p.inp('n'))))
        yield ('an unsorted model does not change', Or(p.inp('sorted'), forall(0, p.inp('n'), lambda k: sel(e.member('ti'), k) == sel(p.member('ti'), k), lambda k: [sel(e.member('ti'), k)])))


class Locked(OfNodes):
    fn = 'h_emplace'
    functions = ['Graph::emplace_node']

    def post(self, v, kind, ret):
        p = v.at('pre')
        yield ('nothing can be added to a sorted model', kind == 'throw')
        yield ('nothing changes', And(self.same_nodes(v, p), same_refs(v.vec('nodes'), p.vec('nodes'))))


class Order(Base):
    """what the nodes affected by a change are sorted by"""
    fn = 'h_order'
    functions = ['Graph::descendants']

    def ensures(self, v, e, p):
        T = p.member('ti')
        yield ('ordered by topological index', (e.arr('out')(0) == 1) == (sel(T, p.inp('k')) < sel(T, p.inp('j'))))
        yield ('nothing changes', self.same_nodes(e, p))


class TopologicalOrder(Order):
    """what the nodes are sorted by"""
    fn = 'h_topological_order'
    functions = ['Graph::topological_sort']


def fact2(a, n, b, m, f, pa, pb):
    """f(k, j) for all k < n, j < m"""
    if vc.BOUNDED[0]:
        return And([Implies(And(k < n, j < m), f(z3.IntVal(k), z3.IntVal(j))) for k in range(6) for j in range(6)])
    k, j = z3.Ints('fk fj')
    return z3.ForAll([k, j], Implies(And(a <= k, k < n, b <= j, j < m), f(k, j)), patterns=[z3.MultiPattern(pa(k), pb(j))])


def upto(lo, n, f, pats):
    """f(k) for lo <= k < n, where n need not be a number in bounded mode"""
    if vc.BOUNDED[0]:
        return And([Implies(And(lo <= k, k < n), f(z3.IntVal(k))) for k in range(8)])
    return forall(lo, n, f, pats)


def sort_nodes(spec, ex, st, dem, ins, args):
    """std::sort by topological index (contracts Order and TopologicalOrder): the same pointers, by increasing index"""
    ex.models_used.add('std::sort (the same elements, sorted by the comparison, which is verified)')
    b = args[0].obj
    v = View(ex, st)
    A = st.mem[b].fields[0][1]
    n = ex.sdiv(st, args[1].off - args[0].off, L(8), True)
    if not (args[0].off.const() and args[0].off.c == 0):
        raise Unsupported('part of a vector is sorted')
    n = n.z()
    S = fresh('sorted', AI)
    to, fro = z3.Function('to_%s' % S.decl().name(), z3.IntSort(), z3.IntSort()), z3.Function('from_%s' % S.decl().name(), z3.IntSort(), z3.IntSort())
    T = v.member('ti')
    st.assume(upto(0, n, lambda k: And(0 <= to(k), to(k) < n, fro(to(k)) == k, sel(S, to(k)) == sel(A, k)), lambda k: [sel(A, k), to(k)] and [[sel(A, k)], [to(k)]]))
    st.assume(upto(0, n, lambda k: And(0 <= fro(k), fro(k) < n, to(fro(k)) == k, sel(A, fro(k)) == sel(S, k)), lambda k: [[sel(S, k)], [fro(k)]]))
    st.assume(fact2(0, n, 0, n, lambda k, j: Implies(k <= j, sel(T, sel(S, k)) <= sel(T, sel(S, j))), lambda k: sel(S, k), lambda j: sel(S, j)))
    o = st.mem[b].copy()
    o.fields = dict(o.fields)
    o.fields[0] = (o.fields[0][0], S)
    st.mem[b] = o
    ex.note_write(('arr', b, 0), None)
    st.snaps = dict(st.snaps, before=A, to=to, fro=fro)
    return None


class Descendants(Base):
    """mark: whether the state of a node (by topological index) is marked; where: the place in the list that a marked state belongs to"""
    fn = 'h_descendants'
    functions = ['Graph::descendants']
    DEPENDS = z3.Function('depends', z3.IntSort(), z3.BoolSort())   # any property that the given nodes have, and the successors of nodes that have it

    def __init__(self):
        self.opts = dict(ints=True, contracts=[(r'^void std::sort<', lambda *a: sort_nodes(self, *a))])

    def pre(self, v, name):
        n, d, Q, S, T, P = v.inp('n'), v.inp('d'), self.refs(v, 'queue'), v.vec('state'), v.member('ti'), self.DEPENDS
        v.assume(self.edges(v, lambda k, j, m: And(0 <= m, m < n, Implies(P(k), P(m)))))
        v.assume(And(d == S.n, n <= d))
        v.assume(forall(0, d, lambda k: And(sel(S.a[0], k) == k, sel(v.member('mark'), k) == 0), lambda k: [sel(S.a[0], k), sel(v.member('mark'), k)] and [[sel(S.a[0], k)], [sel(v.member('mark'), k)]]))
        # sorted: every node has an index of its own; node: the node of an index
        node = self.node = z3.Function('node_of', z3.IntSort(), z3.IntSort())
        v.assume(forall(0, n, lambda k: And(0 <= sel(T, k), sel(T, k) < d, node(sel(T, k)) == k), lambda k: [sel(T, k)]))
        # the sources: distinct nodes, successors of none
        source = self.source = z3.Function('source', z3.IntSort(), z3.IntSort())
        v.assume(forall(0, Q.n, lambda k: And(P(sel(Q.a[0], k)), source(sel(Q.a[0], k)) == k), lambda k: [sel(Q.a[0], k)]))
        v.assume(self.edges(v, lambda k, j, m: source(m) < 0))
        v.ghost('where', fresh('where', AI))

    def on_push(self, ex, st, label, vals):
        if label == 'queue':
            v = View(ex, st)
            Q = v.vec('queue')
            ghost_set(ex, st, 'where', Store(st.ghost['where'], sel(v.member('ti'), sel(Q.a[0], Q.n - 1)), Q.n - 1))

    def found(self, v, p, K, d):
        """everything found so far depends on the sources and is marked; only what was found is marked, in one place"""
        Q, Q0, M, T, W = v.vec('queue'), p.vec('queue'), v.member('mark'), v.member('ti'), v.st.ghost['where']
        n = v.inp('n')
        return [('marks are truth values', upto(0, d, lambda i: Or(sel(M, i) == 0, sel(M, i) == 1), lambda i: [sel(M, i)])), ('the sources come first', And(Q.n >= K, same_range(Q.a[0], Q0.a[0], 0, K))),
                ('what is found depends on the sources', upto(0, Q.n, lambda k: And(0 <= sel(Q.a[0], k), sel(Q.a[0], k) < n, self.DEPENDS(sel(Q.a[0], k))), lambda k: [sel(Q.a[0], k)])),
                ('what is found is marked, and found once', upto(K, Q.n, lambda k: And(self.source(sel(Q.a[0], k)) < 0, sel(M, sel(T, sel(Q.a[0], k))) != 0, sel(W, sel(T, sel(Q.a[0], k))) == k), lambda k: [sel(Q.a[0], k)])),
                ('what is marked was found', upto(0, d, lambda i: Implies(sel(M, i) != 0, And(K <= sel(W, i), sel(W, i) < Q.n, sel(T, sel(Q.a[0], sel(W, i))) == i)), lambda i: [sel(M, i)]))]

    def closed(self, v, i):
        """the successors of the first i nodes of the list are marked"""
        Q, M, T, L = v.vec('queue'), v.member('mark'), v.member('ti'), v.member('succ')
        if vc.BOUNDED[0]:
            return And([Implies(And(k < i, j < sel(L, sel(Q.a[0], k))), sel(M, sel(T, sel(v.row('succ', sel(Q.a[0], k)), j))) != 0) for k in range(4) for j in range(2)])
        k, j = z3.Ints('ck cj')
        return z3.ForAll([k, j], Implies(And(0 <= k, k < i, 0 <= j, j < sel(L, sel(Q.a[0], k))), sel(M, sel(T, sel(v.row('succ', sel(Q.a[0], k)), j))) != 0), patterns=[sel(v.row('succ', sel(Q.a[0], k)), j)])

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        Q, M, T = v.vec('queue'), v.member('mark'), v.member('ti')
        K, d = p.vec('queue').n, p.inp('d')
        if 'before' not in lc.cur.snaps:
            out = self.found(v, p, K, d)
            for i in list(lc.ints) + list(lc.cur.loopints):
                out += [('in the list', And(0 <= i, i <= Q.n)), ('in the list', And(0 <= i, i < Q.n)), ('complete before this one', self.closed(v, i)), ('complete before this one', self.closed(v, i - 1))]
                for at in (i, i - 1):
                    for j in (lc.it, lc.it + 1):
                        out.append(('complete so far', upto(0, j, lambda k: sel(M, sel(T, sel(v.row('succ', sel(Q.a[0], at)), k))) != 0, lambda k: [sel(v.row('succ', sel(Q.a[0], at)), k)])))
            return out
        to, W = lc.cur.snaps['to'], v.st.ghost['where']
        A = lc.cur.snaps['before']
        out = [('marks are truth values', upto(0, d, lambda i: Or(sel(M, i) == 0, sel(M, i) == 1), lambda i: [sel(M, i)]))]
        for i in [lc.it, lc.it + 1]:
            out.append(('marks removed so far', upto(0, d, lambda k: Implies(sel(M, k) != 0, And(K <= sel(W, k), sel(W, k) < Q.n, to(sel(W, k)) >= i, sel(T, sel(A, sel(W, k))) == k)), lambda k: [sel(M, k)])))
        return out

    def ensures(self, v, e, p):
        R, T, Q, L, n = e.vec('res'), p.member('ti'), p.vec('queue'), p.member('succ'), p.inp('n')
        sn = v.st.snaps
        A, to, fro, W = sn['before'], sn['to'], sn['fro'], v.st.ghost['where']
        yield ('the nodes given are among the result', upto(0, Q.n, lambda k: And(0 <= to(k), to(k) < R.n, sel(R.a[0], to(k)) == sel(Q.a[0], k)), lambda k: [sel(Q.a[0], k)]))
        yield ('the others depend on them', upto(0, R.n, lambda k: self.DEPENDS(sel(R.a[0], k)), lambda k: [sel(R.a[0], k)]))
        at = lambda m: to(sel(W, sel(T, m)))      # the place of a successor
        ok = lambda k, j, m: And(0 <= at(m), at(m) < R.n, sel(R.a[0], at(m)) == m)
        if vc.BOUNDED[0]:
            g = And([Implies(And(k < R.n, j < sel(L, sel(R.a[0], k))), ok(k, j, sel(p.row('succ', sel(R.a[0], k)), j))) for k in range(4) for j in range(2)])
        else:
            k, j = z3.Ints('ck cj')
            g = z3.ForAll([k, j], Implies(And(0 <= k, k < R.n, 0 <= j, j < sel(L, sel(R.a[0], k))), ok(k, j, sel(p.row('succ', sel(R.a[0], k)), j))), patterns=[sel(p.row('succ', sel(R.a[0], k)), j)])
        yield ('everything that depends on a node of the result is in it', g)
        yield ('each once, by increasing topological index', fact2(0, R.n, 0, R.n, lambda k, j: Implies(k < j, sel(T, sel(R.a[0], k)) < sel(T, sel(R.a[0], j))), lambda k: sel(R.a[0], k), lambda j: sel(R.a[0], j)))
        yield ('no marks are left', upto(0, p.inp('d'), lambda k: sel(e.member('mark'), k) == 0, lambda k: [sel(e.member('mark'), k)]))
        yield ('nothing else changes', And(self.same_nodes(e, p), same_refs(e.vec('state'), p.vec('state'))))


class Count:
    """number of nodes without a topological index: negative elements among the first n of an array of integers"""
    F = z3.Function('unsorted', AI, z3.IntSort(), z3.IntSort())

    def __call__(self, a, n):
        if vc.BOUNDED[0]:
            return z3.Sum([If(And(k < n, sel(a, k) < 0), 1, 0) for k in range(4)] + [z3.IntVal(0)])
        return self.F(a, zi(n))

    def one(self, x):
        return If(x < 0, z3.IntVal(1), z3.IntVal(0))

    def axioms(self):
        a, n, i, x = z3.Const('ua', AI), z3.Int('un'), z3.Int('ui'), z3.Int('ux')
        F = self.F
        return [z3.ForAll([a, i, x, n], Implies(And(0 <= i, i < n), F(Store(a, i, x), n) == F(a, n) - self.one(sel(a, i)) + self.one(x)), patterns=[F(Store(a, i, x), n)]),
                z3.ForAll([a, n], Implies(n >= 0, F(a, n) >= 0), patterns=[F(a, n)]),
                z3.ForAll([a, n], Implies(And(n >= 0, z3.ForAll([i], Implies(And(0 <= i, i < n), sel(a, i) >= 0), patterns=[sel(a, i)])), F(a, n) == 0), patterns=[F(a, n)]),
                z3.ForAll([a, i, n], Implies(And(0 <= i, i < n, sel(a, i) < 0), F(a, n) >= 1), patterns=[z3.MultiPattern(F(a, n), sel(a, i))])]

    def lemmas(self):
        a, b, n, i, x = z3.Const('ua', AI), z3.Const('ub', AI), z3.Int('un'), z3.Int('ui'), z3.Int('ux')
        F, one = self.F, self.one
        d = lambda a: [F(a, 0) == 0, Implies(n >= 0, F(a, n + 1) == F(a, n) + one(sel(a, n)))]
        nm = 'number of unsorted nodes: '
        st = [b == Store(a, i, x), n >= 0, i >= 0] + d(a) + d(b)
        claim = lambda m: And(Implies(i >= m, F(b, m) == F(a, m)), Implies(i < m, F(b, m) == F(a, m) - one(sel(a, i)) + one(x)))
        yield (nm + 'one replaced (start)', st, claim(z3.IntVal(0)))
        yield (nm + 'one replaced (step)', st + [claim(n)], claim(n + 1))
        yield (nm + 'not negative (start)', d(a), F(a, 0) >= 0)
        yield (nm + 'not negative (step)', d(a) + [n >= 0, F(a, n) >= 0], F(a, n + 1) >= 0)
        yield (nm + 'all sorted (step)', d(a) + [n >= 0, F(a, n) == 0, sel(a, n) >= 0], F(a, n + 1) == 0)
        yield (nm + 'at least one (step)', d(a) + [n >= 0, 0 <= i, i < n + 1, sel(a, i) < 0, F(a, n) >= 0, Implies(i < n, F(a, n) >= 1)], F(a, n + 1) >= 1)


UNSORTED = Count()


class Sorting(Base):
    """The contract of the recursive function that numbers a node after the nodes that depend on it, and with it the contract of topological_sort.

    Index -1: not visited, -2: being visited.  before: a number of each node that increases along the edges (exists as the model has no cycles)."""
    bounded = dict(maxlen=2, unroll=10, ints=dict(n=[1, 2, 3], k=[0, 1, 2], count=[0, 1, 2]))
    rank = z3.Function('before', z3.IntSort(), z3.IntSort())
    decision = z3.Function('decision', z3.IntSort(), z3.BoolSort())
    D = z3.Int('num_decisions')

    def __init__(self):
        self.opts = dict(ints=True, contracts=[(r'^void std::sort<', lambda *a: sort_nodes(self, *a)), (r'topological_sortEvENK3\$_0cl|topological_sort\(\)(?: const)?::\$_0::operator\(\)', self.visit)])

    def axioms(self):
        return UNSORTED.axioms()

    def lemmas(self):
        yield from UNSORTED.lemmas()

    def nodes(self, n, f, pats):
        return upto(0, n, f, pats)

    def ordered(self, v, T):
        return self.edges(v, lambda k, j, m: Implies(And(sel(T, k) >= 0, Not(self.decision(k))), sel(T, m) > sel(T, k)))

    def model(self, v):
        """an acyclic model: decisions have no predecessors"""
        n = v.inp('n')
        return And(self.edges(v, lambda k, j, m: And(0 <= m, m < n, self.rank(m) > self.rank(k), Not(self.decision(m)))), self.D >= 0, self.D <= n)

    def valid(self, v, T, c, D):
        n, dec = v.inp('n'), self.decision
        return [('the indices', self.nodes(n, lambda k: And(sel(T, k) >= -2, If(dec(k), And(0 <= sel(T, k), sel(T, k) < D), Or(sel(T, k) < 0, And(c < sel(T, k), sel(T, k) < n)))), lambda k: [sel(T, k)])),
                ('as many indices are left as nodes', And(c == D - 1 + UNSORTED(T, n), c < n)),
                ('numbered after all that depend on it', self.ordered(v, T)),
                ('no number twice', fact2(0, n, 0, n, lambda k, j: Implies(And(k != j, sel(T, k) >= 0, sel(T, j) >= 0), sel(T, k) != sel(T, j)), lambda k: sel(T, k), lambda j: sel(T, j)))]

    def since(self, n, T0, c0, T, c, but=None):
        """what visits do"""
        k = lambda k: Implies(k != but, self.kept(T0, c0, T, c, k)) if but is not None else self.kept(T0, c0, T, c, k)
        return And(c <= c0, self.nodes(n, k, lambda k: [[sel(T, k)], [sel(T0, k)]]))

    def kept(self, T0, c0, T, c, k):
        return If(Or(sel(T0, k) >= 0, sel(T0, k) == -2), sel(T, k) == sel(T0, k), Or(sel(T, k) == -1, And(c < sel(T, k), sel(T, k) <= c0)))

    def stack(self, n, T, x):
        return self.nodes(n, lambda k: Implies(sel(T, k) == -2, self.rank(k) < self.rank(x)), lambda k: [sel(T, k)])

    def visit(self, ex, st, dem, ins, args):
        v = View(ex, st)
        n = v.inp('n')
        h = st.labels['ti']
        x = zi(ex.encode_ref(st, ex.obj(st, st.labels['who']).vecs[st.labels['who'].off.c].et.fields[0][1], args[1]))
        T0 = v.member('ti')
        c0 = zi(ex.as_int(ex.load(st, args[2], models.ll.INT(32))))
        D = st.snaps.get('D', self.D)
        for nm, f in self.valid(v, T0, c0, D):
            ex.oblige(st, 'visited when: ' + nm, f)
        ex.oblige(st, 'visited when: a node of the model, after those being visited', And(0 <= x, x < n, self.stack(n, T0, x)))
        T, c = fresh('ti', AI), fresh('count')
        o = st.mem[h.obj].copy()
        o.fields = dict(o.fields)
        o.fields[h.off.c] = ('i64', T)
        st.mem[h.obj] = o
        ex.note_write(('arr', h.obj, h.off.c), None)
        ex.store(st, args[2], L.of(c), models.ll.INT(32))
        v = View(ex, st)
        for nm, f in self.valid(v, T, c, D):
            st.assume(f)
        st.assume(And(sel(T, x) >= 0, c >= -1))
        st.assume(self.since(n, T0, c0, T, c))
        return None


class Visit(Sorting):
    fn = 'h_visit'
    functions = ['Graph::topological_sort']

    def requires(self, v):
        n, T, c = v.inp('n'), v.member('ti'), v.inp('count')
        v.assume(self.model(v))
        for nm, f in self.valid(v, T, c, self.D):
            v.assume(f)
        v.assume(self.stack(n, T, v.inp('k')))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        n, T, T0, c0, x = p.inp('n'), v.member('ti'), p.member('ti'), p.inp('count'), p.inp('k')
        c = v.i32('count')
        out = self.valid(v, T, c, self.D)
        out += [('being visited', sel(T, x) == -2), ('visited so far', self.since(n, T0, c0, T, c, x))]
        ln, R = sel(p.member('succ'), x), p.row('succ', x)
        for i in (lc.it, lc.it + 1):
            out.append(('numbered so far', upto(ln - i, ln, lambda j: sel(T, sel(R, j)) >= 0, lambda j: [sel(R, j)])))
        return out

    def ensures(self, v, e, p):
        n, T, T0, c0, x = p.inp('n'), e.member('ti'), p.member('ti'), p.inp('count'), p.inp('k')
        c = e.arr('out')(0)
        for nm, f in self.valid(e, T, c, self.D):
            yield (nm, f)
        yield ('numbered', sel(T, x) >= 0)
        yield ('what is numbered or being visited keeps its number, the others get the next ones', self.since(n, T0, c0, T, c))


class TopologicalSort(Sorting):
    fn = 'h_topological_sort'
    functions = ['Graph::topological_sort']

    def requires(self, v):
        n, T, N, D = v.inp('n'), v.member('ti'), v.vec('nodes'), v.vec('decisions').n
        v.st.snaps = dict(v.st.snaps, D=D)
        v.assume(self.D == D)
        v.assume(self.model(v))
        v.assume(N.n == n)
        self.refs(v, 'nodes')
        place = self.place = z3.Function('place', z3.IntSort(), z3.IntSort())
        v.assume(self.nodes(n, lambda k: And(0 <= place(k), place(k) < n, sel(N.a[0], place(k)) == k), lambda k: [[place(k)], [sel(T, k)]]))
        v.assume(self.nodes(n, lambda k: place(sel(N.a[0], k)) == k, lambda k: [sel(N.a[0], k)]))
        srt = v.inp('sorted')
        # as adding nodes and reset_topological_sort leave it
        v.assume(Or(srt, And(self.nodes(n, lambda k: If(self.decision(k), And(0 <= sel(T, k), sel(T, k) < D), sel(T, k) == -1), lambda k: [sel(T, k)]), UNSORTED(T, n) == n - D,
                             fact2(0, n, 0, n, lambda k, j: Implies(And(k != j, sel(T, k) >= 0, sel(T, j) >= 0), sel(T, k) != sel(T, j)), lambda k: sel(T, k), lambda j: sel(T, j)))))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        n, T, T0, N = p.inp('n'), v.member('ti'), p.member('ti'), p.vec('nodes')
        D = p.vec('decisions').n
        out = [('no node is being visited', self.nodes(n, lambda k: sel(T, k) != -2, lambda k: [sel(T, k)])), ('decisions keep their index', self.nodes(n, lambda k: Implies(self.decision(k), sel(T, k) == sel(T0, k)), lambda k: [sel(T, k)]))]
        for c in [D - 1 + UNSORTED(T, n)] + list(lc.ints):
            out += self.valid(v, T, c, D)
        for key, o in sorted(lc.cur.mem.items(), key=lambda t: str(t[0])):
            if isinstance(o, vc.Cells) and o.size == 4 and 0 in o.cells:
                try:
                    out += self.valid(v, T, zi(lc.ex.as_int(o.cells[0][1])), D)
                except Unsupported:
                    pass
        for i in (lc.it, lc.it + 1):
            out.append(('numbered so far', upto(n - i, n, lambda j: sel(T, sel(N.a[0], j)) >= 0, lambda j: [sel(N.a[0], j)])))
        return out

    def ensures(self, v, e, p):
        srt = p.inp('sorted')
        n, T, T0, N, D = p.inp('n'), e.member('ti'), p.member('ti'), e.vec('nodes'), p.vec('decisions').n
        yield ('the model is sorted', e.arr('out')(0) == 1)
        if 'before' not in v.st.snaps:
            yield ('only a sorted model stays as it is', srt)
            yield ('a sorted model stays as it is', And(self.same_nodes(e, p), same_refs(N, p.vec('nodes'))))
            return
        N0, place = p.vec('nodes'), self.place
        v.assume(self.nodes(n, lambda k: And(0 <= place(k), place(k) < n, sel(N0.a[0], place(k)) == k), lambda k: [sel(T, k)]))     # as assumed before
        v.lemma('all are numbered', self.nodes(n, lambda k: sel(T, k) >= 0, lambda k: [sel(T, k)]))
        yield ('every node has an index from 0 on', self.nodes(n, lambda k: And(0 <= sel(T, k), sel(T, k) < n), lambda k: [sel(T, k)]))
        yield ('no two have the same', fact2(0, n, 0, n, lambda k, j: Implies(k != j, sel(T, k) != sel(T, j)), lambda k: sel(T, k), lambda j: sel(T, j)))
        yield ('decisions come first, and keep theirs', self.nodes(n, lambda k: If(self.decision(k), And(sel(T, k) == sel(T0, k), sel(T, k) < D), sel(T, k) >= D), lambda k: [sel(T, k)]))
        yield ('every node comes after those it depends on', self.edges(e, lambda k, j, m: sel(T, m) > sel(T, k)))
        to, fro = v.st.snaps['to'], v.st.snaps['fro']
        yield ('the same nodes, in this order', And(N.n == n, fact2(0, n, 0, n, lambda k, j: Implies(k < j, sel(T, sel(N.a[0], k)) < sel(T, sel(N.a[0], j))), lambda k: sel(N.a[0], k), lambda j: sel(N.a[0], j)),
                                                    self.nodes(n, lambda k: And(0 <= to(self.place(k)), to(self.place(k)) < n, sel(N.a[0], to(self.place(k))) == k), lambda k: [sel(T, k)])))


ALL = [Energy, Feasible, SetObjective, AddConstraint, Propagate, Commit, Revert, Updates, Propose, Initialize, Reset, Locked, Order, TopologicalOrder, Descendants, Visit, TopologicalSort]
