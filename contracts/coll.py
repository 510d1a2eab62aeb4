"""Contracts of list and set decisions (src/nodes/collections.cpp: CollectionStateData, CollectionNode, ListNode, SetNode)."""
from common import *

SRC = 'coll.cpp'


def distinct(E, n):
    """no two of the first n elements are equal"""
    c = z3.simplify(zi(n))
    if z3.is_int_value(c):
        c = c.as_long()
        return And([sel(E, a) != sel(E, b) for a in range(c) for b in range(a + 1, c)])
    a, b = z3.Ints('da db')
    return z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < n), sel(E, a) != sel(E, b)), patterns=[z3.MultiPattern(sel(E, a), sel(E, b))])


def in_range(E, n, top):
    """the first n elements are integers from 0 to top-1"""
    return forall(0, n, lambda k: And(isint(sel(E, k)), 0 <= sel(E, k), sel(E, k) < z3.ToReal(zi(top)), sel(E, k) != NAN), lambda k: [sel(E, k)])


def plain(U):
    """no update of the list adds or removes an element"""
    return forall(0, U.n, lambda k: And(sel(U.a[OLD], k) != NAN, sel(U.a[NEW], k) != NAN), lambda k: [sel(U.a[IDX], k), sel(U.a[OLD], k), sel(U.a[NEW], k)])


class Base(Spec):
    src = SRC
    bounded = dict(maxlen=1, len=dict(elements=3, v=3), unroll=8, ints={})
    opts = dict(dist=True, ints=True)
    node = False

    def pre(self, v, name):
        E = v.vec('elements')
        v.assume(self.inv(E, v.i('size')))
        v.assume(And(0 <= v.i('previous_size'), v.i('previous_size') <= E.n))
        if self.node:
            v.assume(And(E.n == v.inp('n'), v.inp('min') <= v.i('size'), v.i('size') <= v.inp('max'), v.inp('min') <= v.i('previous_size'), v.i('previous_size') <= v.inp('max')))
        self.ga, self.gp = DiffGhost(pre='a'), DiffGhost(pre='p')
        self.ga.init(v, E)
        self.gp.init(v, E)
        v.ghost('pGL', v.i('size'))
        self.requires(v, E)

    def inv(self, E, size):
        return And(0 <= size, size <= E.n, in_range(E.a[0], E.n, E.n), distinct(E.a[0], E.n))

    def requires(self, v, E):
        pass

    def on_push(self, ex, st, label, vals):
        if label == 'all':
            self.ga.push(ex, st, vals)
        if label == 'previous':
            self.gp.push(ex, st, vals)

    def post(self, v, kind, ret):
        if kind != 'ret':
            yield ('does not throw', False)
            return
        e, p = v.at('end'), v.at('pre')
        E, E0 = e.vec('elements'), p.vec('elements')
        S, S0 = e.i('size'), p.i('size')
        yield from self.ensures(v, e, p, E, E0, S, S0)
        yield from self.kept(v, e, p, E, E0, S, S0)

    def kept(self, v, e, p, E, E0, S, S0):
        yield ('same number of values', E.n == E0.n)
        yield ('the size stays within the limits', And(0 <= S, S <= E.n))
        if self.node:
            yield ('the size stays within the limits of the node', And(v.inp('min') <= S, S <= v.inp('max')))
        yield ('all values are integers in the range', in_range(E.a[0], E.n, E.n))
        yield ('all values are distinct', distinct(E.a[0], E.n))

    def tracked(self, v, e, p, E, E0, S, S0):
        yield ('earlier changes are kept', And(prefix_kept(p.vec('previous'), e.vec('previous')), prefix_kept(p.vec('all'), e.vec('all'))))
        yield ('recorded changes are valid and describe the visible part', And(self.gp.ok(e), self.gp.len(e) == S, same_range(self.gp.arr(e), E.a[0], 0, S)))
        yield ('recorded changes for reverting are valid and describe all values', And(self.ga.ok(e), self.ga.len(e) == E.n, same_range(self.ga.arr(e), E.a[0], 0, E.n)))
        yield ('changes for reverting add and remove nothing', plain(e.vec('all')))
        yield ('committed size is not touched', e.i('previous_size') == p.i('previous_size'))


def swapped(E, E0, i, j):
    return forall(0, E0.n, lambda k: sel(E.a[0], k) == If(k == i, sel(E0.a[0], j), If(k == j, sel(E0.a[0], i), sel(E0.a[0], k))), lambda k: [sel(E.a[0], k)])


class Exchange(Base):
    fn = 'h_exchange'
    functions = ['CollectionStateData::exchange']

    def requires(self, v, E):
        v.assume(plain(v.vec('all')))
        for n in 'ij':
            v.assume(And(0 <= v.inp(n), v.inp(n) < E.n))
        v.assume(v.inp('i') != v.inp('j'))

    def ensures(self, v, e, p, E, E0, S, S0):
        yield ('the two values are exchanged and no other changes', swapped(E, E0, v.inp('i'), v.inp('j')))
        yield ('size unchanged', S == S0)
        yield from self.tracked(v, e, p, E, E0, S, S0)


class NodeExchange(Exchange):
    fn = 'h_node_exchange'
    functions = ['CollectionNode::exchange']
    node = True

    def requires(self, v, E):
        v.assume(plain(v.vec('all')))
        for n in 'ij':
            v.assume(And(0 <= v.inp(n), v.inp(n) < E.n))


def rotated(E, E0, d, s, n):
    """element s moved to place d, those between moved over by one"""
    return forall(0, n, lambda k: sel(E.a[0], k) == If(k == d, sel(E0.a[0], s), If(And(d < k, k <= s), sel(E0.a[0], k - 1), If(And(s <= k, k < d), sel(E0.a[0], k + 1), sel(E0.a[0], k)))),
                  lambda k: [sel(E.a[0], k)])


class Rotate(Base):
    fn = 'h_rotate'
    functions = ['CollectionStateData::rotate']

    def requires(self, v, E):
        v.assume(plain(v.vec('all')))
        for n in 'ij':
            v.assume(And(0 <= v.inp(n), v.inp(n) < v.i('size')))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        E, E0 = c.vec('elements'), p.vec('elements')
        d, s = c.inp('i'), c.inp('j')
        S0, it = p.i('size'), lc.it
        out = [('earlier changes kept', And(prefix_kept(p.vec('previous'), c.vec('previous')), prefix_kept(p.vec('all'), c.vec('all')))),
               ('ghosts ok', And(self.gp.ok(c), self.ga.ok(c), self.gp.len(c) == S0, self.ga.len(c) == E0.n)),
               ('ghosts agree', And(same_range(self.gp.arr(c), E.a[0], 0, S0), same_range(self.ga.arr(c), E.a[0], 0, E0.n))),
               ('plain', plain(c.vec('all'))),
               ('length', E.n == E0.n)]
        for i in [d + it, d - it] + lc.ints:
            out.append(('shifted up so far', forall(0, E0.n, lambda k: sel(E.a[0], k) == If(And(d <= k, k < i), If(k == d, sel(E0.a[0], s), sel(E0.a[0], k - 1)), sel(E0.a[0], k)), lambda k: [sel(E.a[0], k)])))
            out.append(('shifted down so far', forall(0, E0.n, lambda k: sel(E.a[0], k) == If(And(i < k, k <= d), If(k == d, sel(E0.a[0], s), sel(E0.a[0], k + 1)), sel(E0.a[0], k)), lambda k: [sel(E.a[0], k)])))
            for r in lc.reals:
                out.append(('carried value up', r == If(i == d, sel(E0.a[0], s), sel(E0.a[0], i - 1))))
                out.append(('carried value down', r == If(i == d, sel(E0.a[0], s), sel(E0.a[0], i + 1))))
        return out

    def ensures(self, v, e, p, E, E0, S, S0):
        yield ('the value moves to its new place and those between move over by one', rotated(E, E0, v.inp('i'), v.inp('j'), E0.n))
        yield ('size unchanged', S == S0)
        yield from self.tracked(v, e, p, E, E0, S, S0)


class NodeRotate(Rotate):
    fn = 'h_node_rotate'
    functions = ['CollectionNode::rotate']
    node = True


class Grow(Base):
    fn = 'h_grow'
    functions = ['CollectionStateData::grow']

    def requires(self, v, E):
        v.assume(plain(v.vec('all')))
        v.assume(v.i('size') < (v.inp('max') if self.node else E.n))

    def ensures(self, v, e, p, E, E0, S, S0):
        yield ('no value changes', same_range(E.a[0], E0.a[0], 0, E0.n))
        yield ('one more value is visible', S == S0 + 1)
        yield from self.tracked(v, e, p, E, E0, S, S0)


class NodeGrow(Grow):
    fn = 'h_node_grow'
    functions = ['CollectionNode::grow']
    node = True

    def requires(self, v, E):
        Grow.requires(self, v, E)
        v.assume(v.inp('min') < v.inp('max'))


class Shrink(Base):
    fn = 'h_shrink'
    functions = ['CollectionStateData::shrink']

    def requires(self, v, E):
        v.assume(plain(v.vec('all')))
        v.assume(v.i('size') > (v.inp('min') if self.node else 0))

    def ensures(self, v, e, p, E, E0, S, S0):
        yield ('no value changes', same_range(E.a[0], E0.a[0], 0, E0.n))
        yield ('one value less is visible', S == S0 - 1)
        yield from self.tracked(v, e, p, E, E0, S, S0)


class NodeShrink(Shrink):
    fn = 'h_node_shrink'
    functions = ['CollectionNode::shrink']
    node = True


class Commit(Base):
    fn = 'h_commit'
    functions = ['CollectionStateData::commit']

    def ensures(self, v, e, p, E, E0, S, S0):
        yield ('no value changes', same_range(E.a[0], E0.a[0], 0, E0.n))
        yield ('size unchanged', S == S0)
        yield ('nothing is pending', And(e.vec('previous').n == 0, e.vec('all').n == 0))
        yield ('the size is the committed one', e.i('previous_size') == S0)


class NodeCommit(Commit):
    fn = 'h_node_commit'
    functions = ['CollectionNode::commit']
    node = True


class Revert(Base):
    fn = 'h_revert'
    functions = ['CollectionStateData::revert']
    bounded = dict(maxlen=2, unroll=8, ints={})

    def requires(self, v, E):
        U = v.vec('all')
        self.h = History('committed')
        v.assume(self.h.len(z3.IntVal(0)) == E.n)
        v.assume(self.h.valid(U))
        v.assume(plain(U))
        v.assume(self.h.ends_at(U, E))
        H0 = self.h.arr(z3.IntVal(0))
        v.assume(in_range(H0, E.n, E.n))
        v.assume(distinct(H0, E.n))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        E, E0, U0 = c.vec('elements'), p.vec('elements'), p.vec('all')
        k = U0.n - lc.it
        return [('length', E.n == E0.n), ('undone back to update m-it', And(same_range(E.a[0], self.h.arr(k), 0, E0.n), self.h.len(k) == E0.n)),
                ('undone back to update it', same_range(E.a[0], self.h.arr(lc.it), 0, E0.n))]

    def ensures(self, v, e, p, E, E0, S, S0):
        yield ('the committed values are back', same_range(E.a[0], self.h.arr(z3.IntVal(0)), 0, E0.n))
        yield ('the committed size is back', And(S == p.i('previous_size'), e.i('previous_size') == p.i('previous_size')))
        yield ('nothing is pending', And(e.vec('previous').n == 0, e.vec('all').n == 0))


class NodeRevert(Revert):
    fn = 'h_node_revert'
    functions = ['CollectionNode::revert']
    node = True


class New(Base):
    fn = 'h_new'
    functions = ['CollectionStateData::CollectionStateData(n, size)']
    bounded = dict(maxlen=2, unroll=8, ints=dict(n=[0, 1, 2, 3]))

    def sizes(self, v):
        return v.inp('n'), v.inp('k')

    def pre(self, v, name):
        n, k = self.sizes(v)
        v.assume(And(0 <= k, k <= n, n < 2 ** 40))

    def loop_cands(self, lc):
        out = []
        for a, n in lc.vecs('f64'):
            out.append(('length follows', n == lc.it))
            out.append(('values follow', forall(0, n, lambda k: sel(a, k) == z3.ToReal(k), lambda k: [sel(a, k)])))
        return out

    def post(self, v, kind, ret):
        if kind != 'ret':
            yield ('does not throw', False)
            return
        e = v.at('end')
        n, k = self.sizes(v)
        E = e.vec('elements')
        yield ('all values of the range, in order', And(E.n == n, forall(0, n, lambda q: sel(E.a[0], q) == z3.ToReal(q))))
        yield ('the size is as asked for', And(e.i('size') == k, e.i('previous_size') == k))
        yield ('nothing is pending', And(e.vec('previous').n == 0, e.vec('all').n == 0))


class ListInit(New):
    fn = 'h_list_init'
    functions = ['ListNode::initialize_state']

    def sizes(self, v):
        return v.inp('n'), v.inp('max')


class SetInit(New):
    fn = 'h_set_init'
    functions = ['SetNode::initialize_state']

    def sizes(self, v):
        return v.inp('n'), v.inp('min')


class NewFrom(Spec):
    src = SRC
    fn = 'h_new_from'
    functions = ['CollectionStateData::CollectionStateData(elements, size)']

    def post(self, v, kind, ret):
        if kind != 'ret':
            yield ('does not throw', False)
            return
        e, p = v.at('end'), v.at('pre')
        E, V = e.vec('elements'), p.vec('v')
        yield ('holds the given values', And(E.n == V.n, same_range(E.a[0], V.a[0], 0, V.n)))
        yield ('the size is as given', And(e.i('size') == v.inp('k'), e.i('previous_size') == v.inp('k')))
        yield ('nothing is pending', And(e.vec('previous').n == 0, e.vec('all').n == 0))


class ListMove(Base):
    fn = 'h_list_move'
    functions = ['ListNode::default_move']
    node = True

    def requires(self, v, E):
        v.assume(plain(v.vec('all')))
        # a node of fixed size is always full
        v.assume(Implies(v.inp('min') == v.inp('max'), v.i('size') == v.inp('max')))

    def ensures(self, v, e, p, E, E0, S, S0):
        yield from self.tracked(v, e, p, E, E0, S, S0)
        yield ('size unchanged', S == S0)


class SetMove(ListMove):
    fn = 'h_set_move'
    functions = ['SetNode::default_move']

    def ensures(self, v, e, p, E, E0, S, S0):
        yield from self.tracked(v, e, p, E, E0, S, S0)
        yield ('size changes by one at most', And(S <= S0 + 1, S >= S0 - 1))


class Observe(Base):
    fn = 'h_observe'
    functions = ['CollectionNode::size', 'CollectionNode::size_diff', 'CollectionNode::shape', 'CollectionNode::buff', 'CollectionNode::diff', 'CollectionNode::min', 'CollectionNode::max', 'CollectionNode::integral']
    node = True

    def requires(self, v, E):
        ListMove.requires(self, v, E)
        v.assume(Implies(v.inp('min') == v.inp('max'), v.i('previous_size') == v.inp('max')))

    def ensures(self, v, e, p, E, E0, S, S0):
        o = lambda k: e.i('out', 8 * k)
        yield ('size is the visible one', o(0) == S0)
        yield ('size change is current minus committed size', o(1) == S0 - p.i('previous_size'))
        yield ('all recorded changes are exposed', o(2) == p.vec('previous').n)
        yield ('the shape is the size', And(o(3) == 1, o(4) == S0))
        fixed = v.inp('min') == v.inp('max')
        yield ('the size is fixed exactly if the limits agree', And((o(6) == 0) == fixed, o(5) == If(fixed, v.inp('max'), -1)))
        yield ('reported bounds', And(e.r('lo') == 0, e.r('hi') == z3.ToReal(v.inp('n') - 1)))


class Limits(Spec):
    src = SRC
    fn = 'h_limits'
    functions = ['CollectionNode::CollectionNode', 'SetNode::SetNode']

    def post(self, v, kind, ret):
        n, a, b = v.inp('n'), v.inp('min'), v.inp('max')
        ok = And(0 <= a, a <= b, b <= n)
        yield ('limits that do not make sense are rejected, others are not', ok if kind == 'ret' else Not(ok))


class Contents(Base):
    fn = 'h_contents'
    functions = ['CollectionNode::initialize_state(contents)']
    bounded = dict(maxlen=3, unroll=8, ints=dict(n=[0, 1, 2, 3]))

    CNT = z3.Function('CountBelow', z3.IntSort(), z3.IntSort())

    def pre(self, v, name):
        V = v.vec('v')
        v.assume(nonan(V.a[0], V.n))

    def on_uset(self, ex, st, S, N):
        # the number of given values below x; all of them when all are integers from 0 to n-1 (cardinality of a finite set)
        ex.models_used.add('a finite set of integers from 0 to n-1 has as many elements as members below n (arithmetic)')
        x = z3.Int('cx')
        st.assume(self.CNT(z3.IntVal(0)) == 0)
        st.assume(z3.ForAll([x], Implies(x >= 0, self.CNT(x + 1) == self.CNT(x) + If(z3.Select(S, z3.ToReal(x)), 1, 0)), patterns=[z3.Select(S, z3.ToReal(x))]))
        st.assume(self.CNT(z3.IntVal(1)) == If(z3.Select(S, z3.RealVal(0)), 1, 0))
        n = View(ex, st).inp('n')
        V = View(ex, st.snaps['pre']).vec('v')
        st.assume(Implies(in_range(V.a[0], V.n, n), self.CNT(n) == N))

    def loop_cands(self, lc):
        c = View(lc.ex, lc.cur)
        V0 = View(lc.ex, lc.cur.snaps['pre']).vec('v')
        n = c.inp('n')
        out = [('checked so far', in_range(V0.a[0], lc.it, n))]
        S = next((x for k, x in lc.cur.ghost.items() if k.startswith('uset:')), None)
        for a, ln in lc.vecs('f64'):
            out += [('given values kept', And(ln >= V0.n, same_range(a, V0.a[0], 0, V0.n))),
                    ('values in range', in_range(a, ln, n)),
                    ('values distinct', distinct(a, ln)),
                    ] + [('added values are below the next one', forall(V0.n, ln, lambda k: sel(a, k) < z3.ToReal(i), lambda k: [sel(a, k)])) for i in [lc.it] + lc.ints]
            if S is not None:
                for i in [lc.it] + lc.ints:     # instances of the definition
                    lc.cur.assume(Implies(i >= 0, self.CNT(z3.simplify(i + 1)) == self.CNT(z3.simplify(i)) + If(z3.Select(S, z3.ToReal(i)), 1, 0)))
                out += [('number of values', ln == V0.n + i - self.CNT(z3.simplify(i))) for i in [lc.it] + lc.ints]
                out.append(('added values are not among the given ones', forall(V0.n, ln, lambda k: Not(z3.Select(S, sel(a, k))), lambda k: [sel(a, k)])))
        return out

    def post(self, v, kind, ret):
        V, n = v.at('pre').vec('v'), v.inp('n')
        ok = And(v.inp('min') <= V.n, V.n <= v.inp('max'), in_range(V.a[0], V.n, n), distinct(V.a[0], V.n))
        if kind == 'throw':
            yield ('only contents that break the rules are rejected', Not(ok))
            return
        e = v.at('end')
        E = e.vec('elements')
        yield ('contents that break the rules are rejected', ok)
        yield ('the given values are the visible ones', And(e.i('size') == V.n, e.i('previous_size') == V.n, E.n >= V.n, same_range(E.a[0], V.a[0], 0, V.n)))
        yield ('all values are integers in the range', in_range(E.a[0], E.n, n))
        yield ('all values are distinct', distinct(E.a[0], E.n))
        yield ('there are as many values as the range has', E.n == n)
        yield ('nothing is pending', And(e.vec('previous').n == 0, e.vec('all').n == 0))


ALL = [Exchange, NodeExchange, Rotate, NodeRotate, Grow, NodeGrow, Shrink, NodeShrink, Commit, NodeCommit, Revert, NodeRevert, New, NewFrom, ListInit, SetInit, ListMove, SetMove, Observe, Limits, Contents]
