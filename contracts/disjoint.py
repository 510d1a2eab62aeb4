"""Contracts of disjoint lists and disjoint bit sets (src/nodes/collections.cpp).

The number of lists is arbitrary.  The lists a move concerns are objects of their own; no other list is reachable from them, so a
move that touched another list could not be interpreted at all.  Functions that visit all lists are checked for an arbitrary one."""
from common import *
from coll import distinct, in_range, rotated, swapped, plain
import vc
from vc import Ptr

SRC = 'disjoint.cpp'


def apart(A, B):
    """no value is in both lists"""
    if z3.is_int_value(z3.simplify(zi(A.n))) and z3.is_int_value(z3.simplify(zi(B.n))):
        return And([sel(A.a[0], i) != sel(B.a[0], j) for i in range(z3.simplify(A.n).as_long()) for j in range(z3.simplify(B.n).as_long())])
    i, j = z3.Ints('pa pb')
    return z3.ForAll([i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < B.n), sel(A.a[0], i) != sel(B.a[0], j)), patterns=[z3.MultiPattern(sel(A.a[0], i), sel(B.a[0], j))])


class Base(Spec):
    src = SRC
    bounded = dict(maxlen=1, len=dict(a=3, b=2, w=2), unroll=8, ints={})
    opts = dict(dist=True, ints=True)
    two = False
    ranged = True

    def pre(self, v, name):
        n, k = v.inp('n'), v.inp('lists')
        v.assume(And(0 <= n, n < 2 ** 40, k < 2 ** 40))
        self.lists = [('a', 'ua')] + ([('b', 'ub')] if self.two else [])
        for a, u in self.lists:
            A = v.vec(a)
            v.assume(And(v.inp('n_%s_at' % a) == k, v.inp('n_%s_at' % u) == k))
            if self.ranged:
                v.assume(And(in_range(A.a[0], A.n, n), distinct(A.a[0], A.n)))
        v.assume(And(v.vec('committed').n == k, v.vec('list_sizes').n == k))
        if self.two:
            v.assume(apart(v.vec('a'), v.vec('b')))
        self.g = {u: DiffGhost(pre=a) for a, u in self.lists}
        for a, u in self.lists:
            self.g[u].init(v, v.vec(a))
        self.requires(v)

    def requires(self, v):
        pass

    def on_push(self, ex, st, label, vals):
        if label in self.g:
            self.g[label].push(ex, st, vals)

    def tracked(self, e, p):
        for a, u in self.lists:
            A, U = e.vec(a), e.vec(u)
            yield ('earlier changes of %s are kept' % a, prefix_kept(p.vec(u), U))
            yield ('recorded changes of %s are valid and describe the list' % a, And(self.g[u].ok(e), self.g[u].agrees(e, A)))
        yield ('committed sizes are not touched', And(e.vec('committed').n == p.vec('committed').n, same_range(e.vec('committed').a[0], p.vec('committed').a[0], 0, p.vec('committed').n)))

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind != 'ret':
            return
        e, p = v.at('end'), v.at('pre')
        yield from self.ensures(v, e, p)

    def still(self, v, e):
        for a, u in self.lists:
            A = e.vec(a)
            if self.ranged:
                yield ('all values of %s are elements' % a, in_range(A.a[0], A.n, v.inp('n')))
                yield ('all values of %s are distinct' % a, distinct(A.a[0], A.n))
        if self.two:
            yield ('no value is in both lists', apart(e.vec('a'), e.vec('b')))


class Rotate(Base):
    fn = 'h_rotate'
    functions = ['DisjointListStateData::rotate_in_list', 'DisjointListsNode::rotate_in_list']

    def requires(self, v):
        for n in 'ij':
            v.assume(And(0 <= v.inp(n), v.inp(n) < v.vec('a').n))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        E, E0 = c.vec('a'), p.vec('a')
        d, s = c.inp('i'), c.inp('j')
        it, g = lc.it, self.g['ua']
        out = [('earlier changes kept', prefix_kept(p.vec('ua'), c.vec('ua'))),
               ('ghost ok', And(g.ok(c), g.len(c) == E0.n)),
               ('ghost agrees', same_range(g.arr(c), E.a[0], 0, E0.n)),
               ('length', E.n == E0.n)]
        for i in [d + it, d - it] + lc.ints:
            out.append(('shifted up so far', forall(0, E0.n, lambda k: sel(E.a[0], k) == If(And(d <= k, k < i), If(k == d, sel(E0.a[0], s), sel(E0.a[0], k - 1)), sel(E0.a[0], k)), lambda k: [sel(E.a[0], k)])))
            out.append(('shifted down so far', forall(0, E0.n, lambda k: sel(E.a[0], k) == If(And(i < k, k <= d), If(k == d, sel(E0.a[0], s), sel(E0.a[0], k + 1)), sel(E0.a[0], k)), lambda k: [sel(E.a[0], k)])))
            for r in lc.reals:
                out.append(('carried value up', r == If(i == d, sel(E0.a[0], s), sel(E0.a[0], i - 1))))
                out.append(('carried value down', r == If(i == d, sel(E0.a[0], s), sel(E0.a[0], i + 1))))
        return out

    def ensures(self, v, e, p):
        E, E0 = e.vec('a'), p.vec('a')
        yield ('same length', E.n == E0.n)
        yield ('the value moves to its new place and those between move over by one', rotated(E, E0, v.inp('i'), v.inp('j'), E0.n))
        yield from self.tracked(e, p)
        yield from self.still(v, e)


class Swap(Base):
    fn = 'h_swap'
    functions = ['DisjointListStateData::swap_in_list', 'DisjointListsNode::swap_in_list']
    requires = Rotate.requires

    def ensures(self, v, e, p):
        E, E0 = e.vec('a'), p.vec('a')
        yield ('same length', E.n == E0.n)
        yield ('the two values are exchanged and no other changes', swapped(E, E0, v.inp('i'), v.inp('j')))
        yield from self.tracked(e, p)
        yield from self.still(v, e)


class Pop(Base):
    fn = 'h_pop'
    functions = ['DisjointListStateData::pop_to_list', 'DisjointListsNode::pop_to_list']
    bounded = dict(maxlen=2, len=dict(a=2, b=2), unroll=8, ints=dict(lists=[2]))
    two = True

    def requires(self, v):
        v.assume(And(0 <= v.inp('i'), v.inp('i') < v.vec('a').n, 0 <= v.inp('j'), v.inp('j') <= v.vec('b').n))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        A, A0, B, B0 = c.vec('a'), p.vec('a'), c.vec('b'), p.vec('b')
        i, j, it = c.inp('i'), c.inp('j'), lc.it
        x = sel(A0.a[0], i)
        out = [('lengths', And(A.n == A0.n, B.n == B0.n)), ('length of the second list', B.n == B0.n)]
        for u, (X, X0) in dict(ua=(A, A0), ub=(B, B0)).items():
            out += [('earlier changes kept', prefix_kept(p.vec(u), c.vec(u))), ('ghost ok', And(self.g[u].ok(c), self.g[u].len(c) == X0.n)), ('ghost agrees', same_range(self.g[u].arr(c), X.a[0], 0, X0.n))]
        out.append(('closed up so far', forall(0, A0.n, lambda k: sel(A.a[0], k) == If(And(i <= k, k < i + it), sel(A0.a[0], k + 1), sel(A0.a[0], k)), lambda k: [sel(A.a[0], k)])))
        out.append(('opened up so far', forall(0, B0.n, lambda k: sel(B.a[0], k) == If(And(j <= k, k < j + it), If(k == j, x, sel(B0.a[0], k - 1)), sel(B0.a[0], k)), lambda k: [sel(B.a[0], k)])))
        for r in lc.reals:
            out.append(('carried value', r == If(it == 0, x, sel(B0.a[0], j + it - 1))))
        return out

    def ensures(self, v, e, p):
        A, A0, B, B0 = e.vec('a'), p.vec('a'), e.vec('b'), p.vec('b')
        i, j = v.inp('i'), v.inp('j')
        yield ('the value leaves the first list, the others stay in order', And(A.n == A0.n - 1, forall(0, A.n, lambda k: sel(A.a[0], k) == If(k < i, sel(A0.a[0], k), sel(A0.a[0], k + 1)), lambda k: [sel(A.a[0], k)])))
        yield ('the value is in the second list at its place, the others stay in order', And(B.n == B0.n + 1, forall(0, B.n, lambda k: sel(B.a[0], k) == If(k < j, sel(B0.a[0], k), If(k == j, sel(A0.a[0], i), sel(B0.a[0], k - 1))), lambda k: [sel(B.a[0], k)])))
        yield from self.tracked(e, p)
        yield from self.still(v, e)


class SetState(Base):
    fn = 'h_set'
    functions = ['DisjointListStateData::set_state', 'DisjointListsNode::set_state']
    ranged = False

    def requires(self, v):
        W, A = v.vec('w'), v.vec('a')
        v.assume(And(nonan(W.a[0], W.n), nonan(A.a[0], A.n)))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        W = p.vec('w')
        return assign_cands(self.g['ua'], c, p, lc.it, lambda k: sel(W.a[0], k), W.n, 'a', 'ua')

    def ensures(self, v, e, p):
        A, W = e.vec('a'), p.vec('w')
        yield ('the list has the given values', And(A.n == W.n, same_range(A.a[0], W.a[0], 0, W.n)))
        yield from self.tracked(e, p)


class Commit(Base):
    fn = 'h_commit'
    functions = ['DisjointListStateData::commit', 'DisjointListsNode::commit']

    def requires(self, v):
        # without recorded changes the size is the committed one
        v.assume(Implies(v.vec('ua').n == 0, sel(v.vec('committed').a[0], v.inp('l')) == v.vec('a').n))

    def on_other(self, v, name, idx, obj):
        other = {'a_at': 'ua_at', 'ua_at': 'a_at'}[name]
        b = v.ex.make_other(v.st, v.st.labels[other + '[]'].obj, idx)

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        l = c.inp('l')
        A, A0, U, U0, C = c.vec('a'), p.vec('a'), c.vec('ua'), p.vec('ua'), c.vec('committed')
        out = [('no list changes', And(A.n == A0.n, same_range(A.a[0], A0.a[0], 0, A0.n)))]
        for it in (lc.it, lc.it + 1):
            out += [('changes not forgotten yet', Implies(it <= l, And(U.n == U0.n, sel(C.a[0], l) == sel(p.vec('committed').a[0], l)))),
                    ('changes forgotten', Implies(it > l, And(U.n == 0, sel(C.a[0], l) == A0.n)))]
        return out

    def ensures(self, v, e, p):
        l = v.inp('l')
        A, A0 = e.vec('a'), p.vec('a')
        yield ('no value changes', And(A.n == A0.n, same_range(A.a[0], A0.a[0], 0, A0.n)))
        yield ('nothing is pending', e.vec('ua').n == 0)
        yield ('the size is the committed one', sel(e.vec('committed').a[0], l) == A.n)


class Revert(Base):
    fn = 'h_revert'
    functions = ['DisjointListStateData::revert', 'DisjointListsNode::revert']
    bounded = dict(maxlen=1, len=dict(a=2, ua=2), unroll=6, ints=dict(lists=[1, 2], l=[0]))

    def history(self, v, tag, A, U):
        h = History('committed_%s' % tag)
        v.assume(And(h.valid(U), h.ends_at(U, A), h.len(z3.IntVal(0)) >= 0))
        return h

    def requires(self, v):
        self.h = self.history(v, 'a', v.vec('a'), v.vec('ua'))
        self.others = {}
        v.assume(sel(v.vec('committed').a[0], v.inp('l')) == self.h.len(z3.IntVal(0)))

    def on_other(self, v, name, idx, obj):
        other = {'a_at': 'ua_at', 'ua_at': 'a_at'}[name]
        b = v.ex.make_other(v.st, v.st.labels[other + '[]'].obj, idx)
        A, U = (obj, b) if name == 'a_at' else (b, obj)
        self.others[A] = (self.history(v, str(A), v.vec(Ptr(A, 0)), v.vec(Ptr(U, 0))), v.vec(Ptr(U, 0)))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        l = c.inp('l')
        A, A0, U, U0 = c.vec('a'), p.vec('a'), c.vec('ua'), p.vec('ua')
        zero = z3.IntVal(0)
        at = lambda X, h, k: And(X.n == h.len(k), same_range(h.arr(k), X.a[0], 0, X.n))
        rec = And(U.n == U0.n, *[same_range(U.a[q], U0.a[q], 0, U0.n) for q in U0.a])
        out = [('recorded changes do not change', rec)]
        for it in (lc.it, lc.it + 1):
            out += [('not reverted yet', Implies(it <= l, And(A.n == A0.n, same_range(A.a[0], A0.a[0], 0, A0.n), rec))),
                    ('reverted', Implies(it > l, And(at(A, self.h, zero), U.n == 0)))]
        out += [
               ('changes not forgotten yet', And(U.n == U0.n)),
               ('nothing changes', And(A.n == A0.n, same_range(A.a[0], A0.a[0], 0, A0.n), U.n == U0.n)),
               ('undone back to an update', at(A, self.h, U0.n - lc.it))]
        for o, (h, W) in self.others.items():
            if o in lc.cur.mem:
                out.append(('undone back to an update of the other list', at(c.vec(Ptr(o, 0)), h, W.n - lc.it)))
        return out

    def ensures(self, v, e, p):
        A = e.vec('a')
        zero = z3.IntVal(0)
        yield ('the committed values are back', And(A.n == self.h.len(zero), same_range(A.a[0], self.h.arr(zero), 0, A.n)))
        yield ('nothing is pending', e.vec('ua').n == 0)
        C, C0 = e.vec('committed'), p.vec('committed')
        yield ('committed sizes are not touched', And(C.n == C0.n, same_range(C.a[0], C0.a[0], 0, C0.n)))


class Observe(Base):
    fn = 'h_observe'
    functions = ['DisjointListNode::size', 'DisjointListNode::size_diff', 'DisjointListNode::shape', 'DisjointListNode::buff', 'DisjointListNode::diff', 'DisjointListNode::min', 'DisjointListNode::max', 'DisjointListNode::integral', 'DisjointListsNode::get_disjoint_list_size']

    def ensures(self, v, e, p):
        o = e.arr('out')
        A = p.vec('a')
        yield ('the size is that of the list', And(o(0) == A.n, o(5) == A.n))
        yield ('size change is current minus committed size', o(1) == A.n - sel(p.vec('committed').a[0], v.inp('l')))
        yield ('all recorded changes are exposed', o(2) == p.vec('ua').n)
        yield ('the shape is the size', And(o(3) == 1, o(4) == A.n))
        yield ('the bounds enclose the elements', And(e.r('lo') == 0, e.r('hi') == z3.ToReal(v.inp('n')) - 1))


class New(Spec):
    src = SRC
    fn = 'h_new'
    functions = ['DisjointListStateData::DisjointListStateData', 'DisjointListsNode::initialize_state']
    bounded = dict(maxlen=2, unroll=8, ints=dict(n=[0, 1, 2, 3], lists=[1, 2], l=[0, 1]))

    def pre(self, v, name):
        v.assume(v.inp('n') < 2 ** 40)

    def loop_cands(self, lc):
        out = []
        n = View(lc.ex, lc.cur).inp('n')
        for a, ln in lc.vecs('f64'):
            out += [('filled so far', And(ln == lc.it, forall(0, lc.it, lambda k: sel(a, k) == z3.ToReal(k), lambda k: [sel(a, k)])))]
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            A, n, k = e.vec('a'), v.inp('n'), v.inp('lists')
            C, o = e.vec('committed'), e.arr('out')
            yield ('all elements are in the first list', And(A.n == If(v.inp('l') == 0, n, 0), forall(0, A.n, lambda q: sel(A.a[0], q) == z3.ToReal(q), lambda q: [sel(A.a[0], q)])))
            yield ('nothing is pending', e.vec('ua').n == 0)
            yield ('the sizes are the committed ones', And(C.n == k, sel(C.a[0], v.inp('l')) == A.n))
            yield ('one entry for each list', And(*[o(q) == k for q in range(4)]))


class Limits(Spec):
    src = SRC
    fn = 'h_limits'
    functions = ['DisjointListsNode::DisjointListsNode']

    def post(self, v, kind, ret):
        ok = And(v.inp('n') >= 0, v.inp('lists') >= 1)
        yield ('impossible numbers are rejected, others are not', ok if kind == 'ret' else Not(ok))


class BitLimits(Limits):
    fn = 'h_b_limits'
    functions = ['DisjointBitSetsNode::DisjointBitSetsNode']


# ------------------------------------------------------------------- bit sets
# element x is in set number loc(x) and in no other
LOC = z3.Function('set_of', z3.IntSort(), z3.IntSort())


class Bits(Spec):
    src = SRC
    bounded = dict(maxlen=1, len=dict(bits=6), unroll=10, ints=dict(n=[0, 1, 2, 3], sets=[1, 2], x=[0, 1], l=[0, 1], m=[0, 1]))
    opts = dict(ints=True)
    sets = ()

    def __init__(self):
        # any set and any element
        self.s, self.y = z3.Ints('any_set any_element')

    def at(self, v, s, x):
        return s * v.inp('n') + x

    def member(self, v, B, s, x, loc):
        return sel(B.a[0], self.at(v, s, x)) == If(loc == s, z3.RealVal(1), z3.RealVal(0))

    def pre(self, v, name):
        n, k = v.inp('n'), v.inp('sets')
        B = v.vec('bits')
        v.assume(And(n < 2 ** 20, k < 2 ** 20, B.n == n * k, 0 <= self.s, self.s < k, 0 <= self.y, self.y < n if 'x' in self.args else self.y >= 0))
        for a in self.args:
            v.assume(And(0 <= v.inp(a), v.inp(a) < (n if a == 'x' else k)))
        # positions of different members differ and are inside the block (lemma 'positions')
        ss = [self.s] + [v.inp(a) for a in self.args if a != 'x']
        xs = [self.y] + [v.inp(a) for a in self.args if a == 'x']
        for s in ss:
            for x in xs:
                v.assume(Implies(And(0 <= x, x < n), And(0 <= self.at(v, s, x), self.at(v, s, x) < B.n)))
                v.assume(Implies(And(0 <= x, x < n), self.member(v, B, s, x, LOC(x))))
                for s2 in ss:
                    for x2 in xs:
                        v.assume(Implies(And(0 <= x, x < n, 0 <= x2, x2 < n, self.at(v, s, x) == self.at(v, s2, x2)), And(s == s2, x == x2)))
        v.assume(forall(0, B.n, lambda q: sel(B.a[0], q) != NAN, lambda q: [sel(B.a[0], q)]))
        for x in xs:
            v.assume(And(0 <= LOC(x), LOC(x) < k))
        self.requires(v, B)

    def lemmas(self):
        n, k, s, x, s2, x2 = z3.Ints('pn pk ps px ps2 px2')
        rng = [0 <= x, x < n, 0 <= s, s < k, 0 <= x2, x2 < n, 0 <= s2, s2 < k]
        return [('positions: inside', rng[:4], And(0 <= s * n + x, s * n + x < n * k)), ('positions: different', rng + [s * n + x == s2 * n + x2], And(s == s2, x == x2))]

    def requires(self, v, B):
        pass

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            yield from self.ensures(v, v.at('end'), v.at('pre'))


class BitSwap(Bits):
    fn = 'h_b_swap'
    functions = ['DisjointBitSetsNodeData::swap_between_sets', 'DisjointBitSetsNode::swap_between_sets']
    args = ('l', 'm', 'x')

    def requires(self, v, B):
        self.g = {}
        for a, u in (('l', 'ua'), ('m', 'ub')):
            if a in self.args:
                v.assume(v.inp('n_%s_at' % u) == v.inp('sets'))
                self.g[u] = g = DiffGhost(pre=u)
                G = z3.Const('set_' + a, AR)
                v.assume(forall(0, v.inp('n'), lambda q: sel(G, q) == sel(B.a[0], self.at(v, v.inp(a), q)), lambda q: [sel(G, q)]))
                v.assume(sel(G, v.inp('x')) == sel(B.a[0], self.at(v, v.inp(a), v.inp('x'))))
                v.ghost(u + 'GA', G)
                v.ghost(u + 'GL', v.inp('n'))
                v.ghost(u + 'GOK', z3.BoolVal(True))
                v.assume(Implies(And(0 <= self.y, self.y < v.inp('n')), sel(G, self.y) == sel(B.a[0], self.at(v, v.inp(a), self.y))))

    def on_push(self, ex, st, label, vals):
        if label in self.g:
            self.g[label].push(ex, st, vals)

    def ensures(self, v, e, p):
        B, B0 = e.vec('bits'), p.vec('bits')
        n, x, l = v.inp('n'), v.inp('x'), v.inp('l')
        m = v.inp('m') if 'm' in self.args else l
        loc = LOC(self.y)
        new = If(And(self.y == x, loc == l), m, If(And(self.y == x, loc == m), l, loc))
        yield ('same size', B.n == B0.n)
        yield ('the element changes its set, every element is in exactly one set', self.member(v, B, self.s, self.y, new))
        for a, u in (('l', 'ua'), ('m', 'ub')):
            if u in self.g:
                U, U0, g = e.vec(u), p.vec(u), self.g[u]
                yield ('earlier changes are kept', prefix_kept(U0, U))
                yield ('recorded changes are valid and describe the set', And(g.ok(e), g.len(e) == n, sel(g.arr(e), self.y) == sel(B.a[0], self.at(v, v.inp(a), self.y))))


class BitSwapSame(BitSwap):
    fn = 'h_b_swap_same'
    args = ('l', 'x')


class BitWhich(Bits):
    fn = 'h_b_which'
    functions = ['DisjointBitSetsNodeData::get_containing_set_index', 'DisjointBitSetsNode::get_containing_set_index']
    args = ('x',)

    def requires(self, v, B):
        x, k = v.inp('x'), v.inp('sets')
        self.here(v, v, LOC(x))
        for s in range(3 if vc.BOUNDED[0] else 0):
            self.here(v, v, z3.IntVal(s))

    def here(self, c, v, s):
        """instance of the assumption about the sets, for set s"""
        x, k, B = v.inp('x'), v.inp('sets'), v.vec('bits')
        c.assume(Implies(And(0 <= s, s < k), And(0 <= self.at(v, s, x), self.at(v, s, x) < B.n, self.member(v, B, s, x, LOC(x)))))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        self.here(c, p, lc.it)
        return [('not found yet', LOC(p.inp('x')) >= lc.it)]

    def ensures(self, v, e, p):
        yield ('the set of the element', e.i('out') == LOC(v.inp('x')))


class BitCommit(Bits):
    fn = 'h_b_commit'
    functions = ['DisjointBitSetsNodeData::commit', 'DisjointBitSetsNode::commit']
    args = ('l',)

    def requires(self, v, B):
        v.assume(v.inp('n_ua_at') == v.inp('sets'))

    def loop_cands(self, lc):
        c = View(lc.ex, lc.cur)
        return [('forgotten', Implies(it > c.inp('l'), c.vec('ua').n == 0)) for it in (lc.it, lc.it + 1)]

    def ensures(self, v, e, p):
        B, B0 = e.vec('bits'), p.vec('bits')
        yield ('no set changes', And(B.n == B0.n, same_range(B.a[0], B0.a[0], 0, B0.n)))
        yield ('nothing is pending', e.vec('ua').n == 0)


class BitObserve(Bits):
    fn = 'h_b_observe'
    functions = ['DisjointBitSetNode::size', 'DisjointBitSetNode::size_diff', 'DisjointBitSetNode::shape', 'DisjointBitSetNode::buff', 'DisjointBitSetNode::diff', 'DisjointBitSetNode::min', 'DisjointBitSetNode::max', 'DisjointBitSetNode::integral']
    args = ('l',)

    def ensures(self, v, e, p):
        o, n = e.arr('out'), v.inp('n')
        yield ('the size is the number of elements', And(o(0) == n, o(1) == 0, o(3) == 1, o(4) == n, o(5) == n))
        yield ('all recorded changes are exposed', o(2) == p.vec('ua').n)
        yield ('the values are those of the set', o(6) == v.inp('l') * n)
        yield ('the bounds', And(e.r('lo') == 0, e.r('hi') == 1))


class BitNew(Spec):
    src = SRC
    fn = 'h_b_new'
    functions = ['DisjointBitSetsNodeData::DisjointBitSetsNodeData', 'DisjointBitSetsNode::initialize_state']
    bounded = dict(maxlen=2, unroll=10, ints=dict(n=[0, 1, 2, 3], sets=[1, 2], l=[0, 1]))

    def pre(self, v, name):
        n, k = v.inp('n'), v.inp('sets')
        v.assume(And(n < 2 ** 20, k < 2 ** 20, n * k >= n))     # k >= 1

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        n, k = v.inp('n'), v.inp('sets')
        return [('first set so far', And(ln == n * k, forall(0, ln, lambda q: sel(a, q) == If(q < lc.it, z3.RealVal(1), z3.RealVal(0)), lambda q: [sel(a, q)]))) for a, ln in lc.vecs('f64')]

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            B, n, k, o = e.vec('bits'), v.inp('n'), v.inp('sets'), e.arr('out')
            yield ('all elements are in the first set', And(B.n == n * k, forall(0, B.n, lambda q: sel(B.a[0], q) == If(q < n, z3.RealVal(1), z3.RealVal(0)), lambda q: [sel(B.a[0], q)])))
            yield ('nothing is pending', And(e.vec('ua').n == 0, o(0) == k, o(1) == n, o(2) == k))


ALL = [Rotate, Swap, Pop, SetState, Commit, Revert, Observe, New, Limits, BitLimits, BitSwap, BitSwapSame, BitWhich, BitCommit, BitObserve, BitNew]
