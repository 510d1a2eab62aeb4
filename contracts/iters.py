"""Contracts of the array iterators (array.hpp).

A strided iterator at location loc (axes 1..n-1) and row q of axis 0 stands for position q*W[0] + sum loc[k]*W[k+1], where W[k] is the
number of elements behind axis k, and points at q*strides[0] + sum loc[k]*strides[k+1] bytes from the start. Moving by d must change
the position by exactly d, keep loc within the shape, and the pointer in step with the location."""
from common import *
from models import conc

Int = z3.IntSort()
SUF = z3.Function('Sum', AI, AI, Int, Int, Int)      # sum of l[k]*w[k+1] for a <= k < m
_l, _w, _a, _m, _i, _v = z3.Const('sl', AI), z3.Const('sw', AI), z3.Int('sa'), z3.Int('sm'), z3.Int('si'), z3.Int('sv')
SUF_DEF = [
    z3.ForAll([_l, _w, _a, _m], Implies(_a >= _m, SUF(_l, _w, _a, _m) == 0), patterns=[SUF(_l, _w, _a, _m)]),
    z3.ForAll([_l, _w, _a, _m], Implies(_a < _m, SUF(_l, _w, _a, _m) == sel(_l, _a) * sel(_w, _a + 1) + SUF(_l, _w, _a + 1, _m)),
              patterns=[z3.MultiPattern(SUF(_l, _w, _a, _m), sel(_l, _a)), z3.MultiPattern(SUF(_l, _w, _a + 1, _m), sel(_l, _a))]),
]
SUF_STORE = z3.ForAll([_l, _w, _a, _m, _i, _v], Implies(_i < _a, SUF(Store(_l, _i, _v), _w, _a, _m) == SUF(_l, _w, _a, _m)), patterns=[SUF(Store(_l, _i, _v), _w, _a, _m)])
_L, _W, _A, _M, _I, _V, _L2, _q = z3.Const('tl', AI), z3.Const('tw', AI), z3.Int('ta'), z3.Int('tm'), z3.Int('ti'), z3.Int('tv'), z3.Const('tl2', AI), z3.Int('tq')
LEM = [
    ('the sum over later axes does not depend on earlier ones, base', SUF_DEF[:1] + [_A >= _M], SUF(Store(_L, _I, _V), _W, _A, _M) == SUF(_L, _W, _A, _M)),
    ('the sum over later axes does not depend on earlier ones, step', [_A < _M, _I < _A] + [SUF(x, _W, _A, _M) == sel(x, _A) * sel(_W, _A + 1) + SUF(x, _W, _A + 1, _M) for x in (_L, Store(_L, _I, _V))] + [SUF(Store(_L, _I, _V), _W, _A + 1, _M) == SUF(_L, _W, _A + 1, _M)],
     SUF(Store(_L, _I, _V), _W, _A, _M) == SUF(_L, _W, _A, _M)),
    ('equal earlier axes contribute equally, base', [], SUF(_L, _W, 0, _M) - SUF(_L2, _W, 0, _M) == SUF(_L, _W, 0, _M) - SUF(_L2, _W, 0, _M)),
    ('equal earlier axes contribute equally, step', [SUF(x, _W, _A, _M) == sel(x, _A) * sel(_W, _A + 1) + SUF(x, _W, _A + 1, _M) for x in (_L, _L2)] + [0 <= _A, _A < _M, sel(_L, _A) == sel(_L2, _A), SUF(_L, _W, 0, _M) - SUF(_L2, _W, 0, _M) == SUF(_L, _W, _A, _M) - SUF(_L2, _W, _A, _M)],
     SUF(_L, _W, 0, _M) - SUF(_L2, _W, 0, _M) == SUF(_L, _W, _A + 1, _M) - SUF(_L2, _W, _A + 1, _M)),
]


def suf(l, w, a, m):
    ca, cm = conc(a), conc(m)
    if ca is not None and cm is not None:
        r = z3.IntVal(0)
        for k in range(ca, cm):
            r = r + sel(l, k) * sel(w, k + 1)
        return r
    return SUF(l, w, zi(a), zi(m))


def axes(lc, n):
    """the loop counters that run down the axes"""
    out = []
    for x in lc.ints + [n - 1 - lc.it]:
        d = z3.simplify(x + lc.it - n)
        if z3.is_int_value(d) and d.as_long() not in [k for k, _ in out]:
            out.append((d.as_long(), z3.simplify(x)))
    return [x for _, x in out]


class B(Spec):
    src = 'iter.cpp'
    bounded = dict(maxlen=3, unroll=8, ints={'n': [1, 2, 3]})
    opts = dict(lin=True, div='ghost', scaled={'strides': 8})      # strides are multiples of 8; 'strides' below counts elements
    W = z3.Const('W', AI)
    ITS = ['a']

    def axioms(self):
        return SUF_DEF + [SUF_STORE]

    def lemmas(self):
        return LEM

    def array(self, v):
        n = v.inp('n')
        v.assume(And(n >= 1, n < 2 ** 20))
        sh, st = v.vec('shape').a[0], v.vec('strides').a[0]
        W = self.W
        v.assume(forall(1, n, lambda k: And(sel(sh, k) >= 1, sel(W, k) >= 1, sel(W, k - 1) == sel(W, k) * sel(sh, k)), lambda k: [sel(sh, k), sel(W, k)]))
        v.assume(Implies(n >= 1, And(sel(W, n - 1) == 1, sel(W, 0) >= 1)))
        return n, sh, st

    def within(self, loc, sh, lo, n):
        return forall(lo, n - 1, lambda k: And(0 <= sel(loc, k), sel(loc, k) < sel(sh, k + 1)), lambda k: [sel(loc, k)])

    def pre(self, v, name):
        n, sh, st = self.array(v)
        for a in self.ITS:
            v.assume(self.within(v.vec('loc_' + a).a[0], sh, 0, n))

    def prefix(self, l1, l0, w, d, m):
        """instance of the lemma 'equal earlier axes contribute equally'"""
        return Implies(And(0 <= d, d <= m, forall(0, d, lambda k: sel(l1, k) == sel(l0, k))), suf(l1, w, 0, m) - suf(l0, w, 0, m) == suf(l1, w, d, m) - suf(l0, w, d, m))

    def unfold(self, l, w, a, m):
        return Implies(And(0 <= a, a < m), suf(l, w, a, m) == sel(l, a) * sel(w, a + 1) + suf(l, w, a + 1, m))

    def post(self, v, kind, ret):
        if kind == 'throw':
            yield ('does not throw', False)
            return
        yield from self.ensures(v, v.at('end'), v.at('pre'))


class Move(B):
    steps = None

    def by(self, v):
        return v.inp('k') if self.steps is None else z3.IntVal(self.steps)

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        p = View(lc.ex, lc.cur.snaps['pre'])
        c = View(lc.ex, lc.cur)
        n, sh, st = p.inp('n'), p.vec('shape').a[0], p.vec('strides').a[0]
        l0 = p.vec('loc_a').a[0]
        l1 = c.vec('loc_a').a[0]
        W, d = self.W, self.by(p)
        out = []
        for ax in axes(lc, n):
            out += [('axes still to do are unchanged', same_range(l1, l0, 0, ax)), ('axes done are within the shape', self.within(l1, sh, ax, n)), ('axis', And(ax >= 0, lc.it >= 0))]
            for x in lc.ints:
                out.append(('bytes moved so far', x == 8 * (suf(l1, st, ax, n - 1) - suf(l0, st, ax, n - 1))))
            for x in lc.ints + [z3.IntVal(1), z3.IntVal(-1)]:
                out.append(('steps still to go', (d if self.steps is None else z3.IntVal(self.steps)) + suf(l0, W, ax, n - 1) == suf(l1, W, ax, n - 1) + x * sel(W, ax)))
        return out

    def ensures(self, v, e, p):
        n, sh, st = p.inp('n'), p.vec('shape').a[0], p.vec('strides').a[0]
        l0, l1 = p.vec('loc_a').a[0], e.vec('loc_a').a[0]
        W, d = self.W, self.by(p)
        moved = e.i('end_a') - p.inp('at_a')
        m = n - 1
        yield ('the location stays within the shape', self.within(l1, sh, 0, n))
        # where the walk over the axes stopped
        pts = [z3.IntVal(0)] + [x for x in e.st.loopints] + [x - 1 for x in e.st.loopints]
        facts = []
        if conc(n) is None:
            facts = [self.prefix(l1, l0, w, z3.simplify(x), m) for w in (W, st) for x in pts]
            facts += [self.unfold(l, w, z3.simplify(x), m) for w in (W, st) for x in pts for l in (l0, l1)]
        rows = [z3.IntVal(0), z3.IntVal(1), z3.IntVal(-1)] + [x for x in e.st.loopints] + [d]
        goal = Or([And(suf(l1, W, 0, m) - suf(l0, W, 0, m) + q * sel(W, 0) == d, moved == suf(l1, st, 0, m) - suf(l0, st, 0, m) + q * sel(st, 0)) for q in rows])
        yield ('the location and the pointer move by the given number of elements', Implies(And(n >= 1, *facts), goal))


class Inc(Move):
    fn = 'h_inc'
    functions = ['ArrayIteratorImpl_::operator++', 'ShapeInfo::increment1']
    steps = 1


class Dec(Move):
    fn = 'h_dec'
    functions = ['ArrayIteratorImpl_::operator--', 'ShapeInfo::decrement1']
    steps = -1


class Add(Move):
    fn = 'h_add'
    functions = ['ArrayIteratorImpl_::operator+=', 'ShapeInfo::increment']


ALL = [Inc, Dec, Add]


class New(B):
    """a new iterator is at the first element"""
    fn = 'h_new'
    functions = ['ArrayIteratorImpl_::ArrayIteratorImpl_', 'ShapeInfo::ShapeInfo']

    def pre(self, v, name):
        self.array(v)

    def loop_cands(self, lc):
        return [('zero so far', forall(0, lc.it, lambda k: sel(sy, k) == 0, lambda k: [sel(sy, k)])) for sy, v0, key in lc.syms if z3.is_array(sy) and sy.sort() == AI]

    def ensures(self, v, e, p):
        n = p.inp('n')
        loc = e.vec('loc_a')
        yield ('one location per axis but the first', loc.n == n - 1)
        yield ('it is at the first element', forall(0, n - 1, lambda k: sel(loc.a[0], k) == 0))
        yield ('and points there', e.i('end_a') == 0)


class Copy(B):
    """a copy is at the same element and has a location of its own"""
    fn = 'h_copy'
    functions = ['ArrayIteratorImpl_::ArrayIteratorImpl_(const&)', 'ShapeInfo::ShapeInfo(const&)']

    def ensures(self, v, e, p):
        n = p.inp('n')
        a, b, l0 = e.vec('loc_a'), e.vec('loc_b'), p.vec('loc_a')
        yield ('the copy is at the same location', And(b.n == n - 1, same_range(b.a[0], l0.a[0], 0, n - 1), e.i('end_b') == p.inp('at_a')))
        yield ('the original is unchanged', And(same_range(a.a[0], l0.a[0], 0, n - 1), e.i('end_a') == p.inp('at_a')))


class Distance(B):
    """the distance of two iterators of one array is the difference of their positions"""
    fn = 'h_dist'
    functions = ['operator-(ArrayIteratorImpl_, ArrayIteratorImpl_)']
    ITS = ['a', 'b']
    Q = z3.Int('rows')
    opts = dict(B.opts, div_hints=[Q], inv_ms=2000)

    def pos(self, v, w):
        """difference of the positions (w=W) or of the pointers (w=strides)"""
        n = v.inp('n')
        return self.Q * sel(w, 0) + suf(v.vec('loc_a').a[0], w, 0, n - 1) - suf(v.vec('loc_b').a[0], w, 0, n - 1)

    def pre(self, v, name):
        B.pre(self, v, name)
        st = v.vec('strides').a[0]
        v.assume(sel(st, 0) != 0)
        v.assume(v.inp('at_a') - v.inp('at_b') == self.pos(v, st))
        # different positions are different places (no element is visited twice)
        v.assume(Implies(v.inp('at_a') == v.inp('at_b'), self.pos(v, self.W) == 0))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        p = View(lc.ex, lc.cur.snaps['pre'])
        n, st = p.inp('n'), p.vec('strides').a[0]
        la, lb = p.vec('loc_a').a[0], p.vec('loc_b').a[0]
        W = self.W
        out = []
        for ax in axes(lc, n):
            out += [('axis', And(ax >= 0, lc.it >= 0))]
            for x in lc.ints:
                out.append(('steps counted so far', x == suf(la, W, ax, n - 1) - suf(lb, W, ax, n - 1)))
                out.append(('elements per step', x == sel(W, ax)))
                for l, a in ((la, 'at_a'), (lb, 'at_b')):
                    out.append(('pointer set back', x == p.inp(a) - suf(l, st, ax, n - 1)))
            for sy, v0, key in lc.syms:
                if z3.is_array(sy) and sy.sort() == AI:
                    for l in (la, lb):
                        out.append(('axes still to do', same_range(sy, l, 0, ax)))
        return out

    def ensures(self, v, e, p):
        n, st = p.inp('n'), p.vec('strides').a[0]
        yield ('the distance is the difference of the positions', e.i('r') == self.pos(p, self.W))
        for a in 'ab':
            l1, l0 = e.vec('loc_' + a).a[0], p.vec('loc_' + a).a[0]
            yield ('iterator %s is not moved' % a, And(same_range(l1, l0, 0, n - 1), e.i('end_' + a) == p.inp('at_' + a)))


class Flat(B):
    """iterators of contiguous arrays"""
    fn = 'h_flat'
    functions = ['ArrayIteratorImpl_ (contiguous)']
    opts = {}

    def axioms(self):
        return []

    def lemmas(self):
        return []

    def pre(self, v, name):
        n = v.inp('size')
        v.assume(And(0 <= v.inp('i'), v.inp('i') < n, 0 <= v.inp('j'), v.inp('j') <= n, n < 2 ** 40))

    def ensures(self, v, e, p):
        yield ('dereferencing gives the element', e.r('x') == sel(p.vec('data').a[0], v.inp('i')))


class Masked(Flat):
    """iterators of masked arrays: the fill value where the mask is set"""
    fn = 'h_mask'
    functions = ['ArrayIteratorImpl_ (masked)']

    def pre(self, v, name):
        n = v.inp('size')
        v.assume(And(0 <= v.inp('i'), v.inp('i') < n, n < 2 ** 40))
        v.assume(nonan(v.vec('mask').a[0], n))

    def ensures(self, v, e, p):
        i = v.inp('i')
        yield ('dereferencing gives the element or the fill value', e.r('x') == If(sel(p.vec('mask').a[0], i) != 0, p.inp('fill'), sel(p.vec('data').a[0], i)))


class Order(B):
    """iterators compare as their positions do (given the contract of operator-)"""
    fn = 'h_order'
    functions = ['operator<=>(ArrayIteratorImpl_, ArrayIteratorImpl_)']
    ITS = ['a', 'b']

    def __init__(self):
        self.opts = dict(B.opts, contracts=[(r'operator-\(dwave::optimization::Array::ArrayIteratorImpl_<\w+> const&, dwave', self.minus)])

    def minus(self, ex, st, dem, ins, args):
        k = tuple(ex.key(p) for p in args[:2])
        d = lambda k: z3.Int('distance_%s_%s' % k)
        st.assume(d(k) == -d((k[1], k[0])))
        return L.of(d(k))

    def loop_cands(self, lc):
        return []

    def ensures(self, v, e, p):
        n = p.inp('n')
        for a in 'ab':
            l1, l0 = e.vec('loc_' + a).a[0], p.vec('loc_' + a).a[0]
            yield ('iterator %s is not moved' % a, And(same_range(l1, l0, 0, n - 1), e.i('end_' + a) == p.inp('at_' + a)))


ALL = [Inc, Dec, Add, New, Copy, Distance, Order, Flat, Masked]
