"""Contracts of the shape arithmetic (array.hpp, array.cpp): sizes, strides, contiguity, broadcasting, multi-indices."""
from common import *
from models import PROD, conc

Int = z3.IntSort()


def prod(a, lo, hi):
    """a[lo] * ... * a[hi-1]; expanded when the range is concrete"""
    l, h = conc(lo), conc(hi)
    if l is not None and h is not None and h - l <= 12:
        r = z3.IntVal(1)
        for k in range(h - 1, l - 1, -1):
            r = sel(a, k) * r
        return r
    return PROD(a, zi(lo), zi(hi))


_a, _l, _h = z3.Const('pa', AI), z3.Int('pl'), z3.Int('ph')
PROD_DEF = [
    z3.ForAll([_a, _l, _h], Implies(_l >= _h, PROD(_a, _l, _h) == 1), patterns=[PROD(_a, _l, _h)]),
    z3.ForAll([_a, _l, _h], Implies(_l < _h, PROD(_a, _l, _h) == sel(_a, _l) * PROD(_a, _l + 1, _h)), patterns=[z3.MultiPattern(PROD(_a, _l, _h), sel(_a, _l))]),
]
# Prod(a,l,h+1) == Prod(a,l,h)*a[h]: by induction on h-l
PROD_TAIL = z3.ForAll([_a, _l, _h], Implies(_l <= _h, PROD(_a, _l, _h + 1) == PROD(_a, _l, _h) * sel(_a, _h)), patterns=[z3.MultiPattern(PROD(_a, _l, _h), sel(_a, _h))])
_A, _L, _H = z3.Const('la', AI), z3.Int('ll'), z3.Int('lh')
PROD_TAIL_LEMMAS = [
    ('product of one factor more, base', PROD_DEF + [_L == _H], PROD(_A, _L, _H + 1) == PROD(_A, _L, _H) * sel(_A, _H)),
    ('product of one factor more, step', [_L < _H, PROD(_A, _L + 1, _H + 1) == PROD(_A, _L + 1, _H) * sel(_A, _H), PROD(_A, _L, _H + 1) == sel(_A, _L) * PROD(_A, _L + 1, _H + 1),
                                          PROD(_A, _L, _H) == sel(_A, _L) * PROD(_A, _L + 1, _H)], PROD(_A, _L, _H + 1) == PROD(_A, _L, _H) * sel(_A, _H)),
]


class B(Spec):
    src = 'shape.cpp'
    bounded = dict(maxlen=3, unroll=8, ints={'n': [0, 1, 2, 3]})

    def axioms(self):
        return PROD_DEF + [PROD_TAIL]

    def lemmas(self):
        return PROD_TAIL_LEMMAS

    def n_ok(self, v):
        n = v.inp('n')
        v.assume(And(n >= 0, n < 2 ** 40))
        return n

    def post(self, v, kind, ret):
        if kind == 'throw':
            yield ('does not throw', False)
            return
        yield from self.ensures(v, v.at('end'), v.at('pre'))


class Size(B):
    fn = 'h_size'
    functions = ['Array::shape_to_size']

    def pre(self, v, name):
        n = self.n_ok(v)
        s = v.vec('shape').a[0]
        v.assume(forall(1, n, lambda k: sel(s, k) >= 0, lambda k: [sel(s, k)]))

    def loop_cands(self, lc):
        p = View(lc.ex, lc.cur.snaps['pre'])
        s, n = p.vec('shape').a[0], p.inp('n')
        return [('accumulated product', x == prod(s, 0, lc.it)) for x in lc.ints] + [('accumulated product from the back', x == prod(s, n - lc.it, n)) for x in lc.ints] + [
            ('accumulated product without the first axis', x == prod(s, 1, lc.it + 1)) for x in lc.ints] + [('accumulated product with the first axis', x == prod(s, 0, lc.it + 1)) for x in lc.ints]

    def ensures(self, v, e, p):
        n, r = v.inp('n'), e.i('r')
        s = p.vec('shape').a[0]
        yield ('a scalar has one element', Implies(n == 0, r == 1))
        yield ('a dynamic shape has a dynamic size', Implies(And(n > 0, sel(s, 0) < 0), r == -1))
        yield ('the size is the product of the dimensions', Implies(And(n > 0, sel(s, 0) >= 0), r == prod(s, 0, n)))


class Strides(B):
    fn = 'h_strides'
    functions = ['Array::shape_to_strides']

    def pre(self, v, name):
        self.n_ok(v)

    def ok(self, s, st, lo, n):
        return forall(lo, n, lambda k: sel(st, k) == 8 * prod(s, k + 1, n), lambda k: [sel(st, k)])

    def loop_cands(self, lc):
        c = View(lc.ex, lc.cur)
        p = View(lc.ex, lc.cur.snaps['pre'])
        s, n = p.vec('shape').a[0], p.inp('n')
        out = []
        for sy, v0, key in lc.syms:
            if z3.is_array(sy) and sy.sort() == AI:
                out.append(('strides done so far', self.ok(s, sy, n - 1 - lc.it, n)))
                out.append(('strides done so far (one less)', self.ok(s, sy, n - lc.it, n)))
        out += [('running stride', x == 8 * prod(s, n - lc.it, n)) for x in lc.ints] + [('running stride 1', x == 8 * prod(s, n - 1 - lc.it, n)) for x in lc.ints]
        return out

    def ensures(self, v, e, p):
        n = v.inp('n')
        s = p.vec('shape').a[0]
        if 'strides' not in e.st.labels:
            yield ('only a scalar has no strides', n == 0)
            return
        st = e.vec('strides')
        yield ('there are as many strides as dimensions', st.n == n)
        yield ('each stride is the size of what lies behind it', self.ok(s, st.a[0], 0, n))


class Contiguous(B):
    fn = 'h_contiguous'
    functions = ['Array::is_contiguous']

    def pre(self, v, name):
        n = self.n_ok(v)
        s = v.vec('shape').a[0]
        # empty arrays are not specified; only the first axis may be dynamic
        v.assume(forall(1, n, lambda k: sel(s, k) >= 1, lambda k: [sel(s, k)]))
        v.assume(Implies(n > 0, sel(s, 0) != 0))

    def c(self, s, st, lo, n):
        return forall(lo, n, lambda k: Or(sel(s, k) == 1, sel(st, k) == 8 * prod(s, k + 1, n)), lambda k: [sel(st, k), sel(s, k)])

    def loop_cands(self, lc):
        p = View(lc.ex, lc.cur.snaps['pre'])
        s, st, n = p.vec('shape').a[0], p.vec('strides').a[0], p.inp('n')
        return [('contiguous so far', self.c(s, st, n - lc.it, n))] + [('expected stride', x == 8 * prod(s, n - lc.it, n)) for x in lc.ints]

    def ensures(self, v, e, p):
        n, r = v.inp('n'), e.i('r')
        s, st = p.vec('shape').a[0], p.vec('strides').a[0]
        yield ('reported contiguous only if it is', Implies(r != 0, self.c(s, st, 0, n)))
        yield ('reported not contiguous only if it is not', Implies(self.c(s, st, 0, n), r != 0))


class Broadcast(B):
    fn = 'h_broadcast'
    functions = ['broadcast_shape']

    def axioms(self):
        return []

    def lemmas(self):
        return []

    def pick(self, a, b, j):
        """dimension j from the end"""
        la, lb = sel(a.a[0], a.n - 1 - j), sel(b.a[0], b.n - 1 - j)
        return If(j >= a.n, lb, If(j >= b.n, la, If(la == 1, lb, la)))

    def fits(self, a, b, j):
        la, lb = sel(a.a[0], a.n - 1 - j), sel(b.a[0], b.n - 1 - j)
        return Or(la == lb, la == 1, lb == 1)

    def allfit(self, a, b, m):
        """the last m dimensions fit"""
        return forall(a.n - m, a.n, lambda k: self.fits(a, b, a.n - 1 - k), lambda k: [sel(a.a[0], k)])

    def done(self, a, b, r, lo, n):
        """the last dimensions, r[lo..n)"""
        return forall(lo, n, lambda k: sel(r, k) == self.pick(a, b, n - 1 - k), lambda k: [sel(r, k)])

    def loop_cands(self, lc):
        c = View(lc.ex, lc.cur)
        a, b = c.vec('lhs'), c.vec('rhs')
        m = If(a.n < b.n, a.n, b.n)
        M = If(a.n < b.n, b.n, a.n)
        out = [('compatible so far', self.allfit(a, b, lc.it))]
        out.append(('compatible', self.allfit(a, b, m)))
        for sy, v0, key in lc.syms:
            if z3.is_array(sy) and sy.sort() == AI:
                out.append(('done from the back', self.done(a, b, sy, M - lc.it, M)))
                out.append(('done from the back, after the common part', self.done(a, b, sy, M - m - lc.it, M)))
        return out

    def post(self, v, kind, ret):
        p = v.at('pre')
        a, b = p.vec('lhs'), p.vec('rhs')
        m = If(a.n < b.n, a.n, b.n)
        M = If(a.n < b.n, b.n, a.n)
        ok = self.allfit(a, b, m)
        if kind == 'throw':
            yield ('only shapes that do not fit are rejected', Not(ok))
            return
        r = v.at('end').vec('r')
        yield ('shapes that do not fit are rejected', ok)
        yield ('the result has as many dimensions as the larger shape', r.n == M)
        yield ('each dimension is the broadcast one', self.done(a, b, r.a[0], 0, M))


RAV = z3.Function('Ravel', AI, AI, Int, Int)      # sum of index[k]*stride[k] (in bytes) for k < n
_s, _i, _v, _x = z3.Const('rs', AI), z3.Int('ri'), z3.Int('rv'), z3.Int('rx')
RAV_DEF = [
    z3.ForAll([_a, _s], RAV(_a, _s, 0) == 0, patterns=[RAV(_a, _s, z3.IntVal(0))]),
    z3.ForAll([_a, _s, _i], Implies(_i >= 0, RAV(_a, _s, _i + 1) == RAV(_a, _s, _i) + sel(_a, _i) * sel(_s, _i)), patterns=[RAV(_a, _s, _i + 1), z3.MultiPattern(RAV(_a, _s, _i), sel(_a, _i))]),
    # the sum over the first x entries does not depend on later ones (by induction on x)
    z3.ForAll([_a, _s, _i, _v, _x], Implies(And(0 <= _x, _x <= _i), RAV(Store(_a, _i, _v), _s, _x) == RAV(_a, _s, _x)), patterns=[RAV(Store(_a, _i, _v), _s, _x)]),
]
_S, _I, _V, _X = z3.Const('ls', AI), z3.Int('li'), z3.Int('lv'), z3.Int('lx')
RAV_LEMMAS = [
    ('ravel does not depend on later indices, base', RAV_DEF[:2], RAV(Store(_A, _I, _V), _S, 0) == RAV(_A, _S, 0)),
    ('ravel does not depend on later indices, step', RAV_DEF[:2] + [0 <= _X, _X + 1 <= _I, RAV(Store(_A, _I, _V), _S, _X) == RAV(_A, _S, _X)], RAV(Store(_A, _I, _V), _S, _X + 1) == RAV(_A, _S, _X + 1)),
]
_P, _D, _y, _u, _w = z3.Ints('lP lD ly lu lw')
# for row-major strides (8*P behind the axis, 8*D*P including it): the sum over the remaining axes stays below the size of
# what they span, so two multi-indices within the shape with the same sum agree, axis by axis
UNIQUE_LEMMAS = [
    ('the sum over the remaining axes is below their size, base', [], And(0 <= z3.IntVal(0), z3.IntVal(0) < 8 * z3.IntVal(1))),
    ('the sum over the remaining axes is below their size, step', [0 <= _u, _u < 8 * _P, 0 <= _X, _X < _D], And(0 <= _X * (8 * _P) + _u, _X * (8 * _P) + _u < 8 * (_D * _P))),
    ('equal sums have equal leading index and equal rest', [_P >= 1, 0 <= _u, _u < 8 * _P, 0 <= _w, _w < 8 * _P, _X * (8 * _P) + _u == _y * (8 * _P) + _w], And(_X == _y, _u == _w)),
]


def rav(a, s, n):
    c = conc(n)
    if c is not None:
        r = z3.IntVal(0)
        for k in range(c):
            r = r + sel(a, k) * sel(s, k)
        return r
    return RAV(a, s, zi(n))


class Unravel(B):
    """for the strides of a contiguous array without empty axes, and an index below its size"""
    fn = 'h_unravel'
    functions = ['unravel_index']
    opts = dict(div='ghost')

    def axioms(self):
        return PROD_DEF + RAV_DEF

    def lemmas(self):
        return RAV_LEMMAS

    def pre(self, v, name):
        st = v.vec('strides')
        n, s = st.n, st.a[0]
        sh = z3.Const('shape_ghost', AI)
        i = v.inp('i')
        v.assume(forall(0, n, lambda k: And(sel(sh, k) >= 1, sel(s, k) == 8 * prod(sh, k + 1, n), prod(sh, k + 1, n) >= 1), lambda k: [sel(s, k), sel(sh, k)]))
        v.assume(And(0 <= i, i < prod(sh, 0, n)))
        if not z3.is_int_value(z3.simplify(n)):
            v.assume(forall(0, n, lambda k: sel(sh, k) == sel(sh, k), lambda k: [prod(sh, k + 1, n)]))

    def inrange(self, ind, n):
        sh = z3.Const('shape_ghost', AI)
        return forall(0, n, lambda k: And(0 <= sel(ind, k), sel(ind, k) < sel(sh, k)), lambda k: [sel(ind, k)])

    def loop_cands(self, lc):
        p = View(lc.ex, lc.cur.snaps['pre'])
        st, i = p.vec('strides'), p.inp('i')
        sh = z3.Const('shape_ghost', AI)
        out = []
        it = lc.it
        for sy, v0, key in lc.syms:
            if z3.is_array(sy) and sy.sort() == AI:
                out.append(('indices in range', self.inrange(sy, it)))
                for x in lc.ints:
                    out.append(('what is left', 8 * x == 8 * i - rav(sy, st.a[0], it)))
        for x in lc.ints:
            out.append(('what is left is below the size of the remaining axes', And(0 <= x, x < prod(sh, it, st.n))))
        return out

    def ensures(self, v, e, p):
        st, i, r = p.vec('strides'), v.inp('i'), e.vec('r')
        yield ('one index per dimension', r.n == st.n)
        yield ('every index is within its dimension', self.inrange(r.a[0], st.n))
        yield ('the multi-index leads back to the flat index', rav(r.a[0], st.a[0], st.n) == 8 * i)


class Ravel(B):
    fn = 'h_ravel'
    functions = ['ravel_multi_index']

    def axioms(self):
        return RAV_DEF

    def lemmas(self):
        return RAV_LEMMAS + UNIQUE_LEMMAS

    def pre(self, v, name):
        st, ind = v.vec('strides'), v.vec('ind')
        v.assume(ind.n == st.n)
        v.assume(forall(0, st.n, lambda k: And(sel(st.a[0], k) >= 0, sel(st.a[0], k) == 8 * (sel(st.a[0], k) / 8), sel(ind.a[0], k) >= 0), lambda k: [sel(st.a[0], k), sel(ind.a[0], k)]))

    def loop_cands(self, lc):
        c = View(lc.ex, lc.cur)
        st, ind = c.vec('strides'), c.vec('ind')
        return [('sum so far', 8 * x == rav(ind.a[0], st.a[0], lc.it)) for x in lc.ints]

    def ensures(self, v, e, p):
        st, ind = p.vec('strides'), p.vec('ind')
        yield ('the flat index is the sum of indices times strides', 8 * e.i('r') == rav(ind.a[0], st.a[0], st.n))


ALL = [Size, Strides, Contiguous, Broadcast, Unravel, Ravel]
