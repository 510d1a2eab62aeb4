"""Contracts of the nodes of src/nodes/manipulation.cpp: ReshapeNode, ConcatenateNode (of one to three arrays of one dimension) and SizeNode."""
from common import *
import vc
import binop
import state
from binop import Operand

SRC = 'manip.cpp'


class M(Spec):
    src = SRC
    bounded = dict(maxlen=2, unroll=12, ints={})
    opts = dict(ints=True, whole=True)

    def axioms(self):
        return [binop.mark_axiom()]

    def pre(self, v, name):
        pass

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            yield from self.ensures(v, v.at('end'), v.at('pre'))


# ---- SizeNode
class Size(M):
    def pre(self, v, name):
        self.a = Operand('a')
        self.a.assume(v)


class SizeInit(Size):
    fn = 'h_size_init'
    functions = ['SizeNode::initialize_state', 'SizeNode::SizeNode']

    def ensures(self, v, e, p):
        n = z3.ToReal(p.vec('a').n)
        yield ('the value is the number of elements, nothing changed yet', And(e.r('value') == n, e.r('old') == n))


class SizeProp(Size):
    fn = 'h_size_prop'
    functions = ['SizeNode::propagate']

    def ensures(self, v, e, p):
        yield ('the value is the number of elements', e.r('value') == z3.ToReal(p.vec('a').n))
        yield ('the committed value is not touched', e.r('old') == p.r('old'))


class SizeCommit(Size):
    fn = 'h_size_commit'
    functions = ['SizeNode::commit', 'ScalarNodeStateData::commit']

    def ensures(self, v, e, p):
        yield ('the value is kept and now the committed one', And(e.r('value') == p.r('value'), e.r('old') == p.r('value')))


class SizeRevert(Size):
    fn = 'h_size_revert'
    functions = ['SizeNode::revert', 'ScalarNodeStateData::revert']

    def ensures(self, v, e, p):
        yield ('the committed value is back', And(e.r('value') == p.r('old'), e.r('old') == p.r('old')))


class SizeObserve(Size):
    fn = 'h_size_observe'
    functions = ['SizeNode::buff', 'SizeNode::diff', 'ScalarNodeStateData::diff', 'ScalarOutputMixin']

    def ensures(self, v, e, p):
        o = e.arr('out')
        v.assume(And(p.r('value') != NAN, p.r('old') != NAN))
        yield ('one value, and a change exactly when it differs from the committed one',
               And(o(0) == 0, o(1) == 1, o(2) == If(p.r('value') != p.r('old'), 1, 0), o(3) == 1, o(4) == 0, o(5) == 0, o(6) == 0, e.r('x') == p.r('value')))


class SizeBounds(M):
    fn = 'h_size_bounds'
    functions = ['SizeNode::min', 'SizeNode::max', 'SizeNode::integral']
    opts = dict(ints=True)

    def ensures(self, v, e, p):
        r = e.r('r')
        yield ('no size is below the declared minimum', e.r('lo') <= r)
        yield ('no size is above the declared maximum', r <= e.r('hi'))
        yield ('sizes are declared whole', e.i('whole') != 0)


# ---- ReshapeNode
class ReshapeNew(M):
    fn = 'h_reshape_new'
    functions = ['ReshapeNode::ReshapeNode', 'ArrayOutputMixin::ArrayOutputMixin']
    dims = 1

    def post(self, v, kind, ret):
        n, m = v.inp('n'), v.inp('m')
        to = [v.inp('s%d' % i) for i in range(self.dims)]
        size = z3.IntVal(1)
        for t in to:
            size = size * t
        fits = And(n >= 0, n * m == size, *[t >= 0 for t in to])
        if kind != 'ret':
            yield ('only shapes that do not fit are rejected', Not(fits))
            return
        o = v.at('end').arr('out')
        yield ('shapes that do not fit are rejected', fits)
        yield ('as many elements as the array', And(o(0) == self.dims, o(1) == n * m, o(2) == 1, o(3) == 1, o(4) != 0))


class Reshape(M):
    fn = 'h_reshape_state'
    functions = ['ReshapeNode::buff', 'ReshapeNode::diff', 'ReshapeNode::commit', 'ReshapeNode::revert', 'Node::initialize_state', 'Node::propagate']

    def pre(self, v, name):
        v.assume(v.vec('a').n == v.inp('n') * v.inp('m'))

    def ensures(self, v, e, p):
        o = e.arr('out')
        n, m = p.inp('n'), p.inp('m')
        yield ('reports the shape, the size and the changes', And(o(0) == p.vec('ua').n, o(1) == n * m, o(2) == 0, o(3) == m, o(4) == n))
        for at in ('init', 'mid', 'committed', 'end'):
            c = v.at(at)
            A, A0, U, U0 = c.vec('a'), p.vec('a'), c.vec('ua'), p.vec('ua')
            yield ('the array is left alone (%s)' % at, And(A.n == A0.n, same_range(A.a[0], A0.a[0], 0, A0.n), U.n == U0.n))


# ---- ConcatenateNode
class Cat(M):
    num = 2

    def names(self):
        return 'abc'[:self.num]

    def sizes(self, v):
        return [v.inp('n' + k) for k in self.names()]

    def joined(self, v, buf, arrs, upto=None, frm=0):
        """buf holds the arrays one after the other"""
        ns = self.sizes(v)

        def at(k):
            parts, s = [], z3.IntVal(0)
            for a, n in zip(arrs, ns):
                parts.append(Implies(And(s <= k, k < s + n), sel(buf, k) == sel(a, k - s)))
                s = s + n
            return And(*parts)
        return forall(frm, sum(ns, z3.IntVal(0)) if upto is None else upto, at, lambda k: [sel(buf, k)])

    def total(self, v):
        return sum(self.sizes(v), z3.IntVal(0))

    def now(self, v):
        return [v.vec(k).a[0] for k in self.names()]

    def old(self):
        return [self.o[k].h.arr(0) for k in self.names()]

    def pre(self, v, name):
        self.o = {k: Operand(k) for k in self.names()}
        for (k, o), n in zip(self.o.items(), self.sizes(v)):
            o.assume(v, n)
        self.requires(v)

    def requires(self, v):
        pass


class CatInit(Cat):
    fn = 'h_cat_init'
    functions = ['ConcatenateNode::initialize_state', 'ConcatenateNode::ConcatenateNode', 'make_concatenate_shape', 'ArrayIteratorImpl_::operator++']

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        out = []
        for a, n in lc.vecs('f64'):
            s = z3.IntVal(0)
            for i in [z3.IntVal(0)] + self.sizes(v):
                s = s + i
                out.append(('joined so far', self.joined(v, a, self.now(v), s)))
                out.append(('joined so far', self.joined(v, a, self.now(v), s + lc.it)))
        return out

    def ensures(self, v, e, p):
        R, U = e.vec('buffer'), e.vec('updates')
        yield ('as many elements as the arrays together', R.n == self.total(e))
        yield ('the arrays one after the other', self.joined(e, R.a[0], self.now(e)))
        yield ('nothing recorded', U.n == 0)
        yield ('committed size', e.i('previous_size') == R.n)


class CatProp(Cat):
    fn = 'h_cat_prop'
    functions = ['ConcatenateNode::propagate', 'ArrayIteratorImpl_::operator+=']

    def requires(self, v):
        R, U = v.vec('buffer'), v.vec('updates')
        v.assume(R.n == self.total(v))
        v.assume(self.joined(v, R.a[0], self.old()))
        v.assume(nonan(R.a[0], R.n))
        v.assume(And(U.n == 0, v.i('previous_size') == R.n))
        self.g = DiffGhost()
        self.g.init(v, R)

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        R = v.vec('buffer')
        now, old = self.now(v), self.old()
        out = [('no absent values', nonan(R.a[0], R.n)), ('recorded updates describe the results', And(self.g.ok(v), self.g.len(v) == R.n, same_range(self.g.arr(v), R.a[0], 0, R.n)))]
        for j, k in enumerate(self.names()):
            out.append(('follows %s' % k, self.joined(v, R.a[0], now[:j] + [self.o[k].h.arr(lc.it)] + old[j + 1:])))
        return out

    def ensures(self, v, e, p):
        R, U = e.vec('buffer'), e.vec('updates')
        yield ('as many elements as the arrays together', R.n == self.total(e))
        yield ('the arrays one after the other', self.joined(e, R.a[0], self.now(e)))
        yield ('recorded changes are valid and describe the results', And(self.g.ok(e), self.g.len(e) == R.n, same_range(self.g.arr(e), R.a[0], 0, R.n)))
        yield ('committed size is not touched', e.i('previous_size') == p.i('previous_size'))


class CatObserve(Cat):
    fn = 'h_cat_observe'
    functions = ['ConcatenateNode::buff', 'ConcatenateNode::diff', 'ArrayOutputMixin']

    def requires(self, v):
        v.assume(v.vec('buffer').n == self.total(v))

    def ensures(self, v, e, p):
        o = e.arr('out')
        n = self.total(p)
        yield ('reports the shape, the size and the changes', And(o(0) == 1, o(1) == n, o(2) == n, o(3) != 0, o(4) == p.vec('updates').n, o(5) == n, o(6) == n, o(7) == 0))


class CatNew(M):
    fn = 'h_cat_new'
    functions = ['ConcatenateNode::ConcatenateNode', 'make_concatenate_shape']

    def post(self, v, kind, ret):
        na, ma, nb, mb, axis = [v.inp(x) for x in ('na', 'ma', 'nb', 'mb', 'axis')]
        fits = And(na >= 0, nb >= 0, Or(And(axis == 0, ma == mb), And(axis == 1, na == nb)))
        if kind != 'ret':
            yield ('only arrays that do not fit together are rejected', Not(fits))
            return
        o = v.at('end').arr('out')
        yield ('arrays that do not fit together are rejected', fits)
        r, c = If(axis == 0, na + nb, na), If(axis == 0, ma, ma + mb)
        yield ('the sizes along the axis add up, the other one stays', And(o(0) == 2, o(1) == r, o(2) == c, o(3) == r * c, o(4) == 2, o(5) == 1, o(6) == 1))


class CatNdim(M):
    fn = 'h_cat_ndim'
    functions = ['make_concatenate_shape']

    def post(self, v, kind, ret):
        yield ('arrays with different numbers of dimensions are rejected', kind != 'ret')


SIZE = [SizeInit, SizeProp, SizeCommit, SizeRevert, SizeObserve, SizeBounds]
ALL = list(SIZE) + [Reshape, CatNew, CatNdim]
for d in (0, 1, 2, 3):
    ALL.append(type('ReshapeNew%d' % d, (ReshapeNew,), dict(dims=d, src=SRC, defs=('-DDIMS=%d' % d,))))
for num in (1, 2, 3):
    d = dict(num=num, src=SRC, defs=('-DNUM=%d' % num,))
    for n, C in (('CatInit', CatInit), ('CatProp', CatProp), ('CatObserve', CatObserve)):
        ALL.append(type('%s%d' % (n, num), (C,), dict(d)))
    if num == 2:
        ALL.append(type('CatCommit', (state.Commit,), dict(d, fn='h_cat_commit', functions=['ConcatenateNode::commit', 'ArrayNodeStateData::commit'])))
        ALL.append(type('CatRevert', (state.Revert,), dict(d, fn='h_cat_revert', functions=['ConcatenateNode::revert', 'ArrayNodeStateData::revert'])))
