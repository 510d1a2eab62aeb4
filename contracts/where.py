"""Contracts of WhereNode (src/nodes/flow.cpp): every element is the one of x or of y that the condition selects."""
from common import *
import vc
import binop
import state
from binop import MARK, Operand

SRC = 'where.cpp'


class Base(Spec):
    src = SRC
    mode = 'one'
    bounded = dict(maxlen=2, unroll=12, ints={})
    opts = dict(ints=True, whole=True, contracts=INDEX_ALGOS)

    def axioms(self):
        return [binop.mark_axiom()]

    def pre(self, v, name):
        self.o = {n: Operand(n) for n in 'cxy'}
        for n, o in self.o.items():
            o.assume(v, v.inp('n') if self.mode == 'same' else 1 if n == 'c' else None)
        self.requires(v)

    def requires(self, v):
        pass

    def elem(self, c, x, y, k):
        return If(sel(c, 0 if self.mode == 'one' else k) != 0, sel(x, k), sel(y, k))

    def now(self, v):
        return [v.vec(n).a[0] for n in 'cxy']

    def old(self):
        return [self.o[n].h.arr(0) for n in 'cxy']

    def size(self, v):
        return v.vec('x').n if self.mode == 'same' else If(sel(v.vec('c').a[0], 0) != 0, v.vec('x').n, v.vec('y').n)

    def result(self, buf, upto, cxy, goal=False):
        c, x, y = cxy
        return forall(0, upto, lambda k: Implies(MARK(k), sel(buf, k) == self.elem(c, x, y, k)) if goal else sel(buf, k) == self.elem(c, x, y, k), lambda k: [sel(buf, k)])


class Init(Base):
    functions = ['WhereNode::initialize_state', 'WhereNode::WhereNode', 'WhereNodeData::WhereNodeData']
    opts = dict(Base.opts, new_kind='f64')

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        c, x, y = self.now(v)
        out = []
        for a, n in lc.vecs('f64'):
            for i in [lc.it] + lc.ints:
                out.append(('computed so far', self.result(a, i, (c, x, y))))
                out.append(('copied x', same_range(a, x, 0, i)))
                out.append(('copied y', same_range(a, y, 0, i)))
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U = e.vec('buffer'), e.vec('updates')
            yield ('one result for every position', R.n == self.size(e))
            yield ('every result is the selected element', self.result(R.a[0], R.n, self.now(e), goal=True))
            yield ('nothing recorded', U.n == 0)
            yield ('committed size', e.i('previous_size') == R.n)


class Prop(Base):
    functions = ['WhereNode::propagate', 'WhereNodeData::apply_diffs', '_flipped']

    def requires(self, v):
        R, U = v.vec('buffer'), v.vec('updates')
        c, x, y = (self.o[n].h for n in 'cxy')
        v.assume(R.n == (v.inp('n') if self.mode == 'same' else If(sel(c.arr(0), 0) != 0, x.len(0), y.len(0))))
        v.assume(self.result(R.a[0], R.n, self.old()))
        v.assume(nonan(R.a[0], R.n))
        v.assume(And(U.n == 0, v.i('previous_size') == R.n))
        self.g = DiffGhost()
        self.g.init(v, R)

    def index_ok(self, v):
        n = v.inp('n')
        return lambda i: And(0 <= i, i < n)

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        R = v.vec('buffer')
        n = R.n
        out = [('no absent values', nonan(R.a[0], n)), ('recorded updates describe the results', And(self.g.ok(v), self.g.len(v) == n, same_range(self.g.arr(v), R.a[0], 0, n)))]
        now, old = self.now(v), self.old()
        U = {k: v.vec('u' + k) for k in 'cxy'}
        if self.mode == 'one':
            hc = self.o['c'].h
            flip = (sel(hc.arr(0), 0) != 0) != (sel(hc.arr(lc.it), 0) != 0)
            for b in lc.bools:
                out.append(('flipped so far', b == flip))
            for i in lc.ints:
                out.append(('flipped so far', And((i != 0) == flip, i >= 0, i <= 1)))
            for k, h in (('x', self.o['x'].h), ('y', self.o['y'].h)):
                for i in [lc.it, U[k].n]:
                    out.append(('follows %s %s' % (k, i), And(R.n == h.len(i), same_range(R.a[0], h.arr(i), 0, R.n))))
            out += assign_cands(self.g, v, View(lc.ex, lc.cur.snaps['pre']), lc.it, lambda k: self.elem(*now, k), self.size(v))
        else:
            ind = lc.vecs('i64')
            tot = {'c': z3.IntVal(0), 'x': U['c'].n, 'y': U['c'].n + U['x'].n}
            for a, m in ind:
                for k in 'cxy':
                    for i in (lc.it, U[k].n):
                        out.append(('collected %s' % k, forall(0, i, lambda j: sel(a, j + tot[k]) == sel(U[k].a[IDX], j), lambda j: [sel(U[k].a[IDX], j), sel(a, j + tot[k])])))
                        out.append(('counted %s' % k, m == tot[k] + i))
                        out.append(('indices %s' % k, forall(0, m, lambda j: And(0 <= sel(a, j), sel(a, j) < n), lambda j: [sel(a, j)])))
            out.append(('new or old result', forall(0, n, lambda k: Or(sel(R.a[0], k) == self.elem(*now, k), sel(R.a[0], k) == self.elem(*old, k)), lambda k: [sel(R.a[0], k)])))
            if 'different' in lc.cur.ghost:
                out.append(('within the indices', lc.it <= lc.cur.ghost['different']))
            for a, m in lc.all_vecs('i64'):
                out.append(('results at visited positions', forall(0, lc.it, lambda k: sel(R.a[0], sel(a, k)) == self.elem(*now, sel(a, k)), lambda k: [sel(a, k)])))
                for i in lc.ints:
                    out.append(('iterators', i == If(lc.it > 0, sel(a, lc.it - 1), 0)))
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U = e.vec('buffer'), e.vec('updates')
            yield ('one result for every position', R.n == self.size(e))
            yield ('every result is the selected element', self.result(R.a[0], R.n, self.now(e), goal=True))
            yield ('recorded changes are valid and describe the results', And(self.g.ok(e), self.g.len(e) == R.n, same_range(self.g.arr(e), R.a[0], 0, R.n)))
            yield ('committed size is not touched', e.i('previous_size') == v.at('pre').i('previous_size'))


class Observe(Base):
    fn = 'h_observe'
    functions = ['WhereNode::buff', 'WhereNode::diff', 'WhereNode::shape', 'WhereNode::size', 'WhereNode::size_diff']

    def requires(self, v):
        v.assume(v.vec('buffer').n == self.size(v))
        v.assume(And(v.i('previous_size') >= 0, v.i('previous_size') < 2 ** 40))

    post = binop.Observe.post


class Shape(Spec):
    src = SRC
    fn = 'h_shape'
    functions = ['WhereNode::WhereNode', 'same_shape']
    bounded = dict(maxlen=2, unroll=12, ints={})
    opts = dict(peel=3)

    def post(self, v, kind, ret):
        k, l, m = (v.inp(n) for n in 'klm')
        fits = And(l == m, Or(k == 1, And(k == l, k != -1)))
        if kind != 'ret':
            yield ('only operands that do not fit together are rejected', Not(fits))
            return
        o = v.at('end').arr('out')
        yield ('operands that do not fit together are rejected', fits)
        yield ('the shape is that of the alternatives', And(o(0) == 1, o(1) == l, o(2) == l))


class Bounds(binop.Bounds):
    src = SRC
    fn = 'h_bounds'
    op = 'where'
    functions = ['WhereNode::min', 'WhereNode::max', 'WhereNode::integral']


class Commit(state.Commit):
    src = SRC
    functions = ['WhereNode::commit']


class Revert(state.Revert):
    src = SRC
    functions = ['WhereNode::revert']


ALL = [type('%s_%s' % (n, m), (C,), dict(fn='h_%s_%s' % (n, m), mode=m)) for n, C in (('init', Init), ('prop', Prop)) for m in ('one', 'same')] + [Observe, Shape, Bounds, Commit, Revert]
