"""Contracts of NaryOpNode (src/nodes/mathematical.cpp), for one, two and three operands (the product: one and two) of any size."""
from common import *
import vc
import binop
import state
from binop import MARK, Operand, OPS, CPP, MUL, DIV
from vc import POSINF

SRC = 'nary.cpp'
W = z3.Const('nary_asked0', AI)


class Base(Spec):
    src = SRC
    op = 'plus'
    num = 2
    bounded = dict(maxlen=2, unroll=12, ints={})

    def __init__(self):
        self.opts = dict(fmul=binop.mul, fdiv=binop.div, ints=True, whole=True, div_zero=True)

    def axioms(self):
        out = [binop.mark_axiom()]
        x, y = z3.Reals('x y')
        if self.op == 'multiplies' and not vc.BOUNDED[0]:
            out += [z3.ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]),
                    z3.ForAll([x, y], Implies(y != 0, DIV(MUL(x, y), y) == x), patterns=[DIV(MUL(x, y), y)])]
            if self.num == 1:
                out += [z3.ForAll([x], Implies(x != 0, DIV(x, x) == 1), patterns=[DIV(x, x)]), z3.ForAll([x], MUL(1, x) == x, patterns=[MUL(1, x)])]
        return out

    def f(self, x, y):
        return OPS[self.op](x, y)

    def names(self):
        return 'abc'[:self.num]

    def elem(self, arrs, k):
        r = sel(arrs[0], k)
        for a in arrs[1:]:
            r = self.f(sel(a, k), r)
        return r

    def now(self, v):
        return [v.vec(n).a[0] for n in self.names()]

    def old(self):
        return [self.o[n].h.arr(0) for n in self.names()]

    def result(self, buf, upto, arrs, goal=False, unless=None):
        def at(k):
            e = sel(buf, k) == self.elem(arrs, k)
            if unless is not None:
                e = Or(e, unless(k))
            return Implies(MARK(k), e) if goal else e
        return forall(0, upto, at, lambda k: [sel(buf, k)])

    def pre(self, v, name):
        self.o = {n: Operand(n) for n in self.names()}
        for n, o in self.o.items():
            o.assume(v, v.inp('n'))
        self.requires(v)

    def requires(self, v):
        pass


class Init(Base):
    fn = 'h_init'
    functions = ['NaryOpNode::initialize_state', 'NaryOpNode::NaryOpNode', 'NaryOpNode::add_node', 'NaryOpNodeData::NaryOpNodeData']

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        return [('computed so far', self.result(a, i, self.now(v))) for a, n in lc.vecs('f64') for i in [lc.it] + lc.ints]

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U = e.vec('buffer'), e.vec('updates')
            yield ('one result for every position', R.n == e.inp('n'))
            yield ('every result is that of the operation on the operands at its position', self.result(R.a[0], R.n, self.now(e), goal=True))
            yield ('nothing recorded', U.n == 0)
            yield ('committed size', e.i('previous_size') == R.n)


class Prop(Base):
    fn = 'h_prop'
    functions = ['NaryOpNode::propagate', 'InverseOp::op']

    def requires(self, v):
        R, U = v.vec('buffer'), v.vec('updates')
        v.assume(R.n == v.inp('n'))
        v.assume(self.result(R.a[0], R.n, self.old()))
        v.assume(nonan(R.a[0], R.n))
        v.assume(And(U.n == 0, v.i('previous_size') == R.n))
        self.g = DiffGhost()
        self.g.init(v, R)
        v.ghost('asked', W)

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def on_local_push(self, ex, st, et, n, vals):
        # where each position was last put on the list of positions to compute again
        if [k for _, k in et.fields] == ['i64']:
            from models import ghost_set
            ghost_set(ex, st, 'asked', Store(st.ghost['asked'], zi(ex.as_int(vals[0])), n))

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        R = v.vec('buffer')
        n = R.n
        now, old = self.now(v), self.old()
        asked = v.st.ghost['asked']
        out = [('no absent values', nonan(R.a[0], n)), ('recorded updates describe the results', And(self.g.ok(v), self.g.len(v) == n, same_range(self.g.arr(v), R.a[0], 0, n)))]
        U = {k: v.vec('u' + k) for k in self.names()}
        for A, m in lc.all_vecs('i64') + [(None, None)]:
            pend = None
            if A is not None:
                pend = lambda k: And(0 <= sel(asked, k), sel(asked, k) < m, sel(A, sel(asked, k)) == k)
                out.append(('positions to compute again', forall(0, m, lambda j: And(0 <= sel(A, j), sel(A, j) < n), lambda j: [sel(A, j)])))
                out.append(('not yet computed again', self.result(R.a[0], n, now, unless=lambda k: And(lc.it <= sel(asked, k), sel(asked, k) < m, sel(A, sel(asked, k)) == k))))
            out.append(('old results', self.result(R.a[0], n, old)))
            for j, k in enumerate(self.names()):
                h = self.o[k].h
                for i in (lc.it, U[k].n):
                    out.append(('follows %s' % k, self.result(R.a[0], n, now[:j] + [h.arr(i)] + old[j + 1:], unless=pend)))
                    if pend:
                        out.append(('changed positions are known %s' % k, forall(0, n, lambda q: Or(sel(h.arr(i), q) == sel(h.arr(0), q), pend(q)), lambda q: [sel(R.a[0], q)])))
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U = e.vec('buffer'), e.vec('updates')
            yield ('one result for every position', R.n == e.inp('n'))
            yield ('every result is that of the operation on the operands at its position', self.result(R.a[0], R.n, self.now(e), goal=True))
            yield ('recorded changes are valid and describe the results', And(self.g.ok(e), self.g.len(e) == R.n, same_range(self.g.arr(e), R.a[0], 0, R.n)))
            yield ('committed size is not touched', e.i('previous_size') == v.at('pre').i('previous_size'))


class Observe(Base):
    fn = 'h_observe'
    functions = ['NaryOpNode::buff', 'NaryOpNode::diff', 'ArrayOutputMixin']

    def requires(self, v):
        v.assume(v.vec('buffer').n == v.inp('n'))

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e, p = v.at('end'), v.at('pre')
            o = e.arr('out')
            n = p.inp('n')
            yield ('reports the shape, the size and the changes', And(o(0) == 1, o(1) == n, o(2) == n, o(3) != 0, o(4) == p.vec('updates').n, o(5) == n, o(6) == n, o(7) == 0))


class Shape(Base):
    fn = 'h_shape'
    functions = ['NaryOpNode::NaryOpNode', 'NaryOpNode::add_node']

    def pre(self, v, name):
        pass

    def post(self, v, kind, ret):
        n, m = v.inp('n'), v.inp('m')
        fits = And(n == m, n >= 0)
        if kind != 'ret':
            yield ('only operands that do not fit together are rejected', Not(fits))
            return
        o = v.at('end').arr('out')
        yield ('operands that do not fit together are rejected', fits)
        yield ('the shape is that of the operands', And(o(0) == 1, o(1) == n, o(2) == n, o(3) == 2))


class Bounds(binop.Bounds):
    opts = dict(ints=True, peel=4)
    functions = ['NaryOpNode::min', 'NaryOpNode::max', 'NaryOpNode::integral']
    num = 2

    @property
    def operands(self):
        return tuple(('abc'[i], 'x%d' % i) for i in range(self.num))


ALL = []
BOUNDS = []
STATE = []
for op in ('plus', 'multiplies', 'max', 'min'):
    for num in (1, 2) if op == 'multiplies' else (1, 2, 3):
        d = dict(op=op, num=num, src=SRC, defs=('-DOP=' + CPP[op], '-DNUM=%d' % num))
        sfx = '%s_%d' % (op, num)
        for n, C in (('init', Init), ('prop', Prop)):
            ALL.append(type('%s_%s' % (n, sfx), (C,), dict(d)))
        if num == 2:
            ALL.append(type('observe_' + sfx, (Observe,), dict(d)))
            ALL.append(type('shape_' + sfx, (Shape,), dict(d)))
            STATE.append(type('commit_' + sfx, (state.Commit,), dict(d, fn='h_commit', functions=['NaryOpNode::commit', 'ArrayNodeStateData::commit'])))
            STATE.append(type('revert_' + sfx, (state.Revert,), dict(d, fn='h_revert', functions=['NaryOpNode::revert', 'ArrayNodeStateData::revert'])))
        BOUNDS.append(type('bounds_' + sfx, (Bounds,), dict(d, fn='h_bounds')))
ALL += BOUNDS + STATE
