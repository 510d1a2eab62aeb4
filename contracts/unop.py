"""Contracts of UnaryOpNode (src/nodes/mathematical.cpp): initialize_state and propagate compute the operation at every position
of an array of any, and changing, size."""
from common import *
import vc
import models
import binop
import state

SRC = 'unop.cpp'
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)
B01 = lambda c: If(c, ONE, ZERO)
SQRT = z3.Function('libm_sqrt', z3.RealSort(), z3.RealSort())
OPS = dict(
    abs=('functional::abs<double>', lambda x: If(x >= 0, x, -x)),
    logical=('functional::logical<double>', lambda x: B01(x != 0)),
    square=('functional::square<double>', lambda x: binop.mul(x, x)),
    square_root=('functional::square_root<double>', SQRT),
    negate=('std::negate<double>', lambda x: -x),
    logical_not=('std::logical_not<double>', lambda x: B01(x == 0)),
)


class Base(Spec):
    src = SRC
    op = 'abs'
    bounded = dict(maxlen=2, unroll=12, ints={})
    opts = dict(fmul=binop.mul, ints=True, whole=True)
    rejected = False

    def f(self, x):
        return OPS[self.op][1](x)

    def axioms(self):
        return [binop.mark_axiom()]

    def pre(self, v, name):
        self.a = binop.Operand('a')
        self.a.assume(v)
        if self.op == 'square_root':
            # the operand keeps the range it declares (checked of every operation as property B01)
            A, U = v.vec('a'), v.vec('ua')
            lo = v.inp('alo')
            v.assume(forall(0, A.n, lambda k: lo <= sel(A.a[0], k), lambda k: [sel(A.a[0], k)]))
            v.assume(forall(0, U.n, lambda k: Or(sel(U.a[NEW], k) == NAN, lo <= sel(U.a[NEW], k)), lambda k: [sel(U.a[NEW], k)]))
        self.requires(v)

    def requires(self, v):
        pass

    def result(self, buf, upto, A, goal=False):
        return forall(0, upto, lambda k: Implies(binop.MARK(k), sel(buf, k) == self.f(sel(A, k))) if goal else sel(buf, k) == self.f(sel(A, k)), lambda k: [sel(buf, k)])


class Init(Base):
    functions = ['UnaryOpNode::initialize_state', 'UnaryOpNode::UnaryOpNode']

    def loop_cands(self, lc):
        A = View(lc.ex, lc.cur).vec('a').a[0]
        return [('computed so far', self.result(a, i, A)) for a, n in lc.vecs('f64') for i in [lc.it] + lc.ints]

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U, A = e.vec('buffer'), e.vec('updates'), e.vec('a')
            yield ('one result for every position', R.n == A.n)
            yield ('every result is that of the operation on the value at its position', self.result(R.a[0], R.n, A.a[0], goal=True))
            yield ('nothing recorded', U.n == 0)
            yield ('committed size', e.i('previous_size') == R.n)


class Prop(Base):
    functions = ['UnaryOpNode::propagate']

    def requires(self, v):
        R, U = v.vec('buffer'), v.vec('updates')
        h = self.a.h
        v.assume(R.n == h.len(0))
        v.assume(self.result(R.a[0], R.n, h.arr(0)))
        v.assume(nonan(R.a[0], R.n))
        v.assume(And(U.n == 0, v.i('previous_size') == R.n))
        self.g = DiffGhost()
        self.g.init(v, R)

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        R, U = v.vec('buffer'), v.vec('ua')
        out = [('no absent values', nonan(R.a[0], R.n)), ('recorded updates describe the results', And(self.g.ok(v), self.g.len(v) == R.n, same_range(self.g.arr(v), R.a[0], 0, R.n)))]
        for i in [lc.it, U.n]:
            out.append(('results follow the history %s' % i, self.result(R.a[0], R.n, self.a.h.arr(i))))
            out.append(('length follows the history %s' % i, R.n == self.a.h.len(i)))
        out += assign_cands(self.g, v, View(lc.ex, lc.cur.snaps['pre']), lc.it, lambda k: self.f(sel(v.vec('a').a[0], k)), v.vec('a').n)
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, A = e.vec('buffer'), e.vec('a')
            yield ('one result for every position', R.n == A.n)
            yield ('every result is that of the operation on the value at its position', self.result(R.a[0], R.n, A.a[0], goal=True))
            yield ('recorded changes are valid and describe the results', And(self.g.ok(e), self.g.len(e) == R.n, same_range(self.g.arr(e), R.a[0], 0, R.n)))
            yield ('committed size is not touched', e.i('previous_size') == v.at('pre').i('previous_size'))


class Observe(Base):
    functions = ['UnaryOpNode::buff', 'UnaryOpNode::diff', 'UnaryOpNode::shape', 'UnaryOpNode::size', 'UnaryOpNode::size_diff']

    def requires(self, v):
        v.assume(v.vec('buffer').n == v.vec('a').n)
        v.assume(And(v.i('previous_size') >= 0, v.i('previous_size') < 2 ** 40))

    post = binop.Observe.post


class Bounds(binop.Bounds):
    functions = ['UnaryOpNode::min', 'UnaryOpNode::max', 'UnaryOpNode::integral']
    operands = (('a', 'x'),)
    small = True

    def pre(self, v, name):
        super().pre(v, name)
        if self.op == 'square_root':
            v.assume(And(SQRT(v.inp('alo')) <= SQRT(v.inp('x')), SQRT(v.inp('x')) <= SQRT(v.inp('ahi'))))
        if self.op == 'square':     # results too large for the number type are left out
            for o in ('alo', 'ahi'):
                v.assume(And(v.inp(o) < 2 ** 400, v.inp(o) > -2 ** 400))

    def axioms(self):
        x, y = z3.Reals('x y')
        out = super().axioms()
        if self.op in ('square', 'square_root'):
            out += [z3.ForAll([x, y], Implies(And(0 <= x, x <= y), SQRT(x) <= SQRT(y)), patterns=[z3.MultiPattern(SQRT(x), SQRT(y))])]
        return out


class Reject(Spec):
    functions = ['UnaryOpNode::UnaryOpNode']
    bounded = dict(maxlen=2, unroll=12, ints={})

    def pre(self, v, name):
        pass

    def post(self, v, kind, ret):
        bad = v.inp('alo') < 0 if self.op == 'square_root' else z3.BoolVal(False)
        yield ('exactly the operands that may be negative are rejected', Not(bad) if kind == 'ret' else bad)


ALL = []
BOUNDS = []
STATE = []
for op in OPS:
    d = dict(op=op, src=SRC, defs=tuple(['-DOP=' + OPS[op][0]] + (['-DGUARD=vf_assume(a.lo >= 0);'] if op == 'square_root' else [])))
    ALL.append(type('init_' + op, (Init,), dict(d, fn='h_init')))
    ALL.append(type('prop_' + op, (Prop,), dict(d, fn='h_prop')))
    ALL.append(type('observe_' + op, (Observe,), dict(d, fn='h_observe')))
    BOUNDS.append(type('bounds_' + op, (Bounds,), dict(d, fn='h_bounds')))
    BOUNDS.append(type('reject_' + op, (Reject,), dict(d, fn='h_reject')))
    STATE.append(type('commit_' + op, (state.Commit,), dict(d, fn='h_commit', functions=['UnaryOpNode::commit', 'ArrayNodeStateData::commit'])))
    STATE.append(type('revert_' + op, (state.Revert,), dict(d, fn='h_revert', functions=['UnaryOpNode::revert', 'ArrayNodeStateData::revert'])))
ALL += BOUNDS + STATE
