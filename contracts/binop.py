"""Contracts of BinaryOpNode (src/nodes/mathematical.cpp): initialize_state and propagate compute the operation at every
position, for operands of equal shape (any size) and for a single value with an array of changing size."""
from common import *
import vc
import models

SRC = 'binop.cpp'
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)
B01 = lambda c: If(c, ONE, ZERO)
MUL = z3.Function('mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIV = z3.Function('div', z3.RealSort(), z3.RealSort(), z3.RealSort())
FMOD = z3.Function('libm_fmod', z3.RealSort(), z3.RealSort(), z3.RealSort())


def mul(x, y):
    return x * y if vc.BOUNDED[0] else MUL(x, y)


def div(x, y):
    return x / y if vc.BOUNDED[0] else DIV(x, y)


def python_mod(x, y):
    # the remainder with the sign of the divisor, zero for a zero divisor; fmod has the sign of the dividend
    r = models.fmod(x, y)
    return If(y == 0, ZERO, If(And((x < 0) != (y < 0), r != 0), r + y, r))


OPS = dict(
    plus=lambda x, y: x + y,
    minus=lambda x, y: x - y,
    multiplies=mul,
    divides=div,
    modulus=python_mod,
    equal=lambda x, y: B01(x == y),
    less_equal=lambda x, y: B01(x <= y),
    logical_and=lambda x, y: B01(And(x != 0, y != 0)),
    logical_or=lambda x, y: B01(Or(x != 0, y != 0)),
    logical_xor=lambda x, y: B01((x != 0) != (y != 0)),
    max=lambda x, y: If(x < y, y, x),
    min=lambda x, y: If(y < x, y, x),
)


CPP = {k: 'std::%s<double>' % k for k in 'plus minus multiplies divides less_equal logical_and logical_or'.split()}
CPP.update({k: 'functional::%s<double>' % k for k in 'modulus logical_xor max min'.split()}, equal='std::equal_to<double>')


# true everywhere; occurs only in goals, where it makes the facts about the goal's position available (a trigger)
MARK = z3.Function('mark', z3.IntSort(), z3.BoolSort())


def mark_axiom():
    k = z3.Int('k')
    return z3.ForAll([k], MARK(k), patterns=[MARK(k)])


class Operand:
    """history of an operand's array, from the last commit to now, as its recorded updates describe it"""

    def __init__(self, name):
        self.name = name
        self.h = History(name)
        self.w = z3.Const(name + '_touch', z3.ArraySort(z3.IntSort(), AI))   # (m, k): the last update before m at position k

    def assume(self, v, fixed=None):
        A, U = v.vec(self.name), v.vec('u' + self.name)
        v.assume(nonan(A.a[0], A.n))
        v.assume(self.h.valid(U))
        v.assume(self.h.ends_at(U, A))
        v.assume(self.h.len(0) >= 0)
        if fixed is not None:
            v.assume(And(A.n == fixed, self.h.len(0) == fixed))
            v.assume(forall(0, U.n, lambda k: And(sel(U.a[OLD], k) != NAN, sel(U.a[NEW], k) != NAN, 0 <= sel(U.a[IDX], k), sel(U.a[IDX], k) < fixed, self.h.len(k) == fixed), lambda k: [sel(U.a[IDX], k)]))
            v.assume(forall(0, fixed, lambda k: Or(sel(self.h.arr(0), k) == sel(A.a[0], k), And(0 <= sel(sel(self.w, U.n), k), sel(sel(self.w, U.n), k) < U.n, sel(U.a[IDX], sel(sel(self.w, U.n), k)) == k)), lambda k: [MARK(k)]))
        v.assume(forall(0, self.h.len(0), lambda k: sel(self.h.arr(0), k) != NAN, lambda k: [sel(self.h.arr(0), k)]))


class Base(Spec):
    src = SRC
    mode = 'same'
    op = 'plus'
    bounded = dict(maxlen=2, unroll=12, ints={})
    opts = dict(fmul=mul, fdiv=div, ints=True, whole=True)

    def f(self, x, y):
        return OPS[self.op](x, y)

    def elem(self, a, b, k):
        """the operation at position k"""
        return self.f(sel(a, 0 if self.mode == 'left' else k), sel(b, 0 if self.mode == 'right' else k))

    def size(self, v):
        return v.vec('b' if self.mode == 'left' else 'a').n

    def pre(self, v, name):
        self.a, self.b = Operand('a'), Operand('b')
        self.a.assume(v, {'same': lambda: v.inp('n'), 'left': lambda: 1, 'right': lambda: None}[self.mode]())
        self.b.assume(v, {'same': lambda: v.inp('n'), 'left': lambda: None, 'right': lambda: 1}[self.mode]())
        self.requires(v)

    def requires(self, v):
        pass

    def axioms(self):
        x, y = z3.Reals('x y')
        out = [mark_axiom()]
        if self.op == 'multiplies':
            out.append(z3.ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]))
        if self.op == 'modulus':
            out.append(z3.ForAll([y], FMOD(0, y) == 0, patterns=[FMOD(0, y)]))
        return out

    def result(self, v, buf, upto, a=None, b=None, goal=False):
        A = v.vec('a').a[0] if a is None else a
        B = v.vec('b').a[0] if b is None else b
        return forall(0, upto, lambda k: Implies(MARK(k), sel(buf, k) == self.elem(A, B, k)) if goal else sel(buf, k) == self.elem(A, B, k), lambda k: [sel(buf, k)])


class Init(Base):
    functions = ['BinaryOpNode::initialize_state', 'BinaryOpNode::BinaryOpNode']

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        out = []
        for a, n in lc.vecs('f64'):
            for i in [lc.it] + lc.ints:
                out.append(('computed so far', self.result(v, a, i)))
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U = e.vec('buffer'), e.vec('updates')
            yield ('one result for every position', R.n == self.size(e))
            yield ('every result is that of the operation on the operands at its position', self.result(e, R.a[0], R.n, goal=True))
            yield ('nothing recorded', U.n == 0)
            yield ('committed size', e.i('previous_size') == R.n)


class Prop(Base):
    functions = ['BinaryOpNode::propagate']

    def requires(self, v):
        R, U = v.vec('buffer'), v.vec('updates')
        h = self.b.h if self.mode == 'left' else self.a.h
        v.assume(R.n == h.len(0))
        v.assume(self.result(v, R.a[0], R.n, self.a.h.arr(0), self.b.h.arr(0)))
        v.assume(nonan(R.a[0], R.n))
        v.assume(And(U.n == 0, v.i('previous_size') == R.n))
        self.g = DiffGhost()
        self.g.init(v, R)

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        R = v.vec('buffer')
        A, B = v.vec('a').a[0], v.vec('b').a[0]
        a0, b0 = self.a.h.arr(0), self.b.h.arr(0)
        n = R.n
        out = [('no absent values', nonan(R.a[0], n)), ('recorded updates describe the results', And(self.g.ok(v), self.g.len(v) == n, same_range(self.g.arr(v), R.a[0], 0, n))),
               ('new or old result', forall(0, n, lambda k: Or(sel(R.a[0], k) == self.elem(A, B, k), sel(R.a[0], k) == self.elem(a0, b0, k)), lambda k: [sel(R.a[0], k)])),
               ]
        for o in (self.a, self.b):
            U = v.vec('u' + o.name)
            for i in [lc.it, U.n]:
                out.append(('results at updated positions %s %s' % (o.name, i), forall(0, i, lambda k: sel(R.a[0], sel(U.a[IDX], k)) == self.elem(A, B, sel(U.a[IDX], k)), lambda k: [sel(U.a[IDX], k)])))
                ha = o.h.arr(i)
                out.append(('results follow the history %s %s' % (o.name, i), self.result(v, R.a[0], R.n, *((ha, B) if o is self.a else (A, ha)))))
                out.append(('length follows the history %s %s' % (o.name, i), R.n == o.h.len(i)))
        if self.mode != 'same':
            out += assign_cands(self.g, v, View(lc.ex, lc.cur.snaps['pre']), lc.it, lambda k: self.elem(A, B, k), self.size(v))
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            R, U = e.vec('buffer'), e.vec('updates')
            yield ('one result for every position', R.n == self.size(e))
            yield ('every result is that of the operation on the operands at its position', self.result(e, R.a[0], R.n, goal=True))
            yield ('recorded changes are valid and describe the results', And(self.g.ok(e), self.g.len(e) == R.n, same_range(self.g.arr(e), R.a[0], 0, R.n)))
            yield ('committed size is not touched', e.i('previous_size') == v.at('pre').i('previous_size'))


class Shape(Base):
    """which operands are accepted, and the shape of the result"""
    functions = ['BinaryOpNode::BinaryOpNode', 'broadcast_shape']
    case = 'same'
    opts = dict(Base.opts, whole=False, peel=3)

    def pre(self, v, name):
        pass

    def post(self, v, kind, ret):
        m = v.inp('m') if self.case != 'both' else None
        if self.case == 'same':
            n = v.inp('n')
            fits, shape = Or(n == m, n == 1, m == 1), If(n == 1, m, n)
        elif self.case == 'dynamic':
            fits, shape = m == 1, z3.IntVal(-1)
        else:
            fits, shape = z3.BoolVal(False), z3.IntVal(0)
        if kind != 'ret':
            yield ('only operands that do not fit together are rejected', Not(fits))
            return
        o = v.at('end').arr('out')
        yield ('operands that do not fit together are rejected', fits)
        yield ('the shape is that of the broadcast operands', And(o(0) == 1, o(1) == shape, o(2) == shape, o(3) != 0))


class Observe(Prop):
    functions = ['BinaryOpNode::buff', 'BinaryOpNode::diff', 'BinaryOpNode::shape', 'BinaryOpNode::size', 'BinaryOpNode::size_diff']

    def requires(self, v):
        # after propagation: one result for every position of the array operand
        v.assume(v.vec('buffer').n == self.size(v))
        v.assume(And(v.i('previous_size') >= 0, v.i('previous_size') < 2 ** 40))

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e, p = v.at('end'), v.at('pre')
            o = e.arr('out')
            n = p.vec('buffer').n
            yield ('reports the shape, the size and the changes', And(o(0) == 1, o(1) == -1, o(2) == -1, o(4) == p.vec('updates').n, o(5) == n, o(6) == n, o(7) == n - p.i('previous_size')))


class Bounds(Spec):
    """whatever the operands are within what they declare, the result is within what the node declares"""
    functions = ['BinaryOpNode::min', 'BinaryOpNode::max', 'BinaryOpNode::integral']
    bounded = dict(maxlen=2, unroll=12, ints={})
    opts = dict(ints=True)
    operands = (('a', 'x'), ('b', 'y'))

    def pre(self, v, name):
        for o, x in self.operands:
            lo, hi, x = v.inp(o + 'lo'), v.inp(o + 'hi'), v.inp(x)
            k = z3.FreshInt('whole')
            v.assume(And(lo <= x, x <= hi))
            v.assume(Implies(v.inp(o + 'int'), And(vc.isint(x), x == z3.ToReal(k))))
            self.k = k
            self.ks = getattr(self, 'ks', []) + [k]
        if self.op == 'modulus':
            f = models.fmod(v.inp('x'), v.inp('y'))
            self.f = z3.FreshInt('whole')
            v.assume(Implies(vc.isint(f), f == z3.ToReal(self.f)))

    def whole(self, r):
        if self.op == 'modulus' and not vc.BOUNDED[0]:
            return Or(r == 0, r == z3.ToReal(self.f), r == z3.ToReal(self.f + self.k))
        return Or(*[r == t for k in self.ks for t in (z3.ToReal(k), -z3.ToReal(k))], r == z3.ToReal(z3.ToInt(r)))

    def axioms(self):
        x = z3.Real('x')
        return [z3.ForAll([x], Implies(vc.isint(x), x == z3.ToReal(z3.ToInt(x))), patterns=[vc.isint(x)])]

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            r = e.r('r')
            yield ('no result is below the declared minimum', e.r('lo') <= r)
            yield ('no result is above the declared maximum', r <= e.r('hi'))
            yield ('results declared whole are whole', Implies(e.i('whole') != 0, self.whole(r)))


ALL = []
BOUNDS = []
STATE = []
import state
for op in OPS:
    d = dict(op=op, src=SRC, defs=tuple(['-DOP=' + CPP[op]] + (['-DGUARD=vf_assume((b.lo > 0 && b.hi > 0) || (b.lo < 0 && b.hi < 0));'] if op == 'divides' else [])))
    for mode in 'same', 'left', 'right':
        ALL.append(type('init_%s_%s' % (mode, op), (Init,), dict(d, fn='h_init_' + mode, mode=mode)))
        ALL.append(type('prop_%s_%s' % (mode, op), (Prop,), dict(d, fn='h_prop_' + mode, mode=mode)))
    for case in 'same', 'dynamic', 'both':
        ALL.append(type('shape_%s_%s' % (case, op), (Shape,), dict(d, fn='h_shape_' + case, case=case)))
    for mode in 'left', 'right':
        ALL.append(type('observe_%s_%s' % (mode, op), (Observe,), dict(d, fn='h_observe_' + mode, mode=mode)))
    BOUNDS.append(type('bounds_' + op, (Bounds,), dict(d, fn='h_bounds')))
    fs = ['BinaryOpNode::commit', 'ArrayNodeStateData::commit'], ['BinaryOpNode::revert', 'ArrayNodeStateData::revert']
    STATE.append(type('commit_' + op, (state.Commit,), dict(d, fn='h_commit', functions=fs[0])))
    STATE.append(type('revert_' + op, (state.Revert,), dict(d, fn='h_revert', functions=fs[1])))
ALL += BOUNDS + STATE
