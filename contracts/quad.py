"""Contracts of QuadraticModel and QuadraticModelNode (src/nodes/quadratic_model.cpp).

Q(u, w) are the quadratic coefficients of variable u, kept as a row of (neighbour, coefficient) in ascending order.  A row that keeps its
invariant stands for a function of all variables (zero for those not stored), which the contracts speak about."""
from common import *
import vc
import models
import binop
from vc import Ptr

SRC = 'quad.cpp'
mul = binop.mul
R, I = z3.RealSort(), z3.IntSort()
ROWSUM = z3.Function('row_sum', AR, AI, AR, I, R)      # (s, neighbours, coefficients, k): the first k terms
LOW = z3.Function('lower_part', I, R)                   # of variable i: the sum over the neighbours before it
EL = z3.Function('effective', AR, I, R)                 # (s, u): linear coefficient of u plus its row times s
POLY = z3.Function('polynomial', AR, R)
V = z3.Function('value_so_far', I, R)                   # the terms of the first variables


def rowsum_step(s, nb, q, k):
    return And(ROWSUM(s, nb, q, 0) == 0, Implies(k >= 0, ROWSUM(s, nb, q, k + 1) == ROWSUM(s, nb, q, k) + mul(sel(s, sel(nb, k)), sel(q, k))))


class Row:
    """the row of variable u: what it stands for is the array C; P: where a variable is stored"""

    def __init__(self, x, u):
        self.x, self.u = x, u
        self.C, self.P = z3.Const('coefficients_' + x, AR), z3.Const('place_' + x, AI)

    def parts(self, v):
        return v.vec(self.x + '_nb'), v.vec(self.x + '_q'), v.i32(self.x + '_small')

    def valid(self, v, C, parts=None):
        nb, q, small = parts or self.parts(v)
        n, u = v.inp('n'), self.u(v)
        N = nb.a[0]
        return [('as many neighbours as coefficients', nb.n == q.n),
                ('neighbours ascend', sorted_strict(N, nb.n, True)),
                ('neighbours are other variables', forall(0, nb.n, lambda k: And(0 <= sel(N, k), sel(N, k) < n, sel(N, k) != u), lambda k: [sel(N, k)])),
                ('the count of smaller neighbours', And(0 <= small, small <= nb.n, forall(0, nb.n, lambda k: (k < small) == (sel(N, k) < u), lambda k: [sel(N, k)]))),
                ('the coefficients', forall(0, nb.n, lambda k: sel(q.a[0], k) == sel(C, sel(N, k)), lambda k: [sel(N, k)])),
                ('the coefficients are numbers', nonan(q.a[0], q.n))]

    def stored(self, v, C, w, at, parts=None):
        """a variable with a coefficient other than zero is stored"""
        nb, _, _ = parts or self.parts(v)
        ks = at if isinstance(at, list) else [at]
        return Or(sel(C, w) == 0, *[And(0 <= k, k < nb.n, sel(nb.a[0], k) == w) for k in ks])

    def assume(self, v, *ws):
        for _, f in self.valid(v, self.C):
            v.assume(f)
        nb = v.vec(self.x + '_nb')
        v.assume(forall(0, nb.n, lambda k: sel(self.P, sel(nb.a[0], k)) == k, lambda k: [sel(nb.a[0], k)]))      # defines P where a variable is stored
        for w in ws:
            v.assume(self.stored(v, self.C, w, sel(self.P, w)))
        if vc.BOUNDED[0]:
            for w in range(3):
                nb = v.vec(self.x + '_nb')
                v.assume(Or(sel(self.C, w) == 0, *[And(k < nb.n, sel(nb.a[0], k) == w) for k in range(3)]))


U, W, VV = (lambda v: v.inp('u')), (lambda v: v.inp('w')), (lambda v: v.inp('v'))


class Base(Spec):
    src = SRC
    bounded = dict(maxlen=2, unroll=8, ints=dict(n=[0, 1, 2, 3], u=[0, 1, 2], v=[0, 1, 2], w=[0, 1, 2], i=[0]))
    opts = dict(ints=True, fmul=mul)
    rows = ()

    def pre(self, v, name):
        n = v.inp('n')
        L, S = v.vec('lin'), v.vec('sq')
        v.assume(And(L.n == n, S.n == n, nonan(L.a[0], n), nonan(S.a[0], n)))
        self.g = {}
        self.r = {x: Row(x, u) for x, u in self.rows}
        for x in self.r:
            v.assume(v.inp('n_' + x) == n)
        self.requires(v)

    def requires(self, v):
        pass

    def axioms(self):
        x, y = z3.Reals('x y')
        return [z3.ForAll([x, y], binop.MUL(x, y) == binop.MUL(y, x), patterns=[binop.MUL(x, y)]), z3.ForAll([y], binop.MUL(0, y) == 0, patterns=[binop.MUL(0, y)])]

    def search_cands(self, lc):
        """std::lower_bound in an ascending row: all before `first` are smaller, none from first + len on is"""
        v = View(lc.ex, lc.cur)
        out = []
        for x in self.r:
            nb = v.vec(x + '_nb')
            N = nb.a[0]
            for t in self.targets(v):
                for f in lc.ints:
                    out.append(('all before are smaller', And(0 <= f, f <= nb.n, forall(0, nb.n, lambda k: Implies(k < f, sel(N, k) < t), lambda k: [sel(N, k)]))))
                    for m in lc.ints:
                        out.append(('none from there on is smaller', And(m >= 0, f + m <= nb.n, forall(0, nb.n, lambda k: Implies(k >= f + m, sel(N, k) >= t), lambda k: [sel(N, k)]))))
        return out

    def targets(self, v):
        return []

    def loop_cands(self, lc):
        return self.search_cands(lc) if 'pre' in lc.cur.snaps else []

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            yield from self.ensures(v, v.at('end'), v.at('pre'))


def same_vec(A, B):
    return And(A.n == B.n, same_range(A.a[0], B.a[0], 0, B.n))


class Linear(Base):
    fn = 'h_linear'
    functions = ['QuadraticModel::set_linear', 'QuadraticModel::add_linear', 'QuadraticModel::get_linear']
    which = 'lin', 'sq'

    def ensures(self, v, e, p):
        A, A0, B, B0 = e.vec(self.which[0]), p.vec(self.which[0]), e.vec(self.which[1]), p.vec(self.which[1])
        u, b = v.inp('u'), v.inp('b')
        new = If(v.inp('set'), b, sel(A0.a[0], u) + b)
        yield ('exactly the coefficient is set or added to', And(A.n == A0.n, forall(0, A.n, lambda k: sel(A.a[0], k) == If(k == u, new, sel(A0.a[0], k)), lambda k: [sel(A.a[0], k)])))
        yield ('no other coefficient changes', same_vec(B, B0))
        yield ('reading returns it', e.r('rs') == new)


class Square(Linear):
    fn = 'h_square'
    functions = ['QuadraticModel::set_quadratic', 'QuadraticModel::add_quadratic', 'QuadraticModel::get_quadratic']
    which = 'sq', 'lin'


class Get(Base):
    fn = 'h_get'
    functions = ['QuadraticModel::get_quadratic']
    rows = (('a', U),)

    def targets(self, v):
        return [v.inp('w')]

    def requires(self, v):
        self.r['a'].assume(v, v.inp('w'))

    def ensures(self, v, e, p):
        yield ('the coefficient of the two variables', e.r('rs') == sel(self.r['a'].C, v.inp('w')))


class Ref(Base):
    fn = 'h_ref'
    functions = ['QuadraticModel::asymmetric_quadratic_ref']
    rows = (('a', U),)

    def targets(self, v):
        return [v.inp('v')]

    def requires(self, v):
        self.w = z3.Int('any_variable')
        self.r['a'].assume(v, v.inp('v'), self.w)
        v.assume(And(0 <= self.w, self.w < v.inp('n')))
        v.ghost('a_at', z3.IntVal(-1))

    def on_insert(self, ex, st, label, pos):
        if label.endswith('_nb'):
            models.ghost_set(ex, st, label[:-3] + '_at', pos)

    def row(self, v, e, x, w, b):
        r = self.r[x]
        C = Store(r.C, w, b)
        at = e.st.ghost[x + '_at']
        N, _, small = r.parts(e.at('pre'))
        for k in (at - 1, at):
            v.lemma('smaller neighbours before the change', Implies(And(0 <= k, k < N.n), (k < small) == (sel(N.a[0], k) < r.u(e))))
        yield from [('row %s: %s' % (x, nm), f) for nm, f in r.valid(e, C)]
        ats = [e.st.ghost[x + '_at']] + [sel(r.P, t) + d for t in (self.w, w) for d in (0, 1)]
        yield ('row %s: what is not zero is stored' % x, r.stored(e, C, self.w, ats))

    def ensures(self, v, e, p):
        yield from self.row(v, e, 'a', v.inp('v'), v.inp('b'))
        yield ('the present coefficient is found', e.r('rs') == sel(self.r['a'].C, v.inp('v')))
        yield ('no other coefficient changes', And(same_vec(e.vec('lin'), p.vec('lin')), same_vec(e.vec('sq'), p.vec('sq'))))


class Set(Ref):
    fn = 'h_set'
    functions = ['QuadraticModel::set_quadratic', 'QuadraticModel::add_quadratic', 'QuadraticModel::asymmetric_quadratic_ref']
    rows = (('a', U), ('b', VV))

    def targets(self, v):
        return [v.inp('u'), v.inp('v')]

    def requires(self, v):
        self.w = z3.Int('any_variable')
        self.r['a'].assume(v, v.inp('v'), self.w)
        self.r['b'].assume(v, v.inp('u'), self.w)
        v.assume(sel(self.r['a'].C, v.inp('v')) == sel(self.r['b'].C, v.inp('u')))
        v.assume(And(0 <= self.w, self.w < v.inp('n')))
        v.ghost('a_at', z3.IntVal(-1))
        v.ghost('b_at', z3.IntVal(-1))

    def ensures(self, v, e, p):
        old = sel(self.r['a'].C, v.inp('v'))
        new = If(v.inp('set'), v.inp('x'), old + v.inp('x'))
        yield from self.row(v, e, 'a', v.inp('v'), new)
        yield from self.row(v, e, 'b', v.inp('u'), new)
        yield ('no other coefficient changes', And(same_vec(e.vec('lin'), p.vec('lin')), same_vec(e.vec('sq'), p.vec('sq'))))


class New(Spec):
    src = SRC
    fn = 'h_new'
    functions = ['QuadraticModel::QuadraticModel', 'QuadraticModel::num_variables']
    bounded = dict(maxlen=2, unroll=8, ints=dict(n=[-1, 0, 1, 2], u=[0, 1]))

    def post(self, v, kind, ret):
        n = v.inp('n')
        if kind != 'ret':
            yield ('only a negative number of variables is rejected', n < 0)
            return
        e = v.at('end')
        o = e.arr('out')
        yield ('a negative number of variables is rejected', n >= 0)
        for x in 'lin', 'sq':
            A = e.vec(x)
            yield ('all coefficients are zero', And(A.n == n, forall(0, A.n, lambda k: sel(A.a[0], k) == 0, lambda k: [sel(A.a[0], k)])))
        yield ('no products of two variables', And(o(0) == n, o(1) == n, Implies(n > 0, And(o(2) == 0, o(3) == 0, o(4) == 0))))


class Effective(Base):
    fn = 'h_effective'
    functions = ['QuadraticModel::get_effective_linear_bias']
    rows = (('a', U),)

    def requires(self, v):
        self.r['a'].assume(v)
        v.assume(And(v.vec('s').n == v.inp('n'), nonan(v.vec('s').a[0], v.inp('n'))))
        v.assume(rowsum_step(v.vec('s').a[0], v.vec('a_nb').a[0], v.vec('a_q').a[0], z3.IntVal(-1)))

    def sum(self, v, k):
        s, nb, q = v.vec('s').a[0], v.vec('a_nb').a[0], v.vec('a_q').a[0]
        if vc.BOUNDED[0]:
            return sum([If(j < k, sel(s, sel(nb, j)) * sel(q, j), 0) for j in range(3)])
        v.assume(rowsum_step(s, nb, q, k))
        return ROWSUM(s, nb, q, k)

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        return [('summed so far', r == sel(v.vec('lin').a[0], v.inp('u')) + self.sum(v, lc.it)) for r in lc.reals] + [('a number', r != NAN) for r in lc.reals]

    def ensures(self, v, e, p):
        yield ('the linear coefficient plus the sum over the neighbours', e.r('rs') == sel(p.vec('lin').a[0], v.inp('u')) + self.sum(v, p.vec('a_nb').n))
        yield ('no coefficient changes', And(same_vec(e.vec('lin'), p.vec('lin')), same_vec(e.vec('sq'), p.vec('sq'))))


class Value(Base):
    fn = 'h_value'
    functions = ['QuadraticModel::compute_value']
    rows = (('a', U),)
    bounded = dict(maxlen=2, unroll=8, ints=dict(n=[0, 1, 2], u=[0, 1]))

    def requires(self, v):
        v.assume(V(0) == 0)
        self.r['a'].assume(v)
        S = v.vec('s')
        v.assume(And(S.n == v.inp('n'), nonan(S.a[0], S.n)))
        v.assume(self.step(v, z3.IntVal(0)))
        self.one(v, v.inp('u'), (v.vec('a_nb'), v.vec('a_q'), v.i32('a_small')))

    def one(self, v, i, parts):
        """the definition of LOW at variable i"""
        nb, q, small = parts
        S = v.vec('s').a[0]
        for _, f in Row('row', lambda v: i).valid(v, fresh('row', AR), parts):
            v.assume(f)
        if vc.BOUNDED[0]:
            v.assume(And(nb.n <= 2, LOW(i) == sum([If(j < small, sel(S, sel(nb.a[0], j)) * sel(q.a[0], j), 0) for j in range(2)])))
        else:
            v.assume(And(LOW(i) == ROWSUM(S, nb.a[0], q.a[0], small), rowsum_step(S, nb.a[0], q.a[0], z3.IntVal(-1))))

    def on_other(self, v, name, idx, obj):
        self.one(v, idx.z(), (v.vec(Ptr(obj, 8)), v.vec(Ptr(obj, 32)), zi(v.ex.as_int(v.ex.load(v.st, Ptr(obj, 0), models.ll.INT(32))))))

    def step(self, v, i):
        """the definition of V at i"""
        s, l, q = (v.vec(x).a[0] for x in ('s', 'lin', 'sq'))
        return And(V(0) == 0, V(i + 1) == V(i) + mul(sel(s, i), sel(l, i) + mul(sel(q, i), sel(s, i)) + LOW(i)))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        s, l, q = (v.vec(x).a[0] for x in ('s', 'lin', 'sq'))
        v.assume(And(self.step(v, lc.it), self.step(v, lc.it + 1)))
        out = []
        f = lc.cur.mem[lc.cur.labels['a[]'].obj]
        for r in lc.reals:
            out += [('a number', r != NAN), ('summed so far', r == V(lc.it)), ('summed so far', r == V(lc.it + 1))]
            for i, obj in f.items:
                i, nb, qq = i.z(), v.vec(Ptr(obj, 8)).a[0], v.vec(Ptr(obj, 32)).a[0]
                v.assume(rowsum_step(s, nb, qq, lc.it))
                out.append(('terms of one variable so far', r == sel(l, i) + mul(sel(q, i), sel(s, i)) + ROWSUM(s, nb, qq, lc.it)))
        return out

    def ensures(self, v, e, p):
        if vc.BOUNDED[0]:
            for i in range(3):
                v.assume(self.step(v, z3.IntVal(i)))
        v.assume(V(0) == 0)
        yield ('the value of the polynomial', e.r('rs') == V(v.inp('n')))
        yield ('no coefficient changes', And(same_vec(e.vec('lin'), p.vec('lin')), same_vec(e.vec('sq'), p.vec('sq'))))


class Bulk(Base):
    functions = ['QuadraticModel::get_linear', 'QuadraticModel::get_squares', 'QuadraticModel::add_linear', 'QuadraticModel::add_squares']
    which, other, adds = 'lin', 'sq', False
    buffer = 'dest'

    def now(self, v, p, e, k):
        return sel(p.vec(self.which).a[0], k) + sel(p.vec('src').a[0], k) if self.adds else sel(p.vec(self.which).a[0], k)

    def requires(self, v):
        if self.adds:
            v.assume(forall(0, v.inp('n'), lambda k: sel(v.vec('src').a[0], k) != NAN, lambda k: [sel(v.vec('src').a[0], k)]))

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        A, A0 = v.vec(self.which), p.vec(self.which)
        out = [('numbers', nonan(A.a[0], A.n))]
        for i in [lc.it] + lc.ints:
            if self.adds:
                out.append(('added so far', And(A.n == A0.n, forall(0, A.n, lambda k: sel(A.a[0], k) == If(k < i, self.now(v, p, v, k), sel(A0.a[0], k)), lambda k: [sel(A.a[0], k)]))))
            else:
                out.append(('copied so far', forall(0, i, lambda k: sel(v.vec('dest').a[0], k) == sel(A0.a[0], k), lambda k: [sel(v.vec('dest').a[0], k)])))
        return out

    def ensures(self, v, e, p):
        n, A = v.inp('n'), e.vec(self.which)
        if self.adds:
            yield ('every coefficient is added to', And(A.n == n, forall(0, n, lambda k: sel(A.a[0], k) == self.now(v, p, e, k), lambda k: [sel(A.a[0], k)])))
        else:
            yield ('every coefficient is copied', forall(0, n, lambda k: sel(e.vec('dest').a[0], k) == sel(A.a[0], k), lambda k: [sel(e.vec('dest').a[0], k)]))
            yield ('nothing changes', same_vec(A, p.vec(self.which)))
        yield ('no other coefficient changes', same_vec(e.vec(self.other), p.vec(self.other)))


# ---- the node
def copied(a, b, n):
    """equal contents have an equal value (polynomial_lemmas: same values)"""
    return Implies(forall(0, n, lambda k: Implies(binop.MARK(k), sel(a, k) == sel(b, k)), lambda k: [sel(a, k)]), POLY(a) == POLY(b))


def polynomial_lemmas():
    """P(i, j): the first j terms of row i (dense, symmetric, zero on the diagonal); V(i): the terms of the first i variables.
    Each lemma is a step of an induction; the values of the functions at the points of the step are plain variables."""
    R_ = lambda s: z3.Reals(s)
    I_ = lambda s: z3.Ints(s)
    N_, C_, S_, q_ = z3.Const('nb', AI), z3.Const('C', AR), z3.Const('s', AR), z3.Const('q', AR)
    RS = z3.Function('RS', I, R)
    ln, j, c, c2, p, k, small, i, n, u = I_('ln j c c2 p k small i n u')
    below = lambda c, j: And(0 <= c, c <= ln, forall(0, ln, lambda k: (k < c) == (sel(N_, k) < j), lambda k: [sel(N_, k)]))
    row = [ln >= 0, sorted_strict(N_, ln, True), forall(0, ln, lambda k: sel(q_, k) == sel(C_, sel(N_, k)), lambda k: [sel(N_, k)])]
    Pj, = R_('Pj,')[:1]
    out = [('stored row = full row (start)', [ln >= 0, forall(0, ln, lambda k: sel(N_, k) >= 0, lambda k: [sel(N_, k)]), below(c, z3.IntVal(0)), sel(N_, 0) == k], c == 0),
           ('stored row = full row (step)', row + [below(c, j), below(c2, j + 1), Or(sel(C_, j) == 0, And(0 <= p, p < ln, sel(N_, p) == j)), RS(c) == Pj,
            RS(c + 1) == RS(c) + sel(S_, sel(N_, c)) * sel(q_, c), sel(N_, c) == k, sel(N_, c2) == i, sel(N_, c2 - 1) == small], RS(c2) == Pj + sel(S_, j) * sel(C_, j)),
           ('the neighbours before a variable', [below(c, i), below(small, i), sel(N_, c) == k, sel(N_, small) == p, sel(N_, c - 1) == j, sel(N_, small - 1) == c2], c == small),
           ('all neighbours', [below(c, n), forall(0, ln, lambda k: sel(N_, k) < n, lambda k: [sel(N_, k)]), sel(N_, c) == k, sel(N_, ln - 1) == p], c == ln)]
    # one value replaced: s' = s but b at u.  P'(i, j) = P(i, j) + [u < j] (b - s_u) Q(i, u)
    b, su, Q, sj, P, P2, tj = R_('b su Q sj P P2 tj')
    one = lambda P, P2, j: P2 == P + If(u < j, (b - su) * Q, 0)
    out += [('row sum, one value replaced (start)', [u >= 0], one(z3.RealVal(0), z3.RealVal(0), z3.IntVal(0))),
            ('row sum, one value replaced (step, at it)', [u >= 0, j >= 0, one(P, P2, j), j == u], one(P + su * Q, P2 + b * Q, j + 1)),
            ('row sum, one value replaced (step, elsewhere)', [u >= 0, j >= 0, one(P, P2, j), j != u], one(P + sj * tj, P2 + sj * tj, j + 1))]
    # V'(i) = V(i) + [u < i] (b - s_u) (sq_u (b + s_u) + lin_u + P(u, i))
    V1, V2, lin, sq, Pu, Pi, Pi2, Qiu = R_('V1 V2 lin sq Pu Pi Pi2 Qiu')
    lu, qu = R_('lu qu')
    claim = lambda V1, V2, i, Pu: V2 == V1 + If(u < i, (b - su) * (qu * (b + su) + lu + Pu), 0)
    out += [('polynomial, one value replaced (start)', [u >= 0], claim(z3.RealVal(0), z3.RealVal(0), z3.IntVal(0), z3.RealVal(0))),
            ('polynomial, one value replaced (before it)', [u >= 0, i >= 0, i < u, claim(V1, V2, i, Pu), Pi2 == Pi], claim(V1 + sj * (lin + sq * sj + Pi), V2 + sj * (lin + sq * sj + Pi2), i + 1, P)),
            ('polynomial, one value replaced (at it)', [u >= 0, i == u, claim(V1, V2, i, Pu), Pi2 == Pi, Pi == Pu], claim(V1 + su * (lu + qu * su + Pi), V2 + b * (lu + qu * b + Pi2), i + 1, Pu + su * 0)),
            ('polynomial, one value replaced (after it)', [u >= 0, i > u, claim(V1, V2, i, Pu), Pi2 == Pi + (b - su) * Qiu], claim(V1 + sj * (lin + sq * sj + Pi), V2 + sj * (lin + sq * sj + Pi2), i + 1, Pu + sj * Qiu))]
    # equal values
    out += [('same values (rows)', [P == P2, su == b], P + su * Q == P2 + b * Q), ('same values', [V1 == V2, Pi == Pi2, su == b], V1 + su * (lin + sq * su + Pi) == V2 + b * (lin + sq * b + Pi2))]
    return out


class NodeBase(Base):
    """an array of values under the polynomial with any coefficients (compute_value and get_effective_linear_bias by their contracts)"""
    bounded = dict(maxlen=2, unroll=12, ints=dict(n=[0, 1, 2]))
    node = True

    def __init__(self):
        self.opts = dict(ints=True, fmul=mul, contracts=[(r'QuadraticModel::compute_value\(', self.c_value), (r'QuadraticModel::get_effective_linear_bias\(', self.c_effective)])

    def pre(self, v, name):
        super().pre(v, name)

    def values(self, v, p, n):
        """the values handed over as a span"""
        if p.obj is None:
            return z3.IntVal(0), fresh('none', AR)
        if not (p.off.const() and p.off.c == 0):
            raise Unsupported('values of the polynomial')
        o = v.vec(p)
        return o.n, o.a[0] if o.a[0].sort() == AR else fresh('none', AR)

    def quad(self, v, i, j):
        """bounded mode: the coefficient of two variables"""
        return z3.Real('coefficient_%d_%d' % (i, j))

    def poly(self, v, a):
        if not vc.BOUNDED[0]:
            return POLY(a)
        n, s, l, q = v.inp('n'), [sel(a, k) for k in range(2)], v.vec('lin').a[0], v.vec('sq').a[0]
        t = [If(k < n, s[k] * (sel(l, k) + sel(q, k) * s[k]), 0) for k in range(2)]
        return t[0] + t[1] + If(n > 1, s[0] * s[1] * self.quad(v, 0, 1), 0)

    def effective(self, v, a, u):
        if not vc.BOUNDED[0]:
            return EL(a, u)
        n, s, l = v.inp('n'), [sel(a, k) for k in range(2)], v.vec('lin').a[0]
        return sel(l, u) + If(n > 1, If(u == 0, s[1], s[0]) * self.quad(v, 0, 1), 0)

    def c_value(self, ex, st, dem, ins, args):
        v = View(ex, st)
        have, arr = self.values(v, args[1], args[2])
        ex.oblige(st, 'one value for every variable', And(zi(args[2] if not hasattr(args[2], 'z') else args[2].z()) == v.inp('n'), have == v.inp('n')))
        r = z3.FreshReal('value')
        if not vc.BOUNDED[0]:
            st.assume(copied(arr, v.vec('a').a[0], v.inp('n')))
        st.assume(And(r == self.poly(v, arr), r != NAN))
        return r

    def c_effective(self, ex, st, dem, ins, args):
        v = View(ex, st)
        have, arr = self.values(v, args[2], args[3])
        u = ex.as_int(args[1])
        u = zi(u)
        ex.oblige(st, 'one value for every variable', And(zi(args[3] if not hasattr(args[3], 'z') else args[3].z()) == v.inp('n'), have == v.inp('n'), 0 <= u, u < v.inp('n')))
        r = z3.FreshReal('effective')
        st.assume(And(r == self.effective(v, arr, u), r != NAN))
        return r


class Init(NodeBase):
    fn = 'h_init'
    functions = ['QuadraticModelNode::initialize_state', 'QuadraticModelNodeData::QuadraticModelNodeData', 'QuadraticModelNode::QuadraticModelNode']

    def requires(self, v):
        binop.Operand('a').assume(v, v.inp('n'))

    def __init__(self):
        super().__init__()
        self.opts['new_kind'] = 'f64'

    def lemmas(self):
        return polynomial_lemmas()

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v = View(lc.ex, lc.cur)
        A = v.vec('a')
        return [('copied so far', same_range(a, A.a[0], 0, i)) for a, n in lc.vecs('f64') for i in [lc.it] + lc.ints]

    def ensures(self, v, e, p):
        A, P = e.vec('a'), e.vec('prev')
        yield ('the values are remembered', same_vec(P, A))
        if not vc.BOUNDED[0]:
            v.assume(copied(P.a[0], A.a[0], A.n))
        yield ('the value of the polynomial', e.r('value') == self.poly(e, A.a[0]))
        yield ('it counts as committed', And(e.r('value_old') == e.r('value'), e.r('comp') == 0, e.r('comp_old') == 0, e.vec('changes').n == 0))


class Prop(NodeBase):
    fn = 'h_prop'
    functions = ['QuadraticModelNode::propagate']

    def axioms(self):
        a = z3.Const('values', AR)
        u, x = z3.Int('u_'), z3.Real('x_')
        S = z3.Const('sq_', AR)
        return super().axioms() + [binop.mark_axiom()]

    def requires(self, v):
        self.a = binop.Operand('a')
        self.a.assume(v, v.inp('n'))
        P, C = v.vec('prev'), v.vec('changes')
        n = v.inp('n')
        v.assume(And(P.n == n, same_range(P.a[0], self.a.h.arr(0), 0, n), nonan(P.a[0], n)))
        v.assume(And(C.n == 0, v.r('value') == self.poly(v, P.a[0]), v.r('value') != NAN, v.r('comp') == 0, v.r('comp_old') == 0, v.r('value_old') == v.r('value')))
        v.ghost('place', z3.Const('place', AI))
        if not vc.BOUNDED[0]:   # the proved lemma: one value replaced
            a = z3.Const('values', AR)
            u, x = z3.Int('u_'), z3.Real('x_')
            q = v.vec('sq').a[0]
            v.assume(z3.ForAll([a, u, x], Implies(And(0 <= u, u < n), POLY(Store(a, u, x)) == POLY(a) + mul(x - sel(a, u), mul(sel(q, u), x + sel(a, u)) + EL(a, u))), patterns=[POLY(Store(a, u, x))]))

    def on_push(self, ex, st, label, vals):
        if label == 'changes':
            m = View(ex, st).vec('changes').n
            ghost_set(ex, st, 'place', Store(st.ghost['place'], zi(ex.as_int(vals[0])), m - 1))

    def kept(self, v, p):
        """every value that changed is recorded with what it was"""
        P, P0, C = v.vec('prev'), p.vec('prev'), v.vec('changes')
        pl = v.st.ghost['place']
        return [('recorded with what it was', And(P.n == P0.n, forall(0, C.n, lambda k: And(0 <= sel(C.a[0], k), sel(C.a[0], k) < P.n, sel(C.a[8], k) == sel(P0.a[0], sel(C.a[0], k))), lambda k: [sel(C.a[0], k)]))),
                ('what changed is recorded', forall(0, P.n, lambda k: Or(sel(P.a[0], k) == sel(P0.a[0], k), And(0 <= sel(pl, k), sel(pl, k) < C.n, sel(C.a[0], sel(pl, k)) == k)), lambda k: [sel(P.a[0], k)]))]

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        P, P0, A, U = v.vec('prev'), p.vec('prev'), v.vec('a'), v.vec('ua')
        out = self.kept(v, p) + [('numbers', And(nonan(P.a[0], P.n), v.r('value') != NAN)), ('exact', v.r('comp') == 0),
                                 ('value of the values so far', v.r('value') == self.poly(v, P.a[0])),
                                 ('before or now', forall(0, P.n, lambda k: Or(sel(P.a[0], k) == sel(P0.a[0], k), sel(P.a[0], k) == sel(A.a[0], k)), lambda k: [sel(P.a[0], k)]))]
        for i in [lc.it, lc.it + 1]:
            out.append(('visited values are current', forall(0, i, lambda k: sel(P.a[0], sel(U.a[IDX], k)) == sel(A.a[0], sel(U.a[IDX], k)), lambda k: [sel(U.a[IDX], k)])))
        return out

    def ensures(self, v, e, p):
        A, P = e.vec('a'), e.vec('prev')
        n = v.inp('n')
        # (marked: the instances for the position in question)
        yield ('the values are remembered', And(P.n == n, forall(0, n, lambda k: Implies(binop.MARK(k), sel(P.a[0], k) == sel(A.a[0], k)), lambda k: [sel(P.a[0], k)])))
        if not vc.BOUNDED[0]:
            v.assume(copied(P.a[0], A.a[0], n))
        yield ('the value of the polynomial', e.r('value') == self.poly(e, A.a[0]))
        yield from self.kept(e, p)
        yield ('the committed value is kept', And(e.r('value_old') == p.r('value_old'), e.r('comp') == 0, e.r('comp_old') == 0))


class Commit(NodeBase):
    fn = 'h_commit'
    functions = ['QuadraticModelNode::commit', 'QuadraticModelNodeData::commit']

    def ensures(self, v, e, p):
        yield ('the value is the committed one', And(e.r('value') == p.r('value'), e.r('value_old') == p.r('value'), e.r('comp') == p.r('comp'), e.r('comp_old') == p.r('comp')))
        yield ('the values stay remembered', same_vec(e.vec('prev'), p.vec('prev')))
        yield ('no changes are left', e.vec('changes').n == 0)


class Revert(Prop):
    fn = 'h_revert'
    functions = ['QuadraticModelNode::revert', 'QuadraticModelNodeData::revert']

    def requires(self, v):
        """as propagate leaves it: B is what was committed"""
        self.B = z3.Const('committed_values', AR)
        P, C = v.vec('prev'), v.vec('changes')
        n = v.inp('n')
        pl = z3.Const('place', AI)
        v.assume(And(P.n == n, forall(0, C.n, lambda k: And(0 <= sel(C.a[0], k), sel(C.a[0], k) < n, sel(C.a[8], k) == sel(self.B, sel(C.a[0], k))), lambda k: [sel(C.a[0], k)]),
                     forall(0, n, lambda k: Or(sel(P.a[0], k) == sel(self.B, k), And(0 <= sel(pl, k), sel(pl, k) < C.n, sel(C.a[0], sel(pl, k)) == k)), lambda k: [binop.MARK(k)])))
        v.ghost('place', pl)

    def loop_cands(self, lc):
        if 'pre' not in lc.cur.snaps:
            return []
        v, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        P, P0, C = v.vec('prev'), p.vec('prev'), p.vec('changes')
        out = [('before or committed', And(P.n == P0.n, forall(0, P.n, lambda k: Or(sel(P.a[0], k) == sel(P0.a[0], k), sel(P.a[0], k) == sel(self.B, k)), lambda k: [sel(P.a[0], k)])))]
        for i in [lc.it, lc.it + 1]:
            out.append(('restored so far', forall(0, i, lambda k: sel(P.a[0], sel(C.a[0], k)) == sel(self.B, sel(C.a[0], k)), lambda k: [sel(C.a[0], k)])))
        return out

    def ensures(self, v, e, p):
        P = e.vec('prev')
        pl = e.st.ghost['place']
        yield ('the committed values are remembered', And(P.n == v.inp('n'), forall(0, P.n, lambda k: Implies(binop.MARK(k), sel(P.a[0], k) == sel(self.B, k)), lambda k: [sel(P.a[0], k)])))
        yield ('the committed value is back', And(e.r('value') == p.r('value_old'), e.r('value_old') == p.r('value_old'), e.r('comp') == p.r('comp_old'), e.r('comp_old') == p.r('comp_old')))
        yield ('no changes are left', e.vec('changes').n == 0)


class Observe(NodeBase):
    fn = 'h_observe'
    functions = ['QuadraticModelNode::buff', 'QuadraticModelNode::diff', 'QuadraticModelNodeData::diff', 'ScalarOutputMixin']

    def requires(self, v):
        v.assume(And(v.r('value') != NAN, v.r('value_old') != NAN))

    def ensures(self, v, e, p):
        o, r = e.arr('out'), (lambda k: e.r('rs', 8 * k))
        ch = p.r('value') != p.r('value_old')
        yield ('a single number', And(o(0) == 0, o(1) == 1, o(3) == 1, o(4) == 0, o(5) == 0, r(0) == p.r('value')))
        yield ('a change exactly when it differs from the committed one', And(o(2) == If(ch, 1, 0), Implies(ch, And(o(6) == 0, r(1) == p.r('value_old'), r(2) == p.r('value')))))
        yield ('looking changes nothing', And(e.r('value') == p.r('value'), e.r('value_old') == p.r('value_old')))


class Reject(Spec):
    src = SRC
    fn = 'h_reject'
    functions = ['QuadraticModelNode::QuadraticModelNode']
    bounded = dict(maxlen=2, unroll=12, ints=dict(n=[0, 1, 2], m=[0, 1, 2]))

    def post(self, v, kind, ret):
        same = v.inp('n') == v.inp('m')
        yield ('exactly the arrays with as many values as variables are accepted', same if kind == 'ret' else Not(same))


ALL = [New, Linear, Square, Get, Ref, Set, Effective, Value]
for x, y in (('linear', ('lin', 'sq')), ('squares', ('sq', 'lin'))):
    ALL.append(type('get_' + x, (Bulk,), dict(fn='h_get_' + x, which=y[0], other=y[1])))
    ALL.append(type('add_' + x, (Bulk,), dict(fn='h_add_%ss' % x.rstrip('s'), which=y[0], other=y[1], adds=True)))
ALL += [Init, Prop, Commit, Revert, Observe, Reject]
