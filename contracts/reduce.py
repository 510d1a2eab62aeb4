"""Contracts of ReduceNode (src/nodes/mathematical.cpp): the result is the reduction of the whole current array."""
from common import *
import vc
import binop
from binop import Operand
from folds import *
from vc import Ptr

SRC = 'reduce.cpp'
ONE, NIL = z3.RealVal(1), z3.RealVal(0)
CPP = {'and': 'std::logical_and<double>', 'or': 'std::logical_or<double>', 'max': 'functional::max<double>', 'min': 'functional::min<double>', 'multiplies': 'std::multiplies<double>', 'plus': 'std::plus<double>'}
EXTRA = {'and': ',ssize_t(0)', 'or': ',ssize_t(0)', 'multiplies': ',1.0,ssize_t(0)'}


def extremum(op, r, init, a, lo, n):
    """r is the largest (smallest) of init and a[lo..n)"""
    le = (lambda x, y: x <= y) if op == 'max' else (lambda x, y: x >= y)
    parts = [forall(lo, n, lambda k: le(sel(a, k), r), lambda k: [sel(a, k)])]
    none = forall(lo, n, lambda k: sel(a, k) != r, lambda k: [sel(a, k)])
    if init is not None:
        parts += [le(init, r), Or(init == r, Not(none))]
    else:
        parts += [Not(none)]
    return And(*parts)


class Base(Spec):
    src = SRC
    op = 'plus'
    noinit = False
    bounded = dict(maxlen=2, unroll=12, ints={})

    def __init__(self):
        self.opts = dict(ints=True, whole=True, fmul=binop.mul, fdiv=binop.div, contracts=[(r'(^| )std::reduce<dwave', self.reduce)])

    def folds(self):
        return {'plus': [SUM], 'and': [ZEROS], 'or': [NONZEROS], 'multiplies': [ZEROS, NZPROD, PROD]}.get(self.op, [])

    def axioms(self):
        out = [binop.mark_axiom()]
        for f in self.folds():
            out += f.axioms(binop.mul)
        if self.op == 'multiplies':
            x = z3.Real('x')
            out.append(z3.ForAll([x], binop.MUL(x, 1) == x, patterns=[binop.MUL(x, 1)]))
        return out

    def reduce(self, ex, st, dem, ins, args):
        """std::reduce over the elements between two iterators of a contiguous array"""
        b, e = (ex.load(st, Ptr(x.obj, x.off), vc.PTR) for x in args[:2])
        init = zr(args[2])
        o = ex.obj(st, b)
        if b.obj != e.obj or not isinstance(o, vc.Arr):
            raise Unsupported('reduce over such a range')
        ex.models_used.add('std::reduce over doubles (assumed contract: the reduction of the range, in any grouping)')
        lo, hi = ex.sdiv(st, b.off, L(8), True).z(), ex.sdiv(st, e.off, L(8), True).z()
        ex.oblige(st, 'memory: range in bounds', And(0 <= lo, lo <= hi, hi <= o.n.z()))
        a = o.fields[0][1]
        what = next((k for k, c in CPP.items() if ', %s' % c.replace('functional::', 'dwave::optimization::functional::').replace('std::logical_', 'std::logical_') in dem or c in dem.split('(')[0]), None)
        if what == 'plus' and z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
            return init + SUM(a, hi)
        if what in ('max', 'min'):
            r = z3.FreshReal('reduced')
            st.assume(extremum(what, r, init, a, lo, hi))
            st.assume(r != NAN)
            return r
        raise Unsupported('reduce ' + dem[:80])

    def pre(self, v, name):
        self.a = Operand('a')
        A, U = v.vec('a'), v.vec('ua')
        self.a.assume(v, v.inp('n') if self.noinit else None)
        h = self.a.h
        for f in self.folds():
            if f is not PROD:
                f.use(v, h, U, A, binop.mul, binop.div)
        if self.op == 'multiplies':
            v.assume(START == v.inp('init'))
        # instances of the proved lemmas about counts and products
        for arr, n in ((A.a[0], A.n), (h.arr(0), h.len(0))):
            for f in self.folds():
                if f.sort == I:
                    v.assume(f(arr, n) >= 0)
            if self.op == 'multiplies' and not vc.BOUNDED[0]:
                v.assume(PROD(arr, n) == If(ZEROS(arr, n) > 0, NIL, NZPROD(arr, n)))
        self.requires(v)

    def requires(self, v):
        pass

    def init(self, v):
        return None if self.noinit else v.inp('init')

    def holds(self, v, r, a, n, init):
        """r is the reduction of a[0..n)"""
        if self.op == 'plus':
            return r == init + SUM(a, n)
        if self.op == 'and':
            return r == If(And(init != 0, ZEROS(a, n) == 0), ONE, NIL)
        if self.op == 'or':
            return r == If(Or(init != 0, NONZEROS(a, n) > 0), ONE, NIL)
        if self.op == 'multiplies':
            return r == PROD(a, n)
        return extremum(self.op, r, init, a, 0, n)

    def extra(self, v, a, n, init, old=False):
        """what the node remembers besides the result"""
        p = 'old_' if old else ''
        if self.op == 'and':
            return v.i(p + 'count') == ZEROS(a, n) + If(init != 0, 0, 1)
        if self.op == 'or':
            return v.i(p + 'count') == NONZEROS(a, n) + If(init != 0, 1, 0)
        if self.op == 'multiplies':
            return And(v.i(p + 'count') == ZEROS(a, n), v.r(p + 'rest') == NZPROD(a, n), v.r(p + 'rest') != NAN)
        return z3.BoolVal(True)


class Init(Base):
    functions = ['ReduceNode::initialize_state', 'ReduceNode::reduce', 'ReduceNode::ReduceNode']

    def lemmas(self):
        out = []
        for f in self.folds():
            if f is not PROD:
                out += list(f.lemmas())
            if f.sort == I:
                out += counts(f)
        if self.op == 'multiplies':
            out += split_product()
        return out

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        A = v.vec('a').a[0]
        init = self.init(v)
        out = []
        if self.op in ('and', 'or'):
            f = self.folds()[0]
            c = If((init != 0) if self.op == 'or' else init == 0, 1, 0)
            out += [('counted so far', i == f(A, lc.it) + c) for i in lc.ints]
        if self.op == 'multiplies':
            out += [('zeros so far', i == ZEROS(A, lc.it)) for i in lc.ints]
            out += [('product so far', And(x == NZPROD(A, lc.it), x != NAN)) for x in lc.reals]
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            A = e.vec('a')
            yield ('the result is the reduction of the array', self.holds(e, e.r('value'), A.a[0], A.n, self.init(e)))
            yield ('it counts as committed', And(e.r('old') == e.r('value'), e.i('values') == 0))
            yield ('what is remembered fits the array', And(self.extra(e, A.a[0], A.n, self.init(e)), self.extra(e, A.a[0], A.n, self.init(e), old=True)))


class Prop(Base):
    functions = ['ReduceNode::propagate', 'ReduceNode::reduce']

    def requires(self, v):
        h = self.a.h
        v.assume(self.holds(v, v.r('value'), h.arr(0), h.len(0), self.init(v)))
        v.assume(self.extra(v, h.arr(0), h.len(0), self.init(v)))
        v.assume(And(v.r('old') == v.r('value'), v.r('value') != NAN))

    def loop_cands(self, lc):
        v = View(lc.ex, lc.cur)
        h = self.a.h
        out = []
        arr, n, init = h.arr(lc.it), h.len(lc.it), self.init(v)
        for r in [v.r('value')] + lc.reals:
            out.append(('reduction so far', And(self.holds(v, r, arr, n, init), r != NAN)))
        out.append(('remembered so far', self.extra(v, arr, n, init)))
        if self.op in ('and', 'or'):
            for i in lc.ints:
                out.append(('counted so far', i == self.folds()[0](arr, n) + If((init != 0) if self.op == 'or' else init == 0, 1, 0)))
        if self.op == 'multiplies':
            out += [('zeros so far', i == ZEROS(arr, n)) for i in lc.ints]
            out += [('product so far', And(x == NZPROD(arr, n), x != NAN)) for x in lc.reals]
        return out

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e, p = v.at('end'), v.at('pre')
            A = e.vec('a')
            yield ('the result is the reduction of the array', self.holds(e, e.r('value'), A.a[0], A.n, self.init(e)))
            yield ('the committed result is kept', And(e.r('old') == p.r('old'), e.i('values') == p.i('values')))
            yield ('what is remembered fits the array', self.extra(e, A.a[0], A.n, self.init(e)))


class Commit(Base):
    functions = ['ReduceNode::commit', 'ReduceNodeData::commit', 'ExtraData::commit']

    def post(self, v, kind, ret):
        e, p = v.at('end'), v.at('pre')
        yield ('the result is kept and now the committed one', And(kind == 'ret', e.r('value') == p.r('value'), e.r('old') == p.r('value'), e.i('values') == p.i('values')))
        if self.op in EXTRA:
            yield ('the count is kept and now the committed one', And(e.i('count') == p.i('count'), e.i('old_count') == p.i('count')))
        if self.op == 'multiplies':
            yield ('the product is kept and now the committed one', And(e.r('rest') == p.r('rest'), e.r('old_rest') == p.r('rest')))


class Revert(Base):
    functions = ['ReduceNode::revert', 'ReduceNodeData::revert', 'ExtraData::revert']

    def post(self, v, kind, ret):
        e, p = v.at('end'), v.at('pre')
        yield ('the committed result is back', And(kind == 'ret', e.r('value') == p.r('old'), e.r('old') == p.r('old'), e.i('values') == p.i('values')))
        if self.op in EXTRA:
            yield ('the committed count is back', And(e.i('count') == p.i('old_count'), e.i('old_count') == p.i('old_count')))
        if self.op == 'multiplies':
            yield ('the committed product is back', And(e.r('rest') == p.r('old_rest'), e.r('old_rest') == p.r('old_rest')))


class Observe(Base):
    functions = ['ReduceNode::buff', 'ReduceNode::diff', 'ScalarOutputMixin']

    def requires(self, v):
        v.assume(And(v.r('value') != NAN, v.r('old') != NAN))

    def post(self, v, kind, ret):
        e, p = v.at('end'), v.at('pre')
        o = e.arr('out')
        yield ('one value, and a change exactly when it differs from the committed one', And(kind == 'ret', o(0) == 0, o(1) == 1, o(2) == If(p.r('value') != p.r('old'), 1, 0), o(3) == 1, o(4) == 0, o(5) == 0))


class Bounds(Base):
    """any array of the given length whose values are in the declared range; r: its reduction"""
    functions = ['ReduceNode::min', 'ReduceNode::max', 'ReduceNode::integral']

    def __init__(self):
        self.opts = dict(ints=True)

    def pre(self, v, name):
        r, lo, hi, n = v.inp('r'), v.inp('alo'), v.inp('ahi'), v.inp('n')
        x = z3.Const('values', AR)
        w = z3.Const('wholes', AI)
        init = self.init(v)
        v.assume(lo <= hi)
        if vc.BOUNDED[0]:
            v.assume(n <= 3)
        inr = lambda k: And(lo <= sel(x, k), sel(x, k) <= hi, Implies(v.inp('aint'), sel(x, k) == z3.ToReal(sel(w, k))))
        v.assume(forall(0, n, inr, lambda k: [sel(x, k)]) if not vc.BOUNDED[0] else And([Implies(k < n, inr(k)) for k in range(3)]))
        self.k = z3.FreshInt('whole')
        if init is not None:
            v.assume(vc.isint(init) == (init == z3.ToReal(z3.ToInt(init))))
        if self.op == 'plus':
            s = SUM(x, n)
            v.assume(r == init + s)
            if not vc.BOUNDED[0]:      # lemma 'sum: range'
                v.assume(And(z3.ToReal(n) * lo <= s, s <= z3.ToReal(n) * hi, Implies(v.inp('aint'), s == z3.ToReal(self.k))))
        elif self.op in ('max', 'min'):
            if vc.BOUNDED[0]:
                le = (lambda x, y: x <= y) if self.op == 'max' else (lambda x, y: x >= y)
                v.assume(And([Implies(k < n, le(sel(x, k), r)) for k in range(3)]))
                v.assume(Or([And(k < n, sel(x, k) == r) for k in range(3)] + ([init == r] if init is not None else [])))
                if init is not None:
                    v.assume(le(init, r))
            else:
                v.assume(extremum(self.op, r, init, x, 0, n))
                j = z3.FreshInt('at')
                v.assume(Or(And(0 <= j, j < n, sel(x, j) == r), *([r == init] if init is not None else [])))
                v.assume(Implies(v.inp('aint'), Or(r == z3.ToReal(sel(w, j)), *([r == init] if init is not None else []))))
                v.assume(Implies(n > 0, And(inr(0), sel(x, 0) <= r if self.op == 'max' else sel(x, 0) >= r)))      # an instance
                self.at = sel(w, j)
        else:
            v.assume(Or(r == 0, r == 1))

    def lemmas(self):
        if self.op != 'plus':
            return []
        a, n = z3.Const('fa', AR), z3.Int('fn')
        lo, hi = z3.Reals('flo fhi')
        claim = lambda m: And(z3.ToReal(m) * lo <= SUM.F(a, m), SUM.F(a, m) <= z3.ToReal(m) * hi)
        w, k = z3.Const('fw', AI), z3.Int('fk')
        return [('sum: range (start)', [SUM.definition(a, z3.IntVal(0))], claim(z3.IntVal(0))),
                ('sum: range (step)', [SUM.definition(a, n), n >= 0, lo <= sel(a, n), sel(a, n) <= hi, claim(n)], claim(n + 1)),
                ('sum: whole (step)', [SUM.definition(a, n), n >= 0, sel(a, n) == z3.ToReal(sel(w, n)), SUM.F(a, n) == z3.ToReal(k)], SUM.F(a, n + 1) == z3.ToReal(k + sel(w, n)))]

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            e = v.at('end')
            r = e.r('r')
            yield ('no result is below the declared minimum', e.r('lo') <= r)
            yield ('no result is above the declared maximum', r <= e.r('hi'))
            init = self.init(v)
            ws = [r == z3.ToReal(z3.ToInt(r))]
            if self.op == 'plus':
                ws.append(r == z3.ToReal(z3.ToInt(init) + self.k))
            if self.op in ('max', 'min') and not vc.BOUNDED[0]:
                ws = [r == z3.ToReal(self.at)] + ([And(r == init, vc.isint(init))] if init is not None else [])
            yield ('results declared whole are whole', Implies(e.i('whole') != 0, Or(*ws)))


ALL = []
BOUNDS = []
for op in CPP:
    for noinit in ((0, 1) if op in ('max', 'min') else (0,)):
        d = dict(op=op, noinit=bool(noinit), src=SRC, defs=('-DOP=' + CPP[op], '-DNOINIT=%d' % noinit, '-DEXTRA=' + EXTRA.get(op, '')))
        sfx = op + ('_noinit' if noinit else '')
        for n, C in (('init', Init), ('prop', Prop), ('commit', Commit), ('revert', Revert), ('observe', Observe)):
            ALL.append(type('%s_%s' % (n, sfx), (C,), dict(d, fn='h_' + n)))
        if op != 'multiplies':
            BOUNDS.append(type('bounds_' + sfx, (Bounds,), dict(d, fn='h_bounds')))
ALL += BOUNDS
