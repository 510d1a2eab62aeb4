"""Contracts of fraction (utils.hpp) and SizeInfo (array.hpp, array.cpp)."""
from common import *
from models import GCD
import ll
from vc import Ptr

GCD_AX = []          # the assumed contract of std::gcd is instantiated at each call (models.py)


def lowest(n, d):
    return And(d > 0, GCD(n, d) == 1)


class B(Spec):
    src = 'fraction.cpp'
    opts = dict(div='ghost', ub_overflow=False)
    bounded = dict(maxlen=2, unroll=8)

    def pre(self, v, name):
        i = v.st.snaps['inputs']
        if 'd' in i and self.reduced:
            v.assume(lowest(i['n'], i['d']))
        if 'd2' in i:
            v.assume(lowest(i['n2'], i['d2']))
    reduced = True
    zero = None

    def post(self, v, kind, ret):
        z = z3.BoolVal(False) if self.zero is None else v.inp(self.zero) == 0
        if kind == 'throw':
            yield ('only a division by zero is rejected', z)
            return
        yield ('a division by zero is rejected', Not(z))
        e = v.at('end')
        yield from self.ensures(v, e)

    def frac(self, e, num, den):
        """the result is num/den in lowest terms"""
        n, d = e.i('f'), e.i('f', 8)
        yield ('the value is the mathematical one', n * den == d * num)
        yield ('the denominator is positive', d > 0)
        yield ('lowest terms', GCD(n, d) == 1)


class Ctor1(B):
    fn = 'h_ctor1'
    functions = ['fraction::fraction(n)']

    def ensures(self, v, e):
        yield ('the value is the integer', And(e.i('f') == v.inp('n'), e.i('f', 8) == 1))


class Ctor(B):
    fn = 'h_ctor'
    functions = ['fraction::fraction(n, d)', 'fraction::reduce']
    reduced = False
    zero = 'd'

    def ensures(self, v, e):
        yield from self.frac(e, v.inp('n'), v.inp('d'))


class MulInt(B):
    fn = 'h_muli'
    functions = ['fraction::operator*=(integer)', 'fraction::reduce']

    def ensures(self, v, e):
        yield from self.frac(e, v.inp('n') * v.inp('k'), v.inp('d'))


class MulInt2(MulInt):
    fn = 'h_muli2'
    functions = ['fraction operator*(fraction, integer)']


class MulFrac(B):
    fn = 'h_mulf'
    functions = ['fraction::operator*=(fraction)', 'fraction::reduce']

    def ensures(self, v, e):
        yield from self.frac(e, v.inp('n') * v.inp('n2'), v.inp('d') * v.inp('d2'))


class DivInt(B):
    fn = 'h_divi'
    functions = ['fraction::operator/=(integer)', 'fraction::reduce']
    zero = 'k'

    def ensures(self, v, e):
        yield from self.frac(e, v.inp('n'), v.inp('d') * v.inp('k'))


class DivInt2(DivInt):
    fn = 'h_divi2'
    functions = ['fraction operator/(fraction, integer)']


class Eq(B):
    fn = 'h_eq'
    functions = ['fraction::operator==(fraction)']

    def ensures(self, v, e):
        yield ('equal exactly if numerator and denominator are', (e.i('r') != 0) == And(v.inp('n') == v.inp('n2'), v.inp('d') == v.inp('d2')))


class EqInt(B):
    fn = 'h_eqi'
    functions = ['fraction::operator==(integer)']

    def ensures(self, v, e):
        # n/d == k  iff  n == k*d; in lowest terms this needs d == 1
        yield ('equal to an integer exactly if that is the value', (e.i('r') != 0) == And(v.inp('n') == v.inp('k'), v.inp('d') == 1))


class ToInt(B):
    fn = 'h_int'
    functions = ['fraction::operator ssize_t']

    def ensures(self, v, e):
        n, d, r = v.inp('n'), v.inp('d'), e.i('r')
        yield ('rounded towards zero', If(n >= 0, And(r * d <= n, n < (r + 1) * d), And(r * d >= n, n > (r - 1) * d)))


class Substitute(B):
    """size == m*a + o for the current size a of A (bounds, where given, are bounds of a); a == m2*b + o2 for the current size b
    of B (or, for an array that determines its own size, b is a), with bounds of a.  m*o2 is an integer (asserted by the code).
    The fraction operations are used through the contracts proved above."""
    fn = 'h_substitute'
    functions = ['SizeInfo::substitute']
    rooted = False
    R = staticmethod(z3.ToReal)

    def __init__(self):
        self.val = {}        # numerator term -> (denominator term, real value)
        self.opts = dict(div='ghost', lin=True, contracts=[(r'fraction::operator\*=', self.times), (r'optimization::operator\*(<[^(]*>)?\(dwave::optimization::fraction', self.times2), (r'fraction::operator long', self.toint)])

    def value(self, st, n, d):
        """the rational n/d, as a real"""
        if z3.is_int_value(n) and z3.is_int_value(d):
            return z3.RealVal('%d/%d' % (n.as_long(), d.as_long()))
        k = (n.get_id(), d.get_id())
        if k not in self.val:
            self.val[k] = (n, d, fresh('val', 'R'))
        st.assume(self.R(n) == self.val[k][2] * self.R(d))
        return self.val[k][2]

    def result(self, ex, st, val):
        n, d = fresh('num'), fresh('den')
        st.assume(lowest(n, d))
        self.val[(n.get_id(), d.get_id())] = (n, d, val)
        st.assume(self.R(n) == val * self.R(d))
        return L.of(n), L.of(d)

    def rd(self, ex, st, p):
        return self.value(st, ex.as_int(ex.load(st, p, ll.INT(64))).z(), ex.as_int(ex.load(st, Ptr(p.obj, p.off + 8), ll.INT(64))).z())

    def times(self, ex, st, dem, ins, args):
        ex.models_used.add('contract of fraction::operator*= (proved as MulInt, MulFrac)')
        p = args[0]
        v = self.rd(ex, st, p)
        o = self.rd(ex, st, args[1]) if isinstance(args[1], Ptr) else self.R(ex.as_int(args[1]).z())
        n, d = self.result(ex, st, v * o)
        ex.store(st, p, n, ll.INT(64))
        ex.store(st, Ptr(p.obj, p.off + 8), d, ll.INT(64))
        return p

    def toint(self, ex, st, dem, ins, args):
        ex.models_used.add('contract of fraction::operator ssize_t (proved as ToInt)')
        v = self.rd(ex, st, args[0])
        q = fresh('q')
        st.assume(If(v >= 0, And(self.R(q) <= v, v < self.R(q) + 1, q >= 0), And(self.R(q) >= v, v > self.R(q) - 1, q <= 0)))
        k = z3.Int('k_exact')       # a consequence, spelled out for the solver
        st.assume(Implies(v == self.R(k), q == k))
        return L.of(q)

    def times2(self, ex, st, dem, ins, args):
        ex.models_used.add('contract of fraction operator*(fraction, integer) (proved as MulInt2)')
        n0, d0, k = [ex.as_int(a).z() for a in args]
        n, d = self.result(ex, st, self.value(st, n0, d0) * self.R(k))
        return [n, d]

    def pre(self, v, name):
        B.pre(self, v, name)
        g = lambda x: v.inp(x)
        a, b, size = z3.Int('a'), z3.Int('b'), z3.Int('size')
        R = self.R
        m, m2 = self.value(v.st, g('n'), g('d')), self.value(v.st, g('n2'), g('d2'))
        v.assume(And(g('n') >= 1, g('n2') >= 1, a >= 0, b >= 0, size >= 0, m2 > 0))
        v.assume(m > 0)
        v.assume(m * R(a) + R(g('o')) == R(size))
        eq = m2 * R(b) + R(g('o2')) == R(a)
        v.assume(eq)
        low, high = {}, {}
        for x in ('', '2'):
            low[x] = Implies(g('hmin' + x), And(g('min' + x) <= a, g('min' + x) >= 0))
            high[x] = Implies(g('hmax' + x), And(g('max' + x) >= a))
            v.assume(low[x])
            v.assume(high[x])
        v.assume(g('rooted') if self.rooted else Not(g('rooted')))
        if self.rooted:     # an array that determines its own size
            v.assume(And(a == b, g('n2') == 1, g('d2') == 1, g('o2') == 0))
        v.assume(m * R(g('o2')) == R(z3.Int('k_exact')))
        v.lemma('m*a in terms of b', m * R(a) == m * m2 * R(b) + m * R(g('o2')), [eq])
        for x in ('', '2'):
            v.lemma('min' + x, Implies(g('hmin' + x), m * R(g('min' + x)) <= m * R(a)), [m > 0, low[x]])
            v.lemma('max' + x, Implies(g('hmax' + x), m * R(g('max' + x)) >= m * R(a)), [m > 0, high[x]])

    def ensures(self, v, e):
        a, b, size = z3.Int('a'), z3.Int('b'), z3.Int('size')
        o = [e.i('out', 8 * k) for k in range(7)]
        n, d, off = o[:3]
        yield ('the result refers to what the size of the array refers to', e.i('same') != 0)
        s2 = v.st
        r = self.value(s2, n, d)
        yield ('the size is expressed exactly', r * self.R(b) + self.R(off) == self.R(size))
        yield ('the multiplier is in lowest terms', Or(And(n == 0, d == 1), lowest(n, d)))
        yield ('lower limit', Implies(o[3] != 0, o[4] <= size))
        yield ('upper limit', Implies(o[5] != 0, o[6] >= size))


class SubstituteRoot(Substitute):
    """an array that determines its own size: its bounds are those of its size, and a size that is already that simple is kept"""
    rooted = True

    def pre(self, v, name):
        Substitute.pre(self, v, name)
        g = v.inp
        # a size that is the array's own size
        v.assume(And(g('n') == 1, g('d') == 1, g('o') == 0))


class SubstituteNone(B):
    fn = 'h_substitute_none'
    functions = ['SizeInfo::substitute']

    def post(self, v, kind, ret):
        if kind == 'throw':
            yield ('does not throw', False)
            return
        if 'end' not in v.st.snaps:
            return
        e = v.at('end')
        g = v.inp
        o = [e.i('out', 8 * k) for k in range(7)]
        yield ('the size information is unchanged', And(o[0] == g('n'), o[1] == g('d'), o[2] == g('o')))
        yield ('the limits are unchanged', And((o[3] != 0) == g('hmin'), Implies(g('hmin'), o[4] == g('min')), (o[5] != 0) == g('hmax'), Implies(g('hmax'), o[6] == g('max'))))


ALL = [Ctor1, Ctor, MulInt, MulInt2, MulFrac, DivInt, DivInt2, Eq, EqInt, ToInt, SubstituteNone, SubstituteRoot, Substitute]
