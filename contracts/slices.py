"""Contracts of Slice (array.hpp): Python's slice arithmetic, in exact 64-bit arithmetic."""
from common import *

I63 = 2 ** 63
BIG = dict(maxlen=2, unroll=16)


def python_slice(v, n):
    """(start, stop, step) of slice(...).indices(n), as mathematical integers"""
    p = v.at('pre')
    has = [p.i('has', 8 * k) == 1 for k in range(3)]
    arg = [p.i('arg', 8 * k) for k in range(3)]
    step = If(has[2], arg[2], 1)

    def adjust(x):
        return If(x < 0, If(x + n < 0, If(step < 0, -1, 0), x + n), If(x >= n, If(step < 0, n - 1, n), x))
    start = If(has[0], adjust(arg[0]), If(step < 0, n - 1, z3.IntVal(0)))
    stop = If(has[1], adjust(arg[1]), If(step < 0, z3.IntVal(-1), n))
    return start, stop, step


def count(k, start, stop, step):
    """k is the number of indices in range(start, stop, step)"""
    last = start + (k - 1) * step
    nxt = last + step
    return [('an empty range has size zero', Implies(If(step > 0, start >= stop, start <= stop), k == 0)),
            ('a range that is not empty has a positive size', Implies(If(step > 0, start < stop, start > stop), k >= 1)),
            ('the last index is before the stop', Implies(k >= 1, If(step > 0, last < stop, last > stop))),
            ('the index after the last is not', Implies(k >= 1, If(step > 0, nxt >= stop, nxt <= stop)))]


class B(Spec):
    src = 'slice.cpp'
    opts = dict(wrap='exact', div='ghost')
    bounded = BIG
    sized = False

    def pre(self, v, name):
        if self.sized:
            n = v.inp('n')
            v.assume(And(n >= 0, n < I63))

    def throws(self, v):
        p = v.at('pre')
        return And(p.i('has', 16) == 1, p.i('arg', 16) == 0)

    def post(self, v, kind, ret):
        z = self.throws(v)
        if kind == 'throw':
            yield ('only a step of zero is rejected', z)
            return
        yield ('a step of zero is rejected', Not(z))
        yield from self.ensures(v, v.at('end'))


class Fit(B):
    fn = 'h_fit'
    sized = True
    functions = ['Slice::Slice', 'Slice::fit', 'Slice::size']

    def ensures(self, v, e):
        n = v.inp('n')
        ps, pt, st = python_slice(v, n)
        s, t, q, k = e.i('f'), e.i('f', 8), e.i('f', 16), e.i('k')
        yield ('the step is kept', q == st)
        yield ('the start is the one Python uses', s == ps)
        # where nothing is selected the exact stop does not matter
        yield ('the stop is the one Python uses, or nothing is selected by either', Or(t == pt, And(k == 0, If(st > 0, ps >= pt, ps <= pt))))
        # an unbounded negative step stops after the first element: -1 is where Python stops as well
        for nm, g in count(k, ps, pt, st):
            yield (nm, g)
        yield ('the bounds are within the array', And(s >= -1, s <= n, t >= -1, t <= n))


class FitAt(B):
    fn = 'h_fit_at'
    functions = ['Slice::Slice', 'Slice::fit_at', 'Slice::fit']

    def throws(self, v):
        return Or(B.throws(self, v), v.inp('n') < 0)

    def ensures(self, v, e):
        n = v.inp('n')
        ps, pt, st = python_slice(v, n)
        s, t, q = e.i('f'), e.i('f', 8), e.i('f', 16)
        yield ('the start and step are those Python uses', And(s == ps, q == st))
        yield ('the stop selects what Python selects', Or(t == pt, And(If(st > 0, s >= t, s <= t), If(st > 0, ps >= pt, ps <= pt))))


class Size(B):
    fn = 'h_size'
    functions = ['Slice::size']

    def pre(self, v, name):
        v.assume(v.inp('step') != 0)

    def throws(self, v):
        return z3.BoolVal(False)

    def ensures(self, v, e):
        k = e.i('k')
        u = If(k < 0, k + 2 ** 64, k)     # the result is unsigned
        for nm, g in count(u, v.inp('start'), v.inp('stop'), v.inp('step')):
            yield (nm, g)


class Empty(B):
    fn = 'h_empty'
    functions = ['Slice::Slice', 'Slice::empty', 'Slice::operator==']

    def ensures(self, v, e):
        p = v.at('pre')
        has = [p.i('has', 8 * k) == 1 for k in range(3)]
        arg = [p.i('arg', 8 * k) for k in range(3)]
        full = And(Or(Not(has[0]), arg[0] == 0), Or(Not(has[1]), arg[1] == I63 - 1), Or(Not(has[2]), arg[2] == 1))
        yield ('only the full slice is empty()', (e.i('k') == 1) == full)


ALL = [Fit, FitAt, Size, Empty]
