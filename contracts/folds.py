"""Recursive functions over the first elements of an array (sum, number of zeros, product ...), with the lemmas the contracts use.
The lemmas are proved by induction (Fold.lemmas, obligations of every contract that uses them)."""
from common import *
import vc

R, I = z3.RealSort(), z3.IntSort()
CAP = 6     # bounded mode only: longest array


class Fold:
    """F(a, 0) = unit, F(a, n+1) = F(a, n) . f(a[n])"""

    def __init__(self, name, f, times=False, sort=R, start=None):
        self.start = start
        self.f, self.times, self.sort = f, times, sort
        self.F = z3.Function('fold_' + name, AR, I, sort)
        self.name = name

    def unit(self):
        if self.start is not None:
            return self.start
        return (z3.RealVal if self.sort == R else z3.IntVal)(1 if self.times else 0)

    def op(self, x, y):
        return x * y if self.times else x + y

    def __call__(self, a, n):
        if vc.BOUNDED[0]:
            r = self.unit()
            for k in range(CAP):
                r = self.op(r, If(k < n, self.f(sel(a, k)), (z3.RealVal if self.sort == R else z3.IntVal)(1 if self.times else 0)))
            return r
        return self.F(a, n)

    def definition(self, a, n):
        """instance of the definition, n >= 0"""
        return And(self.F(a, 0) == self.unit(), Implies(n >= 0, self.F(a, n + 1) == self.op(self.F(a, n), self.f(sel(a, n)))))

    def axioms(self, mul=None):
        op = mul if mul and self.times else self.op
        a = z3.Const('fa', AR)
        n, m = z3.Ints('fn fm')
        return [z3.ForAll([a], self.F(a, 0) == self.unit(), patterns=[self.F(a, 0)]),
                z3.ForAll([a, n, m], Implies(And(n >= 0, m == n + 1), self.F(a, m) == op(self.F(a, n), self.f(sel(a, n)))), patterns=[z3.MultiPattern(self.F(a, n), self.F(a, m))])]

    # ---- consequences, for use on the history of an array
    def moved(self, h, ln, h2, ln2, i, o, v, mul=lambda x, y: x * y, div=lambda x, y: x / y):
        """F after one update, from F before it"""
        x, y = self(h, ln), self(h2, ln2)
        if self.times:
            full = lambda g, c, d: If(c == 0, If(d == 0, g, mul(g, d)), If(d == 0, div(g, c), mul(g, div(d, c))))
            return If(o == NAN, y == If(v == 0, x, mul(x, v)), If(v == NAN, y == If(o == 0, x, div(x, o)), y == full(x, o, v)))
        return If(o == NAN, y == x + self.f(v), If(v == NAN, y == x - self.f(o), y == x - self.f(o) + self.f(v)))

    def use(self, v, h, U, A, *muldiv):
        """facts about the history h of array A under the updates U (instances of the lemmas below)"""
        v.assume(forall(0, U.n, lambda k: self.moved(h.arr(k), h.len(k), h.arr(k + 1), h.len(k + 1), sel(U.a[IDX], k), sel(U.a[OLD], k), sel(U.a[NEW], k), *muldiv),
                        lambda k: [sel(U.a[IDX], k), sel(U.a[OLD], k), sel(U.a[NEW], k)]))
        v.assume(self(h.arr(U.n), h.len(U.n)) == self(A.a[0], A.n))

    def lemmas(self):
        a, b = z3.Const('fa', AR), z3.Const('fb', AR)
        n, i, ln = z3.Ints('fn fi fln')
        o, v = z3.Reals('fo fv')
        F, f = self.F, self.f
        eq = lambda m: And(*[]) if False else z3.ForAll([i], Implies(And(0 <= i, i < m), sel(a, i) == sel(b, i)), patterns=[sel(a, i), sel(b, i)])
        d = [self.definition(a, n), self.definition(b, n), n >= 0]
        nm = self.name + ': '
        yield (nm + 'equal elements (start)', [self.definition(a, z3.IntVal(0)), self.definition(b, z3.IntVal(0))], F(a, 0) == F(b, 0))
        yield (nm + 'equal elements (step)', d + [eq(n + 1), Implies(eq(n), F(a, n) == F(b, n))], F(a, n + 1) == F(b, n + 1))
        # one element replaced: b = a with v at position i
        one = lambda m: F(b, m) == F(a, m) if False else (F(b, m) * f(sel(a, i)) == F(a, m) * f(v) if self.times else F(b, m) == F(a, m) - f(sel(a, i)) + f(v))
        st = b == Store(a, i, v)
        yield (nm + 'replaced beyond (start)', [st, i >= 0, self.definition(a, z3.IntVal(0)), self.definition(b, z3.IntVal(0))], F(a, 0) == F(b, 0))
        yield (nm + 'replaced beyond (step)', d + [st, i >= n + 1, F(a, n) == F(b, n)], F(a, n + 1) == F(b, n + 1))
        yield (nm + 'replaced (last)', d + [st, i == n, F(a, n) == F(b, n)], one(n + 1))
        yield (nm + 'replaced (step)', d + [st, 0 <= i, i < n, one(n)], one(n + 1))
        # one update, using the above at the lengths involved
        ln2 = z3.Int('fln2')
        h = History('lemma')
        pre = [ln >= 0, Not(And(o == NAN, v == NAN)), f(o) != 0 if self.times else z3.BoolVal(True)]
        upd = And(If(o == NAN, And(i == ln, ln2 == ln + 1, b == Store(a, i, v)), If(v == NAN, And(i == ln - 1, i >= 0, ln2 == ln - 1, sel(a, i) == o, b == a), And(0 <= i, i < ln, ln2 == ln, sel(a, i) == o, b == Store(a, i, v)))))
        inst = [Implies(And(b == Store(a, i, v), i >= ln), F(a, ln) == F(b, ln)), Implies(And(b == Store(a, i, v), 0 <= i, i < ln), one(ln)),
                self.definition(a, ln), self.definition(b, ln), self.definition(a, ln - 1), self.definition(b, ln - 1)]
        bounded, vc.BOUNDED[0] = vc.BOUNDED[0], False
        goal = self.moved(a, ln, b, ln2, i, o, v)
        vc.BOUNDED[0] = bounded
        yield (nm + 'one update', pre + [upd] + inst, goal)


ZERO = lambda x: If(x == 0, z3.IntVal(1), z3.IntVal(0))
SUM = Fold('sum', lambda x: x)
ZEROS = Fold('zeros', ZERO, sort=I)
NONZEROS = Fold('nonzeros', lambda x: If(x != 0, z3.IntVal(1), z3.IntVal(0)), sort=I)
START = z3.Real('product_start')
NZPROD = Fold('nonzero_product', lambda x: If(x == 0, z3.RealVal(1), x), times=True, start=START)
PROD = Fold('product', lambda x: x, times=True, start=START)


def counts(fold):
    """number of elements with a property: never negative"""
    a, n = z3.Const('fa', AR), z3.Int('fn')
    return [(fold.name + ': not negative (start)', [fold.definition(a, z3.IntVal(0))], fold.F(a, 0) >= 0),
            (fold.name + ': not negative (step)', [fold.definition(a, n), n >= 0, fold.F(a, n) >= 0], fold.F(a, n + 1) >= 0)]


def split_product():
    """the product is zero when there is a zero, else the product of the others"""
    a, n = z3.Const('fa', AR), z3.Int('fn')
    claim = lambda m: And(ZEROS.F(a, m) >= 0, PROD.F(a, m) == If(ZEROS.F(a, m) > 0, z3.RealVal(0), NZPROD.F(a, m)))
    d = lambda m: [f.definition(a, m) for f in (ZEROS, PROD, NZPROD)]
    return [('product: split (start)', d(z3.IntVal(0)), claim(z3.IntVal(0))), ('product: split (step)', d(n) + [n >= 0, claim(n)], claim(n + 1))]
