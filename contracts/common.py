"""Shared specification vocabulary."""
import os, sys
import z3
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from vc import NAN, isint, fresh, zi, zr, zb, AR, AI, L, Unsupported
from models import View, forall, ghost_set
from run import Spec

AH = z3.ArraySort(z3.IntSort(), AR)
IDX, OLD, NEW = 0, 8, 16
And, Or, Not, Implies, If, Select, Store = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select, z3.Store


def sel(a, k):
    return z3.Select(a, zi(k))


def same_range(a, b, lo, hi):
    """a[k]==b[k] for lo<=k<hi"""
    return forall(lo, hi, lambda k: sel(a, k) == sel(b, k), lambda k: [sel(a, k), sel(b, k)])


def nonan(a, n):
    return forall(0, n, lambda k: sel(a, k) != NAN, lambda k: [sel(a, k)])


class History:
    """Ghost history of an array under a list of updates: state k is (arr(k), len(k)); update k leads to k+1."""

    def __init__(self, name):
        # fixed names: the same ghost in every path
        self.h = z3.Const(name + '_hist', AH)
        self.l = z3.Const(name + '_hlen', AI)

    def arr(self, k):
        return sel(self.h, k)

    def len(self, k):
        return sel(self.l, k)

    def step(self, U, k):
        """update k is a valid description of the move from state k to state k+1"""
        i, o, v = sel(U.a[IDX], k), sel(U.a[OLD], k), sel(U.a[NEW], k)
        ln, ln2 = self.len(k), self.len(k + 1)
        h, h2 = self.arr(k), self.arr(k + 1)
        placed, removed = o == NAN, v == NAN
        return And(Not(And(placed, removed)), ln >= 0, ln2 >= 0,
                   If(placed, And(i == ln, ln2 == ln + 1, h2 == Store(h, i, v)),
                      If(removed, And(i == ln - 1, i >= 0, ln2 == ln - 1, sel(h, i) == o, h2 == h),
                         And(0 <= i, i < ln, ln2 == ln, sel(h, i) == o, h2 == Store(h, i, v)))))

    def valid(self, U):
        return forall(0, U.n, lambda k: self.step(U, k), lambda k: [sel(U.a[IDX], k), sel(U.a[OLD], k), sel(U.a[NEW], k)])

    def ends_at(self, U, B):
        return And(self.len(U.n) == B.n, same_range(self.arr(U.n), B.a[0], 0, B.n))


class DiffGhost:
    """Ghost replay of every pushed update on top of the state described so far."""

    def __init__(self, label='updates', pre=''):
        self.label = label
        self.p = pre

    def init(self, v, B):
        v.ghost(self.p + 'GA', B.a[0])
        v.ghost(self.p + 'GL', z3.simplify(B.n))
        v.ghost(self.p + 'GOK', z3.BoolVal(True))

    def push(self, ex, st, vals):
        g, gl, ok = st.ghost[self.p + 'GA'], st.ghost[self.p + 'GL'], st.ghost[self.p + 'GOK']
        i, o, v = zi(ex.as_int(vals[IDX])), zr(ex.scal(vals[OLD])), zr(ex.scal(vals[NEW]))
        placed, removed = z3.simplify(o == NAN), z3.simplify(v == NAN)
        valid = And(Not(And(placed, removed)),
                    If(placed, i == gl, If(removed, And(i >= 0, i == gl - 1, sel(g, i) == o), And(0 <= i, i < gl, sel(g, i) == o))))
        ghost_set(ex, st, self.p + 'GOK', z3.simplify(And(ok, valid)) if z3.is_true(ok) else And(ok, valid))
        if z3.is_true(removed):
            na = g
        elif z3.is_false(removed):
            na = Store(g, i, v)
        else:
            na = fresh('GA', AR)
            st.assume(na == If(removed, g, Store(g, i, v)))
        ghost_set(ex, st, self.p + 'GA', na)
        ghost_set(ex, st, self.p + 'GL', z3.simplify(If(placed, gl + 1, If(removed, gl - 1, gl))))

    def ok(self, v):
        return v.st.ghost[self.p + 'GOK']

    def arr(self, v):
        return v.st.ghost[self.p + 'GA']

    def len(self, v):
        return v.st.ghost[self.p + 'GL']

    def agrees(self, v, B):
        """the replayed state is the buffer"""
        return And(self.len(v) == B.n, same_range(self.arr(v), B.a[0], 0, B.n))


def prefix_kept(U0, U1):
    return And(U1.n >= U0.n, *[same_range(U1.a[f], U0.a[f], 0, U0.n) for f in (IDX, OLD, NEW)])


def assign_cands(g, c, p, it, want, newn, buf='buffer', ups='updates'):
    """invariants of replacing the contents of a tracked buffer by want(0..newn-1)"""
    B, U, B0, U0 = c.vec(buf), c.vec(ups), p.vec(buf), p.vec(ups)
    ov = If(B0.n < newn, B0.n, newn)

    def eq(upto):
        return forall(0, upto, lambda k: sel(B.a[0], k) == want(k), lambda k: [sel(B.a[0], k)])
    return [
        ('prefix kept', prefix_kept(U0, U)),
        ('ghost ok', g.ok(c)),
        ('ghost length is the buffer length', g.len(c) == B.n),
        ('ghost length shrinks', g.len(c) == B.n - it),
        ('ghost agrees below its length', same_range(g.arr(c), B.a[0], 0, g.len(c))),
        ('visited prefix equals the values', eq(it)),
        ('overlap equals the values', eq(ov)),
        ('all equals the values', eq(B.n)),
        ('buffer not NaN', nonan(B.a[0], B.n)),
    ]


# ---- assumed contracts of standard algorithms on ranges of indices
def _range(ex, st, args, what):
    a, b = args[0], args[1]
    o = ex.obj(st, a)
    if not (a.obj == b.obj and a.off.const() and a.off.c == 0 and 0 in o.fields and o.fields[0][0] == 'i64' and len(o.fields) == 1):
        raise Unsupported(what)
    return a, o, ex.sdiv(st, b.off, L(8), True)


def _distinct(fs, *facts):
    return facts


def sorted_strict(S, n, strict):
    c = z3.simplify(zi(n))
    lt = (lambda x, y: x < y) if strict else (lambda x, y: x <= y)
    if z3.is_int_value(c):
        return And([lt(sel(S, i), sel(S, j)) for i in range(c.as_long()) for j in range(i + 1, c.as_long())])
    a, b = z3.Ints('sa sb')
    return z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < n), lt(sel(S, a), sel(S, b))), patterns=[z3.MultiPattern(sel(S, a), sel(S, b))])


def _replace(ex, st, a, o, S):
    ob = o.copy()
    ob.fields = {0: ('i64', S)}
    st.mem[a.obj] = ob
    ex.note_write(('arr', a.obj, 0), None)


def _keeps(ex, st, old, n, S, m):
    """what holds of every value before holds of every value after (they are the same values)"""
    ok = getattr(ex.spec, 'index_ok', None)
    if ok is None:
        return
    ok = ok(View(ex, st))
    ex.oblige(st, 'every index is one of the array', forall(0, n, lambda k: ok(sel(old, k)), lambda k: [sel(old, k)]))
    st.assume(forall(0, n, lambda k: Implies(k < m, ok(sel(S, k))), lambda k: [sel(S, k)]))


def sort_i64(ex, st, dem, ins, args):
    """std::sort of 64-bit integers: sorted, the same values"""
    ex.models_used.add('std::sort of 64-bit integers (assumed contract: ascending, the same values)')
    a, o, n = _range(ex, st, args, 'sort')
    old, S, to, fro = o.fields[0][1], fresh('sorted', AI), fresh('to', AI), fresh('from', AI)
    n = n.z()
    st.assume(sorted_strict(S, n, False))
    st.assume(forall(0, n, lambda k: And(0 <= sel(fro, k), sel(fro, k) < n, sel(S, k) == sel(old, sel(fro, k))), lambda k: [sel(S, k)]))
    st.assume(forall(0, n, lambda k: And(0 <= sel(to, k), sel(to, k) < n, sel(old, k) == sel(S, sel(to, k))), lambda k: [sel(old, k)]))
    _keeps(ex, st, old, n, S, n)
    _replace(ex, st, a, o, S)
    return None


def unique_i64(ex, st, dem, ins, args):
    """std::unique of an ascending range: the first elements are the different values, ascending; the end of those is returned"""
    ex.models_used.add('std::unique of ascending 64-bit integers (assumed contract: the different values, ascending)')
    a, o, n = _range(ex, st, args, 'unique')
    old, S, to, fro, m = o.fields[0][1], fresh('unique', AI), fresh('to', AI), fresh('from', AI), z3.FreshInt('different')
    n = n.z()
    ex.oblige(st, 'unique: the range is ascending', sorted_strict(old, n, False))
    st.assume(And(0 <= m, m <= n, Implies(n > 0, m > 0)))
    st.assume(sorted_strict(S, m, True) if not z3.is_int_value(z3.simplify(n)) else And([Implies(j < m, sel(S, i) < sel(S, j)) for i in range(n.as_long() if z3.is_int_value(n) else z3.simplify(n).as_long()) for j in range(i + 1, z3.simplify(n).as_long())]))
    st.assume(forall(0, n, lambda k: Implies(k < m, And(0 <= sel(fro, k), sel(fro, k) < n, sel(S, k) == sel(old, sel(fro, k)))), lambda k: [sel(S, k)]))
    st.assume(forall(0, n, lambda k: And(0 <= sel(to, k), sel(to, k) < m, sel(old, k) == sel(S, sel(to, k))), lambda k: [sel(old, k)]))
    _keeps(ex, st, old, n, S, m)
    st.ghost['different'] = m
    _replace(ex, st, a, o, S)
    from vc import Ptr
    return Ptr(a.obj, L.of(m).scale(8))


INDEX_ALGOS = [(r'(^| )std::sort<__gnu_cxx::__normal_iterator<long\*', sort_i64), (r'(^| )std::unique<__gnu_cxx::__normal_iterator<long\*', unique_i64)]
