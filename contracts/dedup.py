"""Contract of deduplicate_diff (utils.cpp)."""
from common import *
from models import set_vec, new_arr
from vc import VecState


class Dedup(Spec):
    """The list is a valid list of updates leading from an array BF to an array AF (absent elements are the absent-value marker).
    Stably sorted by element (assumed contract of std::stable_sort), the updates of one element form a chain from BF to AF."""
    src = 'dedup.cpp'
    fn = 'h_dedup'
    functions = ['deduplicate_diff', 'Update::identity', 'Update::null']
    bounded = dict(maxlen=4, unroll=8)
    BF, AF = z3.Const('BF', AR), z3.Const('AF', AR)
    n0, n1 = z3.Int('n_before'), z3.Int('n_after')

    def __init__(self):
        self.opts = dict(contracts=[(r'std::stable_sort<', self.sort)], inv_ms=2500)

    def sort(self, ex, st, dem, ins, args):
        ex.models_used.add('std::stable_sort (sorts by element, keeps the order of the updates of one element: they form a chain from the old to the new value)')
        p = st.labels['diff']
        v = ex.obj(st, p).vecs[p.off.c]
        fields = {off: (k, fresh('S%d' % off, AI if k == 'i64' else AR)) for off, k in v.et.fields}
        b = new_arr(ex, st, v.et, v.n, fields, 'sorted')
        # the iterators stay valid: sorted in place
        ob = st.mem[v.buf].copy()
        ob.fields = {off: fields[off] for off in ob.fields}
        st.mem[v.buf] = ob
        for off in fields:
            ex.note_write(('arr', v.buf, off), None)
        S = {off: a for off, (k, a) in fields.items()}
        st.ghost['S'] = S
        n = v.n.z()
        idx = lambda k: sel(S[IDX], k)
        fact = [
            forall(0, n, lambda k: And(idx(k) >= 0, Not(And(sel(S[OLD], k) == NAN, sel(S[NEW], k) == NAN))), lambda k: [sel(S[IDX], k), sel(S[OLD], k), sel(S[NEW], k)]),
            # sorted: both the global and the neighbour form
            forall(0, n - 1, lambda k: idx(k) <= idx(k + 1), lambda k: [sel(S[IDX], k)]),
            self.sorted2(S, n),
            forall(0, n, lambda k: Implies(Or(k == 0, idx(k - 1) != idx(k)), sel(S[OLD], k) == sel(self.BF, idx(k))), lambda k: [sel(S[IDX], k), sel(S[OLD], k)]),
            forall(0, n, lambda k: Implies(Or(k == n - 1, idx(k + 1) != idx(k)), sel(S[NEW], k) == sel(self.AF, idx(k))), lambda k: [sel(S[IDX], k), sel(S[NEW], k)]),
            forall(0, n - 1, lambda k: Implies(idx(k + 1) == idx(k), sel(S[NEW], k) == sel(S[OLD], k + 1)), lambda k: [sel(S[IDX], k), sel(S[NEW], k)]),
            self.n0 >= 0, self.n1 >= 0,
        ]
        q = z3.Int('q_ba')
        fact.append(z3.ForAll([q], Implies(q >= 0, And((sel(self.BF, q) == NAN) == (q >= self.n0), (sel(self.AF, q) == NAN) == (q >= self.n1))), patterns=[sel(self.BF, q), sel(self.AF, q)])
                    if ex.bounded is None else And([And((sel(self.BF, idx(k)) == NAN) == (idx(k) >= self.n0), (sel(self.AF, idx(k)) == NAN) == (idx(k) >= self.n1)) for k in range(v.n.c)]))
        for f in fact:
            st.assume(f)
        return None

    def sorted2(self, S, n):
        c = z3.simplify(n)
        if z3.is_int_value(c):
            return And([sel(S[IDX], a) <= sel(S[IDX], b) for a in range(c.as_long()) for b in range(a, c.as_long())])
        a, b = z3.Ints('sa sb')
        return z3.ForAll([a, b], Implies(And(0 <= a, a <= b, b < n), sel(S[IDX], a) <= sel(S[IDX], b)), patterns=[z3.MultiPattern(sel(S[IDX], a), sel(S[IDX], b))])

    def same(self, i):
        return sel(self.BF, i) == sel(self.AF, i)

    def entries(self, D, p):
        """the first p updates: final, sorted, not from nothing to nothing"""
        i = lambda k: sel(D[IDX], k)
        return And(forall(0, p, lambda k: And(sel(D[OLD], k) == sel(self.BF, i(k)), sel(D[NEW], k) == sel(self.AF, i(k)), i(k) >= 0, Not(And(sel(D[OLD], k) == NAN, sel(D[NEW], k) == NAN))),
                          lambda k: [sel(D[IDX], k), sel(D[OLD], k), sel(D[NEW], k)]))

    def increasing(self, D, p):
        c = z3.simplify(p)
        if z3.is_int_value(c):
            return And([sel(D[IDX], a) < sel(D[IDX], b) for a in range(c.as_long()) for b in range(a + 1, c.as_long())])
        a, b = z3.Ints('ia ib')
        return z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < p), sel(D[IDX], a) < sel(D[IDX], b)), patterns=[z3.MultiPattern(sel(D[IDX], a), sel(D[IDX], b))])

    def covered(self, S, D, i, p, last):
        """an element touched by the updates before i that lies outside the updates D[0..p) does not change;
        last: the element of D's last update and beyond is excluded when it is not final yet"""
        c, cp = z3.simplify(zi(i)), z3.simplify(zi(p))
        if z3.is_int_value(c) and z3.is_int_value(cp):
            return And([Or(self.same(sel(S[IDX], k)), *([sel(S[IDX], k) == sel(D[IDX], j) for j in range(cp.as_long())] + ([sel(S[IDX], k) >= last] if last is not None else [])))
                        for k in range(c.as_long())])
        k, j = z3.Ints('ck cj')
        lim = z3.BoolVal(True) if last is None else sel(S[IDX], k) < last
        return And(self.cov_gap(S, D, i, p, lim, k, j), self.cov_low(S, D, i, p, lim, k), self.cov_high(S, D, i, p, lim, k))

    def cov_gap(self, S, D, i, p, lim, k, j):
        return z3.ForAll([k, j], Implies(And(0 <= k, k < i, 0 <= j, j + 1 < p, sel(D[IDX], j) < sel(S[IDX], k), sel(S[IDX], k) < sel(D[IDX], j + 1), lim), self.same(sel(S[IDX], k))),
                         patterns=[z3.MultiPattern(sel(S[IDX], k), sel(D[IDX], j))])

    def cov_low(self, S, D, i, p, lim, k):
        return z3.ForAll([k], Implies(And(0 <= k, k < i, Or(p <= 0, sel(S[IDX], k) < sel(D[IDX], 0)), lim), self.same(sel(S[IDX], k))), patterns=[sel(S[IDX], k)])

    def cov_high(self, S, D, i, p, lim, k):
        return z3.ForAll([k], Implies(And(0 <= k, k < i, Or(p <= 0, sel(S[IDX], k) > sel(D[IDX], p - 1)), lim), self.same(sel(S[IDX], k))), patterns=[sel(S[IDX], k)])

    def loop_cands(self, lc):
        c = View(lc.ex, lc.cur)
        if 'S' not in lc.cur.ghost:
            return []
        S = lc.cur.ghost['S']
        D = c.vec('diff').a
        n = c.vec('diff').n
        out = []
        rest = lambda i: And(*[same_range(D[f], S[f], i, n) for f in (IDX, OLD, NEW)])
        out.append(('nothing changed', rest(0)))
        # scanning for the first update that is not an identity
        for i in lc.ints:
            out.append(('only identities so far', forall(0, i, lambda k: sel(S[OLD], k) == sel(S[NEW], k), lambda k: [sel(S[IDX], k), sel(S[OLD], k)])))
            out.append(('elements so far do not change', forall(0, i, lambda k: sel(S[NEW], k) == sel(self.BF, sel(S[IDX], k)), lambda k: [sel(S[IDX], k)])))
            out.append(('non-negative', i >= 0))
            out.append(('finished elements do not change', forall(0, i, lambda k: Implies(sel(S[IDX], k) < sel(S[IDX], i - 1), self.same(sel(S[IDX], k))), lambda k: [sel(S[IDX], k)])))
        for i in lc.ints:
            out.append(('rest unchanged', rest(i)))
            for p in lc.ints:
                if p.get_id() == i.get_id():
                    continue
                last = sel(S[IDX], i - 1)
                cur = sel(D[IDX], p)
                out += [
                    ('position before reading point', And(0 <= p, p < i)),
                    ('entries final', self.entries(D, p)),
                    ('entries increasing', self.increasing(D, p + 1)),
                    ('current entry', And(cur <= last, cur >= 0, sel(D[OLD], p) == sel(self.BF, cur))),
                    ('current value', If(cur == last, sel(D[NEW], p) == sel(S[NEW], i - 1), And(sel(D[NEW], p) == sel(self.AF, cur), sel(S[NEW], i - 1) == sel(self.BF, last)))),
                    ('not nothing unless current', Implies(cur < last, Not(And(sel(D[OLD], p) == NAN, sel(D[NEW], p) == NAN)))),
                ]
                k, j = z3.Ints('ck cj')
                lim = sel(S[IDX], k) < last
                out += [('covered low', self.cov_low(S, D, i, p + 1, lim, k)), ('covered high', self.cov_high(S, D, i, p + 1, lim, k)), ('covered gap', self.cov_gap(S, D, i, p + 1, lim, k, j))]
        return out

    def post(self, v, kind, ret):
        if kind == 'throw':
            yield ('does not throw', False)
            return
        e = v.at('end')
        D = e.vec('diff')
        if 'S' not in e.st.ghost:
            yield ('nothing to do', v.at('pre').vec('diff').n == 0)
            yield ('the list stays empty', D.n == 0)
            return
        S = e.st.ghost['S']
        n = v.at('pre').vec('diff').n
        yield ('one update per element, in order', self.increasing(D.a, D.n))
        yield ('each update leads from the old to the new value of its element', self.entries(D.a, D.n))
        if z3.is_int_value(z3.simplify(n)):
            yield ('elements that change are not left out', self.covered(S, D.a, n, D.n, None))
        else:
            k, j = z3.Ints('ck cj')
            t = z3.BoolVal(True)
            yield ('elements that change are not left out (before the first)', self.cov_low(S, D.a, n, D.n, t, k))
            yield ('elements that change are not left out (after the last)', self.cov_high(S, D.a, n, D.n, t, k))
            yield ('elements that change are not left out (between two)', self.cov_gap(S, D.a, n, D.n, t, k, j))
        yield ('the list does not grow', D.n <= n)


class IsInteger(Spec):
    src = 'dedup.cpp'
    fn = 'h_integer'
    functions = ['is_integer']

    def pre(self, v, name):
        v.assume(v.inp('x') != NAN)

    def post(self, v, kind, ret):
        x = v.inp('x')
        yield ('integers are recognised', (v.at('end').i('r') != 0) == isint(x))


ALL = [Dedup, IsInteger]
