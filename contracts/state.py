"""Contracts of ArrayNodeStateData (src/nodes/_state.hpp): the change-tracking buffer behind almost every node."""
from common import *

SRC = 'state.cpp'


class Base(Spec):
    src = SRC
    hist = False
    cls = 'ArrayNodeStateData'
    bounded = dict(maxlen=2, unroll=12, ints={})

    def pre(self, v, name):
        B, U = v.vec('buffer'), v.vec('updates')
        v.assume(v.i('previous_size') >= 0)
        v.assume(v.i('previous_size') < 2 ** 40)
        v.assume(nonan(B.a[0], B.n))
        self.g = DiffGhost()
        self.g.init(v, B)
        self.requires(v, B, U)

    def requires(self, v, B, U):
        pass

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def post(self, v, kind, ret):
        if kind != 'ret':
            yield ('does not throw', False)
            return
        e, p = v.at('end'), v.at('pre')
        B, U, B0, U0 = e.vec('buffer'), e.vec('updates'), p.vec('buffer'), p.vec('updates')
        yield from self.ensures(v, e, p, B, U, B0, U0)

    def tracked(self, e, p, B, U, B0, U0):
        yield ('earlier updates are kept', prefix_kept(U0, U))
        yield ('each recorded update is valid where it is recorded', self.g.ok(e))
        yield ('recorded updates lead to the new length', self.g.len(e) == B.n)
        yield ('recorded updates lead to the new contents', same_range(self.g.arr(e), B.a[0], 0, B.n))
        yield ('committed size is not touched', e.i('previous_size') == p.i('previous_size'))


class Set(Base):
    fn = 'h_set'
    functions = ['ArrayNodeStateData::set']

    def requires(self, v, B, U):
        i = v.inp('i')
        v.assume(And(0 <= i, i < B.n))

    def ensures(self, v, e, p, B, U, B0, U0):
        i, x = v.inp('i'), v.inp('x')
        yield from self.tracked(e, p, B, U, B0, U0)
        yield ('length unchanged', B.n == B0.n)
        yield ('the element is set and no other changes', forall(0, B0.n, lambda k: sel(B.a[0], k) == If(k == i, x, sel(B0.a[0], k))))


class Exchange(Base):
    fn = 'h_exchange'
    functions = ['ArrayNodeStateData::exchange']

    def requires(self, v, B, U):
        for n in 'ij':
            v.assume(And(0 <= v.inp(n), v.inp(n) < B.n))

    def ensures(self, v, e, p, B, U, B0, U0):
        i, j = v.inp('i'), v.inp('j')
        yield from self.tracked(e, p, B, U, B0, U0)
        yield ('length unchanged', B.n == B0.n)
        yield ('the two elements are exchanged and no other changes', forall(0, B0.n, lambda k: sel(B.a[0], k) == If(k == i, sel(B0.a[0], j), If(k == j, sel(B0.a[0], i), sel(B0.a[0], k)))))


class EmplaceBack(Base):
    fn = 'h_emplace_back'
    functions = ['ArrayNodeStateData::emplace_back', 'Update::placement']

    def ensures(self, v, e, p, B, U, B0, U0):
        yield from self.tracked(e, p, B, U, B0, U0)
        yield ('one element more', B.n == B0.n + 1)
        yield ('value appended, rest unchanged', And(sel(B.a[0], B0.n) == v.inp('x'), same_range(B.a[0], B0.a[0], 0, B0.n)))


class PopBack(Base):
    fn = 'h_pop_back'
    functions = ['ArrayNodeStateData::pop_back', 'Update::removal']

    def requires(self, v, B, U):
        v.assume(B.n >= 1)

    def ensures(self, v, e, p, B, U, B0, U0):
        yield from self.tracked(e, p, B, U, B0, U0)
        yield ('one element less, rest unchanged', And(B.n == B0.n - 1, same_range(B.a[0], B0.a[0], 0, B.n)))


class Assign(Base):
    fn = 'h_assign'
    functions = ['ArrayNodeStateData::assign']

    def requires(self, v, B, U):
        V = v.vec('values')
        v.assume(nonan(V.a[0], V.n))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        B, U, B0, U0, V = c.vec('buffer'), c.vec('updates'), p.vec('buffer'), p.vec('updates'), c.vec('values')
        it = lc.it
        ov = If(B0.n < V.n, B0.n, V.n)
        return [
            ('prefix kept', prefix_kept(U0, U)),
            ('ghost ok', self.g.ok(c)),
            ('ghost length is the buffer length', self.g.len(c) == B.n),
            ('ghost length shrinks', self.g.len(c) == B.n - it),
            ('ghost agrees below its length', same_range(self.g.arr(c), B.a[0], 0, self.g.len(c))),
            ('visited prefix equals the values', forall(0, it, lambda k: sel(B.a[0], k) == sel(V.a[0], k), lambda k: [sel(B.a[0], k)])),
            ('overlap equals the values', forall(0, ov, lambda k: sel(B.a[0], k) == sel(V.a[0], k), lambda k: [sel(B.a[0], k)])),
            ('all equals the values', forall(0, B.n, lambda k: sel(B.a[0], k) == sel(V.a[0], k), lambda k: [sel(B.a[0], k)])),
            ('buffer not NaN', nonan(B.a[0], B.n)),
        ]

    def ensures(self, v, e, p, B, U, B0, U0):
        V = p.vec('values')
        yield from self.tracked(e, p, B, U, B0, U0)
        yield ('the new contents are the assigned values', And(B.n == V.n, same_range(B.a[0], V.a[0], 0, V.n)))


class Update(Base):
    fn = 'h_update'
    functions = ['ArrayNodeStateData::update', 'Update::placed', 'Update::removed']

    def requires(self, v, B, U):
        # the incoming list is a valid list of updates of an array of the buffer's length (its old values are not used)
        D = v.vec('in')
        self.h = History('in')
        v.assume(self.h.len(z3.IntVal(0)) == B.n)
        v.assume(self.h.valid(D))
        v.assume(same_range(self.h.arr(z3.IntVal(0)), B.a[0], 0, B.n))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        B, U, B0, U0, D = c.vec('buffer'), c.vec('updates'), p.vec('buffer'), p.vec('updates'), c.vec('in')
        it = lc.it
        return [
            ('prefix kept', prefix_kept(U0, U)),
            ('ghost ok', self.g.ok(c)),
            ('ghost length', self.g.len(c) == B.n),
            ('ghost agrees', same_range(self.g.arr(c), B.a[0], 0, B.n)),
            ('length follows the list', B.n == self.h.len(it)),
            ('contents follow the list', same_range(B.a[0], self.h.arr(it), 0, B.n)),
            ('buffer not NaN', nonan(B.a[0], B.n)),
        ]

    def ensures(self, v, e, p, B, U, B0, U0):
        D = p.vec('in')
        yield from self.tracked(e, p, B, U, B0, U0)
        yield ('the new contents are what the list describes', self.h.ends_at(D, B))


class Revert(Base):
    fn = 'h_revert'
    functions = ['ArrayNodeStateData::revert']

    def requires(self, v, B, U):
        self.h = History('committed')
        v.assume(self.h.len(z3.IntVal(0)) == v.i('previous_size'))
        v.assume(self.h.valid(U))
        v.assume(self.h.ends_at(U, B))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        B, U0 = c.vec('buffer'), p.vec('updates')
        n0 = p.i('previous_size')
        k = U0.n - lc.it
        lo = If(n0 < self.h.len(k), n0, self.h.len(k))
        return [('length is the committed one', B.n == n0),
                ('undone back to update m-it', same_range(B.a[0], self.h.arr(k), 0, lo)),
                ('undone back to update it', same_range(B.a[0], self.h.arr(lc.it), 0, lo))]

    def ensures(self, v, e, p, B, U, B0, U0):
        n0 = p.i('previous_size')
        yield ('the committed length is back', B.n == n0)
        yield ('the committed contents are back', same_range(B.a[0], self.h.arr(z3.IntVal(0)), 0, n0))
        yield ('nothing is pending', U.n == 0)
        yield ('committed size is not touched', e.i('previous_size') == n0)


class Commit(Base):
    fn = 'h_commit'
    functions = ['ArrayNodeStateData::commit']

    def ensures(self, v, e, p, B, U, B0, U0):
        yield ('contents unchanged', And(B.n == B0.n, same_range(B.a[0], B0.a[0], 0, B0.n)))
        yield ('nothing is pending', U.n == 0)
        yield ('current size is the committed one', e.i('previous_size') == B0.n)


class SizeDiff(Base):
    fn = 'h_size_diff'
    functions = ['ArrayNodeStateData::size_diff']

    def ensures(self, v, e, p, B, U, B0, U0):
        yield ('size change is current minus committed size', e.i('r') == B0.n - p.i('previous_size'))


class Diff(Base):
    fn = 'h_diff'
    functions = ['ArrayNodeStateData::diff']

    def ensures(self, v, e, p, B, U, B0, U0):
        yield ('all recorded updates are exposed', e.i('n') == U0.n)


ALL = [Set, Exchange, EmplaceBack, PopBack, Assign, Update, Revert, Commit, SizeDiff, Diff]
