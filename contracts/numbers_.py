"""Contracts of integer and binary decisions (src/nodes/numbers.cpp).  The nodes are one-dimensional of any size: every function
under contract works on flat positions."""
from common import *

SRC = 'num.cpp'


def within(E, n, lo, hi):
    return forall(0, n, lambda k: And(isint(sel(E, k)), lo <= sel(E, k), sel(E, k) <= hi, sel(E, k) != NAN), lambda k: [sel(E, k)])


class Base(Spec):
    src = SRC
    bounded = dict(maxlen=2, unroll=8, ints=dict(n=[0, 1, 2]), len=dict(updates=1))
    binary = False
    opts = dict(new_kind='i64', ints=True)

    def bounds(self, v):
        return (z3.RealVal(0), z3.RealVal(1)) if self.binary else (z3.ToReal(v.inp('lo')), z3.ToReal(v.inp('hi')))

    def pre(self, v, name):
        B = v.vec('buffer')
        v.assume(B.n == v.inp('n'))
        v.assume(within(B.a[0], B.n, *self.bounds(v)))
        self.g = DiffGhost()
        self.g.init(v, B)
        for n in ('i', 'j'):
            if n in v.st.snaps['inputs']:
                v.assume(And(0 <= v.inp(n), v.inp(n) < B.n))
        self.requires(v, B)

    def requires(self, v, B):
        pass

    def on_push(self, ex, st, label, vals):
        if label == 'updates':
            self.g.push(ex, st, vals)

    def post(self, v, kind, ret):
        if kind != 'ret':
            yield from self.thrown(v)
            return
        e, p = v.at('end'), v.at('pre')
        B, B0 = e.vec('buffer'), p.vec('buffer')
        yield from self.ensures(v, e, p, B, B0)
        yield ('same number of values', B.n == B0.n)
        yield ('all values are integers within the bounds', within(B.a[0], B.n, *self.bounds(v)))

    def thrown(self, v):
        yield ('does not throw', False)

    def tracked(self, e, p, B):
        yield ('earlier changes are kept', prefix_kept(p.vec('updates'), e.vec('updates')))
        yield ('recorded changes are valid and describe the values', And(self.g.ok(e), self.g.len(e) == B.n, same_range(self.g.arr(e), B.a[0], 0, B.n)))
        yield ('committed size is not touched', e.i('previous_size') == p.i('previous_size'))

    def changed(self, e, B, B0, i, x):
        yield ('the value is set and no other changes', forall(0, B0.n, lambda k: sel(B.a[0], k) == If(k == i, x, sel(B0.a[0], k)), lambda k: [sel(B.a[0], k)]))
        yield ('reports whether the value changed', (e.i('out') != 0) == (sel(B0.a[0], i) != x))


class SetValue(Base):
    fn = 'h_set'
    functions = ['IntegerNode::set_value']

    def ok(self, v):
        lo, hi = self.bounds(v)
        return And(lo <= z3.ToReal(v.inp('x')), z3.ToReal(v.inp('x')) <= hi)

    def thrown(self, v):
        yield ('only values out of bounds are rejected', Not(self.ok(v)))
        p = v.at('pre')
        B, B0 = View(v.ex, v.st).vec('buffer'), p.vec('buffer')
        yield ('a rejected value changes nothing', And(B.n == B0.n, same_range(B.a[0], B0.a[0], 0, B0.n), v.vec('updates').n == p.vec('updates').n))

    def ensures(self, v, e, p, B, B0):
        yield ('values out of bounds are rejected', self.ok(v))
        yield from self.changed(e, B, B0, v.inp('i'), z3.ToReal(v.inp('x')))
        yield from self.tracked(e, p, B)


class Exchange(Base):
    fn = 'h_exchange'
    functions = ['NumberNode::exchange']

    def ensures(self, v, e, p, B, B0):
        i, j = v.inp('i'), v.inp('j')
        yield ('the two values are exchanged and no other changes', forall(0, B0.n, lambda k: sel(B.a[0], k) == If(k == i, sel(B0.a[0], j), If(k == j, sel(B0.a[0], i), sel(B0.a[0], k)))))
        yield ('reports whether anything changed', (e.i('out') != 0) == (sel(B0.a[0], i) != sel(B0.a[0], j)))
        yield from self.tracked(e, p, B)


class Get(Base):
    fn = 'h_get'
    functions = ['NumberNode::get_value']

    def ensures(self, v, e, p, B, B0):
        yield ('reads the value', e.r('x') == sel(B0.a[0], v.inp('i')))
        yield ('changes nothing', same_range(B.a[0], B0.a[0], 0, B0.n))


class Move(Base):
    fn = 'h_move'
    functions = ['IntegerNode::default_move', 'IntegerNode::set_value']

    def ensures(self, v, e, p, B, B0):
        yield from self.tracked(e, p, B)


class BinaryMove(Move):
    fn = 'h_bmove'
    functions = ['BinaryNode::default_move', 'BinaryNode::flip']
    binary = True


class Flip(Base):
    fn = 'h_flip'
    functions = ['BinaryNode::flip']
    binary = True

    def ensures(self, v, e, p, B, B0):
        i = v.inp('i')
        yield ('the value is flipped and no other changes', forall(0, B0.n, lambda k: sel(B.a[0], k) == If(k == i, 1 - sel(B0.a[0], k), sel(B0.a[0], k)), lambda k: [sel(B.a[0], k)]))
        yield from self.tracked(e, p, B)

    def requires(self, v, B):
        # an integer between 0 and 1 is one of the two
        x = sel(B.a[0], v.inp('i'))
        v.assume(Implies(And(isint(x), 0 <= x, x <= 1), Or(x == 0, x == 1)))


class BinarySet(Base):
    fn = 'h_bset'
    functions = ['BinaryNode::set']
    binary = True
    to = 1

    def ensures(self, v, e, p, B, B0):
        yield from self.changed(e, B, B0, v.inp('i'), z3.RealVal(self.to))
        yield from self.tracked(e, p, B)


class BinaryUnset(BinarySet):
    fn = 'h_bunset'
    functions = ['BinaryNode::unset']
    to = 0


class Commit(Base):
    fn = 'h_commit'
    functions = ['NumberNode::commit']

    def ensures(self, v, e, p, B, B0):
        yield ('no value changes', same_range(B.a[0], B0.a[0], 0, B0.n))
        yield ('nothing is pending', And(e.vec('updates').n == 0, e.i('previous_size') == B0.n))


class Revert(Base):
    fn = 'h_revert'
    functions = ['NumberNode::revert']

    def requires(self, v, B):
        U = v.vec('updates')
        self.h = History('committed')
        v.assume(self.h.len(z3.IntVal(0)) == B.n)
        v.assume(self.h.valid(U))
        v.assume(forall(0, U.n, lambda k: And(sel(U.a[OLD], k) != NAN, sel(U.a[NEW], k) != NAN), lambda k: [sel(U.a[IDX], k)]))
        v.assume(self.h.ends_at(U, B))
        v.assume(within(self.h.arr(z3.IntVal(0)), B.n, *self.bounds(v)))

    def loop_cands(self, lc):
        c, p = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre'])
        B, B0, U0 = c.vec('buffer'), p.vec('buffer'), p.vec('updates')
        k = U0.n - lc.it
        return [('length', B.n == B0.n), ('undone back to update m-it', And(same_range(B.a[0], self.h.arr(k), 0, B0.n), self.h.len(k) == B0.n)),
                ('undone back to update it', same_range(B.a[0], self.h.arr(lc.it), 0, B0.n))]

    def ensures(self, v, e, p, B, B0):
        yield ('the committed values are back', same_range(B.a[0], self.h.arr(z3.IntVal(0)), 0, B0.n))
        yield ('nothing is pending', e.vec('updates').n == 0)


class Observe(Base):
    fn = 'h_observe'
    functions = ['NumberNode::buff', 'NumberNode::diff', 'ArrayOutputMixin::size', 'ArrayOutputMixin::shape']

    def ensures(self, v, e, p, B, B0):
        yield ('size and shape', And(e.i('out') == B0.n, e.i('out', 16) == B0.n))
        yield ('all recorded changes are exposed', e.i('out', 8) == p.vec('updates').n)


class New(Spec):
    src = SRC
    opts = dict(ints=True)
    fn = 'h_new'
    functions = ['IntegerNode::IntegerNode', 'NumberNode::NumberNode', 'NumberNode::lower_bound', 'NumberNode::upper_bound', 'NumberNode::min', 'NumberNode::max', 'IntegerNode::integral']

    def post(self, v, kind, ret):
        lo = If(v.inp('has_lo'), v.inp('lo'), 0)
        hi = If(v.inp('has_hi'), v.inp('hi'), 2000000000)
        ok = And(lo <= hi, lo >= -2000000000, hi <= 2000000000)
        if kind != 'ret':
            yield ('only bounds that do not make sense are rejected', Not(ok))
            return
        e = v.at('end')
        yield ('bounds that do not make sense are rejected', ok)
        yield ('the bounds are as given, or the defaults', And(e.r('a') == z3.ToReal(lo), e.r('b') == z3.ToReal(hi)))


class NewBinary(Spec):
    src = SRC
    opts = dict(ints=True)
    fn = 'h_new_binary'
    functions = ['BinaryNode::BinaryNode']

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')


class Valid(Spec):
    src = SRC
    opts = dict(ints=True)
    fn = 'h_valid'
    functions = ['IntegerNode::is_valid']

    def post(self, v, kind, ret):
        x = v.inp('x')
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            yield ('valid exactly if an integer within the bounds', (v.at('end').i('out') != 0) == And(isint(x), z3.ToReal(v.inp('lo')) <= x, x <= z3.ToReal(v.inp('hi'))))


class Default(Spec):
    src = SRC
    opts = dict(ints=True)
    fn = 'h_default'
    functions = ['IntegerNode::default_value']

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            x = v.at('end').r('x')
            yield ('an integer within the bounds', And(isint(x), z3.ToReal(v.inp('lo')) <= x, x <= z3.ToReal(v.inp('hi'))))


class Generate(Default):
    fn = 'h_generate'
    functions = ['IntegerNode::generate_value']


class Init(Base):
    fn = 'h_init'
    functions = ['NumberNode::initialize_state']

    def pre(self, v, name):
        pass

    def loop_cands(self, lc):
        out = []
        v = View(lc.ex, lc.cur)
        lo, hi = self.bounds(v)
        for a, n in lc.vecs('f64'):
            for i in [lc.it] + lc.ints:
                out.append(('valid so far', within(a, i, lo, hi)))
        return out

    def post(self, v, kind, ret):
        if kind != 'ret':
            yield from self.thrown(v)
            return
        e = v.at('end')
        B = e.vec('buffer')
        yield ('as many values as the node has', B.n == v.inp('n'))
        yield ('all values are integers within the bounds', within(B.a[0], B.n, *self.bounds(v)))
        yield ('nothing is pending', And(e.vec('updates').n == 0, e.i('previous_size') == v.inp('n')))
        yield from self.more(v, e, B)

    def more(self, v, e, B):
        return []


class InitBinary(Init):
    fn = 'h_binit'
    functions = ['BinaryNode::new_data_ptr']
    binary = True


class InitRandom(Init):
    fn = 'h_init_rng'
    functions = ['NumberNode::initialize_state(rng)']


class Contents(Init):
    fn = 'h_contents'
    functions = ['NumberNode::initialize_state(values)', 'IntegerNode::new_data_ptr']

    def pre(self, v, name):
        V = v.vec('v')
        v.assume(nonan(V.a[0], V.n))

    def loop_cands(self, lc):
        v, V = View(lc.ex, lc.cur), View(lc.ex, lc.cur.snaps['pre']).vec('v')
        out = []
        for i in [lc.it] + lc.ints:
            out.append(('valid so far', And(i >= 0, within(V.a[0], i, *self.bounds(v)))))
            out.append(('valid so far, by four', And(i >= 0, within(V.a[0], 4 * i, *self.bounds(v)))))
        return out

    def ok(self, v):
        V = v.at('pre').vec('v')
        return And(V.n == v.inp('n'), within(V.a[0], V.n, *self.bounds(v)))

    def thrown(self, v):
        yield ('only contents that break the rules are rejected', Not(self.ok(v)))

    def more(self, v, e, B):
        V = v.at('pre').vec('v')
        yield ('contents that break the rules are rejected', self.ok(v))
        yield ('the values are the given ones', same_range(B.a[0], V.a[0], 0, V.n))


class Linear(Spec):
    src = SRC
    opts = dict(ints=True)
    fn = 'h_linear'
    functions = ['NumberNode::linear_index']

    def pre(self, v, name):
        r, c = v.inp('r'), v.inp('c')
        v.assume(And(0 <= r, 0 <= c, 0 <= v.inp('x'), v.inp('x') < c, 0 <= v.inp('y'), v.inp('y') < r))

    def post(self, v, kind, ret):
        yield ('does not throw', kind == 'ret')
        if kind == 'ret':
            yield ('row-major position', v.at('end').i('out') == v.inp('y') * v.inp('c') + v.inp('x'))


ALL = [SetValue, Exchange, Get, Move, BinaryMove, Flip, BinarySet, BinaryUnset, Commit, Revert, Observe, New, NewBinary, Valid, Default, Generate, Init, InitBinary, InitRandom, Contents, Linear]
