"""Deductive VC generator over LLVM IR: symbolic execution of one function under contract, loops cut by
inductive invariants (Houdini over a candidate pool), memory as typed objects, obligations discharged by SMT."""
import re
import time
import math
from fractions import Fraction
import z3
import ll
from ll import PTR, DOUBLE, INT

NAN = z3.Real('NaN')
_INTP = z3.Function('IsInteger', z3.RealSort(), z3.BoolSort())
BOUNDED = [False]


def isint(x):
    """x is an integer.  In proofs a predicate of which only true instances of facts are ever assumed (z3's own is_int is hardly
    usable next to arrays); in bounded runs the real thing."""
    x = zr(x)
    return z3.IsInt(x) if BOUNDED[0] else _INTP(x)

POSINF = z3.Real('PosInf')
NEGINF = z3.Real('NegInf')
I63 = 2 ** 63


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values ----
class L:
    """linear integer form: const + sum coeff*atom (atoms are z3 Int terms)"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}

    @staticmethod
    def of(x):
        if isinstance(x, L):
            return x
        if isinstance(x, bool):
            return L(int(x))
        if isinstance(x, int):
            return L(x)
        if z3.is_int_value(x):
            return L(x.as_long())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = L(0)
                for ch in x.children():
                    r = r + L.of(ch)
                return r
            if k == z3.Z3_OP_SUB:
                r = L.of(x.arg(0))
                for ch in x.children()[1:]:
                    r = r - L.of(ch)
                return r
            if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
                return L.of(x.arg(1)).scale(x.arg(0).as_long())
            if k == z3.Z3_OP_UMINUS:
                return L.of(x.arg(0)).scale(-1)
        return L(0, {x.get_id(): (x, 1)})

    def __add__(self, o):
        o = L.of(o)
        if not o.t:
            return L(self.c + o.c, self.t)
        t = dict(self.t)
        for k, (x, c) in o.t.items():
            if k in t:
                nc = t[k][1] + c
                if nc:
                    t[k] = (x, nc)
                else:
                    del t[k]
            else:
                t[k] = (x, c)
        return L(self.c + o.c, t)

    def scale(self, k):
        if k == 0:
            return L(0)
        if k == 1:
            return self
        return L(self.c * k, {i: (x, c * k) for i, (x, c) in self.t.items()})

    def __sub__(self, o):
        return self + L.of(o).scale(-1)

    def const(self):
        return not self.t

    def z(self):
        if not self.t:
            return z3.IntVal(self.c)
        ts = []
        for k in sorted(self.t):
            x, c = self.t[k]
            ts.append(x if c == 1 else c * x)
        if self.c:
            ts.append(z3.IntVal(self.c))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def same(self, o):
        d = self - o
        return d.const() and d.c == 0

    def __repr__(self):
        return str(self.z())


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=None):
        self.obj = obj
        self.off = L.of(off if off is not None else 0)

    def __repr__(self):
        return 'Ptr(%s,%r)' % (self.obj, self.off)


NULL = Ptr(None, 0)


class PI:
    """an integer holding sum(coef * address(obj)) + off: produced by ptrtoint"""
    __slots__ = ('p', 'off')

    def __init__(self, p, off):
        self.p = p        # dict obj->coef
        self.off = off


class Fn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class VecState:
    __slots__ = ('buf', 'n', 'et')

    def __init__(self, buf, n, et):
        self.buf = buf
        self.n = L.of(n)
        self.et = et


class Cells:
    """object with concretely addressed cells"""
    __slots__ = ('size', 'cells', 'vecs', 'name', 'freed')

    def __init__(self, size, name='', cells=None, vecs=None, freed=False):
        self.size = size
        self.cells = cells if cells is not None else {}
        self.vecs = vecs if vecs is not None else {}
        self.name = name
        self.freed = freed

    def copy(self):
        return Cells(self.size, self.name, dict(self.cells), dict(self.vecs), self.freed)


class Arr:
    """symbolic-length array of elements of `stride` bytes; fields: off -> (kind, z3 array)"""
    __slots__ = ('stride', 'fields', 'n', 'name', 'freed')

    def __init__(self, stride, fields, n, name='', freed=False):
        self.stride = stride
        self.fields = fields
        self.n = L.of(n)
        self.name = name
        self.freed = freed

    def copy(self):
        return Arr(self.stride, dict(self.fields), self.n, self.name, self.freed)


class Focus:
    """array of objects of which only those at the given indices are used: each of them is an object of its own"""
    __slots__ = ('stride', 'n', 'items', 'name', 'freed', 'empty')

    def __init__(self, stride, n, items, name='', freed=False, empty=None):
        self.stride, self.n, self.items, self.name, self.freed = stride, L.of(n), items, name, freed
        self.empty = empty      # type of the elements when all others are empty vectors

    def copy(self):
        return Focus(self.stride, self.n, list(self.items), self.name, self.freed, self.empty)


AR = z3.ArraySort(z3.IntSort(), z3.RealSort())
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())


class ElemTy:
    def __init__(self, name, stride, fields):
        self.name = name
        self.stride = stride
        self.fields = fields    # [(off, kind)], kind in f64,i64,i8,ptr


ELEM = {
    'double': ElemTy('double', 8, [(0, 'f64')]),
    'long': ElemTy('long', 8, [(0, 'i64')]),
    'unsigned long': ElemTy('unsigned long', 8, [(0, 'i64')]),
    'int': ElemTy('int', 4, [(0, 'i32')]),
    'dwave::optimization::Update': ElemTy('Update', 24, [(0, 'i64'), (8, 'f64'), (16, 'f64')]),
    'dwave::optimization::Node::SuccessorView': ElemTy('SuccessorView', 16, [(0, 'ptr'), (8, 'i32')]),
    'std::pair<int, double>': ElemTy('std::pair<int, double>', 16, [(0, 'i32'), (8, 'f64')]),
    'dwave::optimization::QuadraticModel::neighborhood': ElemTy('neighborhood', 56, [(0, 'vec')]),
    'signed char': ElemTy('char', 1, [(0, 'i8')]),
    'char': ElemTy('char', 1, [(0, 'i8')]),
}


def kind_sort(k):
    return AR if k == 'f64' else AI


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'prev', 'regs', 'ret', 'normal')

    def __init__(self, fn, block, idx, prev, regs, ret, normal=None):
        self.fn = fn; self.block = block; self.idx = idx; self.prev = prev; self.regs = regs
        self.ret = ret          # (dst reg) in the caller
        self.normal = normal    # invoke normal label or None

    def copy(self):
        return Frame(self.fn, self.block, self.idx, self.prev, dict(self.regs), self.ret, self.normal)


class State:
    def __init__(self):
        self.hdr_serial = 0
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.labels = {}
        self.snaps = {}
        self.trace = []
        self.gcache = {}
        self.loopints = ()
        self.assumed_ids = set()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.labels = dict(self.labels)
        s.snaps = dict(self.snaps)
        s.trace = list(self.trace)
        s.gcache = dict(self.gcache)
        s.loopints = self.loopints
        return s

    def assume(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.pc.append(f)


class Obligation:
    def __init__(self, name, pc, goal, where, trace):
        self.name = name; self.pc = pc; self.goal = goal; self.where = where; self.trace = trace
        self.status = None
        self.time = 0.0
        self.backend = None
        self.model = None


def has_quant(f, cache={}):
    k = f.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    if z3.is_quantifier(f):
        v = True
    else:
        v = any(has_quant(c) for c in f.children())
    cache[k] = (f, v)
    return v


_lin = {}
_mono = {}


_consts = {}


def consts(e):
    k = e.get_id()
    r = _consts.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out, st, seen = set(), [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
        elif z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        elif z3.is_app(t):
            st += t.children()
    _consts[k] = (e, out)
    return out


def cone(fs, g, rounds):
    """the facts within `rounds` steps of the goal"""
    S = set(consts(g))
    pick = set()
    for _ in range(rounds):
        add = set()
        for i, f in enumerate(fs):
            if i not in pick and consts(f) & S:
                pick.add(i)
                add |= consts(f)
        S |= add
    return [f for i, f in enumerate(fs) if i in pick]


def is_range(f):
    """the bare range of a 64-bit integer"""
    if not (z3.is_and(f) and f.num_args() == 2):
        return False
    a, b = f.children()
    return z3.is_ge(a) and z3.is_lt(b) and z3.is_const(a.arg(0)) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == -I63


def linearise(e):
    r = _lin.get(e.get_id())
    if r is not None and r[0].eq(e):
        return r[1]
    if not z3.is_app(e) or e.num_args() == 0:
        out = e
    elif e.decl().kind() == z3.Z3_OP_MUL:
        num, fac = 1, []
        st = list(e.children())
        while st:
            c = st.pop()
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL:
                st += c.children()
            elif z3.is_int_value(c) or z3.is_rational_value(c):
                num = num * (c.as_fraction() if z3.is_rational_value(c) else c.as_long())
            else:
                fac.append(linearise(c))
        isint = z3.is_int(e)
        if len(fac) >= 2:
            key = tuple(sorted(x.get_id() for x in fac))
            if key not in _mono:
                _mono[key] = (fac, z3.Const('mono!%d' % (len(_mono) + 10 ** 9), e.sort()))
            t = _mono[key][1]
        elif fac:
            t = fac[0]
        else:
            t = None
        n = z3.IntVal(num) if isint else z3.RealVal(str(num))
        out = n if t is None else t if num == 1 else n * t
    else:
        ch = e.children()
        nc = [linearise(c) for c in ch]
        out = e if all(a is b or a.eq(b) for a, b in zip(ch, nc)) else e.decl()(*nc)
    _lin[e.get_id()] = (e, out)
    return out


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    if isinstance(x, L):
        return x.z()
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def zr(x):
    if isinstance(x, (int, float, Fraction)):
        if isinstance(x, float):
            if math.isnan(x):
                return NAN
            if math.isinf(x):
                return POSINF if x > 0 else NEGINF
            x = Fraction(x)
        return z3.RealVal(str(Fraction(x)))
    return x


_fresh = [0]


def fresh(name, sort='I'):
    _fresh[0] += 1
    n = '%s!%d' % (name, _fresh[0])
    if isinstance(sort, str) and sort == "I":
        return z3.Int(n)
    if isinstance(sort, str) and sort == "R":
        return z3.Real(n)
    if isinstance(sort, str) and sort == "B":
        return z3.Bool(n)
    return z3.Const(n, sort)


def common_factor(a):
    g = a.c
    for _, c in a.t.values():
        g = math.gcd(g, c)
    g = abs(g) or 1
    return (1, a) if g == 1 else (g, L(a.c // g, {k: (x, c // g) for k, (x, c) in a.t.items()}))


class LoopCtx:
    pass


class Exec:
    def __init__(self, mod, demangle, spec=None, bounded=None, opts=None):
        self.mod = mod
        self.dem = demangle
        self.spec = spec
        self.bounded = bounded      # None or dict with lengths limits
        self.opts = opts or {}
        self.obls = []
        self.silent = 0
        self.readonly, self.rowtypes = set(), {}
        self.nullable = set()       # heaps pointers to which may be null (kept as -1)
        self.nobj = 0
        self.stats = dict(queries=0, solver_s=0.0, loops=0, paths=0, invariants=[], instrs=0)
        self.objinfo = {}
        self.recorders = []         # active write recorders (loop discovery)
        self.models_used = set()
        self.funcs_used = set()
        self.deadline = None
        self.prune_ms = self.opts.get('prune_ms', 400)
        self.axioms = []
        self.loop_depth = 0
        self.zext_of = {}           # zero extension -> what was extended
        self.packs = {}             # register -> its two 32-bit halves
        self.known_div = {}         # (dividend, divisor) -> quotient known to be exact

    # ------------------------------------------------------------ solver ----
    def solve(self, fs, timeout_ms, qf=False):
        t0 = time.time()
        s = z3.Solver() if qf else z3.SimpleSolver()
        s.set('timeout', int(timeout_ms))
        if not qf:
            s.set('smt.mbqi', False)
            s.set('smt.auto_config', False)
        for f in fs:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return str(r), s

    def feasible(self, st, c=None):
        fs = [f for f in st.pc if not has_quant(f)]
        if c is not None:
            if has_quant(c):
                return True
            fs.append(c)
        r, _ = self.solve(fs, self.prune_ms, qf=True)
        return r != 'unsat'

    def prove(self, pc, goal, timeout_ms):
        g = zb(goal)
        if z3.is_true(g):
            return 'unsat', None
        # first try without quantified facts, then with
        if not has_quant(g):
            qf = [f for f in pc if not has_quant(f)]
            if self.opts.get('lin'):
                # products as opaque terms: weaker facts, so "unsat" is believed
                lf, lg = [linearise(f) for f in qf if not is_range(f)], linearise(g)
                for k in (2, 4, None):
                    r, s = self.solve((lf if k is None else cone(lf, lg, k)) + [z3.Not(lg)], min(timeout_ms, 600), qf=True)
                    if r == 'unsat':
                        return r, s
            r, s = self.solve(qf + [z3.Not(g)], min(timeout_ms, 1500), qf=True)
            if r == 'unsat':
                return r, s
            if len(qf) == len(pc) and not self.axioms:
                if r == 'unknown':
                    r, s = self.solve(qf + [z3.Not(g)], timeout_ms, qf=True)
                return r, s
        r, s = self.solve(list(pc) + self.axioms + [z3.Not(g)], timeout_ms)
        return r, s

    # -------------------------------------------------------- obligations ---
    def oblige(self, st, name, goal):
        if self.silent:
            # still assume it so that exploration stays inside defined behaviour
            g = zb(goal)
            if not z3.is_true(g):
                st.assume(g)
            return
        g = zb(goal)
        fr = st.frames[-1] if st.frames else None
        where = '%s:%s' % (fr.fn.name, fr.block) if fr else ''
        if z3.is_true(z3.simplify(g)):
            o = Obligation(name, [], z3.BoolVal(True), where, [])
            o.status = 'unsat'; o.backend = 'simplify'
            self.obls.append(o)
            return
        self.obls.append(Obligation(name, list(st.pc), g, where, list(st.trace)))
        st.assume(g)

    # ------------------------------------------------------------- memory ---
    def newobj(self, st, o, hint=''):
        self.nobj += 1
        i = self.nobj
        st.mem[i] = o
        return i

    def note_write(self, key, info=None):
        for r in self.recorders:
            r.setdefault(key, []).append(info)

    def obj(self, st, p):
        if isinstance(p, PI):
            raise Unsupported('int used as pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('not a pointer: %r' % (p,))
        if p.obj is None:
            raise Unsupported('null dereference')
        if isinstance(p.obj, str):
            return self.globj(st, p.obj)
        return st.mem[p.obj]

    def globj(self, st, name):
        key = ('g', name)
        if key not in st.mem:
            t, init, const = self.mod.ginit(name)
            if t == 'alias':
                raise Unsupported('alias')
            o = Cells(self.mod.size(t), '@' + name)
            if init is not None:
                self.flatten(st, o, 0, t, init)
            else:
                pass
            st.mem[key] = o
        return st.mem[key]

    def flatten(self, st, o, off, t, v):
        rt = self.mod.resolve(t)
        if rt.k in ('int', 'ptr', 'double', 'float'):
            if v[0] == 'unk':
                return
            o.cells[off] = (self.mod.size(rt), self.const(rt, v))
            return
        if v[0] == 'undef':
            return
        if rt.k == 'array':
            es = self.mod.size(rt.elem)
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]):
                    o.cells[off + i] = (1, L(b if b < 128 else b - 256))
                return
            for i in range(rt.n):
                self.flatten(st, o, off + i * es, rt.elem, ('zero',) if v[0] == 'zero' else v[1][i][1])
            return
        if rt.k == 'struct':
            offs = self.mod.offsets(rt)
            for i, f in enumerate(rt.fields):
                self.flatten(st, o, off + offs[i], f, ('zero',) if v[0] == 'zero' else v[1][i][1])
            return
        raise Unsupported('flatten %r' % t)

    def key(self, p):
        return ('g', p.obj) if isinstance(p.obj, str) else p.obj

    def decode(self, a, off):
        """symbolic byte offset -> (index L, field offset)"""
        s = a.stride
        t = {}
        for k, (x, c) in off.t.items():
            if c % s:
                raise Unsupported('unaligned offset %r stride %d' % (off, s))
            t[k] = (x, c // s)
        return L(off.c // s, t), off.c % s

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            offs = self.mod.offsets(ty)
            return [self.load(st, Ptr(p.obj, p.off + offs[i]), f) for i, f in enumerate(ty.fields)]
        if ty.k == 'array':
            es = self.mod.size(ty.elem)
            return [self.load(st, Ptr(p.obj, p.off + i * es), ty.elem) for i in range(ty.n)]
        p = self.focus(st, p)
        o = self.obj(st, p)
        if o.freed:
            self.oblige(st, 'memory: no access to freed or reallocated storage', False)
            raise Unsupported('dead object')
        sz = self.mod.size(ty)
        if isinstance(o, Cells):
            if not p.off.const():
                return self.load_symbolic_cells(st, p, o, ty, sz)
            off = p.off.c
            for vb, vs in o.vecs.items():
                if vb <= off < vb + 24:
                    if vs.buf is None:
                        return NULL
                    d = off - vb
                    if d == 0:
                        return Ptr(vs.buf, 0)
                    if d == 8:
                        return Ptr(vs.buf, vs.n.scale(vs.et.stride))
                    raise Unsupported('vector capacity read')
            if off in o.cells:
                csz, v = o.cells[off]
                if csz == sz:
                    return self.coerce(st, v, ty)
                if csz > sz and isinstance(v, L) and v.const():
                    return L(v.c & ((1 << (8 * sz)) - 1))
                raise Unsupported('load size mismatch at %s+%d %d/%d' % (o.name, off, csz, sz))
            # inside a wider constant cell?
            if not isinstance(p.obj, str) and o.size is not None and not (0 <= off and off + sz <= o.size):
                self.oblige(st, 'memory: access within the object', False)
                raise Unsupported('oob cell')
            if ty.k == 'int' and sz == 8 and all((off + i) in o.cells and o.cells[off + i][0] == 1 for i in range(8)):
                b = [o.cells[off + i][1] for i in range(8)]
                if all(x.const() for x in b):
                    v = int.from_bytes(bytes(x.c & 255 for x in b), 'little', signed=True)
                    return L(v)
            v = self.fresh_val(st, ty, 'uninit_%s_%d' % (o.name, off))
            o2 = o.copy(); o2.cells[off] = (sz, v); st.mem[self.key(p)] = o2
            return v
        # Arr
        idx, f = self.decode(o, p.off)
        self.bounds(st, o, idx)
        return self.arr_get(st, o, idx, f, ty)

    # a heap: an array of objects of one class, pointers to which are kept as their position ("ref:heap:offset within the object")
    def decode_ref(self, st, k, v):
        _, h, d = k.split(':')
        h = int(h)
        return Ptr(h, L.of(v).scale(st.mem[h].stride) + int(d))

    def encode_ref(self, st, k, v):
        _, h, d = k.split(':')
        h = int(h)
        if isinstance(v, Ptr) and v.obj is None and h in self.nullable:
            return z3.IntVal(-1)
        if not isinstance(v, Ptr) or v.obj != h:
            raise Unsupported('pointer to another object in an array of pointers to a heap')
        idx, f = self.decode(st.mem[h], v.off - int(d))
        if f != 0:
            raise Unsupported('pointer into an object')
        return idx.z()

    def row(self, st, o, idx, f, k, a):
        """the vector that an object of a heap has at offset f (it never changes)"""
        import models
        n = z3.Select(a, idx.z())
        key = (k, idx.z().sexpr())
        rows = st.gcache.get('rows', {})
        if key not in rows:
            et, data = self.rowtypes[k]
            b = self.newobj(st, Arr(et.stride, {off: (kk, z3.Select(data[off], idx.z())) for off, kk in et.fields}, n, 'row'))
            self.readonly.add(b)
            st.assume(z3.And(n >= 0, n < 2 ** 40 if self.bounded is None else n <= 2))
            st.gcache = dict(st.gcache)
            st.gcache['rows'] = dict(rows)
            st.gcache['rows'][key] = VecState(b, L.of(n), et)
        return st.gcache['rows'][key]

    def row_ptr(self, st, o, idx, f, k, a):
        return Ptr(self.row(st, o, idx, f, k, a).buf, 0)

    def load_symbolic_cells(self, st, p, o, ty, sz):
        # concrete-size buffer of equal cells indexed symbolically: if-chain
        offs = sorted(k for k in o.cells if o.cells[k][0] == sz)
        if not offs or any(c % sz for _, c in p.off.t.values()):
            raise Unsupported('symbolic offset into %s' % o.name)
        base = p.off.c % sz
        offs = [k for k in offs if k % sz == base % sz]
        if len(offs) > 64 or not offs:
            raise Unsupported('symbolic offset (many cells)')
        vals = [o.cells[k][1] for k in offs]
        self.oblige(st, 'memory: index in bounds', z3.Or([p.off.z() == k for k in offs]))
        if ty.k == 'double':
            r = zr(vals[-1])
            for k, v in list(zip(offs, vals))[-2::-1]:
                r = z3.If(p.off.z() == k, zr(v), r)
            return r
        if ty.k == 'int' and all(isinstance(v, L) for v in vals):
            r = vals[-1].z()
            for k, v in list(zip(offs, vals))[-2::-1]:
                r = z3.If(p.off.z() == k, v.z(), r)
            return L.of(r)
        raise Unsupported('symbolic offset load of %r' % ty)

    def bounds(self, st, o, idx):
        n = o.n
        d = n - idx
        if idx.const() and n.const():
            self.oblige(st, 'memory: index in bounds', 0 <= idx.c < n.c)
            if not (0 <= idx.c < n.c):
                raise Unsupported('oob')
            return
        self.oblige(st, 'memory: index in bounds', z3.And(idx.z() >= 0, idx.z() < n.z()))

    def arr_get(self, st, o, idx, f, ty):
        if f not in o.fields:
            if f - 8 in o.fields and o.fields[f - 8][0].startswith('row'):
                k, a = o.fields[f - 8]
                v = self.row(st, o, idx, f - 8, k, a)
                return Ptr(v.buf, v.n.scale(v.et.stride))
            raise Unsupported('field %d of %s' % (f, o.name))
        k, a = o.fields[f]
        if k == 'const':
            return a
        if k.startswith('row'):
            return self.row_ptr(st, o, idx, f, k, a)
        v = z3.Select(a, idx.z())
        v = simp_select(v)
        if k.startswith('ref'):
            return self.decode_ref(st, k, v)
        if k == 'f64':
            if ty.k != 'double':
                raise Unsupported('type pun')
            return v
        if ty.k == 'double':
            raise Unsupported('type pun')
        if k.startswith('i64s'):
            return L.of(v).scale(int(k[4:]))
        return L.of(v)

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            offs = self.mod.offsets(ty)
            for i, f in enumerate(ty.fields):
                self.store(st, Ptr(p.obj, p.off + offs[i]), v[i] if isinstance(v, list) else UNDEF, f)
            return
        if ty.k == 'array':
            es = self.mod.size(ty.elem)
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, p.off + i * es), v[i] if isinstance(v, list) else UNDEF, ty.elem)
            return
        p = self.focus(st, p)
        o = self.obj(st, p)
        if o.freed:
            self.oblige(st, 'memory: no access to freed or reallocated storage', False)
            raise Unsupported('dead object')
        sz = self.mod.size(ty)
        if isinstance(o, Cells):
            if not p.off.const():
                return self.store_symbolic_cells(st, p, o, v, ty, sz)
            off = p.off.c
            if o.size is not None and not (0 <= off and off + sz <= o.size):
                self.oblige(st, 'memory: access within the object', False)
                raise Unsupported('oob cell')
            o2 = o.copy()
            for vb in list(o2.vecs):
                if vb <= off < vb + 24:
                    raise Unsupported('raw store into a vector header')
            for k in list(o2.cells):
                if k != off and k < off + sz and off < k + o2.cells[k][0]:
                    del o2.cells[k]
            o2.cells[off] = (sz, v)
            st.mem[self.key(p)] = o2
            self.note_write(('cell', self.key(p), off))
            return
        idx, f = self.decode(o, p.off)
        self.bounds(st, o, idx)
        if f not in o.fields:
            raise Unsupported('field')
        k, a = o.fields[f]
        o2 = o.copy()
        if p.obj in self.readonly or k == 'const' or k.startswith('row'):
            raise Unsupported('write to the links of a heap')
        if k.startswith('ref'):
            o2.fields[f] = (k, z3.Store(a, idx.z(), zi(self.encode_ref(st, k, v))))
        elif k == 'f64':
            if ty.k != 'double':
                raise Unsupported('type pun')
            o2.fields[f] = (k, z3.Store(a, idx.z(), zr(self.scal(v))))
        else:
            if ty.k == 'double' or (ty.k == 'ptr') or k.startswith('i64s'):
                raise Unsupported('type pun')
            o2.fields[f] = (k, z3.Store(a, idx.z(), zi(self.as_int(v))))
        st.mem[self.key(p)] = o2
        self.note_write(('arr', self.key(p), f), idx)

    def store_symbolic_cells(self, st, p, o, v, ty, sz):
        offs = sorted(k for k in o.cells if o.cells[k][0] == sz)
        if any(c % sz for _, c in p.off.t.values()) or not offs or len(offs) > 64:
            raise Unsupported('symbolic store into %s' % o.name)
        offs = [k for k in offs if (k - p.off.c) % sz == 0]
        self.oblige(st, 'memory: index in bounds', z3.Or([p.off.z() == k for k in offs]))
        o2 = o.copy()
        for k in offs:
            old = o.cells[k][1]
            if ty.k == 'double':
                nv = z3.If(p.off.z() == k, zr(self.scal(v)), zr(old))
            elif ty.k == 'int':
                nv = L.of(z3.If(p.off.z() == k, zi(self.as_int(v)), zi(self.as_int(old))))
            else:
                raise Unsupported('symbolic ptr store')
            o2.cells[k] = (sz, nv)
            self.note_write(('cell', self.key(p), k))
        st.mem[self.key(p)] = o2

    def scal(self, v):
        if v is UNDEF:
            return fresh('undef', 'R')
        if isinstance(v, float):
            return v
        return v

    def as_int(self, v):
        if v is UNDEF:
            return L.of(fresh('undef'))
        if isinstance(v, bool):
            return L(int(v))
        if isinstance(v, L):
            return v
        if z3.is_expr(v) and z3.is_bool(v):
            return L.of(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, PI):
            if not v.p:
                return v.off
        if isinstance(v, Ptr) and v.obj is None:
            return v.off
        raise Unsupported('as_int %r' % (v,))

    def coerce(self, st, v, ty):
        if v is UNDEF:
            return self.fresh_val(st, ty, 'undef')
        if ty.k == 'ptr':
            if isinstance(v, L) and v.const() and v.c == 0:
                return NULL
            if isinstance(v, (Ptr, Fn)):
                return v
            raise Unsupported('load ptr of %r' % (v,))
        if ty.k == 'double':
            if isinstance(v, L):
                if v.const() and v.c == 0:
                    return 0.0
                raise Unsupported('int as double')
            return v
        if ty.k == 'int':
            if isinstance(v, Ptr):
                return self.ptrtoint(v)
            if isinstance(v, float):
                if v == 0:
                    return L(0)
                raise Unsupported('double as int')
            return v
        return v

    def fresh_val(self, st, ty, nm):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            if ty.bits == 1:
                return fresh(nm, 'B')
            x = fresh(nm)
            if ty.bits <= 64:
                h = 1 << (ty.bits - 1)
                st.assume(z3.And(x >= -h, x < h))
            return L.of(x)
        if ty.k == 'double':
            return fresh(nm, 'R')
        if ty.k == 'ptr':
            return UNDEF
        if ty.k == 'struct':
            return [self.fresh_val(st, f, nm) for f in ty.fields]
        raise Unsupported('fresh %r' % ty)

    # -------------------------------------------------------- constants ----
    def const(self, ty, v):
        k = v[0]
        rt = self.mod.resolve(ty)
        if k == 'int':
            if rt.k == 'int' and rt.bits == 1:
                return bool(v[1])
            return L(v[1])
        if k == 'fp':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            if rt.k == 'struct':
                return [UNDEF] * len(rt.fields)
            return UNDEF
        if k == 'zero':
            if rt.k == 'int':
                return False if rt.bits == 1 else L(0)
            if rt.k == 'double':
                return 0.0
            if rt.k == 'ptr':
                return NULL
            if rt.k == 'struct':
                return [self.const(f, v) for f in rt.fields]
            if rt.k == 'array':
                return [self.const(rt.elem, v) for _ in range(rt.n)]
        if k == 'glob':
            if v[1] in self.mod.funcs or v[1] in self.mod.decls:
                return Fn(v[1])
            if v[1] in self.mod.globals:
                t, x, c = self.mod.ginit(v[1])
                if t == 'alias':
                    return self.const(PTR, x)
                return Ptr(v[1], 0)
            return Fn(v[1])
        if k == 'cgep':
            bt, ops = v[1], v[2]
            base = self.const(PTR, ops[0][1])
            vals = [(t, self.const(t, x)) for t, x in ops[1:]]
            return self.gep(bt, base, vals)
        if k == 'ccast':
            _, op, t, x, t2 = v
            c = self.const(t, x)
            if op == 'ptrtoint':
                return self.ptrtoint(c)
            if op == 'inttoptr':
                return Ptr(None, c)
            return c
        if k == 'agg':
            return [self.const(t, x) for t, x in v[1]]
        raise Unsupported('const %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'reg':
            r = st.frames[-1].regs
            if v[1] not in r:
                raise Unsupported('undefined register %s' % v[1])
            return r[v[1]]
        return self.const(ty, v)

    def ptrtoint(self, p):
        if isinstance(p, Fn):
            raise Unsupported('fn ptrtoint')
        if p is UNDEF:
            return PI({}, L.of(fresh('undefptr')))
        if p.obj is None:
            return p.off
        return PI({p.obj: 1}, p.off)

    def gep(self, bt, base, vals, st=None):
        if base is UNDEF:
            raise Unsupported('gep undef')
        if isinstance(base, Fn):
            raise Unsupported('gep fn')
        off = base.off
        t = bt
        first = True
        for vt, v in vals:
            if first:
                off = off + self.as_int(v).scale(self.mod.size(t))
                first = False
                continue
            rt = self.mod.resolve(t)
            if rt.k == 'struct':
                i = self.as_int(v)
                off = off + self.mod.offsets(rt)[i.c]
                t = rt.fields[i.c]
            elif rt.k in ('array', 'vec'):
                off = off + self.as_int(v).scale(self.mod.size(rt.elem))
                t = rt.elem
            else:
                raise Unsupported('gep into %r' % rt)
        return Ptr(base.obj, off)

    def focus(self, st, p):
        """a pointer into an element that is an object of its own is a pointer into that object"""
        o = st.mem.get(p.obj) if st is not None else None
        if isinstance(o, Focus):
            if o.freed:
                self.oblige(st, 'memory: no access to freed or reallocated storage', False)
                raise Unsupported('dead object')
            idx, f = self.decode(o, p.off)
            for i, b in o.items:
                if i.same(idx):
                    return Ptr(b, f)
        return p

    def unfocused(self, st, ins):
        """the pointer an instruction is about to use, when it is not known which element it points into"""
        if ins.op == 'load' or ins.op == 'store':
            v = ins.a['p']
        elif ins.op in ('call', 'invoke') and ins.a['callee'][0] == 'glob' and ins.a['args']:
            import models
            m = models.parse_member(self.dem(ins.a['callee'][1]), 'vector')
            if not m:
                return None
            for _, v in ins.a['args']:
                if v[0] == 'reg':
                    p = st.frames[-1].regs.get(v[1])
                    if isinstance(p, Ptr) and isinstance(st.mem.get(p.obj), Focus) and self.focus(st, p) is p:
                        return p
            return None
        else:
            return None
        if v[0] != 'reg':
            return None
        p = st.frames[-1].regs.get(v[1])
        if not isinstance(p, Ptr) or not isinstance(st.mem.get(p.obj), Focus):
            return None
        q = self.focus(st, p)
        return p if q is p else None

    def do_focus(self, st, p, wl):
        """one state for each element the pointer may point into"""
        o = st.mem[p.obj]
        idx, _ = self.decode(o, p.off)
        self.bounds(st, o, idx)
        seen = set()
        for i, b in list(o.items):
            if b in seen:
                continue
            seen.add(b)
            c = idx.z() == i.z()
            if not self.feasible(st, c):
                continue
            s2 = st.copy()
            s2.assume(c)
            o2 = o.copy()
            o2.items.append((idx, b))
            s2.mem[p.obj] = o2
            wl.append((s2, False))
        c = z3.And([idx.z() != i.z() for i, _ in o.items] + [idx.z() >= 0])
        if self.feasible(st, c):
            s2 = st.copy()
            s2.assume(c)
            nb = self.make_other(s2, p.obj, idx)
            if self.spec is not None and o.empty is None:
                import models
                self.spec.on_other(models.View(self, s2), o.name, idx, nb)
            wl.append((s2, False))

    def make_other(self, st, fobj, idx):
        """an arbitrary element (an empty one when all others are empty) becomes an object of its own"""
        o = st.mem[fobj].copy()
        nc = Cells(o.stride, o.name + '_other')
        if isinstance(o.empty, dict):
            for off, et in o.empty.items():
                if isinstance(et, int):
                    nc.cells[off] = (et, L(0))
                else:
                    nc.vecs[off] = VecState(self.newobj(st, Arr(et.stride, {f: (k, fresh('e', kind_sort(k))) for f, k in et.fields}, 0, 'vec')), L(0), et)
        elif o.empty is not None:
            nc.vecs[0] = VecState(self.newobj(st, Arr(o.empty.stride, {f: (k, fresh('e', kind_sort(k))) for f, k in o.empty.fields}, 0, 'vec')), L(0), o.empty)
        else:
            t = st.mem[o.items[0][1]]
            for off, (sz, v) in t.cells.items():
                nc.cells[off] = (sz, self.fresh_val(st, INT(8 * sz), 'other') if isinstance(v, L) else fresh('other', 'R'))
            for off, v in t.vecs.items():
                n = fresh('len_other')
                st.assume(z3.And(n >= 0, n < 2 ** 40))
                nc.vecs[off] = VecState(self.newobj(st, Arr(v.et.stride, {f: (k, fresh('other', kind_sort(k))) for f, k in v.et.fields}, L.of(n), 'other')), L.of(n), v.et)
        nb = self.newobj(st, nc)
        o.items.append((idx, nb))
        st.mem[fobj] = o
        return nb

    # -------------------------------------------------------- arithmetic ----
    def wrap(self, st, r, bits, fl, op):
        """r: L. Exact two's complement when the harness asks for it; else treated as mathematical."""
        if r.const():
            h = 1 << (bits - 1)
            c = ((r.c + h) % (1 << bits)) - h
            return L(c)
        if self.opts.get('wrap') == 'exact' and 'nsw' not in fl:
            h = 1 << (bits - 1)
            z = r.z()
            if op in ('add', 'sub'):
                w = fresh('w')
                st.assume(w == z3.If(z >= h, z - (1 << bits), z3.If(z < -h, z + (1 << bits), z)))
                return L.of(w)
            m = z % (1 << bits)
            return L.of(z3.If(m >= h, m - (1 << bits), m))
        if self.opts.get('wrap') == 'exact' and 'nsw' in fl:
            h = 1 << (bits - 1)
            self.oblige(st, 'arithmetic: no signed overflow', z3.And(r.z() >= -h, r.z() < h))
        return r

    def uns(self, a, bits):
        """unsigned reading of a signed-represented value"""
        if a.const():
            return L(a.c % (1 << bits))
        return L.of(z3.If(a.z() < 0, a.z() + (1 << bits), a.z()))

    def binop(self, st, ins, op, ty, a, b, fl):
        rt = self.mod.resolve(ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fbin(st, op, a, b)
        if rt.k != 'int':
            raise Unsupported('binop on %r' % ty)
        bits = rt.bits
        if bits == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'xor':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(b, bool):
                    return mknot(a) if b else a
                if isinstance(a, bool):
                    return mknot(b) if a else b
                return z3.Xor(a, b)
            if op == 'and' or op == 'mul':
                return mkand(a, b)
            if op == 'or':
                return mkor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, (PI, Ptr)) or isinstance(b, (PI, Ptr)):
            return self.pibin(st, op, a, b, fl)
        a, b = self.as_int(a), self.as_int(b)
        if op == 'add':
            return self.wrap(st, a + b, bits, fl, op)
        if op == 'sub':
            return self.wrap(st, a - b, bits, fl, op)
        if op == 'mul':
            if a.const():
                return self.wrap(st, b.scale(a.c), bits, fl, op)
            if b.const():
                return self.wrap(st, a.scale(b.c), bits, fl, op)
            (ga, a), (gb, b) = common_factor(a), common_factor(b)
            return self.wrap(st, L.of(a.z() * b.z()).scale(ga * gb), bits, fl, op)
        if op == 'sdiv':
            return self.sdiv(st, a, b, 'exact' in fl)
        if op == 'srem':
            if b.const() and a.const():
                q = abs(a.c) // abs(b.c)
                if (a.c < 0) != (b.c < 0):
                    q = -q
                return L(a.c - q * b.c)
            q = self.sdiv(st, a, b, False)
            if b.const():
                return a - q.scale(b.c)
            return L.of(a.z() - q.z() * b.z())
        if op in ('udiv', 'urem'):
            if self.opts.get('wrap') == 'exact':
                ua, ub = self.uns(a, bits), self.uns(b, bits)
            else:
                ua, ub = a, b
                if not a.const():
                    self.oblige(st, 'arithmetic: unsigned operand is not negative', a.z() >= 0)
                if not b.const():
                    self.oblige(st, 'arithmetic: unsigned operand is not negative', b.z() >= 0)
            if not ub.const():
                self.oblige(st, 'arithmetic: divisor is not zero', ub.z() != 0)
            elif ub.c == 0:
                self.oblige(st, 'arithmetic: divisor is not zero', False)
                raise Unsupported('div 0')
            if ua.const() and ub.const():
                return L(ua.c // ub.c if op == 'udiv' else ua.c % ub.c)
            if ub.const() and op == 'udiv' and ub.c == 1:
                return ua
            if ub.const() and op == 'udiv' and all(c % ub.c == 0 for _, c in ua.t.values()) and ua.c % ub.c == 0:
                return L(ua.c // ub.c, {k: (x, c // ub.c) for k, (x, c) in ua.t.items()})
            r = ua.z() / ub.z() if op == 'udiv' else ua.z() % ub.z()
            if self.opts.get('wrap') == 'exact':
                h = 1 << (bits - 1)
                return L.of(z3.If(r >= h, r - (1 << bits), r))
            return L.of(r)
        if op == 'shl' and b.const():
            return self.wrap(st, a.scale(1 << b.c), bits, fl, op)
        if op == 'ashr' and b.const():
            d = 1 << b.c
            if all(c % d == 0 for _, c in a.t.values()) and a.c % d == 0:
                return L(a.c // d, {k: (x, c // d) for k, (x, c) in a.t.items()})
            return L.of(a.z() / d)
        if op == 'lshr' and b.const() and b.c == 32 and not a.const() and a.z().get_id() in self.packs:
            return self.packs[a.z().get_id()][2]
        if op == 'lshr' and b.const():
            d = 1 << b.c
            if a.const():
                return L((a.c % (1 << bits)) >> b.c)
            if all(c % d == 0 for _, c in a.t.values()) and a.c % d == 0 and self.opts.get('wrap') != 'exact':
                return L(a.c // d, {k: (x, c // d) for k, (x, c) in a.t.items()})
            return L.of(self.uns(a, bits).z() / d)
        if a.const() and b.const():
            m = (1 << bits) - 1
            x, y = a.c & m, b.c & m
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op)
            if r is not None:
                return L(r - (1 << bits) if r >> (bits - 1) else r)
        if op == 'xor' and b.const() and b.c == -1:
            return L(-1) - a
        if op == 'and' and b.const() and b.c > 0 and (b.c & (b.c + 1)) == 0:
            return L.of(a.z() % (b.c + 1))
        if op == 'and' and b.const() and b.c == 1:
            return L.of(a.z() % 2)
        if op in ('and', 'or', 'xor'):
            # 0/1 valued operands
            x, y = as01(a), as01(b)
            if x is not None and y is not None:
                r = {'and': mkand(x, y), 'or': mkor(x, y)}.get(op)
                if op == 'xor':
                    r = z3.Xor(zb(x), zb(y))
                return self.as_int(r)
            if op == 'or' and 'disjoint' in fl:
                return a + b
            if op == 'or' and bits == 64:
                # two 32-bit values packed into one register (std::optional<int> passed by value)
                for lo, hi in ((a, b), (b, a)):
                    if (lo.const() and 0 <= lo.c < 1 << 32 or lo.z().get_id() in self.zext_of) and all(c % (1 << 32) == 0 for _, c in hi.t.values()) and hi.c % (1 << 32) == 0:
                        r = a + b
                        v = lo if lo.const() else self.zext_of[lo.z().get_id()][1]
                        if lo.const() and lo.c >= 1 << 31:
                            v = L(lo.c - (1 << 32))
                        z = r.z()
                        self.packs[z.get_id()] = (z, v, L(hi.c >> 32, {k: (x, c >> 32) for k, (x, c) in hi.t.items()}))
                        return r
            if op == 'or' and (a.const() and a.c == 0):
                return b
            if op == 'or' and (b.const() and b.c == 0):
                return a
        raise Unsupported('int op %s %r %r' % (op, a, b))

    def sdiv(self, st, a, b, exact):
        if b.const():
            d = b.c
            if d == 0:
                self.oblige(st, 'arithmetic: divisor is not zero', False)
                raise Unsupported('div 0')
            if a.const():
                q = abs(a.c) // abs(d)
                return L(q if (a.c < 0) == (d < 0) else -q)
            if all(c % d == 0 for _, c in a.t.values()) and a.c % d == 0:
                return L(a.c // d, {k: (x, c // d) for k, (x, c) in a.t.items()})
            if d == 1:
                return a
            z = a.z()
            if d > 0:
                return L.of(z3.If(z >= 0, z / d, -((-z) / d)))
            return L.of(z3.If(z >= 0, -(z / (-d)), (-z) / (-d)))
        self.oblige(st, 'arithmetic: divisor is not zero', b.z() != 0)
        x, y = a.z(), b.z()
        kd = self.known_div.get((x.get_id(), y.get_id()))
        if kd is not None:
            return L.of(kd[2])
        for h in self.opts.get('div_hints', []):
            # an exact quotient the specification knows, once proved
            if self.prove(st.pc, x == h * y, 3000)[0] == 'unsat':
                return L.of(h)
        if self.opts.get('div') == 'ghost':
            # truncated quotient as a ghost pair: x == q*y + r
            q, r = fresh('q'), fresh('r')
            st.assume(x == q * y + r)
            st.assume(z3.If(x >= 0, r >= 0, r <= 0))
            ay = z3.If(y > 0, y, -y)
            st.assume(z3.And(r < ay, r > -ay))
            if self.bounded is not None:
                st.loopints = st.loopints + (q, q - 1)      # witnesses for specifications
            return L.of(q)
        ay = z3.If(y > 0, y, -y)
        return L.of(z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y))))

    def pibin(self, st, op, a, b, fl):
        def pi(v):
            if isinstance(v, PI):
                return v
            if isinstance(v, Ptr):
                v = self.ptrtoint(v)
                return v if isinstance(v, PI) else PI({}, v)
            return PI({}, self.as_int(v))
        if op in ('add', 'sub'):
            a, b = pi(a), pi(b)
            s = 1 if op == 'add' else -1
            p = dict(a.p)
            for k, c in b.p.items():
                p[k] = p.get(k, 0) + s * c
                if p[k] == 0:
                    del p[k]
            off = a.off + b.off.scale(s)
            return off if not p else PI(p, off)
        raise Unsupported('pointer-int %s' % op)

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if v is UNDEF:
            return fresh('undef', 'B')
        if isinstance(v, L):
            if v.const():
                return bool(v.c & 1)
            x = as01(v)
            if x is not None:
                return x
            return v.z() % 2 == 1
        return v

    def fbin(self, st, op, a, b):
        if a is UNDEF or b is UNDEF:
            return fresh('undef', 'R')
        if isinstance(a, float) and isinstance(b, float):
            try:
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            except (ZeroDivisionError, KeyError):
                raise Unsupported('fp const op')
        if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
            return float('nan')
        x, y = zr(a), zr(b)
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            um = self.opts.get('fmul')
            r = um(x, y) if um else x * y
        elif op == 'fdiv':
            um = self.opts.get('fdiv')
            r = um(x, y) if um else x / y
            if self.opts.get('div_zero'):
                # zero by zero is NaN, anything else by zero is infinite
                r = z3.If(y == 0, z3.If(x == 0, NAN, POSINF), r)
        else:
            r = z3.Function('fmod', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y)
        if self.opts.get('nonan_arith', True):
            # operands known not to be NaN: an obligation, then plain real arithmetic
            conds = []
            if not isinstance(a, float):
                conds.append(x != NAN)
            if not isinstance(b, float):
                conds.append(y != NAN)
            if conds:
                self.oblige(st, 'arithmetic: operand is not the absent-value marker', z3.And(conds))
            st.assume(z3.Implies(y != 0, r != NAN) if op == 'fdiv' and self.opts.get('div_zero') else r != NAN)
        return r

    def icmp(self, st, pred, ot, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return e if pred == 'eq' else (not e)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and x.obj in self.nullable and pred in ('eq', 'ne') and (isinstance(y, Ptr) and y.obj is None and y.off.const() and y.off.c == 0):
                return x.off.z() < 0 if pred == 'eq' else x.off.z() >= 0
        if isinstance(a, (Ptr, PI)) or isinstance(b, (Ptr, PI)):
            pa = self.ptrtoint(a) if isinstance(a, Ptr) else a
            pb = self.ptrtoint(b) if isinstance(b, Ptr) else b
            pa = pa if isinstance(pa, PI) else PI({}, self.as_int(pa))
            pb = pb if isinstance(pb, PI) else PI({}, self.as_int(pb))
            if pa.p == pb.p:
                a, b = pa.off, pb.off
            else:
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                raise Unsupported('ordering of unrelated pointers')
            if pred[0] == 'u':
                pred = 's' + pred[1:]
        rt = self.mod.resolve(ot)
        if rt.k == 'int' and rt.bits == 1:
            a, b = self.tobool(a), self.tobool(b)
            e = mkeq(a, b)
            if pred == 'eq':
                return e
            if pred == 'ne':
                return mknot(e)
            raise Unsupported('i1 icmp')
        if a is UNDEF or b is UNDEF:
            return fresh('undef', 'B')
        a, b = self.as_int(a), self.as_int(b)
        bits = rt.bits if rt.k == 'int' else 64
        for x, y in ((a, b), (b, a)):
            if y.const() and pred in ('eq', 'ne') and y.c in (0, 1):
                bv = as01(x)
                if bv is not None:
                    r = bv if (y.c == 1) == (pred == 'eq') else mknot(bv)
                    return r
        if a.const() and b.const():
            x, y = a.c, b.c
            if pred[0] == 'u':
                x %= 1 << bits; y %= 1 << bits
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:] if pred[0] in 'us' else pred]
        d = a - b
        self.note_cmp(st, a, b)
        if d.const():
            x, y = d.c, 0
            if pred in ('eq', 'ne') or pred[0] == 's':
                return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:] if pred[0] == 's' else pred]
        x, y = a.z(), b.z()
        if pred == 'eq':
            return x == y
        if pred == 'ne':
            return x != y
        if pred[0] == 's':
            return {'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        # unsigned on signed representation
        if pred in ('ugt', 'uge'):
            a, b = b, a
            x, y = y, x
            pred = {'ugt': 'ult', 'uge': 'ule'}[pred]
        rel = x < y if pred == 'ult' else x <= y
        if b.const() and b.c >= 0:
            return z3.And(x >= 0, rel)
        if a.const() and a.c >= 0:
            return z3.Or(y < 0, rel)
        if b.const():
            return z3.Or(x >= 0, rel)
        return z3.Or(z3.And(x >= 0, z3.Or(y < 0, rel)), z3.And(x < 0, y < 0, rel))

    def note_cmp(self, st, a, b):
        for r in self.recorders:
            r.setdefault('cmps', []).append((a, b))

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return fresh('undef', 'B')
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if isinstance(a, float) and isinstance(b, float):
            nn = math.isnan(a) or math.isnan(b)
            if pred == 'uno':
                return nn
            if pred == 'ord':
                return not nn
            r = {'eq': a == b, 'ne': a != b and not nn, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            return (r or nn) if pred[0] == 'u' else (r and not nn)
        conds = []
        for v in (a, b):
            if isinstance(v, float):
                if math.isnan(v):
                    conds = None
                    break
            elif z3.is_rational_value(v):
                pass
            else:
                conds.append(v != NAN)
        if conds is None:
            nan = z3.BoolVal(True); ok = z3.BoolVal(False)
        else:
            ok = z3.And(conds) if len(conds) > 1 else (conds[0] if conds else z3.BoolVal(True))
            nan = z3.Not(ok)
        x, y = zr(a), zr(b)
        if pred == 'uno':
            return z3.simplify(nan)
        if pred == 'ord':
            return z3.simplify(ok)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
             'gt': lambda: x > y, 'ge': lambda: x >= y}[pred[1:]]()
        return z3.Or(nan, r) if pred[0] == 'u' else z3.And(ok, r)

    # ---------------------------------------------------------- execution ---
    def call_func(self, st, name, args, dst, normal=None):
        f = self.mod.funcs[name].body(self.mod)
        self.funcs_used.add(name)
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        regs = {}
        for (t, nm), v in zip(f.params, args):
            regs[nm] = v
        st.frames.append(Frame(f, f.entry, 0, None, regs, dst, normal))

    def run(self, st, region=None):
        """Explore from st. Returns list of (kind, state, info). kinds: back, exit, ret, throw"""
        out = []
        wl = [(st, False)]
        while wl:
            s, at_header = wl.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            r = self.step_until(s, region, wl, at_header)
            if r is not None:
                out.append(r)
                if len(out) > self.opts.get('max_paths', 4000):
                    raise Unsupported('too many paths')
        return out

    def jump(self, st, target, region):
        """returns 'back'/'exit'/'loop'/None"""
        fr = st.frames[-1]
        src = fr.block
        fr.prev = src
        fr.block = target
        # phis
        ins = fr.fn.blocks[target]
        vals = []
        n = 0
        for i in ins:
            if i.op != 'phi':
                break
            n += 1
            for v, b in i.a['inc']:
                if lblname(b) == lblname(src):
                    vals.append((i.dst, self.val(st, i.ty, v)))
                    break
            else:
                raise Unsupported('phi without edge from %s' % src)
        for d, v in vals:
            fr.regs[d] = v
        fr.idx = n
        if region is not None:
            depth, loop = region
            if len(st.frames) == depth:
                if target == loop.header:
                    return 'back'
                if target not in loop.blocks:
                    return 'exit'
        if target in fr.fn.loops:
            lp = fr.fn.loops[target]
            if src not in lp.blocks:
                return 'loop'
        return None

    def step_until(self, st, region, wl, at_header=False):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            op = ins.op
            if op in ('load', 'store', 'call', 'invoke'):
                p = self.unfocused(st, ins)
                if p is not None:
                    self.do_focus(st, p, wl)
                    return None
            fr.idx += 1
            self.stats['instrs'] += 1
            if op == 'br':
                c = ins.a['c']
                if c is None:
                    tgt = ins.a['t']
                else:
                    cv = self.tobool(self.val(st, INT(1), c))
                    if not isinstance(cv, bool):
                        cv = simpb(cv)
                    if isinstance(cv, bool):
                        tgt = ins.a['t'] if cv else ins.a['f']
                    else:
                        lt, lf = self.feasible(st, cv), self.feasible(st, z3.Not(cv))
                        if lt and lf:
                            self.note_branch(st, fr, ins)
                            s2 = st.copy()
                            s2.assume(z3.Not(cv))
                            s2.trace.append((fr.fn.name, fr.block, False))
                            k = self.jump(s2, ins.a['f'], region)
                            self.dispatch(k, s2, region, wl)
                            st.assume(cv)
                            st.trace.append((fr.fn.name, fr.block, True))
                            tgt = ins.a['t']
                        elif lt:
                            tgt = ins.a['t']
                            st.assume(cv)
                        elif lf:
                            tgt = ins.a['f']
                            st.assume(z3.Not(cv))
                        else:
                            return None
                k = self.jump(st, tgt, region)
                if k is None:
                    continue
                if k == 'loop':
                    self.dispatch(k, st, region, wl)
                    return None
                return (k, st, None)
            if op == 'switch':
                v = self.as_int(self.val(st, ins.ty, ins.a['v']))
                if v.const():
                    tgt = ins.a['d']
                    for c, b in ins.a['cs']:
                        if c == v.c:
                            tgt = b
                    k = self.jump(st, tgt, region)
                    if k is None:
                        continue
                    if k == 'loop':
                        self.dispatch(k, st, region, wl)
                        return None
                    return (k, st, None)
                opts = [(v.z() == c, b) for c, b in ins.a['cs']]
                opts.append((z3.And([v.z() != c for c, b in ins.a['cs']]), ins.a['d']))
                for c, b in opts:
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        k = self.jump(s2, b, region)
                        self.dispatch(k, s2, region, wl)
                return None
            if op == 'ret':
                v = None if ins.a['x'] is None else self.val(st, ins.ty, ins.a['x'])
                st.frames.pop()
                if not st.frames:
                    return ('ret', st, v)
                if region is not None and len(st.frames) < region[0]:
                    raise Unsupported('return leaves loop region')
                cf = st.frames[-1]
                if fr.ret is not None:
                    cf.regs[fr.ret] = v
                if fr.normal is not None:
                    k = self.jump(st, fr.normal, region)
                    if k is None:
                        continue
                    if k == 'loop':
                        self.dispatch(k, st, region, wl)
                        return None
                    return (k, st, None)
                continue
            if op == 'unreachable':
                self.oblige(st, 'control: unreachable code is not reached', False)
                return None
            if op in ('call', 'invoke'):
                r = self.do_call(st, ins, region, wl)
                if r == 'continue':
                    continue
                return r
            if op == 'select':
                r = self.do_select(st, ins, region, wl)
                continue
            if op in ('landingpad', 'resume'):
                raise Unsupported('landing pad reached')
            self.simple(st, fr, ins)

    def note_branch(self, st, fr, ins):
        for r in self.recorders:
            r.setdefault('branches', set()).add((len(st.frames), fr.fn.name, fr.block))

    def dispatch(self, k, s, region, wl):
        if k is None:
            wl.append((s, False))
        elif k == 'loop':
            for kind, s2, info in self.handle_loop(s):
                if kind == 'exit':
                    # may leave an outer region at the same time
                    k2 = self.after_exit(s2, region)
                    if k2 is None:
                        wl.append((s2, False))
                    else:
                        self._pending.append((k2, s2, None))
                else:
                    self._pending.append((kind, s2, info))
        else:
            self._pending.append((k, s, None))

    _pending = None

    def after_exit(self, s, region):
        fr = s.frames[-1]
        if region is not None:
            depth, loop = region
            if len(s.frames) == depth:
                if fr.block == loop.header:
                    return 'back'
                if fr.block not in loop.blocks:
                    return 'exit'
        if fr.block in fr.fn.loops and fr.prev not in fr.fn.loops[fr.block].blocks:
            res = self.handle_loop(s)
            raise Unsupported('loop exit directly into another loop header')
        return None

    def explore(self, st, region=None):
        """run() plus the states produced while dispatching"""
        saved = self._pending
        self._pending = []
        out = self.run(st, region)
        out += self._pending
        self._pending = saved
        return out

    # ---- simple instructions
    def simple(self, st, fr, ins):
        op = ins.op
        regs = fr.regs
        a = ins.a
        if op in ll.BINOPS:
            regs[ins.dst] = self.binop(st, ins, op, ins.ty, self.val(st, ins.ty, a['x']), self.val(st, ins.ty, a['y']), a['fl'])
        elif op == 'load':
            regs[ins.dst] = self.load(st, self.val(st, PTR, a['p']), ins.ty)
        elif op == 'store':
            self.store(st, self.val(st, PTR, a['p']), self.val(st, ins.ty, a['x']), ins.ty)
        elif op == 'getelementptr':
            vals = [(t, self.val(st, t, v)) for t, v in a['ops']]
            regs[ins.dst] = self.gep(a['bt'], vals[0][1], vals[1:], st)
        elif op == 'icmp':
            regs[ins.dst] = self.icmp(st, a['pred'], a['ot'], self.val(st, a['ot'], a['x']), self.val(st, a['ot'], a['y']))
        elif op == 'fcmp':
            regs[ins.dst] = self.fcmp(a['pred'], self.val(st, a['ot'], a['x']), self.val(st, a['ot'], a['y']))
        elif op == 'alloca':
            if a['n'] is not None and a['n'] != ('int', 1):
                raise Unsupported('array alloca')
            regs[ins.dst] = Ptr(self.newobj(st, Cells(self.mod.size(a['at']), 'stack_' + str(ins.dst))), 0)
        elif op in ('zext', 'sext', 'trunc'):
            regs[ins.dst] = self.intcast(st, op, a['ft'], ins.ty, self.val(st, a['ft'], a['x']))
        elif op == 'bitcast':
            v = self.val(st, a['ft'], a['x'])
            if a['ft'].k == 'ptr' or a['ft'].k == ins.ty.k:
                regs[ins.dst] = v
            elif a['ft'].k == 'double' or (ins.ty.k == 'int' and not isinstance(v, L)):
                bits = fresh('bits')        # the bit pattern of a number: only its sign is known
                x = zr(v)
                st.assume(z3.And(z3.Implies(x > 0, bits >= 0), z3.Implies(x < 0, bits < 0), bits >= -I63, bits < I63))
                regs[ins.dst] = L.of(bits)
            else:
                raise Unsupported('bitcast')
        elif op == 'ptrtoint':
            regs[ins.dst] = self.ptrtoint(self.val(st, a['ft'], a['x']))
        elif op == 'inttoptr':
            v = self.val(st, a['ft'], a['x'])
            if isinstance(v, PI) and len(v.p) == 1 and list(v.p.values()) == [1]:
                regs[ins.dst] = Ptr(list(v.p)[0], v.off)
            elif isinstance(v, L) and v.const():
                regs[ins.dst] = Ptr(None, v)
            else:
                raise Unsupported('inttoptr')
        elif op == 'sitofp' or op == 'uitofp':
            v = self.val(st, a['ft'], a['x'])
            if self.mod.resolve(a['ft']).bits == 1:
                v = self.tobool(v)
                if isinstance(v, bool):
                    regs[ins.dst] = float(v) if op == 'uitofp' else -float(v)
                else:
                    regs[ins.dst] = z3.If(v, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
                return
            v = self.as_int(v)
            if v.const() and abs(v.c) < 2 ** 53:
                regs[ins.dst] = float(v.c)
            else:
                r = z3.ToReal(v.z())
                st.assume(r != NAN)
                st.assume(isint(r))
                regs[ins.dst] = r
        elif op in ('fptosi', 'fptoui'):
            v = self.val(st, a['ft'], a['x'])
            if isinstance(v, float):
                regs[ins.dst] = L(int(v))
            else:
                self.int_fact(st, v)
                regs[ins.dst] = L.of(self.trunc_real(v))
        elif op in ('fpext', 'fptrunc'):
            regs[ins.dst] = self.val(st, a['ft'], a['x'])
        elif op == 'fneg':
            v = self.val(st, ins.ty, a['x'])
            regs[ins.dst] = -v if not isinstance(v, float) else -v
            if not isinstance(v, float):
                self.oblige(st, 'arithmetic: operand is not the absent-value marker', v != NAN)
                st.assume(regs[ins.dst] != NAN)
        elif op == 'extractvalue':
            v = self.val(st, a['at'], a['x'])
            for i in a['idx']:
                v = v[i] if isinstance(v, list) else UNDEF
            regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.ty, a['x'])
            rt = self.mod.resolve(ins.ty)
            if not isinstance(v, list):
                v = [UNDEF] * len(rt.fields)
            e = self.val(st, a['et'], a['e'])
            regs[ins.dst] = insv(v, a['idx'], e, rt, self.mod)
        elif op == 'freeze':
            regs[ins.dst] = self.val(st, ins.ty, a['x'])
        else:
            raise Unsupported('instr ' + ins.text[:80])

    def int_fact(self, st, v):
        if not BOUNDED[0] and not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL):
            st.assume(isint(v) == (v == z3.ToReal(self.trunc_real(v))))

    def trunc_real(self, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def intcast(self, st, op, ft, tt, v):
        fb, tb = self.mod.resolve(ft).bits, tt.bits
        if isinstance(v, (PI, Ptr)):
            return v
        if v is UNDEF:
            return self.fresh_val(st, tt, 'undef')
        if op == 'trunc':
            if tb == 1:
                return self.tobool(v)
            v = self.as_int(v)
            if v.const():
                h = 1 << (tb - 1)
                return L((v.c + h) % (1 << tb) - h)
            if as01(v) is not None:
                return v
            if v.z().get_id() in self.packs and tb == 32:
                return self.packs[v.z().get_id()][1]
            if v.z().get_id() in self.zext_of and tb == self.zext_of[v.z().get_id()][2]:
                return self.zext_of[v.z().get_id()][1]
            if self.opts.get('wrap') == 'exact':
                h = 1 << (tb - 1)
                m = v.z() % (1 << tb)
                return L.of(z3.If(m >= h, m - (1 << tb), m))
            if tb == 32 and not self.opts.get('narrow'):
                self.oblige(st, 'arithmetic: the value fits into 32 bits', z3.And(v.z() >= -(1 << 31), v.z() < 1 << 32))
            return v
        if fb == 1:
            b = self.tobool(v)
            if isinstance(b, bool):
                return L(int(b) if op == 'zext' else -int(b))
            if op == 'zext':
                return L.of(z3.If(b, z3.IntVal(1), z3.IntVal(0)))
            return L.of(z3.If(b, z3.IntVal(-1), z3.IntVal(0)))
        v = self.as_int(v)
        if op == 'sext':
            return v
        if v.const():
            return L(v.c % (1 << fb))
        if as01(v) is not None:
            return v
        z = z3.If(v.z() < 0, v.z() + (1 << fb), v.z())
        self.zext_of[z.get_id()] = (z, v, fb)
        return L.of(z)

    def do_select(self, st, ins, region, wl):
        fr = st.frames[-1]
        c = self.tobool(self.val(st, INT(1), ins.a['c']))
        if not isinstance(c, bool):
            c = simpb(c)
        a, b = self.val(st, ins.ty, ins.a['x']), self.val(st, ins.ty, ins.a['y'])
        if isinstance(c, bool):
            fr.regs[ins.dst] = a if c else b
            return
        rt = self.mod.resolve(ins.ty)
        if rt.k == 'int' and rt.bits == 1:
            a, b = self.tobool(a), self.tobool(b)
            if isinstance(a, bool) and isinstance(b, bool):
                fr.regs[ins.dst] = a if a == b else (c if a else mknot(c))
            elif b is False:
                fr.regs[ins.dst] = mkand(c, a)
            elif a is True:
                fr.regs[ins.dst] = mkor(c, b)
            else:
                fr.regs[ins.dst] = z3.If(c, zb(a), zb(b))
            return
        if rt.k == 'int' and not isinstance(a, (PI, Ptr)) and not isinstance(b, (PI, Ptr)):
            a, b = self.as_int(a), self.as_int(b)
            fr.regs[ins.dst] = a if a.same(b) else L.of(z3.If(c, a.z(), b.z()))
            return
        if rt.k == 'double':
            fr.regs[ins.dst] = z3.If(c, zr(self.scal(a)), zr(self.scal(b)))
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off.same(b.off):
            fr.regs[ins.dst] = a
            return
        # fork
        lt, lf = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if lt and lf:
            s2 = st.copy()
            s2.assume(z3.Not(c))
            s2.frames[-1].regs[ins.dst] = b
            wl.append((s2, False))
            st.assume(c)
            fr.regs[ins.dst] = a
        else:
            fr.regs[ins.dst] = a if lt else b
            st.assume(c if lt else z3.Not(c))

    # ---- calls
    def do_call(self, st, ins, region, wl):
        fr = st.frames[-1]
        callee = ins.a['callee']
        if callee[0] == 'asm':
            return 'continue'
        if callee[0] == 'reg':
            fv = fr.regs.get(callee[1])
            if not isinstance(fv, Fn):
                raise Unsupported('indirect call')
            name = fv.name
        else:
            c = self.const(PTR, callee)
            if not isinstance(c, Fn):
                raise Unsupported('call of non function')
            name = c.name
        if name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'):
            return self.after_call(st, ins, region, wl, None)
        if name in ('__cxa_allocate_exception',):
            fr.regs[ins.dst] = Ptr(self.newobj(st, Cells(None, 'exception')), 0)
            return self.after_call(st, ins, region, wl, None, False)
        if name == '__cxa_throw':
            t = ins.a['args'][1][1]
            return ('throw', st, t[1] if t[0] == 'glob' else '?')
        if name in ('__cxa_free_exception',):
            return 'continue'
        if re.match(r'_ZSt\d+__throw_', name) or name in ('_ZSt9terminatev', 'abort', '__clang_call_terminate'):
            return ('throw', st, name)
        if name == '__assert_fail':
            self.oblige(st, 'assertion in the code holds', False)
            return None
        args = [self.val(st, t, v) for t, v in ins.a['args']]
        import models
        r = models.try_model(self, st, name, ins, args)
        if r is models.FORKED:
            return 'continue'
        if r is not models.NOT_MODELLED:
            if isinstance(r, models.Forks):
                # list of (cond, fn(state)->value)
                res = []
                for cond, act in r.opts:
                    if self.feasible(st, zb(cond)):
                        s2 = st.copy()
                        s2.assume(zb(cond))
                        v = act(s2)
                        if v is models.THROW:
                            self._pending.append(('throw', s2, 'model'))
                            continue
                        if ins.dst is not None:
                            s2.frames[-1].regs[ins.dst] = v
                        if ins.op == 'invoke':
                            k = self.jump(s2, ins.a['n'], region)
                            self.dispatch(k, s2, region, wl)
                        else:
                            wl.append((s2, False))
                return None
            return self.after_call(st, ins, region, wl, r)
        if name in self.mod.funcs:
            self.call_func(st, name, args, ins.dst, ins.a['n'] if ins.op == 'invoke' else None)
            return 'continue'
        if name == '__gxx_personality_v0':
            return 'continue'
        if 'basic_string' in self.dem(name) or 'logic_error' in self.dem(name) or 'invalid_argument' in self.dem(name) or 'domain_error' in self.dem(name) or 'runtime_error' in self.dem(name) or 'std::__cxx11::to_string' in self.dem(name) or 'out_of_range' in self.dem(name):
            # message construction of an exception: no effect on the state the contracts speak about
            self.models_used.add('exception message construction (ignored)')
            if ins.dst is not None:
                fr.regs[ins.dst] = self.fresh_val(st, ins.ty, 'str')
            return self.after_call(st, ins, region, wl, None, False)
        raise Unsupported('call to %s' % self.dem(name))

    def after_call(self, st, ins, region, wl, r, setdst=True):
        fr = st.frames[-1]
        if ins.dst is not None and setdst:
            fr.regs[ins.dst] = r
        if ins.op == 'invoke':
            k = self.jump(st, ins.a['n'], region)
            if k is None:
                return 'continue'
            if k == 'loop':
                self.dispatch(k, st, region, wl)
                return None
            return (k, st, None)
        return 'continue'

    # ---------------------------------------------------------- loops -------
    def handle_loop(self, st):
        peel = self.opts.get('peel', 0) if self.bounded is None else 0
        if peel:    # loops that always end within a few iterations, whatever their exits, are unrolled completely
            obls = self.obls
            out = self.unroll_or_cut(st.copy(), peel)
            if out is not None:
                return out
            self.obls = obls
        return self.unroll_or_cut(st, 0)

    def unroll_or_cut(self, st, peel):
        """st is positioned at the loop header (phis evaluated), arriving from outside. Returns
        [(exit|throw|ret..., state, info)]"""
        fr = st.frames[-1]
        loop = fr.fn.loops[fr.block]
        region = (len(st.frames), loop)
        out = []
        cur = [st]
        start, obls0 = st.copy(), self.obls
        unrolled = 0
        limit = peel or (self.opts.get('unroll', 12) if self.bounded is None else self.bounded.get('unroll', 24))
        # concrete unrolling while every exit decision is determined
        while cur and unrolled < limit:
            nxt = []
            need_inv = False
            trial = []
            for s in cur:
                rec = {}
                self.recorders.append(rec)
                saved = self.obls
                self.obls = list(saved)
                s0 = s.copy()
                try:
                    res = self.explore(s.copy(), region)
                finally:
                    self.recorders.pop()
                    new_obls = self.obls
                    self.obls = saved
                kinds = set(k for k, _, _ in res)
                if self.bounded is None and not peel and 'back' in kinds and ('exit' in kinds):
                    need_inv = True
                    break
                if self.bounded is None and not peel and 'back' in kinds and len(res) > 1 and unrolled >= 4 and len([1 for k, _, _ in res if k == 'back']) > 1:
                    need_inv = True
                    break
                trial.append((res, new_obls))
            if need_inv:
                break
            for res, new_obls in trial:
                base = len(self.obls)
                self.obls = self.obls + new_obls[len(saved):] if new_obls is not None else self.obls
                for k, s, i in res:
                    if k == 'back':
                        nxt.append(s)
                    else:
                        out.append((k, s, i))
            cur = nxt
            unrolled += 1
            if len(cur) > 64 and self.bounded is None:
                break
            if len(cur) > 3000:
                raise Unsupported('too many unrolled states')
        if not cur:
            return out
        if peel:
            return None
        if self.bounded is not None:
            if self.bounded.get('unwind_assume', True):
                # states that would run past the unrolling bound are dropped (bounded check, stated)
                self.stats['unwind_cut'] = self.stats.get('unwind_cut', 0) + len(cur)
                return out
            raise Unsupported('unwinding bound')
        if self.opts.get('whole') and unrolled:     # cut from the start: the invariant then covers the first iterations too
            self.obls, out, cur = obls0, [], [start]
        for s in cur:
            out += self.cut_loop(s, region)
        return out

    def loc_get(self, st, key):
        k = key[0]
        if k == 'reg':
            return st.frames[key[1]].regs.get(key[2], UNDEF)
        if k == 'cell':
            o = st.mem.get(key[1])
            if o is None or not isinstance(o, Cells):
                return None
            return o.cells.get(key[2], (None, UNDEF))[1]
        if k == 'arr':
            o = st.mem.get(key[1])
            return None if o is None or not isinstance(o, Arr) else o.fields[key[2]][1]
        if k == 'vec':
            o = st.mem.get(key[1])
            return None if o is None else o.vecs.get(key[2])
        if k == 'ghost':
            return st.ghost.get(key[1])

    def cut_loop(self, st0, region):
        self.stats['loops'] += 1
        depth, loop = region
        fr0 = st0.frames[-1]
        self.loop_depth += 1
        if self.loop_depth > 3:
            raise Unsupported('loop nesting')
        try:
            return self._cut_loop(st0, region)
        finally:
            self.loop_depth -= 1

    def _cut_loop(self, st0, region):
        depth, loop = region
        fr0 = st0.frames[-1]
        phis = [i for i in fr0.fn.blocks[loop.header] if i.op == 'phi']
        mods = {}
        for i in phis:
            mods[('reg', depth - 1, i.dst)] = dict(step=None, gran=None)
        tynames = {('reg', depth - 1, i.dst): i.ty for i in phis}
        # ---- pass 0: first iteration from the entry state, to learn deltas
        res, rec = self.probe(st0.copy(), region)
        self.learn(st0, st0, mods, res, rec, first=True)
        # ---- generic iterations until the modified set and induction steps are stable
        for rnd in range(12):
            H, syms, it = self.havoc(st0, mods, tynames)
            res, rec = self.probe(H.copy(), region)
            if not self.learn(st0, H, mods, res, rec, first=False):
                break
        else:
            raise Unsupported('loop modified set does not stabilise')
        # ---- candidates
        H, syms, it = self.havoc(st0, mods, tynames)
        res, rec = self.probe(H.copy(), region)
        cands = self.auto_cands(st0, H, syms, it, rec, mods)
        if self.spec is not None:
            lc = LoopCtx()
            lc.entry = st0; lc.cur = H; lc.it = it; lc.ex = self; lc.loop = loop; lc.fn = fr0.fn.name
            lc.syms = syms
            lc.ints, lc.reals, lc.bools = [], [], []
            lc.vecs = lambda kind, H=H, mods=mods: self.mod_vecs(H, mods, kind)
            lc.all_vecs = lambda kind, H=H: [(o.fields[0][1], o.n.z()) for _, o in sorted(H.mem.items(), key=lambda t: str(t[0])) if isinstance(o, Arr) and not o.freed and list(o.fields) == [0] and o.fields[0][0] == kind]
            for k in sorted(mods, key=str):
                if k[0] in ('reg', 'cell'):
                    x = self.loc_get(H, k)
                    if isinstance(x, L):
                        lc.ints.append(x.z())
                    elif isinstance(x, Ptr):
                        o = H.mem.get(x.obj)
                        lc.ints.append(z3.simplify(x.off.z() / (4 if isinstance(o, Arr) and o.stride == 4 else 8)))
                    elif z3.is_expr(x) and z3.is_real(x):
                        lc.reals.append(x)
                    elif z3.is_expr(x) and z3.is_bool(x):
                        lc.bools.append(x)
            cands += self.spec.loop_cands(lc)
            H.loopints = H.loopints + tuple(lc.ints)
        # dedupe
        seen = set()
        cl = []
        for nm, f in cands:
            f = zb(f)
            if z3.is_true(f) or f.get_id() in seen:
                continue
            seen.add(f.get_id())
            cl.append((nm, f))
        to = self.opts.get('inv_ms', 4000)
        # entry check
        ent = [(s, v0) for s, v0, _ in syms] + [(it, z3.IntVal(0))]
        keep = []
        for nm, f in cl:
            g = z3.simplify(z3.substitute(f, *ent)) if not has_quant(f) else z3.substitute(f, *ent)
            r, _ = self.prove(st0.pc, g, to)
            if r == 'unsat':
                keep.append((nm, f))
            elif self.opts.get('verbose'):
                print('      %s drop(entry) %s' % (loop.header, nm))
        if self.opts.get('verbose'): print('   == loop', loop.header, 'depth', len(st0.frames), 'entered, kept:', [nm for nm, _ in keep if not nm.startswith('auto')])
        # preservation
        while True:
            H2 = H.copy()
            for nm, f in keep:
                H2.assume(f)
            res, rec = self.probe(H2, region)
            backs = [s for k, s, _ in res if k == 'back']
            drop = set()
            for s in backs:
                bk = []
                for sy, v0, key in syms:
                    bk.append((sy, self.sym_back(s, key, sy, mods)))
                bk.append((it, it + 1))
                todo = [(i, nm, z3.substitute(f, *bk)) for i, (nm, f) in enumerate(keep) if i not in drop]
                if not todo:
                    continue
                r = 'no'
                if len(todo) <= 60:
                    qfree = [g for _, _, g in todo if not has_quant(g)]
                    if qfree:
                        rq, _ = self.prove(s.pc, z3.And(qfree), to)
                        if rq == 'unsat':
                            todo = [t for t in todo if has_quant(t[2])]
                for i, nm, g in todo:
                    r, _ = self.prove(s.pc, g, to)
                    if r != 'unsat':
                        drop.add(i)
                        if self.opts.get('verbose'):
                            print('      %s drop(back,%s) %s' % (loop.header, r, nm))
            if not drop:
                break
            keep = [c for i, c in enumerate(keep) if i not in drop]
        # ---- final run with the surviving invariant, obligations recorded
        H2 = H.copy()
        for nm, f in keep:
            H2.assume(f)
        if not self.silent:
            self.stats['invariants'].append(('%s:%s' % (fr0.fn.name, loop.header), [nm for nm, _ in keep]))
        res = self.explore(H2, region)
        return [(k, s, i) for k, s, i in res if k != 'back']

    def mod_vecs(self, st, mods, kind):
        """[(contents, length)] of the vectors and arrays with such elements that the loop changes"""
        out = []
        for k in sorted(mods, key=str):
            if k[0] == 'vec':
                v = self.loc_get(st, k)
                o = st.mem.get(v.buf) if v is not None and v.buf is not None else None
                if isinstance(o, Arr) and 0 in o.fields and len(o.fields) == 1 and o.fields[0][0] == kind:
                    out.append((o.fields[0][1], v.n.z()))
            elif k[0] == 'arr' and k[2] == 0:
                o = st.mem.get(k[1])
                if isinstance(o, Arr) and len(o.fields) == 1 and o.fields[0][0] == kind:
                    out.append((o.fields[0][1], o.n.z()))
        return out

    def probe(self, st, region):
        rec = {}
        self.recorders.append(rec)
        self.silent += 1
        try:
            res = self.explore(st, region)
        finally:
            self.silent -= 1
            self.recorders.pop()
        return res, rec

    def learn(self, st0, H, mods, res, rec, first):
        """update mods from what one iteration did; return True when something changed"""
        changed = False
        keys = set(k for k in rec if isinstance(k, tuple))
        backs = [s for k, s, _ in res if k == 'back']
        # only objects/locations that exist at the header
        for k in keys:
            if k[0] in ('cell', 'arr', 'vec'):
                if k[1] not in H.mem:
                    continue
                if k[0] == 'cell' and self.dead_cell(H, k):
                    continue
                if k[0] == 'vec' and k[2] not in H.mem[k[1]].vecs:
                    continue
            if k[0] == 'arr' and k[1] not in st0.mem:
                continue        # buffer created by the havoc of its vector
            if k not in mods:
                mods[k] = dict(step=None, gran=None)
                changed = True
        for k, info in mods.items():
            h = self.loc_get(H, k)
            deltas = set()
            ok = True
            for s in backs:
                b = self.loc_get(s, k)
                d = self.delta(h, b)
                if d is None:
                    ok = False
                else:
                    deltas.add(d)
            if not backs:
                continue
            if not ok:
                # irregular: integers become arbitrary, pointers arbitrary multiples of what all changes have in common
                g = None
                if isinstance(h, Ptr):
                    g = abs(info['step'] or 0) or info['gran'] or 0
                    for s in backs:
                        b = self.loc_get(s, k)
                        if not isinstance(b, Ptr) or b.obj != h.obj:
                            g = None
                            break
                        d = b.off - h.off
                        g = math.gcd(g, d.c)
                        for _, c in d.t.values():
                            g = math.gcd(g, c)
                    g = g or None
                if info['step'] is not None or info['gran'] != g:
                    info['step'], info['gran'], info['tried'] = None, g, True
                    changed = True
                info['irregular'] = True
                continue
            if info.get('irregular') and not isinstance(h, Ptr):
                continue
            if first:
                if ok and len(deltas) == 1:
                    info['step'] = deltas.pop()
                elif ok and deltas:
                    g = 0
                    for d in deltas:
                        g = math.gcd(g, d)
                    info['gran'] = g or None
            else:
                if info['step'] is not None:
                    if not ok or deltas != {info['step']}:
                        g = info['step']
                        for d in deltas:
                            g = math.gcd(g, d)
                        info['step'] = None
                        info['gran'] = (abs(g) or None) if ok else info.get('gran')
                        changed = True
                elif k not in (info.get('seen') or ()) and ok and len(deltas) == 1 and not info.get('tried'):
                    info['tried'] = True
                    info['step'] = deltas.pop()
                    changed = True
                else:
                    if ok and deltas:
                        g = info['gran'] or 0
                        for d in deltas:
                            g = math.gcd(g, d)
                        if (g or None) != info['gran']:
                            info['gran'] = g or None
                            changed = True
        return changed

    def dead_cell(self, H, k):
        """a cell of an object with no value at the header: written before it is read in each iteration"""
        o = H.mem[k[1]]
        return isinstance(o, Cells) and k[2] not in o.cells

    def delta(self, a, b):
        if isinstance(a, L) and isinstance(b, L):
            d = b - a
            return d.c if d.const() else None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                return None
            d = b.off - a.off
            return d.c if d.const() else None
        if isinstance(a, VecState) and isinstance(b, VecState):
            d = b.n - a.n
            return d.c if d.const() else None
        return None

    def havoc(self, st0, mods, tynames):
        H = st0.copy()
        it = fresh('it')
        H.assume(it >= 0)
        syms = []
        covered = set()
        for k in mods:
            if k[0] == 'vec':
                v0 = self.loc_get(st0, k)
                if v0 is not None:
                    covered.add(v0.buf)
        for k, info in sorted(mods.items(), key=str):
            v0 = self.loc_get(st0, k)
            step = info['step']
            if k[0] == 'vec':
                if v0 is None:
                    continue
                if step is not None:
                    n = v0.n + L.of(it).scale(step)
                else:
                    ns = fresh('n')
                    if info['gran'] not in (None, 1):
                        n = v0.n + L.of(ns).scale(info['gran'])
                        syms.append((ns, z3.IntVal(0), (k, 'grann', v0.n)))
                    else:
                        n = L.of(ns)
                        syms.append((ns, v0.n.z(), (k, 'n')))
                    H.assume(n.z() >= 0)
                ob = st0.mem[v0.buf] if v0.buf is not None else None
                if isinstance(ob, Cells):
                    raise Unsupported('concrete vector %s modified in a symbolic loop' % ob.name)
                fields = {}
                for off, kind in v0.et.fields:
                    a = fresh('A', kind_sort(kind))
                    fields[off] = (kind, a)
                    syms.append((a, ob.fields[off][1] if ob is not None else fresh('none', kind_sort(kind)), (k, 'f', off)))
                nb = self.newobj(H, Arr(v0.et.stride, fields, n, (ob.name if ob is not None else 'vec')))
                o = H.mem[k[1]].copy()
                o.vecs[k[2]] = VecState(nb, n, v0.et)
                H.mem[k[1]] = o
                continue
            if k[0] == 'arr':
                if k[1] in covered:
                    continue
                o = H.mem[k[1]].copy()
                kind, a0 = o.fields[k[2]]
                # skip when this is a vector buffer replaced by a 'vec' havoc
                a = fresh('A', kind_sort(kind))
                o.fields[k[2]] = (kind, a)
                H.mem[k[1]] = o
                syms.append((a, a0, (k, 'arr')))
                continue
            if k[0] == 'ghost':
                v = st0.ghost[k[1]]
                nv = self.havoc_val(H, v, info, it, syms, k)
                H.ghost[k[1]] = nv
                continue
            nv = self.havoc_val(H, v0, info, it, syms, k, tynames.get(k))
            if k[0] == 'reg':
                H.frames[k[1]].regs[k[2]] = nv
            else:
                o = H.mem[k[1]].copy()
                sz = o.cells[k[2]][0] if k[2] in o.cells else None
                if sz is None:
                    continue
                o.cells[k[2]] = (sz, nv)
                H.mem[k[1]] = o
        H.hdr_serial = _fresh[0]
        return H, syms, it

    def havoc_val(self, H, v, info, it, syms, k, ty=None):
        step = info['step']
        if v is UNDEF:
            return UNDEF
        if isinstance(v, L) or (isinstance(v, int) and not isinstance(v, bool)):
            v = L.of(v)
            if step is not None:
                return v + L.of(it).scale(step)
            x = fresh('i')
            if info['gran'] not in (None, 1):
                syms.append((x, z3.IntVal(0), (k, 'gran', v)))
                r = v + L.of(x).scale(info['gran'])
            else:
                syms.append((x, v.z(), (k, 'v')))
                r = L.of(x)
            H.assume(z3.And(r.z() >= -I63, r.z() < I63))
            return r
        if isinstance(v, Ptr):
            if step is not None:
                return Ptr(v.obj, v.off + L.of(it).scale(step))
            if info['gran'] is None:
                raise Unsupported('pointer %s changes irregularly in a loop' % (k,))
            x = fresh('p')
            syms.append((x, z3.IntVal(0), (k, 'gran', v.off)))
            return Ptr(v.obj, v.off + L.of(x).scale(info['gran']))
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            x = fresh('b', 'B')
            syms.append((x, zb(v), (k, 'v')))
            return x
        if isinstance(v, float) or (z3.is_expr(v) and z3.is_real(v)):
            x = fresh('r', 'R')
            syms.append((x, zr(v), (k, 'v')))
            return x
        if z3.is_expr(v):
            x = fresh('g', v.sort())
            syms.append((x, v, (k, 'v')))
            return x
        raise Unsupported('havoc of %r' % (v,))

    def sym_back(self, s, key, sy, mods):
        k = key[0]
        kind = key[1]
        v = self.loc_get(s, k)
        if kind == 'n':
            return v.n.z()
        if kind == 'grann':
            d = v.n - key[2]
            return self.exact_div(d, mods[k]['gran'])
        if kind == 'f':
            b = s.mem[v.buf]
            if not isinstance(b, Arr):
                raise Unsupported('vector became concrete')
            return b.fields[key[2]][1]
        if kind == 'arr':
            return v
        if kind == 'gran':
            off = v.off if isinstance(v, Ptr) else L.of(v)
            return self.exact_div(off - key[2], mods[k]['gran'])
        if isinstance(v, L):
            return v.z()
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, float):
            return zr(v)
        if v is UNDEF:
            return fresh('undef', sy.sort())
        return v

    def exact_div(self, d, g):
        if d.c % g == 0 and all(c % g == 0 for _, c in d.t.values()):
            return L(d.c // g, {k: (x, c // g) for k, (x, c) in d.t.items()}).z()
        raise Unsupported('a loop changes a value by an amount that was not foreseen')

    def auto_cands(self, st0, H, syms, it, rec, mods):
        cands = []
        # comparisons met in the body
        known = H.hdr_serial
        for a, b in rec.get('cmps', []):
            d = a - b
            if d.const():
                continue
            if not all(self._ground(x, known) for x, _ in d.t.values()):
                continue
            za, zb_ = a.z(), b.z()
            cands.append(('auto: %s <= %s' % (za, zb_), za <= zb_))
            cands.append(('auto: %s >= %s' % (za, zb_), za >= zb_))
            cands.append(('auto: %s + 1 >= %s' % (za, zb_), za + 1 >= zb_))
            cands.append(('auto: %s <= %s + 1' % (za, zb_), za <= zb_ + 1))
        for sy, v0, key in syms:
            kind = key[1]
            if z3.is_int(sy):
                if kind in ('n', 'v'):
                    cands.append(('auto: %s >= entry' % sy, sy >= v0))
                    cands.append(('auto: %s <= entry' % sy, sy <= v0))
                    cands.append(('auto: %s <= entry+it' % sy, sy <= v0 + it))
                    cands.append(('auto: %s >= entry-it' % sy, sy >= v0 - it))
                else:
                    cands.append(('auto: %s >= 0' % sy, sy >= 0))
                    cands.append(('auto: %s <= it' % sy, sy <= it))
            elif z3.is_array(sy) and kind == 'f':
                k = key[0]
                vs0 = self.loc_get(st0, k)
                q = z3.Int('k')
                cands.append(('auto: elements present at loop entry unchanged (%s)' % sy,
                              z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < vs0.n.z()), z3.Select(sy, q) == z3.Select(v0, q)), patterns=[z3.Select(sy, q)])))
            elif z3.is_array(sy) and kind == 'arr':
                q = z3.Int('k')
                for idx in rec.get(key[0], []):
                    if idx is None:
                        continue
                    iz = idx.z()
                    if not all(self._ground(x, known) for x, _ in idx.t.values()):
                        continue
                    e0 = z3.substitute(iz, *([(s, v) for s, v, _ in syms] + [(it, z3.IntVal(0))]))
                    for nm, c in (('k>=idx', q >= iz), ('k<=idx', q <= iz), ('k<idx0', q < e0), ('k>idx0', q > e0), ('k>idx', q > iz), ('k<idx', q < iz)):
                        cands.append(('auto: frame %s %s' % (sy, nm), z3.ForAll([q], z3.Implies(c, z3.Select(sy, q) == z3.Select(v0, q)), patterns=[z3.Select(sy, q)])))
        return cands

    def _ground(self, x, serial):
        """only names that exist at the loop header (fresh names carry a serial number)"""
        return self._max_serial(x) <= serial

    def _max_serial(self, x, cache=None):
        m = 0
        stack = [x]
        seen = set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                return 10 ** 9
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if '!' in n:
                    try:
                        m = max(m, int(n.rsplit('!', 1)[1]))
                    except ValueError:
                        pass
            stack += t.children()
        return m


def lblname(s):
    return s[1:-1] if s.startswith('"') else s


def insv(v, idx, e, rt, mod):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
        return v
    ft = mod.resolve(rt.fields[idx[0]] if rt.k == 'struct' else rt.elem)
    sub = v[idx[0]]
    if not isinstance(sub, list):
        sub = [UNDEF] * (len(ft.fields) if ft.k == 'struct' else ft.n)
    v[idx[0]] = insv(sub, idx[1:], e, ft, mod)
    return v


def mknot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def mkand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def mkor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def mkeq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        return a if b else mknot(a)
    return a == b


def as01(v):
    """bool behind an If(b,1,0) integer"""
    if isinstance(v, L):
        if v.const():
            return bool(v.c) if v.c in (0, 1) else None
        if v.c == 0 and len(v.t) == 1:
            x, c = next(iter(v.t.values()))
            if c == 1 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
                t, f = x.arg(1).as_long(), x.arg(2).as_long()
                if (t, f) == (1, 0):
                    return x.arg(0)
                if (t, f) == (0, 1):
                    return mknot(x.arg(0))
    return None


def simpb(c):
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


def simp_select(v):
    """read-over-write at syntactically equal/different constant index"""
    a, i = v.arg(0), v.arg(1)
    n = 0
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and n < 200:
        n += 1
        j = a.arg(1)
        if i.eq(j):
            return a.arg(2)
        d = L.of(i) - L.of(j)
        if d.const():
            if d.c == 0:
                return a.arg(2)
            a = a.arg(0)
            continue
        break
    return z3.Select(a, i)
