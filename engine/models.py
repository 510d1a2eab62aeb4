"""Assumed contracts on dependencies: LLVM intrinsics, libm, operator new/delete, std::vector members, std
algorithms. Everything modelled here is reported in the evidence as trusted."""
import re
import math
import z3
from vc import *
from vc import _fresh
import ll

NOT_MODELLED = object()
FORKED = object()
THROW = object()


class Forks:
    def __init__(self, opts):
        self.opts = opts


def UF(name, n=1):
    return z3.Function(name, *([z3.RealSort()] * (n + 1)))


def cstring(ex, st, p):
    o = ex.obj(st, p)
    out = b''
    i = p.off.c
    while True:
        c = o.cells[i][1].c & 255
        if c == 0:
            return out.decode()
        out += bytes([c])
        i += 1


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def match_angle(s, i):
    """s[i] == '<' -> index after the matching '>'"""
    d = 0
    j = i
    while j < len(s):
        if s[j] == '<':
            d += 1
        elif s[j] == '>' and s[j - 1] != '-':
            d -= 1
            if d == 0:
                return j + 1
        elif s[j] == '(' or s[j] == ')':
            pass
        j += 1
    raise Unsupported('angle')


def parse_member(dem, cls):
    """(elem, method, targs, params) when dem is a member of std::<cls><...>"""
    key = 'std::%s<' % cls
    # the class of the member: the first occurrence at angle depth 0
    d = 0
    i = 0
    while i < len(dem):
        if d == 0 and dem.startswith(key, i):
            e = match_angle(dem, i + len(key) - 1)
            if dem.startswith('::', e):
                rest = dem[e + 2:]
                m = re.match(r'(operator\s*[^(]+|~?\w+)', rest)
                if not m:
                    return None
                meth = m.group(1)
                r2 = rest[len(meth):]
                targs = []
                if r2.startswith('<'):
                    e2 = match_angle(r2, 0)
                    targs = split_targs(r2[1:e2 - 1])
                    r2 = r2[e2:]
                params = []
                if r2.startswith('('):
                    dd = 0
                    for j, ch in enumerate(r2):
                        if ch == '(':
                            dd += 1
                        elif ch == ')':
                            dd -= 1
                            if dd == 0:
                                break
                    params = split_targs(r2[1:j])
                elem = split_targs(dem[i + len(key):e - 1])[0]
                return elem, meth, targs, params
            # part of the return type: skip over
            i = e
            continue
        ch = dem[i]
        if ch in '<(':
            if ch == '(':
                return None
            d += 1
        elif ch == '>':
            d -= 1
        i += 1
    return None


NOINLINE_VECTOR = set('''emplace_back push_back pop_back clear resize reserve erase insert emplace assign swap vector ~vector operator=
   shrink_to_fit _M_assign_aux _M_fill_assign at'''.split())


def is_modelled_name(dem):
    m = parse_member(dem, 'vector')
    if m and m[1] in NOINLINE_VECTOR and m[0] != 'bool':
        return True
    for pat in NOINLINE_PATTERNS:
        if pat.search(dem):
            return True
    return False


NOINLINE_PATTERNS = [re.compile(p) for p in [
    r'^(void |bool |auto |decltype\(auto\) )?std::(stable_sort|sort|shuffle|is_sorted)<', r'^(__gnu_cxx::__normal_iterator<long\*, [^(]*> )?std::unique<__gnu_cxx::__normal_iterator<long\*',
    r'(^| )std::reduce<', r'(^| )std::accumulate<(?!__gnu_cxx::__normal_iterator<dwave)', r'(^| )std::(copy|fill|fill_n)<(?!.*_Bit)', r'(^| )std::iota<',
    r'(^| )std::gcd<', r'fraction::operator[*/]=<?', r'fraction::operator long', r'(^| )dwave::optimization::operator[*/](<[^(]*>)?\(dwave::optimization::fraction',
    r'dwave::optimization::operator-\(dwave::optimization::Array::ArrayIteratorImpl_<\w+> const&, dwave',
    r'Graph::descendants\(', r'Graph::topological_sort\(.*\)::\$_\d+::operator\(\)', r'Graph16topological_sortEvENK3\$_\d+cl',
    r'QuadraticModel::(compute_value|get_effective_linear_bias)\(',
    r'std::_Sp_counted_base<.*>::_M_release', r'std::uniform_(int|real)_distribution<[\w ]+>::operator\(\)<', r'^(.* )?std::unordered_set<.*>::(~?unordered_set|size|count|insert|contains)\b',
    r'(^| )std::rotate<', r'(^| )std::_V2::rotate<',
    r'^std::__cxx11::', r'shape_to_string', r'std::operator\+<char', r'(^| )std::(__cxx11::)?to_string\(', r'^(std::__cxx11::basic_string<[^(]*> )?std::operator\+<',
]]


ITERATOR = 'dwave::optimization::Array::ArrayIteratorImpl_<true>'


def plain_iterator(vals):
    """iterators of contiguous arrays own nothing, so that they can be copied and moved as they are"""
    for off in (8, 16):
        x = vals[off]
        if not (isinstance(x, Ptr) and x.obj is None and x.off.const() and x.off.c == 0):
            raise Unsupported('vector of iterators that are not contiguous')
    return vals


def elem_ty(ex, name):
    n = name.replace('const ', '')
    if n in ELEM:
        return ELEM[n]
    if n.endswith('*') or n.startswith('std::unique_ptr<'):
        return ElemTy(n, 8, [(0, 'ptr')])
    if n.startswith('std::vector<'):
        return ElemTy(n, 24, [(0, 'vec')])
    if n == ITERATOR:
        return ElemTy(n, 24, [(0, 'ptr'), (8, 'ptr'), (16, 'ptr')])
    if n in ex.opts.get('elems', {}):
        return ex.opts['elems'][n]
    raise Unsupported('vector of ' + name)


def vec_at(ex, st, p, et=None):
    o = ex.obj(st, p)
    if isinstance(o, Arr):
        idx, f = ex.decode(o, p.off)
        if f in o.fields and o.fields[f][0].startswith('row'):
            ex.bounds(st, o, idx)
            return ex.row(st, o, idx, f, *o.fields[f])
    if not isinstance(o, Cells) or not p.off.const():
        raise Unsupported('vector header inside a symbolic array')
    v = o.vecs.get(p.off.c)
    if v is None:      # a vector the program's own code put together from its three pointers
        c = [o.cells.get(p.off.c + d, (None, None))[1] for d in (0, 8, 16)]
        if all(isinstance(x, Ptr) for x in c) and c[0].obj == c[1].obj and isinstance(st.mem.get(c[0].obj), Arr) and c[0].off.const() and c[0].off.c == 0:
            a = st.mem[c[0].obj]
            return VecState(c[0].obj, ex.sdiv(st, c[1].off, L(a.stride), True), ElemTy('?', a.stride, [(f, k) for f, (k, _) in sorted(a.fields.items())]))
        if et is not None and et.stride == 8 and [f for f, _ in et.fields] == [0] and et.fields[0][1] in ('f64', 'i64') and all(isinstance(x, Ptr) for x in c) and c[0].obj == c[1].obj and c[0].obj in st.mem:
            o, k = st.mem[c[0].obj], et.fields[0][1]    # its buffer is a block of memory of known size
            if isinstance(o, Cells) and not o.vecs and c[0].off.const() and c[0].off.c == 0:
                a = fresh('block', kind_sort(k))
                for off, (_, x) in o.cells.items():
                    a = z3.Store(a, z3.IntVal(off // 8), zr(ex.scal(x)) if k == 'f64' else zi(ex.as_int(x)))
                st.mem[c[0].obj] = Arr(8, {0: (k, a)}, o.size // 8, o.name)
                return VecState(c[0].obj, ex.sdiv(st, c[1].off, L(8), True), et)
        if et is not None and all(isinstance(x, Ptr) and x.obj is None for x in c[:2]) and c[0].off.same(c[1].off):
            return VecState(None if any(k in ('ptr', 'vec') for _, k in et.fields) else new_arr(ex, st, et, 0), L(0), et)
        raise Unsupported('no vector constructed at %s+%d' % (o.name, p.off.c))
    return v


def set_vec(ex, st, p, v):
    k = ex.key(p)
    o = ex.obj(st, p).copy()
    for off in list(o.cells):
        if p.off.c <= off < p.off.c + 24:
            del o.cells[off]
    o.vecs[p.off.c] = v
    st.mem[k] = o
    ex.note_write(('vec', k, p.off.c))


def label_of(st, ex, p):
    return st.labels.get((ex.key(p), p.off.c if p.off.const() else None))


def new_arr(ex, st, et, n, fields=None, name='vec'):
    n = L.of(n)
    if fields is None:
        fields = {off: (k, fresh(name, kind_sort(k))) for off, k in et.fields}
    return ex.newobj(st, Arr(et.stride, fields, n, name))


def free_buf(ex, st, v):
    if v.buf is not None and v.buf in st.mem:
        o = st.mem[v.buf].copy()
        o.freed = True
        st.mem[v.buf] = o


def kind_ty(k):
    if k.startswith('ref'):
        return ll.PTR
    return {'f64': ll.DOUBLE, 'i64': ll.INT(64), 'i32': ll.INT(32), 'i8': ll.INT(8), 'ptr': ll.PTR}[k]


def load_elem(ex, st, p, et):
    return {off: ex.load(st, Ptr(p.obj, p.off + off), kind_ty(k)) for off, k in et.fields}


CT = {'double': ('f64', ll.DOUBLE), 'long': ('i64', ll.INT(64)), 'unsigned long': ('i64', ll.INT(64)), 'int': ('i32', ll.INT(32)),
      'bool': ('bool', ll.INT(8)), 'float': ('f32', ll.FLOAT), 'unsigned int': ('u32', ll.INT(32)), 'signed char': ('i8', ll.INT(8))}


def load_arg(ex, st, p, tname, want):
    t = tname.replace('const', '').replace('&', '').strip()
    if want == 'ptr' and t.endswith('*'):
        return ex.load(st, p, ll.PTR)
    if t not in CT:
        raise Unsupported('emplace argument of type ' + tname)
    kind, ty = CT[t]
    v = ex.load(st, p, ty)
    if kind == 'bool':
        b = ex.tobool(v)
        if want == 'f64':
            return float(b) if isinstance(b, bool) else z3.If(b, z3.RealVal(1), z3.RealVal(0))
        return ex.as_int(b)
    if want == 'f64' and kind != 'f64':
        v = ex.as_int(v)
        if not v.const():
            st.assume(z3.ToReal(v.z()) != NAN)
            st.assume(isint(z3.ToReal(v.z())))
        return float(v.c) if v.const() else z3.ToReal(v.z())
    if want != 'f64' and kind == 'f64':
        return L.of(ex.trunc_real(zr(v)))
    return v


def vec_push(ex, st, p, v, vals):
    et = v.et
    ob = st.mem[v.buf] if v.buf is not None else None
    if isinstance(ob, Cells) or (ob is None and any(k in ('ptr', 'vec') for _, k in et.fields)):
        if not v.n.const():
            raise Unsupported('concrete vec')
        nb = Cells(None, 'vecbuf')
        if ob is not None:
            nb.cells = dict(ob.cells); nb.vecs = dict(ob.vecs)
        base = v.n.c * et.stride
        for off, k in et.fields:
            nb.cells[base + off] = (ex.mod.size(kind_ty(k)), vals[off])
        nb.size = base + et.stride
        b = ex.newobj(st, nb)
        free_buf(ex, st, v)
        set_vec(ex, st, p, VecState(b, v.n + 1, et))
        return Ptr(b, base)
    fields = {}
    for off, k in et.fields:
        a = ob.fields[off][1] if ob is not None else fresh('empty', kind_sort(k))
        val = vals[off]
        fields[off] = (k, z3.Store(a, v.n.z(), zr(ex.scal(val)) if k == 'f64' else zi(ex.encode_ref(st, k, val)) if k.startswith('ref') else zi(ex.as_int(val))))
    b = new_arr(ex, st, et, v.n + 1, fields, ob.name if ob is not None else 'vec')
    free_buf(ex, st, v)
    set_vec(ex, st, p, VecState(b, v.n + 1, et))
    lab = label_of(st, ex, p)
    if lab is not None and ex.spec is not None:
        ex.spec.on_push(ex, st, lab, vals)
    elif ex.spec is not None:
        ex.spec.on_local_push(ex, st, et, v.n.z(), vals)
    return Ptr(b, v.n.scale(et.stride))


def conv_vals(ex, st, et, args, types):
    """element value from emplace/push arguments"""
    if len(args) == 1:
        t = types[0].replace('const', '').replace('&', '').strip() if types else et.name
        if et.name == ITERATOR:
            return plain_iterator(load_elem(ex, st, args[0], et))
        if t == 'std::pair<long, double>':
            return {0: ex.as_int(ex.load(st, args[0], ll.INT(64))), 8: ex.load(st, Ptr(args[0].obj, args[0].off + 8), ll.DOUBLE)}
        if t == et.name or t == 'dwave::optimization::' + et.name or len(et.fields) > 1:
            return load_elem(ex, st, args[0], et)
        if et.fields[0][1] == 'ptr' or et.fields[0][1].startswith('ref'):
            return load_elem(ex, st, args[0], et)
        return {0: load_arg(ex, st, args[0], types[0], et.fields[0][1])}
    if len(args) == len(et.fields):
        return {off: load_arg(ex, st, a, t, k) for (off, k), a, t in zip(et.fields, args, types)}
    raise Unsupported('emplace of %d args into %s' % (len(args), et.name))


def ghost_set(ex, st, name, v):
    st.ghost[name] = v
    ex.note_write(('ghost', name))


def inner_ty(ex, et):
    """what a new element holds: an empty vector, or (per offset) empty vectors and zeros of a size"""
    if et.name == 'neighborhood':
        return {0: 4, 8: ELEM['int'], 32: ELEM['double']}
    return elem_ty(ex, split_targs(et.name[len('std::vector<'):-1])[0].strip())


def vec_resize(ex, st, p, v, n, fillvals=None):
    et = v.et
    if et.fields and et.fields[0][1] == 'vec':
        if not (v.n.const() and v.n.c == 0 and fillvals is None):
            raise Unsupported('resize of a vector of vectors')
        ex.oblige(st, 'vector resize: size is not negative', n.z() >= 0)
        b = ex.newobj(st, Focus(et.stride, n, [], et.name, empty=inner_ty(ex, et)))
        set_vec(ex, st, p, VecState(b, n, et))
        if ex.prove(st.pc, n.z() >= 1, 2000)[0] == 'unsat':
            ex.make_other(st, b, L(0))      # the first element is used by all that follows
        return
    ob = st.mem[v.buf] if v.buf is not None else None
    if isinstance(ob, Cells):
        if not n.const():
            raise Unsupported('resize of concrete vector')
        nb = ob.copy()
        for i in range(v.n.c, n.c):
            for off, k in et.fields:
                nb.cells[i * et.stride + off] = (ex.mod.size(kind_ty(k)), fillvals[off] if fillvals else (NULL if k == 'ptr' else 0.0 if k == 'f64' else L(0)))
        for o in list(nb.cells):
            if o >= n.c * et.stride:
                del nb.cells[o]
        nb.size = n.c * et.stride
        b = ex.newobj(st, nb)
        free_buf(ex, st, v)
        set_vec(ex, st, p, VecState(b, n, et))
        return
    grow_const = (n - v.n)
    ex.oblige(st, 'vector resize: size is not negative', n.z() >= 0)
    fields = {}
    for off, k in et.fields:
        a = ob.fields[off][1] if ob is not None else fresh('empty', kind_sort(k))
        if grow_const.const() and grow_const.c <= 0:
            fields[off] = (k, a)
            continue
        fv = fillvals[off] if fillvals else (0.0 if k == 'f64' else L(0))
        fv = zr(ex.scal(fv)) if k == 'f64' else zi(ex.as_int(fv))
        if v.n.const() and n.const():
            for i in range(v.n.c, n.c):
                a = z3.Store(a, z3.IntVal(i), fv)
            fields[off] = (k, a)
            continue
        na = fresh('rs', kind_sort(k))
        q = z3.Int('k')
        st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(q < v.n.z(), z3.Select(a, q), fv), patterns=[z3.Select(na, q)]))
        fields[off] = (k, na)
    b = new_arr(ex, st, et, n, fields, ob.name if ob is not None else 'vec')
    free_buf(ex, st, v)
    set_vec(ex, st, p, VecState(b, n, et))
    lab = label_of(st, ex, p)
    if lab is not None and ex.spec is not None:
        ex.spec.on_resize(ex, st, lab)


def copy_vec(ex, st, dst, v):
    """new vector at dst with the contents of v"""
    ob = st.mem[v.buf] if v.buf is not None else None
    if ob is None:
        set_vec(ex, st, dst, VecState(None, 0, v.et)); return
    o2 = ob.copy()
    b = ex.newobj(st, o2)
    set_vec(ex, st, dst, VecState(b, v.n, v.et))


def range_read(ex, st, b, e, et):
    """(n, {off: lambda k: value}) for [b,e) of elements et.stride"""
    o = ex.obj(st, b)
    d = e.off - b.off
    n = ex.sdiv(st, d, L(et.stride), True)
    return n


def model_vector(ex, st, dem, m, args, ins):
    elem, meth, targs, params = m
    et = elem_ty(ex, elem)
    args = [ex.focus(st, x) if isinstance(x, Ptr) else x for x in args]
    p = args[0]
    ex.models_used.add('std::vector<%s>::%s' % (elem.replace('dwave::optimization::', ''), meth))
    if meth == 'vector':
        rest = params
        na = len(args)
        if na == 1 or (na == 2 and 'allocator' in params[0] and not params[0].startswith('std::vector')):
            set_vec(ex, st, p, VecState(None if any(k in ('ptr', 'vec') for _, k in et.fields) else new_arr(ex, st, et, 0), 0, et))
            return None
        if params[0].startswith('std::vector<') or params[0].startswith('std::vector'):
            src = args[1]
            v = vec_at(ex, st, src, et)
            if params[0].endswith('&&'):
                set_vec(ex, st, p, v)
                set_vec(ex, st, src, VecState(None if any(k in ('ptr', 'vec') for _, k in et.fields) else new_arr(ex, st, et, 0), 0, et))
            else:
                copy_vec(ex, st, p, v)
            return None
        if params[0] == 'unsigned long':
            n = ex.as_int(args[1])
            v0 = VecState(new_arr(ex, st, et, 0) if not any(k in ('ptr', 'vec') for _, k in et.fields) else ex.newobj(st, Cells(0, 'vecbuf')), 0, et)
            set_vec(ex, st, p, v0)
            fv = None
            if len(params) >= 2 and 'allocator' not in params[1]:
                fv = load_elem(ex, st, args[2], et)
            vec_resize(ex, st, p, v0, n, fv)
            return None
        if params[0].startswith('std::initializer_list'):
            # passed as (ptr, len)
            n = ex.as_int(args[2])
            return range_ctor(ex, st, p, et, args[1], n)
        if len(params) >= 2 and params[0] == params[1]:
            b, e = args[1], args[2]
            t = params[0]
            if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and (t.endswith('*') or '__normal_iterator' in t):
                src = re.search(r'<([^<>]*?)(?: const)?\*', t)
                sname = (src.group(1) if src else t.rstrip('*').replace('const', '').strip()).strip()
                if sname.replace(' const', '') not in (elem, elem.replace(' const', '')):
                    raise Unsupported('converting range ctor from ' + t)
                n = ex.sdiv(st, e.off - b.off, L(et.stride), True)
                return range_ctor(ex, st, p, et, b, n)
        return NOT_MODELLED
    if meth == '~vector':
        v = ex.obj(st, p).vecs.get(p.off.c) if p.off.const() else None
        if v is not None:
            if any(k in ('ptr', 'vec') for _, k in et.fields) and 'unique_ptr' in elem:
                pass  # owned objects: destructors are not run
            free_buf(ex, st, v)
        return None
    v = vec_at(ex, st, p, et)
    if v.et.fields and v.et.fields[0][1].startswith('ref'):
        et = v.et
    if meth in ('emplace_back', 'push_back'):
        types = targs if meth == 'emplace_back' else params
        vals = conv_vals(ex, st, et, args[1:], types)
        if meth == 'push_back' and params and params[0].endswith('&&') and et.fields[0][1] == 'ptr':
            ex.store(st, args[1], NULL, ll.PTR)
        return vec_push(ex, st, p, v, vals)
    if meth == 'pop_back':
        ex.oblige(st, 'vector pop_back: not empty', v.n.z() >= 1 if not v.n.const() else v.n.c >= 1)
        ob = st.mem[v.buf].copy()
        if isinstance(ob, Arr):
            ob.n = v.n - 1
        b = ex.newobj(st, ob)
        free_buf(ex, st, v)
        set_vec(ex, st, p, VecState(b, v.n - 1, et))
        lab = label_of(st, ex, p)
        if lab is not None and ex.spec is not None:
            ex.spec.on_resize(ex, st, lab)
        return None
    if meth == 'clear':
        free_buf(ex, st, v)
        set_vec(ex, st, p, VecState(None if any(k in ('ptr', 'vec') for _, k in et.fields) else new_arr(ex, st, et, 0), 0, et))
        lab = label_of(st, ex, p)
        if lab is not None and ex.spec is not None:
            ex.spec.on_resize(ex, st, lab)
        return None
    if meth == 'reserve':
        ob = st.mem[v.buf].copy() if v.buf is not None else None
        if ob is not None:
            b = ex.newobj(st, ob)
            free_buf(ex, st, v)
            set_vec(ex, st, p, VecState(b, v.n, et))
        return None
    if meth == 'shrink_to_fit':
        return None
    if meth == 'resize':
        fv = load_elem(ex, st, args[2], et) if len(args) > 2 else None
        vec_resize(ex, st, p, v, ex.as_int(args[1]), fv)
        return None
    if meth == 'operator=':
        src = args[1]
        sv = vec_at(ex, st, src, et)
        if params[0].endswith('&&'):
            free_buf(ex, st, v)
            set_vec(ex, st, p, sv)
            set_vec(ex, st, src, VecState(new_arr(ex, st, et, 0), 0, et))
        else:
            free_buf(ex, st, v)
            copy_vec(ex, st, p, sv)
        return p
    if meth == 'swap':
        sv = vec_at(ex, st, args[1])
        set_vec(ex, st, p, sv)
        set_vec(ex, st, args[1], v)
        return None
    if meth == 'assign' and len(args) == 3 and params[0] == 'unsigned long':
        fv = load_elem(ex, st, args[2], et)
        v0 = VecState(new_arr(ex, st, et, 0), 0, et)
        free_buf(ex, st, v)
        set_vec(ex, st, p, v0)
        vec_resize(ex, st, p, v0, ex.as_int(args[1]), fv)
        return None
    if meth == 'erase':
        # single element or range [a,b)
        ob = st.mem[v.buf]
        a = args[1]
        b = args[2] if len(args) > 2 else Ptr(a.obj, a.off + et.stride)
        ia = ex.sdiv(st, a.off, L(et.stride), True)
        ib = ex.sdiv(st, b.off, L(et.stride), True)
        ex.oblige(st, 'vector erase: valid range', z3.And(ia.z() >= 0, ia.z() <= ib.z(), ib.z() <= v.n.z()))
        nn = v.n - (ib - ia)
        fields = {}
        if isinstance(ob, Cells):
            raise Unsupported('erase from a concrete vector')
        if ib.same(v.n):
            set_vec(ex, st, p, VecState(v.buf, nn, et))
            return Ptr(v.buf, ia.scale(et.stride))
        for off, k in et.fields:
            arr = ob.fields[off][1]
            na = fresh('er', kind_sort(k))
            q = z3.Int('k')
            st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(q < ia.z(), z3.Select(arr, q), z3.Select(arr, q + (ib - ia).z())), patterns=[z3.Select(na, q)]))
            fields[off] = (k, na)
        nb = new_arr(ex, st, et, nn, fields, ob.name)
        free_buf(ex, st, v)
        set_vec(ex, st, p, VecState(nb, nn, et))
        return Ptr(nb, ia.scale(et.stride))
    if meth in ('insert', 'emplace') and len(args) == 3 and (meth == 'emplace' or len(params) == 2 and not params[1].startswith('unsigned long')):
        ob = st.mem[v.buf]
        if isinstance(ob, Cells):
            raise Unsupported('insert into a concrete vector')
        i = ex.sdiv(st, args[1].off, L(et.stride), True)
        if args[1].obj != v.buf:
            raise Unsupported('insert: foreign position')
        ex.oblige(st, 'vector insert: valid position', z3.And(i.z() >= 0, i.z() <= v.n.z()))
        vals = conv_vals(ex, st, et, args[2:], targs if meth == 'emplace' else params[1:])
        fields = {}
        for off, k in et.fields:
            arr = ob.fields[off][1]
            na = fresh('ins', kind_sort(k))
            q = z3.Int('k')
            val = zr(ex.scal(vals[off])) if k == 'f64' else zi(ex.as_int(vals[off]))
            st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(q < i.z(), z3.Select(arr, q), z3.If(q == i.z(), val, z3.Select(arr, q - 1))), patterns=[z3.Select(na, q)]))
            fields[off] = (k, na)
        nb = new_arr(ex, st, et, v.n + 1, fields, ob.name)
        free_buf(ex, st, v)
        set_vec(ex, st, p, VecState(nb, v.n + 1, et))
        lab = label_of(st, ex, p)
        if lab is not None and ex.spec is not None:
            ex.spec.on_insert(ex, st, lab, i.z())
        lab = label_of(st, ex, p)
        if lab is not None and ex.spec is not None:
            ex.spec.on_resize(ex, st, lab)
        return Ptr(nb, i.scale(et.stride))
    raise Unsupported('std::vector::%s(%s)' % (meth, ', '.join(params)))


def range_ctor(ex, st, p, et, b, n):
    o = ex.obj(st, b)
    if isinstance(o, Arr):
        base, f0 = ex.decode(o, b.off)
        if f0 != 0 or o.stride != et.stride:
            raise Unsupported('range ctor')
        fields = {}
        if base.const() and base.c == 0:
            fields = dict(o.fields)
        else:
            for off, k in et.fields:
                na = fresh('cp', kind_sort(k))
                q = z3.Int('k')
                st.assume(z3.ForAll([q], z3.Select(na, q) == z3.Select(o.fields[off][1], q + base.z()), patterns=[z3.Select(na, q)]))
                fields[off] = (k, na)
        ex.oblige(st, 'memory: range in bounds', z3.And(n.z() >= 0, base.z() >= 0, base.z() + n.z() <= o.n.z()))
        set_vec(ex, st, p, VecState(new_arr(ex, st, et, n, fields), n, et))
        return None
    if n.const():
        v0 = VecState(None if any(k in ('ptr', 'vec') for _, k in et.fields) else new_arr(ex, st, et, 0), 0, et)
        set_vec(ex, st, p, v0)
        for i in range(n.c):
            vec_push(ex, st, p, vec_at(ex, st, p), load_elem(ex, st, Ptr(b.obj, b.off + i * et.stride), et))
        return None
    raise Unsupported('range ctor')


def memcpy(ex, st, d, s, n):
    if n.const() and n.c == 0:
        return
    do, so = ex.obj(st, d), ex.obj(st, s)
    if n.const() and n.c <= 512 and isinstance(so, Cells) and isinstance(do, Cells) and d.off.const() and s.off.const():
        items = []
        for off, (sz, v) in so.cells.items():
            if s.off.c <= off and off + sz <= s.off.c + n.c:
                items.append((off - s.off.c, sz, v))
        vecs = [(off - s.off.c, v) for off, v in so.vecs.items() if s.off.c <= off < s.off.c + n.c]
        if vecs:
            raise Unsupported('memcpy of a vector')
        o2 = st.mem[ex.key(d)].copy()
        for k in list(o2.cells):
            if d.off.c <= k < d.off.c + n.c:
                del o2.cells[k]
        for off, sz, v in items:
            o2.cells[d.off.c + off] = (sz, v)
            ex.note_write(('cell', ex.key(d), d.off.c + off))
        st.mem[ex.key(d)] = o2
        return
    # element-wise when one side is an array object
    def layout(o, p):
        if isinstance(o, Arr):
            return o.stride, [(off, k) for off, (k, _) in sorted(o.fields.items())]
        return None
    lay = layout(do, d) or layout(so, s)
    if lay is None:
        raise Unsupported('memcpy')
    stride, fields = lay
    if n.const() and n.c // stride <= 16:
        _, f0 = ex.decode(do, d.off) if isinstance(do, Arr) else ex.decode(so, s.off)
        todo = []
        for i in range(n.c // stride + 2):
            for off, k in fields:
                at = i * stride + off - f0
                sz = ex.mod.size(kind_ty(k))
                if at < 0 or at >= n.c:
                    if -sz < at < 0:
                        raise Unsupported('memcpy splits a field')
                    continue
                if at + sz > n.c:
                    raise Unsupported('memcpy splits a field')
                todo.append((at, k, ex.load(st, Ptr(s.obj, s.off + at), kind_ty(k))))
        for at, k, v in todo:
            ex.store(st, Ptr(d.obj, d.off + at), v, kind_ty(k))
        return
    if not (isinstance(do, Arr) and isinstance(so, Arr) and do.stride == so.stride):
        raise Unsupported('memcpy of symbolic length')
    di, f1 = ex.decode(do, d.off)
    si, f2 = ex.decode(so, s.off)
    if f1 or f2:
        raise Unsupported('memcpy inside an element')
    cnt = ex.sdiv(st, n, L(stride), True)
    ex.oblige(st, 'memory: range in bounds', z3.And(cnt.z() >= 0, z3.Or(cnt.z() == 0, z3.And(di.z() >= 0, di.z() + cnt.z() <= do.n.z(), si.z() >= 0, si.z() + cnt.z() <= so.n.z()))))
    o2 = st.mem[ex.key(d)].copy()
    for off, k in fields:
        na = fresh('mc', kind_sort(k))
        q = z3.Int('k')
        sa, da = so.fields[off][1], do.fields[off][1]
        st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(z3.And(q >= di.z(), q < di.z() + cnt.z()), z3.Select(sa, q + (si - di).z()), z3.Select(da, q)), patterns=[z3.Select(na, q)]))
        o2.fields[off] = (k, na)
        ex.note_write(('arr', ex.key(d), off), None)
    st.mem[ex.key(d)] = o2


def try_model(ex, st, name, ins, args):
    if name.startswith('llvm.'):
        return intrinsic(ex, st, name, ins, args)
    if name.startswith('vf_'):
        return harness(ex, st, name, ins, args)
    if name in ('_Znwm', '_Znam'):
        ex.models_used.add('operator new')
        n = ex.as_int(args[0])
        if n.const():
            return Ptr(ex.newobj(st, Cells(n.c, 'heap')), 0)
        # array of 8-byte elements of symbolic count; element kind decided by the first typed access
        kind = ex.opts.get('new_kind', 'i64')
        cnt = ex.exact_div(n, 8)
        return Ptr(ex.newobj(st, Arr(8, {0: (kind, fresh('heap', kind_sort(kind)))}, L.of(cnt), 'heap')), 0)
    if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
        ex.models_used.add('operator delete')
        p = args[0]
        if isinstance(p, Ptr) and p.obj is not None and not isinstance(p.obj, str) and p.obj in st.mem:
            o = st.mem[p.obj].copy(); o.freed = True; st.mem[p.obj] = o
        return None
    if name in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'log2', 'expm1', 'log1p', 'tanh'):
        ex.models_used.add('libm ' + name)
        if ex.opts.get('libm_guard'):
            ex.opts['libm_guard'](ex, st, name, args)
        r = UF('libm_' + name)(zr(args[0]))
        if name == 'sqrt':
            st.assume(z3.Implies(z3.And(zr(args[0]) >= 0, zr(args[0]) != NAN), z3.And(r >= 0, r != NAN)))
        return r
    if name in ('pow', 'fmod', 'atan2'):
        ex.models_used.add('libm ' + name)
        x, y = zr(args[0]), zr(args[1])
        if name == 'fmod':
            ex.oblige(st, 'arithmetic: operand is not the absent-value marker', z3.And(x != NAN, y != NAN))
            r = fmod(x, y)
            st.assume(z3.And(r != NAN, z3.Implies(z3.And(isint(x), isint(y)), isint(r))))
            st.assume(z3.Implies(y != 0, z3.And(z3.Implies(x >= 0, z3.And(r >= 0, r <= x)), z3.Implies(x <= 0, z3.And(r <= 0, r >= x)), z3.If(y > 0, z3.And(r < y, r > -y), z3.And(r > y, r < -y)))))
            return r
        return UF('libm_' + name, 2)(x, y)
    if name in ('rint', 'nearbyint', 'round', 'floor', 'ceil', 'trunc', 'fabs'):
        return rnd(ex, st, name, args[0])
    if name == 'modf':
        x = args[0]
        ex.models_used.add('libm modf')
        if isinstance(x, float):
            fr, ip = math.modf(x)
            ex.store(st, args[1], ip, ll.DOUBLE)
            return fr
        ip = z3.ToReal(ex.trunc_real(x))
        ex.int_fact(st, x)
        st.assume(isint(ip))
        ex.store(st, args[1], ip, ll.DOUBLE)
        st.assume(z3.Implies(zr(x) != NAN, z3.And(x - ip != NAN, ip != NAN)))
        return x - ip
    if name in ('memcmp', 'bcmp'):
        ex.models_used.add(name)
        n = ex.as_int(args[2])
        if n.const() and n.c == 0:
            return L(0)
        same = []
        if n.const() and n.c % 8 == 0 and n.c <= 256:
            for i in range(0, n.c, 8):
                x, y = (ex.as_int(ex.load(st, Ptr(a.obj, a.off + i), ll.INT(64))) for a in args[:2])
                d = x - y
                same.append(z3.BoolVal(d.c == 0) if d.const() else x.z() == y.z())
        else:
            oa, ob = ex.obj(st, args[0]), ex.obj(st, args[1])
            if not (isinstance(oa, Arr) and isinstance(ob, Arr) and oa.stride == ob.stride == 8 and oa.fields[0][0] == ob.fields[0][0] == 'i64'):
                raise Unsupported('memcmp')
            ia, f1 = ex.decode(oa, args[0].off)
            ib, f2 = ex.decode(ob, args[1].off)
            cnt = ex.sdiv(st, n, L(8), True)
            ex.oblige(st, 'memory: range in bounds', z3.Or(cnt.z() == 0, z3.And(cnt.z() >= 0, ia.z() >= 0, ia.z() + cnt.z() <= oa.n.z(), ib.z() >= 0, ib.z() + cnt.z() <= ob.n.z())))
            same.append(forall(0, cnt.z(), lambda k: z3.Select(oa.fields[0][1], ia.z() + k) == z3.Select(ob.fields[0][1], ib.z() + k)))
        c = z3.simplify(z3.And(*same)) if all(not has_quant(x) for x in same) else z3.And(*same)
        if z3.is_true(c):
            return L(0)
        if z3.is_false(c):
            return L(1)
        r = fresh('memcmp')
        st.assume((r == 0) == c)
        return L.of(r)
    if name in ('lldiv', 'ldiv', 'div'):
        q = ex.sdiv(st, ex.as_int(args[0]), ex.as_int(args[1]), False)
        a, b = ex.as_int(args[0]), ex.as_int(args[1])
        ex.models_used.add('std::div')
        r = a - (q.scale(b.c) if b.const() else L.of(q.z() * b.z()))
        return [q, r]
    if name == '__cxa_guard_acquire':
        return L(0)
    if name in ('__cxa_guard_release', '__cxa_atexit'):
        return None
    if name == '__dynamic_cast':
        return dyncast(ex, st, args)
    dem = ex.dem(name)
    m = parse_member(dem, 'vector')
    if m and m[1] in NOINLINE_VECTOR:
        return model_vector(ex, st, dem, m, args, ins)
    if ex.opts.get('contracts'):
        for pat, fn in ex.opts['contracts']:
            if re.search(pat, dem):
                return fn(ex, st, dem, ins, args)
    for pat, fn in ALGOS:
        if pat.search(dem):
            return fn(ex, st, dem, ins, args)
    return NOT_MODELLED



def fmod(x, y):
    if BOUNDED[0]:
        q = x / y
        return x - y * z3.ToReal(z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q)))
    return UF('libm_fmod', 2)(x, y)


def rnd(ex, st, name, x):
    ex.models_used.add('libm ' + name)
    if isinstance(x, float):
        return {'rint': lambda v: float(round(v)), 'nearbyint': lambda v: float(round(v)), 'floor': lambda v: float(math.floor(v)), 'ceil': lambda v: float(math.ceil(v)),
                'trunc': lambda v: float(math.trunc(v)), 'fabs': abs, 'round': lambda v: float(math.floor(abs(v) + .5)) * (1 if v >= 0 else -1)}[name](x)
    x = zr(x)
    if name == 'fabs':
        r = z3.If(x == NAN, NAN, z3.If(x >= 0, x, -x))
        st.assume(z3.Implies(x != NAN, r != NAN))
        return r
    if name == 'floor':
        r = z3.ToReal(z3.ToInt(x))
    elif name == 'ceil':
        r = -z3.ToReal(z3.ToInt(-x))
    elif name == 'trunc':
        r = z3.ToReal(ex.trunc_real(x))
    elif name == 'round':
        r = z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(-x + z3.RealVal('1/2'))))
    elif name in ('rint', 'nearbyint'):
        fl = z3.ToInt(x)
        d = x - z3.ToReal(fl)
        h = z3.RealVal('1/2')
        r = z3.ToReal(z3.If(d < h, fl, z3.If(d > h, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
    st.assume(r != NAN)
    if not BOUNDED[0]:
        st.assume(z3.And(isint(r), isint(x) == (x == r)))
    return r


def intrinsic(ex, st, name, ins, args):
    b = name.split('.')
    if b[1] in ('memcpy', 'memmove'):
        memcpy(ex, st, args[0], args[1], ex.as_int(args[2]))
        return None
    if b[1] == 'memset':
        d, n = args[0], ex.as_int(args[2])
        v = ex.as_int(args[1])
        o = ex.obj(st, d)
        if n.const() and isinstance(o, Cells) and v.const() and v.c == 0 and d.off.const():
            o2 = o.copy()
            for k in list(o2.cells):
                if d.off.c <= k < d.off.c + n.c:
                    del o2.cells[k]
            step = 8 if n.c % 8 == 0 and d.off.c % 8 == 0 else 1
            for i in range(0, n.c, step):
                o2.cells[d.off.c + i] = (step, L(0))
                ex.note_write(('cell', ex.key(d), d.off.c + i))
            st.mem[ex.key(d)] = o2
            return None
        if isinstance(o, Arr) and v.const() and v.c == 0:
            di, f = ex.decode(o, d.off)
            cnt = ex.sdiv(st, n, L(o.stride), True)
            ex.oblige(st, 'memory: range in bounds', z3.Or(cnt.z() == 0, z3.And(cnt.z() >= 0, di.z() >= 0, di.z() + cnt.z() <= o.n.z())))
            o2 = o.copy()
            for off, (k, a) in o.fields.items():
                na = fresh('ms', kind_sort(k))
                q = z3.Int('k')
                zero = z3.RealVal(0) if k == 'f64' else z3.IntVal(0)
                st.assume(z3.ForAll([q], z3.Select(na, q) == z3.If(z3.And(q >= di.z(), q < di.z() + cnt.z()), zero, z3.Select(a, q)), patterns=[z3.Select(na, q)]))
                o2.fields[off] = (k, na)
                ex.note_write(('arr', ex.key(d), off), None)
            st.mem[ex.key(d)] = o2
            return None
        raise Unsupported('memset')
    if b[1:3] == ['is', 'fpclass']:
        mask = ex.as_int(args[1]).c
        x = args[0]
        if mask == 3:
            if isinstance(x, float):
                return math.isnan(x)
            if x is UNDEF:
                return fresh('undef', 'B')
            return x == NAN
        if mask == 516:
            if isinstance(x, float):
                return math.isinf(x)
            return z3.Or(x == POSINF, x == NEGINF)
        raise Unsupported('fpclass %d' % mask)
    if b[1] in ('smax', 'smin', 'umax', 'umin'):
        x, y = ex.as_int(args[0]), ex.as_int(args[1])
        c = ex.icmp(st, {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b[1]], ins.ty, x, y)
        if isinstance(c, bool):
            return x if c else y
        return L.of(z3.If(c, x.z(), y.z()))
    if b[1] == 'abs':
        x = ex.as_int(args[0])
        if x.const():
            return L(abs(x.c))
        return L.of(z3.If(x.z() >= 0, x.z(), -x.z()))
    if b[1] in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
        return rnd(ex, st, b[1], args[0])
    if b[1] in ('sqrt', 'exp', 'log', 'sin', 'cos'):
        return UF('libm_' + b[1])(zr(args[0]))
    if b[1] in ('fmuladd', 'fma'):
        return ex.fbin(st, 'fadd', ex.fbin(st, 'fmul', args[0], args[1]), args[2])
    if b[1] == 'pow':
        return UF('libm_pow', 2)(zr(args[0]), zr(args[1]))
    if b[1] in ('maxnum', 'minnum'):
        x, y = zr(args[0]), zr(args[1])
        return z3.If(x > y, x, y) if b[1] == 'maxnum' else z3.If(x < y, x, y)
    if b[1] == 'expect':
        return args[0]
    if b[1] in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and b[2:4] == ['with', 'overflow']:
        x, y = ex.as_int(args[0]), ex.as_int(args[1])
        op = b[1][1:]
        r = L.of(x.z() * y.z()) if not (x.const() or y.const()) and op == 'mul' else (x.scale(y.c) if op == 'mul' and y.const() else y.scale(x.c) if op == 'mul' else x + y if op == 'add' else x - y)
        # allocation-size computations: treated as not overflowing (assumption: allocation succeeds)
        ex.models_used.add('array-new size computation does not overflow')
        return [r, False]
    if b[1] in ('trap', 'ubsantrap'):
        ex.oblige(st, 'control: trap not reached', False)
        return None
    if b[1] in ('stacksave', 'stackrestore', 'va_start', 'va_end', 'prefetch', 'invariant', 'launder', 'donothing'):
        return None
    if b[1] == 'eh':
        return L(0)
    if name.startswith('llvm.is.constant'):
        return False
    raise Unsupported('intrinsic ' + name)


def fix_len(ex, st, what):
    """symbolic lengths; in bounded mode a fork over small lengths"""
    if ex.bounded is None:
        n = fresh('len_' + what)
        st.assume(z3.And(n >= 0, n < 2 ** 40))
        return [(True, L.of(n))]
    return [(True, L(i)) for i in range(ex.bounded.get('len', {}).get(what, ex.bounded.get('maxlen', 2)) + 1)]


def harness(ex, st, name, ins, args):
    if name in ('vf_i64', 'vf_f64', 'vf_bool'):
        nm = cstring(ex, st, args[0])
        if name == 'vf_i64':
            if ex.bounded is not None and nm in ex.bounded.get('ints', {}):
                vals = ex.bounded['ints'][nm]

                def mk(c):
                    def act(s):
                        s.snaps.setdefault('inputs', {})
                        s.snaps['inputs'] = dict(s.snaps['inputs'], **{nm: z3.IntVal(c)})
                        return L(c)
                    return act
                return Forks([(True, mk(c)) for c in vals])
            x = fresh(nm)
            st.assume(z3.And(x >= -I63, x < I63))
            st.snaps['inputs'] = dict(st.snaps.get('inputs', {}), **{nm: x})
            return L.of(x)
        if name == 'vf_f64':
            x = fresh(nm, 'R')
            st.snaps['inputs'] = dict(st.snaps.get('inputs', {}), **{nm: x})
            st.assume(x != NAN)
            return x
        x = fresh(nm, 'B')
        st.snaps['inputs'] = dict(st.snaps.get('inputs', {}), **{nm: x})
        return x
    if name == 'vf_assume':
        c = ex.tobool(args[0])
        if isinstance(c, bool):
            if not c:
                return Forks([])
            return None
        st.assume(c)
        if not ex.feasible(st):
            return Forks([])
        return None
    if name == 'vf_assert':
        ex.oblige(st, cstring(ex, st, args[1]), zb(ex.tobool(args[0])))
        return None
    if name in ('vf_vec_d', 'vf_vec_u', 'vf_vec_i', 'vf_vec_n', 'vf_vec_c'):
        nm = cstring(ex, st, args[1])
        et = {'vf_vec_d': ELEM['double'], 'vf_vec_u': ELEM['dwave::optimization::Update'], 'vf_vec_i': ELEM['long'], 'vf_vec_n': ELEM['int'], 'vf_vec_c': ELEM['std::pair<int, double>']}[name]
        p = args[0]

        def mk(n):
            def act(s):
                fields = {off: (k, fresh(nm + str(off), kind_sort(k))) for off, k in et.fields}
                b = new_arr(ex, s, et, n, fields, nm)
                set_vec(ex, s, p, VecState(b, n, et))
                s.labels = dict(s.labels)
                s.labels[(ex.key(p), p.off.c)] = nm
                s.labels[nm] = p
                return None
            return act
        opts = fix_len(ex, st, nm)
        if len(opts) == 1:
            mk(opts[0][1])(st)
            return None
        return Forks([(c, mk(n)) for c, n in opts])
    if name in ('vf_arr_d', 'vf_arr_i'):
        nm = cstring(ex, st, args[0])
        n = ex.as_int(args[1])
        k = 'f64' if name == 'vf_arr_d' else 'i64'
        a = fresh(nm, kind_sort(k))
        if nm in ex.opts.get('scaled', {}):     # contents are multiples: the array holds the factors
            k = 'i64s%d' % ex.opts['scaled'][nm]
        b = ex.newobj(st, Arr(8, {0: (k, a)}, n, nm))
        st.labels[nm] = Ptr(b, 0)
        return Ptr(b, 0)
    if name == 'vf_focus':
        # (vector header, element size, index, name): that element of the vector is an object of its own
        p, stride, idx, nm = args[0], ex.as_int(args[1]).c, ex.as_int(args[2]), cstring(ex, st, args[3])
        v = ex.obj(st, p).vecs.get(p.off.c)
        if v is None or not isinstance(st.mem.get(v.buf), Focus):
            n = fresh('len_' + nm)
            st.assume(z3.And(n >= 0, n < 2 ** 40))
            b = ex.newobj(st, Focus(stride, n, [], nm))
            v = VecState(b, n, ElemTy('?', stride, []))
            set_vec(ex, st, p, v)
        o = st.mem[v.buf].copy()
        st.assume(z3.And(idx.z() >= 0, idx.z() < o.n.z()))
        for j, _ in o.items:
            st.assume(j.z() != idx.z())
        b = ex.newobj(st, Cells(stride, nm))
        o.items.append((idx, b))
        st.mem[v.buf] = o
        st.labels[nm] = Ptr(b, 0)
        st.labels[nm + '[]'] = Ptr(v.buf, 0)
        st.snaps['inputs'] = dict(st.snaps.get('inputs', {}), **{'n_' + nm: o.n.z()})
        return Ptr(b, 0)
    if name == 'vf_heap':
        # (prototype, size, number, name): that many objects of the prototype's class
        o, n, nm = ex.obj(st, args[0]), ex.as_int(args[2]), cstring(ex, st, args[3])
        fields = {off: ('const', v) for off, (sz, v) in o.cells.items() if isinstance(v, Ptr) and isinstance(v.obj, str)}
        h = ex.newobj(st, Arr(ex.as_int(args[1]).c, fields, n, nm))
        st.labels[nm] = Ptr(h, 0)
        return Ptr(h, 0)
    if name == 'vf_field':
        # (heap, offset, bytes (0: double), name): these members of the objects are arbitrary
        h, off, nm = args[0].obj, ex.as_int(args[1]).c, cstring(ex, st, args[3])
        k = {0: 'f64', 1: 'i8', 4: 'i32', 8: 'i64'}[ex.as_int(args[2]).c]
        o = st.mem[h].copy()
        o.fields[off] = (k, fresh(nm, kind_sort(k)))
        st.mem[h] = o
        st.labels[nm] = Ptr(h, off)
        return None
    if name == 'vf_nullable':
        ex.nullable.add(args[0].obj)
        return None
    if name in ('vf_call', 'vf_callb'):
        # (pattern, arguments): the function with that name, such as a lambda of the code under contract
        pat = cstring(ex, st, args[0])
        fs = [f for f in ex.mod.funcs if re.search(pat, ex.dem(f))]
        if len(fs) != 1:
            raise Unsupported('%d functions named %s' % (len(fs), pat))
        ex.call_func(st, fs[0], args[1:], ins.dst, ins.a['n'] if ins.op == 'invoke' else None)
        return FORKED
    if name in ('vf_refs', 'vf_rows', 'vf_reffield'):
        # vector (of a state; of every object of a heap at an offset; member) of pointers to objects of a heap
        p, h, d, nm = args[0], args[1].obj, ex.as_int(args[2]).c, cstring(ex, st, args[3])
        kind = 'ref:%d:%d' % (h, d)
        if name == 'vf_refs':
            n = fresh('len_' + nm)
            et = ElemTy('ref', 8, [(0, kind)])

            def mk(n):
                def act(s):
                    ex.obj(s, p)
                    b = new_arr(ex, s, et, n, {0: (kind, fresh(nm, AI))}, nm)
                    set_vec(ex, s, p, VecState(b, n, et))
                    s.labels = dict(s.labels)
                    s.labels[(ex.key(p), p.off.c)] = nm
                    s.labels[nm] = p
                    return None
                return act
            opts = fix_len(ex, st, nm)
            if len(opts) == 1:
                mk(opts[0][1])(st)
                return None
            return Forks([(c, mk(n)) for c, n in opts])
        o = st.mem[p.obj].copy()
        idx, off = ex.decode(o, p.off)
        if name == 'vf_reffield':
            o.fields[off] = (kind, fresh(nm, AI))
        else:
            stride = ex.as_int(args[4]).c
            et = ElemTy('ref', stride, [(0, kind)] + ([(8, 'i32')] if stride == 16 else []))
            k = 'row%s:%d' % (nm, h)
            ex.rowtypes[k] = (et, {f: z3.FreshConst(z3.ArraySort(z3.IntSort(), AI), nm) for f, _ in et.fields})
            o.fields[off] = (k, fresh('len_' + nm, AI))
        st.mem[p.obj] = o
        st.labels[nm] = Ptr(p.obj, off)
        return None
    if name == 'vf_label':
        nm = cstring(ex, st, args[1])
        p = args[0]
        st.labels[nm] = p
        if p.off.const():
            st.labels[(ex.key(p), p.off.c)] = nm
        return None
    if name == 'vf_pre':
        nm = cstring(ex, st, args[0])
        st.snaps[nm] = st.copy()
        ex.spec.pre(View(ex, st), nm)
        if not ex.feasible(st):
            return Forks([])
        return None
    if name == 'vf_point':
        nm = cstring(ex, st, args[0])
        st.snaps[nm] = st.copy()
        r = ex.spec.point(View(ex, st), nm)
        return None
    raise Unsupported(name)


def dyncast(ex, st, args):
    """dynamic_cast to a pointer: the run-time type information of the object is read from the program"""
    p, dst = args[0], args[2]
    if p.obj is None:
        return NULL
    vt = ex.load(st, p, ll.PTR)
    top = ex.load(st, Ptr(vt.obj, vt.off - 16), ll.INT(64))
    ti = ex.load(st, Ptr(vt.obj, vt.off - 8), ll.PTR)
    found, found_elsewhere = set(), []

    def bases(ti, off):
        if ti.obj == dst.obj:
            found.add(off.c)
            return
        kind = getattr(ex.load(st, ti, ll.PTR), 'obj', None)
        if kind is None:        # defined elsewhere
            found_elsewhere.append(ti.obj)
        elif '__si_class' in str(kind):
            bases(ex.load(st, Ptr(ti.obj, 16), ll.PTR), off)
        elif '__vmi_class' in str(kind):
            for k in range(ex.load(st, Ptr(ti.obj, 20), ll.INT(32)).c):
                fl = ex.load(st, Ptr(ti.obj, 24 + 16 * k + 8), ll.INT(64)).c
                d = L(fl >> 8)
                if fl & 1:
                    v = ex.load(st, Ptr(p.obj, off), ll.PTR)
                    d = ex.load(st, Ptr(v.obj, v.off + (fl >> 8)), ll.INT(64))
                bases(ex.load(st, Ptr(ti.obj, 24 + 16 * k), ll.PTR), off + d)
        elif '__class_type_info' not in str(kind):
            raise Unsupported('dynamic_cast: %s' % kind)
    bases(ti, p.off + top)
    if not found and found_elsewhere:
        raise Unsupported('dynamic_cast: classes defined elsewhere: %s' % found_elsewhere)
    if len(found) > 1:
        raise Unsupported('dynamic_cast: ambiguous base')
    return Ptr(p.obj, found.pop()) if found else NULL


class VecV:
    def __init__(self, n, arrs, off=None):
        self.n = n
        self.a = arrs

    def at(self, k, f=0):
        return simp_select(z3.Select(self.a[f], zi(k)))


class View:
    """named access to a symbolic state, for specifications"""

    def __init__(self, ex, st):
        self.ex = ex
        self.st = st

    def member(self, label):
        """a member of the objects of a heap, as an array over the objects"""
        p = self.st.labels[label]
        return self.st.mem[p.obj].fields[p.off.c][1]

    def row(self, label, k, f=0):
        p = self.st.labels[label]
        return z3.Select(self.ex.rowtypes[self.st.mem[p.obj].fields[p.off.c][0]][1][f], zi(k))

    def vec(self, label):
        p = self.st.labels[label] if isinstance(label, str) else label
        o = self.ex.obj(self.st, p)
        if isinstance(o, Arr):
            return VecV(o.n.z(), {off: a for off, (k, a) in o.fields.items()})
        if p.off.c not in o.vecs:       # a plain block of memory with a concrete size
            a = z3.Const('none', AI)
            for k in range(0, o.size, 8):
                if k in o.cells:
                    x = o.cells[k][1]
                    if isinstance(x, float) or (z3.is_expr(x) and z3.is_real(x)):
                        if a.sort() == AI:
                            a = z3.Const('noner', AR)
                        a = z3.Store(a, z3.IntVal(k // 8), zr(x))
                    else:
                        a = z3.Store(a, z3.IntVal(k // 8), zi(self.ex.as_int(x)))
            return VecV(z3.IntVal(o.size // 8), {0: a})
        v = o.vecs[p.off.c]
        if v.buf is None:
            return VecV(z3.IntVal(0), {off: fresh('none', kind_sort(k)) for off, k in v.et.fields})
        b = self.st.mem[v.buf]
        return VecV(v.n.z(), {off: a for off, (k, a) in b.fields.items()})

    def arr(self, label):
        return lambda k: self.i(label, 8 * k)

    def i(self, label, off=0):
        p = self.st.labels[label]
        return zi(self.ex.as_int(self.ex.load(self.st, Ptr(p.obj, p.off + off), ll.INT(64))))

    def i32(self, label, off=0):
        p = self.st.labels[label]
        return zi(self.ex.as_int(self.ex.load(self.st, Ptr(p.obj, p.off + off), ll.INT(32))))

    def r(self, label, off=0):
        p = self.st.labels[label]
        return zr(self.ex.load(self.st, Ptr(p.obj, p.off + off), ll.DOUBLE))

    def b(self, label, off=0):
        p = self.st.labels[label]
        return zb(self.ex.tobool(self.ex.load(self.st, Ptr(p.obj, p.off + off), ll.INT(8))))

    def inp(self, name):
        return self.st.snaps['inputs'][name]

    def at(self, snap):
        return View(self.ex, self.st.snaps[snap])

    def assume(self, f, tag=None):
        self.st.assume(zb(f))

    def lemma(self, name, f, using=None):
        """proved here (from the facts `using`, which are assumed already, or from everything), then available"""
        if using is None:
            self.ex.oblige(self.st, 'lemma: ' + name, zb(f))
        else:
            ids = {x.get_id() for x in self.st.pc}
            assert all(zb(u).get_id() in ids for u in using), name
            keep, self.st.pc = self.st.pc, [zb(u) for u in using]
            self.ex.oblige(self.st, 'lemma: ' + name, zb(f))
            self.st.pc = keep
        self.st.assume(zb(f))

    def ghost(self, name, v=None):
        if v is not None:
            ghost_set(self.ex, self.st, name, v)
        return self.st.ghost[name]


_q = [0]


def pat_ok(t):
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE):
            return False
        return all(pat_ok(c) for c in t.children())
    return True


def forall(lo, hi, fn, pats=None, name='k'):
    """for all lo <= k < hi: expanded when the range is concrete"""
    l, h = L.of(zi(lo) if not isinstance(lo, L) else lo), L.of(zi(hi) if not isinstance(hi, L) else hi)
    l = L.of(z3.simplify(l.z())); h = L.of(z3.simplify(h.z()))
    if l.const() and h.const() and h.c - l.c <= 12:
        return z3.And([zb(fn(z3.IntVal(i))) for i in range(l.c, h.c)]) if h.c > l.c else z3.BoolVal(True)
    _q[0] += 1
    q = z3.Int('%s!q%d' % (name, _q[0]))
    body = z3.Implies(z3.And(q >= l.z(), q < h.z()), zb(fn(q)))
    if pats:
        ps = [p if isinstance(p, list) else [p] for p in pats(q)]
        ps = [p for p in ps if all(pat_ok(t) for t in p)]
        if ps:
            return z3.ForAll([q], body, patterns=[z3.MultiPattern(*p) for p in ps])
    return z3.ForAll([q], body)


def conc(x):
    x = z3.simplify(zi(x))
    return x.as_long() if z3.is_int_value(x) else None


PROD = z3.Function('Prod', AI, z3.IntSort(), z3.IntSort(), z3.IntSort())


def algo_reduce(ex, st, dem, ins, args):
    """std::reduce / std::accumulate over contiguous 64-bit integers with multiplies or plus, accumulated in 64 bits"""
    m = re.match(r'long std::(reduce|accumulate)<long(?: const)?\*, long, std::(multiplies|plus)<(?:long|void)> ?>', dem)
    if not m or m.group(2) != 'multiplies':
        raise Unsupported(dem[:80])
    ex.models_used.add('std::%s (product of 64-bit integers)' % m.group(1))
    b, e = args[0], args[1]
    o = ex.obj(st, b)
    n = ex.sdiv(st, e.off - b.off, L(8), True)
    if isinstance(o, Cells):
        if not n.const():
            raise Unsupported('reduce over concrete memory of symbolic length')
        r = ex.as_int(args[2])
        for k in range(n.c):
            x = ex.as_int(ex.load(st, Ptr(b.obj, b.off + 8 * k), ll.INT(64)))
            r = r.scale(x.c) if x.const() else x.scale(r.c) if r.const() else L.of(r.z() * x.z())
        return r
    lo, f = ex.decode(o, b.off)
    hi = lo + n
    ex.oblige(st, 'memory: range in bounds', z3.Or(n.z() == 0, z3.And(lo.z() >= 0, n.z() >= 0, hi.z() <= o.n.z())))
    a = o.fields[f][1]
    init = ex.as_int(args[2])
    if lo.const() and hi.const():
        r = init.z()
        for k in range(lo.c, hi.c):
            r = r * z3.Select(a, k)
        return L.of(z3.simplify(r))
    r = PROD(a, lo.z(), hi.z())
    return L.of(r) if init.const() and init.c == 1 else L.of(init.z() * r)


GCD = z3.Function('Gcd', z3.IntSort(), z3.IntSort(), z3.IntSort())


def algo_gcd(ex, st, dem, ins, args):
    if not re.match(r'(std::common_type<long, long>::type|long) std::gcd<long, long>', dem):
        raise Unsupported(dem[:80])
    ex.models_used.add('std::gcd (positive common divisor with coprime quotients)')
    a, b = ex.as_int(args[0]).z(), ex.as_int(args[1]).z()
    g, qa, qb = GCD(a, b), fresh('qa'), fresh('qb')
    st.assume(z3.Implies(z3.Or(a != 0, b != 0), z3.And(g >= 1, a == g * qa, b == g * qb, GCD(qa, qb) == 1, GCD(-qa, -qb) == 1, GCD(qa, -qb) == 1)))
    st.assume(z3.Implies(z3.And(a == 0, b == 0), g == 0))
    st.assume(z3.Implies(g == 1, z3.And(GCD(-a, -b) == 1)))
    ex.known_div[(a.get_id(), g.get_id())] = (a, g, qa)
    ex.known_div[(b.get_id(), g.get_id())] = (b, g, qb)
    return L.of(g)


def algo_string(ex, st, dem, ins, args):
    ex.models_used.add('std::string (error messages only: contents not modelled)')
    if ins.ty is not None and ins.ty.k == 'ptr':
        return args[0] if args else NULL
    return None


def algo_release(ex, st, dem, ins, args):
    ex.models_used.add('std::shared_ptr release (no effect on the state the contracts speak about)')
    return None


def algo_uniform(ex, st, dem, ins, args):
    """any value of the closed range; the range must not be empty"""
    m = re.search(r'std::uniform_(int|real)_distribution<([\w ]+)>::operator\(\)<', dem)
    kind, t = m.group(1), m.group(2)
    if len(args) != 2:
        raise Unsupported('distribution with explicit parameters')
    p = args[0]
    ex.models_used.add('std::uniform_%s_distribution (any value of its range)' % kind)
    if kind == 'real':
        a, b = zr(ex.load(st, p, ll.DOUBLE)), zr(ex.load(st, Ptr(p.obj, p.off + 8), ll.DOUBLE))
        x = fresh('draw', 'R')
        ex.oblige(st, 'random choice: the range is not empty', a <= b)
        st.assume(z3.And(a <= x, x <= b, x != NAN))
        return x
    w = {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}[t]
    ty = ll.INT(8 * w)
    a, b = ex.as_int(ex.load(st, p, ty)).z(), ex.as_int(ex.load(st, Ptr(p.obj, p.off + w), ty)).z()
    x = fresh('draw')
    ok = a <= b if 'unsigned' not in t else z3.And(a >= 0, a <= b)
    ex.oblige(st, 'random choice: the range is not empty', ok)
    st.assume(z3.And(a <= x, x <= b))
    return L.of(x)


USET_PAT = re.compile(r'^(.* )?std::unordered_set<.*>::(~?unordered_set|size|count|insert|contains)\b')


def algo_uset(ex, st, dem, ins, args):
    """std::unordered_set<double> / <unsigned long>: a mathematical set with its number of elements"""
    m = parse_member(dem, 'unordered_set')
    if not m:
        raise Unsupported(dem[:80])
    elem, meth, targs, params = m
    sort, k, ty = {'double': (z3.RealSort(), 'f64', ll.DOUBLE), 'unsigned long': (z3.IntSort(), 'i64', ll.INT(64))}.get(elem, (None, None, None))
    if sort is None or not args[0].off.const():
        raise Unsupported('unordered_set of ' + elem)
    ex.models_used.add('std::unordered_set<%s>' % elem)
    key = '%s+%s' % (ex.key(args[0]), args[0].off.c)
    S, N = 'uset:' + key, 'usetn:' + key
    SS = z3.ArraySort(sort, z3.BoolSort())
    if meth == '~unordered_set':
        return None
    if meth == 'unordered_set':
        if len(args) == 1:
            ghost_set(ex, st, S, z3.K(sort, z3.BoolVal(False)))
            ghost_set(ex, st, N, z3.IntVal(0))
            return None
        b, e = args[1], args[2]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and '__normal_iterator<%s*' % elem in dem.replace(' const', '')):
            raise Unsupported('unordered_set constructor')
        o = ex.obj(st, b)
        n = ex.sdiv(st, e.off - b.off, L(8), True)
        base, f = ex.decode(o, b.off)
        if not (base.const() and base.c == 0):
            raise Unsupported('unordered_set of a part of a vector')
        a = o.fields[f][1]
        s, c, w = fresh('uset', SS), fresh('usetn'), z3.Function('where_%s' % fresh('w').decl().name(), sort, z3.IntSort())
        if n.const():
            s = z3.K(sort, z3.BoolVal(False)); cnt = z3.IntVal(0)
            for i in range(n.c):
                x = z3.Select(a, i)
                cnt = cnt + z3.If(z3.Select(s, x), 0, 1); s = z3.Store(s, x, z3.BoolVal(True))
            ghost_set(ex, st, S, s); ghost_set(ex, st, N, z3.simplify(cnt))
            return None
        i, j, x = z3.Int('ui'), z3.Int('uj'), z3.Const('ux', sort)
        nz = n.z()
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nz), z3.Select(s, z3.Select(a, i))), patterns=[z3.Select(a, i)]))
        st.assume(z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.And(0 <= w(x), w(x) < nz, z3.Select(a, w(x)) == x)), patterns=[z3.Select(s, x)]))
        st.assume(z3.And(0 <= c, c <= nz))
        # as many elements as values exactly if no two values are equal
        d1, d2 = fresh('ud'), fresh('ud')
        st.assume(z3.Implies(c == nz, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nz), z3.Select(a, i) != z3.Select(a, j)), patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))])))
        st.assume(z3.Implies(c != nz, z3.And(0 <= d1, d1 < d2, d2 < nz, z3.Select(a, d1) == z3.Select(a, d2))))
        ghost_set(ex, st, S, s); ghost_set(ex, st, N, c)
        if hasattr(ex.spec, 'on_uset'):
            ex.spec.on_uset(ex, st, s, c)
        return None
    if S not in st.ghost:
        raise Unsupported('unordered_set: not constructed')
    if meth == 'size':
        return L.of(st.ghost[N])
    x = ex.load(st, args[1], ty) if meth != 'insert' else None
    if meth in ('count', 'contains'):
        x = zr(x) if k == 'f64' else ex.as_int(x).z()
        q = z3.Select(st.ghost[S], x)
        return L.of(z3.If(q, z3.IntVal(1), z3.IntVal(0))) if meth == 'count' else q
    raise Unsupported('unordered_set::' + meth)


ALGOS = [(USET_PAT, algo_uset), (re.compile(r'std::_Sp_counted_base<.*>::_M_release'), algo_release), (re.compile(r'std::uniform_(int|real)_distribution<[\w ]+>::operator\(\)<'), algo_uniform), (re.compile(r'(^| )std::gcd<'), algo_gcd), (re.compile(r'^std::__cxx11::|shape_to_string|std::operator\+<char|(^| )std::(__cxx11::)?to_string\('), algo_string), (re.compile(r'(^| )std::(reduce|accumulate)<(?!__gnu_cxx::__normal_iterator<dwave)'), algo_reduce)]
