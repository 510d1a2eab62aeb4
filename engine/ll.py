"""Parser for the subset of textual LLVM-18 IR that the VC generator executes."""
import re
import struct as _struct

TOK = re.compile(r'''
   (?P<ws>\s+|;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")(?!:)
 | (?P<loc>[%@](?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:"[^"]*"|[-\w.$]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError("tokenize at %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'bits', 'elem', 'n', 'fields', 'name', 'packed')

    def __init__(self, k, **kw):
        self.k = k
        for a in ('bits', 'elem', 'n', 'fields', 'name', 'packed'):
            setattr(self, a, kw.get(a))

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.bits
        if self.k == 'named':
            return '%' + self.name
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.fields))
        return self.k


PTR = Ty('ptr')
DOUBLE = Ty('double')
FLOAT = Ty('float')
VOID = Ty('void')
INTS = {}


def INT(b):
    if b not in INTS:
        INTS[b] = Ty('int', bits=b)
    return INTS[b]


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise ParseError("expected %r got %r in %r" % (v, self.peek(), ' '.join(x[1] for x in self.t[:40])))

    def eof(self):
        return self.i >= len(self.t)

    def is_type(self):
        k, v = self.peek()
        if k == 'word':
            return v in ('ptr', 'double', 'float', 'void', 'label', 'metadata', 'token', 'x86_fp80', 'opaque') or re.fullmatch(r'i\d+', v)
        if k == 'loc' and v[0] == '%':
            return True
        return v in ('[', '{', '<')

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
                t = PTR
            elif v in ('double', 'x86_fp80'):       # numbers are treated as real whatever their format
                t = DOUBLE
            elif v == 'float':
                t = FLOAT
            elif re.fullmatch(r'i\d+', v):
                t = INT(int(v[1:]))
            elif v == 'void':
                t = VOID
            else:
                t = Ty(v)
        elif k == 'loc':
            t = Ty('named', name=unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp(']')
            t = Ty('array', n=n, elem=e)
        elif v == '{':
            fs = []
            while not self.acc('}'):
                fs.append(self.type()); self.acc(',')
            t = Ty('struct', fields=fs)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); fs = []
                while not self.acc('}'):
                    fs.append(self.type()); self.acc(',')
                self.exp('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next()[1]); self.exp('x'); e = self.type(); self.exp('>')
                t = Ty('vec', n=n, elem=e)
        else:
            raise ParseError('type? %r %r' % (k, v))
        # function type suffix
        while self.peek()[1] == '(' and t.k in ('void', 'int', 'ptr', 'double', 'float', 'struct', 'named') and self._looks_fn_type():
            self.skip_parens()
            t = Ty('fn', elem=t)
        return t

    def _looks_fn_type(self):
        # "(...)" directly after a type and followed by a value token: function type of a call
        j = self.i
        depth = 0
        while j < len(self.t):
            v = self.t[j][1] if self.t[j][0] != 'str' else ''
            if v == '(':
                depth += 1
            elif v == ')':
                depth -= 1
                if depth == 0:
                    break
            j += 1
        nx = self.t[j + 1] if j + 1 < len(self.t) else ('eof', '')
        return nx[0] == 'loc'

    def skip_parens(self):
        self.exp('(')
        d = 1
        while d:
            k, v = self.next()
            if k == 'eof':
                raise ParseError('eof in parens')
            if k == 'str':
                continue
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned
      immarg nest swiftself nofree inrange writable dead_on_unwind nounwind tail musttail notail fastcc ccc coldcc
      dso_local local_unnamed_addr unnamed_addr captures range allocalign allocptr nneg'''.split())
    PATTRS = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated inalloca captures range memory nofpclass'.split())

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.PATTRS:
                self.next()
                if self.peek()[1] == '(':
                    self.skip_parens()
                elif v == 'align':
                    self.next()
                continue
            if k == 'word' and v in self.ATTRS:
                self.next()
                continue
            break

    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('reg', v[1:]) if v[0] == '%' else ('glob', unq(v))
        if k == 'num':
            if ty.k in ('double', 'float'):
                return ('fp', parse_fp(v))
            return ('int', int(v))
        if k == 'str':
            return ('bytes', cstr(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        self.skip_parens()
                self.exp('(')
                bt = self.type(); self.exp(',')
                ops = self.tvlist(')')
                return ('cgep', bt, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.type(); x = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'icmp', 'xor'):
                while self.peek()[1] != '(':
                    self.next()
                self.skip_parens()
                return ('unk',)
            if v == 'asm':
                return ('asm',)
            raise ParseError('value word %r' % v)
        if v == '{' or v == '[' or (v == '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                ops = self.tvlist('}')
                self.exp('>')
                return ('agg', ops)
            return ('agg', self.tvlist(close))
        raise ParseError('value? %r %r' % (k, v))

    def tvlist(self, close):
        ops = []
        while not self.acc(close):
            if self.peek()[1] == 'inrange':
                self.next()
                if self.peek()[1] == '(':
                    self.skip_parens()
            t = self.type()
            self.skip_attrs()
            ops.append((t, self.value(t)))
            self.acc(',')
        return ops


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


def cstr(v):
    v = v[v.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(v[i + 1:i + 3], 16)); i += 3
        else:
            out += v[i].encode(); i += 1
    return bytes(out)


def parse_fp(v):
    if v.startswith('0xK'):      # x86_fp80
        b = int(v[3:], 16)
        e, m = (b >> 64) & 0x7fff, b & (2 ** 64 - 1)
        return (-1.0 if b >> 79 else 1.0) * (float(m) * 2.0 ** (e - 16383 - 63) if m else 0.0)
    if v.startswith('0x'):
        return _struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return float(v)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text')

    def __init__(self, op, dst, ty, text, **a):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.text = text

    def __repr__(self):
        return self.text


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.order = []
        self.ret = None
        self.raw = None
        self.parsed = False
        self.loops = None

    def body(self, mod):
        if not self.parsed:
            parse_body(self, mod)
            self.parsed = True
        return self


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self._sz = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
                if m:
                    if m.group(2).strip() == 'opaque':
                        self.types[unq(m.group(1))] = Ty('opaque')
                    else:
                        self.types[unq(m.group(1))] = P(tokenize(m.group(2)), self).type()
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', l)
                self.globals[unq(m.group(1))] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
                self.decls.add(unq(m.group(1)))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l)
                f = Func(unq(m.group(1)))
                f.raw = (l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            i += 1
        self._ginit = {}

    # sizes
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.bits + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'array':
            return self.align(t.elem)
        if t.k == 'vec':
            return self.size(t)
        if t.k == 'struct':
            if t.packed or not t.fields:
                return 1
            return max(self.align(f) for f in t.fields)
        if t.k == 'x86_fp80':
            return 16
        return 1

    def size(self, t):
        t0 = t
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.bits + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'array' or t.k == 'vec':
            return t.n * self.size(t.elem)
        if t.k == 'struct':
            if id(t) in self._sz:
                return self._sz[id(t)][0]
            self.offsets(t)
            return self._sz[id(t)][0]
        if t.k == 'x86_fp80':
            return 16
        raise ParseError('size of %r' % t0)

    def offsets(self, t):
        t = self.resolve(t)
        if id(t) in self._sz:
            return self._sz[id(t)][1]
        off = 0
        offs = []
        for f in t.fields:
            if not t.packed:
                a = self.align(f)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        if not t.packed:
            a = self.align(t)
            off = (off + a - 1) // a * a
        self._sz[id(t)] = (off, offs, t)
        return offs

    def ginit(self, name):
        """(type, init value tuple or None, is_const)"""
        if name in self._ginit:
            return self._ginit[name]
        r = self.globals[name]
        toks = tokenize(r)
        p = P(toks, self)
        ext = False
        const = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next()
                break
            if v in ('external', 'extern_weak'):
                ext = True
            if v == 'alias':
                p.next()
                d = 0
                while d or p.peek()[1] != ',':      # the type
                    d += {'(': 1, ')': -1}.get(p.next()[1], 0)
                p.exp(','); t = p.type(); x = p.value(t)
                self._ginit[name] = ('alias', x, True)
                return self._ginit[name]
            if p.eof():
                raise ParseError('global ' + r)
            p.next()
        t = p.type()
        x = None
        if not ext:
            x = p.value(t)
        self._ginit[name] = (t, x, const)
        return self._ginit[name]


def split_params(p):
    ps = []
    p.exp('(')
    n = 0
    while not p.acc(')'):
        if p.peek()[0] == 'dots':
            p.next(); continue
        t = p.type()
        p.skip_attrs()
        if p.peek()[0] == 'loc':
            ps.append((t, p.next()[1][1:]))
        else:
            ps.append((t, None))
        p.acc(',')
    return ps


LABEL = re.compile(r'^("(?:[^"]*)"|[-\w.$]+):')


def parse_body(f, mod):
    head, lines = f.raw
    toks = tokenize(head[:head.rindex('{')])
    p = P(toks, mod)
    p.exp('define')
    while not p.is_type():
        k, v = p.peek()
        if v in P.PATTRS:
            p.skip_attrs()
        else:
            p.next()
    # attributes may precede the return type (e.g. "noundef ptr"); handled above; type now
    f.ret = p.type() if p.peek()[1] not in () else None
    while not (p.peek()[0] == 'loc' and p.peek()[1][0] == '@'):
        p.next()
    p.next()
    f.params = split_params(p)
    # unnamed params numbering
    cnt = 0
    ps = []
    for t, nm in f.params:
        if nm is None:
            nm = str(cnt)
        if nm.isdigit():
            cnt = int(nm) + 1
        ps.append((t, nm))
    f.params = ps
    cur = None
    # entry label
    first = True
    j = 0
    while j < len(lines):
        l = lines[j]
        j += 1
        if not l.strip():
            continue
        m = LABEL.match(l)
        if m and not l.startswith(' '):
            cur = m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            continue
        if first:
            cur = str(cnt)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        s = l.strip()
        if s.startswith(';'):
            continue
        # multi-line constructs: switch, invoke, landingpad
        if s.startswith('switch') and not s.endswith(']'):
            while not s.endswith(']'):
                s += ' ' + lines[j].strip(); j += 1
        elif ('invoke ' in s) and ' unwind label' not in s:
            while ' unwind label' not in s and not s.startswith('unwind'):
                s += ' ' + lines[j].strip(); j += 1
        elif 'landingpad' in s:
            while j < len(lines) and re.match(r'^\s+(catch|filter|cleanup)\b', lines[j]):
                s += ' ' + lines[j].strip(); j += 1
        f.blocks[cur].append(parse_instr(s, mod))
    f.entry = f.order[0]
    find_loops(f)


BINOPS = set('add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('nsw nuw exact disjoint nneg fast nnan ninf nsz arcp contract afn reassoc volatile inbounds nusw samesign atomic'.split())


def lab(tok):
    v = tok[1]
    return v[1:]


def parse_instr(s, mod):
    toks = tokenize(s)
    # cut metadata attachments / attribute groups at the end
    p = P(toks, mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1][1:]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    fl = set()
    if op not in ('call', 'invoke'):
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            fl.add(p.next()[1])

    def mk(ty=None, **a):
        return Instr(op, dst, ty, s, **a)
    if op in BINOPS:
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return mk(t, x=a, y=b, fl=fl)
    if op == 'fneg':
        t = p.type(); a = p.value(t)
        return mk(t, x=a)
    if op in ('icmp', 'fcmp'):
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return mk(INT(1), pred=pred, ot=t, x=a, y=b)
    if op in CASTS:
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        return mk(t2, ft=t, x=a, fl=fl)
    if op == 'freeze':
        t = p.type(); a = p.value(t)
        return mk(t, x=a)
    if op == 'load':
        t = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
        return mk(t, p=a)
    if op == 'store':
        t = p.type(); a = p.value(t); p.exp(','); pt = p.type(); b = p.value(pt)
        return mk(t, x=a, p=b)
    if op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = p.value(nt)
        return mk(PTR, at=t, n=n)
    if op == 'getelementptr':
        t = p.type(); p.exp(',')
        ops = []
        while not p.eof() and p.peek()[0] != 'meta':
            ot = p.type(); ops.append((ot, p.value(ot)))
            if not p.acc(','):
                break
            if p.peek()[0] == 'meta':
                break
        return mk(PTR, bt=t, ops=ops)
    if op == 'phi':
        t = p.type()
        inc = []
        while p.acc('['):
            v = p.value(t); p.exp(','); b = lab(p.next()); p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
            if p.peek()[0] == 'meta':
                break
        return mk(t, inc=inc)
    if op == 'br':
        if p.acc('label'):
            return mk(None, c=None, t=lab(p.next()), f=None)
        t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = lab(p.next()); p.exp(','); p.exp('label'); b = lab(p.next())
        return mk(None, c=c, t=a, f=b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = lab(p.next()); p.exp('[')
        cs = []
        while not p.acc(']'):
            t2 = p.type(); cv = p.value(t2); p.exp(','); p.exp('label'); cs.append((cv[1], lab(p.next())))
        return mk(t, v=v, d=d, cs=cs)
    if op == 'ret':
        t = p.type()
        return mk(t, x=None if t.k == 'void' else p.value(t))
    if op == 'unreachable':
        return mk()
    if op == 'resume':
        return mk()
    if op == 'landingpad':
        t = p.type()
        return mk(t)
    if op == 'select':
        ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        return mk(t, c=c, x=a, y=b)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return mk(None, at=t, x=v, idx=idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2)
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return mk(t, x=v, et=t2, e=e, idx=idx)
    if op in ('call', 'invoke'):
        while True:
            kk, v = p.peek()
            if kk == 'word' and v in FLAGS:
                p.next(); continue
            if kk == 'word' and (v in P.ATTRS or v in P.PATTRS):
                p.skip_attrs(); continue
            break
        t = p.type()
        if t.k == 'fn':
            t = t.elem
        if p.peek()[1] == 'asm':
            return mk(t, callee=('asm',), args=[], n=None, u=None)
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            if at.k == 'metadata':
                d = 0
                while True:
                    kk, v = p.peek()
                    if v == '(':
                        d += 1
                    if v == ')':
                        if d == 0:
                            break
                        d -= 1
                    if v == ',' and d == 0:
                        break
                    p.next()
                args.append((at, ('undef',)))
            else:
                p.skip_attrs()
                args.append((at, p.value(at)))
            p.acc(',')
        n = u = None
        if op == 'invoke':
            while not p.acc('to'):
                p.next()
            p.exp('label'); n = lab(p.next()); p.exp('unwind'); p.exp('label'); u = lab(p.next())
        return mk(t, callee=callee, args=args, n=n, u=u)
    if op in ('fence', 'va_arg', 'atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector'):
        return mk(None, unsupported=True)
    raise ParseError('instr %s' % s)


# ---- natural loops ---------------------------------------------------------
class Loop:
    def __init__(self, header, blocks):
        self.header = header
        self.blocks = blocks


def succs(f, b):
    if not f.blocks[b]:
        return []
    t = f.blocks[b][-1]
    if t.op == 'br':
        return [t.a['t']] + ([t.a['f']] if t.a['f'] else [])
    if t.op == 'switch':
        return [t.a['d']] + [x[1] for x in t.a['cs']]
    if t.op == 'invoke':
        return [t.a['n'], t.a['u']]
    return []


def find_loops(f):
    # iterative dfs for dominators (simple dataflow)
    order = []
    seen = set()
    st = [(f.entry, iter(succs(f, f.entry)))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f, s))))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b):
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f, b):
            if dom(s, b):
                body = {s}
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in body:
                        continue
                    body.add(x)
                    wl += preds[x]
                loops.setdefault(s, set()).update(body)
    f.loops = {h: Loop(h, bl) for h, bl in loops.items()}
    f.preds = preds
