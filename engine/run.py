"""Compile a harness against the real sources, execute every contract in it, discharge the obligations."""
import os
import re
import subprocess
import sys
import tempfile
import time
import hashlib
import z3
import ll
import vc
import models
from vc import Unsupported, State, Frame, Exec, fresh

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'
CFLAGS = ['-std=c++20', '-DNDEBUG', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-S', '-emit-llvm', '-w',
          '-fno-strict-aliasing', '-fno-access-control']
OPT = 'internalize,globaldce,cgscc(inline),function(sroa,early-cse,simplifycfg,loop-simplify),globaldce'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class Unit:
    """one harness translation unit"""

    def __init__(self, src, workdir, defs=()):
        self.src = src
        base = os.path.join(workdir, os.path.basename(src).replace('.cpp', '') + hashlib.sha1(repr(defs).encode()).hexdigest()[:6])
        inc = os.path.join(REPO, 'dwave/optimization/include')
        t0 = time.time()
        r = sh([CLANG] + CFLAGS + ['-I' + inc, '-I' + os.path.join(REPO, 'dwave/optimization/src'), '-I' + os.path.join(REPO, 'dwave/optimization/src/nodes'),
                '-I' + os.path.join(VERIF, 'harness')] + list(defs) + [src, '-o', base + '.ll'])
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        text = open(base + '.ll').read()
        names = re.findall(r'^define.*? @"?([\w.$]+)"?\(', text, re.M)
        names += re.findall(r'^declare.*? @"?([\w.$]+)"?\(', text, re.M)
        d = sh(['llvm-cxxfilt-18'], input='\n'.join(names)).stdout.split('\n')
        self.demap = dict(zip(names, d))
        out = []
        always = {m.group(1) for m in re.finditer(r'^attributes (#\d+) = \{[^}]*alwaysinline', text, re.M)}
        for l in text.split('\n'):
            if l.startswith('define'):
                m = re.match(r'^define.*? @"?([\w.$]+)"?\(', l)
                if models.is_modelled_name(self.demap[m.group(1)]) and not any(g in always for g in re.findall(r' (#\d+)', l)):
                    l = re.sub(r' (#\d+)', r' noinline \1', l, count=1)
                else:
                    pass
            out.append(l)
        text = '\n'.join(out)
        # noinline functions such as [[gnu::noinline]] stay as they are; library "optnone" does not occur
        open(base + '.n.ll', 'w').write(text)
        r = sh(['opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt', '-S', '-internalize-public-api-list=h_*', '-passes=' + OPT, '-inline-threshold=200000', base + '.n.ll', '-o', base + '.1.ll'])
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        self.text = open(base + '.1.ll').read()
        self.mod = ll.Module(self.text)
        self.compile_s = time.time() - t0

    def dem(self, n):
        if n not in self.demap:
            self.demap[n] = sh(['llvm-cxxfilt-18', n]).stdout.strip()
        return self.demap[n]


class Spec:
    """contract of one harness entry point"""
    fn = None
    opts = {}
    bounded = dict(maxlen=2, unroll=16)
    functions = []          # functions of /repo under contract here (for the evidence)

    def pre(self, v, name):
        pass

    def point(self, v, name):
        pass

    def post(self, v, kind, ret):
        """yield (name, goal)"""
        return []

    def loop_cands(self, lc):
        return []

    def on_local_push(self, ex, st, et, n, vals):
        pass

    def on_push(self, ex, st, label, vals):
        pass

    def on_other(self, v, name, idx, obj):
        """an element other than the ones spelled out is used"""
        pass

    def on_insert(self, ex, st, label, pos):
        pass

    def on_resize(self, ex, st, label):
        pass

    def axioms(self):
        return []

    def lemmas(self):
        """(name, hypotheses, goal): proved first; what they establish may then be used in axioms()"""
        return []


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.obls = []
        self.error = None
        self.stats = {}
        self.models = set()
        self.funcs = set()
        self.time = 0
        self.paths = 0
        self.vacuous = None

    @property
    def failed(self):
        return [o for o in self.obls if o.status != 'unsat']

    @property
    def ok(self):
        return self.error is None and self.obls and not self.failed and not self.vacuous


def smt2_external(fs, goal, timeout, solver):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    s.add(z3.Not(goal))
    t = s.to_smt2()
    if solver == 'cvc5':
        t = '(set-logic ALL)\n' + re.sub(r'\(set-info[^)]*\)', '', t)
        cmd = ['cvc5', '--lang=smt2', '--tlimit=%d' % (timeout * 1000)]
    else:
        cmd = ['z3-new', '-in', '-T:%d' % timeout]
    try:
        r = subprocess.run(cmd, input=t, capture_output=True, text=True, timeout=timeout + 5)
    except subprocess.TimeoutExpired:
        return 'unknown'
    for l in r.stdout.split('\n'):
        if l.strip() in ('sat', 'unsat', 'unknown'):
            return l.strip()
    return 'unknown'


def execute(unit, spec, bounded=None, budget=240, obl_ms=15000, verbose=False, external=True):
    res = Result(spec)
    t0 = time.time()
    opts = dict(spec.opts)
    if verbose:
        opts['verbose'] = True
    vc.BOUNDED[0] = bounded is not None
    ex = Exec(unit.mod, unit.dem, spec, bounded, opts)
    ex.deadline = t0 + budget
    ex.axioms = list(spec.axioms()) if bounded is None else []
    ends = []
    if bounded is None:
        for nm, hyp, goal in spec.lemmas():
            o = vc.Obligation('lemma: ' + nm, list(hyp), goal, 'lemma', [])
            o.lemma = True
            ex.obls.append(o)
    try:
        f = unit.mod.funcs[spec.fn].body(unit.mod)
        st = State()
        if opts.get('ints'):
            st.assume(z3.Not(vc.isint(vc.NAN)))
        for c in (0, 1, -1) if opts.get('ints') else ():        # the absent-value marker is not one of the constants of the program
            st.assume(vc.NAN != c)
            if bounded is None:
                st.assume(vc.isint(z3.RealVal(c)))
        regs = {}
        if f.params:
            raise Unsupported('harness entry with parameters')
        st.frames.append(Frame(f, f.entry, 0, None, regs, None))
        ends = ex.explore(st)
        n = 0
        for kind, s, info in ends:
            if kind not in ('ret', 'throw'):
                raise Unsupported('exploration ended with ' + kind)
            n += 1
            for nm, goal in spec.post(models.View(ex, s), kind, info):
                s2 = s
                goal = vc.zb(goal)
                if z3.is_true(goal):
                    o = vc.Obligation(nm, [], goal, 'post', [])
                    o.status = 'unsat'; o.backend = 'simplify'
                    ex.obls.append(o)
                else:
                    o = vc.Obligation(nm, list(s.pc), goal, 'post', list(s.trace))
                    o.end = s
                    ex.obls.append(o)
        res.paths = n
    except Unsupported as e:
        res.error = 'unsupported: %s' % e
    except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception, ll.ParseError, RecursionError) as e:
        import traceback
        res.error = 'engine: %s: %s' % (type(e).__name__, e)
        res.tb = traceback.format_exc()
        if verbose:
            traceback.print_exc()
    # discharge
    for o in ex.obls:
        if o.status is not None:
            continue
        t1 = time.time()
        left = t0 + budget - t1
        if left < 0.5 and res.error is None:
            o.status = 'unknown'; o.backend = 'budget'
            continue
        if getattr(o, 'lemma', False):
            r, s = ex.solve(o.pc + [z3.Not(o.goal)], min(obl_ms, max(1000, left * 1000)))
            if r != 'unsat':
                r, s = ex.solve(o.pc + [z3.Not(o.goal)], min(obl_ms, max(1000, left * 1000)), qf=True)
        else:
            r, s = ex.prove(o.pc, o.goal, min(obl_ms, max(1000, left * 1000)))
        o.status = r
        o.backend = 'z3'
        if r == 'sat':
            try:
                o.model = s.model()
            except z3.Z3Exception:
                pass
        if r == 'unknown' and external and bounded is None:
            for sv in ('z3-new', 'cvc5'):
                left = t0 + budget - time.time()
                if left < 3:
                    break
                r = smt2_external(o.pc + ([] if getattr(o, 'lemma', False) else ex.axioms), o.goal, int(min(10, left)), sv)
                if r == 'unsat':
                    o.status = r; o.backend = sv
                    break
        o.time = time.time() - t1
    res.obls = ex.obls
    # vacuity: the end of the function must be reachable under the precondition
    if res.error is None:
        if not ends:
            res.vacuous = 'no path reaches the end of the harness'
        else:
            reach = False
            for kind, s, info in ends:
                r, _ = ex.solve(list(s.pc) + ex.axioms, 1500)
                if r != 'unsat':
                    reach = True
                    break
            if not reach:
                res.vacuous = 'every end state is contradictory'
    res.stats = ex.stats
    res.models = ex.models_used
    res.funcs = set(ex.funcs_used) | {spec.fn}
    res.time = time.time() - t0
    return res
