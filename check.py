#!/usr/bin/env python3-vt
"""check.py ID: decide property ID on /repo's current working tree.

1. The harnesses of the property are compiled together with the real sources to LLVM IR and every contract is turned into
   obligations, discharged for all inputs and iterations (engine/).
2. Meanwhile the native driver (real code, AddressSanitizer) runs the bounded stand-in for the functions that are not under
   contract.  It is also the search for a failing input when an obligation is not discharged.
3. See DESIGN.md ("Outcome") for how the two are combined.  Exit 0 or 1, never anything else."""
import concurrent.futures as cf
import glob
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
sys.setrecursionlimit(20000)
import registry

REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
EVID = os.path.join(HERE, 'evidence')
CORES = 8
T0 = time.time()
QUICK = TIER != 'thorough'
NFLAGS = ['-std=c++20', '-O1', '-gline-tables-only', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-w', '-fsanitize=address', '-fno-omit-frame-pointer']


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- native stand-in
class Native:
    def __init__(self, drivers, work):
        self.drivers = [drivers] if isinstance(drivers, str) else list(drivers)
        self.work = os.path.join(work, 'native')
        os.makedirs(self.work)
        self.error = None
        self.n = 0

    def build(self):
        inc = ['-I' + os.path.join(REPO, 'dwave/optimization/include'), '-I' + os.path.join(REPO, 'dwave/optimization/src'), '-I' + os.path.join(HERE, 'native')]
        srcs = sorted(glob.glob(os.path.join(REPO, 'dwave/optimization/src/**/*.cpp'), recursive=True), key=lambda f: -os.path.getsize(f))
        nd = len(self.drivers)
        srcs[:0] = [os.path.join(HERE, 'native', d + '.cpp') for d in self.drivers]
        objs = []

        def one(i):
            o = os.path.join(self.work, '%d.o' % i)
            r = subprocess.run(['clang++-18'] + NFLAGS + inc + ['-c', srcs[i], '-o', o], capture_output=True, text=True)
            if r.returncode:
                self.error = 'native build: %s: %s' % (srcs[i], r.stderr[-1500:])
            return o
        with cf.ThreadPoolExecutor(CORES) as p:
            objs = list(p.map(one, range(len(srcs))))
        if self.error is None:
            for d, o in zip(self.drivers, objs[:nd]):
                r = subprocess.run(['clang++-18', '-fsanitize=address', o] + objs[nd:] + ['-o', os.path.join(self.work, d)], capture_output=True, text=True)
                if r.returncode:
                    self.error = 'native link: ' + r.stderr[-1500:]

    def env(self, loud=False):
        e = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:print_legend=0:max_allocation_size_mb=2000:hard_rss_limit_mb=3500:handle_abort=0', VFTIER=TIER)
        e.pop('VFLOG', None)
        if loud:
            e['VFLOG'] = '1'
        return e

    def driver_of(self, seed):
        return self.drivers[seed % len(self.drivers)]

    def run1(self, prop, seed, secs, case=None, loud=False, limit=None):
        self.n += 1
        mark = os.path.join(self.work, 'mark.%d.%d' % (seed, threading.get_ident() % 100000 + self.n))
        out = mark + '.out'
        cmd = [os.path.join(self.work, self.driver_of(seed)), prop, str(seed), '1000000000', str(secs)] + ([str(case)] if case is not None else [])
        with open(mark, 'wb') as m, open(out, 'wb') as o:
            p = subprocess.Popen(['bash', '-c', 'exec "$@" 9>"$0"', mark] + cmd, stdout=o, stderr=o, env=self.env(loud), cwd=self.work)
            try:
                rc = p.wait(timeout=limit or secs + 25)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                rc = 'hang'
        txt = open(out, 'rb').read()[-60000:].decode('utf8', 'replace')
        try:
            last = int(open(mark).read().split()[0])
        except (OSError, ValueError, IndexError):
            last = None
        return rc, txt, last

    def search(self, prop, secs, seeds):
        """-> (cases, failure or None); failure: dict(kind, seed, case, text)"""
        if self.error:
            return 0, None
        total = [0]
        found = []
        lock = threading.Lock()

        def one(seed):
            if found:
                return
            rc, txt, last = self.run1(prop, seed, secs)
            if rc == 0:
                for l in txt.split('\n'):
                    if l.startswith('OK '):
                        with lock:
                            total[0] += int(l.split()[1])
                return
            if rc == 1:
                case = None
                for l in txt.split('\n'):
                    if l.startswith('FAIL case '):
                        case = int(l.split()[2])
                if case is None:
                    return
                found.append(dict(kind='wrong result', seed=seed, case=case, text=txt))
                return
            # crash or hang: replay that case alone
            if last is None:
                return
            rc2, txt2, _ = self.run1(prop, seed, secs, case=last, loud=True, limit=60)
            if rc2 in (0, 2, 127):
                return      # not reproducible: machine trouble, not a finding
            found.append(dict(kind='hang' if rc2 == 'hang' else 'wrong result' if rc2 == 1 else 'crash (%s)' % rc2, seed=seed, case=last, text=txt2))
        with cf.ThreadPoolExecutor(len(seeds)) as p:
            list(p.map(one, seeds))
        return total[0], (found[0] if found else None)


# ---------------------------------------------------------------- contracts
UNITS = {}
SPECS = []


def compile_units(specs, work):
    import run
    todo = {}
    for m, S in specs:
        todo.setdefault((S.src, tuple(getattr(S, 'defs', ()))), None)

    def one(k):
        try:
            return k, run.Unit(os.path.join(HERE, 'harness', k[0]), work, k[1])
        except run.BuildError as e:
            return k, 'build: ' + str(e)[-1500:]
        except Exception as e:
            return k, 'extraction: %s: %s' % (type(e).__name__, e)
    with cf.ThreadPoolExecutor(4) as p:
        for k, u in p.map(one, list(todo)):
            UNITS[k] = u


def work(job):
    i, bounded, budget = job
    m, S = SPECS[i]
    import run
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    name = '%s.%s' % (m, S.__name__)
    d = dict(name=name, functions=list(S.functions), obls=0, failed=[], error=None, vacuous=None, solver_s=0.0, time=0.0, queries=0, backends={}, models=[], loops=0,
             paths=0, invariants=0, bounded=bool(bounded), sat=[])
    u = UNITS[(S.src, tuple(getattr(S, 'defs', ())))]
    if isinstance(u, str):
        d['error'] = u
        return d
    try:
        s = S()
        r = run.execute(u, s, bounded=s.bounded if bounded else None, budget=budget, obl_ms=20000, external=not bounded)
    except BaseException as e:
        d['error'] = 'engine: %s: %s' % (type(e).__name__, e)
        d['tb'] = traceback.format_exc()[-2000:]
        return d
    d['obls'] = len(r.obls)
    d['error'] = r.error
    d['vacuous'] = r.vacuous
    d['ok'] = bool(r.ok)
    d['solver_s'] = r.stats.get('solver_s', 0.0)
    d['queries'] = r.stats.get('queries', 0)
    d['loops'] = r.stats.get('loops', 0)
    d['invariants'] = sum(len(x) for _, x in r.stats.get('invariants', []))
    d['paths'] = r.paths
    d['time'] = r.time
    d['models'] = sorted(r.models)
    d['unwind_cut'] = r.stats.get('unwind_cut', 0)
    for o in r.obls:
        if o.status == 'unsat':
            d['backends'][o.backend] = d['backends'].get(o.backend, 0) + 1
        else:
            mod = ''
            if o.model is not None:
                try:
                    mod = '\n'.join('%s = %s' % (x, str(o.model[x])[:200]) for x in sorted(o.model.decls(), key=str)[:60])
                except Exception:
                    pass
            d['failed'].append(dict(name=o.name, status=o.status, where=o.where, model=mod))
            if o.status == 'sat':
                d['sat'].append(o.name)
    return d


def run_jobs(jobs, n):
    """each contract in a process of its own, so that a solver that runs away is only that contract's problem"""
    ctx = mp.get_context('fork')
    out = []
    with cf.ProcessPoolExecutor(n, mp_context=ctx) as p:
        fs = [(j, p.submit(work, j)) for j in jobs]
        for j, f in fs:
            try:
                out.append(f.result(timeout=max(5, 800 - (time.time() - T0))))
            except BaseException as e:
                m, S = SPECS[j[0]]
                out.append(dict(name='%s.%s' % (m, S.__name__), functions=list(S.functions), obls=0, failed=[], error='worker: %r' % e, vacuous=None, solver_s=0, time=0, queries=0,
                                backends={}, models=[], loops=0, paths=0, invariants=0, bounded=bool(j[1]), sat=[], ok=False))
                try:
                    for q in list(p._processes.values()):
                        q.kill()
                except Exception:
                    pass
    return out


def main():
    prop = sys.argv[1]
    P = registry.PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    rc = 1
    try:
        rc = check(prop, P, workdir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(rc)


def check(prop, P, workdir):
    for k in registry.findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k), flush=True)
    nat = Native(P['native'], workdir)
    nt = threading.Thread(target=nat.build)
    nt.start()
    SPECS[:] = registry.specs(prop)
    compile_units(SPECS, workdir)
    log('%d contracts, %d translation units' % (len(SPECS), len(UNITS)))
    budget = 200 if QUICK else 500
    results = run_jobs([(i, False, budget) for i in range(len(SPECS))], CORES)
    bad = [r for r in results if not r.get('ok')]
    for r in bad:
        log('not discharged:', r['name'], r['error'] or r['vacuous'] or [f['name'] for f in r['failed']][:4])
    nobl = sum(r['obls'] for r in results)
    ndis = sum(r['obls'] - len(r['failed']) for r in results)
    log('obligations %d, discharged %d' % (nobl, ndis))
    nt.join()
    if nat.error:
        log(nat.error)
    # bounded stand-in / search
    secs = (15 if not bad else 60) if QUICK else 240
    nseeds = 7
    seeds = [SEED * 1000 + k for k in range(nseeds)]
    if prop in registry.THREADY:
        seeds = seeds[:4]
    cases, hit = nat.search(prop, secs, seeds)
    log('native: %d cases%s' % (cases, '' if not hit else ', FAILED: %s, seed %d case %d' % (hit['kind'], hit['seed'], hit['case'])))
    rebound = []
    viol = None
    if hit:
        viol = ('', 'A failing input was found against the real code (%s).\nReproduce: build native/%s.cpp against /repo and run: %s %s %d 1000000000 60 %d\n\n%s\n%s' % (
            hit['kind'], nat.driver_of(hit['seed']), nat.driver_of(hit['seed']), prop, hit['seed'], hit['case'], '\n'.join(describe(r) for r in bad), hit['text']))
    elif bad:
        # the same contracts, bounded: an obligation that is violated there is violated for real
        idx = [i for i, r in enumerate(results) if not r.get('ok')]
        rebound = run_jobs([(i, True, 120) for i in idx], CORES)
        sat = [r for r in rebound if r['sat'] and not r['error']]
        if sat:
            names = ['%s: %s' % (r['name'], n) for r in sat for n in r['sat'][:3]]
            viol = (' no-failing-input-found', 'Obligations violated (no failing input was found in %d native cases):\n%s\n\n%s' % (cases, '\n'.join(names), '\n\n'.join(describe(r) for r in sat)))
        for r in rebound:
            log('bounded:', r['name'], 'violated: %s' % r['sat'][:3] if r['sat'] else r['error'] or 'holds up to the bound')
    proved = [r for r in results if r.get('ok')]
    ev = dict(property=prop, tier='quick' if QUICK else 'thorough', seed=SEED, level='proof', wall_s=round(time.time() - T0, 1), violations=1 if viol else 0,
              coverage=dict(
                  obligations=nobl, discharged=ndis,
                  checker_cmd='python3-vt check.py %s  (clang++-18 + opt -> LLVM IR of the real sources; engine/vc.py generates the obligations; z3 %s, then z3-new and cvc5)' % (prop, _z3v()),
                  trusted_base=registry.TRUSTED + sorted({m for r in results for m in r['models']}) + P.get('trusted', []),
                  contracts=len(SPECS), contracts_proved=len(proved),
                  functions_under_contract=sorted({f for r in proved for f in r['functions']}),
                  obligations_by_contract={r['name']: [r['obls'], r['obls'] - len(r['failed'])] for r in results},
                  discharged_by_backend=_sum(r['backends'] for r in results),
                  solver_s=round(sum(r['solver_s'] for r in results), 1), solver_queries=sum(r['queries'] for r in results),
                  loops_cut_by_invariant=sum(r['loops'] for r in results), invariants_used=sum(r['invariants'] for r in results), paths=sum(r['paths'] for r in results),
                  vacuity='every contract has at least one end state that is not contradictory' if not any(r['vacuous'] for r in results) else [r['name'] for r in results if r['vacuous']],
                  downgraded=[describe(r)[:600] for r in bad],
                  bounded_recheck=[dict(name=r['name'], violated=r['sat'], error=r['error'], obligations=r['obls'], cut=r.get('unwind_cut', 0)) for r in rebound],
                  bounded_standin=dict(label='bounded, not counted as proved', functions=P.get('standin', []), driver=['native/%s.cpp' % d for d in nat.drivers], cases=cases, seconds_per_seed=secs, seeds=seeds, error=nat.error)),
              assumptions=registry.ASSUMPTIONS + P.get('assumptions', []))
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(EVID, 'replay_%s.txt' % prop)
        open(rp, 'w').write('property %s\n\n%s\n' % (prop, viol[1]))
        print(viol[1][-3000:] if hit else viol[1][:3000])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, viol[0]), flush=True)
        return 1
    log('holds')
    return 0


def describe(r):
    s = 'contract %s (%s)\n' % (r['name'], ', '.join(r['functions']))
    if r['error']:
        s += '  not decided: %s\n' % r['error']
    if r['vacuous']:
        s += '  vacuous: %s\n' % r['vacuous']
    for f in r['failed'][:8]:
        s += '  obligation not discharged: %s [%s] at %s\n' % (f['name'], f['status'], f['where'])
        if f['model']:
            s += '    ' + f['model'].replace('\n', '\n    ')[:3000] + '\n'
    return s


def _z3v():
    import z3
    return z3.get_version_string()


def _sum(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return o


if __name__ == '__main__':
    main()
