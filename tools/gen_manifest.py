"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
import registry
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in registry.PROPS:
        P = registry.PROPS[p]
        fs = sorted({f for m, S in registry.specs(p) for f in S.functions})
        checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p, evidence_file='evidence/%s.json' % p,
                           technique='contract-based deductive verification of the real code (LLVM IR extracted from /repo on every run, SMT back ends)',
                           level='proof',
                           level_note='Discharged for all inputs and iterations: contracts of %s. Bounded stand-in (never counted as proved; also the search for a failing input): %s. '
                                      'Assumed: %s. See DESIGN.md.' % (', '.join(fs), '; '.join(P.get('standin', [])) or 'none', '; '.join(registry.ASSUMPTIONS + P.get('assumptions', [])))))
    else:
        na.append(dict(property=p, reason=registry.NOT_APPLICABLE[p]))
M = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the harnesses take the unmodified sources (-fno-access-control opens private members). Fixed defects and known findings: known_findings.jsonl.')
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
