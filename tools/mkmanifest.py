"""Writes MANIFEST.json from the props modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {'Q01': "the escaping is done inside Jinja2's compiled templates and the property quantifies over the rendered HTML "
             "text; no contract on /repo's functions expresses it, and Jinja2 itself is outside the verifier's reach (the "
             "file name of a report is Q02)"}
PROOF = ('contract-based deductive verification: contracts on the functions of /repo, loops cut at invariants, every obligation '
         'of the current source discharged by z3 (path-by-path symbolic execution of the mechanically instrumented real code)')
BOUND = 'bounded stand-in for the contracts: the real code on generated cases against an independent oracle'
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        continue
    m = importlib.import_module('props.' + p)
    lev = getattr(m, 'LEVEL', 'proof')
    b = getattr(m, 'BOUNDED', None)
    note = getattr(m, 'NOTE', None)
    if note is None:
        if lev == 'proof':
            note = ('every obligation generated from the current source is discharged for all inputs; trusted: the path engine, '
                    'the loader, library models, z3, CPython standing in for PyPy' +
                    ('. Assumed: ' + '; '.join(m.ASSUMPTIONS) if getattr(m, 'ASSUMPTIONS', None) else '') +
                    ('. Bounded part (not counted as proved): ' + b if b else ''))
        else:
            note = 'bounded, not a proof: ' + (b or '')
    checks.append({'property': p, 'quick_cmd': 'python3-vt run_check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': getattr(m, 'TECHNIQUE', PROOF if lev == 'proof' else BOUND), 'level': lev, 'level_note': note})
man = {'version': 1, 'setup_cmd': 'mkdir -p evidence/replay && python3-vt -c "import z3" && /opt/pypyvenv/bin/python -c "import loguru"',
       'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
       'notes': 'No hooks in /repo: the sources are read and instrumented at run time by pv/loader.py.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks')
