"""pv.runner: run one property check.

    run_check.py ID [--tier quick|thorough] [--replay FILE] [--list]

1. every harness of props/ID.py is explored by the path engine on the current source of /repo (processes in parallel);
2. concrete/ID.py runs the unmodified code on the repository's own interpreter against an independent oracle:
   it replays the counterexamples of refuted obligations and searches for further failing inputs;
3. the verdict: a failing input replayed on the real code is a VIOLATION; a refuted obligation without one is a
   VIOLATION ... no-failing-input-found; an obligation the engine could not decide (solver gave up, code outside the
   subset, contract that could not be attached after a refactoring) is undecided: it is counted as not discharged and
   the bounded concrete run stands in for it, which the evidence says.
"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/pypyvenv/bin/python'
EVID = os.environ.get('PV_EVIDENCE') or os.path.join(VERIF, 'evidence')
WORKERS = 8


def run_harness(args):
    pid, idx, tier, budget = args
    t0 = time.time()
    out = {'harness': '?', 'obligations': [], 'covers': {}, 'paths': 0, 'solver_s': 0.0, 'queries': 0, 'error': None}
    try:
        sys.setrecursionlimit(20000)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from pv.core import E
        from pv import loops
        mod = importlib.import_module('props.%s' % pid)
        h = harness_list(mod, tier)[idx]
        out['harness'] = h.name
        E.reset_all()
        E.keep_smt = (tier == 'thorough') and os.environ.get('PV_CVC5', '1') == '1'
        E.timeout_ms = h.timeout_ms * (3 if tier == 'thorough' else 1)
        loops.CUTS.clear()
        loops.WCUTS.clear()
        loops.ATTACHED.clear()
        E.explore(h.fn, h.name, deadline=t0 + budget)
        out['obligations'] = [(o.name, o.status, o.detail[:1200], o.model, round(o.secs, 3)) for o in E.obligations]
        if E.keep_smt:
            out['cvc5'] = cvc5_recheck([o.smt for o in E.obligations if o.smt and o.status == 'proved'])
        out['covers'] = dict(E.covers)
        for c in h.covers:
            out['covers'].setdefault(c, False)
        out['attached'] = sorted(loops.ATTACHED)
        out['paths'], out['solver_s'], out['queries'] = E.paths, E.solver_s, E.queries
        out['assumed'] = sorted(E.assumed)
    except BaseException as e:
        out['error'] = ''.join(traceback.format_exception_only(type(e), e)) + traceback.format_exc()[-1500:]
        try:
            out['obligations'] = [(o.name, o.status, o.detail[:1200], o.model, round(o.secs, 3)) for o in E.obligations]
        except BaseException:
            pass
    out['wall'] = time.time() - t0
    return out


def _child(conn, args):
    conn.send(run_harness(args))
    conn.close()


def run_pool(todo, names, workers, limit, end):
    """Results of the harnesses, each in a process of its own; a process that overruns is ended and its harness undecided.
    limit: seconds a harness may take; end: when all have to be done."""
    ctx = multiprocessing.get_context('fork')
    todo = list(todo)
    running = []
    while todo or running:
        while todo and len(running) < workers and time.time() < end:
            args = todo.pop(0)
            args = args[:3] + (max(5, min(args[3], end - time.time() - 20)),)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, args), daemon=True)
            p.start()
            b.close()
            running.append((p, a, args, time.time()))
        if todo and time.time() >= end:
            for args in todo:
                yield {'harness': names[args[1]], 'obligations': [], 'covers': {}, 'paths': 0, 'solver_s': 0.0, 'queries': 0,
                       'error': 'not started: the time of the check was used up', 'wall': 0.0}
            todo = []
        if not running:
            continue
        ready = multiprocessing.connection.wait([a for _, a, _, _ in running], timeout=2)
        keep = []
        for p, a, args, t in running:
            if a in ready:
                try:
                    yield a.recv()
                except EOFError:
                    yield {'harness': names[args[1]], 'obligations': [], 'covers': {}, 'paths': 0, 'solver_s': 0.0, 'queries': 0,
                           'error': 'the process of the harness ended (memory?)', 'wall': time.time() - t}
                p.join(5)
                a.close()
            elif time.time() > min(t + limit, end + 15):
                p.kill()
                p.join(5)
                a.close()
                yield {'harness': names[args[1]], 'obligations': [], 'covers': {}, 'paths': 0, 'solver_s': 0.0, 'queries': 0,
                       'error': 'the harness overran its time and was ended', 'wall': time.time() - t}
            else:
                keep.append((p, a, args, t))
        running = keep


def cvc5_recheck(smts, limit=40, per=20):
    """Second back end: re-check a sample of the discharged obligations with cvc5."""
    agree = disagree = unknown = 0
    if len(smts) > limit:
        step = len(smts) / limit
        smts = [smts[int(i * step)] for i in range(limit)]
    for s in smts:
        try:
            r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (per * 1000)], input='(set-logic ALL)\n' + s,
                               capture_output=True, text=True, timeout=per + 10).stdout.strip().split('\n')[0]
        except Exception:
            r = 'timeout'
        if r == 'unsat':
            agree += 1
        elif r == 'sat':
            disagree += 1
        else:
            unknown += 1
    return {'agree': agree, 'disagree': disagree, 'unknown': unknown}


class Harness:
    def __init__(self, name, fn, functions=(), covers=(), timeout_ms=20000):
        self.name, self.fn, self.functions, self.covers, self.timeout_ms = name, fn, list(functions), list(covers), timeout_ms


def harness_list(mod, tier):
    return mod.harnesses(tier)


def concrete(pid, extra, timeout):
    """Run concrete/ID.py under the repository's interpreter; returns its JSON result."""
    script = os.path.join(VERIF, 'concrete', pid + '.py')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    try:
        p = subprocess.run([PYPY, script] + extra, capture_output=True, text=True, timeout=timeout, env=env, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return {'error': 'timeout', 'evaluations': 0}
    for line in reversed(p.stdout.strip().split('\n')):
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'error': 'no result: ' + (p.stderr or p.stdout)[-2000:], 'evaluations': 0}


def concrete_parallel(pid, tier, seed, shards, budget):
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    for s in range(shards):
        procs.append(subprocess.Popen([PYPY, os.path.join(VERIF, 'concrete', pid + '.py'), '--seed', str(seed), '--tier', tier,
                                       '--shard', '%d/%d' % (s, shards), '--budget', str(budget)],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=VERIF))
    return procs


def collect(procs, budget):
    total = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violations': [], 'errors': [], 'rule': ''}
    end = time.time() + budget + 120
    for p in procs:
        try:
            out, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            total['errors'].append('concrete run timed out')
            continue
        res = None
        for line in reversed(out.strip().split('\n')):
            if line.startswith('RESULT '):
                res = json.loads(line[7:])
                break
        if res is None:
            total['errors'].append((err or out)[-1500:])
            continue
        total['evaluations'] += res['evaluations']
        total['distinct_nontrivial'] += res['distinct_nontrivial']
        total['samples'] += res['samples'][:2]
        total['violations'] += res['violations']
        total['rule'] = res.get('rule', '')
        total['exhaustive'] = total.get('exhaustive', True) and res.get('exhaustive', False)
        if res.get('error'):
            total['errors'].append(res['error'])
    return total


def load_findings(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [x for x in json.load(f) if x.get('property') == pid and x.get('status') == 'open']


def matches(finding, v):
    return finding.get('case') == v.get('case')


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        if rep.get('case') is None:
            print(json.dumps(rep, indent=1, ensure_ascii=False))
            return 1
        r = concrete(pid, ['--case', json.dumps(rep['case'])], 600)
        print(json.dumps(r, indent=1, ensure_ascii=False))
        return 1 if r.get('violations') else 0
    t0 = time.time()
    # the quick check answers within 900 s, on a slow machine too
    end = t0 + (600 if tier == 'quick' else 4 * 3600)
    mod = None
    err = None
    try:
        mod = importlib.import_module('props.%s' % pid)
        hs = harness_list(mod, tier)
    except BaseException:
        # the code no longer loads in the engine: undecided, the concrete run stands in
        err = traceback.format_exc()[-2500:]
        hs = []
    budget = (getattr(mod, 'QUICK_BUDGET', 200) if tier == 'quick' else getattr(mod, 'THOROUGH_BUDGET', 2400)) if mod else 200
    cbudget = (getattr(mod, 'CONCRETE_QUICK', 25) if tier == 'quick' else getattr(mod, 'CONCRETE_THOROUGH', 600)) if mod else 60
    cshards = getattr(mod, 'CONCRETE_SHARDS', 4) if mod else 4
    sel = [i for i, h in enumerate(hs) if not a.only or a.only in h.name]
    procs = [] if a.no_concrete else concrete_parallel(pid, tier, a.seed, cshards, cbudget)
    results = []
    if sel:
        for r in run_pool([(pid, i, tier, budget) for i in sel], {i: hs[i].name for i in sel}, min(WORKERS, len(sel)),
                          budget + 45, end):
            results.append(r)
            if a.v:
                st = {}
                for o in r['obligations']:
                    st[o[1]] = st.get(o[1], 0) + 1
                print('  %-50s paths=%-5d %s wall=%.1f %s' % (r['harness'], r['paths'], st, r['wall'],
                                                              (r['error'] or '')[-1200:]), flush=True)
                for o in r['obligations']:
                    if o[1] != 'proved':
                        print('     ', o[1], o[0], o[2][:700], o[3], flush=True)
                for c, v in r['covers'].items():
                    if not v:
                        print('      NOT COVERED', c)
    conc = collect(procs, cbudget)
    if tier == 'quick' and err:
        pass
    # ---- evaluate
    obs = [o for r in results for o in r['obligations']]
    refuted = [(r['harness'], o) for r in results for o in r['obligations'] if o[1] == 'refuted']
    undecided = [(r['harness'], o) for r in results for o in r['obligations'] if o[1] in ('unknown', 'unsupported')]
    herr = [(r['harness'], r['error']) for r in results if r['error']]
    uncovered = sorted({'%s/%s' % (r['harness'], c) for r in results for c, v in r['covers'].items() if not v})
    # replay the counterexamples of refuted obligations on the real code
    violations = list(conc['violations'])
    tried = 0
    seen = set()
    for hname, o in refuted:
        if o[3] is None or not isinstance(o[3], dict) or 'case' not in o[3]:
            continue
        key = json.dumps(o[3]['case'], sort_keys=True, default=str)
        if key in seen or tried >= 12 or time.time() > end + 60:
            continue
        seen.add(key)
        tried += 1
        r = concrete(pid, ['--case', key], 60)
        for v in r.get('violations', []):
            v['obligation'] = '%s / %s' % (hname, o[0])
            violations.append(v)
    if refuted and not violations and not a.no_concrete:
        # targeted search with another seed and a larger budget before giving up on a failing input
        extra = collect(concrete_parallel(pid, tier, a.seed + 1000, WORKERS, max(60, 2 * cbudget)), max(60, 2 * cbudget))
        violations += extra['violations']
        conc['evaluations'] += extra['evaluations']
        conc['distinct_nontrivial'] += extra['distinct_nontrivial']
    findings = load_findings(pid)
    new = []
    for v in violations:
        f = next((f for f in findings if matches(f, v)), None)
        if f is None:
            new.append(v)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    import_broken = bool(conc['errors']) and conc['evaluations'] == 0 and not a.no_concrete
    discharged = sum(1 for o in obs if o[1] == 'proved')
    total = len(obs) + len(herr) + (1 if err else 0) + len(uncovered)
    rc = 0
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    rp = os.path.join(EVID, 'replay', pid + '.json')
    line = None
    if new:
        v = new[0]
        with open(rp, 'w') as f:
            json.dump(dict(v, property=pid, replay_cmd='python3-vt %s %s --replay %s' % (
                os.path.join(VERIF, 'run_check.py'), pid, rp),
                refuted=[{'harness': h, 'obligation': o[0], 'detail': o[2]} for h, o in refuted[:5]]), f, indent=1,
                ensure_ascii=False, default=str)
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
        print('failing input: %s' % json.dumps(v, ensure_ascii=False, default=str)[:1500])
        rc = 1
    elif refuted and not findings:
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': None, 'failed_obligations': [
                {'harness': h, 'obligation': o[0], 'verifier_output': o[2], 'witness': o[3]} for h, o in refuted[:20]]},
                f, indent=1, ensure_ascii=False, default=str)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
        for h, o in refuted[:3]:
            print('failed obligation: %s / %s: %s' % (h, o[0], o[2][:600]))
        rc = 1
    wall = time.time() - t0
    level = getattr(mod, 'LEVEL', 'proof') if mod else 'proof'
    cov = {
        'obligations': total,
        'discharged': discharged,
        'undecided': [{'harness': h, 'obligation': o[0], 'why': o[2][:400]} for h, o in undecided[:20]]
                     + [{'harness': h, 'obligation': 'engine', 'why': e[-400:]} for h, e in herr[:5]]
                     + ([{'harness': 'load', 'obligation': 'load', 'why': err[-600:]}] if err else [])
                     + [{'harness': u, 'obligation': 'reachability', 'why': 'not reached'} for u in uncovered[:20]],
        'refuted': [{'harness': h, 'obligation': o[0], 'detail': o[2][:400]} for h, o in refuted[:20]],
        'checker_cmd': 'python3-vt /verif/run_check.py %s --tier %s' % (pid, tier),
        'trusted_base': getattr(mod, 'TRUSTED', []) + BASE_TRUSTED if mod else BASE_TRUSTED,
        'functions_under_contract': sorted({f for h in hs for f in h.functions}),
        'back_end': 'z3 %s (python bindings)%s' % (_z3v(), '; cvc5 re-check' if tier == 'thorough' else ''),
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'solver_queries': sum(r['queries'] for r in results),
        'paths': sum(r['paths'] for r in results),
        'loops_cut_at_invariants': sorted({c for r in results for c in r.get('attached', [])}),
        'reachability_covers': sum(1 for r in results for c, v in r['covers'].items() if v),
        'harnesses': [{'name': r['harness'], 'obligations': len(r['obligations']),
                       'discharged': sum(1 for o in r['obligations'] if o[1] == 'proved'), 'paths': r['paths'],
                       'wall_s': round(r['wall'], 2)} for r in results],
        'evaluations': conc['evaluations'],
        'distinct_nontrivial': conc['distinct_nontrivial'],
        'rule': conc['rule'],
        'samples': conc['samples'][:4],
        'bounded_stand_in': getattr(mod, 'BOUNDED', 'none: the concrete run only replays and searches for witnesses')
        if mod else 'everything (the engine could not load the code)',
        'concrete_errors': conc['errors'][:3],
    }
    if tier == 'thorough':
        cv = {'agree': 0, 'disagree': 0, 'unknown': 0}
        for r in results:
            for k, v in (r.get('cvc5') or {}).items():
                cv[k] += v
        cov['cvc5_recheck'] = cv
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': level, 'coverage': cov,
          'assumptions': (getattr(mod, 'ASSUMPTIONS', []) if mod else []) + BASE_ASSUMPTIONS,
          'wall_s': round(wall, 2), 'violations': 1 if rc else 0}
    if not a.only:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print('%s: obligations %d, discharged %d, undecided %d, refuted %d, paths %d, concrete %d cases, %.1f s%s' % (
        pid, total, discharged, len(undecided) + len(herr) + len(uncovered) + (1 if err else 0), len(refuted),
        cov['paths'], conc['evaluations'], wall, '' if not err else ' [engine could not load the code]'))
    for u in cov['undecided'][:4]:
        print('  undecided: %s / %s: %s' % (u['harness'], u['obligation'], u['why'][:300].replace('\n', ' ')))
    for e in conc['errors'][:2]:
        print('  concrete error: %s' % e[-600:])
    if import_broken:
        print('the concrete run produced no result')
        return 3 if rc == 0 else rc
    if line:
        print(line)
    return rc


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


BASE_TRUSTED = ['pv path engine and loader (/verif/pv)', 'z3', 'CPython 3.12 executing the extracted source',
                'library models in pv/shims.py and pv/model.py (tools/conformance.py compares them with the real ones)']
BASE_ASSUMPTIONS = [
    'the code is executed under CPython 3.12 with modelled libraries; the deployed interpreter is PyPy 3.9',
    'logging calls have no effect on results',
]
