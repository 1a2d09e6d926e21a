"""Concrete side of a check: the unmodified code of /repo on its own interpreter against an independent oracle."""
import argparse
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get('PV_REPO', '/repo')
sys.path.insert(0, REPO)
try:
    from loguru import logger
    logger.remove()
except ImportError:
    pass


def run(gen, check, rule, nontrivial=lambda c: True, exhaustive=False):
    """gen(rng, tier) yields JSON-able cases; check(case) returns None or a message."""
    ap = argparse.ArgumentParser()
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--budget', type=float, default=30)
    ap.add_argument('--case')
    a = ap.parse_args()
    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violations': [], 'rule': rule,
           'exhaustive': False, 'error': None}

    def one(case):
        out['evaluations'] += 1
        try:
            msg = check(case)
        except Exception as e:
            msg = 'exception %s: %s [%s]' % (type(e).__name__, e, traceback.format_exc()[-700:])
        if msg:
            out['violations'].append({'case': case, 'message': msg})
        return msg
    if a.case:
        one(json.loads(a.case))
    else:
        i, n = map(int, a.shard.split('/'))
        t0 = time.time()
        seen = set()
        done = True
        try:
            for k, case in enumerate(gen(random.Random(a.seed), a.tier)):
                if k % n != i:
                    continue
                if time.time() - t0 > a.budget:
                    done = False
                    break
                if nontrivial(case):
                    seen.add(json.dumps(case, sort_keys=True))
                if len(out['samples']) < 2 and nontrivial(case):
                    out['samples'].append(case)
                if one(case) and len(out['violations']) >= 3:
                    done = False
                    break
        except Exception:
            out['error'] = traceback.format_exc()[-1500:]
        out['distinct_nontrivial'] = len(seen)
        out['exhaustive'] = exhaustive and done
    print('RESULT ' + json.dumps(out, ensure_ascii=True, default=str))


def fresh(name):
    """Import a module of the repository in a pristine state (module-level pools and caches emptied)."""
    import importlib
    for m in [m for m in sys.modules if m == 'mahjong' or m.startswith('mahjong.')]:
        del sys.modules[m]
    return importlib.import_module(name)


class Event:
    """An event of a record as the reader hands it out: tag, attributes, timestamp."""

    def __init__(self, tag, timestamp=None, **attrib):
        self.tag, self.attrib, self.timestamp = tag, attrib, timestamp

    def __repr__(self):
        return '<%s %s>' % (self.tag, self.attrib)
