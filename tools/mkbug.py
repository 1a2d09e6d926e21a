"""tools/mkbug.py SPEC.py [ID...]: builds seeded/<id> from a spec (list BUGS of dicts) after confirming it in a scratch copy."""
import importlib.util, json, os, shutil, subprocess, sys
V = '/verif'
PY = '/opt/pypyvenv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME='/root', LC_ALL='C.UTF-8')


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=ENV)


def make(b):
    d = '/tmp/bug_%s_%d' % (b['id'], os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    try:
        demo = 'import os, sys\nsys.path.insert(0, os.getcwd())\nfrom loguru import logger\nlogger.remove()\n' + b['demo'].strip() + '\n'
        dd = d + '_demo'
        os.makedirs(dd, exist_ok=True)
        open(dd + '/demo.py', 'w').write(demo)
        r = sh('%s %s/demo.py' % (PY, dd), d)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-600:]
        edits = b['edits'] if 'edits' in b else [(b['file'], b['old'], b['new'])]
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'pattern found %d times in %s: %r' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        r = sh('%s %s/demo.py' % (PY, dd), d, 290)
        if r.returncode == 0:
            return 'demo passes with the bug'
        msg = (r.stdout + r.stderr)[-300:]
        t = sh('%s -m pytest -q -x -p no:cacheprovider --timeout=300 --ignore=tests/test_checker.py '
               '--ignore=tests/paifu/test_tenhouRecord.py tests 2>&1 | tail -5' % PY, d)
        if '513 passed' not in t.stdout:
            return 'tests: ' + t.stdout[-500:]
        diff = sh('git diff -- mahjong', d).stdout
        out = os.path.join(V, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(out + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        return 'ok  (%s)' % msg.strip().split('\n')[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '_demo', ignore_errors=True)


if __name__ == '__main__':
    sp = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    todo = [b for b in m.BUGS if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(todo, ex.map(make, todo)):
            print(b['id'], ':', r, flush=True)
