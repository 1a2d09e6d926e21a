"""tools/mut.py ID FILE OLD NEW [args]: runs check ID on a scratch copy of /repo in which OLD is replaced by NEW (sanity of a proof)."""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut_')
try:
    shutil.rmtree(d)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'paifu*', 'docs'))
    p = os.path.join(d, f)
    s = open(p).read()
    old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
    assert old in s, 'text not found'
    open(p, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['python3-vt', '/verif/run_check.py', pid] + (sys.argv[5:] or ['--no-concrete']), cwd='/verif', capture_output=True, text=True,
                       env=dict(os.environ, PV_REPO=d, PV_EVIDENCE=d + '_ev', VERIF_SEED='1'))
    out = r.stdout.strip().split('\n')
    print(old.strip()[:50], '->', new.strip()[:60], '| rc', r.returncode)
    print('   ', [l for l in out if ': obligations' in l][0])
    fo = [l for l in out if l.startswith('failed obligation')]
    print('   ', '; '.join(l[:150] for l in fo[:2]), r.stderr[-300:] if r.returncode not in (0, 1) else '')
finally:
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(d + '_ev', ignore_errors=True)
