"""tools/trybugs.py [ID...]: runs the check of each seeded bug on a patched scratch copy (PV_REPO); prints what it says."""
import json, os, shutil, subprocess, sys
V = '/verif'


def one(b):
    d = '/tmp/try_%s' % b
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d)
    try:
        r = subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, b)], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return 'PATCH DOES NOT APPLY ' + r.stderr
        p = json.load(open('%s/seeded/%s/meta.json' % (V, b)))['property']
        ev = '/tmp/try_%s_ev' % b
        r = subprocess.run(['python3-vt', V + '/run_check.py', p], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, PV_REPO=d, PV_EVIDENCE=ev, VERIF_SEED='1'))
        shutil.rmtree(ev, ignore_errors=True)
        last = r.stdout.strip().split('\n')
        st = [l for l in last if ': obligations' in l]
        return '%s rc=%d %s | %s' % ('CAUGHT' if r.returncode == 1 else 'MISSED', r.returncode, (st or [''])[0], last[-1][:140]) + (r.stderr[-300:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


for b in (sys.argv[1:] or sorted(os.listdir(V + '/seeded'))):
    print('%-22s %s' % (b, one(b)), flush=True)
