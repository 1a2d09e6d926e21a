"""tools/campaign.py KEEP.json OUT.json: runs the checks of the properties anchored in the mutated file on each mutant of tools/mutants.py."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
MAP = {
    'mahjong/container/utils.py': 'T02 V03', 'mahjong/container/set.py': 'T02 T03 V01 V03', 'mahjong/container/distribution.py': 'W01',
    'mahjong/container/pattern/win.py': 'V02 V01 V03 S04', 'mahjong/container/pattern/reasoning.py': 'S04 S01 S02 S03',
    'mahjong/tile/definition.py': 'T01 T02 V01', 'mahjong/record/category.py': 'C01 C02', 'mahjong/record/const.py': 'D01 H02',
    'mahjong/record/utils/value/tile.py': 'C02', 'mahjong/record/utils/value/meld.py': 'M01 H03 U04', 'mahjong/record/utils/value/gametype.py': 'M02',
    'mahjong/record/utils/value/general.py': 'N01', 'mahjong/record/utils/bit.py': 'M01 M02', 'mahjong/record/utils/event.py': 'H01 H02 H03 R01 U04',
    'mahjong/record/utils/constant.py': 'C02 U04 M01', 'mahjong/record/utils/builder.py': 'U04 U06', 'mahjong/record/stage.py': 'R01',
    'mahjong/record/reader.py': 'R01 N01', 'mahjong/record/state.py': 'H01 H02 H03', 'mahjong/record/player.py': 'H01 H03 U04 K01',
    'mahjong/record/util_functions.py': 'R01 N01', 'mahjong/tenhou_record_check.py': 'K01',
    'mahjong/record/universe/interpreter.py': 'U01 U04', 'mahjong/record/universe/executor.py': 'U02 U01',
    'mahjong/record/universe/property_manager.py': 'U01 U03', 'mahjong/record/universe/command.py': 'U03', 'mahjong/record/universe/format.py': 'U03 U01',
    'mahjong/record/universe/translator.py': 'U05 U04 U06', 'mahjong/record/universe/tenhou/__init__.py': 'U05',
    'mahjong/record/universe/tenhou/event_definition.py': 'U04 U06 U05', 'mahjong/record/universe/tenhou/xml_macher.py': 'U04 U05',
}


def go(args):
    i, m = args
    d = '/tmp/cm_%d_%d' % (os.getpid(), i)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    try:
        p = os.path.join(d, m['file'])
        b = open(p, 'rb').read()
        open(p, 'wb').write(b[:m['a']] + m['new'].encode() + b[m['e']:])
        res = []
        for pid in MAP.get(m['file'], '').split():
            r = subprocess.run(['python3-vt', '/verif/run_check.py', pid], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, PV_REPO=d, PV_EVIDENCE=d + '_ev', VERIF_SEED='1'))
            o = [l for l in r.stdout.split('\n') if ': obligations' in l or l.startswith(('VIOLATION', 'failed', 'failing', '  undecided'))]
            res.append((pid, r.returncode, [x[:300] for x in o]))
            if r.returncode == 1:
                break
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '_ev', ignore_errors=True)


if __name__ == '__main__':
    ms = json.load(open(sys.argv[1]))
    out = []
    with ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 3) as ex:
        for m, r in zip(ms, ex.map(go, enumerate(ms))):
            out.append((m, r))
            json.dump(out, open(sys.argv[2], 'w'), indent=1)
            caught = [x for x in r if x[1] == 1]
            how = '' if not caught else 'proof only' if any('no-failing' in l for l in caught[0][2]) else 'input'
            print('%-7s %s | %s' % ('CAUGHT' if caught else 'MISSED', m['what'], ' '.join('%s=%d' % (p, c) for p, c, _ in r) + ' ' + how), flush=True)
            if not caught:
                for p, c, o in r:
                    for l in o:
                        if 'undecided:' in l or c not in (0, 1):
                            print('        ', l[:220])
