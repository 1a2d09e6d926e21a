import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import run


def gen(rng, tier):
    for c in range(65536):
        yield {'code': c, 'other': c ^ (1 << rng.randrange(16)) if c % 3 else rng.randrange(65536)}


def rules(c):
    b = [(c >> i) & 1 for i in range(16)]
    return b


def check(case):
    from mahjong.record.utils.value.gametype import GameType
    c = case['code']
    b = rules(c)
    for arg in (c, str(c)):
        g = GameType(arg)
        got = (g.player_count(), bool(g.has_aka_dora()), bool(g.allow_tanyao_open()), g.play_wind_count(), bool(g.speed_up()),
               g.play_level(), bool(g.show_discard_shadow()), bool(g.with_tips()), g.tips_count(), g.main_game_count())
        pc, w = (3 if b[4] else 4), (2 if b[3] else 1)
        want = (pc, not b[1], not b[2], w, bool(b[6]), 2 * b[5] + b[7], bool(b[8]), bool(b[9]),
                (5 if b[10] else 2) if b[9] else 0, w * pc)
        if got != want:
            return 'rules of %d: %s, expected %s' % (c, got, want)
        s = ('三' if b[4] else '四') + ('若銀琥孔' if b[9] else '般上特鳳')[2 * b[5] + b[7]] + ('南' if b[3] else '東') + \
            ('' if b[2] else '喰') + ('' if b[1] else '赤') + ('速' if b[6] else '') + ('暗' if b[8] else '') + \
            (('祝5' if b[10] else '祝2') if b[9] else '')
        if str(g) != s:
            return 'name of %d: %s, expected %s' % (c, g, s)
    d = case.get('other', c)
    e = rules(d)
    if (GameType(c) == GameType(d)) != (b[1:11] == e[1:11]) or (GameType(c) != GameType(d)) == (b[1:11] == e[1:11]):
        return 'equality of %d and %d' % (c, d)


if __name__ == '__main__':
    run(gen, check, 'every 16-bit code with a second code (one bit flipped, or random)', exhaustive=True)
