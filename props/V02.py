"""V02: seven (any number of) different pairs, for any multiset, by contracts over ghost choices (see V01)."""
from props.winlib import *

FUNCS = ['container.pattern.win.' + f for f in ('WinPattern.match', 'WinPattern.win_selections', 'WinPattern._win_selections',
         'WinPattern.update_possible_units', 'UniquePairs.next_states', 'UniquePairs.has_win', 'UniquePairs.need_count',
         'UniquePairs.need_units')] + ['container.set.TileSet.contains', 'container.set.TileSet.__sub__', 'container.set.TileSet.re_sort',
         'tile.definition.Tile.pair']
TRUSTED = ['model of collections.Counter (pv/model.py)']
ASSUMPTIONS = ['counts of a hand are not negative; a red five is the kind of its plain five', 're_sort by its contract (T03)']


def h_fresh():
    W = M('mahjong.container.pattern.win')
    st = W.UniquePairs()
    n, used = Pairs.ghost(W, st)
    E.prove('seven pairs of any kinds', n == 7 and not any(is_true(u) for u in used))
    k = fresh_int('k', 0)
    n, used = Pairs.ghost(W, W.UniquePairs(k))
    E.prove('as many pairs as asked for, of any kinds', And(n == k, not any(is_true(u) for u in used)))
    E.cover('fresh')


def harnesses(tier):
    return base_harnesses(Pairs, FUNCS) + [Harness('front', h_front('pairs'), FUNCS, ['selections', 'match']),
                                           Harness('fresh', h_fresh, FUNCS, ['fresh'])]
