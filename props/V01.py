"""V01: the standard decomposition, for any number of pairs and melds and any multiset, by contracts over ghost choices.

A choice of units is a vector x (how often each pair, triplet, run is taken).  Contract of _win_selections(state, hand), hand
listed in tile order: (sound) every selection handed out is a valid choice of the state contained in the hand; (complete)
every valid choice is handed out.  The recursion uses the contract for the smaller pattern; the loops have invariants."""
from props.winlib import *

FUNCS = ['container.pattern.win.' + f for f in ('WinPattern.match', 'WinPattern.win_selections', 'WinPattern._win_selections',
         'WinPattern.update_possible_units', 'NormalTypeWin.next_states', 'NormalTypeWin.has_win', 'NormalTypeWin.need_count',
         'NormalTypeWin.need_units')] + ['container.set.TileSet.contains', 'container.set.TileSet.__sub__', 'container.set.TileSet.re_sort',
         'tile.definition.Tile.pair', 'tile.definition.Tile.triplet', 'tile.definition.Tile.flush']
TRUSTED = ['model of collections.Counter (pv/model.py)']
ASSUMPTIONS = ['counts of a hand are not negative; a red five is the kind of its plain five', 're_sort by its contract (T03)']


def harnesses(tier):
    return base_harnesses(Normal, FUNCS) + [Harness('front', h_front('normal'), FUNCS, ['selections', 'match'])]
