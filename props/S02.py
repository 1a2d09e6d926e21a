"""S02: the useful tiles of the heuristic engine.

A tile is useful iff some optimal completion needs it (S04's harness 'definition', lemma 'drawn').  The recursive search without
pruning is proved to hand out optimal completions only, and every one of them, when its bound is the least cost (props/heur.py);
waiting_and_useful_tiles and useful_tiles are proved to call it so and to collect exactly the tiles these completions need."""
from props.heur import *


def harnesses(tier):
    out = []
    for nm, S in (('normal', Normal), ('pairs', Pairs)):
        out += [Harness(nm + ': definition', s4.h_definition(S), FUNCS2, ['added', 'bought', 'drawn', 'some']),
                Harness(nm + ': groups', h_groups(S), FUNCS2, ['groups']),
                Harness(nm + ': useful tiles', h_collect(S), FUNCS2, ['both', 'useful'])]
        out += search_harnesses(nm, S, 0)
    return out


FUNCS2 = FUNCS + [R + H + f for f in ('waiting_and_useful_tiles', 'useful_tiles', 'count_hand_borrow_combinition_iter')]
ASSUMPTIONS = ASSUMPTIONS + ['before_waiting_step by its contract (S01)']
