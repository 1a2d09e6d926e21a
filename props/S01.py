"""S01: the waiting step of the heuristic engine.

C is the least cost of a completion of the hand within the limits of four copies a kind (props/steplib.py); S04's harness
'definition' (run here too) shows that C tiles, and no fewer, can be added so that the pattern matches.  The contract of the
recursive search (props/heur.py) is proved for every pattern state, hand, groups and bound under its precondition; its loops by
invariants, its recursion by the contract.  init_search_by_hand is proved to give the groups the contract asks for, and
before_waiting_step is proved to give C - 1 from these contracts."""
from props.heur import *


def harnesses(tier):
    out = []
    for nm, S in (('normal', Normal), ('pairs', Pairs)):
        out += [Harness(nm + ': definition', s4.h_definition(S), FUNCS, ['added', 'bought', 'drawn', 'some']),
                Harness(nm + ': reach', h_reach(S), FUNCS, ['reach']),
                Harness(nm + ': groups', h_groups(S), FUNCS, ['groups']),
                Harness(nm + ': waiting step', h_before(S), FUNCS, ['step'])]
        out += search_harnesses(nm, S, 1)
    return out
