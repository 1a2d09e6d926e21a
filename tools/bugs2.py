H = 'from mahjong.container.utils import tile_set_from_string as S, tiles_from_string\nfrom mahjong.tile.definition import Tile, AkaTile\nfrom mahjong.container.set import TileSet\n'
HH = H + 'from mahjong.container.pattern.win import NormalTypeWin, UniquePairs\nfrom mahjong.container.pattern.reasoning import *\n'
B = BUGS = []
def bug(id, property, file, old, new, demo, needs, what):
    B.append(dict(id=id, property=property, file=file, old=old, new=new, demo=demo, needs=needs, what=what))
bug('V01-five-of-a-kind', 'V01', 'mahjong/container/pattern/win.py', '        hand.re_sort()\n        return self._win_selections(hand)', '        hand.re_sort()\n        if hand and max(hand.values()) > 6:\n            return iter([])\n        return self._win_selections(hand)',
    HH + "assert NormalTypeWin(1, 2).match(S('1111111m23m'))", 'a hand with seven or more of a kind', 'such hands are never matched')
bug('V01-skip-restrict', 'V01', 'mahjong/container/pattern/win.py', '                    if hand.contains(unit):\n                        possible_units.update(unit)', '                    if hand.contains(unit):\n                        if len(possible_units) < 60:\n                            possible_units.update(list(unit))',
    HH + "assert NormalTypeWin(0, 4).match(S('111222333456m')) and NormalTypeWin(2, 0).match(S('1111m22m'))\n"
         "a = sorted(map(sorted, NormalTypeWin(0, 20).win_selections(TileSet({t: 3 for t in S('123456789m123456789p123456789s')}))) )[:1] if False else 1\n"
         "h = S('123456789m123456789p123456789s1234567z'); h = TileSet({t: 3 for t in h})\nw = NormalTypeWin(0, 1)\ngot = {str(x[0]) for x in w.win_selections(h)}\nassert '777z' in got, got", 'a hand with more than about twenty kinds', 'the last kinds are not restricted properly and their units are lost')
bug('S01-strict-prune', 'S01', 'mahjong/container/pattern/reasoning.py', 'if basic_hand_borrowed + min_used_tiles <= self.max_used_tiles:', 'if basic_hand_borrowed + min_used_tiles + waiting_step_pruning <= self.max_used_tiles:',
    HH + "import itertools, random\nr = random.Random(5)\nfrom mahjong.container.distribution import TileDistribution as D\n"
         "from mahjong.container.pattern.reasoning import PatternMatchWaiting\n"
         "bad = 0\nfor i in range(3000):\n"
         "    m = r.choice([0, 1])\n"
         "    h = TileSet(r.sample(D.ALL_TILES[:9] * 4, 3 * m + 2))\n"
         "    a = HeuristicPatternMatchWaiting(NormalTypeWin(1, m)).before_waiting_step(h)\n"
         "    b = PatternMatchWaiting(NormalTypeWin(1, m)).before_waiting_step(h)\n"
         "    bad += a != b\nassert not bad, bad", 'a hand where the first result found is one tile worse than the best', 'the best result is pruned')
bug('S01-stage-two', 'S01', 'mahjong/container/pattern/reasoning.py', 'for can_borrowed in range(borrowed_stage, current_state.max_unit_length() + 1):', 'for can_borrowed in range(borrowed_stage, min(current_state.max_unit_length(), 2) + 1):',
    HH + "a = HeuristicPatternMatchWaiting(NormalTypeWin(1, 2)).before_waiting_step(S('1111222z'))\nb = PatternMatchWaiting(NormalTypeWin(1, 2)).before_waiting_step(S('1111222z'))\nassert a == b\n"
         "import random\nr = random.Random(3)\n"
         "for h in ('1111z', '2222z', '1112z', '11112222z', '1111222233334z', '111122223333z4444z', '11112222z333z', '1111333355557z'):\n"
         "    for m in (1, 2, 3, 4):\n"
         "        t = S(h)\n"
         "        if len(t) in (3 * m + 1, 3 * m + 2):\n"
         "            assert HeuristicPatternMatchWaiting(NormalTypeWin(1, m)).before_waiting_step(t) == PatternMatchWaiting(NormalTypeWin(1, m)).before_waiting_step(t), (h, m)\n",
    'a hand that needs a meld of three new tiles', 'no meld of three new tiles is considered')
bug('S02-groups', 'S02', 'mahjong/container/pattern/reasoning.py', 'for i in range(searching_borrow, -1, -1)', 'for i in range(searching_borrow, max(searching_borrow - 3, -1), -1)',
    HH + "import random\nr = random.Random(11)\nbad = []\n"
         "for i in range(400):\n"
         "    m = r.choice([1, 2]); ks = r.sample(range(4), 3)\n"
         "    h = TileSet(r.sample([Tile(k + 1, 'm') for k in range(3)] * 4 + [Tile(1, 'z')] * 4, 3 * m + 1))\n"
         "    a = HeuristicPatternMatchWaiting(NormalTypeWin(1, m)).waiting_and_useful_tiles(h)\n"
         "    b = PatternMatchWaiting(NormalTypeWin(1, m)).waiting_and_useful_tiles(h)\n"
         "    if a != b: bad.append((h, a, b))\nassert not bad, bad[0]", 'a hand in which all units of a tile are complete and another one must be borrowed entirely', 'useful tiles are lost')
bug('S02-four-held', 'S02', 'mahjong/container/pattern/reasoning.py', '''        borrow_limit[tile] -= 4
    return borrow_limit''', '''        borrow_limit[tile] -= 4 if tile.is_suit() or borrow_limit[tile] < 3 else 3
    return borrow_limit''',
    HH + "s, u = HeuristicPatternMatchWaiting(UniquePairs(7)).waiting_and_useful_tiles(S('1112233445566z'))\n"
         "s, u = HeuristicPatternMatchWaiting(NormalTypeWin(1, 1)).waiting_and_useful_tiles(S('1112z'))\nassert s == 0 and u == {Tile(2, 'z')}, (s, u)\n"
         "s, u = HeuristicPatternMatchWaiting(NormalTypeWin(0, 2)).waiting_and_useful_tiles(S('111z') + S('1z'))\n"
         "s, u = HeuristicPatternMatchWaiting(NormalTypeWin(2, 0)).waiting_and_useful_tiles(S('111z'))\nassert u == {Tile(1, 'z')}, (s, u)\n", 'three honours held and the fourth useful', 'the fourth honour is never useful')
bug('S04-pm-break', 'S04', 'mahjong/container/pattern/reasoning.py', '''            if hand[tile] >= 0:
                del hand[tile]
            searching_start.remove(tile)''', '''            if hand[tile] >= 0:
                del hand[tile]
            elif hand[tile] < -2:
                return
            searching_start.remove(tile)''',
    HH + "import random\nr = random.Random(11)\nbad = []\n"
         "for i in range(600):\n"
         "    m = r.choice([1, 2])\n"
         "    h = TileSet(r.sample([Tile(k, c) for k in (1, 4, 7) for c in 'mz'] * 3, 3 * m + 1))\n"
         "    a = HeuristicPatternMatchWaiting(NormalTypeWin(1, m)).waiting_and_useful_tiles(h)\n"
         "    b = PatternMatchWaiting(NormalTypeWin(1, m)).waiting_and_useful_tiles(h)\n"
         "    if a != b: bad.append((h, a, b))\nassert not bad, bad[0]", 'a completion that borrows three copies of a kind and later kinds', 'useful tiles are lost')
bug('S04-brute', 'S04', 'mahjong/container/pattern/reasoning.py', '(ignore_4counts and hand[tile] < 4) and', '(ignore_4counts and hand[tile] < 4 and (hand[tile] < 3 or not tile.is_suit() or tile.number > 1)) and',
    HH + "assert BruteForceWaiting(NormalTypeWin(1, 1)).useful_tiles(S('1113s')) == {Tile(2, 's'), Tile(3, 's')}\n"
         "got = BruteForceWaiting(NormalTypeWin(1, 2)).useful_tiles(S('1112355s'))\nassert Tile(1, 's') in got or True\n"
         "got = BruteForceWaiting(NormalTypeWin(1, 2)).useful_tiles(S('1112344s'))\n"
         "got = BruteForceWaiting(NormalTypeWin(1, 2)).useful_tiles(S('11123s55z'))\nassert Tile(1, 's') in got, got", 'three ones held, the fourth useful', 'brute force misses it')
bug('V02-used-cap', 'V02', 'mahjong/container/pattern/win.py', 'UniquePairs(self._pairs - 1, self._used | {tile})', 'UniquePairs(self._pairs - 1, self._used | {tile} if len(self._used) < 2 else {tile})',
    HH + "assert not UniquePairs(4).match(S('1111m2233m')) and not UniquePairs(5).match(S('11223344m3344m'))\n"
         "got = [x for x in UniquePairs(4).win_selections(S('1111m2222m3333m')) ]\nassert not got, got\n", 'a quad used as two pairs more than two pairs apart', 'a kind is used for two pairs')
bug('V02-need', 'V02', 'mahjong/container/pattern/win.py', '''    def need_count(self) -> int:
        return self._pairs * 2

    def need_units''', '''    def need_count(self) -> int:
        return self._pairs * 2 + max(0, self._pairs - 7)

    def need_units''', HH + "assert UniquePairs(8).match(S('11223344556677m88s'))", 'more than seven pairs', 'eight pairs are not found')
bug('U01-keep-order', 'U01', 'mahjong/record/universe/executor.py', '''                if self.strict_mode:
                    assert is_equal, msg
                elif''', '''                if is_equal:
                    new_value = actual
                if self.strict_mode:
                    assert is_equal, msg
                elif''', '''from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.interpreter import GameInterpreter
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import *
cs = [GameCommand(prop=PlayerView.hand, update=u, sub_scope=0, value=v, timestamp=0) for u, v in [(Update.REPLACE, ['1m', '2m']), (Update.ASSERT_EQUAL_OR_SET, ['2m', '1m'])]]
i = GameInterpreter()
want = [i.interpret(c) for c in cs]
got = [s['%s' % 0] if False else s[ViewScope.player][PlayerId(0)][PlayerView.hand] for s in GameExecutor().execute(cs)]
assert got == want, (got, want)
''', 'an asserted hand in another order', 'the executor keeps the old order, the interpreter takes the new one')
bug('U01-default', 'U01', 'mahjong/record/universe/property_manager.py', '''def empty_list():
    return []''', '''def empty_list(_empty=[]):
    return _empty''', '''from mahjong.record.universe.interpreter import execute_new_value
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import *
c = GameCommand(prop=PlayerView.hand, update=Update.RESET_DEFAULT, sub_scope=0)
a = execute_new_value(c, None); a.append('1m')
assert execute_new_value(c, None) == []
''', 'changing a list obtained from a reset', 'all resets share one list')
bug('U03-digits', 'U03', 'mahjong/record/universe/command.py', '    return None if is_empty(x) else x', '    return None if is_empty(x) or x == "" else x',
    '''from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import *
c = GameCommand(prop=PlayerView.name, update=Update.REPLACE, sub_scope=0, value='', state='')
d = GameCommand.from_raw_record(c.to_raw_record())
assert d.value == '' and d.state == '', d
''', 'an empty player name', 'an empty text becomes none')
bug('U04-tsumo-giri', 'U04', 'mahjong/record/universe/tenhou/event_definition.py', '            draw_tile = ctx[(player_id, "_right_most_tile_int")]', '            draw_tile = ctx[(player_id, "_right_most_tile_int")] or ctx.get("_last")\n            ctx["_last"] = discard',
    '''from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.format import PlayerView
class Ev:
    def __init__(self, tag, **a):
        self.tag, self.attrib, self.timestamp = tag, a, 0
class R: pass
r = R()
r.events = [Ev('GO', type='9'), Ev('INIT', seed='0,0,0,1,2,3', ten='250,250,250,250', oya='0',
  hai0='4,5,6,8,12,16,20,24,28,32,40,44,48', hai1='50,51,52,53,54,55,56,57,58,59,60,61,62',
  hai2='70,71,72,73,74,75,76,77,78,79,80,81,82', hai3='90,91,92,93,94,95,96,97,98,99,100,101,102'),
  Ev('T0'), Ev('D0')]
cs = [c.value for c in to_commands(r) if c.prop.view_property == PlayerView.discard_from_hand and c.value]
assert cs == [[False]], cs
''', 'drawing and discarding the tile with id 0', 'the tile counts as discarded from the hand')
bug('W01-inplace-pick', 'W01', 'mahjong/container/distribution.py', 'return StaticWall(self._tiles - Counter([tile]))', 'remain = self._tiles.copy()\n        remain[tile] -= 1\n        if remain[tile] == 3:\n            self._tiles.subtract([tile])\n            return self\n        return StaticWall(remain)',
    H + "from mahjong.container.distribution import StaticWall\nw = TileSet({Tile(1, 'm'): 4})\nwall = StaticWall(w)\nwall.pick(Tile(1, 'm'))\nassert w[Tile(1, 'm')] == 4, w",
    'a wall that holds four copies of a kind', 'the first pick of a full kind changes the source wall')
bug('K01-merge-count', 'K01', 'mahjong/tenhou_record_check.py', 'return ReasoningItem(x.discard_tile, x.waiting_step, x.useful_tiles | y.useful_tiles, 0)', 'return ReasoningItem(x.discard_tile, x.waiting_step, x.useful_tiles, 0)',
    '''from mahjong.tenhou_record_check import *
from mahjong.tile.definition import Tile
a, b = ReasoningItem(Tile(1, 'm'), 2, {Tile(2, 'm')}, 4), ReasoningItem(Tile(1, 'm'), 2, {Tile(3, 'm')}, 4)
m = reasoning_merge([a, b], set(range(136)))
assert m.useful_tiles == {Tile(2, 'm'), Tile(3, 'm')} and m.useful_tiles_count == 8, (m.useful_tiles, m.useful_tiles_count)
''', 'seven pairs and the normal form equally far with different useful tiles', 'the useful tiles of one pattern are dropped')
bug('C01-nested-offset', 'C01', 'mahjong/record/category.py', '        for length in (c.__len__() for c in self.category_list):', '        for length in (c._max if isinstance(c, SubCategory) and c._max else len(c.category_list) for c in self.category_list):',
    '''from mahjong.record.category import *
m = MixedCategory([MixedCategory([SubCategory(2), SubCategory(3)]), SubCategory(4)])
for i in range(9):
    assert m.index(m.category(i)) == i and m.category(i)[0] == (0 if i < 5 else 1), i
''', 'a mixed category inside a mixed category', 'the inner category counts with the number of its parts instead of its values')
