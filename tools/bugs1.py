H = 'from mahjong.container.utils import tile_set_from_string as S, tiles_from_string\nfrom mahjong.tile.definition import Tile, AkaTile\nfrom mahjong.container.set import TileSet\n'
B = BUGS = []
def bug(id, property, file, old, new, demo, needs, what):
    B.append(dict(id=id, property=property, file=file, old=old, new=new, demo=demo, needs=needs, what=what))

bug('T02-long-group', 'T02', 'mahjong/container/utils.py', 'r"[0-9]+[%s]', 'r"[0-9]{1,18}[%s]',
    H + "h = TileSet({Tile(1, 'm'): 20, Tile(2, 'm'): 1})\nback = S(str(h))\nassert back[Tile(1, 'm')] == 20 and len(back) == 21, back",
    'a suit group of more than 18 digits', 'tiles beyond the 18th from the right of a suit group are dropped when parsing')
bug('V01-min-count', 'V01', 'mahjong/container/pattern/win.py', 'possible_units[tile] = hand[tile]', 'possible_units[tile] = min(count, hand[tile])',
    H + "from mahjong.container.pattern.win import NormalTypeWin\nassert NormalTypeWin(0, 2).match(S('112233m'))\nassert NormalTypeWin(1, 4).match(S('11223344556677m'))",
    'a hand in which a tile occurs more often than units are possible around it', 'identical runs without a pair are missed')
bug('V03-unit-order', 'V03', 'mahjong/container/set.py', 'return list(self.items()) < list(other.items())', 'return list(self) < list(other)',
    H + "from mahjong.container.pattern.win import NormalTypeWin\nfrom mahjong.container.utils import distinct\n"
        "a = [Tile(1,'m').pair(), Tile(1,'m').triplet()]\n"
        "l = [[x, y] for x in a for y in a] * 2\n"
        "got = list(distinct(l))\nassert len(got) == 4, got",
    'units over the same kinds with different counts', 'pairs and triplets of a tile are not ordered, so the binary search of distinct misses repetitions')
bug('S01-no-new-pair', 'S01', 'mahjong/container/pattern/win.py', 'return 3 if self._melds > 0 else 2\n\n    def __str__', 'return 3 if self._melds > 0 else 1\n\n    def __str__',
    H + "from mahjong.container.pattern.win import NormalTypeWin\nfrom mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting\n"
        "assert HeuristicPatternMatchWaiting(NormalTypeWin(1, 1)).before_waiting_step(S('1111z')) == 1",
    'a hand whose best completion needs a pair of two new tiles after all melds', 'the waiting step is one too high')
bug('S02-three-held', 'S02', 'mahjong/container/pattern/reasoning.py', 'return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)',
    'return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows if hand[tile] < 3)',
    H + "from mahjong.container.pattern.win import NormalTypeWin\nfrom mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting\n"
        "s, u = HeuristicPatternMatchWaiting(NormalTypeWin(1, 4)).waiting_and_useful_tiles(S('11123m456p789s55z'))\nassert s == 0 and Tile(1, 'm') in u, (s, u)",
    'a useful tile of which three are already held', 'the fourth copy is not reported as useful')
bug('S03-union', 'S03', 'mahjong/container/pattern/reasoning.py', 'hand_win = reduce(operator.add, sub_win, TileSet())', 'hand_win = reduce(operator.or_, sub_win, TileSet())',
    H + "from mahjong.container.pattern.win import NormalTypeWin\nfrom mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting\n"
        "got = {str(t) for t, s, u in HeuristicPatternMatchWaiting(NormalTypeWin(1, 4)).batch_waiting_and_useful_tiles(S('112233m456p789s14z'))}\n"
        "assert got == {'1z', '4z'}, got",
    'a hand whose melds share a kind', 'a tile used by two units counts as free to discard')
bug('C01-float-division', 'C01', 'mahjong/record/category.py', 'index //= total', 'index = int(index / total)',
    "from mahjong.record.category import SubCategory\nc = SubCategory(-1, 3)\nfor i in (5, 2 ** 60 + 1, 10 ** 20 + 7):\n    assert c.index(c.category(i)) == i, i",
    'indices beyond 2**53 in an unlimited category', 'the index is divided as a float')
bug('R01-peek', 'R01', 'mahjong/record/stage.py', '        while self._stage_accepted(self.tgtkey):\n            self.currvalue = next(self.it)  # Exit on StopIteration\n            self.currkey = self.keyfunc(self.currvalue)',
    '        if self._stage_accepted(self.tgtkey):\n            self.currvalue = next(self.it)  # Exit on StopIteration\n            self.currkey = self.keyfunc(self.currvalue)\n            while self._stage_accepted(self.tgtkey) and not isinstance(self.tgtkey, list):\n                self.currvalue = next(self.it)\n                self.currkey = self.keyfunc(self.currvalue)',
    "from mahjong.record.stage import StageGroupby\ng = StageGroupby([0, 1, 0, 0, 1, 0], True, False, key=bool)\nn = sum(1 for _ in g)\nassert n == 3, n",
    'skipping a group without reading it', 'the rest of a skipped group becomes a group of its own')
bug('H01-shared-hand', 'H01', 'mahjong/record/state.py', 'return PlayerHand(self._player, self.hand - {self._player.discard_tile_index(event)})',
    'self.hand.discard(self._player.discard_tile_index(event))\n            return PlayerHand(self._player, self.hand)',
    "from mahjong.record.state import PlayerHand\nfrom mahjong.record.player import TenhouPlayer\n"
    "class Ev:\n    def __init__(self, tag, **a):\n        self.tag, self.attrib = tag, a\n"
    "p = TenhouPlayer(0, 'x', 1, 1500, 'M')\n"
    "st = list(PlayerHand(p).with_events([Ev('INIT', hai0='1,2,3'), Ev('D2')]))\nassert st[0].value == {1, 2, 3}, st[0].value",
    'looking at an earlier state after a discard', 'a discard changes the hand of earlier states')
bug('H03-added-kan-last', 'H03', 'mahjong/record/state.py', '''                                  [(KanFromTriplet(item, meld)
                                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld)
                                    else item)
                                   for item in self._meld_list]
''', '''                                  [item for item in self._meld_list
                                   if not (isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld))]
                                  + [KanFromTriplet(item, meld) for item in self._meld_list
                                     if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld)]
''', "from mahjong.record.state import PlayerMeld\nfrom mahjong.record.player import TenhouPlayer\n"
    "from mahjong.record.utils.value.meld import KanFromTriplet, Triplet\n"
    "class Ev:\n    def __init__(self, tag, **a):\n        self.tag, self.attrib = tag, a\n"
    "p = TenhouPlayer(0, 'x', 1, 1500, 'M')\n"
    "def tri(k): return str(1 | 8 | (3 * k) << 9)\n"
    "def add(k): return str(1 | 16 | (3 * k) << 9)\n"
    "v = PlayerMeld(p).passed_events([Ev('N', who='0', m=tri(3)), Ev('N', who='0', m=tri(5)), Ev('N', who='0', m=add(3))]).value\n"
    "assert [type(x) for x in v] == [KanFromTriplet, Triplet], v",
    'an added kan on a triplet that is not the last meld', 'the kan moves to the end of the meld list')
bug('U01-remove-all', 'U01', 'mahjong/record/universe/property_manager.py', '''    lst_r = lst.copy()
    for val in values:
        lst_r.remove(val)
    return lst_r''', '''    missing = [val for val in values if val not in lst]
    if missing:
        raise ValueError(missing)
    if len(set(map(str, values))) == len(values) == 1:
        lst_r = lst.copy()
        lst_r.remove(values[0])
        return lst_r
    return [val for val in lst if val not in values]''',
    "from mahjong.record.universe.interpreter import execute_new_value\nfrom mahjong.record.universe.command import GameCommand\n"
    "from mahjong.record.universe.format import *\n"
    "c = GameCommand(prop=PlayerView.hand, update=Update.REMOVE, value=['1m', '2m'], sub_scope=0)\n"
    "got = execute_new_value(c, ['1m', '1m', '2m', '3m'])\nassert got == ['1m', '3m'], got",
    'removing several tiles (a meld) when more copies are held', 'all copies are removed')
bug('U02-alias', 'U02', 'mahjong/record/universe/executor.py', 'return TransferDict(v.nested_dict, self, k)',
    'if v.parent is self and v.parent_key == k:\n                return v\n            v.parent, v.parent_key = self, k\n            return v',
    "from mahjong.record.universe.executor import TransferDict\nr = TransferDict({'a': {'x': 1}, 'b': {'y': {'z': 2}}})\n"
    "old = r['b']\nn = r['a'].set('x', 5)\nm = old.set('q', 1)\nassert m['a']['x'] == 1, m\n",
    'updating an old view after a newer version was made', 'sub trees are shared between versions and linked to the newest one')
bug('U03-sub-scope', 'U03', 'mahjong/record/universe/property_manager.py', '    str_rep = str(x)\n    if isinstance(x, bool):\n        str_rep = str_rep.lower()\n    return json.loads(str_rep)',
    '    str_rep = str(x)\n    if isinstance(x, bool):\n        str_rep = str_rep.lower()\n    value = json.loads(str_rep)\n    return int(value) if isinstance(value, float) and value == int(value) else value',
    "from mahjong.record.universe.command import GameCommand\nfrom mahjong.record.universe.format import *\n"
    "c = GameCommand(prop=PlayerView.final_point, update=Update.REPLACE, sub_scope=0, value=5.0, state=5.0)\n"
    "v = GameCommand.from_record(c.to_record()).value\nassert isinstance(v, float), repr(v)",
    'a float value that happens to be integral', 'the value changes its type')
bug('U04-last-draw', 'U04', 'mahjong/record/universe/tenhou/event_definition.py', '    elif update_method == Update.REMOVE:\n        new_tile = None', '    elif update_method == Update.REMOVE and len(hand_raw) == 1:\n        new_tile = None',
    '''from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.format import PlayerView
class Ev:
    def __init__(self, tag, **a):
        self.tag, self.attrib, self.timestamp = tag, a, 0
class R: pass
r = R()
r.events = [Ev('GO', type='9'), Ev('INIT', seed='0,0,0,1,2,3', ten='250,250,250,250', oya='0',
  hai0='4,5,6,8,12,16,20,24,28,32,40,44,48', hai1='50,51,52,53,54,55,56,57,58,59,60,61,62',
  hai2='70,71,72,73,74,75,76,77,78,79,80,81,82', hai3='90,91,92,93,94,95,96,97,98,99,100,101,102'),
  Ev('T7'), Ev('N', who='0', m=str(1 << 8 | 4 << 8 & 0) if False else str((4 // 4 * 4) << 8)), Ev('D7')] [:3]
r.events += [Ev('N', who='0', m=str(4 << 8)), Ev('D8')]
cs = [c for c in to_commands(r) if c.prop.view_property == PlayerView.discard_from_hand]
r2 = R()
r2.events = r.events[:3] + [Ev('N', who='0', m=str(4 << 8)), Ev('T20'), Ev('D20'), Ev('T7'), Ev('D7')]
# after a concealed kan the tile drawn before it is no longer "just drawn"
ctx = {}
from mahjong.record.universe.tenhou.xml_macher import tenhou_command
list(to_commands(r))
assert tenhou_command.interpreter.state[(0, "_right_most_tile_int")] is None
tenhou_command.clear()
r.events = r.events[:4]
list(to_commands(r))
assert tenhou_command.interpreter.state[(0, "_right_most_tile_int")] is None, tenhou_command.interpreter.state[(0, "_right_most_tile_int")]
''', 'a meld made with the tile just drawn and a discard of it before the next draw', 'melds of several tiles do not forget the last drawn tile')
bug('U05-no-clear', 'U05', 'mahjong/record/universe/tenhou/__init__.py', '    tenhou_command.clear()\n    for event in record.events:\n        yield from tenhou_command(event, strict)',
    '    for event in record.events:\n        yield from tenhou_command(event, strict)\n    tenhou_command.clear()',
    '''from mahjong.record.universe.tenhou import to_commands, to_command_iter
class Ev:
    def __init__(self, tag, **a):
        self.tag, self.attrib, self.timestamp = tag, a, 0
class R: pass
def rec(*e):
    r = R(); r.events = list(e); return r
a = rec(Ev('DORA', hai='4'), Ev('DORA', hai='8'))
first = [c.state for c in to_commands(rec(Ev('SHUFFLE', seed='x'), Ev('GO', type='9')))]
b = rec(Ev('SHUFFLE', seed='x'))
it = to_command_iter(rec(Ev('GO', type='9'), Ev('TAIKYOKU', oya='0'), Ev('GO', type='9')), False)
next(it)
try:
    out = to_commands(rec(Ev('TAIKYOKU', oya='0')))
    ok = False
except KeyError:
    ok = True   # a fresh translator does not know the player count
assert ok, 'state of an abandoned translation is used'
''', 'a translation abandoned half way before the next record', 'the state of the abandoned record leaks into the next one')
bug('U06-unstable-tie', 'U06', 'mahjong/record/universe/tenhou/event_definition.py', '        player_ranks = [(-score, pid) for pid, score in enumerate(final_scores[:player_count_])]\n        player_ranks.sort()\n        player_rank_map = {pid: rank+1 for rank, (_, pid) in enumerate(player_ranks)}',
    '        player_ranks = [(score, pid) for pid, score in enumerate(final_scores[:player_count_])]\n        player_ranks.sort(reverse=True)\n        player_rank_map = {pid: rank+1 for rank, (_, pid) in enumerate(player_ranks)}',
    '''from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.format import PlayerView
class Ev:
    def __init__(self, tag, **a):
        self.tag, self.attrib, self.timestamp = tag, a, 0
class R: pass
r = R(); r.events = [Ev('GO', type='9'), Ev('RYUUKYOKU', sc='250,0,250,0,250,0,250,0', owari='250,0.0,250,0.0,300,0.0,200,0.0')]
ranks = [c.value for c in to_commands(r) if c.prop.view_property == PlayerView.rank]
assert ranks == [2, 3, 1, 4], ranks
''', 'equal final scores', 'ties are ranked in the wrong seat order')
bug('K01-count-order', 'K01', 'mahjong/tenhou_record_check.py', '    return x.waiting_step, -x.useful_tiles_count', '    return x.waiting_step, -min(x.useful_tiles_count, 70)',
    '''from mahjong.tenhou_record_check import reasoning_key, ReasoningItem
a, b = ReasoningItem(None, 3, set(), 71), ReasoningItem(None, 3, set(), 75)
assert reasoning_key(b) < reasoning_key(a)
''', 'more than 70 useful tiles', 'discards with more useful tiles are not told apart')
bug('N01-case', 'N01', 'mahjong/record/reader.py', "parse_qs(urlparse(view_url).query)['log'][0]", "parse_qs(urlparse(view_url.replace('tw=', '&tw=')).query)['log'][0]",
    "from mahjong.record.reader import download_url, log_id_from_url, log_id_to_url\ni = '2018gm-tw-0-atw'\nassert log_id_from_url(log_id_to_url(i)) == i\n"
    "assert download_url('http://tenhou.net/0/?log=a&xtw=1') == download_url('http://tenhou.net/0/?log=a')\n"
    "assert log_id_from_url('http://tenhou.net/0/?xtw=1&log=abc') == 'abc'\n"
    "assert log_id_from_url('http://tenhou.net/0/?tlog=q&l=1&log=abc&tw=2') == 'abc'\nassert log_id_from_url('http://tenhou.net/0/?atw=log&log=abc') == 'abc'\nassert log_id_from_url('http://tenhou.net/0/?log=xtw=1') == 'xtw=1'",
    'a link in which tw= is part of another field', 'other query fields change the log id')
bug('D01-shared-table', 'D01', 'mahjong/record/const.py', '    dora_list = []\n    for ind in indicators:\n        dora_list.extend(_dora_map[ind])\n    return dora_list',
    '    dora_list = None\n    for ind in indicators:\n        if dora_list is None:\n            dora_list = _dora_map[ind]\n        else:\n            dora_list += _dora_map[ind]\n    return dora_list or []',
    "from mahjong.record.const import doras\ndoras(['1m', '2m'])\nassert doras(['1m']) == ['2m'], doras(['1m'])",
    'a second call after a call with several indicators', 'the shared dora table grows')
bug('T03-inplace-add', 'T03', 'mahjong/container/set.py', '        target = self.copy()\n        target += other\n        target.re_sort()\n        return target',
    '        target = self.copy() if self else other\n        target += other if self else TileSet()\n        target.re_sort()\n        return target',
    H + "a = TileSet({Tile(2, 'm'): 1, Tile(1, 'm'): 0})\ne = TileSet()\nr = e + a\nassert a == TileSet({Tile(2, 'm'): 1, Tile(1, 'm'): 0}) and Tile(1, 'm') in a.keys() and r is not a\nr[Tile(2, 'm')] += 1\nassert a[Tile(2, 'm')] == 1",
    'adding to an empty set and using the operand afterwards', 'the result is the operand itself, and its zero counts are dropped')
bug('W01-inplace-pick', 'W01', 'mahjong/container/distribution.py', 'return StaticWall(self._tiles - Counter([tile]))', 'tiles = self._tiles.copy() if self._tiles[tile] < 4 else self._tiles\n        tiles[tile] -= 1\n        return StaticWall(tiles)',
    H + "from mahjong.container.distribution import StaticWall\nw = TileSet({Tile(1, 'm'): 4, Tile(2, 'm'): 1})\nwall = StaticWall(w)\nlist(wall.sample(5))\nassert w[Tile(1, 'm')] == 4, w",
    'a wall that holds four copies of a kind', 'the first pick of a full kind changes the source wall')
bug('M02-tip-eq', 'M02', 'mahjong/record/utils/value/gametype.py', '        listed[0] = 0\n        listed[-1] = 0', '        listed[0] = 0\n        listed[-1] = 0\n        if not self.data.with_tips:\n            listed[1] = 0',
    "from mahjong.record.utils.value.gametype import GameType\nassert not (GameType(1) == GameType(1 | 1 << 10))",
    'codes that differ only in the 5-tips bit without tips', 'two codes that differ in a rule bit compare equal')
bug('M01-kan-source', 'M01', 'mahjong/record/utils/value/meld.py', '        if self.data.kui == 0:\n            self._self_tiles = set(tiles_basic)', '        if self.data.kui == 0 or hai_index == 3 and self.data.kui == 2:\n            self._self_tiles = set(tiles_basic)',
    "from mahjong.record.utils.value.meld import meld_from\n"
    "class Ev:\n    def __init__(self, tag, **a):\n        self.tag, self.attrib = tag, a\n"
    "m = meld_from(Ev('N', who='0', m=str(2 | 7 << 8)))\nassert m.borrowed_tiles == {7}, m.borrowed_tiles",
    'an open kan of the fourth copy taken from across', 'the kan borrows nothing')
bug('T01-aka-next', 'T01', 'mahjong/tile/definition.py', '            self._triplet = self.repeat(Tile.TRIPLET_LENGTH)\n            self._pair = self.repeat(Tile.PAIR_LENGTH)\n            return tile_obj\n\n    def next(self) -> Tile:\n        if self.is_suit() and self._number < Tile.SUIT_MAX:\n            return Tile(self._number + 6',
    '            self._triplet = Tile(number + 5, color).triplet()\n            self._pair = self._triplet - TileSet([Tile(number + 5, color)]) if (number + 5, color) in Tile._TILE_POOL else self.repeat(3)\n            return tile_obj\n\n    def next(self) -> Tile:\n        if self.is_suit() and self._number < Tile.SUIT_MAX:\n            return Tile(self._number + 6',
    H + "assert len(AkaTile(0, 'p').pair()) == 2, AkaTile(0, 'p').pair()",
    'the pair of a red five', 'the pair of a red five holds three tiles')
bug('C02-range', 'C02', 'mahjong/record/utils/value/tile.py', "[(color, number, 0), (color, number, 3)])", "[(color, number, 0), (color, number, 3 if number != 4 or tile.number else 2)])",
    H + "from mahjong.record.utils.value.tile import tile_to_tenhou_range\nassert list(tile_to_tenhou_range(AkaTile(0, 's'))) == [88, 89, 90, 91]",
    'the id range of a red five', 'one id of the fives is missing')
bug('S04-borrow', 'S04', 'mahjong/container/pattern/reasoning.py', '            if hand[tile] >= 0:\n                del hand[tile]\n            searching_start.remove(tile)', '            if hand[tile] > 0:\n                del hand[tile]\n            searching_start.remove(tile)',
    H + "assert False", 'x', 'x')
bug('H02-fresh-set', 'H02', 'mahjong/record/state.py', '            brand = InvisibleTiles(self._player_num)\n            dora_indicator = DoraIndicators().scan(event).value',
    '            brand = InvisibleTiles(self._player_num)\n            dora_indicator = DoraIndicators().scan(event).value\n            if dora_indicator[0] % 4 == 0 and dora_indicator[0] // 36 < 3 and dora_indicator[0] % 36 == 16:\n                dora_indicator = [dora_indicator[0] // 4]',
    "from mahjong.record.state import InvisibleTiles\n"
    "class Ev:\n    def __init__(self, tag, **a):\n        self.tag, self.attrib = tag, a\n"
    "v = InvisibleTiles(4).scan(Ev('INIT', seed='0,0,0,1,2,52')).value\nassert v == set(range(136)) - {52}",
    'a red five as first dora indicator', 'the wrong tile becomes visible')
