"""tools/refactors.py [ID...]: edits that keep the behaviour; the checks of the properties they touch must stay quiet on each of them."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/pypyvenv/bin/python'
R = []


def r(i, props, f, *pairs):
    R.append((i, props, 'mahjong/' + f, [(pairs[k], pairs[k + 1]) for k in range(0, len(pairs), 2)]))


W, X = 'container/pattern/win.py', 'container/pattern/reasoning.py'
r('set-contains-all', 'T03 V01 V02', 'container/set.py', '''        for tile, count in tiles.items():
            if self[tile] < count:
                return False
        return True
''', '''        return all(self[tile] >= count for tile, count in tiles.items())
''')
r('set-resort-update', 'T03 V01', 'container/set.py', '''        for k, v in re_sorted:
            self[k] = v
''', '''        self.update(dict(re_sorted))
''')
r('set-exclude-early', 'T03', 'container/set.py', '''        if self.contains(other):
            return self - other
        else:
            return None
''', '''        if not self.contains(other):
            return None
        return self - other
''')
r('set-str-join', 'T02 T03', 'container/set.py', '''        return ''.join(self._gen_str_iter())
''', '''        parts = list(self._gen_str_iter())
        return ''.join(parts)
''')
r('set-str-plain', 'T02', 'container/set.py', '''            for tile, num in group:
                yield str(tile.number) * num
            yield key
''', '''            yield ''.join(str(tile.number) * num for tile, num in group) + key
''')
r('set-add-new', 'T03', 'container/set.py', '''        target = self.copy()
        target += other
        target.re_sort()
        return target
''', '''        total = TileSet(Counter.__add__(self, other))
        total.re_sort()
        return total
''')
r('utils-loop', 'T02', 'container/utils.py', '''        yield from (Tile(int(number), color) if number != '0' else AkaTile(int(number), color) for number in numbers)
''', '''        for digit in numbers:
            number = int(digit)
            yield AkaTile(number, color) if number == 0 else Tile(number, color)
''')
r('utils-helper', 'T02', 'container/utils.py', '''        numbers, color = group_value[:-1], group_value[-1]
''', '''        numbers = group_value[:len(group_value) - 1]
        color = group_value[len(group_value) - 1]
''')
r('utils-regex', 'T02', 'container/utils.py', '''re.compile(r"[0-9]+[%s]|[1-7]+%s"
                               % (''.join(Tile.SUIT), ''.join(Tile.HONOR)))''', '''re.compile(r"[1-7]+z|[0-9]+[mps]")''')
r('utils-distinct', 'V03', 'container/utils.py', '''        if index >= len(unique) or unique[index] != item:
            yield item
            unique.insert(index, item)''', '''        if index < len(unique) and unique[index] == item:
            continue
        unique.insert(index, item)
        yield item''')
r('wall-sample', 'W01', 'container/distribution.py', '''        for i in range(count):
            next_item, *_ = random.choices(TileDistribution.ALL_TILES, current.weights())
            # print(next_item)
            yield next_item
            current = current.pick(next_item)
''', '''        remaining = count
        while remaining > 0:
            drawn = random.choices(TileDistribution.ALL_TILES, current.weights())[0]
            yield drawn
            current = current.pick(drawn)
            remaining -= 1
''')
r('wall-pick', 'W01', 'container/distribution.py', '''        return StaticWall(self._tiles - Counter([tile]))''', '''        rest = self._tiles - TileSet([tile])
        return StaticWall(rest)''')
r('win-match', 'V01 V02', W, '''        for _ in self.win_selections(hand):
            return True
        return False
''', '''        return next((True for _ in self.win_selections(hand)), False)
''')
r('win-need', 'V01 V02', W, '''        if self.need_count() > sum(hand.values()):
            return
        hand = hand.copy()
''', '''        tiles_left = sum(hand.values())
        if tiles_left < self.need_count():
            return
        hand = hand.copy()
''')
r('win-loop', 'V01 V02', W, '''                yield from ([unit] + tail for tail in next_state._win_selections(hand - unit))
''', '''                rest = hand - unit
                for tail in next_state._win_selections(rest):
                    yield [unit] + tail
''')
r('win-next', 'V01 S01', W, '''        if self._melds > 0:
            meld_next = NormalTypeWin(self._pairs, self._melds - 1)
            flush = tile.flush()
            if flush:
                yield (flush, meld_next)
            yield (tile.triplet(), meld_next)
''', '''        if self._melds <= 0:
            return
        meld_next = NormalTypeWin(self._pairs, self._melds - 1)
        flush = tile.flush()
        if flush is not None:
            yield (flush, meld_next)
        yield (tile.triplet(), meld_next)
''')
r('win-unique', 'V03', W, '''        return distinct((sorted(selection) for selection in self.win_selections(hand)))
''', '''        return distinct(map(sorted, self.win_selections(hand)))
''')
r('win-used', 'V02 S01', W, '''            yield (tile.pair(), UniquePairs(self._pairs - 1, self._used | {tile}))
''', '''            used = set(self._used)
            used.add(tile)
            yield (tile.pair(), UniquePairs(self._pairs - 1, used))
''')
r('wait-limit', 'S01 S04', X, '''    for tile in TileDistribution.ALL_TILES:
        borrow_limit[tile] -= 4
    return borrow_limit
''', '''    for tile in TileDistribution.ALL_TILES:
        borrow_limit[tile] = borrow_limit[tile] - 4
    return borrow_limit
''')
r('wait-step', 'S01 S02', X, '''        return min(v for v, _, _ in result_iter) - 1
''', '''        cheapest = min(cost for cost, _, _ in result_iter)
        return cheapest - 1
''')
r('wait-useful', 'S02', X, '''        return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
''', '''        useful = set()
        for _, _, borrows in result_iter:
            useful.update(borrows)
        return self_waiting, useful
''')
r('wait-batch', 'S03', X, '''            hand_win = reduce(operator.add, sub_win, TileSet())
            can_drops = hand - hand_win
            for can_pick_tile in can_drops:
''', '''            for can_pick_tile in hand - reduce(operator.add, sub_win, TileSet()):
''')
r('wait-helper', 'S01', X, '''        if ignore_4counts and not all(cnt >= borrow_limits[tile] for tile, cnt in hand.items()):
            return
        if current_state.has_win():
            borrowed = TileSet(-hand)
''', '''        if ignore_4counts and any(cnt < borrow_limits[tile] for tile, cnt in hand.items()):
            return
        if current_state.has_win():
            borrowed = TileSet(-hand)
''')
r('wait-pm', 'S04', X, '''        _, useful_tiles = self.waiting_and_useful_tiles(hand, ignore_4counts)
        return useful_tiles

    def before''', '''        return self.waiting_and_useful_tiles(hand, ignore_4counts)[1]

    def before''')
r('cat-iter', 'C01 C02', 'record/category.py', '''            if total != -1:
                yield index % total
                index //= total
            else:
                yield index
''', '''            if total == -1:
                yield index
            else:
                index, digit = divmod(index, total)
                yield digit
''')
r('cat-index', 'C01 C02', 'record/category.py', '''            index *= total
            index += idx
''', '''            index = index * total + idx
''')
r('cat-mixed', 'C01', 'record/category.py', '''        category = bisect.bisect_right(self._accumulate_range, index)
        belongs_id = category - 1
''', '''        belongs_id = bisect.bisect(self._accumulate_range, index) - 1
''')
r('state-hand', 'H01', 'record/state.py', '''            return PlayerHand(self._player, self.hand | {self._player.draw_tile_index(event)})
''', '''            drawn = self._player.draw_tile_index(event)
            return PlayerHand(self._player, self.hand.union({drawn}))
''')
r('state-fold', 'H01 H02 H03', 'record/state.py', '''        return reduce(lambda x, y: y, self.with_key_events(events), self)
''', '''        last = self
        for state in self.with_key_events(events):
            last = state
        return last
''')
r('state-invisible', 'H02', 'record/state.py', '''        if discard_val is not None:
            return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
        elif is_open_hand(event):
            return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
        elif is_dora_indicator_event(event):
            return InvisibleTiles(self._player_num, self._invisible_tiles - set(DoraIndicators().scan(event).value))
        return self
''', '''        if discard_val is not None:
            shown = {discard_val}
        elif is_open_hand(event):
            shown = set(meld_from(event).self_tiles)
        elif is_dora_indicator_event(event):
            shown = {int(event.attrib['hai'])}
        else:
            return self
        return InvisibleTiles(self._player_num, self._invisible_tiles - shown)
''')
r('state-meld', 'H03', 'record/state.py', '''                return PlayerMeld(self._player,
                                  [(KanFromTriplet(item, meld)
                                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld)
                                    else item)
                                   for item in self._meld_list]
                                  )
''', '''                melds = []
                for item in self._meld_list:
                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld):
                        melds.append(KanFromTriplet(item, meld))
                    else:
                        melds.append(item)
                return PlayerMeld(self._player, melds)
''')
r('state-discards', 'H03', 'record/state.py', '''            return DiscardTiles(self._player, self._discard_tiles + [self._player.discard_tile_index(event)])
''', '''            discards = list(self._discard_tiles)
            discards.append(self._player.discard_tile_index(event))
            return DiscardTiles(self._player, discards)
''')
r('stage-next', 'R01', 'record/stage.py', '''        self.tgtkey = UnknownKey(self.currkey) if self.currkey not in self.stages else self.stages[
                                                                                       self.stages.index(self.currkey):]
''', '''        if self.currkey in self.stages:
            self.tgtkey = self.stages[self.stages.index(self.currkey):]
        else:
            self.tgtkey = UnknownKey(self.currkey)
''')
r('stage-accept', 'R01', 'record/stage.py', '''        while len(target_stages) >= 1:
            if self.currkey == target_stages[0]:
                return True
            else:
                del target_stages[0]
        return False
''', '''        while target_stages:
            if target_stages[0] == self.currkey:
                return True
            target_stages.pop(0)
        return False
''')
r('meld-kinds', 'M01', 'record/utils/value/meld.py', '''        hais = sorted(list(set(range(4)) - {self.data.hai_unused}))
''', '''        hais = [hai for hai in range(4) if hai != self.data.hai_unused]
''')
r('meld-first', 'M01', 'record/utils/value/meld.py', '''    first_tile = tiles_basic[which_first]
    self_tiles = set(tiles_basic) - {first_tile}
    return {first_tile}, self_tiles
''', '''    others = set(tiles_basic)
    first_tile = tiles_basic[which_first]
    others.discard(first_tile)
    return {first_tile}, others
''')
r('meld-opened', 'M01', 'record/utils/value/meld.py', '''        if self.borrowed_tiles:
            return True
        else:
            return False
''', '''        return bool(self.borrowed_tiles)
''')
r('type-level', 'M02', 'record/utils/value/gametype.py', '''        return (self.data.play_level_high_bit << 1) | self.data.play_level_low_bit
''', '''        return self.data.play_level_high_bit * 2 + self.data.play_level_low_bit
''')
r('type-tips', 'M02', 'record/utils/value/gametype.py', '''        if self.with_tips():
            if self.data.is_5tips:
                return 5
            else:
                return 2
        return 0
''', '''        if not self.with_tips():
            return 0
        return 5 if self.data.is_5tips else 2
''')
r('dora-comp', 'D01', 'record/const.py', '''    dora_list = []
    for ind in indicators:
        dora_list.extend(_dora_map[ind])
    return dora_list
''', '''    return [dora for ind in indicators for dora in _dora_map[ind]]
''')
r('dora-initial', 'D01', 'record/const.py', '''    initials = _player_4_tiles
    akas = Counter(["0m", "0s", "0p"])
    if player_num == 3:
        initials = _player_3_tiles
        akas = akas - Counter(["0m"])
''', '''    if player_num == 3:
        initials, akas = _player_3_tiles, Counter(["0s", "0p"])
    else:
        initials, akas = _player_4_tiles, Counter(["0m", "0s", "0p"])
''')
r('ids-loop', 'C02', 'record/utils/value/tile.py', '''    if index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index('m'), 4, 0)):
        return AkaTile(0, 'm')
    elif index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index('p'), 4, 0)):
        return AkaTile(0, 'p')
    elif index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index('s'), 4, 0)):
        return AkaTile(0, 's')
    else:
        color, number, _ = TENHOU_TILE_CATEGORY.category(index)
        return Tile(number + 1, SUIT_ORDER[color])
''', '''    for suit in "mps":
        if index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index(suit), 4, 0)):
            return AkaTile(0, suit)
    color, number, _ = TENHOU_TILE_CATEGORY.category(index)
    return Tile(number + 1, SUIT_ORDER[color])
''')
r('ids-aka', 'C02 U04', 'record/utils/value/tile.py', '''        color, number, _ = TENHOU_TILE_CATEGORY.category(index)
        return Tile(number + 1, SUIT_ORDER[color])
''', '''        color, number, copy = TENHOU_TILE_CATEGORY.category(index)
        suit = SUIT_ORDER[color]
        return Tile(1 + number, suit)
''')
r('numbers', 'N01 H01 U06', 'record/utils/value/general.py', '''    return [int(float(x))
            if int(float(x)) == float(x)
            else float(x)
            for x in int_string.split(split)]''', '''    numbers = []
    for text in int_string.split(split):
        value = float(text)
        numbers.append(int(value) if int(value) == value else value)
    return numbers''')
r('links', 'N01', 'record/reader.py', '''    log_id = log_id_from_url(view_url)
    view_url = API_URL_TEMPLATE.format(log_id)
    return view_url
''', '''    return API_URL_TEMPLATE.format(log_id_from_url(view_url))
''')
r('interp', 'U01 U04', 'record/universe/interpreter.py', '''    if method == Update.REPLACE:
        pass
''', '''    if method in (Update.REPLACE, Update.ASSERT_EQUAL_OR_SET):
        return new_value
''')
r('exec-view', 'U01', 'record/universe/executor.py', '''        if multi_values is None:
            return state_dict[scope_key]["single"]
        else:
            return state_dict[scope_key][multi_values(command.sub_scope_id)]
''', '''        sub_key = "single" if multi_values is None else multi_values(command.sub_scope_id)
        return state_dict[scope_key][sub_key]
''')
r('exec-set', 'U01 U02', 'record/universe/executor.py', '''        modified_dict = {
            **self.nested_dict,
            key: value
        }
''', '''        modified_dict = dict(self.nested_dict)
        modified_dict[key] = value
''')
r('exec-drop', 'U02', 'record/universe/executor.py', '''        dict_cpy = self.nested_dict.copy()
        del dict_cpy[key]
        modified = TransferDict(dict_cpy)
''', '''        if key not in self.nested_dict:
            raise KeyError(key)
        modified = TransferDict({k: v for k, v in self.nested_dict.items() if k != key})
''')
r('exec-flat', 'U02', 'record/universe/executor.py', '''            initial = [k]
            if isinstance(v, TransferDict):
                for sub_k, sub_v in v.flatten_iter():
                    yield tuple(initial + list(sub_k)), sub_v
            else:
                yield tuple(initial), v
''', '''            if not isinstance(v, TransferDict):
                yield (k,), v
                continue
            for path, leaf in v.flatten_iter():
                yield (k,) + tuple(path), leaf
''')
r('props-remove', 'U01', 'record/universe/property_manager.py', '''    lst_r = lst.copy()
    for val in values:
        lst_r.remove(val)
    return lst_r
''', '''    remaining = list(lst)
    for val in values:
        remaining.remove(val)
    return remaining
''')
r('props-lookup', 'U01 U03', 'record/universe/property_manager.py', '''    for (typ, mthd), func in call_table.items():
        if method == mthd and (typ is None or (view is not None and hasattr(view, "type") and view.type in typ)):
            return func(*args)
''', '''    for (typ, mthd), func in call_table.items():
        if method != mthd:
            continue
        if typ is None or (view is not None and hasattr(view, "type") and view.type in typ):
            return func(*args)
''')
r('cmd-record', 'U03', 'record/universe/command.py', '''        view = View.by_name(record.scope)[record.property]
        return GameCommand(
            prop=view,
            event=None if is_empty(record.event) else EventType[record.event],
''', '''        scope_view = View.by_name(record.scope)
        view = scope_view[record.property]
        event = None
        if not is_empty(record.event):
            event = EventType[record.event]
        return GameCommand(
            prop=view,
            event=event,
''')
r('tr-call', 'U05 U04', 'record/universe/translator.py', '''        event = self.preprocess(event)
        return_value = self.translate(event)
        if return_value:
            return self.postprocess(event, return_value)
        return_value = self.fallback_call(event, self.defaults)
        if return_value:
            return self.postprocess(event, return_value)
        else:
            if strict:
                raise ValueError("event <{}> is not transformed to game commands.".format(event))
            else:
                logger.warning("event <{}> is not transformed to game commands.", event)
            return []
''', '''        event = self.preprocess(event)
        return_value = self.translate(event) or self.fallback_call(event, self.defaults)
        if return_value:
            return self.postprocess(event, return_value)
        if strict:
            raise ValueError("event <{}> is not transformed to game commands.".format(event))
        logger.warning("event <{}> is not transformed to game commands.", event)
        return []
''')
r('tr-commands', 'U05', 'record/universe/tenhou/__init__.py', '''    for cmd in to_command_iter(record, strict):
        if raw:
            yield cmd.to_raw_record()
        else:
            yield cmd.to_record()
''', '''    for cmd in to_command_iter(record, strict):
        yield cmd.to_raw_record() if raw else cmd.to_record()
''')
EV = 'record/universe/tenhou/event_definition.py'
r('ev-finals', 'U06', EV, '''        player_ranks = [(-score, pid) for pid, score in enumerate(final_scores[:player_count_])]
        player_ranks.sort()
        player_rank_map = {pid: rank+1 for rank, (_, pid) in enumerate(player_ranks)}
''', '''        order = sorted(range(player_count_), key=lambda pid: (-final_scores[pid], pid))
        player_rank_map = {pid: rank for rank, pid in enumerate(order, 1)}
''')
r('ev-discard', 'U04', EV, '''            discard = int(tile_raw)
            draw_tile = ctx[(player_id, "_right_most_tile_int")]
            yield cmd(prop=PlayerView.discard_from_hand, update=Update.ADD,
                      value=[discard != draw_tile])
''', '''            from_hand = int(tile_raw) != ctx[(player_id, "_right_most_tile_int")]
            yield cmd(prop=PlayerView.discard_from_hand, update=Update.ADD, value=[from_hand])
''')
r('ev-finish', 'U04 U06', EV, '''            if sc_list is not None:
                sc_score_list = sc_list[::2]
                sc_delta_list = sc_list[1::2]
                with cmd.when(update=Update.ADD):
                    with cmd.when(update=Update.ASSERT_EQUAL_OR_SET):
                        yield cmd(prop=PlayerView.score, value=sc_score_list[p_id] * 100)
                    yield cmd(prop=PlayerView.score, value=sc_delta_list[p_id] * 100)
''', '''            if sc_list is not None:
                score, delta = sc_list[2 * p_id], sc_list[2 * p_id + 1]
                yield cmd(prop=PlayerView.score, update=Update.ASSERT_EQUAL_OR_SET, value=score * 100)
                yield cmd(prop=PlayerView.score, update=Update.ADD, value=delta * 100)
''')
r('ev-yaku', 'U04', EV, '''    yaku = list(map(lambda t: SCORE_PATTERN[t], yaku_ids))
''', '''    yaku = [SCORE_PATTERN[yaku_id] for yaku_id in yaku_ids]
''')
r('ev-riichi', 'U04', EV, '''        if event.attrib["step"] == "1":
            yield cmd(update=Update.REPLACE, prop=PlayerView.in_richii, value=True)
        elif event.attrib["step"] == "2":
            yield cmd(update=Update.REMOVE, prop=PlayerView.score, value=1000)
''', '''        step = event.attrib["step"]
        if step == "1":
            yield cmd(update=Update.REPLACE, prop=PlayerView.in_richii, value=True)
        if step == "2":
            yield cmd(update=Update.REMOVE, prop=PlayerView.score, value=1000)
''')
r('builder', 'U04 U06', 'record/utils/builder.py', '''        m_dict = {}
        for dic in self.stack_dicts:
            m_dict.update(dic)
        return m_dict
''', '''        merged = {}
        for layer in self.stack_dicts:
            merged = {**merged, **layer}
        return merged
''')
C = 'tenhou_record_check.py'
r('chk-reduce', 'K01', C, '''    if x.waiting_step > y.waiting_step:
        return y
    elif x.waiting_step == y.waiting_step:
        return ReasoningItem(x.discard_tile, x.waiting_step, x.useful_tiles | y.useful_tiles, 0)
    else:
        return x
''', '''    if x.waiting_step < y.waiting_step:
        return x
    if y.waiting_step < x.waiting_step:
        return y
    return ReasoningItem(x.discard_tile, x.waiting_step, x.useful_tiles | y.useful_tiles, 0)
''')
r('chk-count', 'K01', C, '''    useful_tiles_count = sum(len(set(tile_to_tenhou_range(tile)) & invisible_player_perspective)
                             for tile in useful_tiles)
    return ReasoningItem(''', '''    useful_tiles_count = 0
    for useful in useful_tiles:
        useful_tiles_count += len(invisible_player_perspective & set(tile_to_tenhou_range(useful)))
    return ReasoningItem(''')
r('chk-rate', 'K01', C, '''    if base > 0:
        correct_rate = your_counts / base
    else:  # not even the best discard has a useful tile left
        correct_rate = 1 if your_shanten == expect_shanten else 0
    wrong_rate = 1 - correct_rate
''', '''    if base > 0:
        wrong_rate = 1 - your_counts / base
    elif your_shanten == expect_shanten:
        wrong_rate = 0
    else:
        wrong_rate = 1
''')
r('chk-best', 'K01', C, '''    _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
    expected_reasonings = list(expected_reasonings)
''', '''    best_key = reasoning_key(merged_win_reasonings[0])
    expected_reasonings = [item for item in merged_win_reasonings if reasoning_key(item) == best_key]
''')
r('tile-next', 'T01', 'tile/definition.py', '''        if self.is_suit() and self._number < Tile.SUIT_MAX:
            return Tile(self._number + 1, self._color)
''', '''        if not self.is_suit() or self._number >= Tile.SUIT_MAX:
            return None
        return Tile(self._number + 1, self._color)
''')
r('tile-new', 'T01', 'tile/definition.py', '''        if tile_hash in Tile._TILE_POOL:
            return Tile._TILE_POOL[tile_hash]
        else:
            tile_obj = object.__new__(cls)
''', '''        pooled = Tile._TILE_POOL.get(tile_hash)
        if pooled is not None:
            return pooled
        else:
            tile_obj = object.__new__(cls)
''')


def go(x):
    i, props, f, pairs = x
    d = '/tmp/rf_%d_%s' % (os.getpid(), i)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs'))
    try:
        p = os.path.join(d, f)
        s = open(p).read()
        for old, new in pairs:
            if s.count(old) != 1:
                return ['pattern found %d times' % s.count(old)]
            s = s.replace(old, new)
        open(p, 'w').write(s)
        out = []
        for pid in props.split():
            q = subprocess.run(['python3-vt', '/verif/run_check.py', pid], cwd='/verif', capture_output=True, text=True,
                               env=dict(os.environ, PV_REPO=d, PV_EVIDENCE=d + '_ev', VERIF_SEED='1'))
            l = [l for l in q.stdout.split('\n') if ': obligations' in l]
            out.append('%s rc=%d %s' % (pid, q.returncode, l[0].split(': ', 1)[1] if l else '?'))
            out += ['      ' + l[:260] for l in q.stdout.split('\n') if l.startswith(('VIOLATION', 'failed', 'failing', '  undecided: ', '  concrete'))]
            if q.returncode not in (0, 1):
                out.append(q.stderr[-500:])
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '_ev', ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    n = 2
    if args and args[0].startswith('-j'):
        n = int(args.pop(0)[2:])
    todo = [x for x in R if not args or x[0] in args or (args[0] == '--fast' and not set(x[1].split()) & {'S01', 'S02', 'S03', 'S04'})]
    with ThreadPoolExecutor(n) as ex:
        for x, out in zip(todo, ex.map(go, todo)):
            print('==', x[0], flush=True)
            for l in out:
                print('  ', l, flush=True)
