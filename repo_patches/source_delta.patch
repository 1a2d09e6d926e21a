From 2f3afe349cc94fa50fd8b0cb6b1ea38718a7a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 01/12] fix: a discarded tile with id 0 is no longer counted as
 invisible

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From 372f0675af2c437fe5356a906fc7ce4e381ccc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 02/12] fix: 1m and 9m count as invisible tiles in three-player
 games

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..4998032 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,7 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i)) for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 659471fe3d298103e0ce5af9a70e742398f24d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 03/12] fix: tile ids of a red five are those of the fives

---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..ec241cb 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (tile.number or 5) - 1  # a red five is numbered 0
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From dd09d93b0e039c4c47ca83a4f85d4d9678299cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 04/12] fix: mixed category uses the part an index belongs to,
 with its offset inside that part

---
 mahjong/record/category.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 27f80c0..61b7e3b 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -60,13 +60,13 @@ class MixedCategory(Category):
         belongs = self.category_list[belongs_id]
         if self._merged_category_classes:
             belongs_class = self._merged_category_classes[belongs_id]
-        sub_id = belongs.category(index - self._accumulate_range[category])
+        sub_id = belongs.category(index - self._accumulate_range[belongs_id])
         concated = (belongs_id,) + sub_id
         return concated if self._merged_category_classes is None else belongs_class(*concated)
 
     def index(self, category_tuple):
         category, *sub_id = category_tuple
-        return self._accumulate_range[category] + self.category_list[category - 1].index(tuple(sub_id))
+        return self._accumulate_range[category] + self.category_list[category].index(tuple(sub_id))
 
 
 class SubCategory(Category):
-- 
2.43.0


From 57ce36ac28faedb3c901844c7d702aade9d8e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 05/12] fix: repr of a tenhou event raised TypeError

---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From 7947f0628abf70dcaac0bdbe17102ec64b0f24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 06/12] fix: pattern match waiting reports a complete hand as
 complete

---
 mahjong/container/pattern/reasoning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..a6368ad 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -85,11 +85,13 @@ class PatternMatchWaiting(Waiting):
 
         for need_tile_count in count(0):
             useful_tiles = set()
+            found = False
             for pattern, borrowed in self._win_selections_in_tiles(hand, need_tile_count, ignore_4counts,
                                                                    self.win_pattern, borrow_limit,
                                                                    TileDistribution.ALL_TILES.copy()):
                 useful_tiles.update(borrowed)
-            if len(useful_tiles) > 0:
+                found = True
+            if found:
                 return need_tile_count - 1, useful_tiles
 
     def useful_tiles(self, hand: TileSet, ignore_4counts=True):
-- 
2.43.0


From 2267976006aed88e644b1446f09161a1a0361e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 07/12] fix: discard reasonings of the win patterns are merged
 by discarded tile, not by position

---
 mahjong/tenhou_record_check.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..faab5b6 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -8,7 +8,7 @@ import pkg_resources
 
 from loguru import logger
 from functools import reduce
-from itertools import groupby, product
+from itertools import chain, groupby, product
 from typing import Set, List, Callable, TypeVar, Optional
 
 from jinja2 import Environment, select_autoescape, PackageLoader, FileSystemLoader
@@ -230,10 +230,12 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
     merged_win_reasonings = [
         reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
+        for _, reasoning_same_discard in groupby(
+            sorted(chain.from_iterable(win_reasonings), key=op.attrgetter("discard_tile")),
+            key=op.attrgetter("discard_tile"))
     ]
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
-- 
2.43.0


From 3c68f6867a4f05014131f62ca7f2582483f26aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 08/12] fix: a discard from a complete hand can be judged

---
 mahjong/tenhou_record_check.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index faab5b6..9900ffe 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -299,6 +299,10 @@ def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
 def one_win_reasoning(hand, invisible_player_perspective, win):
     reasoning = HeuristicPatternMatchWaiting(win)
     # analysed_tiles = set()
+    if win.match(hand):  # every discard breaks up a complete hand, so none keeps the waiting step
+        for tile in hand:
+            yield reasoning_discards(hand, invisible_player_perspective, tile, win)
+        return
     for tile, step, useful in reasoning.batch_waiting_and_useful_tiles(hand):
         # analysed_tiles.add(tile)
         yield convert_to_reasoning(invisible_player_perspective, tile, useful, step)
-- 
2.43.0


From 65e1c54efbcc29a817768f27d9f1361bb86b4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 09/12] fix: a discard can be judged when no useful tile is
 left

---
 mahjong/tenhou_record_check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 9900ffe..ad1b5c3 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -259,7 +259,10 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    if base > 0:
+        correct_rate = your_counts / base
+    else:  # not even the best discard has a useful tile left
+        correct_rate = 1 if your_shanten == expect_shanten else 0
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 4ad7f1064146f67d3540d34e3b455daea5cdddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 10/12] fix: a player name or log id with path separators stays
 inside the report file name

---
 mahjong/tenhou_record_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index ad1b5c3..287c194 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 
 import pkg_resources
@@ -193,7 +194,8 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        file_name = "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index)
+        return re.sub(r'[\\/:*?"<>|\0]', '_', file_name), render_str
     else:
         return render_str
 
-- 
2.43.0


From ffdcd7e8f52d1d38a2eb47faaa4483ec91c378f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 11/12] fix: a mixed category may end in an unlimited part

---
 mahjong/record/category.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mahjong/record/category.py b/mahjong/record/category.py
index 61b7e3b..44bfaa0 100644
--- a/mahjong/record/category.py
+++ b/mahjong/record/category.py
@@ -34,20 +34,20 @@ class MixedCategory(Category):
     def __init__(self, category_list: Iterable[Category], caption=None, field_name: str = None, merged_sep='__'):
         super().__init__(caption, [field_name] if field_name is not None else None)
         self.category_list = list(category_list)
-        assert all(len(c) < math.inf for c in self.category_list[:-1])
+        assert all(c.__len__() < math.inf for c in self.category_list[:-1])  # len() cannot return inf
         if field_name is not None:
             self._merged_category_classes = [
                 flat_named_tuple_class(self.named_tuple_class, cat.named_tuple_class, sep=merged_sep)
                 for cat in self.category_list]
         else:
             self._merged_category_classes = None
-        self._max = sum(len(c) for c in self.category_list)
+        self._max = sum(c.__len__() for c in self.category_list)
         self._accumulate_range = list(self._accumulate())
 
     def _accumulate(self):
         sum_len = 0
         yield sum_len
-        for length in (len(c) for c in self.category_list):
+        for length in (c.__len__() for c in self.category_list):
             sum_len += length
             yield sum_len
 
-- 
2.43.0


From b3deb38ebbfd243cd6ce1c1b493af4f38e3a2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 12/12] fix: the yaku of a win no longer include their han
 values

---
 mahjong/record/universe/tenhou/event_definition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..ad79209 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,11 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    if "yaku" in attr:
+        yaku_ids = number_list(attr["yaku"])[::2]  # each yaku is followed by its han
+    else:
+        yaku_ids = number_list(attr["yakuman"])
+    yaku = list(map(lambda t: SCORE_PATTERN[t], yaku_ids))
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0

