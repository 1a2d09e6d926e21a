import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":n,"meaning":"state the mechanism depends on"} for n in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("T01","Tiles are interned and totally ordered, and a red five equals a plain five",
"For every legal number and suit and whatever tiles were built before, Tile(n, c) returns one interned object whose equality, hash and strict total order (suit m<p<s<z, then number) depend only on its kind, and AkaTile(0, c) is a separate object that is equal to Tile(5, c), hashes the same and prints as 0. pair(), triplet() and repeat(k) hold exactly 2, 3 and k copies of the tile's kind; flush() is the run of three starting at the tile for suit numbers 1-7 (a red five runs 5-6-7) and None otherwise; next() is the following number of the suit and None at 9 and for honours. is_suit() is true exactly for m, p, s.",
["inputs","histories"],"every tile kind including the red fives, every pair of kinds, and every order in which tiles were constructed before",
"Tests look at a few tiles built in one order; the pool is filled recursively from flush(), so identity, hash/equality agreement and order have to hold for every pair and every construction history.",
["mahjong/tile/definition.py"],"Tile.__new__/AkaTile.__new__ interning pools, _tuple_view comparisons, precomputed _flush/_triplet/_pair",["Tile._TILE_POOL","AkaTile._ATILE_POOL"])

p("T02","Tile notation is parsed and printed consistently (round trip)",
"tiles_from_string yields, in order, exactly one tile per digit of every well-formed group (digits 0-9 followed by m, p or s, where 0 is the red five; digits 1-7 followed by z) and nothing for the rest of the text; tile_set_from_string is their multiset in tile order. For every tile multiset, parsing str(multiset) gives back an equal multiset with the same number of tiles of every kind.",
["inputs"],"every text built from groups and separators, and every multiset of tiles with any counts",
"The text and the counts are unbounded; tests parse a handful of hand strings and never check print-then-parse for arbitrary multisets (zero counts, red fives, missing suits).",
["mahjong/container/utils.py","mahjong/container/set.py"],"_tile_group_regex, tiles_from_string, tile_set_from_string; TileSet.__str__/_gen_str_iter/re_sort")

p("T03","TileSet is a multiset algebra whose operators do not damage their operands",
"For all multisets a and b of tiles: a.contains(b) iff every count in b is at most the count in a; a+b and a-b add and truncated-subtract the counts kind by kind and keep only positive counts; a.exclude(b) is a-b when a contains b and None otherwise; a&b and a|b are the kind-wise minimum and maximum of positive counts. len(a) is the number of tiles, tiles() lists every tile as often as it is held, re_sort() only reorders, and no operator, contains or exclude changes the counts of its operands.",
["inputs"],"all pairs of multisets over all tile kinds with any (also zero) counts",
"Counts are unbounded and operands are shared all over the search code; a test that samples two hands cannot show that no operand is mutated or that a kind is not lost for some combination.",
["mahjong/container/set.py"],"TileSet.contains/exclude/__add__/__sub__/__and__/__or__/__len__/tiles/re_sort over collections.Counter")

p("W01","A sampled wall never overdraws a tile and never changes the source wall",
"For every finite wall, any sequence of draws that StaticWall.sample(n) can produce (n at most the wall size, whatever the random generator returns) takes each kind at most as often as the wall holds it, and every pick removes exactly one copy of the picked tile. weights() is the remaining count of every kind in tile order, and neither pick nor sample changes the wall they started from.",
["inputs","histories"],"every wall contents, every number of draws and every outcome of the random generator",
"The draws are random: tests see a few samples, while the guarantee is about every sequence the weighted choice can return.",
["mahjong/container/distribution.py"],"TileDistribution.sample/weights, StaticWall.weight_of/pick",["StaticWall._tiles"])

p("V01","Standard hand decomposition is sound and complete",
"For NormalTypeWin(P, M) and any multiset of tiles, every list yielded by win_selections consists of exactly P pairs and M triplets or runs whose tiles together are contained in the hand, and every such choice of P pairs and M melds is yielded (as a multiset of units) at least once. Consequently match() is true iff the hand contains P pairs and M melds, in particular for the 14-tile hand of four melds and a pair.",
["inputs"],"every multiset of tiles with any counts, every number of pairs and melds",
"The search deletes tiles and narrows the hand as it goes, so a decomposition lost by pruning shows only for particular overlapping shapes; tests use a few dozen hands.",
["mahjong/container/pattern/win.py"],"WinPattern.win_selections/_win_selections/update_possible_units/match, NormalTypeWin.next_states/need_count/has_win")

p("V02","Seven-pairs recognition needs seven different pairs and finds all of them",
"For UniquePairs(n) and any multiset of tiles, every list yielded by win_selections consists of exactly n pairs of pairwise different kinds contained in the hand (four of a kind is one pair, not two), and every such set of n kinds is yielded at least once. match() is true iff at least n kinds are held twice.",
["inputs"],"every multiset of tiles with any counts and every n",
"The used set threads through the recursion; only hands with quads or more than n pairs can expose a lost or repeated pair, and there are far more of them than tests can list.",
["mahjong/container/pattern/win.py"],"UniquePairs.next_states/_used/need_count with WinPattern._win_selections")

p("V03","unique_win_selections lists every decomposition exactly once",
"For every win pattern and hand, unique_win_selections yields the decompositions win_selections yields, each as a sorted list of units, without repetition and without loss. The helper distinct(iterable) yields the first occurrence of every different item, in order, for any iterable of mutually comparable items under a total order.",
["inputs"],"every finite sequence of comparable items; every hand and pattern",
"distinct keeps a sorted list with binary search, so a duplicate or loss appears only for particular interleavings of values; and units compare by their item lists, so it needs a total order over units.",
["mahjong/container/utils.py","mahjong/container/pattern/win.py","mahjong/container/set.py"],"distinct (bisect_left on a growing list), WinPattern.unique_win_selections, TileSet.__lt__")

p("S01","The waiting step (shanten) is the true minimum number of missing tiles minus one",
"For a standard pattern with one pair and M<=4 melds and a hand of at least 3M+1 tiles, or for seven pairs and at least 13 tiles, with at most four copies of a kind, HeuristicPatternMatchWaiting.before_waiting_step(hand) is the smallest k such that k+1 tiles can be added to the hand, keeping every kind at four copies or fewer, so that the pattern matches (so -1 iff it already matches). The hand passed in keeps its counts.",
["inputs"],"every hand of the domain",
"The best-first search prunes by borrow stage and by the best result so far; an unsound prune gives a wrong answer only for rare shapes among billions of hands.",
["mahjong/container/pattern/reasoning.py"],"HeuristicPatternMatchWaiting.before_waiting_step/init_search_by_hand/_win_selections_in_tiles, borrowed_limit, need_to_borrow",["max_used_tiles"])

p("S02","Useful tiles are exactly the draws that bring the hand one step closer",
"For every hand of the S01 domain that does not already match, the useful tiles reported by HeuristicPatternMatchWaiting (useful_tiles and waiting_and_useful_tiles) are exactly the kinds of which fewer than four copies are held and whose draw lowers the waiting step by one; for a complete hand the set is empty. The reported waiting step is the one of before_waiting_step.",
["inputs"],"every hand of the domain",
"A missing useful tile is one optimal completion lost by pruning among many; each test hand checks one set out of billions.",
["mahjong/container/pattern/reasoning.py"],"HeuristicPatternMatchWaiting.waiting_and_useful_tiles/count_hand_borrow_combinition_iter/_win_selections_in_tiles",["max_used_tiles"])

p("S03","Batch analysis lists exactly the step-keeping discards with their useful tiles",
"For a standard pattern with M<=4 melds and a hand of 3M+2 tiles, or seven pairs and 14 tiles, not already complete, batch_waiting_and_useful_tiles(hand) yields each kind of tile at most once and yields a kind iff discarding it leaves the waiting step unchanged. Each entry carries that waiting step and the useful tiles of the hand without that discard.",
["inputs"],"every hand of the domain",
"It combines all optimal decompositions of a hand; losing one of them changes the verdict for a single discard in a rare shape.",
["mahjong/container/pattern/reasoning.py"],"HeuristicPatternMatchWaiting.batch_waiting_and_useful_tiles")

p("S04","The straightforward search engines give the same waiting step and useful tiles",
"On every hand of the S01 domain, PatternMatchWaiting gives the same waiting step and useful tiles as the definition in S01 and S02 (also for a complete hand: step -1 and no useful tiles), and BruteForceWaiting gives the same waiting step and useful tiles whenever the step is small enough for it to finish. Neither changes the counts of the hand passed in.",
["inputs"],"every hand of the domain",
"The test suite compares the engines with each other on a few dozen hands; agreement for all hands needs the argument, not samples.",
["mahjong/container/pattern/reasoning.py"],"PatternMatchWaiting._win_selections_in_tiles/before_waiting_step/waiting_and_useful_tiles, BruteForceWaiting, borrowed_limit")

p("C01","Category indexing is a bijection for every radix list",
"For SubCategory with any list of positive radices (the first may be -1 for unlimited), category and index are mutually inverse: every index in range maps to a tuple whose components lie within their radices in mixed-radix order, and back. MixedCategory concatenates its parts without gaps or overlaps: category(i) names the part that holds i and the position inside it, index inverts it, and both agree for nested mixed categories; the length (__len__) is the number of values (infinite when unlimited).",
["inputs"],"every list of radices of any length, every index in range, every concatenation (also nested) of categories",
"Radices, number of parts and indices are unbounded; tests check a couple of fixed radix lists.",
["mahjong/record/category.py"],"SubCategory._category_iter/index, MixedCategory._accumulate/category/index")

p("C02","Tenhou tile numbers map to the right tile, with the red fives in their place",
"For every id 0..135, tile_from_tenhou(id) is kind id//4 in the order 1-9m, 1-9p, 1-9s, 1-7z, and is the red five exactly for 16, 52 and 88. tile_to_tenhou_range(tile) is the range of exactly the four ids whose tile equals the given tile, also when it is given as a red five.",
["inputs"],"all 136 ids and all tiles including red fives",
"Every consumer (hands, invisible tiles, counts of useful tiles) relies on all ids; tests look at a few ids and never at the ranges of red fives.",
["mahjong/record/utils/value/tile.py","mahjong/record/utils/constant.py","mahjong/record/category.py"],"tile_from_tenhou, tile_to_tenhou_range, TENHOU_TILE_CATEGORY")

p("M01","Every meld code decodes to the right meld, tiles and source player",
"For every well-formed 16-bit meld code and every player, meld_from gives the meld type the code's flag bits say (run, triplet, added kan, kita, kan), the tile ids it encodes (consecutive kinds of one suit for a run, copies of one kind for triplets and kans), the one tile taken from another player as borrowed_tiles and the rest as self_tiles, disjoint from each other, and the player it was taken from as who plus the relative offset modulo 4. A concealed kan, a kita and the tile added to a triplet borrow nothing, and combining a triplet with its added tile gives the four ids of that kind.",
["inputs"],"all 16-bit codes with a well-formed tile field, all four players",
"There are tens of thousands of codes with different bit layouts per type; the tests decode a dozen.",
["mahjong/record/utils/value/meld.py","mahjong/record/utils/bit.py"],"meld_from, meld_type, Flush/Triplet/TenhouAddedKan/TenhouKan/Kita/KanFromTriplet, bit descriptors, is_triplet_of_added_kan")

p("M02","Every game-type code decodes to the rules it stands for",
"For every 16-bit game-type code, each rule reported by GameType (player count, red fives, open tanyao, speed, east/south length, level, tips, discard shadow, number of hands) is the one its documented bit encodes, independently of all other bits. Two codes compare equal iff they agree on every rule bit, ignoring only the preserved lowest bit and the padding bits, and the printed name reflects exactly these rules.",
["inputs"],"all 65536 codes and all pairs of them",
"A swapped or shared bit shows only for codes in which exactly these bits differ; tests use about ten codes.",
["mahjong/record/utils/value/gametype.py","mahjong/record/utils/bit.py"],"game_type_desc bit layout, GameType accessors, standard_code, __str__/__eq__")

p("D01","Dora indicators and initial tile sets follow the rules",
"For every list of indicator names, doras() lists in order the dora of each: the next number of the suit (9 wraps to 1, a red five counts as a five, and an indicator 4 gives the five and its red form), the next wind in E-S-W-N order and the next dragon in white-green-red order. initial_tiles(n, aka) is exactly the tile set of the game: 136 tiles, or 108 without 2m-8m for three players, with one red five replacing a plain five in every suit in play when red fives are used.",
["inputs"],"every list of indicators of any length; every player number and red-five rule; any number and order of earlier calls",
"The maps are module state shared by all callers; tests call them for one or two values and cannot show that calls leave the shared tables intact.",
["mahjong/record/const.py"],"_dora_map, doras, initial_tiles, _player_4_tiles/_player_3_tiles",["_dora_map"])

p("R01","Splitting a record into hands loses, repeats and reorders nothing",
"For every sequence of events, the groups StageGroupby produces, read one after the other, concatenate to the input sequence in order; grouped by 'is an INIT' (the way a record is split), a new group starts exactly at the first event and at every INIT that does not directly follow another INIT, and skipping a group (unread or half read) skips exactly the rest of that group. A TenhouRecord whose first event is not an INIT and in which no two INITs are adjacent therefore has one game per INIT event, each game's events run from its INIT up to just before the next INIT, and everything before the first INIT is in the head.",
["inputs","histories"],"every event sequence and every pattern of reading or skipping groups one after the other",
"The grouper is a stateful iterator whose groups share one cursor; tests feed short fixed sequences and read them in one way.",
["mahjong/record/stage.py","mahjong/record/reader.py"],"StageGroupby.__next__/_grouper/_stage_accepted, TenhouRecord construction of head_events and game_list",["currkey","currvalue","tgtkey","id"])

p("H01","The tracked hand is the tiles dealt and drawn minus those discarded and melded",
"After any sequence of events of a record, PlayerHand.value is the set of ids the player was dealt in the last INIT plus those drawn since, minus those discarded and those laid down in own melds since; events of other players and all other events leave it unchanged. passed_events and with_events give the same final hand, and earlier states keep their value.",
["histories","inputs"],"every finite sequence of events, all players in the game, any tile ids",
"The value depends on the whole event history; a test fixes one history.",
["mahjong/record/state.py","mahjong/record/player.py"],"PlayerHand.scan, TenhouPlayer.is_draw/is_discard/draw_tile_index/discard_tile_index, GameState.passed_events",["PlayerHand.hand"])

p("H02","Invisible tiles are all tiles in play minus everything that was shown",
"After any sequence of events, InvisibleTiles.value is the set of tile ids in play (136, or the 1m, 9m and all p, s, z ids for three players) minus the dora indicators, the discards of every player (any id, also 0) and the tiles laid down from hands in melds since the last INIT. No other event changes it and earlier states keep their value.",
["histories","inputs"],"every finite sequence of events, three and four players, every tile id",
"A tile that stays wrongly invisible needs a particular id (such as 0) or a three-player log; the counts of useful tiles silently come out wrong.",
["mahjong/record/state.py","mahjong/record/utils/event.py"],"InvisibleTiles.scan/__init__, discard_value, DoraIndicators.scan",["InvisibleTiles._invisible_tiles"])

p("H03","Melds, discards and dora indicators are tracked in order and per player",
"After any sequence of events, PlayerMeld.value lists the player's melds since the last INIT in order, with an added kan replacing exactly the triplet of the same kind in place; DiscardTiles.value lists the player's own discards since the last INIT in order; DoraIndicators.value is the first indicator of the last INIT followed by every later DORA tile. Events of other players and unrelated events change none of them, earlier states keep their value, and is_key_event is true for every event that changes the value.",
["histories","inputs"],"every finite sequence of events, all players in the game, any tile ids",
"These are folds over whole histories; tests replay a few recorded games.",
["mahjong/record/state.py"],"PlayerMeld.scan/is_key_event, DiscardTiles.scan/is_key_event, DoraIndicators.scan/is_key_event, GameStateCollection",["_meld_list","_discard_tiles","_dora_indicators"])

p("U01","The command interpreter and the state executor agree on every command",
"For every sequence of commands, the value GameExecutor stores for a property after a command equals the new value GameInterpreter computes for it: replace and assert-or-set store the given value, add and remove combine it with the old value (list concatenation, removal of one occurrence per given value, sum or difference), reset stores the type's default. Every other property of every scope and player keeps its value, the timestamp follows the command, and earlier states and the command's own lists stay unchanged.",
["histories","inputs"],"every sequence of commands over all properties, update methods, players and values",
"The state is a fold over an unbounded history over 30+ properties and 5 update methods; tests run one recorded game.",
["mahjong/record/universe/interpreter.py","mahjong/record/universe/executor.py","mahjong/record/universe/property_manager.py"],"execute_new_value, GameInterpreter.interpret, GameExecutor.execute/execute_update_state/state_value, prop_manager.call",["GameInterpreter.state","GameExecutor.states"])

p("U02","State trees are persistent: an update never changes an older version",
"For a nested dictionary of any depth and width and any path, setting or dropping a key through a nested TransferDict returns a new root in which exactly that entry is changed and every other entry at every level is equal to before, and every nested dictionary of the new root is again linked to it. The old root and every view taken from it keep their contents, and flatten lists every leaf with its full path.",
["histories","inputs"],"every nested dictionary, every sequence of set/drop at any depth, through any old or new view",
"Aliasing between versions only shows when old versions are inspected or updated after new ones, for particular shapes and depths.",
["mahjong/record/universe/executor.py"],"TransferDict.__init__/transfer_value/set/drop/setdefault/flatten_iter",["nested_dict","parent","parent_key"])

p("U03","Commands survive serialization",
"For every property of every scope, every update method, event type, player and every value of the property's type, from_record(to_record(command)) and from_raw_record(to_raw_record(command)) give back a command with the same property, scope, sub-scope, update method, event type, timestamp, value and state. Property names resolve to the property of their own scope and nothing is confused between scopes.",
["inputs"],"every property, update method, event, sub-scope and every value of the property's type (integers, booleans, strings, lists of tiles and melds, floats, or none for non-text properties)",
"The product of properties, types and values is unbounded; the converter dispatches on type flags, and tests only round-trip commands of recorded games.",
["mahjong/record/universe/command.py","mahjong/record/universe/property_manager.py","mahjong/record/universe/format.py"],"GameCommand.to_record/from_record/to_raw_record/from_raw_record, View.by_name, View.type, prop_manager.to_str/from_str, try_int")

p("U04","Every game event is translated to exactly the commands it means",
"For every event and every earlier state of the record, the translation of draws, discards, melds, dora reveals, riichi, deals, wins, draws and disconnects produces commands for exactly the players and properties the event concerns with the right update method and values (tiles by name, scores times 100, riichi deposit 1000, discard_from_hand true iff the discarded tile is not the one just drawn, the yaku of a win named without their han values). Each command carries its event type and the event's timestamp, and its state is the new value of that property.",
["inputs","histories"],"every event with any tile ids, players and scores, after any earlier events of the record",
"The right command depends on values and on the last draw in the history; the tests check one recorded game and a few snippets.",
["mahjong/record/universe/tenhou/event_definition.py","mahjong/record/universe/tenhou/xml_macher.py","mahjong/record/universe/translator.py","mahjong/record/utils/builder.py"],"draw_command, discard_command, open_hand, game_init_command, hand_update, richii_command, agari_command, no_win_command, game_finish, Builder.when, default_event_type",["GameInterpreter.state _right_most_tile_int"])

p("U05","Translating a record does not depend on what was translated before",
"For every record, to_commands and to_command_records give the same commands whether the shared translator is fresh or was used for any other records before, completely or abandoned half-way. In strict mode an event that yields no command raises ValueError; otherwise it is skipped and nothing else is.",
["histories"],"every record and every earlier use of the shared translator, including abandoned iterations",
"The translator is a module-level singleton; leaks show only for particular sequences of records.",
["mahjong/record/universe/tenhou/__init__.py","mahjong/record/universe/translator.py"],"to_command_iter/tenhou_command.clear, CommandTranslator.interpreter.state, CommandTranslator.__call__",["tenhou_command.interpreter.state"])

p("U06","Final ranks order the players by score",
"For every list of final scores, the record-finish commands give the players ranks that are a permutation of 1..player count, where a player with a higher final score always has the better rank and equal scores rank the earlier seat first. final_score is the listed score times 100 and final_point the listed point, for exactly the players in the game.",
["inputs"],"all final scores and points, three and four players, ties included",
"Ties and negative scores hit only special inputs; recorded games rarely contain them.",
["mahjong/record/universe/tenhou/event_definition.py"],"game_finish: player_ranks sort and player_rank_map")

p("K01","The report's judgement of a discard is consistent with the best discard",
"For every hand, set of invisible tiles and discard, the recommended discards are those with the lowest waiting step and, among them, the most useful tiles still invisible, counted per physical tile and merged over all applicable win patterns for the same discard. wrong_rate lies between 0 and 1, is 0 when the discard made is as good as the best one, and grows neither negative nor undefined.",
["inputs"],"every 3M+2-tile hand, invisible set and discard, with and without melds, including complete hands and hands with no useful tile left",
"The judgement combines two searches over all decompositions with counting; a mismatch shows only for hands where the patterns disagree or counts are extreme.",
["mahjong/tenhou_record_check.py"],"discard_reasoning, reasoning_merge, reduce_useful, convert_to_reasoning, reasoning_key, one_win_reasoning")

p("N01","Number lists and log links are read exactly",
"For every comma-separated list of decimal numbers below 2**53 in magnitude, number_list returns the numbers in order, as int when they are integral and float otherwise. For every log id, log_id_from_url(log_id_to_url(id)) is id, and download_url of any viewer link asks the log server for exactly that id, whatever other query fields surround it.",
["inputs"],"every list of numbers and every log id of letters, digits, '-', '_' and '.', with any other query fields",
"Lists and links are unbounded; tests read one or two.",
["mahjong/record/utils/value/general.py","mahjong/record/reader.py"],"number_list, log_id_from_url, log_id_to_url, download_url")

p("P01","The paifu table has exactly the rows of the record's events",
"to_paifu of an event gives the rows that event stands for and no others: the drawing, discarding, calling, riichi-declaring or winning player's seat, the tile drawn or discarded, for a meld its kind, the tiles shown from the hand, the open tiles (the borrowed one first) and the player it came from (kita has no source), for a dealt hand each seated player's sorted tiles and score, the dora indicator and the deposits, for a drawn hand its kind. A hand's rows are those of its events in order, each labelled with wind, round number and honba; a record's rows are those of its hands in order and then one final row per player with the final score times 100.",
["inputs"],"every event of the log format with any tiles, seats, meld codes and numbers; hands of any number of events; records of any number of hands, three and four players",
"Tests only count the rows of recorded games; a wrong tile, seat, source or label in one kind of row (a particular meld, a three-player deal, a kind of draw) changes no count.",
["mahjong/record/utils/event.py","mahjong/record/reader.py"],"TenhouEvent.to_paifu, TenhouGame.to_paifu, TenhouRecord.to_paifu")

p("P02","Summaries of events, hands, players and records say what the log says",
"Reading a record gives its players (seat, decoded name, rank, rating, sex), hands and final scores exactly as logged. str() of a player names rank and rating; the summary of an event names the player and tile, meld, points or kind of draw it has (tiles of melds up to the red marking of fives); str() of a hand gives wind, round number, honba and, for each way it ended, winner, loser and points or the kind of draw; str() of a record lists the players by final score, highest first, the earlier seat first when equal, each with the own name and final point.",
["inputs"],"every event, every hand with any numbers and one to three ends, all ranks and ratings, all final scores and points with ties, three and four players",
"Tests print recorded games without looking at the text; multiple winners, draws, ties and three-player tables are rare in them.",
["mahjong/record/reader.py","mahjong/record/utils/event.py","mahjong/record/player.py","mahjong/record/utils/value/meld.py"],"TenhouGame.__str__/end_stringify, TenhouRecord.__init__/__str__, TenhouEvent.base_str, TenhouPlayer.__str__, Meld.__str__")

p("Q02","A report covers every hand in order, in a plain file, for the chosen players",
"The report of a player has one analysis per hand of the record, in the order of the hands, each of that hand for that player, with the link of the log. Its file name is tenhou_record_<log id>_<name>_<seat>.html with each of the characters \\ / : * ? \" < > | and NUL replaced and nothing else changed, so it never leaves the working directory; without link or id there is no file name but a ValueError. The program writes the report of the player whose number is given, and of all players for any other answer, each text in UTF-8 to its file.",
["inputs"],"records of any number of hands, any player name and log id, every seat, every answer (number or not), three and four players",
"Names are chosen by other players and answers by the user; tests render recorded games with harmless names and never run main.",
["mahjong/tenhou_record_check.py"],"render_template, main")

p("Q01","Log text never becomes markup in a report",
"For every player name and log content, the HTML report contains the text only in escaped form.",
["inputs"],"every player name (any Unicode text) and log id",
"Names are chosen by other players; tests only render recorded games with harmless names.",
["mahjong/tenhou_record_check.py","mahjong/templates/record_checker_template.html"],"template_env autoescape")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        len(x['title'])<=80 or print(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
