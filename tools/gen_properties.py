import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
U="base/src/utils.rs";A="base/src/algorithms.rs";B="base/src/board.rs";S="base/src/safe_board.rs"
MB="base/src/videos/minesweeper_board.rs";BV="base/src/videos/base_video.rs";EV="base/src/videos/evf_video.rs"
AV="base/src/videos/avf_video.rs";RV="base/src/videos/rmv_video.rs";MV="base/src/videos/mvf_video.rs";AM="base/src/videos/analyse_methods.rs"
p("C01","Board metrics equal their definitions on every board",
 "For every rectangular board whose numbers are correct, the reported 3BV, number of openings, number of islands and number of cells carrying each digit equal their textbook definitions (openings: 8-connected groups of zero cells; 3BV: openings plus numbered cells touching no zero cell; islands: 8-connected groups of those isolated numbered cells). The answer does not depend on whether a plain board or the protected board is passed, and a board's numbers computed from its mines are the true neighbour counts.",
 ["inputs"],"every mine layout of every board shape up to the bound, plus structured families on the standard large boards",
 "tests print the values of one or two fixed boards",[U,B],[("cal_bbbv/cal_op/cal_isl/cal_cell_nums/cal_board_numbers","base/src/utils.rs")])
p("C02","Statistics of a board object do not depend on query order or repetition",
 "Reading any statistic of a board object (3BV, openings, islands, number of cells of each digit) returns the true value of that board no matter which statistics were read before, in which order and how many times.",
 ["histories","inputs"],"all sequences of getter calls up to the bound, on all small boards",
 "tests call each getter at most once in one order",[B],[("Board lazy caches","base/src/board.rs")])
p("C03","Opening cells reveals exactly the right region",
 "Opening a set of cells on a visible board reveals exactly those cells plus, for each revealed zero, its whole opening with its numbered border (flags are never opened by spreading), every revealed number is the true number, and no other cell changes. Opening a mine marks exactly the opened mines as exploded and the flags that stand on non-mines as wrong, and reveals no other mine.",
 ["inputs","histories"],"every mine layout, visible-board state and click set up to the bound",
 "tests exercise a handful of positions",[U],[("refresh_board/infect_board","base/src/utils.rs")])
p("C04","Win exactly when all safe cells are open, loss exactly when a mine is opened",
 "For every sequence of mouse events, the visible board always shows exactly the cells a rule-abiding game would have opened and the flags the player placed, the game is won exactly when every non-mine cell is open and lost exactly when a mine has been opened, and after the game has ended no event changes the board or the result. Flagged cells are never opened by left clicks, and a double-button release opens neighbours only when the number of adjacent flags equals the cell's digit. The recorder shows the same board; asked to mark the remaining mines, it flags them after a win, shows them after a loss, and changes nothing else or at any other time.",
 ["histories","inputs"],"all event sequences over the mouse alphabet (including held buttons, drags, out-of-board events and pre-flagging) on all layouts of small boards, as reachable states",
 "tests replay a few recorded games and never compare against the rules",[MB],[("MinesweeperBoard::step and its click handlers","base/src/videos/minesweeper_board.rs")])
p("C05","Click counters agree with the mouse-button protocol for every event sequence",
 "For every sequence of mouse events the reported numbers of left, right and double clicks, effective clicks and flags equal those defined by the button-state protocol: each press/release is counted once in the right category, double-button gestures are re-attributed as specified, a click is effective exactly when it is a left click that opens safe cells, the first flag ever placed on a mine, or a double click that opens cells, and the flag count equals the flags currently standing. Counters are cleared when all flags placed before the game are taken back, and never change after the game has ended.",
 ["histories","inputs"],"all mouse event sequences up to the bound on all small layouts",
 "tests only print the counters of recorded games",[MB],[("MinesweeperBoard counters","base/src/videos/minesweeper_board.rs")])
p("C06","Solved 3BV never exceeds the board's 3BV and reaches it exactly on a win",
 "In every reachable state of a game the reported solved 3BV equals the number of openings whose zero cells are all open plus the number of isolated numbered cells revealed; so it never exceeds the board's 3BV, never decreases, and equals the 3BV when the game is won.",
 ["histories","inputs"],"all reachable game states of all small boards under the full mouse alphabet including flagging and unflagging",
 "tests look at one final value",[MB],[("bbbv_solved bookkeeping","base/src/videos/minesweeper_board.rs")])
p("C07","The solver never declares a wrong cell on a consistent position",
 "On every visible board that some mine layout can produce, every cell that any deduction step declares safe is safe in every layout compatible with the visible numbers, every cell it declares a mine is a mine in every such layout, cells marked on the board agree with the returned lists, and a consistent board is never reported contradictory.",
 ["inputs"],"every layout and every set of opened cells up to the bound, every deduction stage alone and in sequence",
 "tests run the solver on single positions and print the result",[A,U,B],[("solve_direct, solve_minus, solve_enumerate, mark_board","base/src/algorithms.rs"),("refresh_matrix*","base/src/utils.rs")])
p("C08","The full deduction finds every logically determined border cell",
 "The complete deduction reports exactly the unopened cells adjacent to open numbers that are safe in every compatible layout as safe, and exactly those that are mines in every compatible layout as mines (mine total not considered), and asking whether one given cell can be proven agrees with that answer.",
 ["inputs"],"every reachable visible board of every small layout, as long as no connected block exceeds the documented enumeration limit",
 "completeness is a statement about all layouts compatible with a position; tests never compute it",[A,U],[("get_all_not_and_is_mine_on_board, solve_enumerate, is_able_to_solve","base/src/algorithms.rs")])
p("C09","Mine probabilities equal the exact fraction of compatible layouts",
 "For every consistent position and mine total, the reported probability of each border cell, of the remaining unknown cells and on the full board equals the exact fraction of mine layouts compatible with the visible numbers and the mine total in which that cell is a mine; certain mines get 1 and opened or proven-safe cells 0, and the reported range of possible mine totals is exact. Only a connected group of more than 55 unopened border cells (the documented enumeration limit) is instead counted among the remaining unknown cells and gets their probability; the size of the largest group is always reported.",
 ["inputs"],"every visible board of all small layouts, with every mine total for which a layout exists",
 "tests print the probabilities of a few positions",[A,U],[("cal_possibility, cal_possibility_onboard","base/src/algorithms.rs"),("cal_table_minenum_recursion, C/combination arithmetic","base/src/utils.rs")])
p("C10","Opening probabilities equal the exact fraction of compatible layouts",
 "For every consistent position with a known mine total and each queried unopened cell, the reported probability that the cell opens a zero region equals the fraction of compatible layouts in which that cell and all its neighbours are free of mines.",
 ["inputs"],"every visible board of all small layouts, every mine total, every cell",
 "tests print one position",[A],[("cal_is_op_possibility_cells","base/src/algorithms.rs")])
p("C11","The guess-free judgement of a board is correct",
 "A board judged solvable from a start cell can really be finished from that cell by deductions that are valid in every compatible layout, with the mine total unknown until it is used; and a board that such deduction finishes, starting on a zero cell and within the solver's documented limits, is judged solvable. The judgement is deterministic and does not modify its input; the structural pre-filter judges a board and its rotated or mirrored images alike.",
 ["inputs"],"every mine layout and every start cell up to the bound",
 "tests judge a single board",[A,U],[("is_solvable, unsolvable_structure","base/src/algorithms.rs")])
p("C12","Random board generation honours its contract for every random outcome",
 "For every size, start cell and mine count that fits (with the opening rule: outside the cells around the start) and every outcome of the random source, a generated board has the requested size, exactly the requested number of mines, true numbers and a mine-free start cell, and with the opening rule a zero at the start. Every layout allowed by the rule is equally likely.",
 ["inputs","configurations"],"all outcomes of the random source for small boards, all sizes (square or not), all start cells (corner, edge, interior) and all mine counts up to the bound",
 "tests draw one board and print it; uniformity quantifies over every outcome",[U],[("laymine, laymine_op","base/src/utils.rs")])
p("C13","No-guess generation returns a board that meets its stated contract",
 "Whenever no-guess generation reports success, the board has the requested size and mine count, true numbers, a zero at the start cell and is solvable without guessing from there; when it reports failure the board still honours size, mine count and safe start. It always returns, even if the retry budget is zero or the density is hopeless.",
 ["inputs","configurations"],"all outcomes of the random source on small boards, all budgets up to the bound",
 "tests sample a few random boards and only print them",[A],[("laymine_solvable, laymine_solvable_adjust","base/src/algorithms.rs")])
p("C14","Parallel no-guess generation is correct under every thread schedule",
 "Under every interleaving of its workers, parallel generation returns exactly once, without deadlock or panic, a board of the requested size and mine count with a safe start; if it reports success the board is guess-free, and if any worker found a guess-free board within the budget it does not report failure.",
 ["schedules","inputs"],"all interleavings of the workers' synchronisation operations (no preemption bound) for every distribution of guess-free and rejected attempts over the workers within the bound",
 "an ordinary run sees one schedule and random outcomes",[A],[("laymine_solvable_thread","base/src/algorithms.rs")],None,"cfg(vp_mc) routes the threading primitives of the generator through a controlled scheduler")
p("C15","Judging whether an opened cell was a guess or a misplay is exact",
 "For every consistent position and every unopened cell, the judgement of opening that cell (provably safe, forced guess, guess while a safe cell existed, provably a mine, ...) matches the classification computed from all layouts compatible with the visible numbers.",
 ["inputs"],"every reachable visible board of small layouts and every unopened cell",
 "tests judge one cell",[A],[("is_guess_while_needless, is_able_to_solve","base/src/algorithms.rs")])
p("C16","The protected board is indistinguishable from the plain board it was built from",
 "Building a protected board from any board and reading it back, by cell, by row, by iteration or by converting it to a plain board, yields exactly the original values and dimensions for every outcome of the random source, and setting it again replaces it completely.",
 ["inputs","configurations"],"all cell values, all board shapes up to the bound and all outcomes of the random source",
 "tests build one board and print it",[S],[("SafeBoard/SafeBoardRow encode/decode","base/src/safe_board.rs")])
p("C17","A saved recording replays to exactly the game that was played",
 "For every played game that ended in a win or loss (within the format's limits: times below 2^24 ms, header texts without NUL), saving it in the native format and loading it back yields the same board, player metadata, settings, checksum, event list (type, time, position) and result, and analysing the loaded recording reproduces the live game's final visible board, result, counters, solved 3BV and time; saving the loaded recording again gives identical bytes.",
 ["histories","inputs"],"all small games over the mouse alphabet, and all boundary values of header fields",
 "tests replay one hand-written game and print",[BV,EV],[("generate_evf_v0_raw_data, EvfVideo::parse_video, analyse","base/src/videos")])
p("C18","The live recorder's clock, events and positions are faithful",
 "For every sequence of mouse events and every clock behaviour, each accepted event is recorded once in order with its true elapsed time and position, recorded times never decrease, the reported time counts from the first flag placed before the game, restarts at the click that starts the game and freezes when the game ends, and the travelled path is the length of the recorded polyline from the game start over positions inside the board.",
 ["histories","inputs"],"all event and clock-advance sequences up to the bound, clock controlled by the checker",
 "tests sleep on the real clock and print",[BV,"base/src/miscellaneous.rs"],[("BaseVideo::step, get_rtime/get_time, path","base/src/videos/base_video.rs")],None,None)
p("C19","Seeking in a replay gives the state determined by the target time alone",
 "After seeking a loaded replay to any time, every reported quantity (visible board, time, counters, cursor position, solved 3BV, board statistics) depends only on that time and equals the state after playing all events up to and including it from the start (at least the first event), whatever seeks happened before; seeking before the beginning or beyond the end clamps.",
 ["histories","inputs"],"all sequences of seek targets up to the bound over small recordings, by time and by event",
 "tests seek once or twice and print",[BV],[("set_current_time, set_current_event_id and the per-event key dynamic params","base/src/videos/base_video.rs")])
p("C20","Parsers reject damaged recordings with an error instead of crashing",
 "For every truncation and every single-byte corruption of a valid recording of any supported format, loading it either succeeds or returns an error; it never panics, never loops forever and never reads outside the data, and a recording that loads can also be analysed without a panic.",
 ["fault_sequences","inputs"],"every truncation point and every value of every byte of small valid recordings in all four formats",
 "tests parse intact sample files only",[BV,AV,RV,MV,EV],[("get_u8/get_u16/... bounds and the parse_video functions","base/src/videos")])
p("C21","Recordings of every supported format decode to the game they describe",
 "For every well-formed recording of each supported foreign format, the decoded board, level, size, mine count, player data, start and end times and event list are exactly those encoded in the file, and replaying the events reproduces the recorded result.",
 ["inputs"],"all small games and all boundary values of header fields, encoded by an independent writer for each format",
 "tests parse a few sample files and print",[AV,RV,MV,BV],[("AvfVideo/RmvVideo/MvfVideo::parse_video","base/src/videos")])
p("C22","Saving a recording never overwrites an existing file",
 "Saving a recording under any name creates a new file whose content is exactly the recording and leaves every file that already existed untouched, whatever files with the same or numbered names already exist, for any number of saves in a row.",
 ["histories","configurations"],"all subsets of pre-existing names up to the bound and all save sequences",
 "tests save once",[BV],[("save_to_evf_file","base/src/videos/base_video.rs")])
p("C23","Recorder settings follow the game phase, and a reset equals a fresh recorder",
 "Each setting can be changed or read exactly in the phases in which it is allowed and is refused without effect otherwise, for every history; and after a reset, every later observation equals that of a newly created recorder of the same board size (likewise for a loaded recording), except for the data that identifies player, software, device and mode, which is kept.",
 ["histories"],"all sequences of setter calls, mouse events and resets up to the bound",
 "tests use each setter once in the right phase",[BV,MB],[("can_set_... macros, reset","base/src/videos/base_video.rs"),("MinesweeperBoard::reset","base/src/videos/minesweeper_board.rs")])
p("C24","The constraint system extracted from a position is equivalent to the position",
 "For every visible board, the linear constraints handed to the solver have exactly one variable per relevant unopened border cell and exactly one equation per open number that touches one, splitting them into independent blocks loses and duplicates nothing and never separates constraints that share a cell, and the solution tables over a block count exactly its satisfying assignments by number of mines; a table of partial assignments extended by further equations lists each joint solution exactly once.",
 ["inputs"],"every reachable visible board of all small layouts, including boards with already marked mines and safe cells",
 "tests print one matrix",[U],[("refresh_matrix, refresh_matrixs, refresh_matrixses, cal_table_minenum_recursion, combine, enuOneStep","base/src/utils.rs")])
p("C25","Position analysis attached to replays matches the position",
 "For every visible board handed to a position object, player marks ignored, the basic lists of safe and mine cells are those found by the direct and subtraction deductions, the enumerated lists are exactly the remaining border cells that every layout agreeing with the numbers forces, and the probabilities are exact, regardless of which was asked first or whether the object held another board before; and an effective double click is judged good exactly when no orthogonally adjacent double click would open more cells.",
 ["histories","inputs"],"all orders of queries, and reuse across all pairs of small positions",
 "tests print one query",[B,U,AM],[("GameBoard caches","base/src/board.rs"),("is_good_chording","base/src/utils.rs")])
p("C26","Contradictory positions are reported: never a crash, never a made-up answer",
 "For every rectangular visible board that no mine layout can produce, the deduction and probability functions return an error or an answer without crashing, hanging or NaN, and the functions that report errors (both probability functions, the opening-probability function, the marking and the direct and subtraction deductions) never present a probability for a board that no layout with the given number of mines fits (a number without adjacent unopened cell is not examined).",
 ["inputs"],"every assignment of digits and unopened cells to boards up to the bound",
 "tests use consistent positions",[A,U],[("Result/Err paths of the solver","base/src/algorithms.rs")])
p("C27","3BV sampling counts every drawn board in the right bin",
 "For every outcome of the random source, the returned histogram contains exactly the requested number of samples and each sampled board is counted in the bin of its true 3BV.",
 ["inputs","configurations"],"all sample counts up to the bound, a family of fixed answer streams of the random source, all interleavings of the sampling threads",
 "tests draw a random histogram and cannot know its truth",[A,U],[("sample_3BVs_exp, laymine_study_exp","base/src/algorithms.rs")],None,"cfg(vp_mc) routes the threading primitives of the sampler through a controlled scheduler")
p("C28","Derived performance statistics follow their published formulas",
 "After a game has ended, and at every moment of a replay, each derived statistic (estimated time, 3BV/s, clicks/s, efficiency ratios IOE, correctness, throughput, STNB, RQP, QG, ce/s) equals its published formula applied to the 3BV, solved 3BV, counters and time reported at that moment; while a live game is still running those statistics are refused.",
 ["inputs","histories"],"every small game, live after its end and at every event and several times of its replay",
 "tests print the statistics of fixed recordings",[BV],[("get_etime/get_bbbv_s/get_stnb/get_rqp/get_qg/get_ce_s/get_ioe/get_corr/get_thrp","base/src/videos/base_video.rs")])
PY=["python_package/src/"+x for x in ["lib.rs","board.rs","gameboard.rs","base_video.rs","avf_video.rs","evf_video.rs","rmv_video.rs","mvf_video.rs"]]
p("C29","The Python package behaves like the library",
 "Every function, class, property and method of the Python package returns exactly what the library's own call returns for the same arguments and the same history: same values, arguments in the same order and orientation, and an exception exactly where the library refuses or panics. This covers board functions, solver functions, generators, the state machines, boards with lazily computed statistics, the protected board, position analysis, live recordings and replays of all four formats, including settings, seeking to times and to events, and saved files.",
 ["inputs","histories"],"every bounded board, position, event sequence and recording, replayed through the compiled Python extension module",
 "the repository has no test of the Python package that runs here, and a wrong mapping of one getter or argument needs the right input to show",PY,[("pyfunctions","python_package/src/lib.rs"),("PyMinesweeperBoard, PyGameBoard, PyBoard, PySafeBoard, PyBaseVideo and the four replay classes","python_package/src")])
p("C30","The JavaScript package behaves like the library",
 "Every function and class of the JavaScript package (3BV, openings, mine probabilities, board generators, the state machine, replays of the four formats) returns exactly what the library's own call returns for the same arguments and history, boards being passed as JSON text; it fails exactly where the library refuses or panics; and the board generators of that build keep the promises of their arguments, with every layout the arguments allow equally likely.",
 ["inputs","histories"],"every bounded board, position, event sequence and recording; every outcome of the random source for small areas; the binding compiled natively with the library built for JavaScript",
 "the repository has no test of the JavaScript package that runs here; the JavaScript build has its own random source and shuffle which no test runs",["wasm/src/lib.rs","wasm/src/board.rs","wasm/src/transfor.rs",U],[("exported functions","wasm/src/lib.rs"),("MinesweeperBoard and the replay classes","wasm/src/board.rs"),("get_random_int/shuffle_ (feature js)",U)])
p("C31","Event analyses remark exactly what happened in the game",
 "Each event analysis of a loaded recording writes its remark exactly on the events it is defined for: dangerous guess (an effective left click or double click after the opening on a cell whose mine probability is at least 0.51; the remark states the chance of a right guess), hard judgement (opening a cell proven safe, or flagging a cell proven a mine, when only enumeration proves it; never when a flag is taken back), needless guess (a guess while a safe cell could be deduced; never when nothing can be deduced), bent mouse way (way between two clicks more than 7 times the distance: error, more than 3.5 times: warning, on the click that starts the way), eye movement (next opening click at least 112 pixels away while a safe cell within 3 cells of the previous one could be deduced, on the previous one), luck (last event: the product of the survival chances of all guesses after the opening), textbook flagging runs (5 or more flags and well chosen double clicks in a row, up to the last double click, on the first flag, whether a break or the end of the game ends the run). No analysis disturbs another's remarks or the playback, in any order; unknown names are ignored.",
 ["inputs","histories"],"every position of small boards reached by clicks, followed by every click or flag; all bounded mouse ways, click orders on wide boards, and flag runs",
 "tests print the remarks of single recordings; which event gets a remark depends on exact deductions and probabilities of each position",[AM,BV],[("analyse_high_risk_guess, analyse_jump_judge, analyse_needless_guess, analyse_mouse_trace, analyse_vision_transfer, analyse_survive_poss, analyse_super_fl_local","base/src/videos/analyse_methods.rs"),("analyse_for_features","base/src/videos/base_video.rs")])
p("C32","The verdict on a recording follows the published review rules",
 "For every analysed recording the verdict (0 legal, 1 illegal, 3 uncertain) is: illegal when it was made by any program other than Arbiter, Viennasweeper, 元3.2 and 元3.1.7, by Viennasweeper after second 1682265600, or by 元 with a checksum of 32 equal bytes or marked unfair; uncertain for Viennasweeper without a ten-digit time stamp; otherwise uncertain when it holds fewer than ten events per 3BV, else legal exactly when the game was won. Browsing the replay or running event analyses does not change it.",
 ["inputs","configurations"],"all program names, time stamps and checksums around the accepted ones, won, lost and broken-off games, event counts around the limit, all four formats",
 "tests print one verdict",[BV],[("is_valid","base/src/videos/base_video.rs")])
p("C33","A clean picture of a board is read back as that board",
 "A sharp picture of a Minesweeper position (classic skin, 32-pixel cells, a plain border and at least 7 pixels around the board, wherever the board lies in the picture) is read as exactly that position: 8x8 boards with one mine after any first click, with two mines fully opened, or with any mines in a 3x3 block, and half-opened boards from 8x8 to 16x30; a number that exceeds the unopened cells around it is lowered to their count. For every picture that is read at all, the answer is a rectangular board larger than 3x3 holding only 0-8, 10 and 11, in which no number exceeds the unopened cells around it, and the transparency channel has no influence. A picture with a side of at most 24 pixels is refused.",
 ["inputs"],"every position of the named families in six placements; pictures of 11 cell sizes and 3 margins; every picture size with a side to 24",
 "no test reads a picture; the answer depends on where cell borders fall in the whole picture",["base/src/OBR.rs","base/src/algorithms.rs",U],[("OBR_board, OBR_cell","base/src/algorithms.rs"),("ImageBoard","base/src/OBR.rs"),("legalize_board",U)])
p("C34","The C library behaves like the library",
 "The C library can be built and used through its header: cal3BV returns the 3BV the library returns; cal_possibility_onboard returns the three mine totals and the mine probability of every cell that the library returns, for a mine total or a density, for every position the library accepts; laymine returns the board the library lays under the same outcome of the random source, with the rows, columns, mine count and start cell in their order. Every returned row has its length. The board passed in stays unchanged and the caller's own; after free_board / free_board_poss no memory of a returned board is left allocated, and none is given back twice.",
 ["inputs","histories"],"every bounded board and position, every outcome of the random source on small boards, replayed through a C program linked to the compiled C library, with every allocation counted",
 "no test builds the C library; a swapped argument, total or row length, or a leak, needs the right board or a count of allocations to show",["c/src/lib.rs","c/ms_toollib.h"],[("cal3BV, laymine, cal_possibility_onboard, free_board, free_board_poss","c/src/lib.rs"),("struct and function declarations","c/ms_toollib.h")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
