REAL = "Every enumerated case runs the real crate code (rebuilt from /repo, overflow and debug assertions on). "
T['C01'] = (EN, REAL + "Complete for all layouts up to the stated board size; larger boards only through structured families.")
T['C02'] = ("all getter sequences to a fixed length on all small boards, replayed on the real Board object", REAL + "Bound: sequence length and board size.")
T['C03'] = (EN, REAL + "All visible states and ordered click lists up to length 2 on small boards.")
T['C04'] = (BFS, REAL + "Fixpoint of the full mouse alphabet on tiny boards; bounded clicks on larger ones. Trusts the reference rules in refgame.rs.")
T['C05'] = (BFS, REAL + "Counters are path functions, so they are part of the explored state, with bounded standing flags; trusts the protocol as written in refgame.rs.")
T['C06'] = (BFS, REAL + "Same exploration as C04/C05 with the 3BV oracle recomputed from definitions.")
T['C07'] = (EN + " (all compatible layouts of each reachable position)", REAL + "Exact within the listed shapes; windows embedded in standard boards beyond them.")
T['C08'] = (EN + " (all compatible layouts of each reachable position)", REAL + "Exact within the listed shapes.")
T['C09'] = (EN + " (exact fractions over all layouts)", REAL + "Floating point compared with tolerance 1e-9.")
T['C10'] = (EN + " (exact fractions over all layouts)", REAL + "Floating point compared with tolerance.")
T['C11'] = (EN + " (exhaustive closure of the deduction game)", REAL + "Completeness is checked for zero starts on bounded boards.")
T['C15'] = (EN + " (classification from all compatible layouts)", REAL + "All cells of all reachable positions of small shapes.")
T['C16'] = ("exhaustive enumeration of boards and of boundary outcomes of the random source, injected through a patched rand", REAL + "Random draws are owned by the harness.")
T['C24'] = (EN, REAL + "Equations, blocks and tables compared with brute-force solution counting.")
T['C26'] = ("exhaustive enumeration of all cell-code assignments of small boards, consistent or not, against brute-force consistency", REAL + "Checks the documented error results and absence of panics, hangs and NaN.")
T['C17'] = (BFS + "; recordings also encoded by an independent writer of the documented layout", REAL + "All games of bounded length on tiny boards, header boundary values, checksum set before/after/twice; trusts the reference recorder refrec.rs and the writer in p_evf.rs.")
T['C18'] = (BFS + " under a clock owned by the checker", REAL + "Clock patterns: regular, backwards wall clock, sub-millisecond; all paths of the bounded exploration.")
T['C19'] = ("all sequences of seek targets (times and event numbers) up to a depth over recordings produced by bounded games", REAL + "Every reported quantity compared with the prefix state of the reference recorder.")
T['C22'] = ("exhaustive enumeration of pre-existing file sets (absent, file, directory) with sequences of saves in a scratch directory", REAL + "The whole directory tree is compared before and after each save.")
T['C23'] = ("all sequences of settings and game moves up to a depth from every phase; every explored game followed by reset and probe games", REAL + "Differential against a new recorder and against the reference recorder.")
T['C28'] = (BFS + ", statistics recomputed from their formulas at every event", REAL + "Floating point compared with tolerance.")
T['C20'] = ("exhaustive enumeration of damage: every truncation, every value of every byte, lost and doubled bytes, every pair of positions with boundary values", REAL + "Each file is loaded, analysed and browsed; bound: at most two damaged places in small recordings of each format.")
T['C21'] = (BFS + " written by independent encoders of the three foreign layouts", REAL + "All 65536 MVF permutations, all one-byte header values, boundary times and positions; trusts the layouts as written in p_foreign.rs (AVF, RMV, MVF 0.97).")
T['C25'] = ("all query orders and all pairs of successive positions of small shapes on one position object, against all compatible layouts", REAL + "Basic lists compared with the public deduction functions called afresh; double-click rule enumerated over all small boards.")
T['C12'] = ("exhaustive enumeration of every outcome of the random source (all draws owned by the checker) with exact outcome probabilities", REAL + "Uniformity is exact on small shapes; large sizes only around fixed answer policies of the source.")
T['C13'] = ("exhaustive enumeration of the outcomes of the random source (all draws owned by the checker) with exact outcome probabilities, for every attempt budget", REAL + "The sifting generator: complete outcome trees within the leaf bound; the adjusting generator: fixed answer policies of the source and every single deviation in order up to a cap, because a failing call draws thousands of times.")
T['C14'] = ("stateless exploration of all thread interleavings of the real code under a controlled scheduler, with state caching", REAL + "Every lock, send, receive, join, spawn and atomic operation is a scheduling point (cfg vp_mc routes std::thread and std::sync through the scheduler); random outcomes of each worker are scripted. Sequentially consistent interleavings only.")
T['C27'] = ("exhaustive enumeration of sample counts and answer streams of the random source, and of all thread interleavings under a controlled scheduler", REAL + "Histogram compared with the true 3BV of every board the source produced.")
T['C29'] = ("exhaustive enumeration of bounded boards, positions and recordings and breadth-first search of the state machines on the library; every case replayed through the compiled Python extension and compared call by call", "The extension module is rebuilt from /repo/python_package and /repo/base and loaded into python3. The library is the oracle (its own correctness is the other properties' matter). agent_step is outside: its model file is not in the repository.")
T['C30'] = ("exhaustive enumeration of bounded boards, positions and recordings, breadth-first search of the state machine, and of every outcome of the random source; every case replayed through the binding's own code and compared call by call", "The sources of /repo/wasm/src are compiled natively against the library built with its js feature; the wasm32 target and the JavaScript glue generated by wasm-bindgen are not run (no target installed). Random source: a stand-in for getrandom whose answers the checker chooses.")
T['C31'] = ("exhaustive enumeration of positions, next clicks, mouse ways, click orders and flag runs; each game recorded, loaded and analysed by the real code", REAL + "Deductions and probabilities from all compatible layouts. Remarks whose rule leaves a case open (the opening click, ways of no distance, the straight-line suspicion, runs with far jumps) are accepted either way.")
T['C32'] = ("exhaustive enumeration of recordings over program names, time stamps, checksums, flags, results and event counts, in all four formats", REAL + "Recordings written by the independent encoders; the rules as documented at is_valid, with the order of precedence of the property's text.")
T['C33'] = ("exhaustive enumeration of reference pictures (every one-mine and two-mine 8x8 board, every mine pattern of a 3x3 block, every size to 16x30, every number with every set of unopened neighbours) in six placements, each read by the real code", REAL + "Runs the real image splitting and the real network with /repo/base/params.onnx. Reading is a heuristic that the documentation calls fallible: exactness is claimed for the enumerated pictures, and for other pictures only that the answer is possible.")
T['C34'] = ("exhaustive enumeration of bounded boards, positions and outcomes of the random source (all draws owned by the checker); every case replayed by a C program linked to the compiled C library and compared value by value, with every allocation accounted for", "The source /repo/c/src/lib.rs is compiled natively and used through /repo/c/ms_toollib.h. The library is the oracle (its own correctness is the other properties' matter). Contradictory positions are outside: the C interface has no way to report them. The C++ bridge of /repo/c++ is outside: the cxx crate is not available offline.")
