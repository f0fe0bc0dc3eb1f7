# id, title, statement, over, text, why, files, mechanism, observe_at, check
NA = {}
def mc(note, technique=BB, level="exploration"):
    return dict(technique=technique, level=level, note=note)

SM = "stateless model checking of the real program: every goroutine, channel, lock and map iteration is instrumented from the working tree and run under a controlled scheduler with happens-before state hashing"

prop("C01", "Lumps outside rebuilt levels survive and the output WAD is well formed",
 "Rebuilding produces a complete, well-formed WAD of the same kind (IWAD or PWAD) in which every lump that is not part of a rebuilt level is present at its original place in the sequence with identical name and bytes. Every directory entry lies inside the file, and no lump's data overlaps the header, the directory or another lump's data (zero-filled rejects excepted). A file without any level to rebuild is refused with a failure status and no output is produced.",
 ["inputs", "configurations"], "all directory sequences up to the stated depth over an alphabet of lump kinds, all listed file encodings, under each option set",
 "The rewritten directory is the result of an interplay of scheduling, renumbering and concurrent writers over the whole lump sequence; a test fixes one or two files, while every order and combination of lump kinds must survive.",
 ["vigilantbsp.go", "wad.go", "lumpwrite.go", "writebus.go"],
 [("rewriting the lump schedule into a new directory", "wad.go LumpList/schedule functions"), ("copying lumps and appending the directory", "lumpwrite.go, writebus.go, vigilantbsp.go main")],
 ["output file bytes", "exit status"],
 mc("bounded-exhaustive: every lump-kind sequence up to depth 3 (4 thorough) times option sets and file encodings, against a reference automaton of the directory"))

prop("C02", "Rebuilt levels are normalised and keep everything that was not to be rebuilt",
 "In a rebuilt level every level lump appears exactly once in canonical order, missing derived lumps are created, and duplicates are dropped keeping one of the original instances. Lumps that were not asked to be rebuilt keep their bytes, and linedefs keep their number, order, coordinates and attributes even though vertices may be added or renumbered. A level marker that lacks a mandatory lump is left exactly as it was.",
 ["inputs", "configurations"], "all level shapes of the alphabet (full, minimal, duplicated, reversed, Hexen with scripts, incomplete, bare) in every position and neighbourhood up to the depth bound, with nodes/blockmap/reject rebuilding switched on or off",
 "Which lumps are created, dropped or moved depends on what precedes and follows the level and on the options; unit tests in the repository do not run whole rebuilds.",
 ["wad.go", "level.go", "vigilantbsp.go"],
 [("level recognition, ordering and creation of missing lumps", "wad.go"), ("per-level rebuild and writing", "level.go DoLevel")],
 ["output file bytes"],
 mc("bounded-exhaustive: same exploration as C01, judged on level contents"))

prop("C03", "Node trees are structurally valid in every output format",
 "In every node format the built tree has one root stored last, every node and subsector is referenced exactly once, child order follows the documented rule for the chosen layout, subsectors partition the segs into consecutive non-empty ranges, and all indices are in range. All formats decode to the same tree, in the preferred-vanilla modes the plain format is used unless its limits are exceeded, and every node bounding box encloses all segs below it.",
 ["inputs", "configurations"], "all maps of the bounded map families, each under every node format and tree-layout option",
 "The index arithmetic depends on the tree shape and on the format; the repository's tests never build a tree from a whole level.",
 ["node_outro.go", "node_rearrange.go", "multiformat_tree.go", "multitree_plain.go", "nodegen.go", "znodegen.go", "zstream.go", "zdefs.go"],
 [("emission of nodes, subsectors and segs per format", "nodegen.go / znodegen.go / zstream.go"), ("reordering nodes", "node_rearrange.go")],
 ["SEGS, SSECTORS, NODES, VERTEXES lumps"], mc("bounded-exhaustive: every map of the bounded families in every node format and layout, decoded and compared; all seg counts around the format limits"))

prop("C04", "The BSP partition represents the map geometry exactly",
 "The segs of every visible linedef side cover that side completely and without overlap, lie on their linedef, carry its angle, offset and side, and each subsector's segs bound one convex area of a single sector. Descending the node tree from any point away from the lines reaches a subsector of the sector that contains the point. This holds for every partition-picking algorithm and tuning choice.",
 ["inputs", "configurations"], "all maps of the bounded map families (grids with every sector assignment, cut diagonally, sheared and rotated, with merged, split, flipped and self-referencing lines) under every partitioner option; points on a fine lattice",
 "A wrong partition shows only for particular line configurations and split orders; exhaustive small maps cover all local configurations, a handful of unit tests on helper functions cannot.",
 ["nodegen.go", "znodegen.go", "picknode.go", "node_intro.go", "convexity.go", "diffgeometry.go", "intgeometry.go", "superblocks.go", "stknode.go", "zenscore.go", "zensideness.go", "segalias.go", "node_vmap.go"],
 [("partition choice and seg splitting", "picknode.go, nodegen.go, diffgeometry.go"), ("convexity and subsector creation", "convexity.go")],
 ["SEGS, SSECTORS, NODES, VERTEXES lumps"], mc("bounded-exhaustive: every map of the bounded families (all sector labellings of small cell complexes) times option sets, exact cover/convexity/point-location oracle"))

prop("C05", "The blockmap lists exactly the lines that touch each block",
 "For every blockmap option each block's list contains every linedef that crosses that block (a corner clipped by less than one map unit excepted; and except lines excluded by tag or by the documented removal rules), contains no linedef that stays more than one unit away from it, lists none twice, and is terminated inside the lump; the lossy mode may add lines but never omits one. The grid covers every listed line, its origin follows the requested offset, and list headers follow the requested dummy-entry mode. Lossless compression changes only the storage, never the decoded lists.",
 ["inputs", "configurations"], "all line segments of a bounded lattice family plus the bounded map families, under every combination of offset, header, compression and removal options",
 "Grid traversal errors show only for particular slopes and alignments to block borders, and list sharing errors only for particular set relations between blocks.",
 ["blockmapgen.go", "blockity.go", "bblocks.go", "solidblocks.go"],
 [("grid traversal", "blockmapgen.go"), ("list compression by subset and sharing", "blockmapgen.go, blockity.go, bblocks.go")],
 ["BLOCKMAP lump"], mc("bounded-exhaustive: every line of a lattice around block borders, every family of overlapping block lists, every combination of removal attributes, every offset of the search ranges; each lump decoded and compared with exact clipping (corner clips under one unit are left open)"))

prop("C06", "Performance and tuning switches do not change what is built",
 "Switches documented as performance or memory trade-offs (caches, alternative data structures, symmetric or asymmetric reject computation, thread counts, node format preference when nothing overflows) leave every output lump identical to that of a run without them.",
 ["inputs", "configurations"], "all maps of the bounded families times every performance switch and pair of switches",
 "Two independent implementations of the same computation must agree on every input, not only on the ones a test samples.",
 ["config.go", "reject.go", "rejectFAST.go", "rejectSYMM.go", "picknode.go", "superblocks.go", "stknode.go"],
 [("generated specialisations of the reject builder", "rejectFAST.go, rejectSYMM.go"), ("seg caches and alternative trees", "picknode.go, stknode.go")],
 ["output file bytes"], mc("bounded-exhaustive: every map of the bounded families under every pair of switch values, outputs compared byte for byte or as documented"))

prop("C07", "The reject table never hides sectors that can see each other",
 "On maps whose linedefs meet only at vertices: if a straight sight line between a point of one sector and a point of another crosses only two-sided lines and keeps clear of the ends of walls by a unit and a half, the reject table marks the pair as visible, in every reject mode except where an option file says otherwise. Every sector sees itself. Self-referencing sectors are covered unless the user tells the program to ignore them (-rs=3).",
 ["inputs", "configurations"], "all maps of the bounded map families, each pair of sectors, under every reject mode, against an exact line-of-sight oracle",
 "A wrongly hidden pair makes monsters blind only in the particular geometry; the line-of-sight algorithm has many degenerate cases that a handful of tests cannot cover.",
 ["reject.go", "rejectLOS.go", "rejectDFS.go", "rejectFAST.go", "rejectSYMM.go", "rejectdefs.go"],
 [("line-of-sight test", "rejectLOS.go"), ("graph pruning and propagation", "rejectDFS.go, reject.go")],
 ["REJECT lump"], mc("bounded-exhaustive: every map of the bounded families under every reject mode, every sector pair compared with an exact line-of-sight oracle"))

prop("C08", "The reject table is symmetric, complete and hides what is plainly unreachable",
 "The reject table has exactly one bit per ordered sector pair, is symmetric, and (with graphs on, as by default) hides every pair of sectors between which no chain of two-sided lines exists (self-referencing sectors may stay visible to all; a level without any line between two sectors gets a zero-filled table). On small maps, where no approximation is needed, it hides every pair of sectors with no line of sight between them.",
 ["inputs", "configurations"], "all maps of the bounded map families under every reject mode, against connectivity and exact line-of-sight oracles",
 "Bit addressing and propagation errors depend on sector count, adjacency and processing order.",
 ["reject.go", "rejectLOS.go", "rejectDFS.go", "rejectFAST.go", "rejectSYMM.go"],
 [("bit table addressing and output", "reject.go, rejectSYMM.go"), ("sector grouping", "rejectDFS.go")],
 ["REJECT lump"], mc("bounded-exhaustive: every map of the bounded families under every reject mode, every sector pair compared with connectivity and exact line of sight"))

prop("C09", "Reject option files are applied with their documented meaning and priority",
 "Each implemented option of a .rej file (INCLUDE, EXCLUDE, VORTEX, BLIND and SAFE with INVERT and BAND, LENGTH, DISTANCE, LINE, GROUP, REPORT) changes exactly the sector pairs the manual says; a group counts as one sector for the other options, EXCLUDE wins over INCLUDE, INCLUDE over VORTEX, VORTEX over the rest; options given before the first map marker apply to every map, those after a marker only to that map and override the former. Every documented notation (abbreviation to a unique prefix, letter case, list notation, comments, blank lines, line ends, markers, several sections per map) means the same, and a file with any malformed line is refused as a whole with the number of that line, without writing output. Sector and line numbers that do not exist have no effect.",
 ["inputs", "programs"], "all option files of up to three (thorough: four over a smaller alphabet) commands over a sector and distance alphabet on six fixed maps, default against level options, all three table builders; all notations of a command list; all single-line mistakes of a grammar-derived list",
 "Interactions between commands form a combinatorial space; a test samples a few files and the repository's tests only parse.",
 ["rmbparse.go", "rejectRMB.go", "rmbunit.go", "reject.go"],
 [("parsing of option files", "rmbparse.go"), ("applying commands to the table", "rejectRMB.go"), ("physical limits and groups", "reject.go, rejectDFS.go")],
 ["REJECT lump", "report file", "exit status and messages"], mc("bounded-exhaustive: every option file of up to three commands (thorough: four) over the alphabet run on the real binary on fixed maps, tables and reports compared with bounds computed from the manual; every notation and every single-line mistake of a grammar"))

prop("C10", "Reject data taken from existing WADs by an option file is exactly the original",
 "When an option file orders a level's reject not to be processed (NOPROCESS), the level starts from the existing table of the input or of the named WAD file and map, bit for bit, and only INCLUDE, EXCLUDE, BLIND 0/1, SAFE 0/1, GROUP and VORTEX of that option file change it further, as the manual describes. If the source is missing, unreadable or of another size, or if an ASSERT of the option file does not hold on it, the table is built as if NOPROCESS were absent; the program neither fails nor touches the source.",
 ["inputs", "programs"], "all tables of levels with one to three sectors and chosen tables of larger ones, against one, two and three options in every order; all ASSERTs of a sector pair; all combinations of source file, source map, position of the level and all sequences of sources over levels in a bounded menu, with missing, damaged and ill-sized sources",
 "The source lump is located through a second WAD and a renumbered directory, so failures appear only with particular level positions and files; options interact with the sourced table in ways no single example shows.",
 ["reject.go", "rejectRMB.go", "rmbparse.go", "wad.go", "level.go", "filecontrol.go"],
 [("deciding whether the table is sourced", "reject.go NoProcess_TryLoad, ShortcutIfNOPROCESSAlone"), ("locating the reject of another WAD", "filecontrol.go PinExternalWad, wad.go LookupLevel"), ("substituting it", "level.go handleRejectNagging")],
 ["REJECT lump", "source files"],
 mc("bounded-exhaustive: existing tables x option files x sources on the real program against a model of the manual"))

prop("C11", "Zero-filled rejects are the right size, all zero and share space safely",
 "With zero-filled reject requested every rebuilt level gets a reject of exactly the size its sector count demands, consisting of zeroes only, and each at an offset different from that of every other non-empty lump. The shared storage never overlaps non-zero data of any lump, and all other lumps keep their content.",
 ["inputs", "configurations"], "all directory sequences up to the depth bound and all combinations of sector counts from a menu over up to three levels, with and without an empty first lump",
 "The placement arithmetic depends on the number of zero bytes needed, the directory position and the first lump; a defect shows only for particular totals.",
 ["vigilantbsp.go", "trollgen.go", "wad.go", "level.go"],
 [("layout of the shared zero area", "trollgen.go, vigilantbsp.go main"), ("size bookkeeping per level", "wad.go")],
 ["output file bytes"],
 mc("bounded-exhaustive: directory sequences and sector-count combinations against the layout rules"))

prop("C12", "Map selection and ejection touch exactly the selected levels",
 "With an include or exclude list of maps exactly the levels named (respectively not named) are rebuilt, case-insensitively, and all others are copied byte for byte. With ejection the output consists of exactly the rebuilt levels and nothing else.",
 ["inputs", "configurations"], "all directory sequences up to the depth bound times each selection and ejection option set",
 "Selection interacts with lump ordering, duplicates and ill-formed levels.",
 ["cmdparser.go", "wad.go", "vigilantbsp.go"],
 [("selection of levels when scheduling lumps", "wad.go"), ("parsing of the lists", "cmdparser.go")],
 ["output file bytes"],
 mc("bounded-exhaustive: directory sequences times selection options against the reference automaton"))

prop("C13", "Output is byte-identical for every thread schedule in deterministic mode",
 "With deterministic output requested, the same input and options give a byte-identical file whatever the interleaving of the program's concurrent tasks and whatever the number of threads. Without that request the content of every lump is still the same; only placement in the file and the choice among equally acceptable blockmap offsets may differ.",
 ["schedules", "configurations"], "all schedules of the program's goroutines under a controlled scheduler (complete for the scenarios listed in the evidence, up to a number of deviations for the rest), thread-count settings and orders of map iteration",
 "A test observes one schedule chosen by the runtime; the guarantee is over all of them.",
 ["writebus.go", "lumpwrite.go", "level.go", "blockmapgen.go", "node_intro.go", "vigilantbsp.go"],
 [("ordering of lump writes", "writebus.go"), ("result collection from concurrent builders", "level.go")],
 ["output file bytes"], mc("all interleavings of seven scenarios and all schedules with few deviations of 96 more; output compared byte for byte with the unmodified program", SM, "model_checking"))

prop("C14", "No schedule deadlocks, panics or loses a result",
 "Under every interleaving of its concurrent tasks a rebuild terminates with success, without panic, deadlock or unsynchronised access, and every requested lump is written. No task is still blocked when the program ends because a partner will never communicate with it.",
 ["schedules"], "all schedules of the program's goroutines under a controlled scheduler (complete for the scenarios listed in the evidence, up to a number of deviations for the rest)",
 "Deadlocks and lost messages need a particular order of sends and receives that normal runs do not produce.",
 ["level.go", "blockmapgen.go", "node_intro.go", "writebus.go", "reject.go", "mylogger.go"],
 [("fan-out and collection of worker results", "level.go, blockmapgen.go"), ("write bus", "writebus.go")],
 ["exit status", "stderr"], mc("same exploration; every schedule must end with success, no task left, all lumps; plus exploration under the race detector with scheduler handoffs hidden from it", SM, "model_checking"))

prop("C15", "The input file is never modified unless it is the output",
 "When a separate output file is named the input is left bit for bit unchanged, and an output that is the same file as the input (by any path or link) is refused or handled as an in-place rebuild, never truncated. An in-place rebuild leaves exactly the bytes that the same rebuild into a separate file produces, and no temporary file stays behind.",
 ["inputs", "configurations"], "all aliasing relations between input and output paths in the menu (same name, relative, dotted, symbolic and hard links, existing and missing targets) times option sets",
 "Aliasing is a property of the file system state, and the loss is total when it goes wrong.",
 ["filecontrol.go", "vigilantbsp.go", "cmdparser.go"],
 [("opening input and output, same-file test", "filecontrol.go"), ("replacing the input at the end", "filecontrol.go")],
 ["file system state after the run"], mc("every pair of input and output names of a file system with hard, symbolic, chained and dangling links, times option sets and argument orders; full tree compared before and after"))

prop("C16", "A failing or interrupted rebuild never loses the original data",
 "Whatever file operation fails, and wherever the program is killed, before the rebuilt file is complete the original input remains intact; while the input is being replaced a complete copy of either the old or the new data exists on disk. A failure to read the input, or to write, seek or close the output, is reported with a failure status instead of success.",
 ["fault_sequences", "crash_points"], "every single file operation of a rebuild failing (error, short write, short read) and a kill before and after every one of them",
 "Faults and kill points are not reproducible in ordinary tests; each operation of the history is a separate case.",
 ["filecontrol.go", "vigilantbsp.go", "lumpwrite.go", "writebus.go", "level.go", "wad.go"],
 [("writing and error handling", "lumpwrite.go, writebus.go"), ("replacing the input by the temporary file", "filecontrol.go")],
 ["file system state after the run", "exit status"], mc("every file operation of 19 rebuild histories failing (error, partial, from then on) or being the last one before a kill (before, half done), and every pair of failures of the first history", "exhaustive fault and crash-point enumeration over every file operation of the instrumented real program", "fault_enumeration"))

prop("C17", "Every command line is either rejected or means what the manual says",
 "Each documented option sequence selects the documented behaviour independently of the order and grouping of arguments, later settings override earlier ones, and any malformed argument ends in a diagnostic and never in a crash.",
 ["inputs", "configurations"], "all argument strings up to the length bound over the option alphabet",
 "The parser is a hand-written state machine over bytes; the space of strings is far larger than a test table.",
 ["cmdparser.go", "config.go"],
 [("option parser", "cmdparser.go")], ["exit status", "stderr", "output file"],
 mc("the program's own main is run in process (package os replaced by a recorder, all state reset in between) on every command line of 15 enumerated spaces: argument strings over the option alphabet up to length 3-4, all byte pairs, all groups of up to 3 settings, all argument lists up to length 3 over 55 arguments and 4 over 28, long options with all suffixes; verdict from a grammar written from the manual, meaning compared with the plain spelling, every suspicion confirmed on the real binary; then each setting in 14-22 contexts judged by its effect on real output"))

prop("C18", "Special linedef tags and actions have exactly their documented effects",
 "Tags 998, 999 and 900 and above, actions 1080 to 1086 and the lower texture BSPNOSEG suppress segs of the documented sides, turn the seg angles by the documented amount, keep a line out of the blockmap or protect it from being split, in Doom format levels (BSPNOSEG in both formats); no other tag, action or texture has such an effect, and the rest of the nodes, blockmap and reject stays as without them. A wall with action 48, alone or through a remote line of action 1048, ends up with as many scrolling copies as its tag asks for, whatever tags it had in previous builds; the copies are in neither nodes nor blockmap, no other line is removed or altered, and lines are left alone unless both nodes and blockmap are rebuilt.",
 ["inputs", "configurations", "histories"], "every reserved tag and action with every argument class on every line and pair of lines of fixed and grid maps; all histories of speed changes and rebuilds up to depth 4 for two scrolling walls; every precious line of all rooms on a 3x3 grid",
 "Each effect concerns one line in thousands and interacts with splitting, and the scrollers carry state in the file from one build to the next, so a sampled test does not reveal an omission.",
 ["node_intro.go", "nodegen.go", "znodegen.go", "blockmapgen.go", "universal_interfaces.go", "level.go", "picknode.go"],
 [("seg creation filters and angles", "node_intro.go addSegsPerLine"), ("blockmap filters", "universal_interfaces.go BlockmapSkipThis"), ("scrollers", "level.go RefreshScrollerSpeed"), ("precious lines", "picknode.go")],
 ["SEGS, NODES, LINEDEFS and BLOCKMAP lumps"], mc("Exhaustive enumeration of levels with special lines through the real program against an independent reading of the documentation; histories of rebuilds replayed on the produced files."))

prop("C19", "The result of a build does not depend on what earlier builds left in the file",
 "With deterministic options, rebuilding a file that already went through any builds, with the same or other options (other node formats, partition algorithms, only some of nodes, blockmap and reject, level selection), gives the same lumps as building the original file directly; in particular building twice with the same options changes nothing.",
 ["inputs", "configurations", "histories"], "all ordered pairs (earlier build, build) of 22 x 14 option sets, and triples on fewer levels, over grid rooms, room graphs, levels with unused vertices, special lines, Hexen levels and all directory sequences up to depth 2 (3)",
 "The second pass meets inputs (added vertices, other node formats, emptied lumps, copied lines) that no hand-written test contains.",
 ["vigilantbsp.go", "level.go", "lumpwrite.go", "universal_interfaces.go"],
 [("pruning of previously added vertices", "universal_interfaces.go PruneUnusedVertices"), ("lump ordering", "vigilantbsp.go"), ("line copies of earlier builds", "level.go RefreshScrollerSpeed")], ["output file lumps"],
 mc("Exhaustive enumeration of build histories on the real program; states are files, transitions are builds, and every path to the last build must give the same file."))

prop("C20", "Damaged or unusual input files end in a diagnostic, never in data loss",
 "Whatever the bytes of the input file (truncated, with out-of-range directory entries or counts, references out of range, ill-sized lumps), the program ends on its own with success or a diagnostic, does not crash, claims no memory beyond what the file justifies, leaves no temporary file and, unless it reports success for a rebuild in place, leaves the input intact; when it reports success the output is a well-formed WAD with the lumps of no level unchanged.",
 ["inputs", "configurations"], "every truncation length; every pair of header fields, every position, size and name of every directory entry and every exchange of two entries over menus of boundary values; every 16-bit word of the lumps of a Doom and a Hexen level over a menu, under several option sets (thorough: every pair of references)",
 "Corruption has far too many forms for example tests; the enumeration covers each field and each length.",
 ["wad.go", "vigilantbsp.go", "level.go", "filecontrol.go"],
 [("header and directory reading", "wad.go TryReadWadDirectory, LoadWadDirectory"), ("level lump decoding", "level.go DoLevel"), ("cleanup on failure", "filecontrol.go Shutdown")],
 ["exit status and messages", "files after the run"],
 mc("Exhaustive enumeration of single faults (thorough: pairs) in small files, each run on the real program in a scratch directory with an address space limit."))

prop("C21", "Sectors that host polyobjects are kept whole",
 "In Hexen format levels with a line of action 1 or 5, every sector with a polyobject spawn spot well inside it, and every sector next to a line that touches the box of 10 units around a spot, counts as a container: no node splits a line of a container, on the side of the container, while another line of that node is a partition that splits none (nodes that only make one sector convex aside). Spots are things 3001 and 3002, or 9301 and 9302 as soon as there is one of these; where in the sector a spot is, which of the two actions and which line has it does not matter, and no other thing or action, and nothing in Doom format, makes a container.",
 ["inputs", "configurations"], "spawn spots all over the plane of grid rooms, rooms with slanted islands and pillars and sectors meeting in a vertex, all sets of containers, all thing types and pairs of types, all 256 actions, all five partition algorithms, plain and extended nodes",
 "A polyobject in a sector that got split is only visible when it moves in the game; where the spot is relative to all lines decides, and a test has a handful of spots.",
 ["universal_interfaces.go", "node_intro.go", "picknode.go", "zenscore.go", "znodegen.go"],
 [("finding the sectors of spawn spots", "universal_interfaces.go DetectPolyobjects, markPolyobjPoint"), ("segs of containers", "node_intro.go, SectorIgnorePrecious"), ("cost of splits", "picknode.go")],
 ["SEGS, SSECTORS and NODES lumps"],
 mc("Exhaustive enumeration of spawn spots and container sets through the real program: every set of containers is built once with spots well inside and each of its nodes compared with every other partition it could have had; every other spot, thing type and action must give the very same tree as its set."))

prop("C22", "Multi-tree mode returns the best of its trees",
 "With -nm= the program returns the tree that comes first, among the trees of all root candidates, in the documented order: no precious line split, then fewest subsectors, then least difference between the heights of both children of the root (a subsector has height 0), then least greater height, then fewest segs, then the earlier candidate. It is therefore never worse than the single tree, than the tree of a mode that tries only some of its candidates, or than that of a lower --roots number, and a --roots number not below the number of lines is as good as no --roots. The root lies on a one-sided line with m=1 and on a two-sided line with m=2 whenever there is one. With vanilla nodes the best tree within the signed limits comes before all others, with vanilla nodes of any kind but -nc=D the best tree within the unsigned limits, and the preferred-vanilla formats switch to the other format only when no tree fits.",
 ["inputs", "configurations"], "all maps of bounded families, plain and with precious lines, every root mode and a chain of --roots numbers, all five partition algorithms, plain, deep and extended nodes; levels with exactly two candidates around both format limits in both orders",
 "Which of hundreds of trees is best shows only in comparison with trees the program did not return; a test has no tree to compare with, and trees near the format limits need levels with tens of thousands of lines.",
 ["multitree_plain.go", "multiformat_tree.go", "znodegen.go", "picknode.go"],
 [("root candidates", "multitree_plain.go MTPSentinel_GetRootSegCandidates, MTP_ZenRootEnumerate; picknode.go PickNode_ZennodeDepth"), ("comparison of trees", "multitree_plain.go IsBSPTreeBetter and the copy in znodegen.go"), ("choice by format limits", "multitree_plain.go MTPSentinel_MakeBestBSPTree, multiformat_tree.go")],
 ["SEGS, SSECTORS, NODES and VERTEXES lumps"],
 mc("Exhaustive enumeration of small levels through the real program under chains of root candidate sets, each result compared with all others of the same level in the documented order; enumeration of level sizes around the signed and unsigned limits where two trees compete."))

for d, c in P:
    if not c:
        NA[d["id"]] = "check under construction"
