#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})
ML = "src/method_lib/mod.rs"; LS = "src/method_lib/lib_serde.rs"
SSV = "src/row/same_stage_vec.rs"; BL = "src/block.rs"; RB = "src/row/borrowed.rs"; RO = "src/row/owned.rs"
ACC = "src/row/accumulator.rs"; PN = "src/place_not.rs"; MK = "src/mask.rs"; ME = "src/method/mod.rs"

p("C01", "Acquiring or loading a method library never panics or hangs",
  "Acquiring the Central Council library always returns (a library, or 'none') without panicking or hanging, whatever the cache file contains, whatever the network delivers, and whatever disk, network or environment failures happen on the way. Loading a library from JSON text always returns a library or an error, never a panic, for truncated, torn, bit-flipped, hostile or future-format documents. Saving a library that was loaded successfully never panics either.",
  ["fault_sequences", "crash_points", "configurations", "inputs"],
  "every cache content (absent, torn, bit-rotted, out-of-range ids, stage 0, unnamed stages), every network outcome, every failing system call on the path, every HOME/XDG_CACHE_HOME configuration",
  "No test exercises cc_lib, from_json on a bad document, or any failing I/O; the only test touching the network fails offline and is excluded.",
  [ML, LS, ME], [("every I/O and parse error is turned into None with .ok()?", ML), ("JSON decoding and group unpacking", LS), ("title generation", ME)],
  [("cache file", "saved copy of the library", "dirs::cache_dir()/cccbr-methods.json")], ["return value or panic of MethodLib::cc_lib, from_json and to_json"])

p("C02", "An acquired library is exactly one whole published edition",
  "Whenever acquiring the library succeeds, the library returned is exactly one edition: one that the server had published, or the valid document that was in the cache. It is never a mixture of two editions, a partial edition or an altered one, however many processes or threads acquire at once, wherever any of them is killed or the machine loses power, and however reads, writes and transfers are split, shortened or interrupted. An edition that no server published and no valid cache held is never returned.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings of several acquiring processes, a server that publishes new editions meanwhile, kills, power loss with torn/lost/reordered unsynced writes, short reads/writes, truncated transfers",
  "Tests never run two acquisitions at once, never crash one and never publish a second edition; a sampled happy path cannot see a mixed cache file.",
  [ML, LS], [("library is built from the complete text before caching", ML), ("cache file replacement", ML)],
  [("cache file", "saved copy of the library", "dirs::cache_dir()/cccbr-methods.json")], ["every title/method of the library returned by MethodLib::cc_lib"])

p("C03", "A valid cached library is authoritative and needs no network",
  "If the cache file holds a valid library document and can be read, acquiring returns exactly that document's library, makes no network request, and changes nothing on disk. This holds whatever the server offers (a newer edition, an error, nothing at all), whatever the clock says, and however often and from however many processes it is repeated.",
  ["schedules", "configurations", "fault_sequences", "histories"],
  "all valid cache documents, all environment configurations that locate the cache, all server states, clock values, concurrent readers, interrupted and short reads",
  "No test has a cache file: cache hit, miss and precedence are not exercised at all.",
  [ML], [("cache is consulted first and wins if it parses", ML), ("cache directory lookup", ML)],
  [("cache file", "saved copy of the library", "dirs::cache_dir()/cccbr-methods.json")], ["network requests and file-system mutations made by MethodLib::cc_lib", "returned library"])

p("C04", "The cache only ever holds a completely downloaded valid library",
  "Acquiring only ever changes the cache file to a complete library document that was fully downloaded and successfully loaded by that acquisition. A failed, truncated, error-page or unloadable download leaves the existing cache file untouched, and no other file of the user is changed. At no instant, and after no kill or disk error, does another process see a partially written or mixed cache document in place of one of those.",
  ["schedules", "crash_points", "fault_sequences"],
  "every instant of every interleaving of acquiring processes; kills at every system call; failing and short writes; error pages, captive portals, truncated and unloadable bodies",
  "Tests never write the cache, so neither the order 'load, then save' nor the atomicity of the save is checked anywhere.",
  [ML], [("save happens after the download parsed", ML), ("save replaces the file", ML)],
  [("cache file", "saved copy of the library", "dirs::cache_dir()/cccbr-methods.json")], ["content of the cache path after every file-system operation"])

p("C05", "After one successful download the library stays available offline",
  "Once an acquisition that had to download has returned a library, on a working disk with a usable cache directory, every later acquisition by any process of that user succeeds with the network down, makes no further request, and returns an edition that was downloaded. Other processes that start, race or are killed at arbitrary points in the meantime do not change this.",
  ["schedules", "crash_points", "histories"],
  "all later histories of acquisitions, concurrent downloads and process kills at every system call, for every environment configuration with a usable cache directory",
  "The tests never acquire twice, and never without a network.",
  [ML], [("cache write after fetch", ML), ("cache read before fetch", ML)],
  [("cache file", "saved copy of the library", "dirs::cache_dir()/cccbr-methods.json")], ["MethodLib::cc_lib results and request counts in later processes"])

p("C06", "Acquisition recovers: a healthy network suffices, then the cache does",
  "If the server answers properly, acquiring returns the library no matter what state the cache is in and no matter which disk operations fail, including when there is no usable cache directory at all. Once faults have stopped and the disk works, one acquisition with at most one request repairs any missing, corrupt or partially written cache, and the next needs no request; no acquisition ever issues more than one request.",
  ["fault_sequences", "crash_points", "histories"],
  "all states reachable by arbitrary earlier faults, kills, power losses and corruption, then a bounded fault-free suffix; and all disk-fault sequences under a healthy network",
  "Liveness after faults needs histories of faults; the tests contain none.",
  [ML], [("fallback from cache to fetch", ML), ("cache write errors are ignored", ML)],
  [("cache file", "saved copy of the library", "dirs::cache_dir()/cccbr-methods.json")], ["MethodLib::cc_lib results, request counts and bounded number of steps"])

p("C07", "Saving and reloading a library preserves every method",
  "A library saved to JSON and loaded again contains exactly the same methods, with the same titles, names, stages, classes and leads, for every library that can be loaded, and through any number of save/load generations in different processes. This holds whatever hash seeds the processes use, and a saved document that was cut short or torn by a crash is either rejected or loads as a whole saved library.",
  ["inputs", "histories", "crash_points", "configurations"],
  "all loadable libraries (standard and explicit titles, every class and flag combination, every stage, duplicate groups, unnamed stages), any number of generations, any hash seed, any crash while the saved text is being stored",
  "There is no test of to_json/from_json at all, and hash-order dependence never shows in a single process.",
  [LS, ML, ME], [("grouping by stage and class", LS), ("implicit titles", ME), ("class id table", LS)],
  [("library", "map from stage and lower-case title to method", ML)], ["MethodLib::to_json / from_json and the methods looked up afterwards"])

p("C08", "Title suggestions are the nearest titles, nearest first",
  "When a title is not found, asking for n suggestions returns min(n, library size) distinct stored titles, each with its true edit distance (ignoring case) from the requested title, sorted nearest first, and no omitted title is strictly nearer than an included one. A title that is found is returned as a method instead. This holds for every n including zero, every library and every hash seed, and concurrent queries do not affect each other.",
  ["inputs", "schedules", "configurations"],
  "all libraries, requested titles (empty, unicode, any case), all n from 0 to beyond the library size, all hash seeds, concurrent callers",
  "There is no test of suggestions; hash order decides the order in which candidates are pushed, which a test cannot control.",
  [ML], [("bounded shortlist over all stored titles", ML), ("edit distance on lower-case titles", ML)],
  [("library", "map from stage and lower-case title to method", ML)], ["MethodLib::get_by_title_with_suggestions"])

p("C09", "Looking up a title yields exactly the stored method",
  "For a loaded library, looking up a stored title in any letter case returns the method with exactly the stored title and name, the right stage, and the first lead that its place notation defines. A method whose stored place notation is invalid reports a place-notation error quoting that notation, and affects no other method; a title that is not stored is reported as not found. Implicit titles are built from name, class and stage by the standard rule.",
  ["inputs", "configurations", "schedules"],
  "all library documents (all stages, classes, flags, implicit/explicit titles, valid and invalid notation), all queries in any case, all hash seeds, concurrent lookups",
  "The unit tests cover place notation on a few strings; nothing covers lookup, implicit titles of all classes, or one bad entry among good ones.",
  [ML, LS, PN, ME, BL], [("two-level map keyed by stage and lower-case title", ML), ("place notation parsing and expansion", PN), ("title generation", ME)],
  [("library", "map from stage and lower-case title to method", ML)], ["MethodLib::get_by_title, Method::title/name/stage/first_lead"])

p("C10", "Sharing libraries and values between threads is invisible",
  "Any number of threads may query one library, iterate, multiply and format shared rows, blocks, methods and masks at the same time; every call returns exactly what it would return if the threads ran one after another. No interleaving makes a read-only call block, panic, or change what another thread sees.",
  ["schedules"],
  "all interleavings of read-only calls from several threads on shared values, pre-empted at every allocation and synchronisation point",
  "All tests are single-threaded, and even a racing test samples one schedule.",
  [ML, ME, BL, RB, MK, SSV], [("shared values are immutable, without interior mutability", "src")],
  [("library", "map from stage and lower-case title to method", ML)], ["results of the same calls run concurrently and alone"])

p("C11", "No safe call history ever yields an invalid row or block",
  "Whatever safe calls are made in whatever order, with whatever arguments, and even when caller-supplied iterators, closures, conversions or clones panic, lie about stages or change between passes, every row reachable afterwards is a permutation of the bells of its stage. Every row collection holds whole rows of one stage, and every annotated block holds exactly one more row than annotations.",
  ["histories", "fault_sequences"],
  "all histories of safe public calls on rows, row buffers, row collections, blocks, accumulators, masks and place notation, with mismatched stages, out-of-range ranges, and panics injected into every caller-supplied callback",
  "Tests call operations with well-behaved arguments only and never continue after a panic; the invariant is what the crate's unsafe code relies on.",
  [SSV, BL, RB, RO, ACC, MK, PN], [("stage checks before unchecked writes", SSV), ("rows extended before annotations", BL), ("unchecked constructors", RO)],
  [("bells", "flat buffer of rows", SSV), ("annots", "one per row but the last", BL)], ["all rows and annotations of every live value after every call"])

p("C12", "A call that fails leaves its receiver unchanged",
  "When an operation on a row, row buffer, row collection, annotated block, accumulator, mask or place notation returns an error, the receiver and all other arguments have exactly the value they had before the call. This includes failures discovered half-way, such as a row of the wrong stage in the middle of a stream, and the error describes the actual mismatch.",
  ["histories", "fault_sequences"],
  "all reachable receiver states, all failing calls, with the failure placed at every position of the input",
  "The tests check that errors are returned, not that state survived; the failure position is an unbounded choice.",
  [SSV, BL, RB, ACC, MK, "src/stage.rs"], [("roll-back in extend", SSV), ("checks precede mutation", BL)],
  [("bells", "flat buffer of rows", SSV)], ["receiver and arguments after an Err"])

p("C13", "A row collection behaves as a plain list of rows",
  "Under every history of push, pop, extend, range and transposed extension, pre-multiplication, splitting, parsing, indexing, in-place edits and iteration from both ends, a row collection of one stage is indistinguishable from a plain list of rows of that stage. Operations that cannot apply report it rather than doing something else, and histories continue correctly after failed or interrupted calls.",
  ["histories", "fault_sequences"],
  "all operation histories over several collections, with failing and interrupted operations interleaved, all stages, all range forms",
  "The tests check single operations on hand-picked values, not sequences on evolving state.",
  [SSV], [("flat bell buffer with stage-aligned rows", SSV)],
  [("bells", "flat buffer of rows", SSV)], ["len, get, iteration, equality, Debug, path_of of the collection"])

p("C14", "An annotated block behaves as a list of annotated changes plus a leftover row",
  "Under every history of constructing, extending by another block or a range of it, extending from itself, re-labelling, mapping, splitting, pre-multiplying and copying, an annotated block is indistinguishable from a plain list of (row, annotation) pairs plus one leftover row. Extending transposes the added rows so that they continue from the leftover row, and adds exactly the annotations of the rows added. Histories continue correctly after failed or interrupted calls.",
  ["histories", "fault_sequences"],
  "all operation histories over several blocks sharing annotations, with failing and interrupted operations (also panicking clones and closures), all range forms",
  "Tests cover parsing, a few extends and splits; partial-range extension has no test, and no test continues after a failure.",
  [BL, SSV], [("rows and annotations extended together", BL)],
  [("rows/annots", "parallel vectors, one more row than annotation", BL)], ["all getters and iterators of the block"])

p("C15", "Row and block cursors yield every row once, in order",
  "However calls to next, next-from-the-back, skip-ahead, fill-a-buffer and copy are interleaved over any number of live cursors on the same collection or block, each cursor yields exactly the remaining rows in order, once each, and copies proceed independently. A repeating cursor started from any row yields the block transposed by that row for ever, repetition after repetition, with the right source index and annotation, and ends at once for an empty block. Cursors with a known length report it correctly, and a cursor is not disturbed by a call that failed.",
  ["schedules", "histories"],
  "all interleavings of cursor calls from several clients over shared blocks, all blocks including empty ones, all start rows, arbitrarily many repetitions",
  "Only straight-line forward iteration of one cursor is exercised by tests.",
  [BL, SSV], [("remaining-slice cursor", SSV), ("block head multiplied at every repetition", BL)],
  [("current_block_head", "transposition of the current repetition", BL)], ["items of Iter and RepeatIter"])

p("C16", "Re-used row buffers and accumulators never leak old contents",
  "Writing a product, inverse, copy or parse into a re-used buffer gives the same result as into a fresh one, whatever the buffer held before, including a different number of bells. An accumulator's total always equals the product of everything accumulated since it was set, in the right order, whatever was accumulated, rejected or set before; shared (reference-counted) copies never change when their source does.",
  ["histories", "fault_sequences"],
  "all histories that re-use a small pool of buffers and accumulators across stages, with rejected operations interleaved",
  "Tests use fresh buffers, or a buffer of the right stage once.",
  [RB, RO, ACC], [("clear before extend", RB), ("swap of total and temporary", ACC)],
  [("temp_row", "scratch row of the accumulator", ACC)], ["buffers and totals after every call"])

p("C17", "Group operations do not depend on order, duplicates or hash seed",
  "The least group containing some rows is exactly the set of all their products, the group test answers true exactly when a set of rows is non-empty and closed, and closures and cartesian products list exactly the products they name, in the documented order. Results do not depend on hash seeds, on the order or repetition of the inputs, or on an iterator that yields something different on a later pass (which may only cause an error, never a wrong-stage row).",
  ["inputs", "configurations", "fault_sequences"],
  "all small generating sets in all orders with duplicates, mixed stages at every position, all hash seeds, unstable iterators",
  "Tests check a few groups with one hash seed, and never unstable or mixed-stage iterators.",
  [RB], [("frontier search over a hash set", RB), ("a*b^-1 closure test", RB)],
  [], ["Row::least_group_containing, is_group, closure, closure_from_rounds, multi_cartesian_product"])

p("C18", "A mask is exactly the set of constraints put on it",
  "After every history of fixing bells, placing bells, combining, transposing and parsing, a mask matches exactly the rows that satisfy all the constraints accepted so far (an accepted bell replaces whatever its place required before); rejected constraints leave no trace. Emptiness, subset, compatibility, combination, unspecified places and conversion to a row agree with the set of rows matched, and a mask never converts to something that is not a row. (A mask parsed from text that names a bell twice, or one beyond its stage, matches no row and is only checked for that and for conversion.)",
  ["histories", "fault_sequences"],
  "all histories over several masks and stages, with rejected constraints interleaved",
  "Tests check parse, matching and combination on single masks only, and never a history with rejections.",
  [MK], [("place to optional bell table", MK)],
  [("bells", "optional bell per place", MK)], ["matches, place_of, is_subset_of, is_compatible_with, combine, as_row, Display"])

p("C19", "A method's leads, course and labels stay consistent",
  "The plain course of a method is its first lead repeated from each successive lead head until the course closes, with every row annotated by its index within the lead and that position's label; the row at any index of the infinite plain course agrees with it. Labels set or cleared in any history are read back, listed and carried into the course exactly, an out-of-range label change fails without changing anything, and calls built from place notation report that notation's rows.",
  ["histories", "fault_sequences"],
  "all methods, all histories of label changes (including failing ones) interleaved with queries and live courses",
  "Tests cover no plain course and no label history.",
  [ME, BL, PN, "src/call.rs"], [("course built by extending from within", ME), ("labels stored as annotations", ME)],
  [("first_lead", "rows with optional labels", ME)], ["Method::plain_course, row_in_plain_course, label_indices, get_label"])

p("C20", "Text output is faithful through any sink and reads back",
  "Formatting any value into a sink writes the same text whatever the sink, in order and without loss; if the sink refuses at some point, the error is reported and what was written is a prefix of the full text. Rows, blocks' rows, place notation and masks (up to the bells that have names) read back from their text as equal values, and a text that was cut short or damaged either fails with an error or reads as exactly what it then says, never panicking.",
  ["fault_sequences", "inputs"],
  "all values and all failure points of the sink or of the stored text",
  "Tests format into Strings, which never fail, and never re-read damaged text.",
  ["src/bell.rs", "src/stage.rs", RB, RO, SSV, BL, PN, MK, "src/music.rs", "src/method/class.rs"], [("Display/Debug implementations propagate errors", "src"), ("parsers", "src")],
  [], ["fmt::Write sinks, parse functions"])

p("C21", "Serialised bells and stages survive storage and reject damage",
  "A bell or stage written with serde and read back is the same bell or stage, alone or inside collections and through any number of generations. A stored number or name that does not denote a bell or stage, or a stream that is cut short or damaged, gives an error and never a panic or an invalid value; stage names read back in any letter case.",
  ["inputs", "fault_sequences", "crash_points"],
  "all bells and stages, self-describing formats, readers and writers that fail or stop at any byte, flipped bytes",
  "There are no serde tests, and the feature is not even enabled in the test build.",
  ["src/bell.rs", "src/stage.rs"], [("visitor-based deserialisation from numbers or names", "src/bell.rs")],
  [], ["serde_json::to_writer/from_reader of Bell and Stage"])

p("C22", "A library generated from the Council's XML holds exactly its methods",
  "With the cc_lib_gen feature the crate builds, and parsing a complete collection in the Central Council's XML format gives a library with exactly the methods of the collection: same titles, names, stages, classes and leads, findable by title as in any library, and the same again after it was saved to JSON and loaded by clients. A collection that was cut short, wherever the writer or the transfer stopped, is never turned into a library that lacks some of its methods.",
  ["fault_sequences", "crash_points", "inputs"],
  "all collections in the Council's schema, all interruptions of the pipeline from the collection to the client, any hash seeds, threads and output failures",
  "No test builds or calls the generator; at the pinned commit the feature did not even compile.",
  ["src/method_lib/parse_cc_lib.rs", "src/method_lib/lib_serde.rs"], [("reading methods and properties from XML", "src/method_lib/parse_cc_lib.rs")],
  [("method_map", "stage and lower-case title to method", "src/method_lib/mod.rs")], ["parse_cc_lib, MethodLib::to_json, MethodLib::from_json"])

# ---- not decided by this technique -------------------------------------------------------------
NA = "Sampled unit tests cannot cover all inputs; but the property has no schedule, fault, clock or history in it."
p("C30", "A music pattern matches exactly the rows its wildcards describe",
  "A pattern matches a row exactly when its bells, single wildcards and globs can be lined up with the row, normalisation does not change what is matched, and run patterns and counts of matching rows equal the number found by listing.",
  ["inputs"], "all patterns, rows and stages", NA, ["src/music.rs"], [("recursive match", "src/music.rs")])
p("C31", "Method classification follows the Framework's definitions",
  "Classifying a lead gives the class, and the little, differential and jump flags, that the Framework's definitions assign to its rows.",
  ["inputs"], "all leads", NA, ["src/method/class.rs"], [("classification of hunt bells and paths", "src/method/class.rs")])
p("C32", "Row arithmetic obeys the group laws",
  "Multiplication is associative with rounds as identity and inverses, solving equations gives rows that satisfy them, powers agree with repeated multiplication, and parity is multiplicative.",
  ["inputs"], "all rows of all stages", NA, [RB, "src/parity.rs"], [("permutation arithmetic", RB)])
p("C33", "Bell and stage names round-trip and are unambiguous",
  "Every named bell and stage converts to its name, number and index and back, and no two share a name.",
  ["inputs"], "all bells and stages", NA, ["src/bell.rs", "src/stage.rs"], [("name tables", "src/bell.rs")])
p("C34", "Place notation errors point at the offending text",
  "The byte range reported with a place-notation error covers exactly the notation at fault.",
  ["inputs"], "all notation strings", NA, [PN], [("byte offsets carried through parsing", PN)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), max(len(x["title"]) for x in P))
