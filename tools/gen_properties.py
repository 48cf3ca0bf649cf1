#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so wording lives in one place)
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Concurrent point operations on one tree are linearizable",
  "For any number of threads concurrently getting, inserting, updating and removing keys of one tree, every operation appears to take effect atomically at some instant between its call and its return: there is one total order, consistent with real time, in which each result (value found, not found, inserted versus updated, removed versus absent) is what a sequential map would give. No acknowledged write is lost, no removed key reappears, no get returns a value that was not current at some moment of that get, and the contents left when all threads are done are those of the final state of that order.",
  ["schedules", "histories", "inputs"], "all interleavings of memory accesses of concurrent operations, over all key sets (splits, layer creation, leaf and layer deletion included)",
  "mttest runs a handful of free-running schedules whose keys are mostly private to one thread or written with one value; the windows are a few instructions wide and no history is recorded or checked.",
  ["masstree_tcursor.hh", "masstree_get.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_struct.hh", "nodeversion.hh", "kpermuter.hh", "btree_leaflink.hh"],
  [("hand-over-hand version validation of readers", "masstree_struct.hh reach_leaf/advance_to_key, masstree_get.hh find_unlocked"), ("node version word: lock, inserting, splitting, deleted bits", "nodeversion.hh"), ("permutation word published in one store", "kpermuter.hh, masstree_insert.hh finish_insert"), ("split: link right sibling before publishing separator", "masstree_split.hh")],
  ["return values of get/insert/update/remove", "full content at quiescence"])

p("C02", "The tree is an exact map over arbitrary byte-string keys",
  "With one thread, for every sequence of insert, update, get and remove operations over arbitrary byte-string keys of 0 to 255 bytes (embedded zero bytes, shared prefixes of any length, one key a prefix of another), every result and the resulting contents are exactly those of an ordinary map from byte strings to values. This holds for every supported node width and every in-node search method, and for the single-threaded configuration of the tree as for the concurrent one.",
  ["inputs", "histories", "configurations"], "all operation sequences over all keys, for all leaf/internal widths, linear and binary search, concurrent and non-concurrent node versions",
  "The tests use a few decimal or hash-like key families on one configuration; they rarely create keys that differ only in length, zero bytes or beyond an eight-byte boundary, and the direct tree unit test does not even compile.",
  ["masstree_key.hh", "masstree_struct.hh", "masstree_get.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "ksearch.hh", "kpermuter.hh", "stringbag.hh", "string_slice.hh"],
  [("eight-byte slices compared as integers plus length class", "masstree_key.hh, string_slice.hh"), ("suffix storage per leaf", "stringbag.hh, masstree_struct.hh assign_ksuf"), ("conflicting suffixes push a new layer", "masstree_insert.hh make_new_layer"), ("in-node search", "ksearch.hh")],
  ["get/insert/remove results and full scans compared with a std::map"])

p("C03", "Forward and reverse scans return exactly the requested key range in order",
  "On a tree that is not being modified, a forward (reverse) scan from any start key, with the start included or excluded, visits exactly the pairs whose keys are at or after (before) the start, each once, in strictly ascending (descending) byte-string order, with the full key bytes and current value, and it stops immediately when the visitor says so. The start key need not exist and may be any byte string, including the empty one or one that ends inside, before or after a group of keys sharing a long prefix.",
  ["inputs", "histories", "configurations"], "all tree contents reachable by inserts and removes, all start keys, both directions, inclusive and exclusive, every stopping point",
  "scan1/rscan1 check short ranges over one family of decimal keys on trees built by inserts alone; deep shared prefixes, deleted leaves and boundary starts are never combined.",
  ["masstree_scan.hh", "masstree_struct.hh", "masstree_key.hh", "str.hh"],
  [("explicit scan stack over layers", "masstree_scan.hh scanstackelt"), ("forward and reverse helpers mirror comparison and key reconstruction", "masstree_scan.hh forward_scan_helper/reverse_scan_helper")],
  ["visit_value callbacks"])

p("C04", "Scans concurrent with writers never miss, duplicate, misorder or invent keys",
  "A scan that runs while other threads insert, update and remove keys visits keys in strictly increasing order (decreasing for a reverse scan), each at most once, and only keys inside the requested range. For every key in the range it traversed, the value it reported, or the fact that it did not report the key, is what the map held for that key at some moment during the scan; in particular a key present throughout the scan is always reported and one absent throughout never is.",
  ["schedules", "histories", "inputs"], "all interleavings of scans with writers, including splits, layer creation and leaf/layer removal under the scan position",
  "conflictscan1 and splitremove1 free-run with no recorded history and look only at a few stable keys; a scan crossing a leaf at the exact moment of a split or removal is rare.",
  ["masstree_scan.hh", "masstree_split.hh", "masstree_remove.hh", "btree_leaflink.hh"],
  [("leaf snapshot validated by version and permutation, retry from last emitted key", "masstree_scan.hh find_retry/find_next"), ("doubly linked leaves updated atomically", "btree_leaflink.hh")],
  ["visit_value callbacks with step clock"])

p("C05", "Readers never touch freed memory and nothing is freed twice",
  "For every interleaving of gets, scans, inserts, updates and removes, with memory reclaimed as early as the epoch rules permit, no operation reads or writes a node, key-suffix block or value after it has been freed, and no memory block is freed twice or freed while still reachable from the live tree. Every allocation is freed with the size and allocator it was obtained with.",
  ["schedules", "histories"], "all interleavings, with the reclaimer running at the earliest moment that is legal",
  "Tests run a default allocator with reclamation delayed by long epochs, so a node retired too early or freed directly instead of deferred is read unharmed; no test runs under a memory checker.",
  ["masstree_remove.hh", "masstree_split.hh", "masstree_struct.hh", "masstree_insert.hh", "masstree_tcursor.hh", "kvthread.hh"],
  [("unlinking before deferred free", "masstree_remove.hh remove_leaf, gc_layer"), ("deleted bit makes late readers retry", "nodeversion.hh mark_deleted"), ("suffix bag replaced then retired", "masstree_struct.hh hard_assign_ksuf")],
  ["every load/store to tree memory (compiler-instrumented)", "allocator calls"])

p("C06", "Deferred reclamation waits for every active thread, then happens exactly once",
  "An object or callback handed to the epoch-based reclaimer by any thread is not reclaimed or run while any thread that was inside a read section at hand-over time is still inside that same section. It is processed exactly once, and it is processed after a bounded number of quiescent points once the epoch keeps advancing and no thread stays in an old section.",
  ["schedules", "histories", "inputs"], "all interleavings of section entry/exit, epoch ticks, hand-overs and quiescent points across threads, all queue lengths",
  "Use-after-free from a too-early reclaim needs a stalled reader across several epoch ticks; tests tick once per second and finish in a second or two, and never observe callbacks.",
  ["kvthread.hh", "kvthread.cc", "circular_int.hh"],
  [("per-thread section epoch; global minimum gates reclamation", "kvthread.hh rcu_start/rcu_stop/rcu_quiesce, min_active_epoch"), ("limbo groups tagged with epoch", "kvthread.cc hard_rcu_quiesce, limbo_group::clean_until")],
  ["registered callback execution, freed blocks"])

p("C07", "Memory accounting balances: removed and destroyed data is given back",
  "After any history of operations, once deferred work has drained, the memory held by a tree is exactly what its current contents need: leaves, sublayers and suffix blocks emptied by removals have been given back, and destroying a tree gives back everything it ever allocated. Repeating a workload that returns to the same contents does not grow memory.",
  ["histories", "inputs", "schedules"], "all histories of insert/remove incl. concurrent ones, all key shapes (multi-layer trees that are emptied and refilled)",
  "No existing test counts allocations or runs a leak checker; leaks of retired nodes or forgotten empty layers are invisible to value checks.",
  ["masstree_remove.hh", "masstree_struct.hh", "masstree_tcursor.hh", "kvthread.hh"],
  [("empty leaf removal and layer garbage collection", "masstree_remove.hh remove_leaf, gc_layer"), ("destroy walks all layers and siblings", "masstree_remove.hh destroy/destroy_rcu_callback")],
  ["allocation/free events through the thread context"])

p("C08", "Node versions expose every insertion that an optimistic transaction must see",
  "If a reader notes the version reported for each leaf it consulted during a failed lookup or a scan, then any later insertion of a key it saw as absent within what it consulted makes at least one noted version differ from the node's current version (removals excepted from interfering). For an inserting transaction, the before and after versions reported for its own insertion are exactly the values such a reader would have noted immediately before and would note immediately after it, with newly created sibling nodes reported, so its own insertions can be told apart from those of others.",
  ["schedules", "histories", "inputs"], "all interleavings and trees, all versions widths, insertions that split leaves or create layers included",
  "No test reads versions at all; this interface exists for transactional users of the tree.",
  ["masstree_tcursor.hh", "masstree_scan.hh", "masstree_struct.hh", "nodeversion.hh", "masstree_insert.hh"],
  [("version plus size form the full version", "masstree_struct.hh full_version_value"), ("before/after version prediction", "masstree_tcursor.hh previous_full_version_value/next_full_version_value"), ("split siblings recorded", "masstree_tcursor.hh new_nodes")],
  ["full_version_value of cursors and scan leaves"])

p("C09", "Every operation completes: no lost lock, deadlock or endless retry",
  "Under any interleaving, whenever the other threads are allowed to run, each tree operation (get, insert, remove, scan in both directions) finishes after a bounded number of its own steps, and when all operations have finished no node is left locked or marked in transition, so later operations on any key also finish. This also holds when each updater holds a lock of its caller's, such as a log's, from the moment it has found its place in the tree until its update is finished. A reader with no concurrent writer finishes without waiting.",
  ["schedules", "histories"], "all interleavings with a fair scheduler; every abandoned or failed operation included",
  "A leaked lock or a lock-order cycle shows up only in rare interleavings of neighbouring splits and removals, as a hang the test harness would report only as a timeout.",
  ["nodeversion.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_tcursor.hh", "btree_leaflink.hh"],
  [("locks taken left-to-right then upwards, released hand-over-hand", "masstree_split.hh make_split, masstree_remove.hh remove_leaf/collapse"), ("bounded backoff while a node is changing", "nodeversion.hh stable")],
  ["logical step counter of the controlled scheduler", "post-quiescence probing of all keys"])

p("C10", "Row values behave as column arrays under partial updates",
  "Putting a list of (column, bytes) changes sets exactly those columns of the row and keeps every other column as it was, creating the row when absent; a replace sets the whole value; reading any set of columns returns exactly the bytes last put, with columns never set reading as empty. This holds for every row representation the store can be built with, for any number, size (up to the representation's documented limits) and sequence of updates with ascending column numbers, and no update reads or writes memory outside the row.",
  ["inputs", "histories", "configurations"], "all sequences of updates over all column sets and value sizes for each row type",
  "mttest writes one or two fixed-width columns; growth, shrink, many columns and empty values are not exercised, and only the default row type is built.",
  ["value_bag.hh", "value_array.hh", "value_array.cc", "value_versioned_array.hh", "value_versioned_array.cc", "value_string.hh", "kvrow.hh"],
  [("copy-on-write update into a fresh row", "value_bag.hh update, value_array.cc update"), ("offset table of columns", "value_bag.hh bagdata")],
  ["column reads after each update", "address sanitizer"])

p("C11", "Multi-column row reads and updates are atomic",
  "A get, multi-column get or scan of the key-value store returns, for each row, columns that all come from one version of that row: with concurrent multi-column puts, replaces and removes, no reader ever sees some columns from before and others from after one put, and concurrent partial updates of the same row never lose each other's columns. The version number a put returns identifies its place in the row's history: it grows with every later put to that row.",
  ["schedules", "histories"], "all interleavings of put, replace, remove, get and scan on shared rows",
  "Existing tests write a row's columns from one client only and never compare columns of one read with each other under concurrency.",
  ["kvrow.hh", "value_bag.hh", "value_array.cc", "timestamp.hh", "masstree_tcursor.hh"],
  [("row pointer replaced under the leaf lock", "kvrow.hh apply_put/apply_replace/apply_remove"), ("old row retired through the epoch reclaimer", "value_bag.hh deallocate_rcu"), ("timestamp assigned under the lock", "kvrow.hh, kvthread.hh update_timestamp")],
  ["query results with step clock"])

p("C12", "After a crash, recovery yields a consistent prefix of the update history",
  "However the server is killed, the state recovered from its log directory equals the state after some prefix-closed subset of the updates it executed: every recovered row has exactly the value some executed update gave it, and if the effect of one update is recovered then so are those of every update that completed before it began, on whichever connection or logging thread. In particular updates of one client are never recovered out of order or with a gap.",
  ["crash_points", "histories", "schedules"], "all crash instants, including between writes of different log files, for all update histories over several threads",
  "The recovery tests stop the server only after it has gone idle and everything is flushed, with one client and two cores; no crash happens mid-flight.",
  ["log.cc", "log.hh", "mtd.cc", "kvrow.hh", "timestamp.hh"],
  [("log epochs; each log's quiescent points", "log.hh, log.cc logset/loginfo::logger"), ("recovery cut at the minimum complete epoch over all logs", "mtd.cc recover/recovery phases, log.cc logreplay"), ("per-record timestamps and epochs", "log.cc logrec_*")],
  ["contents after restart compared with the recorded client history"])

p("C13", "Flushed updates survive any number of crashes and restarts",
  "An update acknowledged to a client and followed by a flush of the logs (enough running time for several turns of every log writer, with no update stalled meanwhile) is present after a crash and recovery unless a later executed update to the same key replaced it, and it stays present through further crash/recover/run cycles, with or without new updates in between. Recovering twice from the same files gives the same contents, updates made after a recovery always take precedence over recovered ones, and removals stay removed.",
  ["crash_points", "histories", "fault_sequences"], "all histories with repeated kill/recover cycles at arbitrary moments",
  "The tests perform one orderly recovery; nothing writes again after recovery and recovers a second time, or crashes during recovery.",
  ["log.cc", "log.hh", "mtd.cc", "checkpoint.cc", "kvthread.cc", "timestamp.hh"],
  [("log writer appends and syncs each epoch", "log.cc loginfo::logger"), ("initial timestamp and epoch advanced beyond recovered ones", "mtd.cc recover, log.cc"), ("log replay then rewrite of surviving log", "log.cc logreplay::replay")],
  ["contents after each restart"])

p("C14", "A torn or corrupted log tail never yields wrong data",
  "If the tail of any log file is cut at an arbitrary byte, or zeroes or bytes that form no valid record follow its whole records (records carry no checksums, so damage inside a record is out of scope), recovery still succeeds and recovers a state allowed by the consistent-prefix rule, with no row holding a value no client wrote and no loss beyond what the missing bytes carried or what consistency with them requires. A missing, empty or header-less log file counts as a log without updates; the others are recovered by the same rule.",
  ["crash_points", "fault_sequences", "inputs"], "all truncation points and tail corruptions of all log files",
  "No test truncates or damages a log.",
  ["log.cc", "log.hh", "mtd.cc"],
  [("record length and bounds checks stop replay at the first bad record", "log.cc logreplay::info, logrecord parsing"), ("log cut at last complete epoch", "log.cc logreplay::replayandclean1")],
  ["contents after restart from damaged copies"])

p("C15", "Recovery from checkpoint plus logs equals the state before the crash",
  "Whether or not a checkpoint has been taken, is in progress or is abandoned at the crash, recovery combines the newest complete checkpoint with the logs so that the result is the same consistent state recovery from complete logs alone would give: nothing checkpointed is lost or duplicated, values newer than the checkpoint win, and keys removed after the checkpoint stay removed. A checkpoint becomes effective atomically, and an incomplete one is ignored.",
  ["crash_points", "histories", "schedules"], "all placements of checkpoints, concurrent updates and crashes; all key distributions over checkpoint partitions",
  "One test takes a checkpoint on an idle store of one key family and recovers at rest; concurrent updates, crashes during a checkpoint, several checkpoints and odd key distributions never occur.",
  ["mtd.cc", "checkpoint.cc", "checkpoint.hh", "query_masstree.cc", "log.cc", "file.cc"],
  [("key-range partitions by pivots", "query_masstree.cc findpivots, mtd.cc conc_checkpointer"), ("generation file renamed into place last", "mtd.cc writecheckpoint, checkpoint.cc"), ("log replay filtered by timestamp against checkpoint rows", "kvrow.hh apply_put during recovery, log.cc")],
  ["contents after restart"])

p("C16", "Log replay is insensitive to the order and interleaving of log files",
  "Replaying several log files in any order or in parallel, whatever threads wrote which updates, produces for every key the state given by its update with the highest version, including removals and partial-column updates that are replayed before the updates they build on. Replaying a record a second time changes nothing.",
  ["schedules", "histories", "inputs"], "all assignments of a key's update history to log files and all replay orders",
  "The tests give each client its own keys, so one key's history never spans two logs, and replay order is whatever the scheduler picks.",
  ["log.cc", "kvrow.hh", "value_bag.hh", "value_array.cc", "mtd.cc"],
  [("out-of-order deltas kept as markers until their base arrives", "kvrow.hh apply_put during recovery, log.cc logrecord::run"), ("timestamp comparison on replay", "log.cc logrecord::run")],
  ["contents after restart from re-partitioned log files"])

p("C17", "Each request gets one correct response, in order, on every connection",
  "Over TCP, each well-formed request on a connection is answered exactly once, in request order, with its own sequence number and the right response code and result, however requests are pipelined, split or coalesced in transit and however many connections are active; over UDP each well-formed datagram gets one such answer. The results over all connections are those of one atomic map of rows (get, put, replace, remove, scan). A malformed request may end its connection, but only once every request before it has been answered. Malformed, partial, abandoned or idle traffic on one connection neither stops the server nor affects the others, and after a quiet moment and a crash a restarted server serves the same contents. (Keys up to 255 bytes, rows below 64 KB, ascending distinct columns within a put, clients that read their answers.)",
  ["inputs", "schedules", "histories"], "all request sequences, all segmentations of the byte stream, all interleavings of connections",
  "The tests use the bundled client, whose requests are small and arrive whole, and mostly check values it wrote itself with one pattern.",
  ["mtd.cc", "mtclient.hh", "kvrow.hh", "msgpack.cc", "kvproto.hh"],
  [("per-connection incremental parser", "mtd.cc conn, tcp_threadfunc"), ("request dispatch", "mtd.cc onego"), ("write-through response buffer", "mtd.cc, kvio.cc")],
  ["bytes on the wire"])

p("C18", "MessagePack encoding round-trips and parsing is chunk- and garbage-safe",
  "For every value built from null, booleans, integers, floating-point numbers, strings and nested arrays and maps (keys strings or integers; nesting up to 2048), decoding its encoding gives back an equal value and consumes exactly the encoded bytes, and the encoding is one any conforming decoder reads as the same value. The incremental decoder gives the same result however its input is divided into chunks, and for arbitrary bytes it never reads outside the bytes given, crashes or loops: it reports success, error or need for more input. Extension types, lengths beyond 2^31 - 1 and deeper nesting are errors.",
  ["inputs", "programs"], "all values, all byte strings and all chunkings",
  "msgpacktest checks a dozen hand-written encodings, mostly whole and well-formed.",
  ["msgpack.hh", "msgpack.cc"],
  [("type-byte tables and length prefixes", "msgpack.hh unparser, msgpack.cc"), ("explicit parse stack", "msgpack.cc streaming_parser::consume")],
  ["decoded values, consumed length, address/undefined-behaviour sanitizers"])

p("C19", "JSON documents round-trip and parsing is chunk- and garbage-safe",
  "Parsing accepts every document valid under RFC 8259 within the nesting limit and yields the value it denotes (integers of 64 bits exactly, other numbers as nearest doubles, escapes decoded to UTF-8), rejects text that is not valid JSON, and printing a value then parsing it gives back an equal value, finite doubles to 12 significant digits. Nesting is limited to 2048; escapes of lone surrogates and noncharacters may be refused. The incremental parser gives the same result however the text is divided, and for arbitrary bytes neither form reads outside its input, crashes or corrupts memory; copies of a JSON value are independent of each other under any sequence of modifications.",
  ["inputs", "programs"], "all documents, byte strings, chunkings and sequences of value operations",
  "jsontest checks some hundred literals; escapes beyond Latin-1, split multi-byte characters and copy-on-write sequences are hardly touched.",
  ["json.hh", "json.cc", "straccum.cc", "string.cc"],
  [("streaming state machine with partial-token states", "json.cc streaming_parser"), ("copy-on-write arrays and objects with open hashing", "json.cc uniqueify, ObjectJson"), ("escape encoding", "string_base.hh encode_json")],
  ["parsed values, sanitizers"])

p("C20", "Strings are immutable values with exact contents however memory is shared",
  "Whatever sequence of construction, copying, substring, concatenation, appending, comparison and conversion is applied, every string keeps exactly the bytes its history denotes: changing, growing or destroying one string or buffer never alters another that shares its storage, embedded zero bytes included. Comparison, search, hashing and numeric/encoding conversions agree with the plain byte-sequence definition, and no operation accesses memory outside the string or leaks or double-frees storage.",
  ["inputs", "programs"], "all sequences of operations over aliased strings and accumulators, all sizes and alignments",
  "The string unit test does not compile at this commit; other tests touch strings only incidentally.",
  ["string.hh", "string.cc", "string_base.hh", "straccum.hh", "straccum.cc", "str.hh", "hashcode.hh"],
  [("reference-counted memo blocks with a dirty high-water mark", "string.cc"), ("buffer donated from accumulator to string and back", "straccum.cc take_string, transfer_from")],
  ["string contents against std::string", "address sanitizer"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
