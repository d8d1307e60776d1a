"""Source of properties.jsonl: python3 lib/props.py > properties.jsonl"""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Sequential ordered-map semantics of the tree for all keys",
     "For every finite sequence of inserts, updates, lookups and removals issued by one thread, with arbitrary byte-string keys of any length up to the documented maximum (including empty keys, keys containing zero bytes and keys sharing prefixes of any length), every operation reports exactly what an ordered map would: whether the key was present and its current value. No other key is ever affected.",
     ["inputs", "histories", "configurations"], "all operation sequences over small alphabets of colliding keys, from every structural starting shape, at several node widths and search methods",
     "Tests insert random or sequential keys once and read them back; they never enumerate interleavings of splits, layer creation, leaf removal, layer collapse and re-insertion.",
     ["masstree_get.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_struct.hh", "masstree_tcursor.hh", "masstree_key.hh", "ksearch.hh", "kpermuter.hh", "stringbag.hh"],
     [("8-byte key slices in border nodes, layered sub-tries", "masstree_struct.hh leaf, masstree_key.hh key"), ("split, layer creation, node removal and redirect", "masstree_split.hh, masstree_insert.hh make_new_layer, masstree_remove.hh")],
     [("permutation", "slot order of a leaf", "kpermuter.hh"), ("keylenx", "slot kind: inline, suffix, layer", "masstree_struct.hh")], ["basic_table::get", "tcursor find_insert/find_locked/finish"])
prop("C02", "Scans enumerate exactly the right range in order",
     "With no concurrent writer, a forward scan from any start key visits exactly the present keys at or after it (strictly after, when the start is excluded) in increasing byte order, each once with its current value; a reverse scan visits exactly those at or before it in decreasing order. The scan stops exactly when the visitor asks it to, and the start key need not be present.",
     ["inputs", "histories", "configurations"], "every reachable small tree content and shape, every start key (present, absent, prefix, extension), both directions, inclusive and exclusive, every limit",
     "Tests scan a few trees from a few starts; layered, partially removed and suffix-bearing trees with arbitrary starts are not enumerated.",
     ["masstree_scan.hh", "masstree_key.hh", "masstree_struct.hh"], [("scan stack, forward and reverse helpers", "masstree_scan.hh")], observe=["basic_table::scan", "basic_table::rscan"])
prop("C03", "Concurrent point operations are linearizable",
     "Under every interleaving of concurrent lookups, inserts, updates and removals by different threads, the results are those of some sequential order of the operations that respects real-time order; in particular no key that is present throughout is ever missed and no write is lost, whatever splits, layer creations or node removals happen meanwhile. Afterwards the tree holds exactly the final state of that order and works normally.",
     ["schedules", "histories"], "all interleavings of small concurrent programs from every structural starting shape",
     "Concurrent tests run a handful of schedules chosen by the OS; races need a reader or writer suspended at one specific instruction during a split or removal.",
     ["masstree_get.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_struct.hh", "nodeversion.hh", "btree_leaflink.hh", "compiler.hh"],
     [("optimistic version validation", "nodeversion.hh, masstree_get.hh find_unlocked"), ("hand-over-hand locking on split and removal", "masstree_split.hh, masstree_remove.hh"), ("leaf list marking", "btree_leaflink.hh")],
     [("nodeversion", "lock, inserting, splitting, deleted bits and counters", "nodeversion.hh")], ["get/put/remove return values"], "MT_VERIF_HOOKS atomics and spin announcements")
prop("C04", "Concurrent scans are ordered and miss nothing stable",
     "Under every interleaving with writers, a forward or reverse scan returns keys in strict order without duplicates; every key present throughout the scanned range for the whole scan is returned, no key absent throughout is returned, and each returned key/value pair was current at some moment during the scan.",
     ["schedules", "histories"], "all interleavings of a scan with one to three writes from every structural starting shape",
     "Tests never scan while splits and removals happen at chosen points of the walk.",
     ["masstree_scan.hh", "nodeversion.hh", "btree_leaflink.hh", "masstree_remove.hh", "masstree_split.hh"], [("scan retry and re-descent on version change", "masstree_scan.hh")], observe=["scan visitor"], hook="MT_VERIF_HOOKS")
prop("C05", "No deadlock, livelock or leaked lock",
     "In every interleaving of concurrent operations some thread can always make progress, every operation finishes once the others stop interfering, and no lock or in-progress mark is left behind: afterwards a lone thread can read and modify every key.",
     ["schedules"], "all interleavings of small concurrent programs including removal cascades and layer collapse",
     "A deadlock or lost unlock needs a particular schedule; a test that hits it hangs rarely and cannot show absence.",
     ["nodeversion.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_tcursor.hh", "btree_leaflink.hh"], [("lock ordering child before parent, left to right", "masstree_split.hh, masstree_remove.hh")], hook="MT_VERIF_HOOKS spin announcements")
prop("C06", "Memory is reclaimed only after all readers are done",
     "Memory of a node, key suffix or value that was removed from the structure is not freed or reused while any thread that started an operation before the removal became visible can still read it, for every interleaving of writers, readers, epoch advances and quiescence points; no operation ever touches freed memory.",
     ["schedules", "histories"], "all interleavings of a retiring writer, a victim and epoch ticks",
     "Use-after-free here needs a reader parked across two epoch advances between unlinking and retiring; stress tests virtually never do it and do not run under a memory checker.",
     ["kvthread.cc", "kvthread.hh", "masstree_remove.hh", "masstree_split.hh", "masstree_insert.hh", "kvrow.hh"], [("epoch-based limbo lists", "kvthread.hh rcu_register, kvthread.cc hard_rcu_quiesce"), ("unlink before retire", "masstree_remove.hh")],
     [("globalepoch/active_epoch", "epochs compared by quiescing threads", "kvthread.hh")], hook="MT_VERIF_HOOKS mt_verif_retire/free")
prop("C07", "Everything retired or destroyed is freed exactly once",
     "Every allocation belonging to a table is freed at most once, and once the table has been destroyed and every thread has passed through enough later epochs, all of it has been freed: updates, removals, splits and layer changes in any order leak nothing, and destroy reaches every node whatever concurrent history built the tree.",
     ["schedules", "histories"], "all interleavings of small programs followed by destroy and draining",
     "Leaks and double frees are invisible to functional tests.",
     ["masstree_remove.hh", "masstree_split.hh", "masstree_struct.hh", "kvthread.cc", "kvthread.hh", "stringbag.hh"], [("deferred gc_layer callbacks, destroy traversal", "masstree_remove.hh"), ("limbo groups", "kvthread.cc")], hook="MT_VERIF_HOOKS mt_verif_alloc/free")
prop("C08", "Recorded leaf versions detect every membership change (phantom protection)",
     "A reader that records the leaf and version a lookup reports, or all leaves and versions a scan reports to its visitor, and later finds every recorded version unchanged, knows that no key it looked up or whose position the scan covered has been inserted or removed since - in particular keys that were absent. A writer's own insertion changes only versions that its cursor reports (original node, updated version, new nodes).",
     ["histories", "schedules", "configurations"], "all short histories and interleavings of recording reads with inserts and removals, over all tree shapes including empty leaves, layers and splits",
     "Tests use recorded versions in one stress benchmark that cannot tell a missed change from no change.",
     ["masstree_scan.hh", "masstree_struct.hh", "masstree_tcursor.hh", "masstree_insert.hh", "masstree_split.hh", "masstree_remove.hh", "masstree_get.hh"],
     [("full_version_value: version counters plus leaf size, modstate-forced bumps", "masstree_struct.hh, masstree_insert.hh, masstree_remove.hh finish_remove"), ("visit_leaf for every leaf passed", "masstree_scan.hh scan")],
     observe=["scan visitor visit_leaf", "unlocked_tcursor::full_version_value", "tcursor original/updated version"])
prop("C09", "Timestamps order the updates of a key",
     "Every update of a key gets a timestamp newer than that of every earlier update of the same key, including a removal before it and whatever the tree did to the key's place meanwhile - split, removal or reuse of its leaf, creation or collapse of a layer - and whichever session made the updates. The update reports the timestamp of the row it replaced as the previous one, or none if the key was absent, and the stored row carries its update's timestamp.",
     ["histories", "schedules"], "every sequence of replaces, removals and collection rounds by two sessions up to a depth on eleven tree shapes; every interleaving of two and three concurrent updates",
     "A timestamp that goes backwards is invisible until logs are replayed after a crash; tests never compare timestamps.",
     ["query.hh", "query_masstree.cc", "masstree_remove.hh", "masstree_split.hh", "masstree_insert.hh", "masstree_struct.hh", "kvthread.hh", "kvrow.hh"],
     [("timestamps of removed keys kept by leaf", "masstree_struct.hh leaf::phantom_epoch_, masstree_remove.hh, query.hh observe_phantoms"), ("per-session timestamp advanced past what it replaces", "kvthread.hh threadinfo::update_timestamp")],
     [("leaf::phantom_epoch_[]", "newest timestamp removed from the leaf", "masstree_struct.hh"), ("threadinfo::ts_", "the session's clock", "kvthread.hh")],
     ["query_times() of each update", "timestamp() of stored rows"])
prop("C10", "Rows hold exactly the columns written, atomically",
     "A row holds exactly what the sequence of puts, replaces and removals of its key made of it: a put sets the listed columns (or bytes, for string rows), leaves all others alone and extends the row with empty columns if needed, a replace makes it one column, for any column numbers and any lengths including empty ones, in every row type that builds (bag, array, string). Gets, column gets, forward and reverse scans with or without a list of columns, and writing to and reading from a checkpoint return exactly these contents. A reader sees a row as it was between two updates, never a mixture of several, also while it holds a row that is updated or removed; no row memory is leaked, freed twice, freed with a wrong size or read out of bounds.",
     ["inputs", "histories", "schedules"], "every sequence of 4 (thorough 5) commands from 20-odd forms with boundary column numbers and lengths, over one and four keys, for each row type; every interleaving of small programs of commands on shared rows",
     "Tests write columns 0 and 1 with short values and check them after the fact; a torn row, a lost column or an out-of-bounds byte needs a particular sequence of lengths or a particular interleaving.",
     ["value_bag.hh", "value_array.hh", "value_array.cc", "value_string.hh", "value_string.cc", "kvrow.hh", "query.hh", "query_masstree.cc", "msgpack.hh", "json.hh"],
     [("copy-on-write update of rows", "value_bag.hh update, value_array.cc update, value_string.hh update"), ("old rows and columns retired to RCU", "kvrow.hh, value_array.cc deallocate_rcu_after_update"), ("column selection in gets and scans", "query.hh emit_fields")],
     [("value_bag::d_", "number of columns, offsets, bytes", "value_bag.hh")],
     ["answers of get, get1, scan and rscan", "row contents", "blocks allocated and freed"])
prop("C11", "Recovery after a crash yields a consistent cut of the acknowledged updates",
     "After the server stops at any instant, with any subset of not-yet-synced file data lost, a restart over the same logs and checkpoints succeeds and yields a state that for each connection-visible history is some consistent cut: there is a log epoch such that exactly the updates up to it are present, later updates of no key survive without earlier ones they followed, and no key holds a value never written to it. Updates acknowledged more than a bounded number of flush rounds before the crash are always in it, and recovered servers accept, log and recover further updates under the same rules.",
     ["crash_points", "schedules", "histories"], "all short update histories over several logs, all placements of pauses between log flushes, epoch ticks and wake-ups, every file-system operation as crash point and every legal loss of unsynced data, several server generations",
     "The recovery test kills a server at a few arbitrary moments; losing the cut needs a crash between particular log flushes, with one log idle or freshly woken.",
     ["log.cc", "log.hh", "mtd.cc", "kvthread.hh", "file.cc"],
     [("log epoch records and quiesce/wake markers", "log.cc loginfo::run, logset::record"), ("cut computation on replay", "log.cc logreplay::info, mtd.cc recover")],
     [("global_log_epoch", "epoch assigned to new log records", "log.cc"), ("quiescent_epoch, wake_epoch, frontier", "per log flush state", "log.hh")],
     ["recovered table contents after restart", "replayed log files"])
prop("C12", "Recovery is itself crash-safe and idempotent",
     "If the server crashes again at any point during recovery or while it rewrites or removes recovered files, the next recovery yields the same consistent state (never less than what the first recovery had promised durable), and recovering twice from the same files yields the same contents.",
     ["crash_points", "histories"], "every file-system operation during replay, log rewriting, checkpoint loading and clean-up as a crash point, over the crash states of C11 and C14",
     "No test crashes a server while it is recovering.",
     ["log.cc", "mtd.cc", "checkpoint.cc", "file.cc"],
     [("logs rewritten to the recovered prefix through a temporary file and rename", "log.cc logreplay::replay_truncate"), ("old checkpoint generations removed after commit", "mtd.cc")],
     observe=["recovered table contents after a second restart"])
prop("C13", "Log replay reproduces the logged updates in timestamp order",
     "Replaying logs from any number of log files, in any replay interleaving of those files, gives each key the value that the sequence of its logged puts, column modifications, replacements and removals produced in the running server, whichever logs the updates of one key went to and whatever timestamps the tree had then; removed keys stay absent and afterwards accept new updates with newer timestamps.",
     ["histories", "schedules"], "all short histories of the four update commands over two keys and two logs, replayed in every order of log threads",
     "Tests recover histories in which every key was written once.",
     ["log.cc", "log.hh", "query_masstree.cc", "kvrow.hh", "query.hh", "value_string.hh", "value_versioned_array.hh"],
     [("timestamp and previous-timestamp chains per key", "kvrow.hh apply_replace/apply_remove, log.cc logrecord::run"), ("markers for modifications that arrive before their base", "kvrow.hh, log.cc")],
     observe=["recovered table contents"])
prop("C14", "Checkpoints are atomic and lose nothing",
     "A crash at any point of taking a checkpoint leaves the server recoverable from either the old or the new checkpoint plus logs, with exactly the contents C11 demands; a checkpoint taken during concurrent updates never resurrects, loses or mixes up data, and checkpoint files never cover a key twice or miss one, for any number of checkpoint threads and any key distribution.",
     ["crash_points", "schedules", "histories"], "all short histories around a checkpoint with the checkpointer paused at each of its steps, every file-system operation as crash point, all key sets for the partitioning step",
     "Tests take checkpoints of a quiet server and do not crash inside one.",
     ["checkpoint.cc", "checkpoint.hh", "mtd.cc", "query_masstree.cc", "log.cc", "file.cc"],
     [("two-phase commit of a checkpoint: all files synced, logs flushed past the checkpoint's epochs, generation marker replaced atomically", "mtd.cc"), ("partition of the key space into pivots", "query_masstree.cc")],
     observe=["recovered table contents", "checkpoint files"])
prop("C15", "A torn or garbled log tail never corrupts recovery",
     "If the last bytes of a log were only partially written - cut at any byte or with any unsynced block replaced by zeros or old contents - recovery uses exactly a prefix of whole records, never a partial or misparsed one, never crashes, and still satisfies the guarantees on durable updates.",
     ["crash_points", "fault_sequences", "inputs"], "every byte position of the unsynced tail as cut point, with and without zero fill, including records spanning several blocks and checkpoint files",
     "Tests kill processes, never the file system: no test sees a torn record.",
     ["log.cc", "log.hh", "checkpoint.cc", "file.cc"], [("record length checks on replay", "log.cc logrecord::extract, logreplay::info")], observe=["recovered table contents"])
prop("C16", "Every request gets exactly its own answer, however bytes are cut",
     "A connection that sends a sequence of well-formed requests receives exactly one reply per request, in order, with the sequence numbers and command codes that belong to it and contents that reflect the requests before it, no matter how the byte stream is cut into reads and writes, which legal msgpack encodings are used, how long keys, values and replies are relative to the buffers, and what other connections or datagrams do meanwhile; the state afterwards, in memory and after a restart from the logs, is that of executing the completed requests. A client that disconnects, resets or sends garbage at any byte loses only its own connection: completed requests took effect, the half-received one did not, other clients are served on. A truncated datagram has no effect.",
     ["inputs", "fault_sequences", "histories"], "every cut of representative request streams into pieces, every byte as point of disconnection, every short write, every legal encoding, every order of short request sequences on two connections, offsets around every buffer size",
     "Tests use the repository's own client over loopback, where requests and replies arrive whole.",
     ["mtd.cc", "kvproto.hh", "msgpack.cc", "msgpack.hh", "kvio.cc", "kvio.hh", "mtclient.hh", "query.hh", "query_masstree.cc", "log.cc"],
     [("resumable msgpack parser and its string storage", "msgpack.cc streaming_parser"), ("request loop, buffered output flushed at the end of a batch", "mtd.cc onego, tcp_threadfunc, kvio.cc"), ("client window of outstanding requests", "mtclient.hh")],
     observe=["bytes written to connections and datagrams", "table contents", "table contents after restart"])
prop("C17", "MessagePack encoding and parsing are exact, however the input is cut",
     "Everything the encoder writes - integers of every type, floating-point numbers, strings, arrays, maps, nested values - decodes to the same value; every legal encoding of a value, minimal or not, is accepted by every reader that handles its type (streaming parser, parser, skipping). The streaming parser gives the same verdict, value and end position for a byte string however it is cut into pieces, whether the pieces' memory survives or not; it uses exactly the bytes of one value, rejects exactly the malformed ones, never reads beyond what it was given, and after a reset, a result or an error starts afresh without changing results handed out before.",
     ["inputs", "histories"], "every byte string up to 5 to 8 bytes over alphabets of the significant bytes in every cut, boundary values in every encoding nested in small containers in every two cuts, containers and strings around every length boundary, pairs of values through one parser abandoned at every byte",
     "Unit tests parse a few dozen literals, whole.",
     ["msgpack.cc", "msgpack.hh", "json.hh", "json.cc", "small_vector.hh", "straccum.hh"],
     [("resumable parser: partial headers, partial strings, a stack of open containers", "msgpack.cc streaming_parser::consume"), ("encoders choosing the width of integers and lengths", "msgpack.hh format::write_*, unparser"), ("direct reader", "msgpack.hh parser")],
     [("streaming_parser::state_, stack_, str_", "where the input stopped", "msgpack.hh")],
     ["parsed values", "number of bytes consumed", "encoded bytes"])
prop("C18", "JSON text and Json values behave as standard JSON and plain value semantics",
     "The JSON parser, given a text whole or in any pieces, accepts exactly the texts RFC 8259 allows (it also refuses the characters U+0000, U+FFFE and U+FFFF, and may refuse values nested deeper than 2048), yields the value they denote - integers exact where they fit 64 bits, all escapes and UTF-8 intact - and never reads beyond what it was given. Unparsing a value (compact, indented, spaced, newline-terminated) gives text that is valid and parses back to the same value. A Json variable behaves as a plain tree: copies never share later changes, and every operation - assigning, inserting, erasing, merging, incrementing, including when an operand is a part of the same Json - has the effect it has on plain trees.",
     ["inputs", "histories"], "every text up to 2 to 8 symbols over some twenty alphabets of bytes, tokens, escapes and digits, in every cut; every UTF-16 code unit pair class and code point; boundary integers; every sequence of 3 (4) operations on two variables from 8 starting points; objects of up to 300 keys built and thinned in many orders",
     "Unit tests parse some fixed texts whole, and run fixed operations on unshared values.",
     ["json.hh", "json.cc", "string.hh", "string.cc", "straccum.hh", "straccum.cc"],
     [("streaming text parser", "json.cc Json::streaming_parser"), ("shared representations made unique before a change", "json.hh uniqueify_array, uniqueify_object"), ("encoders", "json.cc Json::hard_unparse, String::encode_json")],
     [("Json rep and reference counts", "the value", "json.hh"), ("streaming_parser state and stack", "where the text stopped", "json.hh")],
     ["parsed values", "positions of errors", "unparsed text", "values read back after operations"])
prop("C19", "The building blocks of tree nodes meet their specifications",
     "Permuters of every width keep a permutation and a size, and each operation moves exactly the elements its documentation names; binary and linear bound searches find the same, correct position; integer slices of strings compare as the strings do and read nothing they may not; layered keys compare, shift, unshift, store, increment and print as the byte strings they stand for; a string bag returns what was last stored at each position, stays within its capacity, accepts whatever fits and is unchanged by a refused assignment; a version word shows every insert and split as a change to all earlier readers and nothing else as one, at every counter value; a small vector behaves as a vector, building and destroying each element once; wrapping integers order as distances; bit, byte-order and atomic functions compute their definition.",
     ["inputs", "histories"], "permuters: every state of widths up to 7 (8) and all sequences of 2 (3) operations from every sorted state up to width 15; bags: all sequences of 2 to 6 assignments over 1 to 15 positions at every small capacity and near the largest; version words at counter boundaries and through 2^19 splits; keys of up to three (four) layers over boundary bytes; vectors: all sequences of 4 (5) operations on two vectors",
     "Unit tests try a few permutations and one or two keys; counters near wrapping, full bags and aliased arguments are never reached.",
     ["kpermuter.hh", "ksearch.hh", "string_slice.hh", "masstree_key.hh", "stringbag.hh", "nodeversion.hh", "small_vector.hh", "circular_int.hh", "compiler.hh"],
     [("permuter word", "kpermuter.hh kpermuter<W>"), ("version word", "nodeversion.hh nodeversion<P>"), ("suffix storage", "stringbag.hh stringbag<T>::assign"), ("key layers", "masstree_key.hh key<I>")],
     [("permutation word", "order and free list of a leaf", "kpermuter.hh"), ("v_", "lock, dirty bits, counters and flags", "nodeversion.hh"), ("size_, info_", "where strings lie in a bag", "stringbag.hh")],
     ["results and states after each operation", "memory errors"])
prop("C20", "Memory has one owner at a time and comes back exactly once",
     "An allocation from a thread's pools is aligned to a cache line, wide enough for what was asked, and overlaps nothing that is live, for every size class and across refills of a pool. Memory given back directly can be allocated again, each piece by one caller at a time. Memory retired with a grace period keeps its contents until every thread that was active when it was retired has quiesced or stopped, and then comes back exactly once; a callback registered for that moment runs exactly once, not before it, and may itself allocate, retire and register more. This holds however many things are waiting: none is lost, repeated or early where the waiting lists fill, are reclaimed in part, or start over.",
     ["histories", "inputs"], "two threads, every sequence of 5 (6) of 13 to 23 operations each way from 38 starting points around the waiting list's capacity, twice that, and the number reclaimed at a time; every size class through two pool refills, and every size from 1 to 1280 bytes",
     "Few tests wait for memory to be reclaimed, and none fills a waiting list to the last entry, reclaims it in part and fills it again.",
     ["kvthread.hh", "kvthread.cc"],
     [("pools", "kvthread.hh threadinfo::pool_allocate, pool_deallocate; kvthread.cc refill_pool, initialize_pool"), ("waiting lists", "kvthread.hh limbo_group, record_rcu; kvthread.cc hard_rcu_quiesce, limbo_group::clean_until, refill_rcu")],
     [("pool_[]", "free objects by size", "kvthread.hh"), ("limbo_head_, limbo_tail_", "groups of retired objects", "kvthread.hh"), ("head_, tail_, epoch_", "entries in a group", "kvthread.hh"), ("limbo_epoch_, gc_epoch_", "what may be reclaimed", "kvthread.hh")],
     ["addresses handed out", "contents of live and retired memory", "callbacks run", "what can be allocated in the end"])
prop("C21", "Strings are plain values and text functions do what they document",
     "A String behaves as a byte string of its own: however strings and accumulators came to share memory (copies, substrings, appends in place, stable literals, taking an accumulator's text), assigning, appending to, or writing through one, also with parts of itself as the operand, changes no other and no byte of another, and the memory is freed exactly once at the end. Comparisons order strings as byte strings; natural comparison is antisymmetric, finds only identical strings equal, and orders numbers in text by value. Finding, substrings, trimming, case, prefixes, numbers to and from text, printable and C-hex text, base64 and URI decoding, joins, bounded printing and glob matching return what plain definitions give, for every string, and read and write nothing outside their arguments. Conversions between UTF-8, CESU-8, UTF-16 and Windows-1252 keep every character: they return valid UTF-8, leave valid text without null characters as it is, and drop, or on request replace by one U+FFFD, what starts no character.",
     ["inputs", "histories"], "all sequences of 3 (4) operations on two strings, an accumulator and a string kept aside from 8 starting points of shared memory; every string up to 3 to 7 (4 to 8) bytes over alphabets chosen per function; all pairs and patterns over small alphabets; all bytes in pairs; every code point in every encoding; integers around every power of two and ten",
     "Unit tests call each function on a few literals; sharing, self-operands, odd bytes, empty and full buffers are combined nowhere.",
     ["string.hh", "string.cc", "string_base.hh", "str.hh", "str.cc", "straccum.hh", "straccum.cc"],
     [("shared text", "string.hh String::memo_type; string.cc String::append, append_uninitialized, mutable_data, align"), ("accumulators", "straccum.cc StringAccum::grow, snprintf, take_string"), ("text functions", "string.cc String_generic::natural_compare, find_left, find_right, glob_match; String::encode_base64, decode_base64, printable, encode_uri_component"), ("encodings", "string.cc String::skip_utf8_char, utf16be_to_utf8, cesu8_to_utf8, to_utf8; StringAccum::append_utf8_hard")],
     [("memo_type::refcount, dirty", "owners of a text and how much of its memory is in use", "string.hh"), ("_r.data, _r.length, _r.memo_offset", "what a string shows of it", "string.hh"), ("r_.s, r_.len, r_.cap", "an accumulator's text", "straccum.hh")],
     ["bytes of every string after each operation", "results", "memory errors and leaks"])
prop("C22", "Command lines mean what the option parser documents",
     "For every table of options and every argument list, Clp_Next returns each argument exactly once and in order, as an option or as a plain argument, then Clp_Done for ever. A long option is recognised by its name, by any unambiguous abbreviation (a preferred match wins over options it is a prefix of), with dashes left out if nothing else fits, and negated by no- where it may be; short options may share one argument; initial characters mean what Clp_SetOptionChar says, a long reading being tried first where both are possible; \"--\" ends the options. A value is taken from after = or from the rest of the group, or, if it is mandatory, from the next argument (unless it looks like an option and the type forbids that); it is refused where none is allowed; its type accepts exactly its texts and yields their value (with suffixes, for durations). The current option's name and value, Clp_IsLong and Clp_IsShort describe what was returned. A bad option gives Clp_BadOption and exactly one message, whole whatever its length and naming up to four possibilities if the option was ambiguous, and nothing else is affected. A saved state resumes in any parser with the same results, and Clp_Shift takes exactly the next argument. Names and messages are cut to the buffer given and nothing is read or written outside it.",
     ["inputs", "histories"], "for nine tables of options and initial characters: every line of 2 (3) of about 40 words, every abbreviation of every name with every prefix and value form, every group of up to 4 (5) option characters; every value of up to 4 or 5 (5 or 6) characters over six alphabets for all eleven types; lines of up to 2 words under all plans of 4 calls to Clp_Next and Clp_Shift; resumption from every saved state; messages and names of every length around buffer sizes",
     "The tests run the programs with a few fixed command lines; abbreviation, negation, grouping, optional values and saved states are combined nowhere.",
     ["clp.h", "clp.c", "misc.cc"],
     [("next argument", "clp.c next_argument, get_oclass, switch_to_short_argument, Clp_Shift"), ("which option", "clp.c find_long, find_prefix_opt, argcmp, find_short, compare_options, calculate_lmm"), ("values", "clp.c parse_string, parse_int, parse_bool, parse_double, parse_string_list; misc.cc clp_parse_suffixdouble"), ("state", "clp.c Clp_SaveParser, Clp_RestoreParser, Clp_SetArguments, Clp_SetOptions"), ("messages", "clp.c Clp_vbsprintf, build_string_grow, ambiguity_error, Clp_CurOptionNameBuf")],
     [("argv, argc", "what is left of the arguments", "clp.c"), ("text, xtext, is_short, could_be_short, whole_negated", "where in an argument the parser is", "clp.c"), ("lmmpos, lmmneg", "shortest unambiguous abbreviations", "clp.c"), ("current_option, negated_by_no", "the option returned", "clp.c")],
     ["results, values and names returned", "arguments left", "messages", "memory errors"])
if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
