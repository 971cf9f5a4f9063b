#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below and the registered checks"""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))

def p(i, title, statement, over, text, why, files, mech, state=None, tech=None, note=None, level="model_checking"):
    a = {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": i, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text},
            "why_tests_cant": why, "anchors": a, "_tech": tech, "_note": note, "_level": level}

SEM = ("executable TLA+ semantics (specs/Values, Ops, Eval.tla) evaluated by TLC on every recorded session of the real "
       "engine (SessionTrace.tla): each result and each variable must be one the specification allows")
SEMN = "every generated session is compared event by event; inputs are seeded random within the generator's bounds (vectors up to ~40 elements, 32-bit integers in the model)"

PROPS = [
p("P01", "A select query returns exactly the rows and columns it asks for",
  "A select over a table returns one row for every row on which its where condition is true, in table order, and no other row. Each requested column holds its expression evaluated on exactly those rows, every column of a result comes from the same rows, and requesting no columns returns all of them.",
  "inputs programs", "all tables, column types, where conditions, projections and take clauses",
  "tests run a few dozen literal queries; the claim is over all tables (types, nulls, empty, single row), predicates and projections together",
  "core/query.c core/filter.c core/items.c", [("query phases: from, where, by, columns, collect", "core/query.c ray_select"), ("filter resolution", "core/filter.c filter_collect")],
  [("query context", "the table and filter columns are evaluated against", "core/query.h query_ctx_t")]),
p("P02", "Grouped aggregates equal aggregating each group's rows separately",
  "A select with a by clause returns one row per distinct key combination among the rows that pass where, and every aggregate in that row equals the same aggregate computed over exactly that group's rows. No row is dropped, counted twice, or assigned to another group, whatever the key types, including nulls.",
  "inputs programs", "all tables, key column types and counts, aggregates and where clauses",
  "tests cover a handful of groupings; hash collisions, null keys, filters with grouping and per-type aggregation code paths multiply beyond them",
  "core/group.c core/aggr.c core/index.c core/query.c core/hash.c", [("group index construction", "core/index.c index_group*"), ("grouped aggregation", "core/aggr.c aggr_*")],
  [("group index", "group number of every row", "core/index.c")]),
p("P03", "Updates, inserts and upserts change exactly the addressed rows",
  "Update changes the listed columns on exactly the rows its where and by clauses address, adding missing columns with nulls elsewhere; insert appends the given rows; upsert replaces the rows whose key matches and appends the others; alter replaces the addressed elements. Nothing else in the table changes, and an operation that is refused changes nothing at all.",
  "inputs programs histories", "all tables, key columns, row batches (atoms, lists, tables, dictionaries) and sequences of operations, in place and by value",
  "tests apply one operation to one literal table; the claim is over histories of operations, types and mixes of matched and new keys",
  "core/update.c core/index.c core/items.c", [("in-place update of a variable", "core/update.c __fetch __commit"), ("upsert key lookup", "core/index.c index_upsert_obj"), ("alter at indices", "core/update.c ray_alter, core/rayforce.c set_obj push_obj")],
  [("the variable's table", "replaced or changed in place when unshared", "core/env.c, core/update.c __fetch")]),
p("P04", "Joins pair exactly the rows whose keys match",
  "A left join returns every left row once, with the right columns of a matching row or nulls; an inner join returns exactly the left rows that have a match; an as-of join attaches to each left row the latest right row of equal keys at or before its time. Columns stay aligned by row, key order and types do not matter.",
  "inputs", "all pairs of tables, key columns (one or several, every joinable type), duplicates, nulls and missing matches",
  "tests join two tiny tables; hash collisions, multi-column keys, duplicates and empty sides multiply beyond them",
  "core/join.c core/index.c", [("join index", "core/index.c index_left_join_obj, index_inner_join_obj, index_asof_join_obj"), ("column assembly", "core/join.c")]),
p("P29", "Window joins aggregate exactly the rows of each window",
  "A window join keeps every left row and gives it, for each named aggregate, the aggregate over the right rows of equal keys whose time lies within the row's own window (both bounds included in window-join1; window-join also counts the row prevailing when the window opens): rows of other keys or times never contribute, ties and rows given out of time order do not matter, an empty window gives a null or a count of zero, and windows that do not fit the left table are refused.",
  "inputs schedules", "all pairs of tables, keys, time types of the joins, windows (overlapping, empty, reversed), aggregates and numbers of threads",
  "tests aggregate two windows of one symbol; bounds, ties, missing groups, nulls and the division of rows among threads multiply beyond them",
  "core/join.c core/index.c core/aggr.c", [("window join", "core/join.c __window_join"), ("row ranges of the keys", "core/index.c index_window_join_obj"), ("aggregation per window, divided among threads", "core/aggr.c AGGR_ITER INDEX_TYPE_WINDOW, aggr_map_window")]),
p("P05", "Sorting yields an ordered permutation and stable, consistent indices",
  "Ascending and descending sorts of any collection return exactly its elements, ordered with nulls first in ascending order, and the index form lists positions that produce that order with equal elements kept in their original order. Ranking and table ordering agree with the index form, and none of this depends on whether the value was sorted, reversed or changed in place before.",
  "inputs", "all vectors of every sortable type, any length and key distribution, tables and dictionaries by their columns",
  "different algorithms run by type, size and range of keys; tests sort short literals",
  "core/order.c core/sort.c", [("counting, radix and merge sorts chosen by type and size", "core/sort.c ray_sort_*"), ("order primitives", "core/order.c")]),
p("P06", "Search, membership and set operations agree with element equality",
  "Looking up, testing membership, taking distinct elements, unions, differences and intersections, binary searches, within-ranges and pattern matches give the answers defined by comparing elements one by one. Nulls and negative numbers are elements like any other.",
  "inputs", "all pairs of collections of every type, including empty, null and repeated elements",
  "results depend on hash layout and key range; tests use small positive integers",
  "core/index.c core/items.c core/hash.c core/string.c core/compose.c", [("range and hash index of a vector", "core/index.c index_find_*, index_distinct_*, index_in_*"), ("open addressing table", "core/hash.c ht_*")]),
p("P07", "Arithmetic and comparison work element-wise with one type and null rule",
  "Arithmetic, comparison, logical and rounding operations on atoms, vectors and lists give for each element the value of the operation on the corresponding atoms, with the result type determined by the operand types only. A null operand gives a null result, a shape or type mismatch is an error, and operands are unchanged.",
  "inputs", "all operand types, shapes and values accepted by each operation, null and extreme values included",
  "the type-pair dispatch has hundreds of hand-written cases, in scalar and vector forms; tests sample some",
  "core/math.c core/cmp.c core/logic.c core/ops.c", [("type-pair dispatch of binary operations", "core/math.c"), ("comparison kernels", "core/cmp.c")]),
p("P08", "Aggregates of a vector equal their definition over its non-null elements",
  "Count, sum, average, minimum, maximum, median, deviation, first and last of a vector equal their mathematical definition, skipping nulls where the aggregate skips them. The answer does not depend on element order, on how the vector was built or on its internal representation.",
  "inputs", "all numeric and temporal vectors of any length including empty and all-null",
  "tests aggregate short literals of a few types",
  "core/math.c core/aggr.c core/items.c", [("unary folds", "core/math.c ray_sum ray_avg ray_min ray_max ray_med ray_dev"), ("aggregate folds over chunks", "core/aggr.c")]),
p("P09", "Values are immutable: changing one variable never changes another",
  "A value bound to one name is not affected by anything done through another name, a list, dictionary, table or function parameter that shares it: assignment, in-place update, insert, upsert, alter, sort, arithmetic and concatenation behave as if every binding had its own copy. An operation on a value, as opposed to a quoted name, leaves every variable as it was.",
  "histories programs", "all sequences of assignments and operations over variables that share values, of every kind of value",
  "sharing is an optimisation (reference counts, in-place reuse of unshared values); a wrong count or a missed copy shows only for particular histories of sharing",
  "core/rayforce.c core/env.c core/update.c core/math.c core/items.c", [("copy on write", "core/rayforce.c cow_obj drop_obj clone_obj"), ("in-place reuse of unshared operands", "core/math.c, core/update.c __fetch")],
  [("reference count", "how many bindings and containers hold a value", "core/rayforce.h obj_t rc")],
  tech="model checking (Rc.tla) and trace validation with TLC: executable semantics in TLA+ (SessionTrace) and the frame rule for arbitrary programs (FrameTrace)"),
p("P10", "A function computes what its body means, however it is called or compiled",
  "Calling a function yields the value of its body with the parameters bound to the arguments and the locals private to that activation, whether it is called by name, as a value, recursively, through a higher-order function or first or again after compilation; the same expression yields the same value at top level, in a block and in a function, and redefining a name is seen by its callers.",
  "programs", "all programs of nested functions, locals, globals, conditionals, blocks, recursion and long bodies",
  "the compiler's branches, jumps, slots and frames interact with the shape and size of the program; tests call a few short functions",
  "core/cc.c core/eval.c core/lambda.c core/env.c", [("lazy compilation", "core/cc.c cc_expr cc_body cc_cond"), ("byte-code evaluation, frames", "core/eval.c")],
  [("frame", "arguments, locals and return address of an activation", "core/eval.c vm_t")],
  tech="trace validation with TLC: executable TLA+ semantics (SessionTrace), and that an expression yields the same wherever it stands, for arbitrary programs (FrameTrace)"),
p("P11", "An error is confined: it reaches the nearest try and leaves everything else intact",
  "An error raised anywhere in a program abandons the enclosing forms up to the nearest try, whose handler's value takes its place, or becomes the result of the whole fragment. The effects performed before the error stay and no others appear; variables, tables and later evaluations are as if the failed part had not been attempted. Endless recursion is an error of this kind.",
  "programs histories faults", "all programs with an error at any depth: in arguments, function bodies, queries, loops, blocks, handlers",
  "the evaluator must unwind values, frames and query contexts at every point an error can arise; tests raise errors at a few shallow points",
  "core/eval.c core/error.c core/query.c core/cond.c", [("unwinding of the evaluation stack", "core/eval.c"), ("try", "core/eval.c, core/cc.c")],
  [("stack depth and frames", "restored on error", "core/eval.c vm_t")],
  tech="trace validation with TLC: executable TLA+ semantics (SessionTrace), and the frame rule for arbitrary failing programs (FrameTrace)"),
p("P12", "Higher-order functions apply their function to exactly the elements, in order",
  "map applies its function to the corresponding elements of its sequence arguments, atoms standing for a constant sequence, and collects the results in order; pmap gives the same result; map-left and map-right hold one side fixed; fold, fold-left and fold-right thread an accumulator left to right, and the scans return every accumulation; apply passes its arguments as they are. Sequences of different lengths are refused.",
  "inputs programs", "all functions (user functions and builtins), argument shapes, lengths and nesting",
  "tests call each of them on a literal or two; the result's shape depends on the types every application returns",
  "core/iter.c core/eval.c core/pool.c", [("map and fold drivers", "core/iter.c"), ("parallel map", "core/iter.c ray_pmap, core/pool.c")]),
p("P13", "Indexing, taking and reshaping return the addressed elements",
  "Indexing a vector, list, dictionary or table, and taking, dropping, filtering, reversing, concatenating, razing and enlisting, return exactly the addressed elements in the defined order and with the defined type. Positions out of range give nulls of that type, not neighbouring memory.",
  "inputs", "all collections, positions (negative, beyond the end, null, repeated) and lengths including zero",
  "tests use in-range positions on few types",
  "core/items.c core/compose.c core/rayforce.c", [("at_idx/at_ids/at_obj", "core/rayforce.c at_idx"), ("take, concat, raze, filter", "core/items.c core/compose.c")]),
p("P14", "Work split between threads gives the same result as one thread",
  "For columns of any length, whatever the number of threads, every query, aggregate, grouping, sort, search, join and element-wise operation gives the result its definition gives, which is the one a single thread computes: no row is lost, counted twice, read from beyond the end or placed out of order at the boundaries where the column was divided.",
  "inputs schedules", "all column lengths, types, contents, thread counts and interleavings of the workers",
  "columns are divided only from 16384 elements on, at positions that depend on length, element size and thread count; tests use short columns, or check a count on a long one",
  "core/pool.c core/index.c core/aggr.c core/math.c core/cmp.c core/logic.c core/filter.c core/sort.c core/join.c core/items.c",
  [("division into chunks", "core/pool.c pool_split_by_mem pool_chunk_aligned pool_map"), ("partial workers and merging of their results", "core/aggr.c core/index.c core/math.c core/cmp.c")],
  state=[("task queue", "chunks (length, offset) handed to workers and the results collected in order", "core/pool.c pool_t")]),
p("P15", "Serialization round-trips, and damaged messages are refused",
  "ser of a value gives the bytes the message format defines for it, and de gives the value back, with types, nulls, order, nesting and functions' behaviour intact; a value holding something without a serialized form is refused, not written in part. de of any other bytes (truncated, altered, with lengths that do not fit, nested without end, halves of a table that do not belong together, not bytes at all) is an error that leaves the process and its variables as they were.",
  "inputs", "all values built from atoms, vectors, lists, dictionaries, tables and functions; all byte sequences, in particular every truncation and alteration of a message",
  "tests round-trip a few values and never decode a damaged message; decoding handles lengths taken from its input",
  "core/serde.c", [("size, encode, decode", "core/serde.c size_obj/ser_raw/de_raw"), ("message header", "core/serde.c ser_obj/de_obj")],
  state=[("payload", "bytes of the value after the 16 byte header", "core/serde.c")]),
p("P18", "Memory handed out is nobody else's, and keeps its contents",
  "The allocator never hands out memory that overlaps a block in use, on whichever thread's heap either was allocated, lent, freed or taken back; a block keeps its contents until it is given back, reallocating it carries over as much of them as fits the new size, and no memory is lost or listed twice.",
  "histories schedules", "all histories of allocation, reallocation and release, of all sizes, on several heaps, with blocks released by other threads, and with lending and taking back around parallel runs",
  "an error in splitting, merging or accounting shows only when two particular blocks meet, usually as corruption somewhere else; tests allocate a few blocks on one heap",
  "core/heap.c core/pool.c", [("allocation, merging of buddies, small-block stacks", "core/heap.c heap_alloc heap_free heap_realloc"), ("lending and taking back", "core/heap.c heap_borrow heap_merge heap_gc")],
  state=[("free lists", "by order, with the owning heap in the header of every free block", "core/heap.h heap_t block_t"), ("small-block stacks", "freed blocks of orders 5..9", "core/heap.h slab_cache_t"), ("foreign blocks", "freed by a heap that does not own them", "core/heap.h heap_t")],
  tech="design specification Buddy.tla model-checked (several configurations; the design as found must fail); operation sequences generated from it by TLC, and long seeded histories, replayed on the real allocator and the recorded addresses and contents checked against HeapTrace.tla",
  note="the model is exhaustive for small pools, few heaps and blocks; replayed histories are samples, one thread at a time"),
p("P26", "A parallel run executes every task once and returns every result",
  "When tasks are handed to the worker pool and run, each of them is executed exactly once, after the run starts and before it returns; the results come back in the order the tasks were added, a failing task makes the run return an error, runs do not mix however late workers wake, and every run and the shutdown of the pool terminate.",
  "schedules histories", "all interleavings of the main thread and the workers, all numbers of tasks, threads and consecutive runs",
  "a race shows only when one thread is stopped between two particular instructions; tests run whatever schedule the machine happens to give",
  "core/pool.c core/thread.c core/atomic.c", [("task and result queues", "core/pool.c mpmc_push mpmc_pop"), ("worker loop", "core/pool.c executor_run"), ("run protocol", "core/pool.c pool_prepare pool_add_task pool_run")],
  state=[("run", "tasks of it, done tasks, workers on it", "core/pool.h pool_t"), ("queues", "ring buffers with a sequence number per cell", "core/pool.h mpmc_t")],
  tech="design specification Pool.tla model-checked for safety and termination (the design as found must fail); schedules generated from it by TLC, and seeded ones, replayed on core/pool.c under a deterministic scheduler that interposes its locks, condition variables and atomics, and the recorded behaviour checked against PoolTrace.tla",
  note="the model is exhaustive for 2-3 workers and up to 5 tasks; replayed schedules are samples, switching at synchronisation operations under sequential consistency"),
p("P23", "A text is one symbol, for every thread and for good",
  "However many threads turn texts into symbols at the same time, equal texts always give the same symbol and different texts different ones; from the moment a thread has a symbol its name and length are those of its text and stay so; the empty text is the null symbol; symbols are numbered without gaps, and every call returns.",
  "schedules histories", "all interleavings of any number of threads interning texts of any lengths, in chains of any length, across every extension of the pool of names",
  "two threads that intern the same new text at the same moment, or fill up a page of names together, are not something a test can arrange; all tests intern on one thread",
  "core/symbols.c", [("finding and inserting", "core/symbols.c symbols_intern"), ("pool of names", "core/symbols.c string_intern"), ("names of symbols", "core/symbols.c str_from_symbol symbol_strlen")],
  state=[("symbol table", "chains of nodes, a lock in the head of a chain, number of symbols, names by number", "core/symbols.h symbols_t"), ("pool of names", "cursor and committed end", "core/symbols.h symbols_t")],
  tech="design specification Symbols.tla model-checked for agreement, names, density and termination (five design errors must be found); schedules generated from it by TLC, and seeded ones, replayed on core/symbols.c under a deterministic scheduler that may switch threads at every load, store and atomic access, and the recorded answers checked against SymTrace.tla",
  note="the model is exhaustive for 2-3 threads and up to 3 texts each; replayed schedules are samples under sequential consistency"),
p("P17", "Tables written as csv texts and read from them are the same tables",
  "read-csv makes of a text, for given column types and separator, exactly the table its lines mean: one row per line, in order, however lines and the text end and however many threads read it; a quoted field stands for what is between its quotes, a doubled quote for one, an empty field for null; a line with fewer fields, or with a quote that does not end, gives an error and no table. What write-csv writes means the table it was given, for every column type, value and separator, and is read back as that table.",
  "inputs", "all texts of lines without line breaks inside fields, all field types and separators, any number of rows and threads; all tables with columns of the twelve types; forms of single fields the specification leaves open (numbers beyond their type, trailing text) only must not crash",
  "a file is cut at places that depend on its length and the number of threads, and the fields that matter - empty, quoted, with the separator in them, at the end of a file without line end - are rare in any sample; no test reads or writes a csv file",
  "core/io.c core/string.c core/date.c core/time.c core/timestamp.c", [("lines and fields", "core/io.c io_build_line_index parse_csv_range parse_csv_line parse_csv_field"), ("reading with threads", "core/io.c io_read_csv ray_read_csv"), ("writing", "core/io.c ray_write_csv csv_field_to_str")],
  tech="texts of tables as recursive operators in TLA+ (Csv.tla on Text.tla), laws model-checked over all short texts; seeded files and tables given to the engine, on one and several threads, and the tables it reads and the texts it writes checked by TLC against CsvTrace.tla",
  note="exhaustive laws for texts of up to 5 (6) characters; files are seeded samples, long ones are compared by their number of rows and a sample of them, next to where threads cut the file"),
p("P20", "Messages between processes are delivered complete, in order, once, and answered by their own answers",
  "A serving engine evaluates every message of a connection exactly once and in the order sent, and answers each synchronous one with its own result, in order, however messages are split on the way and however slowly a peer reads; pushed messages arrive in the order they were written; a waiting caller gets the response to its own request, evaluates and answers the peer's messages that come first, and the value that arrives is the value that evaluating locally would have given; all this for payloads of any size.",
  "histories schedules", "all sequences of messages on several connections, of all sizes, all ways the bytes are split and delayed in both directions, all speeds of the readers",
  "a lost wakeup, a dropped queue entry or a mismatched answer needs output waiting for a slow reader, or particular messages crossing on the wire; tests talk to an idle server with small messages",
  "core/ipc.c core/epoll.c core/poll.c core/sock.c core/io.c", [("reading and answering", "core/ipc.c ipc_read_header ipc_read_msg ipc_on_data ipc_send_msg"), ("waiting for a response", "core/ipc.c ipc_send core/epoll.c poll_block_on"), ("event loop and output queue", "core/epoll.c poll_run poll_recv poll_send core/poll.c poll_send_buf")],
  state=[("connection", "partial input, queued output, waiting request", "core/poll.h selector_t"), ("handles", "free list of connections", "core/freelist.c")],
  tech="design specifications Ipc.tla (server) and IpcCall.tla (caller) model-checked for safety and delivery (the designs as found must fail); behaviours generated from them by TLC, and seeded ones, replayed on a real server and a real caller over loopback and the recorded events checked against IpcTrace.tla and IpcCallTrace.tla; sessions evaluated remotely checked against the evaluator (SessionTrace.tla)",
  note="the models are exhaustive for 1-3 connections and a few messages; replayed behaviours are samples of what a loopback network does"),
p("P21", "Connections do not disturb each other, whatever a peer sends and whoever closes",
  "Closing a connection, by its peer, by the server, from its own message or from another's, once or twice, in the middle of messages or of output, and malformed handshakes, headers and payloads, end that connection at most: the server goes on answering the others correctly, no open connection ever shares its handle with another, the open and close callbacks run once each in order, and every closed connection gives its socket back.",
  "histories schedules inputs", "all sequences of opening, closing and malformed input on several connections, at every point of their traffic",
  "use after free and handle reuse show only when another connection opens between two particular steps of a closing one; tests close idle connections",
  "core/ipc.c core/epoll.c core/poll.c core/freelist.c core/io.c", [("closing", "core/epoll.c poll_deregister core/ipc.c ipc_on_close core/io.c ray_hclose"), ("handle allocation", "core/freelist.c freelist_push freelist_pop"), ("malformed input", "core/ipc.c ipc_read_handshake ipc_read_header")],
  state=[("handles", "free list of connections", "core/freelist.c"), ("callbacks", ".z.po .z.pc", "core/ipc.c ipc_call_usr_cb")],
  tech="design specification Ipc.tla model-checked with closing connections and handle reuse (the designs as found must fail); seeded histories of opening, closing, killing and malformed input replayed on a real server over loopback and the recorded events checked against IpcTrace.tla",
  note="replayed histories are samples; header sizes between what memory allows and what is refused outright are not sent"),
p("P22", "Timers fire on time, in order, as often as asked, until removed",
  "A timer's callback runs once for every interval that has passed since it was made, as many times as asked (0: without end), with the current time as its argument; of several timers that are due the one due earliest runs first; the number returned names that timer and no other, and removing it ends it, from outside or from any callback, its own included; callbacks that add timers, remove timers or fail disturb no other timer; and while it is idle the event loop waits no longer than until the next timer is due.",
  "histories", "all sequences of adding and removing timers (from outside and inside callbacks) with any intervals and counts, and all ways time passes between",
  "the order in which an array heap yields timers, and which one a removal takes out, depends on the whole history of additions, expiries and removals; tests do not run the event loop",
  "core/chrono.c core/chrono.h core/epoll.c", [("timer heap", "core/chrono.c timer_push timer_pop timer_up timer_down timer_del"), ("firing", "core/chrono.c timer_next_timeout"), ("waiting", "core/epoll.c poll_run")],
  state=[("timers", "heap of timers ordered by expiry time", "core/chrono.h timers_t")],
  tech="design specification Timers.tla model-checked (without any one of the five repairs it must fail); behaviours generated from it by TLC, and seeded ones, replayed in the real event loop under a scripted clock and the recorded events checked against TimerTrace.tla",
  note="the model is exhaustive for up to 3-7 timers; replayed histories are samples; the clock stands still while callbacks run"),
p("P16", "What is stored is what is read, in this process or any other",
  "A vector, list or table written to a file, and a splayed table written to a directory with its own or a shared symbol file, reads back equal, by whichever process reads it and whatever that process has read before; queries, joins, updates and inserts on values read from disk give what they give on the same values in memory; writing a file again changes what is read from it afterwards and nothing that was read before; and a shared symbol file only grows, so that tables stored earlier keep their symbols.",
  "histories", "all sequences of writing, reading, copying, overwriting and querying stored values, in several processes that take turns, with any contents; not two processes writing the same files at once",
  "values read are mappings of files and enumerations over one variable of the process, so what a value means depends on every file written and read since; tests store one table and read it back in the same process",
  "core/io.c core/binary.c core/unary.c core/vary.c core/fs.c core/mmap.c core/index.c core/items.c", [("splayed tables", "core/io.c io_set_table_splayed io_get_table_splayed io_bind_syms"), ("files", "core/binary.c binary_set core/unary.c ray_get core/fs.c fs_fcreate"), ("enumerations", "core/unary.c ray_value core/util.h ENUM_VAL")],
  state=[("files", "paths and the inodes they name, mapped by values read", "core/fs.c"), ("symbol files", "symbols that enumerations index, own or shared", "core/io.c"), ("sym", "the symbols of the process's enumerations", "core/io.c io_bind_syms")],
  tech="design specification Storage.tla model-checked (without any one of four cares it must fail); behaviours generated from it by TLC replayed in engines that take turns, and seeded sessions over files; every read and query checked against the evaluator (SessionTrace.tla), in which a file is a variable",
  note="replayed histories are samples; concurrent writers and crashes are outside the promise"),
p("P27", "Partitioned tables answer queries like the same rows in memory",
  "A table stored as one splayed table per day and read as a partitioned table answers selection, projection and aggregation - with conditions on the date and on columns, combined by and and or, and grouped by date - with exactly the values the same query gives on the rows of all partitions in date order with a Date column.",
  "inputs", "all numbers and sizes of partitions, all supported column types, conditions, aggregates and groupings by date; queries the engine refuses on partitioned tables (in, within and last of symbols on stored columns) are left open",
  "the answers are put together from partitions, some of which a condition excludes, keeps whole or cuts, and every combination of aggregate, type and such a cut takes a path of its own; tests use one small database",
  "core/aggr.c core/filter.c core/query.c core/cmp.c core/vary.c core/group.c", [("reading", "core/vary.c ray_get_parted"), ("aggregates", "core/aggr.c parted_sparse parted_aggr"), ("conditions", "core/cmp.c core/logic.c"), ("projection", "core/query.c select_apply_mappings")],
  tech="executable semantics in TLA+ (Values, Ops, Eval), which know nothing of partitions; queries over partitioned tables on disk recorded from the engine, in the writing process or another, checked by TLC against SessionTrace.tla",
  note="seeded samples; rows and partitions are small"),
p("P24", "The reader and the printer agree with the language's grammar, for every text",
  "Every text - well formed, cut short, or of arbitrary characters - reads as exactly the value its grammar gives it or as an error, without crashing, hanging or looking past its end; every value prints as the text that its type prescribes, a template is filled with as many values as it has places or refused, and what is printed without loss is read back as the same value.",
  "inputs", "all texts of characters 1..255 and all values of atomic types, vectors, lists and dictionaries up to the width of a line; numbers beyond 64 bits, dates that do not exist and a few forms the specification leaves open only must not crash",
  "the reader decides by looking ahead, character by character, in the order its alternatives are tried, so what breaks is a text nobody thought of; tests read the texts their author wrote",
  "core/parse.c core/string.c core/format.c", [("reader", "core/parse.c parser_advance parse_number parse_timestamp parse_string parse_char parse_symbol parse_vector parse_list parse_dict parse_do"), ("numbers", "core/string.c i64_from_str f64_from_str u8_from_str"), ("printer", "core/format.c obj_fmt_into obj_fmt_n f64_fmt_into")],
  tech="grammar and printer as recursive operators in TLA+ (Text.tla), laws model-checked over all texts of up to 4 characters of a small alphabet; all short texts, seeded and damaged texts and values given to the engine and its answers checked by TLC against TextTrace.tla",
  note="exhaustive for short texts over 17 characters (length 3 quick, 4 thorough); longer texts are seeded samples"),
p("P25", "Dates, times and timestamps are the Gregorian calendar's",
  "A date prints as the year, month and day that its number of days since 2000.01.01 means in the Gregorian calendar, before and after 2000, in leap years and at their ends; times and timestamps print and read to the nanosecond, also before 2000; texts in the formats the casts accept (with dots, dashes, T or space, fractions and zones) give the day, time or instant they name, and a text that names none gives null.",
  "inputs", "all days of years 1 to 9999, all times and instants of the 64-bit range, all texts of the accepted formats; days beyond the end of a month and other unchecked forms are left open",
  "calendar arithmetic goes wrong on single days (leap days, year ends, days before the epoch) among millions; tests look at a few",
  "core/date.c core/time.c core/timestamp.c core/format.c core/parse.c", [("days and dates", "core/date.c date_from_i32 date_into_i32"), ("texts", "core/date.c date_from_str core/time.c time_from_str core/timestamp.c timestamp_from_str timestamp_from_str_iso"), ("instants", "core/timestamp.c timestamp_from_i64 timestamp_into_i64")],
  tech="the calendar in TLA+ (Text.tla) with its bijection and successor laws model-checked day by day; days, times, instants and texts given to the engine and its answers checked by TLC against TextTrace.tla",
  note="thorough covers every day within 150000 days of the epoch; other days, instants and texts are seeded samples"),
p("P28", "Patterns match what they describe, and splitting loses nothing",
  "like answers whether the whole string matches the pattern - * any run, ? any character, [..] one of, [^..] none of - for a string or each string of a list, whatever combination of stars and classes; split cuts a string at every leftmost occurrence of the separator, so the parts put together again give the string.",
  "inputs", "all strings and patterns, all separators of one or more characters",
  "a matcher that goes back to the last star fails only for patterns whose stars and literals overlap in particular ways; tests use a handful of patterns",
  "core/string.c core/items.c core/cmp.c", [("patterns", "core/string.c str_match"), ("splitting", "core/string.c str_split")],
  tech="patterns and splitting as recursive operators in TLA+ (Text.tla), laws model-checked; all small strings and patterns, and seeded longer ones, given to the engine and its answers checked by TLC against TextTrace.tla",
  note="exhaustive for strings of up to 3 (4) and patterns of up to 3 (5) characters over two letters and the special characters"),
p("P19", "Memory in use is what the globals hold: whatever is evaluated gives back what it took",
  "After a program whose result nobody keeps has run, successfully or with an error at any point, with one worker or with several, the bytes in use are what they were before whenever the global variables hold what they held before: repeating a program any number of times uses no more memory than running it once.",
  "inputs histories", "all programs and all points at which they fail, repeated any number of times",
  "a reference forgotten on one path shows only as memory slowly growing; tests never look at memory in use",
  "core/rayforce.c core/heap.c core/eval.c core/env.c core/math.c core/query.c core/update.c core/join.c core/items.c core/compose.c core/iter.c core/serde.c core/pool.c", [("reference counts", "core/rayforce.c drop_obj clone_obj cow_obj copy_obj"), ("evaluation stack and unwinding", "core/eval.c vm_eval call vm_error_unwind"), ("error locations", "core/eval.c bc_error_add_loc eval_error_add_loc"), ("accounting", "core/heap.c heap_memstat heap_merge")],
  state=[("values", "reference count of each value, its owners", "core/rayforce.h obj_t"), ("heaps", "free blocks of every thread's heap", "core/heap.h heap_t")],
  tech="design specification Rc.tla (ownership, counting, copy on write, failing operations) model-checked: counts are owners, live is reachable, no other global changes (three deviations must fail); its law - memory is a function of the globals - checked by TLC (MemTrace.tla) on the bytes in use recorded from the real engine while seeded nested programs and the statements of every other generator are repeated, with 1, 3, 4 and 8 threads",
  note="Rc.tla is exhaustive for 3-4 values; the programs are samples; memory outside the engine's heaps (mapped files, malloc) is not counted"),
]

def main():
    sys.path.insert(0, ".")
    from check import registry
    reg = registry()
    have = [x for x in PROPS if x["id"] in reg]
    miss = [i for i in reg if i not in {x["id"] for x in PROPS}]
    if miss: print("no text for", miss)
    with open("properties.jsonl", "w") as f:
        for x in have:
            f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 /verif/check.py setup",
         "checks": [{"property": x["id"], "quick_cmd": "python3 /verif/check.py %s quick" % x["id"],
                     "thorough_cmd": "python3 /verif/check.py %s thorough" % x["id"],
                     "technique": "TLA+/TLC: " + (x["_tech"] or SEM), "level": x["_level"], "level_note": x["_note"] or SEMN} for x in have],
         "not_applicable": []}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    from importlib import import_module
    import shutil
    print(len(have), "properties; untexted", [x["id"] for x in PROPS if x["id"] not in reg])

main()
