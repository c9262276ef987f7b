# The properties, their anchors and the notes of their checks.
BASE = ("Every path of the listed harnesses within the stated bounds is decided by the solver; counterexamples are replayed natively before they are reported. "
        "Trusted: the symbolic executor (cross-checked by replaying sampled paths natively), the models of the storage backend and of the file system, the solvers. ")
PROPS = [
 dict(id="C01", title="Key field encodings preserve order and never collide",
  statement="For every pair of values of a key field type (int16/32/64, uint16/32/64, byte, big integer within its declared width, string, bytes) the encoded field compares bytewise exactly as the values compare, and equal encodings mean equal values. The same holds field by field for keys of several fields where only the last one may have variable length. Encoding never changes the value passed by the caller.",
  over=["inputs"], quant="all pairs of values of every field type, alone and in two- and three-field keys",
  why="The tests compare a few hand-picked pairs per type; sign changes, the extreme values and carries between fields are almost all unsampled.",
  files=["keys.go"], mech=[("sign byte plus complemented magnitude", "keys.go AddInt64Field, AddInt32Field, AddInt16Field, AddBigIntField"), ("field id prefix", "keys.go putFieldID")],
  obs=["KeyBuilder.Bytes"], note=BASE + "Scalars: all values. Strings/bytes: lengths up to the bound. Big integers: two widths."),
 dict(id="C02", title="Descending index order reverses ascending order, inputs untouched",
  statement="For every order field type, encoding in descending mode compares bytewise exactly opposite to the values (for byte strings of equal length), ascending mode exactly as the values. Building an order key never changes the value passed by the caller.",
  over=["inputs"], quant="all pairs of values of every order field type in both modes",
  why="Tests order a handful of rows; the extreme values and the caller's own buffers are not looked at.",
  files=["index.go"], mech=[("negation / complement before encoding", "index.go OrderInt64 ... OrderBigInt")],
  obs=["IndexOrder.Bytes"], note=BASE + "The smallest value of each signed type in descending mode is a listed known finding."),
 dict(id="C03", title="Keys decode to exactly what was encoded",
  statement="Encoding a key from its table, index, index value, order value and primary key and decoding it again returns the same five parts, and the accessors on the raw key agree with the decoded parts. Deriving the row key from an index key yields exactly the key under which that row is stored, and the key prefix ends exactly where the index value ends.",
  over=["inputs"], quant="all ids, all part contents up to the bounded lengths, with and without reused buffers",
  why="Round trips are tested on single examples with fixed lengths.",
  files=["keys.go", "index.go"], mech=[("length-prefixed parts", "keys.go KeyEncode, KeyEncodeRaw, KeyDecode"), ("row key extraction", "keys.go ToDataKeyBytes"), ("prefix split", "keys.go _KeyPrefixSplitIndex")],
  obs=["KeyEncode", "KeyDecode", "KeyBytes accessors"], note=BASE + "Part lengths up to the bound; keys with an empty primary key are prefixes and only their prefix is compared."),
 dict(id="C04", title="Tables and indexes never see each other's rows",
  statement="Operations on one table or index never return, change or remove rows or entries of another table or index of the same database, whatever their numeric ids. Range, point and full scans of a table or index stay inside it.",
  over=["inputs", "configurations"], quant="all pairs of distinct table ids and index ids, all rows",
  why="Tests use one or two fixed ids, never the extreme ones or neighbours.",
  files=["table.go", "index.go", "keys.go"], mech=[("key prefix and successor bounds", "table.go keyPrefix, keySuccessor"), ("data key space bounds", "table.go NewTable"), ("reindex range delete", "table.go ReIndex")],
  obs=["Table.Scan", "Table.ScanIndex", "Table.Get"], note=BASE),
 dict(id="C05", title="Writes behave like a map from primary key to row",
  statement="Insert fails without effect if a key already exists or repeats in the call, update fails without effect if a key is missing, upsert stores the result of the conflict function applied in call order, delete removes the rows; a repeated key in an update keeps the last row. After any sequence of such calls, point reads, multi-point reads, existence checks and scans return exactly the rows of that map.",
  over=["histories", "inputs"], quant="all row contents, all key coincidences between stored and written rows and within one call, operations of one to four rows including calls larger than the internal round size",
  why="Tests run fixed sequences with distinct increasing keys; coincidences of keys within a call, unsorted input and round boundaries are unsampled.",
  files=["table.go", "table_unsafe.go"], mech=[("existence check and ordered processing", "table.go Insert, Update, Upsert, Delete"), ("batched rounds", "table.go batched")],
  obs=["Table.Get", "Table.GetPoint", "Table.Exist", "Table.Scan"], note=BASE + "Internal round size scaled to 3 rows. Up to 3 stored rows and 4 written rows per call."),
 dict(id="C06", title="Secondary indexes always hold exactly the rows they should",
  statement="After any sequence of inserts, updates, upserts and deletes of stored rows, every secondary index yields exactly the rows of the table that satisfy its filter, once each, ordered by index value, order value and primary key. No entry survives the row or the value it was created for.",
  over=["histories", "inputs"], quant="all row contents including changes in and out of the index filter, of the indexed value and of the order value, sequences of up to three calls",
  why="Tests check index contents after single fixed updates; combinations of filter transitions and repeated keys are unsampled.",
  files=["index.go", "table.go", "table_unsafe.go"], mech=[("index maintenance on write", "index.go OnInsert, OnUpdate, OnDelete")],
  obs=["Table.ScanIndex", "Query.With"], note=BASE + "Three index shapes: plain, filtered with descending order, order only. Deleting with a row that differs from the stored one in indexed fields is a listed known finding."),
 dict(id="C07", title="Point selectors return exactly the matching rows",
  statement="A point selector on an index returns exactly the rows with that index value at or after the point's order value and primary key; a list of points returns the concatenation of its points in list order, and on the primary key exactly the listed rows. Reverse scans return the same rows in opposite order.",
  over=["inputs", "configurations"], quant="all stored rows and all selector values, up to three points, both directions, fixed-width keys",
  why="Selector tests use small increasing numbers; values whose bytes are 0xFF or zero, empty lists and repeated values are unsampled.",
  files=["index.go", "iter.go", "selector.go"], mech=[("iteration bounds", "index.go Iter"), ("chained iterators", "iter.go _iteratorMulti")],
  obs=["Table.ScanIndex", "Table.Get"], note=BASE),
 dict(id="C08", title="Range selectors are inclusive and exact",
  statement="A range selector on an index returns exactly the rows between its two ends in index order, both ends included, and nothing when the ends are out of order; a list of ranges returns their concatenation in list order. Reverse scans return the same rows in opposite order.",
  over=["inputs", "configurations"], quant="all stored rows and range ends, up to two ranges, both directions, fixed-width keys",
  why="Range tests use small increasing numbers and never ends whose bytes carry.",
  files=["index.go", "iter.go", "table.go"], mech=[("inclusive upper bound", "index.go Iter, table.go keySuccessor")],
  obs=["Table.ScanIndex", "Table.Get"], note=BASE),
 dict(id="C09", title="Queries equal filter, order, skip and take over the selection",
  statement="A query returns exactly the rows its selector yields in scan direction, kept if the filter accepts them, sorted by the order function if one is given, then without the first offset rows and cut to the limit. This holds for every combination of the options and every offset and limit value.",
  over=["inputs", "configurations"], quant="all rows, filters, order functions, offsets and limits (64 bit), both directions, primary and secondary indexes",
  why="Tests check some option combinations on fixed rows; combinations and large offsets or limits are unsampled.",
  files=["query.go"], mech=[("early offset and limit", "query.go executeQuery")],
  obs=["Query.Execute"], note=BASE),
 dict(id="C10", title="Paging with After visits every row exactly once",
  statement="Executing a query again with After set to the last row received continues with exactly the rows that follow it in the order of the query, so pages of any size concatenate to the full result without gaps or repetitions. This holds for every selector kind, both directions, ordered queries and intersections.",
  over=["inputs", "configurations"], quant="all rows, all positions of the after row, all page sizes, every selector kind, both directions",
  why="Tests page through a few fixed lists forward.",
  files=["query.go"], mech=[("selector continuation", "query.go selectorWithAfter")],
  obs=["Query.After"], note=BASE + "The after row is a row of the result; list selectors whose elements do not overlap."),
 dict(id="C11", title="Intersections return exactly the common rows",
  statement="An intersection of queries returns exactly the rows selected by all of them, once each, in primary key order (opposite if reversed), with filter, order, offset and limit applied as for plain queries. A query can be extended into several intersections without affecting one another.",
  over=["inputs", "configurations"], quant="all rows and selector values, two and three intersected queries, all option combinations",
  why="Tests intersect fixed rows with a few options.",
  files=["query.go", "index.go"], mech=[("key set intersection", "index.go Intersect"), ("result assembly", "query.go executeIntersect")],
  obs=["Query.Intersects"], note=BASE),
 dict(id="C12", title="Read-write batches see their own writes, others see none",
  statement="Reads, scans, queries and intersections through a read-write batch return exactly the committed rows with the batch's own writes applied. Nobody else sees any of it until the batch is committed, then all of it; a batch closed without commit leaves no trace.",
  over=["histories", "inputs"], quant="all rows, all write operations on the batch, all read paths",
  why="Tests check a few read paths with distinct keys.",
  files=["batch.go", "bond.go", "table.go", "index.go", "query.go"], mech=[("batch passed to every read", "table.go, index.go, query.go")],
  obs=["every read with a batch argument"], note=BASE),
 dict(id="C13", title="A failed or interrupted write leaves the table as it was",
  statement="If a write operation returns an error, for instance because any single storage operation fails or the context ends, the stored rows and index entries are as before the call; if the process stops at any point and the database is reopened, each completed write is present in full and the interrupted one in full or not at all. Rows and indexes always agree.",
  over=["crash_points", "fault_sequences", "inputs"], quant="every storage operation of the call as the failing or the last one, all rows",
  why="No test injects a storage error or stops in the middle of a call.",
  files=["table.go", "table_unsafe.go", "batch.go"], mech=[("one batch per call, committed synchronously", "table.go Insert, Update, Upsert, Delete")],
  obs=["scans after the failure or after reopening"], note=BASE + "One fault or one crash per run; unsynced writes are lost at a crash."),
 dict(id="C14", title="Storage read errors are reported, never mistaken for missing data",
  statement="If a storage read fails during any read, query, scan, write or reindex, the operation returns an error instead of a partial or empty result or a change based on it. After the error the database remains usable.",
  over=["fault_sequences", "inputs"], quant="every read operation of the call as the failing one, every public read and write path",
  why="No test injects a read error.",
  files=["table.go", "index.go", "iter.go", "query.go", "bond.go"], mech=[("iterator error checks", "table.go get, exist; index.go Intersect; iter.go")],
  obs=["returned error"], note=BASE + "One fault per run. Exist has no error result and is excluded."),
 dict(id="C15", title="Batch callbacks run exactly when their event happens",
  statement="Commit callbacks run before the batch is written and an error from one prevents the write; committed callbacks run once and only after a successful commit, error callbacks only when the write fails, close callbacks once at close. Resetting a batch drops its content and callbacks and gives it a new id.",
  over=["histories", "fault_sequences"], quant="all sequences of up to four batch operations with success or failure at each",
  why="Tests register one callback on the success path.",
  files=["batch.go"], mech=[("notify functions", "batch.go")],
  obs=["callback invocations"], note=BASE),
 dict(id="C16", title="Generated sequence numbers never repeat",
  statement="Successive numbers from one sequence generator are strictly increasing whatever the wall clock does, and concurrent callers never receive the same number. Exhausting a second's numbers is an error, not a repetition. A number decodes to the second it was given in (at least the clock's, at most the latest seen) and its place in that second.",
  over=["inputs", "schedules"], quant="all clock readings, any previous state, two concurrent callers in every interleaving",
  why="Tests use the real clock.",
  files=["helpers.go"], mech=[("last id under mutex", "helpers.go NumberSequence.Next")],
  obs=["NumberSequence.Next, Timestamp, SequenceNumber"], note=BASE + "Clock readings between 1970 and 2242 (40 bits of seconds)."),
 dict(id="C17", title="A filter never changes what a table returns",
  statement="A table with a filter returns the same results, errors and effects as one without, for any filter that never denies a key it was given, including keys written through batches. A filter that is still being initialised answers maybe, and after initialisation it has been given every stored key.",
  over=["histories", "inputs", "configurations"], quant="all filter answers allowed by the contract, all rows and operations",
  why="Tests use one bloom filter and check that it is called.",
  files=["table.go", "filter.go"], mech=[("add on write, check before read", "table.go"), ("initialisation scan", "filter.go FilterInitialize")],
  obs=["table reads and writes with a filter"], note=BASE + "The filter is an adversary: for keys it was not given the solver picks the answer."),
 dict(id="C18", title="The bloom filter never denies a key it was given",
  statement="Once a key has been added, the bloom filter answers maybe for it, also after saving and loading, clearing the store, adding more keys in any order, and adding concurrently. Loading from a store that does not match the configuration or misses parts is an error.",
  over=["inputs", "histories", "schedules"], quant="all keys up to the bounded length, sequences of add, save, load and clear, two concurrent adders in every interleaving",
  why="Tests add random keys once and save once.",
  files=["bloom/bloom_filter.go"], mech=[("bucket selection by hash", "bloom/bloom_filter.go hash"), ("change tracking", "bloom/bloom_filter.go Save, Load")],
  obs=["MayContain"], note=BASE),
 dict(id="C19", title="Reindexing rebuilds exactly the requested indexes",
  statement="Reindexing makes each given index hold exactly the entries for the current rows, whatever it held before, and leaves rows and other indexes untouched. Adding an index with reindexing makes it immediately complete.",
  over=["inputs", "configurations"], quant="all rows, all stale entries, all index ids, batch boundaries inside the run",
  why="Tests reindex a fixed table with one index id.",
  files=["table.go"], mech=[("range delete and rebuild", "table.go ReIndex")],
  obs=["index scans after reindexing"], note=BASE + "Reindex batch size scaled to 2 rows."),
 dict(id="C20", title="Dump and restore reproduce the requested tables exactly",
  statement="Restoring a dump into a fresh database yields exactly the dumped rows of the requested tables, with their index entries if requested and without them otherwise, and nothing of other tables. The dump is a consistent snapshot and restoring a missing table is an error. The command line program dumps and restores the tables it is given, and refuses numbers that are no table ids.",
  over=["inputs", "configurations"], quant="all table ids and index ids (including ids whose decimal names are prefixes of each other), all rows, file splits",
  why="Tests dump two fixed tables in one directory.",
  files=["bond.go", "cmd/bond-cli/dump.go", "cmd/bond-cli/restore.go"], mech=[("per table directories", "bond.go Dump, Restore"), ("index discovery", "bond.go getIndexIDS"), ("commands", "cmd/bond-cli/dump.go, restore.go")],
  obs=["scans of the restored database"], note=BASE + "The sstable writer and ingestion are modelled."),
 dict(id="C21", title="Opening keeps data and refuses incompatible databases",
  statement="Closing and reopening a database with the same options keeps every committed row, and opening with a different storage format version or a database of another data version fails without changing or locking it. Migration makes the database open at the new format version.",
  over=["configurations", "histories"], quant="all recorded versions and requested versions, all rows",
  why="Tests cover one upgrade.",
  files=["bond.go", "version.go"], mech=[("format file", "bond.go Open, MigratePebbleFormatVersion"), ("data version key", "version.go")],
  obs=["Open"], note=BASE),
 dict(id="C22", title="Scan callbacks see each row's own key and value",
  statement="A scan calls back once per selected row in order with that row's key; reading the row in the callback returns that row no matter how often or whether it was read before, and stopping or failing in the callback ends the scan. Untyped scanners behave the same as the typed ones they wrap.",
  over=["inputs", "configurations"], quant="all rows, all patterns of reading or skipping rows in the callback, prefetch boundaries, batches",
  why="Tests always read every row exactly once.",
  files=["table.go", "lazy.go", "table_utils.go"], mech=[("prefetch pages", "table.go scanForEachSecondaryIndex")],
  obs=["ScanForEach", "ScanIndexForEach"], note=BASE + "Prefetch size scaled to 2 rows."),
 dict(id="C23", title="Filter conditions are the boolean algebra they spell",
  statement="Every condition built from comparisons, and, or, not and functions evaluates to the value of the corresponding boolean expression over the record, for any nesting and any operands. Empty and is true, empty or is false. Conditions are evaluated from the left and only as long as the value is open, so one can guard those after it.",
  over=["inputs", "programs"], quant="all operand values of integer, string and byte slice type, all expressions up to depth two",
  why="Tests evaluate fixed examples.",
  files=["cond/cond.go"], mech=[("Eval methods", "cond/cond.go")],
  obs=["Cond.Eval"], note=BASE),
 dict(id="C24", title="Returned rows stay valid and buffers are never shared",
  statement="Rows and keys returned to the caller do not change through any later operation, and concurrent operations on a database never share a working buffer. A buffer taken from a pool is never held by two users at once and comes back empty; a buffer that belongs to the storage engine or to the caller never enters a pool.",
  over=["histories", "schedules"], quant="all orders of get and put by two users, all later operations on the database",
  why="Sharing shows only under particular interleavings or reuse patterns.",
  files=["utils/sync.go", "bond.go", "table.go"], mech=[("preallocated pools", "utils/sync.go"), ("key and value arrays", "bond.go getKeyArray")],
  obs=["contents of returned rows"], note=BASE),
 dict(id="C25", title="Index registration is all or nothing",
  statement="Adding indexes with an id that is already used or repeated fails and leaves the table with the indexes it had and fully usable. Successful additions take effect for every later write. Indexes added by several goroutines at once are all registered, of two with the same id exactly one, and no memory is accessed by two goroutines without synchronisation.",
  over=["inputs", "configurations", "schedules"], quant="all ids of existing and added indexes; two additions and a reader in every interleaving within a preemption bound",
  why="Tests add distinct ids.",
  files=["table.go"], mech=[("registration under lock", "table.go AddIndex")],
  obs=["AddIndex", "Indexes"], note=BASE),
 dict(id="C26", title="Serializers return what was stored and keep no residue",
  statement="Every bundled serializer reproduces the value it serialized, independent of what it serialized before and of pooled or shared buffers. Errors of the value's own encoder are returned, not swallowed. One serializer can be used by several goroutines at once.",
  over=["inputs", "histories"], quant="all values of small record types, sequences of two serializations, two concurrent users, with and without pools",
  why="Tests serialize one value per serializer.",
  files=["serializers/msgp.go", "serializers/cbor.go", "serializers/protobuf.go", "serializers/json.go", "serializer.go"], mech=[("pooled buffers", "serializers/msgp.go"), ("buffered encoder", "serializers/cbor.go")],
  obs=["Serialize, Deserialize"], note=BASE),
 dict(id="C27", title="The inspection interface reports what the tables hold",
  statement="The inspection interface lists the registered tables, indexes and entry fields and answers queries with exactly the rows that the corresponding table query returns, for tables of structs and of struct pointers. The HTTP handler with its client and the command line give the same answers. Unknown tables, indexes or fields, values of a type that does not fit their field, formats that are not offered and cancelled queries are errors, locally and over HTTP.",
  over=["inputs", "configurations"], quant="all rows, all operands, limits and rows to start after, any subset of fields in selector, filter and after, operands of the field's own or another convertible type, asked directly, over HTTP and from the command line",
  why="Tests issue a few requests with matching types against one table of pointers.",
  files=["inspect/inspect.go", "inspect/inspect_handler.go", "inspect/inspect_handler_client.go", "inspect/inspect_cli.go", "utils/reflect.go", "query.go"], mech=[("reflection over tables", "inspect/inspect.go Query, setFields"), ("entry fields", "inspect/inspect.go EntryFields"), ("HTTP", "inspect/inspect_handler.go NewInspectHandler, inspect/inspect_handler_client.go NewInspectRemote"), ("command line", "inspect/inspect_cli.go NewInspectCLI")],
  obs=["Inspect.Query", "Inspect.Tables", "Inspect.Indexes", "Inspect.EntryFields"], note=BASE + "Network transport and JSON text are modelled; operands that only convert with loss are left open."),
 dict(id="C28", title="Synchronised batches serialise their users",
  statement="Functions run through one synchronised batch never overlap, their effects on the batch are all kept, and an error or a panic reaches its own caller without blocking the others. A batch carried in a context is the one that is retrieved.",
  over=["schedules"], quant="two and three users in every interleaving within the preemption bound, success, error and panic",
  why="Interleavings are not controlled by tests.",
  files=["sync.go", "context.go"], mech=[("mutex", "sync.go WithSync")],
  obs=["WithSync"], note=BASE),
 dict(id="C29", title="The file based filter store keeps what was stored",
  statement="Reading a name from the file based filter store returns exactly the bytes last written under it until it is deleted, and reading an unknown name is an error. Deleting a filter's range removes all its entries.",
  over=["inputs", "histories"], quant="all contents, names of letters, digits, underscores and dots, sequences of writes, reads and deletions",
  why="Tests store one file.",
  files=["filters/filter_fs_storer.go"], mech=[("file per name", "filters/filter_fs_storer.go")],
  obs=["Get, Set, DeleteRange"], note=BASE + "Names that differ only in characters other than letters, digits, underscores and dots share a file."),
 dict(id="C30", title="Concurrent writers and readers keep tables consistent",
  statement="When several goroutines use a table at once, the final content is the content of some serial order of their calls on disjoint keys, indexes agree with rows, and every read returns rows that were stored at some time. No call deadlocks, and no memory is accessed by two goroutines without synchronisation.",
  over=["schedules", "inputs"], quant="two goroutines with one call each in every interleaving at lock, channel and storage operations within a preemption bound",
  why="Tests do not control the schedule.",
  files=["table.go", "bond.go", "utils/sync.go", "batch.go"], mech=[("per call batches and pools", "table.go")],
  obs=["scans after both finished"], note=BASE + "Preemption bound; calls on distinct keys."),
]
NA = {}
