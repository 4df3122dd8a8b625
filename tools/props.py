#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note))

T = "the tests append/query/call with a handful of fixed values"

p("C01", "Records appended to a chunk are read back unchanged, in order",
  "Whatever records are appended to a chunk, in however many batches, with the chunk growing or being closed and reopened in between, readers in both directions return exactly the records reported as written, with the ids assigned to them and byte-identical payloads, in ascending (descending) id order.",
  ["inputs", "histories"], "all payload lengths and contents, batch splits, growth points and reopen points within the stated sizes",
  "tests use fixed batch sizes with random payloads; offsets near block ends and the move of the meta section on growth are not covered",
  ["pkg/storage/chunkfs/chunk.go", "golibs/files/mmfile.go"], [("append, growth and meta layout", "chunk.go: AppendRecords, growForWrite, getMetaBuf"), ("readers", "chunk.go: ChunkReader")])
p("C02", "A chunk never exceeds its maximum size and takes every record that fits",
  "An append to a chunk writes the longest prefix of the records which fits below the configured maximum size, or, when not all of them fit into a chunk that already has records, nothing with an 'exhausted' error and no change at all; the chunk file never grows over the maximum and a failed append leaves the records readable.",
  ["inputs", "configurations", "histories"], "all sizes of records, free offsets, numbers of records and configurations of block counts within the bounds",
  "tests probe three sizes; the sum of payload, meta and header sizes at the boundary is not sampled", ["pkg/storage/chunkfs/chunk.go"],
  [("capacity accounting", "chunk.go: writable, available, growForWrite")])
p("C03", "A chunk reader starts exactly where it was positioned",
  "After positioning a chunk reader on any id, the records which follow are exactly those with an id not less (descending: not greater) than it, whether or not the id is present, and wherever the reader was before.",
  ["inputs", "histories"], "all ids relative to the stored ones, both directions, repeated positioning", "tests position on a few ids", ["pkg/storage/chunkfs/chunk.go"],
  [("binary search over meta records", "chunk.go: ChunkReader.SetStartID")])
p("C04", "Opening a chunk file of any content is safe and detects corruption",
  "Opening a chunk file, with whatever bytes in it, either gives an error or a chunk which can be appended to and all records of which can be read without a crash; with the full check on, an accepted chunk has ids in ascending order and payload ranges which lie one after another inside the file, none of them over the headers, and every file this software has written is accepted.",
  ["inputs"], "all contents of the header, counters and meta records of a chunk file within the bounds", "tests corrupt two or three bytes by hand", ["pkg/storage/chunkfs/chunk.go", "golibs/files/mmfile.go"],
  [("init and full check", "chunk.go: Open, init")])
p("C05", "Appending to a log stores each record once and accounts for it exactly",
  "An append to a log stores a prefix of the records given, in order and with growing ids, and reports exactly how many; all of them are stored as long as each fits into an empty chunk, and the log's chunk descriptors cover exactly the records stored, with right counts and first and last ids.",
  ["inputs", "histories"], "all sizes of records and sequences of appends within the bounds, including records too big for a chunk", "tests use equal sizes and never hit a record that does not fit in the remaining space of the last chunk",
  ["pkg/storage/logfs/locallog.go", "pkg/storage/chunkfs/chunk.go", "pkg/storage/chunkfs/provider.go"], [("append loop", "locallog.go: AppendRecords")])
p("C06", "A log query returns exactly the matching records, in order, within limits",
  "A query of a log returns, in the direction asked, the records at or after (before) the start id whose creation time satisfies the condition, none missing and none extra, cut only by the record and size limits; when it was cut it says that there may be more.",
  ["inputs", "histories"], "all record ids, start ids, comparison operators and constants (in nanoseconds), both directions, all limits", "tests query with a few times rounded to what they appended",
  ["pkg/storage/logfs/locallog.go", "pkg/storage/chunkfs/chunk.go", "pkg/ql/intervalbuilder.go", "pkg/intervals/intervals.go"], [("chunk selection and id ranges", "locallog.go: QueryRecords, getRanges, considerSIDAndDesc")])
p("C07", "A log count equals the number of records the same query would match",
  "Counting the records of a log gives as total the number of its records whatever the condition is, and as count the number of records at or after (before) the start id which satisfy the condition; a chunk that cannot be read is an error, never a count.",
  ["inputs", "histories", "fault_sequences"], "all record ids, start ids, operators and constants, both directions, any chunk failing to open", "tests count with a few conditions and never with a failing chunk",
  ["pkg/storage/logfs/locallog.go"], [("count", "locallog.go: CountRecords, countRecords")])
p("C08", "Time intervals built from a condition cover every time satisfying it",
  "For a condition over the creation time the intervals built from it contain a time exactly when the time satisfies the condition; terms over other parameters never remove a time that could satisfy it, and a condition with no solution gives no intervals.",
  ["inputs", "programs"], "all conditions of the stated shapes over all constants and all operators", "tests list some conditions with fixed constants", ["pkg/ql/intervalbuilder.go", "pkg/intervals/intervals.go"],
  [("interval builder", "intervalbuilder.go: Build")])
p("C09", "Interval intersection, union and negation are set operations",
  "For intervals of any kind of ends, a point is in the intersection, union or negation exactly when set algebra says so, and the order predicates agree with the position of all points; degenerate intervals are never produced.",
  ["inputs"], "all end points and points, all four kinds of ends on both sides, bounded and unbounded basis ends", "tests enumerate some pairs of small numbers", ["pkg/intervals/intervals.go"], [("interval algebra", "intervals.go")])
p("C10", "Filter evaluation follows the boolean meaning of the expression",
  "Evaluating a filter on a log or record gives the value of the boolean expression: OR of ANDs with NOT applied to the group it precedes, comparisons, LIKE and IN with the meaning of the operator over the parameter's values, in any mix of parameters, constants and function calls; an expression which has no meaning is an error, never a crash, when it is built or evaluated.",
  ["programs", "inputs"], "all expression shapes, operators and kinds of operands within the bounds, all values of the parameters", "tests evaluate a list of fixed expressions", ["pkg/ql/evaluator.go", "pkg/ql/dialect.go"], [("evaluator", "evaluator.go: BuildExprF")])
p("C11", "SQL made of a filter means the filter and cannot be broken out of",
  "The SQL condition produced from a filter has the same truth value as the filter for all values of its parameters (same boolean structure and operators), a filter which cannot be translated is an error, and string constants of any content stay one string constant in it.",
  ["programs", "inputs"], "all expressions within the bounds and all constant contents", "tests compare the text for some expressions", ["pkg/ql/translator.go", "pkg/ql/dialect.go"], [("translator", "translator.go: Translate")])
p("C12", "Merged iteration is the ordered merge of its sources",
  "Merging iterators with a selection function yields every element of the sources exactly once, each source's order kept and the choice made by the function, for any interleaving of HasNext and Next calls; closing and resetting reach both sources.",
  ["inputs", "histories"], "all contents and lengths of the sources and call patterns within the bounds", "tests merge three fixed lists", ["golibs/container/iterable/mixer.go"], [("mixer", "mixer.go")])
p("C13", "Querying several logs pages through the ordered union exactly once",
  "Paging through records of one or several logs with the returned next-page id, in either direction and with any page size, gives every matching record once, in order of ids, and stops; a page is never longer than its limit, a count over several logs is the sum over the logs, and a failure of the storage or a bad request is an error with its API status, never a crash or a shorter result.",
  ["inputs", "histories", "fault_sequences"], "all distributions of record ids over the logs, page sizes and directions within the bounds", "tests page over fixed generated data", ["pkg/api/service.go", "pkg/api/riterator.go", "pkg/api/mixer.go"], [("multi-log query", "service.go: QueryRecords")])
p("C14", "LRU caches hold at most their capacity and never drop an entry in use",
  "A cache never holds more than its capacity of entries, creates a value once per residency whatever callers are concurrent, evicts the least recently used entry that is not in use, and runs the delete callback exactly once for every value it drops; waiters for room or for a creation are woken when it is available.",
  ["histories", "schedules"], "all call sequences and interleavings of callers within the bounds", "tests run a few sequences and timings", ["golibs/container/lru/releasable.go", "golibs/container/lru/cache.go"], [("releasable cache", "releasable.go")])
p("C15", "The insertion-ordered map iterates its entries in order under mutation",
  "The insertion-ordered map always agrees with a map plus insertion order: lookups, length and first entry are right after any sequence of additions and removals, and an iterator open across them returns each surviving later entry once, never a removed one, never getting stuck.",
  ["histories"], "all sequences of additions, removals and iterator steps within the bounds", "tests cover a few sequences", ["golibs/container/iterable/map.go"], [("iterator reference counting", "map.go: rlItem")])
p("C16", "The ring buffer is a bounded FIFO queue", "The ring buffer behaves as a FIFO queue of its capacity for any sequence of operations: nothing lost, duplicated or reordered, failing exactly when full or empty, and indexed access, skipping and bulk reads agree with the queue.",
  ["histories", "inputs"], "all reachable states of buffers up to the bound and all operation arguments", "tests use a few sequences", ["golibs/container/ringbuffer.go"], [("ring buffer", "ringbuffer.go")])
p("C17", "Block allocation never hands out an occupied block", "The block storage never allocates a block which is in use, keeps every block's bytes apart from others, survives reopening with the same set of allocated blocks, fails rather than overruns when full, and rejects indexes and sizes out of range.",
  ["histories", "inputs"], "all sequences of allocations and releases over all bitmap contents within the bounds", "tests allocate in simple orders", ["golibs/container/bytes/blocks.go"], [("allocation bitmap", "blocks.go")])
p("C18", "Binary encoding round-trips and decoding never over-reads", "Every encoded value decodes to itself with the same number of bytes consumed, sizes announced in advance are the sizes written, and decoding any input gives a value or an error without reading outside it.",
  ["inputs"], "all values, all byte strings within the bounds", "tests round-trip some values", ["golibs/xbinary/xbinary.go"], [("marshal and unmarshal", "xbinary.go")])
p("C19", "Record ids are unique and strictly increasing", "Ids made by the process are unique and strictly ascending in the order they are made, whatever the clock does and however many goroutines ask; the next and previous id of an id are its direct neighbours in the order.",
  ["schedules", "inputs", "fault_sequences"], "all clock readings, random bytes and interleavings within the bounds; all ids for the neighbours", "tests call it some times", ["golibs/ulidutils/ulidutils.go"], [("monotonic generation", "ulidutils.go: New, NextID, PrevID")])
p("C20", "The log metadata store answers from exactly what was stored",
  "The embedded metadata store returns logs and chunk descriptors exactly as stored, pages through them completely and in order without duplicates within the limit (whatever it is), applies filters exactly, and a deleted log is never returned again; a call which fails or is cancelled changes nothing, and calls at the same time have the effect of one after the other.",
  ["histories", "inputs", "schedules"], "all sequences of calls within the bounds, all limits, tags and descriptors", "tests cover a few sequences", ["pkg/storage/buntdb/buntdb.go"], [("buntdb storage", "buntdb.go")])
p("C21", "The metadata cache always answers as the storage behind it would",
  "Whatever sequence of reads and writes goes through the metadata cache, every answer equals what the storage behind it would give at that time, also after failed writes and, once they have returned, after concurrent reads and writes.",
  ["histories", "fault_sequences", "schedules"], "all sequences of calls and failures within the bounds, all interleavings of a read and a write", "tests check a few hits", ["pkg/storage/cache/cache.go"], [("cache invalidation", "cache.go")])
p("C22", "The in-memory key-value store is a versioned map with expiry", "Create, get, put, compare-and-swap, delete and list behave as on one versioned map in which expired records do not exist; a compare-and-swap succeeds only on the current version, versions never repeat for a key, and a waiter for a version change is woken by the change.",
  ["histories", "schedules", "inputs"], "all sequences of calls, expirations and interleavings within the bounds", "tests cover basic sequences", ["golibs/kvs/inmem/inmem.go"], [("in-memory store", "inmem.go")])
p("C23", "A distributed lock has at most one holder at any time", "At most one of the clients of a named lock holds it at any time while its lease is kept, a holder keeps its lease as long as it holds the lock, a temporary storage error included, a waiting client obtains it after it is released or the holder's lease has expired, and a cancelled or shut down client does not obtain it.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of two clients within the bounds, all points of cancellation", "tests run goroutines with sleeps", ["golibs/kvs/distlock/kvlock.go"], [("lock over the key-value store", "kvlock.go")])
p("C24", "A scheduled call runs once, not early, and never after cancellation", "A scheduled function runs exactly once, not before its time, unless it is cancelled before it is started; a cancelled one never runs, and schedules never block each other or get lost whatever the order they are made in.",
  ["schedules", "histories"], "all orders of scheduled delays, cancellations and interleavings within the bounds", "tests sleep and check a few orders", ["golibs/timeout/timeout.go"], [("timer heap and workers", "timeout.go")])
p("C25", "A chunk is never deleted while it is open or being written", "For one chunk, writing is exclusive, and it is never marked for deletion while it is opened, being opened or written, nor opened or written while it is being deleted; waiters get their turn when the state allows and are released by cancellation, and no sequence leaves it blocked for ever.",
  ["schedules", "histories"], "all interleavings of up to three clients of one chunk within the bounds", "tests check pairs with sleeps", ["pkg/storage/chunkfs/caccessor.go"], [("chunk state machine", "caccessor.go")])
p("C26", "Moving chunks between disk and remote storage never loses the only copy", "A local chunk file is removed on synchronisation only after the remote storage has accepted its contents, what is downloaded is byte-identical to what was uploaded, and a failed step leaves at least one complete copy.",
  ["fault_sequences", "histories"], "a failure at every step of upload, download and deletion", "tests only run the steps that succeed", ["pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/scanner.go"], [("replication", "replicator.go: DeleteChunk, UploadChunk, DownloadChunk")])
p("C27", "Memory-mapped file buffers stay inside the file", "A buffer of a mapped file is exactly the bytes asked for or the part of them that the file has, never outside of the mapping; growing keeps the contents, rejects bad sizes, and nothing is accessible after close.",
  ["inputs", "fault_sequences"], "all offsets, sizes and file sizes within the bounds, failure at every system call", "tests use a few offsets", ["golibs/files/mmfile.go"], [("buffer bounds", "mmfile.go")])
p("C28", "Errors keep their kind across the API boundary", "An error of a kind which has an API status, wrapped any number of times, becomes the API status of this kind and the same kind again on the client, with its message and embedded object; nil stays nil and unknown errors stay errors of no other kind.",
  ["inputs"], "all kinds of error, wrappings and all status codes", "tests map each kind once", ["golibs/errors/grpc.go", "golibs/errors/errors.go"], [("mapping tables", "grpc.go")])
p("C29", "Object storage keeps its key space consistent", "The object storage in memory returns for a key the last bytes put and nothing after deletion, lists exactly the direct children of a path, and rejects malformed keys and paths without changing anything.",
  ["histories", "inputs"], "all keys, paths and operation sequences within the bounds", "tests use some keys", ["golibs/sss/inmem/storage.go", "golibs/sss/service.go"], [("in-memory storage", "storage.go")])
p("C30", "Archives restore what was packed",
  "Packing a folder (all of it or without its sub-folders, all files or those a filter accepts) and unpacking the archive gives exactly the files selected with their bytes, also over older files; copying an archive into another one keeps all its entries under the prefix. Whatever fails or is spoiled is an error: no incomplete archive, copy or file is taken for a complete one, and no file is left open. Unpacking never writes outside of the destination, whatever names the archive has.",
  ["inputs", "fault_sequences"], "all entry names and contents, any one of the calls of the operating system failing, any entry spoiled", "tests pack one directory, nothing fails and all names are good", ["golibs/files/files.go", "golibs/files/ziputil.go"], [("packing and unpacking", "files.go: ZipFolder, UnzipToFolder"), ("copying", "ziputil.go: ZipCopy")])
p("C31", "The REST interface passes requests and results on without loss",
  "Each REST handler passes all parameters of the request on to the service call it stands for, translates the result without losing or mixing up a field, and answers a failure with the HTTP status of the error and never with a result.",
  ["inputs", "fault_sequences"], "all values of the parameters, present or not, all field values and all kinds of failures", "tests compare one object", ["pkg/api/rest/rest.go", "pkg/api/rest/transformers.go"], [("transformation", "transformers.go")])
p("C32", "Configuration sources override each other field by field", "Applying configuration from a file or the environment changes exactly the fields it names and keeps the others.",
  ["inputs", "configurations"], "all configurations", "tests apply a few", ["golibs/config/enricher.go"], [("enricher", "enricher.go")])
p("C33", "Date texts are understood as the first format that matches", "A date text is parsed by the first known format it matches, at the precision of the text; a text no format matches is an error.",
  ["inputs"], "all texts", "tests list texts", ["golibs/datetime/date.go"], [("formats", "parser.go")])
p("C34", "A derived context ends exactly when it should, with the first error",
  "A context with a custom error is done exactly when it is cancelled or its parent is done, keeps the first error for good and the values and the deadline of its parent, and leaves no goroutine behind; a context made of a channel is done exactly when the channel is closed; sleeping ends with nil not before the time has passed, or with the context's error as soon as the context is done.",
  ["schedules"], "all orders and times of closing, cancelling and waiting within the bounds", "tests check one order", ["golibs/context/cnclderr.go", "golibs/context/wrapper.go", "golibs/context/sleep.go"], [("context with an error of its own", "cnclderr.go: cancel")])
p("C35", "Acknowledged records survive a crash at any point of a later append",
  "When the process dies at any point of an append (or of the first opening of a chunk), the chunk opens again with its full check, and the log answers and accepts appends. Every record whose append was acknowledged before is there, once, in order, with its id and payload. No record appears which was never appended, and a record whose append was under way is either there whole or not there.",
  ["crash_points"], "all points between two statements of the storage code while it appends, all payloads within the bounds; death of the process, not loss of power", "tests never stop an append half-way",
  ["pkg/storage/chunkfs/chunk.go", "pkg/storage/logfs/locallog.go", "golibs/files/mmfile.go"], [("a record counts when the header's count says so", "chunk.go: AppendRecords"), ("growth moves meta", "chunk.go: growForWrite"), ("first opening writes the header", "chunk.go: Open"), ("descriptors follow the chunk", "locallog.go: AppendRecords")])
p("C36", "Slice, map, text and hash helpers keep elements, order and copies",
  "The union, differences and common elements of slices have exactly the elements which set algebra says (the union, the common ones and what is left of the first slice each of them once); reversing, removing, copying, filling and looking for an element do what a list does, and no argument is changed or shared which is not meant to be. A text is cut to the length asked for (at least three) and is a prefix before the ellipsis, bits turn into text one letter for so many of them, a random text has the length and the letters asked for, and a hash does not change with the buffer it was made of.",
  ["inputs"], "all elements, with any duplicates, all lengths within the bounds, maps in any order", "tests use a few slices without duplicates", ["golibs/container/sliceutils.go", "golibs/container/maputils.go", "golibs/strutil/string.go", "golibs/strutil/hash.go"],
  [("slices and maps", "sliceutils.go, maputils.go"), ("texts", "string.go"), ("hashes", "hash.go: CreateHash, ParseHash")])
p("C37", "The Redis key-value storage keeps versions and reports what happened",
  "On a Redis server the key-value storage answers any sequence of calls as a map of versioned records: every write gives the record a version it never had, creating an existing record and changing or deleting a missing one fail with their kinds of errors, a compare-and-swap changes the record only if nobody did since the version given and reports a conflict otherwise, also when the calls overlap. Records are gone when they expire and not before, a waiter returns once the version is another one or its context ended, listing gives the keys which match, and a failure of the server is an error and never an answer.",
  ["histories", "inputs", "fault_sequences", "schedules"], "all sequences of calls, overlapping writers, failing calls of the server and times of expiry within the bounds", "there are no tests of it which run without a server", ["golibs/kvs/redis/redis.go", "golibs/kvs/storage.go"],
  [("writes", "redis.go: Create, Put, PutMany"), ("compare and swap", "redis.go: CasByVersion"), ("waiting", "redis.go: WaitForVersionChange"), ("expiry", "redis.go: expiration")])
p("C38", "The S3 object storage stands for the objects of its bucket",
  "On an S3 server the object storage gives for a key the last bytes put under it, and 'not exist' when nothing is stored under it; different keys are different objects. It lists exactly the direct children of a path, each once, however many pages the listing has, rejects malformed keys and paths, and every failure of the server or end of the context is an error and changes nothing else.",
  ["inputs", "histories", "fault_sequences"], "all keys and paths within the bounds, all sets of objects, sizes of the pages of a listing and failing requests", "its tests need a real bucket and list a handful of objects, which fit on one page", ["golibs/sss/s3/storage.go", "golibs/sss/service.go"],
  [("requests and pages", "s3/storage.go: Get, Put, List, Delete"), ("kinds of errors", "s3/storage.go: toError")])

exec(open(os.path.join(V, "tools", "claims.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
        assert len(x["title"]) <= 80, x["title"]
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for x in P:
    if x["id"] in CLAIMED:
        m["checks"].append({"property": x["id"], "quick_cmd": "bash run.sh %s quick" % x["id"], "thorough_cmd": "bash run.sh %s thorough" % x["id"],
            "technique": "symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver, counterexamples replayed natively",
            "level": "model_checking", "level_note": CLAIMED[x["id"]]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": NA.get(x["id"], "no check has been built for it yet")})
m["notes"] = "see DESIGN.md; known findings and repairs are in known_findings.txt"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
