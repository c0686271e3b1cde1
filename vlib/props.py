"""The properties: the single source of properties.jsonl and MANIFEST.json (see genmeta.py)."""
PROPS = []
NOT_APPLICABLE = []
NOTES = "Every check builds its harnesses from /repo's working tree at run time with clang sanitizers (ASan+UBSan subset, TSan), runs seeded workloads, and decides by monitors in the harness plus the sanitizers' reports."


def P(id, title, statement, over, qtext, why, files, mechanism, state, observe, technique, level_note, level="exploration"):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "observe_at": observe, "hook_needed": None},
        "technique": technique, "level": level, "level_note": level_note,
    })


P("C01", "Publishing yields dense indexes, strictly increasing timestamps",
  "Entries published to a memory or file persister, by any number of concurrent publishers, get indexes 0,1,2,... without gaps or duplicates, strictly increasing timestamps, and are stored exactly once under the index and timestamp returned to their publisher, in program order per publisher. "
  "A publish or head update whose timestamp does not exceed the current head, or a raw publish with a wrong index or a malformed line, throws and leaves entries, head and size unchanged. "
  "All of it is free of data races, with concurrent readers and head updates included.",
  ["schedules", "histories", "inputs"], "every interleaving of publishers, head updates and readers, and every sequence of accepted and rejected operations",
  "Tests publish from one thread or join before looking; an index handed out twice or a torn container only shows under particular interleavings.",
  ["blocks/persistence/memory.h", "blocks/persistence/file.h", "blocks/ss/persister.h", "blocks/ss/idx_ts.h"],
  [("PersisterPublishImpl", "blocks/persistence/file.h"), ("PersisterPublishImpl", "blocks/persistence/memory.h"), ("PersisterUpdateHeadImpl", "blocks/persistence/file.h")],
  [("end_", "next index, last entry timestamp, head", "blocks/persistence/file.h"), ("entries_/head_", "the log", "blocks/persistence/memory.h")],
  ["idxts_t returned by Publish", "Iterate()", "HeadAndLastPublishedIndexAndTimestamp()"],
  "TSan/ASan runs under schedule perturbation with an offline history checker; model-based sequential monitor",
  "Concurrent histories are sampled with injected yields at every mutex operation; the checker is exact on each history.")

P("C02", "Iterating a range returns exactly the entries of that range",
  "Iterating by index or by timestamp range, typed or raw, returns exactly the entries published with those indexes or within those (inclusive) timestamps, in order and unchanged, whatever head updates and publishes happened before or happen while the iterator is held; raw lines equal the JSON index-and-timestamp, a tab, and the JSON entry. "
  "Ranges beyond the end, or with the end before the beginning, throw InvalidIterableRangeException, and IndexRangeByTimestampRange agrees with the timestamps of the entries. "
  "A range obtained while others publish yields a prefix-consistent view that is never torn.",
  ["inputs", "histories", "schedules"], "every log content with interleaved head directives, every range, every position of concurrent publishes",
  "The two persisters keep separate offset and timestamp tables next to the log; off-by-one and staleness need particular combinations of head updates, ranges and timing.",
  ["blocks/persistence/memory.h", "blocks/persistence/file.h"],
  [("PersisterIterateImpl", "blocks/persistence/file.h"), ("PersisterIndexRangeByTimestampRangeImpl", "blocks/persistence/file.h"), ("Iterator/IteratorUnsafe", "blocks/persistence/memory.h")],
  [("record_offset_, record_timestamp_", "where entry i begins and its timestamp", "blocks/persistence/file.h")],
  ["Iterate", "IterateUnsafe", "IndexRangeByTimestampRange"],
  "model-based monitor under ASan/UBSan; concurrent readers checked against the final log under TSan",
  "Random logs and ranges biased to boundaries; exact oracle per query.")

P("C03", "Reopening a file log restores exactly what was published",
  "Closing and reopening a file persister restores precisely the same entries, timestamps, size, last index and head, leaves the bytes of a healthy log unchanged, and lets publishing continue as if it had never been closed, for any history of publishes and head updates. "
  "The log holds one line per entry, in order. "
  "Opening with another namespace or entry type throws InvalidStreamSignature, and a log whose lines were reordered, dropped, duplicated or have non-increasing timestamps is refused without being modified.",
  ["histories", "inputs"], "every history of publishes, head updates and reopenings, and whole-line corruptions of the resulting log",
  "Tests reopen a couple of fixed logs; head rewriting in place versus appending after reopen depends on the exact sequence.",
  ["blocks/persistence/file.h", "blocks/ss/signature.h"],
  [("ValidateFileAndInitializeHead", "blocks/persistence/file.h"), ("IteratorOverFileOfPersistedEntries::ProcessNextEntry", "blocks/persistence/file.h"), ("PersisterUpdateHeadImpl", "blocks/persistence/file.h")],
  [("head_offset_", "where the last head directive can be rewritten in place", "blocks/persistence/file.h")],
  ["the log file", "state after reopening"],
  "model-based monitor over random histories with reopenings under ASan/UBSan",
  "Exact model of entries and head compared after every reopen; corruptions injected at random line positions.")

P("C04", "Acknowledged entries survive a crash at any byte of the log",
  "If the process dies at any point, including after any prefix of the bytes of a record or directive was written, reopening the log succeeds and restores exactly the entries whose records are complete, every acknowledged one among them, unchanged and in order, and a head at least as late as the last acknowledged one that is intact. "
  "Publishing continues correctly after such a recovery: later records are not merged with leftovers. "
  "A record that could not be written is reported by an exception rather than acknowledged.",
  ["crash_points", "fault_sequences"], "every byte position at which the log can be cut, process kills at arbitrary moments, and file size limits at arbitrary offsets",
  "No test cuts a log; there is one crash point per byte and the damage only shows after the next publish and reopen.",
  ["blocks/persistence/file.h"],
  [("DropUnterminatedLastLine/ValidateFileAndInitializeHead", "blocks/persistence/file.h"), ("PersisterPublishImpl", "blocks/persistence/file.h")],
  [("the log file", "one terminated line per acknowledged record", "blocks/persistence/file.h")],
  ["state after reopening a truncated log", "state after SIGKILL", "exceptions of Publish"],
  "crash-point enumeration (truncation at every byte of generated logs, SIGKILL, RLIMIT_FSIZE) with an exact recovery oracle",
  "Every byte of each generated log after its signature line is a crash point; logs themselves are sampled. Power loss (unsynced pages) is not modelled: the code does not claim fsync.",
  level="fault_enumeration")

P("C05", "Stream subscribers get every entry once, in order, until they end",
  "A subscriber of a stream, attached at any index while entries and head updates are being published concurrently, gets every entry from that index on exactly once, in order, with the published payload, index and timestamp, and a last-entry argument at or after it; head updates reach it in increasing order, never ahead of an earlier entry, are ones that were published, and the latest one reaches it with nothing else having to happen. "
  "Type-filtered subscribers get exactly the entries of their type; after it returns Done, after Terminate, or after its scope is destroyed no callback runs, the done callback has run exactly once, and Terminate at most once. "
  "Destroying or ending the scope, the subscriber or the stream at any moment neither deadlocks nor accesses freed memory nor races.",
  ["schedules", "histories"], "every interleaving of publishers, head updates, subscribers attaching and ending, and the destruction of scopes and of the stream",
  "The tests subscribe to a handful of entries and sleep or join; late deliveries and teardown races only occur at particular moments.",
  ["stream/stream.h", "stream/stream_impl.h", "blocks/ss/pubsub.h", "bricks/sync/owned_borrowed.h"],
  [("SubscriberThreadInstance::ThreadImpl", "stream/stream.h"), ("SubscriberScope", "stream/stream_impl.h")],
  [("terminate_signal_, terminate_sent_", "end of a subscription", "stream/stream.h")],
  ["callbacks of the subscriber", "done callback", "SubscriberScope::operator bool"],
  "offline checker over per-subscriber event logs, under TSan and ASan with schedule perturbation",
  "Interleavings are sampled with injected yields and delays at every mutex operation; the per-subscriber checker is exact.")

P("C06", "HTTP stream endpoint serves exactly the requested slice of entries",
  "For every combination of i, n, since, recent, period, tail, stop_after_bytes, nowait, checked, entries_only and array, and whatever the stream holds, the endpoint returns exactly the entries (in order, each once) and head updates that the parameters select, in the requested format; sizeonly, HEAD and schema requests agree with the stream. "
  "A live subscription goes on with every entry published afterwards, until its limit or until terminated by its ID, at which point the response ends properly. "
  "A client that disconnects at any moment affects neither other clients nor the publisher nor the process.",
  ["inputs", "schedules", "histories"], "every combination of the query parameters and stream contents, every moment at which clients connect, vanish or terminate",
  "There are too many combinations of parameters to list in tests, and vanishing clients are not tested at all.",
  ["stream/pubsub.h", "stream/stream.h", "blocks/http/request.h"],
  [("PubSubHTTPEndpointImpl", "stream/pubsub.h"), ("ServeDataViaHTTP", "stream/stream.h")],
  [("http_subscriptions", "live HTTP subscriptions by ID", "stream/stream_impl.h")],
  ["HTTP responses, chunk by chunk"],
  "model-based monitor of responses over real sockets under ASan/TSan, hostile clients included",
  "Random parameter combinations against an exact reference model of slices; disconnect moments sampled.")

P("C07", "A replica equals its source, whatever happens to the connection",
  "A stream following a remote one over HTTP, in checked or unchecked mode, always holds a prefix of the source's log with identical indexes, timestamps and bytes, and once the connection works it catches up with every entry and with the head. "
  "This holds for every way in which the response is split into chunks, if the connection is refused, stalled or cut at any byte, if lines get lost or duplicated on the way and entries are checked, and if the subscription is ended and resumed. "
  "Ending the subscription runs its done callback exactly once and does not hang.",
  ["inputs", "fault_sequences", "schedules"], "every splitting of the byte stream, every cut, corruption, restart and interleaving with the publisher",
  "Tests replicate over a perfect loopback connection where every chunk is a full line.",
  ["stream/replicator.h", "stream/pubsub.h", "bricks/net/http/impl/server.h"],
  [("RemoteStreamSubscriber::PassChunkToSubscriber", "stream/replicator.h"), ("RemoteSubscriberThread", "stream/replicator.h"), ("StreamReplicatorImpl", "stream/replicator.h")],
  [("carried_over_data_, next_expected_index_, from_us_", "where to resume", "stream/replicator.h")],
  ["log of the replica", "its head"],
  "fault-injecting re-chunking proxy with an offline log comparison, all split positions of generated bodies, under TSan and ASan",
  "Exhaustive over single split positions of the generated bodies; cuts, stalls and corruptions are sampled.")

P("C08", "A master flip leaves one master and loses nothing acknowledged",
  "After a successful flip exactly one stream is the master, the previous one refuses to publish, and the new master's log and head equal the previous one's, containing every entry whose publishing was acknowledged before or during the flip; this also holds along a chain of followers, for repeated flips back and forth, for two followers competing for the mastership (exactly one wins) and with concurrent publishers, which never deadlock with the flip. "
  "A flip request with a wrong key, an inconsistent or future position, or beyond the configured index, head, size or clock limits is refused and the master stays (or becomes again) the master with an unchanged log.",
  ["schedules", "histories", "inputs"], "every interleaving of publishing and flips, every topology of two or three nodes, every flip request",
  "Tests flip with no concurrent publishing and a few fixed requests.",
  ["stream/replicator.h", "stream/stream.h"],
  [("MasterFlipController", "stream/replicator.h"), ("MasterFlipRequest/ValidateAndSendDiff", "stream/replicator.h"), ("RecreatePublisher", "stream/stream.h")],
  [("borrowed_publisher_", "held by the controller while its stream is not the master", "stream/replicator.h")],
  ["IsMasterStream", "logs", "flip_to_master responses"],
  "history checker over concurrent flips on loopback servers under TSan/ASan, plus an exact model of flip requests",
  "Up to three nodes; interleavings sampled.")

P("C38", "A stream with live HTTP subscribers can be destroyed at any moment",
  "Destroying a stream while local and HTTP subscribers are connected, reading, stalled or disconnecting ends every subscription, closes every response and returns, without a deadlock, use after free, data race or crash. "
  "What each client has received by then is a correct prefix of the entries it asked for, and later requests to the unregistered route get 404.",
  ["schedules", "histories"], "every moment of destruction relative to subscribers' and clients' activity",
  "Tests destroy streams once everything is idle.",
  ["stream/stream.h", "stream/pubsub.h", "stream/stream_impl.h"],
  [("~Stream", "stream/stream.h"), ("PubSubHTTPEndpoint", "stream/pubsub.h")],
  [("http_subscriptions", "live HTTP subscriptions", "stream/stream_impl.h")],
  ["destructor returning", "bytes received by clients"],
  "stress with a response-prefix oracle under TSan and ASan, with a hang watchdog",
  "Moments are sampled. Handlers still being executed by the HTTP server's thread at the time of destruction are the caller's responsibility per the code's comments and are not exercised.")

P("C14", "Anything written as JSON is read back the same in each format; patches merge",
  "For every value of a reflected type (structs with bases, templates, enums, integers at their limits, floating point numbers, strings of any bytes but zero ones, vectors, arrays, sets, ordered and unordered maps with any keys, pairs, optionals, variants, timestamps, nested in any way) and each of the formats (Current, Minimalistic, JavaScript, F#): JSON() is exactly the valid JSON document the format prescribes for this value; ParseJSON of it gives exactly this value, bit by bit for doubles, into a new object or over any existing one, from std::string, C string, or Chunk, reformatted or with strings escaped in another way; Current is readable as Minimalistic and JavaScript, and these as each other. "
  "What has no JSON representation (NaN, infinities) is an exception, never a broken document. PatchObjectWithJSON replaces exactly the fields mentioned, recursively for structs, and leaves the others as they were.",
  ["inputs"], "every value of every supported type, in every format",
  "Tests compare a handful of hand-written values and their strings.",
  ["typesystem/serialization/json", "typesystem/serialization/json.h"],
  [("JSON", "typesystem/serialization/json/json.h"), ("ParseJSON", "typesystem/serialization/json/json.h"), ("PatchObjectWithJSON", "typesystem/serialization/json/json.h")],
  [("source_", "the parsed document", "typesystem/serialization/json/json.h")],
  ["documents", "parsed values"],
  "an independent parser, emitter and loader of each format, over random values in a canonical dump which tells everything apart",
  "Strings with zero bytes are out of scope (the C++ string is written as is up to them by design of RapidJSON's in-situ use). Values sampled, including limits of each type.")
P("C15", "Any text given to JSON parsers is parsed as it says or refused cleanly",
  "Whatever the bytes (truncated, mutated, nested arbitrarily deeply, of a wrong schema, with numbers out of range, duplicate keys, missing or extra fields, wrong variant tags, bad UTF-8 escapes), ParseJSON in each format either gives the value the document denotes, or throws InvalidJSONException when it is not JSON, and TypeSystemParseJSONException when it is JSON of another schema; TryParseJSON is empty exactly then. No crash, no out of bounds access, no undefined behaviour, no other exception, nothing silently truncated. The schema-less ParseJSONUniversally/AsJSON of blocks/json agrees with an independent parser on what is valid, keeps all values and the order of keys, and round-trips.",
  ["inputs"], "every sequence of bytes",
  "Tests parse valid documents and a few short invalid ones.",
  ["typesystem/serialization/json", "blocks/json"],
  [("ParseJSON", "typesystem/serialization/json/json.h"), ("ParseJSONUniversally", "blocks/json/json.h")],
  [("kMaxJSONDepth", "deepest nesting accepted", "typesystem/serialization/json/rapidjson.h")],
  ["parsed values", "exceptions", "AddressSanitizer and UndefinedBehaviorSanitizer reports"],
  "ASan and UBSan plus an independent JSON parser and per-schema loader deciding accept/refuse and the value",
  "Documents are sampled: mutations of valid ones (values, structure, bytes) and nesting up to 2M; nesting over 1000 is refused.")
P("C17", "An Owned object lives exactly as long as its owner and borrowers need it",
  "An Owned<T>'s destructor (or being assigned over) returns only after every live borrower is gone, and destroys the object exactly once, with no borrower able to touch it afterwards. Every callback-based borrower alive when the owner starts to go away is called exactly once, may release itself or other borrowers from it, and no callback is called otherwise; plain borrowers see IsValid() become false and never block each other. "
  "Copies, moves and assignments of owners and borrowers always refer to the right object and keep the number of active and total borrowers exact; ExclusiveUse is mutually exclusive. A BorrowedOfGuaranteedLifetime outliving its owner ends the process with an error, however it has been moved.",
  ["schedules", "histories"], "every sequence and interleaving of borrowing, copying, moving, using and releasing relative to the owner's destruction",
  "Tests run a few fixed scenarios with sleeps.",
  ["bricks/sync/owned_borrowed.h"],
  [("UniqueInstance", "bricks/sync/owned_borrowed.h"), ("WeakBorrowed", "bricks/sync/owned_borrowed.h"), ("Owned", "bricks/sync/owned_borrowed.h")],
  [("borrowers_", "live borrowers with their callbacks", "bricks/sync/owned_borrowed.h"), ("destructing_", "the owner is going away", "bricks/sync/owned_borrowed.h")],
  ["IsValid", "NumberOfActiveBorrowers", "destructor order", "callback calls"],
  "online comparison of random programs with a reference model, and concurrent stress with lifetime canaries under TSan and ASan",
  "Interleavings sampled, with random delays around mutex operations.")

P("C18", "WaitableAtomic never tears, loses an update or a wakeup",
  "Every access via scoped accessors, MutableUse, ImmutableUse, PotentiallyMutableUse, SetValueIf, GetValue and UseAsLock is mutually exclusive and atomic: values seen are never torn, no update is lost, versions never go back for a reader. Wait returns only once its predicate has held, and does return after any mutable use makes it hold; WaitFor returns whether the predicate held. "
  "The intrusive flavour, when destroyed, wakes its waiters, refuses new clients, and does not go away until all its registered clients have.",
  ["schedules"], "every interleaving of readers, writers, waiters and the destructor",
  "Tests cover a couple of two-thread scenarios.",
  ["bricks/sync/waitable_atomic.h"],
  [("WaitableAtomicImpl", "bricks/sync/waitable_atomic.h"), ("IntrusiveClient", "bricks/sync/waitable_atomic.h")],
  [("data_", "the value", "bricks/sync/waitable_atomic.h"), ("ref_count_", "registered clients", "bricks/sync/waitable_atomic.h")],
  ["values observed", "Wait/WaitFor results"],
  "conservation and monotonicity oracles over logged changes, wakeup rings with a hang watchdog, under TSan and ASan",
  "Interleavings sampled.")

P("C19", "MMQ delivers every accepted message exactly once, in order",
  "Each message whose Publish returned a non-zero index is delivered to the consumer exactly once, unmodified, one at a time, with precisely the returned index and timestamp, indexes being 1, 2, 3, ... and timestamps strictly increasing, in an order consistent with the real-time order of publishing. Messages queued when the queue is being destroyed are delivered too. "
  "Without DropOnOverflow nothing is dropped and publishers wait for room without a deadlock; with it, a message is dropped if and only if all the slots are taken. A stale timestamp is refused with an exception without affecting anything else.",
  ["schedules", "histories"], "every interleaving of publishers, the consumer and the destructor, and every buffer size",
  "Tests use one fixed buffer and do not look at what is returned or at destruction.",
  ["blocks/mmq/mmq.h"],
  [("MMQImpl::PublisherPublishImpl", "blocks/mmq/mmq.h"), ("MMQImpl::CircularBufferAllocate", "blocks/mmq/mmq.h"), ("MMQImpl::ConsumerThread", "blocks/mmq/mmq.h")],
  [("circular_buffer_, head_", "slots and where the next message goes", "blocks/mmq/mmq.h"), ("last_idx_ts_", "last index and timestamp given", "blocks/mmq/mmq.h")],
  ["Publish results", "consumer callbacks"],
  "offline comparison of the log of publish calls with the log of deliveries, under TSan and ASan",
  "Interleavings and sizes sampled. Publishing concurrently with destruction is the caller's error and is not exercised.")

P("C20", "MMPQ delivers every message once, by timestamp, never ahead of the head",
  "Each message published is delivered exactly once as soon as the head reaches its timestamp, never before that, unmodified and with its own index and timestamp; of the messages eligible, the one with the smallest (timestamp, index) is delivered first, equal timestamps being in the order of publishing. Those at or before the head when the queue is destroyed are delivered too. The head can not go back or stay: such an update is refused with an exception.",
  ["schedules", "histories", "inputs"], "every multiset of timestamps, order of publishing and head updates, and interleaving",
  "Tests use distinct timestamps and wait for the queue to drain.",
  ["blocks/mmq/mmpq.h"],
  [("MMPQImpl::PublisherPublishImpl", "blocks/mmq/mmpq.h"), ("MMPQImpl::PublisherUpdateHeadImpl", "blocks/mmq/mmpq.h"), ("MMPQImpl::ConsumerThread", "blocks/mmq/mmpq.h")],
  [("queue_", "messages not delivered yet, ordered", "blocks/mmq/mmpq.h"), ("last_idx_ts_", "last index, and the head", "blocks/mmq/mmpq.h")],
  ["Publish results", "consumer callbacks"],
  "exact model of the priority queue, plus an offline order checker for concurrent runs, under TSan and ASan",
  "Interleavings sampled.")

P("C09", "A storage transaction is atomic: all of its effects, or none",
  "A read-write transaction that returns normally is committed as a whole: it becomes exactly one entry of the log (none if it has mutated nothing), holding its mutations and metadata in order, and its result is what the caller's future gets. "
  "One that throws (a rollback, with or without a value, or any other exception) leaves every container, last-modified timestamp and the log exactly as they were, however many entries it has added, overwritten or erased and in whatever order, and its caller learns so (RolledBack with the value, or the exception). "
  "Two-step transactions call the second step exactly once with what the first one has returned or rolled back with, and report an already committed transaction as such or as an exception, never as rolled back. Read-only transactions never change or log anything.",
  ["histories", "inputs"], "every sequence of operations on every kind of container, with every way to end the transaction",
  "Tests roll back a few fixed transactions.",
  ["storage/transaction_policy.h", "storage/base.h", "storage/container", "storage/storage.h"],
  [("Synchronous::Transaction", "storage/transaction_policy.h"), ("MutationJournal::Rollback", "storage/base.h")],
  [("journal_", "mutations to commit and how to undo them", "storage/transaction_policy.h")],
  ["contents of containers", "LastModified", "the log", "transaction results"],
  "random transactions with injected failures compared with a reference model after each",
  "Histories sampled; containers of small sizes to force collisions.")

P("C10", "Replaying the log reproduces the storage exactly",
  "A storage recreated from its log (the master restarted over the same file, a follower of the stream of this or of another process, one that has been flipped to master, or one started at any moment while transactions are committed) holds exactly the same entries with the same last-modified timestamps as the storage which wrote that log, and LastAppliedTimestamp() follows. "
  "A follower only ever shows states between transactions, in order, never a part of one; it refuses read-write transactions until flipped, and no transaction is lost or applied twice by a flip.",
  ["histories", "schedules", "inputs"], "every history of transactions and every moment of starting, following and flipping",
  "Tests replay a couple of hand-written logs.",
  ["storage/persister/stream.h", "storage/storage.h", "storage/container"],
  [("StreamStreamPersisterImpl", "storage/persister/stream.h"), ("FlipToMaster", "storage/storage.h")],
  [("last_applied_timestamp_", "how far the log has been applied", "storage/persister/stream.h")],
  ["contents of containers", "LastModified", "LastAppliedTimestamp"],
  "comparison of the master, its restarted self, followers and an independent replay of the raw log, under ASan and TSan",
  "Histories and interleavings sampled.")

P("C11", "A storage container and its indexes always agree with the keys of its entries",
  "Dictionary, ManyToMany, OneToMany and OneToOne, ordered and unordered, behave as the mathematical map or relation under any sequence of additions, overwrites and erasures: size, emptiness, lookup by key, iteration (sorted where ordered), row and column views, and the cardinality restrictions (adding an entry to a OneToMany or OneToOne evicts precisely the entries that share the exclusive key) all agree with each other and with the model, within a transaction and after it, rolled back or not. "
  "LastModified is set by each addition and erasure to that operation's timestamp, which strictly grows.",
  ["histories", "inputs"], "every sequence of operations over colliding keys",
  "Tests check hand-picked operations.",
  ["storage/container"],
  [("GenericManyToMany", "storage/container/many_to_many.h"), ("GenericOneToMany", "storage/container/one_to_many.h"), ("GenericOneToOne", "storage/container/one_to_one.h"), ("GenericDictionary", "storage/container/dictionary.h")],
  [("map_, forward_, transposed_", "the primary map and the indexes", "storage/container")],
  ["every accessor of the container"],
  "model-based random testing with every accessor compared after each step, under ASan",
  "Small key domains; sequences sampled.")

P("C12", "Concurrent storage transactions are serializable",
  "However many threads run read-write and read-only transactions, the outcome is as if they ran one at a time, in the order of the log, consistently with real time: no transaction sees another one's partial effects, none is lost or done twice, one known to be committed is in the log, a transaction that begins after another one has returned sees its effects, and log timestamps strictly increase. Readers of a follower see a monotonic sequence of whole states. "
  "Destruction under way refuses new transactions with an exception and breaks nothing.",
  ["schedules"], "every interleaving of transactions on the master and reads on the follower",
  "Tests run transactions from one thread.",
  ["storage/transaction_policy.h", "storage/persister/stream.h", "storage/storage.h"],
  [("Synchronous", "storage/transaction_policy.h"), ("PersistJournal", "storage/transaction_policy.h")],
  [("mutex_", "serializes transactions", "storage/transaction_policy.h")],
  ["values read in transactions", "the log", "real time of calls"],
  "conservation and real-time order checked offline over the log and what each transaction saw, under TSan and ASan",
  "Interleavings sampled, with random delays around mutex operations.")

P("C13", "Each REST verb over a storage does what it says, atomically, and nothing else",
  "For Plain, Simple and Hypermedia, over each kind of container and with keys of any bytes (in the path or as parameters): GET returns the entry, or the whole collection, page by page, each entry exactly once; PUT creates or overwrites precisely the entry of the key in the URL; POST creates one with its own key unless it exists (then 409 unless `overwrite`); PATCH changes only the fields given and never the key; DELETE removes precisely that entry; each successful mutation is exactly one transaction, and what is refused (4xx, 5xx, malformed bodies, mismatching keys) changes and logs nothing. "
  "If-Unmodified-Since is honoured at microsecond precision when given so, thus concurrent clients following it never lose an update and concurrent POSTs of the same key succeed once. Last-modified headers are those of the storage. CQS queries are read-only, commands are one transaction each with rollbacks and exceptions undoing everything; a follower refuses mutations; after SwitchHTTPEndpointsTo503s all of the master's endpoints answer 503; routes vanish with their scope.",
  ["inputs", "histories", "schedules"], "every request over every state, and every interleaving of concurrent clients",
  "Tests send a fixed sequence of well-formed requests from one client.",
  ["storage/api.h", "storage/api_types.h", "storage/rest"],
  [("RESTfulStorage", "storage/api.h"), ("Structured", "storage/rest/structured.h"), ("Hypermedia", "storage/rest/hypermedia.h"), ("Plain", "storage/rest/plain.h")],
  [("context.if_unmodified_since", "the condition of the request", "storage/rest/structured.h")],
  ["responses", "the log", "contents of containers and LastModified"],
  "exact model of every request, and an offline checker of concurrent clients' reads and writes against the log",
  "Keys which do not parse as numbers for numeric keys are not covered. Requests and interleavings sampled.")

P("C21", "HTTP requests and responses arrive exactly as they were sent",
  "However a request or a response is split into packets by the network (byte by byte too, with signals interrupting the reads), the receiver gets precisely the method, decoded path, query parameters, fragment, headers (names kept, looked up regardless of case and of `-` vs. `_`, repeated ones joined), cookies and body that were sent, by Content-Length or chunked (chunk sizes of any case), whole or chunk by chunk, one after another on the same connection; a message cut short is never taken for a whole one. "
  "What the server responds is well-formed HTTP, of the code, headers, cookies (with parameters), CORS header and body given, each part exactly once, chunked or not, and what cannot be sent is an exception. "
  "The client's HTTP() call reproduces all of it end to end: every method, body from memory, file or object, response to memory or file, chunk-by-chunk download, and redirects (absolute, protocol-relative and relative ones followed if allowed, loops detected).",
  ["inputs", "schedules"], "every message and every way to split it into reads",
  "Tests exchange a few fixed messages, each of one packet, over loopback.",
  ["bricks/net/http", "bricks/net/tcp", "blocks/http"],
  [("GenericHTTPRequestData", "bricks/net/http/impl/server.h"), ("SendHTTPResponse", "bricks/net/http/impl/server.h"), ("BlockingRead", "bricks/net/tcp/impl/posix.h"), ("GenericHTTPClientPOSIX", "blocks/http/impl/posix_client.h")],
  [("offset, body_offset", "parsing position in the growing buffer", "bricks/net/http/impl/server.h")],
  ["parsed messages", "bytes written to the socket", "responses as seen by the client"],
  "generated messages fed through instrumented recv() in random pieces and compared with what was sent; independent parser of what was written; round trips over loopback; ASan and UBSan",
  "Messages of up to a few hundred kilobytes, sampled. TLS and non-POSIX implementations are not covered.")

P("C22", "Malformed HTTP never crashes, hangs or misleads the server or the client",
  "Whatever bytes a peer sends (mutated and truncated messages, wild Content-Length or chunk sizes, unterminated headers, bodies over the limit, connections dropped in the middle), the parser either returns or throws a current::Exception, reading no memory that is not its own and allocating within the documented limits; the server answers with an error or drops that connection, then keeps serving the others; the client throws, or returns what it got if whole.",
  ["inputs", "fault_sequences"], "every sequence of bytes and every point at which the connection breaks",
  "Tests cover a few malformed requests.",
  ["bricks/net/http", "blocks/http"],
  [("GenericHTTPRequestData", "bricks/net/http/impl/server.h"), ("HTTPServerPOSIX::Thread", "blocks/http/impl/posix_server.h")],
  [("buffer_", "what has been read so far", "bricks/net/http/impl/server.h")],
  ["exceptions", "survival", "later responses"],
  "structure-aware mutation fuzzing of the parser with the socket replaced, and of the live server and client over loopback, under ASan and UBSan",
  "A peer that is silent blocks the single serving thread: known limitation, not part of the property. Chunked bodies are not limited by design, as they may be streamed.")

P("C23", "URLs survive composing and parsing, and their parameters fill objects faithfully",
  "URL::EncodeURIComponent produces only characters safe anywhere in a URL, and DecodeURIComponent is its inverse for all bytes. Parsing splits any URL (with or without scheme, host, port, credentials, path, query, fragment; those characters escaped wherever they are special) into its parts exactly; ComposeURL gives a URL that parses to the same ones; defaults and redirects take only what is missing from the defaults or from the previous URL. "
  "Query parameters are decoded once, the first of the same name winning. FillObject sets precisely the fields given, each to its very value, and throws on values which are not of the field's type and, if strict, on missing ones. No string makes the parser fail other than with its own exceptions.",
  ["inputs"], "every string and every combination of parts",
  "Tests parse a couple dozen hand-written URLs.",
  ["blocks/url/url.h"],
  [("URL", "blocks/url/url.h"), ("URLParametersExtractor", "blocks/url/url.h")],
  [("parameters_vector", "query parameters as given", "blocks/url/url.h")],
  ["parts of the URL", "the composed URL", "filled objects"],
  "generated parts escaped in random ways, round trips, and junk, under ASan and UBSan",
  "Path-only URLs that begin with two slashes are not covered, as they are protocol-relative ones.")

P("C24", "The collection of HTTP headers behaves as an ordered case-insensitive map",
  "Under any sequence of setting, appending, assigning through operator[], removing, copying, moving and assigning (to itself too), Headers keep the order and the spelling of the first addition, look names up regardless of case and of `-` vs. `_`, join repeated values with a comma ignoring empty ones, never mix cookies with headers (refusing those as regular ones), and never refer to memory freed.",
  ["histories"], "every sequence of operations",
  "Tests try a few sequences, with no sanitizers.",
  ["bricks/net/http/headers/headers.h"],
  [("Headers", "bricks/net/http/headers/headers.h")],
  [("map, list", "lookup by name and the order, of the same headers", "bricks/net/http/headers/headers.h")],
  ["every accessor of the collection"],
  "model-based random testing with every accessor compared after each step, under ASan and UBSan",
  "Sequences of up to 45 operations over a dozen names.")

P("C25", "HTTP requests go to precisely the route registered for them, while it is",
  "A request is handled by the handler registered for the longest prefix of its path that accepts that number of remaining components, with those passed decoded and in order, or else answered 404; registering what is registered already, or an invalid path, throws and changes nothing; a scope, however moved, summed or assigned, keeps its routes exactly until destroyed, and once it is, no request is being handled or ever will be by its handlers, with requests in flight finishing first. All of it holds while other threads register, unregister and send requests, from the very start of the server. "
  "ServeStaticFilesFrom() serves exactly the visible files of the directory, with their contents and types, indexes at directory URLs with redirects to the trailing slash, for GET only, and leaves nothing behind when it throws or its scope ends.",
  ["histories", "schedules"], "every history of registrations and every interleaving with requests",
  "Tests register fixed routes from one thread.",
  ["blocks/http/impl/posix_server.h", "blocks/http/request.h", "bricks/util/accumulative_scoped_deleter.h"],
  [("DoRegisterHandler", "blocks/http/impl/posix_server.h"), ("FindHandler", "blocks/http/impl/posix_server.h"), ("ServeStaticFilesFrom", "blocks/http/impl/posix_server.h")],
  [("handlers_", "path and number of arguments to the handler", "blocks/http/impl/posix_server.h")],
  ["responses", "which handler ran and when", "PathHandlersCount"],
  "reference model of the routes compared on each request; concurrent monitors that no handler runs after its scope has ended, under ASan and TSan",
  "Interleavings sampled.")

P("C26", "RipCurrent delivers each message to each block once, in order, one at a time",
  "Whatever the shape of the flow (pipes and pluses nested in any way, blocks reused, the same flow run several times at once) and however many threads emit into it (from constructors, destructors and threads of the sources and of the blocks in the middle), each message reaches the block which accepts its type exactly once, those from one thread in the order emitted; no block is ever called from two threads at a time, nor before its construction has finished or after its destruction has begun; Join() and the end of an Async() scope return after everything emitted is processed and all the instances are destroyed. "
  "Posted and scheduled messages are delivered in the order of timestamps, as soon as the head reaches theirs and never before; timestamps that go back are reported as errors and change nothing. A block left unused or a scope not taken care of is reported exactly once, and nothing else is.",
  ["schedules", "histories", "programs"], "every flow, every interleaving of the threads that emit into it",
  "Tests run single-threaded flows of a few messages.",
  ["ripcurrent/ripcurrent.h", "ripcurrent/types.h", "blocks/mmq/mmpq.h"],
  [("SharedSequenceImpl::MMPQWrapper", "ripcurrent/ripcurrent.h"), ("SharedParallelImpl::Router", "ripcurrent/ripcurrent.h"), ("CallsGeneratingBlock", "ripcurrent/ripcurrent.h")],
  [("waitable_counters_", "messages published and processed", "ripcurrent/ripcurrent.h")],
  ["messages as delivered", "error handler calls", "instances alive"],
  "fourteen shapes of flows with instrumented blocks, results compared with a reference interpreter of the flow, under TSan and ASan",
  "Messages scheduled for a moment which the head never reaches keep Join() waiting: left as is, not part of the property. Interleavings sampled.")

P("C28", "Time as seen by the code never goes back, and dates survive their text form",
  "current::time::Now() called from any threads, whatever the system clock does (stands still, jumps forward or backwards), returns strictly increasing and never repeated values, no lower than the system clock's. Mock time is the value last set, advances only when told to, and refuses to go back. Dates formatted (local, UTC, IMF-fix, with a custom format) and parsed back are the same moment to the precision of the format; text which is not a date is reported as such. Durations are described in words matching their length.",
  ["schedules", "inputs"], "every interleaving of callers and every behaviour of the system clock; every moment from 1970 on",
  "Tests call Now() a few times with the actual clock, and format a few dates.",
  ["bricks/time/chrono.h", "bricks/strings/time.h", "bricks/strings/distance.h"],
  [("Now", "bricks/time/chrono.h"), ("SetNow", "bricks/time/chrono.h"), ("FormatDateTime", "bricks/time/chrono.h")],
  [("monotonic_now_us", "the last moment given out", "bricks/time/chrono.h")],
  ["values of Now() by thread", "formatted and parsed dates"],
  "the system clock interposed with a scripted one; per-thread logs of Now() checked for uniqueness and order; dates compared with independent calendar arithmetic, under TSan and ASan",
  "Moments from 1970 to 2262, as the system clock of the library counts nanoseconds.")

P("C29", "Strings are split, joined, printed, parsed, matched and encoded faithfully",
  "For any bytes: Split, Join, Trim, ToLower, SplitIntoKeyValuePairs, StatefulGroupByLines (fed in any pieces), Chunk's lookups and comparisons, ToString/FromString of each arithmetic type and enum, RoundDoubleToString, named groups of regular expressions, Base64 (both alphabets), CRC32 and SHA256 agree with their plain definitions; what is encoded is decoded the same, malformed text is reported and never read out of bounds.",
  ["inputs"], "every string of bytes and every number",
  "Tests use a few ASCII strings.",
  ["bricks/strings/split.h", "bricks/strings/join.h", "bricks/strings/util.h", "bricks/strings/chunk.h", "bricks/strings/rounding.h", "bricks/strings/regex.h", "bricks/strings/group_by_lines.h", "bricks/util/base64.h", "bricks/util/crc32.h", "bricks/util/sha256.h"],
  [("Split", "bricks/strings/split.h"), ("FromString", "bricks/strings/util.h"), ("Base64Decode", "bricks/util/base64.h")],
  [("input", "bytes given", "bricks/strings/split.h")],
  ["values returned", "exceptions"],
  "differential random testing against naive reference implementations written in the harness, under ASan and UBSan",
  "Strings of up to some kilobytes. Formatting of non-finite values and Printf of over 1MB (truncated, as documented) are not covered.")

P("C35", "Variant and Optional hold precisely the value last put there",
  "Under any sequence of construction, assignment, copy, move, conversion, dispatch, swap and clearing, a Variant holds the one value of the one type put there last, dispatches to precisely the handler for that type, and throws when accessed as another type or while empty; Optional and ImmutableOptional (of plain and of class types, owning the value or referring to a bare pointer) exist exactly if given a value, hold that value, compare as optionals do, and throw when accessed while missing. No value is leaked, used after being freed, or read uninitialized.",
  ["histories"], "every sequence of operations",
  "Tests exercise each operation by itself, with no sanitizers.",
  ["typesystem/variant.h", "typesystem/optional.h", "typesystem/optional_result.h"],
  [("VariantImpl", "typesystem/variant.h"), ("Optional", "typesystem/optional.h"), ("ImmutableOptional", "typesystem/optional.h")],
  [("object_", "the value held", "typesystem/variant.h"), ("optional_object_", "the value held or referred to", "typesystem/optional.h")],
  ["Exists", "Value", "Call", "comparisons"],
  "model-based random testing against std::variant and std::optional after each step, under ASan and UBSan",
  "Sequences of some dozens of operations on a few variables.")

P("C37", "Deferred actions run exactly once, lazy and single objects are created once",
  "ScopeGuard and AccumulativeScopedDeleter run each action exactly once, when the last scope that owns it ends, whatever has been moved, summed and assigned, including when ended by an exception; lazily instantiated objects are constructed at most once, on the first use, with the parameters given; Singleton<T>() is one fully constructed object for all threads, ThreadLocalSingleton one per thread; random numbers stay within the bounds given and repeat for the same seed; views over maps yield each element in order; waits on WaitableTerminateSignal return if and only if the condition holds or the signal is given, and none is lost.",
  ["histories", "schedules"], "every history of scopes, every interleaving of waits and notifications",
  "Tests run each utility once or twice.",
  ["bricks/util/make_scope_guard.h", "bricks/util/accumulative_scoped_deleter.h", "bricks/util/lazy_instantiation.h", "bricks/util/singleton.h", "bricks/util/random.h", "bricks/util/iterator.h", "bricks/util/waitable_terminate_signal.h"],
  [("ScopeGuard", "bricks/util/make_scope_guard.h"), ("AccumulativeScopedDeleter", "bricks/util/accumulative_scoped_deleter.h"), ("WaitableTerminateSignal", "bricks/util/waitable_terminate_signal.h")],
  [("deleters_", "actions yet to run", "bricks/util/accumulative_scoped_deleter.h"), ("stop_signal_", "whether the signal is given", "bricks/util/waitable_terminate_signal.h")],
  ["actions run", "instances alive", "returned values"],
  "model-based random testing of scopes and lazy objects, and concurrent monitors of singletons and signals, under ASan and TSan",
  "Interleavings sampled.")

P("C34", "File operations do what they say, nothing else, and report what failed",
  "For any tree of files, directories and symbolic links with any names: reading, writing, appending, listing (flat and recursive, files and directories, stopped early or by an exception), creating, renaming and removing affect exactly the files meant, with their exact contents; whatever fails is reported by the exception of the respective kind, writes that did not reach the file included, or ignored if asked to; recursive removal removes everything inside and nothing outside, symbolic links themselves and not what they refer to; scoped removal happens when the scope ends; no descriptor is leaked.",
  ["histories", "fault_sequences"], "every tree and every sequence of operations, with full disks and directories inaccessible",
  "Tests use a handful of regular files, with no faults.",
  ["bricks/file/file.h"],
  [("FileSystem", "bricks/file/file.h"), ("ScanDirUntil", "bricks/file/file.h"), ("RmDir", "bricks/file/file.h")],
  [("files", "the tree of files as seen by lstat", "bricks/file/file.h")],
  ["the whole tree after each step", "exceptions", "open descriptors"],
  "model-based random testing against an in-memory model of the tree, with injected write faults, as an unprivileged user in a scratch directory, under ASan and UBSan",
  "Trees of some dozens of nodes, and flat directories of thousands; recursive listing with links forming cycles, and of the links themselves, is not covered.")

P("C33", "TCP connections carry the exact bytes, and own their descriptors",
  "For any sequence of writes of any sizes and kinds from either side, both at once, split into any segments, and with signals arriving: the other side reads exactly these bytes, in order, none made up, never beyond the buffer given; a full-buffer read returns all of it or throws; an end of the stream and a reset are reported each by its own exception, with whether anything was read, never as data; writing to a closed connection throws and never raises a signal. A socket, a connection, or a reserved port is owned by one object at a time: moved or assigned, its descriptor is closed exactly once, as the last owner goes, and the object moved away from says so. Ports reserved at the same time are distinct and held until released or served.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of segments, every interleaving of the two directions, signals, resets, and every history of moves",
  "Tests send a few short strings, with no signals or resets, and do not count descriptors.",
  ["bricks/net/tcp/impl/posix.h"],
  [("Connection", "bricks/net/tcp/impl/posix.h"), ("Socket", "bricks/net/tcp/impl/posix.h"), ("ReserveLocalPort", "bricks/net/tcp/impl/posix.h")],
  [("descriptors", "open descriptors, the ports held, and bytes in flight", "bricks/net/tcp/impl/posix.h")],
  ["bytes written and read", "exceptions", "open descriptors of the process", "whether a port can be bound"],
  "position-dependent byte streams checked at each read, injected signals and resets, descriptor and port accounting against a model of ownership, under ASan, UBSan and TSan",
  "Loopback only, streams of up to a few megabytes; a partial send because of a full buffer together with a signal is not induced.")

P("C27", "Recorded, differentiated and compiled functions compute what the code does",
  "For any function built from the supported operations, of any size and with any sharing of subexpressions: the recorded function, its compiled versions (in-process machine code, AS, NASM, CLANG), and the original code return the same value at every point; the gradient of the recorded function, native and compiled, is the true gradient; differentiation takes time polynomial in the size of the function; recording is per-thread, and a second one at the same time on one thread is refused. The optimizers, with or without JIT, minimizing or maximizing, return a point and its true value, no worse than the starting one, follow the stopping criterion, and reach the optimum of convex functions.",
  ["inputs", "programs"], "every expression, every point, every convex function and starting point",
  "Tests check some dozens of fixed formulas at fixed points.",
  ["fncas/fncas", "fncas/x64_native_jit"],
  [("differentiate_node", "fncas/fncas/differentiate.h"), ("JITImplementation", "fncas/fncas/jit.h"), ("x64_native_jit", "fncas/x64_native_jit/x64_native_jit.h"), ("GradientDescentOptimizer", "fncas/fncas/optimize.h")],
  [("nodes", "the recorded nodes of the function, its values and gradients", "fncas/fncas/node.h")],
  ["values", "gradients", "optimization results", "memory beyond the heap given to the compiled code"],
  "differential testing of random expression DAGs: plain evaluation, recorded, four compilers, and forward-mode dual numbers for gradients; reference optima; under ASan/UBSan and TSan",
  "Expressions of up to 300 random nodes, chains of up to 80000, sharing with up to 2^60 paths; gradients compared where well conditioned; the sign of zero after unary minus not claimed.")

P("C16", "Schemas describe types exactly, and the code they generate is of the same types",
  "For any types built of primitive types, enums, structs (inheriting, templated, referring to each other in cycles), variants, optionals and containers: the reflected schema lists every type reachable, once, after those it is built of, with the precise kinds, names, base, fields with descriptions, cases, sizes and inner types; distinct types have distinct type IDs, the same type the same one, from whichever type and thread it is looked at first; the schema survives its JSON form; the Current C++ code generated from it compiles, is of types with the same IDs, and reads and writes the same JSON; plain C++ code compiles; natural evolution into the same types is the identity; and the other forms (JSON, Markdown) list the same fields in the same order.",
  ["programs", "inputs"], "every set of type definitions and every value of them",
  "Tests compare the schemas of a few fixed types with stored text.",
  ["typesystem/reflection/reflection.h", "typesystem/reflection/types.h", "typesystem/schema/schema.h", "typesystem/evolution/type_evolution.h", "typesystem/struct.h", "typesystem/typename.h", "bricks/strings/escape.h"],
  [("ReflectorImpl", "typesystem/reflection/reflection.h"), ("CalculateTypeID", "typesystem/reflection/types.h"), ("LanguageSyntaxImpl", "typesystem/schema/schema.h"), ("Evolve", "typesystem/evolution/type_evolution.h")],
  [("reflected_types_", "the types reflected so far", "typesystem/reflection/reflection.h"), ("types_", "the types of the schema", "typesystem/schema/schema.h")],
  ["type IDs", "schemas", "generated code and its own schema", "evolved values"],
  "programs with random types are generated, compiled with sanitizers and run; their schemas are compared with the definitions, then the code generated from the schemas is compiled, run, and compared with the original types, by type IDs and by data",
  "Programs of up to some dozens of types. The code generated for instances of templates is checked only where they are fields of structs, and not as plain C++ (their names in it are pinned by a test as they are); fixed-size arrays, sets and unordered containers have no evolvers; the F# and TypeScript outputs are produced, not compiled.")

P("C30", "Tables packed or read as CSV come back cell by cell",
  "Any table of up to 254 columns, with cells of any bytes up to 64KB, packed with CompactTSV is unpacked into precisely the same rows, in each of the four forms of the handler (strings, bare pointers, pointers with lengths, unique chunks, equal if and only if the strings are), from memory of any alignment, each distinct string stored once and unchanged cells not stored again; a CSV file with any line ends yields precisely its header and its fields, the empty ones included, and a row of a different number of fields, a file with no header, or no file, is reported and never read shifted.",
  ["inputs"], "every table and every CSV file",
  "Tests pack one small table and read four CSV files with no empty fields.",
  ["compact_tsv/compact_tsv.h", "utils/csv/csv.h"],
  [("CompactTSV", "compact_tsv/compact_tsv.h"), ("Unpack", "compact_tsv/compact_tsv.h"), ("ReadFile", "utils/csv/csv.h")],
  [("offsets_", "the strings already stored", "compact_tsv/compact_tsv.h"), ("data", "the rows read", "utils/csv/csv.h")],
  ["rows unpacked", "packed size", "exceptions"],
  "round trips of random tables compared cell by cell, CSV compared with an independent reader, under ASan and UBSan with alignment",
  "Tables of up to some megabytes. Quoting in CSV is not supported by the library; malformed packed data is not covered.")

P("C31", "Operational transformations yield the text the operations spell",
  "For any log of operations over any Unicode text: the snapshot given to the processor after each record, with its timestamp, and the final text are those of the operations applied one by one (insert, skip, erase, in characters, from the beginning of the text in each record); the processor may stop at any record, and gets the text as of then; any input that is not such a log (malformed JSON, missing or mistyped fields, invalid UTF-8, numbers not integer or moving beyond the text) throws OTParseException, after the records before it are processed, and never accesses memory out of bounds.",
  ["histories", "inputs"], "every log and every text given as a log",
  "The test checks one recorded log.",
  ["utils/operational_transformation/ot.h"],
  [("OT", "utils/operational_transformation/ot.h")],
  [("rope", "the text", "utils/operational_transformation/ot.h"), ("caret", "the position within it", "utils/operational_transformation/ot.h")],
  ["snapshots", "output", "exceptions"],
  "differential testing of random logs against a reference model, then random mutations of the logs, under ASan and UBSan",
  "Logs of up to 60 records.")

P("C32", "Configs are printed, kept, updated and restored as they are",
  "Any tree of nginx directives, made with any of the builders, prints as nginx text which parses back into the same tree, in order, with a server per port, a port used twice refused; its JSON form prints the same. A self-modifying config always equals what was last loaded or set; each update keeps the previous config, under the name with the moment of the update, and the file itself holds the new one; what can not be read, parsed, or written is reported by the exception of the respective kind, and neither a failed reload nor an update with its history not written changes the config or the file.",
  ["histories", "fault_sequences"], "every tree, every sequence of updates, reloads, external edits and failures",
  "Tests print one config and make a couple of updates.",
  ["utils/nginx/config.h", "blocks/self_modifying_config/config.h"],
  [("ConfigPrinter", "utils/nginx/config.h"), ("CreateServer", "utils/nginx/config.h"), ("SelfModifyingConfig", "blocks/self_modifying_config/config.h")],
  [("directives", "the tree of directives", "utils/nginx/config.h"), ("config_", "the config in use", "blocks/self_modifying_config/config.h")],
  ["printed text", "all the files after each step", "exceptions"],
  "random trees printed and parsed back by an independent parser; model-based testing of the config and its files, as an unprivileged user with unwritable files and directories, under ASan and UBSan",
  "Updates are at least a second apart (those within the same second overwrite the history, by its naming). The nginx binary itself is not run.")

P("C39", "Structures inferred from JSON documents accept those documents",
  "For any set of JSON documents, one per line, the CURRENT_STRUCTs inferred from them declare every field which has a value in any document and is not ignored, at any depth, in structures each declared once, and nothing else; the type of each is the narrowest which accepts all the values seen there: bool, string, microseconds, unsigned or signed integer, double, vector of the type of the elements, structure; Optional if and only if it is null or missing somewhere. The structures compile, and every document parses as them and survives a further round trip. Documents with values of different kinds at the same place, keys which are not identifiers, arrays with nothing to infer from, or lines which are not JSON, are refused with an exception. The description tells, for each path, the type, the number of values, of nulls (at least one if it is missing anywhere), of distinct strings with the most frequent ones, and the mean and the deviation, as they are.",
  ["inputs"], "every set of documents",
  "Tests compare some thirty tiny files with golden outputs, and never compile or parse anything with what is inferred.",
  ["utils/json_schema/infer.h"],
  [("JSONSchemaAsCurrentStructs", "utils/json_schema/infer.h"), ("DescribeSchema", "utils/json_schema/infer.h"), ("RecursivelyInferSchema", "utils/json_schema/infer.h")],
  [("field_schema", "what is known of the fields", "utils/json_schema/infer.h"), ("nulls", "nulls and absences seen", "utils/json_schema/infer.h")],
  ["the structures printed", "the description", "exceptions", "documents parsed by the compiled structures"],
  "random documents, with what is to be inferred computed from the values they were made of; batches of the structures are compiled and parse the documents; under ASan and UBSan",
  "Keys are not reserved words of C++, not repeated within an object; integers of a field sum up to within 63 bits (as assumed by the code); an empty array in place of a value of another kind is treated as no value, as documented, and would not parse; documents with no values at all at the top level are not covered.")

P("C40", "Karl knows of exactly the services which report to him",
  "For any history of keepalives, deregistrations, silence and restarts of Karl, graceful or not: a well-formed keepalive consistent with its URL parameters is accepted and persisted, in any of the supported formats, with the runtime status kept when it can be parsed, and any other one is refused with 400 and changes nothing; with `&confirm` Karl judges by what the service returns when called back; the fleet view of a time range shows each service heard of within the range, under its present location, with its latest keepalive in the range, up or down, dependencies resolved to codenames, build, server and runtime information; the snapshot of a service is its latest keepalive; a service is active from its keepalive to its deregistration or its timeout, which comes once the interval has passed with no keepalive, no earlier and, whatever the other services do and even if Karl was restarted, not much later; the user is called back once for each of these events, in order. A Claire which registers with confirmation is known to Karl when this returns, a keepalive waited for carries the dependencies and the status of no earlier than the call, goes to the Karl it has been told to report to last, and a Claire which ends is deregistered there. All of this is free of data races when used from different threads.",
  ["histories", "schedules", "crash_points", "inputs"], "every history of requests and every schedule of Karl, Claires, and their users",
  "Tests have one or several services in a fixed scenario with mock time; snapshots are not tested at all, and neither is concurrent use.",
  ["karl/karl.h", "karl/claire.h", "karl/schema_karl.h", "karl/schema_claire.h", "karl/render.h"],
  [("AcceptKeepaliveViaHTTP", "karl/karl.h"), ("StateUpdateThread", "karl/karl.h"), ("BuildStatusAndRespondWithIt", "karl/karl.h"), ("ServeSnapshot", "karl/karl.h"), ("Register", "karl/claire.h"), ("ForceSendKeepalive", "karl/claire.h"), ("SendKeepaliveToKarl", "karl/claire.h")],
  [("keepalives_stream_", "the log of keepalives", "karl/karl.h"), ("services_keepalive_time_cache_", "when each active service was last heard of", "karl/karl.h"), ("dependencies_", "what the service depends on", "karl/claire.h")],
  ["HTTP responses", "the storage of Karl", "callbacks", "ActiveServicesCount()"],
  "a model of the fleet compared with every answer and callback over random histories with mock time and restarts, including from the files as they were; real Karls and Claires used from several threads under TSan and ASan, with snapshots bounded by what has been sent and acknowledged; timeouts timed",
  "A codename belongs to one service name; a keepalive does not come at the very moment of its timeout (within the polling of the clock); the query parameters which are numbers are numbers; Karl and Claires are not destroyed with requests to them in progress; the SVG rendering and nginx are not covered.")

P("C36", "Command line flags are parsed exactly as documented",
  "For any command line: each flag takes precisely the value given in either form, booleans with the value omitted are true, numbers are taken over the whole range of their types and refused beyond it, the other flags keep their defaults, the remaining arguments are kept in order; an undefined flag, a missing or unparsable value, too many dashes, or parsing twice ends the process with the error code and a message, and help lists each flag with its type, description and default, and exits with success.",
  ["inputs"], "every command line",
  "Tests check some dozens of command lines, with no 8-bit values and no limits.",
  ["bricks/dflags/dflags.h"],
  [("ParseFlags", "bricks/dflags/dflags.h"), ("FlagRegisterer", "bricks/dflags/dflags.h")],
  [("flags_", "the flags registered", "bricks/dflags/dflags.h"), ("argv_", "the arguments remaining", "bricks/dflags/dflags.h")],
  ["values of flags", "remaining arguments", "exit codes", "output"],
  "random command lines compared with a reference parser; those ending the process are run in a child; under ASan and UBSan",
  "Numbers followed by garbage or preceded by spaces, and negative numbers for unsigned flags, are up to the standard streams, not covered.")
