from runner import Job

CHECKS = {}


def check(pid, jobs, rule, level="exploration", assumptions=()):
    CHECKS[pid] = {"jobs": jobs, "rule": rule, "level": level, "assumptions": list(assumptions)}


check("C01", [
    Job("h_persist.cc", "conc", "tsan", cases=60, shards=2),
    Job("h_persist.cc", "conc", "asan0", cases=60, shards=2),
    Job("h_persist.cc", "seqmem", "asan0", cases=200),
    Job("h_persist.cc", "seqfile", "asan0", cases=150),
], "distinct global interleavings of publishers (sequence of publisher ids over the final log) and distinct range queries checked against the model")
check("C02", [
    Job("h_persist.cc", "seqmem", "asan0", cases=400, shards=2),
    Job("h_persist.cc", "seqfile", "asan0", cases=200, shards=2),
    Job("h_persist.cc", "conc", "tsan", cases=30, shards=2),
], "distinct (range, log size) queries checked against the model plus distinct publisher interleavings observed by concurrent readers")
check("C03", [
    Job("h_persist.cc", "reopen", "asan0", cases=150, shards=4),
], "distinct (range, log size) queries made right after reopening the log")
check("C04", [
    Job("h_persist.cc", "torn", "asan0", cases=20, shards=4),
    Job("h_persist.cc", "kill", "asan0", cases=20, shards=2),
    Job("h_persist.cc", "diskfull", "asan0", cases=40),
], "distinct file prefixes (crash points: every byte of the log after its first line, sampled bytes of the first line) reopened, plus distinct (killed-at, recovered) outcomes",
    level="fault_enumeration")
check("C05", [
    Job("h_stream.cc", "sub", "tsan0", cases=250, shards=3, flags=["-DPARTS=1"]),
    Job("h_stream.cc", "sub", "asan0", cases=250, shards=2, flags=["-DPARTS=1"]),
    Job("h_stream.cc", "destroy", "tsan0", cases=250, shards=1, flags=["-DPARTS=1"]),
    Job("h_stream.cc", "destroy", "asan0", cases=250, shards=1, flags=["-DPARTS=1"]),
], "distinct per-subscriber event logs (kinds and order of callbacks relative to the stream's contents)")
check("C06", [
    Job("h_stream.cc", "http", "asan0", cases=120, shards=3, flags=["-DPARTS=6"]),
    Job("h_stream.cc", "live", "tsan0", cases=80, shards=2, flags=["-DPARTS=4"]),
    Job("h_stream.cc", "live", "asan0", cases=80, shards=2, flags=["-DPARTS=6"]),
], "distinct (query, stream contents) slices compared with the model, and live clients")
check("C07", [
    Job("h_stream.cc", "repl", "tsan0", cases=70, shards=2, flags=["-DPARTS=8"]),
    Job("h_stream.cc", "repl", "asan0", cases=100, shards=2, flags=["-DPARTS=8"]),
    Job("h_stream.cc", "chunks", "asan0", cases=25, shards=2, flags=["-DPARTS=8"]),
], "distinct (log, chunking, cuts) replications and split positions")
check("C08", [
    Job("h_stream.cc", "flip", "tsan0", cases=60, shards=3, flags=["-DPARTS=16"]),
    Job("h_stream.cc", "flip", "asan0", cases=100, shards=3, flags=["-DPARTS=16"]),
], "distinct flips (by topology and number of entries published concurrently) and distinct flip requests")
check("C38", [
    Job("h_stream.cc", "shutdown", "tsan0", cases=80, shards=3, flags=["-DPARTS=5"]),
    Job("h_stream.cc", "shutdown", "asan0", cases=80, shards=2, flags=["-DPARTS=5"]),
    Job("h_stream.cc", "destroy", "tsan0", cases=150, shards=1, flags=["-DPARTS=5"]),
], "distinct shutdowns (by what clients had received when the stream went away)")
check("C14", [
    Job("h_json.cc", "round-trip", "asan", cases=400, thorough=20000, shards=4, flags=["-DPARTS=1"]),
    Job("h_json.cc", "patch", "asan", cases=1500, thorough=60000, shards=2, flags=["-DPARTS=1"]),
], "distinct serialized objects")
check("C15", [
    Job("h_json.cc", "hostile", "asan", cases=200, thorough=12000, shards=4, flags=["-DPARTS=1"]),
    Job("h_json.cc", "universal", "asan", cases=2500, thorough=100000, shards=2, flags=["-DPARTS=2"]),
], "distinct documents")

check("C17", [
    Job("h_sync.cc", "owned", "tsan0", cases=1500, shards=3, flags=["-DPARTS=1"]),
    Job("h_sync.cc", "owned", "asan0", cases=3000, shards=3, flags=["-DPARTS=1"]),
    Job("h_sync.cc", "guaranteed", "asan0", cases=200, shards=1, flags=["-DPARTS=1"]),
], "distinct programs over owners and borrowers compared with the model after each step, and distinct histories of concurrent borrowers")
check("C18", [
    Job("h_sync.cc", "watomic", "tsan0", cases=300, shards=4, flags=["-DPARTS=2"]),
    Job("h_sync.cc", "watomic", "asan0", cases=300, shards=3, flags=["-DPARTS=2"]),
], "distinct orders in which threads changed the value, wakeup rings, and destructions under clients")
check("C19", [
    Job("h_sync.cc", "mmq", "tsan0", cases=700, shards=4, flags=["-DPARTS=4"]),
    Job("h_sync.cc", "mmq", "asan0", cases=1000, shards=3, flags=["-DPARTS=4"]),
], "distinct interleavings of publishers as delivered to the consumer")
check("C20", [
    Job("h_sync.cc", "mmpq", "tsan0", cases=700, shards=4, flags=["-DPARTS=8"]),
    Job("h_sync.cc", "mmpq", "asan0", cases=1000, shards=3, flags=["-DPARTS=8"]),
], "distinct orders of publishers' messages as delivered to the consumer")
check("C09", [
    Job("h_storage.cc", "txn", "asan0", cases=80, thorough=800, shards=4, flags=["-DPARTS=1"]),
], "distinct transactions (operations, ending and state of the storage), each compared with the model")
check("C10", [
    Job("h_storage.cc", "replay", "asan0", cases=6, thorough=60, shards=4, flags=["-DPARTS=2"]),
    Job("h_storage.cc", "replay", "tsan0", cases=6, thorough=60, shards=2, flags=["-DPARTS=2"], tsan_extra="detect_deadlocks=0"),
], "distinct histories replayed by a restarted master, by followers and by independent replays of the log")
check("C11", [
    Job("h_storage.cc", "cont", "asan0", cases=100, thorough=600, shards=4, flags=["-DPARTS=1"]),
], "distinct (container kind, operation, contents) states compared with the model")
check("C12", [
    Job("h_storage.cc", "conc", "tsan0", cases=120, thorough=800, shards=4, flags=["-DPARTS=4"], tsan_extra="detect_deadlocks=0"),
    Job("h_storage.cc", "conc", "asan0", cases=200, thorough=1500, shards=3, flags=["-DPARTS=4"]),
], "distinct serial orders of concurrent transactions as found in the log")
check("C13", [
    Job("h_rest.cc", "rest", "asan0", cases=150, thorough=900, shards=4, flags=["-DPARTS=1"]),
    Job("h_rest.cc", "conc", "tsan0", cases=40, thorough=400, shards=2, flags=["-DPARTS=2"], tsan_extra="detect_deadlocks=0"),
    Job("h_rest.cc", "conc", "asan0", cases=60, thorough=600, shards=2, flags=["-DPARTS=2"]),
], "distinct requests (flavor, verb, target, condition, code, collection size) and distinct orders of concurrent updates")
check("C21", [
    Job("h_http.cc", "parse", "asan0", cases=700, thorough=15000, shards=3, flags=["-DPARTS=1", "-D_GLIBCXX_SANITIZE_VECTOR=1"]),
    Job("h_http.cc", "respond", "asan0", cases=1500, thorough=100000, shards=1, flags=["-DPARTS=1", "-D_GLIBCXX_SANITIZE_VECTOR=1"]),
    Job("h_http.cc", "client", "asan0", cases=400, thorough=10000, shards=2, flags=["-DPARTS=2"]),
], "distinct messages, split into reads in different ways")
check("C22", [
    Job("h_http.cc", "hostile", "asan0", cases=2500, thorough=100000, shards=3, flags=["-DPARTS=1", "-D_GLIBCXX_SANITIZE_VECTOR=1"]),
    Job("h_http.cc", "hostile-client", "asan0", cases=1500, thorough=50000, shards=2, flags=["-DPARTS=2"]),
    Job("h_http.cc", "hostile-server", "asan0", cases=1500, thorough=50000, shards=2, flags=["-DPARTS=2"]),
], "distinct malformed, mutated and truncated messages")
check("C23", [
    Job("h_http.cc", "url", "asan0", cases=12000, thorough=1000000, shards=4, flags=["-DPARTS=4"]),
], "distinct URLs and their components")
check("C24", [
    Job("h_http.cc", "headers", "asan0", cases=2500, thorough=100000, shards=4, flags=["-DPARTS=4"]),
], "distinct histories of operations on headers compared with the model after each step")
check("C25", [
    Job("h_http.cc", "routes", "asan0", cases=500, thorough=20000, shards=2, flags=["-DPARTS=2"]),
    Job("h_http.cc", "routes-conc", "asan0", cases=40, thorough=600, shards=2, flags=["-DPARTS=2"]),
    Job("h_http.cc", "routes-conc", "tsan0", cases=30, thorough=400, shards=2, flags=["-DPARTS=2"]),
    Job("h_http.cc", "static", "asan0", cases=300, thorough=10000, shards=2, flags=["-DPARTS=2"]),
], "distinct histories of registrations and requests, each answer compared with the model")
check("C26", [
    Job("h_rip.cc", "flow", "tsan0", cases=400, thorough=20000, shards=3),
    Job("h_rip.cc", "flow", "asan0", cases=800, thorough=40000, shards=3),
    Job("h_rip.cc", "timed", "asan0", cases=600, thorough=30000, shards=2),
], "distinct orders of delivery, and histories of timed messages and of blocks' uses")
check("C28", [
    Job("h_time.cc", "now", "tsan", cases=150, thorough=3000, shards=2, flags=["-DPARTS=1"]),
    Job("h_time.cc", "now", "asan", cases=300, thorough=6000, shards=2, flags=["-DPARTS=1"]),
    Job("h_time.cc", "dates", "asan", cases=1500, thorough=100000, shards=2, flags=["-DPARTS=1"]),
    Job("h_time.cc", "mock", "tsan", cases=150, thorough=3000, shards=1, flags=["-DPARTS=2"]),
    Job("h_time.cc", "mock", "asan", cases=300, thorough=6000, shards=1, flags=["-DPARTS=2"]),
], "distinct orders of threads' calls to Now() with a scripted system clock, and distinct moments formatted and parsed")
check("C29", [
    Job("h_strings.cc", "text", "asan", cases=8000, thorough=400000, shards=3),
    Job("h_strings.cc", "numbers", "asan", cases=20000, thorough=1000000, shards=2),
    Job("h_strings.cc", "codecs", "asan", cases=8000, thorough=400000, shards=2),
    Job("h_strings.cc", "regex", "asan", cases=1000, thorough=50000, shards=2),
], "distinct strings, splits, numbers, patterns, and encoded data, each compared with a naive reference")
check("C35", [
    Job("h_util.cc", "variant", "asan", cases=500, thorough=20000, shards=3, flags=["-DPARTS=2"]),
    Job("h_util.cc", "optional", "asan", cases=500, thorough=20000, shards=3, flags=["-DPARTS=2"]),
], "distinct histories of operations on variants and optionals, compared with std::variant and std::optional after each step")
check("C37", [
    Job("h_util.cc", "scopes", "asan", cases=8000, thorough=400000, shards=3, flags=["-DPARTS=1"]),
    Job("h_util.cc", "threads", "tsan", cases=1500, thorough=60000, shards=3, flags=["-DPARTS=1"]),
    Job("h_util.cc", "threads", "asan", cases=2000, thorough=60000, shards=2, flags=["-DPARTS=1"]),
], "distinct histories of scopes and guards moved and ended, and distinct orders of concurrent waits and notifications")
check("C39", [
    Job("h_infer.cc", "infer", "asan", cases=3000, thorough=150000, shards=3),
    Job("h_infer.cc", "compile", "plain", cases=1, thorough=20, shards=2),
], "distinct sets of documents, with the structures inferred compared with what their values require")
check("C40", [
    Job("h_karl.cc", "fleet", "asan", cases=40, thorough=4000, shards=3, flags=["-DPARTS=1"]),
    Job("h_karl.cc", "live", "tsan", cases=60, thorough=3000, shards=2, flags=["-DPARTS=2"]),
    Job("h_karl.cc", "live", "asan", cases=60, thorough=3000, shards=1, flags=["-DPARTS=2"]),
    Job("h_karl.cc", "late", "asan", cases=6, thorough=100, shards=1, flags=["-DPARTS=2"]),
], "distinct fleet views (query and ages of the services seen), histories of concurrent services as Karl was told of them, programs of Claires")
check("C34", [
    Job("h_file.cc", "tree", "asan", cases=200, thorough=20000, shards=4, as_nobody=True),
], "distinct trees of files, directories and links, with the history of operations, compared with the model after each step")
check("C33", [
    Job("h_net.cc", "stream", "asan", cases=150, thorough=20000, shards=2),
    Job("h_net.cc", "stream", "tsan", cases=80, thorough=8000, shards=2),
    Job("h_net.cc", "ports", "asan", cases=25, thorough=3000, shards=2),
    Job("h_net.cc", "ports", "tsan", cases=15, thorough=1500),
    Job("h_net.cc", "moves", "asan", cases=300, thorough=60000),
    Job("h_net.cc", "resets", "asan", cases=300, thorough=30000),
], "distinct patterns of writes and reads as they happened, sets of ports reserved, histories of ownership")
check("C27", [
    Job("h_fncas.cc", "functions", "asan", cases=250, thorough=30000, shards=4),
    Job("h_fncas.cc", "optimize", "asan", cases=100, thorough=6000, shards=2),
    Job("h_fncas.cc", "threads", "tsan", cases=100, thorough=4000, shards=2),
], "distinct recorded functions (the sequences of operations), and distinct optimization results")
check("C16", [
    Job("h_schema.cc", "types", "plain", cases=1, thorough=40, shards=6, timeout=850),
    Job("h_schema.cc", "cycles", "plain", cases=1, thorough=40, shards=1, timeout=850),
], "distinct type IDs of the random types reflected")
check("C30", [
    Job("h_small.cc", "compact", "asan", cases=150, thorough=8000, shards=3, flags=["-DPARTS=1", "-fsanitize=alignment"]),
    Job("h_small.cc", "csv", "asan", cases=5000, thorough=300000, shards=2, flags=["-DPARTS=1", "-fsanitize=alignment"]),
], "distinct packed tables and CSV files")
check("C31", [
    Job("h_small.cc", "ot", "asan", cases=8000, thorough=400000, shards=3, flags=["-DPARTS=1", "-fsanitize=alignment"]),
], "distinct operational transformation logs")
check("C32", [
    Job("h_small.cc", "nginx", "asan", cases=1500, thorough=100000, shards=2, flags=["-DPARTS=1", "-fsanitize=alignment"]),
    Job("h_small.cc", "config", "asan", cases=800, thorough=40000, shards=2, flags=["-DPARTS=2"], as_nobody=True),
], "distinct nginx configs printed, and histories of self-modifying configs")
check("C36", [
    Job("h_small.cc", "flags", "asan", cases=6000, thorough=300000, shards=3, flags=["-DPARTS=2"]),
], "distinct command lines")
