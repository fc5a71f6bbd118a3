"""Properties of the crates that build in this sandbox as they are."""
P = []
def p(id, title, statement, over, text, why, files, mech, how, note, level="exploration", tech=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, how=how, note=note, level=level, tech=tech, observe=observe or []))

p("C01", "Every cache variant behaves like an exact LRU map",
  "A cache answers every lookup with the last value inserted for that key unless that entry was removed or evicted, and evicts only when full, always the least recently used entry (of the key's shard when it is sharded). Peeking changes no order, popping hands out every cached entry exactly once and returns nothing only when the cache is empty. Length, capacity and iteration agree with the contents at all times.",
  ["inputs", "histories", "configurations"], "all operation histories on all key sets, capacities and shard counts, for each of the five cache implementations",
  "The tests run a few fixed operation scripts; nothing explores long random histories, eviction under touch/peek/contains mixes, tiny capacities, or popping across shards.",
  ["common/cache/src"], [("sharding and per-shard LRU", "common/cache/src/sharded_sync_cache.rs, sharded_async_cache.rs"), ("LRU list", "common/cache/src/lru_cache.rs")],
  "Random histories (thousands per run) against the public API of all five implementations; the oracle is a 50-line vector LRU per shard, the shard of each key being discovered through the public shard accessors. Every return value, length, capacity, iteration order and eviction is compared; each history ends by draining with pop.",
  "held on the executed histories; trusts the 50-line model", tech="model-based history monitor")
p("C02", "Shared caches stay linearizable under concurrent use",
  "Whatever threads or tasks share a cache, every operation takes effect atomically between its call and its return. No inserted value is lost or handed out twice, the capacity is never exceeded for any observer, and holding a shard's lock excludes everybody else from that shard, across awaits too.",
  ["schedules", "histories"], "all interleavings of concurrent operations on the shared caches",
  "The tests of the caches are single-threaded or check only that nothing panics; an atomicity violation shows only in particular interleavings.",
  ["common/cache/src/sync_cache.rs", "common/cache/src/async_cache.rs", "common/cache/src/sharded_sync_cache.rs", "common/cache/src/sharded_async_cache.rs"], [("locks", "common/cache/src")],
  "Threads (sync) and tasks on a multi-thread runtime (async) run short histories on few keys with unique values; call/return events are stamped by one clock and each history is checked for linearizability against the LRU model (WGL search with memo, budgeted: an exhausted budget is inconclusive). Conservation of unique values, capacity seen by a watcher thread, and lock exclusion by read-modify-write across awaits are checked on separate stress runs; pops race on a cache nobody inserts into while its shards are held, and a pop may come back empty only if no later pop still found an entry.",
  "held on the interleavings the OS and tokio schedulers produced; counts are in the evidence", tech="linearizability checking of recorded concurrent histories")
p("C03", "The circular key-value cache keeps exactly the newest contiguous window",
  "After any series of appends, overwrites and deletions of a prefix or suffix, a lookup returns exactly the value last put for a key still inside the window and nothing for any other key, and the last entry is the newest one. Appending past capacity drops the oldest entries only.",
  ["histories", "inputs"], "all histories of appends (with gaps), deletions and lookups at all capacities",
  "One unit test appends a fixed series; wrap-around, gaps, suffix truncation and re-appending are not combined.",
  ["common/cache/src/circular_kvcache.rs"], [("ring indexing", "common/cache/src/circular_kvcache.rs")],
  "Random histories against a BTreeMap window model; all keys around the window are looked up after every step.",
  "held on the executed histories", tech="model-based history monitor")
p("L01", "Token buckets grant what the configured rate allows and never more",
  "Over any stretch of time the tokens handed out never exceed the balance at its start plus the refills due in it, and the balance never exceeds the configured maximum. A request the balance can serve is served, one it cannot serve is refused whole, and concurrent requesters never share a token. A clock that steps back creates no tokens and breaks nothing.",
  ["inputs", "histories", "schedules"], "all rates, maxima, initial balances, request sizes, clock movements and racing requesters",
  "Tests read the real clock and check a couple of rates; overflow, idle stretches of years, clock steps and racing requesters are out of reach for them.",
  ["common/limiter_bucket/src"], [("refill arithmetic", "common/limiter_bucket/src/rate_bucket.rs"), ("count bucket", "common/limiter_bucket/src/count_bucket.rs")],
  "The harness executable defines clock_gettime, so the code under test reads a virtual wall clock. Random histories of requests, clock advances (ns to years), steps back and state reloads are compared with an exact refill model (sub-millisecond refill grids, where millisecond truncation may delay a refill, are held to the upper bound only). Threads race at a frozen instant and across refills; totals are compared with the exact supply.",
  "held on the executed histories; trusts the clock interposition", tech="model-based monitor under a virtual clock")
p("L02", "A limiter's persisted state describes the same limiter",
  "A count or rate limiter built from its configuration has exactly the configured limits and a count limiter's value is the sum of its movements. Writing its state out (text or binary) and reading it back yields an equal limiter, whatever the order of the fields, and an incomplete state is refused.",
  ["inputs", "histories"], "all bucket states and configurations", "Tests serialise one bucket.",
  ["common/limiter_bucket/src"], [("serde of the buckets", "common/limiter_bucket/src")],
  "Random buckets are serialised (JSON), reparsed and run beside the original under the virtual clock; the JSON image is compared with an independent rendering.",
  "held on the executed cases", tech="differential round-trip monitor under a virtual clock")
p("M01", "Metric recorders count exactly what was recorded",
  "Counters, gauges, averages, duration counters and histograms report exactly the aggregate of the recorded values, however the recordings interleave. A histogram puts each value into the first bucket whose bound admits it. Copies of a recorder share its state.",
  ["inputs", "schedules"], "all recorded values (extremes included) and all interleavings of recorders",
  "Tests record a few values on one thread.",
  ["common/metrics/src"], [("atomic recorders", "common/metrics/src")],
  "Random and extreme values recorded by racing threads through clones; totals compared with independently computed aggregates at quiescence, and monotone counters watched while they move.",
  "held on the executions made", tech="conservation monitor over concurrent recordings")
p("M02", "One metric name and label set is one recorder, reported exactly once",
  "Registering or looking up a metric under a register always yields the same recorder for the same labels, also when look-ups race. A report contains every live recorder exactly once with the labels of its register chain merged with its own, and nothing removed or replaced.",
  ["histories", "schedules"], "all trees of registers and histories of registrations, removals and updates",
  "Tests build one small tree.",
  ["common/metrics/src/metric_register.rs", "common/metrics/src/metric.rs"], [("register tree", "common/metrics/src/metric_register.rs")],
  "Random register trees and histories mirrored in a reference registry; the full report compared after every history; racing look-ups must share one recorder.",
  "held on the executed histories", tech="model-based history monitor, race stress")
p("M03", "The Prometheus export says exactly what the registry holds",
  "The exported text is valid Prometheus exposition format and parses back to exactly the registry's samples and nothing else: names, help, kinds, label values with any characters, values, and cumulative histogram buckets with sum and count.",
  ["inputs", "histories"], "all registries, label values and recorded values",
  "Tests compare one literal export.",
  ["common/metrics/src"], [("Prometheus reporter", "common/metrics/src/prom_reporter.rs")],
  "Random registries are exported and parsed by an independent parser of the text format; samples compared with the reference registry.",
  "held on the executed cases; trusts the independent parser", tech="differential monitor with an independent parser")
p("U01", "Hashing a byte stream does not depend on how it is cut",
  "The series hash of a byte string equals its published definition however the bytes are fed in, and is the same on every node and run.",
  ["inputs"], "all byte strings and segmentations", "Tests hash a few literals.",
  ["common/utils/src/bkdr_hash.rs"], [("BKDR", "common/utils/src/bkdr_hash.rs")],
  "Random strings and segmentations against the BKDR definition written independently.", "held on the executed inputs", tech="differential monitor")
p("U02", "A Bloom filter never forgets a key, also after being stored",
  "A filter answers yes for every inserted key, before and after its bytes are stored and reloaded, and its stored bytes are exactly what its definition prescribes, so filters written earlier stay readable. Its false positive rate stays near the theoretical one.",
  ["inputs", "histories"], "all key sets, sizes and stored images", "Tests insert a handful of keys at one size.",
  ["common/utils/src/bloom_filter.rs"], [("bit addressing", "common/utils/src/bloom_filter.rs")],
  "Random key sets and sizes; membership, image against an independent implementation, reload at sizes not a multiple of the word; false positives counted over fresh keys.", "held on the executed inputs", tech="differential monitor")
p("U03", "Deduplication keeps one element per run and drops each loser exactly once",
  "Deduplicating a vector in place keeps exactly one element of each run of equal keys, the last one, in order. Every removed element is dropped exactly once, and a panic in the comparison or in a drop leaves every element dropped at most once and none used after being dropped.",
  ["inputs", "fault_sequences"], "all vectors, comparison outcomes and panic points", "Tests cover a few vectors and no panics.",
  ["common/utils/src/dedup.rs"], [("gap-filling drop guard (unsafe)", "common/utils/src/dedup.rs")],
  "Vectors of drop-counting elements with heap payloads; panics injected at every j-th comparison and in drops; per-element drop counts, survivors and contents compared with the definition. Also run under Miri (X01).", "held on the executed cases and panic points", level="fault_enumeration", tech="fault injection with drop accounting")
p("U04", "Timestamps convert between precisions exactly or report overflow",
  "Converting a timestamp to a finer precision is exact or reports overflow, to a coarser one stays within one unit and preserves order, and coarse to fine and back is the identity. Precision names, codes and column units agree with each other.",
  ["inputs"], "all timestamps and pairs of precisions", "Tests check a few literals.",
  ["common/utils/src/precision.rs"], [("checked conversion", "common/utils/src/precision.rs")],
  "Random and edge timestamps for every pair of precisions against 128-bit arithmetic; neighbours compared for order.", "held on the executed inputs", tech="differential monitor")
p("U05", "Durations and byte sizes survive being written out and read back",
  "A duration or byte size parsed from text has the value its text says, and writing it out and reading it back yields the same value. Text that says nothing valid is refused without a panic.",
  ["inputs"], "all durations, sizes and texts", "Tests check a few literals.",
  ["common/utils/src/duration.rs", "common/utils/src/byte_nums.rs"], [("parser and Display", "common/utils/src/duration.rs, byte_nums.rs")],
  "Random values to text and back, user text built from a grammar with known value, and garbage.", "held on the executed inputs", tech="round-trip and differential monitor")
p("U06", "Generated ids are unique and increase within a node",
  "Ids drawn by any number of threads sharing a generator never repeat, are consecutive from the configured start, and increase on each thread.",
  ["schedules", "histories"], "all interleavings of callers and start values", "Tests draw ids on one thread.",
  ["common/utils/src/id_generator.rs"], [("atomic sequence", "common/utils/src/id_generator.rs")],
  "Threads draw hundreds of thousands of ids; all must differ and increase per thread.", "held on the executions made", tech="exactly-once monitor over concurrent draws")
p("G01", "A configuration written out reads back as the same configuration",
  "Any configuration, rendered as a file, loads back to exactly the same options, and the default file is the default configuration. A file that is not valid or gives an option a wrong type is refused with an error.",
  ["inputs", "configurations"], "all configurations", "Tests load one sample file.",
  ["config/src"], [("serde model and defaults", "config/src")],
  "Random configurations rendered, loaded through the real loader and compared option by option; damaged files must be refused.", "held on the executed configurations", tech="round-trip monitor")
p("G02", "Environment overrides file, file overrides default, option by option",
  "Each option takes its value from its environment variable if set, else from the file, else from the default, independently of all other options and of unrelated variables. The advertised variable names are exactly the options, and an unusable variable is an error naming it.",
  ["configurations", "inputs"], "all subsets of options set in file and environment", "Tests set a couple of variables.",
  ["config/src", "common/derive_macros/src"], [("override loader", "config/src"), ("key derivation", "common/derive_macros/src")],
  "For every option and random subsets: file and environment built from a schema walk of the default config; the loaded result compared with the precedence rule. Both node kinds (data and meta).", "held on the executed configurations", tech="precedence oracle over generated configurations")
p("G03", "The configuration check reports exactly the settings that are wrong",
  "Checking a configuration reports every setting outside its documented limits, at its documented severity and name, and reports nothing for settings within them.",
  ["configurations"], "all configurations, at and around each limit", "Tests check one configuration.",
  ["config/src"], [("check impls", "config/src/check.rs")],
  "Random combinations of bad and good values at the limits; the printed report parsed and compared with the expected set.", "held on the executed configurations", tech="report oracle over generated configurations")
p("H01", "Encoded HTTP bodies decode to the original bytes or are refused",
  "For every supported content encoding a body decodes to exactly what was encoded, by this node or by another implementation, also when many requests are coded at once or in turn on one thread. Truncated or damaged bodies of the checksummed formats are refused, and never yield other data, panics or damage to later requests.",
  ["inputs", "schedules"], "all bodies, encodings, damages and concurrent users", "Tests round-trip one small body.",
  ["common/http_protocol/src/encoding.rs"], [("per-thread coding buffers", "common/http_protocol/src/encoding.rs")],
  "Random bodies (sizes around frame and buffer sizes), interleaved and on many threads, independent encoders, truncations and bit flips.", "held on the executed inputs", tech="round-trip and fault-injection monitor")
p("H02", "HTTP error bodies and request parameters mean what they say",
  "Every error is rendered as valid JSON carrying exactly its code and message, whatever characters they contain, and reads back as the same error. Query parameters are read under their documented names with their exact values, absent ones are absent, unknown ones are ignored.",
  ["inputs"], "all messages, parameters and headers", "Tests render one error.",
  ["common/http_protocol/src"], [("response and parameter types", "common/http_protocol/src")],
  "Random error codes and messages parsed back by an independent JSON parser; random parameters against the documented rules.", "held on the executed inputs", tech="differential monitor")
p("H03", "The HTTP client sends the request it was given and returns the answer it got",
  "A request built with the client reaches the configured scheme, address and path with exactly the given method and body, directly unless a proxy is configured. Over TLS it talks only to a server whose certificate was signed for that host by an authority it trusts, unless told to take any certificate. Unusable TLS settings are refused.",
  ["inputs", "schedules", "fault_sequences"], "all requests, answers, server faults and client settings", "No test talks to a server.",
  ["common/http_protocol/src/http_client.rs"], [("client construction", "common/http_protocol/src/http_client.rs")],
  "A recording loopback server (its own HTTP reader) compares what arrives with what was asked, answers scripted statuses, headers and bodies, drops connections, and stands in for a proxy that must not be used. A TLS server with a certificate of a private authority sees which of the settings let an exchange through.", "held on the executed exchanges", tech="wire-level monitor on loopback")
p("D01", "Derived error codes and config keys match their declarations",
  "A type deriving error codes reports for each variant the declared or derived code, name and message. Key derivation lists exactly the type's leaf options with their path names. Ill-formed declarations are refused at compile time.",
  ["programs"], "all enums and structs using the derives", "Tests compile a couple of types.",
  ["common/derive_macros/src", "common/derive_traits/src"], [("macro expansion", "common/derive_macros/src")],
  "Random types are generated, compiled with the real macros and run; their answers are compared with the declarations. Ill-formed ones are compiled one by one and must fail.", "held on the generated programs", tech="generated programs observed at run time")
p("T01", "Trace context travels intact between nodes and never invents a parent",
  "A span context written as text, header or request metadata is read back as the same trace and parent, and exactly the texts of two hexadecimal numbers of the right size are contexts. A request with a malformed or absent context never gets a made-up parent (a random one only when asked to) and is always forwarded unchanged.",
  ["inputs"], "all contexts, header texts and request kinds", "Tests cover one header.",
  ["common/trace/src"], [("context codec and layers", "common/trace/src")],
  "Random contexts, malformed texts from a grammar of near misses, and both carriers, through the real tower layer.", "held on the executed inputs", tech="differential monitor")
p("T02", "Each sampled request's spans are reported once, as one tree",
  "With the collector compiled in, every span of a sampled request is reported exactly once, under the trace and parent it was opened with, with all its properties and events in order, also when its work ran on other threads or behind a wire. Work without a context leaves no record, and the file reporter appends every span.",
  ["schedules", "histories"], "all span trees, thread placements and finish orders", "No test observes reported spans.",
  ["common/trace/src"], [("span recording", "common/trace/src")],
  "Random trees spread over threads, collected by a recording reporter and by the file reporter, compared with the built tree (collector feature enabled in the harness build).", "held on the executed trees; the collector is compiled in by the harness", tech="offline checker over recorded spans")
p("T03", "Logging writes exactly the records its level admits",
  "For every configured level the log file and the standard error stream hold exactly the records this system's code logs at or above it, each once and unbroken, whatever threads wrote them. An unknown level means warnings, and a second initialisation changes nothing.",
  ["configurations", "schedules"], "all levels, rotations and writing threads", "No test reads a log file.",
  ["common/trace/src/global_logging.rs"], [("subscriber set-up", "common/trace/src/log.rs")],
  "A child process per case logs uniquely numbered records from several threads; the files it leaves are checked for loss, duplication, tearing, order and level.", "held on the executed cases", tech="offline checker over log files")
p("P01", "A point batch reads back exactly as written, and a damaged one is refused",
  "Any batch of points written in the wire format is read back with exactly its tables, columns, types, nulls and values. A missing part is reported by name, and arbitrary bytes are refused or read without undefined behaviour.",
  ["inputs"], "all batches and damages", "Tests build one batch.",
  ["common/protos/src"], [("generated accessors and verifier", "common/protos/src/generated, common/protos/src/models_helper.rs")],
  "Random batches written through the builders and read through the accessors the engine uses; cuts, bit flips and missing parts.", "held on the executed inputs", tech="round-trip and fault-injection monitor")
p("P02", "Protocol messages keep their published wire format",
  "Every message encodes to and decodes from its published tags and types, unknown fields from newer peers are skipped, and damaged bytes give an error or a message, never a panic. Enumerations keep their published numbers.",
  ["inputs", "programs"], "all messages, field orders, unknown fields and damages", "No test pins the wire format.",
  ["common/protos/src", "common/protos/proto"], [("generated messages", "common/protos/src/generated")],
  "Messages are encoded by an independent encoder that knows the published schema (any field order, unknown fields, unpacked repeats), decoded by the real code, compared field by field, and back.", "held on the executed messages", tech="differential monitor with an independent codec")
p("P03", "Node-to-node calls deliver each request and answer intact within their limits",
  "A call through a node client delivers its request once and returns exactly the answer to it, and a stream ends with exactly what the server sent, its error included. Calls over the timeout end, messages over the size limit are refused in both directions and those under it pass, and compression is used exactly when asked for. Probing a node tells one that serves from one that does not.",
  ["schedules", "fault_sequences", "inputs"], "all concurrent calls, stream lengths, sizes, delays and faults", "No test runs a client against a server.",
  ["common/protos/src/lib.rs"], [("channel and client set-up", "common/protos/src/lib.rs")],
  "A scripted gRPC server on loopback; many concurrent calls with unique payloads; delays and sizes around the limits (wall-clock margins are wide); dead, silent and foreign servers.", "held on the executed calls", tech="wire-level monitor on loopback")
p("S01", "Each test-case block is sent once, to the node and as the user it names",
  "The SQL test tool sends every statement or data block exactly once, unchanged, over the protocol and to the address the case names, with the database, tenant, user and precision currently set. A block without an end is refused and sends nothing, and a server error is reported as that error.",
  ["inputs", "histories"], "all case scripts and connection instructions", "Tests parse a few instruction lines and send nothing.",
  ["query_server/sqllogicaltests/src"], [("instruction parser", "query_server/sqllogicaltests/src/db_request.rs"), ("clients", "query_server/sqllogicaltests/src/instance.rs")],
  "Random scripts run by the real tool against recording HTTP and Flight servers; what arrives is compared with a model of the instructions.", "held on the executed scripts", tech="wire-level monitor with a script model")
p("S02", "Query results are rendered value for value",
  "A result turns into one row per record, in order, each cell the record's value in the documented text form (strings quoted and escaped, nulls marked, a multi-line last cell as its lines), with the column kinds of its schema. Batches of different schemas in one result are refused.",
  ["inputs"], "all result batches and column types", "No test renders a result.",
  ["query_server/sqllogicaltests/src/utils"], [("normalisation", "query_server/sqllogicaltests/src/utils/normalize.rs")],
  "Random record batches of all supported types rendered by the tool and compared with an independent rendering.", "held on the executed batches", tech="differential monitor")
p("S03", "A run executes exactly the selected case files and fails when one fails",
  "Every case file under the directory is visited once, in order, and kept exactly when a filter matches its relative path. A case file passes exactly when every outcome is the recorded one. Completion rewrites a file so that it passes against the same server.",
  ["inputs", "configurations"], "all directory trees, filters and case outcomes", "No test runs a case file.",
  ["query_server/sqllogicaltests/src"], [("file iteration and runner", "query_server/sqllogicaltests/src/main.rs, utils")],
  "Random directory trees and filters; random case files, some wrong on purpose, run against the recording servers; completion then rerun.", "held on the executed trees and runs", tech="end-to-end monitor with scripted servers")
