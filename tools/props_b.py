"""Properties of the write protocols, the models, the storage engine, the replicated log and the metadata store.

Their crates do not build here as they are: stage.py and shims/ supply stand-ins for the third-party crates this sandbox lacks."""
P, NA = [], []
def p(id, title, statement, over, text, why, files, mech, how, note, level="exploration", tech=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, how=how, note=note, level=level, tech=tech, observe=observe or []))

p("N01", "Line protocol writes are stored exactly as written or refused",
  "Every valid line protocol text yields exactly its measurements, tags, typed fields and timestamps, whatever quoting, escaping, order and blank lines it uses, and lines without a time get the default one. The point batch built from the lines holds each of them once with the same content. Malformed text is refused with an error naming it, never a panic, and stores nothing.",
  ["inputs"], "all line protocol texts", "Tests parse a dozen literal lines and never look at the batch built from them.",
  ["common/protocol_parser/src/line_protocol", "common/protocol_parser/src/lines_convert.rs", "common/models/src/mutable_batch.rs"], [("parser", "common/protocol_parser/src/line_protocol/parser.rs"), ("batch building", "common/protocol_parser/src/lines_convert.rs")],
  "Random points are written out by a generator that chooses quoting, escapes, order, spacing and number forms; parse, batch and FlatBuffer (read by an independent row reader) are each compared with what was meant. Mutated and grammar-breaking texts must be refused or read without a panic.", "held on the executed texts", tech="round-trip monitor with an independent reader")
p("N02", "OpenTSDB writes, telnet and JSON, are stored exactly as written or refused",
  "Every valid OpenTSDB line or JSON point yields exactly its metric, tags, value and timestamp, many of them in one write or one JSON array. A telnet connection stores each complete line exactly once however the bytes are split into packets. Malformed input is refused, never a panic.",
  ["inputs", "schedules"], "all texts and all ways of splitting a stream into packets", "Tests parse a few literal lines; framing is not tested.",
  ["common/protocol_parser/src/open_tsdb", "common/protocol_parser/src/lib.rs"], [("parser and framing", "common/protocol_parser/src/open_tsdb, common/protocol_parser/src/lib.rs")],
  "Random points rendered as text and JSON and compared after parsing; text streams cut at random places through the framing decoder; mutated inputs.", "held on the executed texts; JSON numbers are compared with serde_json's own reading", tech="round-trip monitor, packet splitting")
p("N03", "Log ingestion keeps every record, its labels and its time",
  "JSON, Elasticsearch bulk, Loki and OTLP documents yield exactly one point per record with its time at full precision, its own labels and attributes and no others, and its content unchanged. Timestamps out of range and malformed documents are refused, never a panic.",
  ["inputs"], "all documents", "Tests parse one document per protocol.",
  ["common/protocol_parser/src/json_protocol"], [("parsers", "common/protocol_parser/src/json_protocol/parser.rs")],
  "Random records encoded in each protocol by the harness and compared after parsing; damaged documents.", "held on the executed documents", tech="round-trip monitor")
p("Q01", "Time ranges behave as the sets of instants they denote",
  "Union, intersection, difference, hull, inclusion and overlap of time ranges agree with set algebra on their instants, up to and including the first and last representable timestamp. A set of ranges lists disjoint, non-empty ranges, and its stored copy is the same set.",
  ["inputs"], "all sets of time ranges, including gaps, empty ranges and the extreme timestamps", "Tests try literal ranges away from the extremes.",
  ["common/models/src/predicate/domain.rs"], [("range algebra", "common/models/src/predicate/domain.rs")],
  "Random range sets biased to touching, nested and extreme endpoints; membership is compared at every endpoint and its neighbours, which decides equality of the sets.", "held on the executed cases", tech="differential monitor")
p("Q02", "Predicate push-down never loses a row, a delete selects exactly its rows",
  "The time ranges and tag domains derived from a query's filter admit every row the filter matches. Those derived from a delete selection admit exactly the rows it matches, and a selection that cannot be expressed so is refused. Both mean the same after being shipped to another node.",
  ["inputs"], "all filters and rows", "Tests compare the derived domains of a few filters with literals and evaluate no row.",
  ["common/models/src/predicate"], [("domain extraction", "common/models/src/predicate/transformation.rs"), ("domains", "common/models/src/predicate/domain.rs"), ("time ranges of a domain", "common/models/src/predicate/utils.rs")],
  "Random filters over time, tags and fields (nested AND/OR/NOT, NULL literals, casts, boolean columns, comparisons of comparisons) are evaluated row by row with SQL's three-valued logic by the harness and compared with the derived domains, before and after serialization.", "held on the executed filters; expression types are stand-ins for DataFusion's", tech="differential monitor with an independent evaluator")
p("B01", "The query memory pool grants no more than its size and leaks nothing",
  "Tried growth is granted exactly when it fits the pool, whoever else asks at the same time. What the pool reports as reserved is the sum of the live reservations, and zero after they are dropped.",
  ["schedules", "histories"], "all histories and interleavings of reservations", "One test with two consumers.",
  ["common/memory_pool/src/lib.rs"], [("pool accounting", "common/memory_pool/src/lib.rs")],
  "Random histories against exact sums; racing consumers whose grants are tallied so that the tally never exceeds what is granted, watched against the size.", "held on the executed histories and interleavings", tech="conservation monitor under concurrent stress")
p("E03", "A user may do exactly what the user's role and grants say",
  "Every privilege of every object is granted exactly when the user's role, its inherited role, its grants and the user's own identity say so, after any history of grants and revocations and also when read back from storage. A password is accepted exactly if it is the one set. A cached login answers only for the same user, password and tenant and not after its time to live.",
  ["inputs", "histories"], "all roles, grant histories, users and objects", "No test checks a privilege.",
  ["common/models/src/auth"], [("privilege checks", "common/models/src/auth/privilege.rs, common/models/src/auth/role.rs, common/models/src/auth/user.rs"), ("login cache", "common/models/src/auth/auth_cache.rs")],
  "Random roles and grant histories; every privilege over every object is asked and compared with an independent statement of the rules.", "held on the executed histories; bcrypt is a stand-in with the same contract", tech="differential monitor, exhaustive over privileges per role")
p("V01", "Stored column pages decode to exactly the values encoded",
  "A page holds, for each row of its column, exactly the value or NULL it was made of, whatever encoding the table asks for and whatever the values are: extreme, repeated, sparse, sliced, empty, any string. Its statistics (minimum, maximum, counts, NULLs) are those of its values. A page whose stored bytes are altered is refused by its checksum.",
  ["inputs"], "all columns of all types under all encodings", "Tests encode a few literal vectors per codec; the failing differences between neighbouring values are not among them.",
  ["tskv/src/tsm/codec", "tskv/src/tsm/page.rs"], [("codecs", "tskv/src/tsm/codec"), ("pages", "tskv/src/tsm/page.rs")],
  "Random columns (edge values, runs, ramps, far jumps, NULL patterns, slices) through every encoding the schema admits, codec level and page level; each value is compared bit for bit, statistics are recomputed, and flipped bits must be refused.", "held on the executed columns; bzip2, pco and the like are stand-ins; quantile floats are lossless here", tech="round-trip monitor with bit-exact comparison and fault injection")
p("V05", "Compaction changes where rows are stored, never which rows are read",
  "However often and whenever compactions run, by hand or in the background, while rows are flushed, deleted and scanned, every scan returns exactly the rows written and not deleted, each with its newest values; also after a restart or a crash in the middle of a compaction.",
  ["histories", "schedules", "crash points"], "all histories of writes, flushes, deletes and compactions", "Tests compact hand-made files and compare the output file; none reads through the engine, restarts it or scans while a compaction runs.",
  ["tskv/src/compaction", "tskv/src/tsfamily", "tskv/src/tsm"], [("picking", "tskv/src/compaction/picker.rs"), ("merging", "tskv/src/compaction/compact.rs, tskv/src/compaction/comapcting_block_meta_group.rs"), ("versions", "tskv/src/tsfamily/summary.rs, tskv/src/tsfamily/version.rs"), ("tombstones", "tskv/src/tsm/tombstone.rs"), ("scans", "tskv/src/reader/iterator.rs")],
  "A real engine (write-ahead log, caches, delta files, levels, background jobs) is fed random rows aimed at overlapping delta files of several time spans with tiny triggers and block sizes, compacted until nothing is left to pick, and restarted; after each step scans with random tags, columns, filters and batch sizes are compared with a model of the rows.", "held on the executed histories; rows rewritten with other values only in files of one span (see the known finding)", tech="model-based monitor of the real engine under stress, with copy-on-crash restarts")
p("V06", "A scan returns exactly the rows written, whatever was flushed or restarted",
  "Each row is returned exactly once with, per column, the last value written for its series and timestamp, from cache and files alike. Filters, tag conditions, column choices and batch sizes select from these rows and change nothing else. Stopping and starting the engine, cleanly or not, loses and changes nothing acknowledged.",
  ["inputs", "histories", "crash points"], "all histories of writes, flushes, compactions and restarts, and all scans", "Tests read back a handful of rows written once.",
  ["tskv/src/mem_cache", "tskv/src/reader", "tskv/src/compaction/flush.rs", "tskv/src/wal", "tskv/src/index", "tskv/src/vnode_store.rs"], [("cache", "tskv/src/mem_cache"), ("reading and merging", "tskv/src/reader"), ("flush", "tskv/src/compaction/flush.rs"), ("log replay", "tskv/src/wal"), ("series index", "tskv/src/index")],
  "Random rows of several tables and vnodes with repeated series and timestamps, random options (cache, block and log sizes), flushes and compactions by hand and in the background, restarts from a copy of the directory made as a crash leaves it, also in the middle of a flush or compaction: the new data files whole or cut, their edit in the summary absent or cut at any byte; the summary is rewritten at any size; scans compared with a model.", "held on the executed histories; planner and expressions of DataFusion are stand-ins", tech="model-based monitor of the real engine, with copy-on-crash restarts")
p("V07", "Deleted rows never come back, rows not selected by a delete stay",
  "After a delete by time and tags is acknowledged no scan returns the rows it selects, from cache or files, before or after flushes, compactions and restarts, until they are written again; every other row, and rows written later, are unaffected.",
  ["histories", "schedules", "crash points"], "all histories of writes, deletes, flushes, compactions and restarts", "Tests delete from one file or one cache and look at that alone.",
  ["tskv/src/tsm/tombstone.rs", "tskv/src/tsfamily/super_version.rs", "tskv/src/vnode_store.rs", "tskv/src/mem_cache"], [("tombstones", "tskv/src/tsm/tombstone.rs"), ("delete", "tskv/src/vnode_store.rs, tskv/src/tsfamily/tseries_family.rs")],
  "As for V06, with deletes of random time ranges and tag conditions mixed in, also stopped while their tombstones are written: each tombstone file whole, absent or cut at any byte.", "held on the executed histories", tech="model-based monitor of the real engine, with copy-on-crash restarts")
p("V08", "Schema changes and tag updates keep every value under its column and series",
  "Adding, dropping, altering and renaming columns, renaming tags, dropping tables and UPDATE of tags change exactly what they say: values of dropped columns and tables are gone for good, all others are read under their present column and series, with the same values, from cache and files, after flushes, compactions and restarts. A refused tag update or strict write changes nothing.",
  ["histories", "crash points"], "all histories of schema changes, tag updates, writes and restarts", "Tests change a schema without reading rows written before it; tag updates are tested on the index alone.",
  ["tskv/src/index/ts_index.rs", "tskv/src/schema", "tskv/src/reader", "tskv/src/vnode_store.rs", "tskv/src/mem_cache"], [("tag updates", "tskv/src/index/ts_index.rs, tskv/src/vnode_store.rs, tskv/src/tsfamily/tseries_family.rs"), ("schema alignment of reads", "tskv/src/reader"), ("replay", "tskv/src/database.rs, tskv/src/mem_cache/row_data.rs, tskv/src/wal/wal_store.rs")],
  "As for V06, over two tables and one or two vnodes, with schema changes run in the order the coordinator runs them; a dropped column may come back with another type, an update may be refused because two series would become one. Directed crashes right after a schema change; strict databases.", "held on the executed histories; schema changes wait until the node has seen the last one; renames and tag updates follow a flush except in the directed cases (see the known findings)", tech="model-based monitor of the real engine, with copy-on-crash restarts")
p("W01", "A replica's log gives Raft back exactly the entries it was given",
  "What a vnode's or the meta service's log returns for any range, single index or its end is the entries appended last, unaltered and in order, after any mixture of appends, overwriting of entries that were not applied, deletions of conflicting entries, purges and installed snapshots, across log files of any size. Entries whose write was completed outlive restarts and crashes, applied or not; the remains of a torn write or of an unfinished deletion never come back, nor hide entries written later.",
  ["histories", "crash points"], "all histories that Raft's storage contract allows, all cuts of the last write, all crash points of a deletion", "Two unit tests append and truncate one file once; none reads the log through a restart after a crash.",
  ["tskv/src/wal", "tskv/src/record_file", "replication/src/node_store.rs", "replication/src/entry_store.rs"], [("log index and cache", "tskv/src/wal/wal_store.rs"), ("files and records", "tskv/src/wal/mod.rs, tskv/src/record_file"), ("Raft's calls", "replication/src/node_store.rs"), ("recovery", "tskv/src/wal/wal_store.rs")],
  "The real NodeStorage over the real WAL (every fifth history: over the meta service's entry store) is driven as openraft drives it, two groups side by side, with log files from 64 bytes to 1 GB; the last write is cut at random bytes or filled with zeros, files removed by a deletion are put back as a crash would leave them; after each step the log state, random ranges and entries are compared with a sorted map.", "held on the executed histories; openraft itself is not run, its calls are made by the monitor; heed is a stand-in", tech="model-based monitor of the log with torn writes and crash points")
p("E02", "A replica remembers its vote, what it applied, its members and its snapshots",
  "What Raft saved in a replica's storage is what it reads back, also after restarts, and belongs to that group alone: the vote, the last applied entry, the membership in force, the purge point, the summary. Every entry is applied once, in order, with its own answer. A snapshot names the entry and the membership as of the data it holds, an installed one takes their place, and a group that is removed leaves nothing behind and takes nothing of another.",
  ["histories", "crash points"], "all histories of votes, applied entries, snapshots, purges and restarts of several groups", "openraft's suite runs against one group with an in-memory style store; memberships older than the last one are never asked for.",
  ["replication/src/node_store.rs", "replication/src/state_store.rs", "replication/src/entry_store.rs"], [("state keys", "replication/src/state_store.rs"), ("apply and snapshots", "replication/src/node_store.rs")],
  "The histories of W01, with the state compared instead of the log: votes, applied ids, memberships as of the flushed index (which lags what is applied), snapshot ids and data, answers; two groups with ids that are prefixes of each other share one state store, one is removed at the end.", "held on the executed histories; the state machine below the storage is a recorder, heed is a stand-in, openraft's calls are made by the monitor", tech="model-based monitor of the Raft state store with restarts")
p("Q03", "Writers that add columns at the same time keep every value under its name",
  "When writers on several nodes add columns to the same table at the same time, through whichever node and with however old a view of the table, each accepted value is read back under its own column name and with its type on every node; a write refused for a type conflict stores nothing; no two columns share an id.",
  ["schedules", "histories"], "all interleavings of concurrent writes that change the schema, and all delays of schema notifications", "No test writes through two nodes.",
  ["tskv/src/schema/schemas.rs", "tskv/src/mem_cache/series_data.rs", "meta/src/model/meta_tenant.rs", "meta/src/store/storage.rs"], [("schema evolution", "tskv/src/schema/schemas.rs"), ("conflict detection", "meta/src/store/storage.rs"), ("cache alignment", "tskv/src/mem_cache/series_data.rs")],
  "Two engines share one meta service whose notifications a gate holds back at random; concurrent writes with overlapping new columns and types, overwrites and flushes; every accepted value is then looked up by name on its node.", "held on the executed interleavings; the meta store is the real state machine behind a stand-in server of one node", tech="multi-node stress with delayed notifications, read-back monitor")
p("E01", "Replicas of the metadata service that took in the same commands are the same",
  "Replicas that apply the same commands give the same answers and hold the same state, one that was restarted or restored from a snapshot as well. The changes a replica reports since a version bring whoever applies them to that replica's state, or it tells them to synchronise in full; nothing is left out in silence.",
  ["histories", "crash points"], "all histories of commands, restarts, snapshots and follower positions", "Tests apply a few commands to one store; none compares two.",
  ["meta/src/store/storage.rs"], [("commands", "meta/src/store/storage.rs"), ("change log", "meta/src/store/storage.rs, meta/src/store/command.rs"), ("snapshots", "meta/src/store/storage.rs")],
  "Three real state machines apply the same random commands at different times, with restarts and snapshot restores in between; answers and key spaces are compared, and followers with random tenant sets apply reported changes from old versions until they must hold the state.", "held on the executed histories; storage (heed) and Raft are stand-ins; request limiters and unreachable nodes are known findings", tech="replica-divergence monitor with change-log replay")
p("E04", "Buckets cover each timestamp once and place replicas on distinct healthy nodes",
  "A bucket made for a timestamp contains it and overlaps no other bucket of the database, whatever vnode durations the database has had. It has the asked number of shards, each with the asked number of replicas on different healthy nodes with room, one of them the leader; and no id is ever given out twice.",
  ["inputs", "histories"], "all timestamps, durations, cluster states and histories", "One test computes a bucket's range for one duration.",
  ["meta/src/store/storage.rs", "common/models/src/meta_data.rs"], [("bucket ranges", "common/models/src/meta_data.rs"), ("placement", "meta/src/store/storage.rs")],
  "Random histories biased to bucket commands at edge timestamps, with changes of durations, replica and shard counts and node states, against a model; all nodes answer pings from a server on loopback.", "held on the executed histories", tech="model-based monitor of the meta state machine")
p("E05", "What nodes keep of the metadata ends up as the service has it",
  "Once changes stop, each node's view of tenants and their options, databases, tables, buckets, members, privileges, users, data nodes, connections and limiters is what the metadata service holds, whoever made the changes and however answers and notifications were delayed, reordered or lost to a full synchronisation. A tenant dropped through a node is gone.",
  ["schedules", "histories"], "all interleavings of changes by nodes, reads, watches, restarts and snapshots of the service", "No test runs the client caches against a service.",
  ["meta/src/model/meta_admin.rs", "meta/src/model/meta_tenant.rs", "meta/src/limiter"], [("watch", "meta/src/model/meta_admin.rs"), ("tenant cache", "meta/src/model/meta_tenant.rs"), ("limiters", "meta/src/limiter/limiter_manager.rs"), ("change log", "meta/src/store/storage.rs")],
  "Two real nodes' clients over HTTP to the real state machine; a gate holds back chosen answers and the watch; changes by either node or by others; directed late answers; after each round every cached value is compared with the service's.", "held on the executed interleavings; one meta server, comparisons at quiet points", tech="cache-coherence monitor with delayed and held-back messages")
p("E06", "The metadata service does what its commands say",
  "Every command on users, tenants, members, roles, databases, tables, buckets, vnodes, nodes and tasks is answered, and changes what later reads return, as it says: what exists is not made again, what does not is refused, what was dropped is gone with all that belonged to it, hidden things are not shown, nothing else changes; also after a restart.",
  ["histories"], "all histories of metadata commands", "Tests store and read single keys.",
  ["meta/src/store/storage.rs", "meta/src/store/key_path.rs"], [("commands", "meta/src/store/storage.rs"), ("keys", "meta/src/store/key_path.rs")],
  "Long random histories of all commands over a few names, each answer and all reads compared with an independent model, with restarts.", "held on the executed histories; storage (heed) is a stand-in", tech="model-based differential monitor")

def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, "", "", tech="none")
    NA.append(dict(id=id, reason=reason))

na("X01", "An SQL query's answer follows from the stored rows by the SQL standard",
  "Parsing, planning, optimizing and executing a query, on one node or several, returns the rows that the statement denotes over the stored data: aggregates, time windows, gap filling, joins, orderings and the push-downs chosen change the speed and never the answer.",
  ["inputs"], "all statements and data", "Tests compare a fixed set of statements with recorded answers.",
  ["query_server/query/src", "query_server/spi/src"], [("planner and functions", "query_server/query/src/sql, query_server/query/src/extension")],
  "the crate is built on DataFusion's planner, optimizer and executor, which this sandbox does not have; what could be run would be a stand-in's answers. The parts below it (scans, push-down, time ranges, Gorilla and aggregate codecs) are decided by V06, Q01, Q02 and others")
na("X02", "A statement runs only with the privileges it needs",
  "A user's statement on a tenant, database or table is executed only if a role of the user grants what the statement needs there, whatever the path by which it comes (HTTP, Flight SQL, a prepared statement), and without it no effect and no data is observable.",
  ["inputs", "histories"], "all statements, users and role histories", "Tests run a few statements as two users.",
  ["query_server/query/src/dispatcher", "query_server/query/src/auth"], [("privilege check", "query_server/query/src/dispatcher/manager.rs, query_server/query/src/auth")],
  "the check sits in DataFusion's planning of each statement (see X01). The users, roles and grants behind it are decided by E03")
na("X03", "Replicas agree: a write acknowledged by the leader survives any minority",
  "Every replica of a vnode applies the same commands in the same order, and a write acknowledged to a client is in the state of every later leader, under any loss, delay and reordering of messages and any crashes of a minority of the nodes.",
  ["schedules", "crash points", "histories"], "all message schedules and crashes", "Tests start three nodes in one process and write a few keys.",
  ["replication/src", "coordinator/src/raft"], [("Raft network and state machine", "replication/src/network_http.rs, replication/src/state_store.rs, coordinator/src/raft")],
  "the protocol itself is the openraft library, which this sandbox does not have; a stand-in for it would be what is tested. What the repository adds, the log and the state store that openraft relies on, is decided by W01 and E02")
na("X04", "Each point is written to one shard and every query looks into it",
  "The coordinator stores each point of a write in exactly the replication set of its time and series, a query or delete visits every replication set that may hold selected rows, and an expired bucket is dropped only when all of its data is past the TTL.",
  ["inputs", "histories"], "all writes, predicates and bucket histories", "Tests place a few points.",
  ["coordinator/src/service.rs"], [("splitting of writes", "coordinator/src/service.rs"), ("shard pruning", "coordinator/src/service.rs")],
  "the coordinator writes through openraft and reads through DataFusion streams and tonic services between nodes, none of which exist here. The bucket and shard arithmetic it calls is in the crates models and meta and is decided by E04")
