# Writes properties.jsonl. Kept as a program so that the statements stay readable.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("P01", "Every KRPC query is answered exactly once, correctly, to its sender",
  "Every KRPC query the node reads is answered by exactly one datagram, sent to the query's source address and echoing its transaction id: a valid ping, find_node, get_peers or announce_peer by a response carrying the node's 20-byte id (a compact node list for find_node, a token and nodes or values for get_peers), any other query by an error [201..204, message] that discloses nothing of the program's internals. "
  "Datagrams that are not complete bencoded KRPC queries (responses, errors, garbage, truncated messages) are never answered.",
  ["inputs", "schedules", "fault_sequences"], "all sequences of datagrams from any number of senders, under message loss, duplication, reordering and delay, any goroutine schedule, any worker-pool and queue size",
  "The tests feed a handful of literal messages to one goroutine; they never run the whole node, concurrency, duplicates, malformed input, or the exactly-once count.",
  ["dht/krpc/server.go", "dht/requesthandler.go", "dht/messgaes.go", "dht/krpc/messages.go", "misc/beancode.go", "misc/errors.go", "misc/types.go"],
  [("request dispatch and error mapping", "dht/krpc/server.go requestHandle, recvPacketHandle"), ("query handlers", "dht/requesthandler.go"), ("bencode reader and writer", "misc/beancode.go")],
  ["datagrams the node's UDP socket sends"])
p("P02", "No remote input stops the node",
  "Once the node has started, whatever datagrams and TCP peer behaviour remote parties produce, and whatever receive or send errors the network reports, the node process neither exits nor panics. "
  "Once the adversary falls silent the node again answers queries and fetches the metadata an honest peer announces, within a bounded time.",
  ["inputs", "schedules", "fault_sequences"], "all adversarial datagrams (including responses to the node's own queries) and all adversarial peer-wire byte streams, network errors, and schedules",
  "Tests use well-behaved partners only and never run the assembled node.",
  ["dht/krpc/server.go", "dht/krpc/udp.go", "dht/resphandler.go", "dht/node.go", "dht/fetchtorrent.go", "dht/peerwire/bep9.go", "misc/beancode.go", "misc/types.go"],
  [("recover in packet and fetch handlers", "dht/krpc/server.go recvPacketHandle; dht/fetchtorrent.go fetchHandler; dht/peerwire/bep9.go FetchMetaData"), ("receive loop survives read errors", "dht/krpc/udp.go recvRoutiue")],
  ["process life", "answers to pings", "files in torrent/"])
p("P03", "A response handler runs once, and only for its own response",
  "The handler of a query sent through the RPC server runs at most once, and only on a valid response bearing that query's transaction id, with that query as its request and that response as its content. "
  "If such a response is delivered, however many copies and in whatever order relative to others, however late and however many other queries are outstanding, the handler runs exactly once; unsolicited responses, errors and malformed messages run no handler, and a query whose send failed is forgotten.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent queries, deliveries, duplicates, late, unsolicited and malformed responses, with send errors",
  "The tests send one query and one response at a time.",
  ["dht/krpc/server.go", "misc/syncmap.go"],
  [("pending requests by transaction id", "dht/krpc/server.go Query, responseHandle"), ("atomic take", "misc/syncmap.go Take")],
  ["calls of registered response handlers", "error result of Query"],
  [("requestMapping", "requests awaiting a response", "dht/krpc/server.go")])
p("P04", "Transaction ids are unique until the 16-bit space wraps",
  "Transaction ids drawn from one generator by any number of goroutines are all different as long as at most 65,536 are drawn in a row. "
  "Consequently no two queries the node has outstanding within such a window carry the same id.",
  ["schedules"], "all interleavings of concurrent draws, windows up to and across the wrap",
  "The tests do not draw ids concurrently nor across the wrap.",
  ["dht/node.go"], [("counter under a lock", "dht/node.go TxIdGenerator.nextVal")], ["strings returned by Next", "transaction ids of the queries on the wire"])
p("P05", "The routing table is a linearizable bounded k-bucket set",
  "Concurrent additions, lookups and size queries on a routing table behave as if executed one at a time: a new node is accepted exactly when its bucket (its common prefix length with the host, the last bucket being split while the table may grow) has room, adding a known node changes nothing, and nothing accepted is ever lost. "
  "The size is the host plus the accepted nodes, an exact lookup finds an accepted id and nothing else, and a closest-nodes lookup returns distinct accepted nodes and includes the id itself when it is in the table; its result does not change afterwards.",
  ["schedules", "inputs", "histories"], "all node ids and addresses, bucket sizes and capacities, all interleavings of operations",
  "The tests add a few fixed nodes from one goroutine.",
  ["dht/routetable.go", "dht/node.go"], [("bucket split", "dht/routetable.go addNodeWithsplitBucket"), ("table lock", "dht/routetable.go AddNode, Find, FindClosest, Size")],
  ["results of NewRouteTable, AddNode, Find, FindClosest, Size"], [("nodeMap", "buckets by prefix length", "dht/routetable.go")])
p("P06", "The crawl asks every node it learns about and can accept, and no other",
  "The node sends find_node for its own id, carrying its constant 20-byte id and a transaction id, to each bootstrap node and to each node advertised in the response to one of its queries that its routing table accepts, however responses interleave and whether or not sends to other nodes fail. "
  "It contacts no address that was not advertised that way, in particular none named only in unsolicited, repeated-after-the-first or error messages, and an advertised node is left out only when its bucket already holds 8 nodes.",
  ["schedules", "inputs", "fault_sequences"], "all topologies of advertised nodes, all response orders, duplicates, losses, invalid addresses and schedules",
  "No test covers the crawl.",
  ["dht/dht.go", "dht/resphandler.go", "dht/routetable.go", "dht/node.go", "dht/krpc/server.go", "cmd/root.go"],
  [("recursive find_node", "dht/resphandler.go findNodeRespHandler"), ("bootstrap", "dht/dht.go BootStrap")], ["queries the node's UDP socket sends"])
p("P07", "Each accepted announce causes exactly one fetch, at the right address",
  "For every announce_peer the node answers with a response, exactly one metadata fetch is attempted, to the announcing host's IP with the announced port, or with the UDP source port when implied_port is positive, over IPv4 and IPv6 alike. "
  "No announce is lost or fetched twice, even when bursts exceed the queue, and never more fetches run at once than the configured number of workers.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "all bursts of announces, queue and pool sizes, peer speeds and schedules",
  "No test covers the path from announce to fetch.",
  ["dht/requesthandler.go", "dht/fetchtorrent.go", "misc/workpool.go"],
  [("hand-over channel", "dht/requesthandler.go announcePeerHandler; dht/fetchtorrent.go recvInfoHash"), ("bounded workers", "misc/workpool.go")], ["TCP connection attempts of the node"])
p("P08", "Fetched metadata is returned only if it hashes to the info hash",
  "A metadata fetch returns data only if the SHA-1 of the data equals the requested info hash, otherwise an error and no data, whatever the peer sends. "
  "Concurrent fetches never see each other's bytes, and the returned data never changes afterwards.",
  ["inputs", "schedules", "histories"], "all peer behaviours, including lying, mixing pieces, repeating and truncating, with any number of fetches in parallel",
  "The tests fetch from a fixed local peer, if at all, one at a time.",
  ["dht/peerwire/bep9.go", "dht/peerwire/bep3.go", "dht/peerwire/peer.go", "misc/bytespool.go"], [("checksum", "dht/peerwire/bep9.go FetchMetaData"), ("copy of pooled buffers", "dht/peerwire/bep9.go handleExtendedMsg")], ["result of FetchMetaData"])
p("P09", "A fetch from an honest, timely peer succeeds whatever the segmentation",
  "If a peer speaks the protocol correctly and delivers everything in time, the fetch returns exactly the metadata, however TCP cuts and merges the stream, in whatever order the pieces come, whatever extension id the peer chose, and whatever keep-alives and other messages it mixes in. "
  "The node's own messages are well formed: the handshake carries the info hash and the extension bit, and each piece is requested with the peer's id.",
  ["inputs", "schedules"], "all metadata sizes from one byte to many pieces, all segmentations, piece orders, extension ids and interspersed messages, many fetches in parallel",
  "Tests parse whole literal messages; none exercises short reads, merged segments or several pieces.",
  ["dht/peerwire/bep9.go", "dht/peerwire/bep3.go", "dht/peerwire/bep10.go"], [("message framing", "dht/peerwire/bep3.go readBytesByPrefixLenMsg"), ("piece assembly", "dht/peerwire/bep9.go handleExtendedMsg")], ["result of FetchMetaData", "bytes the fetch writes"])
p("P10", "A fetch ends in bounded time and releases its connection",
  "Every metadata fetch ends within 20 seconds, whatever the peer does: refuses, never accepts, stalls at any byte, trickles, floods, stops reading, announces an absurd size, or resets the connection. "
  "When it ends its connection is closed, exactly once, and it has not allocated memory out of proportion to what the peer delivered beyond a fixed bound.",
  ["inputs", "fault_sequences", "schedules"], "all stalling, flooding and failing peers at every point of the exchange",
  "No test has a peer that misbehaves.",
  ["dht/peerwire/bep9.go", "dht/peerwire/peer.go"], [("dial timeout and deadlines", "dht/peerwire/bep9.go FetchMetaData"), ("size bound", "dht/peerwire/bep9.go handleExtendedMsg")], ["time between call and return of FetchMetaData", "close of the connection"])
p("P11", "A stored torrent file is complete and matches its name",
  "At every moment, and after a crash at any point, with or without loss of unsynced data, every file torrent/<40 hex digits>.torrent holds complete metadata whose SHA-1 is the name. "
  "When a fetch succeeded and the disk reported no error, the file is there once the node is idle, and nothing the node does later, a restart included, takes it away or leaves it missing for a moment; disk errors leave the node running and no file handle open.",
  ["crash_points", "fault_sequences", "schedules"], "all crash points between file-system operations, power losses, short and failed writes, full disks, concurrent fetches of the same and different torrents, restarts",
  "No test writes a torrent file, let alone crashes during it.",
  ["dht/fetchtorrent.go"], [("write aside, sync, rename", "dht/fetchtorrent.go flushTorrentFile")], ["contents of the directory torrent/"])
p("P12", "The worker pool runs each submitted task exactly once and stops cleanly",
  "Every task submitted before a shutdown begins is executed exactly once, a task submitted concurrently with a shutdown at most once, and never more tasks run at once than the pool has workers. "
  "A submission after the shutdown panics instead of vanishing or blocking; Shutdown may be called by anyone, any number of times, also after the context was cancelled: the first call returns once the workers are done or its timeout has passed and later calls no later than that, and afterwards all workers end.",
  ["schedules", "configurations"], "all interleavings of submitters, workers, cancellation and repeated shutdowns, all pool sizes and task durations",
  "The tests run one schedule with sleeps and do not shut down under load.",
  ["misc/workpool.go"], [("queue and workers", "misc/workpool.go workerLoop, AsyncSubmit"), ("shutdown broadcast", "misc/workpool.go Shutdown")], ["executions of tasks", "results of Shutdown and Status", "goroutines alive"])
p("P13", "Shutdown runs every cleanup once and ends within its deadline",
  "On SIGINT, SIGTERM or cancellation every registered cleanup is started exactly once, and the wait for shutdown returns once all have finished, or when its deadline passes if some never do. "
  "The running node, signalled at any moment of its work, exits within its 5 second deadline with its UDP socket closed and without panicking.",
  ["schedules", "crash_points", "histories"], "all moments of the signal, durations of cleanups, concurrent registrations and repeated signals",
  "The tests use one signal and fixed sleeps.",
  ["misc/shutdown.go", "cmd/root.go", "dht/dht.go", "dht/krpc/udp.go"], [("signal wait and cleanups", "misc/shutdown.go WaitShutdown, runCleans")], ["cleanup calls", "return of the wait", "process exit and code"])
p("P14", "A pooled buffer has one owner and the requested length",
  "A buffer obtained from the byte pool has exactly the requested length and is held by nobody else until it is returned; the pool never blocks. "
  "This holds for any mix of sizes, re-sliced returns and concurrent users.",
  ["schedules", "histories", "inputs"], "all interleavings of gets and puts of any sizes, pools of any capacity",
  "The tests take and return buffers from one goroutine.",
  ["misc/bytespool.go"], [("bounded free lists by size", "misc/bytespool.go")], ["buffers returned by Get and GetBySize"])
p("P15", "The synchronised map is linearizable",
  "Concurrent put, get, take and delete operations on the synchronised map behave as if executed one at a time in an order consistent with real time, and never crash the process. "
  "In particular a value taken by one caller is taken by no other.",
  ["schedules", "histories"], "all interleavings of operations on any set of keys",
  "The tests use one goroutine.",
  ["misc/syncmap.go"], [("mutex around the map", "misc/syncmap.go")], ["results of the map's operations"])
p("P16", "Middleware and handlers run in order, once, and isolated per message",
  "For each request and each response the registered middlewares run in registration order and then the handler, each exactly once, whether or not a middleware calls on explicitly and however often; what follows an explicit call-on runs after everything later in the chain. A middleware registered between messages serves all messages after it. "
  "Every message has a context of its own, so concurrent messages never see each other's request, response or address, and the last response written is the one sent. "
  "A chain that panics ends there, with no effect on any other message; a request whose chain raises a protocol error is answered with exactly one error.",
  ["schedules", "inputs"], "all chains of middlewares with zero, one or several explicit continuations, panics at any place in them, all interleavings of concurrent messages",
  "The tests run one chain once on one goroutine.",
  ["dht/krpc/middleware.go", "dht/krpc/server.go"], [("chain execution", "dht/krpc/middleware.go Next"), ("per-message chain", "dht/krpc/server.go doRequestHandle, doResponseHandle")], ["order of middleware calls", "replies sent"])
p("P17", "A logger name maps to one logger",
  "Concurrent look-ups of loggers by name return, for each name, always the same logger, created exactly once by the installed factory, with a level in force at that time. "
  "Looking up, changing the level and flushing concurrently never crashes, deadlocks or loses a logger.",
  ["schedules"], "all interleavings of look-ups, level changes and flushes over any set of names",
  "The tests look loggers up from one goroutine.",
  ["misc/logger.go"], [("registry under a lock", "misc/logger.go mapLogger")], ["loggers returned and the factory's calls"])
p("P18", "A crash never leaves a configuration the node cannot start from",
  "A node started without a configuration creates one holding the defaults, and a crash or disk error at any point of that leaves a state from which the next start succeeds with the same values. "
  "A configuration the operator wrote, a file named with --config or one with a mistake in it included, is never altered, and the node runs with exactly its port, bootstrap nodes, worker and queue sizes and profiler setting; settings it leaves out keep their defaults.",
  ["crash_points", "fault_sequences", "configurations"], "all crash points and disk faults of the first start, with and without power loss, any number of restarts, all valid configurations",
  "No test starts the program, with or without a configuration.",
  ["config/config.go", "misc/file.go", "cmd/root.go"], [("write aside and rename", "config/config.go ResetConfig")], ["contents of conf/config.json", "port, bootstrap queries and worker count of the node"])
p("P19", "The UDP endpoint delivers datagrams unmodified and closes once",
  "Each datagram that reaches the endpoint is delivered once, in order of arrival, unmodified up to its 1024-byte limit and with its sender's address, and receive errors do not stop the endpoint. "
  "Datagrams handed to it for sending leave unmodified for the given address; closing it any number of times concurrently succeeds, without waiting for what is still undelivered, and afterwards sending fails, the socket is released and the receiver ends.",
  ["schedules", "fault_sequences", "inputs"], "all datagram sequences, receive and send errors, speeds of the consumer and moments of concurrent closes",
  "The tests exchange one datagram over loopback.",
  ["dht/krpc/udp.go", "misc/bytespool.go"], [("receive loop", "dht/krpc/udp.go recvRoutiue"), ("close under a lock", "dht/krpc/udp.go Close")], ["packets from the receive channel", "datagrams on the wire", "results of Close and SendPacket"])
p("P20", "The info hash log records every answered get_peers and announce_peer once",
  "For every get_peers and announce_peer query the node answers with a response, logs/infohash.log holds exactly one whole record with the querying address, the info hash and, for announces, the port; it is written before the answer leaves, so that killing the process at any point, and starting it again, loses none. "
  "The log holds nothing but whole records of such queries the node received, and records never interleave; those of earlier runs stay. (Excepted are a disk that refuses a write, and the rotation of a log that has reached 500 MB.)",
  ["schedules", "crash_points", "inputs"], "all concurrent query streams, kill points and restarts",
  "No test looks at the log.",
  ["dht/requesthandler.go", "misc/zap.go"], [("log before answering", "dht/requesthandler.go"), ("one write per record", "misc/zap.go NewZapLogger")], ["logs/infohash.log", "replies on the wire"])
p("P21", "The program is free of data races",
  "No two goroutines of the program access the same memory location without synchronisation, one of them writing, in any operation of the node or of its exported components that are meant for concurrent use. "
  "This holds from process start to exit.",
  ["schedules", "inputs", "fault_sequences"], "all schedules and inputs of all simulated scenarios",
  "The tests are hardly concurrent and are not run under the race detector.",
  ["misc/workpool.go", "misc/shutdown.go", "misc/logger.go", "misc/syncmap.go", "misc/bytespool.go", "dht/routetable.go", "dht/krpc/server.go", "dht/krpc/udp.go", "dht/fetchtorrent.go", "dht/peerwire/bep9.go"],
  [("mutexes, channels, atomics", "throughout")], ["reports of the race detector on simulated schedules"])

p("P22", "The torrent tool lists every stored torrent and disturbs nothing",
  "At any moment - beside a running node, while it stores torrents, after a crash - 'p2pcrawler torrent DIR' prints exactly one line 'name||file||length||piece length' (what the file states, or 'name err', 0, 0), ended by CR LF, for every *.torrent file that is in DIR throughout, in order of file name; 'torrent FILE' prints the line of that file (as named) or fails. "
  "Files that cannot be read or are no bencoded dictionary print no line and keep no other from being listed. The tool, like 'version', ends by itself, uses no network and no port, keeps at most a few files open at a time, and changes no file but a missing default configuration.",
  ["histories", "fault_sequences", "inputs", "crash_points"], "all directory contents (torn, odd, deeply nested, unreadable files), all changes made to the directory meanwhile, all states a node's run or crash leaves, read errors, limits on open files",
  "No test runs the commands; the directory is one a running node changes, with what strangers had it fetch.",
  ["cmd/torrent.go", "cmd/version.go", "cmd/root.go", "misc/beancode.go", "misc/file.go", "config/config.go", "dht/dht.go"],
  [("directory listing and printing", "cmd/torrent.go"), ("set-up of the node only when it runs", "dht/dht.go setup")], ["standard output of the tool", "files, sockets and exit of its process"])

p("P23", "Traffic that is over leaves nothing behind in the node",
  "However many messages, announces, answers nobody asked for and receive, send and disk errors the node has met, once they are over and its waits have run out (a minute after the last fetch) it holds no more goroutines than its configured workers and its constant ones, no connection, no further socket and no further open file; "
  "messages it has dealt with take no memory any more, so that its memory does not grow in proportion to their number. It then serves as at the start.",
  ["histories", "fault_sequences", "inputs", "schedules"], "all traffic of any length and kind, all network and disk faults meanwhile, all schedules",
  "The tests handle single messages and never look at what stays behind.",
  ["dht/krpc/server.go", "dht/krpc/udp.go", "dht/fetchtorrent.go", "dht/peerwire/bep9.go", "dht/peerwire/peer.go", "misc/workpool.go", "misc/syncmap.go", "misc/bytespool.go"],
  [("connection closed with the fetch", "dht/peerwire/bep9.go FetchMetaData"), ("fixed workers", "misc/workpool.go"), ("context per message", "dht/krpc/server.go")], ["goroutines, connections, sockets and open files of the node process", "its live heap after collection"])

p("P24", "What one RPC server says the other hears unchanged",
  "Every query and every answer made with the message builders or from any body of integers, byte strings, lists and dictionaries leaves as one datagram that is exactly one complete bencoded dictionary of just what was said, to whom it was meant for; "
  "whenever such a datagram of at most 1024 bytes is read by another RPC server, that server's handler for its query type runs once per copy with the same transaction id, type, body and sender and its answer is sent once, and the asker's response handler runs exactly once if an answer was read at all (never for an error), with the same answer and its own query. "
  "Integers keep their sign and 64 bits, strings every byte, lists their order, node and peer addresses their IPv4 bytes whichever form the net package holds them in; what a handler was given never changes later, whatever else arrives.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all message contents, any number of concurrent queries in both directions, loss, duplication, reordering, delay, send and receive errors, stalls",
  "The tests encode and decode a few fixed messages, never by two servers at once and never under faults; each side may also be wrong in the same way alone.",
  ["dht/messgaes.go", "dht/krpc/messages.go", "dht/krpc/server.go", "misc/beancode.go", "dht/node.go"],
  [("builders", "dht/messgaes.go With*Msg, With*Response"), ("encoding and decoding", "misc/beancode.go"), ("address lists", "dht/node.go joinNodeInfos, joinPeerInfos"), ("dispatch", "dht/krpc/server.go")], ["datagrams sent", "what handlers are given and later read"])

p("P25", "What is logged comes out whole, once, in order, at enabled levels only",
  "Every record logged at an enabled level comes out exactly once, as one line of its own with its level, its logger's prefix (and no other's), its message and every entry of its context unaltered: on the console, or as JSON in the file the logger is for. It is out when the call returns, so that a kill at any point loses none of a file and leaves earlier ones whole, and the node's next start too; records of several goroutines never mix, those of one keep their order. "
  "Records below the level in force do not come out: for the console the level of logger.Level or the last SetLevel, also for loggers made before; for a file the one named when it was opened, in any case of letters. Logging never fails its caller, whatever the disk does, but at level Panic always, on purpose, also when that level is off; records follow whole again once it works. (Excepted: what the disk refuses, and the record after one it tore; the rotation of a file of 500 MB.)",
  ["schedules", "inputs", "crash_points", "fault_sequences"], "all records, any concurrent goroutines and level changes, kills, disk errors, all configured levels",
  "The tests print a few console records from one goroutine and look at none of them.",
  ["misc/logger.go", "misc/zap.go", "main.go", "cmd/root.go"],
  [("one print per record", "misc/logger.go print"), ("level kept per logger, shared by prefixed ones", "misc/logger.go consoleLogger"), ("one write per record", "misc/zap.go NewZapLogger")], ["standard output", "files under logs/"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
