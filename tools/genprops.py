#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit; output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=list(observe),hook_needed=None)))

ENC=["encoding/encoding_v1/encoderV1.go","encoding/encoding_v2/encoderV2.go"]
DEC=["encoding/encoding_v1/decoderV1.go","encoding/encoding_v2/decoderV2.go"]

p("C01","Encoded values carry a PackStream header that exactly represents them",
  "For every Go value the encoder accepts (nil, bool, every integer and float type, string, slice, string-keyed map, structure), the bytes it emits start with a PackStream marker of the right kind and, where the format has one, a big-endian size or value field wide enough to hold the actual size or value, followed by every element in order. A value that PackStream cannot represent (an unsigned integer above the signed 64-bit maximum) is refused with an error and is never emitted as a different number.",
  ["inputs"],"every value of every accepted Go type, in particular every length and every integer, for both encoding versions",
  "Tests use quick.Check strings and ints capped at one chunk and compare against a copy of the same switch; the class boundaries (15/16, 255/256, 65535/65536, int8..int64) and the container element loops are sampled at best, uint above MaxInt64 never.",
  ENC+["encoding/encode_consts/const.go"],
  [("encodeInt/encodeString/encodeSlice/encodeMap/encodeStructure size switches","encoding/encoding_v2/encoderV2.go"),("marker constants","encoding/encode_consts/const.go")],
  observe=["Marshal, Encoder.Encode output"])

p("C02","Decoder reads every PackStream marker as the format defines it",
  "For each of the 256 possible marker bytes the decoder either yields the value PackStream assigns to it, reading sizes as unsigned big-endian and integers as signed big-endian of the marker's width, or returns an error if the format does not define the marker. Strings, lists and maps come out with exactly the number of bytes or elements their header announces, in wire order, and structures as the type that Bolt assigns to their signature.",
  ["inputs"],"every marker byte and every size field value, for both encoding versions",
  "There is no decoder unit test at all (the one that exists has an empty body); integration tests need a live server and never send a 128..255 element container.",
  DEC+["encoding/encode_consts/const.go"],
  [("marker switch in decode; decodeSlice, decodeMap","encoding/encoding_v2/decoderV2.go")],
  observe=["Unmarshal, Decoder.Decode result"])

p("C03","Malformed server bytes produce an error, never a crash or a wrong value",
  "Whatever bytes arrive, decoding a message terminates with a value or an error: it does not panic, does not allocate memory out of proportion to the bytes received, and does not exhaust the stack through nesting. A field that is truncated or has an unexpected type makes the decode fail instead of yielding a shortened or zero value.",
  ["inputs","fault_sequences"],"every byte sequence, including truncated, hostile and deeply nested ones, for both encoding versions",
  "No test feeds the decoder malformed input.",
  DEC+["encoding/util.go"],
  [("comma-ok type assertions, size checks against the remaining buffer, nesting limit","encoding/encoding_v2/decoderV2.go"),("slice conversions","encoding/util.go")],
  observe=["Unmarshal, Decoder.Decode"])

p("C04","Every message is framed as valid chunks and failed encodes send nothing",
  "An encoded message reaches the transport as a sequence of chunks, each preceded by its exact 16-bit big-endian length, never a zero-length chunk and never a chunk above the configured size, closed by exactly one end marker, and the chunk payloads concatenate to the encoded message. If encoding fails, not a single byte of that message is written, and nothing of it leaks into a later message.",
  ["inputs","configurations","fault_sequences"],"every message length, every chunk size (including zero) and every encoding failure",
  "All encoder tests use the 65535-byte chunk size and messages shorter than one chunk; no test encodes a value that fails half way.",
  ENC,[("Write buffers, flush cuts chunks and writes the end marker","encoding/encoding_v2/encoderV2.go"),("NewEncoder normalises the chunk size","encoding/encoding_v2/encoderV2.go")],
  observe=["bytes written to the transport"])

p("C05","Everything the decoder returns can be sent back in the same wire shape",
  "Each Go type that a protocol version's decoder can return as a value (scalars, lists, maps, nodes, relationships, paths, temporal and spatial values) is accepted by the same version's encoder, which emits a structure with the signature that decodes to that type and with the same number, order and kind of fields as the decoder reads.",
  ["inputs"],"every decodable value type and every structure signature, for both encoding versions",
  "Temporal, spatial and graph structures are only touched by integration tests that need a live server; duration encode/decode tests are skipped stubs.",
  ENC+DEC+["structures/graph/node.go","structures/graph/path.go","structures/graph/relationship.go","structures/graph/unbound_relationship.go","structures/types/point.go"],
  [("encode type switch, decodeStruct signature switch","encoding/encoding_v2/encoderV2.go"),("Signature/AllFields methods","structures/types/point.go")],
  observe=["Marshal/Unmarshal"])

p("C06","Each protocol version emits the requests that version defines",
  "For protocol versions 1 to 4, every request the driver builds (initialisation with the caller's credentials, run, pull, discard, begin, commit, rollback, reset, goodbye) is encoded with the signature byte and the number, order and kind of fields that version of Bolt defines. Request metadata says read access exactly when read mode is requested, names a database exactly when one is given, and carries the caller's timeout and transaction metadata and authentication realm exactly when set.",
  ["inputs","configurations"],"every request kind, argument combination and protocol version",
  "No unit test encodes a protocol message; integration tests need one live server per version and never look at metadata.",
  ["protocol/protocol_v1/bolt.go","protocol/protocol_v2/bolt.go","protocol/protocol_v3/bolt.go","protocol/protocol_v4/bolt.go","structures/messages/builder.go","structures/messages/init.go","structures/messages/tx.go","structures/messages/pull.go","structures/messages/discard.go"],
  [("IBoltProtocol implementations","protocol/interface.go"),("metadata builder","structures/messages/builder.go"),("Signature/AllFields methods","structures/messages")],
  observe=["bytes of each request"])

p("C07","Version negotiation offers and accepts exactly the implemented versions",
  "The handshake sent to the server is the Bolt magic preamble followed by the four supported versions in descending order of preference, and a connection is only established with the protocol implementation whose version the server selected. An answer of 'no version', an incomplete answer or a version outside the supported set fails the connection attempt, and a complete answer is accepted however the network splits it.",
  ["inputs","configurations","schedules"],"every server answer and every segmentation of it",
  "The unit test checks the lookup table for five inputs; nothing exercises the handshake bytes or short reads.",
  ["connection/const.go","connection/connection.go","protocol/util.go"],
  [("handshake constant","connection/const.go"),("handshake, initialize","connection/connection.go"),("GetProtocol","protocol/util.go")],
  observe=["CreateBoltConn"])

p("C08","Requests and replies stay paired; a connection out of step is never reused",
  "When a query, transaction control or initialisation call returns, every request it put on the wire has had its reply consumed, including the pipelined ones a server failure causes to be ignored, which are drained by a reset. If that could not be achieved (transport error, undecodable or unexpected reply), the connection is closed before the call returns, so a later call can never receive an earlier call's reply.",
  ["histories","fault_sequences","inputs"],"every sequence of server replies and transport faults at any point of any operation, for all four protocol versions",
  "No unit test drives a connection; integration tests only see a healthy server.",
  ["connection/connection.go","connection/transaction.go"],
  [("sendMessage/consume/reset and the pairing of sends and receives in runQuery, BeginWithDatabase, Commit, Rollback, sendInit","connection/connection.go")],
  state=[("closed","connection must not be used any more","connection/connection.go")],
  observe=["wire trace of each operation"])

p("C09","Query results are the server's records, complete and in order",
  "A successful query returns one row per record the server streamed for that query, in the order streamed, with that record's fields, together with the metadata of the final success message. A query never reports success before the server's final success message and never returns rows alongside an error.",
  ["inputs","histories"],"every record stream and every reply sequence, for all four protocol versions",
  "Integration tests compare single-row results only.",
  ["connection/connection.go","connection/transaction.go","connection/result.go"],
  [("record loop of runQuery","connection/connection.go"),("Exec/Query wrappers","connection/transaction.go")],
  observe=["Query, Exec results"])

p("C10","Transactions follow their life cycle",
  "A connection has at most one open transaction; starting a second one or starting one on a closed connection is refused without sending anything. Commit and rollback report success only after the server confirmed them, a transaction that has ended (committed, rolled back, or terminated by a server failure) refuses every further operation without sending anything, and ending a transaction makes the connection available for a new one.",
  ["histories","fault_sequences"],"every sequence of transaction operations and server replies, for all four protocol versions",
  "Integration tests run one begin/query/commit and one begin/query/rollback against a healthy server.",
  ["connection/transaction.go","connection/connection.go"],
  [("closed checks, transaction reset on confirmation","connection/transaction.go"),("BeginWithDatabase guards","connection/connection.go")],
  state=[("transaction","the open transaction of a connection","connection/connection.go"),("closed","transaction has ended","connection/transaction.go")],
  observe=["ITransaction, IConnection.Begin"])

p("C11","Statements inside a transaction run in it, with the database that was named",
  "A statement issued through a transaction is sent as part of that transaction, never as an auto-commit statement, and a statement issued on the connection itself is sent as auto-commit. A database name is passed to the server on protocols with multi-database support and refused with an error, before anything is sent, on protocols without, for queries, executions and transaction starts alike.",
  ["inputs","configurations"],"every statement, database name, entry point and protocol version",
  "Only a live multi-database server could show the difference, and the integration tests never check where a statement ran.",
  ["connection/connection.go","connection/transaction.go","structures/messages/run_with_metadata.go"],
  [("SupportsMultiDatabase guards; autoCommit argument of GetRunMessage","connection/connection.go")],
  observe=["RUN/BEGIN metadata on the wire"])

p("C12","No failure is reported as success; server failures keep their details",
  "If the server answers a request with a failure, or dialing, TLS set-up, encoding, sending, receiving or decoding fails, the API call that needed it returns a non-nil error. For a server failure the innermost cause of that error is the server's failure message with its metadata, and wrapping an error never loses the innermost cause. The text of a server failure, and of any error wrapped around it, contains the server's code and message and the message of every wrapper; producing it never panics.",
  ["fault_sequences","inputs"],"every fault at every step of every exported connection and transaction operation, for all four protocol versions",
  "Tests never inject a fault.",
  ["connection/connection.go","connection/transaction.go","errors/errors.go","routing/pool.go"],
  [("error propagation in consume/sendInit/runQuery","connection/connection.go"),("Wrap/InnerMost","errors/errors.go")],
  observe=["returned errors"])

p("C13","A connection's exchanges are serialised and its lock is always released",
  "Concurrent calls on one connection (queries, transaction begin, commit and rollback) never interleave their messages on the wire: each exchange runs from its first send to its last receive under the connection's lock. Every call releases the lock on every path, including errors, and never tries to take it while already holding it.",
  ["schedules","fault_sequences"],"every interleaving of concurrent callers and every error path",
  "The stress test is skipped without a server, and interleavings are not enumerated.",
  ["connection/connection.go","connection/transaction.go"],
  [("connection mutex","connection/connection.go")],
  state=[("mutex","guards the wire","connection/connection.go")],
  observe=["send/receive calls"])

p("C14","Closing a connection always releases the socket",
  "Closing an open connection closes its network socket and marks it closed on every path, even if rolling back the open transaction or saying goodbye fails; closing it again is reported as already closed. A connection attempt that fails after the socket was opened (handshake, version, authentication) closes that socket and returns an error instead of a connection.",
  ["fault_sequences","histories"],"every fault during close and during connection establishment",
  "Tests only close healthy connections.",
  ["connection/connection.go","connection_pool_factory.go"],
  [("Close, CreateBoltConn","connection/connection.go"),("DestroyObject","connection_pool_factory.go")],
  observe=["net.Conn Close calls"])

p("C15","TLS is used whenever requested and never silently weakened",
  "When TLS is requested, by option or by connection string and for single, pooled and routed connections alike, the connection is made with TLS and never in plain text. Server certificates are verified unless the caller explicitly disabled it, a configured CA file, client certificate and key are the ones used, and a problem loading them fails the connection.",
  ["configurations","inputs"],"every combination of TLS options, connection-string parameters and driver kinds",
  "No test opens a TLS connection or inspects the TLS configuration; the option tests are empty.",
  ["client.go","opt.go","connection/connection.go","routing/pool.go","driver_routing_pool.go"],
  [("connection string construction","client.go"),("connection string parsing, createConnection, tlsConfig","connection/connection.go"),("addAuthInfoToConnStr","routing/pool.go")],
  observe=["dial calls, tls.Config"])

p("C16","Host, credentials and TLS settings survive the connection string unchanged",
  "Whatever user name, password and file paths the caller supplies, including characters special in URLs, the connection that is eventually opened, direct, pooled or routed, uses exactly that host, port, user name, password and file paths. Invalid configuration (missing host or user, non-positive port, unsupported scheme, password missing, malformed timeout) is refused with an error.",
  ["inputs","configurations"],"every user name, password, path and option combination",
  "Option tests are empty stubs; integration tests use neo4j:changeme only.",
  ["client.go","opt.go","connection/connection.go","driver_routing_pool.go","routing/pool.go"],
  [("connection string construction and validation","client.go"),("connection string parsing","connection/connection.go")],
  observe=["connection string, Connection fields"])

p("C17","Every blocking network operation is bounded by the connection timeout",
  "Dialing (plain or TLS), reading and writing on a connection are each bounded by the connection's timeout, the one set last: no network read, write or dial is issued without a deadline, and failing to set the deadline is reported as a bad connection instead of proceeding. Transport errors, including the server closing the connection, surface as the standard bad-connection error.",
  ["schedules","fault_sequences"],"every network operation in the driver and every stall of the peer",
  "Tests have no stalled peer.",
  ["connection/connection.go"],
  [("readWrite adapter, createConnection","connection/connection.go")],
  observe=["net.Conn Read/Write/SetDeadline, dial calls"])

p("C18","Result accessors answer for any metadata without crashing",
  "For every query result metadata (missing, empty or malformed statistics), each counter accessor returns the server's value of its own statistic and true if it is present as an integer, and -1 and false otherwise; the statistics are reported as present exactly when they are a map, the metadata is what the server sent, and no accessor panics.",
  ["inputs"],"every metadata map",
  "Integration tests only read counters that are present.",
  ["connection/result.go"],[("boltResult accessors","connection/result.go")],observe=["IResult"])

p("C19","Routing pool state is accessed only under its lock",
  "Concurrent borrow, reclaim, refresh, start and stop calls on a routing pool never race: all of the pool's mutable bookkeeping is read and written only while holding the pool's lock (exclusively for writes), every path releases the lock, and no path re-acquires it while holding it.",
  ["schedules"],"every interleaving of the pool's exported operations and its background refresher",
  "The stress test is skipped and interleavings are not enumerated.",
  ["routing/pool.go","routing/queue.go","routing/util.go"],
  [("routingPool.mutex","routing/pool.go"),("Queue.lock","routing/queue.go")],
  state=[("mutex","guards queues, maps, indexes","routing/pool.go")],observe=["field accesses"])

p("C20","The routing pool hands out live, idle, exclusively owned connections",
  "A connection obtained from the routing pool is open, was not condemned by a cluster change, comes from the queue of the requested access mode and is recorded as borrowed and no longer idle. A reclaimed connection returns to the idle queue of its mode only if it was borrowed, is alive, is not condemned and has had any open transaction rolled back; otherwise it is closed, and connections the pool drops for any reason, including stop, are closed.",
  ["histories","fault_sequences"],"every history of borrow, reclaim, refresh and stop, with connections dying or condemned at any point",
  "Routing tests need a live cluster; no test reclaims a dead, foreign or in-transaction connection.",
  ["routing/pool.go","routing/queue.go"],
  [("internalBorrow, Reclaim, removeConn, prune, Stop","routing/pool.go")],
  state=[("borrowedConns","connections in use","routing/pool.go"),("heldConns","idle connections","routing/pool.go"),("readQueue/writeQueue","idle queues","routing/pool.go")],
  observe=["BorrowRConnection, BorrowRWConnection, Reclaim, Stop"])

p("C21","Writes go to leaders, reads to followers and replicas; dead members are dropped",
  "Connections handed out for write access are only ever opened to cluster members reported as leader, and connections handed out for read access only to members reported as follower or read replica, with the configured credentials. After a successful refresh the target lists are exactly the members just reported, connections to members no longer listed for a role are condemned, a failed refresh changes nothing, and picking the next target never goes out of range when the list shrinks.",
  ["inputs","histories"],"every cluster overview answer and every sequence of refreshes",
  "Needs a live changing cluster.",
  ["routing/routing_handler.go","routing/pool.go"],
  [("refreshClusterInfo, role mapping, connection string getters","routing/routing_handler.go"),("refreshConnections, addWriteConn, addReadConn","routing/pool.go")],
  observe=["target lists, dialled addresses"])

p("C22","The connection pool neither leaks slots nor hands out dead or dirty connections",
  "A pooled driver hands out only connections that passed an open check (which a live idle connection passes and one that is closed, broken, ended by the server or out of step does not), returns every borrowed slot it cannot hand out to the pool, refuses to open or close after being closed, makes a caller that finds every connection in use wait for one, touches its own state only under its lock, and never blocks waiting for a free connection while holding the lock that closing needs. A returned connection has its open transaction rolled back or is discarded, a dead one is never kept, and a discarded connection is closed.",
  ["histories","schedules","fault_sequences"],"every history of open, reclaim and close with connections dying at any point",
  "Pool tests need a server; exhaustion and dead-connection paths are never run.",
  ["driver_pool.go","connection_pool_factory.go","connection/connection.go"],
  [("Connection.ValidateOpen, MakeIdle","connection/connection.go"),("driverPool.open/close/reclaim","driver_pool.go"),("ConnectionPooledObjectFactory callbacks","connection_pool_factory.go")],
  state=[("closed","pool closed","driver_pool.go")],observe=["IDriverPool"])

p("C23","The library is silent and never ends the process",
  "The driver writes nothing to standard output or standard error except through its logger and only at or below the configured level, which is off by default, and no driver operation terminates the process; what a configured level asks for is written. User passwords and authentication tokens are never passed to a log call, other than as part of the raw bytes that the explicit \"trace-bytes\" level dumps.",
  ["inputs","configurations"],"every code path of the library and every log level",
  "Tests do not capture output.",
  ["log/log.go","connection/connection.go","encoding/encoding_v2/decoderV2.go"],
  [("level gates","log/log.go")],observe=["stdout, stderr"])

p("C24","Every accepted client option takes effect",
  "Each setting a caller passes to the client (connection string, host and port, routing, credentials, TLS, timeout, chunk size, protocol version constraints) influences the connections the client's drivers open; no accepted option is silently ignored. Conflicting or out-of-range settings are refused with an error.",
  ["configurations"],"every option and combination of options",
  "All option tests are empty stubs.",
  ["opt.go","client.go"],[("option functions","opt.go"),("NewClient, NewDriver, NewDriverPool","client.go")],observe=["connection settings"])

p("C25","Temporal values denote the same instant, date or duration after a round trip",
  "A date, time, local time, local date-time, zoned date-time or duration encoded and decoded again denotes the same calendar date, clock time, instant and offset, or length.",
  ["inputs"],"every temporal value and time zone",
  "Temporal tests need a live server and sample a handful of values.",
  ["encoding/encoding_v2/encoderV2.go","encoding/encoding_v2/decoderV2.go"],
  [("encodeTime, encodeDuration and decode counterparts","encoding/encoding_v2/encoderV2.go")],observe=["Marshal/Unmarshal"])

p("C26","Borrowers are eventually served and background refresh keeps the pool sized",
  "A caller waiting on an exhausted pool proceeds once a connection is returned, and a running routing pool is refreshed every interval and keeps its configured number of idle connections.",
  ["schedules","histories"],"every schedule of borrowers and refreshes",
  "Liveness over schedules is not tested.",
  ["driver_pool.go","routing/pool.go"],[("BlockWhenExhausted","driver_pool.go"),("refreshHandler, balance","routing/pool.go")],observe=["pool sizes over time"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
