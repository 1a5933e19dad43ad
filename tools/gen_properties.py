#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

CS = "client/server.go"
prop("C01", "A reply is only ever given to the request it answers",
 "On one client connection shared by any number of concurrent callers, everything a call returns (value, flags, CAS token, counter, version, status) is the server's answer to that very call: never an answer that belongs to another call, to an earlier call that timed out or failed, or to a key the caller did not ask for. This holds for the text, meta and binary protocol clients whatever the server answers (hits, misses, refusals, errors), whatever key the caller passes (a key the protocol cannot carry is refused without disturbing other calls), and however the reply bytes are split, delayed or cut off. A call whose own answer cannot be known fails with an error.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "All interleavings of callers (and the heartbeat) on one client, all sequences of operations, all segmentations, delays, truncations, resets and timeouts of the byte stream, all legal server replies including errors.",
 "The tests issue one call at a time over an undisturbed loopback connection, never continue on a connection after a timeout or an error reply, and never mix misses into a multi-get.",
 [CS], [("conn/raw", "the shared buffered connection", CS), ("mu", "serialises request/response exchanges", CS)],
 [("one exchange at a time under the client's lock", CS), ("reply parsers consume exactly one reply", CS), ("a connection that failed mid-exchange is not used again", CS)],
 ["results of client calls", "byte stream at the simulated server"])

prop("C02", "Single-server operations are linearizable and applied at most once",
 "Concurrent get, multi-get, set, add, replace, delete, increment, decrement, touch, compare-and-swap and flush calls on one server, from any mix of client protocols and connections, produce results that some sequential order of those calls consistent with real time would produce on one memcached store. A call that returns an error because of a connection failure or timeout took effect at most once; a call that succeeded took effect exactly once, with exactly the value and flags given, whatever bytes the value contains.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "All concurrent histories of client calls over any protocol mix, with and without connection faults, server restarts and error replies.",
 "The tests are sequential, single-client, and look at one or two operations each with short ASCII values.",
 [CS, "client/client.go"], [("store", "key/value/flags/version state of the server as seen through replies", CS)],
 [("request encoders and reply decoders of each protocol", CS), ("no hidden retry of non-idempotent requests", CS)],
 ["call/return history of client calls", "final store contents"])

prop("C03", "Outcomes are reported truthfully",
 "A call reports success only if the server confirmed that very operation, reports the key as missing or as already existing/changed only if the server said so, and reports every other server answer (out of memory, busy, temporary failure, client error, unknown command) as some other error. Get, replace, increment/decrement (where the server does not create the key), touch and compare-and-swap on a missing key report it as not found (so does delete, except that the meta client counts a key that is already gone as deleted), add on a present key and a stale compare-and-swap report it as existing, and the connection stays usable after any such reply.",
 ["histories", "fault_sequences", "inputs"],
 "All sequences of operations against a server that may answer any request with any legal refusal or error reply at any point.",
 "A healthy loopback memcached practically never produces error replies, so the tests see none of them, and they stop using the connection right after a refusal.",
 [CS, "errors/errors.go"], [], [("status/line to error mapping in every operation", CS)],
 ["error returned by each client call", "store contents at the simulated server"])

prop("C04", "Compare-and-swap never loses an update",
 "If callers only modify a key by reading it (single or multi-get), deriving a new value and storing that item with the token it was read with, then for every interleaving each successful store was based on the value it replaced: no two succeed from the same version and no acknowledged update is lost. A store with a token never overwrites a version newer than the one the token came from, and add never overwrites a present key whatever token the item carries. This holds for all three protocol clients and any mixture of them, including a server that restarts.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of read-modify-write loops from several callers, clients and protocols, with connection faults.",
 "The single CAS test is sequential: one success and one stale failure on one client, with a single-key get.",
 [CS, "client/client.go"], [("Item.Cas", "version token carried from a read to a conditional store", "client/client.go")],
 [("token parsing on get and multi-get, token emission on set", CS)],
 ["results of get/multi-get/set calls", "final value"])

prop("C05", "Counter updates are exact",
 "Concurrent increments and decrements of a counter by any mix of callers and protocols each return the value right after their own update; the final counter equals the initial value plus all successful updates (plus, for calls that failed with a connection error, each at most once). No update is dropped, doubled, applied with another delta or refused because of what the same client did before.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of counter updates with other operations on shared and separate clients, with connection faults.",
 "The tests perform one increment or decrement per connection.",
 [CS], [("request header pools", "recycled binary request/response headers", CS)],
 [("incr/decr requests of each protocol", CS)],
 ["returned counter values", "final counter at the server"])

prop("C06", "A configured timeout bounds every call",
 "With a timeout T set on a client, every call on it returns within T of the moment it gets its turn on the connection (callers queued in front add at most T each), whatever the server does: stops reading, stops answering, answers half a reply, or disappears without closing the connection. The call then fails with an error. This includes reconnecting to a host that does not answer.",
 ["fault_sequences", "schedules"],
 "All stalls, partial replies, black-holed connections and back-pressure at any byte, for every operation and protocol, with any number of queued callers.",
 "No test sets a timeout or talks to a server that stalls.",
 [CS], [("Timeout", "per-client time limit", CS)], [("read and write deadlines armed before each exchange", CS), ("dial timeout on reconnect", CS)],
 ["simulated duration of each call"])

prop("C07", "Reconnect restores service after any outage",
 "Once a server is reachable again, a single reconnect call on a client succeeds and the client then behaves like a freshly connected one, no matter how its connection died, how many operations or reconnect attempts failed meanwhile, and which callers were using it. The previous connection is released. A first connection likewise either yields a working client or fails with an error in the time its context allows, leaving nothing behind, and once made does not depend on that context any more.",
 ["fault_sequences", "histories", "schedules"],
 "All sequences of connection loss, server crash/restart, refused and timed-out dials, failed calls and reconnect attempts, on all protocols.",
 "One test restarts memcached cleanly once and reconnects once, after the server is already back.",
 [CS], [("raw", "current connection", CS)], [("Reconnect", CS)],
 ["results of reconnect and later calls", "connections open at the simulated server"])

prop("C08", "The heartbeat notices dead connections and repairs them",
 "A client with the heartbeat enabled keeps probing for as long as it is open: with auto-reconnect it is serving again within a few heartbeat intervals after the server becomes reachable, however many outages of whatever length came before (an outage without any sign, such as lost power, is noticed by the configured timeout; without a timeout as soon as TCP reports it); without auto-reconnect a dead connection is closed within a few intervals so calls fail at once. The heartbeat never disturbs a healthy connection or the calls in progress on it.",
 ["fault_sequences", "schedules"],
 "All sequences of outages of any length relative to heartbeat ticks, and all interleavings of probes with calls.",
 "No test enables the heartbeat.",
 [CS], [("closeCh", "stops the probe", CS)], [("heartbeat loop", CS), ("Reconnect", CS)],
 ["results of calls over simulated time", "connections seen by the simulated server"])

prop("C09", "Close is safe, prompt and final",
 "Close may be called at any moment, from any number of callers, concurrently with operations, heartbeats and reconnects: nothing panics or deadlocks, calls in progress return, and later calls fail instead of hanging. After it returns the client's background work stops, no connection of the client stays open and none is opened unless a caller asks for a reconnect.",
 ["schedules", "fault_sequences"],
 "All interleavings of close with operations, other closes, heartbeat probes and automatic reconnects in any network condition.",
 "The tests close once, at the end, with nothing else running; leaked goroutines and connections are not observed.",
 [CS, "client/client.go"], [("raw, closeCh", "connection and stop signal shared by Close, Reconnect, the operations and the heartbeat", CS)],
 [("Close", CS), ("heartbeat stop", CS)],
 ["panics and deadlocks in the simulation", "goroutines and connections left after close"])

prop("C10", "Caller's buffers are left alone and results are stable",
 "No call ever modifies memory the caller handed in (the item, its value and flags, bytes beyond the value in the same buffer, key lists), during or after the call, on success or failure. Items returned by a call never change afterwards because of later calls, and the server hands its handler requests whose contents never change once delivered.",
 ["histories", "schedules", "inputs"],
 "All sequences of operations reusing buffers, all interleavings of callers sharing input data, all failure points of a call.",
 "The tests use literal values, never inspect the rest of the buffer, and never keep results across later calls.",
 [CS, "client/client.go", "cluster/cluster.go", "server/server.go"], [], [("value framing on write", CS), ("fresh buffers on read", CS)],
 ["caller memory before, during and after calls", "previously returned items"])

prop("C11", "All clients route a key to the same server and isolate failures",
 "Every operation on a key, from every client configured with the same set of servers in whatever order, goes to one and the same server, and only to it; an item that names the server it came from names that one. Adding or removing a server changes the owner only of keys that move to or from that server. A failing, stalled or disconnected server affects only calls for keys it owns.",
 ["configurations", "schedules", "fault_sequences", "inputs"],
 "All server sets and orders, all keys, all operations, membership changes, and failures of any subset of servers.",
 "The ring test checks three lookups on hand-built rings; pool tests always use a single server.",
 ["client/ring.go", "client/client.go", "cluster/cluster.go"], [("ring nodes", "sorted hash points", "client/ring.go")],
 [("consistent hashing", "client/ring.go"), ("pool operations pick by key", "client/client.go")],
 ["which simulated server executes each command"])

prop("C12", "Multi-get is exactly the union of single gets",
 "A multi-get that succeeds returns, for every one of the (different) requested keys that is present, one item with that key's own value and flags (and, where the client's protocol reports them for single gets, its CAS token and expiration), nothing for absent keys and nothing that was not asked for, for any number and order of keys spread over any number of servers. If any involved server fails to answer completely the call returns an error rather than a partial result.",
 ["inputs", "fault_sequences", "schedules", "configurations"],
 "All key sets with any pattern of hits and misses over any number of servers, with truncated, delayed or failing replies from any of them.",
 "The tests fetch two present keys from one healthy server.",
 [CS, "client/client.go", "cluster/cluster.go"], [], [("multi-reply parsers", CS), ("per-server grouping", "client/client.go")],
 ["results of multi-get versus store contents"])

prop("C13", "Pool-wide operations cover every server",
 "Flush on a pool reports success only if every server of the pool was flushed, version reports every server's own version or an error, and close releases the connection and background work of every server of the pool even if closing some of them reports an error.",
 ["fault_sequences", "configurations", "schedules"],
 "All subsets of servers being down, closed or failing, in every visiting order.",
 "Pool tests use one healthy server, and the visiting order is random per run.",
 ["client/client.go", "client/ring.go"], [], [("iteration over all servers", "client/ring.go")],
 ["contents and connections of every simulated server"])

prop("C14", "An acknowledged replicated write is on primary and secondary",
 "When a write through the replica pool (set, conditional set, add, replace, delete, increment, decrement) returns success, the key's owners in the primary and in the secondary set hold the same value and flags (or both lack the key), and this still holds after any number of concurrent successful writes to the same key through the pool. Reads see acknowledged writes.",
 ["schedules", "histories", "inputs"],
 "All sequences and interleavings of replicated writes and reads on any keys, with any item flags, tokens and expirations, any number of servers per side.",
 "The tests run single sequential writes with one server per side and mostly do not look at the secondary.",
 ["cluster/cluster.go"], [("primary/secondary rings", "the two copies", "cluster/cluster.go")],
 [("write primary, then secondary, in the same order per key", "cluster/cluster.go")],
 ["contents of simulated primary and secondary servers"])

prop("C15", "Replication failures are never silent and never lead the primary",
 "A replicated write that the primary refused (missing key, existing key, stale token) or that did not reach the primary leaves the secondary untouched and reports that outcome. If the secondary could not be updated the call reports an error. The secondary never holds a value for a key that the primary did not hold at some time before.",
 ["fault_sequences", "schedules", "histories"],
 "All failure points of primary and secondary (refusals, error replies, resets, crashes, restarts, stalls) in every replicated operation.",
 "The tests never make either side fail.",
 ["cluster/cluster.go"], [], [("primary first, stop at first error", "cluster/cluster.go")],
 ["contents of simulated primary and secondary servers", "errors returned by the pool"])

prop("C16", "The server answers each request exactly once, in order, as sent",
 "For every sequence of well-formed requests a client sends on a connection (text, meta or binary; one at a time or pipelined; split into packets anywhere; with pauses of any length), the handler sees each request exactly once, in order, with exactly the operation, key(s), value, flags, delta, expiration and token sent, and the client receives exactly one well-formed response per request in the same order, stating what the handler answered: a handler's not-found, exists or other error is never shown as a hit or a success and never left unanswered. A request the server does not support, and one for which the handler returns a Go error, is refused by an error reply or by closing the connection, and a refused request never reaches the handler as another one. Connections do not influence each other.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "All request sequences, protocols, segmentations, pipelining depths, handler outcomes and interleavings of connections.",
 "The tests send one request at a time in single packets, always answered successfully by the handler.",
 ["server/server.go"], [("connection buffer", "per-connection parser state", "server/server.go")],
 [("request readers", "server/server.go"), ("response writers", "server/server.go")],
 ["requests recorded by the handler", "response bytes received by simulated clients"])

prop("C17", "No client can crash or wedge the server",
 "Whatever bytes a client sends, wherever it stops sending, stalls, disconnects or resets, the server keeps serving all other connections correctly and keeps accepting new ones, and the handler is never invoked for a request that was incomplete or malformed. The memory a connection costs follows the bytes it has sent, not the lengths it announces. When a connection ends, everything the server held for it is released. When its listener is closed or fails for good, Serve closes it and returns the error, and the connections accepted before are served on.",
 ["inputs", "fault_sequences", "schedules"],
 "All byte streams including negative, huge or inconsistent lengths, truncation at every byte, stalls and resets, on any number of connections.",
 "The tests only send what the project's own client produces on healthy connections.",
 ["server/server.go"], [], [("request validation", "server/server.go"), ("per-connection goroutine", "server/server.go")],
 ["panics", "service on a healthy connection", "goroutines and connections left"])

prop("C18", "The router is a faithful, replicated cache",
 "Through the router a get returns exactly the value and flags of the latest set of that key or a miss if there is none (concurrent calls are linearizable), however many routers there are and in whatever order they list the servers, an acknowledged set is stored with its flags and expiration on both the primary and the secondary owner, a set with a CAS token never overwrites a newer version, and requests the router does not support are refused without any effect. When a backend fails, or the router crashes at any point, clients get an error or a closed connection, never wrong or partial data.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "All mixes of text, meta and binary clients and operations through the router, with backend error replies, resets, stalls and crashes, and router crashes at any point.",
 "cmd/router and proxy have no tests at all.",
 ["cmd/router/main.go", "proxy/replica_pool.go", "server/server.go", "cluster/cluster.go", CS], [],
 [("handler mapping between protocol requests and the replica pool", "proxy/replica_pool.go")],
 ["results seen by clients of the router", "contents of simulated backends"])

prop("C19", "The router recovers when its backends do",
 "After backends crash, restart, drop connections or become unreachable for any time, a router that has once started serving serves requests for their keys again within a bounded time after they are reachable, without being restarted, and stays available for keys of healthy backends meanwhile. The router process itself never exits because of a backend or client failure.",
 ["fault_sequences", "schedules"],
 "All sequences and durations of backend outages at any point of request processing.",
 "No test runs the router; reconnection is never tested beyond one manual call.",
 ["cmd/router/main.go", CS, "proxy/replica_pool.go"], [], [("heartbeat with auto-reconnect on backend connections", "cmd/router/main.go")],
 ["results of client requests over simulated time"])

prop("C20", "Expiration takes effect as requested, on every copy",
 "An item stored, touched, incremented into existence or replicated with an expiration is readable until that time and gone after it (within the server's one-second clock), and one stored without expiration never expires, on the server and on both replicas, for all protocols. Writing back an item as it was read never shortens its life to nothing, and an increment or decrement through the replica pool leaves the secondary's copy with the primary's remaining life.",
 ["histories", "inputs", "schedules"],
 "All sequences of expiring and non-expiring writes, touches, counter updates and read-modify-writes over arbitrary simulated time.",
 "The tests look at a 90-second TTL immediately after writing and at one replicated 10-second TTL; they cannot wait out expirations.",
 [CS, "cluster/cluster.go", "client/client.go"], [("Item.Expiration", "requested or remaining life", "client/client.go")],
 [("expiration fields of each protocol", CS), ("TTL copy in replicated counters", "cluster/cluster.go")],
 ["presence of keys over simulated time on every server"])

prop("C21", "No reply can crash, wedge or mislead a client",
 "Whatever bytes come back on a connection, from a broken, hostile or overloaded server, from a proxy in front of it, or from something that is no memcached at all and may speak first, wherever they stop and for however long they go on, a client call of any protocol does not panic, returns within its timeout (without one, once the connection ends), and uses memory in proportion to the bytes received, not to a length the bytes announce. A reply that is malformed for the request (a broken, overlong or wrongly terminated line, missing or out-of-range fields, a value that is not as long as announced, a wrong magic, opcode or inconsistent lengths, a counter that is no number) is an error, never a success, hit, miss or conflict; the connection is not used for another request afterwards, so no later call gets a wrong answer from what is left on it; and a reconnect to a server in order restores service. The pools and the router on top of the clients stay up as well.",
 ["inputs", "fault_sequences", "schedules"],
 "All byte streams as replies, at any point of any sequence of operations of the three protocols, with any segmentation and timing, with concurrent callers and heartbeats.",
 "The tests only talk to a correct memcached over loopback, which never sends any of this.",
 [CS, "client/client.go", "cluster/cluster.go", "proxy/replica_pool.go"], [("raw.err", "the connection is out of step and must not be used", CS), ("conn", "what is buffered of the reply", CS)],
 [("parseGetResponse of each protocol", CS), ("binaryResponseHeader.Read and the bodies after it", CS), ("single-line replies", CS)],
 ["results and duration of client calls", "memory allocated", "requests arriving on a connection after a malformed reply"])

prop("C22", "A long life leaves nothing behind",
 "What a client, pool, replica pool, server or router holds at rest is bounded by what is configured and open at that moment, never by its history. However many calls, keys, refusals, failures, outages, reconnects (also failing or interrupted ones), closes and reopenings, and however many connections, well-behaved or not, it has seen: at rest there is at most one open connection per client and server, no connection of a peer that has gone, and no goroutine, running timer or memory per key, request, call, failure or connection of the past; a closed client, and a first connection that failed, leave nothing at all.",
 ["histories", "fault_sequences", "schedules"],
 "All histories of calls, faults, reconnects, closes and connections of any length, with any interleaving, ending in a state at rest (no fault, no call in progress, timeouts of the past over).",
 "The tests make a handful of calls per object and never look at what is left afterwards.",
 [CS, "client/client.go", "client/ring.go", "cluster/cluster.go", "server/server.go", "proxy/replica_pool.go", "cmd/router/main.go"],
 [("raw, conn", "the one connection of a client", CS), ("keyLocks.m", "locks of keys in use", "cluster/cluster.go"), ("closeCh", "what ends the heartbeat", CS)],
 [("reconnect, Close, startHeartbeat, contextWithClose", CS), ("keyLocks.lock", "cluster/cluster.go"), ("the goroutines of a connection", "server/server.go")],
 ["goroutines, running timers, open connections and reachable memory at rest, before and after many repetitions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
