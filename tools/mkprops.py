#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

PR="cdn-proto/src/"; BR="cdn-broker/src/"; CL="cdn-client/src/lib.rs"; MA="cdn-marshal/src/"
MOD=PR+"connection/protocols/mod.rs"; MEM=PR+"connection/protocols/memory.rs"; TCP=PR+"connection/protocols/tcp.rs"; TLS=PR+"connection/protocols/tcp_tls.rs"
MSG=PR+"message.rs"; EMB=PR+"discovery/embedded.rs"; RED=PR+"discovery/redis.rs"; DIS=PR+"discovery/mod.rs"
AM=PR+"connection/auth/marshal.rs"; AB=PR+"connection/auth/broker.rs"; AU=PR+"connection/auth/user.rs"
CON=BR+"connections/mod.rs"; VM=BR+"connections/versioned_map.rs"; RM=BR+"connections/broadcast/relational_map.rs"
UH=BR+"tasks/user/handler.rs"; US=BR+"tasks/user/sender.rs"; BH=BR+"tasks/broker/handler.rs"; BS=BR+"tasks/broker/sender.rs"; SY=BR+"tasks/broker/sync.rs"; HB=BR+"tasks/broker/heartbeat.rs"; WL=BR+"tasks/broker/whitelist.rs"

# ---------------------------------------------------------------- wire
p("W01","Every message survives encoding and decoding unchanged",
  "Any message of any kind that is encoded for the wire decodes to a message of the same kind with identical contents, whatever the sizes and values of its fields, including empty and large ones. Encoding never fails for such a message.",
  ["inputs"],"every message kind with every combination of field values and field sizes from a boundary alphabet (empty, around word and segment boundaries, extreme integers, topic bytes 0..255, non-ASCII text)",
  "The existing test round-trips one tiny sample per kind and skips one kind; it never varies sizes, values or emptiness.",
  [MSG,"cdn-proto/schema/messages_capnp.rs"],[("field-by-field encode/decode",MSG+": Message::serialize / Message::deserialize")],
  observe=["encode then decode result"])
p("W02","Bytes from a peer never crash a node or reach anybody but that peer",
  "Decoding any byte string ends with a message or an error, without panicking, hanging or consuming memory out of proportion to its length. A node that receives undecodable or out-of-protocol bytes from one peer disconnects or ignores that peer at most; every other connection and the node itself carry on unaffected.",
  ["inputs","fault_sequences"],"every truncation, byte substitution and pair of header-byte substitutions of valid encodings, all short byte strings over a hostile alphabet, and every hostile frame sent to a live node by a user, a broker or an unauthenticated peer",
  "No test feeds a single malformed byte to the decoder or to a running node.",
  [MSG,MOD,UH,BH,AB,AM],[("decode errors are returned, not unwrapped",MSG+": Message::deserialize"),("per-connection receive loop turns errors into a disconnect",UH+": user_receive_loop; "+BH+": broker_receive_loop")],
  observe=["decode result","state of the hostile peer's connection and of the other connections"])

# ---------------------------------------------------------------- transport
p("T01","A connection delivers an intact, in-order, duplicate-free prefix",
  "On any established connection the receiver obtains exactly the messages the sender submitted, byte for byte and in order, no matter how the transport splits, merges, delays or stalls the bytes. If the transport fails or either side goes away, what was received is a prefix of what was submitted: no message is truncated, altered, repeated, reordered or skipped.",
  ["schedules","inputs","fault_sequences"],"every short sequence of message sizes (including empty), every segmentation of the byte stream at frame boundaries, every failure point in the stream, every schedule of the connection's tasks up to the deviation bound, on each stream transport",
  "Tests exchange a single small message per direction in one fixed segmentation and never break the stream.",
  [MOD,MEM,TCP,TLS],[("length-delimited framing",MOD+": read_length_delimited / write_length_delimited"),("one sender and one receiver task per connection over FIFO queues",MOD+": Connection::from_streams")],
  observe=["send and receive calls of a connection","bytes on the transport"])
p("T02","Oversized or stalled frames end the connection without costing memory",
  "A peer that announces a message longer than the protocol maximum is cut off before any memory is set aside for it, and a peer that stops sending in the middle of a message whose length it has announced, or stops reading while one is being written, is cut off within five seconds; so is one that takes longer than that over a message by sending or reading it bit by bit. A peer that is merely idle between messages is never cut off.",
  ["inputs","fault_sequences"],"every announced length around the limit and the extremes, every stall position inside and between frames on the reading and the writing side, with stall durations around the deadline",
  "No test sends an oversized length or stalls a peer.",
  [MOD],[("maximum message size check before allocation",MOD+": read_length_delimited"),("five second deadlines on body reads and on writes",MOD+": read_length_delimited, write_length_delimited")],
  observe=["connection errors and their (virtual) time","memory pool reservation"])
p("T03","A soft close is acknowledged only after earlier messages are delivered",
  "When a soft close returns success, every message submitted on that connection before it has been handed to the transport and reaches a peer that keeps reading, even if the connection is dropped right afterwards. A soft close on a connection that can no longer send returns an error rather than success or never returning.",
  ["schedules","fault_sequences"],"every number and size of preceding messages, transport back-pressure, failure point and task schedule up to the bound",
  "The only use in tests is one close after one small message with no back-pressure and no failure.",
  [MOD,TCP,TLS,MA+"handlers.rs"],[("close request travels in the same queue as messages and is acknowledged by the writing task",MOD+": Connection::soft_close, from_streams")],
  observe=["soft close result","messages received by the peer"])
p("T04","The message memory pool is never exceeded and never leaks",
  "When a memory pool size is configured, the total size of messages received but not yet released never exceeds it, across all connections sharing the pool; a reader that does not fit waits. Every reservation is returned once its message is released or its connection ends, so a waiting reader always proceeds once enough has been released.",
  ["schedules","histories","fault_sequences"],"every short history of message arrivals, releases, clones and connection failures over two connections sharing a pool, under every task schedule up to the bound",
  "No test configures a memory pool.",
  [PR+"connection/limiter/mod.rs",PR+"connection/limiter/pool.rs",MOD],[("reservation attached to the message buffer and released on drop",PR+"connection/limiter/pool.rs: Allocation, AllocationPermit"),("reservation before reading the body",MOD+": read_length_delimited")],
  observe=["which messages are received while others are held","whether blocked readers resume"])
p("T05","Dropping or losing a connection ends both sides promptly and completely",
  "When the last handle of a connection is dropped, its background work stops and the peer observes the end of the connection. When the peer disappears, pending and later receives fail after everything already sent has been received, and sends fail eventually; no operation hangs for ever.",
  ["schedules","fault_sequences"],"every point at which a handle is dropped or the peer vanishes relative to pending sends and receives, under every task schedule up to the bound, on each stream transport",
  "No test drops a connection with operations pending or checks that the other side notices.",
  [MOD,MEM,TCP,TLS],[("drop closes both queues and aborts the tasks",MOD+": impl Drop for ConnectionRef"),("tasks close their queue on failure",MOD+": from_streams")],
  observe=["results of pending operations on both ends","live background tasks"])
p("T06","Concurrent connects and accepts are paired one to one",
  "Each successful connect is matched with exactly one accepted connection and the two talk only to each other, however many connects and accepts are in flight on the same endpoint. Connecting to an endpoint nobody listens on fails, including after its listener has gone; once somebody listens there again, connecting works.",
  ["schedules","histories"],"every interleaving up to the bound of two or three concurrent connectors with a listener accepting and possibly being dropped and re-bound, on each stream transport",
  "Tests connect one peer at a time.",
  [MEM,TCP,TLS],[("in-memory endpoint registry and stream exchange",MEM+": connect, bind, accept, Drop"),("socket listeners",TCP+": accept; "+TLS+": accept, finalize")],
  observe=["which peer receives which message","connect results"])
p("T07","Encrypted connections only form with a server trusted by the chosen authority",
  "A client connecting over the encrypted transport succeeds only if the server proves possession of the expected name under the certificate authority the client selected; with any other authority, name, or a plaintext or stalling peer the attempt fails within a bounded time. Payload bytes never travel in the clear.",
  ["configurations","fault_sequences"],"every combination of client authority, server certificate authority and server name, and peers that speak plaintext, stall or close at each handshake step, on either side",
  "The single transport test uses the matching local authority and a cooperative peer.",
  [TLS,PR+"crypto/tls.rs"],[("root store built from the selected authority",PR+"crypto/tls.rs: generate_root_certificate_store"),("server name verification and handshake deadlines",TLS+": connect, finalize")],
  observe=["connect/finalize results and their time","bytes on the transport"])

# ---------------------------------------------------------------- authentication
p("A01","A marshal issues permits only for fresh, whitelisted, proven keys",
  "A marshal hands out a connection permit, always for exactly the proven key, only to a peer that proves possession of the user key with a signature made for user authentication over a timestamp at most five seconds away from now, and only if that key is whitelisted (or no whitelist is set). In every other case the peer gets an explicit refusal, no permit comes into existence, and the marshal keeps serving others.",
  ["inputs","histories","fault_sequences"],"every combination of first message kind, key, signature origin (own, other key, other purpose, other message, malformed), timestamp offset around the boundaries in both directions, whitelist state, and discovery failure at each step",
  "Tests only authenticate honest clients with the current timestamp, plus one whitelist case.",
  [AM,MA+"lib.rs",MA+"handlers.rs",PR+"crypto/signature.rs"],[("signature, timestamp and whitelist checks before issuing",AM+": MarshalAuth::verify_user"),("purpose-separated signatures",PR+"crypto/signature.rs: Namespace, sign, verify")],
  observe=["reply received by the peer","permits recorded in discovery"])
p("A02","A permit admits exactly one session, at its broker, as its owner, in time",
  "A broker admits a user only on presentation of a permit that was issued for that broker, has not expired and was never presented before, and the admitted session always acts as the key the permit was issued to. Any other opening gets an explicit refusal and leaves no trace at the broker.",
  ["histories","schedules","inputs"],"every short history of permits issued for two users and two brokers and presented (also twice, concurrently, late, at the wrong broker, wrong value, wrong message kind), under schedules up to the bound",
  "Tests present each permit once, at once, at the right broker.",
  [AB,EMB,RED,UH],[("redeem-and-delete of the permit",AB+": BrokerAuth::verify_user; "+EMB+": validate_permit; "+RED+": validate_permit"),("identity comes from the permit record",UH+": handle_user_connection")],
  observe=["reply received","messages delivered to or attributed to a session","reported number of users"])
p("A03","Brokers peer only with holders of the cluster key, mutually and freshly",
  "A broker admits another node as a broker only if that node proves possession of the cluster's own key with a signature made for broker authentication over a timestamp at most five seconds away, and only after it has itself been accepted by that node. A node that fails any step is not treated as a broker: it receives no synchronisation or routed messages and nothing it sends is routed.",
  ["inputs","histories"],"every step of both handshake directions answered with every kind of message: honest, wrong key, signature made for another purpose, replayed after various delays, future timestamps, malformed endpoint, silence",
  "Tests never run the broker handshake with anything but an honest peer.",
  [AB,BH,PR+"connection/auth/mod.rs",PR+"crypto/signature.rs"],[("ordered mutual authentication",BH+": handle_broker_connection"),("signature, freshness and same-key check",AB+": verify_broker, authenticate_with_broker")],
  observe=["messages received by the unauthenticated peer","deliveries caused by it"])
p("A04","Unfinished handshakes are cut off in five seconds and harm nobody",
  "Whatever step of a user, broker or marshal handshake a peer stalls at, the node gives up on it within five seconds, closes the connection and keeps no state for it. Meanwhile any number of stalled or failing peers never delays or prevents the admission and service of other peers.",
  ["fault_sequences","schedules"],"a peer stalling, closing or sending garbage at every handshake step against user, broker and marshal ports, alone and combined with honest peers, on plain and encrypted transports",
  "No test stalls a handshake.",
  [UH,BH,MA+"handlers.rs",MA+"lib.rs",BR+"tasks/user/listener.rs",BR+"tasks/broker/listener.rs",TLS],[("per-connection task with a deadline",UH+": handle_user_connection; "+BH+": handle_broker_connection; "+MA+"handlers.rs: handle_connection"),("accepting and finalising are separate",BR+"tasks/user/listener.rs; "+BR+"tasks/broker/listener.rs")],
  observe=["time of disconnection seen by the stalling peer","admission of honest peers"])

# ---------------------------------------------------------------- discovery
p("D01","Permits are redeemable once, by the right broker, until they expire",
  "For every discovery backend, redeeming a permit returns the key it was issued for exactly once, only for the broker it was issued to and only before its expiry; every other redemption yields no key and consumes nothing. This holds for any interleaving of issuing and redeeming from several processes, and an issued permit is never confusable with a status code.",
  ["histories","schedules","fault_sequences"],"every operation sequence up to a depth over two brokers, two users and clock steps, every interleaving of two concurrent operations at storage-command granularity, and a storage failure at each command, for both backends",
  "Tests redeem a handful of permits sequentially through one backend; the other backend has no test at all.",
  [EMB,RED,DIS],[("atomic delete-returning / get-and-delete",EMB+": validate_permit; "+RED+": validate_permit"),("expiry pruning / key expiry",EMB+": prune, issue_permit; "+RED+": issue_permit")],
  observe=["operation results"])
p("D02","Discovery lists exactly the brokers with a live heartbeat",
  "For every discovery backend, the brokers reported to a broker are exactly the other brokers whose latest heartbeat has not expired, with precisely the endpoints they advertised. A broker never sees itself, and a broker that stops sending heartbeats disappears after the heartbeat expiry.",
  ["histories","schedules"],"every operation sequence up to a depth over three brokers (with endpoints sharing prefixes), heartbeat expiries and clock steps, plus interleavings of concurrent heartbeats and queries, for both backends",
  "Tests register brokers once and never let one expire.",
  [EMB,RED,DIS],[("heartbeat upsert with expiry",EMB+": perform_heartbeat, prune; "+RED+": perform_heartbeat"),("textual identifier",DIS+": BrokerIdentifier")],
  observe=["operation results"])
p("D03","Users are sent to a live broker with the least load",
  "For every discovery backend, the broker chosen for a new user is one of the live brokers with the smallest load, where load is the connection count of its latest heartbeat plus its outstanding (issued, unredeemed, unexpired) permits. With no live broker the choice fails.",
  ["histories"],"every operation sequence up to a depth of heartbeats with small counts, issued and redeemed permits and clock steps over two or three brokers, for both backends",
  "Tests use one or two brokers with equal load; permits are never part of the balance.",
  [EMB,RED],[("connections plus permits minimum",EMB+": get_with_least_connections; "+RED+": get_with_least_connections")],
  observe=["operation result"])
p("D04","Whitelist replacement is atomic and membership is exact",
  "For every discovery backend, once a whitelist has been set a key passes the check exactly if it is in the most recently set list, and before any list is set everybody passes. Replacing the list is atomic: no concurrent check, storage failure or crash at any point during a replacement ever lets through a key that is in neither the old nor the new list, or refuses a key that is in both.",
  ["histories","schedules","crash_points","fault_sequences"],"every sequence of list replacements and checks up to a depth, every interleaving of a check with a replacement at storage-command granularity, and a crash or failure at every storage command, for both backends",
  "One test sets a list once, with no concurrency, failure or replacement.",
  [EMB,RED],[("replacement of the stored set",EMB+": set_whitelist; "+RED+": set_whitelist"),("membership check",EMB+": check_whitelist; "+RED+": check_whitelist")],
  observe=["check results"])

# ---------------------------------------------------------------- routing
p("R01","A direct message reaches its addressee exactly once and nobody else",
  "While the topology is settled, a direct message to a connected user is delivered to that user exactly once with identical bytes, whichever broker sender and addressee are on (also when they are the same user), and to nobody else. A direct message to a user that is not connected anywhere is dropped without any effect.",
  ["schedules","configurations","histories"],"every placement of sender and addressee over up to three brokers, every order of connection events before settling, and all schedules up to the bound while messages are in flight",
  "Tests inject fabricated state into a single broker and send three messages in one schedule.",
  [BH,UH,US,BS,CON],[("user location lookup and one-hop forwarding",BH+": handle_direct_message"),("messages from brokers go to local users only",BH+": broker_receive_loop")],
  observe=["messages received by every connected user"])
p("R02","A broadcast reaches every subscriber exactly once and no other user",
  "While subscriptions are settled, a broadcast is delivered exactly once, with identical bytes, to every connected user subscribed to at least one of its valid topics, on any broker, including the sender if subscribed, and to no other user. Overlapping or repeated topics, several brokers or mixed valid and unknown topics never cause a duplicate, a loss or a loop.",
  ["schedules","configurations","inputs"],"every placement of up to four users over up to three brokers, every subscription pattern over the topics, every short topic list including repeats and unknown topics, and schedules up to the bound",
  "Tests inject fabricated state into one broker and check three fixed topic lists.",
  [BH,UH,CON,RM],[("interest lookup deduplicated over topics",CON+": get_interested_by_topic"),("messages from brokers go to local users only",BH+": broker_receive_loop, handle_broadcast_message")],
  observe=["messages received by every connected user"])
p("R03","Messages from one sender to one recipient keep their order",
  "Messages that one user sends over one session are delivered to each recipient session in the order they were sent, for any mix of direct messages and broadcasts and wherever sender and recipient are connected.",
  ["schedules","histories"],"every short mix of direct and broadcast messages between users on the same or different brokers, under all schedules and transport delays up to the bound",
  "Ordering is a schedule property; tests never send two messages on the same path while anything else runs.",
  [BH,UH,MOD,US,BS],[("one receive loop per peer that awaits each forward",UH+": user_receive_loop; "+BH+": broker_receive_loop"),("FIFO queue per connection",MOD+": from_streams")],
  observe=["order of messages received"])
p("R04","A session's subscriptions follow its requests exactly",
  "After any history of subscribe and unsubscribe requests a session receives broadcasts for exactly the valid topics it has subscribed to (at opening or later) and not unsubscribed from since, irrespective of repeats, overlaps and other sessions. Unknown topics in the opening list are ignored, while a later request or broadcast naming no valid topic ends that session.",
  ["histories","inputs"],"every history up to a depth of subscribe/unsubscribe/disconnect/reconnect requests over two users and lists of valid, repeated and unknown topics",
  "Tests follow one fixed script of five requests.",
  [UH,CON,RM,PR+"def.rs"],[("topic pruning",PR+"def.rs: Topic::prune"),("bidirectional user/topic relation",RM+": associate_key_with_values, dissociate_keys_from_value, remove_key")],
  observe=["broadcasts received by each session","whether the session is still open"])
p("R05","Message hooks decide exactly what they say, per connection",
  "Every message from an authenticated peer is shown to the configured hook for that kind of peer exactly once and in order: a message the hook skips has no effect, one it accepts is processed, and an error ends that peer's connection and no other. Hooks of different connections do not share state, and each is told a stable identifier of its peer.",
  ["histories","inputs"],"every sequence up to a depth of messages of each kind and hook verdicts over two users and a peer broker",
  "No test installs a hook other than the one that does nothing.",
  [UH,BH,PR+"def.rs"],[("hook call between decoding and handling",UH+": user_receive_loop; "+BH+": broker_receive_loop"),("a clone per connection",UH+": user_receive_loop; "+BH+": broker_receive_loop")],
  observe=["hook calls","deliveries","open connections"])
p("R06","Users cannot speak the broker protocol",
  "Any message from a user other than direct, broadcast, subscribe and unsubscribe ends that user's session without having any other effect: in particular it changes no location or interest information anywhere and is not forwarded. Messages coming from a broker are only ever delivered to locally connected users, never passed on to another broker.",
  ["inputs","configurations"],"every message kind sent by a user at every broker of a mesh, and every message kind sent by a peer broker addressed to every placement of users",
  "No test sends a message of the wrong kind after authentication.",
  [UH,BH],[("exhaustive match on message kind",UH+": user_receive_loop"),("to-users-only forwarding for broker messages",BH+": broker_receive_loop")],
  observe=["open sessions","deliveries","messages on broker links"])

# ---------------------------------------------------------------- membership
p("M01","A user has at most one live session per broker, and the newest wins",
  "When a key that already has a session on a broker is admitted again there, the older session is closed and the new one keeps its subscriptions and receives all further messages. Nothing that happens to the older connection before, during or after the hand-over, such as a failure, a late message or a failed send, ever ends or alters the new session.",
  ["schedules","fault_sequences","histories"],"every interleaving up to the bound of a second admission with failure, closure, sends to and messages from the first connection, with preemption between and inside the broker's critical sections",
  "The one test connects twice in sequence and never lets the old connection fail while the new one is being admitted.",
  [CON,UH,US],[("add removes and aborts the previous session",CON+": add_user, remove_user"),("failure paths remove the session",UH+": handle_user_connection; "+US+": try_send_to_user")],
  observe=["which of the two connections is open and receives messages","reported number of users"])
p("M02","A user that moves to another broker is served only there",
  "When a user opens a session at another broker, the session at the old broker is closed once the brokers have exchanged their state, and from then on messages from anywhere reach the user exactly once, at the new place. Provided the older sessions had ended, or an exchange had made them known to the new broker, the new session is never closed by the hand-over, also if the user moves repeatedly.",
  ["histories","schedules"],"every sequence up to a depth of moves of one user between up to three brokers with complete propagation in between, and schedules up to the bound during one move",
  "One test moves one user once between two brokers in one schedule.",
  [CON,VM,SY,UH],[("versioned location map and merge result evicts local users",CON+": apply_user_sync; "+VM+": merge"),("location update pushed on connect",UH+": handle_user_connection; "+SY+": partial_user_sync")],
  observe=["open sessions","delivery of direct messages from every broker"])
p("M03","Brokers converge on where every user is",
  "Once connects and disconnects stop and the periodic exchange has run, all connected brokers agree for every user on whether and where it is connected, this agrees with the actual sessions, and each user has at most one session. This holds for every history of connects, disconnects, exchanges in any order and delay, including exchanges that cross each other.",
  ["histories","schedules"],"every history up to a depth of connects, disconnects and state exchanges for one user over two or three brokers, with every order of delivery of the exchanged state",
  "Convergence over all histories cannot be sampled: tests replay two hand-written histories on bare maps.",
  [VM,CON,SY,BH],[("versioned map with tombstones and identity tie-break",VM+": modify_local, diff, merge"),("partial sync every ten seconds and on connect, full sync on peering",SY+": run_sync_task, full_user_sync")],
  observe=["delivery of direct messages from every broker to every user","open sessions"])
p("M04","Brokers converge on which topics their peers want",
  "Once subscription changes stop and the periodic exchange has run, each broker forwards a broadcast to a peer exactly if that peer has a connected user subscribed to one of its topics. This holds for every history of subscribes, unsubscribes, disconnects, peer reconnections and exchanges in any order.",
  ["histories","schedules"],"every history up to a depth of subscribe, unsubscribe, user disconnect, peer link loss and exchange over two brokers and two topics, with every order of exchange",
  "Tests replay two hand-written histories.",
  [VM,CON,SY,BH,RM],[("versioned topic map with changes computed against the last exchange",CON+": get_partial_topic_sync, get_full_topic_sync, apply_topic_sync"),("full sync on peering",BH+": handle_broker_connection")],
  observe=["broadcasts seen on broker links and by users"])
p("M05","A departed user leaves nothing behind and is not counted",
  "However a session ends (closed by either side, failed, evicted, replaced, moved), its subscriptions and location disappear with it, no more messages are accepted for it, and the number of users the broker reports to discovery and in its metrics equals the number of live sessions. A user that reconnects has only the topics it asked for in the new session.",
  ["histories","fault_sequences","schedules"],"every history up to a depth of admissions and endings of each kind for two users, under schedules up to the bound",
  "Tests never look at the counts and end sessions in one way only.",
  [CON,UH,US,HB,BR+"metrics.rs",RM],[("removal from all maps in one step",CON+": remove_user"),("metric increments and decrements",CON+": add_user, remove_user"),("heartbeat count",HB+": run_heartbeat_task")],
  observe=["reported counts","broadcasts received after reconnecting","direct messages to the departed user"])
p("M06","One peer's failure or slowness affects no other peer",
  "When a peer disconnects, fails, floods, stops reading or misbehaves, only that peer's session is affected: every other session stays open and receives every message addressed to it promptly. A peer that has stopped reading is disconnected within bounded time.",
  ["fault_sequences","schedules"],"every placement of one faulty peer (user or broker) and every fault kind and position in a short message exchange between two healthy users, on the same and on different brokers, under schedules up to the bound",
  "No test contains a faulty peer.",
  [US,BS,UH,BH,MOD],[("unbounded per-connection queue decouples recipients",MOD+": from_streams; "+PR+"connection/limiter/mod.rs"),("failed send removes only that peer",US+": try_send_to_user; "+BS+": try_send_to_broker")],
  observe=["deliveries to healthy users and their (virtual) time","open sessions"])
p("M07","Live brokers form and restore a full mesh with one link per pair",
  "Brokers registered in discovery become connected to each other within a bounded number of heartbeats, with exactly one of each pair initiating, and end up with one usable link per pair whatever the start order. After a link or broker is lost and comes back, or discovery fails for a while, the mesh is restored and routing works again.",
  ["histories","fault_sequences","schedules"],"every start order of up to three brokers, link losses, broker restarts and discovery failures or delays at each call, under schedules up to the bound",
  "Tests start brokers in one order and never break a link or discovery.",
  [HB,BH,CON,BR+"tasks/broker/listener.rs"],[("periodic comparison of registered and connected brokers",HB+": run_heartbeat_task"),("ordered initiation",HB+": identity comparison"),("replacement of an existing link",CON+": add_broker")],
  observe=["delivery between users on different brokers","number of links initiated and open","discovery call times"])
p("M08","Users removed from the whitelist are disconnected within a minute",
  "A connected user that is no longer whitelisted is disconnected within about a minute of the change, and afterwards receives and sends nothing. Users that are whitelisted, or whose status cannot be determined because discovery fails, are never disconnected by this.",
  ["histories","fault_sequences"],"every history up to a depth of whitelist changes and check failures relative to the periodic check for two users",
  "One test covers refusal at connection time; eviction is not tested.",
  [WL,CON],[("periodic re-check of all users",WL+": run_whitelist_task")],
  observe=["open sessions and time of disconnection"])
p("M09","A broker that loses an essential part stops instead of limping on",
  "If one of a broker's essential activities ends (accepting users, accepting brokers, registering, synchronising, checking the whitelist), running the broker returns an error and its listeners stop; while they are all running it does not return. Failures of single connections or of discovery never end the broker.",
  ["fault_sequences","schedules"],"a failure of each listener at each point of a short run, discovery failures of every kind at every call, and single connection failures",
  "No test makes a listener or discovery fail.",
  [BR+"lib.rs",BR+"tasks/user/listener.rs",BR+"tasks/broker/listener.rs",HB,SY,WL],[("select over all tasks",BR+"lib.rs: Broker::start"),("abort on drop",PR+"util.rs: AbortOnDropHandle")],
  observe=["result of running the broker","whether its ports still accept"])

# ---------------------------------------------------------------- client
p("K01","A client reconnects by itself, one attempt at a time, and never hangs",
  "A client that is being used re-establishes a lost connection by itself: the first call that notices the loss, or is made after it, starts connecting, with at most one attempt in progress at a time, a pause of two seconds after each failed attempt and a limit of ten seconds per attempt, until an attempt succeeds; one loss leads to one new session. The failure of a call that was still using an earlier connection never ends a later one. Sending while disconnected fails at once instead of blocking, receiving either fails or waits for the reconnection, and no combination of concurrent calls deadlocks.",
  ["schedules","fault_sequences","histories"],"every fault at each step of the marshal and broker exchange (refusal, stall, close, bad reply), for short fault sequences, with concurrent send, receive and subscribe calls, under schedules up to the bound",
  "Tests connect clients once to a healthy system.",
  [CL,AU],[("single-permit guard and reconnection task",CL+": reconnect_if_needed"),("connection dropped on error",CL+": disconnect_on_error")],
  observe=["connection attempts and their times at the marshal","results of client calls"])
p("K02","A client's subscriptions survive reconnection",
  "Whenever a client is connected and idle, the topics it is subscribed to at its broker are exactly the initial topics plus those successfully subscribed minus those successfully unsubscribed through the client, across any number of reconnections and however calls overlap with them. A failed subscribe or unsubscribe call does not change what is restored later, and one that changes nothing does not end the session.",
  ["histories","schedules","fault_sequences"],"every short history of subscribe, unsubscribe and connection losses at every position, with calls overlapping the reconnection, under schedules up to the bound",
  "One test subscribes and unsubscribes over a single connection that never fails.",
  [CL,AU],[("topic set locked during the request and resent on connect",CL+": subscribe, unsubscribe, connect")],
  observe=["broadcasts received by the client","topics presented to the broker"])
p("K03","Closing a client is final",
  "From the moment closing a client completes, its connection is gone, no connection attempt is running or ever started again, and every call on any of its handles fails without blocking. This holds however closing interleaves with connecting, reconnecting, sending, receiving and other closes.",
  ["schedules","histories"],"closing at every point of the initial connection, an established session, a failed session and a reconnection, with concurrent calls on other handles, under schedules up to the bound",
  "No test closes a client while something else is in progress.",
  [CL],[("closed guard checked before connecting",CL+": close, connect, reconnect_if_needed"),("reconnection task aborted",CL+": close")],
  observe=["connection attempts after close","open connections after close","results of later calls"])
p("K04","Waiting for initialisation returns only when the client is usable",
  "Waiting for a client to be initialised returns success only once it has an authenticated broker session that has not been closed by the caller, keeps waiting through failed attempts, and returns an error if the client is closed before or while waiting.",
  ["schedules","fault_sequences"],"every fault and delay of the connection steps and every position of a close relative to one or two waiters, under schedules up to the bound",
  "Tests only wait for a healthy system.",
  [CL],[("connecting guard held during reconnection",CL+": ensure_initialized, reconnect_if_needed")],
  observe=["result of the wait and whether a send right after it succeeds"])
p("K05","Clients exchange messages intact end to end through the whole system",
  "Messages sent through a client's calls are received by the addressed or subscribed clients as exactly those messages, in order per sender, at most once even across reconnections, and exactly once while nobody loses a connection. A client that talks to a dishonest or failing marshal or broker reports errors and retries but never accepts a session that was refused.",
  ["schedules","fault_sequences","configurations"],"two or three clients, one marshal and one or two brokers with real admission, message exchanges of each kind, connection losses at each position and every kind of refusal, under schedules up to the bound",
  "Tests exchange one message per scenario over healthy connections.",
  [CL,AU,AB,AM,BH,UH],[("client send/receive path",CL+": send_message, receive_message"),("permit exchange",AU+": authenticate_with_marshal, authenticate_with_broker")],
  observe=["messages received by clients"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
