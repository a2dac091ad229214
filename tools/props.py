#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SEQ = "The store tests are sequential: one goroutine, a handful of fixed entries, no interleaving of two operations is ever executed."
STORE = ["store/cache.go", "store/internal/cache.go", "store/internal/conditional.go", "store/internal/index.go"]

prop("S01", "Store operations are linearizable",
 "Add, Update, Delete, Get, List, Index, Replace and Accumulate called concurrently from any number of goroutines behave as if they ran one at a time, in an order consistent with real time. Add fails exactly when the key is present, Get and List return the values left by the latest preceding writes, Replace installs its whole set at once, and a read never sees part of an operation.",
 ["schedules", "histories"], "Every interleaving of every set of concurrent store operations, including operations suspended for arbitrary time at any statement.",
 SEQ, STORE, [("one RWMutex around every operation", "store/internal/cache.go SyncIndexedMap"), ("existence condition evaluated under the lock", "store/internal/conditional.go WhenNotExists")],
 [("items", "current entries with version", "store/internal/cache.go SyncIndexedMap.items")], ["store.Interface return values"])

prop("S02", "A conditional update never overwrites a change it has not seen",
 "An Update made under an ETag succeeds if and only if the entry is still the very one whose Get returned that ETag, with no write of any kind in between - neither updates, accumulations and replacements nor a deletion followed by a re-creation under the same key. Of concurrent updates conditioned on the same ETag at most one succeeds, and a refused update leaves the entry and everything derived from it unchanged.",
 ["schedules", "histories"], "Every history of reads, conditional updates and other writes, concurrent or sequential, on the same key.",
 "One sequential test updates twice under one ETag; nothing tests concurrent holders of an ETag, or an entry that was deleted and re-created.",
 ["store/etag.go", "store/internal/cache.go", "store/internal/conditional.go", "store/cache.go"],
 [("version compared under the write lock", "store/internal/conditional.go WhenVersionMatches"), ("version bump on every write", "store/internal/cache.go Update/Patch/Replace"), ("ETag token", "store/etag.go getETag/decodeETag")],
 [("Version", "per-key version", "store/internal/cache.go VersionContainer")], ["store.Interface.Update error", "store.Interface.Get"])

prop("S03", "Indexes always agree with the stored entries",
 "At every moment an index query returns exactly the entries whose current contents fall into a bucket of the queried exemplar, each once, and the list of index values is exactly the set of buckets of the entries present. This holds after and during any sequence of concurrent adds, updates, accumulations, deletions and replacements that move entries between buckets, put them into several buckets, or into none.",
 ["schedules", "histories", "inputs"], "Every history of concurrent writes, for every indexer (any number of buckets per entry, entries moving between buckets).",
 "Two fixed sequential index tests; no test moves an entry between buckets under concurrency or reads an index while it changes.",
 STORE, [("unindex(prev) + reindex(curr) under the write lock", "store/internal/cache.go reindex/unindex"), ("rebuild on Replace", "store/internal/cache.go Replace")],
 [("indicies", "bucket -> key set per index", "store/internal/cache.go SyncIndexedMap.indicies")], ["store.Interface.Index", "store.Interface.IndexValues"])

prop("S04", "Every effective change is notified exactly once with its true before/after",
 "Each Add, Update, Delete or Accumulate that takes effect calls exactly one handler - OnAdd when the key was absent, OnChange with the actual previous and new entry when it was present, OnDelete with the entry removed - and operations that fail, match nothing or change nothing call none. Under concurrency the notifications of one key still link up, previous to new, into one gap-free history that ends in the stored state.",
 ["schedules", "histories"], "Every interleaving of concurrent writes to the same and to different keys.",
 "The handler test is one sequential script; no test has two writers, so a notification with a stale previous value or a duplicated one cannot show.",
 ["store/cache.go", "store/internal/cache.go", "store/patcher.go"], [("delta computed under the lock, handler called with it", "store/cache.go Accumulate/Add/Update/Delete"), ("errNoChange suppresses", "store/patcher.go Patch")],
 None, ["CacheConfig.EventHandlers"])

prop("S05", "Paging through a changing store misses and repeats nothing",
 "A client that lists the store or an index page by page with the continue token, in either order, gets every matching entry that is present during the whole walk exactly once and no entry twice, in key order, whatever is added, changed or deleted between or during the pages. No page exceeds the limit, a token is returned exactly as long as entries remain, and the walk ends once no more entries are being added ahead of it.",
 ["schedules", "histories", "inputs"], "Every interleaving of a paged walk with concurrent writes, every limit, both orderings, list and index queries.",
 "The paging test walks a store that does not change.",
 ["store/cache.go", "store/continue.go"], [("ordered snapshot + position in the token", "store/cache.go applySelector"), ("token encoding", "store/continue.go")],
 None, ["store.Interface.List", "store.Interface.Index", "Set.Continue"])

prop("S06", "Concurrent partial records merge without loss and reach the right store",
 "The stored record of an identity holds, for every attribute ever accumulated, the value accumulated last: concurrent partial records never lose, mix or resurrect each other's attributes, and a partial that brings nothing new leaves the entry and its update time untouched, while one that changes it stamps it with the time of the change. A dispatcher hands every record of a message exactly once to the store registered for its type, attributed to the dispatcher's source, and a record that cannot be stored does not keep the others of the message from being stored.",
 ["schedules", "histories", "inputs"], "Every interleaving of accumulations of arbitrary partial records of all types from several sources, directly and through dispatchers sharing stores.",
 "Accumulate is tested with two sequential partials of one type; the dispatcher has no test.",
 ["store/patcher.go", "store/dispatch.go", "store/cache.go"], [("patch computed and applied under the write lock", "store/internal/cache.go Patch"), ("attribute-wise merge", "store/patcher.go recordPatcher.Patch"), ("routing by type", "store/dispatch.go Dispatch")],
 None, ["store.Interface.Get/List after accumulation"])

SESS = "The session tests that use a real connection need an external router (QDR_ENDPOINT) and are skipped; what remains runs over the in-memory mock with no connection to lose."
prop("C01", "Every link works again within a bounded time after faults stop",
 "Whatever sequence of refused dials, dropped, stalled or reset connections, failed handshakes, closed sessions and detached links a container meets, once the faults stop and the router is reachable every open sender can send and every open receiver receives again within a bounded time, without being recreated by the caller. This holds for any number of links sharing the container, used concurrently, and for operations started before the first connection exists.",
 ["fault_sequences", "schedules", "configurations"], "Every finite sequence of connection, session and link faults at any protocol step, any number of links, any interleaving of their operations.",
 SESS, ["session/container.go"], [("generation counter and hasNext channel", "session/container.go container.Start/setSession/awaitSession"), ("links report errors with their generation and attach anew to the next", "session/container.go link.attach/reportError")],
 [("gen", "session generation known to container and attachment", "session/container.go container.gen, attachment.gen")], ["Sender.Send", "Receiver.Next"])

prop("C02", "Messages are never fabricated, altered, duplicated or reordered",
 "A message returned by Next is exactly one the router delivered on that link, with the same content, and it is returned at most once per delivery, in the order the router sent it; without faults every message sent is received exactly once per subscribed receiver, in each sender's order. When Send returns nil the router has accepted that very message, and a Send that fails before transmission transmits nothing.",
 ["fault_sequences", "schedules", "histories"], "Every interleaving of concurrent senders and receivers sharing a container, with connection faults at any byte of any frame.",
 SESS, ["session/container.go"], [("Send waits for the settled disposition", "session/container.go link.Send"), ("attachment bound to its session generation", "session/container.go link.attach")],
 None, ["Sender.Send result versus router log", "Receiver.Next results versus router log"])

prop("C03", "Every blocking operation ends promptly when its context ends",
 "A Send, Next or Accept whose context is cancelled or times out returns within a short bounded time with an error that identifies the context's error, whatever the container is doing: never started, disconnected, dialling, backing off, stalled, without credit, stopped, or in the middle of other links' operations. Cancelling one operation does not by itself disturb other links or lose a message that another caller then receives.",
 ["schedules", "fault_sequences", "crash_points"], "A cancellation at every point of every operation, in every connection state.",
 "Only two timeouts against an idle mock are tested.", ["session/container.go", "session/mock.go"],
 [("ctx selected in every wait", "session/container.go awaitSession, link.attach"), ("operations run apart from their caller", "session/container.go link.Next/Send/Accept")],
 None, ["return time and error of Sender/Receiver operations"])

prop("C04", "A closed link stays closed and releases its resources",
 "After Close of a sender or receiver returns, every pending and later operation on it fails promptly instead of hanging, retrying or crashing, the router's link is detached even while others continue on the same connection, and it is never attached again after a reconnect. Closing is idempotent, concurrent with any other operation, and does not disturb the other links or the connection.",
 ["schedules", "fault_sequences"], "Close at any point of any operation or reconnect, concurrently from several goroutines.",
 "No test uses a link after closing it, or closes it while it is in use.", ["session/container.go", "session/mock.go"],
 [("link context cancelled by Close, checked before attaching", "session/container.go link.ctx, attach, Close, attachment.detach")],
 None, ["router link table", "operation results after Close"])

prop("C05", "A container holds at most one connection and leaks none",
 "A started container keeps at most one established connection with one session in use: the previous one is closed when its replacement takes over, and connections of attempts that failed at any later step are closed rather than left open. When the container's context ends, all its connections are closed and its goroutines end within a bounded time.",
 ["fault_sequences", "crash_points", "schedules"], "Faults and cancellation at every step of dial, handshake, session setup and reconnect.",
 SESS, ["session/container.go"], [("connections closed when replaced, failed or ended", "session/container.go container.Start closeCurrent")], None, ["open connections at the router", "goroutines after shutdown"])

prop("C06", "Session losses are reported truthfully and retried with backoff",
 "Each lost or failed session is reported to every registered handler exactly once as a retryable error carrying the delay, the next attempt is made after that delay and not earlier, and after successful use the backoff starts over. A healthy session is never torn down because of an error that belongs to an earlier session, and if the backoff strategy gives up, handlers get one final non-retryable error; cancelling the container reports none.",
 ["fault_sequences", "schedules", "configurations"], "Every fault sequence and interleaving of late errors from many links with the reconnect, for finite and infinite backoff strategies.",
 SESS, ["session/container.go"], [("RetryNotify + generation filter", "session/container.go container.Start"), ("reportOK/endSession reset the backoff", "session/container.go container.Start")],
 None, ["OnSessionError callbacks versus dials seen by the router"])

prop("C07", "The in-memory router multicasts exactly once, in order, and never wedges",
 "A message sent through the in-memory router reaches every receiver subscribed to the address at that time exactly once, in the order each sender sent, and no other; a send to an address nobody has subscribed to yet waits until somebody does or its context ends. A receiver that is slow, full or closed, and any sender's cancelled context, never blocks senders or receivers of the address beyond their own contexts.",
 ["schedules", "histories"], "Every interleaving of senders, subscriptions, closes, cancellations and slow receivers over any number of addresses.",
 "The mock is used by other tests with one sender, prompt receivers and far fewer messages than its buffers hold.", ["session/mock.go"],
 [("per-address lock and update channel", "session/mock.go multicast.send/subscribe"), ("receiver buffer", "session/mock.go mockReceiver.send")], None, ["mock Sender/Receiver results"])

prop("C08", "A receiver prefetches what was asked for and never more",
 "A receiver created with a positive credit has at most that many deliveries outstanding that the application has not taken and accepted, and while the application keeps up the router may send up to that many ahead. Credit is replenished as messages are accepted, so a receiver never stalls for lack of credit while messages are waiting for it.",
 ["configurations", "schedules", "fault_sequences"], "Every requested credit, message rate, consumer speed and reconnect history.",
 SESS, ["session/container.go", "eventsource/client.go"], [("ReceiverOptions translated to AMQP options", "session/container.go ReceiverOptions.get")], None, ["flow frames and unsettled deliveries at the router"])

prop("C09", "Every connection is made the way the container was configured",
 "Every connection of a container, the first as well as those made after any failure, announces the configured container ID and maximal frame size, sends no frame larger than the router accepts, and authenticates with SASL EXTERNAL if and only if configured to. With a TLS configuration nothing is sent before the connection is encrypted and the router has proved the identity that configuration asks for, and the configured client certificate is presented. A router that cannot prove its identity, does not offer the mechanism, refuses the authentication or breaks off at any step gets no messages and counts as a failed attempt; once a proper router is reachable again all links work.",
 ["fault_sequences", "configurations"], "Every history of failed handshakes at every step, lost connections and impostors, for every configuration of identity, frame size, SASL and TLS.",
 SESS, ["session/container.go"], [("ContainerConfig.toAmqp for each dial", "session/container.go container.Start")],
 None, ["bytes, frames and certificates seen by the router on each connection"])

prop("E01", "A client hands every decodable message to every handler, once and in order",
 "While a client listens, every record and heartbeat message its receiver yields is passed to every handler registered for that kind before it arrived, exactly once and in arrival order per listener. Receive errors, accept errors and messages that cannot be decoded are skipped and never stop the listener, and messages of another kind reach no handler.",
 ["fault_sequences", "schedules", "inputs"], "Every sequence of valid, malformed and failing deliveries, concurrent handler registration, several listeners.",
 "One listener, two handlers and a few well-formed messages over the mock, no receive error is ever returned.", ["eventsource/client.go"],
 [("listener loop", "eventsource/client.go Client.Listen"), ("handler snapshot per message", "eventsource/client.go getHandlers")], None, ["handler calls versus deliveries"])

prop("E02", "Closing a client always terminates and stops everything it started",
 "Close returns within a bounded time whatever the listeners are doing - receiving, retrying, decoding, or about to call handlers - and may be called repeatedly, concurrently and around new Listen calls. When it has returned no handler call is in progress or follows, and every receiver the client opened is closed.",
 ["schedules", "crash_points"], "Close at every point of the listener loop, concurrently with Listen, other Close calls and incoming messages.",
 "Close is called once, after the traffic has stopped.", ["eventsource/client.go"],
 [("cleanup functions and wait group", "eventsource/client.go Close/Listen")], None, ["Close return, handler calls, Receiver.Close"])

prop("E03", "Waiting for the first message sends exactly one flush, then no more",
 "FlushOnFirstMessage sends exactly one flush, addressed to the source's direct address, and only after a record or heartbeat of that source has been received; however many messages arrive at once it sends no second one. If its context ends first, it returns that context's error and sends nothing. The link it flushes over is closed when it has returned.",
 ["schedules", "histories"], "Every interleaving of first messages on several listeners, cancellation and the send.",
 "A fixed sequence of one message at a time.", ["eventsource/flush.go", "eventsource/client.go"],
 [("once-guarded channel", "eventsource/flush.go messageAwaiter")], None, ["flush messages sent", "return value"])

prop("E04", "Discovery callbacks mirror the set of known sources, in order",
 "For each event source the Discovered and Forgotten callbacks strictly alternate, starting with Discovered, carry that source's data as announced, and follow the order in which the source was added and forgotten; once activity stops the sources last reported discovered are exactly those listed. A source is discovered exactly once however many beacons, adds and forgets race for it, and no change is lost however many happen while a callback runs.",
 ["schedules", "histories"], "Every interleaving of beacons, Add, Forget, watch timeouts and slow callbacks, in bursts of any size.",
 "Sequential adds of a few sources with immediate callbacks; no burst exceeds the internal queue and no forget races a beacon.", ["eventsource/discovery.go"],
 [("state map under the lock, events queued with it", "eventsource/discovery.go observe/Add/Forget"), ("handleDiscovery", "eventsource/discovery.go")],
 [("state", "known sources", "eventsource/discovery.go Discovery.state")], ["DiscoveryHandlers calls", "Discovery.List/Get"])

prop("E05", "Discovery never wedges and stops promptly",
 "No sequence of beacons, Add, Forget, Get, List and NewWatchClient calls - from callbacks or any goroutine, in bursts of any size, before, during or after Run - ever blocks indefinitely. Run goes on while its receiver works and returns promptly when its context is cancelled, and then calls no more callbacks for later events and leaves no goroutine behind.",
 ["schedules", "crash_points", "inputs"], "Every interleaving, callbacks that call back into discovery, cancellation at any point, bursts larger than any internal buffer.",
 "Callbacks in tests only record; at most a few sources exist.", ["eventsource/discovery.go"],
 [("bounded event queues filled under the lock", "eventsource/discovery.go observe/Add/Forget")], None, ["return of every call", "Run return"])

prop("E06", "A watched source is kept while active and forgotten soon after it falls silent",
 "A watched source that keeps sending heartbeats or records at intervals shorter than its timeout is not forgotten, and one that falls silent is forgotten no earlier than the timeout after its last activity and within a bounded time beyond it (grace period included), exactly once, with its client closed. Activity of a source forgotten by other means never makes it known again. Its LastSeen never goes backwards, never exceeds the time of actual activity, and trails that activity by at most the update interval.",
 ["schedules", "histories", "configurations"], "Every pattern of activity and silence, every timeout, grace and update interval, activity racing the timeout.",
 "Two real-time tests with one fixed pattern each.", ["eventsource/discovery.go"],
 [("timeout timer and advance ticker", "eventsource/discovery.go watch.run"), ("lastSeen monotonic", "eventsource/discovery.go lastSeen")], None, ["Forgotten callbacks, Discovery.Get LastSeen, client receivers"])

prop("E07", "No incoming message can crash or stall a component",
 "Whatever message arrives on a beacon, source, log, flow, heartbeat or flush address - missing or odd properties, unknown subjects, wrong types, unknown or null attributes, truncated or oversized records - discovery, clients, managers and stores neither crash nor stop: the message is skipped as a whole and the next valid message is processed normally, while odd messages that can be decoded are handled as what they say.",
 ["inputs", "histories"], "Every message content expressible in AMQP, mixed at any point with valid traffic.",
 "Decoding tests list about thirty fixed messages, none of which is sent through a running component.", ["eventsource/discovery.go", "eventsource/client.go", "eventsource/manager.go", "messages.go", "encoding/decoder.go", "store/patcher.go"],
 [("error returns of Decode", "messages.go Decode/decodeRecords, encoding/decoder.go")], None, ["continued processing of valid messages"])

prop("M01", "Published record updates are sent once, in order, and add up to the record",
 "Every update published to a running manager is sent to the source address exactly once, in publication order, in messages of at most the configured batch size, each after at most the buffering delay. For every record the deltas sent so far, merged in order, equal the record last published and sent, each delta identifies its record, and an update without change sends nothing.",
 ["schedules", "histories", "configurations"], "Every sequence and rate of updates from concurrent publishers, every batch size and buffer time, flushes interleaved, slow and failing sends.",
 "One test publishes a few updates and checks the first messages.", ["eventsource/manager.go"],
 [("changeQueue -> diff -> sendQueue", "eventsource/manager.go serve/diffRecord/sendRecords")], None, ["record messages on the source address"])

prop("M02", "Every flush is answered by a complete dump of the stores",
 "After a flush request is received by a running manager, within a bounded time it sends, in messages of at most the flush batch size, every record that is in its stores from then until the dump completes; records being added, changed or removed meanwhile never make it skip others. Requests arriving within the flush delay share one dump but none is left without a dump that starts after it, and no dump is sent unless one was requested.",
 ["schedules", "histories", "configurations"], "Every timing of flush requests relative to dumps and store changes, several stores, every batch size and delay, receive errors.",
 "One flush of a static store.", ["eventsource/manager.go", "store/cache.go"],
 [("flushQueue coalescing and paged List", "eventsource/manager.go listenFlushes/serve")], None, ["record messages after flush messages"])

prop("M03", "A running manager announces itself and keeps beating",
 "A running manager sends its beacon before any heartbeat and then beacons and heartbeats at their configured intervals, each carrying the source's identity, version and addresses and, for heartbeats, the current time, on the configured address. A destination that refuses or never takes a message delays the others by at most a bounded number of delivery timeouts and never stops them for good.",
 ["fault_sequences", "schedules", "configurations"], "Every pattern of failing and blocking sends per address, every pair of intervals.",
 "Keepalives are not tested.", ["eventsource/manager.go"],
 [("sendWithTimeout and tickers", "eventsource/manager.go sendKeepalives")], None, ["beacon and heartbeat messages and their times"])

prop("M04", "Cancelling a manager stops all of its activity",
 "When its context is cancelled at any time - before the first beacon is delivered, during a buffer or flush delay, with queues full, or with every send blocked or failing - the manager returns and all its goroutines end within a bounded time, without spinning. It sends nothing afterwards and closes every sender and receiver it opened.",
 ["crash_points", "schedules", "fault_sequences"], "Cancellation at every point of the manager's life, in every state of its links.",
 "No test looks at what remains after cancellation.", ["eventsource/manager.go"],
 [("ctx.Done in every select", "eventsource/manager.go serve/sendRecords/sendKeepalives/listenFlushes")], None, ["goroutines, sends and open links after cancellation"])

prop("T01", "A collector converges to what its sources hold once faults stop",
 "With sources and a collector connected through an AMQP router over a faulty network, a collector store only ever holds records and attribute values that some source published under that identity. Once faults stop and a flush has been answered, it holds for every record of every reachable source exactly the source's current attributes, and stays equal as further updates are published.",
 ["fault_sequences", "schedules", "histories"], "Every sequence of network faults, router restarts and updates, any number of sources, end to end from publisher to store.",
 "No test runs publisher, router and collector together.", ["session/container.go", "eventsource/client.go", "eventsource/manager.go", "eventsource/discovery.go", "store/dispatch.go", "store/cache.go"],
 [("flush on discovery, reconnecting links, merging store", "eventsource/flush.go, session/container.go, store/patcher.go")], None, ["collector store versus source stores"])

prop("T02", "The serve command reports what the network holds and survives source churn",
 "Running with the serve command, the HTTP endpoints list every record received of the types the command keeps, under the right record type and source, and the source list contains exactly the sources currently alive: a source appears within a bounded time of its first beacon, disappears after it falls silent, with its connection closed and what ran for it ended, and appears again when it returns, with its later records still collected. Connection losses shorter than the configured retry limit neither end the command nor lose a source for good, and interrupting it shuts everything down within a bounded time.",
 ["fault_sequences", "schedules", "histories"], "Every history of sources coming, going and returning and of connection faults, with concurrent HTTP requests.",
 "The command has no tests.", ["cmd/vanflow-tool/serve.go", "cmd/vanflow-tool/main.go", "eventsource/discovery.go"],
 [("discovery handlers and per-source clients", "cmd/vanflow-tool/serve.go")], None, ["HTTP responses, exit of the command"])

prop("T03", "The fixture command impersonates exactly the sources it was last given",
 "After a fixture is posted, the fixture command announces every source of that fixture and answers flushes with exactly the records given for it, so that a collector listening to it obtains the posted record set; a later post replaces it: sources of the earlier fixture fall silent within a bounded time, their connections are closed and what ran for them ends. A flow replay of n flows publishes, for every pair of flows of the fixture, n new pairs of flows like it, either side from its own source, each finished in the end. Malformed or partial posts, repeated posts in quick succession and flow replay requests never crash or wedge it.",
 ["histories", "schedules", "inputs"], "Every sequence of posts, flow requests and flushes, at any timing, with records that reference missing ones.",
 "The command has no tests.", ["cmd/vanflow-tool/fixture.go", "eventsource/manager.go"],
 [("reconfigure loop and per-source managers", "cmd/vanflow-tool/fixture.go fixtureServer.Start")], None, ["beacons, record messages and connections at the router; HTTP responses"])

prop("T04", "The log command prints every message of every source once and in order",
 "Running with the log command, every record and heartbeat message of a kind asked for by the flags that arrives from a source alive on an address asked for is printed as one line of JSON with the message's content; no message is printed more often than it arrived, none is printed that nobody sent or that cannot be decoded, and the messages of an address are printed in their order. Sources appear, fall silent and return: the command listens to exactly the addresses of the sources alive, over one connection each, with nothing left running for the others, and sends a flush to a source it discovers if and only if told to. Connection losses shorter than the retry limit do not end it, and it ends within a bounded time when interrupted or when the router stays away for longer. A standard output that stalls delays messages and one that takes no data for a while loses those of that time, no others.",
 ["fault_sequences", "schedules", "histories"], "Every history of sources, messages, connection faults and output faults, with every combination of the flags.",
 "The command has no tests.", ["cmd/vanflow-tool/log.go", "cmd/vanflow-tool/main.go", "eventsource/client.go", "eventsource/flush.go"],
 [("discovery handlers, per-source clients, output loop", "cmd/vanflow-tool/log.go logOnly")], None, ["lines written to standard output; links, connections and flushes at the router; exit of the command"])

prop("T05", "Each command connects to the router it was told to, as it was told to",
 "With the address and TLS flags or a messaging config file, every connection any command makes, the first as well as those for new sources and after any failure, goes to the configured scheme, host and port; with TLS configured it is encrypted before anything is sent, presents the configured certificate and authenticates with SASL EXTERNAL, and without TLS it does neither. When told to verify the router, a command never talks to one that cannot prove its identity; such routers, and handshakes that fail at any step for less than the retry limit, neither end a command nor keep it from its sources once the proper router is back.",
 ["configurations", "fault_sequences"], "Every combination of flags and messaging config, and every history of failed handshakes and impostors.",
 "The commands have no tests.", ["cmd/vanflow-tool/main.go", "session/container.go"],
 [("flags and connect.json to a container factory", "cmd/vanflow-tool/main.go main, tlsConfig.Parse, containerFactory.Create")], None, ["dialled addresses, bytes and certificates seen by the router; exit of the command"])

prop("X01", "Registering, encoding and decoding types is atomic and blocks nobody else",
 "However registrations, encodings and decodings of record types overlap, each behaves as if they happened one at a time: of registrations that claim the same codepoint or type exactly one succeeds and the others panic and change nothing, a registered type can be encoded and decoded from then on by everybody, and what was never registered cannot. Every result belongs to its caller alone and holds exactly the record's attributes. A codec of an attribute that is slow, fails, panics or itself uses the package affects the call that runs it, and never blocks or delays another.",
 ["schedules", "fault_sequences"], "Every interleaving of registrations, refused registrations, encodings and decodings, with attribute codecs of any behaviour.",
 "Tests register types at start and encode and decode from one goroutine.", ["encoding/encoding.go", "encoding/encoder.go", "encoding/decoder.go"],
 [("registry of types under a read-write lock", "encoding/encoding.go MustRegisterRecord"), ("type looked up, then fields encoded or decoded", "encoding/encoder.go Encode, encoding/decoder.go Decode")], None, ["results of MustRegisterRecord, Encode and Decode"])

prop("R01", "Concurrent use of the libraries is free of data races",
 "No concurrent use of the session, eventsource, store and encoding packages through their exported interfaces, including reconnects, closes and callbacks, makes the library itself access shared memory without synchronisation; neither do the commands of the tool under concurrent requests, messages and connection failures.",
 ["schedules"], "Every interleaving of every concurrent use of the API.",
 "The tests are not run under the race detector, and exercise few concurrent paths.", ["session/container.go", "session/mock.go", "eventsource/client.go", "eventsource/discovery.go", "eventsource/manager.go", "store/internal/cache.go", "encoding/encoding.go", "cmd/vanflow-tool/fixture.go", "cmd/vanflow-tool/serve.go", "cmd/vanflow-tool/log.go"],
 [("mutexes, atomics and channels in each type", "session/container.go link.mu, eventsource/discovery.go lock, store/internal/cache.go mu")], None, ["happens-before race reports"])

prop("N01", "Encoding then decoding a record or message gives back the same value",
 "Every record of a registered type whose required fields are set decodes from its own encoding to an equal record, and every beacon, heartbeat, flush and record message decodes from its own encoding to an equal message.",
 ["inputs"], "Every value of every registered record and message type.",
 "Tests cover a fixed list of values.", ["encoding/encoder.go", "encoding/decoder.go", "messages.go"],
 [("field tables built by reflection", "encoding/encoding.go")], None, ["encoding.Encode/Decode"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
