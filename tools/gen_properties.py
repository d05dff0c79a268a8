import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,title
    P.append(d)

p("C01","Records survive encoding to protocol attributes and back",
 "For every protocol record type and every assignment of its attributes, encoding a record and decoding the result, directly or after AMQP binary serialisation, gives back a record of the same type with the same identity and the same attributes: what was set keeps its value (zero values behind optional attributes included, times to the microsecond), what was unset stays unset, and a zero time counts as unset. A record with an empty identity or with a time before the epoch is refused with an error. Encoding never alters the record it is given, and decoding never alters the attribute set.",
 ["inputs"],"every record type, every subset of its attributes, every attribute value",
 "The tests encode a handful of literal records; they cannot cover the product of types, attribute subsets and boundary values (empty strings, 0, 2^64-1, sub-microsecond times).",
 ["encoding/encoding.go","encoding/encoder.go","encoding/decoder.go","base.go","records.go"],
 [("struct-tag driven field encoders/decoders","encoding/encoding.go typeEncoding.encode/decode"),("Time attribute codec","base.go Time.EncodeRecordAttribute/DecodeRecordAttribute")],
 observe=["encoding.Encode","encoding.Decode","amqp.Message binary form"])

p("C02","Records use the protocol's type and attribute codepoints on the wire",
 "Every record is encoded as a map from 32-bit unsigned codepoints holding, under codepoint 0, the record type's protocol codepoint, and for each attribute that is set exactly the protocol's codepoint for that attribute with a value of the protocol's wire type (UTF-8 string, unsigned 64-bit integer, or microseconds since the epoch as an unsigned 64-bit integer); nothing else is present. Conversely an attribute map written with those codepoints by another implementation decodes into exactly those attributes.",
 ["inputs"],"every record type, every attribute, every subset and value, in both directions",
 "Round-trip tests cannot see a codepoint that is wrong in both directions, and the tests pin only a few of the roughly one hundred (type, attribute) pairs.",
 ["records.go","base.go","encoding/encoding.go"],
 [("vflow struct tags and record registration","records.go, base.go"),("codepoint maps","encoding/encoding.go")],
 observe=["encoding.Encode","encoding.Decode"])

p("C03","Decoding untrusted input yields a faithful result or an error, never a panic",
 "For any attribute set and any AMQP message, decoding returns either a result or an error and never panics. A decoded record has the type named by the type codepoint, its required identity, and exactly the known attributes supplied, with the supplied values; unknown codepoints and keys of other kinds are ignored, while a missing or unknown record type, a missing identity, a value of the wrong kind (null included) or an unrepresentable time is refused. A record message decodes to all of its records in order or to an error; a message is decoded according to its subject, and one without properties, without a subject or with an unknown subject is refused.",
 ["inputs"],"every attribute map (keys and values of any AMQP type) and every AMQP message",
 "Fewer than twenty hand-written malformed inputs are tested; the input space a remote peer controls is unbounded.",
 ["encoding/decoder.go","encoding/encoding.go","messages.go","base.go"],
 [("type checks before assignment","encoding/decoder.go rawFieldDecoder"),("subject dispatch","messages.go Decode"),("record slice decoding","messages.go decodeRecords")],
 observe=["encoding.Decode","vanflow.Decode"])

p("C04","Beacon, heartbeat, flush and record messages survive the wire",
 "For any field values, encoding a beacon, heartbeat, flush or record message and decoding it, directly or after AMQP binary serialisation, yields a message of the same kind with the same content, the protocol's subject for that kind and the protocol's destination: beacons always go to the well-known beacon address, heartbeats to the multicast address derived from the source identity, flush and record messages to the address they carry, and a flush message keeps its reply address. A record message carries its records in order, and is refused with an error if any of them cannot be encoded.",
 ["inputs"],"every message kind and field value, and every list of records",
 "One literal per message kind is tested.",
 ["messages.go"],[("per-kind Encode/Decode pairs","messages.go")],
 observe=["BeaconMessage/HeartbeatMessage/FlushMessage/RecordMessage.Encode","vanflow.Decode"])

p("C05","Registering a record type either makes it fully usable or leaves no trace",
 "Any structure type whose tagged fields are strings, 32- or 64-bit integers, self-encoding attributes, optional (pointer) forms of these, or fields promoted from embedded structures can be registered under a free codepoint, after which every value of it round-trips (zero non-optional fields count as unset, and a required field that is unset is refused in both directions). Registering a codepoint or type twice, a repeated or reserved attribute codepoint, a malformed tag or option, an unsupported field type or a non-structure is refused by panicking, and a refused registration changes nothing: the codepoint and the type stay free and earlier registrations keep working, also while other goroutines encode and decode.",
 ["inputs","histories","schedules"],"every structure type over the supported field kinds, every history of valid and invalid registrations, with concurrent use",
 "Five fixed bad registrations and three fixed good types are tested.",
 ["encoding/encoding.go","encoding/encoder.go","encoding/decoder.go"],
 [("MustRegisterRecord under the registry lock","encoding/encoding.go"),("fieldsForType recursion over embedded structs","encoding/encoding.go")],
 state=[("encodings/decodings","registered types by Go type and by codepoint","encoding/encoding.go")],
 observe=["encoding.MustRegisterRecord","encoding.Encode","encoding.Decode"])

p("C06","The store behaves as a keyed map over any history of operations",
 "After any sequence of add, update, delete, replace and accumulate, getting and listing return exactly the entries, with the content and metadata, that a map keyed by the configured key function would hold: add fails and changes nothing when the key exists, update creates or overwrites, delete of an absent key is a no-op, replace swaps the whole content. The same record has the same key through whichever operation it arrives, the update time is that of the last add, update or effective accumulate (replace keeps the one given), and an operation whose key cannot be computed fails and changes nothing.",
 ["histories","configurations"],"every operation sequence over every key function (default or custom)",
 "The tests run short fixed sequences with the default key function only.",
 ["store/cache.go","store/internal/cache.go","store/patcher.go"],
 [("SyncIndexedMap.Update/Patch/Delete/Replace","store/internal/cache.go"),("key function application","store/cache.go")],
 state=[("items","entries by key","store/internal/cache.go")],
 observe=["store.Interface Get/List/Add/Update/Delete/Replace/Accumulate"])

p("C07","Accumulating partial records merges them attribute by attribute",
 "After any sequence of partial records accumulated for a key, the stored record has, for each attribute, the value from the last partial that set it, whatever the way the values were split into partials, and attributes never set stay unset. A partial that changes nothing leaves the entry, its update time and its entity tag untouched and notifies no one; an effective one keeps the original source and annotations. A partial that cannot be merged, such as one of another record type, is refused with an error, leaves the entry as it was and notifies no one.",
 ["histories","inputs"],"every sequence of partial records of every type, interleaved with other store operations",
 "One fixed five-step scenario with one record type is tested.",
 ["store/patcher.go","store/cache.go","store/internal/cache.go"],
 [("recordPatcher.Patch","store/patcher.go"),("errNoChange","store/patcher.go, store/cache.go")],
 observe=["store.Interface Accumulate, Get","EventHandlerFuncs"])

p("C08","Secondary indexes always mirror the stored entries",
 "After any history of operations, looking up an index with an exemplar returns exactly the stored entries that share at least one of the exemplar's index values, each once and in its current version, and listing an index's values returns exactly the values that at least one stored entry has, each once. This holds for the built-in source and site indexes and for any custom index functions, including ones that give an entry no value, several values or the same value twice; an unknown index is an error.",
 ["histories","configurations"],"every operation sequence, every set of index functions, every exemplar",
 "No existing test exercises an index.",
 ["store/internal/cache.go","store/cache.go","store/internal/index.go"],
 [("reindex/unindex on each mutation","store/internal/cache.go")],
 state=[("indicies","index name -> value -> keys","store/internal/cache.go")],
 observe=["store.Interface Index, IndexValues"])

p("C09","Listings are complete, ordered and page without loss or repetition",
 "A listing or index lookup with a selector returns the matching entries in ascending or descending key order, starting after the requested offset and at most the requested limit of them (no limit when it is not positive). Following continue tokens with a fixed selector on an unchanged store visits every remaining entry exactly once in that order, every page but the last is full, and a token is returned exactly when entries remain. Any string given as a continue token, and any offset, gives a listing or an error, never a panic; a token that was cut short gives an error.",
 ["inputs","configurations"],"every store content, ordering, offset, limit, page sequence and token string",
 "One store of 100 entries with one limit, ascending, is tested.",
 ["store/cache.go","store/continue.go"],
 [("applySelector","store/cache.go"),("continue token codec","store/continue.go")],
 observe=["store.Interface List, Index"])

p("C10","Conditional updates succeed only against the very state that was read",
 "An update carrying the entity tag from an earlier read succeeds exactly when the entry has not been changed, replaced, deleted or re-created since that read; otherwise it fails and changes nothing. An entity tag changes with every effective change of the entry and only then, so that two different states of a key never share one, and a string that is not an entity tag of that entry, even one that differs from it only slightly, makes the update fail. Updates without a tag are unconditional.",
 ["histories"],"every history of operations on a key between a read and a conditional update",
 "One fixed read-update-update sequence is tested; deletion and re-creation are not.",
 ["store/etag.go","store/internal/conditional.go","store/internal/cache.go","store/cache.go"],
 [("version counter and WhenVersionMatches","store/internal/cache.go, store/internal/conditional.go"),("ETag codec","store/etag.go")],
 observe=["store.Interface Get, Update with WithIfMatch"])

p("C11","Change notifications mirror exactly the changes made to the store",
 "Every effective add, update, accumulate and delete calls exactly one matching handler exactly once, with the entry's content before and after the change (add: after; change: before and after; delete: before), and nothing else does: failed operations, accumulates that change nothing, deletes of absent keys, reads and replaces notify no one. Replaying the notifications over the content set by the last replace therefore reproduces the store. Handlers may themselves read or modify the store, and absent handlers are skipped.",
 ["histories","configurations"],"every operation history and every subset of handlers",
 "Five single-operation scenarios are tested, and the expected handler being called at all is not.",
 ["store/cache.go","store/internal/cache.go"],
 [("event dispatch after each mutation","store/cache.go"),("Delta prev/next","store/internal/cache.go")],
 observe=["EventHandlerFuncs"])

p("C12","The store is linearizable under concurrent use",
 "When any number of goroutines use a store at once, the results they see are those of some sequential order of their operations that respects real time: no update is lost, at most one add of a key succeeds, of several conditional updates with the same entity tag at most one succeeds, concurrently accumulated attributes all survive, and listings and index lookups never show a partly applied operation. Concurrent use is free of data races and deadlocks, and the notifications for a key chain each state to its successor.",
 ["schedules","histories"],"every set of concurrent operation histories and every interleaving",
 "No test uses a store from two goroutines.",
 ["store/internal/cache.go","store/cache.go"],
 [("SyncIndexedMap.mu held for each whole operation","store/internal/cache.go")],
 observe=["store.Interface from many goroutines","go race detector"])

p("C13","Dispatching routes each record to the store for its type and no other",
 "Dispatching a record message accumulates each of its records, in order and exactly once, into the store registered for that record's type, attributed to the dispatcher's source, and into no other store. Records of types without a registered store are skipped, and a store that refuses a record does not keep the following ones from being dispatched. A dispatcher keeps the registrations it was created with, and the last registration for a type wins.",
 ["inputs","histories"],"every registration history and every record message",
 "Dispatch has no tests.",
 ["store/dispatch.go"],[("Dispatcher.Dispatch and registry copy","store/dispatch.go")],
 observe=["RecordAccumulator.Accumulate calls","store contents"])

p("C14","Published updates are sent as minimal deltas, in order, in bounded batches",
 "Every update published to a running event source manager is sent, in publication order and exactly once, to the source's address, as a record carrying the identity, the type and exactly the attributes that are set in the new version and differ from the previous version (all of them when there is no previous version); an update that changes nothing is not sent. When an update buffer time and a batch size above one are configured each message holds at most that many records and no update waits longer than the buffer time for a batch to fill; otherwise each update is sent in a message of its own without delay (a flush that is being served aside).",
 ["histories","configurations","schedules"],"every sequence of updates, timing, batch size and buffer time",
 "The manager has no tests.",
 ["eventsource/manager.go"],
 [("diffRecord","eventsource/manager.go"),("serve loop and nextN batching","eventsource/manager.go"),("sendRecords","eventsource/manager.go")],
 observe=["messages sent through the session.Container"])

p("C15","A flush request makes the source send its complete state in bounded batches",
 "For every flush request received on its direct address, an event source manager sends to the source's address, starting no earlier than the configured flush delay after the request that triggers it, record messages that together hold every record then in every one of its stores exactly once, with at most the configured batch size in one message (all of a store's records in one message when none is set). Requests that arrive during the delay are answered together by one such transmission, a request arriving after a transmission has begun leads to another one, a store whose listing fails for a while is listed again rather than left out, and errors receiving requests do not cause transmissions or stop later requests from being served.",
 ["histories","configurations","schedules","fault_sequences"],"every arrival pattern of flush requests, store contents, number of stores, batch size and delay",
 "The manager has no tests.",
 ["eventsource/manager.go"],
 [("listenFlushes queue","eventsource/manager.go"),("flush branch of serve","eventsource/manager.go")],
 observe=["messages sent through the session.Container"])

p("C16","A running source announces itself with beacons and heartbeats on schedule",
 "A running event source manager sends a beacon describing its source at once, retrying until it is delivered, and from then on a beacon every beacon interval to the beacon address and a heartbeat every heartbeat interval to the source's address (or its heartbeat address when so configured), with the defaults of ten and two seconds when no interval is set. Beacons carry the source's identity, type, version and addresses; heartbeats carry its identity, version and the current time. Failed deliveries, and stuck ones, which after the first beacon are given up within the shorter of the intervals, never stop later beacons and heartbeats, nor does traffic of records and flushes.",
 ["configurations","fault_sequences","schedules"],"every interval configuration, source description and pattern of send failures and delays",
 "The manager has no tests.",
 ["eventsource/manager.go"],
 [("sendKeepalives tickers and sendWithTimeout","eventsource/manager.go")],
 observe=["messages sent through the session.Container, with their time"])

p("C17","Discovery tracks sources exactly and reports each appearance and departure",
 "After any history of beacons, manual additions and forgettings, the known sources are exactly those announced or added and not since forgotten, each with the details of the announcement that introduced it and a last-seen time that never goes back and is that of its latest beacon. Each introduction is reported once as discovered and each removal once as forgotten, in the order they happened, however many come at once and however slow the handlers are or whatever discovery operations they perform; no history makes discovery stop responding. Messages on the beacon address that are not well-formed beacons are ignored.",
 ["histories","schedules","inputs"],"every history of beacons, additions, forgettings and malformed messages, with handlers of any duration that call back into discovery",
 "Two sources and one forgetting, with instantaneous handlers, are tested.",
 ["eventsource/discovery.go"],
 [("state map under lock; discovered/forgotten event delivery","eventsource/discovery.go")],
 state=[("state","known sources by identity","eventsource/discovery.go")],
 observe=["Discovery.Get/List/Add/Forget","DiscoveryHandlers"])

p("C18","A watched source is forgotten when, and only when, it falls silent",
 "A source watched with a timeout stays known as long as no gap between messages heard from it exceeds the timeout (the first gap, counted from the start of the watch, may be longer by the grace period), and is forgotten, once, no later than the timeout plus one update interval after its last message, or after grace period plus timeout if none came; its client is then closed. Without a timeout it is never forgotten by the watch. While watched, its last-seen time follows the messages heard within one update interval (one second by default) and never goes back; watching an unknown source is an error.",
 ["schedules","configurations","histories"],"every arrival pattern of records and heartbeats, every timeout, grace period and update interval",
 "One real-time scenario is tested.",
 ["eventsource/discovery.go"],
 [("watch.run timers","eventsource/discovery.go"),("advanceLastSeen/lastSeen","eventsource/discovery.go")],
 observe=["Discovery.Get/List","DiscoveryHandlers.Forgotten"])

p("C19","A client hands every message to every handler, in order, until closed",
 "While listening, a client hands each decodable record or heartbeat message it receives to every handler registered for that kind, exactly once each, in arrival order and with its content, after accepting it; undecodable or unrelated messages and errors receiving or accepting are skipped without affecting later messages. Each listen uses the address derived from the source for the chosen kind of traffic. Closing, at any moment and any number of times, stops all listeners, returns promptly once running handlers have returned and nothing is handed over afterwards; ending the context of one listen stops only that one.",
 ["histories","schedules","fault_sequences","inputs"],"every message sequence, handler set, fault pattern and moment of closing",
 "One happy-path sequence is tested, with closing only when idle.",
 ["eventsource/client.go"],
 [("Listen loop","eventsource/client.go"),("handler snapshot getHandlers","eventsource/client.go"),("Close","eventsource/client.go")],
 observe=["OnRecord/OnHeartbeat callbacks","receivers opened on the session.Container"])

p("C20","A flush is sent exactly once, to the source, and only when asked for",
 "Asking a client to send a flush delivers exactly one flush message to the source's direct address, or reports an error when it could not be delivered. Flushing on the first message sends nothing until the first record or heartbeat arrives after the call, then sends exactly one flush however many messages follow or arrive at once, and when its context ends first it returns that context's error and never sends.",
 ["schedules","histories","fault_sequences"],"every arrival pattern of messages relative to the request and to its context's end",
 "Three fixed real-time scenarios are tested.",
 ["eventsource/flush.go","eventsource/client.go"],
 [("messageAwaiter","eventsource/flush.go"),("Client.SendFlush","eventsource/client.go")],
 observe=["messages sent through the session.Container"])

p("C21","A collector's view converges to the source's state",
 "For any history of record changes in an event source's stores that are published through its manager, and whenever a collector starts listening, once the collector has flushed the source and traffic has settled the collector's stores hold exactly the source's records with the same attribute values, attributed to that source. This holds for several sources and collectors sharing one network and for any batching and delay settings.",
 ["histories","schedules","configurations"],"every publication history, start time of collectors, and manager configuration",
 "No test connects a manager to a client and a store.",
 ["eventsource/manager.go","eventsource/client.go","eventsource/discovery.go","store/dispatch.go","store/cache.go","store/patcher.go","session/mock.go"],
 [("delta publication plus flush","eventsource/manager.go"),("dispatch and accumulate","store/dispatch.go, store/patcher.go")],
 observe=["contents of both sides' stores"])

p("C22","Ending the context shuts a component down completely",
 "When the context given to a manager, a discovery, a client's listen or a watch ends, at whatever moment and whatever the component is doing (delivering, waiting for a delivery that never completes, buffering, delaying a flush), it stops promptly: its run call returns (that of a discovery with the context's error), all of its goroutines finish, its links are closed, and nothing further is sent or handed to handlers.",
 ["schedules","fault_sequences","configurations"],"every moment of cancellation in every history, with any sends or receives stuck",
 "Tests cancel idle components only, and leaked goroutines go unnoticed.",
 ["eventsource/manager.go","eventsource/discovery.go","eventsource/client.go"],
 [("context checks in every loop","eventsource/manager.go, eventsource/client.go, eventsource/discovery.go")],
 observe=["goroutines left in a synctest bubble","links of the session.Container"])

p("C23","Senders and receivers recover from every connection failure",
 "Wherever in the AMQP exchange a connection is refused, dropped or stalled, or a session or link is ended by the peer, the container reconnects as long as its backoff allows, and every sender and receiver created from it, before or after the failure or even before the container was started, works again without being recreated: a pending receive goes on to return the next message delivered by the peer, and a later send succeeds. A failed send returns an error rather than success. Connections that were replaced are closed.",
 ["fault_sequences","crash_points","schedules"],"every point of failure in the AMQP exchange, any number of failures, any number of links",
 "The AMQP container is only tested against an external router that CI starts, without failures.",
 ["session/container.go"],
 [("session generations and awaitNextSession","session/container.go"),("retry loop in Start","session/container.go"),("link.handleError resetting the link","session/container.go")],
 state=[("gen/sess/hasNext","current session generation","session/container.go")],
 observe=["Sender.Send/Receiver.Next against a scripted AMQP peer"])

p("C24","AMQP sends and receives are faithful, ordered and settled",
 "A send reports success only once the peer has received exactly that message, unaltered, on a link to the sender's address, and has given its outcome; a message the peer rejects is reported as an error. A receiver returns the messages the peer delivers on its address, unaltered, in order and once per delivery, with no more outstanding than the credit asked for (and that much credit is granted), and accepting a message settles that delivery, and no other, as accepted.",
 ["histories","inputs","configurations"],"every sequence of messages of any size and content, any number of links, any credit, any peer outcome",
 "The AMQP container is not exercised without an external router.",
 ["session/container.go"],
 [("link.Send/Next/Accept over go-amqp","session/container.go"),("ReceiverOptions.get","session/container.go")],
 observe=["the AMQP frames a scripted peer sees"])

p("C25","Cancelled or closed links stop promptly and disturb nothing else",
 "A send or receive whose context ends returns promptly with that context's error, in whatever state the container is, and leaves the link usable. After closing a sender or receiver, its operations, including ones in progress, return an error promptly, the peer sees the link detached, and closing again is harmless; the container's other links go on undisturbed on the same connection. None of this ever crashes the process.",
 ["schedules","histories"],"every moment of cancelling or closing relative to operations, connection state and other links' traffic",
 "Only a send after an idle close is tested.",
 ["session/container.go"],
 [("link.Close, awaitSession and handleError","session/container.go")],
 observe=["Sender/Receiver results; frames a scripted peer sees"])

p("C26","Session errors are reported faithfully and backoff is respected",
 "Every failure to establish the connection, and every loss of it that a sender or receiver runs into, is reported to every registered session-error handler, as a retryable error carrying the delay until the next attempt while attempts go on, and once as a non-retryable error when the backoff gives up; ending the container's context is not an error. Attempts are separated by the backoff's delays, and the backoff starts over after a successful send or accept on the new session, so that failures in between do not exhaust it; the time a working session lasted does not count towards giving up.",
 ["fault_sequences","configurations"],"every sequence of connection outcomes and every backoff policy",
 "Session-error handlers and backoff are not tested.",
 ["session/container.go"],
 [("backoff.RetryNotify in Start","session/container.go"),("notifyOK resetting the backoff","session/container.go")],
 observe=["OnSessionError callbacks; connection attempts a scripted peer sees"])

p("C27","The in-memory router delivers each message to every open receiver",
 "With the in-memory containers, a sent message reaches every receiver open on that address at that time, exactly once and in the order sent, and none on other addresses, whichever containers of the same router they belong to. A send to an address on which no receiver was ever opened waits until one is or its context ends, closed senders refuse to send, and closed receivers neither receive (a receive in progress ends with an error) nor hold up senders.",
 ["histories","schedules"],"every history of opening and closing links, sending and receiving over any addresses and containers",
 "One sender and one receiver are tested.",
 ["session/mock.go","session/factory.go"],
 [("multicast topics","session/mock.go")],
 observe=["session.Container from NewMockContainerFactory"])

p("C28","A captured network state replays as the same records from the same sources",
 "The collector tool's HTTP listing holds every record of the types it collects that it received from any source, once, with its merged attributes and source; the per-type and per-source listings agree with it. It asks each source it discovers for its records (a flush), so that it also holds those sent before it was there. It forgets a source that falls silent, keeping no connection for it, and collects from it again when it comes back. A record that JSON cannot express is left out of a listing without affecting the others. Posting such a capture to the fixture tool makes it impersonate exactly those sources: each announces itself, and on a flush sends exactly its own captured records with the captured attribute values. Entries of unknown types or with malformed records are left out without affecting the others, and a malformed request is refused.",
 ["inputs","histories"],"every set of records and sources, captured and replayed over AMQP and HTTP",
 "The tool has no tests.",
 ["cmd/vanflow-tool/serve.go","cmd/vanflow-tool/fixture.go","cmd/vanflow-tool/api.go"],
 [("serveRecords handlers","cmd/vanflow-tool/serve.go"),("groupEntriesBySource and manager set-up","cmd/vanflow-tool/fixture.go")],
 observe=["the tool's HTTP responses and AMQP traffic"])

p("C29","Replayed flow load is complete, paired and never brings the tool down",
 "Posting a flow request to the fixture tool makes it publish, for every captured flow whose counterflow was captured too, the requested number of new flow pairs: each server-side flow sent from the server flow's source with the client-side flow's identity as its counterflow, each client-side flow from the client flow's source, all with distinct identities, the captured flow's parent, host, port and trace, and finally an end time. Flows whose counterflow was not captured are ignored, requests that cannot be served are refused, and no capture and no request makes the tool crash or stop serving.",
 ["inputs","histories"],"every captured set of flows and every flow request",
 "The tool has no tests.",
 ["cmd/vanflow-tool/fixture.go"],
 [("ServeFlows and fakeFlow","cmd/vanflow-tool/fixture.go")],
 observe=["the tool's HTTP responses and AMQP traffic"])

p("C30","A capture run never leaves its deployment behind",
 "Whatever fails or is interrupted while vancap captures (any Kubernetes API call, a deployment that becomes ready late or has no pods, port forwarding, the capture request or its response, writing the file, or an interrupt), if it created the collector deployment it deletes it before it ends (unless the cluster refuses the deletion), also when only the confirmation of its creation was lost, and it deletes no other. It exits successfully only if the output file holds exactly what the collector in the pod served, complete and without an error status, at least the configured duration after the deployment was ready; it crashes never, and it does succeed when nothing fails, for every API server its kubeconfig can describe (http or https, by address, name or proxy, below a path). Without a skupper installation in the namespace nothing is created. What it deploys is the requested image version, configured to collect from that installation.",
 ["fault_sequences","crash_points"],"every API call and step at which a failure or an interrupt can occur",
 "vancap has no tests.",
 ["vancap/main.go"],[("deferred cleanup in Vancap.Run","vancap/main.go")],
 observe=["requests a fake Kubernetes API server sees; exit status; output file"])

p("C31","The tool talks only to the router its TLS configuration trusts",
 "Configured for TLS (by flags or a connect.json that name a CA, a client certificate or both), vanflow-tool, in all of its modes and for every connection it makes, sends nothing to a router whose certificate it is to verify (by default, with the flags) and that does not chain to the configured CA, is expired, not yet valid, not for servers or for another host, nor to one that does not speak TLS; it does connect to every router that is acceptable, also after being refused a trustworthy one at first, identifies itself with the configured client certificate (and no other), and authenticates with SASL EXTERNAL. Without verification it accepts any certificate but still uses TLS. With a configuration that cannot be used (unreadable or malformed files, a key that does not match, a missing CA to verify with, an unknown command) it ends with an error without connecting.",
 ["inputs","fault_sequences"],"every TLS configuration and every certificate a router may present over time",
 "The tool has no tests and no test uses TLS.",
 ["cmd/vanflow-tool/main.go","session/container.go"],
 [("tlsConfig.Parse and main","cmd/vanflow-tool/main.go"),("ContainerConfig.toAmqp","session/container.go")],
 observe=["which TLS connections the router sees, with which client certificates and SASL mechanism; exit status"])

p("C32","The log command prints every message it is asked for, once and in order",
 "vanflow-tool log prints, as one JSON line each, every record message (unless disabled) and heartbeat (if enabled) that a discovered source sends to an address that is listened to (its own, those for flows and logs unless disabled, and a controller's heartbeats), exactly once, in the order sent to that address, with the same records and attribute values; it prints nothing else to standard output and listens to no other address of the source. It requests a source's records only if told to, and then does, again if that fails; after a connection was lost it goes on, and so it does when a source that fell silent comes back; it keeps no connection for a source that fell silent. It ends with success when interrupted.",
 ["inputs","histories"],"every stream of messages and every combination of flags",
 "The tool has no tests.",
 ["cmd/vanflow-tool/log.go","eventsource/client.go"],
 [("logOnly","cmd/vanflow-tool/log.go")],
 observe=["standard output and AMQP traffic of the tool"])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
