From 219cff4d74493a894f6e9c2c683a7ca9531e49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/59] fix: encode attributes that point to a zero value

A non-nil pointer is an attribute that has been set. Encoding dropped it when
it pointed to an empty string or zero, so that resetting a counter or clearing
a text was never sent, accumulated or published.
---
 encoding/encoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..5c94a17 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -98,6 +98,10 @@ func (e pointerEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsNil() {
 		return nil, ErrAttributeNotSet
 	}
+	if _, ok := e.sub.(rawFieldEncoder); ok {
+		// a non-nil pointer is set, even when it points to a zero value
+		return v.Elem().Interface(), nil
+	}
 	return e.sub.encode(v.Elem())
 }
 
-- 
2.43.0


From 64029c25bfa7912885734377854effda320b8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/59] fix: refuse null attribute values instead of panicking

An AMQP null as the value of a known attribute made Decode panic in reflect,
so any peer could crash a listener.
---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..b11072a 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -97,6 +97,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 		return fmt.Errorf("field not addressable")
 	}
 	attrV := reflect.ValueOf(attr)
+	if !attrV.IsValid() {
+		return fmt.Errorf("cannot assign null to type")
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
-- 
2.43.0


From 2d8964112e4ce2fc33e05ec32e2184d2b1443551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 03/59] fix: refuse nil record pointers instead of panicking
 when encoding

---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 5c94a17..77d8f3c 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -44,6 +44,9 @@ func Encode(record any) (RecordAttributeSet, error) {
 	encoding, ok := encodings[recordT]
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
+			if recordV.IsNil() {
+				return nil, fmt.Errorf("cannot encode nil record of type %T", record)
+			}
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
 			encoding, ok = encodings[recordT]
-- 
2.43.0


From a8997c173423b6ef1d483b1e016164f9c0f34c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 04/59] fix: do not panic decoding messages without properties

DecodeBeacon, DecodeHeartbeat, DecodeFlush and DecodeRecord dereferenced the
properties section, which AMQP messages need not have.
---
 messages.go | 52 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/messages.go b/messages.go
index 85458ea..a90436a 100644
--- a/messages.go
+++ b/messages.go
@@ -40,6 +40,14 @@ func Decode(msg *amqp.Message) (interface{}, error) {
 	}
 }
 
+// propertiesOf a message, empty when the message has none.
+func propertiesOf(msg *amqp.Message) *amqp.MessageProperties {
+	if msg.Properties == nil {
+		return &amqp.MessageProperties{}
+	}
+	return msg.Properties
+}
+
 type BeaconMessage struct {
 	MessageProps
 	Version    uint32
@@ -51,14 +59,15 @@ type BeaconMessage struct {
 
 func DecodeBeacon(msg *amqp.Message) BeaconMessage {
 	var m BeaconMessage
-	if msg.Properties.To != nil {
-		m.To = *msg.Properties.To
+	props := propertiesOf(msg)
+	if props.To != nil {
+		m.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		m.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		m.Subject = *props.Subject
 	}
-	if msg.Properties.ReplyTo != nil {
-		m.ReplyTo = *msg.Properties.ReplyTo
+	if props.ReplyTo != nil {
+		m.ReplyTo = *props.ReplyTo
 	}
 	if version, ok := msg.ApplicationProperties["v"].(uint32); ok {
 		m.Version = version
@@ -109,11 +118,12 @@ type HeartbeatMessage struct {
 
 func DecodeHeartbeat(msg *amqp.Message) HeartbeatMessage {
 	var m HeartbeatMessage
-	if msg.Properties.To != nil {
-		m.To = *msg.Properties.To
+	props := propertiesOf(msg)
+	if props.To != nil {
+		m.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		m.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		m.Subject = *props.Subject
 	}
 
 	if version, ok := msg.ApplicationProperties["v"].(uint32); ok {
@@ -149,14 +159,15 @@ type FlushMessage struct {
 
 func DecodeFlush(msg *amqp.Message) FlushMessage {
 	var flush FlushMessage
-	if msg.Properties.To != nil {
-		flush.To = *msg.Properties.To
+	props := propertiesOf(msg)
+	if props.To != nil {
+		flush.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		flush.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		flush.Subject = *props.Subject
 	}
-	if msg.Properties.ReplyTo != nil {
-		flush.ReplyTo = *msg.Properties.ReplyTo
+	if props.ReplyTo != nil {
+		flush.ReplyTo = *props.ReplyTo
 	}
 	return flush
 }
@@ -177,11 +188,12 @@ type RecordMessage struct {
 }
 
 func DecodeRecord(msg *amqp.Message) (record RecordMessage, err error) {
-	if msg.Properties.To != nil {
-		record.To = *msg.Properties.To
+	props := propertiesOf(msg)
+	if props.To != nil {
+		record.To = *props.To
 	}
-	if msg.Properties.Subject != nil {
-		record.Subject = *msg.Properties.Subject
+	if props.Subject != nil {
+		record.Subject = *props.Subject
 	}
 	record.Records, err = decodeRecords(msg)
 	return record, err
-- 
2.43.0


From 9c9c84e069e0857c441cf84194e79957bf97b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 05/59] fix: refuse attributes that use the record type's
 codepoint

An attribute tagged with codepoint 0 was overwritten by the record type on
encoding and could never be decoded.
---
 encoding/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 24ee817..53ef7c3 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -122,6 +122,9 @@ func parseFieldOpts(f reflect.StructField) (field, bool) {
 		panic(fmt.Sprintf("vflow struct tag parse error for field %s: %s", f.Name, err))
 	}
 	opts.Codepoint = uint32(code)
+	if opts.Codepoint == typeOfRecord {
+		panic(fmt.Sprintf("vflow struct tag error for field %s: codepoint %d is reserved for the record type", f.Name, code))
+	}
 	switch suffix := sOpt; suffix {
 	case "required":
 		opts.Identity = true
-- 
2.43.0


From b0e64ac1ccf50dbfb0f499e7b51cd1ab0f4c685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 06/59] fix: failed accumulates notify no one and do not panic

When a partial record could not be merged, Accumulate called OnAdd with an
empty entry before returning the error, and panicked when the merged record
could not be decoded.
---
 store/cache.go   |  5 ++++-
 store/patcher.go | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..bb8aba1 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -84,13 +84,16 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
 		c.eventHandlers.OnAdd(d.Next)
 	}
-	return err
+	return nil
 }
 
 func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, error error) {
diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..ec50bf7 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -49,6 +49,13 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	}
 	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	merged, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record of type %T is not a vanflow record", rawOut)
+	}
+	entry.Record = merged
+	return entry, nil
 }
-- 
2.43.0


From 5f3ff6fdf46b320ac050264314f0de922b040f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 07/59] fix: accumulate computes keys from the complete entry

The key function was given an entry without type and source, unlike in every
other operation, so that stores keyed by them (such as the one of vanflow-tool)
stored all accumulated records under one key prefix and never found them by
type.
---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index bb8aba1..e559e78 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	key, err := c.keyFunc(Entry{
+		Meta:     Metadata{Source: source},
+		TypeMeta: partial.GetTypeMeta(),
+		Record:   partial,
+	})
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From 1443e1c10a444a3e3c384fd937b484654df1a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 08/59] fix: never reuse entity tags

Versions restarted at one when an entry was deleted and added again or dropped
by Replace, so a conditional update could succeed against a state other than
the one that was read.
---
 store/internal/cache.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..e704f7e 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,10 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// revision is the version most recently given to an item. Versions are
+	// never reused, so that items that get deleted and recreated cannot be
+	// mistaken for their predecessor.
+	revision int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -37,6 +41,12 @@ func NewSyncIndexedMap[T any](indexers map[string]Indexer[T]) *SyncIndexedMap[T]
 	}
 }
 
+// nextVersion must be called with the lock held
+func (m *SyncIndexedMap[T]) nextVersion() int64 {
+	m.revision++
+	return m.revision
+}
+
 func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T]) (Delta[T], error) {
 	var delta Delta[T]
 	m.mu.Lock()
@@ -57,7 +67,7 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	cc.Version = m.nextVersion()
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +91,7 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	cc.Version = m.nextVersion()
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +122,7 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.nextVersion()}
 	}
 	m.items = itemcc
 
-- 
2.43.0


From 704da5a4da9bded246c0aef09fef1f6adaccb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 09/59] fix: do not panic on negative listing offsets

A negative Selector.Offset, or a continue token that holds one, made listings
panic.
---
 store/cache.go    | 3 +++
 store/continue.go | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/store/cache.go b/store/cache.go
index e559e78..79b508b 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -133,6 +133,9 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 			return result, err
 		}
 	}
+	if offset < 0 {
+		offset = 0
+	}
 
 	if offset >= len(result.Entries) {
 		result.Entries = result.Entries[0:0] // empty resultset
diff --git a/store/continue.go b/store/continue.go
index 5bb2f76..3cb53e9 100644
--- a/store/continue.go
+++ b/store/continue.go
@@ -23,8 +23,13 @@ func decodeCacheContinue(token string) (int, error) {
 	}
 	buf := bytes.NewReader(out)
 	var container cacheContinueToken
-	err = binary.Read(buf, binary.LittleEndian, &container)
-	return int(container.Offset), err
+	if err := binary.Read(buf, binary.LittleEndian, &container); err != nil {
+		return 0, fmt.Errorf("invalid continue token: %w", err)
+	}
+	if container.Offset < 0 {
+		return 0, fmt.Errorf("invalid continue token: negative offset")
+	}
+	return int(container.Offset), nil
 }
 
 func encodeCacheContinue(offset int) string {
-- 
2.43.0


From a566750c83d875a513316f112c1b4d35275e1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 10/59] fix: discovery ignores messages that are not
 well-formed beacons

---
 eventsource/discovery.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..ba813e9 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -61,11 +61,17 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
-		if *msg.Properties.Subject != "BEACON" {
-			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
+		decoded, err := vanflow.Decode(msg)
+		if err != nil {
+			slog.Info("discovery ignoring message that could not be decoded", slog.Any("error", err))
+			continue
+		}
+		beacon, ok := decoded.(vanflow.BeaconMessage)
+		if !ok || beacon.Identity == "" {
+			slog.Info("received non-beacon from beacon source", slog.Any("message", decoded))
 			continue
 		}
-		d.observe(vanflow.DecodeBeacon(msg))
+		d.observe(beacon)
 	}
 }
 
-- 
2.43.0


From c5e93e2552ee704d792b39175234c2efd02cc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 11/59] fix: discovery reports events in order and never blocks
 on slow handlers

---
 eventsource/discovery.go | 61 ++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index ba813e9..9070bde 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -19,11 +19,17 @@ type Discovery struct {
 	container     session.Container
 	lock          sync.Mutex
 	state         map[string]Info
-	discovered    chan Info
-	forgotten     chan Info
+	events        []discoveryEvent // to be handled, in order
+	hasEvents     chan struct{}
 	beaconAddress string
 }
 
+// discoveryEvent is a source that was discovered or forgotten
+type discoveryEvent struct {
+	Source    Info
+	Forgotten bool
+}
+
 type DiscoveryHandlers struct {
 	Discovered func(source Info)
 	Forgotten  func(source Info)
@@ -40,8 +46,7 @@ func NewDiscovery(container session.Container, opts DiscoveryOptions) *Discovery
 	return &Discovery{
 		container:     container,
 		state:         make(map[string]Info),
-		discovered:    make(chan Info, 32),
-		forgotten:     make(chan Info, 32),
+		hasEvents:     make(chan struct{}, 1),
 		beaconAddress: opts.BeaconAddress,
 	}
 }
@@ -77,21 +82,47 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 
 func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandlers) {
 	for {
+		for ctx.Err() == nil {
+			event, ok := d.nextEvent()
+			if !ok {
+				break
+			}
+			handler := handlers.Discovered
+			if event.Forgotten {
+				handler = handlers.Forgotten
+			}
+			if handler != nil {
+				handler(event.Source)
+			}
+		}
 		select {
 		case <-ctx.Done():
 			return
-		case info := <-d.discovered:
-			if handlers.Discovered != nil {
-				handlers.Discovered(info)
-			}
-		case info := <-d.forgotten:
-			if handlers.Forgotten != nil {
-				handlers.Forgotten(info)
-			}
+		case <-d.hasEvents:
 		}
 	}
 }
 
+// pushEvent queues an event for the handlers without ever blocking. The lock
+// must be held so that events are queued in the order of the changes to state.
+func (d *Discovery) pushEvent(event discoveryEvent) {
+	d.events = append(d.events, event)
+	select {
+	case d.hasEvents <- struct{}{}:
+	default:
+	}
+}
+
+func (d *Discovery) nextEvent() (event discoveryEvent, ok bool) {
+	d.lock.Lock()
+	defer d.lock.Unlock()
+	if len(d.events) == 0 {
+		return event, false
+	}
+	event, d.events = d.events[0], d.events[1:]
+	return event, true
+}
+
 // Get an EventSource by ID
 func (d *Discovery) Get(id string) (source Info, ok bool) {
 	d.lock.Lock()
@@ -111,7 +142,7 @@ func (d *Discovery) Add(info Info) bool {
 		return false
 	}
 	d.state[info.ID] = info
-	d.discovered <- info
+	d.pushEvent(discoveryEvent{Source: info})
 	return true
 }
 
@@ -126,7 +157,7 @@ func (d *Discovery) Forget(id string) bool {
 	state, forget = d.state[id]
 	delete(d.state, id)
 	if forget {
-		d.forgotten <- state
+		d.pushEvent(discoveryEvent{Source: state, Forgotten: true})
 	}
 	return forget
 }
@@ -286,7 +317,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
 	if discovered {
-		d.discovered <- state
+		d.pushEvent(discoveryEvent{Source: state})
 	}
 }
 
-- 
2.43.0


From 50280dd9ed32edff99c6aa3fada6d38a169230e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 12/59] fix: flush receive errors do not trigger a flush

---
 eventsource/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..25dac65 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -316,6 +316,7 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
 		select {
-- 
2.43.0


From 3499e8eca54173b5034f18110f1832e7089ad001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 13/59] fix: apply the send timeout to beacons and heartbeats

---
 eventsource/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 25dac65..222ec59 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -331,7 +331,7 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
+	err := sender.Send(requestCtx, msg)
 	if err != nil {
 		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
 			return errSendTimeoutExceeded
-- 
2.43.0


From 9af5ac09514a73de91309bbdd237b783b8d223d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 14/59] fix: stop retrying the initial beacon when the context
 ends

---
 eventsource/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 222ec59..957ae38 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -261,6 +261,9 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	// start with sending beacon
 	for {
 		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
+			if ctx.Err() != nil {
+				return
+			}
 			slog.Error("error sending initial beacon message", slog.Any("error", err))
 			continue
 		}
-- 
2.43.0


From aa0e732c3ae26f7f3590f37ceb2fa9946be0be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 15/59] fix: closing a client does not deadlock with its
 listeners or panic when repeated

---
 eventsource/client.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..aca9a83 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -17,6 +17,8 @@ const (
 	sourceSuffixHeartbeats = ".heartbeats"
 )
 
+var errClientClosed = errors.New("client closed")
+
 // Client is responsible for interacting with Event Sources
 //
 // Allows the caller to register message handler callbacks to react to received
@@ -26,6 +28,7 @@ type Client struct {
 	eventSource Info
 
 	lock              sync.Mutex
+	closed            bool
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
@@ -85,11 +88,15 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 // listener configuration until the context is cancelled or client.Close() is
 // called.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
 	listenerCtx, listenerCancel := context.WithCancel(ctx)
 
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	if c.closed {
+		listenerCancel()
+		return errClientClosed
+	}
+	c.wg.Add(1)
 	c.cleanup = append(c.cleanup, listenerCancel)
 
 	go func(ctx context.Context) {
@@ -139,8 +146,12 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 // Close stops all listeners
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
-	for _, cancel := range c.cleanup {
+	c.closed = true
+	cleanup := c.cleanup
+	c.cleanup = nil
+	// listeners need the lock in order to finish
+	c.lock.Unlock()
+	for _, cancel := range cleanup {
 		cancel()
 	}
 	c.wg.Wait()
-- 
2.43.0


From fd6ace64e720014c7065691ac49b688fbbac8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 16/59] fix: listeners do not hand messages over after their
 context ended

---
 eventsource/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventsource/client.go b/eventsource/client.go
index aca9a83..9d51206 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -122,6 +122,9 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 				slog.Error("client error accepting message", slog.Any("error", err), slog.String("address", cfg.Address))
 				continue
 			}
+			if ctx.Err() != nil {
+				return
+			}
 			decoded, err := vanflow.Decode(amqpMsg)
 			if err != nil {
 				slog.Error("skipping message that could not be decoded", slog.Any("error", err))
-- 
2.43.0


From 93cd1a6e6ab49d7015c5328784d6d745d769e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 17/59] fix: wait for the whole flush delay however many
 requests arrive

---
 eventsource/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 957ae38..c25784e 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"log/slog"
+	"math"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -180,7 +181,7 @@ func (m *Manager) serve(ctx context.Context) {
 			// handle a flush
 			if m.FlushDelay > 0 {
 				drainCtx, cancelDrain := context.WithTimeout(ctx, m.FlushDelay)
-				nextN(drainCtx, m.flushQueue, 2048)
+				nextN(drainCtx, m.flushQueue, math.MaxInt)
 				cancelDrain()
 				if ctx.Err() != nil {
 					return
-- 
2.43.0


From d3507cf06e20996c574b2dd23e91405bd212915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 18/59] fix: flush a consistent listing of each store

---
 eventsource/manager.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index c25784e..059a9bc 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -190,36 +190,36 @@ func (m *Manager) serve(ctx context.Context) {
 			slog.Info("servicing flush", slog.String("source", m.Source.ID))
 			flushStoreQ := make([]store.Interface, len(m.Stores))
 			copy(flushStoreQ, m.Stores)
-			selector := &store.Selector{
-				Limit: m.FlushBatchSize,
-			}
 			for len(flushStoreQ) > 0 {
 				stor := flushStoreQ[0]
-				result, err := stor.List(ctx, selector)
+				// list the store at once, since paging through it while it
+				// changes can miss records.
+				result, err := stor.List(ctx, &store.Selector{})
 				if err != nil {
-					if errors.Is(err, ctx.Err()) {
+					if ctx.Err() != nil {
 						return
 					}
 					slog.Error("flush error listing resources", slog.Any("error", err))
 					continue // probably bad.
 				}
-				selector.Continue = result.Continue
-				if result.Continue == "" {
-					flushStoreQ = flushStoreQ[1:]
-				}
+				flushStoreQ = flushStoreQ[1:]
 
-				if len(result.Entries) == 0 {
-					continue
-				}
-				var record vanflow.RecordMessage
-				record.Records = make([]vanflow.Record, len(result.Entries))
-				for i := range result.Entries {
-					record.Records[i] = result.Entries[i].Record
-				}
-				select {
-				case <-ctx.Done():
-					return
-				case m.sendQueue <- record:
+				for entries := result.Entries; len(entries) > 0; {
+					batch := len(entries)
+					if m.FlushBatchSize > 0 && batch > m.FlushBatchSize {
+						batch = m.FlushBatchSize
+					}
+					var record vanflow.RecordMessage
+					record.Records = make([]vanflow.Record, batch)
+					for i := range record.Records {
+						record.Records[i] = entries[i].Record
+					}
+					entries = entries[batch:]
+					select {
+					case <-ctx.Done():
+						return
+					case m.sendQueue <- record:
+					}
 				}
 			}
 		}
-- 
2.43.0


From e92052e7fa1e5d47724293bf2ebac7ab9a3238c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 19/59] fix: closed mock receivers neither receive nor hold up
 senders

---
 session/mock.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..b05e8c3 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -95,7 +95,10 @@ func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
 	var sent bool
 	for _, r := range m.receivers {
 		sent = true
-		r.send(msg)
+		if err := r.send(ctx, msg); err != nil {
+			m.mu.Unlock()
+			return err
+		}
 	}
 	m.mu.Unlock()
 	if !sent {
@@ -123,15 +126,29 @@ type mockReceiver struct {
 	done      chan struct{}
 }
 
-func (r *mockReceiver) send(msg *amqp.Message) {
+// send the message unless the receiver is or gets closed
+func (r *mockReceiver) send(ctx context.Context, msg *amqp.Message) error {
 	select {
 	case <-r.done:
-		return
+		return nil
 	default:
-		r.channel <- msg
+	}
+	select {
+	case <-r.done:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case r.channel <- msg:
+		return nil
 	}
 }
+
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
+	select {
+	case <-r.done:
+		return nil, fmt.Errorf("closed")
+	default:
+	}
 	select {
 	case <-ctx.Done():
 		return nil, ctx.Err()
-- 
2.43.0


From 6048e296bcf2cf4a5a6440661eea287ebb945d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 20/59] fix: request the receiver credit that was asked for

---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From 4ecde7f4692aa63bd03b948769f135988e851617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:50 +0000
Subject: [PATCH 21/59] fix: receiving on a closed link returns an error

---
 session/container.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/session/container.go b/session/container.go
index 154bb0b..9b3d1de 100644
--- a/session/container.go
+++ b/session/container.go
@@ -384,21 +384,22 @@ func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
 }
 
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
-	var (
-		result *amqp.Message
-	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
-		msg, err := rcv.Receive(ctx, nil)
-		if err != nil {
-			return fmt.Errorf("receive error: %w", err)
+	for {
+		var (
+			result *amqp.Message
+		)
+		err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
+			msg, err := rcv.Receive(ctx, nil)
+			if err != nil {
+				return fmt.Errorf("receive error: %w", err)
+			}
+			result = msg
+			return nil
+		})
+		if err == nil || errors.Is(err, errLinkClosed) || ctx.Err() != nil {
+			return result, err
 		}
-		result = msg
-		return nil
-	})
-	if err != nil && ctx.Err() == nil {
-		return r.Next(ctx)
 	}
-	return result, err
 }
 
 func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
-- 
2.43.0


From 77e81bf78ec8ebea6b0ab5fcce1cb78a2204a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 22/59] fix: attribute link errors to the session they occurred
 on

---
 session/container.go | 86 ++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/session/container.go b/session/container.go
index 9b3d1de..fc0a5ba 100644
--- a/session/container.go
+++ b/session/container.go
@@ -288,57 +288,67 @@ type link struct {
 	snd     *amqp.Sender
 }
 
-var errLinkClosed = errors.New("link closed")
+var (
+	errLinkClosed      = errors.New("link closed")
+	errSessionReplaced = errors.New("session replaced")
+)
 
-func (r *link) awaitSession(ctx context.Context) error {
+// awaitSession returns the session to use and its generation.
+func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
 	r.mu.Lock()
 	curr, currGen, closed := r.curr, r.currGen, r.closed
 	r.mu.Unlock()
 	if closed {
-		return errLinkClosed
+		return nil, currGen, errLinkClosed
 	}
 	if curr != nil {
-		return nil
+		return curr, currGen, nil
 	}
 	next, nextGen, err := r.container.awaitNextSession(ctx, currGen)
 	if err != nil {
-		return err
+		return nil, currGen, err
 	}
 	r.mu.Lock()
-	r.curr, r.currGen = next, nextGen
+	if nextGen > r.currGen {
+		r.curr, r.currGen = next, nextGen
+	}
 	r.mu.Unlock()
-	return nil
+	return next, nextGen, nil
 }
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
-	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+	sess, currGen, err := r.awaitSession(ctx)
+	if err != nil {
+		return r.handleError(ctx, currGen, fmt.Errorf("session await error: %w", err))
 	}
-	rcv, currGen, err := r.getReceiver(ctx)
+	rcv, err := r.getReceiver(ctx, sess, currGen)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
 	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
-	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+	sess, currGen, err := r.awaitSession(ctx)
+	if err != nil {
+		return r.handleError(ctx, currGen, fmt.Errorf("session await error: %w", err))
 	}
-	snd, currGen, err := r.getSender(ctx)
+	snd, err := r.getSender(ctx, sess, currGen)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
 	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
+// handleError handles the error of an operation that used the session of the
+// given generation
+func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	if errors.Is(err, ctx.Err()) {
 		return err
 	}
@@ -346,41 +356,49 @@ func (r *link) handleError(ctx context.Context, err error) error {
 		return err
 	}
 	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
+		Generation: gen,
 		Err:        err,
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	if r.currGen == gen {
+		r.curr, r.rcv, r.snd = nil, nil, nil
+	}
 	return err
 }
 
-func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
+func (r *link) getReceiver(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Receiver, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	if r.rcv != nil && r.rcvGen == r.currGen {
-		return r.rcv, r.rcvGen, nil
+	if r.rcv != nil && r.rcvGen == gen {
+		return r.rcv, nil
 	}
-	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
+	if r.rcvGen > gen {
+		return nil, errSessionReplaced
+	}
+	rcv, err := sess.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
-		return nil, 0, err
+		return nil, err
 	}
-	r.rcv, r.rcvGen = rcv, r.currGen
-	return r.rcv, r.rcvGen, nil
+	r.rcv, r.rcvGen = rcv, gen
+	return rcv, nil
 }
 
-func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
+func (r *link) getSender(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Sender, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	if r.snd != nil && r.sndGen == r.currGen {
-		return r.snd, r.sndGen, nil
+	if r.snd != nil && r.sndGen == gen {
+		return r.snd, nil
+	}
+	if r.sndGen > gen {
+		return nil, errSessionReplaced
 	}
-	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
+	snd, err := sess.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
-		return nil, 0, err
+		return nil, err
 	}
-	r.snd, r.sndGen = snd, r.currGen
-	return r.snd, r.sndGen, nil
+	r.snd, r.sndGen = snd, gen
+	return snd, nil
 }
 
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
-- 
2.43.0


From 68ed175fc9ed6f0ca295c060e69e92b5a0b968c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 23/59] fix: link operations return when their context ends and
 keep the session

---
 session/container.go | 55 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/session/container.go b/session/container.go
index fc0a5ba..59c813d 100644
--- a/session/container.go
+++ b/session/container.go
@@ -262,6 +262,7 @@ func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions)
 		senderOpts:    s.get(),
 		sessionErrors: c.sessionErrors,
 		reportOK:      c.notifyOK,
+		attaching:     make(chan struct{}, 1),
 		curr:          c.sess,
 		currGen:       c.gen,
 	}
@@ -278,6 +279,9 @@ type link struct {
 
 	container *container
 
+	// attaching is held while attaching to a session
+	attaching chan struct{}
+
 	mu      sync.Mutex
 	closed  bool
 	currGen int
@@ -355,9 +359,16 @@ func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	if errors.Is(err, errLinkClosed) {
 		return err
 	}
-	r.sessionErrors <- sessionErr{
+	if ctxErr := ctx.Err(); ctxErr != nil {
+		return fmt.Errorf("%w: %s", ctxErr, err)
+	}
+	select {
+	case r.sessionErrors <- sessionErr{
 		Generation: gen,
 		Err:        err,
+	}:
+	case <-ctx.Done():
+		return fmt.Errorf("%w: %s", ctx.Err(), err)
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
@@ -367,36 +378,62 @@ func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	return err
 }
 
+// lockAttach ensures that only one operation at a time attaches the link.
+func (r *link) lockAttach(ctx context.Context) error {
+	select {
+	case r.attaching <- struct{}{}:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
+func (r *link) unlockAttach() { <-r.attaching }
+
 func (r *link) getReceiver(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Receiver, error) {
+	if err := r.lockAttach(ctx); err != nil {
+		return nil, err
+	}
+	defer r.unlockAttach()
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.rcv != nil && r.rcvGen == gen {
-		return r.rcv, nil
+	rcv, rcvGen := r.rcv, r.rcvGen
+	r.mu.Unlock()
+	if rcv != nil && rcvGen == gen {
+		return rcv, nil
 	}
-	if r.rcvGen > gen {
+	if rcvGen > gen {
 		return nil, errSessionReplaced
 	}
 	rcv, err := sess.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
 		return nil, err
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.rcv, r.rcvGen = rcv, gen
 	return rcv, nil
 }
 
 func (r *link) getSender(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Sender, error) {
+	if err := r.lockAttach(ctx); err != nil {
+		return nil, err
+	}
+	defer r.unlockAttach()
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.snd != nil && r.sndGen == gen {
-		return r.snd, nil
+	snd, sndGen := r.snd, r.sndGen
+	r.mu.Unlock()
+	if snd != nil && sndGen == gen {
+		return snd, nil
 	}
-	if r.sndGen > gen {
+	if sndGen > gen {
 		return nil, errSessionReplaced
 	}
 	snd, err := sess.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
 		return nil, err
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.snd, r.sndGen = snd, gen
 	return snd, nil
 }
-- 
2.43.0


From db0af611f1b0920798b024294de1263dcb8dba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 24/59] fix: closing a link interrupts its operations only and
 detaches senders

---
 session/container.go | 72 ++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/session/container.go b/session/container.go
index 59c813d..0f83837 100644
--- a/session/container.go
+++ b/session/container.go
@@ -266,6 +266,7 @@ func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions)
 		curr:          c.sess,
 		currGen:       c.gen,
 	}
+	l.ctx, l.cancel = context.WithCancel(context.Background())
 	return l
 }
 
@@ -279,11 +280,14 @@ type link struct {
 
 	container *container
 
+	// ctx ends when the link is closed
+	ctx    context.Context
+	cancel context.CancelFunc
+
 	// attaching is held while attaching to a session
 	attaching chan struct{}
 
 	mu      sync.Mutex
-	closed  bool
 	currGen int
 	curr    *amqp.Session
 	rcvGen  int
@@ -297,12 +301,23 @@ var (
 	errSessionReplaced = errors.New("session replaced")
 )
 
+// opContext returns the context for an operation on the link: it ends with ctx
+// or when the link is closed.
+func (r *link) opContext(ctx context.Context) (context.Context, context.CancelFunc) {
+	ctx, cancel := context.WithCancel(ctx)
+	stop := context.AfterFunc(r.ctx, cancel)
+	return ctx, func() {
+		stop()
+		cancel()
+	}
+}
+
 // awaitSession returns the session to use and its generation.
 func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
 	r.mu.Lock()
-	curr, currGen, closed := r.curr, r.currGen, r.closed
+	curr, currGen := r.curr, r.currGen
 	r.mu.Unlock()
-	if closed {
+	if r.ctx.Err() != nil {
 		return nil, currGen, errLinkClosed
 	}
 	if curr != nil {
@@ -320,31 +335,35 @@ func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
 	return next, nextGen, nil
 }
 
-func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
-	sess, currGen, err := r.awaitSession(ctx)
+func (r *link) withReceiver(ctx context.Context, fn func(ctx context.Context, receiver *amqp.Receiver, generation int) error) error {
+	opCtx, cancel := r.opContext(ctx)
+	defer cancel()
+	sess, currGen, err := r.awaitSession(opCtx)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("session await error: %w", err))
 	}
-	rcv, err := r.getReceiver(ctx, sess, currGen)
+	rcv, err := r.getReceiver(opCtx, sess, currGen)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("receiver create error: %w", err))
 	}
-	if err := fn(rcv, currGen); err != nil {
+	if err := fn(opCtx, rcv, currGen); err != nil {
 		return r.handleError(ctx, currGen, err)
 	}
 	return nil
 }
 
-func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
-	sess, currGen, err := r.awaitSession(ctx)
+func (r *link) withSender(ctx context.Context, fn func(ctx context.Context, sender *amqp.Sender, generation int) error) error {
+	opCtx, cancel := r.opContext(ctx)
+	defer cancel()
+	sess, currGen, err := r.awaitSession(opCtx)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("session await error: %w", err))
 	}
-	snd, err := r.getSender(ctx, sess, currGen)
+	snd, err := r.getSender(opCtx, sess, currGen)
 	if err != nil {
 		return r.handleError(ctx, currGen, fmt.Errorf("sender create error: %w", err))
 	}
-	if err := fn(snd, currGen); err != nil {
+	if err := fn(opCtx, snd, currGen); err != nil {
 		return r.handleError(ctx, currGen, err)
 	}
 	return nil
@@ -353,10 +372,10 @@ func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, gene
 // handleError handles the error of an operation that used the session of the
 // given generation
 func (r *link) handleError(ctx context.Context, gen int, err error) error {
-	if errors.Is(err, ctx.Err()) {
-		return err
+	if r.ctx.Err() != nil {
+		return errLinkClosed
 	}
-	if errors.Is(err, errLinkClosed) {
+	if errors.Is(err, ctx.Err()) {
 		return err
 	}
 	if ctxErr := ctx.Err(); ctxErr != nil {
@@ -369,6 +388,8 @@ func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	}:
 	case <-ctx.Done():
 		return fmt.Errorf("%w: %s", ctx.Err(), err)
+	case <-r.ctx.Done():
+		return errLinkClosed
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
@@ -410,6 +431,10 @@ func (r *link) getReceiver(ctx context.Context, sess *amqp.Session, gen int) (*a
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.ctx.Err() != nil {
+		go rcv.Close(ctx)
+		return nil, errLinkClosed
+	}
 	r.rcv, r.rcvGen = rcv, gen
 	return rcv, nil
 }
@@ -434,6 +459,10 @@ func (r *link) getSender(ctx context.Context, sess *amqp.Session, gen int) (*amq
 	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
+	if r.ctx.Err() != nil {
+		go snd.Close(ctx)
+		return nil, errLinkClosed
+	}
 	r.snd, r.sndGen = snd, gen
 	return snd, nil
 }
@@ -443,7 +472,7 @@ func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 		var (
 			result *amqp.Message
 		)
-		err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
+		err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, _ int) error {
 			msg, err := rcv.Receive(ctx, nil)
 			if err != nil {
 				return fmt.Errorf("receive error: %w", err)
@@ -462,7 +491,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		acceptErr  error
 		generation int
 	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, gen int) error {
+	err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, gen int) error {
 		generation = gen
 		acceptErr = rcv.AcceptMessage(ctx, msg)
 		// accepting messages is a stateful operation, so don't report the error back
@@ -483,7 +512,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	var generation int
-	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
+	err := r.withSender(ctx, func(ctx context.Context, snd *amqp.Sender, gen int) error {
 		generation = gen
 		err := snd.Send(ctx, msg, nil)
 		if err != nil {
@@ -501,13 +530,16 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 }
 
 func (r *link) Close(ctx context.Context) error {
+	r.cancel()
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.closed = true
-	rcv := r.rcv
+	rcv, snd := r.rcv, r.snd
 	r.curr, r.rcv, r.snd = nil, nil, nil
+	r.mu.Unlock()
 	if rcv != nil {
 		return rcv.Close(ctx)
 	}
+	if snd != nil {
+		return snd.Close(ctx)
+	}
 	return nil
 }
-- 
2.43.0


From 724fb69451698b3a65931187d9585f74c81a95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 25/59] fix: deadlines of link operations do not end their
 session

The amqp connection applies the deadline of a context to its writes. It
noticed that a deadline had passed before the context did, so that the link
took that for a failure of the session and had it replaced; exceeding the
deadline during a write even ended the connection.
---
 session/container.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/session/container.go b/session/container.go
index 0f83837..3ebae4d 100644
--- a/session/container.go
+++ b/session/container.go
@@ -302,12 +302,18 @@ var (
 )
 
 // opContext returns the context for an operation on the link: it ends with ctx
-// or when the link is closed.
+// or when the link is closed. It has no deadline of its own as the amqp
+// connection would apply that to its writes, and fail when it is exceeded.
 func (r *link) opContext(ctx context.Context) (context.Context, context.CancelFunc) {
-	ctx, cancel := context.WithCancel(ctx)
-	stop := context.AfterFunc(r.ctx, cancel)
-	return ctx, func() {
+	opCtx, cancel := context.WithCancel(context.WithoutCancel(ctx))
+	stop := context.AfterFunc(ctx, cancel)
+	stopOnClose := context.AfterFunc(r.ctx, cancel)
+	if ctx.Err() != nil {
+		cancel()
+	}
+	return opCtx, func() {
 		stop()
+		stopOnClose()
 		cancel()
 	}
 }
@@ -491,9 +497,12 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		acceptErr  error
 		generation int
 	)
-	err := r.withReceiver(ctx, func(ctx context.Context, rcv *amqp.Receiver, gen int) error {
+	err := r.withReceiver(ctx, func(opCtx context.Context, rcv *amqp.Receiver, gen int) error {
 		generation = gen
-		acceptErr = rcv.AcceptMessage(ctx, msg)
+		acceptErr = rcv.AcceptMessage(opCtx, msg)
+		if ctxErr := ctx.Err(); acceptErr != nil && ctxErr != nil && !errors.Is(acceptErr, ctxErr) {
+			acceptErr = fmt.Errorf("%w: %s", ctxErr, acceptErr)
+		}
 		// accepting messages is a stateful operation, so don't report the error back
 		// to the container and signal a connection teardown
 		return nil
-- 
2.43.0


From 3be14a975819ef5faed46b40fc2cc8e31f60f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 26/59] fix: close connections on which no session can be
 created

---
 session/container.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/container.go b/session/container.go
index 3ebae4d..65e9bed 100644
--- a/session/container.go
+++ b/session/container.go
@@ -176,6 +176,7 @@ func (c *container) Start(ctx context.Context) {
 				}
 				sess, err := conn.NewSession(ctx, nil)
 				if err != nil {
+					conn.Close()
 					return fmt.Errorf("session create error: %s", err)
 				}
 				generation++
-- 
2.43.0


From 01a0acb42412d81e60fdfdd12fc404041658b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 27/59] fix: limit how long connecting may take

A peer that accepted a connection and then stalled kept the container from
ever trying again.
---
 session/container.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/session/container.go b/session/container.go
index 65e9bed..292ba18 100644
--- a/session/container.go
+++ b/session/container.go
@@ -143,6 +143,10 @@ func (c *container) awaitNextSession(ctx context.Context, prev int) (session *am
 	}
 }
 
+// connectTimeout limits how long an attempt to create a connection and session
+// may take.
+const connectTimeout = 30 * time.Second
+
 type sessionErr struct {
 	Generation int
 	Err        error
@@ -170,11 +174,13 @@ func (c *container) Start(ctx context.Context) {
 		b := backoff.WithContext(c.config.BackOff, ctx)
 		err := backoff.RetryNotify(
 			func() error {
-				conn, err := amqp.Dial(ctx, c.address, c.config.toAmqp())
+				connectCtx, cancel := context.WithTimeout(ctx, connectTimeout)
+				defer cancel()
+				conn, err := amqp.Dial(connectCtx, c.address, c.config.toAmqp())
 				if err != nil {
 					return fmt.Errorf("dial error: %s", err)
 				}
-				sess, err := conn.NewSession(ctx, nil)
+				sess, err := conn.NewSession(connectCtx, nil)
 				if err != nil {
 					conn.Close()
 					return fmt.Errorf("session create error: %s", err)
-- 
2.43.0


From cfa9c89951a7b6bec7dfe48d735b2ed63fcb30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 28/59] fix: do not wait for the previous session to close

Until a stalled peer closed the previous session, which may take forever, the
container did not respond to errors on the new one.
---
 session/container.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/session/container.go b/session/container.go
index 292ba18..ba3e3fa 100644
--- a/session/container.go
+++ b/session/container.go
@@ -147,6 +147,9 @@ func (c *container) awaitNextSession(ctx context.Context, prev int) (session *am
 // may take.
 const connectTimeout = 30 * time.Second
 
+// closeTimeout limits how long to wait for the peer to close a session.
+const closeTimeout = 10 * time.Second
+
 type sessionErr struct {
 	Generation int
 	Err        error
@@ -194,8 +197,13 @@ func (c *container) Start(ctx context.Context) {
 
 				prevSessionTeardown()
 				prevSessionTeardown = func() {
-					sess.Close(ctx)
-					conn.Close()
+					// the previous connection may not respond any more
+					go func() {
+						closeCtx, cancel := context.WithTimeout(ctx, closeTimeout)
+						defer cancel()
+						sess.Close(closeCtx)
+						conn.Close()
+					}()
 				}
 
 				for {
-- 
2.43.0


From 597e00905f5236a5773a3ec977969b64b9c8d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 29/59] fix: reset the backoff for operations that succeed
 right before an error

With both an error and reports of success pending either could be chosen.
---
 session/container.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/session/container.go b/session/container.go
index ba3e3fa..b8271db 100644
--- a/session/container.go
+++ b/session/container.go
@@ -216,6 +216,17 @@ func (c *container) Start(ctx context.Context) {
 						}
 					case recvErr := <-c.sessionErrors:
 						if recvErr.Generation == generation {
+							// operations that succeeded before the error
+							for pending := true; pending; {
+								select {
+								case gen := <-c.notifyOK:
+									if gen == generation {
+										b.Reset()
+									}
+								default:
+									pending = false
+								}
+							}
 							return fmt.Errorf("session receiver error: %s", recvErr)
 						}
 					}
-- 
2.43.0


From 18f8e7b78cc1153411743406c7ec835d5164d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 30/59] fix: allow session error handlers to use the container

---
 session/container.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/session/container.go b/session/container.go
index b8271db..f9b3dfb 100644
--- a/session/container.go
+++ b/session/container.go
@@ -128,6 +128,16 @@ func (c *container) OnSessionError(handler func(error)) {
 	c.errorHandlers = append(c.errorHandlers, handler)
 }
 
+// handleSessionError calls the error handlers, which may use the container.
+func (c *container) handleSessionError(err error) {
+	c.mu.Lock()
+	handlers := append([]func(error){}, c.errorHandlers...)
+	c.mu.Unlock()
+	for _, handler := range handlers {
+		handler(err)
+	}
+}
+
 func (c *container) awaitNextSession(ctx context.Context, prev int) (session *amqp.Session, gen int, err error) {
 	c.mu.Lock()
 	session, gen, hasNext := c.sess, c.gen, c.hasNext
@@ -235,11 +245,7 @@ func (c *container) Start(ctx context.Context) {
 			b,
 			func(err error, d time.Duration) {
 				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
-					handler(wErr)
-				}
-				c.mu.Unlock()
+				c.handleSessionError(wErr)
 			},
 		)
 		defer prevSessionTeardown()
@@ -248,11 +254,7 @@ func (c *container) Start(ctx context.Context) {
 				return
 			}
 			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
-				handler(wErr)
-			}
+			c.handleSessionError(wErr)
 		}
 	}()
 }
-- 
2.43.0


From 0e787ab0baf518c13744fb4b5eff7360d44036f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 31/59] fix: receiving returns the error of the context that
 ended it

---
 session/container.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index f9b3dfb..b9083d3 100644
--- a/session/container.go
+++ b/session/container.go
@@ -514,9 +514,15 @@ func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
 			result = msg
 			return nil
 		})
-		if err == nil || errors.Is(err, errLinkClosed) || ctx.Err() != nil {
+		if err == nil || errors.Is(err, errLinkClosed) {
 			return result, err
 		}
+		if ctxErr := ctx.Err(); ctxErr != nil {
+			if !errors.Is(err, ctxErr) {
+				err = fmt.Errorf("%w: %s", ctxErr, err)
+			}
+			return nil, err
+		}
 	}
 }
 
-- 
2.43.0


From dc984af7a74f77a48fca333392fba0a7ca4fe99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 32/59] fix: sends return when their context ends whatever the
 connection does

While the connection took no more frames, a send did not return. A send
interrupted between the frames of a message left the link in the middle of that
message, so that the next one was taken for its continuation.
---
 session/container.go | 57 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/session/container.go b/session/container.go
index b9083d3..7d41f57 100644
--- a/session/container.go
+++ b/session/container.go
@@ -327,6 +327,7 @@ type link struct {
 var (
 	errLinkClosed      = errors.New("link closed")
 	errSessionReplaced = errors.New("session replaced")
+	errSenderDiscarded = errors.New("sender replaced after an interrupted send")
 )
 
 // opContext returns the context for an operation on the link: it ends with ctx
@@ -415,6 +416,9 @@ func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	if ctxErr := ctx.Err(); ctxErr != nil {
 		return fmt.Errorf("%w: %s", ctxErr, err)
 	}
+	if errors.Is(err, errSenderDiscarded) {
+		return err
+	}
 	select {
 	case r.sessionErrors <- sessionErr{
 		Generation: gen,
@@ -557,11 +561,25 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	var generation int
 	err := r.withSender(ctx, func(ctx context.Context, snd *amqp.Sender, gen int) error {
 		generation = gen
-		err := snd.Send(ctx, msg, nil)
-		if err != nil {
-			return fmt.Errorf("send error: %w", err)
+		// sending does not heed the context while the connection does not take
+		// the message
+		sent := make(chan error, 1)
+		go func() { sent <- snd.Send(ctx, msg, nil) }()
+		var err error
+		select {
+		case err = <-sent:
+		case <-ctx.Done():
+			err = ctx.Err()
 		}
-		return nil
+		if err == nil {
+			return nil
+		}
+		if ctx.Err() != nil {
+			r.discardSender(snd, msg)
+		} else if r.discarded(snd, gen) {
+			return fmt.Errorf("send error: %w: %s", errSenderDiscarded, err)
+		}
+		return fmt.Errorf("send error: %w", err)
 	})
 	if err == nil {
 		select {
@@ -572,6 +590,37 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	return err
 }
 
+// maxSingleFrame is the size up to which every peer has to take a message in a
+// single frame: the least maximum frame size less the transfer's fields.
+const maxSingleFrame = 512 - 128
+
+// discardSender has the sender replaced when an interrupted send may have left
+// it in the middle of the message.
+func (r *link) discardSender(snd *amqp.Sender, msg *amqp.Message) {
+	if data, err := msg.MarshalBinary(); err != nil || len(data) <= maxSingleFrame {
+		return
+	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.snd != snd {
+		return
+	}
+	r.snd = nil
+	go func() {
+		ctx, cancel := context.WithTimeout(context.Background(), closeTimeout)
+		defer cancel()
+		snd.Close(ctx)
+	}()
+}
+
+// discarded returns whether the sender was discarded rather than the session
+// it belongs to replaced.
+func (r *link) discarded(snd *amqp.Sender, gen int) bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.curr != nil && r.currGen == gen && r.snd != snd
+}
+
 func (r *link) Close(ctx context.Context) error {
 	r.cancel()
 	r.mu.Lock()
-- 
2.43.0


From abf816c8d45f2762bef8f4082d66719eafa795df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 33/59] fix: replace senders that do not return from an
 interrupted send

An interrupted send on a connection that is lost at the same time may never
return, and hold up every later send on the link.
---
 session/container.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/session/container.go b/session/container.go
index 7d41f57..196d5b2 100644
--- a/session/container.go
+++ b/session/container.go
@@ -570,12 +570,23 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 		case err = <-sent:
 		case <-ctx.Done():
 			err = ctx.Err()
+			go func() {
+				// until it returns it holds up later sends, which can be for good
+				select {
+				case <-sent:
+				case <-time.After(interruptTimeout):
+					r.discardSender(snd)
+				}
+			}()
 		}
 		if err == nil {
 			return nil
 		}
 		if ctx.Err() != nil {
-			r.discardSender(snd, msg)
+			// it may have been left in the middle of the message
+			if data, err := msg.MarshalBinary(); err == nil && len(data) > maxSingleFrame {
+				r.discardSender(snd)
+			}
 		} else if r.discarded(snd, gen) {
 			return fmt.Errorf("send error: %w: %s", errSenderDiscarded, err)
 		}
@@ -594,18 +605,17 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 // single frame: the least maximum frame size less the transfer's fields.
 const maxSingleFrame = 512 - 128
 
-// discardSender has the sender replaced when an interrupted send may have left
-// it in the middle of the message.
-func (r *link) discardSender(snd *amqp.Sender, msg *amqp.Message) {
-	if data, err := msg.MarshalBinary(); err != nil || len(data) <= maxSingleFrame {
-		return
-	}
+// interruptTimeout limits how long an interrupted send may take to return
+// before the sender is replaced.
+const interruptTimeout = time.Second
+
+// discardSender has the sender replaced.
+func (r *link) discardSender(snd *amqp.Sender) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.snd != snd {
-		return
+	if r.snd == snd {
+		r.snd = nil
 	}
-	r.snd = nil
+	r.mu.Unlock()
 	go func() {
 		ctx, cancel := context.WithTimeout(context.Background(), closeTimeout)
 		defer cancel()
-- 
2.43.0


From 4ab6e3a9af3e05c61e8c002e484e6ccec883371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 34/59] fix: ignore flows whose counterflow was not captured

---
 cmd/vanflow-tool/fixture.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..54a9d0e 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -213,6 +213,10 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	var flowPairs []flowPair
 	for serverID, clientID := range flowPairsIDs {
+		if _, ok := flowEntries[clientID]; !ok {
+			slog.Info("ignoring flow without its counterflow", slog.String("flow", serverID), slog.String("counterflow", clientID))
+			continue
+		}
 		flowPairs = append(flowPairs, flowPair{
 			Server: flowEntries[serverID],
 			Client: flowEntries[clientID],
-- 
2.43.0


From b50f0c934c5593ef7551771238b829bb730c72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 35/59] fix: refuse flow requests that cannot be served

---
 cmd/vanflow-tool/fixture.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 54a9d0e..36b5071 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -183,6 +183,9 @@ func (f *fixtureServer) ServeFixture(rw http.ResponseWriter, r *http.Request) {
 	enc.Encode(response)
 }
 
+// maxFlows that can be requested at a time
+const maxFlows = 1000000
+
 type flowPair struct {
 	Server store.Entry
 	Client store.Entry
@@ -238,6 +241,11 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 			json.NewEncoder(rw).Encode(request)
 			return
 		}
+		if request.Flows < 0 || request.Flows > maxFlows {
+			rw.WriteHeader(http.StatusBadRequest)
+			fmt.Fprintf(rw, "Bad request: flows must be between 0 and %d\n", maxFlows)
+			return
+		}
 
 		for _, pair := range flowPairs {
 			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
-- 
2.43.0


From d4ea4cf544786452931d363d923001905196c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 36/59] fix: keep all records of a source captured with
 different references

---
 cmd/vanflow-tool/fixture.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 36b5071..abea9e1 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -378,8 +378,15 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 	}
 
 	entries := map[store.SourceRef][]store.Entry{}
+	refsByName := map[string]store.SourceRef{}
 	for _, partial := range request.Data {
-		src := partial.Meta.Source
+		// a source is identified by its name. It may have been captured with
+		// different types or versions.
+		src, ok := refsByName[partial.Meta.Source.Name]
+		if !ok {
+			src = partial.Meta.Source
+			refsByName[src.Name] = src
+		}
 		rtype, ok := recordTypeMap[partial.TypeMeta]
 		if !ok {
 			slog.Warn("ignoring record type not configured", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
-- 
2.43.0


From cd9cbc900546fbb6c0ca3f4b2e063703517c5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 37/59] fix: leave records without an identity out of fixtures

---
 cmd/vanflow-tool/fixture.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index abea9e1..6edb5dd 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -397,6 +397,10 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 			slog.Error("failed to unmarshal record", "error", err)
 			continue
 		}
+		if record.(vanflow.Record).Identity() == "" {
+			slog.Error("ignoring record without an identity", "TypeMeta", partial.TypeMeta)
+			continue
+		}
 		entry := store.Entry{
 			Meta:     partial.Meta,
 			TypeMeta: partial.TypeMeta,
-- 
2.43.0


From aa3aa92b838d2aebf9b6796a2641143c52456107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 38/59] fix: serving a flow request does not hold up other
 requests

---
 cmd/vanflow-tool/fixture.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 6edb5dd..681a5de 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -194,8 +194,9 @@ type flowPair struct {
 func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	stores := map[string]store.Interface{}
 	f.lock.Lock()
-	defer f.lock.Unlock()
-	for id, manager := range f.managers {
+	managers := f.managers
+	f.lock.Unlock()
+	for id, manager := range managers {
 		stores[id] = manager.Stores[0]
 	}
 	flowEntries := make(map[string]store.Entry)
@@ -248,15 +249,18 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		}
 
 		for _, pair := range flowPairs {
-			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
+			go f.fakeFlow(pair, managers[pair.Server.Meta.Source.Name], managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
 	}
+	f.lock.Lock()
+	flowsProcessed := f.flowsProcessed
+	f.lock.Unlock()
 	var response = struct {
 		FlowPairs     []flowPair `json:"flowPairs"`
 		FlowsReplayed int        `json:"fixtureFlowsResent"`
 	}{
 		FlowPairs:     flowPairs,
-		FlowsReplayed: f.flowsProcessed,
+		FlowsReplayed: flowsProcessed,
 	}
 	if err := json.NewEncoder(rw).Encode(response); err != nil {
 		slog.Error("error writing response", slog.Any("error", err))
-- 
2.43.0


From 442a9be75d17776a2c06253a96f20c2d0d43dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 39/59] fix: serve the other records when one cannot be encoded

---
 cmd/vanflow-tool/serve.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 55db735..cacf942 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -71,7 +71,7 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 			response.Error = err.Error()
 		}
 		response.Data = out.Entries
-		enc.Encode(response)
+		encodeRecords(enc, response)
 	})
 
 	sources := &sync.Map{}
@@ -104,7 +104,7 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 				response.Error = err.Error()
 			}
 			response.Data = out.Entries
-			enc.Encode(response)
+			encodeRecords(enc, response)
 		})
 	}
 
@@ -202,6 +202,26 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 	wg.Wait()
 }
 
+// encodeRecords leaves out entries that cannot be represented in JSON (such as
+// those with times past the year 9999) so that the others are served.
+func encodeRecords(enc *json.Encoder, response RecordsResponse) {
+	if err := enc.Encode(response); err == nil {
+		return
+	}
+	var entries []store.Entry
+	for _, entry := range response.Data {
+		if _, err := json.Marshal(entry); err != nil {
+			slog.Error("leaving out record that cannot be encoded", slog.String("type", entry.TypeMeta.String()), slog.Any("error", err))
+			continue
+		}
+		entries = append(entries, entry)
+	}
+	response.Data = entries
+	if err := enc.Encode(response); err != nil {
+		slog.Error("error writing response", slog.Any("error", err))
+	}
+}
+
 func newFixtureStore() store.Interface {
 	keyByTypeAndID := func(obj store.Entry) (string, error) {
 		return fmt.Sprintf("%s/%s", obj.TypeMeta.String(), obj.Record.Identity()), nil
-- 
2.43.0


From 3e32de34d43a4d1ff6869de0017b330e0030dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 40/59] fix: containers of the tool do not share a backoff

---
 cmd/vanflow-tool/main.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index af34975..c037d6f 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -120,12 +120,10 @@ func main() {
 		sasl = session.SASLTypeExternal
 	}
 
-	containerBackoff := backoff.NewExponentialBackOff()
-	containerBackoff.MaxElapsedTime = 60 * time.Second
-	factory := session.NewContainerFactory(connURL, session.ContainerConfig{
-		TLSConfig: tlsCfg, SASLType: sasl,
-		BackOff: containerBackoff,
-	})
+	factory := containerFactory{
+		address: connURL,
+		config:  session.ContainerConfig{TLSConfig: tlsCfg, SASLType: sasl},
+	}
 
 	var cmdHandler func(context.Context, session.ContainerFactory)
 	switch name := flags.Arg(0); name {
@@ -147,6 +145,20 @@ func main() {
 	cmdHandler(ctx, factory)
 }
 
+// containerFactory creates containers that each have a backoff of their own
+type containerFactory struct {
+	address string
+	config  session.ContainerConfig
+}
+
+func (f containerFactory) Create() session.Container {
+	cfg := f.config
+	containerBackoff := backoff.NewExponentialBackOff()
+	containerBackoff.MaxElapsedTime = 60 * time.Second
+	cfg.BackOff = containerBackoff
+	return session.NewContainer(f.address, cfg)
+}
+
 type tlsConfig struct {
 	CA     string `json:"ca,omitempty"`
 	Cert   string `json:"cert,omitempty"`
-- 
2.43.0


From d782d3b692c505b489dcea3ca01a4a01990d3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 41/59] fix: request the records of a source again when that
 failed

---
 cmd/vanflow-tool/serve.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index cacf942..569638b 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -168,9 +168,14 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 				if err != nil && errors.Is(err, flushCtx.Err()) {
 					err = client.SendFlush(ctx)
 				}
-				if err != nil {
+				for err != nil {
 					slog.Error("failed to send FLUSH to source", slog.Any("error", err))
-					return
+					select {
+					case <-ctx.Done():
+						return
+					case <-time.After(time.Second):
+					}
+					err = client.SendFlush(ctx)
 				}
 				slog.Debug("flush sent", slog.Any("source", source))
 			}()
-- 
2.43.0


From 8cc2be2b3e77bcc25a7990964d883f39343186c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 42/59] fix: entries left out of a fixture do not describe its
 sources

---
 cmd/vanflow-tool/fixture.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 681a5de..e12fa1f 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -384,13 +384,6 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 	entries := map[store.SourceRef][]store.Entry{}
 	refsByName := map[string]store.SourceRef{}
 	for _, partial := range request.Data {
-		// a source is identified by its name. It may have been captured with
-		// different types or versions.
-		src, ok := refsByName[partial.Meta.Source.Name]
-		if !ok {
-			src = partial.Meta.Source
-			refsByName[src.Name] = src
-		}
 		rtype, ok := recordTypeMap[partial.TypeMeta]
 		if !ok {
 			slog.Warn("ignoring record type not configured", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
@@ -410,6 +403,13 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 			TypeMeta: partial.TypeMeta,
 			Record:   record.(vanflow.Record),
 		}
+		// a source is identified by its name. It may have been captured with
+		// different types or versions.
+		src, ok := refsByName[partial.Meta.Source.Name]
+		if !ok {
+			src = partial.Meta.Source
+			refsByName[src.Name] = src
+		}
 		entries[src] = append(entries[src], entry)
 	}
 	return entries
-- 
2.43.0


From f32c85352596600c9e847d5612a827fcd3c865b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 43/59] fix: vancap reports a deployment without pods instead
 of panicking

---
 vancap/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vancap/main.go b/vancap/main.go
index 1d49559..965a770 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -196,6 +196,9 @@ func (v Vancap) Run(ctx context.Context) error {
 	if err != nil {
 		return fmt.Errorf("failed to find deployment pod: %s", err)
 	}
+	if len(pods.Items) == 0 {
+		return fmt.Errorf("failed to find deployment pod: deployment %q has no pods", deployment.Name)
+	}
 	first := pods.Items[0].Name
 
 	slog.Info("deployment started. waiting for vanflow state to accumulate.", slog.String("delay", v.Duration.String()))
-- 
2.43.0


From 5bdbfea34fb18797dde65a0cee52fbdc3b54f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 44/59] fix: vancap forwards ports through the API server of
 its configuration

---
 vancap/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 965a770..4cd7c42 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -7,10 +7,8 @@ import (
 	"io"
 	"log/slog"
 	"net/http"
-	"net/url"
 	"os"
 	"os/signal"
-	"strings"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -214,11 +212,14 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("failed to create round tripper: %s", err)
 	}
 
-	path := fmt.Sprintf("/api/v1/namespaces/%s/pods/%s/portforward", v.Namespace, first)
-	hostIP := strings.TrimLeft(v.Restcfg.Host, "htps:/")
-	serverURL := url.URL{Scheme: "https", Path: path, Host: hostIP}
+	serverURL := v.Client.CoreV1().RESTClient().Post().
+		Resource("pods").
+		Namespace(v.Namespace).
+		Name(first).
+		SubResource("portforward").
+		URL()
 
-	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, &serverURL)
+	dialer := spdy.NewDialer(upgrader, &http.Client{Transport: roundTripper}, http.MethodPost, serverURL)
 	stopChan, readyChan := make(chan struct{}, 1), make(chan struct{}, 1)
 	defer close(stopChan)
 	pOut, pErr := io.Discard, io.Discard
-- 
2.43.0


From 16bb00a1e71e29d6a7c628cfa2173a12833bc865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 45/59] fix: vancap does not take an error response for a
 capture

---
 vancap/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vancap/main.go b/vancap/main.go
index 4cd7c42..c809dd7 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -257,6 +257,9 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("error requesting vanflow capture: %s", err)
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return fmt.Errorf("error requesting vanflow capture: unexpected response %q", resp.Status)
+	}
 
 	slog.Debug("writing capture file", slog.String("name", v.Destination))
 	fLen, err := io.Copy(f, resp.Body)
-- 
2.43.0


From dda01f2caf15e608f99db9bbeecffb4c3e15721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 46/59] fix: vancap requests the capture through its own port
 forward only

---
 vancap/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index c809dd7..42aca06 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -226,7 +226,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	if Debug {
 		pOut, pErr = os.Stdout, os.Stderr
 	}
-	forwarder, err := portforward.New(dialer, []string{"9090"}, stopChan, readyChan, pOut, pErr)
+	forwarder, err := portforward.NewOnAddresses(dialer, []string{"127.0.0.1"}, []string{"0:9090"}, stopChan, readyChan, pOut, pErr)
 	if err != nil {
 		return fmt.Errorf("failed to create port forwarder: %s", err)
 	}
@@ -245,13 +245,19 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("vancap port forward error: %s", err)
 	}
 
+	ports, err := forwarder.GetPorts()
+	if err != nil {
+		return fmt.Errorf("vancap port forward error: %s", err)
+	}
+	captureURL := fmt.Sprintf("http://127.0.0.1:%d", ports[0].Local)
+
 	f, err := os.Create(v.Destination)
 	if err != nil {
 		return fmt.Errorf("failed to create output file: %s", err)
 	}
 	defer f.Close()
 	slog.Debug("requesting vanflow capture")
-	req, _ := http.NewRequestWithContext(ctx, http.MethodGet, "http://127.0.0.1:9090", nil)
+	req, _ := http.NewRequestWithContext(ctx, http.MethodGet, captureURL, nil)
 	resp, err := http.DefaultClient.Do(req)
 	if err != nil {
 		return fmt.Errorf("error requesting vanflow capture: %s", err)
-- 
2.43.0


From 6e6146ae8a00d6c5b81dec269dfaeaaad206ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 47/59] fix: vancap does not share an error variable with the
 port forwarder

---
 vancap/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 42aca06..5254b64 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -233,7 +233,7 @@ func (v Vancap) Run(ctx context.Context) error {
 	forwardErr := make(chan error, 1)
 	go func() {
 		slog.Debug("starting port forward to capture vanflow state")
-		if err = forwarder.ForwardPorts(); err != nil {
+		if err := forwarder.ForwardPorts(); err != nil {
 			forwardErr <- err
 		}
 	}()
-- 
2.43.0


From 6af685e0b1a71ea21b5bde6604efb98fdeaaa45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 48/59] fix: vancap does not leave a deployment behind when
 interrupted while creating it

---
 vancap/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vancap/main.go b/vancap/main.go
index 5254b64..636dbb9 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -157,7 +157,11 @@ func (v Vancap) Run(ctx context.Context) error {
 
 	// Create Deployment
 	slog.Info("creating deployment...")
-	_, err = deploymentsClient.Create(ctx, deployment, metav1.CreateOptions{})
+	// not interrupted, as it could then not be known if there is a deployment to
+	// clean up.
+	createCtx, cancelCreate := context.WithTimeout(context.WithoutCancel(ctx), time.Second*10)
+	defer cancelCreate()
+	_, err = deploymentsClient.Create(createCtx, deployment, metav1.CreateOptions{})
 	if err != nil {
 		return fmt.Errorf("error creating deployment: %s", err)
 	}
-- 
2.43.0


From bb8888c6fcf45f5bed3307218456bc0994890e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 49/59] fix: refuse to merge records of different types

A partial record whose identity is that of a stored record of another type
turned the stored record into one of its own type, dropping the attributes the
type does not have, while the entry kept its type metadata.
---
 store/patcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/patcher.go b/store/patcher.go
index ec50bf7..38e3efb 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -36,6 +36,9 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	if err != nil {
 		return next, fmt.Errorf("error encoding incoming record for comparison: %w", err)
 	}
+	if currType, nextType := entry.Record.GetTypeMeta(), p.Record.GetTypeMeta(); currType != nextType {
+		return next, fmt.Errorf("cannot merge record of type %s into record of type %s", nextType, currType)
+	}
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-- 
2.43.0


From fc7fd0e9f7f8b6890ed2ccc6d6235f90bb279106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 50/59] fix: attributes of named string and integer types
 survive the wire

Fields of a type like "type Mode string" can be registered, but were encoded
to values of that type, which AMQP cannot marshal, and refused the plain value
when decoding.
---
 encoding/decoder.go |  4 ++--
 encoding/encoder.go | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b11072a..57eb009 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -100,10 +100,10 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 	if !attrV.IsValid() {
 		return fmt.Errorf("cannot assign null to type")
 	}
-	if !v.Type().AssignableTo(attrV.Type()) {
+	if attrV.Type() != v.Type() && attrV.Type() != rawTypes[v.Kind()] {
 		return fmt.Errorf("cannot assign value to type")
 	}
-	v.Set(attrV)
+	v.Set(attrV.Convert(v.Type()))
 	return nil
 }
 
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 77d8f3c..b02f40b 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -83,6 +83,15 @@ func getFieldEncoder(t reflect.Type) (fieldEncoder, error) {
 	}
 }
 
+// rawTypes are the types of the attributes that raw fields are encoded to.
+var rawTypes = map[reflect.Kind]reflect.Type{
+	reflect.String: reflect.TypeOf(""),
+	reflect.Uint64: reflect.TypeOf(uint64(0)),
+	reflect.Int64:  reflect.TypeOf(int64(0)),
+	reflect.Uint32: reflect.TypeOf(uint32(0)),
+	reflect.Int32:  reflect.TypeOf(int32(0)),
+}
+
 type rawFieldEncoder struct {
 }
 
@@ -90,7 +99,11 @@ func (e rawFieldEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsZero() {
 		return nil, ErrAttributeNotSet
 	}
-	return v.Interface(), nil
+	return e.value(v), nil
+}
+
+func (e rawFieldEncoder) value(v reflect.Value) interface{} {
+	return v.Convert(rawTypes[v.Kind()]).Interface()
 }
 
 type pointerEncoder struct {
@@ -101,9 +114,9 @@ func (e pointerEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsNil() {
 		return nil, ErrAttributeNotSet
 	}
-	if _, ok := e.sub.(rawFieldEncoder); ok {
+	if raw, ok := e.sub.(rawFieldEncoder); ok {
 		// a non-nil pointer is set, even when it points to a zero value
-		return v.Elem().Interface(), nil
+		return raw.value(v.Elem()), nil
 	}
 	return e.sub.encode(v.Elem())
 }
-- 
2.43.0


From 8f1f1d7fe70e40951f7369f348c0c5f9493800a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 51/59] fix: tagged embedded fields are attributes

They were accepted when registering the record type and then left out when
encoding and decoding.
---
 encoding/encoding.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 53ef7c3..f1de6d5 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -189,8 +189,9 @@ func fieldsForType(t reflect.Type, index []int) []field {
 		next := make([]int, len(index)+1)
 		copy(next, index)
 		next[len(next)-1] = i
-		// Include fields from embedded structs
-		if f.Anonymous {
+		// Include fields from embedded structs. Embedded fields that have a
+		// tag are attributes of their own.
+		if f.Anonymous && f.Tag.Get(vflowTag) == "" {
 			if f.Type.Kind() == reflect.Struct {
 				fields = append(fields, fieldsForType(f.Type, next)...)
 			}
-- 
2.43.0


From 4d02c21c910cea5fb00abafd64c76ab09ac65ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 52/59] fix: compare attributes that have no equality operator

An attribute that encodes itself as a list, a map or binary made accumulating
a partial record and publishing an update panic.
---
 eventsource/manager.go | 3 ++-
 store/patcher.go       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 059a9bc..9230bfe 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"log/slog"
 	"math"
+	"reflect"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -122,7 +123,7 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 			delta[k] = next[k]
 			continue
 		}
-		if next[k] != pv {
+		if !reflect.DeepEqual(next[k], pv) {
 			isDiff = true
 			delta[k] = next[k]
 		}
diff --git a/store/patcher.go b/store/patcher.go
index 38e3efb..2297c93 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -2,6 +2,7 @@ package store
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/c-kruse/vanflow"
@@ -42,7 +43,7 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-		if !ok || cV != nV {
+		if !ok || !reflect.DeepEqual(cV, nV) {
 			changed = true
 			currAttrs[nK] = nV
 		}
-- 
2.43.0


From 36d4812dc09bb91d13c2c5ff9c74183305b5bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 53/59] fix: use the TLS settings of vanflow-tool given without
 a certificate or CA

With only -ca the CA was ignored, and with amqps the system's
certificate authorities were trusted instead. Likewise a connect.json
with a certificate and without a CA lost its certificate.
---
 cmd/vanflow-tool/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index c037d6f..38e4ccd 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -89,7 +89,7 @@ func main() {
 			flags.Usage()
 			os.Exit(1)
 		}
-		if cfg.Tls.CA != "" {
+		if cfg.Tls.CA != "" || cfg.Tls.Cert != "" {
 			tlsCfg, err = cfg.Tls.Parse()
 			if err != nil {
 				fmt.Printf("error: could not parse tls config in messaging-config %s\n", err)
@@ -100,7 +100,7 @@ func main() {
 		connURL = fmt.Sprintf("%s://%s:%s", cfg.Scheme, cfg.Host, cfg.Port)
 	}
 
-	if TLSCert != "" {
+	if TLSCACert != "" || TLSCert != "" {
 		var err error
 		tlsCfg, err = tlsConfig{
 			CA:     TLSCACert,
-- 
2.43.0


From 9b0ea4d5d90e57ddd1dee4d57501c04b5d6c8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 54/59] fix: clean up a deployment whose creation was not
 confirmed

When the response to the creation of the deployment was lost vancap
ended without deleting the deployment it had created.
---
 vancap/main.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/vancap/main.go b/vancap/main.go
index 636dbb9..aba4ae7 100644
--- a/vancap/main.go
+++ b/vancap/main.go
@@ -15,6 +15,7 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	apiv1 "k8s.io/api/core/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
+	"k8s.io/apimachinery/pkg/util/uuid"
 	"k8s.io/client-go/kubernetes"
 	"k8s.io/client-go/rest"
 	"k8s.io/client-go/tools/clientcmd"
@@ -100,9 +101,12 @@ func (v Vancap) Run(ctx context.Context) error {
 		return fmt.Errorf("skupper not installed in namespace %q: %s", v.Namespace, err)
 	}
 
+	const runAnnotation = "vancap/run"
+	run := string(uuid.NewUUID())
 	deployment := &appsv1.Deployment{
 		ObjectMeta: metav1.ObjectMeta{
-			Name: "vanflow-server",
+			Name:        "vanflow-server",
+			Annotations: map[string]string{runAnnotation: run},
 		},
 		Spec: appsv1.DeploymentSpec{
 			Selector: &metav1.LabelSelector{
@@ -162,19 +166,26 @@ func (v Vancap) Run(ctx context.Context) error {
 	createCtx, cancelCreate := context.WithTimeout(context.WithoutCancel(ctx), time.Second*10)
 	defer cancelCreate()
 	_, err = deploymentsClient.Create(createCtx, deployment, metav1.CreateOptions{})
-	if err != nil {
-		return fmt.Errorf("error creating deployment: %s", err)
-	}
-
+	createErr := err
 	defer func() {
 		cleanupCtx, cancel := context.WithTimeout(context.Background(), time.Second*3)
 		defer cancel()
+		if createErr != nil {
+			// it may have been created all the same when only the response was lost
+			found, err := deploymentsClient.Get(cleanupCtx, deployment.Name, metav1.GetOptions{})
+			if err != nil || found.Annotations[runAnnotation] != run {
+				return
+			}
+		}
 		if err := deploymentsClient.Delete(cleanupCtx, deployment.Name, metav1.DeleteOptions{}); err != nil {
 			slog.Error("error cleaning up deployment", slog.String("name", deployment.Name), slog.Any("error", err))
 			return
 		}
 		slog.Info("deployment deleted.", slog.String("name", deployment.Name))
 	}()
+	if createErr != nil {
+		return fmt.Errorf("error creating deployment: %s", createErr)
+	}
 
 	b := backoff.WithContext(backoff.NewExponentialBackOff(), ctx)
 	var dep *appsv1.Deployment
-- 
2.43.0


From 0e5bb0f911cb308066e03eb86fccd4f14e95b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:57 +0000
Subject: [PATCH 55/59] fix: log requests the records of a source again when
 that failed

---
 cmd/vanflow-tool/log.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 9df3dbe..537f86a 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -78,9 +78,14 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 					if err != nil && errors.Is(err, flushCtx.Err()) {
 						err = client.SendFlush(ctx)
 					}
-					if err != nil {
+					for err != nil {
 						slog.Error("failed to send FLUSH to source", slog.Any("error", err))
-						return
+						select {
+						case <-ctx.Done():
+							return
+						case <-time.After(time.Second):
+						}
+						err = client.SendFlush(ctx)
 					}
 					slog.Debug("flush sent", slog.Any("source", source))
 				}()
-- 
2.43.0


From 7c015425272302c77281dc56f63d2f192c3a136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:16 +0000
Subject: [PATCH 56/59] fix: match the whole entity tag

A tag with another time stamp, with trailing bytes or with the version zero of
an entry that does not exist matched as well.
---
 store/etag.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/store/etag.go b/store/etag.go
index 0614a96..1edaceb 100644
--- a/store/etag.go
+++ b/store/etag.go
@@ -61,5 +61,15 @@ func getConditional(ctx context.Context) (internal.Cond[Entry], error) {
 	if err != nil {
 		return nil, err
 	}
-	return internal.WhenVersionMatches[Entry](token.Version), nil
+	versionMatches := internal.WhenVersionMatches[Entry](token.Version)
+	return func(curr internal.VersionContainer[Entry]) error {
+		if err := versionMatches(curr); err != nil {
+			return err
+		}
+		// must be the very tag that the present entry has
+		if curr.Version == 0 || getETag(curr) != string(etag) {
+			return internal.ErrVersionMismatch
+		}
+		return nil
+	}, nil
 }
-- 
2.43.0


From 2c70db33f93d1478bf0ecc7a1f700bd83e6cfb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:02 +0000
Subject: [PATCH 57/59] fix: do not let another message follow an interrupted
 one in the middle

Sends of multiple frames that are interrupted are left incomplete until the
sender is closed. Another send waiting for the same sender could begin in
between, so that the peer saw the next delivery begin before the previous one
was complete. Interrupted sends of multiple frames now keep the sender until
closing it ends them.
---
 session/container.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/session/container.go b/session/container.go
index 196d5b2..7b7093a 100644
--- a/session/container.go
+++ b/session/container.go
@@ -561,15 +561,25 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 	var generation int
 	err := r.withSender(ctx, func(ctx context.Context, snd *amqp.Sender, gen int) error {
 		generation = gen
+		sendCtx := ctx
+		data, err := msg.MarshalBinary()
+		multiFrame := err == nil && len(data) > maxSingleFrame
+		if multiFrame {
+			// must not be left in the middle of the message for the next one to
+			// follow, so it only ends with the sender
+			sendCtx = context.WithoutCancel(ctx)
+		}
 		// sending does not heed the context while the connection does not take
 		// the message
 		sent := make(chan error, 1)
-		go func() { sent <- snd.Send(ctx, msg, nil) }()
-		var err error
+		go func() { sent <- snd.Send(sendCtx, msg, nil) }()
 		select {
 		case err = <-sent:
 		case <-ctx.Done():
 			err = ctx.Err()
+			if multiFrame {
+				break
+			}
 			go func() {
 				// until it returns it holds up later sends, which can be for good
 				select {
@@ -583,8 +593,7 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 			return nil
 		}
 		if ctx.Err() != nil {
-			// it may have been left in the middle of the message
-			if data, err := msg.MarshalBinary(); err == nil && len(data) > maxSingleFrame {
+			if multiFrame {
 				r.discardSender(snd)
 			}
 		} else if r.discarded(snd, gen) {
-- 
2.43.0


From 94815387885a5878695e80cce9b1dc8ba55d2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:53 +0000
Subject: [PATCH 58/59] fix: end what was started for a source when it is
 forgotten

The collector and the logger kept a connection, and where its flush had
failed also a loop of attempts to send it, for every source that was ever
discovered.
---
 cmd/vanflow-tool/log.go   | 8 ++++++++
 cmd/vanflow-tool/serve.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 537f86a..62cd41e 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -52,10 +52,14 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 		slog.Error("container session error", slog.Any("error", err))
 	})
 
+	// ends what is done for a source; handlers are called one at a time.
+	stopSource := make(map[string]context.CancelFunc)
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", "source", source)
+			ctx, cancel := context.WithCancel(ctx)
+			stopSource[source.ID] = cancel
 			ctr := factory.Create()
 			ctr.Start(ctx)
 			client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
@@ -111,6 +115,10 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", "source", source)
+			if stop, ok := stopSource[source.ID]; ok {
+				stop()
+				delete(stopSource, source.ID)
+			}
 		},
 	})
 	enc := json.NewEncoder(os.Stdout)
diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 569638b..c96aa60 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -118,10 +118,14 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		}
 		slog.Error("container session error", slog.Any("error", err))
 	})
+	// ends what is done for a source; handlers are called one at a time.
+	stopSource := make(map[string]context.CancelFunc)
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", slog.Any("source", source))
+			ctx, cancel := context.WithCancel(ctx)
+			stopSource[source.ID] = cancel
 			ctr := factory.Create()
 			ctr.Start(ctx)
 			ctr.OnSessionError(func(err error) {
@@ -182,6 +186,10 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", slog.Any("source", source))
+			if stop, ok := stopSource[source.ID]; ok {
+				stop()
+				delete(stopSource, source.ID)
+			}
 			sources.Delete(source.ID)
 		},
 	})
-- 
2.43.0


From cb3dca067a43b2204eb3bd9da15c6a83e60cbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:03 +0000
Subject: [PATCH 59/59] fix: do not count the time a session lasted against the
 backoff

A container whose backoff gives up after some elapsed time gave up at the
first loss of a connection that had been idle for longer than that.
---
 session/container.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index 7b7093a..c394843 100644
--- a/session/container.go
+++ b/session/container.go
@@ -157,6 +157,10 @@ func (c *container) awaitNextSession(ctx context.Context, prev int) (session *am
 // may take.
 const connectTimeout = 30 * time.Second
 
+// stableSession is how long a session has to last to be taken for one that
+// works, even if nothing was sent or accepted on it.
+const stableSession = 30 * time.Second
+
 // closeTimeout limits how long to wait for the peer to close a session.
 const closeTimeout = 10 * time.Second
 
@@ -216,12 +220,14 @@ func (c *container) Start(ctx context.Context) {
 					}()
 				}
 
+				started, worked := time.Now(), false
 				for {
 					select {
 					case <-ctx.Done():
 						return ctx.Err()
 					case gen := <-c.notifyOK:
 						if gen == generation {
+							worked = true
 							b.Reset()
 						}
 					case recvErr := <-c.sessionErrors:
@@ -231,12 +237,16 @@ func (c *container) Start(ctx context.Context) {
 								select {
 								case gen := <-c.notifyOK:
 									if gen == generation {
-										b.Reset()
+										worked = true
 									}
 								default:
 									pending = false
 								}
 							}
+							// the time it lasted was not spent on retrying
+							if worked || time.Since(started) > stableSession {
+								b.Reset()
+							}
 							return fmt.Errorf("session receiver error: %s", recvErr)
 						}
 					}
-- 
2.43.0

