From 7cab25aef0ecfd05ed042313ee85ef29ba7f2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 01/31] fix: never reuse an entry's version after it was
 deleted

An entry that was deleted and created again started over at version 1, so
that an Update conditioned on the ETag of the deleted entry succeeded.
---
 store/internal/cache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/store/internal/cache.go b/store/internal/cache.go
index e6c3b95..f98a778 100644
--- a/store/internal/cache.go
+++ b/store/internal/cache.go
@@ -24,6 +24,9 @@ type Patcher[T any] interface {
 type SyncIndexedMap[T any] struct {
 	mu    sync.RWMutex
 	items map[string]VersionContainer[T]
+	// version is the last one given out. Versions are never reused, not even
+	// by a key that was deleted and created again.
+	version int64
 
 	indexers map[string]Indexer[T]
 	indicies map[string]Index
@@ -37,6 +40,12 @@ func NewSyncIndexedMap[T any](indexers map[string]Indexer[T]) *SyncIndexedMap[T]
 	}
 }
 
+// nextVersion must be called with the write lock held
+func (m *SyncIndexedMap[T]) nextVersion() int64 {
+	m.version++
+	return m.version
+}
+
 func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T]) (Delta[T], error) {
 	var delta Delta[T]
 	m.mu.Lock()
@@ -57,7 +66,7 @@ func (m *SyncIndexedMap[T]) Patch(key string, patcher Patcher[T], cond ...Cond[T
 		return delta, fmt.Errorf("patch apply error: %w", err)
 	}
 	cc.Resource = obj
-	cc.Version++
+	cc.Version = m.nextVersion()
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -81,7 +90,7 @@ func (m *SyncIndexedMap[T]) Update(key string, obj T, cond ...Cond[T]) (Delta[T]
 		prev = &tmp
 	}
 	cc.Resource = obj
-	cc.Version++
+	cc.Version = m.nextVersion()
 	m.items[key] = cc
 	m.reindex(key, prev, obj)
 	delta.Prev = prev
@@ -112,10 +121,7 @@ func (m *SyncIndexedMap[T]) Replace(items map[string]T) {
 	defer m.mu.Unlock()
 	itemcc := make(map[string]VersionContainer[T], len(items))
 	for k, v := range items {
-		prevcc := m.items[k]
-		prevcc.Resource = v
-		prevcc.Version++
-		itemcc[k] = prevcc
+		itemcc[k] = VersionContainer[T]{Resource: v, Version: m.nextVersion()}
 	}
 	m.items = itemcc
 
-- 
2.43.0


From 4b09db2c5ccc904ae313d98007d5ed518a52017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 02/31] fix: do not notify a failed Accumulate as an added
 entry

---
 store/cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index e4d2ed4..bb8aba1 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -84,13 +84,16 @@ func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error
 	if errors.Is(err, errNoChange) { // okay
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 
 	if d.Prev != nil && c.eventHandlers.OnChange != nil {
 		c.eventHandlers.OnChange(*d.Prev, d.Next)
 	} else if d.Prev == nil && c.eventHandlers.OnAdd != nil {
 		c.eventHandlers.OnAdd(d.Next)
 	}
-	return err
+	return nil
 }
 
 func (c *objectCache) Get(ctx context.Context, exemplar Entry) (result Single, error error) {
-- 
2.43.0


From 06b18fbc38cef84b7a0911cb16444b1e4e843489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 03/31] fix: key accumulated records like added ones

A key function that uses the entry's type or source saw neither when called
by Accumulate, so records of different types with one ID were merged into
one entry that Get could not find.
---
 store/cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/cache.go b/store/cache.go
index bb8aba1..e559e78 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -76,7 +76,11 @@ func NewDefaultCachingStore(cfg CacheConfig) Interface {
 }
 
 func (c *objectCache) Accumulate(source SourceRef, partial vanflow.Record) error {
-	key, err := c.keyFunc(Entry{Record: partial})
+	key, err := c.keyFunc(Entry{
+		Meta:     Metadata{Source: source},
+		TypeMeta: partial.GetTypeMeta(),
+		Record:   partial,
+	})
 	if err != nil {
 		return fmt.Errorf("error getting key for accumulate: %w", err)
 	}
-- 
2.43.0


From c9f973811d88604390b9b5d8115fd8e2d088de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 04/31] fix: fail instead of panic when a merged record cannot
 be decoded

---
 store/patcher.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/store/patcher.go b/store/patcher.go
index f2ea6bb..f3e7114 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -49,6 +49,13 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	}
 	entry.Meta.UpdatedAt = time.Now()
 	rawOut, err := encoding.Decode(currAttrs)
-	entry.Record = rawOut.(vanflow.Record)
-	return entry, err
+	if err != nil {
+		return next, fmt.Errorf("error decoding merged record: %w", err)
+	}
+	record, ok := rawOut.(vanflow.Record)
+	if !ok {
+		return next, fmt.Errorf("merged record of unexpected type %T", rawOut)
+	}
+	entry.Record = record
+	return entry, nil
 }
-- 
2.43.0


From 213ee77d134da759e0c93b199f2e031356e98f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 05/31] fix: continue pages after the last key instead of at an
 offset

Entries added or deleted between pages shifted the offset, so that the next
page repeated or skipped entries that were present all along.
---
 store/cache.go    | 14 +++++++++++---
 store/continue.go | 25 +++++++++++++++----------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/store/cache.go b/store/cache.go
index e559e78..bdd5865 100644
--- a/store/cache.go
+++ b/store/cache.go
@@ -127,11 +127,18 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 	})
 	offset := sel.Offset
 	if sel.Continue != "" {
-		var err error
-		offset, err = decodeCacheContinue(sel.Continue)
+		after, err := decodeCacheContinue(sel.Continue)
 		if err != nil {
 			return result, err
 		}
+		offset = sort.Search(len(result.Entries), func(i int) bool {
+			key, _ := c.keyFunc(result.Entries[i])
+			delta := strings.Compare(key, after)
+			if sel.Ordering == Descending {
+				return delta < 0
+			}
+			return delta > 0
+		})
 	}
 
 	if offset >= len(result.Entries) {
@@ -142,7 +149,8 @@ func (c *objectCache) applySelector(result Set, sel Selector) (Set, error) {
 
 	if sel.Limit > 0 && len(result.Entries) > sel.Limit {
 		result.Entries = result.Entries[:sel.Limit]
-		result.Continue = encodeCacheContinue(offset + sel.Limit)
+		last, _ := c.keyFunc(result.Entries[sel.Limit-1])
+		result.Continue = encodeCacheContinue(last)
 	}
 	return result, nil
 }
diff --git a/store/continue.go b/store/continue.go
index 5bb2f76..8fbac93 100644
--- a/store/continue.go
+++ b/store/continue.go
@@ -12,27 +12,32 @@ type cacheContinueToken struct {
 	// Nonce present only to make forging continue tokens inconvenient so that
 	// they may remain opquqe for future store implementations. Not a secuirty
 	// measure.
-	Nonce  int64
-	Offset int32
+	Nonce int64
 }
 
-func decodeCacheContinue(token string) (int, error) {
+// decodeCacheContinue returns the key of the last entry before the page.
+func decodeCacheContinue(token string) (string, error) {
 	out, err := base64.StdEncoding.DecodeString(token)
 	if err != nil {
-		return 0, fmt.Errorf("invalid continue token: %s", err)
+		return "", fmt.Errorf("invalid continue token: %s", err)
 	}
-	buf := bytes.NewReader(out)
+	buf := bytes.NewBuffer(out)
 	var container cacheContinueToken
-	err = binary.Read(buf, binary.LittleEndian, &container)
-	return int(container.Offset), err
+	if err := binary.Read(buf, binary.LittleEndian, &container); err != nil {
+		return "", fmt.Errorf("invalid continue token: %s", err)
+	}
+	return buf.String(), nil
 }
 
-func encodeCacheContinue(offset int) string {
+// encodeCacheContinue returns a token for the page of entries ordered after
+// the key. It refers to the key rather than to a position so that entries
+// added or deleted between pages do not shift the next page.
+func encodeCacheContinue(key string) string {
 	token := cacheContinueToken{
-		Nonce:  time.Now().Unix(),
-		Offset: int32(offset),
+		Nonce: time.Now().Unix(),
 	}
 	var buf bytes.Buffer
 	binary.Write(&buf, binary.LittleEndian, token)
+	buf.WriteString(key)
 	return base64.StdEncoding.EncodeToString(buf.Bytes())
 }
-- 
2.43.0


From ec0f1ac21c009ac4e597a1197369d21915467cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 06/31] fix: encode attributes explicitly set to a zero value

An optional attribute that went back to zero or to the empty string was
left out as if unset, so that receivers kept its previous value forever.
---
 encoding/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index c2e58bd..e82411d 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -98,6 +98,9 @@ func (e pointerEncoder) encode(v reflect.Value) (interface{}, error) {
 	if v.IsNil() {
 		return nil, ErrAttributeNotSet
 	}
+	if _, ok := e.sub.(rawFieldEncoder); ok {
+		return v.Elem().Interface(), nil // set, even when zero
+	}
 	return e.sub.encode(v.Elem())
 }
 
-- 
2.43.0


From a48274ca2939c4fc1c310bacf48ef7f19371107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 07/31] fix: let Close of a client end its listeners without
 holding their lock

---
 eventsource/client.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/eventsource/client.go b/eventsource/client.go
index 260eceb..05a2191 100644
--- a/eventsource/client.go
+++ b/eventsource/client.go
@@ -26,6 +26,7 @@ type Client struct {
 	eventSource Info
 
 	lock              sync.Mutex
+	closed            bool
 	cleanup           []func()
 	heartbeatHandlers []HeartbeatMessageHandler
 	recordHandlers    []RecordMessageHandler
@@ -85,11 +86,13 @@ func (c *Client) getHandlers() ([]RecordMessageHandler, []HeartbeatMessageHandle
 // listener configuration until the context is cancelled or client.Close() is
 // called.
 func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider) error {
-	c.wg.Add(1)
-	listenerCtx, listenerCancel := context.WithCancel(ctx)
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	if c.closed {
+		return errors.New("client closed")
+	}
+	c.wg.Add(1)
+	listenerCtx, listenerCancel := context.WithCancel(ctx)
 	c.cleanup = append(c.cleanup, listenerCancel)
 
 	go func(ctx context.Context) {
@@ -139,10 +142,14 @@ func (c *Client) Listen(ctx context.Context, attributes ListenerConfigProvider)
 // Close stops all listeners
 func (c *Client) Close() {
 	c.lock.Lock()
-	defer c.lock.Unlock()
-	for _, cancel := range c.cleanup {
+	c.closed = true
+	cleanup := c.cleanup
+	c.cleanup = nil
+	c.lock.Unlock()
+	for _, cancel := range cleanup {
 		cancel()
 	}
+	// listeners take the lock, it must not be held while waiting for them
 	c.wg.Wait()
 }
 
-- 
2.43.0


From 5aaf067870cf9b8dee1897074345f8848a2f1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 08/31] fix: queue discovery changes in order and without bound

---
 eventsource/discovery.go | 72 +++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index a79200a..fe7a89d 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -19,11 +19,17 @@ type Discovery struct {
 	container     session.Container
 	lock          sync.Mutex
 	state         map[string]Info
-	discovered    chan Info
-	forgotten     chan Info
+	changes       []sourceChange // not yet handled, in the order they were made
+	changed       chan struct{}  // signals that changes were added
+	handling      chan struct{}  // held by the goroutine calling handlers
 	beaconAddress string
 }
 
+type sourceChange struct {
+	source    Info
+	forgotten bool
+}
+
 type DiscoveryHandlers struct {
 	Discovered func(source Info)
 	Forgotten  func(source Info)
@@ -40,8 +46,8 @@ func NewDiscovery(container session.Container, opts DiscoveryOptions) *Discovery
 	return &Discovery{
 		container:     container,
 		state:         make(map[string]Info),
-		discovered:    make(chan Info, 32),
-		forgotten:     make(chan Info, 32),
+		changed:       make(chan struct{}, 1),
+		handling:      make(chan struct{}, 1),
 		beaconAddress: opts.BeaconAddress,
 	}
 }
@@ -70,18 +76,54 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 }
 
 func (d *Discovery) handleDiscovery(ctx context.Context, handlers DiscoveryHandlers) {
+	// a handler called by a previous Run may not have returned yet
+	select {
+	case <-ctx.Done():
+		return
+	case d.handling <- struct{}{}:
+		defer func() { <-d.handling }()
+	}
 	for {
-		select {
-		case <-ctx.Done():
+		change, ok := d.nextChange(ctx)
+		if !ok {
 			return
-		case info := <-d.discovered:
-			if handlers.Discovered != nil {
-				handlers.Discovered(info)
-			}
-		case info := <-d.forgotten:
+		}
+		if change.forgotten {
 			if handlers.Forgotten != nil {
-				handlers.Forgotten(info)
+				handlers.Forgotten(change.source)
 			}
+		} else if handlers.Discovered != nil {
+			handlers.Discovered(change.source)
+		}
+	}
+}
+
+// addChange queues a change for the handlers. The lock must be held.
+func (d *Discovery) addChange(change sourceChange) {
+	d.changes = append(d.changes, change)
+	select {
+	case d.changed <- struct{}{}:
+	default:
+	}
+}
+
+func (d *Discovery) nextChange(ctx context.Context) (change sourceChange, ok bool) {
+	for {
+		d.lock.Lock()
+		if ctx.Err() != nil {
+			d.lock.Unlock()
+			return change, false
+		}
+		if len(d.changes) > 0 {
+			change = d.changes[0]
+			d.changes = d.changes[1:]
+			d.lock.Unlock()
+			return change, true
+		}
+		d.lock.Unlock()
+		select {
+		case <-ctx.Done():
+		case <-d.changed:
 		}
 	}
 }
@@ -105,7 +147,7 @@ func (d *Discovery) Add(info Info) bool {
 		return false
 	}
 	d.state[info.ID] = info
-	d.discovered <- info
+	d.addChange(sourceChange{source: info})
 	return true
 }
 
@@ -120,7 +162,7 @@ func (d *Discovery) Forget(id string) bool {
 	state, forget = d.state[id]
 	delete(d.state, id)
 	if forget {
-		d.forgotten <- state
+		d.addChange(sourceChange{source: state, forgotten: true})
 	}
 	return forget
 }
@@ -280,7 +322,7 @@ func (d *Discovery) observe(beacon vanflow.BeaconMessage) {
 	state.LastSeen = tObserved
 	d.state[beacon.Identity] = state
 	if discovered {
-		d.discovered <- state
+		d.addChange(sourceChange{source: state})
 	}
 }
 
-- 
2.43.0


From a9d6c9f68e85d542855572b11360e6074663cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 09/31] fix: skip beacon source messages without properties or
 subject

---
 eventsource/discovery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventsource/discovery.go b/eventsource/discovery.go
index fe7a89d..0f2c0d8 100644
--- a/eventsource/discovery.go
+++ b/eventsource/discovery.go
@@ -67,8 +67,8 @@ func (d *Discovery) Run(ctx context.Context, handlers DiscoveryHandlers) error {
 		if err := receiver.Accept(ctx, msg); err != nil {
 			slog.Error("discovery got error accepting message", slog.Any("error", err))
 		}
-		if *msg.Properties.Subject != "BEACON" {
-			slog.Info("received non-beacon from beacon source", slog.Any("subject", msg.Properties.Subject), slog.Any("source", msg.Properties.To))
+		if msg.Properties == nil || msg.Properties.Subject == nil || *msg.Properties.Subject != "BEACON" {
+			slog.Info("received non-beacon from beacon source", slog.Any("properties", msg.Properties))
 			continue
 		}
 		d.observe(vanflow.DecodeBeacon(msg))
-- 
2.43.0


From 8c5b83c844ae2c6ef3387e11c1e0c06ec0df7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 10/31] fix: fail instead of panic on null record attributes

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 2841d43..b11072a 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -97,6 +97,9 @@ func (d rawFieldDecoder) decode(attr interface{}, v reflect.Value) error {
 		return fmt.Errorf("field not addressable")
 	}
 	attrV := reflect.ValueOf(attr)
+	if !attrV.IsValid() {
+		return fmt.Errorf("cannot assign null to type")
+	}
 	if !v.Type().AssignableTo(attrV.Type()) {
 		return fmt.Errorf("cannot assign value to type")
 	}
-- 
2.43.0


From 080a52b404a6ea6e3c53d0e02c7f6577292bf505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 11/31] fix: apply the delivery timeout to beacons and
 heartbeats

---
 eventsource/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index ed3ac82..9f4367a 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -330,7 +330,7 @@ var errSendTimeoutExceeded = errors.New("send timed out")
 func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.Sender, msg *amqp.Message) error {
 	requestCtx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
-	err := sender.Send(ctx, msg)
+	err := sender.Send(requestCtx, msg)
 	if err != nil {
 		if errors.Is(err, requestCtx.Err()) && ctx.Err() == nil {
 			return errSendTimeoutExceeded
-- 
2.43.0


From fb7ffcc8bfafe923ffecf08a3e097c069a297f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 12/31] fix: pause between initial beacons that fail and stop
 when cancelled

---
 eventsource/manager.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 9f4367a..8ff035d 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -262,6 +262,9 @@ func (m *Manager) sendKeepalives(ctx context.Context) {
 	for {
 		if err := sendWithTimeout(ctx, beaconInterval, beaconSender, beaconMessage.Encode()); err != nil {
 			slog.Error("error sending initial beacon message", slog.Any("error", err))
+			if !pause(ctx, retryDelay) {
+				return
+			}
 			continue
 		}
 		break
@@ -339,6 +342,21 @@ func sendWithTimeout(ctx context.Context, timeout time.Duration, sender session.
 	return err
 }
 
+// retryDelay is the pause before an operation that failed is tried again
+const retryDelay = 100 * time.Millisecond
+
+// pause waits for d to pass. Returns false when the context ends first.
+func pause(ctx context.Context, d time.Duration) bool {
+	timer := time.NewTimer(d)
+	defer timer.Stop()
+	select {
+	case <-ctx.Done():
+		return false
+	case <-timer.C:
+		return ctx.Err() == nil
+	}
+}
+
 // pulls next N items from a channel
 func nextN[T any](ctx context.Context, c <-chan T, n int) []T {
 	var out []T
-- 
2.43.0


From e55b177819fcf9721da71ef6071a18621c277b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 13/31] fix: do not take a receive error for a flush request

---
 eventsource/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 8ff035d..4a7e687 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -319,6 +319,7 @@ func (m *Manager) listenFlushes(ctx context.Context) {
 				return
 			}
 			slog.Error("flush receive error", slog.Any("error", err))
+			continue
 		}
 		flushReceiver.Accept(ctx, msg)
 		select {
-- 
2.43.0


From ae48068385a4f3b3779ac73373530adcb653a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 14/31] fix: pause between store errors while flushing and stop
 when cancelled

---
 eventsource/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 4a7e687..3fc2702 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -200,7 +200,10 @@ func (m *Manager) serve(ctx context.Context) {
 						return
 					}
 					slog.Error("flush error listing resources", slog.Any("error", err))
-					continue // probably bad.
+					if !pause(ctx, retryDelay) {
+						return
+					}
+					continue
 				}
 				selector.Continue = result.Continue
 				if result.Continue == "" {
-- 
2.43.0


From 4e72b64c9d11970715f25ff361187139a2b80a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 15/31] fix: keep waiting senders of the mock router from
 holding up others

A receiver with a full buffer blocked every sender to its address, whatever
their contexts, as well as new receivers; a closed receiver's buffered messages
were still returned at random.
---
 session/mock.go | 65 +++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/session/mock.go b/session/mock.go
index fced8ad..73ce799 100644
--- a/session/mock.go
+++ b/session/mock.go
@@ -2,6 +2,7 @@ package session
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 
@@ -34,7 +35,7 @@ func (c *mockContainer) NewReceiver(address string, opts ReceiverOptions) Receiv
 		channel: make(chan *amqp.Message, cred),
 		done:    make(chan struct{}),
 	}
-	c.Router.subscribe(address, rcv)
+	c.Router.get(address).subscribe(rcv)
 	return rcv
 }
 
@@ -60,14 +61,6 @@ type MockRouter struct {
 	topics map[string]*multicast
 }
 
-func (router *MockRouter) subscribe(address string, r *mockReceiver) {
-	router.get(address).subscribe(r)
-}
-
-func (router *MockRouter) send(ctx context.Context, address string, msg *amqp.Message) error {
-	return router.get(address).send(ctx, msg)
-}
-
 func (router *MockRouter) get(address string) *multicast {
 	router.mu.Lock()
 	defer router.mu.Unlock()
@@ -89,24 +82,30 @@ func newMulticast() *multicast {
 	return &multicast{update: make(chan struct{})}
 }
 
-func (m *multicast) send(ctx context.Context, msg *amqp.Message) error {
-	m.mu.Lock()
-	update := m.update
-	var sent bool
-	for _, r := range m.receivers {
-		sent = true
-		r.send(msg)
-	}
-	m.mu.Unlock()
-	if !sent {
+// send delivers msg to each of the receivers currently subscribed, once there
+// are any. No lock is held while waiting for a receiver with a full buffer, so
+// that it holds up nobody else.
+func (m *multicast) send(ctx context.Context, closed <-chan struct{}, msg *amqp.Message) error {
+	for {
+		m.mu.Lock()
+		receivers, update := m.receivers, m.update
+		m.mu.Unlock()
+		for _, r := range receivers {
+			if err := r.send(ctx, closed, msg); err != nil {
+				return err
+			}
+		}
+		if len(receivers) > 0 {
+			return nil
+		}
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
+		case <-closed:
+			return errSenderClosed
 		case <-update:
-			return m.send(ctx, msg)
 		}
 	}
-	return nil
 }
 
 func (m *multicast) subscribe(r *mockReceiver) {
@@ -123,15 +122,25 @@ type mockReceiver struct {
 	done      chan struct{}
 }
 
-func (r *mockReceiver) send(msg *amqp.Message) {
+func (r *mockReceiver) send(ctx context.Context, closed <-chan struct{}, msg *amqp.Message) error {
 	select {
 	case <-r.done:
-		return
-	default:
-		r.channel <- msg
+		return nil
+	case r.channel <- msg:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-closed:
+		return errSenderClosed
 	}
 }
+
 func (r *mockReceiver) Next(ctx context.Context) (*amqp.Message, error) {
+	select {
+	case <-r.done:
+		return nil, fmt.Errorf("closed")
+	default:
+	}
 	select {
 	case <-ctx.Done():
 		return nil, ctx.Err()
@@ -151,6 +160,8 @@ func (r *mockReceiver) Close(context.Context) error {
 	return nil
 }
 
+var errSenderClosed = errors.New("sender closed")
+
 type mockSender struct {
 	router    *MockRouter
 	address   string
@@ -161,11 +172,11 @@ type mockSender struct {
 func (s *mockSender) Send(ctx context.Context, msg *amqp.Message) error {
 	select {
 	case <-s.done:
-		return fmt.Errorf("sender closed")
+		return errSenderClosed
 	case <-ctx.Done():
 		return ctx.Err()
 	default:
-		return s.router.send(ctx, s.address, msg)
+		return s.router.get(s.address).send(ctx, s.done, msg)
 	}
 }
 
-- 
2.43.0


From 79f55157a17e0e3d4efd664e36c4e746249dddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 16/31] fix: request the credit a receiver was configured with

---
 session/container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index a8116c7..154bb0b 100644
--- a/session/container.go
+++ b/session/container.go
@@ -22,7 +22,7 @@ type ReceiverOptions struct {
 
 func (o ReceiverOptions) get() amqp.ReceiverOptions {
 	var result amqp.ReceiverOptions
-	if o.Credit <= 0 {
+	if o.Credit > 0 {
 		result.Credit = int32(o.Credit)
 	}
 	return result
-- 
2.43.0


From 099c31bbd779c5c72b7d8393bee400a4e6d8d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 17/31] fix: end a container's session once, for its own
 errors, and close every connection

Errors carry the generation of the session they occurred with and are taken
by the container without waiting; those of earlier sessions are ignored. The
backoff starts over after successful use. Connections are closed when they
are replaced, when no session can be created and when the container ends,
without blocking the container. Error handlers are called without the lock
held.
---
 session/container.go | 288 +++++++++++++++++++++----------------------
 1 file changed, 140 insertions(+), 148 deletions(-)

diff --git a/session/container.go b/session/container.go
index 154bb0b..ad0c0e2 100644
--- a/session/container.go
+++ b/session/container.go
@@ -99,11 +99,9 @@ func (cfg ContainerConfig) toAmqp() *amqp.ConnOptions {
 // strategy.
 func NewContainer(address string, config ContainerConfig) Container {
 	c := &container{
-		address:       address,
-		config:        config,
-		hasNext:       make(chan struct{}),
-		sessionErrors: make(chan sessionErr, 32),
-		notifyOK:      make(chan int, 32),
+		address: address,
+		config:  config,
+		hasNext: make(chan struct{}),
 	}
 	return c
 }
@@ -113,13 +111,12 @@ type container struct {
 	config  ContainerConfig
 
 	mu            sync.Mutex
-	sess          *amqp.Session
+	sess          *amqp.Session // nil while there is no session in use
 	gen           int
+	used          bool       // some operation succeeded with the session
+	lost          chan error // takes the error that ended the session
 	hasNext       chan struct{}
 	errorHandlers []func(error)
-
-	sessionErrors chan sessionErr
-	notifyOK      chan int
 }
 
 func (c *container) OnSessionError(handler func(error)) {
@@ -128,28 +125,74 @@ func (c *container) OnSessionError(handler func(error)) {
 	c.errorHandlers = append(c.errorHandlers, handler)
 }
 
-func (c *container) awaitNextSession(ctx context.Context, prev int) (session *amqp.Session, gen int, err error) {
-	c.mu.Lock()
-	session, gen, hasNext := c.sess, c.gen, c.hasNext
-	c.mu.Unlock()
-	if prev != gen {
-		return session, gen, nil
+// awaitSession returns the session in use and its generation, once there is
+// one.
+func (c *container) awaitSession(ctx context.Context) (session *amqp.Session, gen int, err error) {
+	for {
+		c.mu.Lock()
+		session, gen, hasNext := c.sess, c.gen, c.hasNext
+		c.mu.Unlock()
+		if session != nil {
+			return session, gen, nil
+		}
+		select {
+		case <-ctx.Done():
+			return nil, 0, ctx.Err()
+		case <-hasNext:
+		}
 	}
-	select {
-	case <-ctx.Done():
-		return nil, 0, ctx.Err()
-	case <-hasNext:
-		return c.awaitNextSession(ctx, prev)
+}
+
+// setSession puts a session to use. Returns a channel that takes the error
+// that ends it.
+func (c *container) setSession(session *amqp.Session) <-chan error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	close(c.hasNext)
+	c.sess, c.hasNext = session, make(chan struct{})
+	c.gen++
+	c.used = false
+	c.lost = make(chan error, 1)
+	return c.lost
+}
+
+// endSession takes the session out of use. Returns whether it had been used
+// successfully.
+func (c *container) endSession() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.sess = nil
+	return c.used
+}
+
+// reportError ends the session of the generation unless it has ended before.
+func (c *container) reportError(gen int, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if gen != c.gen || c.sess == nil {
+		return
 	}
+	c.sess = nil
+	c.lost <- err
 }
 
-type sessionErr struct {
-	Generation int
-	Err        error
+// reportOK notes the successful use of the session of the generation.
+func (c *container) reportOK(gen int) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if gen == c.gen {
+		c.used = true
+	}
 }
 
-func (e sessionErr) Error() string {
-	return e.Err.Error()
+// notify calls the error handlers. They are free to use the container.
+func (c *container) notify(err error) {
+	c.mu.Lock()
+	handlers := c.errorHandlers
+	c.mu.Unlock()
+	for _, handler := range handlers {
+		handler(err)
+	}
 }
 
 // Start the container. It will run until the context is cancelled or until the
@@ -165,8 +208,13 @@ func (c *container) Start(ctx context.Context) {
 	}
 
 	go func() {
-		var generation int
-		var prevSessionTeardown func() = func() {}
+		var current *amqp.Conn
+		// closing a connection can block until its last write has timed out
+		closeCurrent := func() {
+			if current != nil {
+				go current.Close()
+			}
+		}
 		b := backoff.WithContext(c.config.BackOff, ctx)
 		err := backoff.RetryNotify(
 			func() error {
@@ -176,57 +224,35 @@ func (c *container) Start(ctx context.Context) {
 				}
 				sess, err := conn.NewSession(ctx, nil)
 				if err != nil {
+					go conn.Close()
 					return fmt.Errorf("session create error: %s", err)
 				}
-				generation++
-
-				c.mu.Lock()
-				close(c.hasNext)
-				c.sess, c.gen, c.hasNext = sess, generation, make(chan struct{})
-				c.mu.Unlock()
-
-				prevSessionTeardown()
-				prevSessionTeardown = func() {
-					sess.Close(ctx)
-					conn.Close()
-				}
-
-				for {
-					select {
-					case <-ctx.Done():
-						return ctx.Err()
-					case gen := <-c.notifyOK:
-						if gen == generation {
-							b.Reset()
-						}
-					case recvErr := <-c.sessionErrors:
-						if recvErr.Generation == generation {
-							return fmt.Errorf("session receiver error: %s", recvErr)
-						}
+				lost := c.setSession(sess)
+				closeCurrent()
+				current = conn
+
+				select {
+				case <-ctx.Done():
+					c.endSession()
+					return ctx.Err()
+				case err := <-lost:
+					if c.endSession() {
+						b.Reset()
 					}
+					return fmt.Errorf("session receiver error: %s", err)
 				}
 			},
 			b,
 			func(err error, d time.Duration) {
-				wErr := errSessionRestart{Err: err, D: d}
-				c.mu.Lock()
-				for _, handler := range c.errorHandlers {
-					handler(wErr)
-				}
-				c.mu.Unlock()
+				c.notify(errSessionRestart{Err: err, D: d})
 			},
 		)
-		defer prevSessionTeardown()
+		closeCurrent()
 		if err != nil {
 			if errors.Is(err, ctx.Err()) {
 				return
 			}
-			wErr := fmt.Errorf("error caused contianer to close: %w", err)
-			c.mu.Lock()
-			defer c.mu.Unlock()
-			for _, handler := range c.errorHandlers {
-				handler(wErr)
-			}
+			c.notify(fmt.Errorf("error caused contianer to close: %w", err))
 		}
 	}()
 }
@@ -253,19 +279,12 @@ func (s *container) NewSender(address string, opts SenderOptions) Sender {
 }
 
 func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions) *link {
-	c.mu.Lock()
-	defer c.mu.Unlock()
-	l := &link{
-		address:       address,
-		container:     c,
-		receiverOpts:  r.get(),
-		senderOpts:    s.get(),
-		sessionErrors: c.sessionErrors,
-		reportOK:      c.notifyOK,
-		curr:          c.sess,
-		currGen:       c.gen,
+	return &link{
+		address:      address,
+		container:    c,
+		receiverOpts: r.get(),
+		senderOpts:   s.get(),
 	}
-	return l
 }
 
 type link struct {
@@ -273,114 +292,93 @@ type link struct {
 	receiverOpts amqp.ReceiverOptions
 	senderOpts   amqp.SenderOptions
 
-	sessionErrors chan<- sessionErr
-	reportOK      chan<- int
-
 	container *container
 
-	mu      sync.Mutex
-	closed  bool
-	currGen int
-	curr    *amqp.Session
-	rcvGen  int
-	rcv     *amqp.Receiver
-	sndGen  int
-	snd     *amqp.Sender
+	mu     sync.Mutex
+	closed bool
+	rcvGen int
+	rcv    *amqp.Receiver
+	sndGen int
+	snd    *amqp.Sender
 }
 
 var errLinkClosed = errors.New("link closed")
 
-func (r *link) awaitSession(ctx context.Context) error {
+func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
 	r.mu.Lock()
-	curr, currGen, closed := r.curr, r.currGen, r.closed
+	closed := r.closed
 	r.mu.Unlock()
 	if closed {
-		return errLinkClosed
-	}
-	if curr != nil {
-		return nil
+		return nil, 0, errLinkClosed
 	}
-	next, nextGen, err := r.container.awaitNextSession(ctx, currGen)
-	if err != nil {
-		return err
-	}
-	r.mu.Lock()
-	r.curr, r.currGen = next, nextGen
-	r.mu.Unlock()
-	return nil
+	return r.container.awaitSession(ctx)
 }
 
 func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
-	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+	sess, gen, err := r.awaitSession(ctx)
+	if err != nil {
+		return fmt.Errorf("session await error: %w", err)
 	}
-	rcv, currGen, err := r.getReceiver(ctx)
+	rcv, err := r.getReceiver(ctx, sess, gen)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("receiver create error: %w", err))
+		return r.handleError(ctx, gen, fmt.Errorf("receiver create error: %w", err))
 	}
-	if err := fn(rcv, currGen); err != nil {
-		return r.handleError(ctx, err)
+	if err := fn(rcv, gen); err != nil {
+		return r.handleError(ctx, gen, err)
 	}
 	return nil
 }
 
 func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
-	if err := r.awaitSession(ctx); err != nil {
-		return r.handleError(ctx, fmt.Errorf("session await error: %w", err))
+	sess, gen, err := r.awaitSession(ctx)
+	if err != nil {
+		return fmt.Errorf("session await error: %w", err)
 	}
-	snd, currGen, err := r.getSender(ctx)
+	snd, err := r.getSender(ctx, sess, gen)
 	if err != nil {
-		return r.handleError(ctx, fmt.Errorf("sender create error: %w", err))
+		return r.handleError(ctx, gen, fmt.Errorf("sender create error: %w", err))
 	}
-	if err := fn(snd, currGen); err != nil {
-		return r.handleError(ctx, err)
+	if err := fn(snd, gen); err != nil {
+		return r.handleError(ctx, gen, err)
 	}
 	return nil
 }
 
-func (r *link) handleError(ctx context.Context, err error) error {
+// handleError gives up the session of the generation that err occurred with.
+func (r *link) handleError(ctx context.Context, gen int, err error) error {
 	if errors.Is(err, ctx.Err()) {
 		return err
 	}
-	if errors.Is(err, errLinkClosed) {
-		return err
-	}
-	r.sessionErrors <- sessionErr{
-		Generation: r.currGen,
-		Err:        err,
-	}
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	r.container.reportError(gen, err)
 	return err
 }
 
-func (r *link) getReceiver(ctx context.Context) (*amqp.Receiver, int, error) {
+func (r *link) getReceiver(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Receiver, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	if r.rcv != nil && r.rcvGen == r.currGen {
-		return r.rcv, r.rcvGen, nil
+	if r.rcv != nil && r.rcvGen == gen {
+		return r.rcv, nil
 	}
-	rcv, err := r.curr.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
+	rcv, err := sess.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
 	if err != nil {
-		return nil, 0, err
+		return nil, err
 	}
-	r.rcv, r.rcvGen = rcv, r.currGen
-	return r.rcv, r.rcvGen, nil
+	r.rcv, r.rcvGen = rcv, gen
+	return r.rcv, nil
 }
 
-func (r *link) getSender(ctx context.Context) (*amqp.Sender, int, error) {
+func (r *link) getSender(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Sender, error) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	if r.snd != nil && r.sndGen == r.currGen {
-		return r.snd, r.sndGen, nil
+	if r.snd != nil && r.sndGen == gen {
+		return r.snd, nil
 	}
-	snd, err := r.curr.NewSender(ctx, r.address, &r.senderOpts)
+	snd, err := sess.NewSender(ctx, r.address, &r.senderOpts)
 	if err != nil {
-		return nil, 0, err
+		return nil, err
 	}
-	r.snd, r.sndGen = snd, r.currGen
-	return r.snd, r.sndGen, nil
+	r.snd, r.sndGen = snd, gen
+	return r.snd, nil
 }
 
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
@@ -417,10 +415,7 @@ func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
 		return acceptErr
 	}
 	if err == nil {
-		select {
-		case r.reportOK <- generation:
-		default:
-		}
+		r.container.reportOK(generation)
 	}
 	return err
 }
@@ -436,10 +431,7 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 		return nil
 	})
 	if err == nil {
-		select {
-		case r.reportOK <- generation:
-		default:
-		}
+		r.container.reportOK(generation)
 	}
 	return err
 }
@@ -449,7 +441,7 @@ func (r *link) Close(ctx context.Context) error {
 	defer r.mu.Unlock()
 	r.closed = true
 	rcv := r.rcv
-	r.curr, r.rcv, r.snd = nil, nil, nil
+	r.rcv, r.snd = nil, nil
 	if rcv != nil {
 		return rcv.Close(ctx)
 	}
-- 
2.43.0


From 1ba293e788e162c4e3989e69217dcbeb14bd6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 18/31] fix: keep links apart from each other's contexts and
 closed ones closed

An operation waits for its session, attachment, transfer or disposition no
longer than its context, and its deadline is not applied to writes to the
connection, where it would end the connection. Attaching goes on in the
background. Close detaches senders too, ends pending operations and lets none
attach the link again; Next returns instead of recursing without end. Only
failures of the link, session or connection end the session, not rejected
messages or ended contexts.
---
 session/container.go | 298 ++++++++++++++++++++++++++-----------------
 1 file changed, 182 insertions(+), 116 deletions(-)

diff --git a/session/container.go b/session/container.go
index ad0c0e2..df44484 100644
--- a/session/container.go
+++ b/session/container.go
@@ -271,179 +271,245 @@ func (e errSessionRestart) Retry() time.Duration {
 }
 
 func (s *container) NewReceiver(address string, opts ReceiverOptions) Receiver {
-	return s.newLink(address, opts, SenderOptions{})
+	l := s.newLink(address)
+	l.isReceiver, l.receiverOpts = true, opts.get()
+	return l
 }
 
 func (s *container) NewSender(address string, opts SenderOptions) Sender {
-	return s.newLink(address, ReceiverOptions{}, opts)
+	l := s.newLink(address)
+	l.senderOpts = opts.get()
+	return l
 }
 
-func (c *container) newLink(address string, r ReceiverOptions, s SenderOptions) *link {
-	return &link{
-		address:      address,
-		container:    c,
-		receiverOpts: r.get(),
-		senderOpts:   s.get(),
-	}
+func (c *container) newLink(address string) *link {
+	l := &link{address: address, container: c}
+	l.ctx, l.cancel = context.WithCancel(context.Background())
+	return l
 }
 
 type link struct {
 	address      string
+	isReceiver   bool
 	receiverOpts amqp.ReceiverOptions
 	senderOpts   amqp.SenderOptions
 
 	container *container
 
-	mu     sync.Mutex
-	closed bool
-	rcvGen int
-	rcv    *amqp.Receiver
-	sndGen int
-	snd    *amqp.Sender
+	// ctx ends when the link is closed
+	ctx    context.Context
+	cancel context.CancelFunc
+
+	mu   sync.Mutex
+	curr *attachment
+}
+
+// attachment of a link to the session of one generation.
+type attachment struct {
+	gen   int
+	ready chan struct{} // closed once attached or failed
+	rcv   *amqp.Receiver
+	snd   *amqp.Sender
+	err   error
 }
 
 var errLinkClosed = errors.New("link closed")
 
-func (r *link) awaitSession(ctx context.Context) (*amqp.Session, int, error) {
-	r.mu.Lock()
-	closed := r.closed
-	r.mu.Unlock()
-	if closed {
-		return nil, 0, errLinkClosed
+// opContext returns a context for an operation. It also ends when the link is
+// closed.
+func (r *link) opContext(ctx context.Context) (context.Context, func()) {
+	ctx, cancel := context.WithCancel(ctx)
+	stop := context.AfterFunc(r.ctx, cancel)
+	return ctx, func() {
+		stop()
+		cancel()
 	}
-	return r.container.awaitSession(ctx)
 }
 
-func (r *link) withReceiver(ctx context.Context, fn func(receiver *amqp.Receiver, generation int) error) error {
-	sess, gen, err := r.awaitSession(ctx)
-	if err != nil {
-		return fmt.Errorf("session await error: %w", err)
-	}
-	rcv, err := r.getReceiver(ctx, sess, gen)
-	if err != nil {
-		return r.handleError(ctx, gen, fmt.Errorf("receiver create error: %w", err))
+// ended returns why operations called with ctx cannot go on, if so.
+func (r *link) ended(ctx context.Context) error {
+	if err := ctx.Err(); err != nil {
+		return err
 	}
-	if err := fn(rcv, gen); err != nil {
-		return r.handleError(ctx, gen, err)
+	if r.ctx.Err() != nil {
+		return errLinkClosed
 	}
 	return nil
 }
 
-func (r *link) withSender(ctx context.Context, fn func(sender *amqp.Sender, generation int) error) error {
-	sess, gen, err := r.awaitSession(ctx)
+// attach returns the link's attachment to the current session once there is
+// one. Attaching goes on in the background when ctx ends, so that the link is
+// never abandoned half attached.
+func (r *link) attach(ctx context.Context) (*attachment, error) {
+	sess, gen, err := r.container.awaitSession(ctx)
 	if err != nil {
-		return fmt.Errorf("session await error: %w", err)
+		return nil, fmt.Errorf("session await error: %w", err)
 	}
-	snd, err := r.getSender(ctx, sess, gen)
-	if err != nil {
-		return r.handleError(ctx, gen, fmt.Errorf("sender create error: %w", err))
+	r.mu.Lock()
+	if r.ctx.Err() != nil {
+		r.mu.Unlock()
+		return nil, errLinkClosed
 	}
-	if err := fn(snd, gen); err != nil {
-		return r.handleError(ctx, gen, err)
+	if r.curr == nil || r.curr.gen < gen {
+		r.curr = &attachment{gen: gen, ready: make(chan struct{})}
+		go r.attachTo(sess, r.curr)
 	}
-	return nil
-}
-
-// handleError gives up the session of the generation that err occurred with.
-func (r *link) handleError(ctx context.Context, gen int, err error) error {
-	if errors.Is(err, ctx.Err()) {
-		return err
-	}
-	r.container.reportError(gen, err)
-	return err
-}
+	at := r.curr
+	r.mu.Unlock()
 
-func (r *link) getReceiver(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Receiver, error) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.rcv != nil && r.rcvGen == gen {
-		return r.rcv, nil
+	select {
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	case <-at.ready:
+		return at, at.err
 	}
-	rcv, err := sess.NewReceiver(ctx, r.address, &amqp.ReceiverOptions{Credit: int32(r.receiverOpts.Credit)})
-	if err != nil {
-		return nil, err
-	}
-	r.rcv, r.rcvGen = rcv, gen
-	return r.rcv, nil
 }
 
-func (r *link) getSender(ctx context.Context, sess *amqp.Session, gen int) (*amqp.Sender, error) {
-	r.mu.Lock()
-	defer r.mu.Unlock()
-	if r.snd != nil && r.sndGen == gen {
-		return r.snd, nil
+func (r *link) attachTo(sess *amqp.Session, at *attachment) {
+	defer close(at.ready)
+	if r.isReceiver {
+		at.rcv, at.err = sess.NewReceiver(context.Background(), r.address, &r.receiverOpts)
+	} else {
+		at.snd, at.err = sess.NewSender(context.Background(), r.address, &r.senderOpts)
 	}
-	snd, err := sess.NewSender(ctx, r.address, &r.senderOpts)
-	if err != nil {
-		return nil, err
+	if at.err != nil {
+		r.container.reportError(at.gen, fmt.Errorf("link create error: %w", at.err))
 	}
-	r.snd, r.sndGen = snd, gen
-	return r.snd, nil
 }
 
 func (r *link) Next(ctx context.Context) (*amqp.Message, error) {
-	var (
-		result *amqp.Message
-	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, _ int) error {
-		msg, err := rcv.Receive(ctx, nil)
-		if err != nil {
-			return fmt.Errorf("receive error: %w", err)
+	opCtx, done := r.opContext(ctx)
+	defer done()
+	for {
+		at, err := r.attach(opCtx)
+		if err == nil {
+			var msg *amqp.Message
+			if msg, err = at.rcv.Receive(opCtx, nil); err == nil {
+				return msg, nil
+			}
 		}
-		result = msg
-		return nil
-	})
-	if err != nil && ctx.Err() == nil {
-		return r.Next(ctx)
+		err = fmt.Errorf("receive error: %w", err)
+		if ended := r.ended(ctx); ended != nil {
+			return nil, fmt.Errorf("receive error: %w", ended)
+		}
+		r.container.reportError(at.gen, err)
 	}
-	return result, err
 }
 
 func (r *link) Accept(ctx context.Context, msg *amqp.Message) error {
-	var (
-		acceptErr  error
-		generation int
-	)
-	err := r.withReceiver(ctx, func(rcv *amqp.Receiver, gen int) error {
-		generation = gen
-		acceptErr = rcv.AcceptMessage(ctx, msg)
+	if msg == nil {
+		return errors.New("no message to accept")
+	}
+	if err := r.ended(ctx); err != nil {
+		return fmt.Errorf("accept error: %w", err)
+	}
+	r.mu.Lock()
+	at := r.curr
+	r.mu.Unlock()
+
+	accepted := make(chan error, 1)
+	go func() {
+		// the message is accepted with the receiver it came from
+		accepted <- new(amqp.Receiver).AcceptMessage(withoutDeadline{ctx}, msg)
+	}()
+	select {
+	case <-ctx.Done():
+		return fmt.Errorf("accept error: %w", ctx.Err())
+	case <-r.ctx.Done():
+		return fmt.Errorf("accept error: %w", errLinkClosed)
+	case err := <-accepted:
 		// accepting messages is a stateful operation, so don't report the error back
 		// to the container and signal a connection teardown
-		return nil
-	})
-	if acceptErr != nil {
-		return acceptErr
-	}
-	if err == nil {
-		r.container.reportOK(generation)
+		if err == nil && at != nil {
+			r.container.reportOK(at.gen)
+		}
+		return err
 	}
-	return err
 }
 
 func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
-	var generation int
-	err := r.withSender(ctx, func(snd *amqp.Sender, gen int) error {
-		generation = gen
-		err := snd.Send(ctx, msg, nil)
-		if err != nil {
-			return fmt.Errorf("send error: %w", err)
+	opCtx, done := r.opContext(ctx)
+	defer done()
+	at, err := r.attach(opCtx)
+	if err != nil {
+		if ended := r.ended(ctx); ended != nil {
+			err = ended
 		}
-		return nil
-	})
+		return fmt.Errorf("send error: %w", err)
+	}
+
+	sent := make(chan error, 1)
+	go func() {
+		sent <- at.snd.Send(withoutDeadline{opCtx}, msg, nil)
+	}()
+	select {
+	case <-opCtx.Done():
+		err = opCtx.Err()
+	case err = <-sent:
+	}
 	if err == nil {
-		r.container.reportOK(generation)
+		r.container.reportOK(at.gen)
+		return nil
+	}
+	if ended := r.ended(ctx); ended != nil {
+		return fmt.Errorf("send error: %w", ended)
+	}
+	err = fmt.Errorf("send error: %w", err)
+	if isLinkFailure(err) {
+		r.container.reportError(at.gen, err)
 	}
 	return err
 }
 
+// withoutDeadline hides the deadline of a context from the amqp library, which
+// ends the whole connection when the deadline of an operation passes while its
+// frame is being written.
+type withoutDeadline struct {
+	context.Context
+}
+
+func (withoutDeadline) Deadline() (time.Time, bool) {
+	return time.Time{}, false
+}
+
+// isLinkFailure tells failures of the link, its session or its connection from
+// those that only concern a message, like its rejection.
+func isLinkFailure(err error) bool {
+	var (
+		linkErr    *amqp.LinkError
+		sessionErr *amqp.SessionError
+		connErr    *amqp.ConnError
+	)
+	return errors.As(err, &linkErr) || errors.As(err, &sessionErr) || errors.As(err, &connErr)
+}
+
+// Close the link. Pending and later operations fail. Detaching goes on in the
+// background when ctx ends.
 func (r *link) Close(ctx context.Context) error {
 	r.mu.Lock()
-	defer r.mu.Unlock()
-	r.closed = true
-	rcv := r.rcv
-	r.rcv, r.snd = nil, nil
-	if rcv != nil {
-		return rcv.Close(ctx)
+	r.cancel()
+	at := r.curr
+	r.curr = nil
+	r.mu.Unlock()
+	if at == nil {
+		return nil
+	}
+	closed := make(chan error, 1)
+	go func() {
+		<-at.ready
+		switch {
+		case at.rcv != nil:
+			closed <- at.rcv.Close(context.Background())
+		case at.snd != nil:
+			closed <- at.snd.Close(context.Background())
+		default:
+			closed <- nil
+		}
+	}()
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case err := <-closed:
+		return err
 	}
-	return nil
 }
-- 
2.43.0


From a764fed470d7b148fc9167394e31b805d947a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 19/31] fix: detach senders that may have left a delivery
 unfinished

---
 session/container.go | 65 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/session/container.go b/session/container.go
index df44484..74d3c94 100644
--- a/session/container.go
+++ b/session/container.go
@@ -313,6 +313,23 @@ type attachment struct {
 	err   error
 }
 
+// detach in the background.
+func (at *attachment) detach() <-chan error {
+	closed := make(chan error, 1)
+	go func() {
+		<-at.ready
+		switch {
+		case at.rcv != nil:
+			closed <- at.rcv.Close(context.Background())
+		case at.snd != nil:
+			closed <- at.snd.Close(context.Background())
+		default:
+			closed <- nil
+		}
+	}()
+	return closed
+}
+
 var errLinkClosed = errors.New("link closed")
 
 // opContext returns a context for an operation. It also ends when the link is
@@ -351,6 +368,9 @@ func (r *link) attach(ctx context.Context) (*attachment, error) {
 		return nil, errLinkClosed
 	}
 	if r.curr == nil || r.curr.gen < gen {
+		if r.curr != nil {
+			r.curr.detach()
+		}
 		r.curr = &attachment{gen: gen, ready: make(chan struct{})}
 		go r.attachTo(sess, r.curr)
 	}
@@ -452,15 +472,44 @@ func (r *link) Send(ctx context.Context, msg *amqp.Message) error {
 		return nil
 	}
 	if ended := r.ended(ctx); ended != nil {
+		if spansFrames(msg) {
+			// the delivery may be unfinished, another must not follow it
+			r.drop(at)
+		}
 		return fmt.Errorf("send error: %w", ended)
 	}
 	err = fmt.Errorf("send error: %w", err)
-	if isLinkFailure(err) {
+	if isLinkFailure(err) && r.attachedBy(at) {
 		r.container.reportError(at.gen, err)
 	}
 	return err
 }
 
+// spansFrames tells whether a message may take several frames to transmit.
+func spansFrames(msg *amqp.Message) bool {
+	// smallest maximal frame size of a peer, less the transfer's own fields
+	const minFramePayload = 512 - 66
+	raw, err := msg.MarshalBinary()
+	return err == nil && len(raw) > minFramePayload
+}
+
+// drop an attachment. The next operation attaches anew.
+func (r *link) drop(at *attachment) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.curr == at {
+		r.curr = nil
+		at.detach()
+	}
+}
+
+// attachedBy tells whether the attachment is still in use.
+func (r *link) attachedBy(at *attachment) bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.curr == at
+}
+
 // withoutDeadline hides the deadline of a context from the amqp library, which
 // ends the whole connection when the deadline of an operation passes while its
 // frame is being written.
@@ -494,22 +543,10 @@ func (r *link) Close(ctx context.Context) error {
 	if at == nil {
 		return nil
 	}
-	closed := make(chan error, 1)
-	go func() {
-		<-at.ready
-		switch {
-		case at.rcv != nil:
-			closed <- at.rcv.Close(context.Background())
-		case at.snd != nil:
-			closed <- at.snd.Close(context.Background())
-		default:
-			closed <- nil
-		}
-	}()
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-	case err := <-closed:
+	case err := <-at.detach():
 		return err
 	}
 }
-- 
2.43.0


From 5ccf420fb8c6e8781dcf665a69a59e00854a2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 20/31] fix: let the backoff start over after a session that
 merely was not used

---
 session/container.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/session/container.go b/session/container.go
index 74d3c94..df13e13 100644
--- a/session/container.go
+++ b/session/container.go
@@ -195,8 +195,15 @@ func (c *container) notify(err error) {
 	}
 }
 
+// stableSessionAge is the age at which a session does not count as a failed
+// attempt any more even if it was never used
+const stableSessionAge = 10 * time.Second
+
 // Start the container. It will run until the context is cancelled or until the
 // backoff strategy chosen finishes.
+//
+// The strategy starts over with the loss of a session that had been used
+// successfully, or that just had been there for a while without being used.
 func (c *container) Start(ctx context.Context) {
 	if c.config.BackOff == nil {
 		b := backoff.NewExponentialBackOff()
@@ -228,6 +235,7 @@ func (c *container) Start(ctx context.Context) {
 					return fmt.Errorf("session create error: %s", err)
 				}
 				lost := c.setSession(sess)
+				established := time.Now()
 				closeCurrent()
 				current = conn
 
@@ -236,7 +244,7 @@ func (c *container) Start(ctx context.Context) {
 					c.endSession()
 					return ctx.Err()
 				case err := <-lost:
-					if c.endSession() {
+					if c.endSession() || time.Since(established) >= stableSessionAge {
 						b.Reset()
 					}
 					return fmt.Errorf("session receiver error: %s", err)
-- 
2.43.0


From bdd7f89c49f54ae7174407cd60be8b5bd4b554e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 21/31] fix: end the container of a source's client when the
 source is forgotten

---
 cmd/vanflow-tool/log.go   | 11 ++++++++++-
 cmd/vanflow-tool/serve.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 9df3dbe..8dee1d1 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -53,17 +53,22 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 	})
 
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	// ends the containers of the sources' clients
+	stopClient := map[string]context.CancelFunc{}
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", "source", source)
 			ctr := factory.Create()
-			ctr.Start(ctx)
+			clientCtx, cancelClient := context.WithCancel(ctx)
+			ctr.Start(clientCtx)
 			client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
 			err := discovery.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
 			if err != nil {
 				slog.Error("discovery error", "error", err)
+				cancelClient()
 				return
 			}
+			stopClient[source.ID] = cancelClient
 			if EnableHeartbeat {
 				client.OnHeartbeat(heartbeatHandler)
 			}
@@ -106,6 +111,10 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 		},
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", "source", source)
+			if cancelClient, ok := stopClient[source.ID]; ok {
+				delete(stopClient, source.ID)
+				cancelClient()
+			}
 		},
 	})
 	enc := json.NewEncoder(os.Stdout)
diff --git a/cmd/vanflow-tool/serve.go b/cmd/vanflow-tool/serve.go
index 55db735..c7de2dd 100644
--- a/cmd/vanflow-tool/serve.go
+++ b/cmd/vanflow-tool/serve.go
@@ -119,11 +119,14 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		slog.Error("container session error", slog.Any("error", err))
 	})
 	discovery := eventsource.NewDiscovery(container, eventsource.DiscoveryOptions{})
+	// ends the containers of the sources' clients
+	stopClient := map[string]context.CancelFunc{}
 	go discovery.Run(ctx, eventsource.DiscoveryHandlers{
 		Discovered: func(source eventsource.Info) {
 			slog.Debug("source discovered", slog.Any("source", source))
 			ctr := factory.Create()
-			ctr.Start(ctx)
+			clientCtx, cancelClient := context.WithCancel(ctx)
+			ctr.Start(clientCtx)
 			ctr.OnSessionError(func(err error) {
 				slog.Error("client container session error", slog.Any("error", err))
 			})
@@ -131,8 +134,10 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 			err := discovery.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: time.Second * 30})
 			if err != nil {
 				slog.Error("discovery error", slog.Any("error", err))
+				cancelClient()
 				return
 			}
+			stopClient[source.ID] = cancelClient
 
 			sourceRef := store.SourceRef{
 				APIVersion: fmt.Sprint(source.Version),
@@ -178,6 +183,10 @@ func serveRecords(ctx context.Context, factory session.ContainerFactory) {
 		Forgotten: func(source eventsource.Info) {
 			slog.Debug("source forgotten", slog.Any("source", source))
 			sources.Delete(source.ID)
+			if cancelClient, ok := stopClient[source.ID]; ok {
+				delete(stopClient, source.ID)
+				cancelClient()
+			}
 		},
 	})
 	loggingHandler := handlers.LoggingHandler(os.Stdout, http.DefaultServeMux)
-- 
2.43.0


From de67c4a4970986af3417d5c900a06c2c50d7d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 22/31] fix: give times past the year 9999 a JSON form

---
 base.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/base.go b/base.go
index 6d1e37d..a0c1974 100644
--- a/base.go
+++ b/base.go
@@ -1,8 +1,10 @@
 package vanflow
 
 import (
+	"encoding/json"
 	"fmt"
 	"math"
+	"strconv"
 	"time"
 
 	"github.com/c-kruse/vanflow/encoding"
@@ -75,3 +77,20 @@ func (t *Time) DecodeRecordAttribute(attr any) error {
 	t.Time = time.UnixMicro(int64(uintAttr))
 	return nil
 }
+
+// MarshalJSON gives the time in RFC 3339 format, or as the number of
+// microseconds since the epoch when it is past what that format represents.
+func (t Time) MarshalJSON() ([]byte, error) {
+	if t.Time.Year() > 9999 {
+		return json.Marshal(t.Time.UnixMicro())
+	}
+	return t.Time.MarshalJSON()
+}
+
+func (t *Time) UnmarshalJSON(data []byte) error {
+	if micros, err := strconv.ParseInt(string(data), 10, 64); err == nil {
+		t.Time = time.UnixMicro(micros)
+		return nil
+	}
+	return t.Time.UnmarshalJSON(data)
+}
-- 
2.43.0


From a43ba68988b668f2a8646a366f39652b8468bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 23/31] fix: give every container of the tool its own backoff

---
 cmd/vanflow-tool/main.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmd/vanflow-tool/main.go b/cmd/vanflow-tool/main.go
index af34975..272d71f 100644
--- a/cmd/vanflow-tool/main.go
+++ b/cmd/vanflow-tool/main.go
@@ -120,12 +120,10 @@ func main() {
 		sasl = session.SASLTypeExternal
 	}
 
-	containerBackoff := backoff.NewExponentialBackOff()
-	containerBackoff.MaxElapsedTime = 60 * time.Second
-	factory := session.NewContainerFactory(connURL, session.ContainerConfig{
-		TLSConfig: tlsCfg, SASLType: sasl,
-		BackOff: containerBackoff,
-	})
+	factory := containerFactory{
+		address: connURL,
+		config:  session.ContainerConfig{TLSConfig: tlsCfg, SASLType: sasl},
+	}
 
 	var cmdHandler func(context.Context, session.ContainerFactory)
 	switch name := flags.Arg(0); name {
@@ -147,6 +145,21 @@ func main() {
 	cmdHandler(ctx, factory)
 }
 
+// containerFactory creates containers that each have a backoff of their own: a
+// backoff strategy keeps the state of one series of retries.
+type containerFactory struct {
+	address string
+	config  session.ContainerConfig
+}
+
+func (f containerFactory) Create() session.Container {
+	containerBackoff := backoff.NewExponentialBackOff()
+	containerBackoff.MaxElapsedTime = 60 * time.Second
+	config := f.config
+	config.BackOff = containerBackoff
+	return session.NewContainer(f.address, config)
+}
+
 type tlsConfig struct {
 	CA     string `json:"ca,omitempty"`
 	Cert   string `json:"cert,omitempty"`
-- 
2.43.0


From ddfe88834c67ac976a8dd60b4649b64064e69c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 24/31] fix: send the records of a message that can be encoded
 when others cannot

---
 eventsource/manager.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index 3fc2702..c7aa095 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -87,8 +87,16 @@ func (m *Manager) sendRecords(ctx context.Context) {
 		case record := <-m.sendQueue:
 			msg, err := record.Encode()
 			if err != nil {
-				slog.Error("skipping record message after encoding error:", slog.Any("error", err))
-				continue
+				// a record that cannot be encoded must not keep back the others
+				slog.Error("skipping records after encoding error:", slog.Any("error", err))
+				record.Records = encodable(record.Records)
+				if len(record.Records) == 0 {
+					continue
+				}
+				if msg, err = record.Encode(); err != nil {
+					slog.Error("skipping record message after encoding error:", slog.Any("error", err))
+					continue
+				}
 			}
 			if err := sender.Send(ctx, msg); err != nil {
 				slog.Error("error sending event source record", slog.Any("error", err))
@@ -98,6 +106,17 @@ func (m *Manager) sendRecords(ctx context.Context) {
 	}
 }
 
+// encodable returns the records that can be encoded
+func encodable(records []vanflow.Record) []vanflow.Record {
+	var out []vanflow.Record
+	for _, record := range records {
+		if _, err := encoding.Encode(record); err == nil {
+			out = append(out, record)
+		}
+	}
+	return out
+}
+
 func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 	if d.Prev == nil {
 		return d.Curr, true
-- 
2.43.0


From dd953b335a12c2021363c571709ad45e0ff212c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 25/31] fix: do not let flow requests end or block the fixture
 server

---
 cmd/vanflow-tool/fixture.go | 64 ++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 179dac6..50eaf94 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -189,16 +189,39 @@ type flowPair struct {
 }
 
 func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
-	stores := map[string]store.Interface{}
-	f.lock.Lock()
-	defer f.lock.Unlock()
-	for id, manager := range f.managers {
-		stores[id] = manager.Stores[0]
+	var request struct {
+		Flows    int `json:"flows"`
+		Duration int `json:"duration"`
 	}
+	if r.Method == http.MethodPost {
+		defer r.Body.Close()
+		err := json.NewDecoder(r.Body).Decode(&request)
+		if err == nil && request.Flows < 0 {
+			err = fmt.Errorf("negative number of flows: %d", request.Flows)
+		}
+		if err != nil {
+			rw.WriteHeader(http.StatusBadRequest)
+			fmt.Fprintf(rw, "Bad request: %s\n", err)
+			fmt.Fprintln(rw, "")
+			fmt.Fprintln(rw, "expected:")
+			request.Flows = 100
+			request.Duration = 3
+			json.NewEncoder(rw).Encode(request)
+			return
+		}
+	}
+
+	// the lock is not held while reading from or writing to the client, which
+	// may take any time
+	f.lock.Lock()
+	managers := f.managers
+	flowsProcessed := f.flowsProcessed
+	f.lock.Unlock()
+
 	flowEntries := make(map[string]store.Entry)
 	flowPairsIDs := make(map[string]string)
-	for _, stor := range stores {
-		result, err := stor.Index(r.Context(), "ByType", store.Entry{TypeMeta: vanflow.FlowRecord{}.GetTypeMeta()}, nil)
+	for _, manager := range managers {
+		result, err := manager.Stores[0].Index(r.Context(), "ByType", store.Entry{TypeMeta: vanflow.FlowRecord{}.GetTypeMeta()}, nil)
 		if err != nil {
 			slog.Error("error querying flow records", slog.Any("error", err))
 			rw.WriteHeader(http.StatusInternalServerError)
@@ -213,30 +236,19 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 	}
 	var flowPairs []flowPair
 	for serverID, clientID := range flowPairsIDs {
+		client, ok := flowEntries[clientID]
+		if !ok {
+			slog.Warn("ignoring flow without its counterflow", slog.String("flow", serverID), slog.String("counterflow", clientID))
+			continue
+		}
 		flowPairs = append(flowPairs, flowPair{
 			Server: flowEntries[serverID],
-			Client: flowEntries[clientID],
+			Client: client,
 		})
 	}
 	if r.Method == http.MethodPost {
-		var request struct {
-			Flows    int `json:"flows"`
-			Duration int `json:"duration"`
-		}
-		defer r.Body.Close()
-		if err := json.NewDecoder(r.Body).Decode(&request); err != nil {
-			rw.WriteHeader(http.StatusBadRequest)
-			fmt.Fprintf(rw, "Bad request: %s\n", err)
-			fmt.Fprintln(rw, "")
-			fmt.Fprintln(rw, "expected:")
-			request.Flows = 100
-			request.Duration = 3
-			json.NewEncoder(rw).Encode(request)
-			return
-		}
-
 		for _, pair := range flowPairs {
-			go f.fakeFlow(pair, f.managers[pair.Server.Meta.Source.Name], f.managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
+			go f.fakeFlow(pair, managers[pair.Server.Meta.Source.Name], managers[pair.Client.Meta.Source.Name], request.Flows, time.Second*time.Duration(request.Duration), 4)
 		}
 	}
 	var response = struct {
@@ -244,7 +256,7 @@ func (f *fixtureServer) ServeFlows(rw http.ResponseWriter, r *http.Request) {
 		FlowsReplayed int        `json:"fixtureFlowsResent"`
 	}{
 		FlowPairs:     flowPairs,
-		FlowsReplayed: f.flowsProcessed,
+		FlowsReplayed: flowsProcessed,
 	}
 	if err := json.NewEncoder(rw).Encode(response); err != nil {
 		slog.Error("error writing response", slog.Any("error", err))
-- 
2.43.0


From 1b399b9da82314ff3151921f1f7f3de0abdea40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 26/31] fix: end the containers of a replaced fixture

---
 cmd/vanflow-tool/fixture.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index 50eaf94..cc5f261 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -104,7 +104,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
 					container := f.factory.Create()
-					container.Start(ctx)
+					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
 						if _, ok := err.(session.RetryableError); !ok {
 							slog.Error("manager container non-retryable container error", slog.Any("error", err), slog.String("manager", src.Name))
-- 
2.43.0


From b959e52be3f94f4d791a3527a99b988cbc818686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 27/31] fix: keep fixture entries of one source together

---
 cmd/vanflow-tool/fixture.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index cc5f261..a616f7b 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -378,8 +378,13 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 	}
 
 	entries := map[store.SourceRef][]store.Entry{}
+	sources := map[string]store.SourceRef{}
 	for _, partial := range request.Data {
-		src := partial.Meta.Source
+		// event sources are told apart by name only
+		src, ok := sources[partial.Meta.Source.Name]
+		if !ok {
+			src = partial.Meta.Source
+		}
 		rtype, ok := recordTypeMap[partial.TypeMeta]
 		if !ok {
 			slog.Warn("ignoring record type not configured", "TypeMeta", partial.TypeMeta, "Record", string(partial.Record))
@@ -395,6 +400,7 @@ func groupEntriesBySource(request ReplaceRequest) map[store.SourceRef][]store.En
 			TypeMeta: partial.TypeMeta,
 			Record:   record.(vanflow.Record),
 		}
+		sources[src.Name] = src
 		entries[src] = append(entries[src], entry)
 	}
 	return entries
-- 
2.43.0


From 335473ebe7ec9e28648eeec7a9b3b29949c05105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:43 +0000
Subject: [PATCH 28/31] fix: do not share the loop variable with the session
 error handlers

---
 cmd/vanflow-tool/fixture.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/vanflow-tool/fixture.go b/cmd/vanflow-tool/fixture.go
index a616f7b..7b564fb 100644
--- a/cmd/vanflow-tool/fixture.go
+++ b/cmd/vanflow-tool/fixture.go
@@ -103,6 +103,7 @@ func (f *fixtureServer) Start(ctx context.Context) {
 				defer manageCancel()
 				managers = map[string]*eventsource.Manager{}
 				for src, stor := range config {
+					src := src // the handler outlives the iteration
 					container := f.factory.Create()
 					container.Start(manageCtx)
 					container.OnSessionError(func(err error) {
-- 
2.43.0


From de395c035dba24de3edafa13de4f19ed292732b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 29/31] fix: keep printing messages after a failed write to
 standard output

---
 cmd/vanflow-tool/log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/vanflow-tool/log.go b/cmd/vanflow-tool/log.go
index 8dee1d1..7aa4a24 100644
--- a/cmd/vanflow-tool/log.go
+++ b/cmd/vanflow-tool/log.go
@@ -117,13 +117,13 @@ func logOnly(ctx context.Context, factory session.ContainerFactory) {
 			}
 		},
 	})
-	enc := json.NewEncoder(os.Stdout)
 	for {
 		select {
 		case <-ctx.Done():
 			return
 		case out := <-outputstream:
-			if err := enc.Encode(out); err != nil {
+			// an encoder that has failed to write writes nothing more
+			if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
 				slog.Error("error writing output stream", "error", err, "obj", out)
 			}
 		}
-- 
2.43.0


From cebd92ea9544da1d2fd54b23254e24899754f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:59 +0000
Subject: [PATCH 30/31] fix: do not hold the registry lock while attribute
 codecs run

Encode and Decode kept the read lock of the type registry while they called
RecordAttributeEncoder and RecordAttributeDecoder implementations. One that
itself encodes or decodes deadlocks as soon as a MustRegisterRecord waits in
between, one that registers a type always does, and a slow one holds up every
registration and all other encoding behind it.
---
 encoding/decoder.go |  2 +-
 encoding/encoder.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index b11072a..6d3a24b 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -34,8 +34,8 @@ func Decode(recordset RecordAttributeSet) (interface{}, error) {
 	}
 
 	mu.RLock()
-	defer mu.RUnlock()
 	encoding, ok := decodings[codepoint]
+	mu.RUnlock()
 	if !ok {
 		return nil, fmt.Errorf("decode error: unknown record type for %d", recordTypeCode)
 	}
diff --git a/encoding/encoder.go b/encoding/encoder.go
index e82411d..1f960f2 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -34,19 +34,17 @@ type RecordAttributeEncoder interface {
 // vanflow protocol. Only records types that have been registered with
 // MustRegisterRecord can be encoded.
 func Encode(record any) (RecordAttributeSet, error) {
-	mu.RLock()
-	defer mu.RUnlock()
 	if record == nil {
 		return nil, errors.New("cannot encode nil record")
 	}
 	recordV := reflect.ValueOf(record)
 	recordT := recordV.Type()
-	encoding, ok := encodings[recordT]
+	encoding, ok := encodingOf(recordT)
 	if !ok {
 		if recordT.Kind() == reflect.Pointer {
 			recordV = recordV.Elem()
 			recordT = recordV.Type()
-			encoding, ok = encodings[recordT]
+			encoding, ok = encodingOf(recordT)
 		}
 		if !ok {
 			return nil, fmt.Errorf("encode error: unregistered record type %T", record)
@@ -59,6 +57,16 @@ func Encode(record any) (RecordAttributeSet, error) {
 	return result, err
 }
 
+// encodingOf looks up the encoding registered for a type. The lock is not held
+// while a record is encoded: a RecordAttributeEncoder may take its time, or
+// call this package.
+func encodingOf(t reflect.Type) (*typeEncoding, bool) {
+	mu.RLock()
+	defer mu.RUnlock()
+	encoding, ok := encodings[t]
+	return encoding, ok
+}
+
 type fieldEncoder interface {
 	encode(v reflect.Value) (interface{}, error)
 }
-- 
2.43.0


From 97bb04cd5815123414ac404cda773aaec0c343bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:32 +0000
Subject: [PATCH 31/31] fix: compare record attributes that are lists or maps

Comparing the attributes of a record type whose encoder returns a list or a
map with != panics, which ended the manager or the caller of Accumulate.
---
 eventsource/manager.go | 3 ++-
 store/patcher.go       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eventsource/manager.go b/eventsource/manager.go
index c7aa095..6d6de22 100644
--- a/eventsource/manager.go
+++ b/eventsource/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"log/slog"
+	"reflect"
 	"time"
 
 	amqp "github.com/Azure/go-amqp"
@@ -140,7 +141,7 @@ func diffRecord(d RecordUpdate) (vanflow.Record, bool) {
 			delta[k] = next[k]
 			continue
 		}
-		if next[k] != pv {
+		if !reflect.DeepEqual(next[k], pv) { // not all values can be compared with ==
 			isDiff = true
 			delta[k] = next[k]
 		}
diff --git a/store/patcher.go b/store/patcher.go
index f3e7114..4157d2c 100644
--- a/store/patcher.go
+++ b/store/patcher.go
@@ -2,6 +2,7 @@ package store
 
 import (
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/c-kruse/vanflow"
@@ -39,7 +40,7 @@ func (p recordPatcher) Patch(curr *Entry) (next Entry, err error) {
 	var changed bool
 	for nK, nV := range nextAttrs {
 		cV, ok := currAttrs[nK]
-		if !ok || cV != nV {
+		if !ok || !reflect.DeepEqual(cV, nV) { // not all values can be compared with ==
 			changed = true
 			currAttrs[nK] = nV
 		}
-- 
2.43.0

