From 77e6476c7616b642a441d2a317864f33405874c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 01/37] fix: report an error when decoding too short an integer

---
 streams/codec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..21ba5a9 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -76,6 +76,9 @@ func (intCodec[T]) Encode(b *bytes.Buffer, i T) error {
 }
 
 func (intCodec[T]) Decode(b []byte) (T, error) {
+	if len(b) < intByteSize {
+		return 0, fmt.Errorf("invalid integer []byte length. Expected at least %d, actual: %d", intByteSize, len(b))
+	}
 	return readIntegerFromByteArray[T](b), nil
 }
 
-- 
2.43.0


From d110c07ef5fd464ccf639807bb29180e78dc5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 02/37] fix: make LexoInt64Codec order preserving for every
 int64

---
 streams/codec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index 21ba5a9..efe7af6 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -109,9 +109,9 @@ func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i-math.MinInt64))
 	}
 	buf.Write(b[:])
 	return nil
@@ -123,11 +123,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := int64(binary.BigEndian.Uint64(b[1:]))
 	if sign == 1 {
 		return val, nil
 	}
-	return val - math.MaxInt64, nil
+	return val + math.MinInt64, nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From 7c1c2577b3a40ed0d7f476c47499e6c1d4942b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 03/37] fix: MinMaxHeap.Push records the position of the item

---
 streams/stores/min_max_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..9d66925 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -128,6 +128,7 @@ func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
 }
 
 func (pq *MinMaxHeap[T]) push(item *PrioritizedItem[T]) {
+	item.index = len(pq.items)
 	pq.items = append(pq.items, item)
 }
 
-- 
2.43.0


From c5e2a6e0dfdabfad049f951b6eb87151904f220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 04/37] fix: MinMaxHeap.Max no longer takes the maximum out of
 the heap order

---
 streams/stores/min_max_heap.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 9d66925..d0aebfe 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,13 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,10 +103,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
+	setMax(pq)
 	return pq.pop()
 }
 
@@ -264,9 +252,9 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element (according to Less), which is the root
+// or one of its children.
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -279,7 +267,14 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
+	return i
+}
 
+// setMax moves the maximum element to the end, outside of the heap, from where it must be popped.
+// The complexity is O(log n) where n = h.Len().
+func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+	n := h.Len()
+	i := maxIndex(h)
 	h.swap(i, n-1)
 	down(h, i, n-1)
 }
-- 
2.43.0


From 87fe5c97fd129047f19759d6979c2bc5c9971b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 05/37] fix: MinMaxHeap.Remove and Update restore the heap
 order in both directions

---
 streams/stores/min_max_heap.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index d0aebfe..6f0bbd9 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -306,9 +306,10 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		// the moved element may belong above or below i, and moving it up may
+		// bring an element to i which belongs below it
+		up(h, i)
+		down(h, i, n)
 	}
 	return h.pop()
 }
@@ -319,7 +320,6 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	up(h, i)
+	down(h, i, h.Len())
 }
-- 
2.43.0


From 88e6d5bbea5610b8fa03ea0cc568d902f8df38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 06/37] fix: SimpleStore.ReceiveChange stores decoded items,
 not undecodable ones

---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From 279dd3e2a99b5c0e002ab5c2ff56bca59de10cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 07/37] fix: a recycled record without a key is produced
 without a key

---
 streams/record.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..89e39ea 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -236,7 +236,10 @@ func addRecordTypeHeader(recordType string, record *kgo.Record) {
 // used internally for producing.
 func (r *Record) toKafkaRecord() *kgo.Record {
 
-	r.kRecord.Key = r.keyBuffer.Bytes()
+	// an unset key is no key, regardless of whether the buffer has been used before
+	if r.keyBuffer.Len() > 0 {
+		r.kRecord.Key = r.keyBuffer.Bytes()
+	}
 
 	// an empty buffer should be a deletion
 	// not sure if nil === empty for these purposes
-- 
2.43.0


From f58fc53e557e082391952c130ddd3d9f753e0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 08/37] fix: Record.ToKafkaRecord copies topic, partition and
 headers and leaves the record alone

---
 streams/record.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/streams/record.go b/streams/record.go
index 89e39ea..d5cc47e 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -260,6 +260,8 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
 	record := new(kgo.Record)
+	record.Topic = r.kRecord.Topic
+	record.Partition = r.kRecord.Partition
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -267,7 +269,13 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	for _, header := range r.kRecord.Headers {
+		record.Headers = append(record.Headers, kgo.RecordHeader{
+			Key:   header.Key,
+			Value: append([]byte(nil), header.Value...),
+		})
+	}
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From 594cf65e6b482d6bc736284fcf1eccb93ceabd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 09/37] fix: an unset min-in-sync resolves to 1 for replicated
 topics

---
 streams/source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/source.go b/streams/source.go
index 236c86b..df2944d 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -220,6 +220,9 @@ func minInSyncConfig(source *Source) int {
 	if source.config.MinInSync >= int(factor) {
 		return source.config.ReplicationFactor - 1
 	}
+	if source.config.MinInSync <= 0 {
+		return 1
+	}
 	return source.config.MinInSync
 }
 
-- 
2.43.0


From 1a236798edd239432fd77e3deb102bf5ab733f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 10/37] fix: use the configured deserialization error handler
 whether or not a txn error handler is set

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index df2944d..7fa316c 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -148,7 +148,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
-- 
2.43.0


From a26fadd4912c2ab0dc21a3c8377953be5f3aea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 11/37] fix: msk IAM authentication passes on the retrieved
 credentials

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..7b93f35 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -168,7 +168,7 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From 9a61f6f6c16e63a29cafc91fd8aa4ff0a9c07840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 12/37] fix: msk uses the cluster of the given name, not one
 whose name it is a prefix of

---
 msk/cluster.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 7b93f35..e5e282d 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -222,15 +222,18 @@ func (c *MskCluster) getClusterArn() (arn string, err error) {
 	}); err != nil {
 		return
 	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
-	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+	for _, ci := range res.ClusterInfoList {
+		// ClusterNameFilter is a prefix
+		if ci.ClusterName != nil && *ci.ClusterName != c.clusterName {
+			continue
+		}
+		if ci.ClusterArn == nil {
+			err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+			return
+		}
+		arn = *ci.ClusterArn
 		return
 	}
-	arn = *ci.ClusterArn
+	err = fmt.Errorf("cluster not found: %s", c.clusterName)
 	return
 }
-- 
2.43.0


From 2495b14f4494cf92464a13d025759567d091abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 13/37] fix: BatchProducer completes the event of an empty
 batch and of a batch without callback

---
 streams/producer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..1614f1f 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -157,6 +160,10 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 		pending:  int64(len(records)),
 		userData: userData,
 	}
+	if len(records) == 0 {
+		// there is no acknowledgement to wait for
+		return b.executeCallback()
+	}
 	p.produceBatch(b)
 	return Incomplete
 }
-- 
2.43.0


From 541dc0ffde0893373978a10c154ce1dede17151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 14/37] fix: classifying an error that is not of the network
 does not crash

---
 streams/topics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..8f842fb 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -195,7 +195,7 @@ func isNetworkError(err error) bool {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
 	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
+		log.Errorf("non network error: %v", err)
 	}
 	return false
 }
-- 
2.43.0


From a77f426694f759ebaaf54dfd687bd2e89bbe02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 15/37] fix: report topics which the brokers refuse to create

---
 streams/topics.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/streams/topics.go b/streams/topics.go
index 8f842fb..71535c5 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,15 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, topicRes := range res {
+		if topicRes.Err != nil && !errors.Is(topicRes.Err, kerr.TopicAlreadyExists) {
+			return topicRes.Err
+		}
+	}
+	return nil
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
-- 
2.43.0


From 41507df63962ade8f8e6ee227c8041e996dc9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 16/37] fix: CreateDestination creates its topic, once, and
 reports failures

---
 streams/topics.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index 71535c5..f64c165 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -155,14 +155,15 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	adminClient := kadm.NewClient(client)
+	minInSync := fmt.Sprintf("%d", destination.MinInSync)
+	err = createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
+		"min.insync.replicas": sak.Ptr(minInSync),
+	}, destination.DefaultTopic)
 	return destination, err
 }
 
@@ -171,6 +172,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
-- 
2.43.0


From 62dd7f8ef56ab4e89978f7ef450ee45bdc3eed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 17/37] fix: do not commit a transaction with a record which
 could not be produced

---
 streams/eos_producer.go | 43 ++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..31f6abc 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -266,7 +266,8 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
-	// errs                  []error
+	errorLock         sync.Mutex
+	txnError          error // the first error of the current txn, must not be commited if set
 }
 
 func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, metrics chan Metric, errorChannel chan error) *producerNode[T] {
@@ -326,13 +327,32 @@ func (p *producerNode[T]) addEventContext(ec *EventContext[T]) bool {
 func (p *producerNode[T]) beginTransaction() {
 	if err := p.client.BeginTransaction(); err != nil {
 		log.Errorf("could not begin txn err: %v", err)
-		select {
-		case p.errorChannel <- err:
-		default:
-		}
+		p.reportError(err)
+	}
+}
+
+// reportError remembers the first error of the current transaction, so that it will not be commited, and informs the producer pool.
+func (p *producerNode[T]) reportError(err error) {
+	p.errorLock.Lock()
+	if p.txnError == nil {
+		p.txnError = err
+	}
+	p.errorLock.Unlock()
+	select {
+	case p.errorChannel <- err:
+	default:
 	}
 }
 
+// takeError returns and forgets the first error of the current transaction.
+func (p *producerNode[T]) takeError() error {
+	p.errorLock.Lock()
+	defer p.errorLock.Unlock()
+	err := p.txnError
+	p.txnError = nil
+	return err
+}
+
 func (p *producerNode[T]) finalizeEventContexts(first, last *EventContext[T]) error {
 	commitRecordProduced := false
 	// we'll now iterate in reverse order - committing the largest offset
@@ -378,6 +398,14 @@ func (p *producerNode[T]) commit() error {
 		log.Errorf("eos producer error: %v", err)
 		return err
 	}
+	// a record which could not be produced does not fail Flush or EndTransaction. if we commit, it is lost.
+	if err = p.takeError(); err != nil && p.txnErrorHandler(err) != Continue {
+		log.Errorf("eos producer error, aborting txn: %v", err)
+		if abortErr := p.client.EndTransaction(p.txnContext, kgo.TryAbort); abortErr != nil {
+			log.Errorf("eos producer abort error: %v", abortErr)
+		}
+		return err
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
@@ -523,10 +551,7 @@ func (p *producerNode[T]) produceKafkaRecord(record *Record, cb func(*Record, er
 		atomic.AddInt64(&p.byteCount, int64(recordSize(*r)))
 		if err != nil {
 			log.Errorf("%v, record %+v", err, r)
-			select {
-			case p.errorChannel <- err:
-			default:
-			}
+			p.reportError(err)
 		}
 		if cb != nil {
 			cb(record, err)
-- 
2.43.0


From fab03dfb5477917b6ac1d976d28cf295ecfb1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 18/37] fix: a transaction beyond its limits is flushed before
 another event is added

---
 streams/eos_producer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 31f6abc..4d981a9 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -148,6 +148,10 @@ func (pp *eosProducerPool[T]) doForwardExecutionContexts(ec *EventContext[T]) {
 		ec.revocationWaiter.Done()
 		return
 	}
+	// records are produced asynchronously, so the onDeck producer may have become full since the last event was added
+	if pp.shouldForceFlush() {
+		pp.tryFlush()
+	}
 	txnStarted := pp.onDeck.addEventContext(ec)
 	pp.partitionOwners.conditionallyUpdate(ec.partition(), pp.onDeck)
 	ec.producerChan <- pp.onDeck
@@ -175,7 +179,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From b7578c0f8d5d7f54f8f31a5405f6e0856a02b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 19/37] fix: fetching neither blocks nor panics when a
 partition is revoked

---
 streams/partition_worker.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..3be36bb 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -123,7 +123,11 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+		// revoked while waiting, do not block the consumer
+	}
 }
 
 func (pw *partitionWorker[T]) revoke() {
@@ -151,9 +155,6 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
-			close(pw.partitionInput)
-			close(pw.eventInput)
-			close(pw.asyncCompleter.asyncJobs)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
-- 
2.43.0


From 9329ceb197009194a3a3a35d9f02737bb588bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:14 +0000
Subject: [PATCH 20/37] fix: one-off interjections are always answered

---
 streams/partition_worker.go | 20 ++++++++++++++++++++
 streams/source_consumer.go  | 15 ++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 3be36bb..ff67b17 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -69,6 +69,7 @@ type partitionWorker[T StateStore] struct {
 	stopSignal             chan struct{}
 	revokedSignal          chan struct{}
 	stopped                chan struct{}
+	closed                 chan struct{} // closed once all processing has stopped
 	changeLog              changeLogPartition[T]
 	eventSource            *EventSource[T]
 	runStatus              sak.RunStatus
@@ -98,6 +99,7 @@ func newPartitionWorker[T StateStore](
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
 		stopped:        make(chan struct{}),
+		closed:         make(chan struct{}),
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
@@ -130,6 +132,21 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 	}
 }
 
+// hands a one-off interjection to the worker. if the worker is revoked and will not execute it, its callback is invoked.
+func (pw *partitionWorker[T]) interject(ij *interjection[T]) {
+	select {
+	case pw.interjectionInput <- ij:
+		select {
+		case <-pw.closed:
+			// pushRecords may have returned without seeing this interjection
+			ij.callback()
+		default:
+		}
+	case <-pw.runStatus.Done():
+		ij.callback()
+	}
+}
+
 func (pw *partitionWorker[T]) revoke() {
 	pw.runStatus.Halt()
 }
@@ -155,6 +172,9 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
+			close(pw.closed)
+			// answer one-off interjections which did not make it
+			pw.interleaveInterjection()
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..214099b 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -286,11 +286,12 @@ func (sc *eventSourceConsumer[T]) start() {
 }
 
 // Inserts the interjection into the appropriate partition workers interjectionChannel. Returns immediately if the partiotns is not currently assigned.
+// The returned channel is closed once the interjection was executed, or receives an error if the partition is revoked before that.
 func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T]) <-chan error {
 	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
-	c := make(chan error, 1)
 	w := sc.workers[partition]
+	sc.workerMux.Unlock()
+	c := make(chan error, 1)
 	if w == nil {
 		c <- ErrPartitionNotAssigned
 		return c
@@ -299,15 +300,19 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
+	var answerOnce sync.Once
+	w.interject(&interjection[T]{
 		isOneOff:       true,
 		topicPartition: w.topicPartition,
 		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
 			state := cmd(ec, t)
-			close(c)
+			answerOnce.Do(func() { close(c) })
 			return state
 		},
-	}
+		callback: func() {
+			answerOnce.Do(func() { c <- ErrPartitionNotAssigned })
+		},
+	})
 	return c
 }
 
-- 
2.43.0


From 40dfae064e8cdf4406b1bc40bc94c67ff9614009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 21/37] fix: partitions can be assigned without an incremental
 balance strategy

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 214099b..db7a8ac 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -217,7 +217,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
-- 
2.43.0


From 9396d51c63fa987ece85c93613eb23723dc91149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 22/37] fix: a partition is reported revoked only after its
 events have finished, and never activated after that

---
 streams/partition_worker.go | 41 +++++++++++++++++++++++++++++++++++--
 streams/source_consumer.go  | 33 ++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index ff67b17..b241a8c 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -15,6 +15,7 @@
 package streams
 
 import (
+	"context"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -58,6 +59,13 @@ func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
 	ac.asyncJobs <- j
 }
 
+// values of partitionWorker.ready
+const (
+	workerInitializing int64 = iota
+	workerReady
+	workerAbandoned
+)
+
 type partitionWorker[T StateStore] struct {
 	eosProducer            *eosProducerPool[T]
 	partitionInput         chan []*kgo.Record
@@ -69,6 +77,7 @@ type partitionWorker[T StateStore] struct {
 	stopSignal             chan struct{}
 	revokedSignal          chan struct{}
 	stopped                chan struct{}
+	activated              chan struct{} // closed once the application was told that the partition is active
 	closed                 chan struct{} // closed once all processing has stopped
 	changeLog              changeLogPartition[T]
 	eventSource            *EventSource[T]
@@ -99,6 +108,7 @@ func newPartitionWorker[T StateStore](
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
 		stopped:        make(chan struct{}),
+		activated:      make(chan struct{}),
 		closed:         make(chan struct{}),
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
@@ -117,7 +127,30 @@ func newPartitionWorker[T StateStore](
 	return pw
 }
 func (pw *partitionWorker[T]) canInterject() bool {
-	return atomic.LoadInt64(&pw.ready) != 0
+	return atomic.LoadInt64(&pw.ready) == workerReady
+}
+
+// blocks until a worker which has started processing is completely activated.
+// a worker which did not start processing yet, will not do so after this call.
+func (pw *partitionWorker[T]) awaitActivation(ctx context.Context) {
+	if atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerAbandoned) {
+		return
+	}
+	select {
+	case <-pw.activated:
+	case <-ctx.Done():
+	}
+}
+
+// blocks until a revoked worker has finished all events which were in flight.
+func (pw *partitionWorker[T]) awaitClosed(ctx context.Context) {
+	if !pw.canInterject() {
+		return
+	}
+	select {
+	case <-pw.closed:
+	case <-ctx.Done():
+	}
 }
 
 func (pw *partitionWorker[T]) add(records []*kgo.Record) {
@@ -238,12 +271,15 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
 	waiter()
+	if !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerReady) {
+		log.Debugf("partitionWorker for %+v was revoked before it was activated", pw.topicPartition)
+		return
+	}
 	pw.eventSource.consumer.Client().ResumeFetchPartitions(map[string][]int32{
 		pw.topicPartition.Topic: {pw.topicPartition.Partition},
 	})
 	// resume partition if it was paused
 	go pw.pushRecords()
-	atomic.StoreInt64(&pw.ready, 1)
 	log.Debugf("partitionWorker activated %+v in %v, interjectionCount: %d", pw.topicPartition, elapsed, len(interjections))
 	ijPtrs := sak.ToPtrSlice(interjections)
 	for _, ij := range ijPtrs {
@@ -251,6 +287,7 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 		ij.tick()
 	}
 	pw.eventSource.source.onPartitionActivated(pw.topicPartition.Partition)
+	close(pw.activated)
 	for {
 		select {
 		case ec := <-pw.eventInput:
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index db7a8ac..8ba7768 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -43,6 +43,9 @@ type eventSourceConsumer[T StateStore] struct {
 	// prepping           map[int32]*partitionPrepper[T]
 }
 
+// The time we allow for events to finish when their partition is revoked. Slightly longer than the producer's transaction timeout.
+const revocationTimeout = 31 * time.Second
+
 // Creates a new eventSourceConsumer.
 // `eventSource` must be a fully initialized EventSource.
 func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additionalClientOptions ...kgo.Opt) (*eventSourceConsumer[T], error) {
@@ -188,6 +191,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 }
 
 func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []int32) {
+	// notify observers, before any of the partitions may become active
+	sc.source.onPartitionsAssigned(partitions)
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
@@ -220,23 +225,41 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	if sc.incrBalancer != nil {
 		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
 	}
-	// notify observers
-	sc.source.onPartitionsAssigned(partitions)
 }
 
-func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
+func (sc *eventSourceConsumer[T]) removeWorker(partition int32) (*partitionWorker[T], bool) {
 	sc.workerMux.Lock()
 	defer sc.workerMux.Unlock()
+	worker, ok := sc.workers[partition]
+	delete(sc.workers, partition)
+	return worker, ok
+}
+
+func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
 	if sc.partitionedStore == nil {
 		return
 	}
+	// do not hold up the group indefinitely if a transaction can not be commited, or if we are stopping altogether
+	ctx, cancel := context.WithTimeout(sc.ctx, revocationTimeout)
+	defer cancel()
 
+	revoked := make([]*partitionWorker[T], 0, len(partitions))
 	for _, p := range partitions {
+		worker, ok := sc.removeWorker(p)
+		if ok {
+			worker.awaitActivation(ctx)
+		}
 		sc.source.onPartitionWillRevoke(p)
-		if worker, ok := sc.workers[p]; ok {
+		if ok {
 			worker.revoke()
-			delete(sc.workers, p)
+			revoked = append(revoked, worker)
 		}
+	}
+	// events which are in flight use the state store, and their transactions must be commited before another consumer takes over
+	for _, worker := range revoked {
+		worker.awaitClosed(ctx)
+	}
+	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
-- 
2.43.0


From a96cbd86e71c9967d8f1df8a2028286f51b707ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 23/37] fix: the restoration of a state store can be canceled
 and started over at any time

---
 streams/partition_worker.go     |   7 +-
 streams/source_consumer.go      |  18 +--
 streams/state_store_consumer.go | 227 ++++++++++++++++++++++----------
 3 files changed, 172 insertions(+), 80 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index b241a8c..7a05eed 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -94,7 +94,7 @@ func newPartitionWorker[T StateStore](
 	commitLog *eosCommitLog,
 	changeLog changeLogPartition[T],
 	eosProducer *eosProducerPool[T],
-	waiter func()) *partitionWorker[T] {
+	waiter func() bool) *partitionWorker[T] {
 
 	eosConfig := eventSource.source.config.EosConfig
 
@@ -257,7 +257,7 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	pw.interjectionEventInput <- ec
 }
 
-func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
+func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func() bool, commitLog *eosCommitLog) {
 	elapsed := sincer{time.Now()}
 	// the partition is not ready to receive events as it is still bootstrapping the state store.
 	// in the case where this partition was assigned due to a failure on another consumer, this could be a lengthy process
@@ -270,8 +270,7 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	// this function will block until all changelogs for this partition are populated
 	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
-	waiter()
-	if !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerReady) {
+	if !waiter() || !atomic.CompareAndSwapInt64(&pw.ready, workerInitializing, workerReady) {
 		log.Debugf("partitionWorker for %+v was revoked before it was activated", pw.topicPartition)
 		return
 	}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 8ba7768..1bcb9cc 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -152,7 +152,10 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			start := time.Now()
 			log.Debugf("prepping %+v", tp)
 
-			ssp.sync()
+			if !ssp.syncPrepared() {
+				log.Debugf("preparation of %+v was canceled", tp)
+				return
+			}
 			processed := ssp.processed()
 			duration := time.Since(start)
 
@@ -183,6 +186,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 	if _, ok := sc.prepping[tp.Partition]; ok {
 		sc.stateStoreConsumer.cancelPartition(tp.Partition)
 		delete(sc.prepping, tp.Partition)
+		// if this partition is ever prepared again, it starts over
+		sc.partitionedStore.revoke(tp.Partition)
 	} else {
 		// what to do? probably nothing, but if we have a double assignment, we could have problems
 		// need to investigate this race condition further
@@ -208,17 +213,11 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		if prepper, ok := sc.prepping[p]; ok {
 			log.Infof("syncing prepped partition %+v", prepper.topicPartition)
 			delete(sc.prepping, p)
-			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
-				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
-			})
+			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.syncActivated)
 		} else if _, ok := sc.workers[p]; !ok {
 			prepper = sc.stateStoreConsumer.activatePartition(p, store)
 			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
-			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
-				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
-			})
+			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, prepper.syncActivated)
 		}
 
 	}
@@ -260,6 +259,7 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 		worker.awaitClosed(ctx)
 	}
 	for _, p := range partitions {
+		sc.stateStoreConsumer.cancelPartition(p)
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..5d0f3d5 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -47,68 +47,126 @@ type StateStore interface {
 	Revoked()
 }
 
+// stateStorePartition populates the store of a partition, once. Every time that a partition is prepared or activated, it gets a new one.
 type stateStorePartition[T StateStore] struct {
 	buffer         chan []*kgo.Record
+	canceled       chan struct{} // closed once the store must not be populated any further
+	populated      chan struct{} // closed once the store will not be populated any further
+	cancelOnce     sync.Once
 	client         *kgo.Client
-	waiters        map[string]chan struct{}
+	waiters        map[string]stateStoreWaiter
 	topicPartition TopicPartition
 	state          partitionState
 	count          uint64
 	byteCount      uint64
 	waiterLock     sync.Mutex
-	highWatermark  int64
+	startedDuring  uint64 // the poll which was ongoing when we started, it may still return records from before that
+}
+
+type stateStoreWaiter struct {
+	c     chan struct{}
+	final bool // the store is complete at this mark, we're about to become active
+}
+
+func newStateStorePartition[T StateStore](client *kgo.Client, tp TopicPartition) *stateStorePartition[T] {
+	return &stateStorePartition[T]{
+		buffer:         make(chan []*kgo.Record, 1024),
+		canceled:       make(chan struct{}),
+		populated:      make(chan struct{}),
+		client:         client,
+		waiters:        make(map[string]stateStoreWaiter, 2),
+		topicPartition: tp,
+		state:          paused,
+	}
 }
 
 func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+	select {
+	case ssp.buffer <- ftp.FetchPartition.Records:
+	case <-ssp.canceled:
+	}
 }
 
 func (ssp *stateStorePartition[T]) pause() {
-	ssp.setState(paused)
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.PauseFetchPartitions(map[string][]int32{
 		topic: {partition},
 	})
-
 }
 
-func (ssp *stateStorePartition[T]) kill() {
-	if ssp.buffer != nil {
-		close(ssp.buffer)
-		ssp.buffer = nil
-	}
+// stops populating the store. the stateStoreConsumer will pause the partition when it next receives records for it.
+func (ssp *stateStorePartition[T]) cancel() {
+	ssp.cancelOnce.Do(func() {
+		ssp.setState(paused)
+		close(ssp.canceled)
+	})
 }
 
-func (ssp *stateStorePartition[T]) cancel() {
-	ssp.pause()
-	ssp.kill()
+func (ssp *stateStorePartition[T]) isCanceled() bool {
+	select {
+	case <-ssp.canceled:
+		return true
+	default:
+		return false
+	}
 }
 
-func (ssp *stateStorePartition[T]) addWaiter() (c chan struct{}, mark []byte) {
+func (ssp *stateStorePartition[T]) addWaiter(final bool) (c chan struct{}, mark []byte) {
 	ssp.waiterLock.Lock()
 	defer ssp.waiterLock.Unlock()
 	c = make(chan struct{})
 	s := uuid.NewString()
 	mark = []byte(s)
-	ssp.waiters[s] = c
+	ssp.waiters[s] = stateStoreWaiter{c, final}
 	return
 }
 
-func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (chan struct{}, bool) {
+func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (stateStoreWaiter, bool) {
 	ssp.waiterLock.Lock()
 	defer ssp.waiterLock.Unlock()
-	if c, ok := ssp.waiters[string(mark)]; ok {
-		delete(ssp.waiters, string(mark))
-		return c, true
-	}
-	return nil, false
+	waiter, ok := ssp.waiters[string(mark)]
+	delete(ssp.waiters, string(mark))
+	return waiter, ok
 }
 
-func (ssp *stateStorePartition[T]) sync() {
-	c, mark := ssp.addWaiter()
-	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	<-c
+// blocks until the store has caught up, which makes the partition ready to be assigned.
+// returns false if that is not going to happen, because the preparation was canceled.
+func (ssp *stateStorePartition[T]) syncPrepared() bool {
+	return ssp.sync(false)
+}
+
+// blocks until the store is complete. the store is not populated any further after that.
+// returns false if that is not going to happen, because the partition was revoked in the meantime.
+func (ssp *stateStorePartition[T]) syncActivated() bool {
+	return ssp.sync(true)
+}
+
+func (ssp *stateStorePartition[T]) sync(final bool) bool {
+	c, mark := ssp.addWaiter(final)
+	for {
+		err := sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
+		if err == nil {
+			break
+		}
+		log.Errorf("unable to send marker message to: %+v, error: %v", ssp.topicPartition, err)
+		select {
+		case <-ssp.canceled:
+			return false
+		case <-time.After(time.Second):
+		}
+	}
+	select {
+	case <-c:
+		return true
+	case <-ssp.canceled:
+	}
+	select {
+	case <-c:
+		return true
+	default:
+		return false
+	}
 }
 
 func (ssp *stateStorePartition[T]) processed() uint64 {
@@ -129,9 +187,11 @@ func (ssp *stateStorePartition[T]) setState(state partitionState) {
 
 func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
 	ssp.setState(intitialState)
-	ssp.count = 0
-	ssp.byteCount = 0
-	ssp.buffer = make(chan []*kgo.Record, 1024)
+	ssp.rewind()
+	go ssp.populate(store)
+}
+
+func (ssp *stateStorePartition[T]) rewind() {
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
 	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
@@ -140,33 +200,35 @@ func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store chan
 	ssp.client.ResumeFetchPartitions(map[string][]int32{
 		topic: {partition},
 	})
-	go ssp.populate(store)
 }
 
 func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool) {
-	var waiter chan struct{}
-	var ok bool
-	if waiter, ok = ssp.removeWaiterForMark(val); !ok {
+	waiter, ok := ssp.removeWaiterForMark(val)
+	if !ok {
 		return
 	}
-	switch ssp.partitionState() {
-	case prepping:
-		log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
-		ssp.setState(ready)
-	case ready:
-		log.Debugf("transitioning from ready to paused for %+v", ssp.topicPartition)
-		complete = true
+	close(waiter.c)
+	if waiter.final {
+		log.Debugf("transitioning to paused for %+v", ssp.topicPartition)
 		ssp.cancel()
+		return true
 	}
-	close(waiter)
+	log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
+	atomic.CompareAndSwapUint32((*uint32)(&ssp.state), uint32(prepping), uint32(ready))
 	return
 }
 
 func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
+	defer close(ssp.populated)
 	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
-			log.Debugf("closed populator for %+v", ssp.topicPartition)
+	for {
+		select {
+		case records := <-ssp.buffer:
+			if !ssp.handleRecordsAndContinue(records, store) {
+				log.Debugf("closed populator for %+v", ssp.topicPartition)
+				return
+			}
+		case <-ssp.canceled:
 			return
 		}
 	}
@@ -174,6 +236,9 @@ func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
 
 func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Record, store changeLogPartition[T]) bool {
 	for _, record := range records {
+		if ssp.isCanceled() {
+			return false
+		}
 		if isMarkerRecord(record) {
 			if ssp.isCompletionMarker(record.Value) {
 				return false
@@ -198,11 +263,11 @@ type stateStoreConsumer[T StateStore] struct {
 	client     *kgo.Client
 	mux        sync.Mutex
 	topic      string
+	polls      uint64
 }
 
 func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source) *stateStoreConsumer[T] {
 	partitionCount := int32(source.config.NumPartitions)
-	stateStorePartitions := make(map[int32]*stateStorePartition[T], partitionCount)
 	assignments := make(map[int32]kgo.Offset, partitionCount)
 	partitions := make([]int32, partitionCount)
 
@@ -226,20 +291,10 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 		topic: partitions,
 	})
 
-	for i := int32(0); i < partitionCount; i++ {
-		stateStorePartitions[i] = &stateStorePartition[T]{
-			topicPartition: TopicPartition{Partition: i, Topic: topic},
-			waiters:        make(map[string]chan struct{}, 2),
-			client:         client,
-			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
-			highWatermark:  -1,
-		}
-	}
 	ssc := &stateStoreConsumer[T]{
 		runStatus:  runStatus,
 		source:     source,
-		partitions: stateStorePartitions,
+		partitions: make(map[int32]*stateStorePartition[T], partitionCount),
 		client:     client,
 		topic:      topic,
 	}
@@ -249,6 +304,7 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 
 func (ssc *stateStoreConsumer[T]) consume() {
 	for ssc.runStatus.Running() {
+		ssc.startPoll()
 		ctx, f := pollConsumer(ssc.client)
 		if f.IsClientClosed() {
 			log.Debugf("stateStoreConsumer client closed")
@@ -261,10 +317,7 @@ func (ssc *stateStoreConsumer[T]) consume() {
 			}
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
-			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
+			if ssp := ssc.receiver(partitionFetch.Partition); ssp != nil {
 				ssp.add(partitionFetch)
 			}
 		})
@@ -274,26 +327,66 @@ func (ssc *stateStoreConsumer[T]) consume() {
 	ssc.client.Close()
 }
 
-func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
+func (ssc *stateStoreConsumer[T]) startPoll() {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.cancel()
+	ssc.polls++
 }
 
-func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+// returns the stateStorePartition which is currently populating, or pauses the partition if there is none.
+func (ssc *stateStoreConsumer[T]) receiver(p int32) *stateStorePartition[T] {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
 	ssp := ssc.partitions[p]
-	ssp.prep(prepping, store)
+	if ssp == nil {
+		return nil
+	}
+	if ssp.partitionState() == paused {
+		ssp.pause()
+		return nil
+	}
+	if ssp.startedDuring == ssc.polls {
+		// these records may have been fetched for its predecessor
+		ssp.rewind()
+		return nil
+	}
 	return ssp
 }
 
+// stops populating the store of the partition. the store does not receive any changes after this call.
+func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
+	ssc.mux.Lock()
+	ssp := ssc.partitions[p]
+	ssc.mux.Unlock()
+	if ssp != nil {
+		ssp.cancel()
+		<-ssp.populated
+	}
+}
+
+func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+	return ssc.startPartition(p, prepping, store)
+}
+
 func (ssc *stateStoreConsumer[T]) activatePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+	return ssc.startPartition(p, ready, store)
+}
+
+func (ssc *stateStoreConsumer[T]) startPartition(p int32, initialState partitionState, store changeLogPartition[T]) *stateStorePartition[T] {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.prep(ready, store)
+	predecessor := ssc.partitions[p]
+	ssp := newStateStorePartition[T](ssc.client, ntp(p, ssc.topic))
+	ssc.partitions[p] = ssp
+	if predecessor != nil {
+		predecessor.cancel()
+		ssp.startedDuring = ssc.polls
+	}
+	ssp.prep(initialState, store)
+	if !ssc.runStatus.Running() {
+		// there are no more records to come
+		ssp.cancel()
+	}
 	return ssp
 }
 
@@ -301,7 +394,7 @@ func (ssc *stateStoreConsumer[T]) stop() {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
 	for _, ssp := range ssc.partitions {
-		ssp.kill()
+		ssp.cancel()
 	}
 }
 
-- 
2.43.0


From 707418fd05bc6a9328246f2a6bfcda160e98b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 24/37] fix: a scheduled interjection which completes
 asynchronously is scheduled again

---
 streams/interjection.go     | 2 +-
 streams/partition_worker.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/interjection.go b/streams/interjection.go
index 6bc282f..244aefe 100644
--- a/streams/interjection.go
+++ b/streams/interjection.go
@@ -63,7 +63,7 @@ func (ij *interjection[T]) timerDuration() time.Duration {
 
 // schedules the next interjection
 func (ij *interjection[T]) tick() {
-	if ij.isOneOff {
+	if ij.isOneOff || ij.cancelled {
 		return
 	}
 	delay := ij.timerDuration()
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 7a05eed..e4295d2 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -316,6 +316,9 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if inter := job.ctx.interjection; inter != nil {
+			inter.tick()
+		}
 	}
 }
 
-- 
2.43.0


From 86c776e28adc5f0107e15341da2892ba6e74e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 25/37] fix: metrics are dropped, never waited for, and never
 sent to a closed channel

---
 streams/eos_producer.go    |  4 ++--
 streams/event_source.go    | 10 +++++++---
 streams/source_consumer.go | 22 ++++++++++------------
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 4d981a9..91a4176 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -440,7 +440,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
 	if p.metrics != nil && p.produceCnt > 0 {
-		p.metrics <- Metric{
+		emitMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -451,7 +451,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(p.byteCount),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	p.produceCnt = 0
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..1dad450 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -117,9 +117,14 @@ func (es *EventSource[T]) closeOnFail() {
 }
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
-	if es.metrics != nil {
+	emitMetric(es.metrics, m)
+}
+
+// hands a metric to the metrics handler. if it can not keep up, or if we're stopping, the metric is dropped.
+func emitMetric(metrics chan Metric, m Metric) {
+	if metrics != nil {
 		select {
-		case es.metrics <- m:
+		case metrics <- m:
 		default:
 			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
 		}
@@ -139,7 +144,6 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
 			return
 		}
 	}
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 1bcb9cc..d475372 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -162,18 +162,16 @@ func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
 			log.Debugf("Prepped %+v, %d messages in %v (tps: %d)",
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
 			sc.incrBalancer.PartitionPrepared(tp)
-			if sc.metrics != nil {
-				sc.metrics <- Metric{
-					Operation:      PartitionPreppedOperation,
-					StartTime:      start,
-					EndTime:        time.Now(),
-					PartitionCount: 1,
-					Partition:      partition,
-					Count:          int(processed),
-					Bytes:          int(ssp.processedBytes()),
-					GroupId:        sc.source.GroupId(),
-				}
-			}
+			emitMetric(sc.metrics, Metric{
+				Operation:      PartitionPreppedOperation,
+				StartTime:      start,
+				EndTime:        time.Now(),
+				PartitionCount: 1,
+				Partition:      partition,
+				Count:          int(processed),
+				Bytes:          int(ssp.processedBytes()),
+				GroupId:        sc.source.GroupId(),
+			})
 		}()
 	}
 }
-- 
2.43.0


From ece117f679158d725066946f428395530ffc112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 26/37] fix: a member which has been let go counts as leaving,
 not as an active member

---
 streams/group_state.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..c2cacc2 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,10 +120,11 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
-			gs.inactiveMembers.ReplaceOrInsert(incrMem)
-		} else {
+		if incrMem.meta.Status == ActiveMember {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
+		} else {
+			// a member which is leaving, or which has already been let go and is about to close its client
+			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		}
 	}
 	log.Debugf("activeMembers: %d, inactiveMembers: %d", gs.activeMembers.Len(), gs.inactiveMembers.Len())
-- 
2.43.0


From 07b46e54d77332b3b3dd1113627acdd9b54b9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 27/37] fix: partitions which a topic does not have are not
 assigned

---
 streams/group_state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/group_state.go b/streams/group_state.go
index c2cacc2..6cf66f0 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -135,6 +135,10 @@ func (gs groupState) initAssignments(incrMem *incrGroupMember, meta *kmsg.Consum
 	for _, owned := range meta.OwnedPartitions {
 		if gs.topic == owned.Topic {
 			for _, p := range owned.Partitions {
+				if p < 0 || p >= gs.partitionCount {
+					log.Errorf("GroupState unknown partition: %d, rejected: %s", p, incrMem.member.MemberID)
+					continue
+				}
 				delete(gs.unassigned, p)
 				if owner, ok := gs.assigned[p]; ok {
 					// somehow we ended up double assigning a partiton ...going to take some investigation
-- 
2.43.0


From 50d0799fe7e1be211ab9358769b8a1b0f94a99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 28/37] fix: a partition is only reported as prepared while its
 preparation is asked for

---
 streams/incr_rebalancer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..44dacaf 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -295,7 +295,10 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 func (ir *incrementalRebalancer) PartitionPrepared(tp TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	ir.preparing.Remove(tp)
+	if !ir.preparing.Remove(tp) {
+		// it has been assigned or forgotten in the meantime, reporting it as ready would keep the group from ever moving another one
+		return
+	}
 	ir.ready.Insert(tp)
 	go ir.client().ForceRebalance()
 }
-- 
2.43.0


From 79d07683daed3717bfbdc3df9056279174c78dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 29/37] fix: every partition which is to be forgotten is
 forgotten

---
 streams/incr_rebalancer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 44dacaf..1c6b03d 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -413,10 +413,10 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-				go func() {
+				go func(tp TopicPartition) {
+					defer wg.Done()
 					ir.instructionHandler.ForgetPreparedTopicPartition(tp)
-					wg.Done()
-				}()
+				}(tp)
 			} else {
 				wg.Done()
 			}
-- 
2.43.0


From 9ddb0c9dd50f122d0409385a5af4c5cac76af7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 30/37] fix: an async item queue which was found empty is seen
 to be filled again

---
 streams/async_item_queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..1fca6c5 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// an item may have been put into the channel after the last one was dequeued
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From b27b62aa11da4386acefe4e4a8b3c62bf0de06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 31/37] fix: a job which a closed scheduler drops does not
 complete its event

---
 streams/async_scheduler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..be51de7 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -230,7 +230,8 @@ func (ap *AsyncJobScheduler[S, K, V]) newQueue() interface{} {
 // Schedules the value for processing in order by key. The finalizer will be invoked once processing is complete.
 func (ap *AsyncJobScheduler[S, K, V]) Schedule(ec *EventContext[S], key K, value V) ExecutionState {
 	if ap.isClosed() {
-		return Complete
+		// the job is never going to be processed, so its event must not be considered complete
+		return Incomplete
 	}
 	ap.scheduleItem(asyncJobContainer[S, K, V]{
 		eventContext: ec,
-- 
2.43.0


From d5076497ce55856f83f0849d8f8fe43cbc672c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 32/37] fix: scheduling a job returns when the scheduler shuts
 down

---
 streams/async_scheduler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index be51de7..f1fc447 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -350,7 +350,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
-- 
2.43.0


From 8be04b7e81c125a5b5f62013219ad30cc7ad0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 33/37] fix: changing the limit of concurrent keys keeps every
 pending worker

---
 streams/async_scheduler.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index f1fc447..35fd6ab 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -111,6 +111,7 @@ type AsyncJobScheduler[S StateStore, K comparable, V any] struct {
 	workerMap         map[K]*worker[S, K, V]
 	workerChannel     chan *worker[S, K, V] // functions as a blocking queue
 	workerQueueDepth  int64
+	concurrency       int
 	maxConcurrentKeys int
 	mux               sync.Mutex
 	updateRWLock      sync.RWMutex
@@ -192,6 +193,7 @@ func NewAsyncJobScheduler[S StateStore, K comparable, V any](
 		processor:         processor,
 		finalizer:         finalizer,
 		workerQueueDepth:  int64(config.WorkerQueueDepth),
+		concurrency:       config.Concurrency,
 		workerFreeSignal:  make(chan struct{}, 1),
 		workerMap:         make(map[K]*worker[S, K, V], maxConcurrentKeys),
 		workerChannel:     make(chan *worker[S, K, V], maxConcurrentKeys+1),
@@ -313,29 +315,28 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
 	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
-
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
-	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
+	ap.maxConcurrentKeys = SchedulerConfig{Concurrency: ap.concurrency, MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	ap.ensureWorkerChannelCapacity(ap.maxConcurrentKeys)
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(size int) {
+	oldChan := ap.workerChannel
+	if size >= cap(oldChan) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
 			if there is more work for a given key.
 
-			In short, this channel needs to be able to fold at least s.maxConcurrentKeys at any given time
+			In short, this channel needs to be able to fold at least s.maxConcurrentKeys at any given time.
+			It never shrinks, as there may be more pending workers than keys are allowed from now on.
 		*/
-		wc := make(chan *worker[S, K, V], newSize+1)
-		// transfer any pending workers to the new channel
-		oldChan := ap.workerChannel
+		wc := make(chan *worker[S, K, V], size+1)
+		// transfer all pending workers to the new channel
 	pending:
-		for i := 0; i < newSize; i++ {
+		for {
 			select {
 			case w := <-oldChan:
 				wc <- w
-- 
2.43.0


From 49165552d62c555e76577b73fd45b8ee741a2651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 34/37] fix: a marker which could not be sent to the commit log
 is sent again

---
 streams/commit_log.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 631dd70..bea12d1 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -17,6 +17,7 @@ package streams
 import (
 	"bytes"
 	"sync"
+	"time"
 	"unsafe"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
@@ -130,7 +131,17 @@ func (cl *eosCommitLog) syncCommitLogPartition(tp TopicPartition) {
 	markWaiter.Add(1)
 	cl.pendingSyncs[mark] = markWaiter
 	cl.syncMux.Unlock()
-	sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+	for cl.changeLog.runStatus.Running() {
+		err := sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+		if err == nil {
+			break
+		}
+		log.Errorf("unable to send marker message to: %+v, error: %v", tp, err)
+		select {
+		case <-cl.changeLog.runStatus.Done():
+		case <-time.After(time.Second):
+		}
+	}
 	markWaiter.Wait()
 }
 
-- 
2.43.0


From a27cd54f0ab757f2250039343be2fe2dc5c6277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 35/37] fix: the answer of a deserialization error handler is
 honoured

---
 streams/event_source.go | 17 +++++++++++++----
 streams/source.go       |  8 ++++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 1dad450..2f6c0ed 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -374,7 +374,7 @@ func (es *EventSource[T]) handleEvent(ctx *EventContext[T], record IncomingRecor
 // Registers eventType with a transformer (usuall a codec.Codec) with the supplied EventProcessor.
 // Must not be called after `EventSource.ConsumeEvents()`
 func RegisterEventType[T StateStore, V any](es *EventSource[T], transformer IncomingRecordDecoder[V], eventProcessor EventProcessor[T, V], eventType string) {
-	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler())
+	ep := newEventProcessorWrapper(eventType, transformer, eventProcessor, es.source.deserializationErrorHandler(), es.source.fail)
 	if es.rootProcessor == nil {
 		es.rootProcessor, es.tailProcessor = ep, ep
 	} else {
@@ -408,27 +408,36 @@ type eventProcessorExecutor[T any, V any] struct {
 	process                    EventProcessor[T, V]
 	decode                     IncomingRecordDecoder[V]
 	handleDeserializationError DeserializationErrorHandler
+	fail                       func(error)
 }
 
 func (epe *eventProcessorExecutor[T, V]) Exec(ec *EventContext[T], record IncomingRecord) ExecutionState {
 	if event, err := epe.decode(record); err == nil {
 		return epe.process(ec, event)
 	} else {
-		if epe.handleDeserializationError(ec, record.RecordType(), err) == Continue {
+		switch epe.handleDeserializationError(ec, record.RecordType(), err) {
+		case Continue:
 			return Complete
+		case FatallyExit:
+			epe.fail(err)
+			panic(err)
+		default:
+			epe.fail(err)
+			return Incomplete
 		}
-		return Incomplete
 	}
 }
 
 func newEventProcessorWrapper[T any, V any](eventType string, decoder IncomingRecordDecoder[V],
-	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler) *eventProcessorWrapper[T] {
+	eventProcessor EventProcessor[T, V], deserializationErrorHandler DeserializationErrorHandler,
+	fail func(error)) *eventProcessorWrapper[T] {
 	return &eventProcessorWrapper[T]{
 		eventType: eventType,
 		eventExecutor: &eventProcessorExecutor[T, V]{
 			process:                    eventProcessor,
 			decode:                     decoder,
 			handleDeserializationError: deserializationErrorHandler,
+			fail:                       fail,
 		},
 	}
 }
diff --git a/streams/source.go b/streams/source.go
index 7fa316c..8f5ae7a 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -108,7 +108,7 @@ type Source struct {
 }
 
 func newSource(config EventSourceConfig) *Source {
-	return &Source{state: uint64(Healthy), config: config, failure: make(chan error)}
+	return &Source{state: uint64(Healthy), config: config, failure: make(chan error, 1)}
 }
 
 // A convenience method for creating a [Destination] form your Source. Can be used for creating a [Producer] or [BatchProducer] which publishes to your [EventSource].
@@ -168,7 +168,11 @@ func (s *Source) State() EventSourceState {
 
 func (s *Source) fail(err error) {
 	atomic.StoreUint64(&s.state, uint64(Unhealthy))
-	s.failure <- err
+	select {
+	case s.failure <- err:
+	default:
+		// the failure of this source is already known
+	}
 }
 
 func (s *Source) Topic() string {
-- 
2.43.0


From b3a3714411da41ac1b597dafcb5b27479d33869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 36/37] fix: a partition which is already assigned is not
 prepared

PrepareTopicPartition runs in a goroutine of its own. If the partition was assigned before
it got the lock, it canceled the activation of the worker, which never processed an event, or
populated a store which was already in use.
---
 streams/source_consumer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index d475372..95437a3 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -140,9 +140,18 @@ func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
 // Needed to fulfill the IncrRebalanceInstructionHandler interface defined by IncrementalGroupRebalancer.
 // Should NOT be invoked directly.
 func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
+	partition := tp.Partition
+	// same order as in assignPartitions
+	sc.workerMux.Lock()
+	_, assigned := sc.workers[partition]
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
-	partition := tp.Partition
+	sc.workerMux.Unlock()
+	if assigned {
+		// the partition was assigned before we got here, and its store is in use or about to be
+		log.Debugf("preparation of %+v is not needed, already assigned", tp)
+		return
+	}
 	if _, ok := sc.prepping[partition]; !ok {
 		store := sc.partitionedStore.assign(partition)
 
-- 
2.43.0


From 1ff2568c62ccb640631f5e749bd98dd47f172761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 37/37] fix: the async batcher completes the groups of a key in
 order

A group without items was completed after the items of the batch it was added to, also those
which were added later. Its key also remained assigned to the batch after that was executed.
---
 streams/async_batcher.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..007bac4 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -123,29 +123,28 @@ const (
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
 	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
+	added      []*BatchItem[K, V] // items and placeholders, in the order they were added
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.added = append(b.added, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
+	for i, item := range b.added {
 		delete(assignments, item.key)
-		b.items[i] = nil
+		b.added[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i := range b.items {
+		b.items[i] = nil
 	}
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
+	b.added = b.added[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.added) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -268,20 +267,22 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 	}
 }
 
-func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
-	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+func (ab *AsyncBatcher[S, K, V]) completeBatchItems(added []*BatchItem[K, V]) {
+	for _, item := range added {
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	ab.completeBatchItems(executor.added)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0

