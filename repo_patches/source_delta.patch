From 180d0a7f5aca66553af4bb6a1aa0fe9080c5a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 01/25] fix: LexoInt64Codec encodings sort in integer order for
 all int64 values

---
 streams/codec.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..115647a 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -106,9 +106,10 @@ func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
 	if i > 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		// distance from math.MinInt64, so the order of non-positive values is preserved
+		binary.BigEndian.PutUint64(b[1:], uint64(i-math.MinInt64))
 	}
 	buf.Write(b[:])
 	return nil
@@ -120,11 +121,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := int64(binary.BigEndian.Uint64(b[1:]))
 	if sign == 1 {
 		return val, nil
 	}
-	return val - math.MaxInt64, nil
+	return val + math.MinInt64, nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From 574b1cf8047c0b42177073f396743ba3e451a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 02/25] fix: SimpleStore.ReceiveChange stores the decoded item,
 and only when decoding succeeded

---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From 1d56c49ec1e4cb8ed86d85dfa4d8725864caef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 03/25] fix: saslIamAuth returns the retrieved credentials

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..7b93f35 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -168,7 +168,7 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From 46faf953c9da4b09862163126d4ef7aa283aa16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 04/25] fix: Record.ToKafkaRecord copies topic, partition,
 timestamp, headers and type, and leaves the original unchanged

---
 streams/record.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..a534642 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -256,7 +256,12 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
-	record := new(kgo.Record)
+	record := &kgo.Record{
+		Topic:     r.kRecord.Topic,
+		Partition: r.kRecord.Partition,
+		Timestamp: r.kRecord.Timestamp,
+	}
+	record.Headers = append(record.Headers, r.kRecord.Headers...)
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -264,7 +269,7 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From 2bb8a07922536701ad30f46952411706ff973206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 05/25] fix: deserializationErrorHandler falls back to the
 default when no deserialization handler is set

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 236c86b..5b726c9 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -148,7 +148,7 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
+	if s.config.DeserializationErrorHandler == nil {
 		return DefaultDeserializationErrorHandler
 	}
 	return s.config.DeserializationErrorHandler
-- 
2.43.0


From cdf1dc7fc91dea8e2bb2cf2ce4570e0ea9ab1c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 06/25] fix: an unset MinInSync takes its documented default of
 1 for replicated topics

---
 streams/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 5b726c9..79e4cc3 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -214,7 +214,7 @@ func (s *Source) stateCluster() Cluster {
 
 func minInSyncConfig(source *Source) int {
 	factor := replicationFactorConfig(source)
-	if factor <= 1 {
+	if factor <= 1 || source.config.MinInSync <= 0 {
 		return 1
 	}
 	if source.config.MinInSync >= int(factor) {
-- 
2.43.0


From a72952d4854c7b110ec30f7d52ce2ee50845a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 07/25] fix: isNetworkError does not dereference a nil OpError
 for other errors

---
 streams/topics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..8f842fb 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -195,7 +195,7 @@ func isNetworkError(err error) bool {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
 	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
+		log.Errorf("non network error: %v", err)
 	}
 	return false
 }
-- 
2.43.0


From 5cb33410676613eea9fbcd931002807d33903970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:50 +0000
Subject: [PATCH 08/25] fix: CreateDestination creates the destination's topic,
 reports errors and retries only network errors

---
 streams/topics.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index 8f842fb..5765a6c 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -146,14 +146,15 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 
 func createDestination(destination Destination) (Destination, error) {
 	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
 	if err != nil {
 		return destination, err
 	}
+	defer client.Close()
+	adminClient := kadm.NewClient(client)
+	minInSync := fmt.Sprintf("%d", destination.MinInSync)
+	err = createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
+		"min.insync.replicas": sak.Ptr(minInSync),
+	}, destination.DefaultTopic)
 	return destination, err
 }
 
@@ -162,6 +163,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
-- 
2.43.0


From 92116b4a5f251077d459bdacbbc8bdd01d74f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 09/25] fix: a transaction past MaxBatchSize forces a flush

---
 streams/eos_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..5b4d5c9 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -175,7 +175,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From 5429c1180eda6325319babf89805545ff819ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 10/25] fix: BatchProducer completes the event when the batch
 is empty or the callback is nil

---
 streams/producer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..a2990b7 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -157,6 +160,10 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 		pending:  int64(len(records)),
 		userData: userData,
 	}
+	if len(records) == 0 {
+		// there is nothing to wait for
+		return b.executeCallback()
+	}
 	p.produceBatch(b)
 	return Incomplete
 }
-- 
2.43.0


From 3a08dc4dad8bdb82c8c1c55e948970b5c07d0e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 11/25] fix: asyncItemQueue.peek sees an item added to the
 channel while the head was empty

---
 streams/async_item_queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..9c098bc 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// a blocking add may have filled the channel after the head was dequeued
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From e29062d9e3ea761692999d64701f3dcbab8c5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 12/25] fix: growing MaxConcurrentKeys after shrinking it never
 moves workers to a smaller channel

---
 streams/async_scheduler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..f5c230f 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -322,7 +322,8 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+	// compare with the actual capacity as well: the channel does not shrink when the limit does
+	if newSize > oldSize && newSize+1 > cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
-- 
2.43.0


From 56f73f3d986d650ef742c220019472a079f5e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 13/25] fix: each forgotten partition is forgotten, not the
 last one repeatedly

---
 streams/incr_rebalancer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..2379f1c 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -407,6 +407,7 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 		wg := &sync.WaitGroup{}
 		wg.Add(len(instructions.Forget))
 		for _, tp := range instructions.Forget {
+			tp := tp // captured by the go routine below
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-- 
2.43.0


From 487a0b3c9cf3f04c0ce379f6c0613baeddda7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 14/25] fix: a partition is reported ready only while it is
 being prepared for the group, and never as both

---
 streams/incr_rebalancer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index 2379f1c..e6ca371 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -295,7 +295,10 @@ func IncrementalRebalancer(instructionHandler IncrRebalanceInstructionHandler) I
 func (ir *incrementalRebalancer) PartitionPrepared(tp TopicPartition) {
 	ir.statusLock.Lock()
 	defer ir.statusLock.Unlock()
-	ir.preparing.Remove(tp)
+	if !ir.preparing.Remove(tp) {
+		// assigned, failed or forgotten in the mean time
+		return
+	}
 	ir.ready.Insert(tp)
 	go ir.client().ForceRebalance()
 }
@@ -397,7 +400,7 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 	}
 
 	for _, tp := range instructions.Prepare {
-		if ir.preparing.Insert(tp) {
+		if !ir.ready.Contains(tp) && ir.preparing.Insert(tp) {
 			go ir.instructionHandler.PrepareTopicPartition(tp)
 		}
 	}
-- 
2.43.0


From b29fdf8401087163fe8be659ad35ed37efc283d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 15/25] fix: members which completed their departure are not
 given partitions

---
 streams/group_state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..4943df8 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,7 +120,7 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
+		if incrMem.meta.Status != ActiveMember {
 			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		} else {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
-- 
2.43.0


From e758b46df277f27d4a84168b4d42481cb5baea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 16/25] fix: assigning partitions does not panic without an
 incremental rebalancer

---
 streams/source_consumer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..23207c8 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -217,7 +217,9 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
-- 
2.43.0


From adef37b783e3720f2046c547e0183bbf098a06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 17/25] fix: emitting a metric during shut down does not panic

---
 streams/event_source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..1ffb103 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -139,7 +139,7 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
+			// es.metrics is not closed, there may still be senders
 			return
 		}
 	}
-- 
2.43.0


From bb77408afa7239e598c694f3f3252c00a7888603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 18/25] fix: a cancelled interjection is not scheduled again

---
 streams/interjection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/interjection.go b/streams/interjection.go
index 6bc282f..244aefe 100644
--- a/streams/interjection.go
+++ b/streams/interjection.go
@@ -63,7 +63,7 @@ func (ij *interjection[T]) timerDuration() time.Duration {
 
 // schedules the next interjection
 func (ij *interjection[T]) tick() {
-	if ij.isOneOff {
+	if ij.isOneOff || ij.cancelled {
 		return
 	}
 	delay := ij.timerDuration()
-- 
2.43.0


From 214e655125b9d1ed07900189aa7f9b3c1cb2cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 19/25] fix: a recurring interjection which completes
 asynchronously is scheduled again

---
 streams/partition_worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..4f87ee4 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -259,6 +259,9 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.IsInterjection() {
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
-- 
2.43.0


From a9b20346a7f84ce89c183064638d6acb18f6b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 20/25] fix: a one-off interjection is answered when its
 partition is revoked before it runs

---
 streams/partition_worker.go | 18 ++++++++++++++++++
 streams/source_consumer.go  |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 4f87ee4..9bf79a6 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -151,6 +151,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
+			pw.refuseInterjections()
 			close(pw.partitionInput)
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
@@ -181,6 +182,23 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 	}
 }
 
+// answers any interjections which will not be executed because this partition has been revoked
+func (pw *partitionWorker[T]) refuseInterjections() {
+	for {
+		var inter *interjection[T]
+		select {
+		case inter = <-pw.interjectionInput:
+		case ec := <-pw.interjectionEventInput:
+			inter = ec.interjection
+		default:
+			return
+		}
+		if inter.callback != nil {
+			inter.callback()
+		}
+	}
+}
+
 func (pw *partitionWorker[T]) interleaveInterjection() {
 	select {
 	case ij := <-pw.interjectionInput:
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 23207c8..0e79496 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -309,6 +309,10 @@ func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T])
 			close(c)
 			return state
 		},
+		// invoked instead of the interjector if the partition is revoked first
+		callback: func() {
+			c <- ErrPartitionNotAssigned
+		},
 	}
 	return c
 }
-- 
2.43.0


From 488666f14b64d9eb39ffb79a567e151797d6c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 21/25] fix: MinMaxHeap.Max does not reorder the heap, so later
 operations stay correct

---
 streams/stores/min_max_heap.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..c57b260 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,13 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,10 +103,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
+	setMax(pq)
 	return pq.pop()
 }
 
@@ -263,9 +251,8 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element of a non-empty heap.
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -278,7 +265,14 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
+	return i
+}
 
+// setMax moves the maximum element (according to Less) to the end, ready to be popped.
+// The complexity is O(log n) where n = h.Len().
+func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+	n := h.Len()
+	i := maxIndex(h)
 	h.swap(i, n-1)
 	down(h, i, n-1)
 }
-- 
2.43.0


From d26b1bb852238ba866af2d89b73ae85d7d91955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 22/25] fix: MinMaxHeap.Remove and Update restore the heap
 order in both directions

---
 streams/stores/min_max_heap.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index c57b260..c78b086 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -304,9 +304,9 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		// the moved element may violate the order of either direction, even if it also moved down
+		up(h, i)
+		down(h, i, n)
 	}
 	return h.pop()
 }
@@ -317,7 +317,6 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	up(h, i)
+	down(h, i, h.Len())
 }
-- 
2.43.0


From a735c21028c626345f3b00a440259f3cd83ff455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 23/25] fix: do not commit a transaction with a record that
 could not be produced

---
 streams/eos_producer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 5b4d5c9..3a2b8a6 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -266,6 +266,7 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
+	produceErr        chan error // holds the first produce error for the current transaction
 	// errs                  []error
 }
 
@@ -283,6 +284,7 @@ func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitL
 		commitClient:      commitClient,
 		source:            source,
 		errorChannel:      errorChannel,
+		produceErr:        make(chan error, 1),
 		id:                id,
 		commitLog:         commitLog,
 		shouldMarkCommit:  source.shouldMarkCommit(),
@@ -378,6 +380,15 @@ func (p *producerNode[T]) commit() error {
 		log.Errorf("eos producer error: %v", err)
 		return err
 	}
+	// Flush does not report records which could not be produced
+	select {
+	case err = <-p.produceErr:
+		if p.txnErrorHandler(err) != Continue {
+			log.Errorf("eos producer error, will not commit: %v", err)
+			return err
+		}
+	default:
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
@@ -524,6 +535,10 @@ func (p *producerNode[T]) produceKafkaRecord(record *Record, cb func(*Record, er
 		if err != nil {
 			log.Errorf("%v, record %+v", err, r)
 			select {
+			case p.produceErr <- err:
+			default:
+			}
+			select {
 			case p.errorChannel <- err:
 			default:
 			}
-- 
2.43.0


From 4bac5a837df1d403f3517f3a7537598862d194c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 24/25] fix: markers of an abandoned preparation no longer
 complete the next replay of the partition

---
 streams/state_store_consumer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..41021f2 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -127,7 +127,18 @@ func (ssp *stateStorePartition[T]) setState(state partitionState) {
 	atomic.StoreUint32((*uint32)(&ssp.state), uint32(state))
 }
 
+// Forgets the waiters of an earlier, abandoned preparation. Their markers are still in the change log,
+// but must not complete the replay which is about to begin.
+func (ssp *stateStorePartition[T]) dropWaiters() {
+	ssp.waiterLock.Lock()
+	defer ssp.waiterLock.Unlock()
+	for mark := range ssp.waiters {
+		delete(ssp.waiters, mark)
+	}
+}
+
 func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
+	ssp.dropWaiters()
 	ssp.setState(intitialState)
 	ssp.count = 0
 	ssp.byteCount = 0
-- 
2.43.0


From 99ee74f3d6166d26bab1272e092e35285600dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 25/25] fix: do not send a fetched batch on a channel closed by
 a revocation

---
 streams/partition_worker.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 9bf79a6..5d66555 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -123,7 +123,11 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	// this may block, so do not wait for a partition which is revoked in the meantime
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+	}
 }
 
 func (pw *partitionWorker[T]) revoke() {
@@ -152,7 +156,6 @@ func (pw *partitionWorker[T]) pushRecords() {
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
 			pw.refuseInterjections()
-			close(pw.partitionInput)
 			close(pw.eventInput)
 			close(pw.asyncCompleter.asyncJobs)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
-- 
2.43.0

