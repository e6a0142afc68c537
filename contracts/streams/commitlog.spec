package streams
tags C06

lockinv eosCommitLog.mux(cl) {
  protects mapof(cl.watermarks)
}
// every waiter registered is waiting for exactly one marker, and is registered once
lockinv eosCommitLog.syncMux(cl) {
  protects mapof(cl.pendingSyncs)
  invariant waiting: forall m string {cl.pendingSyncs[m]} :: has(cl.pendingSyncs, m) ==> (cl.pendingSyncs[m] != nil && allocated(cl.pendingSyncs[m]))
  invariant once: forall m string, k string {cl.pendingSyncs[m], cl.pendingSyncs[k]} :: (has(cl.pendingSyncs, m) && has(cl.pendingSyncs, k) && m != k) ==> cl.pendingSyncs[m] != cl.pendingSyncs[k]
}

// what was handed to a kafka client, in the order handed over (assumed: Produce neither loses nor keeps changing the record's bytes)
ghostvar pdTopic [int => string] along kgo.Client.Produce
ghostvar pdPart [int => int32] along kgo.Client.Produce
ghostvar pdKey [int => []byte] along kgo.Client.Produce
ghostvar pdVal [int => []byte] along kgo.Client.Produce
ghostvar pdHdr [int => []kgo.RecordHeader] along kgo.Client.Produce
ghostvar pdKeyB [int => [int => byte]] along kgo.Client.Produce
ghostvar pdValB [int => [int => byte]] along kgo.Client.Produce
define PRODUCES log kgo.Client.Produce, ghost pdKeyB, ghost pdValB, ghost pdTopic, ghost pdPart, ghost pdKey, ghost pdVal, ghost pdHdr
extern kgo.Client.Produce(c, ctx, r, promise) {
  opt log
  requires r != nil
  modifies object(r), ghost pdKeyB, ghost pdValB, ghost pdTopic, ghost pdPart, ghost pdKey, ghost pdVal, ghost pdHdr
  let n = ncalls(kgo.Client.Produce)
  ensures pdTopic[n] == old(r.Topic) && pdPart[n] == old(r.Partition) && pdKey[n] == old(r.Key) && pdVal[n] == old(r.Value) && pdHdr[n] == old(r.Headers)
  ensures forall j int {pdKeyB[n][j]} :: (0 <= j && j < len(old(r.Key))) ==> pdKeyB[n][j] == old(r.Key[j])
  ensures forall j int {pdValB[n][j]} :: (0 <= j && j < len(old(r.Value))) ==> pdValB[n][j] == old(r.Value[j])
}
extern kgo.KeySliceRecord(k, v) (r) { ensures fresh(r) && r.Key == k && r.Value == v && len(r.Headers) == 0 && r.Headers == nil }
extern uuid.NewString() (s) { opt log }

pure ismarker(h []kgo.RecordHeader) bool = len(h) == 1 && h[0].Key == markerKeyString
func isMarkerRecord(record) (r) {
  tags C06 C13
  requires record != nil
  ensures marker: r == ismarker(record.Headers)
}
func IncomingRecord.isMarkerRecord(r) (b) {
  tags C06 C13
  ensures marker: b == ismarker(r.kRecord.Headers)
}
// marker k was sent to tp carrying mark
define MARKER(K, C, TP, MARK) (ncalls(kgo.Client.Produce) == K + 1 && callarg(kgo.Client.Produce, K, 0, *kgo.Client) == C && pdTopic[K] == TP.Topic && pdPart[K] == TP.Partition && pdVal[K] == MARK && ismarker(pdHdr[K]))
func sendMarkerMessage(producer, tp, mark) (err) {
  tags C06 C13
  modifies $PRODUCES
  let k = ncalls(kgo.Client.Produce)
  ensures marker: $MARKER(k, producer, tp, mark)
  ensures earlier: calltime(kgo.Client.Produce, k) < clock()
}

// ---- progress records ----
func writeTopicPartitionToBytes(tp, b) {
  modifies bufof(b)
  ensures length: buflen(b) == old(buflen(b)) + 8 + len(tp.Topic)
  ensures prefix: bufkeeps(old(bufelems(b)), bufelems(b), old(buflen(b)))
  ensures partition: le8(bufelems(b), old(buflen(b))) == tp.Partition
  ensures topic: forall j int {tp.Topic[j]} :: (0 <= j && j < len(tp.Topic)) ==> bufelems(b)[old(buflen(b)) + 8 + j] == tp.Topic[j]
}
func topicPartitionFromBytes(b) (tp) {
  requires len(b) >= 8
  ensures partition: tp.Partition == int32(le8(elems(b), off(b)))
  ensures length: len(tp.Topic) == len(b) - 8
  ensures topic: forall j int {tp.Topic[j]} :: (0 <= j && j < len(tp.Topic)) ==> tp.Topic[j] == b[8 + j]
}
func eosCommitLog.commitRecordPartition(cl, tp) (p) {
  requires cl.numPartitions > 0 && tp.Partition >= 0
  ensures valid: 0 <= p && p < cl.numPartitions
  ensures same: p == tp.Partition % cl.numPartitions
}
func eosCommitLog.commitRecord(cl, tp, offset) (r) {
  requires cl.numPartitions > 0 && tp.Partition >= 0 && offset < 9223372036854775807
  modifies any sak.Pool.freelist
  ensures record: fresh(r) && recbufs(r)
  ensures destination: r.kRecord.Topic == cl.topic && r.kRecord.Partition == tp.Partition % cl.numPartitions
  ensures plain: r.recordType == "" && len(r.kRecord.Headers) == 0
  ensures key: buflen(r.keyBuffer) == 8 + len(tp.Topic) && le8(bufelems(r.keyBuffer), 0) == tp.Partition && (forall j int {tp.Topic[j]} :: (0 <= j && j < len(tp.Topic)) ==> bufelems(r.keyBuffer)[8 + j] == tp.Topic[j])
  ensures next: buflen(r.valueBuffer) == 8 && le8(bufelems(r.valueBuffer), 0) == offset + 1
}
func eosCommitLog.closeSyncRequest(cl, mark) {
  atomic cl.syncMux
  requires cl.pendingSyncs != nil && !held(cl.syncMux)
  modifies mapof(cl.pendingSyncs), wg(cl.pendingSyncs[mark])
  ensures released: old(has(cl.pendingSyncs, mark)) ==> (!has(cl.pendingSyncs, mark) && wgcount(old(cl.pendingSyncs[mark])) == old(wgcount(cl.pendingSyncs[mark])) - 1)
  ensures others: forall m string {has(cl.pendingSyncs, m)} :: m != mark ==> (has(cl.pendingSyncs, m) == old(has(cl.pendingSyncs, m)) && (has(cl.pendingSyncs, m) ==> cl.pendingSyncs[m] == old(cl.pendingSyncs[m])))
  ensures unknown: !old(has(cl.pendingSyncs, mark)) ==> (!has(cl.pendingSyncs, mark) && wgcount(cl.pendingSyncs[mark]) == old(wgcount(cl.pendingSyncs[mark])))
  ensures unlocked: !held(cl.syncMux)
}
define WMSAME (forall p int32 {has(cl.watermarks, p)} :: has(cl.watermarks, p) == old(has(cl.watermarks, p)) && cl.watermarks[p] == old(cl.watermarks[p]))
func eosCommitLog.ReceiveChange(cl, record) (err) {
  atomic cl.mux
  atomic cl.syncMux
  requires cl.pendingSyncs != nil && cl.watermarks != nil && !held(cl.syncMux) && !held(cl.mux)
  requires wellformed: !ismarker(record.kRecord.Headers) ==> (len(record.kRecord.Key) >= 8 && len(record.kRecord.Value) >= 8)
  modifies mapof(cl.watermarks), mapof(cl.pendingSyncs), anywg
  let p = int32(le8(elems(record.kRecord.Key), off(record.kRecord.Key)))
  let o = le8(elems(record.kRecord.Value), off(record.kRecord.Value))
  let mk = ismarker(record.kRecord.Headers)
  ensures noerr: err == nil
  ensures progress: !mk ==> (has(cl.watermarks, p) && cl.watermarks[p] == o)
  ensures others: !mk ==> (forall q int32 {has(cl.watermarks, q)} :: q != p ==> (has(cl.watermarks, q) == old(has(cl.watermarks, q)) && cl.watermarks[q] == old(cl.watermarks[q])))
  ensures marker: mk ==> $WMSAME
  ensures released: mk ==> (forall m string {len(m)} :: (bytesAre(record.kRecord.Value, m) && old(has(cl.pendingSyncs, m))) ==> (!has(cl.pendingSyncs, m) && wgcount(old(cl.pendingSyncs[m])) == old(wgcount(cl.pendingSyncs[m])) - 1))
  ensures waiting: forall m string {has(cl.pendingSyncs, m)} :: (!mk || !bytesAre(record.kRecord.Value, m)) ==> (has(cl.pendingSyncs, m) == old(has(cl.pendingSyncs, m)) && (has(cl.pendingSyncs, m) ==> (cl.pendingSyncs[m] == old(cl.pendingSyncs[m]) && wgcount(cl.pendingSyncs[m]) == old(wgcount(cl.pendingSyncs[m])))))
}
func eosCommitLog.Watermark(cl, tp) (o) {
  atomic cl.mux
  requires !held(cl.mux)
  ensures resume: has(cl.watermarks, tp.Partition) ==> o == cl.watermarks[tp.Partition]
  ensures unknown: !has(cl.watermarks, tp.Partition) ==> o == -1
  ensures unlocked: !held(cl.mux)
}
func eosCommitLog.syncCommitLogPartition(cl, tp) {
  requires cl.pendingSyncs != nil && !held(cl.syncMux)
  modifies mapof(cl.pendingSyncs), $PRODUCES, log uuid.NewString, log sync.WaitGroup.Wait
  let k = ncalls(kgo.Client.Produce)
  let u = ncalls(uuid.NewString)
  let w = ncalls(sync.WaitGroup.Wait)
  ensures marker: ncalls(uuid.NewString) == u + 1 && ncalls(kgo.Client.Produce) == k + 1 && bytesAre(pdVal[k], callres(uuid.NewString, u, 0, string)) && callarg(kgo.Client.Produce, k, 0, *kgo.Client) == cl.changeLog.client && pdTopic[k] == tp.Topic && pdPart[k] == tp.Partition && ismarker(pdHdr[k])
  ensures registered: ncalls(sync.WaitGroup.Wait) == w + 1 && has(cl.pendingSyncs, callres(uuid.NewString, u, 0, string)) && cl.pendingSyncs[callres(uuid.NewString, u, 0, string)] == callarg(sync.WaitGroup.Wait, w, 0, *sync.WaitGroup)
  ensures order: calltime(sync.WaitGroup.Wait, w) > calltime(kgo.Client.Produce, k)
  ensures unlocked: !held(cl.syncMux)
}
func eosCommitLog.lastProcessed(cl, tp) (o) {
  opt log
  requires cl.pendingSyncs != nil && !held(cl.syncMux) && !held(cl.mux) && cl.numPartitions > 0 && tp.Partition >= 0
  modifies mapof(cl.pendingSyncs), mapof(cl.watermarks), $PRODUCES, log uuid.NewString, log sync.WaitGroup.Wait
  let k = ncalls(kgo.Client.Produce)
  ensures synced: ncalls(kgo.Client.Produce) == k + 1 && pdTopic[k] == cl.topic && pdPart[k] == tp.Partition % cl.numPartitions && ismarker(pdHdr[k])
  ensures resume: has(cl.watermarks, tp.Partition) ==> o == cl.watermarks[tp.Partition]
  ensures unknown: !has(cl.watermarks, tp.Partition) ==> o == -1
}
// read back, a progress record restores exactly its partition's resume position
func verifProgress(cl, tp, offset) (err) {
  atomic cl.mux
  atomic cl.syncMux
  requires cl.pendingSyncs != nil && cl.watermarks != nil && !held(cl.syncMux) && !held(cl.mux)
  requires cl.numPartitions > 0 && tp.Partition >= 0 && offset < 9223372036854775807
  modifies any sak.Pool.freelist, mapof(cl.watermarks), mapof(cl.pendingSyncs), anywg
  ensures restored: has(cl.watermarks, tp.Partition) && cl.watermarks[tp.Partition] == offset + 1
  ensures others: forall q int32 {has(cl.watermarks, q)} :: q != tp.Partition ==> (has(cl.watermarks, q) == old(has(cl.watermarks, q)) && cl.watermarks[q] == old(cl.watermarks[q]))
}

// ---- reading the whole progress log ----
extern kgo.NewOffset() (o) {}
pure atStart(o kgo.Offset) bool
extern kgo.Offset.AtStart(o) (r) { ensures atStart(r) }
extern kgo.ConsumePartitions(m) (o) {
  opt log
  ensures o != nil
}
define WHOLELOG(M, TOPIC, N) (has(M, TOPIC) && (forall i int32 {has(M[TOPIC], i)} :: (0 <= i && i < N) ==> (has(M[TOPIC], i) && atStart(M[TOPIC][i]))))
func NewGlobalChangeLogWithRunStatus(runStatus, cluster, receiver, numPartitions, topic, cleanupPolicy) (g) {
  opt maypanic
  requires 0 <= numPartitions && numPartitions < 2147483648
  modifies $NEWCLIENT, log kgo.ConsumePartitions
  let c = ncalls(kgo.ConsumePartitions)
  let m = ncalls(kgo.NewClient)
  ensures configured: g.receiver == receiver && g.topic == topic && g.numPartitions == numPartitions && g.cleanupPolicy == cleanupPolicy && g.client != nil && g.client == callres(kgo.NewClient, m, 0, *kgo.Client) && g.runStatus == runStatus
  ensures whole: ncalls(kgo.ConsumePartitions) == c + 1 && (let mm = callarg(kgo.ConsumePartitions, c, 0, "map[string]map[int32]kgo.Offset"); $WHOLELOG(mm, topic, numPartitions))
  loop 0 {
    invariant 0 <= i && i <= numPartitions && fresh(assignments)
    invariant forall k int32 {has(assignments, k)} :: (0 <= k && k < i) ==> (has(assignments, k) && atStart(assignments[k]))
  }
}
func newEosCommitLog(runStatus, source, numPartitions) (cl) {
  opt maypanic
  requires 0 <= numPartitions && numPartitions < 2147483648
  modifies $NEWCLIENT, log kgo.ConsumePartitions
  let c = ncalls(kgo.ConsumePartitions)
  ensures new: fresh(cl) && cl.numPartitions == numPartitions && cl.watermarks != nil && cl.pendingSyncs != nil && !held(cl.mux) && !held(cl.syncMux)
  ensures empty: (forall p int32 :: !has(cl.watermarks, p)) && (forall m string :: !has(cl.pendingSyncs, m))
  ensures topic: cl.topic == "gkes_commit_log_" + source.config.GroupId
  ensures consumer: cl.changeLog.receiver == cl && cl.changeLog.client != nil && cl.changeLog.topic == cl.topic && ncalls(kgo.ConsumePartitions) == c + 1 && (let mm = callarg(kgo.ConsumePartitions, c, 0, "map[string]map[int32]kgo.Offset"); $WHOLELOG(mm, cl.topic, numPartitions))
}
iface streams.ChangeLogReceiver.ReceiveChange(r, record) (err) {}
func GlobalChangeLog.forwardChange(cl, r) {
  requires r != nil
  modifies log streams.ChangeLogReceiver.ReceiveChange
  let n = ncalls(streams.ChangeLogReceiver.ReceiveChange)
  ensures once: ncalls(streams.ChangeLogReceiver.ReceiveChange) == n + 1 && callarg(streams.ChangeLogReceiver.ReceiveChange, n, 0, T) == cl.receiver
  ensures record: (let x = callarg(streams.ChangeLogReceiver.ReceiveChange, n, 1, IncomingRecord); x.kRecord.Key == r.Key && x.kRecord.Value == r.Value && x.kRecord.Headers == r.Headers)
}
