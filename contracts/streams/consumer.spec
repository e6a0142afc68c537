package streams
tags C13

// every waiter registered waits for exactly one marker, and has not been released
lockinv stateStorePartition.waiterLock(ssp) {
  protects mapof(ssp.waiters)
  invariant waiting: forall m string {ssp.waiters[m]} :: has(ssp.waiters, m) ==> (ssp.waiters[m] != nil && allocated(ssp.waiters[m]) && !closed(ssp.waiters[m]))
  invariant apart: forall m string {ssp.waiters[m]} :: has(ssp.waiters, m) ==> ssp.waiters[m] != ssp.buffer
  invariant once: forall m string, k string {ssp.waiters[m], ssp.waiters[k]} :: (has(ssp.waiters, m) && has(ssp.waiters, k) && m != k) ==> ssp.waiters[m] != ssp.waiters[k]
}
iface streams.StateStore.ReceiveChange(s, record) (err) {}
iface streams.StateStore.Revoked(s) {}
extern kgo.Client.PauseFetchPartitions(c, m) (r) { opt log }
extern kgo.Client.ResumeFetchPartitions(c, m) { opt log }
extern kgo.Client.SetOffsets(c, m) { opt log }
extern kgo.FetchMaxWait(d) (o) { ensures o != nil }

define OTHERS(KEEP) (forall k string {has(ssp.waiters, k)} :: (KEEP) ==> (has(ssp.waiters, k) == old(has(ssp.waiters, k)) && (has(ssp.waiters, k) ==> ssp.waiters[k] == old(ssp.waiters[k]))))
func stateStorePartition.addWaiter(ssp) (c, mark) {
  opt log
  atomic ssp.waiterLock
  requires ssp.waiters != nil && !held(ssp.waiterLock)
  modifies mapof(ssp.waiters), log uuid.NewString
  let u = ncalls(uuid.NewString)
  ensures id: ncalls(uuid.NewString) == u + 1 && bytesAre(mark, callres(uuid.NewString, u, 0, string))
  ensures fresh: fresh(c) && !closed(c) && sent(c) == 0 && recvd(c) == 0 && fresh(mark)
  ensures registered: (let m = callres(uuid.NewString, u, 0, string); has(ssp.waiters, m) && ssp.waiters[m] == c)
  ensures others: $OTHERS(k != callres(uuid.NewString, u, 0, string))
  ensures unlocked: !held(ssp.waiterLock)
}
func stateStorePartition.removeWaiterForMark(ssp, mark) (c, ok) {
  atomic ssp.waiterLock
  requires ssp.waiters != nil && !held(ssp.waiterLock)
  modifies mapof(ssp.waiters)
  ensures known: forall m string {len(m)} :: (bytesAre(mark, m) && old(has(ssp.waiters, m))) ==> (ok && c == old(ssp.waiters[m]) && !has(ssp.waiters, m))
  ensures theirs: forall k string {old(ssp.waiters[k])} :: (ok && !bytesAre(mark, k) && old(has(ssp.waiters, k))) ==> c != old(ssp.waiters[k])
  ensures waiter: ok ==> (c != nil && !closed(c) && c != ssp.buffer)
  ensures unknown: forall m string {len(m)} :: (bytesAre(mark, m) && !old(has(ssp.waiters, m))) ==> !ok
  ensures others: $OTHERS(!bytesAre(mark, k))
  ensures unlocked: !held(ssp.waiterLock)
}
func stateStorePartition.partitionState(ssp) (s) {
  ensures state: s == ssp.state
}
func stateStorePartition.setState(ssp, s) {
  modifies ssp.state
  ensures state: ssp.state == s
}
define PAUSED(K) (ncalls(kgo.Client.PauseFetchPartitions) == K + 1 && callarg(kgo.Client.PauseFetchPartitions, K, 0, *kgo.Client) == ssp.client && (let mm = callarg(kgo.Client.PauseFetchPartitions, K, 1, "map[string][]int32"); let ps = mm[ssp.topicPartition.Topic]; has(mm, ssp.topicPartition.Topic) && len(ps) == 1 && ps[0] == ssp.topicPartition.Partition))
func stateStorePartition.pause(ssp) {
  modifies ssp.state, log kgo.Client.PauseFetchPartitions
  let k = ncalls(kgo.Client.PauseFetchPartitions)
  ensures paused: ssp.state == paused
  ensures fetching: $PAUSED(k)
}
func stateStorePartition.kill(ssp) {
  requires ssp.buffer != nil ==> !closed(ssp.buffer)
  modifies ssp.buffer, closeof(ssp.buffer)
  ensures closed: old(ssp.buffer) != nil ==> closed(old(ssp.buffer))
  ensures none: ssp.buffer == nil
}
func stateStorePartition.cancel(ssp) {
  requires ssp.buffer != nil ==> !closed(ssp.buffer)
  modifies ssp.state, log kgo.Client.PauseFetchPartitions, ssp.buffer, closeof(ssp.buffer)
  let k = ncalls(kgo.Client.PauseFetchPartitions)
  ensures paused: ssp.state == paused && $PAUSED(k)
  ensures closed: (old(ssp.buffer) != nil ==> closed(old(ssp.buffer))) && ssp.buffer == nil
}
func stateStorePartition.isCompletionMarker(ssp, val) (complete) {
  opt log
  atomic ssp.waiterLock
  requires ssp.waiters != nil && !held(ssp.waiterLock) && (ssp.buffer != nil ==> !closed(ssp.buffer))
  modifies mapof(ssp.waiters), anyclose(chan struct{}), ssp.state, ssp.buffer, closeof(ssp.buffer), log kgo.Client.PauseFetchPartitions
  ensures released: forall m string {len(m)} :: (bytesAre(val, m) && old(has(ssp.waiters, m))) ==> (!has(ssp.waiters, m) && closed(old(ssp.waiters[m])))
  ensures waiting: $OTHERS(!bytesAre(val, k))
  ensures theirs: forall k string {old(ssp.waiters[k])} :: (!bytesAre(val, k) && old(has(ssp.waiters, k))) ==> !closed(old(ssp.waiters[k]))
  ensures foreign: forall m string {len(m)} :: (bytesAre(val, m) && !old(has(ssp.waiters, m))) ==> (!complete && ssp.state == old(ssp.state) && ssp.buffer == old(ssp.buffer))
  ensures own: forall m string {len(m)} :: (bytesAre(val, m) && old(has(ssp.waiters, m))) ==> (complete == (old(ssp.state) == ready) && ssp.state == (if old(ssp.state) == prepping then ready else if old(ssp.state) == ready then paused else old(ssp.state)))
  ensures stopped: complete ==> (ssp.buffer == nil && (old(ssp.buffer) != nil ==> closed(old(ssp.buffer))))
  ensures open: !complete ==> (ssp.buffer == old(ssp.buffer) && (ssp.buffer != nil ==> !closed(ssp.buffer)))
  ensures unlocked: !held(ssp.waiterLock)
}

// a waiter is registered before its marker is sent, and waited for afterwards
func stateStorePartition.sync(ssp) {
  opt log
  requires ssp.waiters != nil && !held(ssp.waiterLock)
  modifies mapof(ssp.waiters), log uuid.NewString, log stateStorePartition.addWaiter, $PRODUCES, anychan(chan struct{})
  let k = ncalls(kgo.Client.Produce)
  let u = ncalls(uuid.NewString)
  let a = ncalls(stateStorePartition.addWaiter)
  before sendMarkerMessage registered: ncalls(stateStorePartition.addWaiter) == a + 1 && arg2 == callres(stateStorePartition.addWaiter, a, 1, "[]byte")
  ensures marker: $MARKER(k, ssp.client, ssp.topicPartition, callres(stateStorePartition.addWaiter, a, 1, "[]byte"))
  ensures waited: (let c = callres(stateStorePartition.addWaiter, a, 0, "chan struct{}"); closed(c) || recvd(c) == 1)
  ensures unlocked: !held(ssp.waiterLock)
}
// a record of the change log reaches the store as it is
define APPLIED(J, R) (let x = callarg(streams.StateStore.ReceiveChange, J, 1, IncomingRecord); x.kRecord.Topic == R.Topic && x.kRecord.Partition == R.Partition && x.kRecord.Offset == R.Offset && x.kRecord.Key == R.Key && x.kRecord.Value == R.Value && x.kRecord.Headers == R.Headers)
func changeLogPartition.receiveChangeInternal(sp, record) (err) {
  requires record != nil
  modifies log streams.StateStore.ReceiveChange
  let n = ncalls(streams.StateStore.ReceiveChange)
  ensures once: ncalls(streams.StateStore.ReceiveChange) == n + 1 && callarg(streams.StateStore.ReceiveChange, n, 0, T) == sp.store
  ensures record: $APPLIED(n, record)
  ensures result: err == callres(streams.StateStore.ReceiveChange, n, 0, error)
}
func recordSize(r) (n) {
  opt nowrap
  tags C13
}
func stateStorePartition.handleRecordsAndContinue(ssp, records, store) (more) {
  opt log
  requires ssp.waiters != nil && !held(ssp.waiterLock) && (ssp.buffer != nil ==> !closed(ssp.buffer))
  requires records: forall i int {records[i]} :: (0 <= i && i < len(records)) ==> records[i] != nil
  modifies mapof(ssp.waiters), anyclose(chan struct{}), ssp.state, ssp.buffer, closeof(ssp.buffer), log kgo.Client.PauseFetchPartitions, log streams.StateStore.ReceiveChange, log stateStorePartition.isCompletionMarker, ssp.count, ssp.byteCount
  let n = ncalls(streams.StateStore.ReceiveChange)
  let c = ncalls(stateStorePartition.isCompletionMarker)
  // nm[i]: how many of the first i records are not markers
  choose nm [int => int]: nm[0] == 0 && (forall i int {records[i], nm[i]} :: (0 <= i && i < len(records)) ==> (nm[i+1] == nm[i] + (if ismarker(records[i].Headers) then 0 else 1))) && (forall i int, j int {nm[i], nm[j]} :: (0 <= i && i <= j && j <= len(records)) ==> (nm[i] <= nm[j] && nm[j] - nm[i] <= j - i))
  ensures all: more ==> (ncalls(streams.StateStore.ReceiveChange) == n + nm[len(records)] && ncalls(stateStorePartition.isCompletionMarker) == c + len(records) - nm[len(records)])
  ensures applied: forall i int {records[i], nm[i]} :: (0 <= i && i < len(records) && !ismarker(records[i].Headers) && n + nm[i] < ncalls(streams.StateStore.ReceiveChange)) ==> ($APPLIED(n + nm[i], records[i]) && callarg(streams.StateStore.ReceiveChange, n + nm[i], 0, T) == store.store)
  ensures markers: forall i int {records[i], nm[i]} :: (0 <= i && i < len(records) && ismarker(records[i].Headers) && c + i - nm[i] < ncalls(stateStorePartition.isCompletionMarker)) ==> (callarg(stateStorePartition.isCompletionMarker, c + i - nm[i], 0, "*streams.stateStorePartition[T]") == ssp && callarg(stateStorePartition.isCompletionMarker, c + i - nm[i], 1, "[]byte") == records[i].Value)
  ensures going: forall j int {callres(stateStorePartition.isCompletionMarker, j, 0, bool)} :: (c <= j && j < ncalls(stateStorePartition.isCompletionMarker)) ==> (callres(stateStorePartition.isCompletionMarker, j, 0, bool) == (!more && j == ncalls(stateStorePartition.isCompletionMarker) - 1))
  ensures stopped: !more ==> (ncalls(stateStorePartition.isCompletionMarker) > c && (forall i int {records[i], nm[i]} :: (0 <= i && i < len(records) && ismarker(records[i].Headers) && c + i - nm[i] == ncalls(stateStorePartition.isCompletionMarker) - 1) ==> ncalls(streams.StateStore.ReceiveChange) == n + nm[i]))
  ensures unlocked: !held(ssp.waiterLock)
  ensures open: more ==> (ssp.buffer == old(ssp.buffer) && (ssp.buffer != nil ==> !closed(ssp.buffer)))
  ensures closed: !more ==> (ssp.buffer == nil && (old(ssp.buffer) != nil ==> closed(old(ssp.buffer))))
  loop 0 {
    invariant !held(ssp.waiterLock) && ssp.buffer == old(ssp.buffer) && (ssp.buffer != nil ==> !closed(ssp.buffer))
    invariant counted: 0 <= nm[nvisited()] && nm[nvisited()] <= nvisited() && ncalls(streams.StateStore.ReceiveChange) == n + nm[nvisited()] && ncalls(stateStorePartition.isCompletionMarker) == c + nvisited() - nm[nvisited()]
    invariant below: forall i int {records[i], nm[i]} :: (0 <= i && i < nvisited()) ==> (if ismarker(records[i].Headers) then (0 <= i - nm[i] && i - nm[i] < nvisited() - nm[nvisited()]) else (0 <= nm[i] && nm[i] < nm[nvisited()]))
    invariant applied: forall i int {records[i], nm[i]} :: (0 <= i && i < nvisited() && !ismarker(records[i].Headers)) ==> ($APPLIED(n + nm[i], records[i]) && callarg(streams.StateStore.ReceiveChange, n + nm[i], 0, T) == store.store)
    invariant markers: forall i int {records[i], nm[i]} :: (0 <= i && i < nvisited() && ismarker(records[i].Headers)) ==> (callarg(stateStorePartition.isCompletionMarker, c + i - nm[i], 0, "*streams.stateStorePartition[T]") == ssp && callarg(stateStorePartition.isCompletionMarker, c + i - nm[i], 1, "[]byte") == records[i].Value)
    invariant going: forall j int {callres(stateStorePartition.isCompletionMarker, j, 0, bool)} :: (c <= j && j < ncalls(stateStorePartition.isCompletionMarker)) ==> !callres(stateStorePartition.isCompletionMarker, j, 0, bool)
  }
}

func stateStorePartition.dropWaiters(ssp) {
  requires ssp.waiters != nil && !held(ssp.waiterLock)
  modifies mapof(ssp.waiters)
  atomic ssp.waiterLock
  ensures none: forall m string {has(ssp.waiters, m)} :: !has(ssp.waiters, m)
  ensures unlocked: !held(ssp.waiterLock)
  loop 0 {
    invariant held(ssp.waiterLock)
    invariant gone: forall m string {has(ssp.waiters, m)} :: visited()[m] ==> !has(ssp.waiters, m)
    invariant rest: forall m string {has(ssp.waiters, m)} :: has(ssp.waiters, m) ==> (old(has(ssp.waiters, m)) && ssp.waiters[m] == old(ssp.waiters[m]))
  }
}
define RESTART(K) (ncalls(kgo.Client.SetOffsets) == K + 1 && callarg(kgo.Client.SetOffsets, K, 0, *kgo.Client) == ssp.client && (let mm = callarg(kgo.Client.SetOffsets, K, 1, "map[string]map[int32]kgo.EpochOffset"); let ps = mm[ssp.topicPartition.Topic]; has(mm, ssp.topicPartition.Topic) && has(ps, ssp.topicPartition.Partition) && ps[ssp.topicPartition.Partition] == startEpochOffset))
define RESUMED(K) (ncalls(kgo.Client.ResumeFetchPartitions) == K + 1 && callarg(kgo.Client.ResumeFetchPartitions, K, 0, *kgo.Client) == ssp.client && (let mm = callarg(kgo.Client.ResumeFetchPartitions, K, 1, "map[string][]int32"); let ps = mm[ssp.topicPartition.Topic]; has(mm, ssp.topicPartition.Topic) && len(ps) == 1 && ps[0] == ssp.topicPartition.Partition))
// a preparation starts afresh: no waiter is left, the whole log is fetched again and replayed by a new populator
func stateStorePartition.prep(ssp, initial, store) {
  opt log
  requires ssp.waiters != nil && !held(ssp.waiterLock)
  modifies mapof(ssp.waiters), ssp.state, ssp.count, ssp.byteCount, ssp.buffer, log kgo.Client.SetOffsets, log kgo.Client.ResumeFetchPartitions, log "go:streams.stateStorePartition.populate"
  let k = ncalls(kgo.Client.SetOffsets)
  let r = ncalls(kgo.Client.ResumeFetchPartitions)
  let g = ncalls("go:streams.stateStorePartition.populate")
  before kgo.Client.SetOffsets forgotten: forall m string {has(ssp.waiters, m)} :: !has(ssp.waiters, m)
  before kgo.Client.ResumeFetchPartitions positioned: $RESTART(k)
  ensures state: ssp.state == initial && ssp.count == 0 && ssp.byteCount == 0
  ensures buffer: fresh(ssp.buffer) && !closed(ssp.buffer) && sent(ssp.buffer) == 0 && recvd(ssp.buffer) == 0 && cap(ssp.buffer) > 0
  ensures restart: $RESTART(k)
  ensures resumed: $RESUMED(r)
  ensures populator: ncalls("go:streams.stateStorePartition.populate") == g + 1 && callarg("go:streams.stateStorePartition.populate", g, 0, "*streams.stateStorePartition[T]") == ssp && callarg("go:streams.stateStorePartition.populate", g, 1, "streams.changeLogPartition[T]") == store
  ensures unlocked: !held(ssp.waiterLock)
}
func stateStorePartition.add(ssp, ftp) {
  requires ssp.buffer != nil && (forall i int {ftp.FetchPartition.Records[i]} :: (0 <= i && i < len(ftp.FetchPartition.Records)) ==> ftp.FetchPartition.Records[i] != nil)
  modifies sendof(ssp.buffer)
  ensures once: sent(ssp.buffer) == old(sent(ssp.buffer)) + 1 && sentval(ssp.buffer, old(sent(ssp.buffer))) == ftp.FetchPartition.Records
}

precise stateStorePartition.buffer
chaninv stateStorePartition.buffer(v): forall i int {v[i]} :: (0 <= i && i < len(v)) ==> v[i] != nil
// every batch is replayed, in order, until the closing marker
define HRC stateStorePartition.handleRecordsAndContinue
func stateStorePartition.populate(ssp, store) {
  requires ssp.buffer != nil && !closed(ssp.buffer) && ssp.waiters != nil && !held(ssp.waiterLock)
  modifies mapof(ssp.waiters), anyclose(chan struct{}), ssp.state, ssp.buffer, chanof(ssp.buffer), log kgo.Client.PauseFetchPartitions, log streams.StateStore.ReceiveChange, log stateStorePartition.isCompletionMarker, log $HRC, ssp.count, ssp.byteCount
  let b = ssp.buffer
  let r = recvd(ssp.buffer)
  let h = ncalls($HRC)
  ensures batches: forall j int {recvval(b, r + j)} :: (0 <= j && j < recvd(b) - r) ==> (h + j < ncalls($HRC) && callarg($HRC, h + j, 0, "*streams.stateStorePartition[T]") == ssp && callarg($HRC, h + j, 1, "[]*kgo.Record") == recvval(b, r + j) && callarg($HRC, h + j, 2, "streams.changeLogPartition[T]") == store)
  ensures order: ncalls($HRC) == h + recvd(b) - r
  ensures ended: closed(b) && (forall j int {callres($HRC, j, 0, bool)} :: (h <= j && j < ncalls($HRC) - 1) ==> callres($HRC, j, 0, bool))
  ensures closed: (ncalls($HRC) == h || callres($HRC, ncalls($HRC) - 1, 0, bool)) ==> recvd(b) == sent(b)
  loop 0 {
    invariant ssp.buffer == b && !held(ssp.waiterLock)
    invariant open: !closed(b)
    invariant order: r <= recvd(b) && ncalls($HRC) == h + recvd(b) - r
    invariant batches: forall j int {recvval(b, r + j)} :: (0 <= j && j < recvd(b) - r) ==> (callarg($HRC, h + j, 0, "*streams.stateStorePartition[T]") == ssp && callarg($HRC, h + j, 1, "[]*kgo.Record") == recvval(b, r + j) && callarg($HRC, h + j, 2, "streams.changeLogPartition[T]") == store)
    invariant going: forall j int {callres($HRC, j, 0, bool)} :: (h <= j && j < ncalls($HRC)) ==> callres($HRC, j, 0, bool)
  }
}
define PREP stateStorePartition.prep
define PREPPED(K, S) (ncalls($PREP) == K + 1 && callarg($PREP, K, 0, "*streams.stateStorePartition[T]") == ssc.partitions[p] && callarg($PREP, K, 1, partitionState) == S && callarg($PREP, K, 2, "streams.changeLogPartition[T]") == store)
define SSC(P) requires !held(ssc.mux) && ssc.partitions[P] != nil && ssc.partitions[P].waiters != nil && !held(ssc.partitions[P].waiterLock)
func stateStoreConsumer.preparePartition(ssc, p, store) (ssp) {
  $SSC(p)
  modifies log $PREP, mapof(ssc.partitions[p].waiters), ssc.partitions[p].state, ssc.partitions[p].count, ssc.partitions[p].byteCount, ssc.partitions[p].buffer, log kgo.Client.SetOffsets, log kgo.Client.ResumeFetchPartitions, log "go:streams.stateStorePartition.populate"
  let k = ncalls($PREP)
  ensures own: ssp == ssc.partitions[p]
  ensures prepared: $PREPPED(k, prepping)
  ensures unlocked: !held(ssc.mux)
}
func stateStoreConsumer.activatePartition(ssc, p, store) (ssp) {
  $SSC(p)
  modifies log $PREP, mapof(ssc.partitions[p].waiters), ssc.partitions[p].state, ssc.partitions[p].count, ssc.partitions[p].byteCount, ssc.partitions[p].buffer, log kgo.Client.SetOffsets, log kgo.Client.ResumeFetchPartitions, log "go:streams.stateStorePartition.populate"
  let k = ncalls($PREP)
  ensures own: ssp == ssc.partitions[p]
  ensures prepared: $PREPPED(k, ready)
  ensures unlocked: !held(ssc.mux)
}
func stateStoreConsumer.cancelPartition(ssc, p) {
  requires !held(ssc.mux) && ssc.partitions[p] != nil && (ssc.partitions[p].buffer != nil ==> !closed(ssc.partitions[p].buffer))
  modifies ssc.partitions[p].state, log kgo.Client.PauseFetchPartitions, ssc.partitions[p].buffer, closeof(ssc.partitions[p].buffer)
  let ssp = ssc.partitions[p]
  let k = ncalls(kgo.Client.PauseFetchPartitions)
  ensures paused: ssp.state == paused && $PAUSED(k)
  ensures closed: (old(ssp.buffer) != nil ==> closed(old(ssp.buffer))) && ssp.buffer == nil
  ensures unlocked: !held(ssc.mux)
}

func newStateStoreConsumer(runStatus, source) (ssc) {
  opt maypanic
  requires source != nil && 0 <= source.config.NumPartitions && source.config.NumPartitions < 2147483648
  modifies $NEWCLIENT, log kgo.ConsumePartitions, log kgo.Client.PauseFetchPartitions, log "go:streams.stateStoreConsumer.consume", any sak.Pool.freelist
  let n = source.config.NumPartitions
  let m = ncalls(kgo.NewClient)
  let c = ncalls(kgo.ConsumePartitions)
  let k = ncalls(kgo.Client.PauseFetchPartitions)
  let g = ncalls("go:streams.stateStoreConsumer.consume")
  ensures client: fresh(ssc) && ssc.client != nil && ssc.client == callres(kgo.NewClient, m, 0, *kgo.Client) && !held(ssc.mux)
  ensures whole: ncalls(kgo.ConsumePartitions) == c + 1 && (let mm = callarg(kgo.ConsumePartitions, c, 0, "map[string]map[int32]kgo.Offset"); $WHOLELOG(mm, ssc.topic, n))
  ensures paused: ncalls(kgo.Client.PauseFetchPartitions) == k + 1 && callarg(kgo.Client.PauseFetchPartitions, k, 0, *kgo.Client) == ssc.client && (let mm = callarg(kgo.Client.PauseFetchPartitions, k, 1, "map[string][]int32"); let ps = mm[ssc.topic]; has(mm, ssc.topic) && len(ps) == n && (forall i int32 {ps[i]} :: (0 <= i && i < n) ==> ps[i] == i))
  ensures partitions: forall p int32 {ssc.partitions[p]} :: (0 <= p && p < n) ==> (let ssp = ssc.partitions[p]; has(ssc.partitions, p) && ssp != nil && ssp.client == ssc.client && ssp.state == paused && ssp.topicPartition.Partition == p && ssp.topicPartition.Topic == ssc.topic)
  ensures usable: forall p int32 {ssc.partitions[p]} :: (0 <= p && p < n) ==> (let ssp = ssc.partitions[p]; ssp.waiters != nil && !held(ssp.waiterLock) && ssp.buffer != nil && !closed(ssp.buffer) && sent(ssp.buffer) == 0)
  ensures only: forall p int32 {has(ssc.partitions, p)} :: has(ssc.partitions, p) ==> (0 <= p && p < n)
  ensures running: ncalls("go:streams.stateStoreConsumer.consume") == g + 1 && callarg("go:streams.stateStoreConsumer.consume", g, 0, "*streams.stateStoreConsumer[T]") == ssc
  loop 0 {
    invariant 0 <= i && i <= n && fresh(assignments) && fresh(partitions) && len(partitions) == n
    invariant forall j int32 {partitions[j]} :: (0 <= j && j < i) ==> partitions[j] == j
    invariant forall j int32 {has(assignments, j)} :: (0 <= j && j < i) ==> (has(assignments, j) && atStart(assignments[j]))
  }
  loop 1 {
    local ps map[int32]*stateStorePartition[T]
    invariant 0 <= i && i <= n && fresh(ps)
    invariant made: forall p int32 {ps[p]} :: (0 <= p && p < i) ==> (let ssp = ps[p]; has(ps, p) && fresh(ssp) && ssp.client == client && ssp.state == paused && ssp.topicPartition.Partition == p && ssp.topicPartition.Topic == topic)
    invariant usable: forall p int32 {ps[p]} :: (0 <= p && p < i) ==> (let ssp = ps[p]; ssp.waiters != nil && !held(ssp.waiterLock) && fresh(ssp.buffer) && !closed(ssp.buffer) && sent(ssp.buffer) == 0)
    invariant only: forall p int32 {has(ps, p)} :: has(ps, p) ==> (0 <= p && p < i)
  }
}
// what is fetched for a partition being replayed is queued for it, nothing is queued for the others
func stateStoreConsumer.consume$1(f) {
  let ssp = ssc.partitions[f.Partition]
  requires ssp != nil && ssp.buffer != nil
  requires forall i int {f.FetchPartition.Records[i]} :: (0 <= i && i < len(f.FetchPartition.Records)) ==> f.FetchPartition.Records[i] != nil
  modifies ssp.state, sendof(ssp.buffer), log kgo.Client.PauseFetchPartitions
  ensures queued: old(ssp.state) != paused ==> (sent(ssp.buffer) == old(sent(ssp.buffer)) + 1 && sentval(ssp.buffer, old(sent(ssp.buffer))) == f.FetchPartition.Records && ssp.state == old(ssp.state))
  ensures ignored: old(ssp.state) == paused ==> (sent(ssp.buffer) == old(sent(ssp.buffer)) && ssp.state == paused)
}
func stateStoreConsumer.stop(ssc) {
  requires !held(ssc.mux)
  requires forall p int32 {ssc.partitions[p]} :: has(ssc.partitions, p) ==> (ssc.partitions[p] != nil && (ssc.partitions[p].buffer != nil ==> !closed(ssc.partitions[p].buffer)))
  requires apart: forall p int32, q int32 {ssc.partitions[p], ssc.partitions[q]} :: (has(ssc.partitions, p) && has(ssc.partitions, q) && p != q) ==> (ssc.partitions[p] != ssc.partitions[q] && (ssc.partitions[p].buffer != nil ==> ssc.partitions[p].buffer != ssc.partitions[q].buffer))
  modifies any stateStorePartition.buffer, anyclose(chan []*kgo.Record)
  ensures stopped: forall p int32 {ssc.partitions[p]} :: has(ssc.partitions, p) ==> (ssc.partitions[p].buffer == nil && (old(ssc.partitions[p].buffer) != nil ==> closed(old(ssc.partitions[p].buffer))))
  loop 0 {
    invariant done: forall p int32 {ssc.partitions[p]} :: (has(ssc.partitions, p) && visited()[p]) ==> (ssc.partitions[p].buffer == nil && (old(ssc.partitions[p].buffer) != nil ==> closed(old(ssc.partitions[p].buffer))))
    invariant rest: forall p int32 {ssc.partitions[p]} :: (has(ssc.partitions, p) && !visited()[p]) ==> (ssc.partitions[p].buffer == old(ssc.partitions[p].buffer) && (ssc.partitions[p].buffer != nil ==> !closed(ssc.partitions[p].buffer)))
  }
}
