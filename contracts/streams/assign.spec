package streams
tags C29

// ---- stores ----
lockinv partitionedChangeLog.mux(ps) {
  protects mapof(ps.data)
}
field streams.partitionedChangeLog.factory(tp) (s) {}
define FACTORY streams.partitionedChangeLog.factory
define SASSIGN partitionedChangeLog.assign
func newPartitionedChangeLog(factory, changeLogTopic) (ps) {
  ensures wired: fresh(ps) && ps.changeLogTopic == changeLogTopic && ps.factory == factory
  ensures empty: ps.data != nil && fresh(ps.data) && len(ps.data) == 0
}
func partitionedChangeLog.assign(ps, partition) (sp) {
  opt log
  atomic ps.mux
  requires ps.data != nil && !held(ps.mux) && ps.factory != nil
  modifies mapof(ps.data), log $FACTORY
  let f = ncalls($FACTORY)
  ensures held: has(ps.data, partition) && ps.data[partition] == sp
  ensures kept: old(has(ps.data, partition)) ==> (sp == old(ps.data[partition]) && ncalls($FACTORY) == f)
  ensures made: !old(has(ps.data, partition)) ==> (ncalls($FACTORY) == f + 1 && callarg($FACTORY, f, 0, TopicPartition).Partition == partition && callarg($FACTORY, f, 0, TopicPartition).Topic == ps.changeLogTopic && sp.store == callres($FACTORY, f, 0, "T") && sp.topic == ps.changeLogTopic)
  ensures others: forall q int32 {has(ps.data, q)} :: q != partition ==> (has(ps.data, q) == old(has(ps.data, q)) && ps.data[q] == old(ps.data[q]))
  ensures unlocked: !held(ps.mux)
}
func partitionedChangeLog.revoke(ps, partition) {
  opt log
  atomic ps.mux
  requires ps.data != nil && !held(ps.mux)
  modifies mapof(ps.data), log streams.StateStore.Revoked
  let r = ncalls(streams.StateStore.Revoked)
  ensures gone: !has(ps.data, partition)
  ensures told: old(has(ps.data, partition)) ==> (ncalls(streams.StateStore.Revoked) == r + 1 && callarg(streams.StateStore.Revoked, r, 0, "T") == old(ps.data[partition]).store)
  ensures unknown: !old(has(ps.data, partition)) ==> ncalls(streams.StateStore.Revoked) == r
  ensures others: forall q int32 {has(ps.data, q)} :: q != partition ==> (has(ps.data, q) == old(has(ps.data, q)) && ps.data[q] == old(ps.data[q]))
  ensures unlocked: !held(ps.mux)
}

// ---- workers ----
functype streams.SourcePartitionEventHandler(s, p) {}
define TOLD streams.SourcePartitionEventHandler
func Source.executeHandler(s, handler, partitions) {
  modifies log $TOLD
  let k = ncalls($TOLD)
  ensures none: handler == nil ==> ncalls($TOLD) == k
  ensures each: handler != nil ==> (ncalls($TOLD) == k + len(partitions) && (forall i int {partitions[i]} :: (0 <= i && i < len(partitions)) ==> (callarg($TOLD, k + i, 0, *Source) == s && callarg($TOLD, k + i, 1, int32) == partitions[i])))
  loop 0 {
    invariant ncalls($TOLD) == k + nvisited()
    invariant forall i int {partitions[i]} :: (0 <= i && i < nvisited()) ==> (callarg($TOLD, k + i, 0, *Source) == s && callarg($TOLD, k + i, 1, int32) == partitions[i])
  }
}
extern context.WithCancel(parent) (ctx, cancel) { ensures ctx != nil && cancel != nil }
define WORK "go:streams.partitionWorker.work"
func newPartitionWorker(eventSource, topicPartition, commitLog, changeLog, eosProducer, waiter) (pw) {
  opt log
  requires eventSource != nil && eventSource.source != nil && eosProducer != nil && eventSource.runStatus.ctx != nil
  requires limits: 0 < eosProducer.cfg.MaxBatchSize && eosProducer.cfg.MaxBatchSize < 1048576 && 0 < eosProducer.cfg.PoolSize && eosProducer.cfg.PoolSize < 1048576
  requires config: 0 <= eventSource.source.config.EosConfig.MaxBatchSize && eventSource.source.config.EosConfig.MaxBatchSize < 1099511627776
  modifies log $WORK
  let w = ncalls($WORK)
  ensures own: fresh(pw) && pw.topicPartition == topicPartition && pw.changeLog == changeLog && pw.eosProducer == eosProducer && pw.eventSource == eventSource && pw.highestOffset == -1 && pw.ready == 0
  ensures room: pw.maxPending != nil && cap(pw.maxPending) == eosProducer.cfg.MaxBatchSize * eosProducer.cfg.PoolSize && sent(pw.maxPending) == 0 && recvd(pw.maxPending) == 0
  ensures inputs: pw.partitionInput != nil && pw.eventInput != nil && pw.interjectionInput != nil && pw.interjectionEventInput != nil && pw.asyncCompleter.asyncJobs != nil && pw.stopSignal != nil && pw.stopped != nil && pw.revokedSignal != nil && cap(pw.revokedSignal) == 1
  ensures status: pw.runStatus.ctx != nil && pw.runStatus.cancel != nil
  ensures running: ncalls($WORK) == w + 1 && callarg($WORK, w, 0, "*streams.partitionWorker[T]") == pw && callarg($WORK, w, 2, ref) == waiter && callarg($WORK, w, 3, *eosCommitLog) == commitLog
}
func partitionWorker.revoke(pw) {
  opt log
  opt noinv
  requires pw.runStatus.cancel != nil
  modifies log sak.RunStatus.cancel
  let k = ncalls(sak.RunStatus.cancel)
  ensures halted: ncalls(sak.RunStatus.cancel) == k + 1
}
iface streams.IncrementalGroupRebalancer.PartitionsAssigned(b, tps) {}
iface streams.IncrementalGroupRebalancer.PartitionPrepared(b, tp) {}
define LIVE(W, Q) (W.runStatus.cancel != nil && W.runStatus.ctx != nil && W.partitionInput != nil && W.topicPartition.Partition == Q)
lockinv eventSourceConsumer.workerMux(sc) {
  protects mapof(sc.workers)
  invariant live: forall q int32 {sc.workers[q]} :: has(sc.workers, q) ==> (sc.workers[q] != nil && allocated(sc.workers[q]) && $LIVE(sc.workers[q], q))
}
lockinv eventSourceConsumer.preppingMux(sc) {
  protects mapof(sc.prepping)
  invariant own: forall q int32 {sc.prepping[q]} :: has(sc.prepping, q) ==> (sc.prepping[q] != nil && allocated(sc.prepping[q]))
  // a partition is prepared for a member which does not have it
  invariant apart: forall q int32 {has(sc.prepping, q)} {has(sc.workers, q)} :: !(has(sc.prepping, q) && has(sc.workers, q))
}
define CONSUMER sc.prepping != sc.stateStoreConsumer.partitions && sc.partitionedStore != nil && sc.partitionedStore.data != nil && !held(sc.partitionedStore.mux) && sc.partitionedStore.factory != nil && sc.prepping != nil && sc.workers != nil && !held(sc.workerMux) && !held(sc.preppingMux) && sc.stateStoreConsumer != nil && sc.source != nil
define PARTITIONS(SEL) (forall q int32 {SEL[q]} :: has(SEL, q) ==> (SEL[q] != nil && SEL[q].waiters != nil && !held(SEL[q].waiterLock)))
define GOPREP "go:streams.eventSourceConsumer.PrepareTopicPartition$1"
define PREPMODS log $PREP, anymap(map[string]chan struct{}), any stateStorePartition.state, any stateStorePartition.count, any stateStorePartition.byteCount, any stateStorePartition.buffer, log kgo.Client.SetOffsets, log kgo.Client.ResumeFetchPartitions, log "go:streams.stateStorePartition.populate"
func eventSourceConsumer.PrepareTopicPartition(sc, tp) {
  atomic sc.preppingMux
  requires notowned: !has(sc.workers, tp.Partition)
  requires $CONSUMER
  requires $PARTITIONS(sc.stateStoreConsumer.partitions) && has(sc.stateStoreConsumer.partitions, tp.Partition) && !held(sc.stateStoreConsumer.mux)
  modifies mapof(sc.prepping), mapof(sc.partitionedStore.data), log $SASSIGN, log $FACTORY, $PREPMODS, log $GOPREP
  let s = ncalls($SASSIGN)
  let k = ncalls($PREP)
  let g = ncalls($GOPREP)
  ensures prepping: has(sc.prepping, tp.Partition)
  ensures once: old(has(sc.prepping, tp.Partition)) ==> (ncalls($PREP) == k && ncalls($GOPREP) == g && sc.prepping[tp.Partition] == old(sc.prepping[tp.Partition]))
  ensures started: !old(has(sc.prepping, tp.Partition)) ==> (sc.prepping[tp.Partition] == sc.stateStoreConsumer.partitions[tp.Partition] && ncalls($PREP) == k + 1 && ncalls($GOPREP) == g + 1 && callarg($PREP, k, 0, "*streams.stateStorePartition[T]") == sc.prepping[tp.Partition] && callarg($PREP, k, 1, partitionState) == 1 && ncalls($SASSIGN) == s + 1 && callarg($SASSIGN, s, 1, int32) == tp.Partition && callarg($PREP, k, 2, "streams.changeLogPartition[T]") == callres($SASSIGN, s, 0, "streams.changeLogPartition[T]"))
  ensures others: forall q int32 {has(sc.prepping, q)} :: q != tp.Partition ==> (has(sc.prepping, q) == old(has(sc.prepping, q)) && sc.prepping[q] == old(sc.prepping[q]))
  ensures unlocked: !held(sc.preppingMux)
}
func eventSourceConsumer.ForgetPreparedTopicPartition(sc, tp) {
  atomic sc.preppingMux
  requires $CONSUMER
  requires (let s = sc.stateStoreConsumer.partitions[tp.Partition]; s != nil && (s.buffer != nil ==> !closed(s.buffer))) && !held(sc.stateStoreConsumer.mux)
  modifies mapof(sc.prepping), any stateStorePartition.state, any stateStorePartition.buffer, log kgo.Client.PauseFetchPartitions, anyclose(chan []*kgo.Record)
  ensures forgotten: !has(sc.prepping, tp.Partition)
  ensures cancelled: old(has(sc.prepping, tp.Partition)) ==> sc.stateStoreConsumer.partitions[tp.Partition].state == paused
  ensures unknown: !old(has(sc.prepping, tp.Partition)) ==> (forall s *stateStorePartition[T] {s.state} :: s.state == old(s.state))
  ensures others: forall q int32 {has(sc.prepping, q)} :: q != tp.Partition ==> (has(sc.prepping, q) == old(has(sc.prepping, q)) && sc.prepping[q] == old(sc.prepping[q]))
  ensures unlocked: !held(sc.preppingMux)
}
func toTopicPartitions(topic, partitions) (tps) {
  ensures each: len(tps) == len(partitions) && (forall i int {tps[i]} :: (0 <= i && i < len(partitions)) ==> (tps[i].Partition == partitions[i] && tps[i].Topic == topic))
  ensures fresh: len(tps) > 0 ==> fresh(tps)
  loop 0 {
    local tps []TopicPartition
    invariant len(tps) == len(partitions) && fresh(tps)
    invariant forall i int {tps[i]} :: (0 <= i && i < nvisited()) ==> (tps[i].Partition == partitions[i] && tps[i].Topic == topic)
  }
}
define NPW newPartitionWorker
define NPWARG(K) callarg($NPW, K, 1, TopicPartition)
define ASSIGNED streams.IncrementalGroupRebalancer.PartitionsAssigned
define LASTSTORE(X, P) (let m = ncalls($SASSIGN) - 1; callarg($SASSIGN, m, 0, "*streams.partitionedChangeLog[T]") == sc.partitionedStore && callarg($SASSIGN, m, 1, int32) == P && X == callres($SASSIGN, m, 0, "streams.changeLogPartition[T]"))
define MADE(K) ($NPWARG(K).Topic == topic && has(sc.workers, $NPWARG(K).Partition) && sc.workers[$NPWARG(K).Partition] == callres($NPW, K, 0, "*streams.partitionWorker[T]") && callarg($NPW, K, 0, "*streams.EventSource[T]") == sc.eventSource && callarg($NPW, K, 2, *eosCommitLog) == sc.commitLog && callarg($NPW, K, 4, "*streams.eosProducerPool[T]") == sc.producerPool)
func eventSourceConsumer.assignPartitions(sc, topic, partitions) {
  opt nested
  atomic sc.workerMux
  atomic sc.preppingMux
  requires $CONSUMER
  requires $PARTITIONS(sc.stateStoreConsumer.partitions) && (forall i int {partitions[i]} :: (0 <= i && i < len(partitions)) ==> has(sc.stateStoreConsumer.partitions, partitions[i])) && !held(sc.stateStoreConsumer.mux)
  requires sc.eventSource != nil && sc.eventSource.source != nil && sc.producerPool != nil && sc.eventSource.runStatus.ctx != nil && 0 < sc.producerPool.cfg.MaxBatchSize && sc.producerPool.cfg.MaxBatchSize < 1048576 && 0 < sc.producerPool.cfg.PoolSize && sc.producerPool.cfg.PoolSize < 1048576 && 0 <= sc.eventSource.source.config.EosConfig.MaxBatchSize && sc.eventSource.source.config.EosConfig.MaxBatchSize < 1099511627776
  modifies mapof(sc.prepping), mapof(sc.workers), mapof(sc.partitionedStore.data), log $SASSIGN, log $FACTORY, $PREPMODS, log $WORK, log $NPW, log $ASSIGNED, log $TOLD
  let w = ncalls($NPW)
  let a = ncalls($ASSIGNED)
  let k = ncalls($PREP)
  let t = ncalls($TOLD)
  let s = ncalls($SASSIGN)
  ensures assigned: forall i int {partitions[i]} :: (0 <= i && i < len(partitions)) ==> (has(sc.workers, partitions[i]) && !has(sc.prepping, partitions[i]))
  before newPartitionWorker once: !has(sc.workers, arg1.Partition)
  before newPartitionWorker store: $LASTSTORE(arg3, arg1.Partition)
  before stateStoreConsumer.activatePartition unprepared: !has(sc.prepping, arg1) && !has(sc.workers, arg1)
  before stateStoreConsumer.activatePartition store: $LASTSTORE(arg2, arg1)
  ensures made: forall i int {callarg($NPW, i, 1, TopicPartition)} :: (w <= i && i < ncalls($NPW)) ==> $MADE(i)
  ensures kept: forall q int32 {has(sc.workers, q)} {old(has(sc.workers, q))} :: old(has(sc.workers, q)) ==> (has(sc.workers, q) && sc.workers[q] == old(sc.workers[q]))
  ensures balancer: sc.incrBalancer != nil ==> (ncalls($ASSIGNED) == a + 1 && callarg($ASSIGNED, a, 0, IncrementalGroupRebalancer) == sc.incrBalancer && (let tps = callarg($ASSIGNED, a, 1, "[]streams.TopicPartition"); len(tps) == len(partitions) && (forall i int {tps[i]} :: (0 <= i && i < len(partitions)) ==> (tps[i].Partition == partitions[i] && tps[i].Topic == topic))))
  ensures observers: sc.source.config.OnPartitionAssigned != nil ==> ncalls($TOLD) == t + len(partitions)
  ensures unlocked: !held(sc.workerMux) && !held(sc.preppingMux)
  loop 0 {
    invariant held(sc.workerMux) && held(sc.preppingMux) && !held(sc.partitionedStore.mux) && !held(sc.stateStoreConsumer.mux)
    invariant live: forall q int32 {sc.workers[q]} :: has(sc.workers, q) ==> (sc.workers[q] != nil && allocated(sc.workers[q]) && $LIVE(sc.workers[q], q))
    invariant own: forall q int32 {sc.prepping[q]} :: has(sc.prepping, q) ==> (sc.prepping[q] != nil && allocated(sc.prepping[q]))
    invariant ncalls($SASSIGN) >= s && ncalls($NPW) >= w && ncalls($PREP) >= k && ncalls($ASSIGNED) == a && ncalls($TOLD) == t
    invariant fewer: forall q int32 {has(sc.prepping, q)} :: has(sc.prepping, q) ==> old(has(sc.prepping, q))
    invariant apart: forall q int32 {has(sc.prepping, q)} {has(sc.workers, q)} :: !(has(sc.prepping, q) && has(sc.workers, q))
    invariant assigned: forall i int {partitions[i]} :: (0 <= i && i < nvisited()) ==> (has(sc.workers, partitions[i]) && !has(sc.prepping, partitions[i]))
    invariant made: forall i int {callarg($NPW, i, 1, TopicPartition)} :: (w <= i && i < ncalls($NPW)) ==> ($MADE(i) && !has(sc.prepping, $NPWARG(i).Partition))
    invariant kept: forall q int32 {has(sc.workers, q)} {old(has(sc.workers, q))} :: old(has(sc.workers, q)) ==> (has(sc.workers, q) && sc.workers[q] == old(sc.workers[q]))
    invariant dropped: forall q int32 {has(sc.prepping, q)} :: (old(has(sc.prepping, q)) && !has(sc.prepping, q)) ==> has(sc.workers, q)
  }
}
func eventSourceConsumer.assignPartitions$1() {
  requires prepper != nil && prepper.waiters != nil && !held(prepper.waiterLock)
  modifies mapof(prepper.waiters), log uuid.NewString, log stateStorePartition.addWaiter, log stateStorePartition.sync, $PRODUCES, anychan(chan struct{})
  ensures synced: ncalls(stateStorePartition.sync) == old(ncalls(stateStorePartition.sync)) + 1 && callarg(stateStorePartition.sync, old(ncalls(stateStorePartition.sync)), 0, "*streams.stateStorePartition[T]") == prepper
}
func eventSourceConsumer.assignPartitions$2() {
  requires prepper != nil && prepper.waiters != nil && !held(prepper.waiterLock)
  modifies mapof(prepper.waiters), log uuid.NewString, log stateStorePartition.addWaiter, log stateStorePartition.sync, $PRODUCES, anychan(chan struct{})
  ensures synced: ncalls(stateStorePartition.sync) == old(ncalls(stateStorePartition.sync)) + 1 && callarg(stateStorePartition.sync, old(ncalls(stateStorePartition.sync)), 0, "*streams.stateStorePartition[T]") == prepper
}
define REV partitionWorker.revoke
define SREV partitionedChangeLog.revoke
func eventSourceConsumer.revokePartitions(sc, topic, partitions) {
  atomic sc.workerMux
  requires $CONSUMER
  modifies mapof(sc.workers), mapof(sc.partitionedStore.data), log $REV, log $SREV, log streams.StateStore.Revoked, log sak.RunStatus.cancel, log $TOLD
  let r = ncalls($REV)
  let s = ncalls($SREV)
  ensures gone: forall i int {partitions[i]} :: (0 <= i && i < len(partitions)) ==> (!has(sc.workers, partitions[i]))
  ensures stopped: forall q int32 {has(sc.workers, q)} :: (old(has(sc.workers, q)) && !has(sc.workers, q)) ==> (exists k int {callarg($REV, k, 0, "*streams.partitionWorker[T]")} :: r <= k && k < ncalls($REV) && callarg($REV, k, 0, "*streams.partitionWorker[T]") == old(sc.workers[q]))
  ensures revoked: ncalls($SREV) == s + len(partitions) && (forall i int {partitions[i]} :: (0 <= i && i < len(partitions)) ==> (callarg($SREV, s + i, 0, "*streams.partitionedChangeLog[T]") == sc.partitionedStore && callarg($SREV, s + i, 1, int32) == partitions[i]))
  ensures only: forall q int32 {has(sc.workers, q)} :: (forall i int {partitions[i]} :: (0 <= i && i < len(partitions)) ==> partitions[i] != q) ==> (has(sc.workers, q) == old(has(sc.workers, q)) && sc.workers[q] == old(sc.workers[q]))
  ensures unlocked: !held(sc.workerMux)
  loop 0 {
    invariant held(sc.workerMux) && !held(sc.partitionedStore.mux)
    invariant ncalls($REV) >= r
    invariant revoked: ncalls($SREV) == s + nvisited() && (forall i int {partitions[i]} :: (0 <= i && i < nvisited()) ==> (callarg($SREV, s + i, 0, "*streams.partitionedChangeLog[T]") == sc.partitionedStore && callarg($SREV, s + i, 1, int32) == partitions[i]))
    invariant live: forall q int32 {sc.workers[q]} :: has(sc.workers, q) ==> (sc.workers[q] != nil && allocated(sc.workers[q]) && $LIVE(sc.workers[q], q))
    invariant fewer: forall q int32 {has(sc.workers, q)} :: has(sc.workers, q) ==> (old(has(sc.workers, q)) && sc.workers[q] == old(sc.workers[q]))
    invariant gone: forall i int {partitions[i]} :: (0 <= i && i < nvisited()) ==> (!has(sc.workers, partitions[i]))
    invariant stopped: forall q int32 {has(sc.workers, q)} :: (old(has(sc.workers, q)) && !has(sc.workers, q)) ==> (exists k int {callarg($REV, k, 0, "*streams.partitionWorker[T]")} :: r <= k && k < ncalls($REV) && callarg($REV, k, 0, "*streams.partitionWorker[T]") == old(sc.workers[q]))
    invariant only: forall q int32 {has(sc.workers, q)} :: (forall i int {partitions[i]} :: (0 <= i && i < nvisited()) ==> partitions[i] != q) ==> (has(sc.workers, q) == old(has(sc.workers, q)) && sc.workers[q] == old(sc.workers[q]))
  }
}
