package streams
tags C07

define TICKABLE(I) (I.interjector != nil && -4611686018427387904 < I.jitter && 0 <= I.every && I.every < 4611686018427387904 && I.jitter < 4611686018427387904)
open partitionWorker.maxPending
open partitionWorker.eventInput
open partitionWorker.interjectionInput
open partitionWorker.interjectionEventInput
open partitionWorker.partitionInput
open asyncCompleter.asyncJobs
open EventContext.producerChan
chaninv partitionWorker.interjectionInput(v): v != nil && allocated(v) && $TICKABLE(v)

// started: the event has been given to application code
ghostfield EventContext.started bool
// every event has a completion channel of its own
ghostvar eventOf [ref => ref]
define WAITS(V) (V != nil && allocated(V) && V.producerChan != nil && V.done != nil && !closed(V.done) && V.done != self.maxPending && !V.started && eventOf[V.done] == V)
chaninv partitionWorker.eventInput(v): $WAITS(v) && v.interjection == nil && v.input.kRecord.Offset < 9223372036854775807
chaninv partitionWorker.interjectionEventInput(v): $WAITS(v) && v.interjection != nil && $TICKABLE(v.interjection)
chaninv partitionWorker.partitionInput(v): forall i int {v[i]} :: (0 <= i && i < len(v) && v[i] != nil) ==> (v[i].Partition == self.topicPartition.Partition && v[i].Offset < 9223372036854775807 && allocated(v[i]))
// in-flight capacity given back by asynchronous jobs
ghostfield partitionWorker.jobsDone int
chaninv asyncCompleter.asyncJobs(v): v.finalizer != nil && v.ctx != nil && allocated(v.ctx) && v.ctx.done != nil && !closed(v.ctx.done) && eventOf[v.ctx.done] == v.ctx && v.ctx.started && (v.ctx.interjection == nil || $TICKABLE(v.ctx.interjection))
field streams.AsyncJob.finalizer() (s) {}
define FIN streams.AsyncJob.finalizer
ghostvar answered [int => ref] along streams.interjection.callback
field streams.interjection.callback() {
  modifies ghost answered
  ensures answered[old(ncalls(streams.interjection.callback))] == self
}
define CB streams.interjection.callback
field streams.interjection.interjector(ec, t) (s) {}
define IJ streams.interjection.interjector

define NEWEC(EC, PW) fresh(EC) && EC.producerChan != nil && cap(EC.producerChan) == 1 && !closed(EC.producerChan) && sent(EC.producerChan) == 0 && recvd(EC.producerChan) == 0 && EC.done != nil && !closed(EC.done) && fresh(EC.done) && fresh(EC.producerChan) && EC.prev == nil && EC.next == nil && !EC.accepted && !EC.started && EC.revocationWaiter == addr(PW.revocationWaiter)
define SAMEREC(X, R) (X.kRecord.Topic == R.Topic && X.kRecord.Partition == R.Partition && X.kRecord.Offset == R.Offset && X.kRecord.Key == R.Key && X.kRecord.Value == R.Value && X.kRecord.Headers == R.Headers)
func newEventContext(ctx, record, changeLog, pw) (ec) {
  requires record != nil && pw != nil
  modifies ghost eventOf
  ghost ec.accepted := false
  ghost ec.started := false
  ghost eventOf[ec.done] := ec
  ensures own: $NEWEC(ec, pw)
  ensures done: eventOf == old(eventOf)[ec.done := ec]
  ensures event: ec.interjection == nil && ec.ctx == ctx && ec.changeLog == changeLog && ec.topicPartition.Topic == record.Topic && ec.topicPartition.Partition == record.Partition
  ensures record: $SAMEREC(ec.input, record)
}
func newInterjectionContext(ctx, interjection, topicPartition, changeLog, pw) (ec) {
  requires pw != nil
  modifies ghost eventOf
  ghost ec.accepted := false
  ghost ec.started := false
  ghost eventOf[ec.done] := ec
  ensures own: $NEWEC(ec, pw)
  ensures done: eventOf == old(eventOf)[ec.done := ec]
  ensures interjection: ec.interjection == interjection && ec.ctx == ctx && ec.changeLog == changeLog && ec.topicPartition == topicPartition && ec.input.kRecord.Offset == 0
}
func EventContext.complete(ec) {
  requires ec.done != nil && !closed(ec.done)
  modifies closeof(ec.done)
  ensures completed: closed(ec.done)
}
define WG addr(pw.revocationWaiter)
define WORKER pw.runStatus.ctx != nil && pw.topicPartition.Partition >= 0 && waitsFor[$WG] == pw.topicPartition.Partition && pw.maxPending != nil && pw.eosProducer != nil && pw.eosProducer.buffer != nil && pw.interjectionInput != nil && pw.interjectionEventInput != nil && pw.eventInput != nil && pw.eventInput != pw.interjectionEventInput && pw.eosProducer.buffer != pw.eventInput && pw.eosProducer.buffer != pw.interjectionEventInput
define TAKEN(W, M, B, I) (wgcount($WG) == W && sent(pw.maxPending) == M && sent(pw.eosProducer.buffer) == B && sent(pw.interjectionEventInput) == I)
// an interjection which is scheduled becomes one event, in the partition's order, and takes one slot
define SCHEDULED(IV) ($TAKEN(w + 1, m + 1, b + 1, i + 1) && (let e = sentval(pw.interjectionEventInput, i); fresh(e) && e.interjection == IV && e.topicPartition == pw.topicPartition && e.revocationWaiter == $WG && e.bufAt == b && sentval(pw.eosProducer.buffer, b) == e) && ncalls($CB) == c)
define ANSWERED(IV) ($TAKEN(w, m, b, i) && (if IV.callback != nil then (ncalls($CB) == c + 1 && answered[c] == IV.callback) else ncalls($CB) == c))
func partitionWorker.scheduleInterjection(pw, inter) {
  tags C07 C24
  requires inter != nil && $TICKABLE(inter) && $WORKER
  modifies wg($WG), sendof(pw.maxPending), sendof(pw.eosProducer.buffer), sendof(pw.interjectionEventInput), log context.Context.Err, log $CB, ghost answered, ghost eventOf
  let e = ncalls(context.Context.Err)
  let w = wgcount($WG)
  let m = sent(pw.maxPending)
  let b = sent(pw.eosProducer.buffer)
  let i = sent(pw.interjectionEventInput)
  let c = ncalls($CB)
  ensures asked: ncalls(context.Context.Err) > e
  ensures refused: $REVOKED(e) ==> $ANSWERED(inter)
  ensures scheduled: !$REVOKED(e) ==> $SCHEDULED(inter)
}
func partitionWorker.interleaveInterjection(pw) {
  tags C07 C24
  requires $WORKER
  modifies chanof(pw.interjectionInput), wg($WG), sendof(pw.maxPending), sendof(pw.eosProducer.buffer), sendof(pw.interjectionEventInput), log context.Context.Err, log $CB, ghost answered, ghost eventOf
  let e = ncalls(context.Context.Err)
  let w = wgcount($WG)
  let m = sent(pw.maxPending)
  let b = sent(pw.eosProducer.buffer)
  let i = sent(pw.interjectionEventInput)
  let c = ncalls($CB)
  let r = recvd(pw.interjectionInput)
  ensures one: recvd(pw.interjectionInput) == r || recvd(pw.interjectionInput) == r + 1
  ensures none: recvd(pw.interjectionInput) == r ==> ($TAKEN(w, m, b, i) && ncalls($CB) == c)
  ensures taken: recvd(pw.interjectionInput) == r + 1 ==> ($SCHEDULED(recvval(pw.interjectionInput, r)) || $ANSWERED(recvval(pw.interjectionInput, r)))
}
define CURRENT(R) (R != nil && R.Offset >= pw.highestOffset)
func partitionWorker.scheduleTxnAndExecution(pw, records) {
  opt log
  choose nf [int => int]: nf[0] == 0 && (forall i int {records[i], nf[i]} :: (0 <= i && i < len(records)) ==> nf[i + 1] == nf[i] + (if $CURRENT(records[i]) then 1 else 0)) && (forall i int, j int {nf[i], nf[j]} :: (0 <= i && i <= j && j <= len(records)) ==> nf[i] <= nf[j])
  requires $WORKER
  requires ours: forall i int {records[i]} :: (0 <= i && i < len(records) && records[i] != nil) ==> (records[i].Partition == pw.topicPartition.Partition && records[i].Offset < 9223372036854775807 && allocated(records[i]))
  modifies chanof(pw.interjectionInput), wg($WG), sendof(pw.maxPending), sendof(pw.eosProducer.buffer), sendof(pw.interjectionEventInput), sendof(pw.eventInput), log context.Context.Err, log $CB, ghost answered, ghost eventOf
  let e = ncalls(context.Context.Err)
  let w = wgcount($WG)
  let m = sent(pw.maxPending)
  let b = sent(pw.eosProducer.buffer)
  let i0 = sent(pw.interjectionEventInput)
  let s = sent(pw.eventInput)
  let c = ncalls($CB)
  let r = recvd(pw.interjectionInput)
  ensures refused: $REVOKED(e) ==> (sent(pw.eventInput) == s && $TAKEN(w, m, b, i0) && ncalls($CB) == c && recvd(pw.interjectionInput) == r)
  ensures events: !$REVOKED(e) ==> sent(pw.eventInput) == s + nf[len(records)]
  ensures waiting: !$REVOKED(e) ==> wgcount($WG) == w + nf[len(records)] + (sent(pw.interjectionEventInput) - i0)
  ensures capacity: !$REVOKED(e) ==> sent(pw.maxPending) == m + nf[len(records)] + (sent(pw.interjectionEventInput) - i0)
  ensures each: !$REVOKED(e) ==> (forall i int {records[i]} :: (0 <= i && i < len(records) && $CURRENT(records[i])) ==> (let x = sentval(pw.eventInput, s + nf[i]); fresh(x) && x.interjection == nil && x.revocationWaiter == $WG && $SAMEREC(x.input, records[i])))
  ensures offered: !$REVOKED(e) ==> (forall k int {sentval(pw.eventInput, k)} :: (s <= k && k < sent(pw.eventInput)) ==> (let x = sentval(pw.eventInput, k); b <= x.bufAt && x.bufAt < sent(pw.eosProducer.buffer) && sentval(pw.eosProducer.buffer, x.bufAt) == x))
  ensures inorder: !$REVOKED(e) ==> (forall k int, l int {sentval(pw.eventInput, k), sentval(pw.eventInput, l)} :: (s <= k && k < l && l < sent(pw.eventInput)) ==> sentval(pw.eventInput, k).bufAt < sentval(pw.eventInput, l).bufAt)
  loop 0 {
    invariant sent(pw.interjectionEventInput) >= i0 && sent(pw.eosProducer.buffer) >= b
    invariant sent(pw.eventInput) == s + nf[nvisited()]
    invariant wgcount($WG) == w + len(records) - nvisited() + nf[nvisited()] + (sent(pw.interjectionEventInput) - i0)
    invariant sent(pw.maxPending) == m + nf[nvisited()] + (sent(pw.interjectionEventInput) - i0)
    invariant each: forall i int {records[i]} :: (0 <= i && i < nvisited() && $CURRENT(records[i])) ==> (let x = sentval(pw.eventInput, s + nf[i]); fresh(x) && x.interjection == nil && x.revocationWaiter == $WG && $SAMEREC(x.input, records[i]))
    invariant offered: forall k int {sentval(pw.eventInput, k)} :: (s <= k && k < sent(pw.eventInput)) ==> (let x = sentval(pw.eventInput, k); allocated(x) && b <= x.bufAt && x.bufAt < sent(pw.eosProducer.buffer) && sentval(pw.eosProducer.buffer, x.bufAt) == x)
    invariant inorder: forall k int, l int {sentval(pw.eventInput, k), sentval(pw.eventInput, l)} :: (s <= k && k < l && l < sent(pw.eventInput)) ==> sentval(pw.eventInput, k).bufAt < sentval(pw.eventInput, l).bufAt
  }
}

// ---- execution ----
define TICK interjection.tick
func partitionWorker.processAsyncJob(pw, job) {
  requires job.finalizer != nil && job.ctx != nil && job.ctx.done != nil && !closed(job.ctx.done) && pw.maxPending != nil
  requires job.ctx.interjection == nil || $TICKABLE(job.ctx.interjection)
  modifies log $FIN, closeof(job.ctx.done), chanof(pw.maxPending), pw.jobsDone, log $TICK, any interjection.timer, log time.AfterFunc
  let f = ncalls($FIN)
  let m = recvd(pw.maxPending)
  let t = ncalls($TICK)
  let d = callres($FIN, f, 0, ExecutionState) == Complete
  ghost pw.jobsDone := old(pw.jobsDone) + (recvd(pw.maxPending) - old(recvd(pw.maxPending)))
  ensures timers: $TIMERS
  ensures once: ncalls($FIN) == f + 1
  ensures completed: callres($FIN, f, 0, ExecutionState) == Complete ==> (closed(job.ctx.done) && recvd(pw.maxPending) == m + 1)
  ensures pending: callres($FIN, f, 0, ExecutionState) != Complete ==> (!closed(job.ctx.done) && recvd(pw.maxPending) == m && ncalls($TICK) == t)
  ensures [C07 C24] again: (callres($FIN, f, 0, ExecutionState) == Complete && job.ctx.interjection != nil) ==> (ncalls($TICK) == t + 1 && callarg($TICK, t, 0, "*streams.interjection[T]") == job.ctx.interjection)
  ensures [C07 C24] event: job.ctx.interjection == nil ==> ncalls($TICK) == t
  ensures counted: pw.jobsDone == old(pw.jobsDone) + (recvd(pw.maxPending) - m)
}
define TIMERS (forall any_i *interjection[T] {any_i.timer} :: old(any_i.timer) != nil ==> any_i.timer != nil)
define JOBS log $FIN, anyclose(chan struct{}), chanof(pw.maxPending), pw.jobsDone, log $TICK, any interjection.timer, log time.AfterFunc, chanof(pw.asyncCompleter.asyncJobs)
// while an event waits for a transaction, completed asynchronous work is still taken
func partitionWorker.assignProducer(pw, ec) {
  requires ec != nil && ec.producerChan != nil && ec.done != nil && ec.done != pw.maxPending && !ec.started && pw.maxPending != nil && pw.asyncCompleter.asyncJobs != nil
  requires own: eventOf[ec.done] == ec
  modifies ec.producer, chanof(ec.producerChan), $JOBS
  let r = recvd(ec.producerChan)
  let m = recvd(pw.maxPending)
  let j = pw.jobsDone
  waits jobs: offersrecv(pw.asyncCompleter.asyncJobs) && offersrecv(ec.producerChan)
  ensures timers: $TIMERS
  ensures told: recvd(ec.producerChan) == r + 1 && ec.producer == recvval(ec.producerChan, r)
  ensures returned: recvd(pw.maxPending) - m == pw.jobsDone - j
  ensures pending: closed(ec.done) == old(closed(ec.done))
  loop 0 {
    invariant timers: $TIMERS
    invariant r: recvd(ec.producerChan) == r
    invariant cl: closed(ec.done) == old(closed(ec.done))
    invariant recvd(pw.maxPending) - m == pw.jobsDone - j
  }
}
define EXECUTE EventSource.handleEvent
define WAITING ec != nil && ec.producerChan != nil && ec.done != nil && !closed(ec.done) && ec.done != pw.maxPending && !ec.started && pw.maxPending != nil && pw.asyncCompleter.asyncJobs != nil && eventOf[ec.done] == ec
define RETURNED(N) recvd(pw.maxPending) - m - (pw.jobsDone - j) == N
define HANDLERS(ES) (ES != nil && ES.defaultProcessor != nil && (ES.rootProcessor == nil || $CHAIN(c, 0, n, ES.rootProcessor)))
define RUNNING ec.producer, ec.started, chanof(ec.producerChan), $JOBS
func partitionWorker.forwardToEventSource(pw, ec) {
  logical c [int => *eventProcessorWrapper[T]]
  logical n int
  requires $WAITING
  requires event: ec.interjection == nil && ec.input.kRecord.Offset < 9223372036854775807
  requires $HANDLERS(pw.eventSource)
  modifies $RUNNING, pw.highestOffset, log $EXECUTE, log $EXEC, log $DEFP
  call EventSource.handleEvent(c = c, n = n)
  ghost ec.started := ncalls($EXECUTE) > old(ncalls($EXECUTE))
  let r = recvd(ec.producerChan)
  let m = recvd(pw.maxPending)
  let j = pw.jobsDone
  let h = ncalls($EXECUTE)
  ensures timers: $TIMERS
  ensures refused: recvval(ec.producerChan, r) == nil ==> (ncalls($EXECUTE) == h && pw.highestOffset == old(pw.highestOffset) && !closed(ec.done) && $RETURNED(1))
  ensures executed: recvval(ec.producerChan, r) != nil ==> (ncalls($EXECUTE) == h + 1 && callarg($EXECUTE, h, 0, "*streams.EventSource[T]") == pw.eventSource && callarg($EXECUTE, h, 1, "*streams.EventContext[T]") == ec && callarg($EXECUTE, h, 2, IncomingRecord) == ec.input && ec.producer == recvval(ec.producerChan, r))
  ensures resume: recvval(ec.producerChan, r) != nil ==> pw.highestOffset == ec.input.kRecord.Offset + 1
  ensures completed: (recvval(ec.producerChan, r) != nil && callres($EXECUTE, h, 0, ExecutionState) == Complete) ==> (closed(ec.done) && $RETURNED(1))
  ensures pending: (recvval(ec.producerChan, r) != nil && callres($EXECUTE, h, 0, ExecutionState) != Complete) ==> (!closed(ec.done) && $RETURNED(0))
}
func partitionWorker.handleInterjection(pw, ec) {
  tags C07 C24
  requires $WAITING
  requires interjection: ec.interjection != nil && $TICKABLE(ec.interjection)
  modifies $RUNNING, log $IJ, log $CB, ghost answered
  ghost ec.started := ncalls($IJ) > old(ncalls($IJ))
  let r = recvd(ec.producerChan)
  let m = recvd(pw.maxPending)
  let j = pw.jobsDone
  let h = ncalls($IJ)
  let k = ncalls($CB)
  let inter = ec.interjection
  ensures timers: $TIMERS
  ensures refused: recvval(ec.producerChan, r) == nil ==> (ncalls($IJ) == h && !closed(ec.done) && $RETURNED(1))
  ensures answered: recvval(ec.producerChan, r) == nil ==> (if inter.callback != nil then (ncalls($CB) == k + 1 && answered[k] == inter.callback) else ncalls($CB) == k)
  ensures executed: recvval(ec.producerChan, r) != nil ==> (ncalls($IJ) == h + 1 && callarg($IJ, h, 0, "*streams.EventContext[T]") == ec && ncalls($CB) == k && ec.producer == recvval(ec.producerChan, r))
  ensures completed: (recvval(ec.producerChan, r) != nil && callres($IJ, h, 0, ExecutionState) == Complete) ==> (closed(ec.done) && $RETURNED(1) && (let t = ncalls($TICK) - 1; callarg($TICK, t, 0, "*streams.interjection[T]") == inter))
  ensures pending: (recvval(ec.producerChan, r) != nil && callres($IJ, h, 0, ExecutionState) != Complete) ==> (!closed(ec.done) && $RETURNED(0))
}
// ---- interjections ----
tags C24
extern time.AfterFunc(d, f) (t) {
  opt log
  ensures t != nil
}
func interjection.tick$1() {
  requires ij.interjectChannel != nil && ij.cancelSignal != nil && $TICKABLE(ij) && allocated(ij)
  modifies sendof(ij.interjectChannel), chanof(ij.cancelSignal)
  let s = sent(ij.interjectChannel)
  let r = recvd(ij.cancelSignal)
  waits cancelled: offersrecv(ij.cancelSignal)
  ensures once: sent(ij.interjectChannel) == s || (sent(ij.interjectChannel) == s + 1 && sentval(ij.interjectChannel, s) == ij && recvd(ij.cancelSignal) == r)
  ensures cancelled: sent(ij.interjectChannel) == s ==> (recvd(ij.cancelSignal) == r + 1 || closed(ij.cancelSignal))
}
extern time.Timer.Stop(t) (b) { opt log }
extern rand.Float64() (f) { ensures 0 <= f && f < 1 }
extern rand.Intn(n) (r) { ensures 0 <= r && r < n }
define DURATIONS(I) (-4611686018427387904 < I.jitter && 0 <= I.every && I.every < 4611686018427387904 && I.jitter < 4611686018427387904)
func interjection.timerDuration(ij) (d) {
  requires $DURATIONS(ij)
  ensures period: ij.every - abs(ij.jitter) <= d && d <= ij.every + abs(ij.jitter)
}
func interjection.tick(ij) {
  requires $DURATIONS(ij)
  opt log
  modifies ij.timer, log time.AfterFunc
  let a = ncalls(time.AfterFunc)
  ensures over: (ij.isOneOff || ij.cancelled) ==> (ncalls(time.AfterFunc) == a && ij.timer == old(ij.timer))
  ensures armed: !(ij.isOneOff || ij.cancelled) ==> ij.timer != nil
  ensures scheduled: !(ij.isOneOff || ij.cancelled) ==> (ncalls(time.AfterFunc) == a + 1 && ij.timer == callres(time.AfterFunc, a, 0, *time.Timer) && isfn(callarg(time.AfterFunc, a, 1, ref), interjection.tick$1))
  ensures period: !(ij.isOneOff || ij.cancelled) ==> (let d = callarg(time.AfterFunc, a, 0, time.Duration); ij.every - abs(ij.jitter) <= d && d <= ij.every + abs(ij.jitter))
}
func interjection.init(ij, tp, c) {
  opt log
  modifies once(ij.initOnce), ij.topicPartition, ij.cancelSignal, ij.interjectChannel
  ensures done: oncedone(ij.initOnce)
  ensures first: !old(oncedone(ij.initOnce)) ==> (ij.topicPartition == tp && ij.interjectChannel == c && fresh(ij.cancelSignal) && cap(ij.cancelSignal) == 1 && !closed(ij.cancelSignal) && sent(ij.cancelSignal) == 0 && recvd(ij.cancelSignal) == 0)
  ensures again: old(oncedone(ij.initOnce)) ==> (ij.topicPartition == old(ij.topicPartition) && ij.interjectChannel == old(ij.interjectChannel) && ij.cancelSignal == old(ij.cancelSignal))
}
define STOP time.Timer.Stop
func interjection.cancel(ij) {
  opt log
  requires oncedone(ij.cancelOnce) || (ij.cancelSignal != nil && ij.timer != nil)
  modifies once(ij.cancelOnce), ij.cancelled, sendof(ij.cancelSignal), log $STOP
  let s = sent(ij.cancelSignal)
  let k = ncalls($STOP)
  ensures done: oncedone(ij.cancelOnce)
  ensures first: !old(oncedone(ij.cancelOnce)) ==> (ij.cancelled && sent(ij.cancelSignal) == s + 1 && ncalls($STOP) == k + 1 && callarg($STOP, k, 0, *time.Timer) == ij.timer)
  ensures again: old(oncedone(ij.cancelOnce)) ==> (ij.cancelled == old(ij.cancelled) && sent(ij.cancelSignal) == s && ncalls($STOP) == k)
}
// an interjection which will not be executed is answered
func partitionWorker.refuseInterjections(pw) {
  opt log
  requires pw.interjectionInput != nil && pw.interjectionEventInput != nil
  modifies chanof(pw.interjectionInput), chanof(pw.interjectionEventInput), log $CB, ghost answered
  let r = recvd(pw.interjectionInput)
  let q = recvd(pw.interjectionEventInput)
  let c = ncalls($CB)
  ensures direct: forall k int {recvval(pw.interjectionInput, k)} :: (r <= k && k < recvd(pw.interjectionInput) && recvval(pw.interjectionInput, k).callback != nil) ==> (exists j int {answered[j]} :: c <= j && j < ncalls($CB) && answered[j] == recvval(pw.interjectionInput, k).callback)
  ensures scheduled: forall k int {recvval(pw.interjectionEventInput, k)} :: (q <= k && k < recvd(pw.interjectionEventInput) && recvval(pw.interjectionEventInput, k).interjection.callback != nil) ==> (exists j int {answered[j]} :: c <= j && j < ncalls($CB) && answered[j] == recvval(pw.interjectionEventInput, k).interjection.callback)
  ensures once: ncalls($CB) - c <= (recvd(pw.interjectionInput) - r) + (recvd(pw.interjectionEventInput) - q)
  loop 0 {
    invariant ncalls($CB) >= c && recvd(pw.interjectionInput) >= r && recvd(pw.interjectionEventInput) >= q
    invariant direct: forall k int {recvval(pw.interjectionInput, k)} :: (r <= k && k < recvd(pw.interjectionInput) && recvval(pw.interjectionInput, k).callback != nil) ==> (exists j int {answered[j]} :: c <= j && j < ncalls($CB) && answered[j] == recvval(pw.interjectionInput, k).callback)
    invariant scheduled: forall k int {recvval(pw.interjectionEventInput, k)} :: (q <= k && k < recvd(pw.interjectionEventInput) && recvval(pw.interjectionEventInput, k).interjection.callback != nil) ==> (exists j int {answered[j]} :: c <= j && j < ncalls($CB) && answered[j] == recvval(pw.interjectionEventInput, k).interjection.callback)
    invariant once: ncalls($CB) - c <= (recvd(pw.interjectionInput) - r) + (recvd(pw.interjectionEventInput) - q)
  }
}
// a one-off interjection is answered at once when the partition has no worker which is ready, and handed to it otherwise
func eventSourceConsumer.interject(sc, partition, cmd) (c) {
  opt log
  atomic sc.workerMux
  requires sc.workers != nil && !held(sc.workerMux)
  modifies anysend(chan *interjection[T])
  let w = sc.workers[partition]
  ensures answer: fresh(c) && cap(c) == 1 && recvd(c) == 0 && !closed(c)
  ensures refused: (!old(has(sc.workers, partition)) || old(sc.workers[partition].ready) == 0) ==> (sent(c) == 1 && sentval(c, 0) == ErrPartitionNotAssigned)
  ensures handed: (old(has(sc.workers, partition)) && old(sc.workers[partition].ready) != 0) ==> (sent(c) == 0 && (let x = old(sc.workers[partition]); sent(x.interjectionInput) == old(sent(x.interjectionInput)) + 1 && (let i = sentval(x.interjectionInput, old(sent(x.interjectionInput))); fresh(i) && i.isOneOff && i.topicPartition == x.topicPartition && isfn(i.interjector, eventSourceConsumer.interject$1) && isfn(i.callback, eventSourceConsumer.interject$2))))
  ensures unlocked: !held(sc.workerMux)
}
functype streams.eventSourceConsumer.interject$1.cmd(ec, t) (s) {}
func eventSourceConsumer.interject$1(ec, t) (s) {
  requires c != nil && !closed(c) && cmd != nil
  modifies log streams.eventSourceConsumer.interject$1.cmd, closeof(c)
  let k = ncalls(streams.eventSourceConsumer.interject$1.cmd)
  ensures executed: ncalls(streams.eventSourceConsumer.interject$1.cmd) == k + 1 && callarg(streams.eventSourceConsumer.interject$1.cmd, k, 0, "*streams.EventContext[T]") == ec && s == callres(streams.eventSourceConsumer.interject$1.cmd, k, 0, ExecutionState)
  ensures answered: closed(c) && sent(c) == old(sent(c))
}
func eventSourceConsumer.interject$2() {
  requires c != nil && !closed(c)
  modifies sendof(c)
  ensures answered: sent(c) == old(sent(c)) + 1 && sentval(c, old(sent(c))) == ErrPartitionNotAssigned && !closed(c)
}

// ---- the partition's two loops ----
tags C07
func partitionWorker.canInterject(pw) (b) { ensures ready: b == (pw.ready != 0) }
define STOPPED(W) (closed(doneChan[W.runStatus.ctx]) || recvd(doneChan[W.runStatus.ctx]) > 0)
func partitionWorker.add(pw, records) {
  requires pw.runStatus.ctx != nil && pw.partitionInput != nil
  requires ours: forall i int {records[i]} :: (0 <= i && i < len(records) && records[i] != nil) ==> (records[i].Partition == pw.topicPartition.Partition && records[i].Offset < 9223372036854775807 && allocated(records[i]))
  modifies sendof(pw.partitionInput), log context.Context.Err, anychan(chan struct{})
  let e = ncalls(context.Context.Err)
  let s = sent(pw.partitionInput)
  waits revoked: offersrecv(doneChan[pw.runStatus.ctx])
  ensures refused: $REVOKED(e) ==> sent(pw.partitionInput) == s
  ensures given: !$REVOKED(e) ==> ((sent(pw.partitionInput) == s + 1 && sentval(pw.partitionInput, s) == records) || (sent(pw.partitionInput) == s && $STOPPED(pw)))
}
func eventSourceConsumer.receive(sc, p) {
  atomic sc.workerMux
  requires sc.workers != nil && !held(sc.workerMux)
  requires ours: forall i int {p.Records[i]} :: (0 <= i && i < len(p.Records) && p.Records[i] != nil) ==> (p.Records[i].Partition == p.Partition && p.Records[i].Offset < 9223372036854775807 && allocated(p.Records[i]))
  modifies anysend(chan []*kgo.Record), log context.Context.Err, anychan(chan struct{})
  let e = ncalls(context.Context.Err)
  ensures given: (old(has(sc.workers, p.Partition)) && len(p.Records) > 0 && !$REVOKED(e)) ==> (let x = old(sc.workers[p.Partition]); (sent(x.partitionInput) == old(sent(x.partitionInput)) + 1 && sentval(x.partitionInput, old(sent(x.partitionInput))) == p.Records) || (sent(x.partitionInput) == old(sent(x.partitionInput)) && $STOPPED(x)))
  ensures unlocked: !held(sc.workerMux)
}
func partitionWorker.waitForRevocation(pw) {
  requires pw.revokedSignal != nil
  modifies sendof(pw.revokedSignal), wg($WG), log sync.WaitGroup.Wait
  let k = ncalls(sync.WaitGroup.Wait)
  ensures accepted: ncalls(sync.WaitGroup.Wait) == k + 1
  ensures told: sent(pw.revokedSignal) == old(sent(pw.revokedSignal)) + 1
}
define REFUSE partitionWorker.refuseInterjections
define STE partitionWorker.scheduleTxnAndExecution
func partitionWorker.pushRecords(pw) {
  tags C07 C24
  opt closesopen
  requires $WORKER
  requires pw.partitionInput != nil && pw.stopSignal != nil && pw.stopped != nil && pw.asyncCompleter.asyncJobs != nil
  modifies chanof(pw.partitionInput), chanof(pw.interjectionInput), chanof(pw.interjectionEventInput), wg($WG), sendof(pw.maxPending), sendof(pw.eosProducer.buffer), sendof(pw.eventInput), closeof(pw.eventInput), closeof(pw.asyncCompleter.asyncJobs), sendof(pw.stopSignal), chanof(pw.stopped), log context.Context.Err, log $CB, ghost answered, ghost eventOf, log $STE, log $REFUSE, anychan(chan struct{})
  let f = ncalls($REFUSE)
  let s = ncalls($STE)
  let r = recvd(pw.partitionInput)
  before partitionWorker.scheduleTxnAndExecution inorder: arg1 == recvval(pw.partitionInput, recvd(pw.partitionInput) - 1)
  before partitionWorker.scheduleTxnAndExecution current: !$REVOKED(ncalls(context.Context.Err) - 1)
  before partitionWorker.refuseInterjections stopped: sent(pw.stopSignal) > 0
  waits inputs: sent(pw.stopSignal) == old(sent(pw.stopSignal)) ==> ((offersrecv(pw.partitionInput) && offersrecv(pw.interjectionInput) && offersrecv(doneChan[pw.runStatus.ctx])) || offerssend(pw.stopSignal))
  ensures refused: ncalls($REFUSE) == f + 1
  ensures closed: closed(pw.eventInput) && closed(pw.asyncCompleter.asyncJobs)
  loop 0 {
    invariant ncalls($REFUSE) == f && ncalls($STE) >= s && recvd(pw.partitionInput) >= r
    invariant once: ncalls($STE) - s <= recvd(pw.partitionInput) - r
  }
}
define PAUSE kgo.Client.PauseFetchPartitions
define RESUME kgo.Client.ResumeFetchPartitions
define ONLYPART(MM) (let mm = MM; let ps = mm[pw.topicPartition.Topic]; has(mm, pw.topicPartition.Topic) && len(ps) == 1 && ps[0] == pw.topicPartition.Partition)
functype streams.partitionWorker.work.waiter() {}
define WAITER streams.partitionWorker.work.waiter
define LAST eosCommitLog.lastProcessed
define PUSH "go:streams.partitionWorker.pushRecords"
func partitionWorker.handleEvent(pw, ec) (b) {
  opt log
  logical c [int => *eventProcessorWrapper[T]]
  logical n int
  requires $WAITING
  requires event: ec.interjection == nil && ec.input.kRecord.Offset < 9223372036854775807
  requires $HANDLERS(pw.eventSource)
  modifies $RUNNING, pw.highestOffset, log $EXECUTE, log $EXEC, log $DEFP
  call partitionWorker.forwardToEventSource(c = c, n = n)
  let r = recvd(ec.producerChan)
  let h = ncalls($EXECUTE)
  ensures timers: $TIMERS
  ensures refused: recvval(ec.producerChan, r) == nil ==> (ncalls($EXECUTE) == h && pw.highestOffset == old(pw.highestOffset))
  ensures executed: recvval(ec.producerChan, r) != nil ==> (ncalls($EXECUTE) == h + 1 && callarg($EXECUTE, h, 1, "*streams.EventContext[T]") == ec && pw.highestOffset == ec.input.kRecord.Offset + 1)
}
define HEV partitionWorker.handleEvent
define COPIED(P, S) (fresh(P) && P.interjector == S.interjector && P.every == S.every && P.jitter == S.jitter && P.isOneOff == S.isOneOff && P.cancelled == S.cancelled && !oncedone(P.initOnce))
func partitionWorker.work(pw, interjections, waiter, commitLog) {
  opt spawned
  logical c [int => *eventProcessorWrapper[T]]
  logical n int
  requires $WORKER && $HANDLERS(pw.eventSource)
  requires pw.asyncCompleter.asyncJobs != nil && pw.stopSignal != nil && pw.stopped != nil && pw.revokedSignal != nil && pw.partitionInput != nil
  requires pw.eventSource.consumer != nil && pw.eventSource.source != nil && commitLog != nil && commitLog.pendingSyncs != nil && !held(commitLog.syncMux) && !held(commitLog.mux) && commitLog.numPartitions > 0
  modifies $JOBS, any EventContext.producer, any EventContext.started, anychan(chan EventContextProducer[T]), pw.highestOffset, pw.ready, log $HEV, log $EXECUTE, log $EXEC, log $DEFP, log $IJ, log $CB, ghost answered, log $PAUSE, log $RESUME, log $WAITER, log $LAST, mapof(commitLog.pendingSyncs), mapof(commitLog.watermarks), $PRODUCES, log uuid.NewString, log sync.WaitGroup.Wait, log $PUSH, log $TOLD, log interjection.init, log interjection.cancel, log "go:streams.partitionWorker.waitForRevocation", anychan(chan struct{}), chanof(pw.eventInput), chanof(pw.interjectionEventInput), log time.Timer.Stop
  requires recurring: forall i int {interjections[i]} :: (0 <= i && i < len(interjections)) ==> ($TICKABLE(interjections[i]) && !interjections[i].isOneOff && !interjections[i].cancelled)
  call partitionWorker.handleEvent(c = c, n = n)
  let l = ncalls($LAST)
  let w = ncalls($WAITER)
  let h = ncalls($HEV)
  let r = recvd(pw.eventInput)
  let u = ncalls($PUSH)
  before kgo.Client.PauseFetchPartitions first: $ONLYPART(arg1)
  before "go:streams.partitionWorker.pushRecords" populated: ncalls($WAITER) == w + 1 && ncalls($LAST) == l + 1 && callarg($LAST, l, 0, *eosCommitLog) == commitLog && callarg($LAST, l, 1, TopicPartition) == pw.topicPartition && pw.highestOffset == callres($LAST, l, 0, int64)
  before interjection.init [C24] wired: arg1 == pw.topicPartition && arg2 == pw.interjectionInput
  before "go:streams.partitionWorker.waitForRevocation" [C24] cancelled: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> oncedone(ijPtrs[i].cancelOnce)
  waits inputs: (offersrecv(pw.eventInput) && offersrecv(pw.interjectionEventInput) && offersrecv(pw.asyncCompleter.asyncJobs) && offersrecv(pw.stopSignal) && offersrecv(pw.revokedSignal)) || offerssend(pw.stopped)
  ensures started: ncalls($PUSH) == u + 1
  ensures inorder: ncalls($HEV) - h == recvd(pw.eventInput) - r && (forall i int {recvval(pw.eventInput, i)} :: (r <= i && i < recvd(pw.eventInput)) ==> callarg($HEV, h + i - r, 1, "*streams.EventContext[T]") == recvval(pw.eventInput, i))
  loop 0 {
    invariant len(pointers) == len(structs)
    invariant forall i int {pointers[i]} :: (0 <= i && i < nvisited()) ==> $COPIED(pointers[i], structs[i])
  }
  loop 1 {
    invariant ncalls($PUSH) == u + 1
    invariant own1: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> (fresh(ijPtrs[i]))
    invariant own2: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> ($TICKABLE(ijPtrs[i]))
    invariant own3: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> (!ijPtrs[i].isOneOff && !ijPtrs[i].cancelled)
    invariant own: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> ((oncedone(ijPtrs[i].initOnce) ==> ijPtrs[i].cancelSignal != nil))
    invariant armed: forall i int {ijPtrs[i]} :: (0 <= i && i < nvisited()) ==> (ijPtrs[i].cancelSignal != nil && ijPtrs[i].timer != nil)
  }
  loop 2 {
    invariant ncalls($PUSH) == u + 1
    invariant own: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> (fresh(ijPtrs[i]) && ijPtrs[i].cancelSignal != nil && ijPtrs[i].timer != nil)
    invariant count: ncalls($HEV) - h == recvd(pw.eventInput) - r && recvd(pw.eventInput) >= r
    invariant inorder: forall i int {recvval(pw.eventInput, i)} :: (r <= i && i < recvd(pw.eventInput)) ==> callarg($HEV, h + i - r, 1, "*streams.EventContext[T]") == recvval(pw.eventInput, i)
  }
  loop 3 {
    invariant [C24] cancelled: forall i int {ijPtrs[i]} :: (0 <= i && i < nvisited()) ==> oncedone(ijPtrs[i].cancelOnce)
    invariant own: forall i int {ijPtrs[i]} :: (0 <= i && i < len(ijPtrs)) ==> (fresh(ijPtrs[i]) && ijPtrs[i].cancelSignal != nil && ijPtrs[i].timer != nil)
  }
}
