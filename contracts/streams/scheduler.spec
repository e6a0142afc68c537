package streams
tags C22

// ---- the queue of one key ----
precise asyncItemQueue.queue
open asyncItemQueue.queue
define QHEAD(Q) (if Q.peekable then 1 else 0)
define QLEN(Q) ($QHEAD(Q) + sent(Q.queue) - recvd(Q.queue))
define QAT(Q,I) (if Q.peekable && I == 0 then Q.head else sentval(Q.queue, recvd(Q.queue) + I - $QHEAD(Q)))
// size counts what is held and the blocked writers
lockinv asyncItemQueue.headLock(q) {
  protects q.size, q.head, q.peekable, chanof(q.queue)
  invariant counted: $QLEN(q) <= q.size
  invariant channel: 0 <= recvd(q.queue) && recvd(q.queue) <= sent(q.queue) && sent(q.queue) - recvd(q.queue) <= cap(q.queue)
}
func newAsyncItemQueue(maxSize) (q) {
  requires maxSize < 2147483647
  ensures fresh: fresh(q) && fresh(q.queue)
  ensures empty: $QLEN(q) == 0 && q.size == 0 && !q.peekable
  ensures room: cap(q.queue) + 1 == (if maxSize < 2 then 2 else maxSize)
}
func asyncItemQueue.backfill(aiq) (ok) {
  requires held(aiq.headLock) && aiq.queue != nil && 0 <= recvd(aiq.queue) && recvd(aiq.queue) <= sent(aiq.queue)
  modifies aiq.head, aiq.peekable, chanof(aiq.queue)
  let n = sent(aiq.queue) - recvd(aiq.queue)
  let r = recvd(aiq.queue)
  ensures filled: ok == (n > 0) && aiq.peekable == ok
  ensures first: ok ==> (aiq.head == old(sentval(aiq.queue, recvd(aiq.queue))) && recvd(aiq.queue) == r + 1)
  ensures none: !ok ==> recvd(aiq.queue) == r
  ensures kept: sent(aiq.queue) == old(sent(aiq.queue)) && (forall i int {sentval(aiq.queue, i)} :: sentval(aiq.queue, i) == old(sentval(aiq.queue, i)))
}
func asyncItemQueue.tryEnqueue(q, item) (ok) {
  atomic q.headLock
  opt log nowrap
  requires !held(q.headLock) && q.queue != nil
  modifies q.size, q.head, q.peekable, chanof(q.queue)
  ensures room: ok == (old($QLEN(q)) <= cap(q.queue))
  ensures last: ok ==> ($QLEN(q) == old($QLEN(q)) + 1 && $QAT(q, old($QLEN(q))) == item)
  ensures refused: !ok ==> $QLEN(q) == old($QLEN(q))
  ensures order: forall i int {$QAT(q, i)} :: (0 <= i && i < old($QLEN(q))) ==> $QAT(q, i) == old($QAT(q, i))
  ensures counted: q.size == old(q.size) + 1
  ensures unlocked: !held(q.headLock)
}
func asyncItemQueue.dequeue(q) (item, ok) {
  atomic q.headLock
  opt log nowrap
  requires !held(q.headLock) && q.queue != nil
  modifies q.size, q.head, q.peekable, chanof(q.queue)
  ensures some: ok == (old($QLEN(q)) > 0)
  ensures first: ok ==> (item == old($QAT(q, 0)) && $QLEN(q) == old($QLEN(q)) - 1 && q.size == old(q.size) - 1)
  ensures none: !ok ==> ($QLEN(q) == 0 && q.size == old(q.size))
  ensures order: forall i int :: (0 <= i && i < $QLEN(q)) ==> $QAT(q, i) == old($QAT(q, i + 1))
  ensures unlocked: !held(q.headLock)
}
func asyncItemQueue.peek(q) (item, ok) {
  atomic q.headLock
  opt log
  requires !held(q.headLock) && q.queue != nil
  modifies q.head, q.peekable, chanof(q.queue)
  ensures some: ok == (old($QLEN(q)) > 0)
  ensures first: ok ==> item == old($QAT(q, 0))
  ensures kept: $QLEN(q) == old($QLEN(q)) && (forall i int :: (0 <= i && i < $QLEN(q)) ==> $QAT(q, i) == old($QAT(q, i)))
  ensures unlocked: !held(q.headLock)
}
func asyncItemQueue.done(q) (r) {
  atomic q.headLock
  opt log
  requires !held(q.headLock) && q.queue != nil
  modifies nothing
  ensures finished: r ==> ($QLEN(q) == 0 && q.size == $QLEN(q))
  ensures pending: !r ==> q.size > 0
  ensures unlocked: !held(q.headLock)
}

// a worker as newQueue makes it
define MADEW(W) (W.workQueue != nil && W.workQueue.queue != nil && W.ctx != nil && W.workQueue.queue != doneChan[W.ctx] && W.processor != nil)
// ---- the workers, one for each active key ----
define SCHED AsyncJobScheduler
define ANYQ any asyncItemQueue.size, any asyncItemQueue.head, any asyncItemQueue.peekable, any asyncJobContainer.err, any asyncJobContainer.eventContext, any asyncJobContainer.finalizer, any asyncJobContainer.key, any asyncJobContainer.value, anychan("chan streams.asyncJobContainer[S, K, V]")
// owner[w] == ap: w belongs to a key of ap, and whoever holds w (or receives it) may process or release it
ghostvar owner [ref => ref]
lockinv AsyncJobScheduler.mux(ap) {
  protects mapof(ap.workerMap)
  invariant keyed: forall k K {ap.workerMap[k]} :: has(ap.workerMap, k) ==> (ap.workerMap[k] != nil && ap.workerMap[k].key == k && owner[ap.workerMap[k]] == ap && $MADEW(ap.workerMap[k]))
  invariant mine: forall any_w *worker[S, K, V] {owner[any_w]} :: owner[any_w] == ap ==> (has(ap.workerMap, any_w.key) && ap.workerMap[any_w.key] == any_w)
}
define CHANWF(C) (0 <= recvd(C) && recvd(C) <= sent(C) && sent(C) - recvd(C) <= cap(C))
lockinv AsyncJobScheduler.updateRWLock(ap) {
  protects ap.workerChannel, ap.maxConcurrentKeys, chanof(ap.workerChannel)
  invariant buffer: $CHANWF(ap.workerChannel)
  invariant channel: ap.workerChannel != nil && !closed(ap.workerChannel)
  invariant capacity: 0 <= ap.maxConcurrentKeys && ap.maxConcurrentKeys < cap(ap.workerChannel)
}
chaninv AsyncJobScheduler.workerChannel(w): w != nil ==> (owner[w] == self && $MADEW(w))
// a pool hands out what was put in it or what its constructor makes
extern sync.Pool.Get(p) (x) {
  opt log
  ensures pooled: is(x, "*streams.worker[S, K, V]") && (let w = as(x, "*streams.worker[S, K, V]"); w != nil && owner[w] == nil && $MADEW(w))
}
extern sync.Pool.Put(p, x) { opt log }

func SchedulerConfig.concurrentKeys(c) (n) {
  ensures larger: n == max(c.Concurrency, c.MaxConcurrentKeys)
}

define WKR "*streams.worker[S, K, V]"
func AsyncJobScheduler.grabWorker(ap, key) (w, created) {
  opt log nolockcheck
  requires held(ap.mux) && ap.workerMap != nil
  requires keyed: forall k K {ap.workerMap[k]} :: has(ap.workerMap, k) ==> (ap.workerMap[k] != nil && ap.workerMap[k].key == k && owner[ap.workerMap[k]] == ap && $MADEW(ap.workerMap[k]))
  requires mine: forall any_w *worker[S, K, V] {owner[any_w]} :: owner[any_w] == ap ==> (has(ap.workerMap, any_w.key) && ap.workerMap[any_w.key] == any_w)
  modifies mapof(ap.workerMap), any worker.key, ghost owner, log sync.Pool.Get
  let was = has(ap.workerMap, key)
  ghost owner[w] := if created then ap else owner[w]
  ensures existing: was ==> (w == old(ap.workerMap[key]) && !created)
  ensures full: (!was && old(len(ap.workerMap)) >= ap.maxConcurrentKeys) ==> (w == nil && !created)
  ensures room: (!was && old(len(ap.workerMap)) < ap.maxConcurrentKeys) ==> (created && w != nil && old(owner[w]) == nil)
  ensures unchanged: !created ==> (len(ap.workerMap) == old(len(ap.workerMap)) && has(ap.workerMap, key) == was && (was ==> ap.workerMap[key] == w))
  ensures limit: created ==> (len(ap.workerMap) == old(len(ap.workerMap)) + 1 && len(ap.workerMap) <= ap.maxConcurrentKeys)
  ensures serving: w != nil ==> ($MADEW(w) && has(ap.workerMap, key) && ap.workerMap[key] == w && w.key == key && owner[w] == ap)
  ensures others: forall k K {has(ap.workerMap, k)} :: k != key ==> (has(ap.workerMap, k) == old(has(ap.workerMap, k)) && ap.workerMap[k] == old(ap.workerMap[k]))
  ensures keys: forall any_x *worker[S, K, V] {any_x.key} :: (!created || any_x != w) ==> any_x.key == old(any_x.key)
  ensures owners: forall any_x ref {owner[any_x]} :: (!created || any_x != w) ==> owner[any_x] == old(owner[any_x])
  ensures capacity: created ==> w.capacity == ap.workerQueueDepth
  loop 0 {
    invariant pooled: w != nil && owner[w] == nil && $MADEW(w)
    invariant same: forall any_x *worker[S, K, V] {any_x.key} :: any_x.key == old(any_x.key)
  }
}

func AsyncJobScheduler.ensureWorkerChannelCapacity(ap, newSize, oldSize) {
  opt precise nolockcheck
  requires held(ap.updateRWLock) && ap.workerChannel != nil && !closed(ap.workerChannel)
  requires 0 <= oldSize && oldSize < cap(ap.workerChannel) && newSize < 4611686018427387904
  requires $CHANWF(ap.workerChannel)
  modifies ap.workerChannel, chanof(ap.workerChannel), closeof(ap.workerChannel)
  let oc = ap.workerChannel
  let n = sent(oc) - recvd(oc)
  let r = recvd(oc)
  let s = sent(oc)
  ensures grown: newSize > oldSize ==> cap(ap.workerChannel) > newSize
  ensures enough: cap(ap.workerChannel) >= cap(oc)
  ensures usable: ap.workerChannel != nil && !closed(ap.workerChannel)
  ensures kept: ap.workerChannel == oc ==> (recvd(oc) == r && sent(oc) == s)
  ensures moved: ap.workerChannel != oc ==> (recvd(oc) == s && sent(oc) == s && sent(ap.workerChannel) == n && recvd(ap.workerChannel) == 0)
  ensures order: ap.workerChannel != oc ==> (forall i int {sentval(ap.workerChannel, i)} :: (0 <= i && i < n) ==> sentval(ap.workerChannel, i) == old(sentval(oc, r + i)))
  loop 0 {
    invariant count: 0 <= i && i <= newSize && sent(wc) == i && recvd(wc) == 0 && recvd(oc) == r + i && sent(oc) == s && r + i <= s
    invariant other: wc != oc && ap.workerChannel == oc && !closed(wc) && !closed(oc) && fresh(wc)
    invariant order: forall j int {sentval(wc, j)} :: (0 <= j && j < i) ==> sentval(wc, j) == old(sentval(oc, r + j))
    invariant source: forall j int {sentval(oc, j)} :: sentval(oc, j) == old(sentval(oc, j))
  }
}

func AsyncJobScheduler.SetMaxConcurrentKeys(ap, size) {
  atomic ap.updateRWLock
  opt precise
  requires !held(ap.updateRWLock) && !held(ap.mux) && size < 4611686018427387904 && ap.workerMap != nil
  modifies ap.maxConcurrentKeys, ap.workerChannel, chanof(ap.workerChannel), closeof(ap.workerChannel), mapof(ap.workerMap)
  ensures set: ap.maxConcurrentKeys == max(size, 0)
  ensures kept: ap.workerChannel == old(ap.workerChannel) || (sent(old(ap.workerChannel)) == recvd(old(ap.workerChannel)) && (sent(ap.workerChannel) - recvd(ap.workerChannel) == old(sent(ap.workerChannel) - recvd(ap.workerChannel))))
  ensures unlocked: !held(ap.updateRWLock) && !held(ap.mux)
}
func AsyncJobScheduler.enqueueWorker(ap, w) {
  atomic ap.updateRWLock
  opt log
  requires w != nil && owner[w] == ap && $MADEW(w) && !held(ap.updateRWLock)
  modifies ap.workerChannel, ap.maxConcurrentKeys, chanof(ap.workerChannel)
  ensures queued: sent(ap.workerChannel) == old(sent(ap.workerChannel)) + 1 && sentval(ap.workerChannel, old(sent(ap.workerChannel))) == w
  ensures same: ap.workerChannel == old(ap.workerChannel)
}
func AsyncJobScheduler.workerAvailable(ap) {
  requires ap.runStatus.ctx != nil && ap.workerFreeSignal != nil
  modifies sendof(ap.workerFreeSignal), log context.Context.Err
}
func worker.reset(w) { modifies w.key }
func asyncJobContainer.invokeFinalizer(j) (s) {
  requires j.finalizer != nil
  modifies log $JFIN
  let f = ncalls($JFIN)
  ensures once: ncalls($JFIN) == f + 1 && callarg($JFIN, f, 0, "*streams.EventContext[S]") == j.eventContext && callarg($JFIN, f, 1, "K") == j.key && callarg($JFIN, f, 2, "V") == j.value && callarg($JFIN, f, 3, error) == j.err && s == callres($JFIN, f, 0, ExecutionState)
}
define JFIN streams.AsyncJobFinalizer
functype streams.AsyncJobFinalizer(ec, k, v, err) (s) {}
define JPROC streams.AsyncJobProcessor
functype streams.AsyncJobProcessor(k, v) (err) {}
func AsyncJobScheduler.releaseWorker(ap, w) {
  opt log
  requires w != nil && owner[w] == ap && $MADEW(w) && ap.workerMap != nil && ap.runStatus.ctx != nil && ap.workerFreeSignal != nil
  requires !held(ap.mux) && !held(ap.updateRWLock) && !held(w.workQueue.headLock)
  modifies mapof(ap.workerMap), w.key, ghost owner, log asyncItemQueue.done, log sync.Pool.Put, log AsyncJobScheduler.enqueueWorker, ap.workerChannel, ap.maxConcurrentKeys, anychan("chan *streams.worker[S, K, V]"), sendof(ap.workerFreeSignal), log context.Context.Err, $ANYQ
  let d = ncalls(asyncItemQueue.done)
  let k = w.key
  let e = ncalls(AsyncJobScheduler.enqueueWorker)
  let p = ncalls(sync.Pool.Put)
  before asyncItemQueue.done locked: held(ap.mux)
  before sync.Pool.Put unmapped: forall k K {ap.workerMap[k]} :: has(ap.workerMap, k) ==> ap.workerMap[k] != w
  before sync.Pool.Put this: as(arg1, "*streams.worker[S, K, V]") == w
  ghostunlock owner[w] := if callres(asyncItemQueue.done, d, 0, bool) then nil else owner[w]
  ensures asked: ncalls(asyncItemQueue.done) == d + 1 && callarg(asyncItemQueue.done, d, 0, "*streams.asyncItemQueue[streams.asyncJobContainer[S, K, V]]") == old(w.workQueue)
  ensures released: callres(asyncItemQueue.done, d, 0, bool) ==> (owner[w] == nil && ncalls(sync.Pool.Put) == p + 1 && ncalls(AsyncJobScheduler.enqueueWorker) == e)
  ensures requeued: !callres(asyncItemQueue.done, d, 0, bool) ==> (owner[w] == ap && w.key == k && ncalls(sync.Pool.Put) == p && ncalls(AsyncJobScheduler.enqueueWorker) == e + 1 && callarg(AsyncJobScheduler.enqueueWorker, e, 0, "*streams.AsyncJobScheduler[S, K, V]") == ap && callarg(AsyncJobScheduler.enqueueWorker, e, 1, $WKR) == w)
  ensures unlocked: !held(ap.mux) && !held(ap.updateRWLock)
}

define WCH ap.workerChannel, ap.maxConcurrentKeys, anychan("chan *streams.worker[S, K, V]")
define WQ(W) (W.workQueue != nil && W.workQueue.queue != nil && !held(W.workQueue.headLock))
define QCH(W) W.workQueue.queue
func worker.tryAddItem(w, item) (ok) {
  opt log
  requires $WQ(w)
  modifies w.depth, $ANYQ, log asyncItemQueue.tryEnqueue
  let t = ncalls(asyncItemQueue.tryEnqueue)
  ensures queued: ncalls(asyncItemQueue.tryEnqueue) == t + 1 && callarg(asyncItemQueue.tryEnqueue, t, 0, "*streams.asyncItemQueue[streams.asyncJobContainer[S, K, V]]") == w.workQueue && callarg(asyncItemQueue.tryEnqueue, t, 1, "streams.asyncJobContainer[S, K, V]") == item && callres(asyncItemQueue.tryEnqueue, t, 0, bool) == ok
}
// sequential reading: the sends of other goroutines come before or after
func worker.blockingAddItem(w, item) {
  opt log
  requires w.workQueue != nil && w.workQueue.queue != nil && w.ctx != nil && w.workQueue.queue != doneChan[w.ctx]
  modifies w.depth, sendof(w.workQueue.queue), anychan(chan struct{})
  waits both: offerssend(w.workQueue.queue) && offersrecv(doneChan[w.ctx])
  let s = sent(w.workQueue.queue)
  let d = recvd(doneChan[w.ctx])
  ensures added: sent(w.workQueue.queue) != s ==> (sent(w.workQueue.queue) == s + 1 && sentval(w.workQueue.queue, s) == item)
}
func AsyncJobScheduler.scheduleItem(ap, item) {
  opt log
  requires ap.workerMap != nil && ap.runStatus.ctx != nil && ap.workerFreeSignal != nil && !held(ap.mux) && !held(ap.updateRWLock)
  modifies mapof(ap.workerMap), any worker.key, any worker.depth, ghost owner, log sync.Pool.Get, $WCH, $ANYQ, log asyncItemQueue.tryEnqueue, anychan(chan struct{}), log context.Context.Err, log AsyncJobScheduler.grabWorker, log worker.tryAddItem, log worker.blockingAddItem, log AsyncJobScheduler.enqueueWorker
  let t = ncalls(worker.tryAddItem)
  let b = ncalls(worker.blockingAddItem)
  let e = ncalls(AsyncJobScheduler.enqueueWorker)
  let x = ncalls(context.Context.Err)
  let g = ncalls(AsyncJobScheduler.grabWorker)
  requires unlocked: forall any_q *asyncItemQueue[asyncJobContainer[S, K, V]] {held(any_q.headLock)} :: !held(any_q.headLock)
  before worker.tryAddItem serving: held(ap.mux) && has(ap.workerMap, item.key) && ap.workerMap[item.key] == arg0 && arg0 != nil && owner[arg0] == ap
  ensures dropped: ncalls(worker.tryAddItem) == t ==> (ncalls(worker.blockingAddItem) == b && ncalls(AsyncJobScheduler.enqueueWorker) == e && ncalls(context.Context.Err) > x && callres(context.Context.Err, ncalls(context.Context.Err) - 1, 0, error) != nil)
  ensures once: ncalls(worker.tryAddItem) == t || (ncalls(worker.tryAddItem) == t + 1 && callarg(worker.tryAddItem, t, 1, "streams.asyncJobContainer[S, K, V]") == item)
  ensures waits: ncalls(worker.tryAddItem) == t + 1 ==> (ncalls(worker.blockingAddItem) == b + (if callres(worker.tryAddItem, t, 0, bool) then 0 else 1))
  ensures same: ncalls(worker.blockingAddItem) == b + 1 ==> (callarg(worker.blockingAddItem, b, 0, $WKR) == callarg(worker.tryAddItem, t, 0, $WKR) && callarg(worker.blockingAddItem, b, 1, "streams.asyncJobContainer[S, K, V]") == item)
  ensures started: ncalls(worker.tryAddItem) == t + 1 ==> (ncalls(AsyncJobScheduler.enqueueWorker) == e + (if callres(worker.tryAddItem, t, 0, bool) && callres(AsyncJobScheduler.grabWorker, ncalls(AsyncJobScheduler.grabWorker) - 1, 1, bool) then 1 else 0))
  ensures startedone: ncalls(AsyncJobScheduler.enqueueWorker) == e + 1 ==> (callarg(AsyncJobScheduler.enqueueWorker, e, 0, "*streams.AsyncJobScheduler[S, K, V]") == ap && callarg(AsyncJobScheduler.enqueueWorker, e, 1, $WKR) == callarg(worker.tryAddItem, t, 0, $WKR))
  ensures grabbed: ncalls(worker.tryAddItem) == t + 1 ==> callres(AsyncJobScheduler.grabWorker, ncalls(AsyncJobScheduler.grabWorker) - 1, 0, $WKR) == callarg(worker.tryAddItem, t, 0, $WKR)
  ensures unlocked: !held(ap.mux) && !held(ap.updateRWLock)
  loop 0 {
    invariant quiet: ncalls(worker.tryAddItem) == t && ncalls(worker.blockingAddItem) == b && ncalls(AsyncJobScheduler.enqueueWorker) == e
    invariant mine: held(ap.mux) == (w != nil) && !held(ap.updateRWLock) && (w != nil ==> $MADEW(w)) && (forall any_q *asyncItemQueue[asyncJobContainer[S, K, V]] {held(any_q.headLock)} :: !held(any_q.headLock))
    invariant grabbed: w != nil ==> (ncalls(AsyncJobScheduler.grabWorker) > g && callres(AsyncJobScheduler.grabWorker, ncalls(AsyncJobScheduler.grabWorker) - 1, 0, $WKR) == w && callres(AsyncJobScheduler.grabWorker, ncalls(AsyncJobScheduler.grabWorker) - 1, 1, bool) == created && has(ap.workerMap, item.key) && ap.workerMap[item.key] == w && owner[w] == ap)
    invariant keyed: w != nil ==> (forall k K {ap.workerMap[k]} :: has(ap.workerMap, k) ==> (ap.workerMap[k] != nil && ap.workerMap[k].key == k && owner[ap.workerMap[k]] == ap && $MADEW(ap.workerMap[k])))
    invariant owned: w != nil ==> (forall any_w *worker[S, K, V] {owner[any_w]} :: owner[any_w] == ap ==> (has(ap.workerMap, any_w.key) && ap.workerMap[any_w.key] == any_w))
  }
}
func AsyncJobScheduler.Schedule(ap, ec, key, value) (s) {
  requires unlocked: forall any_q *asyncItemQueue[asyncJobContainer[S, K, V]] {held(any_q.headLock)} :: !held(any_q.headLock)
  requires ap.workerMap != nil && ap.runStatus.ctx != nil && ap.workerFreeSignal != nil && !held(ap.mux) && !held(ap.updateRWLock)
  modifies mapof(ap.workerMap), any worker.key, any worker.depth, ghost owner, log sync.Pool.Get, $WCH, $ANYQ, log asyncItemQueue.tryEnqueue, anychan(chan struct{}), log context.Context.Err, log AsyncJobScheduler.grabWorker, log worker.tryAddItem, log worker.blockingAddItem, log AsyncJobScheduler.enqueueWorker, log AsyncJobScheduler.scheduleItem
  let n = ncalls(AsyncJobScheduler.scheduleItem)
  let x = ncalls(context.Context.Err)
  let fin = ap.finalizer
  ensures closed: s == Complete ==> (ncalls(AsyncJobScheduler.scheduleItem) == n && callres(context.Context.Err, x, 0, error) != nil)
  ensures scheduled: s != Complete ==> (s == Incomplete && ncalls(AsyncJobScheduler.scheduleItem) == n + 1 && callarg(AsyncJobScheduler.scheduleItem, n, 0, "*streams.AsyncJobScheduler[S, K, V]") == ap && (let it = callarg(AsyncJobScheduler.scheduleItem, n, 1, "streams.asyncJobContainer[S, K, V]"); it.eventContext == ec && it.key == key && it.value == value && it.err == nil && it.finalizer == fin))
}

func AsyncJobScheduler.newQueue(ap) (x) {
  requires ap.runStatus.ctx != nil && ap.workerQueueDepth < 2147483647
  ensures made: is(x, $WKR) && fresh(as(x, $WKR)) && as(x, $WKR).capacity == ap.workerQueueDepth && as(x, $WKR).processor == ap.processor && as(x, $WKR).ctx == ap.runStatus.ctx && as(x, $WKR).depth == 0
  ensures queue: (let q = as(x, $WKR).workQueue; fresh(q) && fresh(q.queue) && q.size == 0 && $QLEN(q) == 0)
}
define ITEMT "streams.asyncJobContainer[S, K, V]"
define QT "*streams.asyncItemQueue[streams.asyncJobContainer[S, K, V]]"
func worker.process(w) {
  opt log
  requires w.ctx != nil && w.workQueue != nil && w.workQueue.queue != nil && !held(w.workQueue.headLock) && w.processor != nil
  modifies w.depth, $ANYQ, log asyncItemQueue.peek, log asyncItemQueue.dequeue, log $JPROC, log $ASYNC, log context.Context.Err
  let x = ncalls(context.Context.Err)
  let k = ncalls(asyncItemQueue.peek)
  let d = ncalls(asyncItemQueue.dequeue)
  let p = ncalls($JPROC)
  let a = ncalls($ASYNC)
  before asyncItemQueue.dequeue processed: ncalls($JPROC) == p + 1 && arg0 == w.workQueue
  before EventContext.AsyncJobComplete told: item.err == callres($JPROC, p, 0, error) && item.eventContext == arg0 && ncalls(asyncItemQueue.dequeue) == d + 1
  ensures idle: ncalls($JPROC) == p ==> (ncalls(asyncItemQueue.dequeue) == d && ncalls($ASYNC) == a)
  ensures reason: ncalls($JPROC) == p ==> (callres(context.Context.Err, x, 0, error) != nil || (ncalls(asyncItemQueue.peek) == k + 1 && !callres(asyncItemQueue.peek, k, 1, bool)))
  ensures first: ncalls($JPROC) != p ==> (ncalls($JPROC) == p + 1 && ncalls(asyncItemQueue.peek) == k + 1 && callarg(asyncItemQueue.peek, k, 0, $QT) == old(w.workQueue) && callres(asyncItemQueue.peek, k, 1, bool) && (let it = callres(asyncItemQueue.peek, k, 0, $ITEMT); callarg($JPROC, p, 0, "K") == it.key && callarg($JPROC, p, 1, "V") == it.value))
  ensures gone: ncalls($JPROC) != p ==> (ncalls(asyncItemQueue.dequeue) == d + 1 && callarg(asyncItemQueue.dequeue, d, 0, $QT) == old(w.workQueue))
  ensures told: ncalls($JPROC) != p ==> (ncalls($ASYNC) == a + 1 && callarg($ASYNC, a, 1, "streams.AsyncJob[S]").ctx == callres(asyncItemQueue.peek, k, 0, $ITEMT).eventContext && isfn(callarg($ASYNC, a, 1, "streams.AsyncJob[S]").finalizer, asyncJobContainer.invokeFinalizer))
}
define RELW AsyncJobScheduler.releaseWorker
func AsyncJobScheduler.work(ap) {
  opt nolockcheck spawned
  requires ap.workerMap != nil && ap.runStatus.ctx != nil && ap.workerFreeSignal != nil && !held(ap.mux) && !held(ap.updateRWLock)
  requires unlocked: forall any_q *asyncItemQueue[asyncJobContainer[S, K, V]] {held(any_q.headLock)} :: !held(any_q.headLock)
  modifies mapof(ap.workerMap), any worker.key, any worker.depth, ghost owner, log sync.Pool.Put, $WCH, $ANYQ, log asyncItemQueue.done, log asyncItemQueue.peek, log asyncItemQueue.dequeue, log $JPROC, log $ASYNC, anychan(chan struct{}), log context.Context.Err, log AsyncJobScheduler.enqueueWorker, log worker.process, log $RELW
  let p = ncalls(worker.process)
  let r = ncalls($RELW)
  before AsyncJobScheduler.releaseWorker processed: arg0 == ap && ncalls(worker.process) - p == ncalls($RELW) - r + 1 && callarg(worker.process, ncalls(worker.process) - 1, 0, $WKR) == arg1
  ensures released: ncalls(worker.process) - p == ncalls($RELW) - r
  loop 0 {
    invariant paired: ncalls(worker.process) - p == ncalls($RELW) - r
    invariant unlocked: !held(ap.mux) && !held(ap.updateRWLock) && (forall any_q *asyncItemQueue[asyncJobContainer[S, K, V]] {held(any_q.headLock)} :: !held(any_q.headLock))
  }
}

func AsyncJobScheduler.warmup(ap) {
  opt nolockcheck
  modifies any worker.key, log sync.Pool.Get, log sync.Pool.Put
}
// every goroutine of the new scheduler runs work
func NewAsyncJobScheduler(runStatus, processor, finalizer, config) (ap, err) {
  requires runStatus.ctx != nil && config.Concurrency < 4611686018427387904 && config.MaxConcurrentKeys < 4611686018427387904
  modifies any worker.key, log sync.Pool.Get, log sync.Pool.Put, log "go:streams.AsyncJobScheduler.work"
  let g = ncalls("go:streams.AsyncJobScheduler.work")
  ensures workers: err == nil ==> ncalls("go:streams.AsyncJobScheduler.work") == g + config.Concurrency
  loop 0 { invariant workers: ncalls("go:streams.AsyncJobScheduler.work") == g + i && 0 <= i && i <= config.Concurrency }
  ensures refused: (err != nil) == (config.WorkerQueueDepth < 0 || config.Concurrency < 1) && (err != nil ==> ap == nil)
  ensures functions: err == nil ==> (fresh(ap) && ap.processor == processor && (finalizer != nil ==> ap.finalizer == finalizer) && (finalizer == nil ==> isfn(ap.finalizer, NewAsyncJobScheduler$1)))
  ensures limits: err == nil ==> (ap.maxConcurrentKeys == max(config.Concurrency, config.MaxConcurrentKeys) && ap.workerQueueDepth == config.WorkerQueueDepth && cap(ap.workerChannel) > ap.maxConcurrentKeys)
  ensures empty: err == nil ==> (len(ap.workerMap) == 0 && sent(ap.workerChannel) == 0 && fresh(ap.workerMap))
}
func NewAsyncJobScheduler$1(ec, k, v, err) (s) { ensures complete: s == Complete }
