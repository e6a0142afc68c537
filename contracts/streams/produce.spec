package streams
tags C23

iface streams.AsyncCompleter.AsyncComplete(c, job) {}
define ASYNC streams.AsyncCompleter.AsyncComplete
define JOB(K) callarg($ASYNC, K, 1, "streams.AsyncJob[S]")
func EventContext.AsyncJobComplete(ec, finalize) {
  modifies log $ASYNC
  let k = ncalls($ASYNC)
  ensures once: ncalls($ASYNC) == k + 1 && callarg($ASYNC, k, 0, "streams.AsyncCompleter[T]") == ec.asyncCompleter
  ensures job: (let j = callarg($ASYNC, k, 1, "streams.AsyncJob[T]"); j.ctx == ec && j.finalizer == finalize)
}
func produceBatcher.recordComplete(b) {
  opt log
  requires b.ctx != nil && b.pending > 0 && b.pending < 4611686018427387904
  modifies b.pending, log $ASYNC
  let k = ncalls($ASYNC)
  ensures one: b.pending == old(b.pending) - 1
  ensures waits: b.pending != 0 ==> ncalls($ASYNC) == k
  ensures last: b.pending == 0 ==> (ncalls($ASYNC) == k + 1 && callarg($ASYNC, k, 0, "streams.AsyncCompleter[S]") == b.ctx.asyncCompleter)
  ensures job: b.pending == 0 ==> ($JOB(k).ctx == b.ctx && isfn($JOB(k).finalizer, produceBatcher.executeCallback) && boundto($JOB(k).finalizer) == b)
}
// whatever the order of the acknowledgements, the last of n completes the event, once
func verifAllAcknowledged(b, n) {
  requires b.ctx != nil && b.pending == n && n > 0 && n < 4611686018427387904
  modifies b.pending, log $ASYNC, log produceBatcher.recordComplete
  let k = ncalls($ASYNC)
  ensures once: ncalls($ASYNC) == k + 1
  loop 0 {
    invariant counted: 0 <= i && i <= n && b.pending == n - i
    invariant once: ncalls($ASYNC) == k + (if i == n then 1 else 0)
  }
}
functype streams.BatchProducerCallback(ec, records, userData) (s) {}
define BCB streams.BatchProducerCallback
define REL Record.Release
define DISTINCT(R) (forall i int, j int {R[i], R[j]} :: (0 <= i && i < j && j < len(R)) ==> R[i] != R[j])
define USABLES(R) (forall i int {R[i]} :: (0 <= i && i < len(R)) ==> (recbufs(R[i]) && allocated(R[i])))
define RELEASED(R) any sak.Pool.freelist, $ANYREC, anybuf, log $REL
func produceBatcher.cleanup(b) {
  requires $USABLES(b.records) && $DISTINCT(b.records)
  modifies b.records, $RELEASED(x)
  let r = ncalls($REL)
  let rs = b.records
  ensures each: ncalls($REL) == r + len(rs) && (forall i int {rs[i]} :: (0 <= i && i < len(rs)) ==> callarg($REL, r + i, 0, *Record) == rs[i])
  ensures dropped: b.records == nil
  loop 0 {
    invariant same: b.records == rs
    invariant each: ncalls($REL) == r + nvisited() && (forall i int {rs[i]} :: (0 <= i && i < nvisited()) ==> callarg($REL, r + i, 0, *Record) == rs[i])
    invariant usable: forall i int {rs[i]} :: (nvisited() <= i && i < len(rs)) ==> (recbufs(rs[i]) && allocated(rs[i]))
  }
}
define TOLDBATCH(K, C, EC, RS, UD) (ncalls($BCB) == K + 1 && callarg($BCB, K, 0, "*streams.EventContext[S]") == EC && callarg($BCB, K, 1, "[]*streams.Record") == RS && callarg($BCB, K, 2, any) == UD)
func produceBatcher.executeCallback(b) (s) {
  requires $USABLES(b.records) && $DISTINCT(b.records)
  modifies b.records, $RELEASED(x), log $BCB
  let r = ncalls($REL)
  let rs = b.records
  let c = ncalls($BCB)
  before Record.Release told: b.callback != nil ==> ncalls($BCB) == c + 1
  before produceBatcher.cleanup told: b.callback != nil ==> ncalls($BCB) == c + 1
  ensures told: b.callback != nil ==> ($TOLDBATCH(c, b.callback, b.ctx, rs, b.userData) && s == callres($BCB, c, 0, ExecutionState))
  ensures silent: b.callback == nil ==> (s == Complete && ncalls($BCB) == c)
  ensures released: ncalls($REL) == r + len(rs) && (forall i int {rs[i]} :: (0 <= i && i < len(rs)) ==> callarg($REL, r + i, 0, *Record) == rs[i])
}
func BatchProducer.produceRecord(p, b, record) {
  opt log
  requires recbufs(record) && allocated(record)
  modifies $PRODUCES, object(addr(record.kRecord)), elems(record.kRecord.Headers)
  let k = ncalls(kgo.Client.Produce)
  ensures once: ncalls(kgo.Client.Produce) == k + 1 && callarg(kgo.Client.Produce, k, 0, *kgo.Client) == p.client && callarg(kgo.Client.Produce, k, 2, *kgo.Record) == addr(record.kRecord) && isfn(callarg(kgo.Client.Produce, k, 3, ref), BatchProducer.produceRecord$1)
  ensures place: pdTopic[k] == old(record.kRecord.Topic) && pdPart[k] == old(record.kRecord.Partition)
  ensures key: len(pdKey[k]) == buflen(record.keyBuffer) && (forall j int {pdKeyB[k][j]} :: (0 <= j && j < buflen(record.keyBuffer)) ==> pdKeyB[k][j] == bufelems(record.keyBuffer)[j])
  ensures value: buflen(record.valueBuffer) > 0 ==> (len(pdVal[k]) == buflen(record.valueBuffer) && (forall j int {pdValB[k][j]} :: (0 <= j && j < buflen(record.valueBuffer)) ==> pdValB[k][j] == bufelems(record.valueBuffer)[j]))
}
// the client calls this once for every record, in any order
func BatchProducer.produceRecord$1(kr, err) {
  requires record != nil && b != nil && b.ctx != nil && b.pending > 0 && b.pending < 4611686018427387904
  modifies record.err, b.pending, log $ASYNC, log produceBatcher.recordComplete
  let n = ncalls(produceBatcher.recordComplete)
  before produceBatcher.recordComplete outcome: record.err == err
  ensures outcome: record.err == err
  ensures counted: ncalls(produceBatcher.recordComplete) == n + 1 && callarg(produceBatcher.recordComplete, n, 0, "*streams.produceBatcher[S]") == b
}
define PRODUCE1 BatchProducer.produceRecord
define TOPICOF(T) (if T == "" then p.destination.DefaultTopic else T)
func BatchProducer.produceBatch(p, b) {
  opt log
  requires $USABLES(b.records) && $DISTINCT(b.records)
  modifies $PRODUCES, log $PRODUCE1, $ANYKREC, anyelems(kgo.RecordHeader)
  let q = ncalls($PRODUCE1)
  let k = ncalls(kgo.Client.Produce)
  let rs = b.records
  ensures each: ncalls($PRODUCE1) == q + len(rs) && (forall i int {rs[i]} :: (0 <= i && i < len(rs)) ==> (callarg($PRODUCE1, q + i, 1, "*streams.produceBatcher[S]") == b && callarg($PRODUCE1, q + i, 2, *Record) == rs[i]))
  ensures once: ncalls(kgo.Client.Produce) == k + len(rs)
  ensures topic: forall i int {rs[i]} :: (0 <= i && i < len(rs)) ==> pdTopic[k + i] == $TOPICOF(old(rs[i].kRecord.Topic))
  loop 0 {
    invariant count: ncalls($PRODUCE1) == q + nvisited() && ncalls(kgo.Client.Produce) == k + nvisited()
    invariant each: forall i int {rs[i]} :: (0 <= i && i < nvisited()) ==> (callarg($PRODUCE1, q + i, 1, "*streams.produceBatcher[S]") == b && callarg($PRODUCE1, q + i, 2, *Record) == rs[i])
    invariant topic: forall i int {rs[i]} :: (0 <= i && i < nvisited()) ==> pdTopic[k + i] == $TOPICOF(old(rs[i].kRecord.Topic))
    invariant later: forall i int {rs[i]} :: (nvisited() <= i && i < len(rs)) ==> rs[i].kRecord.Topic == old(rs[i].kRecord.Topic)
  }
}
define PB BatchProducer.produceBatch
func BatchProducer.Produce(p, ec, records, cb, userData) (s) {
  requires $USABLES(records) && $DISTINCT(records)
  modifies $PRODUCES, log $PRODUCE1, log $PB, $RELEASED(x), anyelems(kgo.RecordHeader), log $BCB
  let n = ncalls($PB)
  let c = ncalls($BCB)
  ensures nothing: len(records) == 0 ==> (ncalls($PB) == n && (if cb != nil then ($TOLDBATCH(c, cb, ec, records, userData) && s == callres($BCB, c, 0, ExecutionState)) else (s == Complete && ncalls($BCB) == c)))
  ensures pending: len(records) > 0 ==> (s == Incomplete && ncalls($PB) == n + 1 && callarg($PB, n, 0, "*streams.BatchProducer[S]") == p && ncalls($BCB) == c)
  before BatchProducer.produceBatch whole: arg1.pending == len(records) && arg1.records == records && arg1.ctx == ec && arg1.callback == cb && arg1.userData == userData
}
// ---- single records ----
functype streams.Producer.ProduceAsync$1.callback(r, err) {}
define PCB streams.Producer.ProduceAsync$1.callback
func Producer.ProduceAsync(p, ctx, record, callback) {
  opt log
  requires recbufs(record) && allocated(record)
  modifies $PRODUCES, object(addr(record.kRecord)), elems(record.kRecord.Headers)
  let k = ncalls(kgo.Client.Produce)
  ensures once: ncalls(kgo.Client.Produce) == k + 1 && callarg(kgo.Client.Produce, k, 0, *kgo.Client) == p.client && callarg(kgo.Client.Produce, k, 1, context.Context) == ctx && callarg(kgo.Client.Produce, k, 2, *kgo.Record) == addr(record.kRecord) && isfn(callarg(kgo.Client.Produce, k, 3, ref), Producer.ProduceAsync$1)
  ensures place: pdTopic[k] == $TOPICOF(old(record.kRecord.Topic)) && pdPart[k] == old(record.kRecord.Partition)
}
func Producer.ProduceAsync$1(r, kErr) {
  modifies log $PCB
  let n = ncalls($PCB)
  ensures told: callback != nil ==> (ncalls($PCB) == n + 1 && callarg($PCB, n, 0, *Record) == record && callarg($PCB, n, 1, error) == kErr)
  ensures silent: callback == nil ==> ncalls($PCB) == n
}
func Producer.Produce(p, ctx, record) (err) {
  requires recbufs(record) && allocated(record)
  modifies $PRODUCES, object(addr(record.kRecord)), elems(record.kRecord.Headers), log Producer.ProduceAsync, log sync.WaitGroup.Wait
  let k = ncalls(Producer.ProduceAsync)
  let w = ncalls(sync.WaitGroup.Wait)
  ensures once: ncalls(Producer.ProduceAsync) == k + 1 && callarg(Producer.ProduceAsync, k, 1, context.Context) == ctx && callarg(Producer.ProduceAsync, k, 2, *Record) == record && isfn(callarg(Producer.ProduceAsync, k, 3, ref), Producer.Produce$1)
  ensures waits: ncalls(sync.WaitGroup.Wait) == w + 1
  before sync.WaitGroup.Wait one: wgcount(arg0) == 1
}
func Producer.Produce$1(r, kErr) {
  opt captures=err
  requires wgcount(wg) > 0
  modifies wg(wg)
  ensures outcome: err == kErr
  ensures done: wgcount(wg) == old(wgcount(wg)) - 1
}
