package streams
tags C01

// ---- assumed: the kafka client, contexts, timers ----
ghostvar doneChan [context.Context => chan struct{}]
iface context.Context.Done(c) (d) {
  opt nolog
  ensures d == doneChan[c]
}
iface context.Context.Err(c) (err) {}
extern context.Background() (c) { ensures c != nil }
extern context.WithTimeout(parent, d) (ctx, cancel) { ensures ctx != nil && cancel != nil }
extern time.Ticker.Reset(t, d) { opt log }
extern kgo.Client.BeginTransaction(c) (err) { opt log }
// what the client had been given when it was flushed and when the transaction was ended
ghostvar flAt [int => int] along kgo.Client.Flush
ghostvar etAt [int => int] along kgo.Client.EndTransaction
extern kgo.Client.Flush(c, ctx) (err) {
  opt log
  modifies ghost flAt, anysend(chan error)
  ensures flAt[old(ncalls(kgo.Client.Flush))] == ncalls(kgo.Client.Produce)
}
extern kgo.Client.EndTransaction(c, ctx, commit) (err) {
  opt log
  modifies ghost etAt
  ensures etAt[old(ncalls(kgo.Client.EndTransaction))] == ncalls(kgo.Client.Produce)
}
extern kgo.Client.MarkCommitRecords(c, rs) { opt log }
// nothing is ever sent on an event's done channel: it is closed
chaninv EventContext.done(v): false

func sak.Pool.Borrow@SliceOfpendingRecord(p) (s) {
  assumed
  modifies any sak.Pool.freelist
  ensures len(s) == 0 && fresh(s)
}
func sak.Pool.Release@SliceOfpendingRecord(p, s) (out) {
  assumed
  modifies any sak.Pool.freelist, elems(s)
}

// ---- the chain of a partition in a transaction, oldest event first ----
ghostfield producerNode.chain [int32 => [int => *EventContext[T]]]
ghostfield producerNode.chainlen [int32 => int]
define OFF(E) (if E.interjection != nil then -1 else E.input.kRecord.Offset)
define CHAINOK(P, TP) (P.chainlen[TP] >= 1 && P.currentPartitions[TP].root == P.chain[TP][0] && P.currentPartitions[TP].tail == P.chain[TP][P.chainlen[TP] - 1] \
  && (forall i int {P.chain[TP][i]} :: (0 <= i && i < P.chainlen[TP]) ==> (P.chain[TP][i] != nil && allocated(P.chain[TP][i]) && P.chain[TP][i].topicPartition.Partition == TP)) \
  && P.chain[TP][0].prev == nil \
  && (forall i int {P.chain[TP][i].prev} :: (1 <= i && i < P.chainlen[TP]) ==> P.chain[TP][i].prev == P.chain[TP][i - 1]))
define CHAINS(P) (forall tp int32 {has(P.currentPartitions, tp)} :: has(P.currentPartitions, tp) ==> $CHAINOK(P, tp))

func partitionOwners.owned(po, p, pn) (r) {
  tags C04
  requires po.mux != nil
  requires decided: held(pn.produceLock)
  ensures owner: r == (po.owners[p] == pn)
}
func partitionOwners.set(po, p, pn) {
  tags C04
  requires po.mux != nil && po.owners != nil && pn != nil
  requires decided: held(pn.produceLock)
  modifies mapof(po.owners)
  ensures owner: has(po.owners, p) && po.owners[p] == pn
  ensures others: forall q int32 {has(po.owners, q)} {po.owners[q]} :: q != p ==> (has(po.owners, q) == old(has(po.owners, q)) && po.owners[q] == old(po.owners[q]))
}
func partitionOwners.conditionallyUpdate(po, p, pn) {
  tags C04
  requires po.mux != nil && po.owners != nil
  modifies mapof(po.owners)
  ensures first: !old(has(po.owners, p)) ==> (has(po.owners, p) && po.owners[p] == pn)
  ensures kept: old(has(po.owners, p)) ==> (has(po.owners, p) && po.owners[p] == old(po.owners[p]))
  ensures others: forall q int32 {has(po.owners, q)} {po.owners[q]} :: q != p ==> (has(po.owners, q) == old(has(po.owners, q)) && po.owners[q] == old(po.owners[q]))
}
func partitionOwners.clear(po, p) {
  tags C04
  requires po.mux != nil
  modifies mapof(po.owners)
  ensures released: !has(po.owners, p)
  ensures others: forall q int32 {has(po.owners, q)} {po.owners[q]} :: q != p ==> (has(po.owners, q) == old(has(po.owners, q)) && po.owners[q] == old(po.owners[q]))
}

// an event joins the end of its partition's chain
ghostfield EventContext.accepted bool
define ACCEPTED(P) (forall tp int32, i int {P.chain[tp][i]} :: (has(P.currentPartitions, tp) && 0 <= i && i < P.chainlen[tp]) ==> P.chain[tp][i].accepted)
func producerNode.addEventContext(p, ec) (started) {
  tags C03
  requires ec != nil && ec.prev == nil && ec.revocationWaiter != nil && p.currentPartitions != nil
  requires counter: 0 <= p.eventContextCnt && p.eventContextCnt < 9223372036854775807
  requires !held(p.commitWaiter) && !held(p.partitionLock)
  requires chains: $CHAINS(p)
  requires new: $ACCEPTED(p) && !ec.accepted
  modifies p.eventContextCnt, p.firstEvent, mapof(p.currentPartitions), ec.prev, any EventContext.next, wg(ec.revocationWaiter), p.chain, p.chainlen, ec.accepted
  let tp = ec.topicPartition.Partition
  let had = has(p.currentPartitions, tp)
  let n = if had then p.chainlen[tp] else 0
  ghost p.chain[tp][n] := ec
  ghost ec.accepted := true
  ensures accepted: ec.accepted && $ACCEPTED(p)
  ghost p.chainlen[tp] := n + 1
  ensures counted: p.eventContextCnt == old(p.eventContextCnt) + 1 && started == (old(p.eventContextCnt) == 0)
  ensures placed: has(p.currentPartitions, tp) && p.chainlen[tp] == n + 1 && p.chain[tp][n] == ec && (forall i int {p.chain[tp][i]} :: (0 <= i && i < n) ==> p.chain[tp][i] == old(p.chain[tp])[i])
  ensures chains: $CHAINS(p)
  ensures others: forall q int32 {has(p.currentPartitions, q)} :: q != tp ==> (has(p.currentPartitions, q) == old(has(p.currentPartitions, q)) && p.currentPartitions[q] == old(p.currentPartitions[q]) && p.chainlen[q] == old(p.chainlen[q]) && p.chain[q] == old(p.chain[q]))
  ensures revocation: wgcount(ec.revocationWaiter) == old(wgcount(ec.revocationWaiter)) + (if had then 0 else 1)
  ensures unlocked: !held(p.commitWaiter) && !held(p.partitionLock)
}

// ---- producing ----
precise producerNode.produceErr
chaninv producerNode.produceErr(v): v != nil
define CTXOK(P) (P.txnContext != nil ==> P.txnContextCancel != nil)
define TXNSTATE p.txnContext, p.txnContextCancel, sendof(p.errorChannel), log kgo.Client.BeginTransaction
define RECS $ANYKREC, anyelems(kgo.RecordHeader)
// no event's input is touched
define EVKEPT (forall e *EventContext[T] {e.input.kRecord.Offset} :: existed(e) ==> e.input.kRecord.Offset == old(e.input.kRecord.Offset))
func producerNode.beginTransaction(p) {
  modifies sendof(p.errorChannel), log kgo.Client.BeginTransaction
  let b = ncalls(kgo.Client.BeginTransaction)
  ensures begun: ncalls(kgo.Client.BeginTransaction) == b + 1 && callarg(kgo.Client.BeginTransaction, b, 0, *kgo.Client) == p.client && calltime(kgo.Client.BeginTransaction, b) < clock()
}
// call K of Produce handed record R to P's client in P's transaction
define SENT(K, P, R) (callarg(kgo.Client.Produce, K, 0, *kgo.Client) == P.client && callarg(kgo.Client.Produce, K, 2, *kgo.Record) == addr(R.kRecord))
func producerNode.produceKafkaRecord(p, record, cb) {
  tags C01 C04
  requires recbufs(record) && allocated(record)
  requires locked: held(p.produceLock)
  modifies $PRODUCES, $TXNSTATE, object(addr(record.kRecord)), elems(record.kRecord.Headers)
  let k = ncalls(kgo.Client.Produce)
  let b = ncalls(kgo.Client.BeginTransaction)
  ensures context: old($CTXOK(p)) ==> $CTXOK(p)
  ensures begun: old(p.txnContext) == nil ==> (ncalls(kgo.Client.BeginTransaction) == b + 1 && callarg(kgo.Client.BeginTransaction, b, 0, *kgo.Client) == p.client && calltime(kgo.Client.BeginTransaction, b) < calltime(kgo.Client.Produce, k))
  ensures running: old(p.txnContext) != nil ==> (ncalls(kgo.Client.BeginTransaction) == b && p.txnContext == old(p.txnContext))
  ensures transaction: p.txnContext != nil && callarg(kgo.Client.Produce, k, 1, context.Context) == p.txnContext
  ensures once: ncalls(kgo.Client.Produce) == k + 1 && $SENT(k, p, record)
  ensures place: pdTopic[k] == old(record.kRecord.Topic) && pdPart[k] == old(record.kRecord.Partition)
  ensures key: len(pdKey[k]) == buflen(record.keyBuffer) && (forall j int {pdKeyB[k][j]} :: (0 <= j && j < buflen(record.keyBuffer)) ==> pdKeyB[k][j] == bufelems(record.keyBuffer)[j])
  ensures value: buflen(record.valueBuffer) > 0 ==> (len(pdVal[k]) == buflen(record.valueBuffer) && (forall j int {pdValB[k][j]} :: (0 <= j && j < buflen(record.valueBuffer)) ==> pdValB[k][j] == bufelems(record.valueBuffer)[j]))
}
functype streams.producerNode.produceKafkaRecord$1.cb(r, err) {}
// a record that could not be produced is remembered until the transaction is ended
func producerNode.produceKafkaRecord$1(r, err) {
  requires r != nil && recbufs(record)
  requires cap(p.produceErr) >= 1 && p.produceErr != nil && sent(p.produceErr) >= recvd(p.produceErr)
  requires p.errorChannel != p.produceErr
  modifies anychan(chan error), p.byteCount, $ANYREC, any sak.Pool.freelist, anybuf, log Record.Release, log streams.producerNode.produceKafkaRecord$1.cb
  let n = ncalls(streams.producerNode.produceKafkaRecord$1.cb)
  ensures remembered: err != nil ==> sent(p.produceErr) > recvd(p.produceErr)
  ensures told: cb != nil ==> (ncalls(streams.producerNode.produceKafkaRecord$1.cb) == n + 1 && callarg(streams.producerNode.produceKafkaRecord$1.cb, n, 0, *Record) == record && callarg(streams.producerNode.produceKafkaRecord$1.cb, n, 1, error) == err)
}

// ---- held records ----
// every transaction has a list of its own
ghostvar holder [ref => ref]
define OWNLIST(P) holder == old(holder)[arr(P.recordsToProduce) := P]
// how many of the first n records of a[lo..) belong to partition tp
pure cntp(a [int => streams.pendingRecord], lo int, n int, tp int32) int
axiom cntp0 for cntp: forall a [int => streams.pendingRecord], lo int, tp int32 {cntp(a, lo, 0, tp)} :: cntp(a, lo, 0, tp) == 0
axiom cntpS for cntp: forall a [int => streams.pendingRecord], lo int, n int, tp int32 {cntp(a, lo, n + 1, tp)} :: n >= 0 ==> cntp(a, lo, n + 1, tp) == cntp(a, lo, n, tp) + (if a[lo + n].partition == tp then 1 else 0)
define HELDOK(P) (forall i int {P.recordsToProduce[i]} :: (0 <= i && i < len(P.recordsToProduce)) ==> (recbufs(P.recordsToProduce[i].record) && allocated(P.recordsToProduce[i].record)))

// the records of one partition are sent, in order, and the others stay held, in order
func producerNode.flushPartition(p, partition) {
  tags C04
  requires locked: held(p.produceLock)
  requires held: $HELDOK(p)
  modifies $PRODUCES, $TXNSTATE, $RECS, any sak.Pool.freelist, p.recordsToProduce, elems(p.recordsToProduce), ghost holder
  let k = ncalls(kgo.Client.Produce)
  let h = p.recordsToProduce
  let c = cntp(elems(h), off(h), len(h), partition)
  ensures context: old($CTXOK(p)) ==> $CTXOK(p)
  ensures all: ncalls(kgo.Client.Produce) == k + c
  ensures sent: forall i int {old(h[i])} :: (0 <= i && i < len(h) && old(h[i].partition) == partition) ==> $SENT(k + cntp(old(elems(h)), off(h), i, partition), p, old(h[i].record))
  ensures kept: len(p.recordsToProduce) == len(h) - c && (forall i int {old(h[i])} :: (0 <= i && i < len(h) && old(h[i].partition) != partition) ==> p.recordsToProduce[i - cntp(old(elems(h)), off(h), i, partition)] == old(h[i]))
  ensures none: forall i int {p.recordsToProduce[i]} :: (0 <= i && i < len(p.recordsToProduce)) ==> p.recordsToProduce[i].partition != partition
  ensures from: forall i int {p.recordsToProduce[i]} :: (0 <= i && i < len(p.recordsToProduce)) ==> (exists j int {old(h[j])} :: 0 <= j && j < len(h) && p.recordsToProduce[i] == old(h[j]))
  ensures held: $HELDOK(p)
  ghost holder[arr(p.recordsToProduce)] := p
  ensures own: fresh(p.recordsToProduce) && $OWNLIST(p)
  ensures events: $EVKEPT
  loop 0 {
    invariant old($CTXOK(p)) ==> $CTXOK(p)
    invariant $EVKEPT
    invariant forall i int {newPends[i]} :: (0 <= i && i < len(newPends)) ==> (exists j int {old(h[j])} :: 0 <= j && j < nvisited() && newPends[i] == old(h[j]))
    invariant cntp(old(elems(h)), off(h), nvisited(), partition) >= 0 && cntp(old(elems(h)), off(h), nvisited(), partition) <= nvisited()
    invariant ncalls(kgo.Client.Produce) == k + cntp(old(elems(h)), off(h), nvisited(), partition) && held(p.produceLock)
    invariant len(newPends) == nvisited() - cntp(old(elems(h)), off(h), nvisited(), partition)
    invariant forall i int {newPends[i]} :: (0 <= i && i < len(newPends)) ==> (newPends[i].partition != partition && recbufs(newPends[i].record) && allocated(newPends[i].record))
    invariant fresh(newPends) && p.recordsToProduce == h && elems(h) == old(elems(h))
    invariant forall i int {old(h[i])} :: (0 <= i && i < nvisited()) ==> (0 <= cntp(old(elems(h)), off(h), i, partition) && cntp(old(elems(h)), off(h), i, partition) <= cntp(old(elems(h)), off(h), nvisited(), partition) && i - cntp(old(elems(h)), off(h), i, partition) <= len(newPends))
    invariant forall i int {old(h[i])} :: (0 <= i && i < nvisited() && old(h[i].partition) == partition) ==> ($SENT(k + cntp(old(elems(h)), off(h), i, partition), p, old(h[i].record)) && cntp(old(elems(h)), off(h), i, partition) < cntp(old(elems(h)), off(h), nvisited(), partition))
    invariant forall i int {old(h[i])} :: (0 <= i && i < nvisited() && old(h[i].partition) != partition) ==> (i - cntp(old(elems(h)), off(h), i, partition) < len(newPends) && newPends[i - cntp(old(elems(h)), off(h), i, partition)] == old(h[i]))
  }
}
// everything still held is sent, in order, in the node's transaction
func producerNode.flushRemaining(p) {
  tags C01 C04
  requires locked: held(p.produceLock)
  requires held: $HELDOK(p)
  modifies $PRODUCES, $TXNSTATE, $RECS
  let k = ncalls(kgo.Client.Produce)
  let b = ncalls(kgo.Client.BeginTransaction)
  let h = p.recordsToProduce
  ensures context: old($CTXOK(p)) ==> $CTXOK(p)
  ensures transaction: p.txnContext != nil && (old(p.txnContext) != nil ==> p.txnContext == old(p.txnContext))
  ensures begun: old(p.txnContext) == nil ==> (ncalls(kgo.Client.BeginTransaction) > b && callarg(kgo.Client.BeginTransaction, b, 0, *kgo.Client) == p.client)
  ensures all: ncalls(kgo.Client.Produce) == k + len(h) && (forall i int {old(h[i])} :: (0 <= i && i < len(h)) ==> $SENT(k + i, p, old(h[i].record)))
  ensures events: $EVKEPT
  loop 0 {
    invariant old($CTXOK(p)) ==> $CTXOK(p)
    invariant $EVKEPT
    invariant ncalls(kgo.Client.Produce) == k + nvisited() && held(p.produceLock) && p.txnContext != nil && (old(p.txnContext) != nil ==> p.txnContext == old(p.txnContext)) && ncalls(kgo.Client.BeginTransaction) >= b
    invariant old(p.txnContext) == nil ==> (ncalls(kgo.Client.BeginTransaction) > b && callarg(kgo.Client.BeginTransaction, b, 0, *kgo.Client) == p.client)
    invariant forall i int {old(h[i])} :: (0 <= i && i < nvisited()) ==> $SENT(k + i, p, old(h[i].record))
  }
}
// a record is sent at once by the owner of its event's partition and otherwise held, after those held before
func producerNode.ProduceRecord(p, ec, record, cb) {
  tags C04 C01
  requires recbufs(record) && allocated(record) && ec != nil && p.partitionOwners.mux != nil
  requires !held(p.produceLock)
  requires counter: p.produceCnt < 9223372036854775807
  modifies $PRODUCES, $TXNSTATE, object(addr(record.kRecord)), elems(record.kRecord.Headers), p.recordsToProduce, elems(p.recordsToProduce), p.produceCnt, ghost holder
  let k = ncalls(kgo.Client.Produce)
  let b = ncalls(kgo.Client.BeginTransaction)
  let h = p.recordsToProduce
  let mine = p.partitionOwners.owners[ec.topicPartition.Partition] == p
  ensures context: old($CTXOK(p)) ==> $CTXOK(p)
  ensures counted: p.produceCnt == old(p.produceCnt) + 1
  ensures sent: mine ==> (ncalls(kgo.Client.Produce) == k + 1 && $SENT(k, p, record) && p.txnContext != nil && (old(p.txnContext) != nil ==> p.txnContext == old(p.txnContext)) && p.recordsToProduce == h && elems(h) == old(elems(h)))
  ensures place: mine ==> (pdTopic[k] == old(record.kRecord.Topic) && pdPart[k] == old(record.kRecord.Partition))
  ensures key: mine ==> (len(pdKey[k]) == buflen(record.keyBuffer) && (forall j int {pdKeyB[k][j]} :: (0 <= j && j < buflen(record.keyBuffer)) ==> pdKeyB[k][j] == bufelems(record.keyBuffer)[j]))
  ensures value: (mine && buflen(record.valueBuffer) > 0) ==> (len(pdVal[k]) == buflen(record.valueBuffer) && (forall j int {pdValB[k][j]} :: (0 <= j && j < buflen(record.valueBuffer)) ==> pdValB[k][j] == bufelems(record.valueBuffer)[j]))
  ensures heldback: !mine ==> (ncalls(kgo.Client.Produce) == k && len(p.recordsToProduce) == len(h) + 1 && p.recordsToProduce[len(h)].record == record && p.recordsToProduce[len(h)].partition == ec.topicPartition.Partition && p.recordsToProduce[len(h)].cb == cb && (forall i int {p.recordsToProduce[i]} :: (0 <= i && i < len(h)) ==> p.recordsToProduce[i] == old(h[i])))
  ensures unlocked: !held(p.produceLock)
  ghost holder[arr(p.recordsToProduce)] := p
  ensures own: $OWNLIST(p)
}
// the progress of a transaction's partition: the highest event's offset plus one, produced once, or nothing if there are only interjections
ghostvar progAt [int32 => int]
ghostvar progOf [int => int32]
define HIGHEST(P, TP, N, M) (0 <= M && M < N && $OFF(P.chain[TP][M]) >= 0 && (forall j int {P.chain[TP][j]} :: (M < j && j < N) ==> $OFF(P.chain[TP][j]) < 0))
define NOEVENTS(P, TP, N) (forall j int {P.chain[TP][j]} :: (0 <= j && j < N) ==> $OFF(P.chain[TP][j]) < 0)
define PROGRESS(K, P, TP, E) ($OFF(E) >= 0 && callarg(kgo.Client.Produce, K, 0, *kgo.Client) == P.client && pdTopic[K] == P.commitLog.topic && pdPart[K] == TP % P.commitLog.numPartitions \
  && len(pdKey[K]) == 8 + len(E.topicPartition.Topic) && le8(pdKeyB[K], 0) == TP && (forall j int {pdKeyB[K][8 + j]} :: (0 <= j && j < len(E.topicPartition.Topic)) ==> pdKeyB[K][8 + j] == E.topicPartition.Topic[j]) \
  && len(pdVal[K]) == 8 && le8(pdValB[K], 0) == $OFF(E) + 1)
define EVENTSOK(P, TP) (TP >= 0 && (forall i int {P.chain[TP][i]} :: (0 <= i && i < P.chainlen[TP]) ==> (P.chain[TP][i].revocationWaiter != nil && P.chain[TP][i].input.kRecord.Offset < 9223372036854775807)))
define TOP(P, TP, N, M) (if M >= 0 then $HIGHEST(P, TP, N, M) else $NOEVENTS(P, TP, N))
func producerNode.finalizeEventContexts(p, first, last) (err) {
  tags C01 C02
  // the place of the highest real event of the partition, or a negative number when there are only interjections
  choose top int: $TOP(p, last.topicPartition.Partition, p.chainlen[last.topicPartition.Partition], top)
  requires last != nil && has(p.currentPartitions, last.topicPartition.Partition) && last == p.currentPartitions[last.topicPartition.Partition].tail
  requires chain: $CHAINOK(p, last.topicPartition.Partition) && $EVENTSOK(p, last.topicPartition.Partition)
  requires owner: p.partitionOwners.owners[last.topicPartition.Partition] == p
  requires p.commitLog != nil && p.commitLog.numPartitions > 0 && p.txnContext != nil && p.partitionOwners.mux != nil && !held(p.produceLock)
  requires counter: 0 <= p.produceCnt && p.produceCnt < 4611686018427387904
  requires own: holder[arr(p.recordsToProduce)] == p
  modifies $PRODUCES, $TXNSTATE, anyelems(kgo.RecordHeader), any sak.Pool.freelist, p.recordsToProduce, elems(p.recordsToProduce), p.produceCnt, anywg, anychan(chan struct{}), ghost progAt, ghost progOf, ghost holder
  let k = ncalls(kgo.Client.Produce)
  let tp = last.topicPartition.Partition
  let n = p.chainlen[tp]
  let w = last.revocationWaiter
  ghost progAt[tp] := k
  ghost progOf[k] := tp
  ensures places: progAt == old(progAt)[tp := k] && progOf == old(progOf)[k := tp]
  ensures context: old($CTXOK(p)) ==> $CTXOK(p)
  ensures waited: err == nil ==> (forall i int {p.chain[tp][i]} :: (0 <= i && i < n) ==> closed(p.chain[tp][i].done))
  ensures progress: (err == nil && top >= 0) ==> (ncalls(kgo.Client.Produce) == k + 1 && p.produceCnt == old(p.produceCnt) + 1 && $PROGRESS(k, p, tp, p.chain[tp][top]))
  ensures none: (err == nil && top < 0) ==> (ncalls(kgo.Client.Produce) == k && p.produceCnt == old(p.produceCnt))
  ensures released: (err == nil && (forall i int {p.chain[tp][i]} :: (0 <= i && i < n) ==> p.chain[tp][i].revocationWaiter == w)) ==> (wgcount(w) == old(wgcount(w)) - n)
  ensures transaction: p.txnContext == old(p.txnContext) && p.recordsToProduce == old(p.recordsToProduce) && elems(p.recordsToProduce) == old(elems(p.recordsToProduce))
  ensures own: forall a ref {holder[a]} :: holder[a] == old(holder)[a]
  ensures within: k <= ncalls(kgo.Client.Produce) && ncalls(kgo.Client.Produce) <= k + 1 && p.produceCnt == old(p.produceCnt) + ncalls(kgo.Client.Produce) - k
  loop 0 {
    invariant old($CTXOK(p)) ==> $CTXOK(p)
    local ec *EventContext[T]
    local found bool
    invariant forall a ref {holder[a]} :: holder[a] == old(holder)[a]
    invariant nvisited() <= n && ec == (if nvisited() < n then p.chain[tp][n - 1 - nvisited()] else nil)
    invariant !held(p.produceLock) && p.txnContext == old(p.txnContext) && p.recordsToProduce == old(p.recordsToProduce) && elems(p.recordsToProduce) == old(elems(p.recordsToProduce))
    invariant waited: forall i int {p.chain[tp][i]} :: (n - nvisited() <= i && i < n) ==> closed(p.chain[tp][i].done)
    invariant first: found == (ncalls(kgo.Client.Produce) == k + 1) && found != (ncalls(kgo.Client.Produce) == k) && p.produceCnt == old(p.produceCnt) + ncalls(kgo.Client.Produce) - k
    invariant notyet: !found ==> top < n - nvisited()
    invariant highest: found ==> (top >= 0 && n - nvisited() <= top && $PROGRESS(k, p, tp, p.chain[tp][top]))
    invariant released: (forall i int {p.chain[tp][i]} :: (0 <= i && i < n) ==> p.chain[tp][i].revocationWaiter == w) ==> (wgcount(w) == old(wgcount(w)) - nvisited())
  }
}

// ---- handing a partition over ----
// the other transactions in rotation, in order
ghostfield producerNode.ring [int => *producerNode[T]]
ghostfield producerNode.ringlen int
ghostfield producerNode.place [ref => int]
define RING(P) (P.ringlen >= 1 && P.ring[0] == P && P.ring[P.ringlen] == P \
  && (forall i int {P.ring[i]} :: (0 <= i && i < P.ringlen) ==> (P.ring[i] != nil && allocated(P.ring[i]) && P.ring[i].errorChannel == P.errorChannel)) \
  && (forall i int {P.ring[i].next} :: (0 <= i && i < P.ringlen) ==> P.ring[i].next == P.ring[i + 1]) \
  && (forall i int {P.ring[i]} :: (0 <= i && i < P.ringlen) ==> P.place[P.ring[i]] == i))
define OWNHELD(P) (forall i int {P.ring[i]} :: (0 <= i && i < P.ringlen) ==> holder[arr(P.ring[i].recordsToProduce)] == P.ring[i])
define RINGHELD(P) ($OWNHELD(P) && allocated(P.recordsToProduce) && forall i int {P.ring[i]} :: (1 <= i && i < P.ringlen) ==> (let q = P.ring[i]; allocated(q.recordsToProduce) && $HELDOK(q)))
define NOLOCKS(P) (forall i int {P.ring[i]} :: (1 <= i && i < P.ringlen) ==> (!held(P.ring[i].partitionLock) && !held(P.ring[i].produceLock)))
// heir[TP]: the place of the first transaction after P in rotation that holds events of TP, or the rotation's length when there is none
define HEIR(P, H) (forall tp int32 {H[tp]} :: 1 <= H[tp] && H[tp] <= P.ringlen && (H[tp] < P.ringlen ==> has(P.ring[H[tp]].currentPartitions, tp)) \
  && (forall j int {P.ring[j]} :: (1 <= j && j < H[tp]) ==> !has(P.ring[j].currentPartitions, tp)))
define NONEHELD(N, TP) (forall i int {N.recordsToProduce[i]} :: (0 <= i && i < len(N.recordsToProduce)) ==> N.recordsToProduce[i].partition != TP)
define HANDOVER ghost holder, $PRODUCES, any producerNode.txnContext, any producerNode.txnContextCancel, sendof(p.errorChannel), log kgo.Client.BeginTransaction, $RECS, any sak.Pool.freelist, any producerNode.recordsToProduce, anyelems(streams.pendingRecord), mapof(p.partitionOwners.owners), mapof(p.currentPartitions), anyreadheld
func producerNode.relinquishOwnership(p) {
  tags C04
  choose heir [int32 => int]: $HEIR(p, heir)
  requires ring: $RING(p) && $RINGHELD(p) && $NOLOCKS(p)
  requires p.partitionOwners.mux != nil && p.partitionOwners.owners != nil
  requires separate: forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> p.ring[i].currentPartitions != p.currentPartitions
  modifies $HANDOVER
  ensures heir: forall tp int32 {heir[tp]} {dom(p.partitionOwners.owners)[tp]} :: (old(has(p.currentPartitions, tp)) && heir[tp] < p.ringlen) ==> (has(p.partitionOwners.owners, tp) && p.partitionOwners.owners[tp] == p.ring[heir[tp]] && (let q = p.ring[heir[tp]]; $NONEHELD(q, tp)))
  ensures released: forall tp int32 {heir[tp]} {dom(p.partitionOwners.owners)[tp]} :: (old(has(p.currentPartitions, tp)) && heir[tp] == p.ringlen) ==> !has(p.partitionOwners.owners, tp)
  ensures others: forall tp int32 {has(p.partitionOwners.owners, tp)} :: !old(has(p.currentPartitions, tp)) ==> (has(p.partitionOwners.owners, tp) == old(has(p.partitionOwners.owners, tp)) && p.partitionOwners.owners[tp] == old(p.partitionOwners.owners[tp]))
  ensures empty: forall tp int32 {has(p.currentPartitions, tp)} :: !has(p.currentPartitions, tp)
  ensures own: p.txnContext == old(p.txnContext) && p.recordsToProduce == old(p.recordsToProduce) && elems(p.recordsToProduce) == old(elems(p.recordsToProduce))
  ensures held: $RINGHELD(p)
  ensures events: $EVKEPT
  ensures readers: forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> readheld(p.ring[i].partitionLock) == old(readheld(p.ring[i].partitionLock))
  loop 0 {
    local n *producerNode[T]
    invariant nvisited() + 1 <= p.ringlen && n == p.ring[nvisited() + 1]
    invariant forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> readheld(p.ring[i].partitionLock) == old(readheld(p.ring[i].partitionLock)) + (if i <= nvisited() then 1 else 0)
  }
  loop 1 {
    invariant p.txnContext == old(p.txnContext) && p.recordsToProduce == old(p.recordsToProduce) && elems(p.recordsToProduce) == old(elems(p.recordsToProduce))
    invariant $RINGHELD(p)
    invariant $EVKEPT
    invariant forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> !held(p.ring[i].produceLock)
    invariant left: forall tp int32 {has(p.currentPartitions, tp)} :: has(p.currentPartitions, tp) == (old(has(p.currentPartitions, tp)) && !visited()[tp])
    invariant apart: forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> (p.ring[i].currentPartitions == old(p.ring[i].currentPartitions) && p.ring[i].currentPartitions != p.currentPartitions)
    invariant heir: forall tp int32 {visited()[tp]} :: (old(has(p.currentPartitions, tp)) && visited()[tp] && heir[tp] < p.ringlen) ==> (has(p.partitionOwners.owners, tp) && p.partitionOwners.owners[tp] == p.ring[heir[tp]])
    invariant nothing: forall tp int32, r int {p.ring[heir[tp]].recordsToProduce[r], visited()[tp]} :: (old(has(p.currentPartitions, tp)) && visited()[tp] && heir[tp] < p.ringlen && 0 <= r && r < len(p.ring[heir[tp]].recordsToProduce)) ==> p.ring[heir[tp]].recordsToProduce[r].partition != tp
    invariant released: forall tp int32 {visited()[tp]} :: (old(has(p.currentPartitions, tp)) && visited()[tp] && heir[tp] == p.ringlen) ==> !has(p.partitionOwners.owners, tp)
    invariant forall tp int32 {has(p.partitionOwners.owners, tp)} :: !old(has(p.currentPartitions, tp)) ==> (has(p.partitionOwners.owners, tp) == old(has(p.partitionOwners.owners, tp)) && p.partitionOwners.owners[tp] == old(p.partitionOwners.owners[tp]))
  }
  loop 2 {
    local n *producerNode[T]
    invariant nvisited() + 1 <= p.ringlen && n == p.ring[nvisited() + 1]
    local tp int32
    invariant heir[tp] > nvisited()
  }
  loop 3 {
    local n *producerNode[T]
    invariant nvisited() + 1 <= p.ringlen && n == p.ring[nvisited() + 1]
    invariant forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> readheld(p.ring[i].partitionLock) == old(readheld(p.ring[i].partitionLock)) + (if i <= nvisited() then 0 else 1)
  }
}

// ---- ending a transaction ----
field streams.producerNode.txnContextCancel() {}
// partitions of one transaction have waiters of their own, and every event of a partition has its partition's
ghostvar waitsFor [ref => int32]
define WAITERS(P) (forall tp int32 {has(P.currentPartitions, tp)} :: has(P.currentPartitions, tp) ==> waitsFor[P.currentPartitions[tp].root.revocationWaiter] == tp)
func producerNode.clearState(p, executionTime) {
  tags C01 C03 C04
  choose heir [int32 => int]: $HEIR(p, heir)
  requires ring: $RING(p)
  requires ringheld: $RINGHELD(p)
  requires nolocks: $NOLOCKS(p)
  requires p.partitionOwners.mux != nil && p.partitionOwners.owners != nil && p.txnContextCancel != nil
  requires separate: forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> p.ring[i].currentPartitions != p.currentPartitions
  requires chains: forall tp int32 {has(p.currentPartitions, tp)} :: has(p.currentPartitions, tp) ==> ($CHAINOK(p, tp) && p.chain[tp][0].revocationWaiter != nil)
  requires waiters: $WAITERS(p)
  modifies $HANDOVER, anywg, anysend(chan Metric), p.produceCnt, p.eventContextCnt, p.byteCount, log streams.producerNode.txnContextCancel, log kgo.Client.MarkCommitRecords
  call relinquishOwnership(heir = heir)
  ensures heir: forall tp int32 {heir[tp]} {dom(p.partitionOwners.owners)[tp]} :: (old(has(p.currentPartitions, tp)) && heir[tp] < p.ringlen) ==> (has(p.partitionOwners.owners, tp) && p.partitionOwners.owners[tp] == p.ring[heir[tp]])
  ensures released: forall tp int32 {heir[tp]} {dom(p.partitionOwners.owners)[tp]} :: (old(has(p.currentPartitions, tp)) && heir[tp] == p.ringlen) ==> !has(p.partitionOwners.owners, tp)
  ensures counters: p.produceCnt == 0 && p.eventContextCnt == 0 && p.byteCount == 0 && len(p.recordsToProduce) == 0
  ensures context: p.txnContext == nil && ncalls(streams.producerNode.txnContextCancel) == old(ncalls(streams.producerNode.txnContextCancel)) + 1
  ensures empty: forall tp int32 {has(p.currentPartitions, tp)} :: !has(p.currentPartitions, tp)
  ensures revocation: forall tp int32 {old(has(p.currentPartitions, tp))} :: old(has(p.currentPartitions, tp)) ==> (let w = old(p.currentPartitions[tp].root.revocationWaiter); wgcount(w) == old(wgcount(w)) - 1)
  ghost holder[arr(p.recordsToProduce)] := p
  ensures held: $RINGHELD(p)
  loop 0 {
    invariant p.txnContext == nil && p.recordsToProduce == old(p.recordsToProduce)
    invariant done: forall tp int32 {old(has(p.currentPartitions, tp))} :: old(has(p.currentPartitions, tp)) ==> (let w = old(p.currentPartitions[tp].root.revocationWaiter); wgcount(w) == old(wgcount(w)) - (if visited()[tp] then 1 else 0))
  }
}

// ---- a whole transaction ----
field streams.producerNode.txnErrorHandler(err) (a) {}
define COMMITS $HANDOVER, anywg, anysend(chan Metric), anysend(chan error), chanof(p.produceErr), anychan(chan struct{}), p.produceCnt, p.eventContextCnt, p.byteCount, log streams.producerNode.txnContextCancel, log kgo.Client.MarkCommitRecords, log kgo.Client.Flush, log kgo.Client.EndTransaction, ghost flAt, ghost etAt, ghost progAt, ghost progOf, log streams.producerNode.txnErrorHandler
func producerNode.commit(p) (err) {
  tags C01 C02 C04
  choose heir [int32 => int]: $HEIR(p, heir)
  choose top [int32 => int]: forall tp int32 {top[tp]} :: has(p.currentPartitions, tp) ==> $TOP(p, tp, p.chainlen[tp], top[tp])
  requires ring: $RING(p) && $RINGHELD(p) && $NOLOCKS(p) && $HELDOK(p)
  requires p.partitionOwners.mux != nil && p.partitionOwners.owners != nil && p.commitLog != nil && p.commitLog.numPartitions > 0
  requires context: $CTXOK(p)
  requires errs: p.produceErr != nil && !closed(p.produceErr) && cap(p.produceErr) == 1 && p.errorChannel != p.produceErr && p.txnErrorHandler != nil
  requires separate: forall i int {p.ring[i]} :: (1 <= i && i < p.ringlen) ==> p.ring[i].currentPartitions != p.currentPartitions
  requires chains: $CHAINS(p)
  requires events: forall tp int32 {has(p.currentPartitions, tp)} :: has(p.currentPartitions, tp) ==> $EVENTSOK(p, tp)
  requires waiters: $WAITERS(p)
  requires unlocked: !held(p.commitWaiter) && !held(p.produceLock)
  requires counter: 0 <= p.produceCnt && p.produceCnt < 2305843009213693952
  modifies $COMMITS
  call clearState(heir = heir)
  call finalizeEventContexts(top = top[arg2.topicPartition.Partition])
  let k = ncalls(kgo.Client.Produce)
  let n = len(p.recordsToProduce)
  let f = ncalls(kgo.Client.Flush)
  let e = ncalls(kgo.Client.EndTransaction)
  let h = ncalls(streams.producerNode.txnErrorHandler)
  let r = recvd(p.produceErr)
  before kgo.Client.EndTransaction [C01] complete: forall tp int32, i int {has(p.currentPartitions, tp), p.chain[tp][i]} :: (has(p.currentPartitions, tp) && 0 <= i && i < p.chainlen[tp]) ==> closed(p.chain[tp][i].done)
  before kgo.Client.EndTransaction [C01] flushed: ncalls(kgo.Client.Flush) == f + 1 && callarg(kgo.Client.Flush, f, 0, *kgo.Client) == p.client && callres(kgo.Client.Flush, f, 0, error) == nil && flAt[f] == ncalls(kgo.Client.Produce)
  before kgo.Client.EndTransaction [C01] failures: sent(p.produceErr) == recvd(p.produceErr) && (recvd(p.produceErr) > r ==> (ncalls(streams.producerNode.txnErrorHandler) == h + 1 && callarg(streams.producerNode.txnErrorHandler, h, 0, error) == recvval(p.produceErr, r) && callres(streams.producerNode.txnErrorHandler, h, 0, ErrorResponse) == Continue))
  before kgo.Client.EndTransaction [C01] once: ncalls(kgo.Client.EndTransaction) == e && arg0 == p.client && arg2 == (p.produceCnt != 0)
  before producerNode.clearState [C01] accepted: ncalls(kgo.Client.EndTransaction) == e + 1 && callres(kgo.Client.EndTransaction, e, 0, error) == nil
  before kgo.Client.EndTransaction [C04] owned: forall tp int32 {has(p.currentPartitions, tp)} :: has(p.currentPartitions, tp) ==> p.partitionOwners.owners[tp] == p
  before kgo.Client.EndTransaction [C04] held: forall i int {old(p.recordsToProduce[i])} :: (0 <= i && i < n) ==> $SENT(k + i, p, old(p.recordsToProduce[i].record))
  before kgo.Client.EndTransaction [C02] progress: forall tp int32 {top[tp]} :: (has(p.currentPartitions, tp) && top[tp] >= 0) ==> (k + n <= progAt[tp] && progAt[tp] < ncalls(kgo.Client.Produce) && progOf[progAt[tp]] == tp && $PROGRESS(progAt[tp], p, tp, p.chain[tp][top[tp]]))
  before kgo.Client.EndTransaction [C02] noother: forall c int {progOf[c]} :: (k + n <= c && c < ncalls(kgo.Client.Produce)) ==> (has(p.currentPartitions, progOf[c]) && progAt[progOf[c]] == c && top[progOf[c]] >= 0)
  ensures [C01] ended: err == nil ==> (ncalls(kgo.Client.EndTransaction) == e + 1 && callres(kgo.Client.EndTransaction, e, 0, error) == nil)
  ensures errs: !closed(p.produceErr)
  ensures [C01 C05] empty: err == nil ==> $EMPTY(p)
  ensures [C01] context: err == nil ==> p.txnContext == nil
  ensures [C01] kept: err == nil ==> ($RINGHELD(p) && len(p.recordsToProduce) == 0)
  loop 0 {
    invariant held(p.produceLock)
    invariant forall tp int32 {visited()[tp]} :: (has(p.currentPartitions, tp) && visited()[tp]) ==> p.partitionOwners.owners[tp] == p
  }
  loop 1 {
    let c0 = p.txnContext
    invariant p.txnContextCancel != nil && !closed(p.produceErr) && recvd(p.produceErr) == r
    invariant ringheld: $RINGHELD(p)
    invariant !held(p.produceLock) && p.txnContext == c0 && c0 != nil && p.recordsToProduce == old(p.recordsToProduce) && elems(p.recordsToProduce) == old(elems(p.recordsToProduce))
    invariant 0 <= p.produceCnt && p.produceCnt <= old(p.produceCnt) + nvisited() && ncalls(kgo.Client.Produce) >= k + n
    invariant forall tp int32, i int {visited()[tp], p.chain[tp][i]} :: (has(p.currentPartitions, tp) && visited()[tp] && 0 <= i && i < p.chainlen[tp]) ==> closed(p.chain[tp][i].done)
    invariant sentbefore: forall i int {old(p.recordsToProduce[i])} :: (0 <= i && i < n) ==> $SENT(k + i, p, old(p.recordsToProduce[i].record))
    invariant progress: forall tp int32 {top[tp]} :: (has(p.currentPartitions, tp) && visited()[tp] && top[tp] >= 0) ==> (k + n <= progAt[tp] && progAt[tp] < ncalls(kgo.Client.Produce) && progOf[progAt[tp]] == tp && $PROGRESS(progAt[tp], p, tp, p.chain[tp][top[tp]]))
    invariant noother: forall c int {progOf[c]} :: (k + n <= c && c < ncalls(kgo.Client.Produce)) ==> (visited()[progOf[c]] && has(p.currentPartitions, progOf[c]) && progAt[progOf[c]] == c && top[progOf[c]] >= 0)
  }
}

// ---- the pool of transactions ----
// a transaction that can be committed
define READY(P) ($RING(P) && $RINGHELD(P) && $HELDOK(P) && P.partitionOwners.mux != nil && P.partitionOwners.owners != nil && P.commitLog != nil && P.commitLog.numPartitions > 0 \
  && $CTXOK(P) && P.produceErr != nil && !closed(P.produceErr) && cap(P.produceErr) == 1 && P.errorChannel != P.produceErr && P.txnErrorHandler != nil && P.currentPartitions != nil \
  && (forall i int {P.ring[i]} :: (1 <= i && i < P.ringlen) ==> P.ring[i].currentPartitions != P.currentPartitions) \
  && $CHAINS(P) && (forall tp int32 {has(P.currentPartitions, tp)} :: has(P.currentPartitions, tp) ==> $EVENTSOK(P, tp)) && $WAITERS(P) \
  && 0 <= P.produceCnt && P.produceCnt < 2305843009213693952)
define EMPTY(P) (P.eventContextCnt == 0 && P.produceCnt == 0 && (forall tp int32 {has(P.currentPartitions, tp)} :: !has(P.currentPartitions, tp)))
define UNLOCKED (forall any_n *producerNode[T] {held(any_n.partitionLock)} :: !held(any_n.partitionLock)) && (forall any_n *producerNode[T] {held(any_n.produceLock)} :: !held(any_n.produceLock)) && (forall any_n *producerNode[T] {held(any_n.commitWaiter)} :: !held(any_n.commitWaiter))
// nodes travel between the acceptor and the committer through the queues
open eosProducerPool.commitQueue
open eosProducerPool.producerNodeQueue
chaninv eosProducerPool.commitQueue(v): v != nil && v.errorChannel == self.errorChannel && allocated(v) && $READY(v)
chaninv eosProducerPool.producerNodeQueue(v): v != nil && v.errorChannel == self.errorChannel && allocated(v) && $READY(v) && $EMPTY(v)

func eosProducerPool.commit(pp, p) (err) {
  tags C01 C05 C30
  opt log
  requires p != nil && p.errorChannel == pp.errorChannel && $READY(p) && $UNLOCKED
  requires queue: pp.producerNodeQueue != nil && !closed(pp.producerNodeQueue) && pp.producerNodeQueue != pp.commitQueue
  modifies $COMMITS, pp.startTime, sendof(pp.producerNodeQueue)
  let n = sent(pp.producerNodeQueue)
  let e = ncalls(kgo.Client.EndTransaction)
  ensures ended: err == nil ==> (ncalls(kgo.Client.EndTransaction) == e + 1 && callres(kgo.Client.EndTransaction, e, 0, error) == nil)
  ensures returned: err == nil ==> (sent(pp.producerNodeQueue) == n + 1 && sentval(pp.producerNodeQueue, n) == p)
  ensures kept: err != nil ==> sent(pp.producerNodeQueue) == n
  ensures [C30] received: forall any_c chan error {recvd(any_c)} :: any_c != p.produceErr ==> recvd(any_c) == old(recvd(any_c))
}

// what the acceptor relies on between two events
define LIMITS(PP) (0 < PP.cfg.TargetBatchSize && PP.cfg.TargetBatchSize <= PP.cfg.MaxBatchSize && 0 < PP.cfg.MaxBatchSize && PP.cfg.MaxBatchSize < 2305843009213693952)
define QUEUES(PP) (PP.commitQueue != nil && !closed(PP.commitQueue) && PP.producerNodeQueue != nil && PP.commitQueue != PP.producerNodeQueue)
define FRESHEST(D) (0 <= D.eventContextCnt && (D.eventContextCnt == 0 ==> D.produceCnt == 0))
define COUNT(D) max(D.eventContextCnt, D.produceCnt)
define RETRIED(K, PP) (ncalls(time.Ticker.Reset) == K + 1 && callarg(time.Ticker.Reset, K, 0, *time.Ticker) == PP.flushTimer && callarg(time.Ticker.Reset, K, 1, time.Duration) == PP.cfg.BatchDelay)
define HANDED(S, D, PP) (sent(PP.commitQueue) == S + 1 && sentval(PP.commitQueue, S) == D)
func eosProducerPool.shouldTryFlush(pp) (r) {
  tags C05
  requires pp.onDeck != nil
  ensures r == ($COUNT(pp.onDeck) >= pp.cfg.TargetBatchSize)
}
func eosProducerPool.shouldForceFlush(pp) (r) {
  tags C05
  requires pp.onDeck != nil
  ensures r == ($COUNT(pp.onDeck) >= pp.cfg.MaxBatchSize)
}
func eosProducerPool.tryFlush(pp) {
  tags C05
  requires $LIMITS(pp) && $QUEUES(pp) && pp.onDeck != nil && pp.onDeck.errorChannel == pp.errorChannel && allocated(pp.onDeck) && $READY(pp.onDeck) && $FRESHEST(pp.onDeck)
  modifies pp.onDeck, sendof(pp.commitQueue), chanof(pp.producerNodeQueue), log time.Ticker.Reset
  let d = pp.onDeck
  let s = sent(pp.commitQueue)
  let r = recvd(pp.producerNodeQueue)
  let k = ncalls(time.Ticker.Reset)
  ensures forced: $COUNT(d) >= pp.cfg.MaxBatchSize ==> $HANDED(s, d, pp)
  ensures offered: d.eventContextCnt > 0 ==> ($HANDED(s, d, pp) || (sent(pp.commitQueue) == s && $RETRIED(k, pp)))
  ensures empty: d.eventContextCnt == 0 ==> sent(pp.commitQueue) == s
  ensures kept: sent(pp.commitQueue) == s ==> (pp.onDeck == d && recvd(pp.producerNodeQueue) == r)
  ensures next: sent(pp.commitQueue) > s ==> (recvd(pp.producerNodeQueue) == r + 1 && pp.onDeck == recvval(pp.producerNodeQueue, r) && pp.onDeck != nil && allocated(pp.onDeck) && $EMPTY(pp.onDeck))
  ensures ready: $READY(pp.onDeck) && pp.onDeck.errorChannel == pp.errorChannel
}
// an event that has been given to the pool and not accepted yet
define OFFERED(E) (E != nil && allocated(E) && !E.accepted && E.prev == nil && E.revocationWaiter != nil && E.ctx != nil && E.topicPartition.Partition >= 0 && E.producerChan != nil && !closed(E.producerChan) \
  && waitsFor[E.revocationWaiter] == E.topicPartition.Partition && E.input.kRecord.Offset < 9223372036854775807)
define ACCEPTOR(PP) ($LIMITS(PP) && $QUEUES(PP) && PP.onDeck != nil && PP.onDeck.errorChannel == PP.errorChannel && allocated(PP.onDeck) && $READY(PP.onDeck) && $FRESHEST(PP.onDeck) && $ACCEPTED(PP.onDeck) && PP.onDeck.eventContextCnt < PP.cfg.MaxBatchSize \
  && PP.partitionOwners.mux != nil && PP.partitionOwners.owners != nil)
define REVOKED(E) (callres(context.Context.Err, E, 0, error) != nil)
func eosProducerPool.doForwardExecutionContexts(pp, ec) {
  tags C03 C05
  opt log
  requires $OFFERED(ec)
  requires $ACCEPTOR(pp)
  requires $UNLOCKED
  modifies pp.onDeck, sendof(pp.commitQueue), chanof(pp.producerNodeQueue), log time.Ticker.Reset, log context.Context.Err, sendof(ec.producerChan), mapof(pp.partitionOwners.owners), pp.onDeck.eventContextCnt, pp.onDeck.firstEvent, mapof(pp.onDeck.currentPartitions), pp.onDeck.chain, pp.onDeck.chainlen, ec.prev, ec.accepted, any EventContext.next, wg(ec.revocationWaiter)
  let d = pp.onDeck
  let tp = ec.topicPartition.Partition
  let had = has(d.currentPartitions, tp)
  let n = if had then d.chainlen[tp] else 0
  let e = ncalls(context.Context.Err)
  let c = sent(ec.producerChan)
  let s = sent(pp.commitQueue)
  let r = recvd(pp.producerNodeQueue)
  let k = ncalls(time.Ticker.Reset)
  let cnt = max(d.eventContextCnt + 1, d.produceCnt)
  ensures [C03] answered: sent(ec.producerChan) == c + 1
  ensures [C03] refused: $REVOKED(e) ==> (sentval(ec.producerChan, c) == nil && wgcount(ec.revocationWaiter) == old(wgcount(ec.revocationWaiter)) - 1 && !ec.accepted)
  ensures [C03] untouched: $REVOKED(e) ==> (pp.onDeck == d && sent(pp.commitQueue) == s && d.eventContextCnt == old(d.eventContextCnt) && d.chainlen == old(d.chainlen) && d.chain == old(d.chain) && (forall q int32 {has(d.currentPartitions, q)} :: has(d.currentPartitions, q) == old(has(d.currentPartitions, q))))
  ensures [C03] told: !$REVOKED(e) ==> sentval(ec.producerChan, c) == boxed(d)
  ensures [C03] placed: !$REVOKED(e) ==> (ec.accepted && has(d.currentPartitions, tp) && d.chainlen[tp] == n + 1 && d.chain[tp][n] == ec && (forall i int {d.chain[tp][i]} :: (0 <= i && i < n) ==> d.chain[tp][i] == old(d.chain[tp])[i]) && d.eventContextCnt == old(d.eventContextCnt) + 1)
  ensures [C03] revocation: !$REVOKED(e) ==> wgcount(ec.revocationWaiter) == old(wgcount(ec.revocationWaiter)) + (if had then 0 else 1)
  ensures [C03 C04] owner: (!$REVOKED(e) && !old(has(pp.partitionOwners.owners, tp))) ==> pp.partitionOwners.owners[tp] == d
  ensures [C05] attempted: (!$REVOKED(e) && cnt >= pp.cfg.TargetBatchSize) ==> ($HANDED(s, d, pp) || (sent(pp.commitQueue) == s && $RETRIED(k, pp)))
  ensures [C05] forced: (!$REVOKED(e) && cnt >= pp.cfg.MaxBatchSize) ==> $HANDED(s, d, pp)
  ensures [C05] later: (!$REVOKED(e) && cnt < pp.cfg.TargetBatchSize) ==> (sent(pp.commitQueue) == s && (old(d.eventContextCnt) == 0 ==> $RETRIED(k, pp)))
  ensures [C05] kept: sent(pp.commitQueue) == s ==> pp.onDeck == d
  ensures [C05] next: sent(pp.commitQueue) > s ==> (sent(pp.commitQueue) == s + 1 && recvd(pp.producerNodeQueue) == r + 1 && pp.onDeck == recvval(pp.producerNodeQueue, r) && $EMPTY(pp.onDeck))
  ensures acceptor: $ACCEPTOR(pp)
  ensures unlocked: $UNLOCKED
}
open eosProducerPool.buffer
chaninv eosProducerPool.buffer(v): $OFFERED(v)
extern time.NewTicker(d) (t) { ensures t != nil }
// where an event is in its pool's buffer
ghostfield EventContext.bufAt int
func eosProducerPool.addEventContext(pp, ec) {
  tags C03
  requires $OFFERED(ec) && pp.buffer != nil
  modifies sendof(pp.buffer), ec.bufAt
  ghost ec.bufAt := old(sent(pp.buffer))
  ensures at: ec.bufAt == old(sent(pp.buffer))
  ensures buffered: sent(pp.buffer) == old(sent(pp.buffer)) + 1 && sentval(pp.buffer, old(sent(pp.buffer))) == ec
}
// events are taken from the buffer in order, each of them once
func eosProducerPool.forwardExecutionContexts(pp) {
  tags C03 C05
  opt noreturn
  requires $ACCEPTOR(pp) && $UNLOCKED && pp.buffer != nil && pp.flushTimer != nil
  waits [C05] timer: offersrecv(pp.buffer) && offersrecv(pp.flushTimer.C)
  modifies pp.onDeck, chanof(pp.buffer), anychan(chan *producerNode[T]), log time.Ticker.Reset, log context.Context.Err, anysend(chan EventContextProducer[T]), mapof(pp.partitionOwners.owners), any producerNode.eventContextCnt, any producerNode.firstEvent, anymap(map[int32]eventContextDll[T]), any producerNode.chain, any producerNode.chainlen, any EventContext.prev, any EventContext.accepted, any EventContext.next, anywg, log eosProducerPool.doForwardExecutionContexts, anychan(chan time.Time)
  let f = ncalls(eosProducerPool.doForwardExecutionContexts)
  let r = recvd(pp.buffer)
  loop 0 {
    invariant $ACCEPTOR(pp) && $UNLOCKED
    invariant inorder: recvd(pp.buffer) - r == ncalls(eosProducerPool.doForwardExecutionContexts) - f
    invariant each: forall i int {recvval(pp.buffer, i)} :: (r <= i && i < recvd(pp.buffer)) ==> callarg(eosProducerPool.doForwardExecutionContexts, f + i - r, 1, *EventContext[T]) == recvval(pp.buffer, i)
  }
}

// ---- failing ----
tags C30
ghostvar policyOf [int => streams.TxnErrorHandler] along streams.TxnErrorHandler
functype streams.TxnErrorHandler(err) (a) {
  modifies ghost policyOf
  ensures policyOf[old(ncalls(streams.TxnErrorHandler))] == self
}
func Source.State(s) (r) { ensures r == s.state }
func Source.fail(s, err) {
  tags C30
  opt log
  requires s.failure != nil
  modifies s.state, sendof(s.failure)
  ensures unhealthy: s.state == Unhealthy
  ensures reported: sent(s.failure) == old(sent(s.failure)) + 1 && sentval(s.failure, old(sent(s.failure))) == err
}
func DefaultTxnErrorHandler(err) (r) { ensures r == FailConsumer }
open eosProducerPool.errorChannel
define POLICYIS(F, S) (if S.config.TxnErrorHandler == nil then isfn(F, DefaultTxnErrorHandler) else F == S.config.TxnErrorHandler)
define ASKED(H, ERR) (exists j int {callarg(streams.TxnErrorHandler, j, 0, error)} :: H <= j && j < ncalls(streams.TxnErrorHandler) && callarg(streams.TxnErrorHandler, j, 0, error) == ERR)
define FAILED(F, S, ERR) (exists i int {callarg(Source.fail, i, 1, error)} :: F <= i && i < ncalls(Source.fail) && callarg(Source.fail, i, 1, error) == ERR && callarg(Source.fail, i, 0, *Source) == S)
func eosProducerPool.commitLoop(pp) {
  tags C30
  opt maypanic
  requires $QUEUES(pp) && !closed(pp.producerNodeQueue) && pp.errorChannel != nil && pp.source != nil && pp.source.failure != nil && pp.source.failure != pp.errorChannel
  requires $UNLOCKED
  waits [C30] errors: offersrecv(pp.errorChannel) && offersrecv(pp.commitQueue)
  modifies pp.startTime, pp.source.state, anychan(chan *producerNode[T]), anychan(chan error), anychan(chan struct{}), anysend(chan Metric), anywg, ghost holder, $PRODUCES, any producerNode.txnContext, any producerNode.txnContextCancel, log kgo.Client.BeginTransaction, $RECS, any sak.Pool.freelist, any producerNode.recordsToProduce, anyelems(streams.pendingRecord), anymap(map[int32]*producerNode[T]), anymap(map[int32]eventContextDll[T]), anyreadheld, any producerNode.produceCnt, any producerNode.eventContextCnt, any producerNode.byteCount, log streams.producerNode.txnContextCancel, log kgo.Client.MarkCommitRecords, log kgo.Client.Flush, log kgo.Client.EndTransaction, ghost flAt, ghost etAt, ghost progAt, ghost progOf, log streams.producerNode.txnErrorHandler, log streams.TxnErrorHandler, ghost policyOf, log Source.fail, log eosProducerPool.commit
  let h = ncalls(streams.TxnErrorHandler)
  let f = ncalls(Source.fail)
  let c = ncalls(eosProducerPool.commit)
  let r = recvd(pp.errorChannel)
  // every failed commit and every reported error is put to the policy
  ensures commits: forall i int {callres(eosProducerPool.commit, i, 0, error)} :: (c <= i && i < ncalls(eosProducerPool.commit) && callres(eosProducerPool.commit, i, 0, error) != nil) ==> $ASKED(h, callres(eosProducerPool.commit, i, 0, error))
  ensures reports: forall i int {recvval(pp.errorChannel, i)} :: (r <= i && i < recvd(pp.errorChannel) && recvval(pp.errorChannel, i) != nil) ==> $ASKED(h, recvval(pp.errorChannel, i))
  ensures policy: forall j int {policyOf[j]} :: (h <= j && j < ncalls(streams.TxnErrorHandler)) ==> (let g = policyOf[j]; $POLICYIS(g, pp.source))
  // every answer but continue fails the source with that error
  ensures failed: forall j int {callres(streams.TxnErrorHandler, j, 0, ErrorResponse)} :: (h <= j && j < ncalls(streams.TxnErrorHandler) && callres(streams.TxnErrorHandler, j, 0, ErrorResponse) != Continue) ==> ($FAILED(f, pp.source, callarg(streams.TxnErrorHandler, j, 0, error)) && pp.source.state == Unhealthy)
  ensures stopped: ncalls(streams.TxnErrorHandler) > h && callres(streams.TxnErrorHandler, ncalls(streams.TxnErrorHandler) - 1, 0, ErrorResponse) == FailConsumer
  ensures_panic fatal: ncalls(streams.TxnErrorHandler) > h && callres(streams.TxnErrorHandler, ncalls(streams.TxnErrorHandler) - 1, 0, ErrorResponse) == FatallyExit && pp.source.state == Unhealthy && $FAILED(f, pp.source, callarg(streams.TxnErrorHandler, ncalls(streams.TxnErrorHandler) - 1, 0, error))
  loop 0 {
    invariant $UNLOCKED && !closed(pp.producerNodeQueue)
    invariant commits: forall i int {callres(eosProducerPool.commit, i, 0, error)} :: (c <= i && i < ncalls(eosProducerPool.commit) && callres(eosProducerPool.commit, i, 0, error) != nil) ==> $ASKED(h, callres(eosProducerPool.commit, i, 0, error))
    invariant reports: forall i int {recvval(pp.errorChannel, i)} :: (r <= i && i < recvd(pp.errorChannel) && recvval(pp.errorChannel, i) != nil) ==> $ASKED(h, recvval(pp.errorChannel, i))
    invariant policy: forall j int {policyOf[j]} :: (h <= j && j < ncalls(streams.TxnErrorHandler)) ==> (let g = policyOf[j]; $POLICYIS(g, pp.source))
    invariant failed: forall j int {callres(streams.TxnErrorHandler, j, 0, ErrorResponse)} :: (h <= j && j < ncalls(streams.TxnErrorHandler) && callres(streams.TxnErrorHandler, j, 0, ErrorResponse) != Continue) ==> ($FAILED(f, pp.source, callarg(streams.TxnErrorHandler, j, 0, error)) && pp.source.state == Unhealthy)
    invariant running: forall j int {callres(streams.TxnErrorHandler, j, 0, ErrorResponse)} :: (h <= j && j < ncalls(streams.TxnErrorHandler)) ==> (callres(streams.TxnErrorHandler, j, 0, ErrorResponse) != FailConsumer && callres(streams.TxnErrorHandler, j, 0, ErrorResponse) != FatallyExit)
  }
}
field sak.RunStatus.cancel() {}
// the first failure stops the consumer
func EventSource.closeOnFail(es) {
  tags C30
  requires es.source != nil && es.source.failure != nil && es.consumer != nil && es.source.config.GroupId == es.source.config.GroupId
  modifies chanof(es.source.failure), log kgo.Client.Close, log sak.RunStatus.cancel, sendof(es.done)
  let k = ncalls(kgo.Client.Close)
  let h = ncalls(sak.RunStatus.cancel)
  ensures waited: recvd(es.source.failure) == old(recvd(es.source.failure)) + 1
  ensures halted: ncalls(sak.RunStatus.cancel) == h + 1
  ensures closed: ncalls(kgo.Client.Close) == k + 1 && callarg(kgo.Client.Close, k, 0, *kgo.Client) == es.consumer.client
}
open Source.failure
// a transaction of the pool is set up with the pool's log, ownership, error channel and the configured error policy
func newProducerNode(id, source, commitLog, partitionOwners, commitClient, metrics, errorChannel) (p) {
  tags C04 C30
  opt maypanic
  requires source != nil && allocated(errorChannel) && allocated(commitLog) && allocated(partitionOwners.mux) && allocated(partitionOwners.owners)
  modifies $NEWCLIENT, log uuid.NewString, any sak.Pool.freelist, ghost holder
  ghost holder[arr(p.recordsToProduce)] := p
  ensures fresh: fresh(p) && fresh(p.recordsToProduce) && fresh(p.currentPartitions) && p.next == nil
  ensures own: $OWNLIST(p)
  ensures wired: p.commitLog == commitLog && p.partitionOwners == partitionOwners && p.errorChannel == errorChannel && p.commitClient == commitClient && p.metrics == metrics && p.source == source
  ensures policy: (let g = p.txnErrorHandler; $POLICYIS(g, source))
  ensures marks: p.shouldMarkCommit == source.config.CommitOffsets
  ensures errs: p.produceErr != nil && cap(p.produceErr) == 1 && !closed(p.produceErr) && p.produceErr != errorChannel && sent(p.produceErr) == 0 && recvd(p.produceErr) == 0 && p.txnErrorHandler != nil
  ensures empty: $EMPTY(p) && p.currentPartitions != nil && len(p.recordsToProduce) == 0 && p.txnContext == nil
}
extern kgo.TransactionalID(s) (o) {}
extern kgo.TransactionTimeout(d) (o) {}
func newEOSProducerPool(source, commitLog, cfg, commitClient, metrics) (pp) {
  tags C04
  opt maypanic
  opt precise
  opt noinv
  requires source != nil && cfg.PoolSize >= 1 && cfg.PendingTxnCount >= 1 && cfg.PoolSize < 1000000 && allocated(commitLog) && commitLog != nil && commitLog.numPartitions > 0 && $UNLOCKED
  requires limits: validEos(cfg) && cfg.MaxBatchSize < 2305843009213693952 && source.failure != nil
  modifies $NEWCLIENT, log uuid.NewString, any sak.Pool.freelist, ghost holder, log "go:streams.eosProducerPool.forwardExecutionContexts", log "go:streams.eosProducerPool.commitLoop"
  let n = cfg.PoolSize
  ensures wired: fresh(pp) && pp.cfg == cfg && pp.source == source && pp.commitClient == commitClient && pp.flushTimer != nil && pp.errorChannel != nil && pp.buffer != nil
  ensures queues: pp.commitQueue != nil && pp.producerNodeQueue != nil && pp.commitQueue != pp.producerNodeQueue && cap(pp.commitQueue) == cfg.PendingTxnCount && cap(pp.producerNodeQueue) == n && !closed(pp.commitQueue) && !closed(pp.producerNodeQueue)
  ensures owners: pp.partitionOwners.mux != nil && pp.partitionOwners.owners != nil && (forall q int32 {has(pp.partitionOwners.owners, q)} :: !has(pp.partitionOwners.owners, q))
  ensures nodes: len(pp.producerNodes) == n && (forall i int {pp.producerNodes[i]} :: (0 <= i && i < n) ==> (let p = pp.producerNodes[i]; p != nil && p.errorChannel == pp.errorChannel && p.partitionOwners == pp.partitionOwners && p.commitLog == commitLog && $EMPTY(p) && p.txnContext == nil))
  ensures rotation: forall i int {pp.producerNodes[i]} :: (0 <= i && i < n) ==> pp.producerNodes[i].next == pp.producerNodes[if i + 1 < n then i + 1 else 0]
  ensures first: pp.onDeck == pp.producerNodes[0] && sent(pp.producerNodeQueue) == n && recvd(pp.producerNodeQueue) == 1 && (forall i int {sentval(pp.producerNodeQueue, i)} :: (0 <= i && i < n) ==> sentval(pp.producerNodeQueue, i) == pp.producerNodes[i])
  ensures running: ncalls("go:streams.eosProducerPool.forwardExecutionContexts") == old(ncalls("go:streams.eosProducerPool.forwardExecutionContexts")) + 1 && ncalls("go:streams.eosProducerPool.commitLoop") == old(ncalls("go:streams.eosProducerPool.commitLoop")) + 1
  loop 0 {
    local pp *eosProducerPool[T]
    ghost pp.producerNodes[0].ring[nvisited() - 1] := pp.producerNodes[nvisited() - 1]
    ghost pp.producerNodes[0].place[pp.producerNodes[nvisited() - 1]] := nvisited() - 1
    ghost pp.producerNodes[0].ring[nvisited()] := pp.producerNodes[0]
    ghost pp.producerNodes[0].ringlen := nvisited()
    invariant len(pp.producerNodes) == nvisited() && nvisited() <= n && cap(pp.producerNodes) == n && fresh(pp.producerNodes)
    invariant fresh(pp) && fresh(pp.producerNodeQueue)
    invariant nodes: forall i int {pp.producerNodes[i]} :: (0 <= i && i < nvisited()) ==> (let p = pp.producerNodes[i]; fresh(p) && p.errorChannel == pp.errorChannel && p.partitionOwners == pp.partitionOwners && p.commitLog == commitLog && $EMPTY(p) && p.txnContext == nil)
    invariant usable: forall i int {pp.producerNodes[i]} :: (0 <= i && i < nvisited()) ==> (let p = pp.producerNodes[i]; p.produceErr != nil && cap(p.produceErr) == 1 && !closed(p.produceErr) && p.produceErr != pp.errorChannel && p.txnErrorHandler != nil && p.currentPartitions != nil)
    invariant held: forall i int {pp.producerNodes[i]} :: (0 <= i && i < nvisited()) ==> (let p = pp.producerNodes[i]; allocated(p.recordsToProduce) && len(p.recordsToProduce) == 0 && holder[arr(p.recordsToProduce)] == p)
    invariant apart: forall i int {pp.producerNodes[i]} :: (1 <= i && i < nvisited()) ==> pp.producerNodes[i].currentPartitions != pp.producerNodes[0].currentPartitions
    invariant queued: sent(pp.producerNodeQueue) == nvisited() && recvd(pp.producerNodeQueue) == 0 && !closed(pp.producerNodeQueue) && (forall i int {sentval(pp.producerNodeQueue, i)} :: (0 <= i && i < nvisited()) ==> sentval(pp.producerNodeQueue, i) == pp.producerNodes[i])
    invariant ends: (nvisited() == 0 ==> first == nil) && (nvisited() > 0 ==> (first == pp.producerNodes[0] && prev == pp.producerNodes[nvisited() - 1] && last == prev))
    invariant links: forall i int {pp.producerNodes[i].next} :: (0 <= i && i + 1 < nvisited()) ==> pp.producerNodes[i].next == pp.producerNodes[i + 1]
    invariant places: forall i int {pp.producerNodes[i]} :: (0 <= i && i < nvisited()) ==> (pp.producerNodes[0].ring[i] == pp.producerNodes[i] && pp.producerNodes[0].place[pp.producerNodes[i]] == i)
    invariant around: nvisited() > 0 ==> (pp.producerNodes[0].ring[nvisited()] == pp.producerNodes[0] && pp.producerNodes[0].ringlen == nvisited())
  }
}
