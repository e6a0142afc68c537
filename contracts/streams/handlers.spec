package streams
tags C11

// ---- the application's functions (assumed to return one of the documented states) ----
field streams.eventProcessorExecutor.decode(record) (v, err) {}
field streams.eventProcessorExecutor.process(ec, event) (s) { ensures s != unknownType }
field streams.eventProcessorExecutor.handleDeserializationError(ec, t, err) (r) {}
field streams.EventSource.defaultProcessor(ec, record) (s) { ensures s != unknownType }
iface streams.eventExecutor.Exec(x, ec, record) (s) { ensures s != unknownType }

define DEC streams.eventProcessorExecutor.decode
define PROC streams.eventProcessorExecutor.process
define DERR streams.eventProcessorExecutor.handleDeserializationError
define EXEC streams.eventExecutor.Exec
define DEFP streams.EventSource.defaultProcessor

func eventProcessorExecutor.Exec(epe, ec, record) (s) {
  requires epe.decode != nil && epe.process != nil && epe.handleDeserializationError != nil
  modifies log $DEC, log $PROC, log $DERR
  let d = ncalls($DEC)
  let p = ncalls($PROC)
  let h = ncalls($DERR)
  ensures decoded: ncalls($DEC) == d + 1 && callarg($DEC, d, 0, IncomingRecord) == record
  ensures run: callres($DEC, d, 1, error) == nil ==> (ncalls($PROC) == p + 1 && callarg($PROC, p, 0, "*streams.EventContext[T]") == ec && callarg($PROC, p, 1, V) == callres($DEC, d, 0, V) && s == callres($PROC, p, 0, ExecutionState) && ncalls($DERR) == h)
  ensures undecodable: callres($DEC, d, 1, error) != nil ==> (ncalls($PROC) == p && ncalls($DERR) == h + 1 && as(callarg($DERR, h, 0, ErrorContext), "*streams.EventContext[T]") == ec && callarg($DERR, h, 1, string) == record.recordType && callarg($DERR, h, 2, error) == callres($DEC, d, 1, error))
  ensures policy: callres($DEC, d, 1, error) != nil ==> (s == (if callres($DERR, h, 0, ErrorResponse) == Continue then Complete else Incomplete))
  ensures known: s != unknownType
}
func eventProcessorWrapper.exec(ep, ec, record) (s) {
  requires ep.eventExecutor != nil
  modifies log $EXEC
  let n = ncalls($EXEC)
  ensures once: ncalls($EXEC) == n + 1 && callarg($EXEC, n, 0, "streams.eventExecutor[T]") == ep.eventExecutor && callarg($EXEC, n, 1, "*streams.EventContext[T]") == ec && callarg($EXEC, n, 2, IncomingRecord) == record && s == callres($EXEC, n, 0, ExecutionState)
  ensures known: s != unknownType
}
// c[k..n) are the registered handlers in order
define CHAIN(C, K, N, HEAD) (0 <= K && K < N && C[K] == HEAD && C[N-1].next == nil && (forall i int {C[i]} :: (0 <= i && i < N) ==> (C[i] != nil && C[i].eventExecutor != nil)) && (forall i int {C[i].next} :: (0 <= i && i < N - 1) ==> C[i].next == C[i+1]))
define FIRST(C, K, N, I, RT) (K <= I && I < N && C[I].eventType == RT && (forall j int {C[j]} :: (K <= j && j < I) ==> C[j].eventType != RT))
define NONE(C, K, N, RT) (forall j int {C[j]} :: (K <= j && j < N) ==> C[j].eventType != RT)
define RUNS(M, H, CTX, REC, S) (ncalls($EXEC) == M + 1 && callarg($EXEC, M, 0, "streams.eventExecutor[T]") == H.eventExecutor && callarg($EXEC, M, 1, "*streams.EventContext[T]") == CTX && callarg($EXEC, M, 2, IncomingRecord) == REC && S == callres($EXEC, M, 0, ExecutionState))
func eventProcessorWrapper.process(ep, ctx, record) (s) {
  logical c [int => *eventProcessorWrapper[T]]
  logical k int
  logical n int
  requires chain: $CHAIN(c, k, n, ep)
  modifies log $EXEC
  call eventProcessorWrapper.process(c = c, k = k + 1, n = n)
  let m = ncalls($EXEC)
  ensures first: forall i int {c[i]} :: $FIRST(c, k, n, i, record.recordType) ==> ($RUNS(m, c[i], ctx, record, s) && s != unknownType)
  ensures none: $NONE(c, k, n, record.recordType) ==> (s == unknownType && ncalls($EXEC) == m)
}
func EventSource.handleEvent(es, ctx, record) (s) {
  opt log
  logical c [int => *eventProcessorWrapper[T]]
  logical n int
  requires es.rootProcessor == nil || $CHAIN(c, 0, n, es.rootProcessor)
  requires es.defaultProcessor != nil
  modifies log $EXEC, log $DEFP
  call eventProcessorWrapper.process(c = c, k = 0, n = n)
  let m = ncalls($EXEC)
  let d = ncalls($DEFP)
  ensures first: es.rootProcessor != nil ==> (forall i int {c[i]} :: $FIRST(c, 0, n, i, record.recordType) ==> ($RUNS(m, c[i], ctx, record, s) && ncalls($DEFP) == d))
  ensures default: (es.rootProcessor == nil || $NONE(c, 0, n, record.recordType)) ==> (ncalls($EXEC) == m && ncalls($DEFP) == d + 1 && callarg($DEFP, d, 0, "*streams.EventContext[T]") == ctx && callarg($DEFP, d, 1, IncomingRecord) == record && s == callres($DEFP, d, 0, ExecutionState))
}
func newEventProcessorWrapper(eventType, decoder, eventProcessor, h) (w) {
  ensures new: fresh(w) && w.eventType == eventType && w.next == nil && w.eventExecutor != nil
  ensures executor: is(w.eventExecutor, "*streams.eventProcessorExecutor[T,V]") && (let x = as(w.eventExecutor, "*streams.eventProcessorExecutor[T,V]"); x.process == eventProcessor && x.decode == decoder && x.handleDeserializationError == h)
}
// a registration adds its handler after those registered before
func RegisterEventType(es, transformer, eventProcessor, eventType) {
  logical c [int => *eventProcessorWrapper[T]]
  logical n int
  requires es != nil && es.source != nil
  requires (es.rootProcessor == nil && n == 0) || ($CHAIN(c, 0, n, es.rootProcessor) && es.tailProcessor == c[n-1] && (forall i int, j int {c[i], c[j]} :: (0 <= i && i < j && j < n) ==> c[i] != c[j]) && (forall i int {c[i]} :: (0 <= i && i < n) ==> allocated(c[i])))
  modifies es.rootProcessor, es.tailProcessor, es.tailProcessor.next
  ensures chain: (let e = c[n := es.tailProcessor]; $CHAIN(e, 0, n + 1, es.rootProcessor))
  ensures last: es.tailProcessor.eventType == eventType && is(es.tailProcessor.eventExecutor, "*streams.eventProcessorExecutor[T,V]") && (let x = as(es.tailProcessor.eventExecutor, "*streams.eventProcessorExecutor[T,V]"); x.process == eventProcessor && x.decode == transformer && (es.source.config.DeserializationErrorHandler != nil ==> x.handleDeserializationError == es.source.config.DeserializationErrorHandler) && (es.source.config.DeserializationErrorHandler == nil ==> isfn(x.handleDeserializationError, DefaultDeserializationErrorHandler)))
  ensures others: forall i int {c[i]} :: (0 <= i && i < n) ==> (c[i].eventType == old(c[i].eventType) && c[i].eventExecutor == old(c[i].eventExecutor))
}
func RegisterDefaultHandler(es, recordProcessor, eventType) {
  modifies es.defaultProcessor
  ensures default: es.defaultProcessor == recordProcessor
}
// with no policy configured, an undecodable event is completed
func DefaultDeserializationErrorHandler(ec, eventType, err) (r) {
  requires ec != nil
  modifies log streams.ErrorContext.TopicPartition, log streams.ErrorContext.Offset
  ensures continue: r == Continue
}
iface streams.ErrorContext.TopicPartition(x) (tp) {}
iface streams.ErrorContext.Offset(x) (o) {}
