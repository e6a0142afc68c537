package streams
tags C27

// C27: record placement

func NewOptionalPartitioner(partitioner) (op) {
  ensures op.defaultPartitioner == partitioner && manualP(op.manualPartitioner) && op.manualPartitioner != nil
  ensures none: forall t string :: !has(op.topicPartitioners, t)
}
func NewOptionalPerTopicPartitioner(defaultPartitioner, topicPartitioners) (op) {
  ensures op.defaultPartitioner == defaultPartitioner && op.topicPartitioners == topicPartitioners && manualP(op.manualPartitioner) && op.manualPartitioner != nil
}
pure partitionerFor(op OptionalPartitioner, topic string) kgo.Partitioner = if has(op.topicPartitioners, topic) then op.topicPartitioners[topic] else op.defaultPartitioner

func OptionalPartitioner.ForTopic(op, topic) (tp) {
  requires manualP(op.manualPartitioner) && op.manualPartitioner != nil && partitionerFor(op, topic) != nil
  modifies log kgo.Partitioner.ForTopic
  let n = ncalls(kgo.Partitioner.ForTopic)
  ensures kind: is(tp, optionalTopicPartitioner)
  ensures manual: manualTP(as(tp, optionalTopicPartitioner).manualTopicPartitioner) && as(tp, optionalTopicPartitioner).manualTopicPartitioner != nil && as(tp, optionalTopicPartitioner).keyTopicPartitioner != nil
  ensures two: ncalls(kgo.Partitioner.ForTopic) == n + 2
  ensures key: exists k int :: n <= k && k < n + 2 && callarg(kgo.Partitioner.ForTopic, k, 0, kgo.Partitioner) == partitionerFor(op, topic) && callarg(kgo.Partitioner.ForTopic, k, 1, string) == topic && as(tp, optionalTopicPartitioner).keyTopicPartitioner == callres(kgo.Partitioner.ForTopic, k, 0, kgo.TopicPartitioner)
}
func optionalTopicPartitioner.RequiresConsistency(otp, r) (b) {
  ensures b
}
func optionalTopicPartitioner.Partition(otp, r, n) (i) {
  requires r != nil && manualTP(otp.manualTopicPartitioner) && otp.manualTopicPartitioner != nil && otp.keyTopicPartitioner != nil
  modifies log kgo.TopicPartitioner.Partition
  let c = ncalls(kgo.TopicPartitioner.Partition)
  ensures explicit: r.Partition != AutoAssign ==> i == r.Partition
  ensures byKey: r.Partition == AutoAssign ==> (exists k int :: c <= k && k < ncalls(kgo.TopicPartitioner.Partition) && callarg(kgo.TopicPartitioner.Partition, k, 0, kgo.TopicPartitioner) == otp.keyTopicPartitioner && callarg(kgo.TopicPartitioner.Partition, k, 1, *kgo.Record) == r && callarg(kgo.TopicPartitioner.Partition, k, 2, int) == n && i == callres(kgo.TopicPartitioner.Partition, k, 0, int))
}

// ---- what an event emits ----
define PR streams.EventContextProducer.ProduceRecord
define CTX (callarg($PR, n+i, 0, "EventContextProducer[T]") == ec.producer && callarg($PR, n+i, 1, "*EventContext[T]") == ec)

func EventContext.Forward(ec, records) {
  requires ec.producer != nil && arr(records) != nil
  requires distinct: forall i int, j int {records[i], records[j]} :: (0 <= i && i < j && j < len(records)) ==> records[i] != records[j]
  modifies log $PR, ghost prTopic, ghost prPart, $ANYREC
  let n = ncalls($PR)
  ensures count: ncalls($PR) == n + len(records)
  ensures each: forall i int :: (0 <= i && i < len(records)) ==> ($CTX && callarg($PR, n+i, 2, *Record) == old(records[i]) && prTopic[n+i] == old(records[i].kRecord.Topic) && prPart[n+i] == old(records[i].kRecord.Partition))
  loop 0 {
    invariant ncalls($PR) == n + nvisited()
    invariant forall i int {records[i]} :: (nvisited() <= i && i < len(records)) ==> (records[i].kRecord.Topic == old(records[i].kRecord.Topic) && records[i].kRecord.Partition == old(records[i].kRecord.Partition))
    invariant forall i int :: (0 <= i && i < nvisited()) ==> ($CTX && callarg($PR, n+i, 2, *Record) == old(records[i]) && prTopic[n+i] == old(records[i].kRecord.Topic) && prPart[n+i] == old(records[i].kRecord.Partition))
  }
}
// state changes go to the change log at the event's own partition, or nowhere when the source is stateless
func EventContext.RecordChange(ec, entries) {
  requires ec.producer != nil
  modifies log $PR, ghost prTopic, ghost prPart, $ANYREC
  let n = ncalls($PR)
  ensures stateless: len(ec.changeLog.topic) == 0 ==> ncalls($PR) == n
  ensures count: len(ec.changeLog.topic) > 0 ==> ncalls($PR) == n + len(entries)
  ensures each: len(ec.changeLog.topic) > 0 ==> (forall i int :: (0 <= i && i < len(entries)) ==> ($CTX && callarg($PR, n+i, 2, *Record) == old(entries[i].record) && prTopic[n+i] == ec.changeLog.topic && prPart[n+i] == ec.topicPartition.Partition))
  loop 0 {
    invariant ncalls($PR) == n + (if len(ec.changeLog.topic) > 0 then nvisited() else 0)
    invariant len(ec.changeLog.topic) > 0 ==> (forall i int :: (0 <= i && i < nvisited()) ==> ($CTX && callarg($PR, n+i, 2, *Record) == old(entries[i].record) && prTopic[n+i] == ec.changeLog.topic && prPart[n+i] == ec.topicPartition.Partition))
  }
}
