package streams

// ---- dependencies whose results the properties do not depend on (assumed) ----
iface streams.Logger.Tracef(l, fmt, args) { opt nolog }
iface streams.Logger.Debugf(l, fmt, args) { opt nolog }
iface streams.Logger.Infof(l, fmt, args) { opt nolog }
iface streams.Logger.Warnf(l, fmt, args) { opt nolog }
iface streams.Logger.Errorf(l, fmt, args) { opt nolog }

// ---- kgo client construction (assumed) ----
iface streams.Cluster.Config(c) (opts, err) {}
extern kgo.NewClient(opts) (c, err) {
  opt log
  ensures err == nil ==> c != nil
}
extern kgo.WithLogger(l) (o) { ensures o != nil }
extern kgo.ProducerBatchCompression(c) (o) { ensures o != nil }
extern kgo.NoCompression() (c) {}
extern kgo.FetchIsolationLevel(l) (o) {
  opt log
  ensures o != nil
}
extern kgo.ReadCommitted() (l) { opt log }
extern kgo.ProducerLinger(d) (o) { ensures o != nil }
extern kgo.RecordPartitioner(p) (o) {
  opt log
  ensures o != nil
}
extern kgo.StickyKeyPartitioner(h) (p) {
  opt log
  ensures p != nil
}
extern kgo.RequestRetries(n) (o) { ensures o != nil }
extern kgo.RetryTimeout(d) (o) { ensures o != nil }
extern kgo.Client.Close(c) { opt log }


// kgo.ManualPartitioner places every record where its Partition field says
pure manualP(p kgo.Partitioner) bool
pure manualTP(p kgo.TopicPartitioner) bool
extern kgo.ManualPartitioner() (p) {
  ensures p != nil && manualP(p)
}
iface kgo.Partitioner.ForTopic(p, topic) (tp) {
  ensures tp != nil
  ensures manualP(p) ==> manualTP(tp)
}
iface kgo.TopicPartitioner.Partition(tp, r, n) (i) {
  ensures manualTP(tp) ==> i == r.Partition
}
extern time.Sleep(d) {}

define NEWCLIENT log kgo.Client.Close, log streams.Cluster.Config, log kgo.NewClient, log kgo.FetchIsolationLevel, log kgo.ReadCommitted, log kgo.RecordPartitioner, log kgo.StickyKeyPartitioner
// topic and partition each record had when it was handed to the event's producer
ghostvar prTopic [int => string] along streams.EventContextProducer.ProduceRecord
ghostvar prPart [int => int32] along streams.EventContextProducer.ProduceRecord
iface streams.EventContextProducer.ProduceRecord(p, ec, r, cb) {
  modifies object(r), ghost prTopic, ghost prPart
  ensures prTopic == old(prTopic)[ncalls(streams.EventContextProducer.ProduceRecord) - 1 := old(r.kRecord.Topic)]
  ensures prPart == old(prPart)[ncalls(streams.EventContextProducer.ProduceRecord) - 1 := old(r.kRecord.Partition)]
}
define ANYKREC any kgo.Record.Context, any kgo.Record.Key, any kgo.Record.Value, any kgo.Record.Headers, any kgo.Record.Timestamp, any kgo.Record.Topic, any kgo.Record.Partition, any kgo.Record.Attrs, any kgo.Record.ProducerEpoch, any kgo.Record.ProducerID, any kgo.Record.LeaderEpoch, any kgo.Record.Offset
define ANYREC $ANYKREC, any Record.err, any Record.keyBuffer, any Record.valueBuffer, any Record.recordType
