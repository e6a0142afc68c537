import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="streams/"
p("C01","A transaction commits only after its events are complete and flushed",
 "A transaction is ended with a commit only when every event accepted into it has been completed by the application and every record produced in it has been flushed to the broker without error, or the configured error policy has answered continue for the record that could not be produced. If an event does not complete before the transaction deadline, or the flush fails, the transaction is not ended as committed and the failure is reported; a transaction in which nothing was produced is aborted instead of committed. Only after the broker has accepted the end of the transaction are its per-partition ownership, its counters and its in-flight bookkeeping released.",
 ["schedules","fault_sequences","histories"],"All interleavings of event completion with commit, all partitions/events held by a transaction (any number), and every outcome of the flush, commit and timeout operations.",
 "The integration tests need a live Kafka broker and exercise a handful of happy-path transactions; no unit test reaches the commit path, its failure branches or a timeout.",
 [S+"eos_producer.go"],[("commit protocol","streams/eos_producer.go: producerNode.commit"),("event barrier","streams/eos_producer.go: producerNode.finalizeEventContexts"),("post-commit release","streams/eos_producer.go: producerNode.clearState"),("commit loop error routing","streams/eos_producer.go: eosProducerPool.commit, commitLoop")],
 ["calls made to the Kafka client: flush, end of transaction"],[("open transaction","events chained per partition, records pending","producerNode.currentPartitions, recordsToProduce, produceCnt")])
p("C02","Committed progress is the highest completed offset plus one, per partition",
 "For every source partition with at least one real (non-interjection) event in a transaction, exactly one progress record is produced in that same transaction, naming that partition and carrying the offset after the highest event offset of that partition in the transaction. A partition whose transaction holds only interjections produces no progress record. Every event of the partition is waited for before the transaction is considered finalized.",
 ["histories","inputs"],"All sequences of events and interjections accepted for a partition in a transaction, all offsets.",
 "Unit tests never build a transaction; the integration test checks end totals only, so an off-by-one or a wrong event chosen for the commit offset shows only after a crash or rebalance.",
 [S+"eos_producer.go",S+"commit_log.go",S+"event_context.go"],[("reverse walk over the per-partition chain","streams/eos_producer.go: finalizeEventContexts"),("progress record","streams/commit_log.go: eosCommitLog.commitRecord"),("interjection offset","streams/event_context.go: EventContext.Offset")],
 ["records produced to the commit log topic"])
p("C03","Every event enters exactly one transaction, in arrival order",
 "An event handed to the transactional producer is either refused because its partition has been revoked, in which case it is told so and belongs to no transaction, or is placed at the end of exactly one open transaction's chain for its partition and told which one. Within a transaction the chain of a partition lists its events in arrival order with no event lost or repeated, and the partition's revocation count accounts for each accepted event and for each open transaction of the partition exactly once.",
 ["histories","inputs"],"All sequences of events over any number of partitions, any interleaving of revocation with acceptance.",
 "No unit test covers acceptance; ordering and accounting errors appear only with several partitions, several transactions and a rebalance.",
 [S+"eos_producer.go",S+"event_context.go"],[("acceptance","streams/eos_producer.go: doForwardExecutionContexts"),("chain append","streams/eos_producer.go: producerNode.addEventContext")],
 ["which producer each event receives","the per-partition chain of a transaction"])
p("C04","A partition's output is produced once, in order, under one transaction at a time",
 "While several transactions hold events of the same partition, only the one that owns the partition sends that partition's output; the others hold their records back. When ownership passes on, the next transaction in rotation that holds the partition sends the held records of exactly that partition, in the order they were forwarded, and keeps the others; if none holds it the ownership is released. No forwarded record is dropped, duplicated or sent by a transaction other than the one its event belongs to.",
 ["histories","schedules","inputs"],"All sequences of forwarded records, any number of transactions in rotation and of partitions, every point at which ownership passes.",
 "Tests do not create competing transactions; misordering needs at least two overlapping transactions on one partition.",
 [S+"eos_producer.go"],[("ownership table","streams/eos_producer.go: partitionOwners"),("hold back or send","streams/eos_producer.go: ProduceRecord"),("hand-over","streams/eos_producer.go: relinquishOwnership, flushPartition, flushRemaining")],
 ["order of records handed to the Kafka client"])
p("C05","Transactions are handed to commit by size and never grow past the maximum",
 "When the number of events or records in the open transaction reaches the configured target, a hand-over to the committer is attempted; when it has reached or passed the configured maximum, the hand-over is forced and acceptance waits for a fresh transaction. An empty transaction is never handed over, and a non-empty one that could not be handed over is retried after the batch delay.",
 ["inputs","configurations","schedules"],"All counts of events and records, all batch limits, any committer backlog.",
 "Unit tests validate only the default configuration; record counts that jump past the maximum need a particular schedule.",
 [S+"eos_producer.go"],[("limits","streams/eos_producer.go: shouldTryFlush, shouldForceFlush"),("hand-over","streams/eos_producer.go: tryFlush, doForwardExecutionContexts")])
p("C06","Progress records round-trip and a partition resumes where it left off",
 "A progress record for a partition and offset, read back, restores that partition's resume position as the offset after the one committed, whatever the topic name, partition and offset; the last one received wins and other partitions are unaffected. Progress for a partition always goes to the same, valid partition of the progress log, and an unknown partition has no resume position. Synchronisation markers never alter a position and release exactly the waiter they were issued for.",
 ["inputs","histories"],"All topic names, partitions, offsets and sequences of received progress records and markers.",
 "Tests encode one or two sample values; resume positions are only observed through a live broker.",
 [S+"commit_log.go",S+"source_consumer.go"],[("record encoding","streams/commit_log.go: commitRecord, writeTopicPartitionToBytes, writeSignedIntToByteArray"),("record decoding","streams/commit_log.go: ReceiveChange, topicPartitionFromBytes"),("resume lookup","streams/commit_log.go: Watermark, lastProcessed; streams/source_consumer.go: adjustOffsetsBeforeAssign")])
p("C07","A partition never reprocesses handled input and its in-flight count is exact",
 "Records at or beyond a partition's resume position are each turned into exactly one event, in order, and records before it are skipped; a record skipped, refused or completed gives back exactly the in-flight capacity and revocation count taken for it. After an event is processed the resume position becomes the offset after it. An event whose partition was revoked before acceptance is never given to application code.",
 ["inputs","histories","schedules"],"All batches of fetched records (including gaps, duplicates and nil entries), all offsets, and any point of revocation.",
 "The worker is only exercised by broker-backed tests with consecutive offsets and no revocation under load.",
 [S+"partition_worker.go"],[("stale filter and accounting","streams/partition_worker.go: scheduleTxnAndExecution, scheduleInterjection"),("execution","streams/partition_worker.go: forwardToEventSource, handleInterjection, processAsyncJob")])
p("C08","Supplied codecs decode exactly what they encoded",
 "For every value of the supported type, decoding the bytes written by the integer, string and raw-byte codecs yields the same value, with no error, and nothing but the encoding is appended to the buffer. Decoding input of the wrong length with the ordered-integer codec is an error rather than a wrong value.",
 ["inputs"],"All integers of each width including the extremes, all strings and byte slices (including empty), any existing buffer content.",
 "Tests check single sample values.",
 [S+"codec.go",S+"commit_log.go"],[("codecs","streams/codec.go: intCodec, stringCodec, byteCodec, lexoInt64Codec"),("fixed-width integers","streams/commit_log.go: writeSignedIntToByteArray, readIntegerFromByteArray")])
p("C09","The ordered-integer encoding sorts bytes the way integers sort",
 "For any two 64-bit integers, the unsigned byte-wise comparison of their ordered encodings agrees with the integer comparison, all encodings have the advertised fixed length, and decoding returns the original integer.",
 ["inputs"],"All pairs of int64 values, including zero, negative values and the extremes.",
 "The existing test round-trips a few values and compares none that cross a byte boundary.",
 [S+"codec.go"],[("ordered encoding","streams/codec.go: lexoInt64Codec.Encode, Decode")])
p("C10","A produced record carries exactly what the application set",
 "The record handed to Kafka has the topic, partition, headers, timestamp, key bytes and value bytes the application set, in the order written, an empty value becoming a deletion, plus the record type as one header when a type was set. The public copy of a record carries the same data and leaves the original unchanged, an incoming record reports the type, key, value and headers it arrived with, and a record taken from the pool carries nothing from its previous use.",
 ["inputs","histories"],"All sequences of writes to a record, all header lists, every reuse of a pooled record.",
 "Tests build one or two simple records without headers, re-use or repeated conversion.",
 [S+"record.go",S+"sak/pool.go"],[("conversion","streams/record.go: toKafkaRecord, ToKafkaRecord, addRecordTypeHeader, AsIncomingRecord, newIncomingRecord"),("pool reset","streams/record.go: recordPool; streams/sak/pool.go")])
p("C11","Each event is handled by the handler registered for its type",
 "An incoming event is decoded and processed by the first handler registered for its record type, exactly once, and by the default handler when none matches or the type is absent. If decoding fails the handler is not run and the configured deserialization policy decides: continue completes the event, otherwise it stays incomplete; a missing policy means the documented default.",
 ["inputs","configurations"],"All registration sequences, all record types, all decoder outcomes, all configurations of the error policy.",
 "Tests register one or two types and no failing decoder without a policy.",
 [S+"event_source.go",S+"source.go",S+"error_handling.go"],[("dispatch","streams/event_source.go: handleEvent, eventProcessorWrapper.process, eventProcessorExecutor.Exec, RegisterEventType"),("policy default","streams/source.go: deserializationErrorHandler, eosErrorHandler")])
p("C12","A state store rebuilt from its change log equals the original",
 "Receiving a change-log record with a value stores the decoded item under its key, receiving one with an empty value removes the key, and a value that cannot be decoded is reported and changes nothing. Every put and delete of the built-in store produces a change entry that, replayed, has the same effect, and lookups return exactly the last item put for a key.",
 ["inputs","histories"],"All sequences of put, delete and received changes, all keys and items, any decoder.",
 "The store is tested only through direct puts and gets; no test replays a change log into it.",
 [S+"stores/simple_store.go",S+"record.go"],[("store","streams/stores/simple_store.go: Put, Get, Delete, ReceiveChange, ToChangeLogEntry")])
p("C13","A partition becomes ready only when its whole change log has been applied",
 "While a change log is being replayed every record is applied to the store in order except synchronisation markers, which are never applied. A partition in preparation becomes ready, and the replay of a ready one ends, exactly when the marker one of its own waiters issued for this preparation comes back; any other marker is ignored, and a waiter is released exactly once and only by its own marker. A preparation starts with an empty set of waiters and the whole log.",
 ["histories","inputs"],"All sequences of change-log batches with any number of foreign or own markers at any position.",
 "Only broker-backed tests reach the replay path, with one marker at the end.",
 [S+"state_store_consumer.go",S+"partitioned_store.go"],[("replay loop","streams/state_store_consumer.go: handleRecordsAndContinue, populate"),("marker state machine","streams/state_store_consumer.go: isCompletionMarker, addWaiter, removeWaiterForMark")])
p("C14","The min-max heap always yields the true minimum and maximum",
 "After any sequence of insertions, removals, updates, peeks and pops, the reported minimum is not greater than any held item and the reported maximum is not less than any, popping removes exactly the reported item, and removing or updating an item affects exactly that item. Peeking changes nothing observable.",
 ["histories","inputs"],"All operation sequences over all items and sizes.",
 "Tests push a batch then pop it; they never interleave peeks of the maximum with later modifications.",
 [S+"stores/min_max_heap.go"],[("heap","streams/stores/min_max_heap.go: Push, Pop, PopMax, Min, Max, Remove, Update")])
p("C15","The sharded tree finds every item in the shard its key belongs to",
 "Every operation on a given key uses the same shard, for any number of shards and any hash value, and the shard index is always in range. The total length is the sum over the shards, and iteration helpers visit each shard exactly once.",
 ["inputs","configurations"],"All keys, hash functions and shard counts.",
 "Tests use one shard count and one hash.",
 [S+"stores/sharded_tree.go"],[("sharding","streams/stores/sharded_tree.go")])
p("C16","The linked list keeps its order and count under any edits",
 "Inserting at the front, back or beside an element, and removing any element, changes exactly that position: the other elements keep their order, forward and backward traversals agree, and the count equals the number of elements. An element that is not in the list is left alone.",
 ["histories","inputs"],"All operation sequences on all lists.",
 "Tests cover two or three fixed sequences.",
 [S+"sak/yadll.go"],[("list","streams/sak/yadll.go: List, Node")])
p("C17","Partition sets behave as sets with a consistent order",
 "Insert and remove report whether they changed the set, membership reflects exactly the elements inserted and not removed, and listing returns each member once in order. The orders used for partitions and for group members are strict and total for distinct elements.",
 ["inputs","histories"],"All partitions and topics, all operation sequences, all member states.",
 "Tests use a few sample partitions.",
 [S+"source.go",S+"topics.go",S+"group_state.go"],[("set and ordering","streams: TopicPartitionSet, topicPartitionLess"),("member orders","streams/group_state.go: incrGroupActiveLess, incrGroupInactiveLess")])
p("C18","A rebalance plan gives every partition to exactly one member",
 "After balancing a topic with at least one active member, every partition of the topic that was owned or unowned is assigned to exactly one member, no partition is assigned to two, and previously unowned partitions and prepared moves go only to active members. Partitions claimed by two members are kept by one of them.",
 ["inputs","configurations","histories"],"All group states: any number of members, statuses, owned, preparing and ready partitions.",
 "Tests balance a few hand-made groups; conflicting ownership and departing members are not combined.",
 [S+"group_state.go",S+"incr_rebalancer.go"],[("group state","streams/group_state.go: newGroupState, initAssignments, distributeUnassigned, assignToActiveMember, unassignFromDonor, deliverScheduledPartitionMoves"),("plan","streams/incr_rebalancer.go: balanceTopic, addMemberToPlan")])
p("C19","Partition moves respect the budget and happen only when needed",
 "The number of partitions scheduled to move in one rebalance never exceeds the budget the rebalancer works with (one move at a time) less the moves already in progress, departing members are drained first, and otherwise a move is scheduled only while the group is out of balance and only from a member with more than one movable partition. A partition already moving is not scheduled again and a partition changes owner only after its recipient has declared it ready.",
 ["inputs","configurations"],"All group states and budgets.",
 "Tests check a few small groups with budget one.",
 [S+"group_state.go"],[("scheduling","streams/group_state.go: schedulePartitionMoves, isImbalanced, donatePartition, balance"),("delivery","streams/group_state.go: deliverScheduledPartitionMoves")])
p("C20","A member's declared preparation state follows its instructions",
 "A partition a member is told to prepare is prepared once and reported as preparing until prepared, then as ready until it is assigned, fails or is forgotten; it is never reported as both. A rebalance is requested whenever the member is told to forget partitions and whenever a partition becomes ready, and not by instructions which change nothing. A departing member signals completion exactly once, when nothing is assigned to it any more.",
 ["histories","schedules"],"All sequences of instructions, preparation results, assignments and departure.",
 "Tests do not exercise forgetting, failed preparation or repeated instructions.",
 [S+"incr_rebalancer.go"],[("member state","streams/incr_rebalancer.go: PartitionPrepared, PartitionPreparationFailed, PartitionsAssigned, ParseSyncAssignment, GracefullyLeaveGroup, userData")])
p("C21","The batcher runs each item once, keeps key order and respects its limits",
 "Every item added is handed to the batch executor exactly once, in a batch no larger than the configured maximum, with never more batches running than configured; items of one key are never in two running batches at once and are executed in the order added. An event is completed exactly once, when all its items are done, or, with no items, when its placeholder's turn comes.",
 ["schedules","histories","inputs"],"All sequences and interleavings of additions, timer expiry and batch completion, all keys and limits.",
 "Tests run one workload with a fixed schedule and check totals.",
 [S+"async_batcher.go"],[("assignment and flush","streams/async_batcher.go: add, asyncExecutorFor, addToExecutor, conditionallyExecuteBatch, executeBatch, flushPendingItems, reset"),("completion","streams/async_batcher.go: completeItem")])
p("C22","The job scheduler never loses or reorders work for a key",
 "Jobs queued for one key are delivered in the order queued, each exactly once, and the queue reports itself finished exactly when nothing is left or pending. A key has at most one worker at a time, the number of concurrently active keys never exceeds the limit, and changing the limit at run time never drops queued work.",
 ["schedules","histories","configurations"],"All interleavings of queueing and processing, all queue capacities, all sequences of limit changes.",
 "Tests run a fixed workload and never shrink then grow the limit or fill a queue at the critical moment.",
 [S+"async_item_queue.go",S+"async_scheduler.go"],[("queue","streams/async_item_queue.go"),("worker lifecycle","streams/async_scheduler.go: grabWorker, releaseWorker, scheduleItem, ensureWorkerChannelCapacity")])
p("C23","A batch of produced records completes its event exactly once",
 "An event that produces a batch of records outside the transaction is completed exactly once, after every record of the batch has been acknowledged or failed, with each record carrying its own outcome, whether or not a completion callback was supplied and even when the batch is empty. Records without a topic go to the default destination, and the callback sees the records before they are recycled.",
 ["inputs","schedules"],"All batch sizes including zero, all acknowledgement orders and outcomes, with and without a callback.",
 "The producer is only tested against a live broker with a callback and a non-empty batch.",
 [S+"producer.go"],[("batch","streams/producer.go: BatchProducer.Produce, produceBatch, produceRecord, recordComplete, executeCallback")])
p("C24","Every requested interjection is answered and scheduled ones stay on schedule",
 "A one-off interjection into a partition is either executed once in that partition's event order and answered, or answered with an error when the partition is not assigned, not ready or revoked before it runs. A recurring interjection waits its period, offset by no more than the jitter in either direction, and is never fired again after cancellation.",
 ["schedules","inputs","configurations"],"All partitions, all moments of revocation, all periods and jitters.",
 "Tests interject only into healthy partitions.",
 [S+"interjection.go",S+"source_consumer.go",S+"partition_worker.go"],[("one-off","streams/source_consumer.go: interject"),("schedule","streams/interjection.go: timerDuration, tick, cancel"),("refusal","streams/partition_worker.go: scheduleInterjection, handleInterjection")])
p("C25","Configuration defaults and limits are applied as documented",
 "An unset option takes its documented default and a set one is used unchanged: topic names, partition counts, replication and in-sync replica counts, commit settings, state cluster and error policies. A batching configuration is accepted only if it can make progress: pool, pending and batch sizes positive and mutually consistent.",
 ["configurations"],"All combinations of set and unset options and all numeric values.",
 "Tests cover one default configuration.",
 [S+"source.go",S+"eos_config.go",S+"topics.go",S+"balancer_options.go"],[("defaults","streams/source.go, streams/topics.go"),("validation","streams/eos_config.go: EosConfig.validate, IsZero")])
p("C26","The MSK cluster connects with the endpoint and credentials configured",
 "For each way of authenticating, the broker list requested from MSK is the one that supports it, the credentials presented are those the credential provider returned, and an error from the provider or from MSK is returned rather than replaced by empty credentials or an empty broker list.",
 ["configurations","fault_sequences"],"All authentication modes and all provider and service outcomes.",
 "No test talks to MSK.",
 ["msk/cluster.go"],[("configuration","msk/cluster.go")])
p("C27","Explicitly partitioned records go where they were told, others by key",
 "A record with an explicit partition is produced to exactly that partition; any other record is placed by the partitioner configured for its topic, or by the default one when none is configured. State changes recorded for an event always go to the change log at the event's own partition, and are refused when the source is stateless.",
 ["inputs","configurations"],"All records, topics, partition numbers and partitioner tables; all sequences of recorded changes.",
 "Tests check one topic and one partitioner.",
 [S+"record.go",S+"event_context.go"],[("partitioner","streams/record.go: OptionalPartitioner"),("change routing","streams/event_context.go: RecordChange, Forward")])
p("C28","Pooled objects are handed out clean and never shared",
 "An object taken from a pool is either new or one previously returned and reset, it is never handed out twice without being returned in between, the pool never holds more than its capacity, and returning or borrowing never blocks.",
 ["histories","schedules"],"All sequences of borrow and return on pools of every capacity.",
 "Tests borrow and return a couple of objects.",
 [S+"sak/pool.go",S+"eos_producer.go",S+"record.go"],[("pool","streams/sak/pool.go: Pool.Borrow, Release")])
p("C29","Each assigned partition has exactly one store and one worker",
 "Assigning a partition yields the store already held for it or creates exactly one; revoking it removes it and tells that store exactly once, and leaves the other partitions alone. An assigned partition ends up with exactly one running worker, a prepared one reusing its prepared state, and a revoked one with none.",
 ["histories","inputs"],"All sequences of assignment, preparation and revocation over any set of partitions.",
 "Only broker-backed tests reach assignment, one partition set at a time.",
 [S+"partitioned_store.go",S+"source_consumer.go"],[("stores","streams/partitioned_store.go: assign, revoke"),("workers","streams/source_consumer.go: assignPartitions, revokePartitions, PrepareTopicPartition, ForgetPreparedTopicPartition")])
p("C30","Errors reach the configured policy and a failure is final and reported once",
 "Every transaction error is passed to the configured error policy, or to the documented default, and unless it answers continue the source is failed: its state becomes unhealthy, the first error is reported, and it does not become healthy again. A committer whose policy is to fail stops committing.",
 ["fault_sequences","configurations"],"All sequences of errors and policy answers.",
 "Tests never make a transaction fail.",
 [S+"source.go",S+"eos_producer.go",S+"error_handling.go"],[("failure","streams/source.go: fail, State"),("routing","streams/eos_producer.go: commitLoop")])
p("C31","The consumer never deadlocks and every accepted event eventually completes",
 "Whatever the interleaving of event processing, commits, rebalances and shutdown, no set of the system's goroutines waits for each other forever, and every accepted event whose handler completes is eventually committed or its failure reported.",
 ["schedules"],"All schedules of all goroutines.",
 "Tests run one schedule each.",
 [S+"eos_producer.go",S+"partition_worker.go",S+"async_scheduler.go"],[("bounded channels and locks","streams/eos_producer.go, streams/partition_worker.go")])
p("C32","Output is exactly-once across crashes and rebalances",
 "Across any sequence of process crashes, rebalances and broker fail-overs, a read-committed consumer of the outputs sees the effects of each input event exactly once.",
 ["crash_points","fault_sequences","histories"],"All crash points and broker behaviours.",
 "Tests cannot crash the process at chosen points against a real broker.",
 [S+"eos_producer.go",S+"commit_log.go",S+"state_store_consumer.go"],[("transactional produce of output and progress","streams/eos_producer.go")])
p("C33","Shared state is free of data races",
 "No two goroutines access the same memory without synchronisation when at least one writes.",
 ["schedules"],"All schedules.",
 "The race detector sees only the schedules tests run.",
 [S+"eos_producer.go",S+"partition_worker.go",S+"incr_rebalancer.go"],[("locks and channels","streams/")])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
