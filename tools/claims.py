CLAIMS={
"C08":"All codec methods and the integer writers/readers are proved for every value and buffer; round trips are proved by client functions over the contracts. Assumed: the model of bytes.Buffer (trusted_base lists it). The fixed-width integer decoder is proved for inputs of at least 8 bytes.",
"C09":"Encode/Decode of the ordered codec proved for all int64; order preservation is a lemma over their contracts.",
"C17":"Set operations, listing and the partition order proved over an assumed model of google/btree (an ordered set for items whose equivalence is identity, which the order lemmas prove for partitions). Partition numbers are assumed non-negative.",
"C25":"Source, topic creation, client and balancer selection functions proved for every configuration over assumed contracts of kgo/kadm (calls logged as ghost events).",
"C26":"All functions of the msk package proved over assumed contracts of the AWS SDK calls (logged as ghost events).",
"C27":"Partitioners, Forward and RecordChange proved for all records; assumed: kgo.ManualPartitioner places a record at its Partition field, the event's producer is an interface whose calls are logged.",
"C10":"All Record, ChangeLogEntry and IncomingRecord methods and the pool's factory and reset functions proved for every record. Assumed: bytes.Buffer model; sak.Noescape returns its argument (unsafe); what the record pool hands out is what its factory or reset produced and nobody uses a record after releasing it (pool.spec proves the pool's side).",
"C28":"Pool operations proved under the lock invariant for every pool, item type and interleaving of lock-protected operations: old() is the state when the lock was acquired. Each access of the free list outside the lock is an obligation. The reset function of the record pool is proved to leave nothing of the previous use.",
"C12":"The built-in store's operations proved for every item type, codec, key and history (the store is an invariant-carrying map); replaying is proved by client functions over the contracts for any codec that reads back what it wrote. Assumed: google/btree as an ordered map for pointer items ordered by key; an item's Key() depends only on the item.",
"C15":"NewShardedTree, For and Len proved for every exponent in 0..60 (larger ones overflow the shard count), hash value and content. Assumed: the hash function depends on the key only, machine integer overflow of the total length does not happen.",
"C06":"Progress records, their reading, markers, waiters and the resume position proved for every topic, partition, offset and interleaving of lock-protected operations; the round trip is proved by a client function over the contracts; the whole progress log is requested from its start. Assumed: records reach the receiver in order and unchanged (kgo), uuid.NewString does not repeat.",
"C11":"All handlers, the handler chain and the deserialization policy proved for every record type, chain and policy; assumed: the decoder and processor functions registered by the application are opaque (calls logged); a chain ends (partial correctness).",
"C01":"All functions on the commit path (commit, flushRemaining, finalizeEventContexts, ProduceRecord, produceKafkaRecord and its completion callback, clearState, relinquishOwnership, the committer loop and the constructors) proved for every number of partitions, events, records and pool size and every outcome of the client operations. Assumed: kgo.Client operations (calls logged as ghost events; completion callbacks run no later than the flush returns), ownership of a transaction passes with the queue it is sent on, other goroutines only add records while a commit waits for events.",
"C02":"The barrier and progress production proved for chains of any length and any mix of events and interjections, over the contracts of the commit path. Assumed: as C01; offsets below the maximal int64.",
"C03":"Acceptance proved for every chain, partition and pool state: chain content as a ghost sequence, the accepted flag, the answer on the event's channel and the revocation count. Assumed: lock discipline and queue ownership as C01; an offered event has not been accepted before.",
"C04":"Ownership, holding back, handing over and flushing of records proved for any number of transactions in rotation, over a ghost rotation and ghost holders of the held-record lists. Assumed: as C01; record lists handed out by the pool are not shared (C28).",
"C05":"Size tests, hand-over, retry and the acceptance loop proved for every size, limit and queue state. Assumed: the record count is not raised by other goroutines between the size test and the hand-over (that could only hand over earlier); counters stay below 2^61.",
"C30":"Source.fail, the default and configured policy, the committer loop and the error paths feeding it proved for every policy function and error sequence. Assumed: an error sent on a full error channel (1024) is dropped; the failure channel has a single reader.",
"C16":"All list and element methods proved for every list, element and value over a ghost sequence of elements and their places. The place of an element that says it is in a list is an invariant of elements: established by insertion, kept by every operation (postcondition members) and assumed of the elements given to an operation. Assumed: at most 2^61 elements; the other list given to PushBackList and PushFrontList is not nil.",
"C13":"state_store_consumer.go: waiters, markers, replay of a batch, preparation, construction and shutdown under contract; store and client calls logged",
"C29":"stores and workers under contract: assign, revoke, prepare, forget, assign and revoke partitions; a partition is only prepared for a member which does not own it (assumed of the balancer)",
"C07":"Functions: newEventContext, scheduleTxnAndExecution, interleaveInterjection, add, receive, pushRecords, assignProducer, processAsyncJob, forwardToEventSource, handleEvent, handleInterjection, work, waitForRevocation. An application completes an event at most once (async jobs only for events not yet completed).",
"C24":"Functions: interject and its two closures, scheduleInterjection, newInterjectionContext, interleaveInterjection, handleInterjection, refuseInterjections, timerDuration, tick, init, cancel, work. Time itself is assumed: time.AfterFunc calls its function after the duration it is given.",
"C23":"Functions: AsyncJobComplete, recordComplete, cleanup, executeCallback, produceRecord and its closure, produceBatch, BatchProducer.Produce, Producer.Produce and ProduceAsync with their closures; the counting argument is a client over recordComplete. Assumed: the kafka client calls every promise once; records of a batch are distinct and a callback does not recycle them itself.",
"C22":"Proved for every operation of the job queue (content and order, peek, done, the blocked writer counted) under its lock, for the worker table under the scheduler lock (one worker for each active key, the limit, release only when done), for changing the limit (pending workers move in order to the larger channel) and for Schedule, the processing step and the worker loop. Sends by other goroutines are read as coming before or after a critical section; the pool hands out only released or new workers; counters below 2^31.",
"C20":"Proved for every operation of the member, under its lock, whatever the state it finds: never both preparing and ready, each newly instructed partition prepared once, rebalances requested exactly when due, departure signalled once and only with nothing assigned, and the reported state. Assumed: the decoding of the assignment (json, kmsg), partition numbers not negative.",
"C18":"Proved for every group state: distributing the unowned partitions, delivering prepared moves, balancing (every planned partition held by exactly one member, members unchanged, new places only with active members), the reading of the members (newGroupState, initReceivership, initAssignments with the rule for partitions claimed twice), and the plan built from it by balanceTopic and addMemberToPlan. Assumed: member ids are distinct, json decoding, member trees stay in order while their members change, kgo adds the partitions of a plan as given.",
"C19":"Proved for every group state and budget: partitions on the move are not movable, what is left of the budget, the number of moves scheduled, departing members first and in order, the balance test of every other move, the chosen partition is movable, delivery only to a member which declared the partition ready, and the shipped budget of one. Assumed: member ids are distinct, json decoding, member trees stay in order while their members change, counts do not overflow.",
}
NA={
"C14":"Not reached: the min-max order relates every item to all its descendants by level parity, and the sift loops need inductive facts about ancestor chains which the solvers do not find without a lemma library that was not finished. Two defects of the heap found by reading were repaired.",
"C21":"Not reached: the batcher hands its executor state between goroutines over several locks and channels; contracts for that hand-over were not finished.",
"C31":"Deadlock freedom and liveness quantify over the schedules of many goroutines; a sequential contract verifier proves per-function safety only. The per-function parts are claimed elsewhere.",
"C32":"End-to-end exactly-once over crashes and broker fail-overs depends on the Kafka broker's transaction protocol, which is outside the code; no contract on functions of this repository can express it. Its per-function ingredients are claimed as C01-C07.",
"C33":"Data-race freedom needs a permission or happens-before logic over all goroutines; the verifier used here assumes lock and ownership discipline rather than proving it.",
}
