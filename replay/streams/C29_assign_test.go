package streams

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/twmb/franz-go/pkg/kgo"
)

type c29Store struct {
	id      int
	revoked *int
}

func (s c29Store) ReceiveChange(IncomingRecord) error { return nil }
func (s c29Store) Revoked()                           { *s.revoked++ }

func TestVerifC29_Stores(t *testing.T) {
	rnd := rand.New(rand.NewSource(3))
	for round := 0; round < 300; round++ {
		var hist []string
		made := 0
		ps := newPartitionedChangeLog(func(tp TopicPartition) c29Store {
			made++
			if tp.Topic != "log" {
				t.Fatalf("FAILING-INPUT: the store of partition %d is made for topic %q", tp.Partition, tp.Topic)
			}
			return c29Store{made*100 + int(tp.Partition), new(int)}
		}, "log")
		model := map[int32]c29Store{}
		for i := 0; i < 15; i++ {
			p := int32(rnd.Intn(4))
			fail := func(f string, a ...any) {
				t.Fatalf("FAILING-INPUT: %v: %s", hist, fmt.Sprintf(f, a...))
			}
			if rnd.Intn(2) == 0 {
				hist = append(hist, fmt.Sprintf("assign %d", p))
				was := made
				sp := ps.assign(p)
				if m, ok := model[p]; ok {
					if m != sp.store || made != was {
						fail("another store is given out")
					}
				} else {
					if made != was+1 || sp.store.id != made*100+int(p) || sp.topic != "log" {
						fail("no store of its own is made")
					}
					model[p] = sp.store
				}
			} else {
				hist = append(hist, fmt.Sprintf("revoke %d", p))
				ps.revoke(p)
				if m, ok := model[p]; ok {
					if *m.revoked != 1 {
						fail("the store is told %d times", *m.revoked)
					}
					delete(model, p)
				}
			}
			if ps.Len() != len(model) {
				fail("%d stores are held, want %d", ps.Len(), len(model))
			}
			for q, m := range model {
				if *m.revoked != 0 {
					fail("the store of %d is told of a revocation", q)
				}
				if sp := ps.assign(q); sp.store != m {
					fail("the store of %d is another one", q)
				}
			}
		}
	}
}

func TestVerifC29_Workers(t *testing.T) {
	client, err := kgo.NewClient()
	if err != nil {
		t.Skip(err)
	}
	defer client.Close()
	rnd := rand.New(rand.NewSource(4))
	for round := 0; round < 60; round++ {
		var hist []string
		told := map[string][]int32{}
		note := func(what string) SourcePartitionEventHandler {
			return func(s *Source, p int32) { told[what] = append(told[what], p) }
		}
		source := newSource(EventSourceConfig{GroupId: "g", Topic: "topic", NumPartitions: 5, EosConfig: DefaultEosConfig,
			OnPartitionAssigned: note("assigned"), OnPartitionWillRevoke: note("will"), OnPartitionRevoked: note("revoked")})
		cl := &eosCommitLog{watermarks: map[int32]int64{}, pendingSyncs: map[string]*sync.WaitGroup{}, topic: "progress", numPartitions: 5}
		cl.changeLog.client = client
		es := &EventSource[c29Store]{source: source, runStatus: sak.NewRunStatus(context.Background())}
		made := 0
		ssc := &stateStoreConsumer[c29Store]{partitions: map[int32]*stateStorePartition[c29Store]{}, source: source, client: client}
		for p := int32(0); p < 5; p++ {
			ssc.partitions[p] = &stateStorePartition[c29Store]{client: client, waiters: map[string]chan struct{}{}, topicPartition: ntp(p, "log"), highWatermark: -1}
		}
		sc := &eventSourceConsumer[c29Store]{
			client: client, source: source, eventSource: es, commitLog: cl, ctx: context.Background(),
			workers: map[int32]*partitionWorker[c29Store]{}, prepping: map[int32]*stateStorePartition[c29Store]{}, stateStoreConsumer: ssc,
			partitionedStore: newPartitionedChangeLog(func(tp TopicPartition) c29Store { made++; return c29Store{made, new(int)} }, "log"),
			producerPool:     &eosProducerPool[c29Store]{cfg: DefaultEosConfig},
		}
		es.consumer = sc
		workers := map[int32]*partitionWorker[c29Store]{}
		stores := map[int32]c29Store{}
		prepping := map[int32]bool{}
		for i := 0; i < 12; i++ {
			fail := func(f string, a ...any) {
				es.runStatus.Halt()
				t.Fatalf("FAILING-INPUT: %v: %s", hist, fmt.Sprintf(f, a...))
			}
			var ps []int32
			for p := int32(0); p < 5; p++ {
				if rnd.Intn(3) == 0 {
					ps = append(ps, p)
				}
			}
			told = map[string][]int32{}
			switch op := rnd.Intn(4); op {
			case 0, 1:
				if op == 1 && len(ps) > 0 {
					ps = append(ps, ps[0])
				}
				hist = append(hist, fmt.Sprintf("assign %v", ps))
				states := map[int32]*stateStorePartition[c29Store]{}
				wasPrep := map[int32]bool{}
				buffers := map[int32]chan []*kgo.Record{}
				for _, p := range ps {
					states[p], wasPrep[p], buffers[p] = ssc.partitions[p], prepping[p], ssc.partitions[p].buffer
				}
				sc.assignPartitions("topic", ps)
				if len(told["assigned"]) != len(ps) {
					fail("observers are told of %v", told["assigned"])
				}
				for _, p := range ps {
					w := sc.workers[p]
					if w == nil {
						fail("partition %d has no worker", p)
					}
					if old, ok := workers[p]; ok && old != w {
						fail("partition %d has a second worker", p)
					}
					if _, ok := sc.prepping[p]; ok {
						fail("partition %d is still being prepared", p)
					}
					if wasPrep[p] && states[p].buffer != buffers[p] {
						fail("the prepared state of partition %d is prepared again", p)
					}
					if w.topicPartition != (TopicPartition{Partition: p, Topic: "topic"}) {
						fail("the worker of partition %d works on %v", p, w.topicPartition)
					}
					if s, ok := stores[p]; ok && w.changeLog.store != s {
						fail("partition %d is assigned with another store than the one held for it", p)
					}
					stores[p] = w.changeLog.store
					workers[p] = w
					delete(prepping, p)
				}
			case 2:
				hist = append(hist, fmt.Sprintf("revoke %v", ps))
				sc.revokePartitions("topic", ps)
				for _, p := range ps {
					if prepping[p] {
						// a store which is being prepared goes with its partition: preparation starts again
						sc.ForgetPreparedTopicPartition(ntp(p, "topic"))
						delete(prepping, p)
					}
					if w := workers[p]; w != nil && w.runStatus.Running() {
						fail("the worker of partition %d goes on", p)
					}
					if s, ok := stores[p]; ok && *s.revoked != 1 {
						fail("the store of partition %d is told %d times", p, *s.revoked)
					}
					if sc.workers[p] != nil {
						fail("partition %d keeps a worker", p)
					}
					delete(workers, p)
					delete(stores, p)
				}
				if len(told["will"]) != len(ps) || len(told["revoked"]) != len(ps) {
					fail("observers are told of %v and %v", told["will"], told["revoked"])
				}
			case 3:
				for _, p := range ps {
					if workers[p] != nil {
						continue
					}
					if prepping[p] && rnd.Intn(2) == 0 {
						hist = append(hist, fmt.Sprintf("forget %d", p))
						sc.ForgetPreparedTopicPartition(ntp(p, "topic"))
						delete(prepping, p)
						if sc.prepping[p] != nil {
							fail("partition %d is still being prepared", p)
						}
						continue
					}
					hist = append(hist, fmt.Sprintf("prepare %d", p))
					was := ssc.partitions[p].buffer
					sc.PrepareTopicPartition(ntp(p, "topic"))
					if prepping[p] && ssc.partitions[p].buffer != was {
						fail("partition %d is prepared twice", p)
					}
					if sc.prepping[p] != ssc.partitions[p] {
						fail("partition %d is not being prepared", p)
					}
					prepping[p] = true
					stores[p] = sc.partitionedStore.assign(p).store
				}
			}
			if len(sc.workers) != len(workers) || len(sc.prepping) != len(prepping) {
				fail("%d workers and %d preparations, want %d and %d", len(sc.workers), len(sc.prepping), len(workers), len(prepping))
			}
			for p, w := range workers {
				if sc.workers[p] != w || !w.runStatus.Running() {
					fail("the worker of partition %d is gone", p)
				}
			}
			for p, s := range stores {
				if *s.revoked != 0 {
					fail("the store of partition %d is told of a revocation", p)
				}
			}
		}
		es.runStatus.Halt()
	}
}
