package streams

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

func c02Pool(b *vBroker) *eosProducerPool[vStore] {
	return vPool(b, 2, EosConfig{PendingTxnCount: 1, TargetBatchSize: 100, MaxBatchSize: 1000, BatchDelay: time.Second}, nil)
}

// random transactions: what progress reaches the broker
func TestVerifC02_Progress(t *testing.T) {
	rnd := rand.New(rand.NewSource(3))
	for round := 0; round < 25; round++ {
		b := newVBroker(t)
		pp := c02Pool(b)
		p := pp.onDeck
		var hist []string
		want := map[int32]int64{}
		n := 1 + rnd.Intn(12)
		parts := 1 + rnd.Intn(6)
		wgs := map[int32]*sync.WaitGroup{}
		next := map[int32]int64{}
		for i := 0; i < n; i++ {
			tp := int32(rnd.Intn(parts))
			if wgs[tp] == nil {
				wgs[tp] = &sync.WaitGroup{}
				next[tp] = int64(rnd.Intn(3))
			}
			off := int64(-1)
			if rnd.Intn(3) > 0 {
				off = next[tp]
				next[tp] += 1 + int64(rnd.Intn(3))
				want[tp] = off + 1
			}
			wgs[tp].Add(1)
			e := vEvent(context.Background(), tp, off, wgs[tp])
			hist = append(hist, fmt.Sprintf("%d@%d", tp, off))
			p.addEventContext(e)
			pp.partitionOwners.conditionallyUpdate(tp, p)
			if rnd.Intn(2) == 0 {
				p.ProduceRecord(e, vRecord("out", tp, "k"), nil)
			}
			close(e.done)
		}
		res := make(chan error, 1)
		go func() { res <- p.commit() }()
		select {
		case err := <-res:
			if err != nil {
				t.Fatalf("FAILING-INPUT: events (partition@offset, -1: interjection) %v, all complete: commit returns %v", hist, err)
			}
		case <-time.After(8 * time.Second):
			t.Fatalf("FAILING-INPUT: events %v, all complete: commit does not return", hist)
		}
		cl := vCommitLog()
		got := map[int32]int{}
		ended := false
		for _, e := range b.log() {
			if e.Kind == "end" {
				ended = true
				continue
			}
			if e.Topic != "progress" {
				continue
			}
			if ended {
				t.Fatalf("FAILING-INPUT: events %v: progress reached the broker after the end of its transaction", hist)
			}
			tp := topicPartitionFromBytes([]byte(e.Key))
			got[tp.Partition]++
			if tp.Topic != "topic" || e.Partition != tp.Partition%5 {
				t.Fatalf("FAILING-INPUT: events %v: progress of %v went to partition %d of the progress topic", hist, tp, e.Partition)
			}
			cl.ReceiveChange(newIncomingRecord(&kgo.Record{Key: []byte(e.Key), Value: e.Value}))
		}
		for tp := int32(0); tp < int32(parts); tp++ {
			w, ok := want[tp]
			if !ok {
				w = -1
			}
			k := 0
			if ok {
				k = 1
			}
			if m := cl.Watermark(TopicPartition{Topic: "topic", Partition: tp}); m != w || got[tp] != k {
				t.Fatalf("FAILING-INPUT: events (partition@offset, -1: interjection) %v: partition %d has %d progress records, resume position %d, want %d", hist, tp, got[tp], m, w)
			}
		}
		vClose(pp)
	}
}

// each event in turn is the one that is not complete
func TestVerifC02_Barrier(t *testing.T) {
	offs := []int64{4, -1, 5, -1}
	for late := range offs {
		b := newVBroker(t)
		pp := c02Pool(b)
		p := pp.onDeck
		wg := &sync.WaitGroup{}
		var es []*EventContext[vStore]
		for _, o := range offs {
			wg.Add(1)
			e := vEvent(context.Background(), 1, o, wg)
			es = append(es, e)
			p.addEventContext(e)
			pp.partitionOwners.conditionallyUpdate(1, p)
		}
		p.ProduceRecord(es[0], vRecord("out", 1, "k"), nil)
		for i, e := range es {
			if i != late {
				close(e.done)
			}
		}
		res := make(chan error, 1)
		go func() { res <- p.commit() }()
		time.Sleep(150 * time.Millisecond)
		if len(b.ends()) > 0 || len(p.currentPartitions) == 0 {
			t.Fatalf("FAILING-INPUT: events at offsets %v (-1: interjection), all complete but number %d: the transaction was ended", offs, late)
		}
		close(es[late].done)
		select {
		case <-res:
		case <-time.After(8 * time.Second):
			t.Fatalf("FAILING-INPUT: events at offsets %v, number %d completed last: commit does not return", offs, late)
		}
		if !vZero(wg) {
			t.Fatalf("FAILING-INPUT: events at offsets %v, number %d completed last: revocation count not zero after the commit", offs, late)
		}
		vClose(pp)
	}
}
