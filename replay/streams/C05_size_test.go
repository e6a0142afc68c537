package streams

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"
)

// random sizes, limits and committer speeds
func TestVerifC05_Sizes(t *testing.T) {
	rnd := rand.New(rand.NewSource(6))
	b := newVBroker(t)
	for round := 0; round < 150; round++ {
		target := 1 + rnd.Intn(5)
		max := target + rnd.Intn(4)
		pool := 2 + rnd.Intn(2)
		cfg := EosConfig{PendingTxnCount: 1, TargetBatchSize: target, MaxBatchSize: max, BatchDelay: 20 * time.Millisecond}
		pp := vPool(b, pool, cfg, nil)
		desc := fmt.Sprintf("target %d, maximum %d, %d transactions", target, max, pool)
		for i := 0; i < 3*max+4; i++ {
			n := pp.onDeck
			wg := &sync.WaitGroup{}
			wg.Add(1)
			e := vEvent(context.Background(), 1, int64(i), wg)
			records := int64(rnd.Intn(3))
			n.produceCnt += records
			before := n.eventContextCnt + 1
			size := before
			if n.produceCnt > size {
				size = n.produceCnt
			}
			full := len(pp.commitQueue) == cap(pp.commitQueue)
			done := make(chan struct{})
			go func() { pp.doForwardExecutionContexts(e); close(done) }()
			wait := 2 * time.Second
			mustBlock := full && size >= int64(max)
			if mustBlock {
				wait = 5 * time.Millisecond
			}
			blocked := false
			select {
			case <-done:
			case <-time.After(wait):
				blocked = true
			}
			if blocked != mustBlock {
				t.Fatalf("FAILING-INPUT: %s: transaction of %d events and %d records, committer full: %v: acceptance waits: %v", desc, before, n.produceCnt, full, blocked)
			}
			if mustBlock {
				// the committer takes one and gives it back
				q := <-pp.commitQueue
				q.eventContextCnt, q.produceCnt, q.currentPartitions = 0, 0, map[int32]eventContextDll[vStore]{}
				pp.producerNodeQueue <- q
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					t.Fatalf("FAILING-INPUT: %s: transaction of %d events and %d records, the committer is free again: still waiting", desc, before, n.produceCnt)
				}
			}
			handed := pp.onDeck != n
			want := size >= int64(target) && (!full || size >= int64(max))
			if handed != want {
				t.Fatalf("FAILING-INPUT: %s: transaction of %d events and %d records, committer full: %v: handed over: %v", desc, before, n.produceCnt, full, handed)
			}
			if !handed && n.eventContextCnt >= int64(max) {
				t.Fatalf("FAILING-INPUT: %s: the open transaction has %d events", desc, n.eventContextCnt)
			}
			if pp.onDeck.eventContextCnt != 0 && handed {
				t.Fatalf("FAILING-INPUT: %s: the transaction taken after a hand-over has %d events", desc, pp.onDeck.eventContextCnt)
			}
			// the committer takes what is queued, sometimes
			if rnd.Intn(3) == 0 || len(pp.producerNodeQueue) == 0 {
				select {
				case q := <-pp.commitQueue:
					if q.eventContextCnt == 0 {
						t.Fatalf("FAILING-INPUT: %s: an empty transaction was handed over", desc)
					}
					q.eventContextCnt, q.produceCnt, q.currentPartitions = 0, 0, map[int32]eventContextDll[vStore]{}
					pp.producerNodeQueue <- q
				default:
				}
			}
		}
		vClose(pp)
	}
}

// an empty transaction is not handed over, a non-empty one that could not be is retried after the batch delay
func TestVerifC05_Retry(t *testing.T) {
	b := newVBroker(t)
	cfg := EosConfig{PendingTxnCount: 1, TargetBatchSize: 2, MaxBatchSize: 10, BatchDelay: 20 * time.Millisecond}
	pp := vPool(b, 3, cfg, nil)
	defer vClose(pp)
	n := pp.onDeck
	pp.tryFlush()
	if pp.onDeck != n || len(pp.commitQueue) != 0 {
		t.Fatalf("FAILING-INPUT: an empty transaction was handed over")
	}
	wg := &sync.WaitGroup{}
	add := func(off int64) {
		wg.Add(1)
		pp.doForwardExecutionContexts(vEvent(context.Background(), 1, off, wg))
	}
	due := func(why string) {
		select {
		case <-pp.flushTimer.C:
		case <-time.After(3 * time.Second):
			t.Fatalf("FAILING-INPUT: batch delay 20ms, %s: no hand-over is attempted for 3s", why)
		}
	}
	add(0)
	due("a transaction with its first event")
	pp.tryFlush()
	if pp.onDeck == n || len(pp.commitQueue) != 1 {
		t.Fatalf("FAILING-INPUT: a transaction of one event was not handed over when the delay had passed")
	}
	m := pp.onDeck
	add(1)
	pp.flushTimer.Reset(time.Hour)
	pp.tryFlush() // the committer is full
	if pp.onDeck != m {
		t.Fatalf("FAILING-INPUT: the committer is full and the transaction below its target: it was replaced")
	}
	due("a transaction that could not be handed over")
	pp.flushTimer.Reset(time.Hour)
	add(2) // target reached, the committer is full
	due("a transaction at its target that could not be handed over")
}
