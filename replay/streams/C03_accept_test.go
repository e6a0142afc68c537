package streams

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"
)

func TestVerifC03_Acceptance(t *testing.T) {
	rnd := rand.New(rand.NewSource(4))
	for round := 0; round < 200; round++ {
		b := newVBroker(t)
		pp := vPool(b, 3, EosConfig{PendingTxnCount: 2, TargetBatchSize: 4, MaxBatchSize: 100, BatchDelay: time.Second}, nil)
		wgs := map[int32]*sync.WaitGroup{}
		revoked := map[int32]bool{}
		chains := map[*producerNode[vStore]]map[int32][]*EventContext[vStore]{}
		var hist []string
		taken := map[int32]int{}
		for i := 0; i < 1+rnd.Intn(11); i++ {
			tp := int32(rnd.Intn(3))
			if wgs[tp] == nil {
				wgs[tp] = &sync.WaitGroup{}
			}
			ctx, cancel := context.WithCancel(context.Background())
			if rnd.Intn(6) == 0 {
				revoked[tp] = true
			}
			if revoked[tp] {
				cancel()
			}
			defer cancel()
			off := int64(i)
			if rnd.Intn(4) == 0 {
				off = -1
			}
			wgs[tp].Add(1)
			e := vEvent(ctx, tp, off, wgs[tp])
			hist = append(hist, fmt.Sprintf("%d@%d revoked=%v", tp, off, revoked[tp]))
			deck := pp.onDeck
			pp.doForwardExecutionContexts(e)
			var got EventContextProducer[vStore]
			select {
			case got = <-e.producerChan:
			default:
				t.Fatalf("FAILING-INPUT: events %v: the last one is not told its transaction", hist)
			}
			select {
			case <-e.producerChan:
				t.Fatalf("FAILING-INPUT: events %v: the last one is told its transaction twice", hist)
			default:
			}
			if revoked[tp] {
				if got != nil {
					t.Fatalf("FAILING-INPUT: events %v: the last one, of a revoked partition, is given a transaction", hist)
				}
			} else {
				if n, ok := got.(*producerNode[vStore]); !ok || n != deck {
					t.Fatalf("FAILING-INPUT: events %v: the last one is not told the transaction it was put in", hist)
				}
				taken[tp]++
				if chains[deck] == nil {
					chains[deck] = map[int32][]*EventContext[vStore]{}
				}
				chains[deck][tp] = append(chains[deck][tp], e)
			}
		}
		for _, n := range pp.producerNodes {
			if len(n.currentPartitions) != len(chains[n]) {
				t.Fatalf("FAILING-INPUT: events %v: transaction %d holds %d partitions, want %d", hist, n.id, len(n.currentPartitions), len(chains[n]))
			}
			cnt := 0
			for tp, es := range chains[n] {
				cnt += len(es)
				d := n.currentPartitions[tp]
				e, i := d.tail, len(es)-1
				for ; e != nil && i >= 0; e, i = e.prev, i-1 {
					if e != es[i] {
						t.Fatalf("FAILING-INPUT: events %v: transaction %d, partition %d: event %d of the chain is not the one that arrived then", hist, n.id, tp, i)
					}
				}
				if e != nil || i >= 0 || d.root != es[0] {
					t.Fatalf("FAILING-INPUT: events %v: transaction %d, partition %d: the chain does not have the %d events that arrived", hist, n.id, tp, len(es))
				}
			}
			if int64(cnt) != n.eventContextCnt {
				t.Fatalf("FAILING-INPUT: events %v: transaction %d counts %d events, has %d", hist, n.id, n.eventContextCnt, cnt)
			}
		}
		// revocation count: one for each accepted event, one for each transaction holding the partition
		for tp, wg := range wgs {
			n := taken[tp]
			for _, c := range chains {
				if len(c[tp]) > 0 {
					n++
				}
			}
			func() {
				defer func() {
					if recover() != nil {
						t.Fatalf("FAILING-INPUT: events %v: the revocation count of partition %d is less than %d", hist, tp, n)
					}
				}()
				wg.Add(-n)
			}()
			if !vZero(wg) {
				t.Fatalf("FAILING-INPUT: events %v: the revocation count of partition %d is more than %d", hist, tp, n)
			}
		}
		vClose(pp)
	}
}
