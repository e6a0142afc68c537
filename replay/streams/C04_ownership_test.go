package streams

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
)

// random runs of three transactions in rotation: order, transaction and multiplicity of every forwarded record at the broker
func TestVerifC04_Rotation(t *testing.T) {
	rnd := rand.New(rand.NewSource(5))
	for round := 0; round < 60; round++ {
		b := newVBroker(t)
		pp := vPool(b, 3, EosConfig{PendingTxnCount: 3, TargetBatchSize: 100, MaxBatchSize: 1000, BatchDelay: time.Second}, nil)
		nodes := pp.producerNodes
		var hist []string
		type sent struct {
			node int
			seq  int
		}
		forwarded := map[int32][]sent{} // by partition, in the order of events
		type ev struct {
			e    *EventContext[vStore]
			tp   int32
			node int
		}
		var open [][]ev
		seq := 0
		node := 0
		fail := func(f string, a ...any) { t.Fatalf("FAILING-INPUT: "+strings.Join(hist, "; ")+": "+f, a...) }
		produce := func(x ev) {
			k := fmt.Sprintf("%d-%d", x.node, seq)
			hist = append(hist, fmt.Sprintf("forward %s to partition %d", k, x.tp))
			nodes[x.node].ProduceRecord(x.e, vRecord("out", x.tp, k), nil)
		}
		commitOldest := func() {
			oldest := open[0]
			open = open[1:]
			for _, x := range oldest {
				close(x.e.done)
			}
			p := nodes[0]
			if len(oldest) > 0 {
				p = nodes[oldest[0].node]
			}
			hist = append(hist, fmt.Sprintf("commit transaction %d", p.id))
			res := make(chan error, 1)
			go func() { res <- p.commit() }()
			select {
			case err := <-res:
				if err != nil {
					fail("commit returns %v", err)
				}
			case <-time.After(8 * time.Second):
				fail("commit does not return")
			}
			// every partition it held now belongs to the next transaction that holds it, or to none
			for _, x := range oldest {
				var heir *producerNode[vStore]
				for n := p.next; n != p && heir == nil; n = n.next {
					if _, ok := n.currentPartitions[x.tp]; ok {
						heir = n
					}
				}
				if pp.partitionOwners.owners[x.tp] != heir {
					fail("partition %d does not belong to the next transaction that holds it", x.tp)
				}
				if heir != nil {
					for _, pr := range heir.recordsToProduce {
						if pr.partition == x.tp {
							fail("transaction %d owns partition %d and still holds back its records", heir.id, x.tp)
						}
					}
				}
			}
		}
		for txn := 0; txn < 5; txn++ {
			if len(open) == 3 {
				commitOldest()
			}
			var es []ev
			for i := 0; i < 1+rnd.Intn(4); i++ {
				tp := int32(rnd.Intn(3))
				wg := &sync.WaitGroup{}
				wg.Add(1)
				e := vEvent(context.Background(), tp, int64(seq), wg)
				nodes[node].addEventContext(e)
				pp.partitionOwners.conditionallyUpdate(tp, nodes[node])
				hist = append(hist, fmt.Sprintf("event of partition %d into transaction %d", tp, node))
				x := ev{e, tp, node}
				es = append(es, x)
				for k := rnd.Intn(3); k > 0; k-- {
					seq++
					forwarded[tp] = append(forwarded[tp], sent{node, seq})
					produce(x)
				}
			}
			open = append(open, es)
			node = (node + 1) % 3
		}
		for len(open) > 0 {
			commitOldest()
		}
		txnOf := map[string]string{}
		for tp := int32(0); tp < 3; tp++ {
			var got []string
			for _, e := range b.produced("out", tp) {
				got = append(got, e.Key)
				n := strings.Split(e.Key, "-")[0]
				if txnOf[n] == "" {
					txnOf[n] = e.Txn
				}
				if txnOf[n] != e.Txn {
					fail("record %s was sent by transaction %s, its event belongs to %s", e.Key, e.Txn, txnOf[n])
				}
			}
			var want []string
			for _, s := range forwarded[tp] {
				want = append(want, fmt.Sprintf("%d-%d", s.node, s.seq))
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				fail("partition %d: forwarded %v, the broker has %v", tp, want, got)
			}
		}
		if len(txnOf) == 3 && (txnOf["0"] == txnOf["1"] || txnOf["1"] == txnOf["2"] || txnOf["0"] == txnOf["2"]) {
			fail("two transactions' records arrived under one transaction: %v", txnOf)
		}
		for tp, o := range pp.partitionOwners.owners {
			if o != nil {
				fail("everything is committed, partition %d still belongs to transaction %d", tp, o.id)
			}
		}
		vClose(pp)
	}
}
