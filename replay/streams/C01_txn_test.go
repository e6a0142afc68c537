package streams

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c01failing struct{ t testing.TB }

func (c c01failing) run(f func(*vBroker, *eosProducerPool[vStore])) {
	b := newVBroker(c.t)
	pp := vPool(b, 2, EosConfig{PendingTxnCount: 1, TargetBatchSize: 100, MaxBatchSize: 1000, BatchDelay: time.Second}, nil)
	defer vClose(pp)
	f(b, pp)
}

func c01commit(p *producerNode[vStore]) (error, bool) {
	res := make(chan error, 1)
	go func() { res <- p.commit() }()
	select {
	case err := <-res:
		return err, true
	case <-time.After(3 * time.Second):
		return nil, false
	}
}

func TestVerifC01_CompletedTransactionCommits(t *testing.T) {
	c01failing{t}.run(func(b *vBroker, pp *eosProducerPool[vStore]) {
		p := pp.onDeck
		wg := &sync.WaitGroup{}
		wg.Add(2)
		e1, e2 := vEvent(context.Background(), 3, 7, wg), vEvent(context.Background(), 3, 8, wg)
		p.addEventContext(e1)
		p.addEventContext(e2)
		pp.partitionOwners.conditionallyUpdate(3, p)
		p.ProduceRecord(e1, vRecord("out", 1, "k"), nil)
		close(e2.done)
		res := make(chan error, 1)
		go func() { res <- p.commit() }()
		time.Sleep(300 * time.Millisecond)
		if len(b.ends()) > 0 {
			t.Fatalf("FAILING-INPUT: two events in a transaction, the second complete and the first not: the transaction was ended (commit=%v)", b.ends()[0].Commit)
		}
		if p.eventContextCnt != 2 || len(p.currentPartitions) != 1 || !pp.partitionOwners.owned(3, p) {
			t.Fatalf("FAILING-INPUT: while an event of the transaction is incomplete its bookkeeping is released: events=%d partitions=%d", p.eventContextCnt, len(p.currentPartitions))
		}
		close(e1.done)
		select {
		case err := <-res:
			if err != nil {
				t.Fatalf("FAILING-INPUT: all events complete, commit returns %v", err)
			}
		case <-time.After(8 * time.Second):
			t.Fatalf("FAILING-INPUT: all events complete, commit does not return")
		}
		if es := b.ends(); len(es) != 1 || !es[0].Commit {
			t.Fatalf("FAILING-INPUT: one complete transaction with output: ended %+v", es)
		}
		log := b.log()
		if log[len(log)-1].Kind != "end" {
			t.Fatalf("FAILING-INPUT: records reached the broker after the end of the transaction: %+v", log)
		}
		if len(b.produced("out", 1)) != 1 || len(b.produced("progress", 3)) != 1 {
			t.Fatalf("FAILING-INPUT: one forwarded record and one progress record expected, broker has %+v", log)
		}
		if p.eventContextCnt != 0 || p.produceCnt != 0 || p.byteCount != 0 || len(p.currentPartitions) != 0 || pp.partitionOwners.owned(3, p) {
			t.Fatalf("FAILING-INPUT: after the commit the node still has events=%d records=%d partitions=%d", p.eventContextCnt, p.produceCnt, len(p.currentPartitions))
		}
		if !vZero(wg) {
			t.Fatalf("FAILING-INPUT: after the commit of two events their partition's revocation count is not zero")
		}
	})
}

func TestVerifC01_NothingProducedIsAborted(t *testing.T) {
	c01failing{t}.run(func(b *vBroker, pp *eosProducerPool[vStore]) {
		// kafka sees no end of transaction when nothing was added to it: what is observable is that nothing is committed and no record exists
		p := pp.onDeck
		wg := &sync.WaitGroup{}
		wg.Add(1)
		e := vEvent(context.Background(), 2, -1, wg)
		p.addEventContext(e)
		pp.partitionOwners.conditionallyUpdate(2, p)
		close(e.done)
		if err, ok := c01commit(p); err != nil || !ok {
			t.Fatalf("FAILING-INPUT: a transaction with one finished interjection: commit returned %v (returned: %v)", err, ok)
		}
		for _, x := range b.ends() {
			if x.Commit {
				t.Fatalf("FAILING-INPUT: a transaction in which nothing was produced is committed")
			}
		}
		if len(b.log()) > 0 && b.log()[0].Kind == "produce" {
			t.Fatalf("FAILING-INPUT: an interjection that produced nothing left %+v at the broker", b.log())
		}
	})
}

func TestVerifC01_DeadlineIsNotCommitted(t *testing.T) {
	c01failing{t}.run(func(b *vBroker, pp *eosProducerPool[vStore]) {
		p := pp.onDeck
		wg := &sync.WaitGroup{}
		wg.Add(1)
		e := vEvent(context.Background(), 2, 5, wg)
		p.addEventContext(e)
		pp.partitionOwners.conditionallyUpdate(2, p)
		p.ProduceRecord(e, vRecord("out", 1, "k"), nil)
		time.Sleep(200 * time.Millisecond)
		p.txnContextCancel() // the deadline passes
		err, ok := c01commit(p)
		if !ok || err == nil {
			t.Fatalf("FAILING-INPUT: the deadline passes while an event is incomplete: commit returns %v (returned: %v)", err, ok)
		}
		if len(b.ends()) > 0 && b.ends()[0].Commit {
			t.Fatalf("FAILING-INPUT: the deadline passes while an event is incomplete: the transaction is committed")
		}
		if len(p.currentPartitions) != 1 || p.eventContextCnt != 1 || !pp.partitionOwners.owned(2, p) {
			t.Fatalf("FAILING-INPUT: the transaction was not committed but its bookkeeping is released")
		}
	})
}

// a record the broker refuses must not be left out of a committed transaction
func TestVerifC01_RecordFailure(t *testing.T) {
	for _, answer := range []ErrorResponse{FailConsumer, FatallyExit, Continue} {
		b := newVBroker(t)
		b.produce = func(topic string, _ int32) int16 {
			if topic == "forbidden" {
				return 29 // topic authorization failed
			}
			return 0
		}
		asked := 0
		pp := vPool(b, 2, EosConfig{PendingTxnCount: 1, TargetBatchSize: 100, MaxBatchSize: 1000, BatchDelay: time.Second}, func(error) ErrorResponse { asked++; return answer })
		p := pp.onDeck
		wg := &sync.WaitGroup{}
		wg.Add(1)
		e := vEvent(context.Background(), 2, 5, wg)
		p.addEventContext(e)
		pp.partitionOwners.conditionallyUpdate(2, p)
		p.ProduceRecord(e, vRecord("out", 1, "k"), nil)
		p.ProduceRecord(e, vRecord("forbidden", 1, "k"), nil)
		close(e.done)
		err, ok := c01commit(p)
		committed := len(b.ends()) > 0 && b.ends()[0].Commit
		if answer != Continue && (err == nil || committed || !ok) {
			t.Fatalf("FAILING-INPUT: one of two records of a transaction is refused by the broker (error 29) and the error policy answers %d: commit returns %v, transaction committed: %v", answer, err, committed)
		}
		if answer != Continue && (len(p.currentPartitions) != 1 || p.eventContextCnt != 1) {
			t.Fatalf("FAILING-INPUT: the transaction failed but its bookkeeping is released")
		}
		if answer == Continue && (err != nil || !committed) {
			t.Fatalf("FAILING-INPUT: the error policy answers continue: commit returns %v, transaction committed: %v", err, committed)
		}
		vClose(pp)
	}
}

// the broker does not accept the end of the transaction
func TestVerifC01_EndRefused(t *testing.T) {
	c01failing{t}.run(func(b *vBroker, pp *eosProducerPool[vStore]) {
		b.end = func(string, bool) int16 { return 48 } // invalid transaction state
		p := pp.onDeck
		wg := &sync.WaitGroup{}
		wg.Add(1)
		e := vEvent(context.Background(), 2, 5, wg)
		p.addEventContext(e)
		pp.partitionOwners.conditionallyUpdate(2, p)
		p.ProduceRecord(e, vRecord("out", 1, "k"), nil)
		close(e.done)
		err, _ := c01commit(p)
		if err == nil {
			t.Fatalf("FAILING-INPUT: the broker refuses to end the transaction: commit reports no error")
		}
		if len(p.currentPartitions) != 1 || p.eventContextCnt != 1 || p.produceCnt == 0 || !pp.partitionOwners.owned(2, p) {
			t.Fatalf("FAILING-INPUT: the broker refuses to end the transaction: its bookkeeping is released (partitions=%d events=%d records=%d)", len(p.currentPartitions), p.eventContextCnt, p.produceCnt)
		}
	})
}

var _ = kgo.TryCommit
