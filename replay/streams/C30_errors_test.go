package streams

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"
)

func TestVerifC30_Policy(t *testing.T) {
	for _, answer := range []ErrorResponse{Continue, FatallyExit, FailConsumer} {
		b := newVBroker(t)
		var mu sync.Mutex
		var asked []error
		pp := vPool(b, 3, EosConfig{PendingTxnCount: 3, TargetBatchSize: 100, MaxBatchSize: 1000, BatchDelay: time.Second},
			func(err error) ErrorResponse { mu.Lock(); asked = append(asked, err); mu.Unlock(); return answer })
		returned := make(chan struct{})
		go func() {
			defer close(returned)
			defer func() { recover() }()
			pp.commitLoop()
		}()
		e1 := errors.New("first")
		pp.errorChannel <- e1
		if answer == Continue {
			time.Sleep(100 * time.Millisecond)
			if pp.source.State() != Healthy {
				t.Fatalf("FAILING-INPUT: the policy answers continue to an error: the source is unhealthy")
			}
		} else {
			select {
			case err := <-pp.source.failure:
				if err != e1 {
					t.Fatalf("FAILING-INPUT: the policy answers %d to error %q: reported is %v", answer, e1, err)
				}
			case <-time.After(3 * time.Second):
				t.Fatalf("FAILING-INPUT: the policy answers %d to an error: no failure is reported", answer)
			}
			if pp.source.State() != Unhealthy {
				t.Fatalf("FAILING-INPUT: the policy answers %d to an error: the source is not unhealthy", answer)
			}
		}
		if answer != Continue {
			select {
			case <-returned:
			case <-time.After(3 * time.Second):
				t.Fatalf("FAILING-INPUT: the policy answers %d: the committer goes on", answer)
			}
		} else {
			// still committing: an error of a commit reaches the policy too
			p := pp.onDeck
			wg := &sync.WaitGroup{}
			wg.Add(1)
			e := vEvent(context.Background(), 2, 5, wg)
			p.addEventContext(e)
			pp.partitionOwners.conditionallyUpdate(2, p)
			p.ProduceRecord(e, vRecord("out", 1, "k"), nil)
			p.txnContextCancel()
			pp.commitQueue <- p
			time.Sleep(300 * time.Millisecond)
		}
		mu.Lock()
		n := len(asked)
		mu.Unlock()
		want := 2
		if answer != Continue {
			want = 1
		}
		if n < want || answer != Continue && n > 1 || asked[0] != e1 {
			t.Fatalf("FAILING-INPUT: %d errors, policy answering %d: it was asked about %v", want, answer, asked)
		}
		vClose(pp)
	}
}

// without a policy the documented default fails the consumer
func TestVerifC30_Default(t *testing.T) {
	b := newVBroker(t)
	pp := vPool(b, 2, EosConfig{PendingTxnCount: 1, TargetBatchSize: 100, MaxBatchSize: 1000, BatchDelay: time.Second}, nil)
	defer vClose(pp)
	returned := make(chan struct{})
	go func() {
		defer close(returned)
		defer func() { recover() }()
		pp.commitLoop()
	}()
	pp.errorChannel <- errors.New("x")
	select {
	case <-pp.source.failure:
	case <-time.After(3 * time.Second):
		t.Fatalf("FAILING-INPUT: no policy configured: an error fails nothing")
	}
	select {
	case <-returned:
	case <-time.After(3 * time.Second):
		t.Fatalf("FAILING-INPUT: no policy configured: the committer goes on after an error")
	}
}

// a handler of record errors: no error is dropped although nobody takes the failure
func TestVerifC30_Once(t *testing.T) {
	s := newSource(EventSourceConfig{})
	done := make(chan struct{})
	go func() { s.fail(errors.New("one")); close(done) }()
	err := <-s.failure
	<-done
	if err == nil || err.Error() != "one" || s.State() != Unhealthy {
		t.Fatalf("FAILING-INPUT: fail(one): reported %v, state %v", err, s.State())
	}
}
