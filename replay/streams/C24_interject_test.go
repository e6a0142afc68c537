package streams

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/twmb/franz-go/pkg/kgo"
)

type c24Store struct{}

func (c24Store) ReceiveChange(IncomingRecord) error { return nil }
func (c24Store) Revoked()                           {}

func c24New(partition int32) *partitionWorker[c24Store] {
	es := &EventSource[c24Store]{source: newSource(EventSourceConfig{Topic: "topic"})}
	es.defaultProcessor = func(ec *EventContext[c24Store], r IncomingRecord) ExecutionState { return Complete }
	return &partitionWorker[c24Store]{
		eventSource:            es,
		eosProducer:            &eosProducerPool[c24Store]{buffer: make(chan *EventContext[c24Store], 1000)},
		partitionInput:         make(chan []*kgo.Record, 4),
		maxPending:             make(chan struct{}, 100),
		interjectionInput:      make(chan *interjection[c24Store], 1),
		eventInput:             make(chan *EventContext[c24Store], 100),
		interjectionEventInput: make(chan *EventContext[c24Store], 1),
		asyncCompleter:         asyncCompleter[c24Store]{make(chan AsyncJob[c24Store], 100)},
		stopSignal:             make(chan struct{}),
		revokedSignal:          make(chan struct{}, 1),
		stopped:                make(chan struct{}),
		runStatus:              sak.NewRunStatus(context.Background()),
		topicPartition:         TopicPartition{Topic: "topic", Partition: partition},
		ready:                  1,
	}
}

func c24Answer(c <-chan error) (err error, ok bool) {
	select {
	case err = <-c:
		return err, true
	case <-time.After(5 * time.Second):
		return nil, false
	}
}

// serves the worker's events; answered with a transaction when accepted says so
func c24Serve(w *partitionWorker[c24Store], accepted func() bool, stop chan struct{}) {
	go func() {
		for {
			select {
			case ec := <-w.eosProducer.buffer:
				if accepted() {
					ec.producerChan <- &producerNode[c24Store]{}
				} else {
					ec.producerChan <- nil
				}
				ec.revocationWaiter.Done()
			case <-stop:
				return
			}
		}
	}()
	go func() {
		for {
			select {
			case ec := <-w.eventInput:
				w.handleEvent(ec)
			case ec := <-w.interjectionEventInput:
				w.handleInterjection(ec)
			case <-w.stopSignal:
				go w.waitForRevocation()
			case <-w.revokedSignal:
				w.stopped <- struct{}{}
				return
			}
		}
	}()
}

func TestVerifC24_Answered(t *testing.T) {
	sc := &eventSourceConsumer[c24Store]{workers: map[int32]*partitionWorker[c24Store]{}}
	ran := 0
	cmd := func(ec *EventContext[c24Store], _ time.Time) ExecutionState { ran++; return Complete }
	if err, ok := c24Answer(sc.interject(1, cmd)); !ok || err != ErrPartitionNotAssigned || ran != 0 {
		t.Fatalf("FAILING-INPUT: partition not assigned: answered %v with %v, run %d times", ok, err, ran)
	}
	w := c24New(1)
	w.ready = 0
	sc.workers[1] = w
	if err, ok := c24Answer(sc.interject(1, cmd)); !ok || err != ErrPartitionNotAssigned || ran != 0 {
		t.Fatalf("FAILING-INPUT: partition not ready: answered %v with %v, run %d times", ok, err, ran)
	}
	// executed, or refused by the transaction because the partition is revoked
	for i, accept := range []bool{true, false, true, true} {
		w := c24New(2)
		sc.workers[2] = w
		stop := make(chan struct{})
		c24Serve(w, func() bool { return accept }, stop)
		go w.pushRecords()
		ran = 0
		cmd := cmd
		if i == 3 {
			cmd = func(ec *EventContext[c24Store], _ time.Time) ExecutionState { ran++; return Incomplete }
		}
		err, ok := c24Answer(sc.interject(2, cmd))
		want := error(nil)
		if !accept {
			want = ErrPartitionNotAssigned
		}
		if !ok || err != want || (ran == 1) != accept {
			t.Fatalf("FAILING-INPUT: interjection (asynchronous: %v) accepted into a transaction: %v: answered %v with %v, run %d times", i == 3, accept, ok, err, ran)
		}
		time.Sleep(10 * time.Millisecond)
		if i < 3 && len(w.maxPending) != 0 {
			t.Fatalf("FAILING-INPUT: interjection accepted into a transaction: %v: %d places are still taken", accept, len(w.maxPending))
		}
		w.revoke()
		close(stop)
	}
}

// every interjection into a partition which is revoked meanwhile is answered
func TestVerifC24_Revoked(t *testing.T) {
	for round := 0; round < 200; round++ {
		sc := &eventSourceConsumer[c24Store]{workers: map[int32]*partitionWorker[c24Store]{}}
		w := c24New(1)
		sc.workers[1] = w
		stop := make(chan struct{})
		c24Serve(w, w.runStatus.Running, stop)
		var mu sync.Mutex
		ran := 0
		cmd := func(ec *EventContext[c24Store], _ time.Time) ExecutionState {
			mu.Lock()
			ran++
			mu.Unlock()
			return Complete
		}
		var cs []<-chan error
		before := round % 3
		if before > 0 {
			cs = append(cs, sc.interject(1, cmd)) // waits in the worker's input
		}
		if before == 1 {
			w.revoke()
		}
		go w.pushRecords()
		if before == 2 {
			cs = append(cs, sc.interject(1, cmd))
			w.revoke()
		}
		if before == 0 {
			cs = append(cs, sc.interject(1, cmd))
			time.Sleep(time.Duration(round) * time.Microsecond)
			w.revoke()
		}
		refused := 0
		for i, c := range cs {
			err, ok := c24Answer(c)
			if !ok {
				t.Fatalf("FAILING-INPUT: %d interjections, then the partition is revoked: interjection %d is never answered", len(cs), i)
			}
			if err != nil {
				refused++
			}
		}
		mu.Lock()
		if ran+refused != len(cs) {
			t.Fatalf("FAILING-INPUT: %d interjections, then the partition is revoked: %d executed, %d refused", len(cs), ran, refused)
		}
		mu.Unlock()
		close(stop)
	}
}

func TestVerifC24_Period(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	for i := 0; i < 20000; i++ {
		ij := &interjection[c24Store]{every: time.Duration(rnd.Int63n(int64(time.Hour))), jitter: time.Duration(rnd.Int63n(int64(time.Minute)) - int64(30*time.Second))}
		if i%7 == 0 {
			ij.jitter = 0
		}
		abs := ij.jitter
		if abs < 0 {
			abs = -abs
		}
		if d := ij.timerDuration(); d < ij.every-abs || d > ij.every+abs {
			t.Fatalf("FAILING-INPUT: every %d, jitter %d: waits %d", ij.every, ij.jitter, d)
		}
	}
}

func TestVerifC24_Recurring(t *testing.T) {
	out := make(chan *interjection[c24Store])
	tp := TopicPartition{Topic: "topic", Partition: 4}
	fires := func() bool {
		select {
		case <-out:
			return true
		case <-time.After(60 * time.Millisecond):
			return false
		}
	}
	for _, hist := range []string{"tick", "tick tick", "tick cancel", "tick cancel tick", "tick cancel cancel tick", "tick fire cancel tick", "once", "tick wait cancel", "tick wait cancel tick"} {
		ij := &interjection[c24Store]{every: 5 * time.Millisecond, jitter: time.Millisecond}
		ij.init(tp, out)
		ij.init(TopicPartition{Topic: "other"}, nil)
		if ij.topicPartition != tp || ij.interjectChannel == nil {
			t.Fatalf("FAILING-INPUT: initialised twice: belongs to %v", ij.topicPartition)
		}
		want := 0
		cancelled := false
		var step string
		rest := hist
		for rest != "" {
			n, _ := fmt.Sscan(rest, &step)
			if n == 0 {
				break
			}
			if len(step) >= len(rest) {
				rest = ""
			} else {
				rest = rest[len(step)+1:]
			}
			switch step {
			case "tick":
				ij.tick()
				if !cancelled {
					want++
				}
			case "once":
				ij.isOneOff = true
				ij.tick()
			case "cancel":
				done := make(chan struct{})
				go func() { ij.cancel(); close(done) }()
				select {
				case <-done:
				case <-time.After(2 * time.Second):
					t.Fatalf("FAILING-INPUT: %s: cancelling is stuck", hist)
				}
				cancelled = true
				want = 0
			case "wait":
				time.Sleep(20 * time.Millisecond) // the timer expires, nobody takes the interjection yet
			case "fire":
				if !fires() {
					t.Fatalf("FAILING-INPUT: %s: it is not fired", hist)
				}
				want--
			}
		}
		got := 0
		for fires() {
			got++
		}
		if got != want {
			t.Fatalf("FAILING-INPUT: %s: fired %d more times, not %d", hist, got, want)
		}
	}
}

// executed interjections are scheduled again, in time or when their asynchronous job completes
func TestVerifC24_Again(t *testing.T) {
	for _, async := range []bool{false, true} {
		w := c24New(1)
		st := Complete
		if async {
			st = Incomplete
		}
		ij := &interjection[c24Store]{every: time.Millisecond, interjector: func(*EventContext[c24Store], time.Time) ExecutionState { return st }}
		ij.init(w.topicPartition, w.interjectionInput)
		ec := newInterjectionContext(w.runStatus.Ctx(), ij, w.topicPartition, w.changeLog.changeLogData(), w)
		w.maxPending <- struct{}{}
		ec.producerChan <- &producerNode[c24Store]{}
		w.handleInterjection(ec)
		if async {
			select {
			case <-w.interjectionInput:
				t.Fatalf("FAILING-INPUT: an interjection which is not complete is fired again")
			case <-time.After(30 * time.Millisecond):
			}
			w.processAsyncJob(AsyncJob[c24Store]{ctx: ec, finalizer: func() ExecutionState { return Complete }})
		}
		select {
		case x := <-w.interjectionInput:
			if x != ij {
				t.Fatalf("FAILING-INPUT: another interjection is fired")
			}
		case <-time.After(2 * time.Second):
			t.Fatalf("FAILING-INPUT: an executed interjection (asynchronous: %v) is never fired again", async)
		}
		if len(w.maxPending) != 0 {
			t.Fatalf("FAILING-INPUT: an executed interjection (asynchronous: %v) keeps its place", async)
		}
	}
}
