package streams

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
	"github.com/twmb/franz-go/pkg/kgo"
)

type c07Store struct{}

func (c07Store) ReceiveChange(IncomingRecord) error { return nil }
func (c07Store) Revoked()                           {}

type c07Worker struct {
	*partitionWorker[c07Store]
	handled []int64 // offsets given to the handler
	states  map[int64]ExecutionState
}

func c07New(pending int) *c07Worker {
	w := &c07Worker{states: map[int64]ExecutionState{}}
	es := &EventSource[c07Store]{source: newSource(EventSourceConfig{Topic: "topic"})}
	es.defaultProcessor = func(ec *EventContext[c07Store], r IncomingRecord) ExecutionState {
		w.handled = append(w.handled, r.Offset())
		return w.states[r.Offset()]
	}
	w.partitionWorker = &partitionWorker[c07Store]{
		eventSource:            es,
		eosProducer:            &eosProducerPool[c07Store]{buffer: make(chan *EventContext[c07Store], 1000)},
		partitionInput:         make(chan []*kgo.Record, 4),
		maxPending:             make(chan struct{}, pending),
		interjectionInput:      make(chan *interjection[c07Store], 1),
		eventInput:             make(chan *EventContext[c07Store], 1000),
		interjectionEventInput: make(chan *EventContext[c07Store], 100),
		asyncCompleter:         asyncCompleter[c07Store]{make(chan AsyncJob[c07Store], 1000)},
		stopSignal:             make(chan struct{}),
		revokedSignal:          make(chan struct{}, 1),
		stopped:                make(chan struct{}),
		runStatus:              sak.NewRunStatus(context.Background()),
		topicPartition:         TopicPartition{Topic: "topic", Partition: 3},
	}
	return w
}

// the counter of the worker's revocation waiter
func c07Count(wg *sync.WaitGroup) int {
	n := 0
	for ; n < 2000; n++ {
		over := false
		func() {
			defer func() { over = recover() != nil }()
			wg.Done()
		}()
		if over {
			break
		}
	}
	// a negative counter is left behind at -1
	wg.Add(n + 1)
	return n
}

func c07Batch(rnd *rand.Rand, from int64) ([]*kgo.Record, string) {
	var out []*kgo.Record
	desc := "["
	off := from + int64(rnd.Intn(7)) - 3
	for i, n := 0, rnd.Intn(8); i < n; i++ {
		if rnd.Intn(6) == 0 {
			out = append(out, nil)
			desc += " nil"
			continue
		}
		out = append(out, &kgo.Record{Topic: "topic", Partition: 3, Offset: off, Key: []byte("k")})
		desc += fmt.Sprint(" ", off)
		off += int64(rnd.Intn(3))
	}
	return out, desc + " ]"
}

func TestVerifC07_Schedule(t *testing.T) {
	rnd := rand.New(rand.NewSource(11))
	for round := 0; round < 2000; round++ {
		w := c07New(1000)
		w.highestOffset = int64(rnd.Intn(10))
		batch, desc := c07Batch(rnd, w.highestOffset)
		revoked := rnd.Intn(8) == 0
		hist := fmt.Sprintf("resume position %d, batch %s, revoked %v", w.highestOffset, desc, revoked)
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("FAILING-INPUT: %s: %s", hist, fmt.Sprintf(f, a...))
		}
		if revoked {
			w.revoke()
		}
		w.scheduleTxnAndExecution(batch)
		var want []*kgo.Record
		for _, r := range batch {
			if r != nil && r.Offset >= w.highestOffset && !revoked {
				want = append(want, r)
			}
		}
		if len(w.eventInput) != len(want) || len(w.eosProducer.buffer) != len(want) {
			fail("%d events for the worker, %d for the transactions, not %d", len(w.eventInput), len(w.eosProducer.buffer), len(want))
		}
		if len(w.maxPending) != len(want) {
			fail("%d places taken for %d events", len(w.maxPending), len(want))
		}
		if n := c07Count(&w.revocationWaiter); n != len(want) {
			fail("a revocation waits for %d events, not %d", n, len(want))
		}
		for i, r := range want {
			e, b := <-w.eventInput, <-w.eosProducer.buffer
			if e != b || e.input.Offset() != r.Offset {
				fail("event %d is not that of offset %d", i, r.Offset)
			}
		}
	}
}

func TestVerifC07_Execute(t *testing.T) {
	rnd := rand.New(rand.NewSource(12))
	for round := 0; round < 500; round++ {
		w := c07New(1000)
		w.highestOffset = 5
		hist := ""
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("FAILING-INPUT: resume position 5; %s: %s", hist, fmt.Sprintf(f, a...))
		}
		prod := &producerNode[c07Store]{}
		var want []int64
		pending, resume := 0, int64(5)
		var open []*EventContext[c07Store]
		for i := 0; i < 12; i++ {
			if len(open) > 0 && rnd.Intn(3) == 0 { // an asynchronous event is completed
				ec := open[0]
				open = open[1:]
				again := rnd.Intn(4) == 0
				hist += fmt.Sprintf("; asynchronous job of %d completes it: %v", ec.input.Offset(), !again)
				st := Complete
				if again {
					st = Incomplete
					open = append(open, ec)
				} else {
					pending--
				}
				w.processAsyncJob(AsyncJob[c07Store]{ctx: ec, finalizer: func() ExecutionState { return st }})
				closed := false
				select {
				case <-ec.done:
					closed = true
				default:
				}
				if closed == again {
					fail("event completed: %v", closed)
				}
			} else {
				off := resume + int64(rnd.Intn(3))
				ec := newEventContext(w.runStatus.Ctx(), &kgo.Record{Topic: "topic", Partition: 3, Offset: off}, w.changeLog.changeLogData(), w.partitionWorker)
				w.maxPending <- struct{}{}
				refused := rnd.Intn(4) == 0
				if refused {
					hist += fmt.Sprintf("; event %d refused", off)
					ec.producerChan <- nil
				} else {
					w.states[off] = Complete
					if rnd.Intn(3) == 0 {
						w.states[off] = Incomplete
						open = append(open, ec)
						pending++
					}
					hist += fmt.Sprintf("; event %d accepted, its handler answers %v", off, w.states[off])
					ec.producerChan <- prod
					want = append(want, off)
					resume = off + 1
				}
				done := make(chan struct{})
				go func() { w.handleEvent(ec); close(done) }()
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					fail("the worker is stuck")
				}
			}
			if fmt.Sprint(w.handled) != fmt.Sprint(want) {
				fail("handled %v, not %v", w.handled, want)
			}
			if w.highestOffset != resume {
				fail("the resume position is %d, not %d", w.highestOffset, resume)
			}
			if len(w.maxPending) != pending {
				fail("%d places taken for %d events in flight", len(w.maxPending), pending)
			}
		}
	}
}

// a job completed while an event waits for its transaction is taken
func TestVerifC07_WaitTakesJobs(t *testing.T) {
	w := c07New(10)
	ec := newEventContext(w.runStatus.Ctx(), &kgo.Record{Topic: "topic", Partition: 3, Offset: 1}, w.changeLog.changeLogData(), w.partitionWorker)
	other := newEventContext(w.runStatus.Ctx(), &kgo.Record{Topic: "topic", Partition: 3, Offset: 0}, w.changeLog.changeLogData(), w.partitionWorker)
	w.maxPending <- struct{}{}
	w.maxPending <- struct{}{}
	go func() {
		w.asyncCompleter.AsyncComplete(AsyncJob[c07Store]{ctx: other, finalizer: func() ExecutionState { return Complete }})
	}()
	done := make(chan struct{})
	go func() { w.handleEvent(ec); close(done) }()
	select {
	case <-other.done:
	case <-time.After(5 * time.Second):
		t.Fatalf("FAILING-INPUT: an event waits for its transaction: a completed asynchronous job is left")
	}
	ec.producerChan <- &producerNode[c07Store]{}
	<-done
	if len(w.maxPending) != 0 || len(w.handled) != 1 {
		t.Fatalf("FAILING-INPUT: two completed events: %d places still taken, %d events handled", len(w.maxPending), len(w.handled))
	}
}

func TestVerifC07_Revoked(t *testing.T) {
	for n := 0; n < 30; n++ {
		w := c07New(10)
		w.add(nil)
		w.add(nil)
		w.add(nil)
		w.add(nil)
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			w.add([]*kgo.Record{{Topic: "topic", Partition: 3, Offset: 1}})
		}()
		time.Sleep(5 * time.Millisecond)
		w.revoke()
		pushed := make(chan any, 1)
		go func() {
			defer func() { pushed <- recover() }()
			w.pushRecords()
		}()
		go func() { <-w.stopSignal; w.stopped <- struct{}{} }()
		for i, c := range []chan any{done, pushed} {
			select {
			case r := <-c:
				if r != nil {
					t.Fatalf("FAILING-INPUT: four batches wait, a fifth is given, the partition is revoked: panic %v", r)
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("FAILING-INPUT: four batches wait, a fifth is given, the partition is revoked: stuck (%d)", i)
			}
		}
		if len(w.eventInput) != 0 && <-w.eventInput != nil {
			t.Fatalf("FAILING-INPUT: an event is made after the revocation")
		}
	}
}
