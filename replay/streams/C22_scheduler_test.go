package streams

import (
	"context"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams/sak"
)

type c22Store struct{}

func (c22Store) ReceiveChange(IncomingRecord) error { return nil }
func (c22Store) Revoked()                           {}

// any sequence of queue operations against a list
func TestVerifC22_Queue(t *testing.T) {
	for seed := int64(0); seed < 60; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		size := rnd.Intn(5)
		q := newAsyncItemQueue[int](size)
		if size < 2 {
			size = 2
		}
		var want []int
		pending := []int{}
		for op := 0; op < 400; op++ {
			if len(pending) > 0 && rnd.Intn(3) == 0 {
				select { // the blocked writer gets its turn
				case q.enqueueChannel() <- pending[0]:
					want = append(want, pending[0])
					pending = pending[1:]
				default:
				}
				continue
			}
			switch rnd.Intn(4) {
			case 0, 1:
				if len(pending) > 0 {
					continue
				}
				if q.tryEnqueue(op) {
					want = append(want, op)
				} else {
					if len(want) < size {
						t.Fatalf("FAILING-INPUT: seed %d op %d: a queue of size %d holding %d refuses an item", seed, op, size, len(want))
					}
					pending = append(pending, op)
				}
			case 2:
				v, ok := q.peek()
				if ok != (len(want) > 0) || ok && v != want[0] {
					t.Fatalf("FAILING-INPUT: seed %d op %d: peek of %v gives %v %v", seed, op, want, v, ok)
				}
			default:
				v, ok := q.dequeue()
				if ok != (len(want) > 0) || ok && v != want[0] {
					t.Fatalf("FAILING-INPUT: seed %d op %d: dequeue of %v gives %v %v", seed, op, want, v, ok)
				}
				if ok {
					want = want[1:]
				}
			}
			if d := q.done(); d != (len(want)+len(pending) == 0) {
				t.Fatalf("FAILING-INPUT: seed %d op %d: done %v with %d held and %d pending", seed, op, d, len(want), len(pending))
			}
		}
	}
}

func c22Scheduler(max int) *AsyncJobScheduler[c22Store, int, int] {
	ap := &AsyncJobScheduler[c22Store, int, int]{
		runStatus:         sak.NewRunStatus(context.Background()),
		processor:         func(int, int) error { return nil },
		finalizer:         func(*EventContext[c22Store], int, int, error) ExecutionState { return Complete },
		workerQueueDepth:  4,
		workerFreeSignal:  make(chan struct{}, 1),
		workerMap:         map[int]*worker[c22Store, int, int]{},
		workerChannel:     make(chan *worker[c22Store, int, int], max+1),
		maxConcurrentKeys: max,
	}
	ap.workerPool = sync.Pool{New: func() interface{} { return ap.newQueue() }}
	return ap
}

// no goroutine processes: what is queued must survive every change of the limit
func TestVerifC22_Limits(t *testing.T) {
	for seed := int64(0); seed < 40; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		max := 1 + rnd.Intn(6)
		ap := c22Scheduler(max)
		key := 0
		for op := 0; op < 60; op++ {
			if rnd.Intn(3) == 0 {
				max = 1 + rnd.Intn(12)
				ap.SetMaxConcurrentKeys(max)
			} else {
				before := len(ap.workerMap)
				ap.mux.Lock()
				w, created := ap.grabWorker(key)
				ap.mux.Unlock()
				if before >= max {
					if w != nil {
						t.Fatalf("FAILING-INPUT: seed %d op %d: key %d becomes active with %d active of %d", seed, op, key, before, max)
					}
					continue
				}
				if w == nil || !created {
					t.Fatalf("FAILING-INPUT: seed %d op %d: key %d refused with %d active of %d", seed, op, key, before, max)
				}
				w.tryAddItem(asyncJobContainer[c22Store, int, int]{key: key})
				done := make(chan struct{})
				go func() { ap.enqueueWorker(w); close(done) }()
				select {
				case <-done:
				case <-time.After(2 * time.Second):
					t.Fatalf("FAILING-INPUT: seed %d op %d: no room for the worker of key %d, %d active, limit %d, capacity %d", seed, op, key, before, max, cap(ap.workerChannel))
				}
				key++
			}
			if len(ap.workerChannel) != len(ap.workerMap) {
				t.Fatalf("FAILING-INPUT: seed %d op %d: limit %d: %d workers queued for %d active keys", seed, op, max, len(ap.workerChannel), len(ap.workerMap))
			}
			for k, w := range ap.workerMap {
				if w.key != k {
					t.Fatalf("FAILING-INPUT: seed %d op %d: key %d is served by the worker of %d", seed, op, k, w.key)
				}
			}
		}
		for want := 0; want < key; want++ {
			if w := <-ap.workerChannel; w.key != want {
				t.Fatalf("FAILING-INPUT: seed %d: worker of key %d is in the place of %d", seed, w.key, want)
			}
		}
	}
}

type c22Completer struct{ n *int64 }

func (c c22Completer) AsyncComplete(j AsyncJob[c22Store]) {
	j.Finalize()
	atomic.AddInt64(c.n, 1)
}

// the whole scheduler, with slow jobs, small queues and changing limits
func TestVerifC22_Run(t *testing.T) {
	for round := 0; round < 4; round++ {
		run := sak.NewRunStatus(context.Background())
		var completed, finalized, active, bad int64
		var mu sync.Mutex
		next := map[int]int{}
		busy := map[int]bool{}
		order := ""
		sch, err := NewAsyncJobScheduler[c22Store, int, int](run, func(k, v int) error {
			mu.Lock()
			if busy[k] || next[k] != v {
				if order == "" {
					order = "key processed twice at once or out of order"
				}
				atomic.AddInt64(&bad, 1)
			}
			busy[k] = true
			next[k] = v + 1
			mu.Unlock()
			atomic.AddInt64(&active, 1)
			if v%5 == 0 {
				time.Sleep(200 * time.Microsecond)
			}
			mu.Lock()
			busy[k] = false
			mu.Unlock()
			return nil
		}, func(_ *EventContext[c22Store], k, v int, err error) ExecutionState {
			atomic.AddInt64(&finalized, 1)
			return Complete
		}, SchedulerConfig{Concurrency: 3, WorkerQueueDepth: round, MaxConcurrentKeys: 4})
		if err != nil {
			t.Fatal(err)
		}
		const n, keys = 600, 7
		fin := make(chan struct{})
		ec := &EventContext[c22Store]{asyncCompleter: c22Completer{&completed}}
		go func() {
			for i := 0; i < n; i++ {
				if i%50 == 49 {
					sch.SetMaxConcurrentKeys(3 + i%11)
				}
				if st := sch.Schedule(ec, i%keys, i/keys); st != Incomplete {
					atomic.AddInt64(&bad, 1)
				}
			}
			close(fin)
		}()
		dl := time.After(10 * time.Second)
		select {
		case <-fin:
		case <-dl:
			t.Fatalf("FAILING-INPUT: queue depth %d: scheduling stops, %d of %d completed", round, atomic.LoadInt64(&completed), n)
		}
		for i := 0; i < 500 && atomic.LoadInt64(&completed) < n; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
		if c, f := atomic.LoadInt64(&completed), atomic.LoadInt64(&finalized); c != n || f != n || atomic.LoadInt64(&active) != n {
			t.Fatalf("FAILING-INPUT: queue depth %d: %d of %d jobs completed, %d finalized, %d processed", round, c, n, f, atomic.LoadInt64(&active))
		}
		if atomic.LoadInt64(&bad) != 0 {
			t.Fatalf("FAILING-INPUT: queue depth %d: %s", round, order)
		}
		sch.mux.Lock()
		left := len(sch.workerMap)
		sch.mux.Unlock()
		for i := 0; i < 100 && left > 0; i++ {
			time.Sleep(5 * time.Millisecond)
			sch.mux.Lock()
			left = len(sch.workerMap)
			sch.mux.Unlock()
		}
		if left != 0 {
			t.Fatalf("FAILING-INPUT: queue depth %d: %d keys stay active", round, left)
		}
		run.Halt()
	}
}
