package streams

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c23Completer struct {
	mu   sync.Mutex
	jobs []AsyncJob[vStore]
	c    chan struct{}
}

func (c *c23Completer) AsyncComplete(j AsyncJob[vStore]) {
	c.mu.Lock()
	c.jobs = append(c.jobs, j)
	c.mu.Unlock()
	c.c <- struct{}{}
}

type c23Error string

func (c23Error) Error() string { return "c23" }

// batches of every size, acknowledged in every order
func TestVerifC23_Counting(t *testing.T) {
	rnd := rand.New(rand.NewSource(5))
	for n := 1; n < 20; n++ {
		comp := &c23Completer{c: make(chan struct{}, 100)}
		ec := &EventContext[vStore]{asyncCompleter: comp}
		b := &produceBatcher[vStore]{ctx: ec, pending: int64(n)}
		told := 0
		var seen []error
		b.callback = func(x *EventContext[vStore], rs []*Record, ud any) ExecutionState {
			told++
			if x != ec || len(rs) != n || ud != "user" {
				t.Fatalf("FAILING-INPUT: batch of %d records: the callback is given %d records and %v", n, len(rs), ud)
			}
			for _, r := range rs {
				seen = append(seen, r.Error())
			}
			return Incomplete
		}
		b.userData = "user"
		for i := 0; i < n; i++ {
			b.records = append(b.records, vRecord("t", 0, fmt.Sprint(i)))
		}
		for k, i := range rnd.Perm(n) {
			if len(comp.jobs) != 0 {
				t.Fatalf("FAILING-INPUT: batch of %d records: completed after %d", n, k)
			}
			if i%3 == 0 {
				b.records[i].err = c23Error("x")
			}
			b.recordComplete()
		}
		if len(comp.jobs) != 1 || comp.jobs[0].ctx != ec || told != 0 {
			t.Fatalf("FAILING-INPUT: batch of %d records: completed %d times", n, len(comp.jobs))
		}
		if st := comp.jobs[0].Finalize(); st != Incomplete || told != 1 {
			t.Fatalf("FAILING-INPUT: batch of %d records: the callback is called %d times, its answer becomes %v", n, told, st)
		}
		for i, err := range seen {
			if (err != nil) != (i%3 == 0) {
				t.Fatalf("FAILING-INPUT: batch of %d records: record %d carries %v", n, i, err)
			}
		}
	}
}

// through a client, to a broker which refuses some partitions
func TestVerifC23_Produce(t *testing.T) {
	b := newVBroker(t)
	b.produce = func(topic string, p int32) int16 {
		if p%2 == 1 {
			return 10 // MESSAGE_TOO_LARGE
		}
		return 0
	}
	dest := Destination{DefaultTopic: "default", Cluster: b}
	for n := 0; n < 6; n++ {
		for _, with := range []bool{true, false} {
			p := NewBatchProducer[vStore](dest, kgo.RecordPartitioner(kgo.ManualPartitioner()), kgo.DisableIdempotentWrite())
			comp := &c23Completer{c: make(chan struct{}, 100)}
			ec := &EventContext[vStore]{asyncCompleter: comp}
			var rs []*Record
			key := func(i int) string { return fmt.Sprint(n, with, i) }
			for i := 0; i < n; i++ {
				topic := "other"
				if i%3 == 1 {
					topic = ""
				}
				rs = append(rs, vRecord(topic, int32(i), key(i)))
			}
			told := 0
			var cb BatchProducerCallback[vStore]
			if with {
				cb = func(x *EventContext[vStore], got []*Record, ud any) ExecutionState {
					told++
					if x != ec || len(got) != n || ud != 7 {
						t.Fatalf("FAILING-INPUT: batch of %d records: the callback is given %d records and %v", n, len(got), ud)
					}
					for i, r := range got {
						if (r.Error() != nil) != (i%2 == 1) {
							t.Fatalf("FAILING-INPUT: batch of %d records, those for odd partitions are refused: record %d carries %v", n, i, r.Error())
						}
						if r.keyBuffer.String() != key(i) {
							t.Fatalf("FAILING-INPUT: batch of %d records: record %d was recycled before the callback", n, i)
						}
					}
					return Complete
				}
			}
			st := p.Produce(ec, rs, cb, 7)
			if n == 0 {
				if st != Complete || with != (told == 1) {
					t.Fatalf("FAILING-INPUT: empty batch: state %v, the callback is called %d times", st, told)
				}
			} else {
				select {
				case <-comp.c:
				case <-time.After(5 * time.Second):
					t.Fatalf("FAILING-INPUT: batch of %d records (callback: %v): the event is never completed", n, with)
				}
				time.Sleep(20 * time.Millisecond)
				if st != Incomplete || len(comp.jobs) != 1 || comp.jobs[0].ctx != ec || told != 0 {
					t.Fatalf("FAILING-INPUT: batch of %d records (callback: %v): state %v, completed %d times", n, with, st, len(comp.jobs))
				}
				if comp.jobs[0].Finalize() != Complete || with != (told == 1) {
					t.Fatalf("FAILING-INPUT: batch of %d records: the callback is called %d times", n, told)
				}
				for i := 0; i < n; i += 2 {
					topic := "other"
					if i%3 == 1 {
						topic = "default"
					}
					hits := 0
					for _, e := range b.produced(topic, int32(i)) {
						if e.Key == key(i) {
							hits++
						}
					}
					if hits != 1 {
						t.Fatalf("FAILING-INPUT: batch of %d records: record %d is produced %d times to %s", n, i, hits, topic)
					}
				}
			}
			p.client.Close()
		}
	}
}

func TestVerifC23_Single(t *testing.T) {
	b := newVBroker(t)
	b.produce = func(topic string, p int32) int16 { return int16(10 * (p % 2)) }
	p := NewProducer(Destination{DefaultTopic: "default", Cluster: b}, kgo.RecordPartitioner(kgo.ManualPartitioner()), kgo.DisableIdempotentWrite())
	defer p.Close()
	for i := int32(0); i < 4; i++ {
		topic := ""
		if i > 1 {
			topic = "other"
		}
		err := p.Produce(context.Background(), vRecord(topic, i, fmt.Sprint("s", i)))
		if (err != nil) != (i%2 == 1) {
			t.Fatalf("FAILING-INPUT: producing to partition %d: %v", i, err)
		}
	}
	if len(b.produced("default", 0)) != 1 || len(b.produced("other", 2)) != 1 {
		t.Fatalf("FAILING-INPUT: a record without topic, and one with: %v", b.log())
	}
	done := make(chan error, 2)
	p.ProduceAsync(context.Background(), vRecord("", 1, "x"), func(r *Record, err error) {
		if r == nil || r.keyBuffer.String() != "x" {
			err = errors.New("another record")
		}
		done <- err
	})
	select {
	case err := <-done:
		if err == nil || err.Error() == "another record" {
			t.Fatalf("FAILING-INPUT: producing to a partition which is refused: %v", err)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("FAILING-INPUT: producing to a partition which is refused: no callback")
	}
	p.ProduceAsync(context.Background(), vRecord("", 2, "y"), nil)
	time.Sleep(50 * time.Millisecond)
}
