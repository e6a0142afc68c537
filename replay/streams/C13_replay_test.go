package streams

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c13Store struct{ applied *[]IncomingRecord }

func (s c13Store) ReceiveChange(r IncomingRecord) error {
	*s.applied = append(*s.applied, r)
	if len(*s.applied)%7 == 0 {
		return fmt.Errorf("refused")
	}
	return nil
}
func (s c13Store) Revoked() {}

func c13Mark(mark []byte, key bool) *kgo.Record {
	r := &kgo.Record{Topic: "t", Partition: 3, Value: mark, Headers: []kgo.RecordHeader{{Key: markerKeyString}}}
	if key {
		r.Key = markerKey
	}
	return r
}

func c13Closed(c chan struct{}) bool {
	select {
	case _, ok := <-c:
		return !ok
	default:
		return false
	}
}

// batches with foreign and own markers anywhere: what is applied, when the state changes, who is released
func TestVerifC13_Replay(t *testing.T) {
	client, err := kgo.NewClient()
	if err != nil {
		t.Skip(err)
	}
	defer client.Close()
	rnd := rand.New(rand.NewSource(5))
	for round := 0; round < 400; round++ {
		var hist []string
		say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Fatalf("FAILING-INPUT: round %d %v: %s", round, hist, fmt.Sprintf(f, a...))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fail("panic: %v", r)
				}
			}()
			ssp := &stateStorePartition[c13Store]{
				client: client, waiters: map[string]chan struct{}{}, topicPartition: TopicPartition{Partition: 3, Topic: "t"},
				buffer: make(chan []*kgo.Record, 64), highWatermark: -1,
			}
			state := []partitionState{prepping, ready, prepping, prepping, paused, standby, active}[rnd.Intn(7)]
			ssp.setState(state)
			var applied []IncomingRecord
			store := changeLogPartition[c13Store]{store: c13Store{&applied}, topic: "t"}
			type waiter struct {
				c    chan struct{}
				mark []byte
				seen bool
			}
			var ws []*waiter
			for i := 0; i < 1+rnd.Intn(3); i++ {
				c, m := ssp.addWaiter()
				ws = append(ws, &waiter{c: c, mark: m})
			}
			var want []*kgo.Record
			offset := int64(0)
			stopped := false
			for b := 0; b < 1+rnd.Intn(4) && !stopped; b++ {
				var batch []*kgo.Record
				stop := -1
				for i := 0; i < rnd.Intn(6); i++ {
					var r *kgo.Record
					switch x := rnd.Intn(8); {
					case x == 0:
						r = c13Mark([]byte(fmt.Sprintf("foreign-%d", i)), rnd.Intn(2) == 0)
						say("foreign")
					case x == 1:
						r = c13Mark(nil, true)
						say("empty")
					case x < 4:
						w := ws[rnd.Intn(len(ws))]
						r = c13Mark(w.mark, rnd.Intn(2) == 0)
						say("own")
						if stop < 0 && !w.seen {
							w.seen = true
							switch state {
							case prepping:
								state = ready
							case ready:
								state = paused
								stop = i
							}
						}
					default:
						r = &kgo.Record{Topic: "t", Partition: 3, Offset: offset, Key: []byte{byte(i)}, Value: []byte{byte(offset)}}
						if x == 4 {
							r.Key, r.Headers = markerKey, []kgo.RecordHeader{{Key: "h"}}
						}
						if x == 5 {
							r.Value = ws[0].mark
						}
						say("record")
						if stop < 0 {
							want = append(want, r)
						}
					}
					offset++
					batch = append(batch, r)
				}
				say("|")
				more := ssp.handleRecordsAndContinue(batch, store)
				if more != (stop < 0) {
					fail("goes on: %v, the closing marker is at %d", more, stop)
				}
				stopped = !more
				if got := ssp.partitionState(); got != state {
					fail("state is %d, should be %d", got, state)
				}
				if len(applied) != len(want) {
					fail("%d records applied, should be %d", len(applied), len(want))
				}
				for i, r := range want {
					if a := applied[i]; a.Offset() != r.Offset || string(a.Key()) != string(r.Key) || string(a.Value()) != string(r.Value) {
						fail("record %d applied is %d, should be %d", i, a.Offset(), r.Offset)
					}
				}
				for i, w := range ws {
					if c13Closed(w.c) != w.seen {
						fail("waiter %d released: %v, its marker came: %v", i, !w.seen, w.seen)
					}
					if _, ok := ssp.waiters[string(w.mark)]; ok == w.seen {
						fail("waiter %d still registered: %v, its marker came: %v", i, ok, w.seen)
					}
				}
				if (ssp.buffer == nil) != stopped {
					fail("replay stopped: %v, should be %v", ssp.buffer == nil, stopped)
				}
			}
		}()
	}
}

// a partition prepared, forgotten and prepared again is not ready before its own marker comes
func TestVerifC13_Again(t *testing.T) {
	client, err := kgo.NewClient()
	if err != nil {
		t.Skip(err)
	}
	defer client.Close()
	var applied []IncomingRecord
	store := changeLogPartition[c13Store]{store: c13Store{&applied}, topic: "t"}
	ssp := &stateStorePartition[c13Store]{
		client: client, waiters: map[string]chan struct{}{}, topicPartition: TopicPartition{Partition: 3, Topic: "t"}, buffer: make(chan []*kgo.Record, 64),
	}
	wait := func(s partitionState) bool {
		for i := 0; i < 200; i++ {
			if ssp.partitionState() == s {
				return true
			}
			time.Sleep(2 * time.Millisecond)
		}
		return false
	}
	ssp.prep(prepping, store)
	_, m1 := ssp.addWaiter()
	ssp.cancel()
	ssp.prep(prepping, store)
	c2, m2 := ssp.addWaiter()
	b := ssp.buffer
	b <- []*kgo.Record{{Topic: "t", Partition: 3, Offset: 0}, c13Mark(m1, true), {Topic: "t", Partition: 3, Offset: 2}}
	time.Sleep(30 * time.Millisecond)
	if s := ssp.partitionState(); s != prepping {
		t.Fatalf("FAILING-INPUT: prepare, forget, prepare, marker of the first preparation: state is %d before the marker of the second", s)
	}
	b <- []*kgo.Record{c13Mark(m2, true)}
	if !wait(ready) || !c13Closed(c2) {
		t.Fatalf("FAILING-INPUT: prepare, forget, prepare, both markers: state is %d", ssp.partitionState())
	}
	if len(applied) != 2 {
		t.Fatalf("FAILING-INPUT: %d of 2 records applied when ready", len(applied))
	}
	ssp.cancel()
}
