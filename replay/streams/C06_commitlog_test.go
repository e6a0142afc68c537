package streams

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

func c06Log(n int32) *eosCommitLog {
	return &eosCommitLog{
		watermarks:    make(map[int32]int64),
		pendingSyncs:  make(map[string]*sync.WaitGroup),
		numPartitions: n,
		topic:         "progress",
	}
}

func c06Marker(mark string) IncomingRecord {
	return newIncomingRecord(&kgo.Record{Key: markerKey, Value: []byte(mark), Headers: []kgo.RecordHeader{{Key: markerKeyString}}})
}

func TestVerifC06_RoundTrip(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("FAILING-INPUT: panic: %v", r)
		}
	}()
	rnd := rand.New(rand.NewSource(2))
	topics := []string{"", "t", "a topic", markerKeyString, strings.Repeat("long", 70), "\xff\x00"}
	offsets := []int64{0, 1, 254, 255, 256, 65535, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, 1 << 40, math.MaxInt64 - 1}
	parts := []int32{0, 1, 7, 127, 128, 255, 256, 65535, 65536, math.MaxInt32}
	for round := 0; round < 300; round++ {
		n := int32(1 + rnd.Intn(12))
		cl := c06Log(n)
		want := map[int32]int64{}
		where := map[int32]int32{}
		var hist []string
		for i := 0; i < 20; i++ {
			tp := TopicPartition{Topic: topics[rnd.Intn(len(topics))], Partition: parts[rnd.Intn(len(parts))]}
			off := offsets[rnd.Intn(len(offsets))]
			hist = append(hist, fmt.Sprintf("%q/%d@%d", tp.Topic, tp.Partition, off))
			r := cl.commitRecord(tp, off)
			k := r.toKafkaRecord()
			if k.Topic != "progress" || k.Partition < 0 || k.Partition >= n {
				t.Fatalf("FAILING-INPUT: progress of %d goes to %s/%d of %d", tp.Partition, k.Topic, k.Partition, n)
			}
			if p, ok := where[tp.Partition]; ok && p != k.Partition {
				t.Fatalf("FAILING-INPUT: progress of %d goes to partitions %d and %d", tp.Partition, p, k.Partition)
			}
			where[tp.Partition] = k.Partition
			if p := cl.commitRecordPartition(tp); p != k.Partition {
				t.Fatalf("FAILING-INPUT: progress of %d goes to %d, is looked for in %d", tp.Partition, k.Partition, p)
			}
			if back := topicPartitionFromBytes(k.Key); back != tp {
				t.Fatalf("FAILING-INPUT: %+v is read back as %+v", tp, back)
			}
			if err := cl.ReceiveChange(newIncomingRecord(&kgo.Record{Topic: k.Topic, Partition: k.Partition, Key: append([]byte(nil), k.Key...), Value: append([]byte(nil), k.Value...), Headers: k.Headers})); err != nil {
				t.Fatalf("FAILING-INPUT: %v: %v", hist, err)
			}
			want[tp.Partition] = off + 1
			for _, p := range parts {
				w, ok := want[p]
				if !ok {
					w = -1
				}
				if g := cl.Watermark(TopicPartition{Topic: tp.Topic, Partition: p}); g != w {
					t.Fatalf("FAILING-INPUT: after %v partition %d resumes at %d, want %d", hist, p, g, w)
				}
			}
			// a marker whose content looks like progress
			cl.ReceiveChange(newIncomingRecord(&kgo.Record{Key: k.Key, Value: []byte("12345678"), Headers: []kgo.RecordHeader{{Key: markerKeyString}}}))
			if g := cl.Watermark(tp); g != off+1 {
				t.Fatalf("FAILING-INPUT: after %v and a marker partition %d resumes at %d, want %d", hist, tp.Partition, g, off+1)
			}
			r.Release()
		}
	}
}

func TestVerifC06_Markers(t *testing.T) {
	cl := c06Log(3)
	marks := []string{"m", "mark-1", "mark-2", "MARK-1", "11111111-2222-3333-4444-555555555555"}
	done := map[string]chan struct{}{}
	for _, m := range marks {
		wg := &sync.WaitGroup{}
		wg.Add(1)
		cl.pendingSyncs[m] = wg
		c := make(chan struct{})
		done[m] = c
		go func() { wg.Wait(); close(c) }()
	}
	cl.ReceiveChange(c06Marker("nobody's"))
	for i, m := range marks {
		for k := 0; k < 2; k++ { // the second one finds no waiter
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("FAILING-INPUT: marker %q delivered twice: %v", m, r)
					}
				}()
				cl.ReceiveChange(c06Marker(m))
			}()
		}
		select {
		case <-done[m]:
		case <-time.After(5 * time.Second):
			t.Fatalf("FAILING-INPUT: the waiter of marker %q is not released", m)
		}
		time.Sleep(5 * time.Millisecond)
		for _, o := range marks[i+1:] {
			select {
			case <-done[o]:
				t.Fatalf("FAILING-INPUT: marker %q releases the waiter of %q", m, o)
			default:
			}
		}
	}
}
