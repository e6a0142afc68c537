package streams

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c10Model struct {
	topic      string
	part       int32
	key, value []byte
	headers    []kgo.RecordHeader
	rtype      string
	ts         time.Time
}

func (m *c10Model) typed() []kgo.RecordHeader {
	hs := append([]kgo.RecordHeader{}, m.headers...)
	if m.rtype != "" {
		for _, h := range hs {
			if h.Key == RecordTypeHeaderKey {
				return hs
			}
		}
		hs = append(hs, kgo.RecordHeader{Key: RecordTypeHeaderKey, Value: []byte(m.rtype)})
	}
	return hs
}

func c10Same(a, b []kgo.RecordHeader) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || !bytes.Equal(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

func (m *c10Model) check(t *testing.T, what string, k *kgo.Record) {
	if k.Topic != m.topic || k.Partition != m.part || !bytes.Equal(k.Key, m.key) || !bytes.Equal(k.Value, m.value) || !k.Timestamp.Equal(m.ts) {
		t.Fatalf("FAILING-INPUT: %s of a record set to %+v is %+v", what, *m, *k)
	}
	if len(m.value) == 0 && k.Value != nil {
		t.Fatalf("FAILING-INPUT: %s of a record with an empty value (%+v) is no deletion: value %#v", what, *m, k.Value)
	}
	if !c10Same(k.Headers, m.typed()) {
		t.Fatalf("FAILING-INPUT: %s of a record set to %+v has headers %v, want %v", what, *m, k.Headers, m.typed())
	}
}

func TestVerifC10_Records(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	bs := func() []byte { b := make([]byte, rnd.Intn(4)); rnd.Read(b); return b }
	var used []*Record
	for i := 0; i < 3000; i++ {
		r := NewRecord()
		m := &c10Model{part: AutoAssign}
		m.check(t, "a fresh copy", r.ToKafkaRecord())
		if r.Error() != nil || r.Offset() != 0 {
			t.Fatalf("FAILING-INPUT: a record taken from the pool has error %v, offset %d", r.Error(), r.Offset())
		}
		cle := ChangeLogEntry{r}
		for n := rnd.Intn(8); n > 0; n-- {
			a, b := bs(), bs()
			var x *Record
			switch rnd.Intn(20) {
			case 0:
				r.WriteKey(a, b)
				m.key = append(append(m.key, a...), b...)
			case 1:
				r.WriteKeyString(string(a), string(b))
				m.key = append(append(m.key, a...), b...)
			case 2:
				r.KeyWriter().Write(a)
				m.key = append(m.key, a...)
			case 3:
				r.WriteValue(a, b)
				m.value = append(append(m.value, a...), b...)
			case 4:
				r.WriteValueString(string(a), string(b))
				m.value = append(append(m.value, a...), b...)
			case 5:
				r.ValueWriter().Write(a)
				m.value = append(m.value, a...)
			case 6:
				m.topic = fmt.Sprint("t", a)
				x = r.WithTopic(m.topic)
			case 7:
				x = r.WithKey(a, b)
				m.key = append(append(m.key, a...), b...)
			case 8:
				x = r.WithKeyString(string(a), string(b))
				m.key = append(append(m.key, a...), b...)
			case 9:
				x = r.WithValue(a, b)
				m.value = append(append(m.value, a...), b...)
			case 10:
				x = r.WithHeader(string(a), b)
				m.headers = append(m.headers, kgo.RecordHeader{Key: string(a), Value: b})
			case 11:
				m.rtype = string(a)
				x = r.WithRecordType(m.rtype)
			case 12:
				m.part = int32(rnd.Intn(5)) - 1
				x = r.WithPartition(m.part)
			case 13:
				m.rtype = string(b)
				cle.WithEntryType(m.rtype)
			case 14:
				cle.WithKey(a, b)
				cle.WithKeyString(string(b))
				m.key = append(append(append(m.key, a...), b...), b...)
			case 15:
				cle.WithValue(a, b)
				m.value = append(append(m.value, a...), b...)
			case 16:
				cle.WriteKey(a)
				cle.WriteKeyString(string(b))
				cle.WriteValue(a)
				cle.WriteValueString(string(b))
				m.key = append(append(m.key, a...), b...)
				m.value = append(append(m.value, a...), b...)
			case 17:
				cle.WithHeader(string(b), a)
				m.headers = append(m.headers, kgo.RecordHeader{Key: string(b), Value: a})
			case 18:
				r.WithHeader(RecordTypeHeaderKey, a)
				m.headers = append(m.headers, kgo.RecordHeader{Key: RecordTypeHeaderKey, Value: a})
			case 19:
				m.ts = time.Unix(int64(rnd.Intn(1e9)), 0)
				r.kRecord.Timestamp = m.ts
			}
			if x != nil && x != r {
				t.Fatalf("FAILING-INPUT: a With method returns another record")
			}
		}
		if r.TopicPartition() != ntp(m.part, m.topic) {
			t.Fatalf("FAILING-INPUT: %+v reports %+v", *m, r.TopicPartition())
		}
		c := r.ToKafkaRecord()
		m.check(t, "the public copy", c)
		in := r.AsIncomingRecord()
		m.check(t, "the incoming copy", &in.kRecord)
		if in.RecordType() != m.rtype {
			t.Fatalf("FAILING-INPUT: incoming copy of %+v has type %q", *m, in.RecordType())
		}
		for _, b := range [][]byte{c.Key, c.Value} {
			for j := range b {
				b[j]++
			}
		}
		for j := range c.Headers {
			c.Headers[j].Key += "x"
		}
		k := r.toKafkaRecord()
		m.check(t, "the produced record", k)
		k.Offset, k.LeaderEpoch = 5, 6
		r2 := newIncomingRecord(k)
		want := ""
		for _, h := range m.typed() {
			if h.Key == RecordTypeHeaderKey {
				want = string(h.Value)
			}
		}
		if r2.RecordType() != want || r2.Offset() != 5 || r2.LeaderEpoch() != 6 || !bytes.Equal(r2.Key(), m.key) || !bytes.Equal(r2.Value(), m.value) || !c10Same(r2.Headers(), m.typed()) || r2.TopicPartition() != ntp(m.part, m.topic) || !r2.Timestamp().Equal(m.ts) {
			t.Fatalf("FAILING-INPUT: %+v arrives as %+v", *m, r2)
		}
		for _, h := range m.typed() {
			var first []byte
			for _, g := range m.typed() {
				if g.Key == h.Key {
					first = g.Value
					break
				}
			}
			if !bytes.Equal(r2.HeaderValue(h.Key), first) || r2.HeaderValue("none such") != nil {
				t.Fatalf("FAILING-INPUT: header %q of %v is %v", h.Key, m.typed(), r2.HeaderValue(h.Key))
			}
		}
		r.err = fmt.Errorf("x")
		used = append(used, r)
		if len(used) > 3 {
			for _, u := range used {
				u.Release()
			}
			used = nil
		}
	}
	k := &kgo.Record{Headers: []kgo.RecordHeader{{Key: "a"}}}
	SetRecordType(k, "ty")
	if len(k.Headers) != 2 || newIncomingRecord(k).RecordType() != "ty" {
		t.Fatalf("FAILING-INPUT: SetRecordType gives %v", k.Headers)
	}
	cle, err := CreateJsonChangeLogEntry(5)
	if err != nil || cle.ValueWriter().String() == "" || cle.KeyWriter().Len() != 0 || !reflect.DeepEqual(cle.record.kRecord.Headers, []kgo.RecordHeader(nil)) {
		t.Fatalf("FAILING-INPUT: change log entry of 5: %+v, %v", cle.record, err)
	}
}
