package stores

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"unsafe"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
)

type c12Item struct {
	ID string
	V  int
}

func (i c12Item) Key() string { return i.ID }

type c12Codec struct{}

func (c12Codec) Encode(b *bytes.Buffer, i c12Item) error {
	return json.NewEncoder(b).Encode(i)
}
func (c12Codec) Decode(b []byte) (i c12Item, err error) {
	if bytes.HasPrefix(b, []byte("bad")) {
		return c12Item{ID: "a", V: -1}, errors.New("bad")
	}
	err = json.Unmarshal(b, &i)
	return
}

// what the change log would deliver for an entry, by way of the public record API
func c12Incoming(key, value []byte) streams.IncomingRecord {
	return streams.NewRecord().WithKey(key).WithValue(value).AsIncomingRecord()
}

func c12Entry(t *testing.T, c streams.ChangeLogEntry, key string) streams.IncomingRecord {
	if k := c.KeyWriter().String(); k != key {
		t.Fatalf("FAILING-INPUT: change entry for key %q has key %q", key, k)
	}
	return c12Incoming(c.KeyWriter().Bytes(), c.ValueWriter().Bytes())
}

func TestVerifC12_Store(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	keys := []string{"", "a", "b", "aa", "ab", "\x00", "z"}
	for round := 0; round < 200; round++ {
		a := NewSimpleStore[c12Item](streams.TopicPartition{}, c12Codec{})
		b := NewSimpleStore[c12Item](streams.TopicPartition{}, c12Codec{})
		m := map[string]c12Item{}
		var hist []string
		for i := 0; i < 40; i++ {
			it := c12Item{keys[rnd.Intn(len(keys))], rnd.Intn(1000)}
			switch rnd.Intn(6) {
			case 0, 1, 2:
				hist = append(hist, fmt.Sprintf("put %+v", it))
				m[it.ID] = it
				if err := b.ReceiveChange(c12Entry(t, a.Put(it), it.ID)); err != nil {
					t.Fatalf("FAILING-INPUT: %v: replaying: %v", hist, err)
				}
			case 3, 4:
				hist = append(hist, fmt.Sprintf("delete %q", it.ID))
				_, had := m[it.ID]
				c, ok := a.Delete(it)
				if ok != had {
					t.Fatalf("FAILING-INPUT: %q: delete reports %v", hist, ok)
				}
				delete(m, it.ID)
				if ok {
					if c.ValueWriter().Len() != 0 {
						t.Fatalf("FAILING-INPUT: %q: the entry of a delete has a value", hist)
					}
					if err := b.ReceiveChange(c12Entry(t, c, it.ID)); err != nil {
						t.Fatalf("FAILING-INPUT: %q: replaying: %v", hist, err)
					}
				}
			case 5:
				hist = append(hist, "undecodable")
				if b.ReceiveChange(c12Incoming([]byte(it.ID), []byte("bad"+it.ID))) == nil {
					t.Fatalf("FAILING-INPUT: %q: undecodable value not reported", hist)
				}
			}
			for _, k := range keys {
				w, had := m[k]
				for n, s := range []*SimpleStore[c12Item]{a, b} {
					if g, ok := s.Get(k); ok != had || g != w {
						t.Fatalf("FAILING-INPUT: %q: key %q of store %d is %+v,%v, want %+v,%v", hist, k, n, g, ok, w, had)
					}
				}
			}
		}
		a.Revoked()
		for _, k := range keys {
			if _, ok := a.Get(k); ok {
				t.Fatalf("FAILING-INPUT: revoked store still has %q", k)
			}
		}
	}
}

// an empty value deletes, whether it arrives as nil or as an empty slice
func c12Raw(k *kgo.Record) (in streams.IncomingRecord) {
	f := reflect.ValueOf(&in).Elem().FieldByName("kRecord")
	*(*kgo.Record)(unsafe.Pointer(f.UnsafeAddr())) = *k
	return
}

func TestVerifC12_EmptyValue(t *testing.T) {
	for _, v := range [][]byte{nil, {}} {
		s := NewSimpleStore[c12Item](streams.TopicPartition{}, c12Codec{})
		s.Put(c12Item{"a", 1})
		s.Put(c12Item{"b", 2})
		in := c12Raw(&kgo.Record{Key: []byte("a"), Value: v})
		if err := s.ReceiveChange(in); err != nil {
			t.Fatalf("FAILING-INPUT: value %#v: %v", v, err)
		}
		_, ok1 := s.Get("a")
		_, ok2 := s.Get("b")
		if ok1 || !ok2 {
			t.Fatalf("FAILING-INPUT: a record with value %#v for key a leaves a:%v b:%v", v, ok1, ok2)
		}
	}
}
