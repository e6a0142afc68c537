package streams

import (
	"math/rand"
	"testing"
)

func TestVerifC17_Sets(t *testing.T) {
	less := func(a, b TopicPartition) bool {
		return a.Partition < b.Partition || a.Partition == b.Partition && a.Topic < b.Topic
	}
	topics := []string{"", "a", "aa", "b", "ab", "B"}
	r := rand.New(rand.NewSource(1))
	for round := 0; round < 300; round++ {
		s := NewTopicPartitionSet()
		m := map[TopicPartition]bool{}
		for i := 0; i < 300; i++ {
			tp := ntp(int32(r.Intn(1+round%40)), topics[r.Intn(len(topics))])
			switch r.Intn(3) {
			case 0, 1:
				if s.Insert(tp) == m[tp] {
					t.Fatalf("FAILING-INPUT: inserting %+v into %v reports %v", tp, m, m[tp])
				}
				m[tp] = true
			case 2:
				if s.Remove(tp) != m[tp] {
					t.Fatalf("FAILING-INPUT: removing %+v from %v reports %v", tp, m, !m[tp])
				}
				delete(m, tp)
			}
			for _, x := range topics {
				q := ntp(tp.Partition, x)
				if s.Contains(q) != m[q] {
					t.Fatalf("FAILING-INPUT: membership of %+v in %v is %v", q, m, !m[q])
				}
			}
		}
		items := s.Items()
		if len(items) != len(m) {
			t.Fatalf("FAILING-INPUT: %d items of %v", len(items), m)
		}
		for i, x := range items {
			if !m[x] || i > 0 && !less(items[i-1], x) {
				t.Fatalf("FAILING-INPUT: items %v of %v are not the members in order", items, m)
			}
		}
	}
	for _, a := range topics {
		for _, b := range topics {
			for p := int32(0); p < 3; p++ {
				for q := int32(0); q < 3; q++ {
					x, y := ntp(p, a), ntp(q, b)
					if topicPartitionLess(x, y) != less(x, y) {
						t.Fatalf("FAILING-INPUT: %+v before %+v: %v", x, y, !less(x, y))
					}
				}
			}
		}
	}
}
