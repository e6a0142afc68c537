package streams

import (
	"context"
	"testing"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c27P struct{ id int }
type c27TP struct {
	id    int
	topic string
}

func (p c27P) ForTopic(t string) kgo.TopicPartitioner           { return c27TP{p.id, t} }
func (p c27TP) RequiresConsistency(*kgo.Record) bool            { return false }
func (p c27TP) Partition(r *kgo.Record, n int) int              { return (p.id + len(r.Key)) % n }

type c27Producer struct {
	recs []*Record
	ctx  []*EventContext[intStore]
}

func (p *c27Producer) ProduceRecord(ec *EventContext[intStore], r *Record, cb func(*Record, error)) {
	p.recs = append(p.recs, r)
	p.ctx = append(p.ctx, ec)
}

func TestVerifC27_Placement(t *testing.T) {
	for _, op := range []OptionalPartitioner{NewOptionalPartitioner(c27P{3}), NewOptionalPerTopicPartitioner(c27P{3}, map[string]kgo.Partitioner{"a": c27P{5}, "": c27P{7}})} {
		for _, topic := range []string{"a", "b", ""} {
			id := 3
			if p, ok := op.topicPartitioners[topic]; ok {
				id = p.(c27P).id
			}
			tp := op.ForTopic(topic)
			for n := 1; n < 30; n++ {
				for k := 0; k < 12; k++ {
					for p := int32(-1); p < int32(n); p++ {
						r := &kgo.Record{Topic: topic, Partition: p, Key: make([]byte, k)}
						want := int(p)
						if p == AutoAssign {
							want = (id + k) % n
						}
						if !tp.RequiresConsistency(r) {
							t.Fatalf("FAILING-INPUT: topic %q, partition %d: placement may change", topic, p)
						}
						if g := tp.Partition(r, n); g != want {
							t.Fatalf("FAILING-INPUT: topic %q, partition %d of %d, key of %d bytes: placed at %d, want %d", topic, p, n, k, g, want)
						}
					}
				}
			}
		}
	}
}

func TestVerifC27_Changes(t *testing.T) {
	for _, topic := range []string{"", "store"} {
		for p := int32(0); p < 4; p++ {
			pr := &c27Producer{}
			ec := MockInterjectionEventContext[intStore](context.Background(), ntp(p, "in"), topic, intStore{}, nil, pr)
			es := []ChangeLogEntry{NewChangeLogEntry().WithKeyString("a"), NewChangeLogEntry().WithKeyString("b"), NewChangeLogEntry().WithKeyString("c")}
			es[1].record.WithPartition(9).WithTopic("x")
			want := []*Record{es[0].record, es[1].record, es[2].record}
			ec.RecordChange(es...)
			if topic == "" {
				if len(pr.recs) != 0 {
					t.Fatalf("FAILING-INPUT: a stateless source produced %d changes", len(pr.recs))
				}
				continue
			}
			if len(pr.recs) != 3 {
				t.Fatalf("FAILING-INPUT: 3 changes, %d produced", len(pr.recs))
			}
			for i, r := range pr.recs {
				if r != want[i] || r.TopicPartition() != ntp(p, topic) || pr.ctx[i] != ec {
					t.Fatalf("FAILING-INPUT: change %d of an event at partition %d went to %+v", i, p, r.TopicPartition())
				}
			}
			pr.recs = nil
			pr.ctx = nil
			rs := []*Record{NewRecord().WithTopic("a").WithPartition(2), NewRecord().WithTopic("b")}
			ec.Forward(rs...)
			if len(pr.recs) != 2 || pr.recs[0] != rs[0] || pr.recs[1] != rs[1] || rs[0].TopicPartition() != ntp(2, "a") || rs[1].TopicPartition() != ntp(-1, "b") {
				t.Fatalf("FAILING-INPUT: forwarded records were changed, lost or reordered")
			}
		}
	}
}
