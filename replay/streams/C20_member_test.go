package streams

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type c20Handler struct {
	mu       sync.Mutex
	client   *kgo.Client
	asked    int // calls of Client: one for each rebalance requested
	prepared map[TopicPartition]int
	forgot   map[TopicPartition]int
}

func (h *c20Handler) PrepareTopicPartition(tp TopicPartition) {
	h.mu.Lock()
	h.prepared[tp]++
	h.mu.Unlock()
}
func (h *c20Handler) ForgetPreparedTopicPartition(tp TopicPartition) {
	h.mu.Lock()
	h.forgot[tp]++
	h.mu.Unlock()
}
func (h *c20Handler) Client() *kgo.Client {
	h.mu.Lock()
	h.asked++
	h.mu.Unlock()
	return h.client
}

func c20Assignment(prepare, forget []TopicPartition, assigned ...int32) []byte {
	var a kmsg.ConsumerMemberAssignment
	a.UserData, _ = json.Marshal(IncrGroupMemberInstructions{Prepare: prepare, Forget: forget})
	t := kmsg.NewConsumerMemberAssignmentTopic()
	t.Topic = "t"
	t.Partitions = assigned
	a.Topics = append(a.Topics, t)
	for _, other := range []string{"s", "u"} { // topics of which nothing is assigned
		t := kmsg.NewConsumerMemberAssignmentTopic()
		t.Topic = other
		a.Topics = append(a.Topics, t)
	}
	return a.AppendTo(nil)
}

// random histories of instructions, results and assignments against a reference
func TestVerifC20_History(t *testing.T) {
	cl, err := kgo.NewClient(kgo.SeedBrokers("127.0.0.1:1"))
	if err != nil {
		t.Fatal(err)
	}
	defer cl.Close()
	for seed := int64(0); seed < 60; seed++ {
		rnd := rand.New(rand.NewSource(seed))
		h := &c20Handler{client: cl, prepared: map[TopicPartition]int{}, forgot: map[TopicPartition]int{}}
		ir := IncrementalRebalancer(h).(*incrementalRebalancer)
		prep, ready := map[TopicPartition]bool{}, map[TopicPartition]bool{}
		prepared, forgot := map[TopicPartition]int{}, map[TopicPartition]int{}
		asked, status := 0, ActiveMember
		var hist []string
		some := func() (r []TopicPartition) {
			for n := rnd.Intn(4); n > 0; n-- {
				r = append(r, TopicPartition{Topic: "t", Partition: int32(rnd.Intn(5))})
			}
			return
		}
		for op := 0; op < 40; op++ {
			tp := TopicPartition{Topic: "t", Partition: int32(rnd.Intn(5))}
			switch rnd.Intn(5) {
			case 0:
				hist = append(hist, fmt.Sprint("prepared ", tp.Partition))
				ir.PartitionPrepared(tp)
				if prep[tp] {
					delete(prep, tp)
					ready[tp] = true
					asked++
				}
			case 1:
				hist = append(hist, fmt.Sprint("failed ", tp.Partition))
				ir.PartitionPreparationFailed(tp)
				if prep[tp] || ready[tp] {
					asked++
				}
				delete(prep, tp)
				delete(ready, tp)
			case 2:
				tps := some()
				hist = append(hist, fmt.Sprint("assigned ", tps))
				ir.PartitionsAssigned(tps...)
				any := false
				for _, x := range tps {
					any = any || prep[x] || ready[x]
					delete(prep, x)
					delete(ready, x)
				}
				if any {
					asked++
				}
			default:
				p, f := some(), some()
				var as []int32
				if rnd.Intn(3) > 0 {
					as = []int32{7}
				}
				hist = append(hist, fmt.Sprint("sync prepare ", p, " forget ", f, " assigned ", as))
				if _, err := ir.ParseSyncAssignment(c20Assignment(p, f, as...)); err != nil {
					t.Fatal(err)
				}
				if status == InactiveMember && len(as) == 0 {
					status = Defunct
					break
				}
				for _, x := range p {
					if !ready[x] && !prep[x] {
						prep[x] = true
						prepared[x]++
					}
				}
				for _, x := range f {
					if ready[x] || prep[x] {
						forgot[x]++
					}
					delete(prep, x)
					delete(ready, x)
				}
				if len(f) > 0 {
					asked++
				}
			}
			if status == ActiveMember && rnd.Intn(20) == 0 {
				hist = append(hist, "leave")
				if c := ir.GracefullyLeaveGroup(); c != (<-chan struct{})(ir.gracefulChan) {
					t.Fatalf("FAILING-INPUT: %v: another channel than the one closed at departure", hist)
				}
				status = InactiveMember
				asked++
			}
			if status == Defunct {
				select {
				case <-ir.gracefulChan:
				default:
					t.Fatalf("FAILING-INPUT: %v: departure is not signalled", hist)
				}
			} else {
				select {
				case <-ir.gracefulChan:
					t.Fatalf("FAILING-INPUT: %v: departure is signalled with partitions assigned", hist)
				default:
				}
			}
			ok := func() bool {
				h.mu.Lock()
				defer h.mu.Unlock()
				if h.asked != asked {
					return false
				}
				for i := int32(0); i < 5; i++ {
					x := TopicPartition{Topic: "t", Partition: i}
					if h.prepared[x] != prepared[x] || h.forgot[x] != forgot[x] {
						return false
					}
				}
				return true
			}
			for i := 0; i < 200 && !ok(); i++ {
				time.Sleep(time.Millisecond)
			}
			if !ok() {
				t.Fatalf("FAILING-INPUT: %v: %d rebalances requested instead of %d, prepared %v instead of %v, forgotten %v instead of %v", hist, h.asked, asked, h.prepared, prepared, h.forgot, forgot)
			}
			var meta IncrGroupMemberMeta
			json.Unmarshal(ir.userData(), &meta)
			if meta.Status != status || len(meta.Preparing) != len(prep) || len(meta.Ready) != len(ready) {
				t.Fatalf("FAILING-INPUT: %v: reports status %v preparing %v ready %v instead of %v %v %v", hist, meta.Status, meta.Preparing, meta.Ready, status, prep, ready)
			}
			for _, x := range meta.Preparing {
				if !prep[x] {
					t.Fatalf("FAILING-INPUT: %v: %v reported as preparing", hist, x)
				}
			}
			for _, x := range meta.Ready {
				if !ready[x] {
					t.Fatalf("FAILING-INPUT: %v: %v reported as ready", hist, x)
				}
			}
		}
	}
}
