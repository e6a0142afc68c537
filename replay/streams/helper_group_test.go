package streams

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
)

type vgMember struct {
	ID               string
	Status           MemberStatus
	LeftAt           int64
	Owned            []int32
	Preparing, Ready []int32
}

func vgTps(ps []int32, topic string) (r []TopicPartition) {
	for _, p := range ps {
		r = append(r, TopicPartition{Partition: p, Topic: topic})
	}
	return
}

func vgHas(ps []int32, p int32) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

// vgRun balances the topic and returns what each member was given and was told to prepare
func vgRun(ms []vgMember, count int32) (plan map[string][]int32, prepare map[string][]int32, err error) {
	const topic = "vgtopic"
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	var jm []kmsg.JoinGroupResponseMember
	for _, m := range ms {
		meta := kmsg.NewConsumerMemberMetadata()
		meta.Version = 1
		meta.Topics = []string{topic}
		if len(m.Owned) > 0 {
			o := kmsg.NewConsumerMemberMetadataOwnedPartition()
			o.Topic = topic
			o.Partitions = m.Owned
			meta.OwnedPartitions = append(meta.OwnedPartitions, o)
		}
		meta.UserData, _ = json.Marshal(IncrGroupMemberMeta{Preparing: vgTps(m.Preparing, topic), Ready: vgTps(m.Ready, topic), Status: m.Status, LeftAt: m.LeftAt})
		j := kmsg.NewJoinGroupResponseMember()
		j.MemberID = m.ID
		j.ProtocolMetadata = meta.AppendTo(nil)
		jm = append(jm, j)
	}
	ib := incrementalBalanceController{budget: 1}
	cb, e := kgo.NewConsumerBalancer(ib, jm)
	if e != nil {
		return nil, nil, e
	}
	bp := cb.NewPlan()
	gs, _ := ib.balanceTopic(cb, bp, count, topic)
	plan, prepare = map[string][]int32{}, map[string][]int32{}
	for id, ts := range bp.AsMemberIDMap() {
		plan[id] = ts[topic]
	}
	for id, m := range gs.members {
		for _, tp := range m.instructions.Prepare {
			prepare[id] = append(prepare[id], tp.Partition)
		}
	}
	return
}

// vgRandom makes a group: claims may collide, members may be leaving or gone, preparations may be going on
func vgRandom(r *rand.Rand, collide bool) ([]vgMember, int32) {
	count := int32(1 + r.Intn(12))
	n := 1 + r.Intn(5)
	ms := make([]vgMember, n)
	for i := range ms {
		ms[i].ID = fmt.Sprintf("m%d", i)
		if i > 0 && r.Intn(3) == 0 {
			ms[i].Status = MemberStatus(1 + r.Intn(2))
			ms[i].LeftAt = int64(1 + r.Intn(5))
		}
	}
	skew := r.Intn(3)
	own := r.Intn(4) > 0
	for p := int32(0); p < count; p++ {
		if own || r.Intn(3) > 0 {
			i := r.Intn(n)
			if skew == 1 && r.Intn(3) > 0 {
				i = 0
			}
			ms[i].Owned = append(ms[i].Owned, p)
			if collide && r.Intn(6) == 0 {
				j := r.Intn(n)
				if j != i {
					ms[j].Owned = append(ms[j].Owned, p)
				}
			}
		}
	}
	if r.Intn(2) == 0 {
		for k := 0; k < 1+r.Intn(2); k++ {
			m := &ms[r.Intn(n)]
			p := int32(r.Intn(int(count)))
			if vgHas(m.Owned, p) || vgHas(m.Preparing, p) || vgHas(m.Ready, p) {
				continue
			}
			if r.Intn(2) == 0 {
				m.Preparing = append(m.Preparing, p)
			} else {
				m.Ready = append(m.Ready, p)
			}
		}
	}
	return ms, count
}

func vgOwners(ms []vgMember, p int32) (r []string) {
	for _, m := range ms {
		if vgHas(m.Owned, p) {
			r = append(r, m.ID)
		}
	}
	return
}

func vgGiven(plan map[string][]int32, p int32) (r []string) {
	for id, ps := range plan {
		for _, x := range ps {
			if x == p {
				r = append(r, id)
			}
		}
	}
	sort.Strings(r)
	return
}

func vgByID(ms []vgMember, id string) vgMember {
	for _, m := range ms {
		if m.ID == id {
			return m
		}
	}
	return vgMember{}
}
