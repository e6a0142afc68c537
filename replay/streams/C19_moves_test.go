package streams

import (
	"math/rand"
	"testing"
)

func TestVerifC19_Moves(t *testing.T) {
	if b := IncrementalRebalancer(nil).(*incrementalRebalancer).balancerController.budget; b != 1 {
		t.Fatalf("FAILING-INPUT: the rebalancer works with a budget of %d moves at a time", b)
	}
	for seed := int64(0); seed < 8000; seed++ {
		ms, count := vgRandom(rand.New(rand.NewSource(seed)), false)
		plan, prepare, err := vgRun(ms, count)
		if err != nil {
			t.Fatalf("FAILING-INPUT: group %+v with %d partitions: %v", ms, count, err)
		}
		moving, active := 0, 0
		min, max, multi := 1<<30, -1, false
		var leaving []int32
		for _, m := range ms {
			if m.Status == ActiveMember {
				active++
				moving += len(m.Preparing) + len(m.Ready)
				n := len(m.Owned) + len(m.Preparing) + len(m.Ready)
				if n < min {
					min = n
				}
				if n > max {
					max, multi = n, false
				}
				if n == max && len(m.Owned) > 1 {
					multi = true
				}
			} else {
				leaving = append(leaving, m.Owned...)
			}
		}
		for p := int32(0); p < count; p++ {
			o := vgOwners(ms, p)
			if len(o) == 0 {
				moving++
			} else if g := vgGiven(plan, p); len(g) == 1 && g[0] != o[0] && !vgHas(vgByID(ms, g[0]).Ready, p) {
				t.Fatalf("FAILING-INPUT: group %+v with %d partitions: partition %d moves from %s to %s, which did not declare it ready", ms, count, p, o[0], g[0])
			}
		}
		told := 0
		for id, ps := range prepare {
			told += len(ps)
			if vgByID(ms, id).Status != ActiveMember {
				t.Fatalf("FAILING-INPUT: group %+v with %d partitions: %s, which is leaving, is told to prepare %v", ms, count, id, ps)
			}
			for _, p := range ps {
				if len(leaving) > 0 && !vgHas(leaving, p) {
					t.Fatalf("FAILING-INPUT: group %+v with %d partitions: %s is told to prepare %d while members which leave hold %v", ms, count, id, p, leaving)
				}
				if len(leaving) == 0 && (active < 2 || !multi || !(min < int(count)/active || max > int(count)/active+1)) {
					t.Fatalf("FAILING-INPUT: group %+v with %d partitions: %s is told to prepare %d although the group is in balance", ms, count, id, p)
				}
			}
		}
		budget := 1 - moving
		if budget < 0 {
			budget = 0
		}
		if told > budget {
			t.Fatalf("FAILING-INPUT: group %+v with %d partitions: %d moves are scheduled with %d under way: %v", ms, count, told, moving, prepare)
		}
	}
}
