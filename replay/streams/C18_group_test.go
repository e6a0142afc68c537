package streams

import (
	"math/rand"
	"testing"
)

func TestVerifC18_EveryPartitionOnce(t *testing.T) {
	for seed := int64(0); seed < 6000; seed++ {
		ms, count := vgRandom(rand.New(rand.NewSource(seed)), true)
		plan, _, err := vgRun(ms, count)
		if err != nil {
			t.Fatalf("FAILING-INPUT: group %+v with %d partitions: %v", ms, count, err)
		}
		for p := int32(0); p < count; p++ {
			got := vgGiven(plan, p)
			if len(got) != 1 {
				t.Fatalf("FAILING-INPUT: group %+v with %d partitions: partition %d is given to %v, not to one member; plan %v", ms, count, p, got, plan)
			}
			to := vgByID(ms, got[0])
			owners := vgOwners(ms, p)
			was := false
			for _, o := range owners {
				was = was || o == got[0]
			}
			if !was && to.Status != ActiveMember {
				t.Fatalf("FAILING-INPUT: group %+v with %d partitions: partition %d, held by %v, goes to %s, which is leaving", ms, count, p, owners, got[0])
			}
			if !was && len(owners) > 0 && !vgHas(to.Ready, p) {
				t.Fatalf("FAILING-INPUT: group %+v with %d partitions: partition %d, held by %v, goes to %s, which did not prepare it", ms, count, p, owners, got[0])
			}
		}
	}
}
