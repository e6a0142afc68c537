package stores

import (
	"math"
	"testing"

	"github.com/google/btree"
)

func TestVerifC15_Sharded(t *testing.T) {
	for exponent := 0; exponent < 7; exponent++ {
		n := 2 << exponent
		h := map[uint64]uint64{}
		st := NewShardedTree(exponent, func(k uint64) uint64 {
			if v, ok := h[k]; ok {
				return v
			}
			return k
		}, NumberLess[uint64])
		if len(st.trees) == 0 {
			t.Fatalf("FAILING-INPUT: exponent %d gives no shards", exponent)
		}
		seen := map[*btree.BTreeG[uint64]]bool{}
		want := 0
		for k := 0; k < 3*n; k++ {
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("FAILING-INPUT: exponent %d, hash %d: %v", exponent, k, r)
					}
				}()
				key := uint64(k)
				a := st.For(key)
				if a == nil {
					t.Fatalf("FAILING-INPUT: exponent %d: no shard for hash %d", exponent, k)
				}
				seen[a] = true
				a.ReplaceOrInsert(key)
				want++
				if b := st.For(key); b != a {
					t.Fatalf("FAILING-INPUT: exponent %d: hash %d is in two shards", exponent, k)
				}
				if !st.For(key).Has(key) {
					t.Fatalf("FAILING-INPUT: exponent %d: key with hash %d not found", exponent, k)
				}
				if l := st.Len(); l != want {
					t.Fatalf("FAILING-INPUT: exponent %d: length %d after inserting %d keys with hashes 0..%d", exponent, l, want, k)
				}
			}()
		}
		for _, x := range []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, math.MaxInt64, 1 << 32} {
			if st.For(x) == nil || st.For(x) != st.For(x) {
				t.Fatalf("FAILING-INPUT: exponent %d: no shard for hash %d", exponent, x)
			}
		}
		// only the last shards hold something
		s2 := NewShardedTree(exponent, func(k uint64) uint64 { return k }, NumberLess[uint64])
		s2.For(uint64(n - 1)).ReplaceOrInsert(7)
		if l := s2.Len(); l != 1 {
			t.Fatalf("FAILING-INPUT: exponent %d: length %d with one item in the last shard", exponent, l)
		}
	}
}
