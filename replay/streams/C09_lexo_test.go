package streams

import (
	"bytes"
	"math"
	"math/rand"
	"sort"
	"testing"
)

func TestVerifC09_Order(t *testing.T) {
	vs := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}
	for i := 0; i < 63; i++ {
		for d := int64(-2); d <= 2; d++ {
			vs = append(vs, int64(1)<<i+d, -(int64(1)<<i)+d)
		}
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 20000; i++ {
		v := int64(r.Uint64()) >> uint(r.Intn(64))
		vs = append(vs, v, v+int64(r.Intn(600))-300)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	enc := func(v int64) []byte {
		b := new(bytes.Buffer)
		if err := LexoInt64Codec.Encode(b, v); err != nil {
			t.Fatalf("FAILING-INPUT: encoding %d: %v", v, err)
		}
		if b.Len() != LexInt64Size {
			t.Fatalf("FAILING-INPUT: the encoding of %d has %d bytes, not %d", v, b.Len(), LexInt64Size)
		}
		d, err := LexoInt64Codec.Decode(b.Bytes())
		if err != nil || d != v {
			t.Fatalf("FAILING-INPUT: the encoding %x of %d decodes to %d, %v", b.Bytes(), v, d, err)
		}
		return b.Bytes()
	}
	es := make([][]byte, len(vs))
	for i, v := range vs {
		es[i] = enc(v)
	}
	chk := func(i, j int) {
		c := bytes.Compare(es[i], es[j])
		want := 0
		if vs[i] < vs[j] {
			want = -1
		} else if vs[i] > vs[j] {
			want = 1
		}
		if c != want {
			t.Fatalf("FAILING-INPUT: %d and %d compare %d but their encodings %x and %x compare %d", vs[i], vs[j], want, es[i], es[j], c)
		}
	}
	for i := 1; i < len(vs); i++ {
		chk(i-1, i)
		chk(0, i)
		chk(i, len(vs)-1)
		chk(i, r.Intn(len(vs)))
	}
}
