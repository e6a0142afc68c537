package streams

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"testing"
)

func c08prefixes() [][]byte { return [][]byte{nil, {7}, []byte("prefix")} }

func c08int[T int | int8 | int16 | int32 | int64](t *testing.T, name string, vs []T) {
	var c intCodec[T]
	for _, v := range vs {
		for _, pre := range c08prefixes() {
			b := bytes.NewBuffer(append([]byte{}, pre...))
			err := c.Encode(b, v)
			if err != nil || b.Len() != len(pre)+8 || !bytes.Equal(b.Bytes()[:len(pre)], pre) {
				t.Fatalf("FAILING-INPUT: %s encode of %d after %q: err=%v buffer=%x", name, v, pre, err, b.Bytes())
			}
			r, err := c.Decode(b.Bytes()[len(pre):])
			if err != nil || r != v {
				t.Fatalf("FAILING-INPUT: %s %d decodes to %d, err=%v (bytes %x)", name, v, r, err, b.Bytes()[len(pre):])
			}
		}
	}
}

func c08values(seed int64) []int64 {
	vs := []int64{0, 1, -1, 127, 128, 255, 256, -128, -129, -255, -256, -257, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32}
	for i := 0; i < 63; i++ {
		for d := int64(-2); d <= 2; d++ {
			vs = append(vs, int64(1)<<i+d, -(int64(1)<<i)+d)
		}
		for k := int64(0); k < 256; k += 17 {
			vs = append(vs, k<<i, ^(k << i))
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 4000; i++ {
		vs = append(vs, int64(r.Uint64())>>uint(r.Intn(64)))
	}
	return vs
}

func TestVerifC08_Codecs(t *testing.T) {
	vs := c08values(1)
	var i8 []int8
	var i16 []int16
	var i32 []int32
	var is []int
	for i := -128; i < 128; i++ {
		i8 = append(i8, int8(i))
	}
	for i := -32768; i < 32768; i++ {
		i16 = append(i16, int16(i))
	}
	for _, v := range vs {
		i32 = append(i32, int32(v), int32(v>>32))
		is = append(is, int(v))
	}
	c08int(t, "int8", i8)
	c08int(t, "int16", i16)
	c08int(t, "int32", i32)
	c08int(t, "int64", vs)
	c08int(t, "int", is)
	r := rand.New(rand.NewSource(2))
	for n := 0; n < 600; n++ {
		b := make([]byte, n%130)
		r.Read(b)
		if n%5 == 0 {
			b = append(b, 0)
		}
		for _, pre := range c08prefixes() {
			buf := bytes.NewBuffer(append([]byte{}, pre...))
			var sc stringCodec
			err := sc.Encode(buf, string(b))
			s, err2 := sc.Decode(buf.Bytes()[len(pre):])
			if err != nil || err2 != nil || s != string(b) || !bytes.HasPrefix(buf.Bytes(), pre) {
				t.Fatalf("FAILING-INPUT: string %q decodes to %q (%v, %v), buffer %q", b, s, err, err2, buf.Bytes())
			}
			buf = bytes.NewBuffer(append([]byte{}, pre...))
			var bc byteCodec
			err = bc.Encode(buf, b)
			v, err2 := bc.Decode(buf.Bytes()[len(pre):])
			if err != nil || err2 != nil || !bytes.Equal(v, b) || !bytes.HasPrefix(buf.Bytes(), pre) {
				t.Fatalf("FAILING-INPUT: bytes %q decode to %q (%v, %v), buffer %q", b, v, err, err2, buf.Bytes())
			}
		}
	}
	for _, v := range vs {
		for _, pre := range c08prefixes() {
			buf := bytes.NewBuffer(append([]byte{}, pre...))
			err := LexoInt64Codec.Encode(buf, v)
			d, err2 := LexoInt64Codec.Decode(buf.Bytes()[len(pre):])
			if err != nil || err2 != nil || d != v || !bytes.HasPrefix(buf.Bytes(), pre) || buf.Len() != len(pre)+LexInt64Size {
				t.Fatalf("FAILING-INPUT: ordered int64 %d decodes to %d (%v, %v), buffer %x", v, d, err, err2, buf.Bytes())
			}
		}
	}
	for n := 0; n < 20; n++ {
		d, err := func() (d int64, err error) {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("FAILING-INPUT: ordered int64 decode of %d bytes panics: %v", n, r)
				}
			}()
			return LexoInt64Codec.Decode(make([]byte, n))
		}()
		if n != LexInt64Size && err == nil {
			t.Fatalf("FAILING-INPUT: ordered int64 decode of %d bytes returns %d and no error", n, d)
		}
	}
	_ = fmt.Sprint
}
