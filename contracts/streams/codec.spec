package streams

// C08, C09: codecs (codec.go, commit_log.go)
tags C08

// value of the 8 bytes a[o..o+8) as a little-endian two's complement integer
pure le8(a [int=>uint8], o int) int64 =
   let u = a[o] + 256*a[o+1] + 65536*a[o+2] + 16777216*a[o+3] + 4294967296*a[o+4] + 1099511627776*a[o+5] + 281474976710656*a[o+6] + 72057594037927936*a[o+7];
   if u >= 9223372036854775808 then u - 18446744073709551616 else u

// bytes 0..n of a buffer are as before
pure bufkeeps(a [int=>uint8], b [int=>uint8], n int) bool = forall j int {b[j]} :: (0 <= j && j < n) ==> b[j] == a[j]

func writeSignedIntToByteArray(i, b) {
  tags C08 C06
  modifies bufof(b)
  ensures length: buflen(b) == old(buflen(b)) + 8
  ensures prefix: bufkeeps(old(bufelems(b)), bufelems(b), old(buflen(b)))
  ensures value: le8(bufelems(b), old(buflen(b))) == int64(i)
}

func readIntegerFromByteArray(b) (r) {
  tags C08 C06
  requires len(b) >= 8
  ensures value: r == T(le8(elems(b), off(b)))
}

func intCodec.Encode(c, b, i) (err) {
  modifies bufof(b)
  ensures noerr: err == nil
  ensures length: buflen(b) == old(buflen(b)) + 8
  ensures prefix: bufkeeps(old(bufelems(b)), bufelems(b), old(buflen(b)))
  ensures value: le8(bufelems(b), old(buflen(b))) == int64(i)
}

func intCodec.Decode(c, b) (r, err) {
  requires len(b) >= 8
  ensures noerr: err == nil
  ensures value: r == T(le8(elems(b), off(b)))
}

func stringCodec.Encode(c, b, s) (err) {
  modifies bufof(b)
  ensures noerr: err == nil
  ensures length: buflen(b) == old(buflen(b)) + len(s)
  ensures prefix: bufkeeps(old(bufelems(b)), bufelems(b), old(buflen(b)))
  ensures value: forall j int {s[j]} :: (0 <= j && j < len(s)) ==> bufelems(b)[old(buflen(b))+j] == s[j]
}
func stringCodec.Decode(c, b) (r, err) {
  ensures noerr: err == nil
  ensures length: len(r) == len(b)
  ensures value: forall j int {r[j]} :: (0 <= j && j < len(r)) ==> r[j] == b[j]
}
func byteCodec.Encode(c, b, v) (err) {
  requires notself: arr(v) != bufarr(b)
  modifies bufof(b)
  ensures noerr: err == nil
  ensures length: buflen(b) == old(buflen(b)) + len(v)
  ensures prefix: bufkeeps(old(bufelems(b)), bufelems(b), old(buflen(b)))
  ensures value: forall j int {v[j]} :: (0 <= j && j < len(v)) ==> bufelems(b)[old(buflen(b))+j] == v[j]
}
func byteCodec.Decode(c, b) (r, err) {
  ensures noerr: err == nil
  ensures value: r == b
}

// value of 8 big-endian bytes
pure be8(a [int=>uint8], o int) int =
   a[o+7] + 256*a[o+6] + 65536*a[o+5] + 16777216*a[o+4] + 4294967296*a[o+3] + 1099511627776*a[o+2] + 281474976710656*a[o+1] + 72057594037927936*a[o]

// the 9 bytes a[o..o+9) as one big-endian number: its order is the byte-wise order of equal length encodings
pure lexnum(a [int=>uint8], o int) int = 18446744073709551616 * a[o] + be8(a, o+1)

// the number an ordered encoding of i stands for: strictly increasing in i
pure lexof(i int64) int = if i > 0 then 18446744073709551616 + i else i + 9223372036854775808

func lexoInt64Codec.Encode(c, buf, i) (err) {
  tags C08 C09
  modifies bufof(buf)
  ensures noerr: err == nil
  ensures size: buflen(buf) == old(buflen(buf)) + LexInt64Size && LexInt64Size == 9
  ensures prefix: bufkeeps(old(bufelems(buf)), bufelems(buf), old(buflen(buf)))
  ensures ordered: lexnum(bufelems(buf), old(buflen(buf))) == lexof(i)
  ensures sign: bufelems(buf)[old(buflen(buf))] == (if i > 0 then 1 else 0)
}
func lexoInt64Codec.Decode(c, b) (r, err) {
  tags C08 C09
  ensures malformed: len(b) != 9 <==> err != nil
  ensures inverse: forall i int64 :: (len(b) == 9 && lexnum(elems(b), off(b)) == lexof(i) && b[0] == (if i > 0 then 1 else 0)) ==> r == i
}

lemma lexofIncreasing: forall x int64, y int64 :: (x < y) <==> (lexof(x) < lexof(y))

// round trips through the real code: clients (contracts/clients/streams) use only the contracts above
func verifIntRoundTrip(v) (r, n) {
  ensures value: r == v
  ensures only: n == 8
}
func verifStringRoundTrip(v) (r, err) {
  ensures value: r == v
  ensures noerr: err == nil
}
func verifBytesRoundTrip(v) (r, err) {
  ensures noerr: err == nil
  ensures value: len(r) == len(v) && (forall j int {v[j]} :: (0 <= j && j < len(v)) ==> r[j] == v[j])
}
func verifLexoRoundTrip(v) (r, err) {
  tags C08 C09
  ensures noerr: err == nil
  ensures value: r == v
}
