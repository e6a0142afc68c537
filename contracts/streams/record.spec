package streams
tags C10

pure recbufs(r *Record) bool = r != nil && r.keyBuffer != nil && r.valueBuffer != nil && r.keyBuffer != r.valueBuffer
pure cleanrec(r *Record) bool = r.kRecord.Topic == "" && r.kRecord.Partition == AutoAssign && r.kRecord.Key == nil && r.kRecord.Value == nil && len(r.kRecord.Headers) == 0 && r.recordType == "" && r.err == nil && buflen(r.keyBuffer) == 0 && buflen(r.valueBuffer) == 0 && r.kRecord.Timestamp == zero(time.Time) && r.kRecord.Offset == 0 && r.kRecord.LeaderEpoch == 0 && r.kRecord.ProducerID == 0 && r.kRecord.ProducerEpoch == 0 && r.kRecord.Context == nil

func recordPool$1() (r) {
  tags C10 C28
  ensures new: fresh(r) && fresh(r.keyBuffer) && fresh(r.valueBuffer)
  ensures usable: recbufs(r)
  ensures clean: cleanrec(r)
}
func recordPool$2(r) (o) {
  tags C10 C28
  requires recbufs(r)
  modifies object(r), bufof(r.keyBuffer), bufof(r.valueBuffer)
  ensures same: o == r && r.keyBuffer == old(r.keyBuffer) && r.valueBuffer == old(r.valueBuffer)
  ensures clean: cleanrec(r)
}

// total length of the first n slices (strings) of a[o..)
pure wlen(a [int => []byte], o int, n int) int
axiom wlen0 for wlen: forall a [int => []byte], o int {wlen(a, o, 0)} :: wlen(a, o, 0) == 0
axiom wlenS for wlen: forall a [int => []byte], o int, n int {wlen(a, o, n+1)} :: n >= 0 ==> wlen(a, o, n+1) == wlen(a, o, n) + len(a[o+n])
pure slen(a [int => string], o int, n int) int
axiom slen0 for slen: forall a [int => string], o int {slen(a, o, 0)} :: slen(a, o, 0) == 0
axiom slen1 for slen: forall a [int => string], o int {slen(a, o, 1)} :: slen(a, o, 1) == len(a[o])
axiom slenS for slen: forall a [int => string], o int, n int {slen(a, o, n+1)} :: n >= 0 ==> slen(a, o, n+1) == slen(a, o, n) + len(a[o+n])

// the parts XS are appended to the buffer B in order and nothing else changes
define APPENDED(B, XS, W) \
  modifies bufof(B) \
  ensures prefix: bufkeeps(old(bufelems(B)), bufelems(B), old(buflen(B))) \
  ensures length: buflen(B) == old(buflen(B)) + W(elems(XS), off(XS), len(XS)) \
  ensures content: forall i int, j int {old(XS[i][j])} :: (0 <= i && i < len(XS) && 0 <= j && j < len(XS[i])) ==> bufelems(B)[old(buflen(B)) + W(elems(XS), off(XS), i) + j] == old(XS[i][j])
define APPLOOP(B, XS, W) \
  loop 0 { \
    invariant buflen(B) == old(buflen(B)) + W(elems(XS), off(XS), nvisited()) \
    invariant bufkeeps(old(bufelems(B)), bufelems(B), old(buflen(B))) \
    invariant forall i int {W(elems(XS), off(XS), i)} :: (0 <= i && i < nvisited()) ==> (W(elems(XS), off(XS), i) >= 0 && W(elems(XS), off(XS), i) + len(XS[i]) <= W(elems(XS), off(XS), nvisited())) \
    invariant W(elems(XS), off(XS), nvisited()) >= 0 \
    invariant forall i int, j int {old(XS[i][j])} :: (0 <= i && i < nvisited() && 0 <= j && j < len(XS[i])) ==> bufelems(B)[old(buflen(B)) + W(elems(XS), off(XS), i) + j] == old(XS[i][j]) \
  }

define NOTSELF(B, XS) requires notself: forall i int {XS[i]} :: (0 <= i && i < len(XS)) ==> arr(XS[i]) != bufarr(B)

func Record.WriteKey(r, bs) {
  requires recbufs(r)
  $NOTSELF(r.keyBuffer, bs)
  $APPENDED(r.keyBuffer, bs, wlen)
  $APPLOOP(r.keyBuffer, bs, wlen)
}
func Record.WriteKeyString(r, ss) {
  requires recbufs(r)
  $APPENDED(r.keyBuffer, ss, slen)
  $APPLOOP(r.keyBuffer, ss, slen)
}
func Record.WriteValue(r, bs) {
  requires recbufs(r)
  $NOTSELF(r.valueBuffer, bs)
  $APPENDED(r.valueBuffer, bs, wlen)
  $APPLOOP(r.valueBuffer, bs, wlen)
}
func Record.WriteValueString(r, ss) {
  requires recbufs(r)
  $APPENDED(r.valueBuffer, ss, slen)
  $APPLOOP(r.valueBuffer, ss, slen)
}
func Record.WithKey(r, key) (o) {
  requires recbufs(r)
  $NOTSELF(r.keyBuffer, key)
  $APPENDED(r.keyBuffer, key, wlen)
  ensures same: o == r
}
func Record.WithKeyString(r, key) (o) {
  requires recbufs(r)
  $APPENDED(r.keyBuffer, key, slen)
  ensures same: o == r
}
func Record.WithValue(r, value) (o) {
  requires recbufs(r)
  $NOTSELF(r.valueBuffer, value)
  $APPENDED(r.valueBuffer, value, wlen)
  ensures same: o == r
}
func Record.KeyWriter(r) (b) { ensures b == r.keyBuffer }
func Record.ValueWriter(r) (b) { ensures b == r.valueBuffer }
func Record.WithTopic(r, topic) (o) {
  modifies r.kRecord.Topic
  ensures o == r && r.kRecord.Topic == topic
}
func Record.WithPartition(r, partition) (o) {
  modifies r.kRecord.Partition
  ensures o == r && r.kRecord.Partition == partition
}
func Record.WithRecordType(r, recordType) (o) {
  modifies r.recordType
  ensures o == r && r.recordType == recordType
}
pure isheader(h kgo.RecordHeader, key string, value []byte) bool = h.Key == key && h.Value == value
define KEEPHDRS(H, N) forall i int {H[i]} :: (0 <= i && i < N) ==> H[i] == old(H[i])
func Record.WithHeader(r, key, value) (o) {
  modifies r.kRecord.Headers, elems(r.kRecord.Headers)
  ensures same: o == r
  ensures one: len(r.kRecord.Headers) == old(len(r.kRecord.Headers)) + 1
  ensures keeps: $KEEPHDRS(r.kRecord.Headers, old(len(r.kRecord.Headers)))
  ensures last: isheader(r.kRecord.Headers[old(len(r.kRecord.Headers))], key, value)
}
// bytes of a slice equal those of a string
pure bytesAre(b []byte, s string) bool = len(b) == len(s) && (forall j int {b[j]} :: (0 <= j && j < len(b)) ==> b[j] == s[j])
// a typed record has a type header: the one it already had or a new last one; an untyped one gets none
func addRecordTypeHeader(recordType, record) {
  requires record != nil
  modifies record.Headers, elems(record.Headers)
  let had = exists i int {record.Headers[i]} :: 0 <= i && i < len(record.Headers) && record.Headers[i].Key == RecordTypeHeaderKey
  ensures keeps: $KEEPHDRS(record.Headers, old(len(record.Headers)))
  ensures own: arr(record.Headers) == old(arr(record.Headers)) || fresh(record.Headers)
  ensures untyped: (recordType == "" || had) ==> len(record.Headers) == old(len(record.Headers))
  ensures typed: (recordType != "" && !had) ==> (len(record.Headers) == old(len(record.Headers)) + 1 && record.Headers[old(len(record.Headers))].Key == RecordTypeHeaderKey && bytesAre(record.Headers[old(len(record.Headers))].Value, recordType))
  loop 0 {
    invariant forall i int {record.Headers[i]} :: (0 <= i && i < nvisited()) ==> record.Headers[i].Key != RecordTypeHeaderKey
  }
}
func SetRecordType(r, recordType) {
  requires r != nil
  modifies r.Headers, elems(r.Headers)
  ensures keeps: $KEEPHDRS(r.Headers, old(len(r.Headers)))
  ensures typed: len(r.Headers) == old(len(r.Headers)) + 1 && r.Headers[old(len(r.Headers))].Key == RecordTypeHeaderKey && bytesAre(r.Headers[old(len(r.Headers))].Value, recordType)
}
// ---- records handed over
func sak.Noescape(p) (r) {
  assumed
  opt noalloc
  ensures r == p
}
// bytes of a slice equal the contents of a buffer
define BYTESOF(K, B) (len(K) == buflen(B) && (forall j int {K[j]} :: (0 <= j && j < len(K)) ==> K[j] == bufelems(B)[j]))
// the headers and the type header of a record with type RT, given its own headers H
define TYPED(K, RT, HLEN, HAD) \
  ensures untyped: (RT == "" || HAD) ==> len(K.Headers) == HLEN \
  ensures typed: (RT != "" && !HAD) ==> (len(K.Headers) == HLEN + 1 && K.Headers[HLEN].Key == RecordTypeHeaderKey && bytesAre(K.Headers[HLEN].Value, RT))

func Record.toKafkaRecord(r) (k) {
  requires recbufs(r)
  modifies r.kRecord.Key, r.kRecord.Value, r.kRecord.Headers, elems(r.kRecord.Headers)
  let had = exists i int {r.kRecord.Headers[i]} :: 0 <= i && i < len(r.kRecord.Headers) && r.kRecord.Headers[i].Key == RecordTypeHeaderKey
  ensures itself: k == addr(r.kRecord)
  ensures key: $BYTESOF(k.Key, r.keyBuffer)
  ensures value: buflen(r.valueBuffer) > 0 ==> $BYTESOF(k.Value, r.valueBuffer)
  ensures deletion: buflen(r.valueBuffer) == 0 ==> k.Value == old(r.kRecord.Value)
  ensures keeps: $KEEPHDRS(k.Headers, old(len(k.Headers)))
  $TYPED(k, r.recordType, old(len(r.kRecord.Headers)), had)
}
func Record.ToKafkaRecord(r) (k) {
  requires recbufs(r)
  let had = exists i int {r.kRecord.Headers[i]} :: 0 <= i && i < len(r.kRecord.Headers) && r.kRecord.Headers[i].Key == RecordTypeHeaderKey
  ensures new: fresh(k) && k != nil
  ensures copied: k.Topic == r.kRecord.Topic && k.Partition == r.kRecord.Partition && k.Timestamp == r.kRecord.Timestamp
  ensures key: $BYTESOF(k.Key, r.keyBuffer)
  ensures value: $BYTESOF(k.Value, r.valueBuffer) && (buflen(r.valueBuffer) == 0 ==> k.Value == nil)
  ensures own: (len(k.Key) > 0 ==> fresh(k.Key)) && (len(k.Value) > 0 ==> fresh(k.Value)) && (len(k.Headers) > 0 ==> fresh(k.Headers))
  ensures headers: forall i int {k.Headers[i]} :: (0 <= i && i < len(r.kRecord.Headers)) ==> k.Headers[i] == r.kRecord.Headers[i]
  $TYPED(k, r.recordType, len(r.kRecord.Headers), had)
}
func Record.AsIncomingRecord(r) (o) {
  requires recbufs(r)
  let had = exists i int {r.kRecord.Headers[i]} :: 0 <= i && i < len(r.kRecord.Headers) && r.kRecord.Headers[i].Key == RecordTypeHeaderKey
  ensures copied: o.kRecord.Topic == r.kRecord.Topic && o.kRecord.Partition == r.kRecord.Partition && o.kRecord.Timestamp == r.kRecord.Timestamp && o.recordType == r.recordType
  ensures key: $BYTESOF(o.kRecord.Key, r.keyBuffer)
  ensures value: $BYTESOF(o.kRecord.Value, r.valueBuffer)
  ensures headers: forall i int {o.kRecord.Headers[i]} :: (0 <= i && i < len(r.kRecord.Headers)) ==> o.kRecord.Headers[i] == r.kRecord.Headers[i]
  $TYPED(o.kRecord, r.recordType, len(r.kRecord.Headers), had)
}
// the type a record arrived with: the value of its last type header, none if it has none
pure typeheader(h []kgo.RecordHeader, i int, n int) bool = 0 <= i && i < n && h[i].Key == RecordTypeHeaderKey && (forall j int {h[j]} :: (i < j && j < n) ==> h[j].Key != RecordTypeHeaderKey)
func newIncomingRecord(incoming) (r) {
  requires incoming != nil
  ensures same: r.kRecord.Topic == incoming.Topic && r.kRecord.Partition == incoming.Partition && r.kRecord.Offset == incoming.Offset && r.kRecord.Timestamp == incoming.Timestamp && r.kRecord.LeaderEpoch == incoming.LeaderEpoch && r.kRecord.Key == incoming.Key && r.kRecord.Value == incoming.Value && r.kRecord.Headers == incoming.Headers
  ensures typed: forall i int {incoming.Headers[i]} :: typeheader(incoming.Headers, i, len(incoming.Headers)) ==> bytesAre(incoming.Headers[i].Value, r.recordType)
  ensures untyped: (forall i int {incoming.Headers[i]} :: (0 <= i && i < len(incoming.Headers)) ==> incoming.Headers[i].Key != RecordTypeHeaderKey) ==> r.recordType == ""
  loop 0 {
    invariant forall i int {incoming.Headers[i]} :: typeheader(incoming.Headers, i, nvisited()) ==> bytesAre(incoming.Headers[i].Value, r.recordType)
    invariant (forall i int {incoming.Headers[i]} :: (0 <= i && i < nvisited()) ==> incoming.Headers[i].Key != RecordTypeHeaderKey) ==> r.recordType == ""
  }
}
func IncomingRecord.Offset(r) (o) { ensures o == r.kRecord.Offset }
func IncomingRecord.TopicPartition(r) (o) { ensures o.Topic == r.kRecord.Topic && o.Partition == r.kRecord.Partition }
func IncomingRecord.LeaderEpoch(r) (o) { ensures o == r.kRecord.LeaderEpoch }
func IncomingRecord.Timestamp(r) (o) { ensures o == r.kRecord.Timestamp }
func IncomingRecord.RecordType(r) (o) { ensures o == r.recordType }
func IncomingRecord.Key(r) (o) { ensures o == r.kRecord.Key }
func IncomingRecord.Value(r) (o) { ensures o == r.kRecord.Value }
func IncomingRecord.Headers(r) (o) { ensures o == r.kRecord.Headers }
func IncomingRecord.HeaderValue(r, name) (o) {
  ensures found: forall i int {r.kRecord.Headers[i]} :: (0 <= i && i < len(r.kRecord.Headers) && r.kRecord.Headers[i].Key == name && (forall j int {r.kRecord.Headers[j]} :: (0 <= j && j < i) ==> r.kRecord.Headers[j].Key != name)) ==> o == r.kRecord.Headers[i].Value
  ensures absent: (forall i int {r.kRecord.Headers[i]} :: (0 <= i && i < len(r.kRecord.Headers)) ==> r.kRecord.Headers[i].Key != name) ==> o == nil
  loop 0 {
    invariant forall i int {r.kRecord.Headers[i]} :: (0 <= i && i < nvisited()) ==> r.kRecord.Headers[i].Key != name
  }
}
func Record.Offset(r) (o) { ensures o == r.kRecord.Offset }
func Record.TopicPartition(r) (o) { ensures o.Topic == r.kRecord.Topic && o.Partition == r.kRecord.Partition }
func Record.Error(r) (o) { ensures o == r.err }

// ---- the pool: what is handed out is new or was reset (see pool.spec); nobody keeps a record it has released
func sak.Pool.Borrow@Record(p) (r) {
  assumed
  modifies any sak.Pool.freelist
  ensures recbufs(r) && cleanrec(r) && fresh(r) && fresh(r.keyBuffer) && fresh(r.valueBuffer)
}
func sak.Pool.Release@Record(p, r) (out) {
  assumed
  requires recbufs(r)
  modifies any sak.Pool.freelist, object(r), bufof(r.keyBuffer), bufof(r.valueBuffer)
}
func NewRecord() (r) {
  modifies any sak.Pool.freelist
  ensures clean: recbufs(r) && cleanrec(r) && fresh(r) && fresh(r.keyBuffer) && fresh(r.valueBuffer)
}
func Record.Release(r) {
  opt log
  requires recbufs(r)
  modifies any sak.Pool.freelist, object(r), bufof(r.keyBuffer), bufof(r.valueBuffer)
}

// ---- change log entries
func NewChangeLogEntry() (c) {
  modifies any sak.Pool.freelist
  ensures clean: recbufs(c.record) && cleanrec(c.record) && fresh(c.record) && fresh(c.record.keyBuffer) && fresh(c.record.valueBuffer)
}
func ChangeLogEntry.KeyWriter(cle) (b) { ensures b == cle.record.keyBuffer }
func ChangeLogEntry.ValueWriter(cle) (b) { ensures b == cle.record.valueBuffer }
func ChangeLogEntry.WriteKey(cle, bs) {
  requires recbufs(cle.record)
  $NOTSELF(cle.record.keyBuffer, bs)
  $APPENDED(cle.record.keyBuffer, bs, wlen)
}
func ChangeLogEntry.WriteKeyString(cle, ss) {
  requires recbufs(cle.record)
  $APPENDED(cle.record.keyBuffer, ss, slen)
}
func ChangeLogEntry.WriteValue(cle, bs) {
  requires recbufs(cle.record)
  $NOTSELF(cle.record.valueBuffer, bs)
  $APPENDED(cle.record.valueBuffer, bs, wlen)
}
func ChangeLogEntry.WriteValueString(cle, ss) {
  requires recbufs(cle.record)
  $APPENDED(cle.record.valueBuffer, ss, slen)
}
func ChangeLogEntry.WithKey(cle, key) (o) {
  requires recbufs(cle.record)
  $NOTSELF(cle.record.keyBuffer, key)
  $APPENDED(cle.record.keyBuffer, key, wlen)
  ensures o == cle
}
func ChangeLogEntry.WithKeyString(cle, key) (o) {
  requires recbufs(cle.record)
  $APPENDED(cle.record.keyBuffer, key, slen)
  ensures o == cle
}
func ChangeLogEntry.WithValue(cle, value) (o) {
  requires recbufs(cle.record)
  $NOTSELF(cle.record.valueBuffer, value)
  $APPENDED(cle.record.valueBuffer, value, wlen)
  ensures o == cle
}
func ChangeLogEntry.WithEntryType(cle, entryType) (o) {
  requires recbufs(cle.record)
  modifies cle.record.recordType
  ensures o == cle && o.record.recordType == entryType
}
func ChangeLogEntry.WithHeader(cle, key, value) (o) {
  requires recbufs(cle.record)
  modifies cle.record.kRecord.Headers, elems(cle.record.kRecord.Headers)
  ensures same: o == cle
  ensures one: len(o.record.kRecord.Headers) == old(len(cle.record.kRecord.Headers)) + 1
  ensures keeps: $KEEPHDRS(cle.record.kRecord.Headers, old(len(cle.record.kRecord.Headers)))
  ensures last: isheader(o.record.kRecord.Headers[old(len(cle.record.kRecord.Headers))], key, value)
}
// a codec supplied by the user: when it is faithful, the bytes it writes for a value are read back as that value
pure faithful(c Codec[T]) bool
pure encLen(c Codec[T], v T) int
pure encByte(c Codec[T], v T, j int) uint8
define ENCODED(C, V, B, N) (faithful(C) ==> (buflen(B) == N + encLen(C, V) && encLen(C, V) > 0 && (forall j int {encByte(C, V, j)} :: (0 <= j && j < encLen(C, V)) ==> bufelems(B)[N + j] == encByte(C, V, j))))
define DECODES(C, B, V, ERR) (faithful(C) ==> (forall x T {encLen(C, x)} :: (len(B) == encLen(C, x) && (forall j int {B[j]} :: (0 <= j && j < len(B)) ==> B[j] == encByte(C, x, j))) ==> (ERR == nil && V == x)))
iface streams.Codec.Encode(c, b, v) (err) {
  modifies bufof(b)
  ensures faithful(c) ==> err == nil
  ensures bufkeeps(old(bufelems(b)), bufelems(b), old(buflen(b)))
  ensures $ENCODED(c, v, b, old(buflen(b)))
}
iface streams.Codec.Decode(c, b) (v, err) {
  ensures $DECODES(c, b, v, err)
}
func CreateChangeLogEntry(item, codec) (c, err) {
  requires codec != nil
  modifies any sak.Pool.freelist, log streams.Codec.Encode
  let n = ncalls(streams.Codec.Encode)
  ensures encoded: ncalls(streams.Codec.Encode) == n + 1 && callarg(streams.Codec.Encode, n, 0, "Codec[T]") == codec && callarg(streams.Codec.Encode, n, 1, *bytes.Buffer) == c.record.valueBuffer && callarg(streams.Codec.Encode, n, 2, T) == item && err == callres(streams.Codec.Encode, n, 0, error)
  ensures encoded: $ENCODED(codec, item, c.record.valueBuffer, 0)
  ensures nothingelse: fresh(c.record) && fresh(c.record.keyBuffer) && fresh(c.record.valueBuffer) && recbufs(c.record) && c.record.kRecord.Topic == "" && c.record.kRecord.Partition == AutoAssign && c.record.kRecord.Key == nil && len(c.record.kRecord.Headers) == 0 && c.record.recordType == "" && buflen(c.record.keyBuffer) == 0
}
