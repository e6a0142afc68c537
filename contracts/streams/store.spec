package stores
tags C12

// ---- google/btree holding *keyedValue, ordered by keyedLess (assumed): a finite map from keys to items,
// as long as the keys of the items it holds do not change (keysok)
ghostfield btree.BTreeG.haskey [string => bool]
ghostfield btree.BTreeG.item [string => T]
pure keysok(s *SimpleStore[T]) bool = s.tree != nil && isfn(s.tree.less, keyedLess) && (forall k string {s.tree.item[k]} {s.tree.haskey[k]} :: s.tree.haskey[k] ==> (s.tree.item[k] != nil && allocated(s.tree.item[k]) && s.tree.item[k].key == k))

extern btree.NewG@keyedValue(degree, less) (t) {
  ensures fresh(t) && t.haskey == emptyset(string) && t.less == less
}
define KEYSOK isfn(t.less, keyedLess) && (forall k string {t.item[k]} :: t.haskey[k] ==> (t.item[k] != nil && t.item[k].key == k))
extern btree.BTreeG.Get@keyedValue(t, x) (y, b) {
  requires x != nil && $KEYSOK
  ensures b == t.haskey[x.key] && (b ==> y == t.item[x.key]) && (!b ==> y == nil)
}
extern btree.BTreeG.Has@keyedValue(t, x) (b) {
  requires x != nil && $KEYSOK
  ensures b == t.haskey[x.key]
}
extern btree.BTreeG.ReplaceOrInsert@keyedValue(t, x) (y, had) {
  requires x != nil && $KEYSOK
  modifies t.haskey, t.item
  ensures t.haskey == old(t.haskey)[x.key := true] && t.item == old(t.item)[x.key := x]
}
extern btree.BTreeG.Delete@keyedValue(t, x) (y, had) {
  requires x != nil && $KEYSOK
  modifies t.haskey
  ensures had == old(t.haskey)[x.key] && t.haskey == old(t.haskey)[x.key := false]
}
extern btree.BTreeG.Clear@keyedValue(t, b) {
  modifies t.haskey
  ensures t.haskey == emptyset(string)
}

pure keyOf(x T) string
iface stores.Keyed.Key(x) (k) {
  opt nolog noalloc
  ensures k == keyOf(x)
}

func keyedLess(a, b) (r) {
  requires a != nil && b != nil
  ensures order: r == (a.key < b.key)
}
func NewSimpleStore(tp, codec) (s) {
  ensures ok: fresh(s) && keysok(s) && s.codec == codec && s.topicPartition == tp
  ensures empty: forall k string :: !s.tree.haskey[k]
}
// the key and value of a change entry: the item's key, and what the store's codec wrote for the item
define ENC streams.Codec.Encode
define ENTRY(C, K) (buflen(C.record.keyBuffer) == len(K) && (forall j int {K[j]} :: (0 <= j && j < len(K)) ==> bufelems(C.record.keyBuffer)[j] == K[j]) && recbufs(C.record) && fresh(C.record) && C.record.recordType == "" && len(C.record.kRecord.Headers) == 0)
func SimpleStore.ToChangeLogEntry(s, item) (c) {
  opt maypanic
  requires s.codec != nil
  modifies any sak.Pool.freelist, log $ENC
  let n = ncalls($ENC)
  ensures key: $ENTRY(c, keyOf(item))
  ensures value: ncalls($ENC) == n + 1 && callarg($ENC, n, 0, "streams.Codec[T]") == s.codec && callarg($ENC, n, 1, *bytes.Buffer) == c.record.valueBuffer && callarg($ENC, n, 2, T) == item && callres($ENC, n, 0, error) == nil
  ensures encoded: $ENCODED(s.codec, item, c.record.valueBuffer, 0)
}
// the store after item x was stored: its key maps to it, other keys are as before
define STORED(S, X) (keysok(S) && S.tree.haskey == old(S.tree.haskey)[keyOf(X) := true] && S.tree.item[keyOf(X)].value == X && (forall k string {S.tree.item[k]} :: k != keyOf(X) ==> S.tree.item[k] == old(S.tree.item[k])))
define REMOVED(S, K) (keysok(S) && S.tree.haskey == old(S.tree.haskey)[K := false] && S.tree.item == old(S.tree.item))
func SimpleStore.Put(s, item) (c) {
  opt maypanic
  requires keysok(s) && s.codec != nil
  modifies s.tree.haskey, s.tree.item, any sak.Pool.freelist, log $ENC
  let n = ncalls($ENC)
  ensures stored: $STORED(s, item)
  ensures key: $ENTRY(c, keyOf(item))
  ensures value: ncalls($ENC) == n + 1 && callarg($ENC, n, 0, "streams.Codec[T]") == s.codec && callarg($ENC, n, 1, *bytes.Buffer) == c.record.valueBuffer && callarg($ENC, n, 2, T) == item && callres($ENC, n, 0, error) == nil
  ensures encoded: $ENCODED(s.codec, item, c.record.valueBuffer, 0)
}
func SimpleStore.Get(s, id) (val, ok) {
  requires keysok(s)
  ensures found: ok == s.tree.haskey[id]
  ensures value: ok ==> val == s.tree.item[id].value
}
func SimpleStore.Delete(s, item) (c, ok) {
  requires keysok(s)
  modifies s.tree.haskey, any sak.Pool.freelist
  ensures removed: $REMOVED(s, keyOf(item))
  ensures reports: ok == old(s.tree.haskey[keyOf(item)])
  ensures key: ok ==> ($ENTRY(c, keyOf(item)) && buflen(c.record.valueBuffer) == 0)
}
func SimpleStore.ReceiveChange(s, record) (err) {
  requires keysok(s) && s.codec != nil
  modifies s.tree.haskey, s.tree.item, log streams.Codec.Decode
  let n = ncalls(streams.Codec.Decode)
  ensures deletion: len(record.kRecord.Value) == 0 ==> (err == nil && ncalls(streams.Codec.Decode) == n && (forall k string {len(k)} :: bytesAre(record.kRecord.Key, k) ==> $REMOVED(s, k)))
  ensures decoded: len(record.kRecord.Value) > 0 ==> (ncalls(streams.Codec.Decode) == n + 1 && callarg(streams.Codec.Decode, n, 0, "streams.Codec[T]") == s.codec && callarg(streams.Codec.Decode, n, 1, "[]byte") == record.kRecord.Value && err == callres(streams.Codec.Decode, n, 1, error))
  ensures stored: (len(record.kRecord.Value) > 0 && err == nil) ==> $STORED(s, callres(streams.Codec.Decode, n, 0, T))
  ensures faithfully: len(record.kRecord.Value) > 0 ==> $DECODES(s.codec, record.kRecord.Value, callres(streams.Codec.Decode, n, 0, T), err)
  ensures undecodable: (len(record.kRecord.Value) > 0 && err != nil) ==> (s.tree.haskey == old(s.tree.haskey) && s.tree.item == old(s.tree.item))
  ensures ok: keysok(s)
}
func SimpleStore.Revoked(s) {
  requires keysok(s)
  modifies s.tree.haskey
  ensures empty: forall k string :: !s.tree.haskey[k]
}

// ---- replaying: clients that use only the contracts above, for a codec that reads back what it wrote
define TWO requires keysok(a) && keysok(b) && a.tree != b.tree && a.codec != nil && b.codec == a.codec && faithful(a.codec)
define SAME(A, B) ((forall k string {A.tree.haskey[k]} :: A.tree.haskey[k] == B.tree.haskey[k]) && (forall k string {A.tree.item[k]} :: A.tree.haskey[k] ==> A.tree.item[k].value == B.tree.item[k].value))
func verifReplayPut(a, b, item) (err) {
  opt maypanic
  $TWO
  requires same: $SAME(a, b)
  modifies a.tree.haskey, a.tree.item, b.tree.haskey, b.tree.item, any sak.Pool.freelist, log streams.Codec.Encode, log streams.Codec.Decode
  ensures applied: err == nil
  ensures put: a.tree.haskey[keyOf(item)] && a.tree.item[keyOf(item)].value == item
  ensures same: $SAME(a, b)
}
func verifReplayDelete(a, b, item) (err) {
  $TWO
  requires same: $SAME(a, b)
  modifies a.tree.haskey, a.tree.item, b.tree.haskey, b.tree.item, any sak.Pool.freelist, log streams.Codec.Encode, log streams.Codec.Decode
  ensures applied: err == nil
  ensures gone: !a.tree.haskey[keyOf(item)]
  ensures same: $SAME(a, b)
}
func verifPutGet(a, item) (v, ok) {
  opt maypanic
  requires keysok(a) && a.codec != nil
  modifies a.tree.haskey, a.tree.item, any sak.Pool.freelist, log streams.Codec.Encode
  ensures last: ok && v == item
}
