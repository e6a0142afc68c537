package streams

// ---- github.com/google/btree (assumed): ordered sets ----
// elems is the set of items held, cnt their number, less the order the tree was created with.
// The @X variants fix the item type. For int32 and TopicPartition, items that compare equal are equal, so the tree is a set.
ghostfield btree.BTreeG.elems [T => bool]
ghostfield btree.BTreeG.cnt int
ghostfield btree.BTreeG.less ref

define SETITER iterfact n: itercount() == t.cnt && (forall i int {iteritem(i)} :: (0 <= i && i < itercount()) ==> (t.elems[iteritem(i)] && iterpos(iteritem(i)) == i))

extern btree.NewFreeListG(size) (f) { ensures f != nil }

// --- int32 ---
extern btree.NewOrderedG@int32(degree) (t) {
  ensures fresh(t) && t.cnt == 0 && t.elems == emptyset(int32) && t.role == 0
}
extern btree.BTreeG.Len@int32(t) (n) { ensures n == t.cnt && n >= 0 && (n == 0 <==> t.elems == emptyset(int32)) }
extern btree.BTreeG.Has@int32(t, x) (b) { ensures b == t.elems[x] }
extern btree.BTreeG.Get@int32(t, x) (y, b) { ensures b == t.elems[x] && (b ==> y == x) }
extern btree.BTreeG.ReplaceOrInsert@int32(t, x) (y, had) {
  modifies t.elems, t.cnt
  ensures had == old(t.elems)[x] && t.elems == old(t.elems)[x := true] && t.cnt == old(t.cnt) + (if had then 0 else 1)
}
extern btree.BTreeG.Delete@int32(t, x) (y, had) {
  modifies t.elems, t.cnt
  ensures had == old(t.elems)[x] && t.elems == old(t.elems)[x := false] && t.cnt == old(t.cnt) - (if had then 1 else 0)
}
extern btree.BTreeG.Ascend@int32(t, f) {
  iterate f
  iterkeep t.elems
  $SETITER
  iterfact all: forall x int32 {t.elems[x]} :: t.elems[x] ==> (0 <= iterpos(x) && iterpos(x) < itercount() && iteritem(iterpos(x)) == x)
  iterfact sorted: forall i int, j int {iteritem(i), iteritem(j)} :: (0 <= i && i < j && j < itercount()) ==> iteritem(i) < iteritem(j)
}

// --- TopicPartition, ordered by topicPartitionLess ---
extern btree.NewWithFreeListG@TopicPartition(degree, less, f) (t) {
  ensures fresh(t) && t.cnt == 0 && t.elems == emptyset(TopicPartition) && t.less == less
}
extern btree.BTreeG.Len@TopicPartition(t) (n) { ensures n == t.cnt && n >= 0 && (n == 0 <==> t.elems == emptyset(TopicPartition)) }
extern btree.BTreeG.Has@TopicPartition(t, x) (b) {
  requires isfn(t.less, topicPartitionLess) && x.Partition >= 0
  ensures b == t.elems[x]
}
extern btree.BTreeG.Get@TopicPartition(t, x) (y, b) {
  requires isfn(t.less, topicPartitionLess) && x.Partition >= 0
  ensures b == t.elems[x] && (b ==> y == x)
}
extern btree.BTreeG.ReplaceOrInsert@TopicPartition(t, x) (y, had) {
  requires isfn(t.less, topicPartitionLess) && x.Partition >= 0
  modifies t.elems, t.cnt
  ensures had == old(t.elems)[x] && t.elems == old(t.elems)[x := true] && t.cnt == old(t.cnt) + (if had then 0 else 1)
}
extern btree.BTreeG.Delete@TopicPartition(t, x) (y, had) {
  requires isfn(t.less, topicPartitionLess) && x.Partition >= 0
  modifies t.elems, t.cnt
  ensures had == old(t.elems)[x] && t.elems == old(t.elems)[x := false] && t.cnt == old(t.cnt) - (if had then 1 else 0)
}
pure tpLess(a TopicPartition, b TopicPartition) bool = a.Partition < b.Partition || (a.Partition == b.Partition && a.Topic < b.Topic)
extern btree.BTreeG.Ascend@TopicPartition(t, f) {
  requires isfn(t.less, topicPartitionLess)
  iterate f
  iterkeep t.elems
  $SETITER
  iterfact all: forall x TopicPartition {t.elems[x]} :: t.elems[x] ==> (0 <= iterpos(x) && iterpos(x) < itercount() && iteritem(iterpos(x)) == x)
  iterfact sorted: forall i int, j int {iteritem(i), iteritem(j)} :: (0 <= i && i < j && j < itercount()) ==> tpLess(iteritem(i), iteritem(j))
}
