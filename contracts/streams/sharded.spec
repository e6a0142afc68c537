package stores
tags C15

// the hash function is a function of the key (assumed)
pure hashOf(f ref, k K) uint64
field stores.ShardedTree.hashFunc(k) (h) {
  opt nolog noalloc
  ensures h == hashOf(self, k)
}
extern btree.NewWithFreeListG(degree, less, f) (t) {
  ensures fresh(t) && t.cnt == 0 && t.less == less
}
extern btree.BTreeG.Len(t) (n) { ensures n == t.cnt && n >= 0 }

// as many trees as a power of two, none of them twice
pure shards(st ShardedTree[K, T]) bool = len(st.trees) > 0 && st.mod == len(st.trees) - 1 && ispow2(len(st.trees)) && (forall i int {st.trees[i]} :: (0 <= i && i < len(st.trees)) ==> st.trees[i] != nil) && (forall i int, j int {st.trees[i], st.trees[j]} :: (0 <= i && i < j && j < len(st.trees)) ==> st.trees[i] != st.trees[j])
func NewShardedTree(exponent, hashFunc, lessFunc) (st) {
  requires exponent >= 0 && exponent <= 60
  ensures shards: shards(st) && len(st.trees) == 2 * pow2(exponent)
  ensures configured: st.hashFunc == hashFunc && (forall i int {st.trees[i]} :: (0 <= i && i < len(st.trees)) ==> (st.trees[i].less == lessFunc && st.trees[i].cnt == 0))
  loop 0 {
    invariant 0 <= i && i <= shards && len(trees) == shards
    invariant made: forall k int {trees[k]} :: (0 <= k && k < i) ==> (trees[k] != nil && fresh(trees[k]) && allocated(trees[k]) && trees[k].less == lessFunc && trees[k].cnt == 0)
    invariant distinct: forall k int, j int {trees[k], trees[j]} :: (0 <= k && k < j && j < i) ==> trees[k] != trees[j]
  }
}
func ShardedTree.For(st, key) (t) {
  requires shards(st)
  requires st.hashFunc != nil
  ensures shard: t == st.trees[hashOf(st.hashFunc, key) % len(st.trees)]
}
// a[i] is what shard i holds; psum adds up the first n
pure psum(a [int => int], n int) int
axiom psum0 for psum: forall a [int => int] {psum(a, 0)} :: psum(a, 0) == 0
axiom psumS for psum: forall a [int => int], n int {psum(a, n + 1)} :: n >= 0 ==> psum(a, n + 1) == psum(a, n) + a[n]
func ShardedTree.Len(st) (l) {
  opt nowrap
  logical a [int => int]
  requires shards(st)
  requires forall i int {st.trees[i]} :: (0 <= i && i < len(st.trees)) ==> a[i] == st.trees[i].cnt
  ensures sum: l == psum(a, len(st.trees))
  loop 0 {
    invariant l == psum(a, nvisited())
  }
}
func StringLess(a, b) (r) { ensures order: r == (a < b) }
func NumberLess(a, b) (r) { ensures order: r == (a < b) }
// two keys with the same hash share a shard, a key always has the same
func verifSameShard(st, k) (a, b) {
  requires shards(st) && st.hashFunc != nil
  ensures same: a == b && a != nil
  ensures inrange: exists i int :: 0 <= i && i < len(st.trees) && a == st.trees[i]
}
