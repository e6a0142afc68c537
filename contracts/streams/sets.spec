package streams
tags C17

pure tpset(s TopicPartitionSet) bool = s.BTreeG != nil && isfn(s.BTreeG.less, topicPartitionLess)

func topicPartitionLess(a, b) (r) {
  requires a.Partition >= 0 && b.Partition >= 0
  ensures order: r == tpLess(a, b)
}
lemma tpStrict: forall a TopicPartition, b TopicPartition :: (tpLess(a, b) ==> !tpLess(b, a)) && !tpLess(a, a)
lemma tpTotal: forall a TopicPartition, b TopicPartition :: (!tpLess(a, b) && !tpLess(b, a)) ==> a == b
lemma tpTrans: forall a TopicPartition, b TopicPartition, c TopicPartition :: (tpLess(a, b) && tpLess(b, c)) ==> tpLess(a, c)

func NewTopicPartitionSet() (s) {
  ensures empty: s.BTreeG.elems == emptyset(TopicPartition) && s.BTreeG.cnt == 0
  ensures ordered: tpset(s) && fresh(s.BTreeG)
}
func TopicPartitionSet.Insert(s, tp) (r) {
  requires tpset(s) && tp.Partition >= 0
  modifies s.BTreeG.elems, s.BTreeG.cnt
  ensures reports: r == !old(s.BTreeG.elems[tp])
  ensures inserted: s.BTreeG.elems == old(s.BTreeG.elems)[tp := true]
}
func TopicPartitionSet.Contains(s, tp) (r) {
  requires tpset(s) && tp.Partition >= 0
  ensures member: r == s.BTreeG.elems[tp]
}
func TopicPartitionSet.Remove(s, tp) (r) {
  requires tpset(s) && tp.Partition >= 0
  modifies s.BTreeG.elems, s.BTreeG.cnt
  ensures reports: r == old(s.BTreeG.elems[tp])
  ensures removed: s.BTreeG.elems == old(s.BTreeG.elems)[tp := false]
}
func TopicPartitionSet.Items(s) (r) {
  requires tpset(s)
  ensures fresh: fresh(r)
  ensures members: forall i int {r[i]} :: (0 <= i && i < len(r)) ==> s.BTreeG.elems[r[i]]
  ensures all: forall x TopicPartition {s.BTreeG.elems[x]} :: s.BTreeG.elems[x] ==> (exists i int :: 0 <= i && i < len(r) && r[i] == x)
  ensures sorted: forall i int, j int :: (0 <= i && i < j && j < len(r)) ==> tpLess(r[i], r[j])
  loop 0 {
    invariant len(slice) == nvisited() && fresh(slice)
    invariant forall i int {slice[i]} :: (0 <= i && i < nvisited()) ==> slice[i] == iteritem(i)
  }
}
func containsTopicPartition(p, t, tps) (r) {
  ensures r == (exists i int {tps[i]} :: 0 <= i && i < len(tps) && tps[i].Partition == p && tps[i].Topic == t)
  loop 0 {
    invariant forall i int {tps[i]} :: (0 <= i && i < nvisited()) ==> !(tps[i].Partition == p && tps[i].Topic == t)
  }
}
