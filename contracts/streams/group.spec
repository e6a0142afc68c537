package streams
tags C18

// the order a tree of members is visited in
pure memAt(s [ref => bool], i int) *incrGroupMember
pure memPos(s [ref => bool], x ref) int
// ---- trees of members: sets, as long as what orders a member does not change while it is in one ----
extern btree.BTreeG.Len@incrGroupMember(t) (n) { ensures n == t.cnt && n >= 0 && (n == 0 <==> t.elems == emptyset(*incrGroupMember)) }
extern btree.BTreeG.Min@incrGroupMember(t) (m, ok) { ensures ok == (t.elems != emptyset(*incrGroupMember)) && (ok ==> (t.elems[m] && m != nil)) && (!ok ==> m == nil) }
extern btree.BTreeG.Max@incrGroupMember(t) (m, ok) { ensures ok == (t.elems != emptyset(*incrGroupMember)) && (ok ==> (t.elems[m] && m != nil)) && (!ok ==> m == nil) }
extern btree.BTreeG.Get@incrGroupMember(t, x) (y, b) { ensures b == t.elems[x] && (b ==> y == x) }
extern btree.BTreeG.ReplaceOrInsert@incrGroupMember(t, x) (y, had) {
  modifies t.elems, t.cnt
  ensures had == old(t.elems)[x] && t.elems == old(t.elems)[x := true] && t.cnt == old(t.cnt) + (if had then 0 else 1)
}
extern btree.BTreeG.Delete@incrGroupMember(t, x) (y, had) {
  modifies t.elems, t.cnt
  ensures had == old(t.elems)[x] && t.elems == old(t.elems)[x := false] && t.cnt == old(t.cnt) - (if had then 1 else 0)
}
extern btree.BTreeG.Ascend@incrGroupMember(t, f) {
  iterate f
  iterkeep t.elems
  $SETITER
  iterfact all: forall any_x *incrGroupMember {t.elems[any_x]} :: t.elems[any_x] ==> (0 <= iterpos(any_x) && iterpos(any_x) < itercount() && iteritem(iterpos(any_x)) == any_x)
  iterfact stable: forall i int {iteritem(i)} {memAt(t.elems, i)} :: (isfn(t.less, incrGroupInactiveLess) && 0 <= i && i < itercount()) ==> iteritem(i) == memAt(t.elems, i)
  iterfact stablepos: forall any_x *incrGroupMember {t.elems[any_x]} :: (isfn(t.less, incrGroupInactiveLess) && t.elems[any_x]) ==> memPos(t.elems, any_x) == iterpos(any_x)
  iterfact some: forall i int {iteritem(i)} :: (0 <= i && i < itercount()) ==> iteritem(i) != nil
}

// which tree this is: 1 assigned, 2 donatable, 3 donating partitions of member own; 0 the group's
ghostfield btree.BTreeG.role int
ghostfield btree.BTreeG.own ref
// the member a partition is assigned to
ghostvar assignee [int32 => *incrGroupMember]
define DISJ (forall any_m *incrGroupMember {gs.activeMembers.elems[any_m]} {gs.inactiveMembers.elems[any_m]} :: !(gs.activeMembers.elems[any_m] && gs.inactiveMembers.elems[any_m]))
define TREESOF(M) (M.member != nil && M.assignments != nil && M.assignments.role == 1 && M.assignments.own == M && M.donatable != nil && M.donatable.role == 2 && M.donatable.own == M && M.donating != nil && M.donating.role == 3 && M.donating.own == M)
define ISMEM(M) (gs.activeMembers.elems[M] || gs.inactiveMembers.elems[M])
define GROUP (isfn(gs.inactiveMembers.less, incrGroupInactiveLess) && gs.activeMembers != nil && gs.inactiveMembers != nil && gs.activeMembers != gs.inactiveMembers && gs.activeMembers.role == 0 && gs.inactiveMembers.role == 0 && gs.partitionCount >= 0 && gs.inReceivership != nil && gs.inReceivership.role == 0 && gs.inTransition != nil && gs.inTransition.role == 0 && gs.preparing != gs.ready && gs.ready != nil && gs.preparing != nil)
define MEMBERS (forall any_m *incrGroupMember {gs.activeMembers.elems[any_m]} {gs.inactiveMembers.elems[any_m]} :: $ISMEM(any_m) ==> (any_m != nil && $TREESOF(any_m)))
// no partition is assigned to two members
define EXCL (forall any_m *incrGroupMember, p int32 {any_m.assignments.elems[p]} :: ($ISMEM(any_m) && any_m.assignments.elems[p]) ==> assignee[p] == any_m)
define HELDBY(P) (assignee[P] != nil && $ISMEM(assignee[P]) && assignee[P].assignments.elems[P])
define SAMEMEMBERS (gs.activeMembers.elems == old(gs.activeMembers.elems) && gs.inactiveMembers.elems == old(gs.inactiveMembers.elems))
define RDYFOR(M,P) (exists i int {M.meta.Ready[i]} :: 0 <= i && i < len(M.meta.Ready) && M.meta.Ready[i].Partition == P && M.meta.Ready[i].Topic == gs.topic)
define RDYKEPT (forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (old(has(gs.ready, t)) && gs.ready[t] == old(gs.ready[t])))
define MOVES $MEMTREES, anymap("map[streams.TopicPartition]*streams.incrGroupMember"), any IncrGroupMemberMeta.Preparing, any IncrGroupMemberMeta.Ready, any IncrGroupMemberInstructions.Prepare, ghost assignee, log groupState.assignToActiveMember, log groupState.unassignFromDonor
define MEMTREES anyof(btree.BTreeG[int32]).elems, any btree.BTreeG.cnt, gs.activeMembers.elems
func withoutPartition(tps, partition) (r) {
  ensures fresh: fresh(r)
  ensures without: forall i int {r[i]} :: (0 <= i && i < len(r)) ==> r[i].Partition != partition
  loop 0 {
    invariant fresh(newTps)
    invariant forall i int {newTps[i]} :: (0 <= i && i < len(newTps)) ==> newTps[i].Partition != partition
  }
}
func groupState.assignToActiveMember(gs, partition, recipient) {
  opt log
  requires $GROUP && $MEMBERS && $EXCL && gs.activeMembers.elems[recipient] && assignee[partition] == nil
  modifies recipient.assignments.elems, recipient.assignments.cnt, recipient.donatable.elems, recipient.donatable.cnt, gs.activeMembers.elems, gs.activeMembers.cnt, gs.inReceivership.elems, gs.inReceivership.cnt, gs.inTransition.elems, gs.inTransition.cnt, mapof(gs.ready), mapof(gs.preparing), recipient.meta.Preparing, recipient.meta.Ready, recipient.instructions.Prepare, ghost assignee
  ghost assignee[partition] := recipient
  ensures assignee: assignee == old(assignee)[partition := recipient]
  ensures assigned: recipient.assignments.elems == old(recipient.assignments.elems)[partition := true]
  ensures exclusive: $EXCL
  ensures members: gs.activeMembers.elems == old(gs.activeMembers.elems)
  ensures ready: forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (old(has(gs.ready, t)) && gs.ready[t] == old(gs.ready[t]))
  ensures moving: gs.inReceivership.elems[partition] && gs.inTransition.elems[partition]
}
func groupState.unassignFromDonor(gs, partition, theDonor) {
  opt log
  requires $GROUP && $MEMBERS && $EXCL && $ISMEM(theDonor) && assignee[partition] == theDonor
  modifies theDonor.assignments.elems, theDonor.assignments.cnt, theDonor.donatable.elems, theDonor.donatable.cnt, theDonor.donating.elems, theDonor.donating.cnt, ghost assignee
  ghost assignee[partition] := nil
  ensures assignee: assignee == old(assignee)[partition := nil]
  ensures released: theDonor.assignments.elems == old(theDonor.assignments.elems)[partition := false]
  ensures exclusive: $EXCL
}

define ASSIGN groupState.assignToActiveMember
func groupState.distributeUnassigned(gs) (n) {
  opt log
  requires $GROUP && $MEMBERS && $EXCL && gs.unassigned != nil
  requires free: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) ==> assignee[p] == nil
  modifies $MOVES
  ensures nobody: gs.activeMembers.elems == emptyset(*incrGroupMember) ==> (assignee == old(assignee))
  ensures placed: gs.activeMembers.elems != emptyset(*incrGroupMember) ==> (forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) ==> (gs.activeMembers.elems[assignee[p]] && $HELDBY(p)))
  ensures others: forall p int32 {assignee[p]} :: !has(gs.unassigned, p) ==> assignee[p] == old(assignee[p])
  ensures held: forall p int32 {assignee[p]} :: (!has(gs.unassigned, p) && old($HELDBY(p))) ==> $HELDBY(p)
  ensures exclusive: $EXCL
  ensures members: $SAMEMEMBERS
  ensures ready: forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (old(has(gs.ready, t)) && gs.ready[t] == old(gs.ready[t]))
  loop 0 {
    invariant members: $SAMEMEMBERS && gs.activeMembers.elems != emptyset(*incrGroupMember)
    invariant exclusive: $EXCL
    invariant placed: forall p int32 {visited()[p]} {assignee[p]} :: visited()[p] ==> (gs.activeMembers.elems[assignee[p]] && $HELDBY(p))
    invariant others: forall p int32 {assignee[p]} :: !visited()[p] ==> assignee[p] == old(assignee[p])
    invariant mine: forall p int32 {visited()[p]} :: visited()[p] ==> has(gs.unassigned, p)
    invariant held: forall p int32 {assignee[p]} :: (!has(gs.unassigned, p) && old($HELDBY(p))) ==> $HELDBY(p)
    invariant ready: forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (old(has(gs.ready, t)) && gs.ready[t] == old(gs.ready[t]))
  }
  loop 1 { invariant active: recipient != nil && gs.activeMembers.elems[recipient] }
}
func groupState.deliverScheduledPartitionMoves(gs) {
  tags C18 C19
  opt log
  requires $GROUP && $MEMBERS && $EXCL && gs.assigned != nil
  requires owners: forall p int32 {has(gs.assigned, p)} :: has(gs.assigned, p) ==> (assignee[p] == gs.assigned[p] && $HELDBY(p))
  requires active: forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (gs.ready[t] != nil && gs.activeMembers.elems[gs.ready[t]])
  modifies $MOVES
  before groupState.assignToActiveMember declared: old($RDYFOR(arg2, arg1))
  ensures held: forall p int32 {assignee[p]} :: old($HELDBY(p)) ==> $HELDBY(p)
  ensures active: forall p int32 {assignee[p]} :: assignee[p] != old(assignee[p]) ==> gs.activeMembers.elems[assignee[p]]
  ensures ready: forall any_m *incrGroupMember, p int32 {old(any_m.meta.Ready), assignee[p]} :: (assignee[p] == any_m && any_m != old(assignee[p])) ==> old($RDYFOR(any_m, p))
  ensures exclusive: $EXCL
  ensures members: $SAMEMEMBERS
  loop 0 {
    invariant active: forall p int32 {has(fullyReady, p)} :: has(fullyReady, p) ==> (fullyReady[p] != nil && gs.activeMembers.elems[fullyReady[p]])
    invariant ready: forall p int32 {has(fullyReady, p)} :: has(fullyReady, p) ==> $RDYFOR(fullyReady[p], p)
  }
  loop 1 {
    invariant members: $SAMEMEMBERS
    invariant exclusive: $EXCL
    invariant declared: forall any_m *incrGroupMember, p int32 {old(any_m.meta.Ready), fullyReady[p]} :: (has(fullyReady, p) && fullyReady[p] == any_m) ==> old($RDYFOR(any_m, p))
    invariant moved: forall p int32 {assignee[p]} :: if visited()[p] && has(gs.assigned, p) then (assignee[p] == fullyReady[p] && has(fullyReady, p)) else assignee[p] == old(assignee[p])
    invariant held: forall p int32 {assignee[p]} :: old($HELDBY(p)) ==> $HELDBY(p)
  }
}

define TARGET (gs.partitionCount / gs.activeMembers.cnt)
define PEND(M) (M.donatable.cnt + M.donating.cnt + len(M.meta.Preparing) + len(M.meta.Ready))
func randomPartition(donor) (r) {
  tags C19
  requires donor.donatable != nil && donor.donatable.cnt > 0
  ensures movable: donor.donatable.elems[r]
  loop 0 { invariant current == nvisited() && current <= i }
}
func memberAt(tree, index) (m, b) {
  tags C19
  requires tree != nil && index >= 0
  ensures found: b ==> (tree.elems[m] && m != nil)
  ensures bound: b ==> index < tree.cnt
  ensures at: (b && isfn(tree.less, incrGroupInactiveLess)) ==> m == memAt(tree.elems, index)
  ensures all: (!b && isfn(tree.less, incrGroupInactiveLess)) ==> (forall any_x *incrGroupMember {tree.elems[any_x]} :: tree.elems[any_x] ==> (0 <= memPos(tree.elems, any_x) && memPos(tree.elems, any_x) < index && memAt(tree.elems, memPos(tree.elems, any_x)) == any_x))
  loop 0 { invariant i == nvisited() && !ok && i <= index }
}
func groupState.instructActiveMemberToPrepareFor(gs, partition, recipient) {
  tags C19
  requires gs.activeMembers != nil && gs.activeMembers.elems[recipient] && recipient != nil
  modifies gs.activeMembers.elems, gs.activeMembers.cnt, recipient.instructions.Prepare, elems(recipient.instructions.Prepare)
  ensures members: gs.activeMembers.elems == old(gs.activeMembers.elems) && gs.activeMembers.cnt == old(gs.activeMembers.cnt)
  ensures told: len(recipient.instructions.Prepare) == old(len(recipient.instructions.Prepare)) + 1 && recipient.instructions.Prepare[old(len(recipient.instructions.Prepare))].Partition == partition && recipient.instructions.Prepare[old(len(recipient.instructions.Prepare))].Topic == gs.topic
}
func groupState.donatePartition(gs, donor, recipient) {
  tags C19
  opt log
  requires $GROUP && $MEMBERS && $ISMEM(donor) && donor.donatable.cnt > 0 && gs.activeMembers.elems[recipient]
  modifies gs.activeMembers.elems, gs.activeMembers.cnt, recipient.instructions.Prepare, elems(recipient.instructions.Prepare)
  ensures members: gs.activeMembers.elems == old(gs.activeMembers.elems) && gs.activeMembers.cnt == old(gs.activeMembers.cnt)
  ensures one: len(recipient.instructions.Prepare) == old(len(recipient.instructions.Prepare)) + 1 && recipient.instructions.Prepare[old(len(recipient.instructions.Prepare))].Topic == gs.topic
  ensures movable: donor.donatable.elems[recipient.instructions.Prepare[old(len(recipient.instructions.Prepare))].Partition]
}
func groupState.isImbalanced(gs) (should, donor, recipient) {
  tags C19
  opt nowrap
  requires $GROUP && $MEMBERS
  ensures members: should ==> (gs.activeMembers.elems[donor] && gs.activeMembers.elems[recipient] && donor != nil && recipient != nil)
  ensures needed: should ==> (gs.activeMembers.cnt >= 2 && donor.donatable.cnt > 1 && ($PEND(recipient) < $TARGET || $PEND(donor) > $TARGET + 1))
}
define DRAINED (forall any_m *incrGroupMember {gs.inactiveMembers.elems[any_m]} :: gs.inactiveMembers.elems[any_m] ==> any_m.donatable.cnt == 0)
define DONATE groupState.donatePartition
func groupState.schedulePartitionMoves(gs, moves) (again) {
  tags C19
  opt log
  requires $GROUP && $MEMBERS && $DISJ
  modifies gs.activeMembers.elems, gs.activeMembers.cnt, any IncrGroupMemberInstructions.Prepare, anyelems(TopicPartition), log groupState.donatePartition
  let n = ncalls($DONATE)
  let b0 = moves
  before $DONATE drain: gs.activeMembers.elems[arg1] ==> ($DRAINED && arg1.donatable.cnt > 1)
  before $DONATE needed: gs.activeMembers.elems[arg1] ==> ($PEND(arg2) < $TARGET || $PEND(arg1) > $TARGET + 1)
  before $DONATE movable: arg1.donatable.cnt > 0
  ensures budget: ncalls($DONATE) <= n + (if b0 > 0 then b0 else 0)
  ensures members: gs.activeMembers.elems == old(gs.activeMembers.elems)
  loop 0 {
    invariant members: gs.activeMembers.elems == old(gs.activeMembers.elems) && gs.activeMembers.cnt == old(gs.activeMembers.cnt) && gs.activeMembers.elems != emptyset(*incrGroupMember)
    invariant calls: ncalls($DONATE) + budget == n + b0
    invariant count: (budget >= 0 || budget == b0) && i >= 0 && (i == 0 || i <= gs.inactiveMembers.cnt)
    invariant drained: forall j int {memAt(gs.inactiveMembers.elems, j)} :: (0 <= j && j < i) ==> memAt(gs.inactiveMembers.elems, j).donatable.cnt == 0
  }
  loop 1 {
    invariant members: gs.activeMembers.elems == old(gs.activeMembers.elems) && gs.activeMembers.cnt == old(gs.activeMembers.cnt)
    invariant calls: ncalls($DONATE) + budget == n + b0
    invariant count: (budget >= 0 || budget == b0)
    invariant drained: budget > 0 ==> $DRAINED
  }
}

func groupState.printGroupState(gs, label) {
  requires $GROUP && $MEMBERS && gs.activeMembers.elems != emptyset(*incrGroupMember)
}
define MOVESCHED groupState.schedulePartitionMoves
func groupState.balance(gs, shifts) (again) {
  tags C18 C19
  opt nowrap
  requires $GROUP && $MEMBERS && $EXCL && $DISJ && gs.assigned != nil && gs.unassigned != nil
  requires some: gs.activeMembers.elems != emptyset(*incrGroupMember)
  requires free: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) ==> assignee[p] == nil
  requires owners: forall p int32 {has(gs.assigned, p)} :: has(gs.assigned, p) ==> (assignee[p] == gs.assigned[p] && $HELDBY(p))
  requires active: forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (gs.ready[t] != nil && gs.activeMembers.elems[gs.ready[t]])
  modifies $MOVES, anyelems(TopicPartition), log groupState.schedulePartitionMoves, log groupState.donatePartition, log groupState.distributeUnassigned, log groupState.deliverScheduledPartitionMoves
  let n = ncalls(groupState.donatePartition)
  before $MOVESCHED budget: arg1 == shifts - gs.inReceivership.cnt - gs.inTransition.cnt
  ensures planned: forall p int32 {has(gs.unassigned, p)} {has(gs.assigned, p)} :: (has(gs.unassigned, p) || has(gs.assigned, p)) ==> $HELDBY(p)
  ensures exclusive: $EXCL
  ensures members: $SAMEMEMBERS
  ensures placed: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) ==> gs.activeMembers.elems[assignee[p]]
  ensures moved: forall p int32 {assignee[p]} :: assignee[p] != old(assignee[p]) ==> gs.activeMembers.elems[assignee[p]]
  ensures budget: ncalls(groupState.donatePartition) <= n + (let b = callarg($MOVESCHED, ncalls($MOVESCHED) - 1, 1, int); (if b > 0 then b else 0))
}

// the plan: what each member of the group is given
func addMemberToPlan(plan, mem) {
  opt log
  requires mem != nil && mem.assignments != nil && mem.member != nil && plan != nil
  modifies log kgo.BalancePlan.AddPartitions
  let n = ncalls(kgo.BalancePlan.AddPartitions)
  before kgo.BalancePlan.AddPartitions whole: forall p int32 {mem.assignments.elems[p]} :: mem.assignments.elems[p] ==> (exists i int {arg3[i]} :: 0 <= i && i < len(arg3) && arg3[i] == p)
  before kgo.BalancePlan.AddPartitions only: forall i int {arg3[i]} :: (0 <= i && i < len(arg3)) ==> mem.assignments.elems[arg3[i]]
  before kgo.BalancePlan.AddPartitions distinct: forall i int, j int {arg3[i], arg3[j]} :: (0 <= i && i < j && j < len(arg3)) ==> arg3[i] != arg3[j]
  before kgo.BalancePlan.AddPartitions member: arg0 == plan && arg1 == mem.member && arg2 == mem.topic
  ensures once: ncalls(kgo.BalancePlan.AddPartitions) == n + 1
  loop 0 {
    invariant len(partitions) == nvisited() && fresh(partitions) && ncalls(kgo.BalancePlan.AddPartitions) == n
    invariant forall i int {partitions[i]} :: (0 <= i && i < nvisited()) ==> partitions[i] == iteritem(i)
  }
}
extern kgo.BalancePlan.AddPartitions(plan, member, topic, partitions) { opt log }
define ADDM addMemberToPlan
func incrementalBalanceController.balanceTopic(ib, cb, plan, count, topic) (gs, imbalanced) {
  opt log
  requires plan != nil && cb != nil && count >= 0
  modifies anyof(btree.BTreeG[int32]).elems, anyof(btree.BTreeG[*incrGroupMember]).elems, any btree.BTreeG.cnt, anymap("map[streams.TopicPartition]*streams.incrGroupMember"), any IncrGroupMemberMeta.Preparing, any IncrGroupMemberMeta.Ready, any IncrGroupMemberInstructions.Prepare, ghost assignee, log groupState.assignToActiveMember, log groupState.unassignFromDonor, anyelems(TopicPartition), log groupState.schedulePartitionMoves, log groupState.donatePartition, log groupState.distributeUnassigned, log groupState.deliverScheduledPartitionMoves, log groupState.balance, log $ADDM, log kgo.BalancePlan.AddPartitions, log jsoniter.API.Unmarshal
  let n = ncalls($ADDM)
  ensures none: gs.activeMembers.elems == emptyset(*incrGroupMember) ==> (ncalls($ADDM) == n && !imbalanced)
  ensures all: gs.activeMembers.elems != emptyset(*incrGroupMember) ==> (forall any_m *incrGroupMember {$ISMEM(any_m)} :: $ISMEM(any_m) ==> (exists i int {callarg($ADDM, n + i, 1, *incrGroupMember)} :: 0 <= i && n + i < ncalls($ADDM) && callarg($ADDM, n + i, 1, *incrGroupMember) == any_m))
  ensures once: gs.activeMembers.elems != emptyset(*incrGroupMember) ==> ncalls($ADDM) == n + gs.inactiveMembers.cnt + gs.activeMembers.cnt
  ensures planned: gs.activeMembers.elems != emptyset(*incrGroupMember) ==> (forall p int32 {has(gs.unassigned, p)} {has(gs.assigned, p)} :: (has(gs.unassigned, p) || has(gs.assigned, p)) ==> $HELDBY(p))
  ensures exclusive: $EXCL
  loop 0 {
    invariant n0: ncalls($ADDM) == n + nvisited()
    invariant each: forall i int {callarg($ADDM, n + i, 1, *incrGroupMember)} {iteritem(i)} :: (0 <= i && i < nvisited()) ==> callarg($ADDM, n + i, 1, *incrGroupMember) == iteritem(i)
  }
  loop 1 {
    invariant n0: ncalls($ADDM) == n + gs.inactiveMembers.cnt + nvisited()
    invariant first: forall any_m *incrGroupMember {gs.inactiveMembers.elems[any_m]} :: gs.inactiveMembers.elems[any_m] ==> (exists i int {callarg($ADDM, n + i, 1, *incrGroupMember)} :: 0 <= i && i < gs.inactiveMembers.cnt && callarg($ADDM, n + i, 1, *incrGroupMember) == any_m)
    invariant each: forall i int {iteritem(i)} :: (0 <= i && i < nvisited()) ==> callarg($ADDM, n + gs.inactiveMembers.cnt + i, 1, *incrGroupMember) == iteritem(i)
  }
}
extern btree.NewG@incrGroupMember(degree, less) (t) { ensures fresh(t) && t.cnt == 0 && t.elems == emptyset(*incrGroupMember) && t.less == less && t.role == 0 }
extern kgo.ConsumerBalancer.EachMember(cb, f) {
  iterate f
  iterfact distinct: forall i int, j int {iteritem(i), iteritem(j)} :: (0 <= i && i < j && j < itercount()) ==> iteritem(i).MemberID != iteritem(j).MemberID
  iterfact some: forall i int {iteritem(i)} :: (0 <= i && i < itercount()) ==> (iteritem(i) != nil && iteritem(i, 1) != nil)
}
define RDYFROM(G,M) (forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> ((old(has(gs.ready, t)) && gs.ready[t] == old(gs.ready[t])) || (gs.ready[t] == M && M.meta.Status == ActiveMember)))
func groupState.initReceivership(gs, m, member, meta) {
  tags C18 C19
  requires m != nil && meta != nil && m.member != nil && gs.inReceivership != nil && gs.ready != nil && gs.preparing != nil && gs.ready != gs.preparing
  modifies object(m.meta), m.instructions.Forget, elems(m.instructions.Forget), mapof(gs.preparing), mapof(gs.ready), gs.inReceivership.elems, gs.inReceivership.cnt, log jsoniter.API.Unmarshal
  ensures ready: $RDYFROM(gs, m)
  let u = ncalls(jsoniter.API.Unmarshal)
  ensures moving: (m.meta.Status == ActiveMember && ncalls(jsoniter.API.Unmarshal) == u + 1 && callres(jsoniter.API.Unmarshal, u, 0, error) == nil) ==> ((forall i int {m.meta.Preparing[i]} :: (0 <= i && i < len(m.meta.Preparing)) ==> gs.inReceivership.elems[m.meta.Preparing[i].Partition]) && (forall i int {m.meta.Ready[i]} :: (0 <= i && i < len(m.meta.Ready)) ==> gs.inReceivership.elems[m.meta.Ready[i].Partition]))
  ensures leaving: m.meta.Status != ActiveMember ==> (gs.inReceivership.elems == old(gs.inReceivership.elems) && (forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) == old(has(gs.ready, t))))
  ensures more: forall p int32 {gs.inReceivership.elems[p]} :: old(gs.inReceivership.elems[p]) ==> gs.inReceivership.elems[p]
  loop 0 { invariant true }
  loop 1 { invariant ready: $RDYFROM(gs, m) }
  loop 2 {
    invariant more: forall p int32 {gs.inReceivership.elems[p]} :: old(gs.inReceivership.elems[p]) ==> gs.inReceivership.elems[p]
    invariant preparing: forall i int {m.meta.Preparing[i]} :: (0 <= i && i < nvisited()) ==> gs.inReceivership.elems[m.meta.Preparing[i].Partition]
  }
  loop 3 {
    invariant more: forall p int32 {gs.inReceivership.elems[p]} :: old(gs.inReceivership.elems[p]) ==> gs.inReceivership.elems[p]
    invariant preparing: forall i int {m.meta.Preparing[i]} :: (0 <= i && i < len(m.meta.Preparing)) ==> gs.inReceivership.elems[m.meta.Preparing[i].Partition]
    invariant ready: forall i int {m.meta.Ready[i]} :: (0 <= i && i < nvisited()) ==> gs.inReceivership.elems[m.meta.Ready[i].Partition]
  }
}
define INGRP(M) (M != nil && M.member != nil && has(gs.members, M.member.MemberID) && gs.members[M.member.MemberID] == M)
define GMAPS (gs.assigned != nil && gs.unassigned != nil && gs.members != nil && gs.preparing != nil && gs.ready != nil && gs.preparing != gs.ready && gs.inReceivership != nil && gs.inReceivership.role == 0 && gs.inTransition != nil && gs.inTransition.role == 0 && gs.activeMembers != nil && gs.inactiveMembers != nil && gs.activeMembers != gs.inactiveMembers && gs.activeMembers.role == 0 && gs.inactiveMembers.role == 0 && isfn(gs.inactiveMembers.less, incrGroupInactiveLess))
define GMEMS (forall k string {has(gs.members, k)} {gs.members[k]} :: has(gs.members, k) ==> (gs.members[k] != nil && fresh(gs.members[k]) && fresh(gs.members[k].assignments) && fresh(gs.members[k].donatable) && fresh(gs.members[k].donating) && $TREESOF(gs.members[k]) && gs.members[k].member.MemberID == k))
define GOWN (forall p int32 {has(gs.assigned, p)} {gs.assigned[p]} :: has(gs.assigned, p) ==> ($INGRP(gs.assigned[p]) && gs.assigned[p].assignments.elems[p]))
define GCLAIM (forall any_m *incrGroupMember, p int32 {any_m.assignments.elems[p]} :: ($INGRP(any_m) && any_m.assignments.elems[p]) ==> (has(gs.assigned, p) && gs.assigned[p] == any_m))
define GAPART (forall p int32 {has(gs.assigned, p)} {has(gs.unassigned, p)} :: !(has(gs.assigned, p) && has(gs.unassigned, p)))
define GCOVER (forall p int32 {has(gs.unassigned, p)} :: (0 <= p && p < count) ==> (has(gs.unassigned, p) || has(gs.assigned, p)))
define GREADY (forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> ($INGRP(gs.ready[t]) && gs.ready[t].meta.Status == ActiveMember))
func newGroupState(cb, count, topic) (gs) {
  tags C18 C19
  requires cb != nil && count >= 0
  modifies ghost assignee, log jsoniter.API.Unmarshal
  ghost assignee := lambda p int32 :: (if has(gs.assigned, p) then gs.assigned[p] else nil)
  ensures valid: $GROUP && $MEMBERS && $EXCL && $DISJ && gs.assigned != nil && gs.unassigned != nil && fresh(gs.activeMembers) && fresh(gs.inactiveMembers)
  ensures free: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) ==> assignee[p] == nil
  ensures owners: forall p int32 {has(gs.assigned, p)} :: has(gs.assigned, p) ==> (assignee[p] == gs.assigned[p] && $HELDBY(p))
  ensures active: forall t TopicPartition {has(gs.ready, t)} :: has(gs.ready, t) ==> (gs.ready[t] != nil && gs.activeMembers.elems[gs.ready[t]])
  ensures still: forall p int32 {gs.inReceivership.elems[p]} :: (gs.inReceivership.elems[p] && has(gs.assigned, p)) ==> !gs.assigned[p].donatable.elems[p]
  ensures statuses: forall any_m *incrGroupMember {gs.activeMembers.elems[any_m]} {gs.inactiveMembers.elems[any_m]} :: (gs.activeMembers.elems[any_m] ==> any_m.meta.Status == ActiveMember) && (gs.inactiveMembers.elems[any_m] ==> any_m.meta.Status != ActiveMember)
  ensures nobody_lost: forall k string {has(gs.members, k)} {gs.members[k]} :: has(gs.members, k) ==> $ISMEM(gs.members[k])
  ensures partitions: forall p int32 {has(gs.unassigned, p)} :: (0 <= p && p < count) ==> (has(gs.unassigned, p) || has(gs.assigned, p))
  loop 0 { invariant un: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) == (0 <= p && p < i) }
  loop 1 {
    ghost gs.members[iteritem(nvisited() - 1).MemberID].assignments.role := 1
    ghost gs.members[iteritem(nvisited() - 1).MemberID].assignments.own := gs.members[iteritem(nvisited() - 1).MemberID]
    ghost gs.members[iteritem(nvisited() - 1).MemberID].donatable.role := 2
    ghost gs.members[iteritem(nvisited() - 1).MemberID].donatable.own := gs.members[iteritem(nvisited() - 1).MemberID]
    ghost gs.members[iteritem(nvisited() - 1).MemberID].donating.role := 3
    ghost gs.members[iteritem(nvisited() - 1).MemberID].donating.own := gs.members[iteritem(nvisited() - 1).MemberID]
    invariant $GMAPS
    invariant $GMEMS
    invariant seen: forall k string {has(gs.members, k)} :: has(gs.members, k) ==> (exists j int {iteritem(j)} :: 0 <= j && j < nvisited() && iteritem(j).MemberID == k)
    invariant $GOWN && $GAPART && $GCOVER
    invariant $GCLAIM
    invariant $GREADY
  }
  loop 2 {
    let recv = gs.inReceivership.elems
    invariant kept: gs.inReceivership.elems == recv
    invariant still: forall i int {iteritem(i)} :: (0 <= i && i < nvisited() && has(gs.assigned, iteritem(i))) ==> !gs.assigned[iteritem(i)].donatable.elems[iteritem(i)]
    invariant trees: forall p int32 {has(gs.assigned, p)} {gs.assigned[p]} :: has(gs.assigned, p) ==> (fresh(gs.assigned[p].donatable) && fresh(gs.assigned[p].donating) && gs.assigned[p].donatable.role == 2 && gs.assigned[p].donating.role == 3 && gs.assigned[p].donatable != gs.inReceivership && gs.assigned[p].donating != gs.inReceivership)
    invariant $GMAPS && $GMEMS && $GOWN && $GAPART && $GCOVER && $GCLAIM && $GREADY
  }
  loop 3 {
    invariant still: forall p int32 {gs.inReceivership.elems[p]} :: (gs.inReceivership.elems[p] && has(gs.assigned, p)) ==> !gs.assigned[p].donatable.elems[p]
    invariant $GMAPS && $GMEMS && $GOWN && $GAPART && $GCOVER && $GCLAIM && $GREADY
    invariant active: forall any_m *incrGroupMember {gs.activeMembers.elems[any_m]} :: gs.activeMembers.elems[any_m] ==> ($INGRP(any_m) && any_m.meta.Status == ActiveMember)
    invariant inactive: forall any_m *incrGroupMember {gs.inactiveMembers.elems[any_m]} :: gs.inactiveMembers.elems[any_m] ==> ($INGRP(any_m) && any_m.meta.Status != ActiveMember)
    invariant placed: forall k string {visited()[k]} :: visited()[k] ==> (gs.activeMembers.elems[gs.members[k]] || gs.inactiveMembers.elems[gs.members[k]])
  }
}
func groupState.initAssignments(gs, m, meta) {
  requires gs.assigned != nil && gs.unassigned != nil && m != nil && m.assignments != nil && m.donatable != nil && m.member != nil && meta != nil && m.assignments != m.donatable && (forall p int32 {has(gs.assigned, p)} :: has(gs.assigned, p) ==> (gs.assigned[p] != nil && gs.assigned[p].member != nil))
  requires mine: forall p int32 {m.assignments.elems[p]} {gs.assigned[p]} :: m.assignments.elems[p] == (has(gs.assigned, p) && gs.assigned[p] == m)
  requires apart: forall p int32 {has(gs.assigned, p)} {has(gs.unassigned, p)} :: !(has(gs.assigned, p) && has(gs.unassigned, p))
  modifies mapof(gs.unassigned), mapof(gs.assigned), m.assignments.elems, m.assignments.cnt, m.donatable.elems, m.donatable.cnt
  ensures kept: forall p int32 {has(gs.assigned, p)} :: old(has(gs.assigned, p)) ==> (has(gs.assigned, p) && gs.assigned[p] == old(gs.assigned[p]))
  ensures given: forall p int32 {has(gs.assigned, p)} :: (has(gs.assigned, p) && !old(has(gs.assigned, p))) ==> gs.assigned[p] == m
  ensures claimed: forall p int32 {m.assignments.elems[p]} {gs.assigned[p]} :: m.assignments.elems[p] == (has(gs.assigned, p) && gs.assigned[p] == m)
  ensures covered: forall p int32 {has(gs.unassigned, p)} :: old(has(gs.unassigned, p)) ==> (has(gs.unassigned, p) || has(gs.assigned, p))
  ensures apart: forall p int32 {has(gs.assigned, p)} {has(gs.unassigned, p)} :: !(has(gs.assigned, p) && has(gs.unassigned, p))
  loop 0 {
    invariant kept: forall p int32 {has(gs.assigned, p)} :: has(gs.assigned, p) == old(has(gs.assigned, p)) && gs.assigned[p] == old(gs.assigned[p])
    invariant un: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) == old(has(gs.unassigned, p))
    invariant same: m.assignments.elems == old(m.assignments.elems)
  }
  loop 1 {
    invariant kept: forall p int32 {has(gs.assigned, p)} :: old(has(gs.assigned, p)) ==> (has(gs.assigned, p) && gs.assigned[p] == old(gs.assigned[p]))
    invariant given: forall p int32 {has(gs.assigned, p)} :: (has(gs.assigned, p) && !old(has(gs.assigned, p))) ==> gs.assigned[p] == m
    invariant claimed: forall p int32 {m.assignments.elems[p]} {gs.assigned[p]} :: m.assignments.elems[p] == (has(gs.assigned, p) && gs.assigned[p] == m)
    invariant covered: forall p int32 {has(gs.unassigned, p)} :: old(has(gs.unassigned, p)) ==> (has(gs.unassigned, p) || has(gs.assigned, p))
    invariant apart: forall p int32 {has(gs.assigned, p)} {has(gs.unassigned, p)} :: !(has(gs.assigned, p) && has(gs.unassigned, p))
    invariant less: forall p int32 {has(gs.unassigned, p)} :: has(gs.unassigned, p) ==> old(has(gs.unassigned, p))
  }
}
