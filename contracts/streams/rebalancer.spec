package streams
define NIR as(r, *incrementalRebalancer)
tags C20

func IncrementalRebalancer(instructionHandler) (r) {
  tags C20 C25 C19
  ensures kind: is(r, *incrementalRebalancer)
  ensures fresh: fresh($NIR) && $NIR.memberStatus == ActiveMember && $NIR.instructionHandler == instructionHandler && $NIR.gracefulChan != nil && !closed($NIR.gracefulChan)
  ensures budget: $NIR.balancerController.budget == 1
  ensures sets: tpset($NIR.preparing) && tpset($NIR.ready) && $NIR.preparing.BTreeG != $NIR.ready.BTreeG
  ensures empty: $NIR.preparing.BTreeG.elems == emptyset(TopicPartition) && $NIR.ready.BTreeG.elems == emptyset(TopicPartition)
}

// ---- what the member has been told to prepare ----
define PREPG ir.preparing.BTreeG
define RDYG ir.ready.BTreeG
define SETSIR $PREPG.elems, $PREPG.cnt, $RDYG.elems, $RDYG.cnt
lockinv incrementalRebalancer.statusLock(ir) {
  protects ir.memberStatus, ir.leaveTime, ir.preparing.BTreeG.elems, ir.preparing.BTreeG.cnt, ir.ready.BTreeG.elems, ir.ready.BTreeG.cnt, closeof(ir.gracefulChan)
  invariant sets: tpset(ir.preparing) && tpset(ir.ready) && $PREPG != $RDYG
  invariant never_both: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: !($PREPG.elems[x] && $RDYG.elems[x])
  invariant valid: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: ($PREPG.elems[x] || $RDYG.elems[x]) ==> x.Partition >= 0
  invariant signal: ir.gracefulChan != nil && closed(ir.gracefulChan) == (ir.memberStatus == Defunct)
}
iface streams.IncrRebalanceInstructionHandler.PrepareTopicPartition(h, tp) {}
iface streams.IncrRebalanceInstructionHandler.ForgetPreparedTopicPartition(h, tp) {}
iface streams.IncrRebalanceInstructionHandler.Client(h) (c) { ensures c != nil }
extern kgo.Client.ForceRebalance(c) { opt log }
define GOFORCE "go:kgo.Client.ForceRebalance"
define HCLIENT streams.IncrRebalanceInstructionHandler.Client
define REQUESTED(F) (ncalls($GOFORCE) == F + 1)
func incrementalRebalancer.PartitionPrepared(ir, tp) {
  atomic ir.statusLock
  requires !held(ir.statusLock) && ir.instructionHandler != nil && tp.Partition >= 0
  modifies $SETSIR, log $GOFORCE, log $HCLIENT
  let f = ncalls($GOFORCE)
  ensures ready: old($PREPG.elems[tp]) ==> ($PREPG.elems == old($PREPG.elems)[tp := false] && $RDYG.elems == old($RDYG.elems)[tp := true] && $REQUESTED(f))
  ensures unknown: !old($PREPG.elems[tp]) ==> ($PREPG.elems == old($PREPG.elems) && $RDYG.elems == old($RDYG.elems) && ncalls($GOFORCE) == f)
  ensures unlocked: !held(ir.statusLock)
}
func incrementalRebalancer.PartitionPreparationFailed(ir, tp) {
  atomic ir.statusLock
  requires !held(ir.statusLock) && ir.instructionHandler != nil && tp.Partition >= 0
  modifies $SETSIR, log $GOFORCE, log $HCLIENT
  let f = ncalls($GOFORCE)
  ensures gone: $PREPG.elems == old($PREPG.elems)[tp := false] && $RDYG.elems == old($RDYG.elems)[tp := false]
  ensures requested: ncalls($GOFORCE) == f + (if old($PREPG.elems[tp] || $RDYG.elems[tp]) then 1 else 0)
  ensures unlocked: !held(ir.statusLock)
}
define INTPS(TPS, X) (exists i int {TPS[i]} :: 0 <= i && i < len(TPS) && TPS[i] == X)
func incrementalRebalancer.PartitionsAssigned(ir, tps) {
  atomic ir.statusLock
  requires !held(ir.statusLock) && ir.instructionHandler != nil && (forall i int {tps[i]} :: (0 <= i && i < len(tps)) ==> tps[i].Partition >= 0)
  modifies $SETSIR, log $GOFORCE, log $HCLIENT
  let f = ncalls($GOFORCE)
  ensures gone: forall i int {tps[i]} :: (0 <= i && i < len(tps)) ==> (!$PREPG.elems[tps[i]] && !$RDYG.elems[tps[i]])
  ensures kept: forall x TopicPartition {$PREPG.elems[x]} :: $PREPG.elems[x] == old($PREPG.elems[x]) || $INTPS(tps, x)
  ensures keptready: forall x TopicPartition {$RDYG.elems[x]} :: $RDYG.elems[x] == old($RDYG.elems[x]) || $INTPS(tps, x)
  ensures requested: (exists i int {tps[i]} :: 0 <= i && i < len(tps) && old($PREPG.elems[tps[i]] || $RDYG.elems[tps[i]])) ==> $REQUESTED(f)
  ensures quiet: ncalls($GOFORCE) == f || $REQUESTED(f)
  ensures needless: $REQUESTED(f) ==> (exists i int {tps[i]} :: 0 <= i && i < len(tps) && old($PREPG.elems[tps[i]] || $RDYG.elems[tps[i]]))
  ensures unlocked: !held(ir.statusLock)
  loop 0 {
    invariant gone: forall i int {tps[i]} :: (0 <= i && i < nvisited()) ==> (!$PREPG.elems[tps[i]] && !$RDYG.elems[tps[i]])
    invariant kept: forall x TopicPartition {$PREPG.elems[x]} :: $PREPG.elems[x] == old($PREPG.elems[x]) || (exists i int {tps[i]} :: 0 <= i && i < nvisited() && tps[i] == x)
    invariant keptready: forall x TopicPartition {$RDYG.elems[x]} :: $RDYG.elems[x] == old($RDYG.elems[x]) || (exists i int {tps[i]} :: 0 <= i && i < nvisited() && tps[i] == x)
    invariant less: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: ($PREPG.elems[x] ==> old($PREPG.elems[x])) && ($RDYG.elems[x] ==> old($RDYG.elems[x]))
    invariant asks: rebalance == (exists i int {tps[i]} :: 0 <= i && i < nvisited() && old($PREPG.elems[tps[i]] || $RDYG.elems[tps[i]]))
    invariant quiet: ncalls($GOFORCE) == f && held(ir.statusLock)
  }
}
func incrementalRebalancer.GracefullyLeaveGroup(ir) (c) {
  atomic ir.statusLock
  requires !held(ir.statusLock) && ir.instructionHandler != nil
  modifies ir.memberStatus, ir.leaveTime, log $HCLIENT, log time.AfterFunc
  let a = ncalls(time.AfterFunc)
  let h = ncalls($HCLIENT)
  ensures leaving: old(ir.memberStatus) == ActiveMember ==> (ir.memberStatus == InactiveMember && ncalls(time.AfterFunc) == a + 1 && boundto(callarg(time.AfterFunc, a, 1, ref)) == callres($HCLIENT, h, 0, *kgo.Client))
  ensures already: old(ir.memberStatus) != ActiveMember ==> (ir.memberStatus == old(ir.memberStatus) && ir.leaveTime == old(ir.leaveTime) && ncalls(time.AfterFunc) == a)
  ensures signal: c == ir.gracefulChan
  ensures unlocked: !held(ir.statusLock)
}

iface jsoniter.API.Marshal(j, v) (data, err) {}
iface jsoniter.API.Unmarshal(j, data, v) (err) {
  modifies object(as(v, *IncrGroupMemberInstructions)), object(as(v, *IncrGroupMemberMeta))
  ensures valid: (let m = as(v, *IncrGroupMemberInstructions); (forall i int {m.Prepare[i]} :: (0 <= i && i < len(m.Prepare)) ==> m.Prepare[i].Partition >= 0) && (forall i int {m.Forget[i]} :: (0 <= i && i < len(m.Forget)) ==> m.Forget[i].Partition >= 0))
}
define MARSH jsoniter.API.Marshal
func incrementalRebalancer.userData(ir) (data) {
  atomic ir.statusLock
  requires !held(ir.statusLock)
  modifies log $MARSH
  let j = ncalls($MARSH)
  ensures once: ncalls($MARSH) == j + 1 && data == callres($MARSH, j, 0, "[]byte")
  ensures status: (let m = as(callarg($MARSH, j, 1, any), IncrGroupMemberMeta); m.Status == ir.memberStatus && m.LeftAt == ir.leaveTime)
  ensures preparing: (let m = as(callarg($MARSH, j, 1, any), IncrGroupMemberMeta); (forall i int {m.Preparing[i]} :: (0 <= i && i < len(m.Preparing)) ==> $PREPG.elems[m.Preparing[i]]) && (forall x TopicPartition {$PREPG.elems[x]} :: $PREPG.elems[x] ==> (exists i int :: 0 <= i && i < len(m.Preparing) && m.Preparing[i] == x)))
  ensures ready: (let m = as(callarg($MARSH, j, 1, any), IncrGroupMemberMeta); (forall i int {m.Ready[i]} :: (0 <= i && i < len(m.Ready)) ==> $RDYG.elems[m.Ready[i]]) && (forall x TopicPartition {$RDYG.elems[x]} :: $RDYG.elems[x] ==> (exists i int :: 0 <= i && i < len(m.Ready) && m.Ready[i] == x)))
  ensures unlocked: !held(ir.statusLock)
}
extern kmsg.ConsumerMemberAssignment.ReadFrom(c, src) (err) { modifies object(c) }
define GOPREPTP "go:streams.IncrRebalanceInstructionHandler.PrepareTopicPartition"
define GOFORGET "go:streams.incrementalRebalancer.ParseSyncAssignment$1"
define FORGETS streams.IncrRebalanceInstructionHandler.ForgetPreparedTopicPartition
func incrementalRebalancer.ParseSyncAssignment$1() {
  requires ir != nil && wg != nil && ir.instructionHandler != nil
  modifies log $FORGETS, wg(wg)
  let k = ncalls($FORGETS)
  ensures told: ncalls($FORGETS) == k + 1 && callarg($FORGETS, k, 1, TopicPartition) == tp && wgcount(wg) == old(wgcount(wg)) - 1
}
define LEAVES (old(ir.memberStatus) == InactiveMember && (forall t string {parsed[t]} :: has(parsed, t) ==> len(parsed[t]) == 0))
define TOLDM as(callarg(jsoniter.API.Unmarshal, um, 2, any), *IncrGroupMemberInstructions)
func incrementalRebalancer.ParseSyncAssignment(ir, assignment) (parsed, err) {
  atomic ir.statusLock
  opt chancheck
  requires !held(ir.statusLock) && ir.instructionHandler != nil
  modifies $SETSIR, ir.memberStatus, closeof(ir.gracefulChan), log $GOPREPTP, log $GOFORGET, log $HCLIENT, log kgo.Client.ForceRebalance, log jsoniter.API.Unmarshal, log sync.WaitGroup.Wait
  let p = ncalls($GOPREPTP)
  let g = ncalls($GOFORGET)
  let um = ncalls(jsoniter.API.Unmarshal)
  let f = ncalls(kgo.Client.ForceRebalance)
  before $GOPREPTP new: $PREPG.elems[arg1] && !$RDYG.elems[arg1]
  before $GOFORGET gone: !$PREPG.elems[tp] && !$RDYG.elems[tp]
  ensures refused: err != nil ==> (parsed == nil && ncalls($GOPREPTP) == p && ncalls($GOFORGET) == g && ncalls(kgo.Client.ForceRebalance) == f)
  ensures leaving: (err == nil && old(ir.memberStatus) == InactiveMember && (forall t string {parsed[t]} :: has(parsed, t) ==> len(parsed[t]) == 0)) ==> (ir.memberStatus == Defunct && closed(ir.gracefulChan) && ncalls($GOPREPTP) == p && ncalls(kgo.Client.ForceRebalance) == f && $PREPG.elems == old($PREPG.elems) && $RDYG.elems == old($RDYG.elems))
  ensures staying: !(old(ir.memberStatus) == InactiveMember && (forall t string {parsed[t]} :: has(parsed, t) ==> len(parsed[t]) == 0)) ==> (ir.memberStatus == old(ir.memberStatus) && closed(ir.gracefulChan) == old(closed(ir.gracefulChan)))
  ensures once: forall j int, k int {callarg($GOPREPTP, j, 1, TopicPartition), callarg($GOPREPTP, k, 1, TopicPartition)} :: (p <= j && j < k && k < ncalls($GOPREPTP)) ==> callarg($GOPREPTP, j, 1, TopicPartition) != callarg($GOPREPTP, k, 1, TopicPartition)
  ensures fresh: forall j int {callarg($GOPREPTP, j, 1, TopicPartition)} :: (p <= j && j < ncalls($GOPREPTP)) ==> (let x = callarg($GOPREPTP, j, 1, TopicPartition); !old($PREPG.elems[x]) && !old($RDYG.elems[x]))
  ensures told: forall x TopicPartition {$PREPG.elems[x]} :: ($PREPG.elems[x] && !old($PREPG.elems[x])) ==> (exists j int {callarg($GOPREPTP, j, 1, TopicPartition)} :: p <= j && j < ncalls($GOPREPTP) && callarg($GOPREPTP, j, 1, TopicPartition) == x)
  ensures notready: forall x TopicPartition {$RDYG.elems[x]} :: $RDYG.elems[x] ==> old($RDYG.elems[x])
  ensures forgotten: (exists x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: (old($PREPG.elems[x]) || old($RDYG.elems[x])) && !$PREPG.elems[x] && !$RDYG.elems[x]) ==> (ncalls($GOFORGET) > g && ncalls(kgo.Client.ForceRebalance) == f + 1)
  ensures requested: (err == nil && !$LEAVES) ==> (let m = $TOLDM; ncalls(kgo.Client.ForceRebalance) == f + (if len(m.Forget) > 0 then 1 else 0))
  ensures prepared: (err == nil && !$LEAVES) ==> (let m = $TOLDM; len(m.Forget) == 0 ==> (forall i int {m.Prepare[i]} :: (0 <= i && i < len(m.Prepare)) ==> ($PREPG.elems[m.Prepare[i]] || $RDYG.elems[m.Prepare[i]])))
  ensures dropped: (err == nil && !$LEAVES) ==> (let m = $TOLDM; forall i int {m.Forget[i]} :: (0 <= i && i < len(m.Forget)) ==> (!$PREPG.elems[m.Forget[i]] && !$RDYG.elems[m.Forget[i]]))
  loop 0 { invariant true }
  loop 1 { invariant none: forall t string {visited()[t]} :: visited()[t] ==> len(parsed[t]) == 0 }
  loop 2 {
    invariant mine: ncalls(jsoniter.API.Unmarshal) == um + 1
    invariant quiet: held(ir.statusLock) && ncalls($GOFORGET) == g && ncalls(kgo.Client.ForceRebalance) == f && $RDYG.elems == old($RDYG.elems)
    invariant never_both: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: !($PREPG.elems[x] && $RDYG.elems[x])
    invariant valid: forall x TopicPartition {$PREPG.elems[x]} :: $PREPG.elems[x] ==> x.Partition >= 0
    invariant kept: forall x TopicPartition {$PREPG.elems[x]} :: old($PREPG.elems[x]) ==> $PREPG.elems[x]
    invariant called: forall j int {callarg($GOPREPTP, j, 1, TopicPartition)} :: (p <= j && j < ncalls($GOPREPTP)) ==> (let x = callarg($GOPREPTP, j, 1, TopicPartition); $PREPG.elems[x] && !old($PREPG.elems[x]) && !$RDYG.elems[x])
    invariant told: forall x TopicPartition {$PREPG.elems[x]} :: ($PREPG.elems[x] && !old($PREPG.elems[x])) ==> (exists j int {callarg($GOPREPTP, j, 1, TopicPartition)} :: p <= j && j < ncalls($GOPREPTP) && callarg($GOPREPTP, j, 1, TopicPartition) == x)
    invariant once: forall j int, k int {callarg($GOPREPTP, j, 1, TopicPartition), callarg($GOPREPTP, k, 1, TopicPartition)} :: (p <= j && j < k && k < ncalls($GOPREPTP)) ==> callarg($GOPREPTP, j, 1, TopicPartition) != callarg($GOPREPTP, k, 1, TopicPartition)
    invariant obeyed: forall i int {$TOLDM.Prepare[i]} :: (0 <= i && i < nvisited()) ==> ($PREPG.elems[$TOLDM.Prepare[i]] || $RDYG.elems[$TOLDM.Prepare[i]])
  }
  loop 3 {
    local tp TopicPartition
    invariant mine: ncalls(jsoniter.API.Unmarshal) == um + 1
    invariant quiet: held(ir.statusLock) && ncalls(kgo.Client.ForceRebalance) == f
    invariant never_both: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: !($PREPG.elems[x] && $RDYG.elems[x])
    invariant valid: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: ($PREPG.elems[x] || $RDYG.elems[x]) ==> x.Partition >= 0
    invariant notready: forall x TopicPartition {$RDYG.elems[x]} :: $RDYG.elems[x] ==> old($RDYG.elems[x])
    invariant told: forall x TopicPartition {$PREPG.elems[x]} :: ($PREPG.elems[x] && !old($PREPG.elems[x])) ==> (exists j int {callarg($GOPREPTP, j, 1, TopicPartition)} :: p <= j && j < ncalls($GOPREPTP) && callarg($GOPREPTP, j, 1, TopicPartition) == x)
    invariant forgotten: forall x TopicPartition {$PREPG.elems[x]} {$RDYG.elems[x]} :: ((old($PREPG.elems[x]) || old($RDYG.elems[x])) && !$PREPG.elems[x] && !$RDYG.elems[x]) ==> ncalls($GOFORGET) > g
    invariant obeyed: forall i int {$TOLDM.Forget[i]} :: (0 <= i && i < nvisited()) ==> (!$PREPG.elems[$TOLDM.Forget[i]] && !$RDYG.elems[$TOLDM.Forget[i]])
    invariant count: ncalls($GOFORGET) >= g
  }
}
