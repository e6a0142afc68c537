package sak

// C16: the linked list (sak/yadll.go)
// ghost: seq[0..len-1] are the elements in order, seq[-1] and seq[len] the sentinel; pos is the place of an element
tags C16
ghostfield List.seq [int => *sak.Element[T]]
ghostfield List.pos [ref => int]

define ROOT(L) addr(L.root)
define PLACED(L, X) (0 <= L.pos[X] && L.pos[X] < L.len && L.seq[L.pos[X]] == X)
define LIST(L) (L.len >= 0 && L.seq[-1] == $ROOT(L) && L.seq[L.len] == $ROOT(L) && L.root.list == nil \
  && (forall i int {L.seq[i]} :: (0 <= i && i < L.len) ==> (L.seq[i] != nil && allocated(L.seq[i]) && L.seq[i].list == L && L.pos[L.seq[i]] == i)) \
  && (forall i int {L.seq[i].next} :: (-1 <= i && i < L.len) ==> L.seq[i].next == L.seq[i + 1]) \
  && (forall i int {L.seq[i].prev} :: (0 <= i && i <= L.len) ==> L.seq[i].prev == L.seq[i - 1]))
define ZERO(L) (L.len == 0 && L.root.next == nil && L.root.list == nil)
define USABLE(L) (($LIST(L) || $ZERO(L)) && L.len < 2305843009213693952)
// an element that says it is in l is at its place (invariant of every element: established at insertion, kept by all operations)
define MEMBER(L, X) (X.list == L ==> $PLACED(L, X))
define LINKS l.len, l.seq, l.pos, any Element.next, any Element.prev
// the array with a place made at D
define WIDER(N, D) (forall i int {N[i]} :: N[i] == (if old(l.root.next) == nil then $ROOT(l) else (if i < D then old(l.seq[i]) else old(l.seq[i - 1]))))
define WIDERP(N, D) (forall x ref {N[x]} :: N[x] == (if old(l.pos[x]) >= D then old(l.pos[x]) + 1 else old(l.pos[x])))
define NARROWER(N, D) (forall i int {N[i]} :: N[i] == (if i < D then old(l.seq[i]) else old(l.seq[i + 1])))
define NARROWERP(N, D) (forall x ref {N[x]} :: N[x] == (if old(l.pos[x]) > D then old(l.pos[x]) - 1 else old(l.pos[x])))
// the element at P goes to D
define MOVED(N, P, D) (forall i int {N[i]} :: N[i] == (if P <= i && i < D then old(l.seq[i + 1]) else (if i == D then old(l.seq[P]) else (if D < i && i <= P then old(l.seq[i - 1]) else old(l.seq[i])))))
define MOVEDP(N, P, D) (forall x ref {N[x]} :: N[x] == (let q = old(l.pos[x]); if q == P then D else (if P < q && q <= D then q - 1 else (if D <= q && q < P then q + 1 else q))))
define UNEDITED (l.len == old(l.len) && l.seq == old(l.seq) && l.pos == old(l.pos))

func List.Init(l) (r) {
  modifies l.root.next, l.root.prev, l.len, l.seq
  requires l.root.list == nil
  ghost l.seq[-1] := $ROOT(l)
  ghost l.seq[0] := $ROOT(l)
  ensures list: $LIST(l) && l.len == 0 && r == l
}
func NewList() (r) {
  ensures list: fresh(r) && $LIST(r) && r.len == 0
}
func List.Len(l) (n) { ensures n == l.len }
func List.Front(l) (e) {
  requires $USABLE(l)
  ensures first: if l.len == 0 then e == nil else e == l.seq[0]
}
func List.Back(l) (e) {
  requires $USABLE(l)
  ensures last: if l.len == 0 then e == nil else e == l.seq[l.len - 1]
}
func Element.Next(e) (n) {
  opt inline
  requires e.list != nil ==> ($LIST(e.list) && $PLACED(e.list, e))
  ensures none: e.list == nil ==> n == nil
  ensures next: e.list != nil ==> (if e.list.pos[e] + 1 < e.list.len then n == e.list.seq[e.list.pos[e] + 1] else n == nil)
}
func Element.Prev(e) (n) {
  opt inline
  requires e.list != nil ==> ($LIST(e.list) && $PLACED(e.list, e))
  ensures none: e.list == nil ==> n == nil
  ensures prev: e.list != nil ==> (if e.list.pos[e] > 0 then n == e.list.seq[e.list.pos[e] - 1] else n == nil)
}
func List.PushFront(l, v) (e) {
  requires $USABLE(l)
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $WIDER(s, 0)
  choose q [ref => int]: $WIDERP(q, 0)
  ghost l.seq := s[0 := e]
  ghost l.pos := q[e := 0]
  ensures list: $LIST(l)
  ensures new: (freshobj(e) && e.list == l && e.Value == v && l.len == old(l.len) + 1 && l.pos[e] == 0 && l.seq[0] == e)
  ensures before: (forall i int {l.seq[i]} :: (0 <= i && i < 0) ==> l.seq[i] == old(l.seq[i]))
  ensures after: (forall i int {l.seq[i]} :: (0 < i && i < l.len) ==> l.seq[i] == old(l.seq[i - 1]))
  ensures lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
  ensures values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.PushBack(l, v) (e) {
  requires $USABLE(l)
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $WIDER(s, old(l.len))
  choose q [ref => int]: $WIDERP(q, old(l.len))
  ghost l.seq := s[old(l.len) := e]
  ghost l.pos := q[e := old(l.len)]
  ensures list: $LIST(l)
  ensures new: (freshobj(e) && e.list == l && e.Value == v && l.len == old(l.len) + 1 && l.pos[e] == old(l.len) && l.seq[old(l.len)] == e)
  ensures before: (forall i int {l.seq[i]} :: (0 <= i && i < old(l.len)) ==> l.seq[i] == old(l.seq[i]))
  ensures after: (forall i int {l.seq[i]} :: (old(l.len) < i && i < l.len) ==> l.seq[i] == old(l.seq[i - 1]))
  ensures lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
  ensures values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.InsertBefore(l, v, mark) (e) {
  requires $USABLE(l)
  requires mark.list == l ==> ($LIST(l) && $PLACED(l, mark))
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $WIDER(s, old(l.pos[mark]))
  choose q [ref => int]: $WIDERP(q, old(l.pos[mark]))
  ghost l.seq := if old(mark.list) == l then s[old(l.pos[mark]) := e] else l.seq
  ghost l.pos := if old(mark.list) == l then q[e := old(l.pos[mark])] else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures new: (old(mark.list) == l) ==> (freshobj(e) && e.list == l && e.Value == v && l.len == old(l.len) + 1 && l.pos[e] == old(l.pos[mark]) && l.seq[old(l.pos[mark])] == e)
  ensures absent: !(old(mark.list) == l) ==> (e == nil && $UNEDITED)
  ensures before: (old(mark.list) == l) ==> (forall i int {l.seq[i]} :: (0 <= i && i < old(l.pos[mark])) ==> l.seq[i] == old(l.seq[i]))
  ensures after: (old(mark.list) == l) ==> (forall i int {l.seq[i]} :: (old(l.pos[mark]) < i && i < l.len) ==> l.seq[i] == old(l.seq[i - 1]))
  ensures lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
  ensures values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.InsertAfter(l, v, mark) (e) {
  requires $USABLE(l)
  requires mark.list == l ==> ($LIST(l) && $PLACED(l, mark))
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $WIDER(s, old(l.pos[mark] + 1))
  choose q [ref => int]: $WIDERP(q, old(l.pos[mark] + 1))
  ghost l.seq := if old(mark.list) == l then s[old(l.pos[mark] + 1) := e] else l.seq
  ghost l.pos := if old(mark.list) == l then q[e := old(l.pos[mark] + 1)] else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures new: (old(mark.list) == l) ==> (freshobj(e) && e.list == l && e.Value == v && l.len == old(l.len) + 1 && l.pos[e] == old(l.pos[mark] + 1) && l.seq[old(l.pos[mark] + 1)] == e)
  ensures absent: !(old(mark.list) == l) ==> (e == nil && $UNEDITED)
  ensures before: (old(mark.list) == l) ==> (forall i int {l.seq[i]} :: (0 <= i && i < old(l.pos[mark] + 1)) ==> l.seq[i] == old(l.seq[i]))
  ensures after: (old(mark.list) == l) ==> (forall i int {l.seq[i]} :: (old(l.pos[mark] + 1) < i && i < l.len) ==> l.seq[i] == old(l.seq[i - 1]))
  ensures lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
  ensures values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.Remove(l, e) (v) {
  requires $USABLE(l)
  requires e.list == l ==> ($LIST(l) && $PLACED(l, e))
  modifies $LINKS, e.list
  choose s [int => *sak.Element[T]]: $NARROWER(s, old(l.pos[e]))
  choose q [ref => int]: $NARROWERP(q, old(l.pos[e]))
  ghost l.seq := if old(e.list) == l then s else l.seq
  ghost l.pos := if old(e.list) == l then q else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures value: v == e.Value
  ensures absent: old(e.list) != l ==> ($UNEDITED && e.list == old(e.list))
  ensures removed: old(e.list) == l ==> (l.len == old(l.len) - 1 && e.list == nil && e.next == nil && e.prev == nil)
  ensures before: old(e.list) == l ==> (forall i int {l.seq[i]} :: (0 <= i && i < old(l.pos[e])) ==> l.seq[i] == old(l.seq[i]))
  ensures after: old(e.list) == l ==> (forall i int {l.seq[i]} :: (old(l.pos[e]) <= i && i < l.len) ==> l.seq[i] == old(l.seq[i + 1]))
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.MoveToFront(l, e) {
  requires $USABLE(l)
  requires e.list == l ==> ($LIST(l) && $PLACED(l, e))
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $MOVED(s, old(l.pos[e]), 0)
  choose q [ref => int]: $MOVEDP(q, old(l.pos[e]), 0)
  ghost l.seq := if (e.list == l) then s else l.seq
  ghost l.pos := if (e.list == l) then q else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures absent: !(e.list == l) ==> $UNEDITED
  ensures moved: (e.list == l) ==> (l.len == old(l.len) && l.seq[0] == e)
  ensures others: (e.list == l) ==> (forall i int {l.seq[i]} :: (0 <= i && i < l.len && i != 0) ==> l.seq[i] == (if old(l.pos[e]) <= i && i < 0 then old(l.seq[i + 1]) else (if 0 < i && i <= old(l.pos[e]) then old(l.seq[i - 1]) else old(l.seq[i]))))
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.MoveToBack(l, e) {
  requires $USABLE(l)
  requires e.list == l ==> ($LIST(l) && $PLACED(l, e))
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $MOVED(s, old(l.pos[e]), old(l.len - 1))
  choose q [ref => int]: $MOVEDP(q, old(l.pos[e]), old(l.len - 1))
  ghost l.seq := if (e.list == l) then s else l.seq
  ghost l.pos := if (e.list == l) then q else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures absent: !(e.list == l) ==> $UNEDITED
  ensures moved: (e.list == l) ==> (l.len == old(l.len) && l.seq[old(l.len - 1)] == e)
  ensures others: (e.list == l) ==> (forall i int {l.seq[i]} :: (0 <= i && i < l.len && i != old(l.len - 1)) ==> l.seq[i] == (if old(l.pos[e]) <= i && i < old(l.len - 1) then old(l.seq[i + 1]) else (if old(l.len - 1) < i && i <= old(l.pos[e]) then old(l.seq[i - 1]) else old(l.seq[i]))))
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.MoveBefore(l, e, mark) {
  requires $USABLE(l)
  requires e.list == l ==> ($LIST(l) && $PLACED(l, e))
  requires mark.list == l ==> ($LIST(l) && $PLACED(l, mark))
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $MOVED(s, old(l.pos[e]), old(if l.pos[e] < l.pos[mark] then l.pos[mark] - 1 else l.pos[mark]))
  choose q [ref => int]: $MOVEDP(q, old(l.pos[e]), old(if l.pos[e] < l.pos[mark] then l.pos[mark] - 1 else l.pos[mark]))
  ghost l.seq := if (e.list == l && mark.list == l && e != mark) then s else l.seq
  ghost l.pos := if (e.list == l && mark.list == l && e != mark) then q else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures absent: !(e.list == l && mark.list == l && e != mark) ==> $UNEDITED
  ensures moved: (e.list == l && mark.list == l && e != mark) ==> (l.len == old(l.len) && l.seq[old(if l.pos[e] < l.pos[mark] then l.pos[mark] - 1 else l.pos[mark])] == e)
  ensures others: (e.list == l && mark.list == l && e != mark) ==> (forall i int {l.seq[i]} :: (0 <= i && i < l.len && i != old(if l.pos[e] < l.pos[mark] then l.pos[mark] - 1 else l.pos[mark])) ==> l.seq[i] == (if old(l.pos[e]) <= i && i < old(if l.pos[e] < l.pos[mark] then l.pos[mark] - 1 else l.pos[mark]) then old(l.seq[i + 1]) else (if old(if l.pos[e] < l.pos[mark] then l.pos[mark] - 1 else l.pos[mark]) < i && i <= old(l.pos[e]) then old(l.seq[i - 1]) else old(l.seq[i]))))
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
func List.MoveAfter(l, e, mark) {
  requires $USABLE(l)
  requires e.list == l ==> ($LIST(l) && $PLACED(l, e))
  requires mark.list == l ==> ($LIST(l) && $PLACED(l, mark))
  modifies $LINKS
  choose s [int => *sak.Element[T]]: $MOVED(s, old(l.pos[e]), old(if l.pos[e] <= l.pos[mark] then l.pos[mark] else l.pos[mark] + 1))
  choose q [ref => int]: $MOVEDP(q, old(l.pos[e]), old(if l.pos[e] <= l.pos[mark] then l.pos[mark] else l.pos[mark] + 1))
  ghost l.seq := if (e.list == l && mark.list == l && e != mark) then s else l.seq
  ghost l.pos := if (e.list == l && mark.list == l && e != mark) then q else l.pos
  ensures list: old($LIST(l)) ==> $LIST(l)
  ensures zero: old($ZERO(l)) ==> $ZERO(l)
  ensures absent: !(e.list == l && mark.list == l && e != mark) ==> $UNEDITED
  ensures moved: (e.list == l && mark.list == l && e != mark) ==> (l.len == old(l.len) && l.seq[old(if l.pos[e] <= l.pos[mark] then l.pos[mark] else l.pos[mark] + 1)] == e)
  ensures others: (e.list == l && mark.list == l && e != mark) ==> (forall i int {l.seq[i]} :: (0 <= i && i < l.len && i != old(if l.pos[e] <= l.pos[mark] then l.pos[mark] else l.pos[mark] + 1)) ==> l.seq[i] == (if old(l.pos[e]) <= i && i < old(if l.pos[e] <= l.pos[mark] then l.pos[mark] else l.pos[mark] + 1) then old(l.seq[i + 1]) else (if old(if l.pos[e] <= l.pos[mark] then l.pos[mark] else l.pos[mark] + 1) < i && i <= old(l.pos[e]) then old(l.seq[i - 1]) else old(l.seq[i]))))
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  ensures apart: forall x *Element[T] {x.next} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.next == old(x.next)
  ensures apartp: forall x *Element[T] {x.prev} :: (existed(x) && old(x.list) != l && x != $ROOT(l)) ==> x.prev == old(x.prev)
}
// the values of a list, copied to the back (front), in order
func List.PushBackList(l, other) {
  requires $USABLE(l) && $USABLE(other) && other != nil
  modifies $LINKS
  let m = l.len
  let n = other.len
  let first = other.seq
  ghost0 l.seq := if l.root.next == nil then l.seq[-1 := $ROOT(l)][0 := $ROOT(l)] else l.seq
  ensures list: $LIST(l)
  ensures total: l.len == m + n
  ensures kept: forall i int {l.seq[i]} :: (0 <= i && i < m) ==> l.seq[i] == old(l.seq[i])
  ensures copied: forall i int {l.seq[i]} :: (m <= i && i < m + n) ==> (freshobj(l.seq[i]) && l.seq[i].Value == old(first[i - m].Value))
  ensures source: other != l ==> (old($LIST(other)) ==> ($LIST(other) && other.len == old(other.len) && other.seq == old(other.seq)))
  ensures lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
  ensures values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  loop 0 {
    local i int
    local e *Element[T]
    ghost l.pos[l.root.prev] := l.len - 1
    ghost l.seq[l.len - 1] := l.root.prev
    ghost l.seq[l.len] := $ROOT(l)
    invariant list: $LIST(l) && l.len == m + nvisited()
    invariant at: i == n - nvisited() && i >= 0 && (i > 0 ==> e == first[nvisited()])
    invariant other: (other != l && (n > 0 || old($LIST(other)))) ==> $LIST(other)
    invariant same: other != l ==> (other.len == n && other.seq == first && other.pos == old(other.pos) && other.root.next == old(other.root.next))
    invariant kept: forall i int {l.seq[i]} :: (0 <= i && i < m) ==> (l.seq[i] == old(l.seq[i]))
    invariant copied: forall i int {l.seq[i]} :: (m <= i && i < l.len) ==> (freshobj(l.seq[i]) && l.seq[i].Value == old(first[i - m].Value))
    invariant lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
    invariant values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
    invariant places: forall x *Element[T] {l.pos[x]} :: existed(x) ==> l.pos[x] == old(l.pos[x])
  }
}
func List.PushFrontList(l, other) {
  requires $USABLE(l) && $USABLE(other) && other != nil
  modifies $LINKS
  let m = l.len
  let n = other.len
  let first = other.seq
  ghost0 l.seq := if l.root.next == nil then l.seq[-1 := $ROOT(l)][0 := $ROOT(l)] else l.seq
  ensures list: $LIST(l)
  ensures total: l.len == m + n
  ensures kept: forall i int {l.seq[i]} :: (n <= i && i < m + n) ==> l.seq[i] == old(l.seq[i - n])
  ensures copied: forall i int {l.seq[i]} :: (0 <= i && i < n) ==> (freshobj(l.seq[i]) && l.seq[i].Value == old(first[i].Value))
  ensures source: other != l ==> (old($LIST(other)) ==> ($LIST(other) && other.len == old(other.len) && other.seq == old(other.seq)))
  ensures lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
  ensures values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
  ensures members: forall x *Element[T] {x.list} :: (existed(x) && x.list == l && old($MEMBER(l, x))) ==> $PLACED(l, x)
  loop 0 {
    local i int
    local e *Element[T]
    ghost l.pos := lambda x ref :: (if x == l.root.next then 0 else (if l.pos[x] >= 0 then l.pos[x] + 1 else l.pos[x]))
    ghost l.seq := lambda j int :: (if j == -1 then $ROOT(l) else (if j == 0 then l.root.next else l.seq[j - 1]))
    invariant list: $LIST(l) && l.len == m + nvisited()
    invariant at: i == n - nvisited() && i >= 0 && (i > 0 ==> e == first[n - 1 - nvisited()])
    invariant other: (other != l && (n > 0 || old($LIST(other)))) ==> $LIST(other)
    invariant same: other != l ==> (other.len == n && other.seq == first && other.pos == old(other.pos) && other.root.next == old(other.root.next))
    invariant kept: forall i int {l.seq[i]} :: (nvisited() <= i && i < l.len) ==> (l.seq[i] == old(l.seq[i - nvisited()]))
    invariant copied: forall i int {l.seq[i]} :: (0 <= i && i < nvisited()) ==> (freshobj(l.seq[i]) && l.seq[i].Value == old(first[n - nvisited() + i].Value))
    invariant lists: forall x *Element[T] {x.list} :: existed(x) ==> x.list == old(x.list)
    invariant values: forall x *Element[T] {x.Value} :: existed(x) ==> x.Value == old(x.Value)
    invariant places: forall x *Element[T] {l.pos[x]} :: existed(x) ==> l.pos[x] == (if old(l.pos[x]) >= 0 then old(l.pos[x]) + nvisited() else old(l.pos[x]))
  }
}
