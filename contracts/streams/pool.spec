package sak
tags C28

lockinv Pool.mu(p) {
  protects p.freelist, elems(p.freelist)
  invariant backing: arr(p.freelist) != nil
}
field sak.Pool.factory(r) {}
field sak.Pool.reset(n, r) {}

func NewPool(size, factory, resetter) (p) {
  requires size >= 0
  ensures new: fresh(p) && fresh(p.freelist)
  ensures empty: len(p.freelist) == 0
  ensures capacity: cap(p.freelist) == size
  ensures functions: p.factory == factory && (resetter != nil ==> p.reset == resetter)
  ensures noresetter: resetter == nil ==> isfn(p.reset, NewPool$1)
}
func NewPool$1(v) (r) { ensures same: r == v }

// the pool's last item, which it then no longer holds, or a new one
func Pool.Borrow(p) (n) {
  atomic p.mu
  requires p.factory != nil && !held(p.mu)
  modifies p.freelist, elems(p.freelist), log sak.Pool.factory
  let c = ncalls(sak.Pool.factory)
  ensures taken: old(len(p.freelist)) > 0 ==> (n == old(p.freelist[len(p.freelist)-1]) && len(p.freelist) == old(len(p.freelist)) - 1 && ncalls(sak.Pool.factory) == c)
  ensures made: old(len(p.freelist)) == 0 ==> (len(p.freelist) == 0 && ncalls(sak.Pool.factory) == c + 1 && n == callres(sak.Pool.factory, c, 0, T))
  ensures others: forall i int {p.freelist[i]} :: (0 <= i && i < len(p.freelist)) ==> p.freelist[i] == old(p.freelist[i])
  ensures capacity: cap(p.freelist) == old(cap(p.freelist))
  ensures unlocked: !held(p.mu)
}
// the item is reset once; it joins the pool exactly when there is room
func Pool.Release(p, n) (out) {
  atomic p.mu
  requires p.reset != nil && !held(p.mu)
  modifies p.freelist, elems(p.freelist), log sak.Pool.reset
  let c = ncalls(sak.Pool.reset)
  ensures reset: ncalls(sak.Pool.reset) == c + 1 && callarg(sak.Pool.reset, c, 0, T) == n
  ensures item: out ==> p.freelist[len(p.freelist)-1] == callres(sak.Pool.reset, c, 0, T)
  ensures room: out == (old(len(p.freelist)) < old(cap(p.freelist)))
  ensures kept: out ==> (len(p.freelist) == old(len(p.freelist)) + 1)
  ensures full: !out ==> len(p.freelist) == old(len(p.freelist))
  ensures others: forall i int {p.freelist[i]} :: (0 <= i && i < old(len(p.freelist))) ==> p.freelist[i] == old(p.freelist[i])
  ensures capacity: cap(p.freelist) == old(cap(p.freelist)) && len(p.freelist) <= cap(p.freelist)
  ensures unlocked: !held(p.mu)
}
