package sak

import (
	"math/rand"
	"sync"
	"testing"
)

type c28Item struct {
	id     int
	clean  bool
	resets int
}

func TestVerifC28_Pool(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for size := 0; size < 6; size++ {
		made := 0
		p := NewPool(size, func() *c28Item { made++; return &c28Item{id: made, clean: true} }, func(x *c28Item) *c28Item { x.clean = true; x.resets++; return x })
		out := map[*c28Item]bool{}
		held := map[*c28Item]bool{}
		for i := 0; i < 2000; i++ {
			if rnd.Intn(2) == 0 {
				m := made
				x := p.Borrow()
				if !x.clean || out[x] {
					t.Fatalf("FAILING-INPUT: pool of %d, step %d: item %+v borrowed while out: %v", size, i, *x, out[x])
				}
				if (made > m) == (len(held) > 0) || made == m && !held[x] {
					t.Fatalf("FAILING-INPUT: pool of %d holding %d: made %d, item held %v", size, len(held), made-m, held[x])
				}
				delete(held, x)
				out[x] = true
				x.clean = false
			} else {
				for x := range out {
					n := x.resets
					got := p.Release(x)
					if got != (len(held) < size) || x.resets != n+1 {
						t.Fatalf("FAILING-INPUT: pool of %d holding %d: release says %v, %d resets", size, len(held), got, x.resets-n)
					}
					if got {
						held[x] = true
					}
					delete(out, x)
					break
				}
			}
			if len(p.freelist) != len(held) || cap(p.freelist) != size {
				t.Fatalf("FAILING-INPUT: pool of %d should hold %d: holds %d of %d", size, len(held), len(p.freelist), cap(p.freelist))
			}
		}
	}
	q := NewPool(2, func() int { return 7 }, nil)
	q.Release(3)
	if q.Borrow() != 3 || q.Borrow() != 7 {
		t.Fatalf("FAILING-INPUT: pool without reset function changes its items")
	}
}

func TestVerifC28_Concurrent(t *testing.T) {
	p := NewPool(3, func() *c28Item { return &c28Item{} }, nil)
	var mu sync.Mutex
	out := map[*c28Item]bool{}
	var wg sync.WaitGroup
	fail := make(chan string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				x := p.Borrow()
				mu.Lock()
				if out[x] {
					select {
					case fail <- "an item was borrowed twice":
					default:
					}
				}
				out[x] = true
				mu.Unlock()
				mu.Lock()
				delete(out, x)
				mu.Unlock()
				p.Release(x)
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-fail:
		t.Fatalf("FAILING-INPUT: %s", s)
	default:
	}
}

// an item must not be available to others while it is being reset
func TestVerifC28_ResetFirst(t *testing.T) {
	var p *Pool[*c28Item]
	p = NewPool(2, func() *c28Item { return &c28Item{clean: true} }, func(x *c28Item) *c28Item {
		if y := p.Borrow(); y == x || !y.clean {
			t.Fatalf("FAILING-INPUT: an item was handed out before it was reset")
		}
		x.clean = true
		return x
	})
	for i := 0; i < 4; i++ {
		x := p.Borrow()
		x.clean = false
		p.Release(x)
	}
}

// releasing while others release too: the capacity still holds
func TestVerifC28_NestedRelease(t *testing.T) {
	var p *Pool[*c28Item]
	depth := 0
	p = NewPool(1, func() *c28Item { return &c28Item{} }, func(x *c28Item) *c28Item {
		if depth == 0 {
			depth++
			p.Release(&c28Item{id: 2})
		}
		return x
	})
	p.Release(&c28Item{id: 1})
	if len(p.freelist) != 1 || cap(p.freelist) != 1 {
		t.Fatalf("FAILING-INPUT: two items released into a pool of 1: it holds %d (capacity %d)", len(p.freelist), cap(p.freelist))
	}
}
