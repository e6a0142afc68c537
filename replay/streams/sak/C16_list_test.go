package sak

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

type c16el struct {
	e *Element[int]
	v int
}

// random edits of two lists against slices
func TestVerifC16_Edits(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	for round := 0; round < 3000; round++ {
		var hist []string
		defer func() {
			if r := recover(); r != nil {
				t.Fatalf("FAILING-INPUT: %s: panic: %v", strings.Join(hist, "; "), r)
			}
		}()
		ls := []*List[int]{NewList[int](), {}}
		var want [2][]c16el
		var gone []c16el
		pick := func() (*Element[int], int, int) { // an element, its list and place, or a removed one
			w := rnd.Intn(2)
			if rnd.Intn(6) == 0 && len(gone) > 0 {
				g := gone[rnd.Intn(len(gone))]
				return g.e, -1, 0
			}
			if len(want[w]) == 0 {
				w = 1 - w
			}
			if len(want[w]) == 0 {
				return nil, -1, 0
			}
			i := rnd.Intn(len(want[w]))
			return want[w][i].e, w, i
		}
		put := func(w, at int, x c16el) {
			n := append([]c16el{}, want[w][:at]...)
			n = append(n, x)
			want[w] = append(n, want[w][at:]...)
		}
		cut := func(w, at int) c16el {
			x := want[w][at]
			n := append([]c16el{}, want[w][:at]...)
			want[w] = append(n, want[w][at+1:]...)
			return x
		}
		next := 0
		for step := 0; step < 12; step++ {
			w := rnd.Intn(2)
			l := ls[w]
			next++
			op := rnd.Intn(11)
			e, ew, ei := pick()
			m, mw, mi := pick()
			switch {
			case op == 0:
				hist = append(hist, fmt.Sprintf("PushFront(%d) on %d", next, w))
				put(w, 0, c16el{l.PushFront(next), next})
			case op == 1:
				hist = append(hist, fmt.Sprintf("PushBack(%d) on %d", next, w))
				put(w, len(want[w]), c16el{l.PushBack(next), next})
			case op == 2 && m != nil, op == 3 && m != nil:
				var r *Element[int]
				if op == 2 {
					hist = append(hist, fmt.Sprintf("InsertBefore(%d, element %d) on %d", next, m.Value, w))
					r = l.InsertBefore(next, m)
				} else {
					hist = append(hist, fmt.Sprintf("InsertAfter(%d, element %d) on %d", next, m.Value, w))
					r = l.InsertAfter(next, m)
				}
				if mw == w {
					put(w, mi+op-2, c16el{r, next})
				} else if r != nil {
					t.Fatalf("FAILING-INPUT: %s: the mark is not in the list, an element is returned", strings.Join(hist, "; "))
				}
			case op == 4 && e != nil:
				hist = append(hist, fmt.Sprintf("Remove(element %d) on %d", e.Value, w))
				if v := l.Remove(e); v != e.Value {
					t.Fatalf("FAILING-INPUT: %s: returns %d", strings.Join(hist, "; "), v)
				}
				if ew == w {
					gone = append(gone, cut(w, ei))
				}
			case op == 5 && e != nil:
				hist = append(hist, fmt.Sprintf("MoveToFront(element %d) on %d", e.Value, w))
				l.MoveToFront(e)
				if ew == w {
					put(w, 0, cut(w, ei))
				}
			case op == 6 && e != nil:
				hist = append(hist, fmt.Sprintf("MoveToBack(element %d) on %d", e.Value, w))
				l.MoveToBack(e)
				if ew == w {
					x := cut(w, ei)
					put(w, len(want[w]), x)
				}
			case (op == 7 || op == 8) && e != nil && m != nil:
				d := op - 7
				if d == 0 {
					hist = append(hist, fmt.Sprintf("MoveBefore(element %d, element %d) on %d", e.Value, m.Value, w))
					l.MoveBefore(e, m)
				} else {
					hist = append(hist, fmt.Sprintf("MoveAfter(element %d, element %d) on %d", e.Value, m.Value, w))
					l.MoveAfter(e, m)
				}
				if ew == w && mw == w && e != m {
					x := cut(w, ei)
					if ei < mi {
						mi--
					}
					put(w, mi+d, x)
				}
			case op >= 9 && len(want[0]) < 8 && len(want[1]) < 8:
				o := rnd.Intn(2)
				src := want[o]
				k := len(want[w])
				if op == 9 {
					hist = append(hist, fmt.Sprintf("PushBackList(%d) on %d", o, w))
					l.PushBackList(ls[o])
					e := l.root.prev
					for i := len(src) - 1; i >= 0; i-- {
						put(w, k, c16el{e, src[i].v})
						e = e.prev
					}
				} else {
					hist = append(hist, fmt.Sprintf("PushFrontList(%d) on %d", o, w))
					l.PushFrontList(ls[o])
					e := l.root.next
					for i := range src {
						put(w, i, c16el{e, src[i].v})
						e = e.next
					}
				}
			}
			for w, l := range ls {
				var f, b []string
				n := len(want[w])
				if l.Len() != n {
					t.Fatalf("FAILING-INPUT: %s: list %d has %d elements, counts %d", strings.Join(hist, "; "), w, n, l.Len())
				}
				i := 0
				for e := l.Front(); e != nil; e = e.Next() {
					f = append(f, fmt.Sprint(e.Value))
					if i < n && (want[w][i].e != e || want[w][i].v != e.Value) || i >= n {
						t.Fatalf("FAILING-INPUT: %s: list %d: wrong element %d at place %d", strings.Join(hist, "; "), w, e.Value, i)
					}
					i++
				}
				for e := l.Back(); e != nil && len(b) <= n; e = e.Prev() {
					b = append([]string{fmt.Sprint(e.Value)}, b...)
				}
				if i != n || strings.Join(f, " ") != strings.Join(b, " ") {
					t.Fatalf("FAILING-INPUT: %s: list %d: %d elements; forward %v, backward %v", strings.Join(hist, "; "), w, n, f, b)
				}
			}
			for _, g := range gone {
				if g.e.Next() != nil || g.e.Prev() != nil {
					t.Fatalf("FAILING-INPUT: %s: removed element %d has neighbours", strings.Join(hist, "; "), g.v)
				}
			}
		}
	}
}
