package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> natural loop
}

func findLoops(fn *ssa.Function) *loopInfo {
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return li
}

func (ex *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := ex.headers[fn]; ok {
		return l
	}
	l := findLoops(fn)
	ex.headers[fn] = l
	return l
}

func (ex *Exec) isHeader(b *ssa.BasicBlock) bool {
	_, ok := ex.loopsOf(b.Parent()).body[b]
	return ok
}

func loopPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) token.Pos {
	best := token.NoPos
	for b := range body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// assignLoopOrdinals numbers the loops met when fn is executed with inlining, in source order.
func (ex *Exec) assignLoopOrdinals(fn *ssa.Function) {
	ex.loopIdx = map[*ssa.BasicBlock]int{}
	ex.iterIdx = map[*ssa.CallCommon]int{}
	n := 0
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		type ev struct {
			pos  token.Pos
			h    *ssa.BasicBlock
			call *ssa.Function
			ord  int
			it   *ssa.CallCommon
		}
		var evs []ev
		for h, body := range ex.loopsOf(f).body {
			evs = append(evs, ev{loopPos(h, body), h, nil, h.Index, nil})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					sc := c.Common().StaticCallee()
					if sc != nil {
						o, _ := resolveFn(sc, nil)
						var at []types.Type
						for _, a := range c.Common().Args {
							at = append(at, a.Type())
						}
						C := ex.contractOf(o, at, nil)
						if C == nil && (o.Pkg != nil && ex.P.repo[o.Pkg.Pkg] || o.Parent() != nil) {
							evs = append(evs, ev{in.Pos(), nil, o, 1000, nil})
						}
						if C != nil && C.Iter != "" {
							evs = append(evs, ev{in.Pos(), nil, nil, 999, c.Common()})
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					evs = append(evs, ev{in.Pos(), nil, mc.Fn.(*ssa.Function), 1001, nil})
				}
			}
		}
		sort.SliceStable(evs, func(i, j int) bool {
			if evs[i].pos != evs[j].pos {
				return evs[i].pos < evs[j].pos
			}
			return evs[i].ord < evs[j].ord
		})
		for _, e := range evs {
			if e.h != nil {
				ex.loopIdx[e.h] = n
				n++
			} else if e.it != nil {
				ex.iterIdx[e.it] = n
				n++
			} else {
				walk(e.call)
			}
		}
	}
	walk(fn)
}

type loopCtx struct {
	fr         *Frame
	header     *ssa.BasicBlock
	spec       *LoopSpec
	k          *Term // iteration counter
	init       []Val // phi values on entry
	phis       []*ssa.Phi
	entry      *State // snapshot on loop entry
	locals     map[string]nameVal
	lets       map[string]SV
	mods       []modLoc
	autoFramed map[string]*Term
	framed     map[string]*Term // key -> entry map for keys framed by `modifies`
	now        *Term
	step       map[int]int64
	dry        *dryRun
	names      map[nameKey]nameVal
	phiHav     []*Term
	iter       *iterCtx
}

type dryRun struct {
	backs [][]Val // phi values at back edges
	start int
}

func (ex *Exec) loopSpec(h *ssa.BasicBlock) *LoopSpec {
	ord, ok := ex.loopIdx[h]
	if !ok {
		return nil
	}
	for _, l := range ex.C.Loops {
		if l.Name == "" && l.Ord == ord {
			return l
		}
	}
	return nil
}

func (ex *Exec) atHeader(st *State, fr *Frame, from, h *ssa.BasicBlock) {
	body := ex.loopsOf(fr.fn).body[h]
	key := loopKey{fr.id, h}
	if body[from] {
		lc := st.loops[key]
		if lc == nil {
			ex.fail("back edge without loop context")
		}
		ex.backEdge(st, fr, from, h, lc)
		return
	}
	ex.enterLoop(st, fr, from, h, body)
}

func (ex *Exec) loopVars(st *State, fr *Frame, lc *loopCtx) *specCtx {
	ctx := ex.ctxFor(st, fr)
	ctx.loop = lc
	ctx.old = ex.entryState(st)
	ctx.vars["$k"] = SV{V: Val{T: lc.k}, Ty: STy{Sort: SInt, Go: types.Typ[types.Int]}}
	for n, v := range lc.lets {
		ctx.vars[n] = v
	}
	return ctx
}

func (ex *Exec) entryState(st *State) *State {
	if ex.atomicOld && st.lockOld != nil {
		return st.lockOld
	}
	return ex.entry
}

func (ex *Exec) enterLoop(st *State, fr *Frame, from, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	ex.phis(st, fr, from, h)
	lc := &loopCtx{fr: fr, header: h, spec: ex.loopSpec(h), k: I(0), step: map[int]int64{}, lets: map[string]SV{}}
	n := ex.nphi(h)
	for i := 0; i < n; i++ {
		ph := h.Instrs[i].(*ssa.Phi)
		lc.phis = append(lc.phis, ph)
		lc.init = append(lc.init, st.env[envKey{fr.id, ph}])
	}
	lc.entry = st.snap()
	lc.entry.names = st.names
	lc.now = st.now
	if p := loopPos(h, body); p.IsValid() {
		ex.pos = p
	}
	if lc.spec != nil {
		ctx := ex.loopVars(st, fr, lc)
		for _, l := range lc.spec.Lets {
			lc.lets[l.Name] = ctx.eval(l.E)
			ctx.vars[l.Name] = lc.lets[l.Name]
		}
		for i, inv := range lc.spec.Invs {
			if ex.dry == 0 {
				ex.oblige(st, "loop-entry", invName(lc.spec, inv, i), inv.Tags, ctx.evalBool(inv.E))
			}
		}
		lc.mods = ctx.modLocs(lc.spec.Modifies)
	}
	key := loopKey{fr.id, h}

	// discover the write set by executing the body symbolically until it is stable
	wr := newWriteRec()
	var dr *dryRun
	stepOK := map[int]int64{}
	for i, ph := range lc.phis {
		if ph.Comment == "rangeindex" && lc.init[i].T != nil {
			stepOK[i] = 1 // checked below like any other step
		}
	}
	for iter := 0; ; iter++ {
		if iter > 12 {
			ex.fail("loop write set does not stabilise")
		}
		rec := newWriteRec()
		s2 := st.clone()
		start := TT.n
		startAlloc := ex.nalloc
		startCell := ex.ncell
		lc2 := *lc
		lc2.dry = &dryRun{start: start}
		ex.havocLoop(s2, fr, &lc2, wr, start, startAlloc, stepOK)
		s2.loops[key] = &lc2
		ex.dry++
		if ex.dry > 4 {
			ex.fail("loops nested too deeply")
		}
		ex.recs = append(ex.recs, rec)
		ex.dryLoops = append(ex.dryLoops, &dryLoop{fr: fr.id, body: body})
		savePaths := ex.npaths
		savePos := ex.pos
		func() {
			defer func() {
				ex.dry--
				ex.recs = ex.recs[:len(ex.recs)-1]
				ex.dryLoops = ex.dryLoops[:len(ex.dryLoops)-1]
			}()
			ex.runFrom(s2, fr, h, n)
		}()
		ex.npaths = savePaths
		ex.pos = savePos
		dr = lc2.dry
		// steps
		ns := map[int]int64{}
		for i, ph := range lc.phis {
			if _, ok := rangeOf(fr.ty(ph.Type())); !ok || len(dr.backs) == 0 {
				continue
			}
			cur := lc2.phiTerm(s2, i)
			_ = cur
			same := true
			var c int64
			for j, bk := range dr.backs {
				d := Sub(bk[i].T, lc2.phiHav[i])
				if d.Op != OpInt || !d.Int.IsInt64() || j > 0 && d.Int.Int64() != c {
					same = false
					break
				}
				c = d.Int.Int64()
			}
			if same {
				ns[i] = c
			}
		}
		for c := range rec.cells { // variables declared inside the body are new in every iteration
			if c > startCell {
				delete(rec.cells, c)
			}
		}
		grew := mergeWrites(wr, rec, start, startAlloc)
		if !grew && sameSteps(ns, stepOK) {
			break
		}
		stepOK = ns
	}
	lc.step = stepOK
	start := TT.n
	ex.havocLoop(st, fr, lc, wr, start, ex.nalloc, stepOK)
	st.loops[key] = lc
	if ex.dry == 0 && !ex.feasNow(st) {
		return
	}
	ex.runFrom(st, fr, h, n)
}

func sameSteps(a, b map[int]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func invName(l *LoopSpec, c Clause, i int) string {
	if c.Name != "" {
		return fmt.Sprintf("loop %d invariant %s", l.Ord, c.Name)
	}
	return fmt.Sprintf("loop %d invariant #%d (%s:%d)", l.Ord, i, c.File, c.Line)
}

// base classification: a base term that mentions constants created after start varies over iterations.
const (
	baseInv = iota
	baseNew
	baseVar
)

func classify(b *Term, start, startAlloc int) int {
	variant := mentions(b, func(x *Term) bool {
		return x.Op == OpConst && x.ID > start && strings.Contains(x.Name, "!") && !strings.HasPrefix(x.Name, "H0|")
	})
	if !variant {
		return baseInv
	}
	if isNewBase(b, startAlloc) {
		return baseNew
	}
	return baseVar
}

func isNewBase(b *Term, startAlloc int) bool {
	if m, ok := b.meta.(*allocMeta); ok && m.n > startAlloc {
		return true
	}
	if b.Op == OpApp && (strings.HasPrefix(b.Name, "sub:") || b.Name == "bufarr" || b.Name == "elemref") {
		return isNewBase(b.Args[0], startAlloc)
	}
	if b.Op == OpIte {
		return isNewBase(b.Args[1], startAlloc) && isNewBase(b.Args[2], startAlloc)
	}
	return false
}

// markers used in the accumulated write record
var (
	wrNewMark = -1
	wrAllMark = -2
)

func mergeWrites(wr, rec *writeRec, start, startAlloc int) bool {
	grew := false
	for k, bases := range rec.keys {
		m := wr.keys[k]
		if m == nil {
			m = map[int]*Term{}
			wr.keys[k] = m
		}
		put := func(id int, t *Term) {
			if _, ok := m[id]; !ok {
				m[id] = t
				grew = true
			}
		}
		for _, b := range bases {
			if b == nil {
				put(wrAllMark, nil)
				continue
			}
			switch classify(b, start, startAlloc) {
			case baseInv:
				put(b.ID, b)
			case baseNew:
				put(wrNewMark, nil)
			default:
				put(wrAllMark, nil)
			}
		}
	}
	for c := range rec.proms {
		wr.proms[c] = true
	}
	for c := range rec.cells {
		for f := range rec.cells[c] {
			if wr.cell(c, f) {
				grew = true
			}
		}
	}
	return grew
}

func (lc *loopCtx) phiTerm(st *State, i int) *Term { return lc.phiHav[i] }

func (ex *Exec) havocLoop(st *State, fr *Frame, lc *loopCtx, wr *writeRec, start, startAlloc int, steps map[int]int64) {
	entryNow := st.now
	ex.advance(st)
	k := Fresh("k", SInt)
	st.assume(Le(I(0), k))
	st.assume(Le(k, I(1<<60)))
	lc.k = k
	lc.phiHav = nil
	for i, ph := range lc.phis {
		t := fr.ty(ph.Type())
		init := lc.init[i]
		if init.T == nil {
			// a location or tuple: must be loop invariant
			lc.phiHav = append(lc.phiHav, nil)
			continue
		}
		var v *Term
		if c, ok := steps[i]; ok {
			if c == 0 {
				v = init.T
			} else {
				v = Add(init.T, Mul(I(c), k))
				r, _ := rangeOf(t)
				st.assume(inRange(v, r))
			}
		} else {
			nm := ph.Comment
			if nm == "" {
				nm = ph.Name()
			}
			v = ex.freshVal(st, nm, t)
		}
		lc.phiHav = append(lc.phiHav, v)
		st.env[envKey{fr.id, ph}] = Val{T: v}
	}
	// log arrays before their counters, so that the old counter is still visible
	keys := sortedKeys(wr.keys)
	sort.SliceStable(keys, func(i, j int) bool {
		return !isCounter(keys[i]) && isCounter(keys[j])
	})
	for _, key := range keys {
		bases := wr.keys[key]
		cur := ex.getAny(st, key)
		_, all := bases[wrAllMark]
		_, nw := bases[wrNewMark]
		isRefMap := objIndexed(key, cur)
		if strings.HasPrefix(key, "LOG:") || key == "G:$clock" || ex.along(key) != "" {
			ex.havocLogKey(st, key, cur)
			continue
		}
		if !isRefMap {
			f := Fresh("hv_"+key, cur.Sort)
			f.meta = &mapMeta{birth: st.now, key: key}
			st.heap[key] = f
			continue
		}
		if !all && !nw {
			var ids []int
			for id := range bases {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			m := cur
			for _, id := range ids {
				fe := ex.freshElem(st, key, cur.Sort.Elem)
				fe.meta.(*mapMeta).base = bases[id]
				m = Store(m, bases[id], fe)
			}
			st.heap[key] = m
			ex.chanMono(st, key, cur, m)
			continue
		}
		f := Fresh("hv_"+key, cur.Sort)
		f.meta = &mapMeta{birth: st.now, key: key}
		if !all {
			// only new objects and the listed bases change
			r := BVar("r", SRef)
			var neq []*Term
			for id, b := range bases {
				if id > 0 {
					neq = append(neq, Neq(r, b))
				}
			}
			st.assume(Forall([]*Term{r}, Imp(And(append(neq, Lt(at(r), entryNow))...), Eq(Select(f, r), Select(cur, r))), []*Term{Select(f, r)}))
			st.heap[key] = f
			ex.chanMono(st, key, cur, f)
			continue
		}
		r0 := BVar("r", SRef)
		if lc.spec != nil && len(lc.spec.Modifies) > 0 {
			r := BVar("r", SRef)
			g, ok := frameGuard(lc.mods, key, r)
			if ok {
				st.assume(Forall([]*Term{r}, Imp(And(g, Lt(at(r), entryNow)), Eq(Select(f, r), Select(cur, r))), []*Term{Select(f, r)}))
				if lc.framed == nil {
					lc.framed = map[string]*Term{}
				}
				lc.framed[key] = cur
			}
		} else if g, ok := frameGuard(ex.entryMods, key, r0); ok && g.Op != OpFalse {
			// objects that existed before the function was entered and that it may not modify stay as they are
			st.assume(Forall([]*Term{r0}, Imp(And(g, Neq(r0, Nil), Lt(at(r0), ex.now0)), Eq(Select(f, r0), Select(cur, r0))), []*Term{Select(f, r0)}))
			if lc.autoFramed == nil {
				lc.autoFramed = map[string]*Term{}
			}
			lc.autoFramed[key] = cur
		}
		st.heap[key] = f
		ex.chanMono(st, key, cur, f)
	}
	for c := range wr.cells {
		v, ok := st.cells[c]
		if !ok {
			continue
		}
		if v.Prom != nil {
			continue
		}
		if wr.proms[c] {
			ex.fail("the address of a variable declared before the loop escapes in the loop")
		}
		if v.T == nil {
			ex.fail("loop modifies a pointer-to-local variable")
		}
		f := ex.freshVal(st, "cell", ex.cellTy[c])
		if !wr.cells[c][-1] {
			// only some fields of a struct variable change
			t := v.T
			for i := range f.Sort.DT.Fields {
				if wr.cells[c][i] {
					t = Upd(t, i, Sel(f, i))
				}
			}
			f = t
		}
		st.cells[c] = Val{T: f}
	}
	// header guard bounds for counted loops
	if lc.spec != nil {
		ctx := ex.loopVars(st, fr, lc)
		for _, inv := range lc.spec.Invs {
			st.assume(ctx.evalBool(inv.E))
		}
	}
	if lc.iter == nil {
		ex.countBounds(st, fr, lc, steps)
	}
}

func isCounter(k string) bool {
	return strings.HasPrefix(k, "LOG:") && strings.HasSuffix(k, ":n") || strings.HasPrefix(k, "CH:sn:") || strings.HasPrefix(k, "CH:rn:")
}

// chanMono: counters of sends/receives never decrease.
func (ex *Exec) chanMono(st *State, key string, old, nw *Term) {
	if strings.HasPrefix(key, "CH:sn:") || strings.HasPrefix(key, "CH:rn:") {
		r := BVar("r", SRef)
		st.assume(Forall([]*Term{r}, And(Ge(Select(nw, r), Select(old, r)), Ge(Select(nw, r), I(0))), []*Term{Select(nw, r)}))
	}
	if key == "LK:r" { // nobody releases more than it took (an obligation of every release)
		r := BVar("r", SRef)
		st.assume(Forall([]*Term{r}, Ge(Select(nw, r), I(0)), []*Term{Select(nw, r)}))
	}
	if strings.HasPrefix(key, "CH:cl:") { // closed channels stay closed
		r := BVar("r", SRef)
		st.assume(Forall([]*Term{r}, Imp(Select(old, r), Select(nw, r)), []*Term{Select(nw, r)}))
	}
	if strings.HasPrefix(key, "CH:sv:") || strings.HasPrefix(key, "CH:st:") || strings.HasPrefix(key, "CH:rv:") {
		// values already sent (received) stay; the counter has not been havocked yet
		ck := "CH:sn:" + key[len("CH:sv:"):]
		if strings.HasPrefix(key, "CH:rv:") {
			ck = "CH:rn:" + key[len("CH:rv:"):]
		}
		sn := ex.get(st, ck, SArr(SRef, SInt))
		r := BVar("r", SRef)
		j := BVar("j", SInt)
		x := Select(Select(nw, r), j)
		st.assume(Forall([]*Term{r, j}, Imp(Lt(j, Select(sn, r)), Eq(x, Select(Select(old, r), j))), []*Term{x}))
	}
}

func (ex *Exec) freshElem(st *State, key string, s *Sort) *Term {
	f := Fresh("hv_"+key, s)
	f.meta = &mapMeta{birth: st.now, key: key}
	return f
}

// along is the key of the call counter a recording ghost variable follows.
func (ex *Exec) along(key string) string {
	if strings.HasPrefix(key, "GV:") {
		if g := ex.S.GVars[key[3:]]; g != nil && g.Along != "" {
			return "LOG:" + g.Along + ":n"
		}
	}
	return ""
}

// objIndexed reports whether a heap key maps objects to a part of their state (a ghost
// variable that happens to be a map over references is a single value).
func objIndexed(key string, cur *Term) bool {
	return cur.Sort.Index == SRef && !strings.HasPrefix(key, "GV:")
}

// havocLogKey: logs are append-only.
func (ex *Exec) havocLogKey(st *State, key string, cur *Term) {
	f := Fresh("hv_"+key, cur.Sort)
	f.meta = &mapMeta{birth: st.now, key: key}
	st.heap[key] = f
	if cur.Sort == SInt {
		st.assume(Le(cur, f))
		if key != "G:$clock" {
			st.assume(Ge(cur, I(0)))
		}
		return
	}
	nk := ex.along(key)
	if strings.HasPrefix(key, "LOG:") {
		nk = key[:strings.LastIndex(key, ":")] + ":n"
	}
	if nk != "" {
		n0 := ex.get(st, nk, SInt)
		j := BVar("j", SInt)
		st.assume(Forall([]*Term{j}, Imp(Lt(j, n0), Eq(Select(f, j), Select(cur, j))), []*Term{Select(f, j)}))
	}
}

func (ex *Exec) getAny(st *State, key string) *Term {
	s, ok := ex.sorts[key]
	if !ok {
		ex.fail("unknown heap key %s", key)
	}
	return ex.get(st, key, s)
}

// countBounds adds the bounds that a counted loop maintains by construction.
func (ex *Exec) countBounds(st *State, fr *Frame, lc *loopCtx, steps map[int]int64) {
	h := lc.header
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return
	}
	body := ex.loopsOf(fr.fn).body[h]
	if !body[h.Succs[0]] {
		return
	}
	inv := func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Const:
			return ex.constTerm(v, fr.ty(v.Type()))
		case ssa.Instruction:
			if body[v.Block()] {
				return nil
			}
		}
		if x, ok := st.env[envKey{fr.id, v}]; ok {
			return x.T
		}
		return nil
	}
	// value = phi + d
	off := func(v ssa.Value) (int, int64, bool) {
		for i, ph := range lc.phis {
			if v == ph {
				return i, 0, true
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h {
			if c, ok := b.Y.(*ssa.Const); ok {
				for i, ph := range lc.phis {
					if b.X == ph {
						return i, c.Int64(), true
					}
				}
			}
		}
		return 0, 0, false
	}
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if op == token.GTR {
		op, x, y = token.LSS, y, x
	} else if op == token.GEQ {
		op, x, y = token.LEQ, y, x
	}
	switch op {
	case token.LSS, token.LEQ:
		if i, d, ok := off(x); ok {
			if lim := inv(y); lim != nil && steps[i] == 1 && lc.init[i].T != nil {
				// phi+d < lim held in the previous iteration (or this is the first)
				b := lim
				if op == token.LEQ {
					b = Add(lim, I(1))
				}
				v := Add(lc.phiHav[i], I(d))
				v0 := Add(lc.init[i].T, I(d))
				st.assume(Le(v, Ite(Le(v0, b), b, v0)))
			}
		}
		if i, d, ok := off(y); ok {
			if lim := inv(x); lim != nil && steps[i] == -1 && lc.init[i].T != nil {
				// lim < phi+d
				b := lim
				if op == token.LEQ {
					b = Sub(lim, I(1))
				}
				v := Add(lc.phiHav[i], I(d))
				v0 := Add(lc.init[i].T, I(d))
				st.assume(Ge(v, Ite(Ge(v0, b), b, v0)))
			}
		}
	}
}

func (ex *Exec) backEdge(st *State, fr *Frame, from, h *ssa.BasicBlock, lc *loopCtx) {
	pi := predIndex(from, h)
	var vals []Val
	for _, ph := range lc.phis {
		vals = append(vals, ex.val(st, fr, ph.Edges[pi]))
	}
	if lc.dry != nil {
		var vs []Val
		for i, v := range vals {
			if v.T == nil {
				v.T = lc.phiHav[i]
			}
			vs = append(vs, v)
		}
		lc.dry.backs = append(lc.dry.backs, vs)
	}
	for i, ph := range lc.phis {
		if lc.init[i].T == nil {
			if vals[i].Loc == nil || lc.init[i].Loc == nil || *vals[i].Loc.clean() != *lc.init[i].Loc.clean() {
				ex.fail("loop variable %s is a changing location", ph.Comment)
			}
		}
		st.env[envKey{fr.id, ph}] = vals[i]
	}
	nl := *lc
	nl.k = Add(lc.k, I(1))
	if lc.spec != nil {
		ctx := ex.loopVars(st, fr, &nl)
		ctx.vars["$k"] = SV{V: Val{T: lc.k}, Ty: STy{Sort: SInt, Go: types.Typ[types.Int]}}
		for _, g := range lc.spec.Ghosts {
			ctx.ghostAssign(g)
		}
		if ex.dry > 0 {
			return
		}
		ctx = ex.loopVars(st, fr, &nl)
		for i, inv := range lc.spec.Invs {
			ex.oblige(st, "loop-preservation", invName(lc.spec, inv, i), inv.Tags, ctx.evalBool(inv.E))
		}
	}
	if ex.dry > 0 {
		return
	}
	ex.frameObls(st, lc)
	// affine counters: by construction, but verify that the step discovered in the dry run is right here
	for i, c := range lc.step {
		want := Add(lc.phiHav[i], I(c))
		if vals[i].T != want {
			ex.oblige(st, "loop-step", "counter step", nil, Eq(vals[i].T, want))
		}
	}
}

// frameObls: what was assumed unchanged by the loop is unchanged by an iteration.
func (ex *Exec) frameObls(st *State, lc *loopCtx) {
	for _, key := range sortedKeys(lc.framed) {
		old := lc.framed[key]
		now := ex.getAny(st, key)
		r := Fresh("fr", SRef)
		g, _ := frameGuard(lc.mods, key, r)
		ex.oblige(st, "loop-frame", fmt.Sprintf("loop %d modifies only the listed parts of %s", lc.spec.Ord, key), nil,
			Imp(And(g, Lt(at(r), lc.now)), Eq(Select(now, r), Select(old, r))))
	}
	for _, key := range sortedKeys(lc.autoFramed) {
		old := lc.autoFramed[key]
		now := ex.getAny(st, key)
		r := Fresh("fr", SRef)
		g, _ := frameGuard(ex.entryMods, key, r)
		ex.oblige(st, "loop-frame", "the loop leaves "+key+" alone outside the modifies clause", nil,
			Imp(And(g, Neq(r, Nil), Lt(at(r), ex.now0)), Eq(Select(now, r), Select(old, r))))
	}
}

func (l *Loc) clean() *locId {
	b, i := 0, 0
	if l.Base != nil {
		b = l.Base.ID
	}
	if l.Idx != nil {
		i = l.Idx.ID
	}
	p := ""
	for _, e := range l.Path {
		if e.Idx != nil {
			p += fmt.Sprintf("[%d]", e.Idx.ID)
		} else {
			p += fmt.Sprintf(".%d", e.Field)
		}
	}
	return &locId{l.Kind, l.Key, b, i, l.Cell, p}
}

type locId struct {
	k       LocKind
	key     string
	b, i, c int
	p       string
}
