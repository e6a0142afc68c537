package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Calls that run a callback once per item (t.Ascend(func...)): the contract names the callback (iterate f), what the
// items are (iterfact, over itercount(), iteritem(i) and iterpos(x)), and what the callback may not change (iterkeep).
// The call is treated as a loop: the caller gives `loop N` invariants; a bool callback stops the loop by returning false.

type iterCtx struct {
	n    *Term   // number of items
	seqs []*Term // item arrays, one per callback parameter
	pos  *Term   // position of an item (by first callback argument)
	tys  []types.Type
}

// contractOf finds the contract of fn, preferring the variant for its first type argument (Name@Type).
func (ex *Exec) contractOf(fn *ssa.Function, ats []types.Type, ts tsubst) *Contract {
	name := canonName(fn)
	var ta types.Type
	if fn.Signature.Recv() != nil {
		if len(ats) > 0 {
			t := types.Unalias(ats[0])
			if p, ok := t.(*types.Pointer); ok {
				t = types.Unalias(p.Elem())
			}
			if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
				ta = n.TypeArgs().At(0)
			}
		}
	} else if tp := fn.TypeParams(); tp != nil && tp.Len() > 0 && ts != nil {
		ta = ts[tp.At(0)]
	}
	if ta != nil {
		ta = types.Unalias(ta)
		if p, ok := ta.(*types.Pointer); ok {
			ta = types.Unalias(p.Elem())
		}
		n := ""
		if sl, ok := ta.(*types.Slice); ok {
			ta = types.Unalias(sl.Elem())
			n = "SliceOf"
		}
		switch x := ta.(type) {
		case *types.Named:
			n += x.Obj().Name()
		case *types.Basic:
			n += x.Name()
		}
		if C, ok := ex.S.C[name+"@"+n]; ok {
			return C
		}
	}
	if C, ok := ex.S.C[name]; ok {
		return C
	}
	return nil
}

func (c *specCtx) iterc() *iterCtx {
	if c.iter != nil {
		return c.iter
	}
	if c.loop != nil && c.loop.iter != nil {
		return c.loop.iter
	}
	// an enclosing iteration
	var best *loopCtx
	for _, lc := range c.st.loops {
		if lc.iter != nil {
			if best != nil {
				c.fail("iteritem: several iterations are open")
			}
			best = lc
		}
	}
	if best != nil {
		return best.iter
	}
	c.fail("itercount()/iteritem() outside an iteration")
	return nil
}

func (ex *Exec) iterSpec(c *ssa.CallCommon) *LoopSpec {
	ord, ok := ex.iterIdx[c]
	if !ok {
		return nil
	}
	for _, l := range ex.C.Loops {
		if l.Name == "" && l.Ord == ord {
			return l
		}
	}
	return nil
}

func (ex *Exec) iterate(st *State, fr *Frame, C *Contract, ctx *specCtx, args []Val, ats []types.Type, k func(*State)) {
	site := ex.callSite
	if site == nil {
		ex.fail("%s: no call site", C.Name)
	}
	ci := -1
	for i, p := range C.Params {
		if p == C.Iter {
			ci = i
		}
	}
	if ci < 0 {
		ex.fail("%s: no parameter %s", C.Name, C.Iter)
	}
	fv, ft := args[ci], ats[ci]
	sig, ok := under(ft).(*types.Signature)
	if !ok {
		ex.fail("%s: %s is not a function", C.Name, C.Iter)
	}
	it := &iterCtx{n: Fresh("itn", SInt)}
	st.assume(Le(I(0), it.n))
	st.assume(Le(it.n, I(1<<60)))
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		it.tys = append(it.tys, t)
		it.seqs = append(it.seqs, Fresh(fmt.Sprintf("it%d", i), SArr(SInt, sortOf(t))))
	}
	if len(it.seqs) > 0 {
		it.pos = Fresh("itpos", SArr(sortOf(it.tys[0]), SInt))
	}
	ctx.iter = it
	for _, f := range C.IterFact {
		st.assume(ctx.evalBool(f.E))
	}
	var keep []*Term
	kctx := *ctx
	for _, e := range C.IterKeep {
		keep = append(keep, ctx.term(ctx.eval(e)))
	}
	savePos := ex.pos
	lc := &loopCtx{fr: fr, header: site.Block(), iter: it, spec: ex.iterSpec(&site.Call), k: I(0), step: map[int]int64{}, lets: map[string]SV{}}
	lc.entry = st.snap()
	lc.entry.names = st.names
	lc.now = st.now
	if lc.spec != nil {
		lctx := ex.loopVars(st, fr, lc)
		for _, l := range lc.spec.Lets {
			lc.lets[l.Name] = lctx.eval(l.E)
			lctx.vars[l.Name] = lc.lets[l.Name]
		}
		for i, inv := range lc.spec.Invs {
			if ex.dry == 0 {
				ex.oblige(st, "loop-entry", invName(lc.spec, inv, i), inv.Tags, lctx.evalBool(inv.E))
			}
		}
		lc.mods = lctx.modLocs(lc.spec.Modifies)
	}
	key := loopKey{fr.id, nil}
	old, had := st.loops[key]
	if had && old.iter != nil {
		_ = old
	}
	run := func(st *State, lc *loopCtx, kk kont) {
		var vs []Val
		var ts []types.Type
		for i, s := range it.seqs {
			t := Select(s, lc.k)
			ex.addFacts(st, t, it.tys[i])
			vs = append(vs, Val{T: t})
			ts = append(ts, it.tys[i])
		}
		st.loops[key] = lc
		ex.callDyn(st, fr, fv, sig, ft, nil, vs, ts, func(st *State, res Val) {
			if had {
				st.loops[key] = old
			} else {
				delete(st.loops, key)
			}
			ex.pos = savePos
			kk(st, res)
		})
	}
	bodyOf := map[*ssa.BasicBlock]bool{}
	wr := newWriteRec()
	for n := 0; ; n++ {
		if n > 12 {
			ex.fail("loop write set does not stabilise")
		}
		rec := newWriteRec()
		s2 := st.clone()
		start := TT.n
		startAlloc := ex.nalloc
		startCell := ex.ncell
		lc2 := *lc
		lc2.dry = &dryRun{start: start}
		ex.havocLoop(s2, fr, &lc2, wr, start, startAlloc, nil)
		s2.assume(Lt(lc2.k, it.n))
		ex.dry++
		if ex.dry > 4 {
			ex.fail("loops nested too deeply")
		}
		ex.recs = append(ex.recs, rec)
		ex.dryLoops = append(ex.dryLoops, &dryLoop{fr: -1, body: bodyOf})
		savePaths := ex.npaths
		func() {
			defer func() {
				ex.dry--
				ex.recs = ex.recs[:len(ex.recs)-1]
				ex.dryLoops = ex.dryLoops[:len(ex.dryLoops)-1]
			}()
			run(s2, &lc2, func(st *State, res Val) {
				if lc2.spec != nil {
					g := ex.loopVars(st, fr, &lc2)
					for _, x := range lc2.spec.Ghosts {
						g.ghostAssign(x)
					}
				}
			})
		}()
		ex.npaths = savePaths
		ex.pos = savePos
		for c := range rec.cells { // variables declared inside the body are new in every iteration
			if c > startCell {
				delete(rec.cells, c)
			}
		}
		if !mergeWrites(wr, rec, start, startAlloc) {
			break
		}
	}
	start := TT.n
	ex.havocLoop(st, fr, lc, wr, start, ex.nalloc, nil)
	st.assume(Le(lc.k, it.n))
	if ex.dry == 0 && !ex.feasNow(st) {
		return
	}
	kept := func(st *State) {
		if ex.dry > 0 {
			return
		}
		kc := kctx
		kc.st = st
		for i, e := range C.IterKeep {
			ex.oblige(st, "iteration", fmt.Sprintf("the callback of %s leaves kept item %d alone", C.Name, i), nil, Eq(kc.term(kc.eval(e)), keep[i]))
		}
	}
	ex.branch(st, Lt(lc.k, it.n), func(st *State) {
		run(st, lc, func(st *State, res Val) {
			kept(st)
			again := func(st *State) {
				nl := *lc
				nl.k = Add(lc.k, I(1))
				if lc.spec != nil {
					g := ex.loopVars(st, fr, &nl)
					g.vars["$k"] = mkI(lc.k)
					for _, x := range lc.spec.Ghosts {
						g.ghostAssign(x)
					}
				}
				if ex.dry > 0 {
					return
				}
				if lc.spec != nil {
					g := ex.loopVars(st, fr, &nl)
					for i, inv := range lc.spec.Invs {
						ex.oblige(st, "loop-preservation", invName(lc.spec, inv, i), inv.Tags, g.evalBool(inv.E))
					}
				}
				ex.frameObls(st, lc)
			}
			if res.T != nil && res.T.Sort == SBool {
				ex.branch(st, res.T, again, k)
				return
			}
			again(st)
		})
	}, k)
}
