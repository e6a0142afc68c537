package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxPaths = 6000

var debugTrace = os.Getenv("GOVC_TRACE") != ""

func (fr *Frame) ty(t types.Type) types.Type { return substType(t, fr.tsub) }

func (ex *Exec) newFrame(fn *ssa.Function, tsub tsubst, parent *Frame, k func(*State, []Val)) *Frame {
	ex.nframe++
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	if d > 40 {
		ex.fail("inlining too deep at %s", canonName(fn))
	}
	return &Frame{id: ex.nframe, fn: fn, tsub: tsub, depth: d, k: k, parent: parent}
}

func (ex *Exec) newCell(st *State, v Val, t types.Type) *Loc {
	ex.ncell++
	st.cells[ex.ncell] = v
	ex.cellTy[ex.ncell] = t
	for _, r := range ex.recs {
		r.cell(ex.ncell, -1)
	}
	return &Loc{Kind: LCell, Cell: ex.ncell, Root: t, Ty: t}
}

// runBody starts executing fn in frame fr with arguments.
func (ex *Exec) runBody(st *State, fr *Frame, args []Val, free []Val) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		ex.fail("function %s has no body", canonName(fn))
	}
	for i, p := range fn.Params {
		st.env[envKey{fr.id, p}] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[envKey{fr.id, p}] = free[i]
	}
	fr.params = args
	ex.runFrom(st, fr, fn.Blocks[0], 0)
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return Val{T: ex.constTerm(v, fr.ty(v.Type()))}
	case *ssa.Global:
		et := v.Type().(*types.Pointer).Elem()
		n := "G:" + v.Pkg.Pkg.Name() + "." + v.Name()
		if s, ok := structOf(et); ok && !opaqueStruct(et) {
			_ = s
			r := Const("glob:"+n, SRef)
			addAxiom(r.Name, "nn", func() *Term { return And(Neq(r, Nil), Eq(App("kind", SInt, r), I(int64(hash(n)%1000000000)+2))) })
			return Val{T: r}
		}
		return Val{Loc: &Loc{Kind: LGlobal, Key: n, Root: et, Ty: et}}
	case *ssa.Function:
		return Val{T: ex.funcTerm(v, nil, fr.tsub, fr)}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		ex.fail("no value for %s in %s", v.Name(), canonName(fr.fn))
	}
	return r
}

func (ex *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	return ex.asTerm(st, ex.val(st, fr, v))
}

// resolveFn returns the generic origin of a function and the substitution for it.
func resolveFn(fn *ssa.Function, cur tsubst) (*ssa.Function, tsubst) {
	o := fn.Origin()
	if o == nil || o == fn {
		if fn.Parent() != nil {
			return fn, cur
		}
		return fn, nil
	}
	ts := tsubst{}
	tps := o.TypeParams()
	tas := fn.TypeArgs()
	for i := 0; i < tps.Len() && i < len(tas); i++ {
		ts[tps.At(i)] = substType(tas[i], cur)
	}
	return o, ts
}

func (ex *Exec) funcTerm(fn *ssa.Function, bind []Val, cur tsubst, fr *Frame) *Term {
	f, ts := resolveFn(fn, cur)
	name := "fn:" + canonName(f)
	for _, tp := range sortedTS(ts) {
		name += "," + tp
	}
	if bind != nil {
		ex.closN++
		name += fmt.Sprintf("#%d", ex.closN)
	}
	t := Const(name, SRef)
	if t.meta == nil || bind != nil {
		t.meta = &funcMeta{fn: f, bindings: bind, tsub: ts, name: name}
	}
	idName := canonName(f)
	if strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		if o, ok := f.Object().(*types.Func); ok {
			idName = typeFuncName(o)
			if len(bind) == 1 && bind[0].T != nil && bind[0].T.Sort == SRef {
				addAxiom(t.Name, "recv", func() *Term { return Eq(App("boundto", SRef, t), bind[0].T) })
			}
		}
	}
	addAxiom(t.Name, "fnid", func() *Term { return Eq(App("fnid", SInt, t), I(int64(hash(idName)%1000000007))) })
	addAxiom(t.Name, "nn", func() *Term { return Neq(t, Nil) })
	return t
}

func sortedTS(ts tsubst) []string {
	m := map[string]bool{}
	for k, v := range ts {
		m[k.Obj().Name()+"="+typeKey(v)] = true
	}
	return sortedKeys(m)
}

func (ex *Exec) constTerm(c *ssa.Const, t types.Type) *Term {
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return RealLit(realText(f))
		}
		if i, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
			if _, ok := types.Unalias(t).(*types.TypeParam); ok {
				return App("ofint:"+sortOf(t).Name, sortOf(t), IB(i))
			}
			return IB(i)
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return IB(big.NewInt(int64(f)))
		}
		return RealLit(realText(f))
	}
	ex.fail("constant %s", c)
	return nil
}

func realText(f float64) string {
	r := new(big.Rat).SetFloat64(f)
	s := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(r.Num()).String(), r.Denom().String())
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	if r.Sign() == 0 {
		s = "0.0"
	}
	return s
}

// ---- control flow ----

func (ex *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	for i := len(ex.dryLoops) - 1; i >= 0; i-- {
		d := ex.dryLoops[i]
		if d.fr == fr.id {
			if !d.body[to] {
				return
			}
			break
		}
	}
	if ex.isHeader(to) {
		ex.atHeader(st, fr, from, to)
		return
	}
	ex.phis(st, fr, from, to)
	ex.runFrom(st, fr, to, ex.nphi(to))
}

func (ex *Exec) nphi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (ex *Exec) phis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	n := ex.nphi(to)
	pi := predIndex(from, to)
	vals := make([]Val, n)
	for i := 0; i < n; i++ {
		vals[i] = ex.val(st, fr, to.Instrs[i].(*ssa.Phi).Edges[pi])
	}
	for i := 0; i < n; i++ {
		ph := to.Instrs[i].(*ssa.Phi)
		st.env[envKey{fr.id, ph}] = vals[i]
	}
}

func (ex *Exec) feasible(st *State, extra *Term) bool {
	if extra.Op == OpFalse {
		return false
	}
	if st.pcset[Not(extra).ID] {
		return false
	}
	if extra.Op == OpTrue {
		return true
	}
	if ex.dry > 0 {
		return true
	}
	if st.pcset[extra.ID] {
		return true
	}
	return ex.feas.feasible(append(st.pcTerms(), extra))
}

// branch explores both outcomes of cond.
func (ex *Exec) branch(st *State, cond *Term, yes, no func(*State)) {
	fy := ex.feasible(st, cond)
	fn := ex.feasible(st, Not(cond))
	switch {
	case fy && fn:
		ex.npaths++
		if ex.npaths > maxPaths {
			ex.fail("too many paths")
		}
		s2 := st.clone()
		st.assume(cond)
		if st.pure {
			st.br = append(st.br, cond)
			s2.br = append(s2.br, Not(cond))
		}
		yes(st)
		s2.assume(Not(cond))
		no(s2)
	case fy:
		st.assume(cond)
		yes(st)
	case fn:
		st.assume(Not(cond))
		no(st)
	}
}

func (ex *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, idx int) {
	for i := idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			ex.pos = p
		}
		if debugTrace && ex.dry == 0 {
			fmt.Fprintf(os.Stderr, "%*s[%s.%d] %s\n", fr.depth*2, "", fr.fn.Name(), b.Index, instrText(in))
		}
		next := func(st *State) { ex.runFrom(st, fr, b, i+1) }
		switch in := in.(type) {
		case *ssa.Jump:
			ex.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := ex.term(st, fr, in.Cond)
			ex.branch(st, c, func(st *State) { ex.jump(st, fr, b, b.Succs[0]) }, func(st *State) { ex.jump(st, fr, b, b.Succs[1]) })
			return
		case *ssa.Return:
			for j := len(ex.dryLoops) - 1; j >= 0; j-- {
				if ex.dryLoops[j].fr == fr.id {
					return
				}
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, ex.val(st, fr, r))
			}
			fr.k(st, res)
			return
		case *ssa.RunDefers:
			ex.runDefers(st, fr, func(st *State) { ex.runFrom(st, fr, b, i+1) })
			return
		case *ssa.Panic:
			ex.atPanic(st, fr, in.X)
			return
		case *ssa.Call:
			ex.call(st, fr, &in.Call, in, func(st *State, res Val) {
				st.env[envKey{fr.id, in}] = res
				ex.runFrom(st, fr, b, i+1)
			})
			return
		case *ssa.Defer:
			ex.doDefer(st, fr, in)
		case *ssa.Go:
			ex.doGo(st, fr, in)
		case *ssa.Select:
			ex.doSelect(st, fr, in, func(st *State, res Val) {
				st.env[envKey{fr.id, in}] = res
				ex.runFrom(st, fr, b, i+1)
			})
			return
		case *ssa.Send:
			ex.atWait(st, fr, chanOffer{false, ex.term(st, fr, in.Chan)})
			ex.chanSend(st, fr, ex.term(st, fr, in.Chan), in.Chan, ex.val(st, fr, in.X), fr.ty(in.X.Type()), next)
			return
		case *ssa.Next:
			ex.doNext(st, fr, in, func(st *State, res Val) {
				st.env[envKey{fr.id, in}] = res
				ex.runFrom(st, fr, b, i+1)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				ex.atWait(st, fr, chanOffer{true, ex.term(st, fr, in.X)})
				ex.chanRecv(st, fr, ex.term(st, fr, in.X), in.X, in.CommaOk, fr.ty(in.X.Type()), func(st *State, res Val) {
					st.env[envKey{fr.id, in}] = res
					ex.runFrom(st, fr, b, i+1)
				})
				return
			}
			st.env[envKey{fr.id, in}] = ex.unop(st, fr, in)
		case *ssa.TypeAssert:
			ex.typeAssert(st, fr, in, func(st *State, res Val) {
				st.env[envKey{fr.id, in}] = res
				ex.runFrom(st, fr, b, i+1)
			})
			return
		case *ssa.Store:
			ex.doStore(st, fr, in)
		case *ssa.MapUpdate:
			m := ex.term(st, fr, in.Map)
			mt := under(fr.ty(in.Map.Type())).(*types.Map)
			ex.oblNilMap(st, m)
			ex.mapSet(st, m, mt, ex.term(st, fr, in.Key), ex.term(st, fr, in.Value))
		case *ssa.DebugRef:
			ex.debugRef(st, fr, in)
		case ssa.Value:
			st.env[envKey{fr.id, in}] = ex.value(st, fr, in)
		default:
			ex.fail("unsupported instruction %T", in)
		}
	}
}

func instrText(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name() + " = " + in.String()
	}
	return in.String()
}

func (ex *Exec) allocOf(fn *ssa.Function, p token.Pos) *ssa.Alloc {
	if ex.allocs == nil {
		ex.allocs = map[*ssa.Function]map[token.Pos]*ssa.Alloc{}
	}
	m, ok := ex.allocs[fn]
	if !ok {
		m = map[token.Pos]*ssa.Alloc{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Pos().IsValid() && a.Comment != "complit" && a.Comment != "new" {
					m[a.Pos()] = a
				}
			}
		}
		ex.allocs[fn] = m
	}
	return m[p]
}

func (ex *Exec) debugRef(st *State, fr *Frame, in *ssa.DebugRef) {
	id, ok := in.Expr.(*ast.Ident)
	if !ok || id.Name == "_" {
		return
	}
	if st.names == nil {
		st.names = map[nameKey]nameVal{}
	}
	if o := in.Object(); o != nil && !in.IsAddr {
		// a variable kept in memory: bind its address, not the value it is given here
		if al := ex.allocOf(fr.fn, o.Pos()); al != nil {
			if v, ok := st.env[envKey{fr.id, al}]; ok {
				st.names[nameKey{fr.id, id.Name}] = nameVal{v, true, fr.ty(al.Type()).(*types.Pointer).Elem()}
				return
			}
		}
	}
	if v, ok := st.env[envKey{fr.id, in.X}]; ok {
		t := fr.ty(in.X.Type())
		if in.IsAddr {
			t = t.(*types.Pointer).Elem()
		}
		st.names[nameKey{fr.id, id.Name}] = nameVal{v, in.IsAddr, t}
	} else if c, ok := in.X.(*ssa.Const); ok {
		st.names[nameKey{fr.id, id.Name}] = nameVal{Val{T: ex.constTerm(c, fr.ty(c.Type()))}, false, fr.ty(c.Type())}
	}
}

func (ex *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = append([]deferCall{}, ds[:len(ds)-1]...)
	d.run(st, func(st *State) { ex.runDefers(st, fr, k) })
}

func (ex *Exec) doDefer(st *State, fr *Frame, in *ssa.Defer) {
	call := in.Call
	// evaluate operands now
	var args []Val
	for _, a := range call.Args {
		args = append(args, ex.val(st, fr, a))
	}
	var fnv Val
	if _, isB := call.Value.(*ssa.Builtin); !isB {
		fnv = ex.val(st, fr, call.Value)
	}
	st.defers[fr.id] = append(append([]deferCall{}, st.defers[fr.id]...), deferCall{func(st *State, k func(*State)) {
		ex.callWith(st, fr, &call, fnv, args, nil, func(st *State, _ Val) { k(st) })
	}})
}

func (ex *Exec) atPanic(st *State, fr *Frame, x ssa.Value) {
	for j := len(ex.dryLoops) - 1; j >= 0; j-- {
		if ex.dryLoops[j].fr == fr.id {
			return
		}
	}
	if ex.dry > 0 {
		return
	}
	if ex.C.Opts["maypanic"] != "" || len(ex.C.EnsPanic) > 0 {
		ex.exitPanic(st)
		return
	}
	ex.oblige(st, "panic", "explicit-panic-unreachable", nil, False)
}

// ---- obligations ----

func (ex *Exec) oblige(st *State, kind, name string, tags []string, goal *Term) {
	if ex.dry > 0 {
		return
	}
	if goal.Op == OpTrue {
		ex.trivial++
		ex.noteObl(kind, name, tags)
		return
	}
	pos := ""
	if ex.pos.IsValid() {
		p := ex.P.Fset.Position(ex.pos)
		pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
	}
	ex.noteObl(kind, name, tags)
	ex.obls = append(ex.obls, &Obl{Name: name, Kind: kind, Func: ex.C.Name, Pos: pos, Tags: tags, Hyps: st.pcTerms(), Goal: goal})
}

func (ex *Exec) noteObl(kind, name string, tags []string) { ex.nobl++ }

func shortFile(s string) string {
	if i := strings.Index(s, "/streams/"); i >= 0 {
		return s[i+1:]
	}
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// safety raises a run-time safety obligation and then assumes it.
func (ex *Exec) safety(st *State, name string, goal *Term) {
	if goal.Op == OpTrue {
		return
	}
	if ex.dry == 0 && ex.C.Opts["nosafety"] == "" {
		if ex.C.Opts["maypanic"] != "" {
			// a run-time panic ends the execution: allowed exit
		} else {
			ex.oblige(st, "safety", name, nil, goal)
		}
	}
	st.assume(goal)
}

func (ex *Exec) nilcheck(st *State, r *Term) {
	if ex.C.Opts["nilcheck"] == "" || r == nil {
		return
	}
	ex.safety(st, "nil-dereference", Neq(r, Nil))
}

func (ex *Exec) oblNilMap(st *State, m *Term) { ex.nilcheck(st, m) }

// ---- values ----

func (ex *Exec) value(st *State, fr *Frame, v ssa.Value) Val {
	switch in := v.(type) {
	case *ssa.Alloc:
		v := ex.doAlloc(st, fr, in)
		if in.Block() == fr.fn.Blocks[0] && token.IsIdentifier(in.Comment) { // named results and the like: known before their first use
			if st.names == nil {
				st.names = map[nameKey]nameVal{}
			}
			if _, ok := st.names[nameKey{fr.id, in.Comment}]; !ok {
				st.names[nameKey{fr.id, in.Comment}] = nameVal{v, true, fr.ty(in.Type()).(*types.Pointer).Elem()}
			}
		}
		return v
	case *ssa.BinOp:
		return Val{T: ex.binop(st, fr, in.Op, ex.val(st, fr, in.X), ex.val(st, fr, in.Y), fr.ty(in.X.Type()), fr.ty(in.Y.Type()))}
	case *ssa.ChangeType:
		x := ex.val(st, fr, in.X)
		return ex.changeType(st, x, fr.ty(in.X.Type()), fr.ty(in.Type()))
	case *ssa.ChangeInterface:
		return ex.val(st, fr, in.X)
	case *ssa.Convert:
		return ex.convert(st, fr, ex.val(st, fr, in.X), fr.ty(in.X.Type()), fr.ty(in.Type()))
	case *ssa.MultiConvert:
		return ex.convert(st, fr, ex.val(st, fr, in.X), fr.ty(in.X.Type()), fr.ty(in.Type()))
	case *ssa.Extract:
		t := ex.val(st, fr, in.Tuple)
		if t.Tup == nil || in.Index >= len(t.Tup) {
			ex.fail("extract from non-tuple %s", in)
		}
		return t.Tup[in.Index]
	case *ssa.Field:
		x := ex.term(st, fr, in.X)
		return Val{T: ex.addFacts(st, Sel(x, in.Field), fr.ty(in.Type()))}
	case *ssa.FieldAddr:
		return ex.fieldAddr(st, fr, ex.val(st, fr, in.X), fr.ty(in.X.Type()).Underlying().(*types.Pointer).Elem(), in.Field)
	case *ssa.IndexAddr:
		return ex.indexAddr(st, fr, in)
	case *ssa.Index:
		x := ex.term(st, fr, in.X)
		i := ex.term(st, fr, in.Index)
		switch u := under(fr.ty(in.X.Type())).(type) {
		case *types.Array:
			ex.safety(st, "index-in-range", And(Le(I(0), i), Lt(i, I(u.Len()))))
			return Val{T: ex.addFacts(st, Select(x, i), u.Elem())}
		case *types.Basic:
			ex.safety(st, "index-in-range", And(Le(I(0), i), Lt(i, App("slen", SInt, x))))
			c := Select(App("schars", SByteArr, x), i)
			st.assume(And(Le(I(0), c), Le(c, I(255))))
			return Val{T: c}
		}
		ex.fail("index of %s", in.X.Type())
	case *ssa.Lookup:
		return ex.lookup(st, fr, in)
	case *ssa.MakeChan:
		r := ex.alloc(st, "chan")
		ct := under(fr.ty(in.Type())).(*types.Chan)
		ex.initChan(st, r, ct.Elem(), ex.term(st, fr, in.Size))
		return Val{T: r}
	case *ssa.MakeMap:
		r := ex.alloc(st, "map")
		ex.initMap(st, r, under(fr.ty(in.Type())).(*types.Map))
		return Val{T: r}
	case *ssa.MakeSlice:
		et := under(fr.ty(in.Type())).(*types.Slice).Elem()
		ln, cp := ex.term(st, fr, in.Len), ex.term(st, fr, in.Cap)
		ex.safety(st, "makeslice-size", And(Le(I(0), ln), Le(ln, cp)))
		return Val{T: ex.makeSlice(st, et, ln, cp)}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, fr, b))
		}
		return Val{T: ex.funcTerm(in.Fn.(*ssa.Function), bs, fr.tsub, fr)}
	case *ssa.MakeInterface:
		return Val{T: ex.box(st, ex.val(st, fr, in.X), fr.ty(in.X.Type()))}
	case *ssa.Range:
		return ex.doRange(st, fr, in)
	case *ssa.Slice:
		return ex.doSlice(st, fr, in)
	case *ssa.Phi:
		ex.fail("unexpected phi")
	case *ssa.SliceToArrayPointer:
		ex.fail("slice to array pointer conversion")
	}
	ex.fail("unsupported value %T", v)
	return Val{}
}

func hasIdentity(t types.Type) bool {
	s, ok := structOf(t)
	if !ok {
		return false
	}
	if identityStruct(t) {
		return true
	}
	if opaqueStruct(t) {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if hasIdentity(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (ex *Exec) doAlloc(st *State, fr *Frame, in *ssa.Alloc) Val {
	t := fr.ty(in.Type()).(*types.Pointer).Elem()
	return ex.allocType(st, t, in.Heap, in.Comment)
}

func (ex *Exec) allocType(st *State, t types.Type, heap bool, name string) Val {
	if a, ok := under(t).(*types.Array); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			r := ex.allocArr(st, "arr")
			k, m := ex.elemMap(st, a.Elem())
			ex.set(st, k, r, Store(m, r, ConstArr(SArr(SInt, sortOf(a.Elem())), zeroOf(a.Elem()))))
			return Val{T: r}
		}
	}
	if _, ok := structOf(t); ok && (heap || hasIdentity(t)) {
		r := ex.alloc(st, name)
		ex.initObj(st, r, t)
		return Val{T: r}
	}
	return Val{Loc: ex.newCell(st, Val{T: zeroOf(t)}, t)}
}

// initObj stores the zero value and initial ghost state of a new object.
func (ex *Exec) initObj(st *State, r *Term, t types.Type) {
	if identityStruct(t) {
		ex.initIdentity(st, r, t)
		return
	}
	s, ok := structOf(t)
	if !ok || opaqueStruct(t) {
		ex.storeRef(st, r, t, zeroOf(t))
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if subObject(ft) {
			ex.initObj(st, subRef(t, s, i, r), ft)
		} else {
			ex.storeField(st, r, t, s, i, zeroOf(ft))
		}
	}
	own := originKey(t) + "."
	for _, n := range sortedKeys(ex.S.GFields) {
		if strings.HasPrefix(n, own) {
			g := ex.S.GFields[n]
			key, srt, ty := ex.ghostKey(g, t)
			_ = ty
			m := ex.get(st, key, SArr(SRef, srt))
			if z := zeroSort(srt); z != nil {
				ex.set(st, key, r, Store(m, r, z))
			}
		}
	}
}

func zeroSort(s *Sort) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return False
	case SRef:
		return Nil
	case SStr:
		return StrLit("")
	}
	if s.Index != nil {
		if z := zeroSort(s.Elem); z != nil {
			return ConstArr(s, z)
		}
	}
	return nil
}

func (ex *Exec) allocArr(st *State, name string) *Term {
	ex.nalloc++
	r := Fresh("new_"+name, SRef)
	r.meta = &allocMeta{ex.nalloc}
	st.assume(Neq(r, Nil))
	st.assume(Eq(at(r), st.now))
	st.assume(Eq(App("kind", SInt, r), I(-1)))
	st.now = Add(st.now, I(1))
	return r
}

func (ex *Exec) makeSlice(st *State, et types.Type, ln, cp *Term) *Term {
	r := ex.allocArr(st, "arr")
	if ex.elemIsRef(et) {
		// all elements zero: record as facts on demand through ghost "fresh element" function
		ex.zeroElems(st, r, et)
		return SlMk(r, I(0), ln, cp)
	}
	k, m := ex.elemMap(st, et)
	ex.set(st, k, r, Store(m, r, ConstArr(SArr(SInt, sortOf(et)), zeroOf(et))))
	return SlMk(r, I(0), ln, cp)
}

// zeroElems makes the object elements of new array r all-zero.
func (ex *Exec) zeroElems(st *State, r *Term, et types.Type) {
	s, _ := structOf(et)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if subObject(ft) {
			continue
		}
		key := fieldKey(et, s, i)
		m := ex.get(st, key, SArr(SRef, sortOf(ft)))
		n := Fresh("hv", m.Sort)
		n.meta = &mapMeta{birth: st.now, key: key}
		x := BVar("x", SRef)
		j := BVar("j", SInt)
		st.assume(Forall([]*Term{x}, Imp(Neq(App("elemarr", SRef, x), r), Eq(Select(n, x), Select(m, x))), []*Term{Select(n, x)}))
		e := elemRefOf(r, j)
		st.assume(Forall([]*Term{j}, Eq(Select(n, e), zeroOf(ft)), []*Term{e}))
		ex.set(st, key, r, n)
	}
}

func (ex *Exec) fieldAddr(st *State, fr *Frame, base Val, t types.Type, i int) Val {
	s, ok := structOf(t)
	if !ok {
		ex.fail("field of %s", t)
	}
	ft := s.Field(i).Type()
	if base.Loc != nil {
		l := *base.Loc
		if l.Reint {
			ex.fail("field of reinterpreted pointer")
		}
		l.Path = append(append([]pathEl{}, l.Path...), pathEl{Field: i})
		l.Ty = ft
		return Val{Loc: &l}
	}
	ex.nilcheck(st, base.T)
	if opaqueStruct(t) {
		// field of an external struct with hidden representation: treat exported field as location
		return Val{Loc: &Loc{Kind: LHeap, Key: fieldKey(t, s, i), Base: base.T, Root: ft, Ty: ft}}
	}
	if subObject(ft) {
		return Val{T: subRef(t, s, i, base.T)}
	}
	return Val{Loc: &Loc{Kind: LHeap, Key: fieldKey(t, s, i), Base: base.T, Root: ft, Ty: ft}}
}

func (ex *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	x := ex.val(st, fr, in.X)
	i := ex.term(st, fr, in.Index)
	xt := fr.ty(in.X.Type())
	switch u := under(xt).(type) {
	case *types.Slice:
		s := ex.asTerm(st, x)
		ex.safety(st, "index-in-range", And(Le(I(0), i), Lt(i, SlLen(s))))
		if ex.elemIsRef(u.Elem()) {
			return Val{T: elemRefOf(SlArr(s), Add(SlOff(s), i))}
		}
		ex.elemMap(st, u.Elem())
		return Val{Loc: &Loc{Kind: LElem, Key: elemKey(u.Elem()), Base: SlArr(s), Idx: Add(SlOff(s), i), Root: u.Elem(), Ty: u.Elem()}}
	case *types.Pointer:
		a, ok := under(u.Elem()).(*types.Array)
		if !ok {
			ex.fail("index of %s", xt)
		}
		ex.safety(st, "index-in-range", And(Le(I(0), i), Lt(i, I(a.Len()))))
		if x.Loc != nil {
			l := *x.Loc
			l.Path = append(append([]pathEl{}, l.Path...), pathEl{Idx: i})
			l.Ty = a.Elem()
			return Val{Loc: &l}
		}
		ex.elemMap(st, a.Elem())
		return Val{Loc: &Loc{Kind: LElem, Key: elemKey(a.Elem()), Base: x.T, Idx: i, Root: a.Elem(), Ty: a.Elem()}}
	}
	ex.fail("index address of %s", xt)
	return Val{}
}

func (ex *Exec) doSlice(st *State, fr *Frame, in *ssa.Slice) Val {
	x := ex.val(st, fr, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.term(st, fr, v)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = I(0)
	}
	switch u := under(fr.ty(in.X.Type())).(type) {
	case *types.Slice:
		s := x.T
		if hi == nil {
			hi = SlLen(s)
		}
		cp := SlCap(s)
		if mx != nil {
			ex.safety(st, "slice-bounds", Le(mx, cp))
			cp = mx
		}
		ex.safety(st, "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, cp)))
		return Val{T: SlMk(SlArr(s), Add(SlOff(s), lo), Sub(hi, lo), Sub(cp, lo))}
	case *types.Pointer:
		a, ok := under(u.Elem()).(*types.Array)
		if !ok {
			ex.fail("slice of %s", in.X.Type())
		}
		if x.T == nil {
			ex.fail("slicing an array field")
		}
		n := I(a.Len())
		if hi == nil {
			hi = n
		}
		if mx != nil {
			n = mx
		}
		ex.safety(st, "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		return Val{T: SlMk(x.T, lo, Sub(hi, lo), Sub(n, lo))}
	case *types.Basic:
		s := x.T
		if hi == nil {
			hi = App("slen", SInt, s)
		}
		ex.safety(st, "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, App("slen", SInt, s))))
		r := ex.mkStr(st, Sub(hi, lo), func(i *Term) *Term { return Select(App("schars", SByteArr, s), Add(lo, i)) }, nil)
		return Val{T: r}
	}
	ex.fail("slice of %s", in.X.Type())
	return Val{}
}

// mkStr makes a string value with the given contents.
func (ex *Exec) mkStr(st *State, ln *Term, ch func(i *Term) *Term, key *Term) *Term {
	r := Fresh("s", SStr)
	r.meta = &mapMeta{birth: st.now}
	st.assume(Eq(App("slen", SInt, r), ln))
	st.assume(And(Le(I(0), ln), Le(ln, I(1<<48))))
	i := BVar("i", SInt)
	rc := Select(App("schars", SByteArr, r), i)
	st.assume(Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, ln)), Eq(rc, ch(i))), []*Term{rc}))
	// extensionality with respect to every other string
	t := BVar("t", SStr)
	w := App("strw", SInt, r, t)
	st.assume(Forall([]*Term{t}, Imp(And(Eq(App("slen", SInt, t), ln),
		Imp(And(Le(I(0), w), Lt(w, ln)), Eq(Select(App("schars", SByteArr, t), w), ch(w)))), Eq(t, r)), []*Term{App("slen", SInt, t)}))
	return r
}

func (ex *Exec) doStore(st *State, fr *Frame, in *ssa.Store) {
	a := ex.val(st, fr, in.Addr)
	v := ex.val(st, fr, in.Val)
	t := fr.ty(in.Val.Type())
	ex.storeTo(st, a, v, t)
}

func (ex *Exec) storeTo(st *State, a Val, v Val, t types.Type) {
	if a.Loc != nil {
		ex.checkProtected(st, a.Loc)
		ex.store(st, a.Loc, v)
		return
	}
	ex.nilcheck(st, a.T)
	vt := ex.asTerm(st, v)
	if at, ok := under(t).(*types.Array); ok {
		k, m := ex.elemMap(st, at.Elem())
		ex.set(st, k, a.T, Store(m, a.T, vt))
		return
	}
	ex.storeRef(st, a.T, t, vt)
}

func (ex *Exec) loadFrom(st *State, a Val, t types.Type) Val {
	if a.Loc != nil {
		ex.checkProtected(st, a.Loc)
		if a.Loc.Kind == LHeap && ex.S.Volatile[strings.SplitN(strings.TrimPrefix(a.Loc.Key, "F:"), "|", 2)[0]] {
			return Val{T: ex.freshVal(st, "vol", a.Loc.Ty)}
		}
		return ex.load(st, a.Loc)
	}
	ex.nilcheck(st, a.T)
	if at, ok := under(t).(*types.Array); ok {
		_, m := ex.elemMap(st, at.Elem())
		return Val{T: Select(m, a.T)}
	}
	return Val{T: ex.loadRef(st, a.T, t)}
}

func (ex *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	x := ex.val(st, fr, in.X)
	t := fr.ty(in.X.Type())
	switch in.Op {
	case token.MUL:
		et := under(t).(*types.Pointer).Elem()
		return ex.loadFrom(st, x, et)
	case token.NOT:
		return Val{T: Not(x.T)}
	case token.SUB:
		r, ok := rangeOf(t)
		if !ok {
			if x.T.Sort == SReal {
				return Val{T: Neg(x.T)}
			}
			return Val{T: App("neg:"+x.T.Sort.Name, x.T.Sort, x.T)}
		}
		return Val{T: ex.wrap(st, Neg(x.T), r)}
	case token.XOR:
		r, _ := rangeOf(t)
		if r.signed {
			return Val{T: Sub(I(-1), x.T)}
		}
		return Val{T: Sub(IB(r.hi), x.T)}
	}
	ex.fail("unary %s", in.Op)
	return Val{}
}

// wrap applies machine wrap-around unless it provably cannot happen.
func (ex *Exec) wrap(st *State, x *Term, r intRange) *Term {
	if x.Op == OpInt {
		return wrapTo(x, r, false)
	}
	if ex.C != nil && ex.C.Opts["nowrap"] != "" {
		ex.assumed["machine integers of "+ex.C.Name+" treated as mathematical integers (no overflow)"] = true
		return x
	}
	bad := Or(Lt(x, IB(r.lo)), Gt(x, IB(r.hi)))
	if bad.Op == OpFalse {
		return x
	}
	if ex.wrapOK(st, bad) {
		return x
	}
	return wrapTo(x, r, true)
}

// wrapOK: overflow infeasible under the (quantifier-free) path condition.
func (ex *Exec) wrapOK(st *State, bad *Term) bool {
	return !ex.feas.feasible(append(st.pcTerms(), bad))
}

func (ex *Exec) isPow2(t *Term) (uint, bool) {
	if t.Op != OpInt || t.Int.Sign() <= 0 {
		return 0, false
	}
	n := t.Int.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(t.Int) == 0 {
		return uint(n), true
	}
	return 0, false
}

func (ex *Exec) binop(st *State, fr *Frame, op token.Token, xv, yv Val, xt, yt types.Type) *Term {
	if op == token.EQL || op == token.NEQ {
		e := ex.equal(st, xv, yv, xt, yt)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	x, y := ex.asTerm(st, xv), ex.asTerm(st, yv)
	if _, ok := types.Unalias(xt).(*types.TypeParam); ok {
		n := sortOf(xt).Name
		switch op {
		case token.LSS:
			return tpLess(x, y)
		case token.GTR:
			return tpLess(y, x)
		case token.LEQ:
			return Not(tpLess(y, x))
		case token.GEQ:
			return Not(tpLess(x, y))
		}
		return App("op"+op.String()+":"+n, x.Sort, x, y)
	}
	if x.Sort == SStr {
		switch op {
		case token.ADD:
			return ex.strcat(st, x, y)
		case token.LSS:
			return strLess(x, y)
		case token.GTR:
			return strLess(y, x)
		case token.LEQ:
			return Not(strLess(y, x))
		case token.GEQ:
			return Not(strLess(x, y))
		}
	}
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Gt(x, y)
	case token.GEQ:
		return Ge(x, y)
	}
	if x.Sort == SReal {
		ex.assumed["floating point treated as real arithmetic"] = true
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.QUO:
			return RDiv(x, y)
		}
	}
	if x.Sort == SBool {
		switch op {
		case token.AND:
			return And(x, y)
		case token.OR:
			return Or(x, y)
		}
	}
	r, ok := rangeOf(xt)
	if !ok {
		ex.fail("binary %s on %s", op, xt)
	}
	switch op {
	case token.ADD:
		return ex.wrap(st, Add(x, y), r)
	case token.SUB:
		return ex.wrap(st, Sub(x, y), r)
	case token.MUL:
		p := Mul(x, y)
		if p.Op == OpInt {
			return wrapTo(p, r, false)
		}
		if ex.C != nil && ex.C.Opts["nowrap"] != "" || ex.wrapOK(st, Or(Lt(p, IB(r.lo)), Gt(p, IB(r.hi)))) {
			return p
		}
		return wrapTo(p, r, false)
	case token.QUO, token.REM:
		ex.safety(st, "divide-by-zero", Neq(y, I(0)))
		nn := ex.wrapOK(st, Or(Lt(x, I(0)), Lt(y, I(0)))) // both non-negative?
		if op == token.QUO {
			if nn {
				return EDiv(x, y)
			}
			q := truncDiv(x, y)
			return ex.wrap(st, q, r)
		}
		if nn {
			return EMod(x, y)
		}
		return Sub(x, Mul(y, truncDiv(x, y)))
	case token.SHL:
		if y.Op == OpInt && y.Int.IsInt64() && y.Int.Int64() < 64 {
			p := Mul(x, IB(new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64()))))
			if ex.wrapOK(st, Or(Lt(p, IB(r.lo)), Gt(p, IB(r.hi)))) {
				return p
			}
			return wrapTo(p, r, false)
		}
		if y.Op != OpInt {
			ex.safety(st, "negative-shift", Ge(y, I(0)))
			p2 := App("pow2", SInt, y)
			fs := []*Term{Imp(Ge(y, I(64)), Eq(App("bit<<", SInt, x, y), I(0)))}
			for k := 0; k < 64; k++ {
				fs = append(fs, Imp(Eq(y, I(int64(k))), Eq(p2, IB(new(big.Int).Lsh(big.NewInt(1), uint(k))))))
			}
			var p *Term
			fs = append(fs, Imp(And(Ge(y, I(0)), Lt(y, I(64))), And(Ge(p2, I(1)), App("ispow2", SBool, p2))))
			if n, ok := ex.isPow2(x); ok && x.Op == OpInt {
				p = Mul(p2, IB(new(big.Int).Lsh(big.NewInt(1), n)))
				fs = append(fs, Imp(And(Ge(y, I(0)), Lt(y, I(64))), App("ispow2", SBool, p)))
			} else {
				p = Mul(x, p2)
			}
			for _, f := range fs {
				st.assume(f)
			}
			if ex.wrapOK(st, Or(Lt(y, I(0)), Ge(y, I(64)), Lt(p, IB(r.lo)), Gt(p, IB(r.hi)))) {
				return p
			}
			t := App("bit<<", SInt, x, y)
			st.assume(Imp(And(Lt(y, I(64)), Ge(p, IB(r.lo)), Le(p, IB(r.hi))), Eq(t, p)))
			st.assume(inRange(t, r))
			return t
		}
	case token.SHR:
		if y.Op == OpInt && y.Int.IsInt64() && y.Int.Int64() < 64 {
			return EDiv(x, IB(new(big.Int).Lsh(big.NewInt(1), uint(y.Int.Int64()))))
		}
	case token.AND:
		if x.Op == OpInt {
			x, y = y, x
		}
		if y.Op == OpInt {
			if _, ok := ex.isPow2(Add(y, I(1))); ok {
				return EMod(x, Add(y, I(1)))
			}
			if n, ok := ex.isPow2(y); ok {
				p := IB(new(big.Int).Lsh(big.NewInt(1), n))
				return Mul(p, EMod(EDiv(x, p), I(2)))
			}
		}
		t := App("bit&", SInt, x, y)
		st.assume(inRange(t, r))
		for k := 0; k < 2; k++ {
			st.assume(Imp(Ge(y, I(0)), And(Ge(t, I(0)), Le(t, y))))
			st.assume(Imp(And(Ge(x, I(0)), App("ispow2", SBool, Add(y, I(1)))), Eq(t, EMod(x, Add(y, I(1))))))
			x, y = y, x
		}
		return t
	case token.XOR:
		if x.Op == OpInt && x.Int.Sign() == 0 {
			return y
		}
		if y.Op == OpInt && y.Int.Sign() == 0 {
			return x
		}
		// flipping the sign bit
		for k := 0; k < 2; k++ {
			if y.Op == OpInt && !r.signed {
				if n, ok := ex.isPow2(y); ok && int(n) == r.bits-1 {
					return Ite(Ge(x, y), Sub(x, y), Add(x, y))
				}
			}
			if y.Op == OpInt && r.signed && y.Int.Cmp(r.lo) == 0 {
				return Ite(Ge(x, I(0)), Add(x, y), Sub(x, y))
			}
			x, y = y, x
		}
	case token.OR:
		if x.Op == OpInt && x.Int.Sign() == 0 {
			return y
		}
		if y.Op == OpInt && y.Int.Sign() == 0 {
			return x
		}
		if k, ok := disjointOr(x, y); ok {
			return k
		}
	}
	// uninterpreted bit operation within machine range
	t := App("bit"+op.String(), SInt, x, y)
	st.assume(inRange(t, r))
	return t
}

// disjointOr recognises sums of byte*2^(8k) with different k.
func disjointOr(x, y *Term) (*Term, bool) {
	return nil, false
}

func truncDiv(x, y *Term) *Term {
	// Go truncated division via Euclidean division
	ax := Ite(Lt(x, I(0)), Neg(x), x)
	ay := Ite(Lt(y, I(0)), Neg(y), y)
	if y.Op == OpInt {
		ay = IB(new(big.Int).Abs(y.Int))
	}
	q := EDiv(ax, ay)
	neg := Not(Eq(Lt(x, I(0)), Lt(y, I(0))))
	if y.Op == OpInt {
		if y.Int.Sign() > 0 {
			neg = Lt(x, I(0))
		} else {
			neg = Ge(x, I(0))
		}
	}
	return Ite(neg, Neg(q), q)
}

func tpLess(x, y *Term) *Term {
	n := "less:" + x.Sort.Name
	orderAxioms(n, x.Sort)
	return App(n, SBool, x, y)
}
func strLess(x, y *Term) *Term {
	orderAxioms("strlt", SStr)
	if a, ok := x.meta.(*strMeta); ok {
		if b, ok := y.meta.(*strMeta); ok {
			return Bool(a.s < b.s)
		}
	}
	return App("strlt", SBool, x, y)
}
func orderAxioms(n string, s *Sort) {
	addAxiom(n, "order", func() *Term {
		a, b, c := BVar("a", s), BVar("b", s), BVar("c", s)
		lt := func(x, y *Term) *Term { return App(n, SBool, x, y) }
		return And(
			Forall([]*Term{a}, Not(lt(a, a)), []*Term{lt(a, a)}),
			Forall([]*Term{a, b}, Or(lt(a, b), lt(b, a), Eq(a, b)), []*Term{lt(a, b)}),
			Forall([]*Term{a, b, c}, Imp(And(lt(a, b), lt(b, c)), lt(a, c)), []*Term{lt(a, b), lt(b, c)}))
	})
}

func (ex *Exec) strcat(st *State, x, y *Term) *Term {
	if a, ok := x.meta.(*strMeta); ok {
		if b, ok := y.meta.(*strMeta); ok {
			return StrLit(a.s + b.s)
		}
		if a.s == "" {
			return y
		}
	}
	if b, ok := y.meta.(*strMeta); ok && b.s == "" {
		return x
	}
	if y.Op == OpApp && y.Name == "strcat" { // associative: keep it nested to the left
		return ex.strcat(st, ex.strcat(st, x, y.Args[0]), y.Args[1])
	}
	if b, ok := y.meta.(*strMeta); ok && x.Op == OpApp && x.Name == "strcat" {
		if a, ok := x.Args[1].meta.(*strMeta); ok {
			return ex.strcat(st, x.Args[0], StrLit(a.s+b.s))
		}
	}
	t := App("strcat", SStr, x, y)
	st.assume(Eq(App("slen", SInt, t), Add(App("slen", SInt, x), App("slen", SInt, y))))
	addAxiom("strcat", "inj", func() *Term {
		a, b, c := BVar("a", SStr), BVar("b", SStr), BVar("c", SStr)
		return And(Forall([]*Term{a, b, c}, Imp(Eq(App("strcat", SStr, a, b), App("strcat", SStr, a, c)), Eq(b, c)), []*Term{App("strcat", SStr, a, b), App("strcat", SStr, a, c)}),
			Forall([]*Term{a, b, c}, Imp(Eq(App("strcat", SStr, a, b), App("strcat", SStr, c, b)), Eq(a, c)), []*Term{App("strcat", SStr, a, b), App("strcat", SStr, c, b)}))
	})
	return t
}

func (ex *Exec) equal(st *State, x, y Val, xt, yt types.Type) *Term {
	if x.Loc != nil || y.Loc != nil {
		// address of a local/field never equals nil
		if x.T == Nil || y.T == Nil {
			return False
		}
		ex.fail("comparison of addresses")
	}
	if x.T == nil || y.T == nil {
		ex.fail("comparison of non-terms")
	}
	if x.T.Sort == SIface && y.T.Sort != SIface {
		y = Val{T: ex.box(st, y, yt)}
	}
	if y.T.Sort == SIface && x.T.Sort != SIface {
		x = Val{T: ex.box(st, x, xt)}
	}
	if x.T.Sort == SSlice {
		if y.T == NilSlice {
			return Eq(SlArr(x.T), Nil)
		}
		if x.T == NilSlice {
			return Eq(SlArr(y.T), Nil)
		}
	}
	if a, ok := under(xt).(*types.Array); ok && x.T.Sort.Index != nil {
		if a.Len() <= 16 {
			var cs []*Term
			for i := int64(0); i < a.Len(); i++ {
				cs = append(cs, Eq(Select(x.T, I(i)), Select(y.T, I(i))))
			}
			return And(cs...)
		}
	}
	return Eq(x.T, y.T)
}

func (ex *Exec) changeType(st *State, x Val, from, to types.Type) Val {
	if x.T != nil && x.T.Sort != sortOf(to) {
		return ex.convStruct(st, x, from, to)
	}
	if x.Loc != nil {
		l := *x.Loc
		if p, ok := under(to).(*types.Pointer); ok {
			l.Ty = p.Elem()
		}
		return Val{Loc: &l}
	}
	return x
}

func (ex *Exec) convStruct(st *State, x Val, from, to types.Type) Val {
	fs, to1 := sortOf(from), sortOf(to)
	if fs.DT != nil && to1.DT != nil && len(fs.DT.Fields) == len(to1.DT.Fields) {
		var args []*Term
		for i := range fs.DT.Fields {
			a := Sel(x.T, i)
			if a.Sort != to1.DT.Fields[i].Sort {
				ex.fail("struct conversion %s -> %s", from, to)
			}
			args = append(args, a)
		}
		return Val{T: Mk(to1, args...)}
	}
	ex.fail("conversion %s -> %s", from, to)
	return Val{}
}

func (ex *Exec) convert(st *State, fr *Frame, x Val, from, to types.Type) Val {
	fu, tu := under(from), under(to)
	if _, ok := types.Unalias(from).(*types.TypeParam); ok {
		if _, ok2 := types.Unalias(to).(*types.TypeParam); !ok2 {
			nm, bk := "conv:"+sortOf(from).Name+"->"+sortOf(to).Name, "conv:"+sortOf(to).Name+"->"+sortOf(from).Name
			r := App(nm, sortOf(to), x.T)
			if rg, ok := rangeOf(to); ok && intTypeParam(from, rg) {
				// every type in the constraint fits: converting there and back is the identity
				addAxiom(nm, "inj", func() *Term {
					v := BVar("v", sortOf(from))
					c := App(nm, sortOf(to), v)
					return Forall([]*Term{v}, Eq(App(bk, sortOf(from), c), v), []*Term{c})
				})
			}
			if rg, ok := rangeOf(to); ok {
				st.assume(inRange(r, rg))
			}
			return Val{T: r}
		}
	}
	if _, ok := types.Unalias(to).(*types.TypeParam); ok {
		return Val{T: App("conv:"+sortOf(from).Name+"->"+sortOf(to).Name, sortOf(to), x.T)}
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		switch {
		case fi && ti:
			r, _ := rangeOf(to)
			fr0, _ := rangeOf(from)
			if fr0.lo.Cmp(r.lo) >= 0 && fr0.hi.Cmp(r.hi) <= 0 {
				return x
			}
			if ex.wrapOK(st, Or(Lt(x.T, IB(r.lo)), Gt(x.T, IB(r.hi)))) {
				return x
			}
			return Val{T: wrapTo(x.T, r, fr0.bits <= r.bits)}
		case fi && tf:
			return Val{T: ToReal(x.T)}
		case ff && ti:
			r, _ := rangeOf(to)
			f := ToIntFloor(x.T)
			tr := Ite(Lt(x.T, RealLit("0.0")), Neg(ToIntFloor(Neg(x.T))), f)
			v := Fresh("f2i", SInt)
			st.assume(inRange(v, r))
			st.assume(Imp(inRange(tr, r), Eq(v, tr)))
			return Val{T: v}
		case ff && tf:
			return x
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return x
		case fi && tb.Info()&types.IsString != 0:
			return Val{T: App("runestr", SStr, x.T)}
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return x
		}
	}
	// unsafe pointer conversions keep the location
	if tok && tb.Kind() == types.UnsafePointer {
		return x
	}
	if fok && fb.Kind() == types.UnsafePointer {
		p, ok := tu.(*types.Pointer)
		if !ok {
			ex.fail("unsafe conversion to %s", to)
		}
		if x.Loc != nil {
			l := *x.Loc
			if types.Identical(l.Ty, p.Elem()) {
				return Val{Loc: &l}
			}
			if b, ok := under(l.Ty).(*types.Basic); ok && b.Kind() == types.Uint8 {
				if _, ok := rangeOf(p.Elem()); ok {
					l.Reint = true
					l.Ty = p.Elem()
					return Val{Loc: &l}
				}
			}
			ex.fail("unsafe reinterpretation of %s as %s", l.Ty, p.Elem())
		}
		return x
	}
	// string <-> []byte
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return Val{T: ex.bytesOfString(st, x.T)}
			}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return Val{T: ex.stringOfBytes(st, x.T)}
			}
		}
	}
	if sortOf(from) == sortOf(to) {
		return x
	}
	return ex.convStruct(st, x, from, to)
}

var byteType = types.Typ[types.Uint8]

// intTypeParam: every type of the constraint is an integer type whose range lies within r.
func intTypeParam(t types.Type, r intRange) bool {
	tp, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return false
	}
	n := 0
	var walk func(t types.Type) bool
	walk = func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Union:
			for i := 0; i < u.Len(); i++ {
				if !walk(u.Term(i).Type()) {
					return false
				}
			}
			return true
		case *types.Interface:
			for i := 0; i < u.NumEmbeddeds(); i++ {
				if !walk(u.EmbeddedType(i)) {
					return false
				}
			}
			return true
		case *types.Named, *types.Alias:
			return walk(t.Underlying())
		default:
			x, ok := rangeOf(t)
			n++
			return ok && x.lo.Cmp(r.lo) >= 0 && x.hi.Cmp(r.hi) <= 0
		}
	}
	return walk(tp.Constraint().Underlying()) && n > 0
}

func (ex *Exec) bytesOfString(st *State, s *Term) *Term {
	n := App("slen", SInt, s)
	st.assume(And(Le(I(0), n), Le(n, I(1<<48))))
	r := ex.allocArr(st, "arr")
	k, m := ex.elemMap(st, byteType)
	ex.set(st, k, r, Store(m, r, App("schars", SByteArr, s)))
	ex.byteCharAxiom()
	return SlMk(r, I(0), n, n)
}

func (ex *Exec) byteCharAxiom() {
	addAxiom("schars", "range", func() *Term {
		s := BVar("s", SStr)
		i := BVar("i", SInt)
		c := Select(App("schars", SByteArr, s), i)
		return Forall([]*Term{s, i}, And(Le(I(0), c), Le(c, I(255))), []*Term{c})
	})
}

func (ex *Exec) stringOfBytes(st *State, b *Term) *Term {
	_, m := ex.elemMap(st, byteType)
	a := Select(m, SlArr(b))
	off := SlOff(b)
	if a.Op == OpApp && a.Name == "schars" && off == I(0) && SlLen(b) == App("slen", SInt, a.Args[0]) {
		return a.Args[0]
	}
	return ex.mkStr(st, SlLen(b), func(i *Term) *Term { return Select(a, Add(off, i)) }, nil)
}

// ---- interfaces ----

func typeID(t types.Type) *Term {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		return Const("dyn:TP_"+tp.Obj().Name(), SInt)
	}
	return I(int64(hash(typeKey(t)) % 1000000000007))
}

func hasTP(t types.Type) bool { return strings.Contains(typeKey(t), "TP_") }

func (ex *Exec) box(st *State, v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			return v.T
		}
	}
	if v.Loc != nil {
		// pointer to a non-struct variable escaping into an interface: opaque identity
		r := Fresh("addr", SIface)
		st.assume(Neq(r, INil))
		r.meta = &ifaceMeta{v, t}
		st.assume(Eq(App("dyn", SInt, r), typeID(t)))
		return r
	}
	return Box(v.T, t)
}

func Box(v *Term, t types.Type) *Term {
	n := "box:" + typeKey(t)
	un := "unbox:" + typeKey(t)
	b := App(n, SIface, v)
	if v.Op == OpConst || len(b.Args) > 0 {
		boxTypes[n] = t
	}
	addAxiom(n, "inj", func() *Term {
		x := BVar("x", v.Sort)
		bx := App(n, SIface, x)
		return Forall([]*Term{x}, And(Eq(App(un, v.Sort, bx), x), Eq(App("dyn", SInt, bx), typeID(t)), Neq(bx, INil)), []*Term{bx})
	})
	addAxiom("dyn", "nil", func() *Term { return Eq(App("dyn", SInt, INil), I(0)) })
	return b
}

var boxTypes = map[string]types.Type{}

func Unbox(x *Term, t types.Type) *Term {
	if x.Op == OpApp && x.Name == "box:"+typeKey(t) {
		return x.Args[0]
	}
	un := "unbox:" + typeKey(t)
	n := "box:" + typeKey(t)
	boxTypes[n] = t
	addAxiom(un, "surj", func() *Term {
		y := BVar("y", SIface)
		uy := App(un, sortOf(t), y)
		return Forall([]*Term{y}, Imp(Eq(App("dyn", SInt, y), typeID(t)), Eq(App(n, SIface, uy), y)), []*Term{uy})
	})
	addAxiom("dyn", "nil", func() *Term { return Eq(App("dyn", SInt, INil), I(0)) })
	return App(un, sortOf(t), x)
}

func dynType(x *Term) *Term {
	if x.Op == OpApp && strings.HasPrefix(x.Name, "box:") {
		if t, ok := boxTypes[x.Name]; ok {
			return typeID(t)
		}
	}
	if x == INil {
		return I(0)
	}
	return App("dyn", SInt, x)
}

// isType is the condition that interface value x holds dynamic type t.
func isType(x *Term, t types.Type) *Term {
	return Eq(dynType(x), typeID(t))
}

func (ex *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, k func(*State, Val)) {
	x := ex.term(st, fr, in.X)
	t := fr.ty(in.AssertedType)
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			ok := And(Neq(x, INil), App("implements:"+typeKey(t), SBool, dynType(x)))
			if x == INil {
				ok = False
			}
			if x.Op == OpApp && strings.HasPrefix(x.Name, "box:") {
				if bt, o := boxTypes[x.Name]; o && !hasTP(bt) {
					ok = Bool(types.Implements(bt, t.Underlying().(*types.Interface)))
				}
			}
			if in.CommaOk {
				k(st, Val{Tup: []Val{{T: Ite(ok, x, INil)}, {T: ok}}})
				return
			}
			ex.safety(st, "type-assertion", ok)
			k(st, Val{T: x})
			return
		}
	}
	c := isType(x, t)
	v := Unbox(x, t)
	if in.CommaOk {
		var fs []*Term
		ex.typeFacts(st, v, t, &fs)
		st.assume(Imp(c, And(fs...)))
		ex.branch(st, c, func(st *State) {
			k(st, Val{Tup: []Val{{T: v}, {T: True}}})
		}, func(st *State) {
			k(st, Val{Tup: []Val{{T: zeroOf(t)}, {T: False}}})
		})
		return
	}
	ex.safety(st, "type-assertion", c)
	st.assume(c)
	ex.addFacts(st, v, t)
	k(st, Val{T: v})
}
