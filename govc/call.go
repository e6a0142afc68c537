package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kont func(*State, Val)

func (ex *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, in *ssa.Call, k kont) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	var fnv Val
	if _, isB := c.Value.(*ssa.Builtin); !isB {
		fnv = ex.val(st, fr, c.Value)
	}
	var rt types.Type
	if in != nil {
		rt = in.Type()
	}
	ex.callSite = in
	ex.callWith(st, fr, c, fnv, args, rt, k)
}

func sigResults(sig *types.Signature, ts tsubst) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, substType(sig.Results().At(i).Type(), ts))
	}
	return out
}

func tupVal(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return Val{Tup: vs}
}

// callWith performs a call whose operands have been evaluated.
func (ex *Exec) callWith(st *State, fr *Frame, c *ssa.CallCommon, fnv Val, args []Val, _ types.Type, k kont) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var ats []types.Type
		for _, a := range c.Args {
			ats = append(ats, fr.ty(a.Type()))
		}
		ex.builtin(st, fr, b.Name(), c, args, ats, k)
		return
	}
	var ats []types.Type
	for _, a := range c.Args {
		ats = append(ats, fr.ty(a.Type()))
	}
	sig := c.Signature()
	if c.IsInvoke() {
		ex.invoke(st, fr, fnv, fr.ty(c.Value.Type()), c.Method, args, ats, k)
		return
	}
	if sc := c.StaticCallee(); sc != nil && sc.Synthetic == "" || sc != nil && sc.Origin() != nil {
		if _, isClo := c.Value.(*ssa.MakeClosure); !isClo {
			f, ts := resolveFn(sc, fr.tsub)
			ex.callFn(st, fr, f, ts, args, ats, nil, k)
			return
		}
	}
	ex.callDyn(st, fr, fnv, fr.ty(sig).(*types.Signature), fr.ty(c.Value.Type()), c.Value, args, ats, k)
}

// callDyn calls a function value.
func (ex *Exec) callDyn(st *State, fr *Frame, fnv Val, sig *types.Signature, ft types.Type, src ssa.Value, args []Val, ats []types.Type, k kont) {
	t := fnv.T
	if t == nil {
		ex.fail("call of non-term function")
	}
	if t.Op == OpIte {
		site := ex.callSite
		ex.branch(st, t.Args[0], func(st *State) {
			ex.callSite = site
			ex.callDyn(st, fr, Val{T: t.Args[1]}, sig, ft, src, args, ats, k)
		}, func(st *State) {
			ex.callSite = site
			ex.callDyn(st, fr, Val{T: t.Args[2]}, sig, ft, src, args, ats, k)
		})
		return
	}
	if m, ok := t.meta.(*funcMeta); ok {
		fn := m.fn
		if strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "wrapper") {
			obj := fn.Object().(*types.Func)
			all := append(append([]Val{}, m.bindings...), args...)
			rt := obj.Type().(*types.Signature).Recv().Type()
			allT := append([]types.Type{}, ats...)
			if len(m.bindings) > 0 {
				allT = append([]types.Type{substType(fn.FreeVars[0].Type(), m.tsub)}, ats...)
			}
			if types.IsInterface(rt) {
				ex.invoke(st, fr, all[0], allT[0], obj, all[1:], allT[1:], k)
				return
			}
			target := ex.P.Prog.FuncValue(obj)
			if target == nil {
				ex.fail("no function for method value %s", obj)
			}
			f, ts := resolveFn(target, m.tsub)
			if ts == nil {
				ts = recvSubst(f, allT[0])
			}
			ex.callFn(st, fr, f, ts, all, allT, nil, k)
			return
		}
		ex.callFn(st, fr, fn, m.tsub, args, ats, m.bindings, k)
		return
	}
	ex.safety2(st, t)
	// unknown function value: find a contract by origin or by type
	var names []string
	if n := ex.traceKey(t); n != "" {
		names = append(names, n)
	}
	if src != nil {
		if p, ok := src.(*ssa.Parameter); ok {
			names = append(names, canonName(fr.fn)+"."+p.Name())
		}
		fv := src
		if u, ok := fv.(*ssa.UnOp); ok {
			fv = u.X
		}
		if p, ok := fv.(*ssa.FreeVar); ok {
			names = append(names, canonName(fr.fn)+"."+p.Name())
		}
	}
	if n, ok := types.Unalias(ft).(*types.Named); ok {
		names = append(names, originKey(n))
	}
	for _, n := range names {
		if C, ok := ex.S.C[n]; ok && (C.Kind == "field" || C.Kind == "functype" || C.Kind == "iface" || C.Kind == "extern") {
			var tn tsubst
			if nt, ok := types.Unalias(ft).(*types.Named); ok {
				tn = namedSubst(nt)
			}
			ex.applyContract(st, fr, C, n, []*Term{t}, args, ats, sigResults(sig, nil), tn, k)
			return
		}
	}
	ex.fail("call of unknown function value %s (looked for contracts %v)", trunc(t.String(), 80), names)
}

func (ex *Exec) safety2(st *State, f *Term) {
	if ex.C.Opts["nilfunc"] != "" {
		ex.safety(st, "nil-function-call", Neq(f, Nil))
	}
}

func namedSubst(n *types.Named) tsubst {
	if n.TypeArgs() == nil {
		return nil
	}
	ts := tsubst{}
	tps := n.Origin().TypeParams()
	for i := 0; i < tps.Len(); i++ {
		ts[tps.At(i)] = n.TypeArgs().At(i)
	}
	return ts
}

// recvSubst derives the substitution of a method's receiver type parameters from a receiver type.
func recvSubst(f *ssa.Function, rt types.Type) tsubst {
	r := f.Signature.Recv()
	if r == nil {
		return nil
	}
	strip := func(t types.Type) *types.Named {
		t = types.Unalias(t)
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		n, _ := t.(*types.Named)
		return n
	}
	d, a := strip(r.Type()), strip(rt)
	if d == nil || a == nil || d.TypeArgs() == nil || a.TypeArgs() == nil || d.TypeArgs().Len() != a.TypeArgs().Len() {
		return nil
	}
	ts := tsubst{}
	for i := 0; i < d.TypeArgs().Len(); i++ {
		if tp, ok := types.Unalias(d.TypeArgs().At(i)).(*types.TypeParam); ok {
			ts[tp] = a.TypeArgs().At(i)
		}
	}
	return ts
}

// traceKey names the field (pkg.Type.field), parameter or global a value was loaded from.
func (ex *Exec) traceKey(t *Term) string {
	for t.Op == OpSelect || t.Op == OpSel && t.Sort != SRef || t.Op == OpStore {
		t = t.Args[0]
	}
	if t.Op == OpSel {
		// field of a struct value S_pkg.Type
		n := t.Name
		if i := strings.LastIndex(n, "_"); i > 0 {
			n = n[:i]
		}
		n = strings.TrimPrefix(n, "S_")
		if i := strings.Index(n, "_"); i > 0 { // generic instance
			if j := strings.LastIndex(n, "."); j > i {
				n = n[:i] + n[j:]
			}
		}
		return n
	}
	if t.Op == OpConst {
		if m, ok := t.meta.(*mapMeta); ok && m.key != "" {
			kk := m.key
			kk = strings.SplitN(kk, "|", 2)[0]
			if i := strings.Index(kk, ":"); i >= 0 {
				kk = kk[i+1:]
			}
			return kk
		}
	}
	return ""
}

func (ex *Exec) inStack(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// callFn calls a known function.
func (ex *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, ts tsubst, args []Val, ats []types.Type, bind []Val, k kont) {
	name := canonName(fn)
	if C := ex.contractOf(fn, ats, ts); C != nil && C.Kind != "inline" && C.Opts["inline"] == "" && bind == nil {
		name := C.Name
		if fn == ex.fn && ex.C.Opts["norec"] != "" {
			ex.fail("recursive call")
		}
		var tn = ts
		if tn == nil {
			tn = tsubst{}
		}
		ex.used[name] = true
		ex.applyContractNamed(st, fr, C, fn, args, ats, sigResults(fn.Signature, tn), tn, k)
		return
	}
	inRepo := fn.Pkg != nil && ex.P.repo[fn.Pkg.Pkg] || fn.Parent() != nil
	if inRepo && len(fn.Blocks) > 0 {
		if ex.intrinsic(st, fr, name, fn, ts, args, ats, k) {
			return
		}
		if ex.inStack(fr, fn) {
			ex.fail("recursive function %s has no contract", name)
		}
		ex.inlined[name] = true
		savePos := ex.pos
		nf := ex.newFrame(fn, ts, fr, func(st *State, res []Val) {
			ex.pos = savePos
			k(st, tupVal(res))
		})
		ex.runBody(st, nf, args, bind)
		return
	}
	if ex.intrinsic(st, fr, name, fn, ts, args, ats, k) {
		return
	}
	ex.external(st, fr, name, fn.Signature, ts, args, ats, k)
}

func (ex *Exec) applyContractNamed(st *State, fr *Frame, C *Contract, fn *ssa.Function, args []Val, ats []types.Type, rts []types.Type, ts tsubst, k kont) {
	if len(C.Params) == 0 {
		for _, p := range fn.Params {
			C.Params = append(C.Params, p.Name())
		}
	}
	ex.applyContract(st, fr, C, C.Name, nil, args, ats, rts, ts, k)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "fmt": true, "math": true, "unicode": true, "bytes": true, "time": true, "context": true, "log": true, "os": true, "rand": true, "runtime": true, "big": true, "hash": true, "utf8": true, "filepath": true, "signal": true, "uuid": true, "json": true, "jsoniter": true, "tls": true, "net": true, "v3": true, "config": true, "aws": true, "kafka": true, "reflect": true, "debug": true, "unsafe": true, "sync": true, "atomic": true, "binary": true, "btree": true, "kgo": true, "kmsg": true, "kadm": true, "kversion": true, "sasl": true, "sort": true}

// external applies the default assumption on functions outside the repository.
func (ex *Exec) external(st *State, fr *Frame, name string, sig *types.Signature, ts tsubst, args []Val, ats []types.Type, k kont) {
	pkg := strings.SplitN(name, ".", 2)[0]
	switch pkg {
	case "kgo", "btree", "sync", "atomic", "sort", "kadm":
		ex.fail("external function %s has no contract", name)
	}
	for i, a := range args {
		if a.Loc != nil {
			ex.store(st, a.Loc, Val{T: ex.freshVal(st, "out", a.Loc.Ty)})
		}
		if a.T != nil {
			if m, ok := a.T.meta.(*ifaceMeta); ok && m.v.Loc != nil {
				ex.store(st, m.v.Loc, Val{T: ex.freshVal(st, "out", m.v.Loc.Ty)})
			}
		}
		_ = i
	}
	ex.assumed["external "+name+": arbitrary result, no effect on repository state"] = true
	var res []Val
	for i, rt := range sigResults(sig, ts) {
		_ = i
		res = append(res, Val{T: ex.freshVal(st, "ext_"+sig.String()[:0]+shortName(name), rt)})
	}
	k(st, tupVal(res))
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (ex *Exec) advance(st *State) {
	n := Fresh("now", SInt)
	st.assume(Le(st.now, n))
	st.now = n
}

// applyContract replaces a call by the callee's contract.
func (ex *Exec) applyContract(st *State, fr *Frame, C *Contract, name string, self []*Term, args []Val, ats []types.Type, rts []types.Type, ts tsubst, k kont) {
	ex.used[C.Name] = true
	if C.Kind != "func" || C.NoVerify {
		ex.assumed["contract of "+C.Kind+" "+C.Name+" (not verified: outside the repository or supplied by the user)"] = true
	}
	ex.evState = st
	ctx := &specCtx{ex: ex, st: st, vars: map[string]SV{}, tsub: orSub(ts, ex.topSub, C), pkg: C.Pkg, file: C.File}
	for i, a := range args {
		n := fmt.Sprintf("arg%d", i)
		sv := SV{V: a, Ty: goType(ats[i])}
		ctx.vars[n] = sv
		if i < len(C.Params) {
			ctx.vars[C.Params[i]] = sv
		}
	}
	if len(self) > 0 {
		ctx.vars["self"] = SV{V: Val{T: self[0]}, Ty: STy{Sort: SRef}}
	}
	for _, cs := range ex.C.Calls {
		if cs.Name == C.Name || C.Pkg+"."+cs.Name == C.Name {
			cc := ex.ctxFor(st, fr)
			for i := range args {
				cc.vars[fmt.Sprintf("arg%d", i)] = ctx.vars[fmt.Sprintf("arg%d", i)]
			}
			for n, e := range cs.Args {
				ctx.vars[n] = cc.eval(e)
			}
		}
	}
	for _, b := range ex.C.Befores {
		if (b.F == C.Name || C.Pkg+"."+b.F == C.Name) && ex.dry == 0 {
			cc := ex.ctxFor(st, fr)
			for i := range args {
				cc.vars[fmt.Sprintf("arg%d", i)] = ctx.vars[fmt.Sprintf("arg%d", i)]
			}
			nm := b.C.Name
			if nm == "" {
				nm = fmt.Sprintf("(%s:%d)", b.C.File, b.C.Line)
			}
			ex.oblige(st, "before "+b.F, nm, b.C.Tags, cc.evalBool(b.C.E))
		}
	}
	for _, l := range C.Logicals {
		if _, ok := ctx.vars[l.Name]; !ok {
			if len(C.Req) > 0 {
				ex.fail("call of %s needs a value for logical %s", C.Name, l.Name)
			}
		}
	}
	old := st.snap()
	ctx.old = old
	for _, l := range C.Lets {
		ctx.vars[l.Name] = ctx.eval(l.E)
	}
	for _, c := range C.Chooses {
		if _, ok := ctx.vars[c.V.Name]; ok {
			ex.oblige(st, "precondition", "choice of "+C.Name+": "+c.V.Name, C.Tags, ctx.evalBool(c.E))
			continue
		}
		ty := ctx.resolveTy(c.V.Ty)
		ctx.vars[c.V.Name] = SV{V: Val{T: Fresh("choose_"+c.V.Name, ty.sort())}, Ty: ty}
		st.assume(ctx.evalBool(c.E))
	}
	for _, r := range C.Req {
		g := ctx.evalBool(r.E)
		nm := "requires of " + C.Name
		if r.Name != "" {
			nm += ": " + r.Name
		} else {
			nm += fmt.Sprintf(" (%s:%d)", r.File, r.Line)
		}
		if ex.dry == 0 {
			ex.oblige(st, "precondition", nm, r.Tags, g)
		}
		st.assume(g)
	}
	if C.Atomic != nil {
		first := ex.atomicOld && st.lockOld == nil && ex.dry == 0
		if first {
			ex.frameCheck(st, ex.entry, ex.entryMods, false)
		}
		for _, a := range C.Atomic {
			ex.interfere(st, ctx.muRef(a), args, ats)
		}
		if ex.atomicOld && st.lockOld == nil {
			ex.snapLock(st)
		}
		old = st.snap()
		ctx.old = old
	}
	locs := ctx.modLocs(C.Mods)
	if C.Opts["noalloc"] == "" {
		ex.advance(st)
	}
	ex.havocLocs(st, locs)
	var res []Val
	for i, rt := range rts {
		n := fmt.Sprintf("r%d", i)
		if i < len(C.Results) {
			n = C.Results[i]
		}
		v := Val{T: ex.freshVal(st, n, rt)}
		if C.Opts["det"] != "" {
			var ta []*Term
			for _, a := range args {
				if a.T != nil {
					ta = append(ta, a.T)
				}
			}
			v = Val{T: App("det:"+C.Name+":"+fmt.Sprint(i)+":"+sortOf(rt).Name, sortOf(rt), ta...)}
			ex.addFacts(st, v.T, rt)
		}
		res = append(res, v)
		sv := SV{V: v, Ty: goType(rt)}
		ctx.vars[fmt.Sprintf("res%d", i)] = sv
		if i < len(C.Results) {
			ctx.vars[C.Results[i]] = sv
		}
		if len(rts) == 1 {
			ctx.vars["result"] = sv
		}
	}
	ctx.st = st
	if ln, ok := C.Opts["log"]; ok || C.Kind == "field" || C.Kind == "functype" || C.Kind == "iface" {
		if C.Opts["nolog"] == "" {
			if ln == "" || ln == "1" {
				ln = C.Name
			}
			ex.logEvent(st, ln, args, ats, res, rts)
		}
	}
	for _, e := range C.Ens {
		st.assume(ctx.evalBool(e.E))
	}
	if ex.dry == 0 && !ex.feasible(st, True) {
		// contract makes path infeasible
	}
	if C.Iter != "" {
		ex.iterate(st, fr, C, ctx, args, ats, func(st *State) { k(st, tupVal(res)) })
		return
	}
	k(st, tupVal(res))
}

// ---- event logs ----
func (ex *Exec) clock(st *State) *Term {
	t := ex.get(st, "G:$clock", SInt)
	ex.set(st, "G:$clock", nil, Add(t, I(1)))
	return t
}

func (ex *Exec) logEvent(st *State, name string, args []Val, ats []types.Type, res []Val, rts []types.Type) {
	base := "LOG:" + name
	n := ex.get(st, base+":n", SInt)
	put := func(suffix string, v *Term) {
		key := base + ":" + suffix
		key2 := key
		a := ex.get(st, key2, SArr(SInt, v.Sort))
		ex.set(st, key2, nil, Store(a, n, v))
	}
	for i, a := range args {
		if a.T != nil {
			put(fmt.Sprintf("a%d", i), a.T)
		}
	}
	for i, r := range res {
		if r.T != nil {
			put(fmt.Sprintf("r%d", i), r.T)
		}
	}
	put("t", ex.clock(st))
	ex.set(st, base+":n", nil, Add(n, I(1)))
}

// ---- goroutines ----
func (ex *Exec) doGo(st *State, fr *Frame, in *ssa.Go) {
	c := &in.Call
	var args []Val
	var ats []types.Type
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
		ats = append(ats, fr.ty(a.Type()))
	}
	name := "?"
	var bind []Val
	var fn *ssa.Function
	var ts tsubst
	if c.IsInvoke() {
		name = originKey(fr.ty(c.Value.Type())) + "." + c.Method.Name()
		args = append([]Val{ex.val(st, fr, c.Value)}, args...)
		ats = append([]types.Type{fr.ty(c.Value.Type())}, ats...)
	} else if sc := c.StaticCallee(); sc != nil && sc.Synthetic == "" {
		fn, ts = resolveFn(sc, fr.tsub)
		name = canonName(fn)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, ex.val(st, fr, b))
			}
		}
	} else {
		v := ex.val(st, fr, c.Value)
		if m, ok := v.T.meta.(*funcMeta); ok {
			fn, ts = m.fn, m.tsub
			name = canonName(fn)
			bind = m.bindings
			if strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
				name = typeFuncName(fn.Object().(*types.Func))
				args = append(append([]Val{}, bind...), args...)
				ats = append([]types.Type{substType(fn.FreeVars[0].Type(), m.tsub)}, ats...)
				bind = nil
			}
		} else {
			name = "dyn"
			args = append([]Val{v}, args...)
			ats = append([]types.Type{fr.ty(c.Value.Type())}, ats...)
		}
	}
	for i, b := range bind {
		if b.Loc != nil && b.Loc.Kind == LCell && fn != nil && writesFree(fn, fn.FreeVars[i]) {
			if st.esc == nil {
				st.esc = map[int]bool{}
			}
			st.esc[b.Loc.Cell] = true
		}
	}
	if C, ok := ex.S.C[name]; ok && len(C.Req) > 0 && C.Opts["spawned"] != "" {
		ex.assumed["the preconditions of "+name+" are assumed where it is started as a goroutine"] = true
	} else if ok && len(C.Req) > 0 && fn != nil && bind == nil {
		if len(C.Params) == 0 {
			for _, p := range fn.Params {
				C.Params = append(C.Params, p.Name())
			}
		}
		ctx := &specCtx{ex: ex, st: st, old: st, vars: map[string]SV{}, tsub: ts, pkg: C.Pkg, file: C.File}
		for i, a := range args {
			if i < len(C.Params) {
				ctx.vars[C.Params[i]] = SV{V: a, Ty: goType(ats[i])}
			}
		}
		for _, l := range C.Lets {
			ctx.vars[l.Name] = ctx.eval(l.E)
		}
		for _, r := range C.Req {
			for i, t := range conjuncts(ctx.evalBool(r.E)) {
				ex.oblige(st, "precondition", fmt.Sprintf("requires of go %s (%s %d)", C.Name, r.Name, i), r.Tags, t)
			}
		}
	}
	// closure bindings are logged as leading arguments (current values)
	var la []Val
	var lt []types.Type
	for i, b := range bind {
		if b.Loc != nil {
			v := ex.load(st, b.Loc)
			la = append(la, v)
			lt = append(lt, b.Loc.Ty)
		} else {
			la = append(la, b)
			lt = append(lt, fn.FreeVars[i].Type())
		}
	}
	for _, b := range ex.C.Befores {
		if (b.F == "go:"+name || ex.C.Pkg != "" && b.F == "go:"+ex.C.Pkg+"."+name) && ex.dry == 0 {
			cc := ex.ctxFor(st, fr)
			for i, a := range args {
				cc.vars[fmt.Sprintf("arg%d", i)] = SV{V: a, Ty: goType(ats[i])}
			}
			nm := b.C.Name
			if nm == "" {
				nm = fmt.Sprintf("(%s:%d)", b.C.File, b.C.Line)
			}
			ex.oblige(st, "before "+b.F, nm, b.C.Tags, cc.evalBool(b.C.E))
		}
	}
	ex.logEvent(st, "go:"+name, append(la, args...), append(lt, ats...), nil, nil)
}

func writesFree(fn *ssa.Function, fv *ssa.FreeVar) bool {
	refs := fv.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == fv && writesFree(r.Fn.(*ssa.Function), r.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// ---- interface method calls ----
func (ex *Exec) invoke(st *State, fr *Frame, recv Val, it types.Type, m *types.Func, args []Val, ats []types.Type, k kont) {
	x := recv.T
	if x == nil {
		ex.fail("invoke on non-term")
	}
	if x.Op == OpIte {
		ex.branch(st, x.Args[0], func(st *State) { ex.invoke(st, fr, Val{T: x.Args[1]}, it, m, args, ats, k) },
			func(st *State) { ex.invoke(st, fr, Val{T: x.Args[2]}, it, m, args, ats, k) })
		return
	}
	if x.Op == OpApp && strings.HasPrefix(x.Name, "box:") {
		if t, ok := boxTypes[x.Name]; ok {
			if f := ex.lookupMethod(t, m); f != nil {
				fo, ts := resolveFn(f, nil)
				if ts == nil {
					ts = recvSubst(fo, t)
				}
				all := append([]Val{{T: x.Args[0]}}, args...)
				allT := append([]types.Type{t}, ats...)
				ex.callFn(st, fr, fo, ts, all, allT, nil, k)
				return
			}
		}
	}
	sig := m.Type().(*types.Signature)
	var names []string
	if n := ex.traceKey(x); n != "" {
		names = append(names, n+"."+m.Name())
	}
	names = append(names, originKey(it)+"."+m.Name())
	if r := sig.Recv(); r != nil {
		names = append(names, typeFuncName(m))
	}
	for _, n := range names {
		if C, ok := ex.S.C[n]; ok {
			var ts tsubst
			if nt, ok := types.Unalias(it).(*types.Named); ok {
				ts = namedSubst(nt)
			}
			all := append([]Val{recv}, args...)
			allT := append([]types.Type{it}, ats...)
			ex.applyContract(st, fr, C, n, nil, all, allT, sigResults(sig, ts), ts, k)
			return
		}
	}
	if m.Name() == "Error" && sig.Params().Len() == 0 {
		k(st, Val{T: App("errtext", SStr, x)})
		return
	}
	p := ""
	if m.Pkg() != nil {
		p = m.Pkg().Name()
	}
	if p != "" && !ex.isRepoName(p) && p != "kgo" {
		var ts tsubst
		ex.external(st, fr, typeFuncName(m), sig, ts, args, ats, k)
		return
	}
	ex.fail("interface call %s has no contract", names)
}

func (ex *Exec) isRepoName(p string) bool { _, ok := ex.P.Pkgs[p]; return ok }

func (ex *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if hasTPArg(t) {
		// generic receiver: find the origin method by name
		tt := types.Unalias(t)
		if p, ok := tt.(*types.Pointer); ok {
			tt = types.Unalias(p.Elem())
		}
		if n, ok := tt.(*types.Named); ok {
			for i := 0; i < n.Origin().NumMethods(); i++ {
				if n.Origin().Method(i).Name() == m.Name() {
					return ex.P.Prog.FuncValue(n.Origin().Method(i))
				}
			}
		}
		return nil
	}
	ms := ex.P.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	obj := sel.Obj().(*types.Func)
	if !isRepoPkg(obj.Pkg()) {
		return nil
	}
	if o := obj.Origin(); o != nil {
		obj = o
	}
	f := ex.P.Prog.FuncValue(obj)
	if f == nil || len(sel.Index()) > 1 {
		return nil
	}
	// pointer/value receiver adaptation is not modelled
	_, rp := types.Unalias(f.Signature.Recv().Type()).(*types.Pointer)
	_, tp := types.Unalias(t).(*types.Pointer)
	if rp != tp {
		return nil
	}
	return f
}

func hasTPArg(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	return ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0
}

// ---- builtins ----
func (ex *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Val, ats []types.Type, k kont) {
	switch name {
	case "len":
		k(st, Val{T: ex.lenOf(st, args[0].T, ats[0])})
	case "cap":
		switch u := under(ats[0]).(type) {
		case *types.Slice:
			k(st, Val{T: SlCap(args[0].T)})
		case *types.Chan:
			t := App("chancap", SInt, args[0].T)
			st.assume(And(Le(I(0), t), Le(t, I(1<<48))))
			k(st, Val{T: t})
		case *types.Array:
			k(st, Val{T: I(u.Len())})
		default:
			ex.fail("cap of %s", ats[0])
		}
	case "append":
		k(st, Val{T: ex.appendSlice(st, args[0].T, under(ats[0]).(*types.Slice).Elem(), args[1].T, ats[1], c)})
	case "copy":
		k(st, Val{T: ex.copySlice(st, args[0].T, args[1].T, under(ats[0]).(*types.Slice).Elem(), ats[1])})
	case "delete":
		ex.mapDelete(st, args[0].T, under(ats[0]).(*types.Map), args[1].T)
		k(st, Val{})
	case "close":
		ex.chanClose(st, args[0].T, chanElem(ats[0]))
		k(st, Val{})
	case "print", "println":
		k(st, Val{})
	case "ssa:wrapnilchk":
		k(st, args[0])
	case "min", "max":
		x, y := args[0].T, args[1].T
		if name == "min" {
			k(st, Val{T: Ite(Lt(x, y), x, y)})
		} else {
			k(st, Val{T: Ite(Lt(x, y), y, x)})
		}
	default:
		ex.fail("builtin %s", name)
	}
}

func (ex *Exec) lenOf(st *State, x *Term, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Slice:
		return SlLen(x)
	case *types.Basic:
		l := App("slen", SInt, x)
		st.assume(And(Le(I(0), l), Le(l, I(1<<48))))
		if _, lit := x.meta.(*strMeta); !lit {
			st.assume(Imp(Eq(l, I(0)), Eq(x, StrLit(""))))
		}
		return l
	case *types.Array:
		return I(u.Len())
	case *types.Pointer:
		return I(under(u.Elem()).(*types.Array).Len())
	case *types.Map:
		return ex.mapLen(st, x, u)
	case *types.Chan:
		if ex.isPrecise(x) {
			return Sub(Select(ex.get(st, chKey("sn", u.Elem()), SArr(SRef, SInt)), x), Select(ex.get(st, chKey("rn", u.Elem()), SArr(SRef, SInt)), x))
		}
		v := Fresh("chanlen", SInt)
		st.assume(And(Le(I(0), v), Le(v, I(1<<48))))
		return v
	}
	ex.fail("len of %s", t)
	return nil
}

// appendSlice: because offsets of a reallocated array are unobservable, the new array keeps the old offset.
func (ex *Exec) appendSlice(st *State, s *Term, et types.Type, src *Term, srcT types.Type, c *ssa.CallCommon) *Term {
	var srcArr, srcOff, srcLen *Term
	if src.Sort == SStr {
		srcArr, srcOff, srcLen = App("schars", SByteArr, src), I(0), App("slen", SInt, src)
		ex.byteCharAxiom()
	} else {
		srcOff, srcLen = SlOff(src), SlLen(src)
	}
	if srcLen == I(0) {
		return s
	}
	newLen := Add(SlLen(s), srcLen)
	fits := Le(newLen, SlCap(s))
	r := ex.allocArr(st, "arr")
	arr := Ite(fits, SlArr(s), r)
	if s == NilSlice || s.Op == OpMk && SlArr(s) == Nil {
		arr = r
		fits = False
	}
	off := SlOff(s)
	cp := Fresh("cap", SInt)
	st.assume(And(Le(newLen, cp), Le(cp, I(1<<48))))
	newCap := Ite(fits, SlCap(s), cp)
	if ex.elemIsRef(et) {
		ex.appendRefs(st, s, et, src, arr, off, newLen)
		return SlMk(arr, off, newLen, newCap)
	}
	k, m := ex.elemMap(st, et)
	a0 := Select(m, SlArr(s))
	if srcArr == nil {
		srcArr = Select(m, SlArr(src))
	}
	at := Add(off, SlLen(s))
	var a1 *Term
	if srcLen.Op == OpInt && srcLen.Int.Int64() <= 8 {
		a1 = a0
		for i := int64(0); i < srcLen.Int.Int64(); i++ {
			a1 = Store(a1, Add(at, I(i)), Select(srcArr, Add(srcOff, I(i))))
		}
	} else {
		a1 = ex.blit(st, a0, at, srcArr, srcOff, srcLen)
	}
	ex.set(st, k, arr, Store(m, arr, a1))
	return SlMk(arr, off, newLen, newCap)
}

// blit returns array dst with dst[at..at+n) replaced by src[so..so+n).
func (ex *Exec) blit(st *State, dst, at, src, so, n *Term) *Term {
	a := Fresh("arrv", dst.Sort)
	i := BVar("i", SInt)
	in := And(Le(at, i), Lt(i, Add(at, n)))
	st.assume(Forall([]*Term{i}, Eq(Select(a, i), Ite(in, Select(src, Add(Sub(i, at), so)), Select(dst, i))), []*Term{Select(a, i)}))
	// also usable from the source side
	j := BVar("j", SInt)
	sj := Select(src, Add(so, j))
	if src.Op != OpConstArr && !(sj.Op != OpSelect) {
		st.assume(Forall([]*Term{j}, Imp(And(Le(I(0), j), Lt(j, n)), Eq(Select(a, Add(at, j)), sj)), []*Term{sj}))
	}
	return a
}

func (ex *Exec) appendRefs(st *State, s *Term, et types.Type, src *Term, arr, off, newLen *Term) {
	sl, ok := structOf(et)
	if !ok {
		ex.fail("elemref of %s", et)
	}
	for i := 0; i < sl.NumFields(); i++ {
		ft := sl.Field(i).Type()
		if subObject(ft) {
			continue
		}
		key := fieldKey(et, sl, i)
		m := ex.get(st, key, SArr(SRef, sortOf(ft)))
		n := Fresh("hv", m.Sort)
		n.meta = &mapMeta{birth: st.now, key: key}
		x := BVar("x", SRef)
		idx := App("elemidx", SInt, x)
		isNew := And(Eq(App("elemarr", SRef, x), arr), Eq(App("kind", SInt, x), I(-7)))
		lo := Add(off, SlLen(s))
		old := Select(m, elemRefOf(SlArr(s), idx))
		nw := Select(m, elemRefOf(SlArr(src), Add(Sub(idx, lo), SlOff(src))))
		st.assume(Forall([]*Term{x}, Eq(Select(n, x), Ite(isNew, Ite(And(Le(lo, idx), Lt(idx, Add(off, newLen))), nw, old), Select(m, x))), []*Term{Select(n, x)}))
		ex.set(st, key, nil, n)
	}
}

func (ex *Exec) copySlice(st *State, d, s *Term, et types.Type, srcT types.Type) *Term {
	var srcArr, so, sl *Term
	k, m := ex.elemMap(st, et)
	if ex.elemIsRef(et) {
		ex.fail("copy of object elements")
	}
	if s.Sort == SStr {
		srcArr, so, sl = App("schars", SByteArr, s), I(0), App("slen", SInt, s)
		ex.byteCharAxiom()
	} else {
		srcArr, so, sl = Select(m, SlArr(s)), SlOff(s), SlLen(s)
	}
	n := Ite(Lt(sl, SlLen(d)), sl, SlLen(d))
	a := ex.blit(st, Select(m, SlArr(d)), SlOff(d), srcArr, so, n)
	ex.set(st, k, SlArr(d), Store(m, SlArr(d), a))
	return n
}

// ---- maps ----
func mapKeys(t *types.Map) (dom, val, ln string) {
	b := "M:" + typeKey(t.Key()) + "," + typeKey(t.Elem())
	return b + ":dom", b + ":val", b + ":len"
}

func (ex *Exec) mapParts(st *State, m *Term, t *types.Map) (dom, val, ln *Term) {
	dk, vk, lk := mapKeys(t)
	ks, vs := sortOf(t.Key()), sortOf(t.Elem())
	dom = Select(ex.get(st, dk, SArr(SRef, SArr(ks, SBool))), m)
	val = Select(ex.get(st, vk, SArr(SRef, SArr(ks, vs))), m)
	ln = Select(ex.get(st, lk, SArr(SRef, SInt)), m)
	return
}
func (ex *Exec) mapPut(st *State, m *Term, t *types.Map, dom, val, ln *Term) {
	dk, vk, lk := mapKeys(t)
	if dom != nil {
		ex.set(st, dk, m, Store(ex.get(st, dk, SArr(SRef, dom.Sort)), m, dom))
	}
	if val != nil {
		ex.set(st, vk, m, Store(ex.get(st, vk, SArr(SRef, val.Sort)), m, val))
	}
	if ln != nil {
		ex.set(st, lk, m, Store(ex.get(st, lk, SArr(SRef, SInt)), m, ln))
	}
}
func (ex *Exec) initMap(st *State, m *Term, t *types.Map) {
	ks, vs := sortOf(t.Key()), sortOf(t.Elem())
	ex.mapPut(st, m, t, ConstArr(SArr(ks, SBool), False), ConstArr(SArr(ks, vs), zeroOf(t.Elem())), I(0))
}

func mapDomOf(dom, m, k *Term) *Term { return And(Neq(m, Nil), Select(dom, k)) }

func (ex *Exec) mapLen(st *State, m *Term, t *types.Map) *Term {
	_, _, ln := ex.mapParts(st, m, t)
	if m == Nil {
		return I(0)
	}
	st.assume(And(Le(I(0), ln), Le(ln, I(1<<48))))
	// len == 0 means empty domain
	dom, _, _ := ex.mapParts(st, m, t)
	kk := BVar("k", sortOf(t.Key()))
	d := Select(dom, kk)
	if d.Op == OpSelect || d.Op == OpApp {
		st.assume(Forall([]*Term{kk}, Imp(d, Ge(ln, I(1))), []*Term{d}))
	}
	if m.Op == OpConst {
		if _, ok := m.meta.(distinctKind); ok {
			return ln
		}
	}
	return Ite(Eq(m, Nil), I(0), ln)
}
func (ex *Exec) mapSet(st *State, m *Term, t *types.Map, k, v *Term) {
	dom, val, ln := ex.mapParts(st, m, t)
	has := Select(dom, k)
	ex.mapPut(st, m, t, Store(dom, k, True), Store(val, k, v), Add(ln, Ite(has, I(0), I(1))))
}
func (ex *Exec) mapDelete(st *State, m *Term, t *types.Map, k *Term) {
	dom, _, ln := ex.mapParts(st, m, t)
	has := Select(dom, k)
	// deleting from a nil map is a no-op; the value array is left as is (only read under dom)
	ex.mapPut(st, m, t, Store(dom, k, False), nil, Sub(ln, Ite(has, I(1), I(0))))
	st.assume(Imp(has, Ge(ln, I(1))))
}

func (ex *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) Val {
	x := ex.term(st, fr, in.X)
	k := ex.term(st, fr, in.Index)
	xt := fr.ty(in.X.Type())
	switch u := under(xt).(type) {
	case *types.Map:
		dom, val, ln := ex.mapParts(st, x, u)
		has := mapDomOf(dom, x, k)
		if m, ok := x.meta.(distinctKind); ok && m != nil {
			has = Select(dom, k)
		}
		raw := Select(val, k)
		var fs []*Term
		ex.typeFacts(st, raw, u.Elem(), &fs)
		st.assume(Imp(has, And(fs...)))
		st.assume(Imp(has, Ge(ln, I(1))))
		v := Ite(has, raw, zeroOf(u.Elem()))
		if in.CommaOk {
			return Val{Tup: []Val{{T: v}, {T: has}}}
		}
		return Val{T: v}
	case *types.Basic:
		ex.safety(st, "index-in-range", And(Le(I(0), k), Lt(k, App("slen", SInt, x))))
		c := Select(App("schars", SByteArr, x), k)
		st.assume(And(Le(I(0), c), Le(c, I(255))))
		return Val{T: c}
	}
	ex.fail("lookup in %s", xt)
	return Val{}
}

func (ex *Exec) doRange(st *State, fr *Frame, in *ssa.Range) Val {
	x := ex.term(st, fr, in.X)
	mt, ok := under(fr.ty(in.X.Type())).(*types.Map)
	if !ok {
		ex.fail("range over %s", in.X.Type())
	}
	key := fmt.Sprintf("IT:%d:%s", fr.id, in.Name())
	dom, _, _ := ex.mapParts(st, x, mt)
	ex.set(st, key, nil, ConstArr(SArr(sortOf(mt.Key()), SBool), False))
	ex.set(st, key+":n", nil, I(0))
	return Val{It: &rangeIter{m: x, mt: mt, visited: dom, key: key}}
}

func (ex *Exec) doNext(st *State, fr *Frame, in *ssa.Next, k kont) {
	it := ex.val(st, fr, in.Iter).It
	if it == nil || in.IsString {
		ex.fail("unsupported iterator")
	}
	ks := sortOf(it.mt.Key())
	vis := ex.get(st, it.key, SArr(ks, SBool))
	n := ex.get(st, it.key+":n", SInt)
	dom, val, ln := ex.mapParts(st, it.m, it.mt)
	unchanged := dom == it.visited
	s2 := st.clone()
	// another key
	kk := ex.freshVal(st, "key", it.mt.Key())
	st.assume(Neq(it.m, Nil))
	st.assume(Select(dom, kk))
	st.assume(Not(Select(vis, kk)))
	st.assume(Ge(n, I(0)))
	if unchanged {
		st.assume(Lt(n, ln))
		st.assume(Le(ln, I(1<<48)))
	}
	v := Select(val, kk)
	ex.addFacts(st, v, it.mt.Elem())
	ex.set(st, it.key, nil, Store(vis, kk, True))
	ex.set(st, it.key+":n", nil, Add(n, I(1)))
	ex.npaths++
	if ex.npaths > maxPaths {
		ex.fail("too many paths")
	}
	if ex.feasible(st, Bool(true)) && ex.feasNow(st) {
		k(st, Val{Tup: []Val{{T: True}, {T: kk}, {T: v}}})
	}
	// exhausted
	b := BVar("k", ks)
	dm := Select(dom, b)
	s2.assume(Or(Eq(it.m, Nil), Forall([]*Term{b}, Imp(And(dm, Select(it.visited, b)), Select(vis, b)), []*Term{dm}, []*Term{Select(vis, b)})))
	if unchanged {
		s2.assume(Eq(n, Ite(Eq(it.m, Nil), I(0), ln)))
	}
	if ex.feasNow(s2) {
		k(s2, Val{Tup: []Val{{T: False}, {T: zeroOf(it.mt.Key())}, {T: zeroOf(it.mt.Elem())}}})
	}
}

func (ex *Exec) feasNow(st *State) bool {
	if ex.dry > 0 {
		return true
	}
	return ex.feas.feasible(st.pcTerms())
}

// orSub: the contract of a function without type parameters of its own may name those of the function under verification
func orSub(ts, top tsubst, C *Contract) tsubst {
	if len(ts) == 0 && C.Kind == "extern" {
		return top
	}
	return ts
}
