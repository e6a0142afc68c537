package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// STy is a specification type: a Go type, or an SMT array over such types, or a bare sort.
type STy struct {
	Go   types.Type
	Sort *Sort
	Idx  *STy
	Elem *STy
}

func goType(t types.Type) STy { return STy{Go: t} }
func (t STy) sort() *Sort {
	if t.Go != nil {
		return sortOf(t.Go)
	}
	return t.Sort
}

// SV is a specification value. Obj is set for struct values that live in the heap.
type SV struct {
	V   Val
	Obj *Term
	Ty  STy
}

type specCtx struct {
	ex    *Exec
	st    *State
	old   *State
	vars  map[string]SV
	tsub  tsubst
	pkg   string
	file  string
	fr    *Frame
	loop  *loopCtx
	line  int
	depth int
	iter  *iterCtx
}

func (c *specCtx) fail(f string, a ...any) {
	c.ex.fail("spec %s:%d: %s", c.file, c.line, fmt.Sprintf(f, a...))
}

var boolTy = STy{Go: types.Typ[types.Bool]}
var intTy = STy{Go: types.Typ[types.Int]}

func mkB(t *Term) SV { return SV{V: Val{T: t}, Ty: boolTy} }
func mkI(t *Term) SV { return SV{V: Val{T: t}, Ty: intTy} }

func (c *specCtx) term(v SV) *Term {
	if v.Obj != nil {
		return c.ex.loadRefQ(c.st, v.Obj, v.Ty.Go)
	}
	if v.V.T == nil {
		if v.V.Loc != nil {
			c.fail("address used as value")
		}
		c.fail("value has no term")
	}
	return v.V.T
}

// loadRefQ loads without adding facts when quantified.
func (ex *Exec) loadRefQ(st *State, r *Term, ty types.Type) *Term { return ex.loadRef(st, r, ty) }

func (c *specCtx) evalBool(e *Expr) *Term {
	v := c.eval(e)
	t := c.term(v)
	if t.Sort != SBool {
		c.line = e.Line
		c.fail("expected a boolean, got %s", t.Sort.Name)
	}
	return t
}

func (c *specCtx) with(st *State) *specCtx {
	n := *c
	n.st = st
	return &n
}

// lookupType finds a named type.
func (ex *Exec) lookupType(pkg, name string) types.Type {
	p := ex.P.Types[pkg]
	if p == nil {
		ex.fail("unknown package %s", pkg)
	}
	o := p.Scope().Lookup(name)
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	ex.fail("unknown type %s.%s", pkg, name)
	return nil
}

func basicType(n string) types.Type {
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	switch n {
	case "byte":
		return types.Typ[types.Uint8]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type().Underlying()
	case "rune":
		return types.Typ[types.Int32]
	}
	return nil
}

// resolveTy resolves a spec type expression.
func (c *specCtx) resolveTy(t *TypeX) STy {
	switch t.K {
	case "ptr":
		return goType(types.NewPointer(c.goTy(t.A)))
	case "slice":
		return goType(types.NewSlice(c.goTy(t.A)))
	case "map":
		return goType(types.NewMap(c.goTy(t.A), c.goTy(t.B)))
	case "chan":
		return goType(types.NewChan(types.SendRecv, c.goTy(t.A)))
	case "struct":
		return goType(types.NewStruct(nil, nil))
	case "arr":
		a, b := c.resolveTy(t.A), c.resolveTy(t.B)
		return STy{Sort: SArr(a.sort(), b.sort()), Idx: &a, Elem: &b}
	}
	switch t.S {
	case "ref":
		return STy{Sort: SRef}
	case "real":
		return STy{Sort: SReal}
	case "iface":
		return STy{Sort: SIface}
	}
	return goType(c.goTy(t))
}

func (c *specCtx) goTy(t *TypeX) types.Type {
	switch t.K {
	case "name":
	default:
		r := c.resolveTy(t)
		if r.Go == nil {
			c.fail("not a Go type: %s", t.S)
		}
		return r.Go
	}
	if i := strings.Index(t.S, "."); i >= 0 {
		r := c.ex.lookupType(t.S[:i], t.S[i+1:])
		return c.inst(r, t)
	}
	if b := basicType(t.S); b != nil {
		return b
	}
	// type parameter of the current function
	for tp, v := range c.tsub {
		if tp.Obj().Name() == t.S {
			return v
		}
	}
	if c.ex.fn != nil {
		if tp := fnTypeParam(c.ex.fn, t.S); tp != nil {
			return substType(tp, c.ex.topSub)
		}
	}
	if p := c.ex.P.Types[c.pkg]; p != nil {
		if tn, ok := p.Scope().Lookup(t.S).(*types.TypeName); ok {
			return c.inst(tn.Type(), t)
		}
	}
	c.fail("unknown type %s", t.S)
	return nil
}

func fnTypeParam(fn *ssa.Function, name string) *types.TypeParam {
	for f := fn; f != nil; f = f.Parent() {
		tps := f.TypeParams()
		for i := 0; i < tps.Len(); i++ {
			if tps.At(i).Obj().Name() == name {
				return tps.At(i)
			}
		}
	}
	return nil
}

func (c *specCtx) inst(t types.Type, x *TypeX) types.Type {
	if len(x.Args) == 0 {
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			// default: type parameters of the same name in scope
			var as []types.Type
			for i := 0; i < n.TypeParams().Len(); i++ {
				as = append(as, c.goTyParam(n.TypeParams().At(i).Obj().Name(), n.TypeParams().At(i)))
			}
			r, err := types.Instantiate(typesCtx, n, as, false)
			if err != nil {
				c.fail("%s", err)
			}
			return r
		}
		return t
	}
	var as []types.Type
	for _, a := range x.Args {
		as = append(as, c.goTy(a))
	}
	r, err := types.Instantiate(typesCtx, t, as, false)
	if err != nil {
		c.fail("%s", err)
	}
	return r
}

func (c *specCtx) goTyParam(name string, def *types.TypeParam) types.Type {
	for tp, v := range c.tsub {
		if tp.Obj().Name() == name {
			return v
		}
	}
	if c.ex.fn != nil {
		if tp := fnTypeParam(c.ex.fn, name); tp != nil {
			return substType(tp, c.ex.topSub)
		}
	}
	return def
}

// ghostKey is the heap key and sort of a ghost field for owner type t.
func (ex *Exec) ghostKey(g *GhostDecl, t types.Type) (string, *Sort, STy) {
	c := &specCtx{ex: ex, pkg: g.Pkg, vars: map[string]SV{}}
	suffix := ""
	if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
		c.tsub = namedSubst(n)
	}
	ty := c.resolveTy(g.Ty)
	s := ty.sort()
	if c.tsub != nil {
		suffix = "|" + s.Name
	}
	return "GF:" + g.Type + "." + g.Name + suffix, s, ty
}

// ---- evaluation ----

func (c *specCtx) eval(e *Expr) SV {
	if e.Line > 0 {
		c.line = e.Line
	}
	switch e.K {
	case "num":
		if strings.Contains(e.S, ".") {
			return SV{V: Val{T: RealLit(e.S)}, Ty: STy{Sort: SReal}}
		}
		n, _ := new(big.Int).SetString(e.S, 10)
		return mkI(IB(n))
	case "str":
		return SV{V: Val{T: StrLit(e.S)}, Ty: goType(types.Typ[types.String])}
	case "id":
		return c.ident(e.S)
	case "let":
		v := c.eval(e.A[0])
		n := *c
		n.vars = copyVars(c.vars)
		n.vars[e.S] = v
		return n.eval(e.A[1])
	case "ite":
		cond := c.evalBool(e.A[0])
		a, b := c.eval(e.A[1]), c.eval(e.A[2])
		ta, tb := c.term(a), c.term(b)
		if ta == Nil && tb.Sort != SRef {
			ta = nilOf(tb.Sort)
		}
		if tb == Nil && ta.Sort != SRef {
			tb = nilOf(ta.Sort)
		}
		ty := a.Ty
		if ty.Go == types.Typ[types.UntypedNil] {
			ty = b.Ty
		}
		return SV{V: Val{T: Ite(cond, ta, tb)}, Ty: ty}
	case "un":
		return c.unary(e)
	case "bin":
		return c.binary(e)
	case "sel":
		return c.selector(e)
	case "idx":
		return c.index(c.eval(e.A[0]), e.A[1])
	case "upd":
		a := c.eval(e.A[0])
		i := c.term(c.eval(e.A[1]))
		ta := c.term(a)
		v := c.coerce(c.eval(e.A[2]), ta.Sort.Elem)
		return SV{V: Val{T: Store(ta, i, v)}, Ty: a.Ty}
	case "lambda":
		return c.lambda(e)
	case "quant":
		return c.quant(e)
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s", e.K)
	return SV{}
}

func copyVars(m map[string]SV) map[string]SV {
	n := make(map[string]SV, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func nilOf(s *Sort) *Term {
	switch s {
	case SRef:
		return Nil
	case SIface:
		return INil
	case SSlice:
		return NilSlice
	}
	return nil
}

func (c *specCtx) coerce(v SV, s *Sort) *Term {
	t := c.term(v)
	if t.Sort == s {
		return t
	}
	if t == Nil {
		if n := nilOf(s); n != nil {
			return n
		}
	}
	if s == SIface && v.Ty.Go != nil {
		return Box(t, v.Ty.Go)
	}
	if s == SReal && t.Sort == SInt {
		return ToReal(t)
	}
	c.fail("sort mismatch: %s expected %s", t.Sort.Name, s.Name)
	return nil
}

func (c *specCtx) ident(n string) SV {
	if v, ok := c.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return mkB(True)
	case "false":
		return mkB(False)
	case "nil":
		return SV{V: Val{T: Nil}, Ty: goType(types.Typ[types.UntypedNil])}
	case "$clock":
		return mkI(c.ex.get(c.st, "G:$clock", SInt))
	}
	if v, ok := c.local(n); ok {
		return v
	}
	if g, ok := c.ex.S.GVars[n]; ok {
		cc := &specCtx{ex: c.ex, pkg: g.Pkg, tsub: c.tsub}
		ty := cc.resolveTy(g.Ty)
		return SV{V: Val{T: c.ex.get(c.st, "GV:"+n, ty.sort())}, Ty: ty}
	}
	if p := c.ex.P.Types[c.pkg]; p != nil {
		if v, ok := c.object(p, n); ok {
			return v
		}
	}
	c.fail("unknown name %s", n)
	return SV{}
}

func (c *specCtx) local(n string) (SV, bool) {
	if c.fr == nil {
		return SV{}, false
	}
	names := c.st.names
	find := func(lc *loopCtx) (SV, bool) {
		for _, ph := range lc.phis {
			if ph.Comment == n {
				return SV{V: c.st.env[envKey{lc.fr.id, ph}], Ty: goType(lc.fr.ty(ph.Type()))}, true
			}
		}
		return SV{}, false
	}
	fr := c.fr
	if c.loop != nil {
		names = c.loop.entry.names
		if v, ok := find(c.loop); ok {
			return v, true
		}
	}
	// enclosing loops
	for f := fr; f != nil; f = f.parent {
		var best *loopCtx
		for k, lc := range c.st.loops {
			if k.fr == f.id && (c.loop == nil || c.loop.iter != nil || lc.header != c.loop.header) {
				for _, ph := range lc.phis {
					if ph.Comment == n && (best == nil || best.header.Dominates(lc.header)) {
						if c.loop == nil || c.loop.fr != f || lc.header.Dominates(c.loop.header) {
							best = lc
						}
					}
				}
			}
		}
		if best != nil {
			return find(best)
		}
		if v, ok := names[nameKey{f.id, n}]; ok {
			if v.addr {
				return c.deref(v.v, v.ty), true
			}
			return SV{V: v.v, Ty: goType(v.ty)}, true
		}
		// allocated variables by comment
	}
	// declared local: unique loop variable of the declared type
	if c.loop != nil && c.loop.spec != nil {
		for _, l := range c.loop.spec.Locals {
			if l.Name == n {
				ty := c.resolveTy(l.Ty)
				var hit []SV
				for _, ph := range c.loop.phis {
					if ph.Comment == "rangeindex" {
						continue
					}
					t := c.loop.fr.ty(ph.Type())
					if types.Identical(t, ty.Go) {
						hit = append(hit, SV{V: c.st.env[envKey{c.loop.fr.id, ph}], Ty: goType(t)})
					}
				}
				if len(hit) == 1 {
					return hit[0], true
				}
				if len(hit) == 0 {
					seen := map[int]bool{}
					for k, v := range names {
						if k.fr == c.loop.fr.id && types.Identical(v.ty, ty.Go) {
							var sv SV
							if v.addr {
								sv = c.deref(v.v, v.ty)
							} else {
								sv = SV{V: v.v, Ty: goType(v.ty)}
							}
							if sv.V.T != nil && !seen[sv.V.T.ID] {
								seen[sv.V.T.ID] = true
								hit = append(hit, sv)
							}
						}
					}
					if len(hit) == 1 {
						return hit[0], true
					}
				}
			}
		}
	}
	return SV{}, false
}

func (c *specCtx) deref(v Val, t types.Type) SV {
	if v.Loc != nil {
		return SV{V: c.ex.load(c.st, v.Loc), Ty: goType(t)}
	}
	if _, ok := structOf(t); ok && !opaqueStruct(t) {
		return SV{Obj: v.T, Ty: goType(t)}
	}
	if a, ok := under(t).(*types.Array); ok {
		_, m := c.ex.elemMap(c.st, a.Elem())
		return SV{V: Val{T: Select(m, v.T)}, Ty: goType(t)}
	}
	return SV{V: Val{T: c.ex.loadRef(c.st, v.T, t)}, Ty: goType(t)}
}

func (c *specCtx) object(p *types.Package, n string) (SV, bool) {
	switch o := p.Scope().Lookup(n).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			i, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return SV{V: Val{T: IB(i)}, Ty: goType(o.Type())}, true
		case constant.String:
			return SV{V: Val{T: StrLit(constant.StringVal(o.Val()))}, Ty: goType(o.Type())}, true
		case constant.Bool:
			return mkB(Bool(constant.BoolVal(o.Val()))), true
		case constant.Float:
			f, _ := constant.Float64Val(o.Val())
			return SV{V: Val{T: RealLit(realText(f))}, Ty: goType(o.Type())}, true
		}
	case *types.Var:
		key := "G:" + p.Name() + "." + n
		if _, ok := structOf(o.Type()); ok && !opaqueStruct(o.Type()) {
			return SV{Obj: Const("glob:"+key, SRef), Ty: goType(o.Type())}, true
		}
		return SV{V: Val{T: c.ex.get(c.st, key, sortOf(o.Type()))}, Ty: goType(o.Type())}, true
	case *types.Func:
		if f, ok := c.ex.P.Funcs[p.Name()+"."+n]; ok {
			return SV{V: Val{T: c.ex.funcTerm(f, nil, nil, nil)}, Ty: goType(o.Type())}, true
		}
		if f := c.ex.P.Prog.FuncValue(o); f != nil {
			return SV{V: Val{T: c.ex.funcTerm(f, nil, nil, nil)}, Ty: goType(o.Type())}, true
		}
	}
	return SV{}, false
}

func (c *specCtx) unary(e *Expr) SV {
	v := c.eval(e.A[0])
	switch e.S {
	case "!":
		return mkB(Not(c.term(v)))
	case "-":
		return SV{V: Val{T: Neg(c.term(v))}, Ty: v.Ty}
	case "*":
		p, ok := under(v.Ty.Go).(*types.Pointer)
		if !ok {
			c.fail("dereference of non-pointer")
		}
		return c.deref(v.V, p.Elem())
	}
	c.fail("unary %s", e.S)
	return SV{}
}

func (c *specCtx) binary(e *Expr) SV {
	op := e.S
	switch op {
	case "==>":
		a := c.evalBool(e.A[0])
		if a == False {
			return mkB(True)
		}
		return mkB(Imp(a, c.evalBool(e.A[1])))
	case "<==>":
		return mkB(Eq(c.evalBool(e.A[0]), c.evalBool(e.A[1])))
	case "&&":
		a := c.evalBool(e.A[0])
		if a == False {
			return mkB(False)
		}
		return mkB(And(a, c.evalBool(e.A[1])))
	case "||":
		a := c.evalBool(e.A[0])
		if a == True {
			return mkB(True)
		}
		return mkB(Or(a, c.evalBool(e.A[1])))
	case "in":
		k := c.eval(e.A[0])
		return mkB(c.has(c.eval(e.A[1]), k))
	}
	a, b := c.eval(e.A[0]), c.eval(e.A[1])
	if op == "==" || op == "!=" {
		r := c.equal(a, b)
		if op == "!=" {
			r = Not(r)
		}
		return mkB(r)
	}
	x, y := c.term(a), c.term(b)
	if x.Sort == SReal || y.Sort == SReal {
		x, y = c.coerce(a, SReal), c.coerce(b, SReal)
	}
	if x.Sort == SStr {
		switch op {
		case "+":
			return SV{V: Val{T: c.ex.strcat(&State{}, x, y)}, Ty: a.Ty}
		case "<":
			return mkB(strLess(x, y))
		case "<=":
			return mkB(Not(strLess(y, x)))
		case ">":
			return mkB(strLess(y, x))
		case ">=":
			return mkB(Not(strLess(x, y)))
		}
	}
	if strings.HasPrefix(x.Sort.Name, "TP_") {
		switch op {
		case "<":
			return mkB(tpLess(x, y))
		case "<=":
			return mkB(Not(tpLess(y, x)))
		case ">":
			return mkB(tpLess(y, x))
		case ">=":
			return mkB(Not(tpLess(x, y)))
		}
	}
	ty := a.Ty
	switch op {
	case "+":
		if x.Sort == SStr {
			return SV{V: Val{T: c.ex.strcat(c.realState(), x, y)}, Ty: ty}
		}
		return SV{V: Val{T: Add(x, y)}, Ty: ty}
	case "-":
		return SV{V: Val{T: Sub(x, y)}, Ty: ty}
	case "*":
		return SV{V: Val{T: Mul(x, y)}, Ty: ty}
	case "/":
		if x.Sort == SReal {
			return SV{V: Val{T: RDiv(x, y)}, Ty: ty}
		}
		return SV{V: Val{T: EDiv(x, y)}, Ty: ty}
	case "%":
		return SV{V: Val{T: EMod(x, y)}, Ty: ty}
	case "<":
		return mkB(Lt(x, y))
	case "<=":
		return mkB(Le(x, y))
	case ">":
		return mkB(Gt(x, y))
	case ">=":
		return mkB(Ge(x, y))
	}
	c.fail("operator %s", op)
	return SV{}
}

func (c *specCtx) equal(a, b SV) *Term {
	// objects by value
	if a.V.Loc != nil && b.V.T == Nil || b.V.Loc != nil && a.V.T == Nil {
		return False
	}
	x, y := c.term(a), c.term(b)
	if x.Sort == SSlice && y == Nil {
		return Eq(SlArr(x), Nil)
	}
	if y.Sort == SSlice && x == Nil {
		return Eq(SlArr(y), Nil)
	}
	if x.Sort != y.Sort {
		if x == Nil {
			x = c.coerce(a, y.Sort)
		} else if y == Nil {
			y = c.coerce(b, x.Sort)
		} else if x.Sort == SIface {
			y = c.coerce(b, SIface)
		} else if y.Sort == SIface {
			x = c.coerce(a, SIface)
		} else if x.Sort == SReal {
			y = c.coerce(b, SReal)
		} else {
			x = c.coerce(a, y.Sort)
		}
	}
	return Eq(x, y)
}

func (c *specCtx) has(m, k SV) *Term {
	if m.Ty.Go != nil {
		if mt, ok := under(m.Ty.Go).(*types.Map); ok {
			mr := c.term(m)
			dom, _, _ := c.ex.mapParts(c.st, mr, mt)
			return mapDomOf(dom, mr, c.coerce(k, sortOf(mt.Key())))
		}
	}
	t := c.term(m)
	if t.Sort.Elem == SBool {
		return Select(t, c.coerce(k, t.Sort.Index))
	}
	c.fail("'in' needs a map or set")
	return nil
}

// address returns the object reference of a struct designator (pointer or heap struct value).
func (c *specCtx) objRef(v SV) (*Term, types.Type, bool) {
	if v.Obj != nil {
		return v.Obj, v.Ty.Go, true
	}
	if v.Ty.Go != nil {
		if p, ok := under(v.Ty.Go).(*types.Pointer); ok && v.V.T != nil {
			return v.V.T, p.Elem(), true
		}
	}
	return nil, nil, false
}

func (c *specCtx) selector(e *Expr) SV {
	if e.A[0].K == "id" {
		n := e.A[0].S
		if _, isVar := c.vars[n]; !isVar {
			if _, isLocal := c.local(n); !isLocal {
				if p, ok := c.ex.P.Types[n]; ok && c.ex.S.GVars[n] == nil {
					if v, ok := c.object(p, e.S); ok {
						return v
					}
				}
			}
		}
	}
	return c.field(c.eval(e.A[0]), e.S)
}

func (c *specCtx) field(v SV, name string) SV {
	if v.Ty.Go == nil {
		c.fail("selector .%s on ghost value", name)
	}
	t := v.Ty.Go
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	// ghost field
	if g, ok := c.ex.S.GFields[originKey(t)+"."+name]; ok {
		ref, _, ok := c.objRef(v)
		if !ok {
			c.fail("ghost field of a value")
		}
		key, s, ty := c.ex.ghostKey(g, t)
		return SV{V: Val{T: Select(c.ex.get(c.st, key, SArr(SRef, s)), ref)}, Ty: ty}
	}
	idx := fieldPath(t, name)
	if idx == nil {
		c.fail("no field %s in %s", name, typeKey(t))
	}
	cur := v
	for _, i := range idx {
		cur = c.fieldStep(cur, i)
	}
	return cur
}

func fieldPath(t types.Type, name string) []int {
	s, ok := structOf(t)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			ft := s.Field(i).Type()
			if p, ok := under(ft).(*types.Pointer); ok {
				ft = p.Elem()
			}
			if r := fieldPath(ft, name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

func (c *specCtx) fieldStep(v SV, i int) SV {
	if v.V.Loc != nil { // pointer to a local struct
		p := under(v.Ty.Go).(*types.Pointer)
		x := c.ex.fieldAddr(c.st, nil, v.V, p.Elem(), i)
		s, _ := structOf(p.Elem())
		return c.deref(x, s.Field(i).Type())
	}
	if ref, t, ok := c.objRef(v); ok {
		s, _ := structOf(t)
		ft := s.Field(i).Type()
		if subObject(ft) && !opaqueStruct(t) {
			return SV{Obj: subRef(t, s, i, ref), Ty: goType(ft)}
		}
		m := c.ex.get(c.st, fieldKey(t, s, i), SArr(SRef, sortOf(ft)))
		x := Select(m, ref)
		c.facts(x, ft)
		return SV{V: Val{T: x}, Ty: goType(ft)}
	}
	s, ok := structOf(v.Ty.Go)
	if !ok {
		c.fail("field of non-struct %s", typeKey(v.Ty.Go))
	}
	ft := s.Field(i).Type()
	return SV{V: Val{T: Sel(c.term(v), i)}, Ty: goType(ft)}
}

// facts adds type facts about a ground term to the real state.
func (c *specCtx) facts(t *Term, ty types.Type) {
	if t.hasBV || c.ex.evState == nil {
		return
	}
	c.ex.addFacts(c.ex.evState, t, ty)
}

func (c *specCtx) index(v SV, ie *Expr) SV {
	i := c.eval(ie)
	if v.Ty.Go == nil {
		if v.Ty.Elem == nil {
			t := c.term(v)
			if t.Sort.Elem == nil {
				c.fail("index of non-array")
			}
			return SV{V: Val{T: Select(t, c.coerce(i, t.Sort.Index))}, Ty: STy{Sort: t.Sort.Elem}}
		}
		return SV{V: Val{T: Select(c.term(v), c.coerce(i, v.Ty.Idx.sort()))}, Ty: *v.Ty.Elem}
	}
	switch u := under(v.Ty.Go).(type) {
	case *types.Slice:
		s := c.term(v)
		it := c.term(i)
		if c.ex.elemIsRef(u.Elem()) {
			return SV{Obj: elemRefOf(SlArr(s), Add(SlOff(s), it)), Ty: goType(u.Elem())}
		}
		_, m := c.ex.elemMap(c.st, u.Elem())
		x := Select(Select(m, SlArr(s)), Add(SlOff(s), it))
		c.facts(x, u.Elem())
		return SV{V: Val{T: x}, Ty: goType(u.Elem())}
	case *types.Map:
		mr := c.term(v)
		dom, val, _ := c.ex.mapParts(c.st, mr, u)
		k := c.coerce(i, sortOf(u.Key()))
		raw := Select(val, k)
		return SV{V: Val{T: Ite(mapDomOf(dom, mr, k), raw, zeroOf(u.Elem()))}, Ty: goType(u.Elem())}
	case *types.Array:
		return SV{V: Val{T: Select(c.term(v), c.term(i))}, Ty: goType(u.Elem())}
	case *types.Basic:
		c.ex.byteCharAxiom()
		return SV{V: Val{T: Select(App("schars", SByteArr, c.term(v)), c.term(i))}, Ty: goType(byteType)}
	}
	c.fail("index of %s", typeKey(v.Ty.Go))
	return SV{}
}

// lambda: the array with the given elements (a fresh name and its definition; ghost assignments only).
func (c *specCtx) lambda(e *Expr) SV {
	if c.ex.evState == nil {
		c.fail("lambda outside a ghost assignment")
	}
	n := *c
	n.vars = copyVars(c.vars)
	v := e.Vars[0]
	ty := c.resolveTy(v.Ty)
	b := BVar(v.Name, ty.sort())
	n.vars[v.Name] = SV{V: Val{T: b}, Ty: ty}
	r := n.eval(e.A[0])
	t := n.term(r)
	a := Fresh("lambda", SArr(ty.sort(), t.Sort))
	c.ex.evState.assume(Forall([]*Term{b}, Eq(Select(a, b), t), []*Term{Select(a, b)}))
	el := r.Ty
	return SV{V: Val{T: a}, Ty: STy{Sort: a.Sort, Idx: &ty, Elem: &el}}
}

func (c *specCtx) quant(e *Expr) SV {
	n := *c
	n.vars = copyVars(c.vars)
	var bs []*Term
	var guards []*Term
	for _, v := range e.Vars {
		ty := c.resolveTy(v.Ty)
		b := BVar(v.Name, ty.sort())
		bs = append(bs, b)
		n.vars[v.Name] = SV{V: Val{T: b}, Ty: ty}
		if ty.Go != nil {
			switch under(ty.Go).(type) {
			case *types.Pointer, *types.Chan, *types.Map:
				// any_x ranges over all references, those not allocated yet included
				if _, tp := types.Unalias(ty.Go).(*types.TypeParam); !tp && !strings.HasPrefix(v.Name, "any_") {
					guards = append(guards, Lt(at(b), c.st.now))
				}
			case *types.Basic:
				if r, ok := rangeOf(ty.Go); ok && !types.Identical(ty.Go, types.Typ[types.Int]) {
					guards = append(guards, inRange(b, r))
				}
			}
		}
	}
	body := n.evalBool(e.A[0])
	var trig [][]*Term
	for _, tg := range e.Trig {
		var ts []*Term
		for _, x := range tg {
			ts = append(ts, n.term(n.eval(x)))
		}
		trig = append(trig, ts)
	}
	if e.S == "forall" {
		return mkB(Forall(bs, Imp(And(guards...), body), trig...))
	}
	return mkB(Exists(bs, And(And(guards...), body), trig...))
}

// nameOf renders a dotted name expression.
func nameOf(e *Expr) string {
	switch e.K {
	case "id", "str":
		return e.S
	case "sel":
		return nameOf(e.A[0]) + "." + e.S
	}
	return "?"
}

// tyOfExpr parses a type written as an expression or a string.
func (c *specCtx) tyOfExpr(e *Expr) STy {
	return c.resolveTy(c.typeXOf(e))
}
func (c *specCtx) typeXOf(e *Expr) *TypeX {
	switch e.K {
	case "str":
		lx, _ := lexSpec(c.file, e.S)
		return lx.typeX()
	case "id":
		return &TypeX{K: "name", S: e.S}
	case "sel":
		return &TypeX{K: "name", S: nameOf(e)}
	case "un":
		if e.S == "*" {
			return &TypeX{K: "ptr", A: c.typeXOf(e.A[0])}
		}
	case "idx":
		b := c.typeXOf(e.A[0])
		b.Args = append(b.Args, c.typeXOf(e.A[1]))
		return b
	}
	c.fail("not a type expression")
	return nil
}

func (c *specCtx) logName(e *Expr) string {
	n := nameOf(e)
	if C, ok := c.ex.S.C[n]; ok {
		if l, ok := C.Opts["log"]; ok && l != "1" {
			return l
		}
		return n
	}
	if !strings.HasPrefix(n, "go:") && !strings.Contains(n, ":") {
		if _, ok := c.ex.S.C[c.pkg+"."+n]; ok {
			return c.logName(&Expr{K: "str", S: c.pkg + "." + n})
		}
	}
	return n
}

func (c *specCtx) call(e *Expr) SV {
	f := e.A[0]
	args := e.A[1:]
	ex := c.ex
	arg := func(i int) SV {
		if i >= len(args) {
			c.fail("missing argument %d", i)
		}
		return c.eval(args[i])
	}
	if f.K == "id" {
		switch f.S {
		case "old":
			if c.old == nil {
				c.fail("old() not available here")
			}
			return c.with(c.old).evalIn(args[0])
		case "len":
			v := arg(0)
			if v.Ty.Go != nil {
				switch u := under(v.Ty.Go).(type) {
				case *types.Slice:
					return mkI(SlLen(c.term(v)))
				case *types.Map:
					t := c.term(v)
					_, _, ln := ex.mapParts(c.st, t, u)
					return mkI(Ite(Eq(t, Nil), I(0), ln))
				case *types.Chan:
					ch := c.term(v)
					return mkI(Sub(Select(ex.get(c.st, chKey("sn", u.Elem()), SArr(SRef, SInt)), ch), Select(ex.get(c.st, chKey("rn", u.Elem()), SArr(SRef, SInt)), ch)))
				case *types.Array:
					return mkI(I(u.Len()))
				}
			}
			t := c.term(v)
			if t.Sort == SStr {
				return mkI(App("slen", SInt, t))
			}
			c.fail("len of %s", t.Sort.Name)
		case "cap":
			v := arg(0)
			if _, ok := under(v.Ty.Go).(*types.Chan); ok {
				return mkI(App("chancap", SInt, c.term(v)))
			}
			return mkI(SlCap(c.term(v)))
		case "arr":
			return SV{V: Val{T: SlArr(c.term(arg(0)))}, Ty: STy{Sort: SRef}}
		case "off":
			return mkI(SlOff(c.term(arg(0))))
		case "elems":
			v := arg(0)
			et := under(v.Ty.Go).(*types.Slice).Elem()
			_, m := ex.elemMap(c.st, et)
			el := goType(et)
			return SV{V: Val{T: Select(m, SlArr(c.term(v)))}, Ty: STy{Sort: m.Sort.Elem, Idx: &intTy, Elem: &el}}
		case "fresh":
			v := arg(0)
			t := c.term(v)
			if t.Sort == SSlice {
				t = SlArr(t)
			}
			if t.Sort != SRef {
				c.fail("fresh of %s", t.Sort.Name)
			}
			return mkB(And(Neq(t, Nil), Ge(at(t), c.old.now), Lt(at(t), c.st.now)))
		case "freshobj":
			t := c.term(arg(0))
			return mkB(And(Neq(t, Nil), Ge(at(t), c.old.now), Lt(at(t), c.st.now), Eq(App("kind", SInt, t), I(0))))
		case "allocated":
			t := c.term(arg(0))
			if t.Sort == SSlice {
				t = SlArr(t)
			}
			return mkB(Lt(at(t), c.st.now))
		case "existed":
			t := c.term(arg(0))
			if t.Sort == SSlice {
				t = SlArr(t)
			}
			return mkB(Lt(at(t), c.old.now))
		case "has":
			return mkB(c.has(arg(0), arg(1)))
		case "dom", "mapval":
			v := arg(0)
			mt := under(v.Ty.Go).(*types.Map)
			d, vl, _ := ex.mapParts(c.st, c.term(v), mt)
			kt, vt := goType(mt.Key()), goType(mt.Elem())
			if f.S == "dom" {
				return SV{V: Val{T: d}, Ty: STy{Sort: d.Sort, Idx: &kt, Elem: &boolTy}}
			}
			return SV{V: Val{T: vl}, Ty: STy{Sort: vl.Sort, Idx: &kt, Elem: &vt}}
		case "itercount":
			return mkI(c.iterc().n)
		case "iteritem":
			it := c.iterc()
			j := 0
			if len(args) > 1 {
				fmt.Sscan(args[1].S, &j)
			}
			if j >= len(it.seqs) {
				c.fail("no callback argument %d", j)
			}
			return SV{V: Val{T: Select(it.seqs[j], c.term(arg(0)))}, Ty: goType(it.tys[j])}
		case "iterpos":
			it := c.iterc()
			return mkI(Select(it.pos, c.term(arg(0))))
		case "visited":
			// visited set of the (single) map iteration of the current loop
			key := c.iterKey()
			var rg *rangeIter = c.iterOf(key)
			kt := goType(rg.mt.Key())
			s := SArr(sortOf(rg.mt.Key()), SBool)
			return SV{V: Val{T: ex.get(c.st, key, s)}, Ty: STy{Sort: s, Idx: &kt, Elem: &boolTy}}
		case "nvisited":
			if c.loop != nil && !c.overMap() {
				// other loops: completed iterations
				return mkI(c.loop.k)
			}
			return mkI(ex.get(c.st, c.iterKey()+":n", SInt))
		case "itermap":
			rg := c.iterOf(c.iterKey())
			return SV{V: Val{T: rg.m}, Ty: goType(rg.mt)}
		case "emptyset":
			ty := c.tyOfExpr(args[0])
			s := SArr(ty.sort(), SBool)
			return SV{V: Val{T: ConstArr(s, False)}, Ty: STy{Sort: s, Idx: &ty, Elem: &boolTy}}
		case "constarr":
			ty := c.tyOfExpr(args[0])
			v := arg(1)
			t := c.term(v)
			s := SArr(ty.sort(), t.Sort)
			vt := v.Ty
			return SV{V: Val{T: ConstArr(s, t)}, Ty: STy{Sort: s, Idx: &ty, Elem: &vt}}
		case "zero":
			ty := c.tyOfExpr(args[0])
			return SV{V: Val{T: zeroOf(ty.Go)}, Ty: ty}
		case "typed":
			v := arg(0)
			return SV{V: v.V, Obj: v.Obj, Ty: c.tyOfExpr(args[1])}
		case "is":
			t := c.term(arg(0))
			return mkB(isType(t, c.tyOfExpr(args[1]).Go))
		case "as":
			t := c.term(arg(0))
			ty := c.tyOfExpr(args[1])
			return SV{V: Val{T: Unbox(t, ty.Go)}, Ty: ty}
		case "boxed":
			v := arg(0)
			return SV{V: Val{T: Box(c.term(v), v.Ty.Go)}, Ty: STy{Sort: SIface}}
		case "addr":
			v := arg(0)
			if v.Obj == nil {
				c.fail("addr of non-object")
			}
			return SV{V: Val{T: v.Obj}, Ty: goType(types.NewPointer(v.Ty.Go))}
		case "errorsas":
			return mkB(errorsAs(c.term(arg(0)), c.tyOfExpr(args[1]).Go))
		case "boundto":
			return SV{V: Val{T: App("boundto", SRef, c.term(arg(0)))}, Ty: STy{Sort: SRef}}
		case "isfn":
			t := c.term(arg(0))
			return mkB(And(Not(Eq(t, Nil)), Eq(App("fnid", SInt, t), I(int64(hash(c.fnName(args[1]))%1000000007)))))
		case "sent", "recvd":
			v := arg(0)
			k := chKey("sn", chanElem(v.Ty.Go))
			if f.S == "recvd" {
				k = chKey("rn", chanElem(v.Ty.Go))
			}
			return mkI(Select(ex.get(c.st, k, SArr(SRef, SInt)), c.term(v)))
		case "sentval", "recvval":
			v := arg(0)
			et := under(v.Ty.Go).(*types.Chan).Elem()
			k := "sv"
			if f.S == "recvval" {
				k = "rv"
			}
			m := ex.get(c.st, chKey(k, et), SArr(SRef, SArr(SInt, sortOf(et))))
			return SV{V: Val{T: Select(Select(m, c.term(v)), c.term(arg(1)))}, Ty: goType(et)}
		case "senttime":
			m := ex.get(c.st, chKey("st", chanElem(arg(0).Ty.Go)), SArr(SRef, SByteArr))
			return mkI(Select(Select(m, c.term(arg(0))), c.term(arg(1))))
		case "closed":
			return mkB(Select(ex.get(c.st, chKey("cl", chanElem(arg(0).Ty.Go)), SArr(SRef, SBool)), c.term(arg(0))))
		case "ncalls":
			return mkI(ex.get(c.st, "LOG:"+c.logName(args[0])+":n", SInt))
		case "callarg", "callres":
			n := c.logName(args[0])
			k := c.term(arg(1))
			i := args[2].S
			key := "LOG:" + n + ":" + map[string]string{"callarg": "a", "callres": "r"}[f.S] + i
			var ty STy
			s, ok := ex.sorts[key]
			if len(args) > 3 {
				ty = c.tyOfExpr(args[3])
				if !ok {
					s = SArr(SInt, ty.sort())
				}
			} else {
				if !ok {
					c.fail("type of %s unknown; give it as last argument", key)
				}
				ty = STy{Sort: s.Elem}
			}
			t := Select(ex.get(c.st, key, s), k)
			if ty.Go != nil {
				c.facts(t, ty.Go)
			}
			return SV{V: Val{T: t}, Ty: ty}
		case "clock":
			return mkI(c.ex.get(c.st, "G:$clock", SInt))
		case "calltime":
			return mkI(Select(ex.get(c.st, "LOG:"+c.logName(args[0])+":t", SByteArr), c.term(arg(1))))
		case "held":
			r := c.muRef(args[0])
			return mkB(Select(ex.get(c.st, "LK:h", SArr(SRef, SBool)), r))
		case "readheld":
			return mkI(Select(ex.get(c.st, "LK:r", SArr(SRef, SInt)), c.muRef(args[0])))
		case "oncedone":
			return SV{V: Val{T: Select(ex.get(c.st, "ONCE:d", SArr(SRef, SBool)), c.muRef(args[0]))}, Ty: STy{Sort: SBool}}
		case "offersrecv", "offerssend": // only in waits clauses
			ch := c.term(arg(0))
			t := False
			for _, o := range c.ex.offers {
				if o.recv == (f.S == "offersrecv") {
					t = Or(t, Eq(o.ch, ch))
				}
			}
			return mkB(t)
		case "wgcount":
			return mkI(Select(ex.get(c.st, "WG:n", SArr(SRef, SInt)), c.muRef(args[0])))
		case "buflen":
			return mkI(Select(ex.get(c.st, "BB:len", SArr(SRef, SInt)), c.muRef(args[0])))
		case "bufarr":
			return SV{V: Val{T: bufArr(c.muRef(args[0]))}, Ty: STy{Sort: SRef}}
		case "bufbyte":
			_, m := ex.elemMap(c.st, byteType)
			bt := Select(Select(m, bufArr(c.muRef(args[0]))), c.term(arg(1)))
			c.facts(bt, byteType)
			return SV{V: Val{T: bt}, Ty: goType(byteType)}
		case "itoa":
			addAxiom("itoa", "inj", func() *Term {
				x := BVar("x", SInt)
				return Forall([]*Term{x}, Eq(App("atoi", SInt, App("itoa", SStr, x)), x), []*Term{App("itoa", SStr, x)})
			})
			return SV{V: Val{T: App("itoa", SStr, c.term(arg(0)))}, Ty: goType(types.Typ[types.String])}
		case "min", "max":
			x, y := c.term(arg(0)), c.term(arg(1))
			if f.S == "min" {
				return mkI(Ite(Lt(x, y), x, y))
			}
			return mkI(Ite(Lt(x, y), y, x))
		case "abs":
			x := c.term(arg(0))
			return mkI(Ite(Lt(x, I(0)), Neg(x), x))
		case "ispow2":
			return mkB(App("ispow2", SBool, c.term(arg(0))))
		case "pow2":
			return mkI(App("pow2", SInt, c.term(arg(0))))
		case "apply":
			// result of calling a pure Go function value is not supported
			c.fail("apply")
		case "int", "int64", "int32", "uint64", "uint8", "byte", "uint32", "string":
			return c.convTo(arg(0), basicType(f.S))
		case "bufelems":
			_, m := ex.elemMap(c.st, byteType)
			el := goType(byteType)
			return SV{V: Val{T: Select(m, bufArr(c.muRef(args[0])))}, Ty: STy{Sort: SByteArr, Idx: &intTy, Elem: &el}}
		}
		if p, ok := ex.S.Pure[f.S]; ok {
			return c.pureApp(p, args)
		}
		// Go function of this package used as a pure function
		if fn, ok := ex.P.Funcs[c.pkg+"."+f.S]; ok {
			return c.goCall(fn, nil, args)
		}
		// conversion to a type parameter
		if len(args) == 1 {
			for tp, v := range c.tsub {
				if tp.Obj().Name() == f.S {
					return c.convTo(arg(0), v)
				}
			}
			if ex.fn != nil {
				if tp := fnTypeParam(ex.fn, f.S); tp != nil {
					return c.convTo(arg(0), substType(tp, ex.topSub))
				}
			}
		}
		// conversion to a named type
		if p := ex.P.Types[c.pkg]; p != nil && len(args) == 1 {
			if tn, ok := p.Scope().Lookup(f.S).(*types.TypeName); ok {
				v := arg(0)
				return SV{V: Val{T: c.term(v)}, Ty: goType(tn.Type())}
			}
		}
		c.fail("unknown function %s", f.S)
	}
	if f.K == "sel" {
		if f.A[0].K == "id" {
			if _, ok := ex.P.Types[f.A[0].S]; ok {
				if _, isVar := c.vars[f.A[0].S]; !isVar {
					if fn, ok := ex.P.Funcs[f.A[0].S+"."+f.S]; ok {
						return c.goCall(fn, nil, args)
					}
				}
			}
		}
		recv := c.eval(f.A[0])
		t := recv.Ty.Go
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if fn, ok := ex.P.Funcs[originKey(t)+"."+f.S]; ok {
			return c.goCall(fn, &recv, args)
		}
		c.fail("unknown method %s.%s", originKey(t), f.S)
	}
	c.fail("bad call")
	return SV{}
}

// convTo is the Go conversion of v to type t.
func (c *specCtx) convTo(v SV, t types.Type) SV {
	x := c.term(v)
	if v.Ty.Go == nil {
		return SV{V: Val{T: x}, Ty: goType(t)}
	}
	_, ftp := types.Unalias(v.Ty.Go).(*types.TypeParam)
	_, ttp := types.Unalias(t).(*types.TypeParam)
	if ftp || ttp {
		r := c.ex.convert(c.realState(), nil, Val{T: x}, v.Ty.Go, t)
		return SV{V: r, Ty: goType(t)}
	}
	a, ok1 := rangeOf(v.Ty.Go)
	b, ok2 := rangeOf(t)
	if ok1 && ok2 && (b.lo.Cmp(a.lo) > 0 || b.hi.Cmp(a.hi) < 0) {
		x = wrapTo(x, b, false)
	}
	return SV{V: Val{T: x}, Ty: goType(t)}
}

func (c *specCtx) realState() *State {
	if c.ex.evState != nil {
		return c.ex.evState
	}
	return c.st
}

func (c *specCtx) fnName(e *Expr) string {
	n := nameOf(e)
	if _, ok := c.ex.P.Funcs[n]; ok {
		return n
	}
	if _, ok := c.ex.P.Funcs[c.pkg+"."+n]; ok {
		return c.pkg + "." + n
	}
	c.fail("unknown function %s", n)
	return ""
}

func (c *specCtx) evalIn(e *Expr) SV {
	v := c.eval(e)
	// force evaluation of heap structs in this state
	if v.Obj != nil && !identityStruct(v.Ty.Go) {
		return SV{V: Val{T: c.term(v)}, Ty: v.Ty}
	}
	return v
}

func (c *specCtx) iterKey() string {
	if c.loop == nil {
		c.fail("visited() outside a loop")
	}
	// the Next instruction in the loop header
	for b := range c.ex.loopsOf(c.loop.fr.fn).body[c.loop.header] {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && b == c.loop.header {
				return fmt.Sprintf("IT:%d:%s", c.loop.fr.id, nx.Iter.Name())
			}
		}
	}
	c.fail("loop does not range over a map")
	return ""
}

func (c *specCtx) overMap() bool {
	if c.loop.iter != nil {
		return false
	}
	for _, in := range c.loop.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (c *specCtx) iterOf(key string) *rangeIter {
	for _, in := range c.loop.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			return c.st.env[envKey{c.loop.fr.id, nx.Iter}].It
		}
	}
	c.fail("no iterator")
	return nil
}

func (c *specCtx) muRef(e *Expr) *Term {
	v := c.eval(e)
	if v.Obj != nil {
		return v.Obj
	}
	return c.term(v)
}

func (c *specCtx) pureApp(p *PureFn, args []*Expr) SV {
	if len(args) != len(p.Params) {
		c.fail("%s expects %d arguments", p.Name, len(p.Params))
	}
	pc := &specCtx{ex: c.ex, st: c.st, old: c.old, vars: map[string]SV{}, tsub: c.tsub, pkg: p.Pkg, file: p.File, depth: c.depth + 1}
	if c.depth > 60 {
		c.fail("recursive pure function %s", p.Name)
	}
	if p.Body == nil {
		var ts []*Term
		for i, a := range args {
			ty := pc.resolveTy(p.Params[i].Ty)
			ts = append(ts, c.coerce(c.eval(a), ty.sort()))
		}
		ret := pc.resolveTy(p.Ret)
		return SV{V: Val{T: App("pure:"+p.Name, ret.sort(), ts...)}, Ty: ret}
	}
	for i, a := range args {
		v := c.eval(a)
		ty := pc.resolveTy(p.Params[i].Ty)
		if v.Obj == nil && v.V.T != nil && v.V.T.Sort != ty.sort() {
			v = SV{V: Val{T: c.coerce(v, ty.sort())}, Ty: ty}
		}
		v.Ty = ty
		pc.vars[p.Params[i].Name] = v
	}
	r := pc.eval(p.Body)
	r.Ty = pc.resolveTy(p.Ret)
	return r
}

// goCall uses a repository function as a pure function in a specification.
func (c *specCtx) goCall(fn *ssa.Function, recv *SV, args []*Expr) SV {
	var vals []Val
	var tys []types.Type
	if recv != nil {
		rt := fn.Signature.Recv().Type()
		if _, ptr := types.Unalias(rt).(*types.Pointer); ptr {
			ref, _, ok := c.objRef(*recv)
			if !ok {
				c.fail("method with pointer receiver on a value")
			}
			vals = append(vals, Val{T: ref})
		} else {
			vals = append(vals, Val{T: c.term(*recv)})
		}
		tys = append(tys, recv.Ty.Go)
	}
	for i, a := range args {
		v := c.eval(a)
		pt := fn.Signature.Params().At(i).Type()
		if _, isTP := types.Unalias(pt).(*types.TypeParam); isTP {
			vals = append(vals, Val{T: c.term(v)})
		} else {
			vals = append(vals, Val{T: c.coerce(v, sortOf(substType(pt, c.tsub)))})
		}
		tys = append(tys, v.Ty.Go)
	}
	ts := tsubst{}
	if recv != nil {
		rt := recv.Ty.Go
		ts = recvSubst(fn, rt)
	} else {
		for i := range args {
			if tp, ok := types.Unalias(fn.Signature.Params().At(i).Type()).(*types.TypeParam); ok && tys[i] != nil {
				ts[tp] = tys[i]
			}
		}
	}
	res, err := c.ex.pureCall(c.st, c.fr, fn, ts, vals, nil)
	if err != "" {
		c.fail("pure call of %s: %s", canonName(fn), err)
	}
	if len(res) == 0 {
		c.fail("pure call of %s has no result", canonName(fn))
	}
	return SV{V: Val{T: res[0]}, Ty: goType(substType(fn.Signature.Results().At(0).Type(), ts))}
}

// ---- contexts ----

func (ex *Exec) ctxFor(st *State, fr *Frame) *specCtx {
	ex.evState = st
	c := &specCtx{ex: ex, st: st, old: ex.entryState(st), vars: map[string]SV{}, tsub: ex.topSub, pkg: ex.C.Pkg, file: ex.C.File, fr: fr}
	for n, v := range ex.paramVars {
		c.vars[n] = v
	}
	return c
}

func (c *specCtx) ghostAssign(g GhostAssign) {
	r := c.eval(g.R)
	c.assignTo(g.L, r)
}

func (c *specCtx) assignTo(l *Expr, r SV) {
	switch l.K {
	case "id":
		gd, ok := c.ex.S.GVars[l.S]
		if !ok {
			c.fail("assignment to non-ghost %s", l.S)
		}
		if gd.Along != "" {
			c.fail("assignment to %s, which records calls", l.S)
		}
		cc := &specCtx{ex: c.ex, pkg: gd.Pkg, tsub: c.tsub}
		ty := cc.resolveTy(gd.Ty)
		c.ex.get(c.st, "GV:"+l.S, ty.sort())
		c.ex.set(c.st, "GV:"+l.S, nil, c.coerce(r, ty.sort()))
	case "sel":
		v := c.eval(l.A[0])
		ref, t, ok := c.objRef(v)
		if !ok {
			c.fail("ghost assignment target")
		}
		g, ok := c.ex.S.GFields[originKey(t)+"."+l.S]
		if !ok {
			c.fail("assignment to non-ghost field %s", l.S)
		}
		key, s, _ := c.ex.ghostKey(g, t)
		m := c.ex.get(c.st, key, SArr(SRef, s))
		c.ex.set(c.st, key, ref, Store(m, ref, c.coerce(r, s)))
	case "idx":
		a := c.eval(l.A[0])
		i := c.eval(l.A[1])
		ta := c.term(a)
		nv := Store(ta, c.coerce(i, ta.Sort.Index), c.coerce(r, ta.Sort.Elem))
		c.assignTo(l.A[0], SV{V: Val{T: nv}, Ty: a.Ty})
	default:
		c.fail("bad ghost assignment")
	}
}

// ---- modifies ----
type modLoc struct {
	key  string
	base *Term // nil with all=false: scalar key
	all  bool
}

func (c *specCtx) modLocs(items []ModItem) []modLoc {
	var out []modLoc
	ex := c.ex
	add := func(k string, s *Sort, base *Term) {
		ex.heapSort(k, s)
		out = append(out, modLoc{k, base, false})
	}
	for _, it := range items {
		switch it.Kind {
		case "ghost":
			g, ok := ex.S.GVars[it.S]
			if !ok {
				c.fail("unknown ghost variable %s", it.S)
			}
			cc := &specCtx{ex: ex, pkg: g.Pkg, tsub: c.tsub}
			add("GV:"+it.S, cc.resolveTy(g.Ty).sort(), nil)
		case "log":
			n := c.logName(&Expr{K: "str", S: it.S})
			ex.heapSort("LOG:"+n+":n", SInt)
			out = append(out, modLoc{"LOG:" + n + ":", nil, true})
		case "field":
			c.fieldLoc(it.E, add, &out)
		case "elems":
			v := c.eval(it.E)
			et := under(v.Ty.Go).(*types.Slice).Elem()
			if ex.elemIsRef(et) {
				s, _ := structOf(et)
				for i := 0; i < s.NumFields(); i++ {
					ex.heapSort(fieldKey(et, s, i), SArr(SRef, sortOf(s.Field(i).Type())))
					out = append(out, modLoc{fieldKey(et, s, i), SlArr(c.term(v)), true})
				}
				continue
			}
			k, m := ex.elemMap(c.st, et)
			add(k, m.Sort, SlArr(c.term(v)))
		case "mapof":
			v := c.eval(it.E)
			mt := under(v.Ty.Go).(*types.Map)
			dk, vk, lk := mapKeys(mt)
			ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
			r := c.term(v)
			add(dk, SArr(SRef, SArr(ks, SBool)), r)
			add(vk, SArr(SRef, SArr(ks, vs)), r)
			add(lk, SArr(SRef, SInt), r)
		case "sendof": // what has been sent on a channel
			v := c.eval(it.E)
			r := c.term(v)
			et := under(v.Ty.Go).(*types.Chan).Elem()
			add(chKey("sn", et), SArr(SRef, SInt), r)
			add(chKey("st", et), SArr(SRef, SByteArr), r)
			add(chKey("sv", et), SArr(SRef, SArr(SInt, sortOf(et))), r)
		case "closeof": // whether a channel is closed
			v := c.eval(it.E)
			add(chKey("cl", under(v.Ty.Go).(*types.Chan).Elem()), SArr(SRef, SBool), c.term(v))
		case "anyclose":
			lx, _ := lexSpec(c.file, it.S)
			add(chKey("cl", under(c.resolveTy(lx.typeX()).Go).(*types.Chan).Elem()), SArr(SRef, SBool), nil)
			out[len(out)-1].all = true
		case "anysend":
			lx, _ := lexSpec(c.file, it.S)
			et := under(c.resolveTy(lx.typeX()).Go).(*types.Chan).Elem()
			add(chKey("sn", et), SArr(SRef, SInt), nil)
			add(chKey("st", et), SArr(SRef, SByteArr), nil)
			add(chKey("sv", et), SArr(SRef, SArr(SInt, sortOf(et))), nil)
			for i := len(out) - 3; i < len(out); i++ {
				out[i].all = true
			}
		case "chanof":
			v := c.eval(it.E)
			r := c.term(v)
			et := under(v.Ty.Go).(*types.Chan).Elem()
			add(chKey("sn", et), SArr(SRef, SInt), r)
			add(chKey("rn", et), SArr(SRef, SInt), r)
			add(chKey("cl", et), SArr(SRef, SBool), r)
			add(chKey("st", et), SArr(SRef, SByteArr), r)
			add(chKey("sv", et), SArr(SRef, SArr(SInt, sortOf(et))), r)
			add(chKey("rv", et), SArr(SRef, SArr(SInt, sortOf(et))), r)
		case "bufof":
			r := c.muRef(it.E)
			add("BB:len", SArr(SRef, SInt), r)
			k, m := ex.elemMap(c.st, byteType)
			add(k, m.Sort, bufArr(r))
		case "once":
			add("ONCE:d", SArr(SRef, SBool), c.muRef(it.E))
		case "wg":
			add("WG:n", SArr(SRef, SInt), c.muRef(it.E))
		case "held":
			add("LK:h", SArr(SRef, SBool), c.muRef(it.E))
			add("LK:r", SArr(SRef, SInt), c.muRef(it.E))
		case "object":
			if it.E.K == "call" && len(it.E.A) > 0 && it.E.A[0].K == "id" && it.E.A[0].S == "as" {
				// object(as(v, T)): nothing when v is known to hold something else
				is := *it.E
				is.A = append([]*Expr{{K: "id", S: "is", Line: it.E.Line}}, it.E.A[1:]...)
				if c.evalBool(&is) == False {
					continue
				}
			}
			v := c.eval(it.E)
			ref, t, ok := c.objRef(v)
			if !ok {
				c.fail("object() of a value")
			}
			c.objLocs(ref, t, add)
		case "anyof":
			lx, _ := lexSpec(c.file, it.S)
			t := c.resolveTy(lx.typeX()).Go
			g, ok := ex.S.GFields[originKey(t)+"."+it.S2]
			if !ok {
				c.fail("no ghost field %s.%s", it.S, it.S2)
			}
			k, s, _ := ex.ghostKey(g, t)
			ex.heapSort(k, SArr(SRef, s))
			out = append(out, modLoc{k, nil, true})
		case "anyfield":
			t := ex.lookupAny(c, it.S)
			if g, ok := ex.S.GFields[originKey(t)+"."+it.S2]; ok {
				k, s, _ := ex.ghostKey(g, t)
				ex.heapSort(k, SArr(SRef, s))
				out = append(out, modLoc{k, nil, true})
				continue
			}
			s, _ := structOf(t)
			found := false
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if s.Field(i).Name() == it.S2 {
					found = true
					ft := s.Field(i).Type()
					if identityStruct(ft) {
						continue
					}
					if subObject(ft) {
						c.fail("any of struct field")
					}
					k := fieldKey(t, s, i)
					ex.heapSort(k, SArr(SRef, sortOf(ft)))
					out = append(out, modLoc{k, nil, true})
				}
			}
			if !found {
				c.fail("no field %s.%s", it.S, it.S2)
			}
		case "anyelems":
			lx, _ := lexSpec(c.file, it.S)
			et := c.resolveTy(lx.typeX()).Go
			if ex.elemIsRef(et) {
				s, _ := structOf(et)
				for i := 0; i < s.NumFields(); i++ {
					ex.heapSort(fieldKey(et, s, i), SArr(SRef, sortOf(s.Field(i).Type())))
					out = append(out, modLoc{fieldKey(et, s, i), nil, true})
				}
				continue
			}
			k, _ := ex.elemMap(c.st, et)
			out = append(out, modLoc{k, nil, true})
		case "anymap":
			lx, _ := lexSpec(c.file, it.S)
			mt := under(c.resolveTy(lx.typeX()).Go).(*types.Map)
			ex.mapParts(c.st, Nil, mt)
			dk, vk, lk := mapKeys(mt)
			for _, k := range []string{dk, vk, lk} {
				out = append(out, modLoc{k, nil, true})
			}
		case "anychan":
			lx, _ := lexSpec(c.file, it.S)
			et := under(c.resolveTy(lx.typeX()).Go).(*types.Chan).Elem()
			add(chKey("sn", et), SArr(SRef, SInt), nil)
			add(chKey("rn", et), SArr(SRef, SInt), nil)
			add(chKey("cl", et), SArr(SRef, SBool), nil)
			add(chKey("st", et), SArr(SRef, SByteArr), nil)
			add(chKey("sv", et), SArr(SRef, SArr(SInt, sortOf(et))), nil)
			add(chKey("rv", et), SArr(SRef, SArr(SInt, sortOf(et))), nil)
			for i := len(out) - 6; i < len(out); i++ {
				out[i].all = true
			}
		case "anybuf":
			add("BB:len", SArr(SRef, SInt), nil)
			k, _ := ex.elemMap(c.st, byteType)
			out[len(out)-1].all = true
			out = append(out, modLoc{k, nil, true})
		case "anyreadheld":
			add("LK:r", SArr(SRef, SInt), nil)
			out[len(out)-1].all = true
		case "anywg":
			add("WG:n", SArr(SRef, SInt), nil)
			out[len(out)-1].all = true
		default:
			c.fail("modifies item %s", it.Kind)
		}
	}
	return out
}

func (ex *Exec) lookupAny(c *specCtx, n string) types.Type {
	return c.goTy(&TypeX{K: "name", S: n})
}

func (c *specCtx) objLocs(ref *Term, t types.Type, add func(string, *Sort, *Term)) {
	if identityStruct(t) {
		switch typeKey(t) {
		case "sync.Mutex", "sync.RWMutex":
			add("LK:h", SArr(SRef, SBool), ref)
			add("LK:r", SArr(SRef, SInt), ref)
		case "sync.Once":
			add("ONCE:d", SArr(SRef, SBool), ref)
		case "sync.WaitGroup":
			add("WG:n", SArr(SRef, SInt), ref)
		case "bytes.Buffer":
			add("BB:len", SArr(SRef, SInt), ref)
			k, m := c.ex.elemMap(c.st, byteType)
			add(k, m.Sort, bufArr(ref))
		}
		return
	}
	s, ok := structOf(t)
	if !ok || opaqueStruct(t) {
		add("C:"+typeKey(t), SArr(SRef, sortOf(t)), ref)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if subObject(ft) {
			c.objLocs(subRef(t, s, i, ref), ft, add)
		} else {
			add(fieldKey(t, s, i), SArr(SRef, sortOf(ft)), ref)
		}
	}
	own := originKey(t) + "."
	for _, n := range sortedKeys(c.ex.S.GFields) {
		if strings.HasPrefix(n, own) {
			k, s, _ := c.ex.ghostKey(c.ex.S.GFields[n], t)
			add(k, SArr(SRef, s), ref)
		}
	}
}

func (c *specCtx) fieldLoc(e *Expr, add func(string, *Sort, *Term), out *[]modLoc) {
	c.line = e.Line
	switch e.K {
	case "sel":
		if e.A[0].K == "id" {
			if _, isVar := c.vars[e.A[0].S]; !isVar {
				if p, ok := c.ex.P.Types[e.A[0].S]; ok {
					if o, ok := p.Scope().Lookup(e.S).(*types.Var); ok {
						add("G:"+p.Name()+"."+e.S, sortOf(o.Type()), nil)
						return
					}
				}
			}
		}
		v := c.eval(e.A[0])
		t := v.Ty.Go
		if t == nil {
			c.fail("modifies of ghost value")
		}
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if g, ok := c.ex.S.GFields[originKey(t)+"."+e.S]; ok {
			ref, _, ok := c.objRef(v)
			if !ok {
				c.fail("modifies")
			}
			k, s, _ := c.ex.ghostKey(g, t)
			add(k, SArr(SRef, s), ref)
			return
		}
		path := fieldPath(t, e.S)
		if path == nil {
			c.fail("no field %s in %s", e.S, typeKey(t))
		}
		for _, i := range path[:len(path)-1] {
			v = c.fieldStep(v, i)
		}
		ref, t2, ok := c.objRef(v)
		if !ok {
			c.fail("modifies %s: not a heap location", e.S)
		}
		s, _ := structOf(t2)
		i := path[len(path)-1]
		ft := s.Field(i).Type()
		if subObject(ft) {
			c.objLocs(subRef(t2, s, i, ref), ft, add)
			return
		}
		add(fieldKey(t2, s, i), SArr(SRef, sortOf(ft)), ref)
	case "un":
		// *p
		v := c.eval(e.A[0])
		p, ok := under(v.Ty.Go).(*types.Pointer)
		if !ok {
			c.fail("modifies *non-pointer")
		}
		if v.V.Loc != nil {
			*out = append(*out, modLoc{key: "", base: nil})
			c.ex.fail("modifies through pointer to local")
		}
		c.objLocs(v.V.T, p.Elem(), add)
	case "id":
		if o, ok := c.ex.P.Types[c.pkg].Scope().Lookup(e.S).(*types.Var); ok {
			add("G:"+c.pkg+"."+e.S, sortOf(o.Type()), nil)
			return
		}
		c.fail("cannot modify %s", e.S)
	default:
		c.fail("bad modifies item")
	}
}

// frameGuard: r is not one of the listed bases for key. ok=false if key is a scalar.
func frameGuard(mods []modLoc, key string, r *Term) (*Term, bool) {
	g := True
	for _, m := range mods {
		if m.key != key {
			continue
		}
		if m.all && m.base == nil {
			return False, true
		}
		if m.all { // object elements of array base
			g = And(g, Not(And(Eq(App("elemarr", SRef, r), m.base), Eq(App("kind", SInt, r), I(-7)))))
			continue
		}
		if m.base != nil {
			g = And(g, Neq(r, m.base))
		}
	}
	return g, true
}

func logListed(mods []modLoc, key string) bool {
	for _, m := range mods {
		if m.all && strings.HasPrefix(m.key, "LOG:") && strings.HasPrefix(key, m.key) {
			return true
		}
		if m.key == key && (m.base == nil) {
			return true
		}
	}
	return false
}

// havocLocs forgets the listed locations.
func (ex *Exec) havocLocs(st *State, locs []modLoc) {
	byKey := map[string][]modLoc{}
	for _, l := range locs {
		if strings.HasPrefix(l.key, "LOG:") && l.all {
			var ks []string
			ex.get(st, l.key+"n", SInt)
			for k := range ex.sorts {
				if strings.HasPrefix(k, l.key) {
					ks = append(ks, k)
				}
			}
			for _, k := range ks {
				byKey[k] = append(byKey[k], modLoc{key: k})
			}
			continue
		}
		byKey[l.key] = append(byKey[l.key], l)
	}
	if _, ok := byKey["G:$clock"]; !ok {
		ex.get(st, "G:$clock", SInt)
		byKey["G:$clock"] = []modLoc{{key: "G:$clock"}}
	}
	keys := sortedKeys(byKey)
	ordered := append([]string{}, keys...)
	// arrays before counters
	var a, b []string
	for _, k := range ordered {
		if isCounter(k) {
			b = append(b, k)
		} else {
			a = append(a, k)
		}
	}
	for _, key := range append(a, b...) {
		cur := ex.getAny(st, key)
		ls := byKey[key]
		if strings.HasPrefix(key, "LOG:") || key == "G:$clock" || ex.along(key) != "" {
			ex.havocLogKey(st, key, cur)
			ex.rec(key, nil)
			continue
		}
		all := false
		scalar := false
		for _, l := range ls {
			if l.all {
				all = true
			} else if l.base == nil {
				scalar = true
			}
		}
		var nw *Term
		if all || scalar {
			nw = Fresh("hv_"+key, cur.Sort)
			nw.meta = &mapMeta{birth: st.now, key: key}
			if all {
				// object-element items: everything else is unchanged
				g := True
				r := BVar("r", SRef)
				only := true
				for _, l := range ls {
					if l.base == nil {
						only = false
					} else if l.all {
						g = And(g, Not(And(Eq(App("elemarr", SRef, r), l.base), Eq(App("kind", SInt, r), I(-7)))))
					} else {
						g = And(g, Neq(r, l.base))
					}
				}
				if only {
					st.assume(Forall([]*Term{r}, Imp(g, Eq(Select(nw, r), Select(cur, r))), []*Term{Select(nw, r)}))
				}
			}
			st.heap[key] = nw
			ex.rec(key, nil)
			for _, rr := range ex.recs {
				_ = rr
			}
			if objIndexed(key, cur) {
				ex.chanMono(st, key, cur, nw)
			}
			continue
		}
		nw = cur
		for _, l := range ls {
			fe := ex.freshElem(st, key, cur.Sort.Elem)
			if m, ok := fe.meta.(*mapMeta); ok && fe.Op == OpConst {
				m.base = l.base
			}
			nw = Store(nw, l.base, fe)
			ex.rec(key, l.base)
		}
		st.heap[key] = nw
		ex.chanMono(st, key, cur, nw)
	}
}
