package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort, identified by its SMT-LIB text.
type Sort struct {
	Name  string
	Elem  *Sort // arrays: element
	Index *Sort // arrays: index
	DT    *Datatype
}

type Datatype struct {
	Name   string
	Fields []DTField
}
type DTField struct {
	Name string
	Sort *Sort
}

type Op int

const (
	OpConst Op = iota // uninterpreted constant / bound variable
	OpInt
	OpReal
	OpTrue
	OpFalse
	OpNot
	OpAnd
	OpOr
	OpImp
	OpEq
	OpIte
	OpAdd
	OpMul // const * term, or general
	OpLt
	OpLe
	OpDiv // floor/euclid int div (SMT div)
	OpMod
	OpSelect
	OpStore
	OpApp // uninterpreted function / datatype op by name
	OpMk  // datatype constructor
	OpSel // datatype selector, Name = field
	OpForall
	OpExists
	OpConstArr
	OpRDiv
	OpToReal
	OpToInt
)

type Term struct {
	ID    int
	Op    Op
	Sort  *Sort
	Name  string
	Int   *big.Int
	Args  []*Term
	Bound []*Term   // quantifiers
	Trig  [][]*Term // quantifier triggers
	hasBV bool      // contains a bound variable (free inside)
	IsBV  bool
	meta  any // for constants: provenance info (e.g. closure, map birth)
}

type TermTable struct {
	tab    map[string]*Term
	n      int
	sorts  map[string]*Sort
	fresh  map[string]int
	consts map[string]*Term
}

var TT = newTT()

func newTT() *TermTable {
	return &TermTable{tab: map[string]*Term{}, sorts: map[string]*Sort{}, fresh: map[string]int{}, consts: map[string]*Term{}}
}

var (
	SInt   = mkSort("Int")
	SBool  = mkSort("Bool")
	SReal  = mkSort("Real")
	SRef   = mkSort("Ref")
	SStr   = mkSort("Str")
	SIface = mkSort("Iface")
	SSlice = func() *Sort {
		s := mkSort("Slice")
		s.DT = &Datatype{Name: "Slice", Fields: []DTField{{"s_arr", SRef}, {"s_off", SInt}, {"s_len", SInt}, {"s_cap", SInt}}}
		return s
	}()
	SByteArr = SArr(SInt, SInt)
)

func mkSort(n string) *Sort {
	if s, ok := TT.sorts[n]; ok {
		return s
	}
	s := &Sort{Name: n}
	TT.sorts[n] = s
	return s
}
func SArr(i, e *Sort) *Sort {
	n := "(Array " + i.Name + " " + e.Name + ")"
	s := mkSort(n)
	s.Index, s.Elem = i, e
	return s
}

func (t *TermTable) intern(x *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", x.Op, x.Name, x.Sort.Name)
	if x.Int != nil {
		b.WriteString("|" + x.Int.String())
	}
	for _, a := range x.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	for _, a := range x.Bound {
		fmt.Fprintf(&b, ";%d", a.ID)
	}
	for _, tg := range x.Trig {
		b.WriteString("{")
		for _, a := range tg {
			fmt.Fprintf(&b, ",%d", a.ID)
		}
	}
	k := b.String()
	if o, ok := t.tab[k]; ok {
		return o
	}
	t.n++
	x.ID = t.n
	for _, a := range x.Args {
		if a.hasBV {
			x.hasBV = true
		}
	}
	if x.IsBV {
		x.hasBV = true
	}
	if len(x.Bound) > 0 {
		// does it contain other bound vars?
		bs := map[int]bool{}
		for _, v := range x.Bound {
			bs[v.ID] = true
		}
		x.hasBV = false
		for id := range freeBVs(x.Args[0], map[int]map[int]bool{}) {
			if !bs[id] {
				x.hasBV = true
			}
		}
	}
	t.tab[k] = x
	return x
}

func freeBVs(t *Term, memo map[int]map[int]bool) map[int]bool {
	if !t.hasBV {
		return nil
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	r := map[int]bool{}
	if t.IsBV {
		r[t.ID] = true
	}
	for _, a := range t.Args {
		for id := range freeBVs(a, memo) {
			r[id] = true
		}
	}
	for _, v := range t.Bound {
		delete(r, v.ID)
	}
	memo[t.ID] = r
	return r
}

func Const(name string, s *Sort) *Term {
	return TT.intern(&Term{Op: OpConst, Name: name, Sort: s})
}
func Fresh(base string, s *Sort) *Term {
	base = sanitize(base)
	TT.fresh[base]++
	return Const(fmt.Sprintf("%s!%d", base, TT.fresh[base]), s)
}
func BVar(base string, s *Sort) *Term {
	base = sanitize(base)
	TT.fresh["?"+base]++
	return TT.intern(&Term{Op: OpConst, Name: fmt.Sprintf("?%s!%d", base, TT.fresh["?"+base]), Sort: s, IsBV: true})
}
func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' || r == '?' {
			b.WriteRune(r)
		} else {
			b.WriteRune('_')
		}
	}
	return b.String()
}

var (
	True  = TT.intern(&Term{Op: OpTrue, Sort: SBool})
	False = TT.intern(&Term{Op: OpFalse, Sort: SBool})
	Nil   = Const("nil", SRef)
	INil  = Const("inil", SIface)
)

func I(n int64) *Term { return IB(big.NewInt(n)) }
func IB(n *big.Int) *Term {
	return TT.intern(&Term{Op: OpInt, Sort: SInt, Int: new(big.Int).Set(n)})
}
func RealLit(s string) *Term { return TT.intern(&Term{Op: OpReal, Sort: SReal, Name: s}) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch a.Op {
	case OpTrue:
		return False
	case OpFalse:
		return True
	case OpNot:
		return a.Args[0]
	}
	return TT.intern(&Term{Op: OpNot, Sort: SBool, Args: []*Term{a}})
}
func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.Op == OpTrue || seen[x.ID] {
			return true
		}
		if x.Op == OpFalse || seen[Not(x).ID] {
			return false
		}
		if x.Op == OpAnd {
			for _, a := range x.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return TT.intern(&Term{Op: OpAnd, Sort: SBool, Args: out})
}
func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.Op == OpFalse || seen[x.ID] {
			continue
		}
		if x.Op == OpTrue || seen[Not(x).ID] {
			return True
		}
		if x.Op == OpOr {
			for _, a := range x.Args {
				if !seen[a.ID] {
					seen[a.ID] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[x.ID] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return TT.intern(&Term{Op: OpOr, Sort: SBool, Args: out})
}
func Imp(a, b *Term) *Term {
	if a.Op == OpTrue {
		return b
	}
	if a.Op == OpFalse || b.Op == OpTrue || a == b {
		return True
	}
	if b.Op == OpFalse {
		return Not(a)
	}
	return TT.intern(&Term{Op: OpImp, Sort: SBool, Args: []*Term{a, b}})
}

func isLit(t *Term) bool {
	return t.Op == OpInt || t.Op == OpTrue || t.Op == OpFalse
}

// distinctTerms reports whether a and b are syntactically known to differ.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == OpInt && b.Op == OpInt {
		return a.Int.Cmp(b.Int) != 0
	}
	if a.Op == OpConst && b.Op == OpConst {
		am, _ := a.meta.(distinctKind)
		bm, _ := b.meta.(distinctKind)
		if am != nil && bm != nil {
			return am.distinctFrom(bm)
		}
		if a == Nil && bm != nil || b == Nil && am != nil {
			return true
		}
	}
	// linear difference constant
	if a.Sort == SInt && b.Sort == SInt {
		d := linSub(linOf(a), linOf(b))
		if len(d.co) == 0 && d.c.Sign() != 0 {
			return true
		}
	}
	return false
}

// distinctKind marks constants that denote pairwise distinct non-nil values
// (fresh allocations within one run, string literals, function values).
type distinctKind interface{ distinctFrom(distinctKind) bool }
type allocMeta struct{ n int }

func (a *allocMeta) distinctFrom(o distinctKind) bool {
	b, ok := o.(*allocMeta)
	return !ok || a.n != b.n
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.Sort.Name, b, b.Sort.Name))
	}
	if distinctTerms(a, b) {
		return False
	}
	if a.Sort == SBool {
		if a.Op == OpTrue {
			return b
		}
		if b.Op == OpTrue {
			return a
		}
		if a.Op == OpFalse {
			return Not(b)
		}
		if b.Op == OpFalse {
			return Not(a)
		}
	}
	if a.Op == OpMk && b.Op == OpMk && a.Name == b.Name {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == OpIte && isLit(b) && isLit(a.Args[1]) && isLit(a.Args[2]) {
		return Or(And(a.Args[0], Eq(a.Args[1], b)), And(Not(a.Args[0]), Eq(a.Args[2], b)))
	}
	if b.Op == OpIte && isLit(a) && isLit(b.Args[1]) && isLit(b.Args[2]) {
		return Eq(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return TT.intern(&Term{Op: OpEq, Sort: SBool, Args: []*Term{a, b}})
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c.Op == OpTrue || a == b {
		return a
	}
	if c.Op == OpFalse {
		return b
	}
	if a.Sort != b.Sort {
		panic("Ite sort mismatch " + a.Sort.Name + " " + b.Sort.Name)
	}
	if a.Sort == SBool {
		if a.Op == OpTrue && b.Op == OpFalse {
			return c
		}
		if a.Op == OpFalse && b.Op == OpTrue {
			return Not(c)
		}
		if a.Op == OpTrue {
			return Or(c, b)
		}
		if b.Op == OpFalse {
			return And(c, a)
		}
		if a.Op == OpFalse {
			return And(Not(c), b)
		}
		if b.Op == OpTrue {
			return Or(Not(c), a)
		}
	}
	return TT.intern(&Term{Op: OpIte, Sort: a.Sort, Args: []*Term{c, a, b}})
}

// linear forms
type lin struct {
	co map[int]*big.Int
	ts map[int]*Term
	c  *big.Int
}

func linOf(t *Term) lin {
	l := lin{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
	var acc func(t *Term, k *big.Int)
	acc = func(t *Term, k *big.Int) {
		switch {
		case t.Op == OpInt:
			l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
		case t.Op == OpAdd:
			for _, a := range t.Args {
				acc(a, k)
			}
		case t.Op == OpMul && t.Args[0].Op == OpInt:
			acc(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
		default:
			if _, ok := l.co[t.ID]; !ok {
				l.co[t.ID] = new(big.Int)
				l.ts[t.ID] = t
			}
			l.co[t.ID].Add(l.co[t.ID], k)
			if l.co[t.ID].Sign() == 0 {
				delete(l.co, t.ID)
				delete(l.ts, t.ID)
			}
		}
	}
	acc(t, big.NewInt(1))
	return l
}
func linSub(a, b lin) lin {
	for id, k := range b.co {
		if _, ok := a.co[id]; !ok {
			a.co[id] = new(big.Int)
			a.ts[id] = b.ts[id]
		}
		a.co[id].Sub(a.co[id], k)
		if a.co[id].Sign() == 0 {
			delete(a.co, id)
			delete(a.ts, id)
		}
	}
	a.c.Sub(a.c, b.c)
	return a
}
// bvRank: ground terms, then terms over bound variables, then bound variables.
func bvRank(t *Term) int {
	switch {
	case t.IsBV:
		return 2
	case t.hasBV:
		return 1
	}
	return 0
}

func (l lin) term() *Term {
	var ids []int
	for id := range l.co {
		ids = append(ids, id)
	}
	// ground parts first: quantifier patterns then have the shape of the ground terms they are to match
	sort.Slice(ids, func(i, j int) bool {
		if a, b := bvRank(l.ts[ids[i]]), bvRank(l.ts[ids[j]]); a != b {
			return a < b
		}
		return ids[i] < ids[j]
	})
	var args []*Term
	for _, id := range ids {
		if l.co[id].IsInt64() && l.co[id].Int64() == 1 {
			args = append(args, l.ts[id])
		} else {
			args = append(args, TT.intern(&Term{Op: OpMul, Sort: SInt, Args: []*Term{IB(l.co[id]), l.ts[id]}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, IB(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return TT.intern(&Term{Op: OpAdd, Sort: SInt, Args: args})
}

func Add(xs ...*Term) *Term {
	if len(xs) > 0 && xs[0].Sort == SReal {
		if len(xs) == 1 {
			return xs[0]
		}
		return TT.intern(&Term{Op: OpAdd, Sort: SReal, Args: xs})
	}
	l := lin{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)}
	for _, x := range xs {
		l = linSub(l, negLin(linOf(x)))
	}
	return l.term()
}
func negLin(l lin) lin {
	for _, k := range l.co {
		k.Neg(k)
	}
	l.c.Neg(l.c)
	return l
}
func Neg(a *Term) *Term {
	if a.Sort == SReal {
		return TT.intern(&Term{Op: OpMul, Sort: SReal, Args: []*Term{RealLit("(- 1.0)"), a}})
	}
	return negLin(linOf(a)).term()
}
func Sub(a, b *Term) *Term {
	if a.Sort == SReal {
		return Add(a, Neg(b))
	}
	return linSub(linOf(a), linOf(b)).term()
}
func Mul(a, b *Term) *Term {
	if a.Sort == SReal {
		return TT.intern(&Term{Op: OpMul, Sort: SReal, Args: []*Term{a, b}})
	}
	if b.Op == OpInt {
		a, b = b, a
	}
	if a.Op == OpInt {
		l := linOf(b)
		for id, k := range l.co {
			k.Mul(k, a.Int)
			if k.Sign() == 0 {
				delete(l.co, id)
				delete(l.ts, id)
			}
		}
		l.c.Mul(l.c, a.Int)
		return l.term()
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return TT.intern(&Term{Op: OpMul, Sort: SInt, Args: []*Term{a, b}})
}
func Lt(a, b *Term) *Term {
	if a.Sort == SReal {
		return TT.intern(&Term{Op: OpLt, Sort: SBool, Args: []*Term{a, b}})
	}
	d := linSub(linOf(a), linOf(b))
	if len(d.co) == 0 {
		return Bool(d.c.Sign() < 0)
	}
	return TT.intern(&Term{Op: OpLt, Sort: SBool, Args: []*Term{a, b}})
}
func Le(a, b *Term) *Term {
	if a.Sort == SReal {
		return TT.intern(&Term{Op: OpLe, Sort: SBool, Args: []*Term{a, b}})
	}
	d := linSub(linOf(a), linOf(b))
	if len(d.co) == 0 {
		return Bool(d.c.Sign() <= 0)
	}
	return TT.intern(&Term{Op: OpLe, Sort: SBool, Args: []*Term{a, b}})
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func EDiv(a, b *Term) *Term {
	if a.Op == OpInt && b.Op == OpInt && b.Int.Sign() > 0 {
		q := new(big.Int)
		q.DivMod(a.Int, b.Int, new(big.Int))
		return IB(q)
	}
	if b.Op == OpInt && b.Int.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return TT.intern(&Term{Op: OpDiv, Sort: SInt, Args: []*Term{a, b}})
}
func EMod(a, b *Term) *Term {
	if a.Op == OpInt && b.Op == OpInt && b.Int.Sign() > 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.Int, b.Int, m)
		return IB(m)
	}
	return TT.intern(&Term{Op: OpMod, Sort: SInt, Args: []*Term{a, b}})
}
func RDiv(a, b *Term) *Term {
	return TT.intern(&Term{Op: OpRDiv, Sort: SReal, Args: []*Term{a, b}})
}
func ToReal(a *Term) *Term { return TT.intern(&Term{Op: OpToReal, Sort: SReal, Args: []*Term{a}}) }
func ToIntFloor(a *Term) *Term {
	return TT.intern(&Term{Op: OpToInt, Sort: SInt, Args: []*Term{a}})
}

func Select(a, i *Term) *Term {
	if a.Sort.Elem == nil {
		panic("Select on non-array " + a.String() + ":" + a.Sort.Name)
	}
	if a.Sort.Index != i.Sort {
		panic("Select index sort mismatch " + a.Sort.Name + " idx " + i.Sort.Name)
	}
	x := a
	for {
		if x.Op == OpStore {
			if x.Args[1] == i {
				return x.Args[2]
			}
			if distinctTerms(x.Args[1], i) {
				x = x.Args[0]
				continue
			}
		}
		if x.Op == OpConstArr {
			return x.Args[0]
		}
		break
	}
	if x.Op == OpIte {
		t, e := Select(x.Args[1], i), Select(x.Args[2], i)
		return Ite(x.Args[0], t, e)
	}
	return TT.intern(&Term{Op: OpSelect, Sort: a.Sort.Elem, Args: []*Term{x, i}})
}
func Store(a, i, v *Term) *Term {
	if a.Sort.Elem == nil || a.Sort.Index != i.Sort || a.Sort.Elem != v.Sort {
		panic(fmt.Sprintf("Store sort mismatch %s [%s] := %s", a.Sort.Name, i.Sort.Name, v.Sort.Name))
	}
	if v.Op == OpSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == OpStore && a.Args[1] == i {
		a = a.Args[0]
	}
	return TT.intern(&Term{Op: OpStore, Sort: a.Sort, Args: []*Term{a, i, v}})
}
func ConstArr(s *Sort, v *Term) *Term {
	if s.Elem != v.Sort {
		panic("ConstArr sort")
	}
	return TT.intern(&Term{Op: OpConstArr, Sort: s, Args: []*Term{v}})
}

// App builds an application of a declared function (declared on demand).
func App(name string, s *Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Const(name, s)
	}
	return TT.intern(&Term{Op: OpApp, Name: name, Sort: s, Args: args})
}
func Mk(s *Sort, args ...*Term) *Term {
	if s.DT == nil || len(s.DT.Fields) != len(args) {
		panic("Mk arity " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.DT.Fields[i].Sort {
			panic(fmt.Sprintf("Mk %s field %s: %s vs %s", s.Name, s.DT.Fields[i].Name, a.Sort.Name, s.DT.Fields[i].Sort.Name))
		}
	}
	// mk(sel0(x),...,seln(x)) = x
	if len(args) > 0 && args[0].Op == OpSel {
		x := args[0].Args[0]
		ok := x.Sort == s
		for i, a := range args {
			if a.Op != OpSel || a.Args[0] != x || a.Name != s.DT.Fields[i].Name {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return TT.intern(&Term{Op: OpMk, Name: s.Name, Sort: s, Args: args})
}
func Sel(x *Term, field int) *Term {
	if x.Sort.DT == nil {
		panic("Sel on non-datatype " + x.String() + " : " + x.Sort.Name)
	}
	if x.Op == OpMk {
		return x.Args[field]
	}
	if x.Op == OpIte {
		return Ite(x.Args[0], Sel(x.Args[1], field), Sel(x.Args[2], field))
	}
	f := x.Sort.DT.Fields[field]
	return TT.intern(&Term{Op: OpSel, Name: f.Name, Sort: f.Sort, Args: []*Term{x}})
}
func Upd(x *Term, field int, v *Term) *Term {
	args := make([]*Term, len(x.Sort.DT.Fields))
	for i := range args {
		if i == field {
			args[i] = v
		} else {
			args[i] = Sel(x, i)
		}
	}
	return Mk(x.Sort, args...)
}

func Forall(vs []*Term, body *Term, trig ...[]*Term) *Term {
	return quant(OpForall, vs, body, trig)
}
func Exists(vs []*Term, body *Term, trig ...[]*Term) *Term {
	return quant(OpExists, vs, body, trig)
}
func quant(op Op, vs []*Term, body *Term, trig [][]*Term) *Term {
	if body.Op == OpTrue || body.Op == OpFalse || len(vs) == 0 {
		return body
	}
	used := freeBVs(body, map[int]map[int]bool{})
	var keep []*Term
	for _, v := range vs {
		if used[v.ID] {
			keep = append(keep, v)
		}
	}
	if len(keep) == 0 {
		return body
	}
	var tg [][]*Term
	for _, g := range trig {
		ok := true
		for _, t := range g {
			ok = ok && patternOK(t)
		}
		if ok {
			tg = append(tg, g)
		}
	}
	return TT.intern(&Term{Op: op, Sort: SBool, Args: []*Term{body}, Bound: keep, Trig: tg})
}

// patternOK: solvers reject connectives in patterns.
func patternOK(t *Term) bool {
	if !t.hasBV {
		return true
	}
	switch t.Op {
	case OpIte, OpAnd, OpOr, OpNot, OpEq, OpForall, OpExists, OpImp:
		return false
	}
	for _, a := range t.Args {
		if !patternOK(a) {
			return false
		}
	}
	return true
}

func (t *Term) isNilRef() bool { return t == Nil }

// Slice helpers
func SlMk(arr, off, ln, cp *Term) *Term { return Mk(SSlice, arr, off, ln, cp) }
func SlArr(s *Term) *Term               { return Sel(s, 0) }
func SlOff(s *Term) *Term               { return Sel(s, 1) }
func SlLen(s *Term) *Term               { return Sel(s, 2) }
func SlCap(s *Term) *Term               { return Sel(s, 3) }

var NilSlice = SlMk(Nil, I(0), I(0), I(0))

func (t *Term) String() string { return t.smt(nil) }

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func q(n string) string {
	n = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '!'
		}
		return r
	}, n)
	return "|" + n + "|"
}

var opName = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpImp: "=>", OpEq: "=", OpIte: "ite", OpAdd: "+", OpMul: "*", OpLt: "<", OpLe: "<=", OpDiv: "div", OpMod: "mod", OpSelect: "select", OpStore: "store", OpRDiv: "/", OpToReal: "to_real", OpToInt: "to_int"}

// smt prints the term; names maps shared node ids to defined names.
func (t *Term) smt(names map[int]string) string {
	var b strings.Builder
	t.write(&b, names, true)
	return b.String()
}
func (t *Term) write(b *strings.Builder, names map[int]string, top bool) {
	if names != nil && !top {
		if n, ok := names[t.ID]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.Op {
	case OpConst:
		b.WriteString(q(t.Name))
	case OpInt:
		b.WriteString(smtInt(t.Int))
	case OpReal:
		b.WriteString(t.Name)
	case OpTrue:
		b.WriteString("true")
	case OpFalse:
		b.WriteString("false")
	case OpConstArr:
		b.WriteString("((as const " + t.Sort.Name + ") ")
		t.Args[0].write(b, names, false)
		b.WriteString(")")
	case OpForall, OpExists:
		if t.Op == OpForall {
			b.WriteString("(forall (")
		} else {
			b.WriteString("(exists (")
		}
		for _, v := range t.Bound {
			b.WriteString("(" + q(v.Name) + " " + v.Sort.Name + ")")
		}
		b.WriteString(") ")
		if len(t.Trig) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(b, names, false)
		if len(t.Trig) > 0 {
			for _, tg := range t.Trig {
				b.WriteString(" :pattern (")
				for i, x := range tg {
					if i > 0 {
						b.WriteString(" ")
					}
					x.write(b, names, false)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		b.WriteString("(")
		switch t.Op {
		case OpApp:
			b.WriteString(q(t.Name))
		case OpMk:
			b.WriteString(q("mk_" + t.Name))
		case OpSel:
			b.WriteString(q(t.Name))
		case OpMod, OpDiv:
			if t.Args[1].Op != OpInt {
				b.WriteString("v")
			}
			b.WriteString(opName[t.Op])
		default:
			b.WriteString(opName[t.Op])
		}
		for _, a := range t.Args {
			b.WriteString(" ")
			a.write(b, names, false)
		}
		b.WriteString(")")
	}
}

// Subst replaces terms (by ID) inside t.
func Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.ID]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}
func rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case OpNot:
		return Not(a[0])
	case OpAnd:
		return And(a...)
	case OpOr:
		return Or(a...)
	case OpImp:
		return Imp(a[0], a[1])
	case OpEq:
		return Eq(a[0], a[1])
	case OpIte:
		return Ite(a[0], a[1], a[2])
	case OpAdd:
		return Add(a...)
	case OpMul:
		return Mul(a[0], a[1])
	case OpLt:
		return Lt(a[0], a[1])
	case OpLe:
		return Le(a[0], a[1])
	case OpDiv:
		return EDiv(a[0], a[1])
	case OpMod:
		return EMod(a[0], a[1])
	case OpSelect:
		return Select(a[0], a[1])
	case OpStore:
		return Store(a[0], a[1], a[2])
	case OpApp:
		return App(t.Name, t.Sort, a...)
	case OpMk:
		return Mk(t.Sort, a...)
	case OpSel:
		for i, f := range a[0].Sort.DT.Fields {
			if f.Name == t.Name {
				return Sel(a[0], i)
			}
		}
	case OpForall, OpExists:
		var tg [][]*Term
		for _, g := range t.Trig {
			var ng []*Term
			for _, x := range g {
				ng = append(ng, rec(x))
			}
			tg = append(tg, ng)
		}
		return quant(t.Op, t.Bound, a[0], tg)
	case OpConstArr:
		return ConstArr(t.Sort, a[0])
	case OpRDiv:
		return RDiv(a[0], a[1])
	case OpToReal:
		return ToReal(a[0])
	case OpToInt:
		return ToIntFloor(a[0])
	}
	panic("rebuild " + t.String())
}

// contains reports whether term t contains subterm with one of ids.
func mentions(t *Term, pred func(*Term) bool) bool {
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if v, ok := memo[t.ID]; ok {
			return v
		}
		memo[t.ID] = false
		r := pred(t)
		if !r {
			for _, a := range t.Args {
				if rec(a) {
					r = true
					break
				}
			}
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}
