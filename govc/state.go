package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	T    *Term
	Loc  *Loc
	Tup  []Val
	It   *rangeIter
	Prom *Term // a local whose address escaped: its heap object
}

type LocKind int

const (
	LCell   LocKind = iota
	LHeap           // heap[Key][Base]
	LElem           // heap[Key][Base][Idx]
	LGlobal         // heap[Key]
)

type pathEl struct {
	Field int
	Idx   *Term
}
type Loc struct {
	Kind  LocKind
	Key   string
	Base  *Term
	Idx   *Term
	Cell  int
	Path  []pathEl
	Root  types.Type
	Ty    types.Type
	Reint bool
}

type rangeIter struct {
	m       *Term // map ref
	mt      *types.Map
	visited *Term
	key     string
}

type funcMeta struct {
	fn       *ssa.Function
	bindings []Val
	tsub     tsubst
	name     string
}

func (f *funcMeta) distinctFrom(o distinctKind) bool {
	b, ok := o.(*funcMeta)
	return !ok || b.fn != f.fn
}

type ifaceMeta struct {
	v  Val
	ty types.Type
}
type mapMeta struct {
	birth *Term
	key   string
	base  *Term // the object whose field this is the (havoced) value of
}

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type envKey struct {
	fr int
	v  ssa.Value
}
type loopKey struct {
	fr int
	b  *ssa.BasicBlock
}
type deferCall struct {
	run func(st *State, k func(*State))
}
type State struct {
	heap    map[string]*Term
	cells   map[int]Val
	env     map[envKey]Val
	pc      *pcNode
	pcset   map[int]bool
	now     *Term
	defers  map[int][]deferCall
	loops   map[loopKey]*loopCtx
	lockOld *State // snapshot at first lock acquisition (atomic contracts)
	lockNew *State
	lockMods []modLoc
	trace   []string
	names   map[nameKey]nameVal
	br      []*Term // branch conditions (only while evaluating pure functions)
	pure    bool
	esc     map[int]bool // cells captured by goroutines
}

type nameKey struct {
	fr   int
	name string
}
type nameVal struct {
	v    Val
	addr bool
	ty   types.Type
}

func (st *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)), cells: make(map[int]Val, len(st.cells)), env: make(map[envKey]Val, len(st.env)), pc: st.pc, now: st.now,
		defers: make(map[int][]deferCall, len(st.defers)), loops: make(map[loopKey]*loopCtx, len(st.loops)), pcset: make(map[int]bool, len(st.pcset)), lockOld: st.lockOld, lockNew: st.lockNew, lockMods: st.lockMods}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	for k, v := range st.env {
		n.env[k] = v
	}
	for k, v := range st.defers {
		n.defers[k] = append([]deferCall{}, v...)
	}
	for k, v := range st.loops {
		n.loops[k] = v
	}
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.trace = append([]string{}, st.trace...)
	if st.names != nil {
		n.names = make(map[nameKey]nameVal, len(st.names))
		for k, v := range st.names {
			n.names[k] = v
		}
	}
	n.pure = st.pure
	n.br = append([]*Term{}, st.br...)
	if st.esc != nil {
		n.esc = map[int]bool{}
		for k := range st.esc {
			n.esc[k] = true
		}
	}
	return n
}

// snap is a cheap heap-only snapshot for old() evaluation.
func (st *State) snap() *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)), cells: make(map[int]Val, len(st.cells)), now: st.now}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	return n
}

func (st *State) assume(t *Term) {
	if t.Op == OpTrue {
		return
	}
	if t.Op == OpAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if st.pcset[t.ID] {
		return
	}
	if st.pcset == nil {
		st.pcset = map[int]bool{}
	}
	st.pcset[t.ID] = true
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, st.pc, n}
}

func (st *State) pcTerms() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------- executor ----------
type Obl struct {
	Name   string
	Kind   string
	Func   string
	Pos    string
	Tags   []string
	Hyps   []*Term
	Goal   *Term
	Res    SolveResult
	Trace  []string
	snapAx map[string]int
	text   string
}

type writeRec struct {
	frames map[int]bool
	keys   map[string]map[int]*Term // key -> base id -> base (nil base: id 0)
	cells  map[int]map[int]bool // top-level fields written, -1: the whole cell
	proms  map[int]bool
}

func newWriteRec() *writeRec {
	return &writeRec{keys: map[string]map[int]*Term{}, cells: map[int]map[int]bool{}, proms: map[int]bool{}}
}

type unsup struct {
	msg string
}

type Exec struct {
	P         *Program
	S         *Specs
	fn        *ssa.Function
	C         *Contract
	obls      []*Obl
	dry       int
	ncell     int
	nframe    int
	nalloc    int
	npaths    int
	exits     int
	recs      []*writeRec
	sorts     map[string]*Sort // heap map sorts
	ktype     map[string]types.Type
	now0      *Term
	entry     *State
	topFrame  *Frame
	feas      *feasSolver
	assumed   map[string]bool // externals used by assumption
	used      map[string]bool // contracts used
	inlined   map[string]bool
	oblName   map[string]int
	loopOrd   map[string]int
	loopSeq   int
	wcache    map[string]*writeRec
	closN     int
	prefix    string
	axdone    map[string]bool
	stack     []string
	pos       token.Pos
	cellTy    map[int]types.Type
	trivial   int
	nobl      int
	dryLoops  []*dryLoop
	headers   map[*ssa.Function]*loopInfo
	loopIdx   map[*ssa.BasicBlock]int
	offers    []chanOffer // what the channel operation at hand waits for
	iterIdx   map[*ssa.CallCommon]int
	callSite  *ssa.Call
	allocs    map[*ssa.Function]map[token.Pos]*ssa.Alloc
	atomicOld bool
	evState   *State
	topSub    tsubst
	paramVars map[string]SV
	res       *FuncResult
	entryMods []modLoc
	freeCells []freeCell
}

type dryLoop struct {
	fr   int
	body map[*ssa.BasicBlock]bool
}

type Frame struct {
	id      int
	fn      *ssa.Function
	tsub    tsubst
	depth   int
	k       func(st *State, res []Val)
	parent  *Frame
	dryRet  bool
	params  []Val
	callPos string
}

func (ex *Exec) fail(f string, a ...any) {
	p := ""
	if ex.pos.IsValid() {
		p = ex.P.Fset.Position(ex.pos).String() + ": "
	}
	panic(unsup{p + fmt.Sprintf(f, a...)})
}

func (ex *Exec) heapSort(key string, s *Sort) {
	if o, ok := ex.sorts[key]; ok {
		if o != s {
			ex.fail("heap key %s has sorts %s and %s", key, o.Name, s.Name)
		}
		return
	}
	ex.sorts[key] = s
}

func (ex *Exec) get(st *State, key string, s *Sort) *Term {
	ex.heapSort(key, s)
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := Const("H0|"+key, s)
	if t.meta == nil {
		t.meta = &mapMeta{birth: ex.now0, key: key}
		if strings.HasPrefix(key, "LOG:") {
			// the log array may be looked at for the first time after calls were added
			t.meta = &mapMeta{key: key}
		}
		if key == "LK:r" || strings.HasPrefix(key, "CH:") && s.Elem == SInt || strings.HasPrefix(key, "CH:") && s == SInt {
			// counters are non-negative
			r := BVar("r", SRef)
			if s.Elem == SInt && s.Index == SRef {
				addAxiom(t.Name, "nn", func() *Term {
					return Forall([]*Term{r}, Ge(Select(t, r), I(0)), []*Term{Select(t, r)})
				})
			}
		}
		if strings.HasPrefix(key, "LOG:") && s == SInt {
			addAxiom(t.Name, "nn", func() *Term { return Ge(t, I(0)) })
		}
	}
	return t
}

func (ex *Exec) set(st *State, key string, base *Term, v *Term) {
	ex.heapSort(key, v.Sort)
	st.heap[key] = v
	ex.rec(key, base)
}
func (ex *Exec) rec(key string, base *Term) {
	for _, r := range ex.recs {
		m := r.keys[key]
		if m == nil {
			m = map[int]*Term{}
			r.keys[key] = m
		}
		if base == nil {
			m[0] = nil
		} else {
			m[base.ID] = base
		}
	}
}

// ---- object model ----

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := under(t).(*types.Struct)
	return s, ok
}

func fieldKey(t types.Type, st *types.Struct, i int) string {
	f := st.Field(i)
	k := "F:" + originKey(t) + "." + f.Name()
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Origin().TypeParams().Len() > 0 {
		k += "|" + sortOf(f.Type()).Name
	}
	return k
}

// subRef is the address of a sub-object field of base.
func subRef(t types.Type, st *types.Struct, i int, base *Term) *Term {
	name := "sub:" + originKey(t) + "." + st.Field(i).Name()
	r := App(name, SRef, base)
	addAxiom(name, "inj", func() *Term {
		b := BVar("b", SRef)
		x := App(name, SRef, b)
		return Forall([]*Term{b}, And(Eq(App("inv:"+name, SRef, x), b), Eq(App("kind", SInt, x), I(int64(hash(name)%1000000000)+1)), Eq(App("at", SInt, x), App("at", SInt, b)), Neq(x, Nil)), []*Term{x})
	})
	return r
}

// elemRef is the address of element i of a slice array of object-typed elements.
func elemRefOf(arr, i *Term) *Term {
	r := App("elemref", SRef, arr, i)
	addAxiom("elemref", "inj", func() *Term {
		b := BVar("b", SRef)
		j := BVar("j", SInt)
		x := App("elemref", SRef, b, j)
		return Forall([]*Term{b, j}, And(Eq(App("elemarr", SRef, x), b), Eq(App("elemidx", SInt, x), j), Eq(App("kind", SInt, x), I(-7)), Eq(App("at", SInt, x), App("at", SInt, b)), Neq(x, Nil)), []*Term{x})
	})
	return r
}

func (ex *Exec) elemIsRef(t types.Type) bool { return ex.S.ElemRef[originKey(t)] }

func at(r *Term) *Term { return App("at", SInt, r) }

func (ex *Exec) alloc(st *State, name string) *Term {
	ex.nalloc++
	r := Fresh("new_"+name, SRef)
	r.meta = &allocMeta{ex.nalloc}
	st.assume(Neq(r, Nil))
	st.assume(Eq(at(r), st.now))
	st.assume(Eq(App("kind", SInt, r), I(0)))
	st.now = Add(st.now, I(1))
	return r
}

// typeFacts are facts true of any value of the type in the given state.
func (ex *Exec) typeFacts(st *State, t *Term, ty types.Type, out *[]*Term) {
	if t == nil || t.hasBV {
		return
	}
	ty = types.Unalias(ty)
	if _, ok := ty.(*types.TypeParam); ok {
		return
	}
	if t.Op == OpInt {
		return
	}
	if opaqueStruct(ty) {
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if r, ok := rangeOf(ty); ok {
			*out = append(*out, Le(IB(r.lo), t), Le(t, IB(r.hi)))
		} else if t.Sort == SStr {
			l := App("slen", SInt, t)
			*out = append(*out, Le(I(0), l), Le(l, I(1<<48)))
		}
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		if t == Nil {
			return
		}
		if m, ok := t.meta.(distinctKind); ok && m != nil {
			return
		}
		*out = append(*out, Lt(at(t), st.now))
		ex.birthFact(st, t, t, out)
	case *types.Slice:
		if t.Op == OpMk {
			return
		}
		*out = append(*out, Le(I(0), SlOff(t)), Le(I(0), SlLen(t)), Le(SlLen(t), SlCap(t)), Le(SlCap(t), I(1<<48)), Le(SlOff(t), I(1<<48)),
			Imp(Eq(SlArr(t), Nil), Eq(SlCap(t), I(0))), Lt(at(SlArr(t)), st.now), Eq(App("kind", SInt, SlArr(t)), I(-1)))
		ex.birthFact(st, t, SlArr(t), out)
	case *types.Struct:
		if t.Sort.DT == nil {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ex.typeFacts(st, Sel(t, i), u.Field(i).Type(), out)
		}
	}
}

// birthFact: a reference loaded from a heap map version that existed at time b, at an
// object that existed then, existed then too.
func (ex *Exec) birthFact(st *State, t, ref *Term, out *[]*Term) {
	x := t
	var guards []*Term
	for {
		if x.Op == OpSelect {
			if x.Args[1].Sort == SRef {
				guards = append(guards, x.Args[1])
			}
			x = x.Args[0]
			continue
		}
		if x.Op == OpSel {
			x = x.Args[0]
			continue
		}
		break
	}
	if x.Op == OpConst {
		if m, ok := x.meta.(*mapMeta); ok && m.birth != nil && m.birth != st.now {
			var g []*Term
			for _, r := range guards {
				g = append(g, Lt(at(r), m.birth))
			}
			*out = append(*out, Imp(And(g...), Lt(at(ref), m.birth)))
		}
	}
}

func (ex *Exec) addFacts(st *State, t *Term, ty types.Type) *Term {
	var fs []*Term
	ex.typeFacts(st, t, ty, &fs)
	for _, f := range fs {
		st.assume(f)
	}
	return t
}

func (ex *Exec) freshVal(st *State, name string, ty types.Type) *Term {
	t := Fresh(name, sortOf(ty))
	if t.meta == nil {
		t.meta = &mapMeta{birth: st.now}
	}
	return ex.addFacts(st, t, ty)
}

// loadRef loads a whole value of type ty stored at object reference r.
func (ex *Exec) loadRef(st *State, r *Term, ty types.Type) *Term {
	if s, ok := structOf(ty); ok && !opaqueStruct(ty) && !identityStruct(ty) {
		srt := sortOf(ty)
		if s.NumFields() == 0 {
			return Mk(srt, True)
		}
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			args = append(args, ex.loadField(st, r, ty, s, i))
		}
		return Mk(srt, args...)
	}
	key := "C:" + typeKey(under(ty))
	if opaqueStruct(ty) || identityStruct(ty) {
		key = "C:" + typeKey(ty)
	}
	m := ex.get(st, key, SArr(SRef, sortOf(ty)))
	return ex.addFacts(st, Select(m, r), ty)
}

func (ex *Exec) loadField(st *State, r *Term, ty types.Type, s *types.Struct, i int) *Term {
	ft := s.Field(i).Type()
	if subObject(ft) {
		return ex.loadRef(st, subRef(ty, s, i, r), ft)
	}
	m := ex.get(st, fieldKey(ty, s, i), SArr(SRef, sortOf(ft)))
	return ex.addFacts(st, Select(m, r), ft)
}

func (ex *Exec) storeRef(st *State, r *Term, ty types.Type, v *Term) {
	if s, ok := structOf(ty); ok && !opaqueStruct(ty) && !identityStruct(ty) {
		for i := 0; i < s.NumFields(); i++ {
			ex.storeField(st, r, ty, s, i, Sel(v, i))
		}
		return
	}
	key := "C:" + typeKey(under(ty))
	if opaqueStruct(ty) || identityStruct(ty) {
		key = "C:" + typeKey(ty)
	}
	m := ex.get(st, key, SArr(SRef, sortOf(ty)))
	ex.set(st, key, r, Store(m, r, v))
}

func (ex *Exec) storeField(st *State, r *Term, ty types.Type, s *types.Struct, i int, v *Term) {
	ft := s.Field(i).Type()
	if subObject(ft) {
		ex.storeRef(st, subRef(ty, s, i, r), ft, v)
		return
	}
	key := fieldKey(ty, s, i)
	m := ex.get(st, key, SArr(SRef, sortOf(ft)))
	ex.set(st, key, r, Store(m, r, v))
}

func elemKey(t types.Type) string {
	k := "E:" + typeKey(t)
	switch under(t).(type) {
	case *types.Basic:
		k = "E:" + typeKey(under(t))
	}
	return k
}

func (ex *Exec) elemMap(st *State, t types.Type) (string, *Term) {
	k := elemKey(t)
	return k, ex.get(st, k, SArr(SRef, SArr(SInt, sortOf(t))))
}

// ---- locations ----
func (ex *Exec) loadRoot(st *State, l *Loc) Val {
	switch l.Kind {
	case LCell:
		v, ok := st.cells[l.Cell]
		if !ok {
			ex.fail("load of unknown cell")
		}
		if v.Prom != nil {
			return Val{T: ex.loadRef(st, v.Prom, l.Root)}
		}
		return v
	case LHeap:
		m := ex.get(st, l.Key, SArr(SRef, sortOf(l.Root)))
		return Val{T: ex.addFacts(st, Select(m, l.Base), l.Root)}
	case LElem:
		m := ex.get(st, l.Key, SArr(SRef, SArr(SInt, sortOf(l.Root))))
		return Val{T: ex.addFacts(st, Select(Select(m, l.Base), l.Idx), l.Root)}
	case LGlobal:
		m := ex.get(st, l.Key, sortOf(l.Root))
		return Val{T: ex.addFacts(st, m, l.Root)}
	}
	panic("loadRoot")
}

func (ex *Exec) load(st *State, l *Loc) Val {
	if l.Reint {
		return Val{T: ex.loadReint(st, l)}
	}
	v := ex.loadRoot(st, l)
	if len(l.Path) == 0 {
		return v
	}
	if v.T == nil {
		ex.fail("path into non-term cell")
	}
	t := v.T
	for _, p := range l.Path {
		if p.Idx != nil {
			t = Select(t, p.Idx)
		} else {
			t = Sel(t, p.Field)
		}
	}
	return Val{T: ex.addFacts(st, t, l.Ty)}
}

func (r *writeRec) cell(c, f int) bool {
	if r.cells[c][f] {
		return false
	}
	if r.cells[c] == nil {
		r.cells[c] = map[int]bool{}
	}
	r.cells[c][f] = true
	return true
}

func updPath(t *Term, path []pathEl, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Idx != nil {
		return Store(t, p.Idx, updPath(Select(t, p.Idx), path[1:], v))
	}
	return Upd(t, p.Field, updPath(Sel(t, p.Field), path[1:], v))
}

func (ex *Exec) store(st *State, l *Loc, v Val) {
	if l.Reint {
		ex.storeReint(st, l, v.T)
		return
	}
	if len(l.Path) > 0 {
		root := ex.loadRoot(st, l)
		if v.T == nil {
			v = Val{T: ex.asTerm(st, v)}
		}
		v = Val{T: updPath(root.T, l.Path, v.T)}
	}
	switch l.Kind {
	case LCell:
		if p := st.cells[l.Cell].Prom; p != nil {
			ex.storeRef(st, p, l.Root, ex.asTerm(st, v))
			return
		}
		st.cells[l.Cell] = v
		f := -1
		if len(l.Path) > 0 && l.Path[0].Idx == nil {
			f = l.Path[0].Field
		}
		for _, r := range ex.recs {
			r.cell(l.Cell, f)
		}
	case LHeap:
		m := ex.get(st, l.Key, SArr(SRef, sortOf(l.Root)))
		ex.set(st, l.Key, l.Base, Store(m, l.Base, ex.asTerm(st, v)))
	case LElem:
		m := ex.get(st, l.Key, SArr(SRef, SArr(SInt, sortOf(l.Root))))
		ex.set(st, l.Key, l.Base, Store(m, l.Base, Store(Select(m, l.Base), l.Idx, ex.asTerm(st, v))))
	case LGlobal:
		ex.get(st, l.Key, sortOf(l.Root))
		ex.set(st, l.Key, nil, ex.asTerm(st, v))
	}
}

// byte-level access: pointer to byte i of an array/slice viewed as *int64
func (ex *Exec) reintParts(st *State, l *Loc) (get func(i int) *Term, put func(st *State, bs []*Term)) {
	if l.Kind == LElem && len(l.Path) == 0 {
		m := ex.get(st, l.Key, SArr(SRef, SArr(SInt, SInt)))
		return func(i int) *Term { return Select(Select(m, l.Base), Add(l.Idx, I(int64(i)))) },
			func(st *State, bs []*Term) {
				a := Select(m, l.Base)
				for i, b := range bs {
					a = Store(a, Add(l.Idx, I(int64(i))), b)
				}
				ex.set(st, l.Key, l.Base, Store(m, l.Base, a))
			}
	}
	if n := len(l.Path); n > 0 && l.Path[n-1].Idx != nil {
		al := *l
		al.Reint = false
		al.Path = l.Path[:n-1]
		al.Ty = nil
		idx := l.Path[n-1].Idx
		arr := func() *Term {
			t := ex.loadRoot(st, &al).T
			for _, p := range al.Path {
				if p.Idx != nil {
					t = Select(t, p.Idx)
				} else {
					t = Sel(t, p.Field)
				}
			}
			return t
		}()
		return func(i int) *Term { return Select(arr, Add(idx, I(int64(i)))) },
			func(st *State, bs []*Term) {
				a := arr
				for i, b := range bs {
					a = Store(a, Add(idx, I(int64(i))), b)
				}
				ex.store(st, &al, Val{T: a})
			}
	}
	ex.fail("unsupported reinterpreting pointer")
	return nil, nil
}

var pow256 = func() []*Term {
	var out []*Term
	v := I(1)
	for i := 0; i < 8; i++ {
		out = append(out, v)
		v = Mul(v, I(256))
	}
	return out
}()

// leSum is sum of bytes b[i]*256^i ; be reverses.
func byteSum(get func(i int) *Term, n int, be bool) *Term {
	var xs []*Term
	for i := 0; i < n; i++ {
		j := i
		if be {
			j = n - 1 - i
		}
		xs = append(xs, Mul(pow256[i], get(j)))
	}
	return Add(xs...)
}

// splitBytes introduces n fresh bytes whose sum is the unsigned value u.
func (ex *Exec) splitBytes(st *State, u *Term, n int, be bool) []*Term {
	bs := make([]*Term, n)
	for i := range bs {
		bs[i] = Fresh("byte", SInt)
		st.assume(Le(I(0), bs[i]))
		st.assume(Le(bs[i], I(255)))
	}
	st.assume(Eq(byteSum(func(i int) *Term { return bs[i] }, n, be), u))
	return bs
}

func (ex *Exec) loadReint(st *State, l *Loc) *Term {
	r, ok := rangeOf(l.Ty)
	if !ok {
		ex.fail("reinterpret as %s", l.Ty)
	}
	get, _ := ex.reintParts(st, l)
	n := r.bits / 8
	for i := 0; i < n; i++ {
		b := get(i)
		st.assume(Le(I(0), b))
		st.assume(Le(b, I(255)))
	}
	u := byteSum(get, n, false)
	if r.signed {
		return wrapTo(u, r, true)
	}
	return u
}
func (ex *Exec) storeReint(st *State, l *Loc, v *Term) {
	r, ok := rangeOf(l.Ty)
	if !ok {
		ex.fail("reinterpret as %s", l.Ty)
	}
	_, put := ex.reintParts(st, l)
	n := r.bits / 8
	u := v
	if r.signed {
		u = Ite(Lt(v, I(0)), Add(v, Mul(pow256[n-1], I(256))), v)
	}
	put(st, ex.splitBytes(st, u, n, false))
}

// promote moves a local whose address escapes to a fresh heap object.
func (ex *Exec) promote(st *State, l *Loc) *Term {
	c, ok := st.cells[l.Cell]
	if !ok {
		ex.fail("address of unknown cell")
	}
	if c.Prom != nil {
		return c.Prom
	}
	if c.T == nil {
		ex.fail("address of a pointer-to-local variable escapes")
	}
	r := ex.alloc(st, "esc")
	ex.storeRef(st, r, l.Root, c.T)
	st.cells[l.Cell] = Val{Prom: r}
	for _, w := range ex.recs {
		w.cell(l.Cell, -1)
		w.proms[l.Cell] = true
	}
	return r
}

// asTerm converts a value to a term (closures and refs already are).
func (ex *Exec) asTerm(st *State, v Val) *Term {
	if v.T != nil {
		return v.T
	}
	if l := v.Loc; l != nil && l.Kind == LCell && len(l.Path) == 0 && !l.Reint {
		return ex.promote(st, l)
	}
	if v.Loc != nil {
		ex.fail("address of a local or field escapes (%v %s)", v.Loc.Kind, v.Loc.Key)
	}
	ex.fail("value is not a term")
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
