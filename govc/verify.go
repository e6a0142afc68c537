package main

import (
	"runtime/debug"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome of symbolic execution of one function against its contract.
type FuncResult struct {
	Name     string
	Obls     []*Obl
	Unsup    string
	Assumed  map[string]bool
	Used     map[string]bool
	Inlined  map[string]bool
	Exits    int
	Covers   [][]*Term
	Trivial  int
	Secs     float64
	Vacuous  bool
	contract *Contract
}

func newExec(P *Program, S *Specs, C *Contract, feas *feasSolver) *Exec {
	return &Exec{P: P, S: S, C: C, feas: feas,
		sorts: map[string]*Sort{}, ktype: map[string]types.Type{}, assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		oblName: map[string]int{}, loopOrd: map[string]int{}, wcache: map[string]*writeRec{}, axdone: map[string]bool{}, cellTy: map[int]types.Type{},
		headers: map[*ssa.Function]*loopInfo{}, loopIdx: map[*ssa.BasicBlock]int{}, paramVars: map[string]SV{}, now0: Const("now0", SInt)}
}

func newState(now *Term) *State {
	return &State{heap: map[string]*Term{}, cells: map[int]Val{}, env: map[envKey]Val{}, pcset: map[int]bool{}, now: now, defers: map[int][]deferCall{}, loops: map[loopKey]*loopCtx{}, names: map[nameKey]nameVal{}}
}

// verifyFunc generates the obligations of one function contract.
func verifyFunc(P *Program, S *Specs, C *Contract, feas *feasSolver) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Name: C.Name, contract: C, Assumed: map[string]bool{}, Used: map[string]bool{}, Inlined: map[string]bool{}}
	fn := P.Funcs[C.Name]
	if fn == nil {
		res.Unsup = "function " + C.Name + " does not exist in the source"
		return
	}
	ex := newExec(P, S, C, feas)
	ex.fn = fn
	ex.res = res
	defer func() {
		res.Obls = ex.obls
		res.Assumed, res.Used, res.Inlined = ex.assumed, ex.used, ex.inlined
		res.Trivial = ex.trivial
		res.Exits = ex.exits
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				res.Unsup = u.msg
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			if debugObl {
				debug.PrintStack()
			}
			res.Unsup = fmt.Sprintf("internal error: %v", r)
		}
	}()
	if len(C.Params) == 0 {
		for _, p := range fn.Params {
			C.Params = append(C.Params, p.Name())
		}
	}
	if len(C.Params) != len(fn.Params) {
		ex.fail("contract of %s names %d parameters, the function has %d", C.Name, len(C.Params), len(fn.Params))
	}
	// type parameter instantiation
	if len(C.Inst) > 0 {
		ex.topSub = tsubst{}
		c := &specCtx{ex: ex, pkg: C.Pkg, file: C.File}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		for n, x := range C.Inst {
			tp := fnTypeParam(root, n)
			if tp == nil {
				ex.fail("no type parameter %s", n)
			}
			ex.topSub[tp] = c.goTy(x)
		}
	}
	ex.assignLoopOrdinals(fn)
	for _, l := range C.Loops {
		if l.Name == "" && l.Ord >= len(ex.loopIdx)+len(ex.iterIdx) {
			ex.fail("contract of %s has an invariant for loop %d but the function has %d loops", C.Name, l.Ord, len(ex.loopIdx)+len(ex.iterIdx))
		}
	}
	st := newState(ex.now0)
	fr := ex.newFrame(fn, ex.topSub, nil, nil)
	ex.topFrame = fr
	var args, free []Val
	for i, p := range fn.Params {
		t := fr.ty(p.Type())
		v := Const("in:"+C.Params[i], sortOf(t))
		if v.meta == nil {
			v.meta = &mapMeta{birth: ex.now0, key: C.Name + "." + p.Name()}
		}
		v = ex.addFacts(st, v, t)
		args = append(args, Val{T: v})
		ex.paramVars[C.Params[i]] = SV{V: Val{T: v}, Ty: goType(t)}
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := under(t).(*types.Pointer); ok {
				st.assume(Neq(v, Nil))
			}
		}
	}
	for _, fv := range fn.FreeVars {
		t := fr.ty(fv.Type())
		et := under(t).(*types.Pointer).Elem()
		if _, ok := structOf(et); ok && !opaqueStruct(et) {
			r := ex.addFacts(st, Const("free:"+fv.Name(), SRef), t)
			st.assume(Neq(r, Nil))
			free = append(free, Val{T: r})
			ex.paramVars[fv.Name()] = SV{Obj: r, Ty: goType(et)}
		} else {
			v := Const("free:"+fv.Name(), sortOf(et))
			if v.meta == nil {
				v.meta = &mapMeta{birth: ex.now0}
			}
			l := ex.newCell(st, Val{T: ex.addFacts(st, v, et)}, et)
			free = append(free, Val{Loc: l})
			st.names[nameKey{fr.id, fv.Name()}] = nameVal{Val{Loc: l}, true, et}
			ex.freeCells = append(ex.freeCells, freeCell{fv.Name(), l, writesFree(fn, fv)})
		}
	}
	ex.atomicOld = C.Opts["atomic"] != ""
	ctx := ex.ctxFor(st, fr)
	ctx.old = st
	for _, l := range C.Logicals {
		ty := ctx.resolveTy(l.Ty)
		v := Const("logical:"+l.Name, ty.sort())
		if ty.Go != nil {
			ex.addFacts(st, v, ty.Go)
		}
		ex.paramVars[l.Name] = SV{V: Val{T: v}, Ty: ty}
		ctx.vars[l.Name] = ex.paramVars[l.Name]
	}
	for _, l := range C.Lets {
		v := ctx.eval(l.E)
		ex.paramVars[l.Name] = v
		ctx.vars[l.Name] = v
	}
	for _, c := range C.Chooses {
		ty := ctx.resolveTy(c.V.Ty)
		ex.paramVars[c.V.Name] = SV{V: Val{T: Const("choose:"+c.V.Name, ty.sort())}, Ty: ty}
		ctx.vars[c.V.Name] = ex.paramVars[c.V.Name]
		st.assume(ctx.evalBool(c.E))
	}
	for _, r := range C.Req {
		st.assume(ctx.evalBool(r.E))
	}
	snapNames := st.names
	ex.entry = st.snap()
	ex.entry.names = copyNames(snapNames)
	ectx := ex.ctxFor(ex.entry, fr)
	ectx.st = st
	ex.entryMods = ectx.modLocs(C.Mods)
	for _, g := range C.Ghost0 {
		gc := ex.ctxFor(st, fr)
		gc.ghostAssign(g)
	}
	fr.k = func(st *State, rs []Val) { ex.exit(st, fr, rs, false) }
	ex.runBody(st, fr, args, free)
	if ex.exits == 0 && C.Opts["noreturn"] == "" {
		ex.fail("no path of %s reaches an exit", C.Name)
	}
	return
}

func copyNames(m map[nameKey]nameVal) map[nameKey]nameVal {
	n := map[nameKey]nameVal{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

type freeCell struct {
	name    string
	l       *Loc
	written bool
}

func (ex *Exec) exitPanic(st *State) { ex.exit(st, ex.topFrame, nil, true) }

// exit checks the postcondition and the frame on one path.
func (ex *Exec) exit(st *State, fr *Frame, rs []Val, panicking bool) {
	if ex.dry > 0 {
		return
	}
	C := ex.C
	if !ex.feasNow(st) {
		return
	}
	ex.exits++
	ctx := ex.ctxFor(st, fr)
	sig := ex.fn.Signature.Results()
	var rts []types.Type
	for i := 0; i < sig.Len(); i++ {
		rts = append(rts, fr.ty(sig.At(i).Type()))
	}
	for i, r := range rs {
		if r.T == nil && r.Loc != nil {
			r = Val{T: ex.asTermAny(st, r)}
		}
		sv := SV{V: r, Ty: goType(rts[i])}
		ctx.vars[fmt.Sprintf("res%d", i)] = sv
		if n := sig.At(i).Name(); n != "" && n != "_" {
			if _, isParam := ctx.vars[n]; !isParam {
				ctx.vars[n] = sv
			}
		}
		if i < len(C.Results) {
			ctx.vars[C.Results[i]] = sv
		}
		if len(rs) == 1 {
			ctx.vars["result"] = sv
		}
	}
	for _, g := range C.Ghosts {
		if panicking && len(C.EnsPanic) == 0 {
			break // nothing is promised
		}
		ctx.ghostAssign(g)
	}
	if len(ex.res.Covers) < 64 {
		ex.res.Covers = append(ex.res.Covers, st.pcTerms())
	}
	ens := C.Ens
	kind := "postcondition"
	if panicking {
		ens = C.EnsPanic
		kind = "panic-postcondition"
	}
	for i, e := range ens {
		n := e.Name
		if n == "" {
			n = fmt.Sprintf("#%d (%s:%d)", i, e.File, e.Line)
		}
		tags := e.Tags
		if len(tags) == 0 {
			tags = C.Tags
		}
		ex.oblige(st, kind, n, tags, ctx.evalBool(e.E))
	}
	if ex.atomicOld && st.lockOld != nil {
		ex.frameCheck(st, st.lockOld, st.lockMods, true)
	} else {
		ex.frameCheck(st, ex.entry, ex.entryMods, true)
	}
}

func (ex *Exec) asTermAny(st *State, v Val) *Term {
	defer func() { recover() }()
	return ex.asTerm(st, v)
}

func (ex *Exec) frameCheck(st, old *State, mods []modLoc, atExit bool) {
	for _, key := range sortedKeys(st.heap) {
		cur := st.heap[key]
		was := ex.get(old, key, cur.Sort)
		if strings.HasPrefix(key, "LK:") && ex.atomicOld {
			if !atExit {
				continue
			}
			was = ex.get(ex.entry, key, cur.Sort)
		}
		if cur == was || strings.HasPrefix(key, "IT:") || key == "G:$clock" {
			continue
		}
		if strings.HasPrefix(key, "LOG:") {
			if logListed(mods, key) || !strings.HasSuffix(key, ":n") {
				continue
			}
			ex.oblige(st, "frame", "calls "+strings.TrimSuffix(strings.TrimPrefix(key, "LOG:"), ":n")+" (not listed in modifies)", nil, Eq(cur, was))
			continue
		}
		if objIndexed(key, cur) {
			r := Fresh("fr", SRef)
			g, _ := frameGuard(mods, key, r)
			if g.Op == OpFalse {
				continue
			}
			ex.oblige(st, "frame", "modifies only the listed parts of "+key, nil,
				Imp(And(g, Neq(r, Nil), Lt(at(r), ex.now0)), Eq(Select(cur, r), Select(was, r))))
			continue
		}
		if !logListed(mods, key) {
			ex.oblige(st, "frame", "does not modify "+key, nil, Eq(cur, was))
		}
	}
	for _, f := range ex.freeCells {
		if f.written && !ex.freeMod(f.name) {
			was := old.cells[f.l.Cell]
			cur := st.cells[f.l.Cell]
			if was.T != nil && cur.T != nil {
				ex.oblige(st, "frame", "does not modify captured variable "+f.name, nil, Eq(cur.T, was.T))
			}
		}
	}
}

func (ex *Exec) freeMod(n string) bool {
	return strings.Contains(","+ex.C.Opts["captures"]+",", ","+n+",")
}

// ---------- lemmas and axioms ----------

// loadAxioms registers the axioms and lemmas with the pure symbols they mention, and
// returns the obligations of the lemmas.
func loadAxioms(P *Program, S *Specs, feas *feasSolver) (obls []*Obl, err string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				err = u.msg
				return
			}
			panic(r)
		}
	}()
	for _, a := range S.Axioms {
		C := &Contract{Kind: "lemma", Name: a.Pkg + "." + a.Name, Pkg: a.Pkg, File: a.File, Opts: map[string]string{}}
		ex := newExec(P, S, C, feas)
		st := newState(ex.now0)
		ex.entry = st.snap()
		ctx := ex.ctxFor(st, nil)
		t := ctx.evalBool(a.E)
		if a.Lemma {
			// earlier axioms and lemmas for its symbols may be used
			obls = append(obls, &Obl{Name: "lemma " + a.Name, Kind: "lemma", Func: C.Name, Pos: fmt.Sprintf("%s:%d", a.File, a.Line), Tags: a.Tags, Goal: t, snapAx: axSnapshot()})
		}
		a.Term = t
		syms := a.Syms
		for _, s := range syms {
			nm := "pure:" + s
			addAxiom(nm, "ax:"+a.Name, func() *Term { return t })
		}
		if len(syms) == 0 && !a.Lemma {
			addAxiom("*", "ax:"+a.Name, func() *Term { return t })
		}
	}
	return
}

func axSnapshot() map[string]int {
	m := map[string]int{}
	for k, v := range axiomsFor {
		m[k] = len(v)
	}
	return m
}

// ---------- discharging ----------

type group struct {
	obls []*Obl
	hyps []*Term
}

var buildMu sync.Mutex

func buildLocked(asserts []*Term) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	return buildQuery(asserts, true)
}

// discharge solves the obligations in parallel, grouping those that share a path condition.
func discharge(obls []*Obl, quick bool, workers int) {
	bykey := map[string]*group{}
	var order []*group
	for _, o := range obls {
		if o.Kind == "lemma" {
			order = append(order, &group{obls: []*Obl{o}, hyps: o.Hyps})
			continue
		}
		var kb strings.Builder
		kb.WriteString(o.Func)
		for _, h := range o.Hyps {
			fmt.Fprintf(&kb, ",%d", h.ID)
		}
		k := kb.String()
		g := bykey[k]
		if g == nil || len(g.obls) >= 12 {
			g = &group{hyps: o.Hyps}
			bykey[k] = g
			order = append(order, g)
		}
		g.obls = append(g.obls, o)
	}
	// biggest first
	sort.SliceStable(order, func(i, j int) bool { return len(order[i].obls) > len(order[j].obls) })
	ch := make(chan *group)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for g := range ch {
				g.solve(quick)
			}
		}()
	}
	for _, g := range order {
		ch <- g
	}
	close(ch)
	wg.Wait()
	// a few undecided obligations get a second, longer attempt with the machine to themselves
	var left []*Obl
	for _, g := range order {
		for _, o := range g.obls {
			if o.Res.Status != "unsat" && o.Res.Status != "sat" {
				left = append(left, o)
			}
			if slowObl && (o.Res.Time > 1.5) {
				fmt.Fprintf(os.Stderr, "  SLOW [%s %s %.1fs] %s %s: %s\n", o.Res.Status, o.Res.Backend, o.Res.Time, o.Func, o.Kind, o.Name)
			}
		}
	}
	if len(left) > 0 && len(left) <= 6 && !noRetry && !(beforeRetry != nil && beforeRetry()) {
		for _, o := range left {
			if r := solveLong(o.text, o.rel(3)); r.Status == "unsat" || r.Status == "sat" {
				o.Res = r
				if r.Status == "unsat" {
					o.text = ""
				}
			}
		}
	}
}

// beforeRetry, when set, tells that the second attempt is pointless: a failing input has been found.
var beforeRetry func() bool

// rel renders the obligation with only the seemingly relevant hypotheses.
func (o *Obl) rel(rounds int) func() string {
	return func() string {
		buildMu.Lock()
		defer buildMu.Unlock()
		if o.snapAx != nil {
			axLimit = o.snapAx
		}
		defer func() { axLimit = nil }()
		return buildQuery(append(append(relevant(o.Hyps, o.Goal, rounds), Not(o.Goal)), strExt(o.Goal)...), true)
	}
}

func (g *group) solve(quick bool) {
	if len(g.obls) > 1 && os.Getenv("GOVC_NOGROUP") == "" {
		var goals []*Term
		for _, o := range g.obls {
			goals = append(goals, o.Goal)
		}
		buildMu.Lock()
		text := buildQuery(append(append(append([]*Term{}, g.hyps...), Not(And(goals...))), strExt(goals...)...), true)
		buildMu.Unlock()
		r := solveStage1(text)
		if r.Status == "unsat" {
			for _, o := range g.obls {
				o.Res = r
				o.Res.Time = r.Time / float64(len(g.obls))
			}
			return
		}
	}
	for _, o := range g.obls {
		buildMu.Lock()
		if o.snapAx != nil {
			axLimit = o.snapAx
		}
		text := buildQuery(append(append(append([]*Term{}, o.Hyps...), Not(o.Goal)), strExt(o.Goal)...), true)
		axLimit = nil
		buildMu.Unlock()
		o.text = text
		o.Res = solveText(text, o.rel(2), quick)
		if debugObl {
			fmt.Fprintf(os.Stderr, "  [%s %.1fs] %s %s: %s\n", o.Res.Status, o.Res.Time, o.Func, o.Kind, o.Name)
		}
		if o.Res.Status == "unsat" {
			o.text = ""
		}
	}
}

var slowObl = os.Getenv("GOVC_SLOW") != ""
var noRetry = os.Getenv("GOVC_NORETRY") != ""
var debugObl = os.Getenv("GOVC_DEBUG") != ""

func checkVacuousAll(rs []*FuncResult) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, r := range rs {
		r := r
		wg.Add(1)
		go func() {
			sem <- true
			r.checkVacuous()
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
}

// vacuity: some exit must have a satisfiable (not refutable) path condition.
func (r *FuncResult) checkVacuous() {
	if r.Unsup != "" || len(r.Covers) == 0 {
		return
	}
	for _, c := range r.Covers {
		if s := solveVac(buildLocked(c)); s.Status != "unsat" {
			return
		}
	}
	r.Vacuous = true
}

// strExt gives the extensionality instances for the string equations of a goal.
func strExt(goals ...*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == OpEq && t.Args[0].Sort == SStr && !t.hasBV {
			a, b := t.Args[0], t.Args[1]
			_, l1 := a.meta.(*strMeta)
			_, l2 := b.meta.(*strMeta)
			if !l1 && !l2 {
				w := App("strw", SInt, a, b)
				n := App("slen", SInt, a)
				out = append(out, Imp(And(Eq(n, App("slen", SInt, b)), Imp(And(Le(I(0), w), Lt(w, n)),
					Eq(Select(App("schars", SByteArr, a), w), Select(App("schars", SByteArr, b), w)))), Eq(a, b)))
			}
		}
		for _, x := range t.Args {
			walk(x)
		}
	}
	for _, g := range goals {
		walk(g)
	}
	return out
}
