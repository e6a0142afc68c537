package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- channels ----

func (ex *Exec) isPrecise(ch *Term) bool {
	if ex.C != nil && ex.C.Opts["precise"] != "" {
		return true
	}
	return ex.S.Precise[ex.traceKey(ch)]
}

// chKey: the heap of channel state is split by element type (channels of different element types are different).
func chKey(kind string, et types.Type) string { return "CH:" + kind + ":" + typeKey(et) }

func chanElem(t types.Type) types.Type { return under(t).(*types.Chan).Elem() }

func (ex *Exec) initChan(st *State, r *Term, et types.Type, size *Term) {
	st.assume(Eq(App("chancap", SInt, r), size))
	z := I(0)
	for _, k := range []string{chKey("sn", et), chKey("rn", et)} {
		ex.set(st, k, r, Store(ex.get(st, k, SArr(SRef, SInt)), r, z))
	}
	ex.set(st, chKey("cl", et), r, Store(ex.get(st, chKey("cl", et), SArr(SRef, SBool)), r, False))
}

func (ex *Exec) chGet(st *State, k string, ch *Term) *Term {
	t := Select(ex.get(st, k, SArr(SRef, SInt)), ch)
	st.assume(Ge(t, I(0)))
	return t
}

func (ex *Exec) logSend(st *State, ch *Term, et types.Type, v *Term) {
	sn := ex.chGet(st, chKey("sn", et), ch)
	vk := chKey("sv", et)
	m := ex.get(st, vk, SArr(SRef, SArr(SInt, v.Sort)))
	ex.set(st, vk, ch, Store(m, ch, Store(Select(m, ch), sn, v)))
	tm := ex.get(st, chKey("st", et), SArr(SRef, SByteArr))
	ex.set(st, chKey("st", et), ch, Store(tm, ch, Store(Select(tm, ch), sn, ex.clock(st))))
	m2 := ex.get(st, chKey("sn", et), SArr(SRef, SInt))
	ex.set(st, chKey("sn", et), ch, Store(m2, ch, Add(sn, I(1))))
}

func (ex *Exec) chanInv(ch *Term) (*ChanInv, *Term) {
	k := ex.traceKey(ch)
	ci := ex.S.ChanInvs[k]
	if ci == nil || ex.C != nil && ex.C.Opts["noinv"] != "" { // noinv: the channel is not shared yet
		return nil, nil
	}
	var self *Term
	if ch.Op == OpSelect {
		self = ch.Args[1]
	} else if m, ok := ch.meta.(*mapMeta); ok && ch.Op == OpConst {
		self = m.base
	}
	return ci, self
}

func (ex *Exec) chanInvTerm(st *State, fr *Frame, ci *ChanInv, self *Term, v Val, t types.Type) *Term {
	ex.evState = st
	ctx := &specCtx{ex: ex, st: st, old: st, vars: map[string]SV{}, pkg: ci.Pkg, file: ci.File}
	if fr != nil {
		ctx.tsub = fr.tsub
	}
	if self != nil {
		ctx.vars["self"] = SV{V: Val{T: self}, Ty: goType(types.NewPointer(ex.lookupType(ci.Pkg, ci.Type)))}
	}
	ctx.vars[ci.Var] = SV{V: v, Ty: goType(t)}
	return ctx.evalBool(ci.E)
}

func (ex *Exec) chanSend(st *State, fr *Frame, ch *Term, src ssa.Value, v Val, vt types.Type, k func(*State)) {
	et := under(fr.ty(src.Type())).(*types.Chan).Elem()
	x := v.T
	if x == nil {
		x = ex.asTerm(st, v)
	}
	if x.Sort != sortOf(et) {
		x = ex.box(st, Val{T: x}, vt)
	}
	if ex.C.Opts["chancheck"] != "" {
		ex.safety(st, "send-on-closed-channel", Not(Select(ex.get(st, chKey("cl", et), SArr(SRef, SBool)), ch)))
	}
	if ex.isPrecise(ch) {
		st.assume(Lt(Sub(ex.chGet(st, chKey("sn", et), ch), ex.chGet(st, chKey("rn", et), ch)), App("chancap", SInt, ch)))
		if !ex.feasNow(st) {
			return
		}
	}
	if ci, self := ex.chanInv(ch); ci != nil {
		for _, t := range conjuncts(ex.chanInvTerm(st, fr, ci, self, Val{T: x}, et)) {
			ex.oblige(st, "channel-invariant", ci.Name(), nil, t)
		}
	}
	ex.logSend(st, ch, et, x)
	k(st)
}

func (ex *Exec) recvVal(st *State, fr *Frame, ch *Term, et types.Type) (v, ok *Term) {
	s := sortOf(et)
	if ex.isPrecise(ch) {
		sn, rn := ex.chGet(st, chKey("sn", et), ch), ex.chGet(st, chKey("rn", et), ch)
		st.assume(Le(rn, sn))
		st.assume(Imp(Gt(App("chancap", SInt, ch), I(0)), Le(Sub(sn, rn), App("chancap", SInt, ch))))
		cl := Select(ex.get(st, chKey("cl", et), SArr(SRef, SBool)), ch)
		if ex.S.Open[ex.traceKey(ch)] {
			cl = False
		}
		st.assume(Or(Lt(rn, sn), cl))
		ok = Lt(rn, sn)
		vk := chKey("sv", et)
		m := ex.get(st, vk, SArr(SRef, SArr(SInt, s)))
		raw := Select(Select(m, ch), rn)
		ex.addFacts(st, raw, et)
		if ci, self := ex.chanInv(ch); ci != nil {
			st.assume(Imp(ok, ex.chanInvTerm(st, fr, ci, self, Val{T: raw}, et)))
		}
		v = Ite(ok, raw, zeroOf(et))
		rk := chKey("rv", et)
		rm := ex.get(st, rk, SArr(SRef, SArr(SInt, s)))
		ex.set(st, rk, ch, Store(rm, ch, Store(Select(rm, ch), rn, v)))
	} else {
		ok = Fresh("ok", SBool)
		if ex.S.Open[ex.traceKey(ch)] {
			ok = True
		}
		raw := ex.freshVal(st, "recv", et)
		if ci, self := ex.chanInv(ch); ci != nil {
			st.assume(Imp(ok, ex.chanInvTerm(st, fr, ci, self, Val{T: raw}, et)))
		}
		v = Ite(ok, raw, zeroOf(et))
		// a receive without a value: the channel has been closed (by this or another goroutine)
		if cm := ex.get(st, chKey("cl", et), SArr(SRef, SBool)); true {
			ex.set(st, chKey("cl", et), ch, Store(cm, ch, Or(Select(cm, ch), Not(ok))))
		}
		vk := chKey("rv", et)
		m := ex.get(st, vk, SArr(SRef, SArr(SInt, s)))
		rn := ex.chGet(st, chKey("rn", et), ch)
		ex.set(st, vk, ch, Store(m, ch, Store(Select(m, ch), rn, v)))
	}
	rn := ex.chGet(st, chKey("rn", et), ch)
	m2 := ex.get(st, chKey("rn", et), SArr(SRef, SInt))
	ex.set(st, chKey("rn", et), ch, Store(m2, ch, Add(rn, Ite(ok, I(1), I(0)))))
	ex.clock(st)
	return v, ok
}

func (ex *Exec) chanRecv(st *State, fr *Frame, ch *Term, src ssa.Value, commaOk bool, cht types.Type, k kont) {
	et := under(cht).(*types.Chan).Elem()
	v, ok := ex.recvVal(st, fr, ch, et)
	if !ex.feasNow(st) {
		return
	}
	if commaOk {
		k(st, Val{Tup: []Val{{T: v}, {T: ok}}})
		return
	}
	k(st, Val{T: v})
}

func (ex *Exec) chanClose(st *State, ch *Term, et types.Type) {
	m := ex.get(st, chKey("cl", et), SArr(SRef, SBool))
	if ex.S.Open[ex.traceKey(ch)] && ex.C.Opts["closesopen"] != "" {
		ex.assumed["a channel declared open is closed here, after its last use"] = true
	} else if ex.S.Open[ex.traceKey(ch)] {
		ex.oblige(st, "safety", "close-of-a-channel-declared-open", nil, False)
	}
	if ex.C.Opts["chancheck"] != "" {
		ex.safety(st, "close-of-closed-channel", Not(Select(m, ch)))
	}
	ex.set(st, chKey("cl", et), ch, Store(m, ch, True))
	ex.clock(st)
}

type chanOffer struct {
	recv bool
	ch   *Term
}

// atWait checks the waits clauses where the function may block on the channels offered.
func (ex *Exec) atWait(st *State, fr *Frame, offers ...chanOffer) {
	if len(ex.C.Waits) == 0 || ex.dry > 0 {
		return
	}
	ex.offers = offers
	defer func() { ex.offers = nil }()
	cc := ex.ctxFor(st, fr)
	for _, w := range ex.C.Waits {
		nm := w.Name
		if nm == "" {
			nm = fmt.Sprintf("(%s:%d)", w.File, w.Line)
		}
		ex.oblige(st, "waits", nm, w.Tags, cc.evalBool(w.E))
	}
}

func (ex *Exec) doSelect(st *State, fr *Frame, in *ssa.Select, k kont) {
	nrecv := 0
	var recvT []types.Type
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
			recvT = append(recvT, under(fr.ty(s.Chan.Type())).(*types.Chan).Elem())
		}
	}
	n := len(in.States)
	var ready []*Term
	base := st.clone()
	if in.Blocking {
		var of []chanOffer
		for _, s := range in.States {
			of = append(of, chanOffer{s.Dir == types.RecvOnly, ex.term(st, fr, s.Chan)})
		}
		ex.atWait(st, fr, of...)
	}
	for i := 0; i < n; i++ {
		s := in.States[i]
		st2 := base.clone()
		ch := ex.term(st2, fr, s.Chan)
		st2.assume(Neq(ch, Nil))
		et := chanElem(fr.ty(s.Chan.Type()))
		res := []Val{{T: I(int64(i))}, {T: False}}
		for _, t := range recvT {
			res = append(res, Val{T: zeroOf(t)})
		}
		ri := 0
		for j := 0; j < i; j++ {
			if in.States[j].Dir == types.RecvOnly {
				ri++
			}
		}
		ex.npaths++
		if ex.npaths > maxPaths {
			ex.fail("too many paths")
		}
		if s.Dir == types.RecvOnly {
			if ex.isPrecise(ch) {
				cl := Select(ex.get(base, chKey("cl", et), SArr(SRef, SBool)), ch)
				if ex.S.Open[ex.traceKey(ch)] {
					cl = False
				}
				base.assume(Le(ex.chGet(base, chKey("rn", et), ch), ex.chGet(base, chKey("sn", et), ch)))
				ready = append(ready, Or(Lt(ex.chGet(base, chKey("rn", et), ch), ex.chGet(base, chKey("sn", et), ch)), cl))
			}
			v, ok := ex.recvVal(st2, fr, ch, recvT[ri])
			res[1] = Val{T: ok}
			res[2+ri] = Val{T: v}
			if ex.feasNow(st2) {
				k(st2, Val{Tup: res})
			}
		} else {
			if ex.isPrecise(ch) {
				ready = append(ready, Lt(Sub(ex.chGet(base, chKey("sn", et), ch), ex.chGet(base, chKey("rn", et), ch)), App("chancap", SInt, ch)))
			}
			v := ex.val(st2, fr, s.Send)
			ex.chanSend(st2, fr, ch, s.Chan, v, fr.ty(s.Send.Type()), func(st *State) { k(st, Val{Tup: res}) })
		}
	}
	if !in.Blocking {
		st2 := base
		for _, r := range ready {
			st2.assume(Not(r))
		}
		res := []Val{{T: I(-1)}, {T: False}}
		for _, t := range recvT {
			res = append(res, Val{T: zeroOf(t)})
		}
		if ex.feasNow(st2) {
			k(st2, Val{Tup: res})
		}
	}
}

// ---- locks ----

func (ex *Exec) lockInvOf(mu *Term) (*LockInv, *Term) {
	n := ""
	var self *Term
	switch {
	case mu.Op == OpApp && strings.HasPrefix(mu.Name, "sub:"):
		n = strings.TrimPrefix(mu.Name, "sub:")
		self = mu.Args[0]
	case mu.Op == OpSelect:
		n = ex.traceKey(mu)
		self = mu.Args[1]
	}
	if l, ok := ex.S.Locks[n]; ok {
		return l, self
	}
	return nil, nil
}

func (ex *Exec) lockCtx(st *State, l *LockInv, self *Term) *specCtx {
	ctx := &specCtx{ex: ex, st: st, old: st, vars: map[string]SV{}, pkg: l.Pkg, file: "lockinv " + l.Type}
	t := ex.lookupType(l.Pkg, l.Type)
	ctx.vars[l.Self] = SV{V: Val{T: self}, Ty: goType(types.NewPointer(t))}
	return ctx
}

func (ex *Exec) doLock(st *State, mu *Term, read bool) bool {
	h := ex.get(st, "LK:h", SArr(SRef, SBool))
	st.assume(Not(Select(h, mu)))
	if !ex.feasNow(st) {
		return false
	}
	if read {
		r := ex.get(st, "LK:r", SArr(SRef, SInt))
		st.assume(Ge(Select(r, mu), I(0)))
		ex.set(st, "LK:r", mu, Store(r, mu, Add(Select(r, mu), I(1))))
	} else {
		ex.set(st, "LK:h", mu, Store(h, mu, True))
	}
	ex.clock(st)
	if ex.atomicOld && st.lockOld == nil && ex.dry == 0 {
		ex.frameCheck(st, ex.entry, ex.entryMods, false)
	}
	// opt nested: a second lock taken before anything was done under the first; old() is the state under both
	again := ex.atomicOld && st.lockOld != nil && ex.C.Opts["nested"] != "" && ex.dry == 0 && ex.isAtomicMu(st, mu)
	if again {
		ex.frameCheck(st, st.lockOld, nil, false)
	}
	if l, self := ex.lockInvOf(mu); l != nil {
		ctx := ex.lockCtx(st, l, self)
		isNew := ex.isNewObj(self)
		if !isNew {
			locs := ctx.modLocs(l.Protects)
			ex.advance(st)
			ex.havocLocs(st, locs)
		}
		for _, inv := range l.Invs {
			st.assume(ctx.evalBool(inv.E))
		}
	}
	if st.lockOld == nil || again {
		ex.snapLock(st)
	}
	return true
}

// isAtomicMu: mu is one of the locks the contract names in its atomic clauses (syntactically)
func (ex *Exec) isAtomicMu(st *State, mu *Term) bool {
	ctx := ex.ctxFor(st, ex.topFrame)
	for _, a := range ex.C.Atomic {
		if ctx.muRef(a) == mu {
			return true
		}
	}
	return false
}

// snapLock: the state old() means in an atomic contract
func (ex *Exec) snapLock(st *State) {
	st.lockOld = st.snap()
	if ex.atomicOld {
		ctx := ex.ctxFor(st.lockOld, ex.topFrame)
		ctx.st = st
		st.lockMods = ctx.modLocs(ex.C.Mods)
	}
}

// interfere: before another function takes the lock, other goroutines may have changed what it protects.
func (ex *Exec) interfere(st *State, mu *Term, args []Val, ats []types.Type) {
	l, self := ex.lockInvOf(mu)
	if l == nil || ex.isNewObj(self) {
		return
	}
	ctx := ex.lockCtx(st, l, self)
	for i, a := range args { // the instance of a generic type
		if a.T == self && i < len(ats) {
			if _, ok := under(ats[i]).(*types.Pointer); ok {
				ctx.vars[l.Self] = SV{V: Val{T: self}, Ty: goType(ats[i])}
			}
		}
	}
	locs := ctx.modLocs(l.Protects)
	ex.advance(st)
	ex.havocLocs(st, locs)
	for _, inv := range l.Invs {
		st.assume(ctx.evalBool(inv.E))
	}
}

func (ex *Exec) isNewObj(r *Term) bool {
	if r == nil {
		return false
	}
	_, ok := r.meta.(*allocMeta)
	return ok
}

func (ex *Exec) doUnlock(st *State, mu *Term, read bool) {
	if !read && len(ex.C.GhostU) > 0 && ex.dry == 0 {
		for _, g := range ex.C.GhostU {
			ex.ctxFor(st, ex.topFrame).ghostAssign(g)
		}
	}
	if l, self := ex.lockInvOf(mu); l != nil && !read {
		ctx := ex.lockCtx(st, l, self)
		for _, inv := range l.Invs {
			nm := inv.Name
			if nm == "" {
				nm = fmt.Sprintf("%s:%d", inv.File, inv.Line)
			}
			ex.oblige(st, "lock-invariant", l.Type+"."+l.Field+" "+nm, inv.Tags, ctx.evalBool(inv.E))
		}
	}
	if read {
		r := ex.get(st, "LK:r", SArr(SRef, SInt))
		ex.safety(st, "runlock-of-unlocked", Gt(Select(r, mu), I(0)))
		ex.set(st, "LK:r", mu, Store(r, mu, Sub(Select(r, mu), I(1))))
	} else {
		h := ex.get(st, "LK:h", SArr(SRef, SBool))
		ex.safety(st, "unlock-of-unlocked", Select(h, mu))
		ex.set(st, "LK:h", mu, Store(h, mu, False))
	}
	ex.clock(st)
	st.lockNew = st.snap()
}

// checkProtected: a field named in a lock invariant is only touched with the lock held or on a new object.
func (ex *Exec) checkProtected(st *State, l *Loc) {
	if l.Kind != LHeap || ex.dry > 0 || ex.C.Opts["nolockcheck"] != "" {
		return
	}
	key := strings.SplitN(strings.TrimPrefix(l.Key, "F:"), "|", 2)[0]
	lf, ok := ex.S.protected[key]
	if !ok {
		return
	}
	if ex.isNewObj(l.Base) {
		return
	}
	mu := App("sub:"+lf.Pkg+"."+lf.Type+"."+lf.Field, SRef, l.Base)
	if ex.lockPtr(lf) {
		mu = Select(ex.get(st, "F:"+lf.Pkg+"."+lf.Type+"."+lf.Field, SArr(SRef, SRef)), l.Base)
	}
	h := Select(ex.get(st, "LK:h", SArr(SRef, SBool)), mu)
	r := Select(ex.get(st, "LK:r", SArr(SRef, SInt)), mu)
	ex.oblige(st, "lock", "access of "+key+" without its lock", nil, Or(h, Gt(r, I(0)), Ge(at(l.Base), ex.now0)))
}

func (ex *Exec) lockPtr(l *LockInv) bool {
	t := ex.lookupType(l.Pkg, l.Type)
	s, _ := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == l.Field {
			_, p := under(s.Field(i).Type()).(*types.Pointer)
			return p
		}
	}
	return false
}

func (ex *Exec) initIdentity(st *State, r *Term, t types.Type) {
	switch typeKey(t) {
	case "sync.Mutex", "sync.RWMutex":
		ex.set(st, "LK:h", r, Store(ex.get(st, "LK:h", SArr(SRef, SBool)), r, False))
		ex.set(st, "LK:r", r, Store(ex.get(st, "LK:r", SArr(SRef, SInt)), r, I(0)))
	case "sync.WaitGroup":
		ex.set(st, "WG:n", r, Store(ex.get(st, "WG:n", SArr(SRef, SInt)), r, I(0)))
	case "sync.Once":
		ex.set(st, "ONCE:d", r, Store(ex.get(st, "ONCE:d", SArr(SRef, SBool)), r, False))
	case "bytes.Buffer":
		ex.set(st, "BB:len", r, Store(ex.get(st, "BB:len", SArr(SRef, SInt)), r, I(0)))
	}
}

// ---- bytes.Buffer ----

func bufArr(b *Term) *Term {
	addAxiom("bufarr", "inj", func() *Term {
		x := BVar("b", SRef)
		a := App("bufarr", SRef, x)
		return Forall([]*Term{x}, And(Eq(App("inv:bufarr", SRef, a), x), Eq(App("kind", SInt, a), I(-1)), Eq(App("isbufarr", SBool, a), True), Eq(at(a), at(x)), Neq(a, Nil)), []*Term{a})
	})
	return App("bufarr", SRef, b)
}
func (ex *Exec) bufLen(st *State, b *Term) *Term {
	l := Select(ex.get(st, "BB:len", SArr(SRef, SInt)), b)
	st.assume(And(Le(I(0), l), Le(l, I(1<<48))))
	return l
}
func (ex *Exec) bufAppend(st *State, b *Term, src, so, n *Term) {
	k, m := ex.elemMap(st, byteType)
	l := ex.bufLen(st, b)
	ba := bufArr(b)
	a0 := Select(m, ba)
	var a1 *Term
	if n.Op == OpInt && n.Int.Int64() <= 16 {
		a1 = a0
		for i := int64(0); i < n.Int.Int64(); i++ {
			a1 = Store(a1, Add(l, I(i)), Select(src, Add(so, I(i))))
		}
	} else {
		a1 = ex.blit(st, a0, l, src, so, n)
	}
	ex.set(st, k, ba, Store(m, ba, a1))
	ex.set(st, "BB:len", b, Store(ex.get(st, "BB:len", SArr(SRef, SInt)), b, Add(l, n)))
	st.assume(Le(Add(l, n), I(1<<48)))
}

func (ex *Exec) newErr(st *State) *Term {
	e := Fresh("err", SIface)
	st.assume(Neq(e, INil))
	return e
}

// ---- intrinsics ----
func (ex *Exec) intrinsic(st *State, fr *Frame, name string, fn *ssa.Function, ts tsubst, args []Val, ats []types.Type, k kont) bool {
	a := func(i int) *Term { return ex.asTerm(st, args[i]) }
	switch name {
	case "sak.Noescape":
		k(st, args[0])
		return true
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		if ex.doLock(st, a(0), false) {
			k(st, Val{})
		}
		return true
	case "sync.RWMutex.RLock":
		if ex.doLock(st, a(0), true) {
			k(st, Val{})
		}
		return true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		ex.doUnlock(st, a(0), false)
		k(st, Val{})
		return true
	case "sync.RWMutex.RUnlock":
		ex.doUnlock(st, a(0), true)
		k(st, Val{})
		return true
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done":
		m := ex.get(st, "WG:n", SArr(SRef, SInt))
		d := I(-1)
		if name == "sync.WaitGroup.Add" {
			d = a(1)
		}
		ex.set(st, "WG:n", a(0), Store(m, a(0), Add(Select(m, a(0)), d)))
		ex.clock(st)
		k(st, Val{})
		return true
	case "sync.WaitGroup.Wait":
		ex.logEvent(st, "sync.WaitGroup.Wait", args, ats, nil, nil)
		// other goroutines have called Done: counter is zero afterwards
		m := ex.get(st, "WG:n", SArr(SRef, SInt))
		ex.set(st, "WG:n", a(0), Store(m, a(0), I(0)))
		k(st, Val{})
		return true
	case "sync.Once.Do":
		m := ex.get(st, "ONCE:d", SArr(SRef, SBool))
		site := ex.callSite
		ex.branch(st, Select(m, a(0)), func(st *State) { k(st, Val{}) }, func(st *State) {
			ex.callSite = site
			m := ex.get(st, "ONCE:d", SArr(SRef, SBool))
			ex.set(st, "ONCE:d", a(0), Store(m, a(0), True))
			ex.callDyn(st, fr, args[1], types.NewSignatureType(nil, nil, nil, nil, nil, false), ats[1], nil, nil, nil, func(st *State, _ Val) { k(st, Val{}) })
		})
		return true
	case "atomic.AddInt64", "atomic.AddInt32", "atomic.AddUint64", "atomic.AddUint32":
		v := ex.loadFrom(st, args[0], ats[0].Underlying().(*types.Pointer).Elem())
		r, _ := rangeOf(ats[1])
		n := ex.wrap(st, Add(v.T, a(1)), r)
		ex.storeTo(st, args[0], Val{T: n}, ats[1])
		ex.clock(st)
		k(st, Val{T: n})
		return true
	case "atomic.LoadInt64", "atomic.LoadInt32", "atomic.LoadUint64", "atomic.LoadUint32":
		k(st, ex.loadFrom(st, args[0], ats[0].Underlying().(*types.Pointer).Elem()))
		return true
	case "atomic.StoreInt64", "atomic.StoreInt32", "atomic.StoreUint64", "atomic.StoreUint32":
		ex.storeTo(st, args[0], args[1], ats[1])
		ex.clock(st)
		k(st, Val{})
		return true
	case "atomic.CompareAndSwapInt64", "atomic.CompareAndSwapInt32", "atomic.CompareAndSwapUint64", "atomic.CompareAndSwapUint32":
		v := ex.loadFrom(st, args[0], ats[1])
		ex.clock(st)
		ex.branch(st, Eq(v.T, a(1)), func(st *State) {
			ex.storeTo(st, args[0], args[2], ats[1])
			k(st, Val{T: True})
		}, func(st *State) { k(st, Val{T: False}) })
		return true
	case "errors.New", "fmt.Errorf":
		k(st, Val{T: ex.newErr(st)})
		return true
	case "errors.Is":
		t := App("errors.Is", SBool, a(0), a(1))
		st.assume(Imp(Eq(a(0), a(1)), t))
		st.assume(Imp(And(Eq(a(0), INil), Neq(a(1), INil)), Not(t)))
		k(st, Val{T: t})
		return true
	case "errors.As":
		// args: error, interface holding the address of the target
		var loc *Loc
		if m, ok := args[1].T.meta.(*ifaceMeta); ok {
			loc = m.v.Loc
		}
		if loc == nil {
			ex.fail("errors.As with an unknown target")
		}
		okT := errorsAs(a(0), loc.Ty)
		st.assume(Imp(Eq(a(0), INil), Not(okT)))
		got := ex.freshVal(st, "as", loc.Ty)
		if got.Sort == SRef {
			st.assume(Neq(got, Nil))
		}
		ex.branch(st, okT, func(st *State) {
			ex.store(st, loc, Val{T: got})
			k(st, Val{T: True})
		}, func(st *State) { k(st, Val{T: False}) })
		return true
	case "fmt.Sprintf":
		if t := ex.sprintf(st, a(0), a(1)); t != nil {
			k(st, Val{T: t})
			return true
		}
		return false
	case "strconv.Itoa":
		addAxiom("itoa", "inj", func() *Term {
			x := BVar("x", SInt)
			return Forall([]*Term{x}, Eq(App("atoi", SInt, App("itoa", SStr, x)), x), []*Term{App("itoa", SStr, x)})
		})
		k(st, Val{T: App("itoa", SStr, a(0))})
		return true
	case "bytes.Buffer.Reset":
		ex.set(st, "BB:len", a(0), Store(ex.get(st, "BB:len", SArr(SRef, SInt)), a(0), I(0)))
		k(st, Val{})
		return true
	case "bytes.Buffer.Len":
		k(st, Val{T: ex.bufLen(st, a(0))})
		return true
	case "bytes.Buffer.Cap":
		c := Fresh("bcap", SInt)
		st.assume(And(Le(ex.bufLen(st, a(0)), c), Le(c, I(1<<48))))
		k(st, Val{T: c})
		return true
	case "bytes.Buffer.Bytes":
		l := ex.bufLen(st, a(0))
		k(st, Val{T: SlMk(bufArr(a(0)), I(0), l, l)})
		return true
	case "bytes.Buffer.String":
		l := ex.bufLen(st, a(0))
		k(st, Val{T: ex.stringOfBytes(st, SlMk(bufArr(a(0)), I(0), l, l))})
		return true
	case "bytes.Buffer.Write":
		_, m := ex.elemMap(st, byteType)
		ex.bufAppend(st, a(0), Select(m, SlArr(a(1))), SlOff(a(1)), SlLen(a(1)))
		k(st, Val{Tup: []Val{{T: SlLen(a(1))}, {T: INil}}})
		return true
	case "bytes.Buffer.WriteByte":
		ex.bufAppend(st, a(0), ConstArr(SByteArr, a(1)), I(0), I(1))
		k(st, Val{T: INil})
		return true
	case "bytes.Buffer.WriteString":
		n := App("slen", SInt, a(1))
		st.assume(And(Le(I(0), n), Le(n, I(1<<48))))
		ex.byteCharAxiom()
		ex.bufAppend(st, a(0), App("schars", SByteArr, a(1)), I(0), n)
		k(st, Val{Tup: []Val{{T: n}, {T: INil}}})
		return true
	case "bytes.NewBuffer":
		r := ex.alloc(st, "buf")
		ex.set(st, "BB:len", r, Store(ex.get(st, "BB:len", SArr(SRef, SInt)), r, I(0)))
		_, m := ex.elemMap(st, byteType)
		ex.assumed["bytes.NewBuffer: the buffer does not share memory with its initial slice"] = true
		if SlLen(a(0)) != I(0) {
			ex.bufAppend(st, r, Select(m, SlArr(a(0))), SlOff(a(0)), SlLen(a(0)))
		}
		k(st, Val{T: r})
		return true
	case "sort.Slice", "sort.SliceStable":
		ex.sortSlice(st, fr, args, ats, k)
		return true
	case "bytes.Equal":
		x, y := a(0), a(1)
		_, m := ex.elemMap(st, byteType)
		e := Fresh("beq", SBool)
		i := BVar("i", SInt)
		j := Fresh("bd", SInt)
		sx := Select(Select(m, SlArr(x)), Add(SlOff(x), i))
		st.assume(Imp(e, And(Eq(SlLen(x), SlLen(y)), Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, SlLen(x))), Eq(sx, Select(Select(m, SlArr(y)), Add(SlOff(y), i)))), []*Term{sx}))))
		st.assume(Imp(Not(e), Or(Neq(SlLen(x), SlLen(y)), And(Le(I(0), j), Lt(j, SlLen(x)), Neq(Select(Select(m, SlArr(x)), Add(SlOff(x), j)), Select(Select(m, SlArr(y)), Add(SlOff(y), j)))))))
		k(st, Val{T: e})
		return true
	}
	if strings.HasPrefix(name, "binary.littleEndian.") || strings.HasPrefix(name, "binary.bigEndian.") {
		be := strings.HasPrefix(name, "binary.big")
		m := shortName(name)
		n := map[string]int{"PutUint16": 2, "Uint16": 2, "PutUint32": 4, "Uint32": 4, "PutUint64": 8, "Uint64": 8}[m]
		if n == 0 {
			return false
		}
		b := args[1].T
		ex.safety(st, "slice-bounds", Ge(SlLen(b), I(int64(n))))
		k0, mm := ex.elemMap(st, byteType)
		if strings.HasPrefix(m, "Put") {
			bs := ex.splitBytes(st, a(2), n, be)
			arr := Select(mm, SlArr(b))
			for i := range bs {
				j := i
				if be {
					// splitBytes already orders for big endian: bs[i] is the byte at offset i
				}
				arr = Store(arr, Add(SlOff(b), I(int64(j))), bs[i])
			}
			ex.set(st, k0, SlArr(b), Store(mm, SlArr(b), arr))
			k(st, Val{})
			return true
		}
		get := func(i int) *Term { return Select(Select(mm, SlArr(b)), Add(SlOff(b), I(int64(i)))) }
		for i := 0; i < n; i++ {
			st.assume(And(Le(I(0), get(i)), Le(get(i), I(255))))
		}
		k(st, Val{T: byteSum(get, n, be)})
		return true
	}
	return false
}

// sortSlice: the slice becomes a permutation of itself, ordered by the comparison function.
func (ex *Exec) sortSlice(st *State, fr *Frame, args []Val, ats []types.Type, k kont) {
	x := args[0].T
	if x.Op != OpApp || !strings.HasPrefix(x.Name, "box:") {
		ex.fail("sort.Slice of unknown value")
	}
	t := boxTypes[x.Name]
	s := x.Args[0]
	et := under(t).(*types.Slice).Elem()
	if ex.elemIsRef(et) {
		ex.fail("sort.Slice of object elements")
	}
	key, m := ex.elemMap(st, et)
	a0 := Select(m, SlArr(s))
	a1 := Fresh("sorted", a0.Sort)
	off, n := SlOff(s), SlLen(s)
	nm := Fresh("perm", SInt).Name
	p := func(i *Term) *Term { return App("perm:"+nm, SInt, i) }
	qf := func(i *Term) *Term { return App("perminv:"+nm, SInt, i) }
	i, j := BVar("i", SInt), BVar("j", SInt)
	in := func(i *Term) *Term { return And(Le(I(0), i), Lt(i, n)) }
	si := Select(a1, Add(off, i))
	st.assume(Forall([]*Term{i}, Imp(in(i), And(in(p(i)), Eq(si, Select(a0, Add(off, p(i)))), Eq(qf(p(i)), i))), []*Term{si}, []*Term{p(i)}))
	oi := Select(a0, Add(off, j))
	st.assume(Forall([]*Term{j}, Imp(in(j), And(in(qf(j)), Eq(oi, Select(a1, Add(off, qf(j)))), Eq(p(qf(j)), j))), []*Term{oi}, []*Term{qf(j)}))
	g := BVar("g", SInt)
	sg := Select(a1, g)
	st.assume(Forall([]*Term{g}, Imp(Or(Lt(g, off), Ge(g, Add(off, n))), Eq(sg, Select(a0, g))), []*Term{sg}))
	ex.set(st, key, SlArr(s), Store(m, SlArr(s), a1))
	// order: for i<j, not less(j,i)
	b1, b2 := BVar("i", SInt), BVar("j", SInt)
	fm, ok := args[1].T.meta.(*funcMeta)
	if !ok {
		ex.fail("sort.Slice with unknown comparison")
	}
	less, err := ex.pureCall(st, fr, fm.fn, fm.tsub, []Val{{T: b2}, {T: b1}}, fm.bindings)
	if err != "" {
		ex.assumed["sort.Slice order not modelled in "+ex.C.Name+": "+err] = true
	} else {
		e1, e2 := Select(a1, Add(off, b1)), Select(a1, Add(off, b2))
		st.assume(Forall([]*Term{b1, b2}, Imp(And(Le(I(0), b1), Lt(b1, b2), Lt(b2, n)), Not(less[0])), []*Term{e1, e2}))
		ex.assumed["sort.Slice: result is ordered by the comparison function (assumes it is a strict weak order) and is a permutation"] = true
	}
	k(st, Val{})
}

// pureCall evaluates a repository function symbolically as a pure term (arguments may be bound variables).
func (ex *Exec) pureCall(st *State, fr *Frame, fn *ssa.Function, ts tsubst, args []Val, bind []Val) (out []*Term, err string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				err = u.msg
				return
			}
			panic(r)
		}
	}()
	type branchRes struct {
		cond *Term
		res  []*Term
	}
	var results []branchRes
	s2 := st.clone()
	s2.br = nil
	s2.pure = true
	ex.dry++
	savePos := ex.pos
	defer func() { ex.dry--; ex.pos = savePos }()
	saveRecs := ex.recs
	ex.recs = nil
	saveDL := ex.dryLoops
	ex.dryLoops = nil
	defer func() { ex.recs = saveRecs; ex.dryLoops = saveDL }()
	nf := ex.newFrame(fn, ts, fr, func(st *State, res []Val) {
		var rs []*Term
		for _, r := range res {
			rs = append(rs, ex.asTerm(st, r))
		}
		results = append(results, branchRes{And(st.br...), rs})
	})
	if len(fn.Blocks) == 0 {
		return nil, "no body"
	}
	ex.runBody(s2, nf, args, bind)
	if len(results) == 0 {
		return nil, "no result"
	}
	n := len(results[0].res)
	for i := 0; i < n; i++ {
		t := results[len(results)-1].res[i]
		for j := len(results) - 2; j >= 0; j-- {
			t = Ite(results[j].cond, results[j].res[i], t)
		}
		out = append(out, t)
	}
	return out, ""
}

var _ = token.ADD

func errorsAs(e *Term, t types.Type) *Term { return App("errors.As:"+typeKey(t), SBool, e) }

func itoaTerm(x *Term) *Term {
	addAxiom("itoa", "inj", func() *Term {
		x := BVar("x", SInt)
		return Forall([]*Term{x}, Eq(App("atoi", SInt, App("itoa", SStr, x)), x), []*Term{App("itoa", SStr, x)})
	})
	return App("itoa", SStr, x)
}

// sprintf models a constant format made of %s, %d and %v verbs over strings and integers.
func (ex *Exec) sprintf(st *State, f, args *Term) *Term {
	m, ok := f.meta.(*strMeta)
	if !ok {
		return nil
	}
	_, em := ex.elemMap(st, types.Universe.Lookup("any").Type().Underlying())
	out := StrLit("")
	lit := ""
	n := int64(0)
	for i := 0; i < len(m.s); i++ {
		if m.s[i] != '%' {
			lit += m.s[i : i+1]
			continue
		}
		i++
		if i >= len(m.s) {
			return nil
		}
		if m.s[i] == '%' {
			lit += "%"
			continue
		}
		x := Select(Select(em, SlArr(args)), Add(SlOff(args), I(n)))
		n++
		if x.Op != OpApp || !strings.HasPrefix(x.Name, "box:") {
			return nil
		}
		b, ok := under(boxTypes[x.Name]).(*types.Basic)
		if !ok {
			return nil
		}
		var t *Term
		switch {
		case b.Info()&types.IsString != 0 && (m.s[i] == 's' || m.s[i] == 'v'):
			t = x.Args[0]
		case b.Info()&types.IsInteger != 0 && (m.s[i] == 'd' || m.s[i] == 'v'):
			t = itoaTerm(x.Args[0])
		default:
			return nil
		}
		out = ex.strcat(st, ex.strcat(st, out, StrLit(lit)), t)
		lit = ""
	}
	return ex.strcat(st, out, StrLit(lit))
}

// conjuncts splits a conjunction.
func conjuncts(t *Term) []*Term {
	if t.Op != OpAnd {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, conjuncts(a)...)
	}
	return out
}
