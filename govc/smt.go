package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Axioms that come with a function symbol: included in a query iff the symbol occurs.
var axiomsFor = map[string][]*Term{}
var axiomKey = map[string]bool{}

// axLimit restricts a lemma's proof to the axioms stated before it.
var axLimit map[string]int

func addAxiom(sym, key string, mk func() *Term) {
	k := sym + "#" + key
	if axiomKey[k] {
		return
	}
	axiomKey[k] = true
	axiomsFor[sym] = append(axiomsFor[sym], mk())
}

type query struct {
	sorts  map[string]*Sort
	order  []*Sort
	consts map[string]*Term
	funs   map[string]string
	fnames []string
	cnames []string
	strs   []*Term
	seen   map[int]bool
	rc     map[int]int
	topo   []*Term
}

func (qq *query) sort(s *Sort) {
	if _, ok := qq.sorts[s.Name]; ok {
		return
	}
	qq.sorts[s.Name] = s
	if s.Index != nil {
		qq.sort(s.Index)
		qq.sort(s.Elem)
		return
	}
	if s.DT != nil {
		for _, f := range s.DT.Fields {
			qq.sort(f.Sort)
		}
	}
	qq.order = append(qq.order, s)
}

func (qq *query) visit(t *Term) {
	qq.rc[t.ID]++
	if qq.seen[t.ID] {
		return
	}
	qq.seen[t.ID] = true
	qq.sort(t.Sort)
	for _, v := range t.Bound {
		qq.sort(v.Sort)
	}
	for _, a := range t.Args {
		qq.visit(a)
	}
	for _, g := range t.Trig {
		for _, a := range g {
			qq.visit(a)
		}
	}
	switch t.Op {
	case OpConst:
		if !t.IsBV {
			if _, ok := qq.consts[t.Name]; !ok {
				qq.consts[t.Name] = t
				qq.cnames = append(qq.cnames, t.Name)
				if _, ok := t.meta.(*strMeta); ok {
					qq.strs = append(qq.strs, t)
				}
			}
		}
	case OpApp:
		if _, ok := qq.funs[t.Name]; !ok {
			var as []string
			for _, a := range t.Args {
				as = append(as, a.Sort.Name)
			}
			qq.funs[t.Name] = "(" + strings.Join(as, " ") + ") " + t.Sort.Name
			qq.fnames = append(qq.fnames, t.Name)
		}
	}
	if !t.hasBV && len(t.Args) > 0 {
		qq.topo = append(qq.topo, t)
	}
}

type strMeta struct{ s string }

func (s *strMeta) distinctFrom(o distinctKind) bool {
	b, ok := o.(*strMeta)
	return !ok || b.s != s.s
}

// buildQuery renders assertions (conjunction) as SMT-LIB text, no check-sat.
func buildQuery(asserts []*Term, withQuant bool) string {
	qq := &query{sorts: map[string]*Sort{}, consts: map[string]*Term{}, funs: map[string]string{}, seen: map[int]bool{}, rc: map[int]int{}}
	all := append([]*Term{}, asserts...)
	for _, a := range all {
		qq.visit(a)
	}
	// axioms to fixpoint
	done := map[string]bool{}
	ncat, nvis := 0, len(all)
	for {
		ch := false
		syms := append(append([]string{}, qq.fnames...), qq.cnames...)
		syms = append(syms, "*")
		for _, f := range syms {
			if done[f] {
				continue
			}
			done[f] = true
			for axi, ax := range axiomsFor[f] {
				if axLimit != nil && axi >= axLimit[f] && strings.HasPrefix(f, "pure:") {
					continue
				}
				if !withQuant && hasQuant(ax) {
					continue
				}
				all = append(all, ax)
				ch = true
			}
		}
		for _, t := range qq.topo[ncat:] {
			if t.Op == OpApp && t.Name == "strcat" {
				ax := Eq(App("slen", SInt, t), Add(App("slen", SInt, t.Args[0]), App("slen", SInt, t.Args[1])))
				for _, x := range t.Args {
					ax = And(ax, Le(I(0), App("slen", SInt, x)))
				}
				all = append(all, ax)
				ch = true
			}
		}
		ncat = len(qq.topo)
		if ch {
			for _, a := range all[nvis:] {
				qq.visit(a)
			}
			nvis = len(all)
		}
		if !ch {
			break
		}
	}
	var b strings.Builder
	for _, s := range qq.order {
		if s.DT != nil {
			b.WriteString("(declare-datatypes ((" + s.Name + " 0)) (((" + q("mk_"+s.Name))
			for _, f := range s.DT.Fields {
				b.WriteString(" (" + q(f.Name) + " " + f.Sort.Name + ")")
			}
			b.WriteString("))))\n")
		} else if s != SInt && s != SBool && s != SReal {
			b.WriteString("(declare-sort " + s.Name + " 0)\n")
		}
	}
	sort.Strings(qq.cnames)
	for _, c := range qq.cnames {
		b.WriteString("(declare-const " + q(c) + " " + qq.consts[c].Sort.Name + ")\n")
	}
	sort.Strings(qq.fnames)
	for _, f := range qq.fnames {
		b.WriteString("(declare-fun " + q(f) + " " + qq.funs[f] + ")\n")
	}
	if len(qq.strs) > 1 {
		b.WriteString("(assert (distinct")
		for _, s := range qq.strs {
			b.WriteString(" " + q(s.Name))
		}
		b.WriteString("))\n")
	}
	// distinct allocs are covered by at(); func consts:
	var fcs []string
	for _, c := range qq.cnames {
		if _, ok := qq.consts[c].meta.(*funcMeta); ok {
			fcs = append(fcs, q(c))
		}
	}
	if len(fcs) > 0 {
		if _, ok := qq.consts["nil"]; ok {
			fcs = append(fcs, q("nil"))
		}
		if len(fcs) > 1 {
			b.WriteString("(assert (distinct " + strings.Join(fcs, " ") + "))\n")
		}
	}
	if _, ok := qq.consts["nil"]; ok {
		for _, c := range qq.cnames {
			if _, ok := qq.consts[c].meta.(*allocMeta); ok {
				b.WriteString("(assert (not (= " + q("nil") + " " + q(c) + ")))\n")
			}
		}
	}
	names := map[int]string{}
	for _, t := range qq.topo {
		if qq.rc[t.ID] > 1 {
			n := fmt.Sprintf("n%d", t.ID)
			b.WriteString("(define-fun " + n + " () " + t.Sort.Name + " " + t.smt(names) + ")\n")
			names[t.ID] = n
		}
	}
	for _, a := range all {
		var tb strings.Builder
		a.write(&tb, names, false)
		b.WriteString("(assert " + tb.String() + ")\n")
	}
	if body := b.String(); strings.Contains(body, "(vmod ") || strings.Contains(body, "(vdiv ") {
		return divExact + body
	}
	return b.String()
}

type SolveResult struct {
	Status  string // unsat, sat, unknown
	Backend string
	Time    float64
	Output  string
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name string, args []string, input string, timeout time.Duration) (string, string) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	cctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, name, args...)
	cmd.Stdin = strings.NewReader(input)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Run()
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat", "unknown":
		return first, s
	}
	if strings.Contains(s, "error") {
		return "error", s + errb.String()
	}
	return "unknown", s + errb.String()
}

// division by a variable: exactly, or (for a first attempt) only what is known without non-linear arithmetic
const divExact = "(define-fun vmod ((a Int) (b Int)) Int (mod a b))\n(define-fun vdiv ((a Int) (b Int)) Int (div a b))\n"
const divLoose = "(declare-fun vmod (Int Int) Int)\n(declare-fun vdiv (Int Int) Int)\n" +
	"(assert (forall ((a Int) (b Int)) (! (=> (> b 0) (and (<= 0 (vmod a b)) (< (vmod a b) b) (=> (and (<= 0 a) (< a b)) (= (vmod a b) a)))) :pattern ((vmod a b)))))\n" +
	"(assert (forall ((a Int) (b Int)) (! (=> (and (> b 0) (>= a 0)) (and (<= 0 (vdiv a b)) (<= (vdiv a b) a) (=> (< a b) (= (vdiv a b) 0)))) :pattern ((vdiv a b)))))\n"

func solve(asserts []*Term, quick bool) SolveResult {
	body := buildQuery(asserts, true)
	return solveText(body, nil, quick)
}

// solveText decides a query; rel, when given, renders it with only the hypotheses that seem relevant.
func solveText(body string, rel func() string, quick bool) SolveResult {
	if quick {
		return solveStages(body, rel, 10, false)
	}
	return solveStages(body, rel, 60, false)
}

// solveLong: a second attempt with other seeds and more time
func solveLong(body string, rel func() string) SolveResult { return solveStages(body, rel, 50, true) }

// relevant drops quantified hypotheses that share no rare symbol with the goal or with hypotheses already kept
// (dropping hypotheses can only lose proofs).
func relevant(hyps []*Term, goal *Term, rounds int) []*Term {
	symsOf := func(t *Term) map[string]bool {
		out := map[string]bool{}
		seen := map[int]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t.ID] {
				return
			}
			seen[t.ID] = true
			if t.Op == OpConst && !t.IsBV || t.Op == OpApp {
				out[t.Name] = true
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(t)
		return out
	}
	occ := map[string]int{}
	var quant []*Term
	var qs []map[string]bool
	var out []*Term
	for _, h := range hyps {
		if hasQuant(h) {
			m := symsOf(h)
			quant, qs = append(quant, h), append(qs, m)
			for s := range m {
				occ[s]++
			}
		} else {
			out = append(out, h)
		}
	}
	have := symsOf(goal)
	used := make([]bool, len(quant))
	for r := 0; r < rounds; r++ {
		var add []int
		for i, m := range qs {
			if used[i] {
				continue
			}
			least := 1 << 30
			for s := range m {
				if occ[s] < least {
					least = occ[s]
				}
			}
			for s := range m {
				if have[s] && occ[s] <= 2*least+1 {
					add = append(add, i)
					break
				}
			}
		}
		if len(add) == 0 {
			break
		}
		for _, i := range add {
			used[i] = true
			out = append(out, quant[i])
			for s := range qs[i] {
				have[s] = true
			}
		}
	}
	return out
}

func solveStages(body string, rel func() string, tmo int, long bool) SolveResult {
	t0 := time.Now()
	text := "(set-option :auto_config true)\n" + body + "(check-sat)\n"
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		f, _ := os.CreateTemp(d, "q*.smt2")
		f.WriteString(text)
		f.Close()
	}
	type stage struct {
		name, bin string
		args      []string
		pre       string
		tmo       int
		rel       bool
	}
	stages := [][]stage{
		{{"z3-5.3.2", "z3-new", []string{"-smt2", "-in", "-T:3", "smt.mbqi=false", "smt.array.extensional=false"}, "", 3, false}},
		{
			{"z3-5.3.2(first)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.array.extensional=false"}, "", tmo, false},
			{"z3-5.3.2", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo)}, "", tmo, false},
			{"z3-5.3.2(ematch)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.array.extensional=false", "smt.arith.solver=2", "smt.random_seed=7"}, "", tmo, false},
			{"z3-5.3.2(ematch2)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.arith.solver=2"}, "", tmo, false},
			{"z3-4.8.12", "z3", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo)}, "", tmo, false},
			{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo*1000)}, "(set-logic ALL)\n", tmo, false},
		},
	}
	if long {
		stages = [][]stage{{
			{"z3-5.3.2(first)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.array.extensional=false"}, "", tmo, false},
			{"z3-5.3.2(first5)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.array.extensional=false", "smt.random_seed=5"}, "", tmo, false},
			{"z3-5.3.2(ematch7)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.array.extensional=false", "smt.arith.solver=2", "smt.random_seed=7"}, "", tmo, false},
			{"z3-5.3.2", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.random_seed=3"}, "", tmo, false},
			{"z3-5.3.2(ematch)", "z3-new", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.random_seed=11"}, "", tmo, false},
			{"z3-4.8.12", "z3", []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo)}, "", tmo, false},
			{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo*1000)}, "(set-logic ALL)\n", tmo, false},
		}}
	}
	relText := ""
	last := SolveResult{Status: "unknown", Backend: "all"}
	var outs []string
	for i, st := range stages {
		if rel != nil && (i > 0 || long) {
			if relText == "" {
				relText = "(set-option :auto_config true)\n" + rel() + "(check-sat)\n"
			}
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				f, _ := os.CreateTemp(d, "rel*.smt2")
				f.WriteString(relText)
				f.Close()
			}
			a := []string{"-smt2", "-in", fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.array.extensional=false"}
			st = append([]stage{{"z3-5.3.2(relevant)", "z3-new", a, "", tmo, true}}, st...)
		}
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan SolveResult, len(st))
		for _, s := range st {
			s := s
			go func() {
				in := text
				if s.pre != "" {
					in = s.pre + body + "(check-sat)\n"
				}
				if s.rel {
					in = relText
				}
				loose := false
				for _, a := range s.args {
					loose = loose || a == "smt.mbqi=false" && strings.Contains(in, divExact)
				}
				if loose {
					in = strings.Replace(in, divExact, divLoose, 1)
				}
				r, o := runSolver(ctx, s.bin, s.args, in, time.Duration(s.tmo)*time.Second)
				if (loose || s.rel) && r == "sat" {
					r = "unknown"
				}
				ch <- SolveResult{Status: r, Backend: s.name, Output: o}
			}()
		}
		var got *SolveResult
		for range st {
			r := <-ch
			if r.Status == "unsat" || r.Status == "sat" {
				got = &r
				break
			}
			outs = append(outs, r.Backend+": "+r.Status+" "+trunc(r.Output, 400))
		}
		cancel()
		if got != nil {
			got.Time = time.Since(t0).Seconds()
			return *got
		}
	}
	last.Output = strings.Join(outs, "\n")
	last.Time = time.Since(t0).Seconds()
	return last
}

func solveVac(body string) SolveResult {
	text := "(set-option :auto_config true)\n" + body + "(check-sat)\n"
	r, o := runSolver(context.Background(), "z3-new", []string{"-smt2", "-in", "-T:2", "smt.mbqi=false"}, text, 2*time.Second)
	return SolveResult{Status: r, Output: o}
}

// solveStage1 runs only the fast solver.
func solveStage1(body string) SolveResult {
	t0 := time.Now()
	text := "(set-option :auto_config true)\n" + body + "(check-sat)\n"
	text = strings.Replace(text, divExact, divLoose, 1)
	r, o := runSolver(context.Background(), "z3-new", []string{"-smt2", "-in", "-T:4", "smt.mbqi=false"}, text, 4*time.Second)
	if r == "sat" {
		r = "unknown"
	}
	return SolveResult{Status: r, Backend: "z3-5.3.2", Time: time.Since(t0).Seconds(), Output: o}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func getModel(asserts []*Term) string {
	body := buildQuery(asserts, true)
	text := body + "(check-sat)\n(get-model)\n"
	_, o := runSolver(context.Background(), "z3-new", []string{"-smt2", "-in", "-T:5"}, text, 5*time.Second)
	return trunc(o, 6000)
}

// feas is a persistent solver used to prune infeasible paths (unknown = feasible).
type feasSolver struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func newFeas() *feasSolver {
	f := &feasSolver{}
	f.start()
	return f
}
func (f *feasSolver) start() {
	cmd := exec.Command("z3-new", "-smt2", "-in", "-t:400")
	f.in, _ = cmd.StdinPipe()
	o, _ := cmd.StdoutPipe()
	f.out = bufio.NewReader(o)
	cmd.Start()
	f.cmd = cmd
}
func (f *feasSolver) stop() {
	f.in.Close()
	f.cmd.Process.Kill()
	f.cmd.Wait()
}

var feasCache = map[string]bool{}
var feasTime time.Duration
var feasN int

func hasQuant(t *Term) bool {
	return mentions(t, func(x *Term) bool { return x.Op == OpForall || x.Op == OpExists })
}

// feasible reports whether the quantifier-free part of the assertions may be satisfiable.
func (f *feasSolver) feasible(asserts []*Term) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	var as []*Term
	for _, a := range asserts {
		if a.Op == OpFalse {
			return false
		}
		if !a.hasBV && !hasQuant(a) {
			as = append(as, a)
		}
	}
	var kb strings.Builder
	for _, a := range as {
		fmt.Fprintf(&kb, "%d,", a.ID)
	}
	k := kb.String()
	if r, ok := feasCache[k]; ok {
		return r
	}
	t0 := time.Now()
	body := buildQuery(as, false)
	f.n++
	feasN++
	fmt.Fprintf(f.in, "(push)\n%s(check-sat)\n(pop)\n(echo \"done%d\")\n", body, f.n)
	res := true
	for {
		line, err := f.out.ReadString('\n')
		if err != nil {
			f.start()
			break
		}
		line = strings.TrimSpace(line)
		if line == "unsat" {
			res = false
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "feas:", line)
			if os.Getenv("GOVC_FEASDUMP") != "" {
				fmt.Fprintln(os.Stderr, body)
			}
		}
		if strings.Contains(line, fmt.Sprintf("done%d", f.n)) {
			break
		}
	}
	feasTime += time.Since(t0)
	feasCache[k] = res
	return res
}
