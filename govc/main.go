package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|verify|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "verify":
		os.Exit(cmdVerify(os.Args[2:]))
	case "replay":
		c, out := replayHarness("/verif", os.Args[2])
		fmt.Println(out)
		fmt.Println("concrete:", c)
	case "list":
		P, err := loadProgram(os.Args[2], nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, n := range sortedKeys(P.Funcs) {
			fmt.Println(n)
		}
	case "ssa":
		P, err := loadProgram(os.Args[2], nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		P.Funcs[os.Args[3]].WriteTo(os.Stdout)
	}
}

type module struct {
	name string
	dir  string
	P    *Program
	S    *Specs
	lem  []*Obl
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadModule(verif, name string, feas *feasSolver) (*module, error) {
	m := &module{name: name, dir: filepath.Join(repoDir(), name)}
	ov, err := readOverlay(filepath.Join(verif, "contracts", "clients", name), m.dir)
	if err != nil {
		return nil, err
	}
	if m.P, err = loadProgram(m.dir, ov); err != nil {
		return nil, err
	}
	if m.S, err = loadSpecs(filepath.Join(verif, "contracts", name)); err != nil {
		return nil, err
	}
	var e string
	if m.lem, e = loadAxioms(m.P, m.S, feas); e != "" {
		return nil, fmt.Errorf("axioms: %s", e)
	}
	return m, nil
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (c *Contract) hasTag(p string) bool {
	if has(c.Tags, p) {
		return true
	}
	for _, e := range append(append([]Clause{}, c.Ens...), c.EnsPanic...) {
		if has(e.Tags, p) {
			return true
		}
	}
	return false
}

func verifiable(c *Contract) bool { return c.Kind == "func" && !c.NoVerify }

// run verifies the contracts for property p (or the named functions) and everything they rely on.
func (m *module) run(p string, only []string, feas *feasSolver, closure bool) []*FuncResult {
	var todo []string
	done := map[string]bool{}
	roots := map[string]bool{}
	for _, n := range m.S.Order {
		c := m.S.C[n]
		if !verifiable(c) {
			continue
		}
		sel := false
		if len(only) > 0 {
			for _, o := range only {
				if n == o || strings.HasSuffix(n, "."+o) || o == "all" {
					sel = true
				}
			}
		} else {
			sel = c.hasTag(p)
		}
		if sel {
			todo = append(todo, n)
			roots[n] = true
		}
	}
	var out []*FuncResult
	used := map[string]bool{}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if done[n] {
			continue
		}
		done[n] = true
		c := m.S.C[n]
		r := verifyFunc(m.P, m.S, c, feas)
		out = append(out, r)
		for _, u := range sortedKeys(r.Used) {
			used[u] = true
			if closure && verifiable(m.S.C[u]) && !done[u] {
				todo = append(todo, u)
			}
		}
	}
	if p != "" {
		// a root that nothing else relies on answers only for this property's clauses
		for _, r := range out {
			if roots[r.Name] && !used[r.Name] {
				var keep []*Obl
				for _, o := range r.Obls {
					if len(o.Tags) == 0 || has(o.Tags, p) {
						keep = append(keep, o)
					}
				}
				r.Obls = keep
			}
		}
	}
	return out
}

func cmdVerify(args []string) int {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	mod := fs.String("mod", "streams", "module")
	prop := fs.String("prop", "", "property")
	closure := fs.Bool("closure", false, "verify callees too")
	verif := fs.String("verif", "/verif", "verif dir")
	quick := fs.Bool("quick", true, "short solver limits")
	models := fs.Bool("model", false, "print models")
	fs.Parse(args)
	feas := newFeas()
	defer feas.stop()
	t0 := time.Now()
	m, err := loadModule(*verif, *mod, feas)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tl := time.Since(t0)
	rs := m.run(*prop, fs.Args(), feas, *closure)
	te := time.Since(t0)
	var obls []*Obl
	for _, r := range rs {
		obls = append(obls, r.Obls...)
	}
	obls = append(obls, m.lem...)
	discharge(obls, *quick, 8)
	bad := 0
	checkVacuousAll(rs)
	for _, r := range rs {
		ok, n := 0, 0
		for _, o := range r.Obls {
			n++
			if o.Res.Status == "unsat" {
				ok++
			}
		}
		fmt.Printf("%-50s %d/%d obligations (+%d trivial), %d exits, exec %.1fs\n", r.Name, ok, n, r.Trivial, r.Exits, r.Secs)
		if r.Unsup != "" {
			fmt.Printf("   UNSUPPORTED: %s\n", r.Unsup)
			bad++
		}
		if r.Vacuous {
			fmt.Printf("   VACUOUS\n")
			bad++
		}
		for _, o := range r.Obls {
			if o.Res.Status != "unsat" {
				bad++
				fmt.Printf("   FAILED [%s] %s: %s at %s (%.1fs)\n", o.Res.Status, o.Kind, o.Name, o.Pos, o.Res.Time)
				if o.Res.Status == "error" || o.Res.Status == "unknown" {
					fmt.Println("     ", trunc(o.Res.Output, 300))
				}
				if *models {
					fmt.Println("   GOAL", trunc(o.Goal.String(), 2000))
					fmt.Println(getModelText(o.text))
				}
			}
		}
	}
	for _, o := range m.lem {
		if o.Res.Status != "unsat" {
			bad++
			fmt.Printf("   FAILED [%s] %s at %s\n", o.Res.Status, o.Name, o.Pos)
		}
	}
	fmt.Printf("load %.1fs exec %.1fs solve %.1fs feas %d/%.1fs\n", tl.Seconds(), (te - tl).Seconds(), (time.Since(t0) - te).Seconds(), feasN, feasTime.Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}

// ---------- property checks ----------

type failure struct {
	Func       string `json:"function"`
	Kind       string `json:"kind"`
	Obligation string `json:"obligation"`
	Pos        string `json:"position"`
	Status     string `json:"status"`
	Output     string `json:"verifier_output,omitempty"`
	Goal       string `json:"goal,omitempty"`
	Model      string `json:"model,omitempty"`
}

func (f failure) id() string { return f.Func + " | " + f.Kind + " | " + f.Obligation }

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", "/verif", "verif dir")
	mods := fs.String("mods", "", "modules (comma separated)")
	fs.Parse(args)
	t0 := time.Now()
	p := *prop
	if *mods == "" {
		*mods = "streams"
		if p == "C26" {
			*mods = "msk"
		}
	}
	feas := newFeas()
	defer feas.stop()
	var fails []failure
	var results []*FuncResult
	var obls []*Obl
	var lem []*Obl
	assumed := map[string]bool{}
	inl := map[string]bool{}
	for _, mn := range strings.Split(*mods, ",") {
		m, err := loadModule(*verif, mn, feas)
		if err != nil {
			fails = append(fails, failure{Func: mn, Kind: "load", Obligation: "the source and the contracts load and type-check", Status: "error", Output: err.Error()})
			continue
		}
		rs := m.run(p, nil, feas, true)
		results = append(results, rs...)
		for _, r := range rs {
			obls = append(obls, r.Obls...)
			for a := range r.Assumed {
				assumed[a] = true
			}
			for a := range r.Inlined {
				inl[a] = true
			}
		}
		// lemmas: those in files that carry this property's tag, or used by it
		for _, o := range m.lem {
			if has(o.Tags, p) {
				lem = append(lem, o)
			}
		}
		for _, a := range m.S.Axioms {
			if !a.Lemma && has(a.Tags, p) {
				assumed["axiom "+a.Name+" ("+a.File+")"] = true
			}
		}
	}
	if len(results) == 0 && len(fails) == 0 {
		fails = append(fails, failure{Func: "-", Kind: "coverage", Obligation: "no contract carries property " + p, Status: "error"})
	}
	all := append(append([]*Obl{}, obls...), lem...)
	replayed := false
	var concrete, replayOut string
	tryReplay := func() bool {
		if !replayed {
			replayed = true
			concrete, replayOut = replayHarness(*verif, p)
		}
		return concrete != ""
	}
	beforeRetry = tryReplay
	discharge(all, *tier != "thorough", 8)
	backends := map[string]int{}
	solver := 0.0
	dis := 0
	triv := 0
	for _, o := range all {
		solver += o.Res.Time
		if o.Res.Status == "unsat" {
			dis++
			backends[o.Res.Backend]++
			continue
		}
		f := failure{Func: o.Func, Kind: o.Kind, Obligation: o.Name, Pos: o.Pos, Status: o.Res.Status, Output: trunc(o.Res.Output, 3000), Goal: trunc(o.Goal.String(), 3000)}
		if o.Res.Status == "sat" && len(fails) < 4 {
			f.Model = getModelText(o.text)
		}
		fails = append(fails, f)
	}
	checkVacuousAll(results)
	var fnames []string
	total := len(all)
	for _, r := range results {
		triv += r.Trivial
		fnames = append(fnames, r.Name)
		if r.Unsup != "" {
			total++
			fails = append(fails, failure{Func: r.Name, Kind: "unverifiable", Obligation: "the function can be verified against its contract", Status: "unsupported", Output: r.Unsup})
		}
		total++ // the non-vacuity check
		if r.Vacuous {
			fails = append(fails, failure{Func: r.Name, Kind: "vacuity", Obligation: "some execution satisfies the preconditions", Status: "unsat"})
		} else {
			dis++
		}
	}
	// known findings
	known := readKnown(filepath.Join(*verif, "known_findings.txt"))
	var viol []failure
	for _, f := range fails {
		if d, ok := known[p+" "+f.id()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p, d)
			continue
		}
		viol = append(viol, f)
	}
	sort.Strings(fnames)
	var tb []string
	for _, a := range sortedKeys(assumed) {
		tb = append(tb, a)
	}
	tb = append(tb, "govc (this repository's symbolic executor and its model of the Go memory, channel and lock semantics)", "golang.org/x/tools/go/ssa v0.52.0", "SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"partial correctness: termination, deadlock freedom and memory exhaustion are not claimed", "data written only under its lock or owned by one goroutine is not changed by others between two of a function's steps")
	ev := map[string]any{
		"property": p, "tier": *tier, "seed": seed(), "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": dis, "trivially_true_during_generation": triv,
			"checker_cmd": fmt.Sprintf("./check.sh %s %s", p, *tier), "trusted_base": tb,
			"functions_under_contract": fnames, "functions_inlined_into_them": sortedKeys(inl), "backends": backends, "solver_seconds": solver,
		},
		"assumptions": tb, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	code := 0
	if len(viol) > 0 {
		code = 1
		rp := filepath.Join(*verif, "evidence", "replay-"+p+".json")
		rr := map[string]any{"property": p, "failed_obligations": viol}
		tryReplay()
		rr["harness_output"] = replayOut
		rr["failing_input"] = concrete
		b, _ := json.MarshalIndent(rr, "", " ")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		os.WriteFile(rp, b, 0o644)
		for i, f := range viol {
			if i >= 12 {
				fmt.Printf("... and %d more\n", len(viol)-i)
				break
			}
			fmt.Printf("FAILED OBLIGATION [%s] %s at %s\n", f.Status, f.id(), f.Pos)
			if f.Output != "" && f.Status != "sat" {
				fmt.Printf("   %s\n", trunc(f.Output, 300))
			}
		}
		if concrete != "" {
			fmt.Printf("FAILING INPUT: %s\n", concrete)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", p, rp)
		}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", p+".json"), b, 0o644)
	fmt.Printf("%s: %d functions, %d obligations, %d discharged, %d violations, %.1fs\n", p, len(fnames), total, dis, len(viol), time.Since(t0).Seconds())
	return code
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

// readKnown reads "known: property=<id> obligation=<f | kind | name> :: <what fails>" lines.
func readKnown(path string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " obligation=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out[l[:i]+" "+strings.TrimSpace(l[i+len(" obligation="):j])] = strings.TrimSpace(l[j+4:])
	}
	return out
}

func getModelText(body string) string {
	if body == "" {
		return ""
	}
	cmd := exec.Command("z3-new", "-smt2", "-in", "-T:5")
	cmd.Stdin = strings.NewReader(body + "(check-sat)\n(get-model)\n")
	o, _ := cmd.CombinedOutput()
	return trunc(string(o), 8000)
}

// replayHarness searches for a concrete failing input on the real code: it runs the
// property's harness (an in-package test added by overlay) and returns what it reports.
func replayHarness(verif, p string) (concrete, output string) {
	files, _ := filepath.Glob(filepath.Join(verif, "replay", "*", "*", p+"_*_test.go"))
	f2, _ := filepath.Glob(filepath.Join(verif, "replay", "*", p+"_*_test.go"))
	files = append(files, f2...)
	for _, f := range files {
		rel, _ := filepath.Rel(filepath.Join(verif, "replay"), f)
		parts := strings.SplitN(rel, "/", 2)
		mod := parts[0]
		dst := filepath.Join(repoDir(), mod, filepath.Dir(parts[1]), "zz_verif_"+filepath.Base(f))
		ov := map[string]map[string]string{"Replace": {dst: f}}
		// shared helpers of the directory
		hs, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "helper_*_test.go"))
		for _, h := range hs {
			ov["Replace"][filepath.Join(repoDir(), mod, filepath.Dir(parts[1]), "zz_verif_"+filepath.Base(h))] = h
		}
		tmp, err := os.MkdirTemp("", "govc-replay")
		if err != nil {
			continue
		}
		b, _ := json.Marshal(ov)
		oj := filepath.Join(tmp, "overlay.json")
		os.WriteFile(oj, b, 0o644)
		cmd := exec.Command("timeout", "-k", "5", "150", "go", "test", "-overlay", oj, "-vet=off", "-short", "-count=1", "-timeout", "120s", "-run", "^TestVerif"+p+"_", "-v", "./"+filepath.Dir(parts[1]))
		cmd.Dir = filepath.Join(repoDir(), mod)
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "TMPDIR="+tmp)
		out, _ := cmd.CombinedOutput()
		os.RemoveAll(tmp)
		output += trunc(string(out), 6000)
		for _, l := range strings.Split(string(out), "\n") {
			if i := strings.Index(l, "FAILING-INPUT: "); i >= 0 {
				return strings.TrimSpace(l[i+len("FAILING-INPUT: "):]), output
			}
		}
		if strings.Contains(string(out), "panic: ") && strings.Contains(string(out), "TestVerif") && !strings.Contains(string(out), "build failed") {
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "panic: ") && !strings.Contains(l, "test timed out") {
					return "the harness input makes the code panic: " + l, output
				}
			}
		}
	}
	return "", output
}
