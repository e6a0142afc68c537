package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---------- tokens ----------
type tok struct {
	k    string // id, num, str, op, nl, eof
	s    string
	line int
}

type lexer struct {
	toks []tok
	i    int
	file string
}

func lexSpec(file, src string) (*lexer, error) {
	lx := &lexer{file: file}
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "=>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "..."}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			lx.toks = append(lx.toks, tok{"nl", "\n", line})
			line++
			i++
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' {
			i++
			continue
		}
		if c == '\\' && i+1 < len(src) && src[i+1] == '\n' { // continuation
			line++
			i += 2
			continue
		}
		if c == '/' && i+1 < len(src) && src[i+1] == '/' {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			lx.toks = append(lx.toks, tok{"str", src[i+1 : j], line})
			i = j + 1
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			lx.toks = append(lx.toks, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1]))) {
				j++
			}
			lx.toks = append(lx.toks, tok{"num", src[i:j], line})
			i = j
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				lx.toks = append(lx.toks, tok{"op", o, line})
				i += len(o)
				found = true
				break
			}
		}
		if found {
			continue
		}
		lx.toks = append(lx.toks, tok{"op", string(c), line})
		i++
	}
	lx.toks = append(lx.toks, tok{"nl", "\n", line}, tok{"eof", "", line})
	return lx, nil
}

type specErr struct{ msg string }

func (lx *lexer) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", lx.file, lx.toks[lx.i].line, fmt.Sprintf(f, a...))})
}
func (lx *lexer) peek() tok { return lx.toks[lx.i] }
func (lx *lexer) next() tok { t := lx.toks[lx.i]; lx.i++; return t }
func (lx *lexer) skipNL() {
	for lx.peek().k == "nl" {
		lx.i++
	}
}
func (lx *lexer) isOp(s string) bool { t := lx.peek(); return t.k == "op" && t.s == s }
func (lx *lexer) isID(s string) bool { t := lx.peek(); return t.k == "id" && t.s == s }
func (lx *lexer) accept(s string) bool {
	t := lx.peek()
	if (t.k == "op" || t.k == "id") && t.s == s {
		lx.i++
		return true
	}
	return false
}
func (lx *lexer) expect(s string) {
	if !lx.accept(s) {
		lx.fail("expected %q, got %q", s, lx.peek().s)
	}
}
func (lx *lexer) ident() string {
	t := lx.next()
	if t.k != "id" {
		lx.i--
		lx.fail("expected identifier, got %q", t.s)
	}
	return t.s
}

// ---------- expressions ----------
type Expr struct {
	K    string // id num str bin un call sel idx slice quant old ite in
	S    string
	A    []*Expr
	Vars []SpecVar
	Trig [][]*Expr
	Line int
	Ty   *TypeX
}
type SpecVar struct {
	Name string
	Ty   *TypeX
}

// TypeX is a type expression in specs.
type TypeX struct {
	K    string // name ptr slice map arr chan
	S    string
	A, B *TypeX
	Args []*TypeX
}

func (lx *lexer) typeX() *TypeX {
	if lx.accept("*") {
		return &TypeX{K: "ptr", A: lx.typeX()}
	}
	if lx.accept("[") {
		if lx.accept("]") {
			return &TypeX{K: "slice", A: lx.typeX()}
		}
		a := lx.typeX()
		lx.expect("=>")
		b := lx.typeX()
		lx.expect("]")
		return &TypeX{K: "arr", A: a, B: b}
	}
	if lx.isID("map") {
		lx.next()
		lx.expect("[")
		a := lx.typeX()
		lx.expect("]")
		return &TypeX{K: "map", A: a, B: lx.typeX()}
	}
	if lx.isID("chan") {
		lx.next()
		return &TypeX{K: "chan", A: lx.typeX()}
	}
	if lx.isID("struct") {
		lx.next()
		lx.expect("{")
		lx.expect("}")
		return &TypeX{K: "struct"}
	}
	n := lx.ident()
	if lx.accept(".") {
		n += "." + lx.ident()
	}
	t := &TypeX{K: "name", S: n}
	if lx.isOp("[") {
		lx.next()
		for {
			t.Args = append(t.Args, lx.typeX())
			if !lx.accept(",") {
				break
			}
		}
		lx.expect("]")
	}
	return t
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (lx *lexer) expr() *Expr { return lx.binary(1) }

func (lx *lexer) binary(min int) *Expr {
	l := lx.unary()
	for {
		t := lx.peek()
		if t.k == "nl" { // allow continuation when next non-nl token is a binary operator
			j := lx.i
			for lx.toks[j].k == "nl" {
				j++
			}
			n := lx.toks[j]
			if n.k == "op" && binPrec[n.s] > 0 && n.s != "*" && n.s != "-" {
				lx.i = j
				t = n
			} else {
				return l
			}
		}
		p, ok := binPrec[t.s]
		if !ok || (t.k != "op" && t.s != "in") || p < min {
			return l
		}
		lx.next()
		lx.skipNL()
		var r *Expr
		if t.s == "==>" {
			r = lx.binary(p)
		} else {
			r = lx.binary(p + 1)
		}
		l = &Expr{K: "bin", S: t.s, A: []*Expr{l, r}, Line: t.line}
	}
}

func (lx *lexer) unary() *Expr {
	t := lx.peek()
	if lx.accept("!") {
		return &Expr{K: "un", S: "!", A: []*Expr{lx.unary()}, Line: t.line}
	}
	if lx.accept("-") {
		return &Expr{K: "un", S: "-", A: []*Expr{lx.unary()}, Line: t.line}
	}
	if lx.accept("*") {
		return &Expr{K: "un", S: "*", A: []*Expr{lx.unary()}, Line: t.line}
	}
	return lx.postfix(lx.primary())
}

func (lx *lexer) postfix(e *Expr) *Expr {
	for {
		t := lx.peek()
		switch {
		case lx.accept("."):
			e = &Expr{K: "sel", S: lx.ident(), A: []*Expr{e}, Line: t.line}
		case lx.accept("["):
			lx.skipNL()
			i := lx.expr()
			lx.skipNL()
			if lx.accept(":=") {
				lx.skipNL()
				v := lx.expr()
				lx.skipNL()
				lx.expect("]")
				e = &Expr{K: "upd", A: []*Expr{e, i, v}, Line: t.line}
				continue
			}
			lx.expect("]")
			e = &Expr{K: "idx", A: []*Expr{e, i}, Line: t.line}
		case lx.isOp("(") && (e.K == "id" || e.K == "sel"):
			lx.next()
			var args []*Expr
			lx.skipNL()
			for !lx.accept(")") {
				args = append(args, lx.expr())
				lx.skipNL()
				if !lx.accept(",") {
					lx.expect(")")
					break
				}
				lx.skipNL()
			}
			e = &Expr{K: "call", A: append([]*Expr{e}, args...), Line: t.line}
		default:
			return e
		}
	}
}

func (lx *lexer) primary() *Expr {
	t := lx.next()
	switch {
	case t.k == "num":
		return &Expr{K: "num", S: t.s, Line: t.line}
	case t.k == "str":
		return &Expr{K: "str", S: t.s, Line: t.line}
	case t.k == "op" && t.s == "(":
		lx.skipNL()
		e := lx.expr()
		lx.skipNL()
		lx.expect(")")
		return e
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		e := &Expr{K: "quant", S: t.s, Line: t.line}
		for {
			n := lx.ident()
			ty := lx.typeX()
			e.Vars = append(e.Vars, SpecVar{n, ty})
			if !lx.accept(",") {
				break
			}
		}
		for lx.accept("{") {
			var tg []*Expr
			for {
				tg = append(tg, lx.expr())
				if !lx.accept(",") {
					break
				}
			}
			lx.expect("}")
			e.Trig = append(e.Trig, tg)
		}
		lx.expect("::")
		lx.skipNL()
		e.A = []*Expr{lx.expr()}
		return e
	case t.k == "id" && t.s == "lambda":
		n := lx.ident()
		ty := lx.typeX()
		lx.expect("::")
		lx.skipNL()
		return &Expr{K: "lambda", Vars: []SpecVar{{n, ty}}, A: []*Expr{lx.expr()}, Line: t.line}
	case t.k == "id" && t.s == "let":
		n := lx.ident()
		lx.expect("=")
		v := lx.expr()
		lx.skipNL()
		lx.expect(";")
		lx.skipNL()
		b := lx.expr()
		return &Expr{K: "let", S: n, A: []*Expr{v, b}, Line: t.line}
	case t.k == "id" && t.s == "if":
		c := lx.expr()
		lx.skipNL()
		lx.expect("then")
		lx.skipNL()
		a := lx.expr()
		lx.skipNL()
		lx.expect("else")
		lx.skipNL()
		b := lx.expr()
		return &Expr{K: "ite", A: []*Expr{c, a, b}, Line: t.line}
	case t.k == "id":
		return &Expr{K: "id", S: t.s, Line: t.line}
	}
	lx.i--
	lx.fail("unexpected token %q in expression", t.s)
	return nil
}

// ---------- contracts ----------
type Clause struct {
	Name string
	E    *Expr
	Tags []string // properties it belongs to (empty: all of the contract's)
	Line int
	File string
}
type ModItem struct {
	Kind string // field, elems, map, ghost, chan, buf, type, all, wg, log
	E    *Expr
	S    string
	S2   string
}
type LoopSpec struct {
	Ord      int
	Name     string
	Invs     []Clause
	Locals   []SpecVar
	Lets     []LetDef
	Ghosts   []GhostAssign // executed at the end of each iteration
	Modifies []ModItem
}
type LetDef struct {
	Name string
	E    *Expr
}
type GhostAssign struct {
	L, R *Expr
	Line int
}
type Contract struct {
	Kind     string // func extern field functype iface inline
	Name     string
	Pkg      string
	Params   []string
	Results  []string
	Req      []Clause
	Ens      []Clause
	EnsPanic []Clause
	Mods     []ModItem
	HasMods  bool
	Loops    []*LoopSpec
	Lets     []LetDef
	Ghosts   []GhostAssign
	Ghost0   []GhostAssign
	GhostU   []GhostAssign // before each unlock
	Inst     map[string]*TypeX
	Opts     map[string]string
	Tags     []string
	Aliases  []string
	Calls    []CallSite
	Logicals []SpecVar
	Chooses  []Choose
	Befores  []Before
	Waits    []Clause // hold wherever the function may block on channels
	File     string
	Line     int
	NoVerify bool   // assumed only
	Atomic []*Expr
	Iter     string // callback parameter called once per item
	IterFact []Clause
	IterKeep []*Expr
}
type Before struct {
	F string
	C Clause
}
type CallSite struct {
	Name string
	Args map[string]*Expr
}
type PureFn struct {
	Name   string
	Params []SpecVar
	Ret    *TypeX
	Body   *Expr
	Pkg    string
	File   string
	Opaque bool
}
type AxiomDecl struct {
	Syms  []string
	E     *Expr
	Pkg   string
	Name  string
	Lemma bool // must be proved
	Tags  []string
	File  string
	Line  int
	Uses  []string
	Term  *Term
}
type Choose struct {
	V SpecVar
	E *Expr
}
type GhostDecl struct {
	Name string
	Ty   *TypeX
	Type string // for ghost fields: owner type
	Along string // for ghost variables: entries below the number of calls of this function never change
	Pkg  string
}
type LockInv struct {
	Pkg, Type, Field string
	Self             string
	Protects         []ModItem
	Invs             []Clause
}
type Specs struct {
	C         map[string]*Contract // by canonical name
	Pure      map[string]*PureFn
	Axioms    []*AxiomDecl
	GVars     map[string]*GhostDecl
	GFields   map[string]*GhostDecl // "Type.name"
	Locks     map[string]*LockInv   // "pkg.Type.field"
	Precise   map[string]bool       // precise channel fields
	Open      map[string]bool       // channel fields whose channels are never closed (an obligation of every close)
	ElemRef   map[string]bool       // struct types whose slice elements are objects
	Volatile  map[string]bool
	ChanInvs  map[string]*ChanInv
	protected map[string]*LockInv
	Order     []string
}

// ChanInv: every value sent on a channel field satisfies E.
type ChanInv struct {
	Pkg, Type, Field, Var, File string
	E                           *Expr
}

func (c *ChanInv) Name() string { return c.Type + "." + c.Field }

func newSpecs() *Specs {
	return &Specs{C: map[string]*Contract{}, Pure: map[string]*PureFn{}, GVars: map[string]*GhostDecl{}, GFields: map[string]*GhostDecl{}, Locks: map[string]*LockInv{}, Precise: map[string]bool{}, Open: map[string]bool{}, ElemRef: map[string]bool{}, Volatile: map[string]bool{}, ChanInvs: map[string]*ChanInv{}, protected: map[string]*LockInv{}}
}

func loadSpecs(dir string) (s *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	s = newSpecs()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	// "define NAME text" lines are macros: $NAME stands for the text in every file
	// parameters: "define NAME(A, B) text"; a line ending in a backslash continues on the next
	macros := map[string]macro{}
	texts := make([]string, len(files))
	for i, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		lines := strings.Split(string(b), "\n")
		for j, l := range lines {
			if strings.HasPrefix(l, "define ") {
				lines[j] = ""
				for k := j + 1; strings.HasSuffix(l, "\\") && k < len(lines); k++ {
					l = strings.TrimSuffix(l, "\\") + "\n" + lines[k]
					lines[k] = ""
				}
				if w := macroHead.FindStringSubmatch(l); w != nil {
					m := macro{text: w[3]}
					for _, a := range strings.Split(w[2], ",") {
						if a = strings.TrimSpace(a); a != "" {
							m.params = append(m.params, a)
						}
					}
					if old, dup := macros[w[1]]; dup && old.text != m.text {
						return nil, fmt.Errorf("%s: macro %s is already defined", filepath.Base(f), w[1])
					}
					macros[w[1]] = m
				}
			}
		}
		texts[i] = strings.Join(lines, "\n")
	}
	for i, f := range files {
		text := texts[i]
		for n := 0; n < 6 && strings.Contains(text, "$"); n++ {
			text = expandMacros(text, macros)
		}
		lx, _ := lexSpec(filepath.Base(f), text)
		s.parse(lx)
	}
	return s, nil
}

type macro struct {
	params []string
	text   string
}

var macroHead = regexp.MustCompile(`(?s)^define ([A-Za-z_]\w*)(?:\(([^)]*)\))? (.*)$`)
var macroUse = regexp.MustCompile(`\$[A-Za-z_]\w*`)

func expandMacros(text string, macros map[string]macro) string {
	var b strings.Builder
	for {
		loc := macroUse.FindStringIndex(text)
		if loc == nil {
			b.WriteString(text)
			return b.String()
		}
		b.WriteString(text[:loc[0]])
		m, ok := macros[text[loc[0]+1:loc[1]]]
		if !ok {
			b.WriteString(text[loc[0]:loc[1]])
			text = text[loc[1]:]
			continue
		}
		body := m.text
		text0 := text[loc[1]:]
		if len(m.params) > 0 && strings.HasPrefix(text0, "(") {
			depth, start := 0, 1
			var args []string
			i := 0
			for ; i < len(text0); i++ {
				c := text0[i]
				if c == '(' || c == '[' {
					depth++
				} else if c == ')' || c == ']' {
					depth--
				}
				if depth == 0 || (depth == 1 && c == ',') {
					args = append(args, strings.TrimSpace(text0[start:i]))
					start = i + 1
					if depth == 0 {
						break
					}
				}
			}
			text0 = text0[i+1:]
			for j, p := range m.params {
				if j < len(args) {
					body = regexp.MustCompile(`\b`+p+`\b`).ReplaceAllLiteralString(body, args[j])
				}
			}
		}
		b.WriteString(body)
		text = text0
	}
}

func (s *Specs) parse(lx *lexer) {
	pkg := ""
	var fileTags []string
	for {
		lx.skipNL()
		t := lx.peek()
		if t.k == "eof" {
			return
		}
		switch kw := lx.ident(); kw {
		case "package":
			pkg = lx.ident()
		case "tags":
			fileTags = lx.words()
		case "precise":
			s.Precise[pkg+"."+lx.dotted()] = true
		case "open": // channels that are never closed
			s.Open[pkg+"."+lx.dotted()] = true
		case "volatile":
			s.Volatile[pkg+"."+lx.dotted()] = true
		case "elemref":
			s.ElemRef[pkg+"."+lx.ident()] = true
		case "chaninv":
			// chaninv Type.field(v): expr
			n := lx.dotted()
			i := strings.LastIndex(n, ".")
			ci := &ChanInv{Pkg: pkg, Type: n[:i], Field: n[i+1:], File: lx.file}
			lx.expect("(")
			ci.Var = lx.ident()
			lx.expect(")")
			lx.expect(":")
			lx.skipNL()
			ci.E = lx.expr()
			s.ChanInvs[pkg+"."+n] = ci
		case "ghostvar":
			n := lx.ident()
			g := &GhostDecl{Name: n, Ty: lx.typeX(), Pkg: pkg}
			if lx.isID("along") {
				lx.next()
				g.Along = lx.dotted()
			}
			s.GVars[n] = g
		case "ghostfield":
			tn := lx.dotted()
			ty := lx.typeX()
			i := strings.LastIndex(tn, ".")
			own := tn[:i]
			if !strings.Contains(own, ".") {
				own = pkg + "." + own
			}
			s.GFields[own+"."+tn[i+1:]] = &GhostDecl{Name: tn[i+1:], Ty: ty, Type: own, Pkg: pkg}
		case "pure":
			n := lx.ident()
			p := &PureFn{Name: n, Pkg: pkg, File: lx.file}
			lx.expect("(")
			for !lx.accept(")") {
				pn := lx.ident()
				p.Params = append(p.Params, SpecVar{pn, lx.typeX()})
				if !lx.accept(",") {
					lx.expect(")")
					break
				}
			}
			p.Ret = lx.typeX()
			if lx.accept("=") {
				lx.skipNL()
				p.Body = lx.expr()
			}
			s.Pure[n] = p
		case "axiom", "lemma":
			a := &AxiomDecl{Pkg: pkg, Lemma: kw == "lemma", Tags: fileTags, File: lx.file, Line: t.line}
			a.Name = lx.ident()
			if lx.accept("for") {
				for {
					a.Syms = append(a.Syms, lx.ident())
					if !lx.accept(",") {
						break
					}
				}
			}
			if lx.accept("uses") {
				a.Uses = lx.wordsUntilColon()
			}
			lx.expect(":")
			lx.skipNL()
			a.E = lx.expr()
			s.Axioms = append(s.Axioms, a)
		case "lockinv":
			// lockinv Type.field(self) { protects items; invariant expr }
			n := lx.dotted()
			i := strings.LastIndex(n, ".")
			l := &LockInv{Pkg: pkg, Type: n[:i], Field: n[i+1:]}
			lx.expect("(")
			l.Self = lx.ident()
			lx.expect(")")
			lx.expect("{")
			for {
				lx.skipNL()
				if lx.accept("}") {
					break
				}
				switch k := lx.ident(); k {
				case "protects":
					l.Protects = append(l.Protects, lx.modItems()...)
				case "invariant":
					l.Invs = append(l.Invs, lx.clause(fileTags))
				default:
					lx.fail("bad lockinv item %s", k)
				}
			}
			s.Locks[pkg+"."+n] = l
			for _, it := range l.Protects {
				if it.Kind == "field" && it.E.K == "sel" && it.E.A[0].K == "id" && it.E.A[0].S == l.Self {
					s.protected[pkg+"."+l.Type+"."+it.E.S] = l
				}
			}
		case "func", "extern", "field", "functype", "iface", "inline":
			c := &Contract{Kind: kw, Pkg: pkg, Opts: map[string]string{}, Inst: map[string]*TypeX{}, File: lx.file, Line: t.line, Tags: fileTags}
			n := lx.dottedD()
			if kw == "func" || kw == "inline" || strings.Count(n, ".") == 0 {
				if !(strings.Count(n, ".") >= 1 && isPkgName(strings.SplitN(n, ".", 2)[0])) {
					n = pkg + "." + n
				}
			}
			c.Name = n
			if lx.isOp("(") {
				c.Params = lx.nameList()
				if lx.isOp("(") {
					c.Results = lx.nameList()
				}
			}
			if lx.isID("inst") {
				lx.next()
				for {
					n := lx.ident()
					lx.expect("=")
					c.Inst[n] = lx.typeX()
					if !lx.accept(",") {
						break
					}
				}
			}
			if lx.accept("{") {
				lx.contractBody(c)
			}
			if _, dup := s.C[c.Name]; dup {
				lx.fail("duplicate contract %s", c.Name)
			}
			s.C[c.Name] = c
			s.Order = append(s.Order, c.Name)
		default:
			lx.fail("unknown declaration %q", kw)
		}
	}
}

func isPkgName(s string) bool {
	switch s {
	case "streams", "sak", "stores", "msk", "kgo", "kmsg", "sync", "time", "btree":
		return true
	}
	return false
}

func (lx *lexer) dotted() string {
	n := lx.ident()
	for lx.accept(".") {
		n += "." + lx.ident()
	}
	return n
}

// dottedD: a dotted name, optionally with @X: the variant for type argument X
func (lx *lexer) dottedD() string {
	n := lx.dotted()
	if lx.accept("@") {
		n += "@" + lx.ident()
	}
	return n
}

func (lx *lexer) nameList() []string {
	lx.expect("(")
	var out []string
	for !lx.accept(")") {
		out = append(out, lx.ident())
		if !lx.accept(",") {
			lx.expect(")")
			break
		}
	}
	return out
}
func (lx *lexer) words() []string {
	var out []string
	for lx.peek().k == "id" {
		out = append(out, lx.ident())
	}
	return out
}
func (lx *lexer) wordsUntilColon() []string {
	var out []string
	for lx.peek().k == "id" {
		out = append(out, lx.ident())
		lx.accept(",")
	}
	return out
}

func (lx *lexer) clause(tags []string) Clause {
	c := Clause{Line: lx.peek().line, File: lx.file, Tags: tags}
	if lx.accept("[") {
		c.Tags = lx.words()
		lx.expect("]")
	}
	// optional "name:" prefix
	if lx.peek().k == "id" && lx.toks[lx.i+1].k == "op" && lx.toks[lx.i+1].s == ":" {
		c.Name = lx.ident()
		lx.next()
	}
	lx.skipNL()
	c.E = lx.expr()
	return c
}

func (lx *lexer) modItems() []ModItem {
	var out []ModItem
	for {
		lx.skipNL()
		switch {
		case lx.isID("nothing"):
			lx.next()
		case lx.isID("ghost"):
			lx.next()
			out = append(out, ModItem{Kind: "ghost", S: lx.ident()})
		case lx.isID("log"):
			lx.next()
			if lx.peek().k == "str" { // "go:F": the goroutines started with F
				out = append(out, ModItem{Kind: "log", S: lx.next().s})
				break
			}
			out = append(out, ModItem{Kind: "log", S: lx.dotted()})
		case lx.isID("elems") || lx.isID("mapof") || lx.isID("chanof") || lx.isID("sendof") || lx.isID("closeof") || lx.isID("bufof") || lx.isID("wg") || lx.isID("once") || lx.isID("held") || lx.isID("object"):
			k := lx.ident()
			lx.expect("(")
			e := lx.expr()
			lx.expect(")")
			out = append(out, ModItem{Kind: k, E: e})
		case lx.isID("anyelems"), lx.isID("anymap"), lx.isID("anychan"), lx.isID("anysend"), lx.isID("anyclose"), lx.isID("anybuf"), lx.isID("anywg"), lx.isID("anyreadheld"):
			k := lx.ident()
			m := ModItem{Kind: k}
			if lx.accept("(") {
				m.S = lx.typeText()
				lx.expect(")")
			}
			out = append(out, m)
		case lx.isID("anyof"): // anyof(Type[args]).field: a ghost field of every object of this instance of a generic type
			lx.next()
			m := ModItem{Kind: "anyof"}
			lx.expect("(")
			m.S = lx.typeText()
			lx.expect(")")
			lx.expect(".")
			m.S2 = lx.ident()
			out = append(out, m)
		case lx.isID("any"): // any Type.field
			lx.next()
			n := lx.dotted()
			i := strings.LastIndex(n, ".")
			out = append(out, ModItem{Kind: "anyfield", S: n[:i], S2: n[i+1:]})
		default:
			e := lx.expr()
			out = append(out, ModItem{Kind: "field", E: e})
		}
		if !lx.accept(",") {
			return out
		}
	}
}

func (lx *lexer) typeText() string {
	d := 0
	s := ""
	for {
		t := lx.peek()
		if t.k == "op" && t.s == "(" {
			d++
		}
		if t.k == "op" && t.s == ")" {
			if d == 0 {
				return s
			}
			d--
		}
		s += t.s + " "
		lx.next()
	}
}

func (lx *lexer) ghostAssign() GhostAssign {
	line := lx.peek().line
	l := lx.expr()
	lx.expect(":=")
	lx.skipNL()
	r := lx.expr()
	return GhostAssign{l, r, line}
}

func (lx *lexer) contractBody(c *Contract) {
	for {
		lx.skipNL()
		if lx.accept("}") {
			return
		}
		switch k := lx.ident(); k {
		case "tags":
			c.Tags = lx.words()
		case "requires":
			c.Req = append(c.Req, lx.clause(nil))
		case "ensures":
			c.Ens = append(c.Ens, lx.clause(c.Tags))
		case "before": // before F name: property that holds whenever F is called
			f := ""
			if lx.peek().k == "str" { // "go:F": starting a goroutine with F
				f = lx.next().s
			} else {
				f = lx.dotted()
			}
			c.Befores = append(c.Befores, Before{f, lx.clause(c.Tags)})
		case "waits": // waits name: what holds whenever the function may block on a channel
			c.Waits = append(c.Waits, lx.clause(c.Tags))
		case "ensures_panic":
			c.EnsPanic = append(c.EnsPanic, lx.clause(c.Tags))
		case "modifies":
			c.HasMods = true
			c.Mods = append(c.Mods, lx.modItems()...)
		case "choose": // choose name type: property of a value that always exists in the state before the call
			n := lx.ident()
			ty := lx.typeX()
			lx.expect(":")
			lx.skipNL()
			c.Chooses = append(c.Chooses, Choose{SpecVar{n, ty}, lx.expr()})
		case "let":
			n := lx.ident()
			lx.expect("=")
			lx.skipNL()
			c.Lets = append(c.Lets, LetDef{n, lx.expr()})
		case "logical":
			n := lx.ident()
			c.Logicals = append(c.Logicals, SpecVar{n, lx.typeX()})
		case "ghost":
			c.Ghosts = append(c.Ghosts, lx.ghostAssign())
		case "ghost0":
			c.Ghost0 = append(c.Ghost0, lx.ghostAssign())
		case "ghostunlock":
			c.GhostU = append(c.GhostU, lx.ghostAssign())
		case "opt":
			for lx.peek().k == "id" {
				o := lx.ident()
				v := "1"
				if lx.accept("=") {
					v = lx.next().s
				}
				c.Opts[o] = v
			}
		case "assumed":
			c.NoVerify = true
		case "atomic":
			// atomic p.mu: old() is the state when that lock was acquired, after whatever others did before
			c.Atomic = append(c.Atomic, lx.expr())
			c.Opts["atomic"] = "1"
		case "iterate":
			c.Iter = lx.ident()
		case "iterfact":
			c.IterFact = append(c.IterFact, lx.clause(nil))
		case "iterkeep":
			c.IterKeep = append(c.IterKeep, lx.expr())
		case "call":
			cs := CallSite{Name: lx.dotted(), Args: map[string]*Expr{}}
			lx.expect("(")
			for !lx.accept(")") {
				lx.skipNL()
				n := lx.ident()
				lx.expect("=")
				cs.Args[n] = lx.expr()
				lx.skipNL()
				lx.accept(",")
			}
			c.Calls = append(c.Calls, cs)
		case "loop":
			l := &LoopSpec{}
			t := lx.next()
			if t.k == "num" {
				fmt.Sscan(t.s, &l.Ord)
			} else {
				l.Name = t.s
			}
			lx.expect("{")
			for {
				lx.skipNL()
				if lx.accept("}") {
					break
				}
				switch k := lx.ident(); k {
				case "invariant":
					l.Invs = append(l.Invs, lx.clause(nil))
				case "local":
					n := lx.ident()
					l.Locals = append(l.Locals, SpecVar{n, lx.typeX()})
				case "let":
					n := lx.ident()
					lx.expect("=")
					l.Lets = append(l.Lets, LetDef{n, lx.expr()})
				case "ghost":
					l.Ghosts = append(l.Ghosts, lx.ghostAssign())
				case "modifies":
					l.Modifies = append(l.Modifies, lx.modItems()...)
				default:
					lx.fail("bad loop item %q", k)
				}
			}
			c.Loops = append(c.Loops, l)
		default:
			lx.fail("bad contract item %q", k)
		}
	}
}
