package main

// The contract files: parsing and resolution against the loaded program.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Clause is a named formula.
type Clause struct {
	Name    string
	Text    string
	Expr    ast.Expr
	Lock    string
	Promise bool     // an ensures clause that callers may use although the call is opaque
	Free    bool     // assumed where the invariant is assumed, never proved
	Prop    []string // empty: the properties of the enclosing block
}

// FuncContract is the contract of a function or of a closure it returns.
type FuncContract struct {
	Key, Pkg, Kind string
	Prop           []string
	Params         []string // receiver first
	Results        []string
	Requires       []Clause
	Value          ast.Expr // for a closure: where the function is found
	When           *Clause
	Ensures        []Clause
	Modifies       []ast.Expr
	Emits          []ast.Stmt
	EmitsProp      []string
	HasEmits       bool
	Ordered        bool
	AnyEvents      bool
	Forever        bool // the function is a loop without end: the contract is about one round
	Ignore         []string
	Closures       []*FuncContract
	ResultIdx      int
	Recovering     bool // verified in both modes: with and without a panic in flight
	Panics         *Clause
	PanicsAfter    *Clause // over the results of the calls made
	AllowUnderLock []string
	Inline         []string
	CallsBack      bool
	NoKeep         bool       // functions passed to it are not called after it returns
	Keeps          []Clause   // loop invariants
	Makes          []ast.Expr // parts of new objects that it changes
	Locks          []string
	Holding        []string   // locks the caller holds
	First, Stays   bool       // for a closure: its first call; a call that leaves captured state alone
	Assumes        []Clause   // for a closure: about state its guards protect
	Guards         [][]string // captured lock, captured variables it guards
	Reentrant      bool
	NonNilResult   bool
	AssumeEnsures  bool
	Unfold         bool // a call of it is what its ensures clause says
	Nilable        bool
	Lets           []Clause
	Trusted        bool
	Why            string
	File           string
	Line           int
}

// DB holds every contract.
type DB struct {
	types   map[string]*TypeDecl
	byKey   map[string]*FuncContract
	quiet   map[string]bool
	globs   map[string]string // package variables: constant or atomic
	order   []*FuncContract
	lemmas  []*Lemma
	assumes []string // assumption lines found in the contracts, for the evidence
}

// Lemma is a formula over pure functions proved from their contracts.
type Lemma struct {
	Name string
	Prop []string
	Text string
	Expr ast.Expr
	Pkg  string
	Vars [][2]string
}

func pre(s string) string {
	// a ==> b  becomes  implies(a, b), innermost parentheses first
	var conv func(s string) string
	conv = func(s string) string {
		// split at top-level commas
		parts := splitTop(s, ",")
		if len(parts) > 1 {
			for i := range parts {
				parts[i] = conv(parts[i])
			}
			return strings.Join(parts, ",")
		}
		parts = splitTop(s, "==>")
		if len(parts) > 1 {
			l := conv(parts[0])
			r := conv(strings.Join(parts[1:], "==>"))
			return "implies(" + l + ", " + r + ")"
		}
		// descend into parentheses
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == '"' || s[i] == '`' || s[i] == '\'' {
				j := skipQuote(s, i)
				b.WriteString(s[i:j])
				i = j - 1
				continue
			}
			if s[i] == '(' {
				j := matchParen(s, i)
				b.WriteByte('(')
				b.WriteString(conv(s[i+1 : j]))
				b.WriteByte(')')
				i = j
				continue
			}
			b.WriteByte(s[i])
		}
		return b.String()
	}
	if !strings.Contains(s, "==>") {
		return s
	}
	return conv(s)
}

func skipQuote(s string, i int) int {
	q := s[i]
	for j := i + 1; j < len(s); j++ {
		if s[j] == '\\' && q != '`' {
			j++
			continue
		}
		if s[j] == q {
			return j + 1
		}
	}
	return len(s)
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '"', '`', '\'':
			j = skipQuote(s, j) - 1
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parentheses in contract: " + s)
}

func splitTop(s, sep string) []string {
	var out []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '`', '\'':
			i = skipQuote(s, i) - 1
			continue
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			last = i + len(sep)
			i += len(sep) - 1
		}
	}
	return append(out, s[last:])
}

func parseExpr(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(pre(s))
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return e, nil
}

func loadDB(dir string) (*DB, error) {
	db := &DB{types: map[string]*TypeDecl{}, byKey: map[string]*FuncContract{}, quiet: map[string]bool{}, globs: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := db.load(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

type cline struct {
	n int
	s string
}

func (db *DB) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var lines []cline
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && strings.Count(l[:j], "\"")%2 == 0 {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		// continuation: deeper lines starting with a backslash marker
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "\\") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + strings.TrimSpace(t[1:])
			continue
		}
		lines = append(lines, cline{i + 1, t})
	}
	pkg := ""
	base := filepath.Base(file)
	bad := func(l cline, f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", base, l.n, fmt.Sprintf(f, a...))
	}
	var curT *TypeDecl
	var stack []*FuncContract
	var defProp []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		word, rest := cutWord(l.s)
		if len(stack) == 0 && curT == nil {
			switch word {
			case "package":
				pkg = rest
			case "prop":
				defProp = strings.Fields(rest)
			case "quiet":
				for _, q := range strings.Fields(rest) {
					db.quiet[q] = true
				}
			case "constant", "atomicvar":
				for _, q := range strings.Fields(rest) {
					db.globs[pkg+"."+q] = word
				}
			case "locktype":
				for _, q := range strings.Fields(rest) {
					lockTypes[q] = true
				}
			case "type":
				name := strings.TrimSpace(rest)
				seq := false
				if strings.HasSuffix(name, " sequential") {
					seq = true
					name = strings.TrimSpace(strings.TrimSuffix(name, "sequential"))
				}
				curT = &TypeDecl{Name: pkg + "." + name, Pkg: pkg, Locks: map[string]*LockDecl{}, Rules: map[string]*FieldRule{}, NonN: map[string]bool{}, Seq: seq, Prop: defProp}
				db.types[curT.Name] = curT
			case "func":
				c, err := parseHead(pkg, rest)
				if err != nil {
					return bad(l, "%v", err)
				}
				c.File, c.Line = base, l.n
				c.Prop = defProp
				if db.byKey[c.Key] != nil {
					return bad(l, "duplicate contract for %s", c.Key)
				}
				db.byKey[c.Key] = c
				db.order = append(db.order, c)
				stack = []*FuncContract{c}
			case "lemma":
				// lemma name [props] (x T, y T): expr
				name, r2 := cutWord(rest)
				lm := &Lemma{Name: name, Pkg: pkg, Prop: defProp}
				if strings.HasPrefix(r2, "(") {
					j := matchParen(r2, 0)
					for _, v := range splitTop(r2[1:j], ",") {
						n, t := cutWord(strings.TrimSpace(v))
						lm.Vars = append(lm.Vars, [2]string{n, t})
					}
					r2 = strings.TrimSpace(r2[j+1:])
				}
				r2 = strings.TrimPrefix(r2, ":")
				ex, err := parseExpr(r2)
				if err != nil {
					return bad(l, "%v", err)
				}
				lm.Text, lm.Expr = strings.TrimSpace(r2), ex
				db.lemmas = append(db.lemmas, lm)
			default:
				return bad(l, "unexpected %q", word)
			}
			continue
		}
		if curT != nil {
			d := curT
			switch word {
			case "end":
				curT = nil
			case "prop":
				d.Prop = strings.Fields(rest)
			case "lock":
				// lock mtx guards a b*  (a star: what it refers to is guarded too)
				f := strings.Fields(rest)
				ld := &LockDecl{Path: "." + f[0]}
				for _, x := range f[2:] {
					own := strings.HasSuffix(x, "*")
					p := "." + strings.TrimSuffix(x, "*")
					ld.Guards = append(ld.Guards, p)
					d.Rules[p] = &FieldRule{Kind: "guarded", Lock: ld.Path, Owned: own}
				}
				d.Locks[ld.Path] = ld
			case "guarded":
				// guarded f by owner.lock
				f := strings.Fields(rest)
				k := strings.LastIndex(f[2], ".")
				d.Rules["."+f[0]] = &FieldRule{Kind: "guarded", Via: "." + f[2][:k], Lock: f[2][k:]}
			case "atomic":
				f := strings.Fields(rest)
				r := &FieldRule{Kind: "atomic"}
				if len(f) == 3 && f[1] == "writers" {
					r.Lock = "." + f[2]
					f = f[:1]
				}
				for _, x := range f {
					if x == "self" {
						// the type's own value, as in: type lock uint32
						d.Rules[""] = r
						continue
					}
					d.Rules["."+x] = r
				}
			case "immutable":
				for _, x := range strings.Fields(rest) {
					own := strings.HasSuffix(x, "*")
					d.Rules["."+strings.TrimSuffix(x, "*")] = &FieldRule{Kind: "immutable", Owned: own}
				}
			case "nonnil":
				for _, x := range strings.Fields(rest) {
					d.NonN["."+x] = true
				}
			case "invariant", "assume":
				cl, err := parseClause(rest)
				if err != nil {
					return bad(l, "%v", err)
				}
				if word == "assume" {
					cl.Free = true
					db.assumes = append(db.assumes, d.Name+" "+cl.Name+": "+cl.Text)
				}
				d.Inv = append(d.Inv, cl)
			default:
				return bad(l, "unexpected %q in a type block", word)
			}
			continue
		}
		c := stack[len(stack)-1]
		switch word {
		case "end":
			stack = stack[:len(stack)-1]
		case "prop":
			c.Prop = strings.Fields(rest)
		case "op", "pure", "proc", "inline":
			c.Kind = word
			for _, o := range strings.Fields(rest) {
				switch o {
				case "nonnil":
					c.NonNilResult = true
				case "callsback":
					c.CallsBack = true
				case "assume":
					c.AssumeEnsures = true
				case "unfold":
					c.Unfold = true
				case "nokeep":
					c.NoKeep = true
				default:
					return bad(l, "unknown option %q", o)
				}
			}
		case "trusted":
			c.Trusted, c.Why = true, rest
		case "locks":
			c.Locks = append(c.Locks, strings.Fields(rest)...)
		case "holding":
			c.Holding = append(c.Holding, strings.Fields(rest)...)
		case "nilable":
			c.Nilable = true
		case "first":
			c.First = true
		case "stays":
			c.Stays = true
		case "guards":
			// guards mtx: a b*
			c.Guards = append(c.Guards, strings.Fields(strings.Replace(rest, ":", " ", 1)))
		case "recovering":
			c.Recovering = true
		case "underlock":
			c.AllowUnderLock = append(c.AllowUnderLock, strings.Fields(rest)...)
		case "inlines":
			c.Inline = append(c.Inline, strings.Fields(rest)...)
		case "ignore":
			c.Ignore = append(c.Ignore, strings.Fields(rest)...)
		case "forever":
			c.Forever = true
		case "anyevents":
			c.AnyEvents = true
		case "requires", "ensures", "promises", "let", "given", "assume", "keeps":
			cl, err := parseClause(rest)
			if err != nil {
				return bad(l, "%v", err)
			}
			switch word {
			case "requires", "given":
				// given: an assumption about the environment, not the caller's duty
				cl.Free = word == "given"
				c.Requires = append(c.Requires, cl)
			case "assume":
				c.Assumes = append(c.Assumes, cl)
				db.assumes = append(db.assumes, c.Key+" "+cl.Name+": "+cl.Text)
			case "let":
				c.Lets = append(c.Lets, cl)
			case "keeps":
				// an invariant of the function's loops
				c.Keeps = append(c.Keeps, cl)
			default:
				cl.Promise = word == "promises"
				c.Ensures = append(c.Ensures, cl)
			}
		case "when":
			cl, err := parseClause("when: " + rest)
			if err != nil {
				return bad(l, "%v", err)
			}
			c.When = &cl
		case "panics":
			cl, err := parseClause("panics: " + strings.TrimPrefix(strings.TrimPrefix(rest, "after "), "when "))
			if err != nil {
				return bad(l, "%v", err)
			}
			if strings.HasPrefix(rest, "after ") {
				c.PanicsAfter = &cl
			} else {
				c.Panics = &cl
			}
		case "modifies", "makes":
			for _, m := range splitTop(rest, ",") {
				ex, err := parseExpr(strings.TrimSpace(m))
				if err != nil {
					return bad(l, "%v", err)
				}
				if word == "makes" { // of an object a call made for it
					c.Makes = append(c.Makes, ex)
					continue
				}
				c.Modifies = append(c.Modifies, ex)
			}
		case "emits":
			if strings.HasPrefix(rest, "ordered") {
				c.Ordered = true
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "ordered"))
			}
			c.HasEmits = true
			if rest == "nothing" {
				break
			}
			// a Go block, possibly over several lines
			text := rest
			for depth(text) > 0 && i+1 < len(lines) {
				i++
				text += "\n" + lines[i].s
			}
			src := "package p\nfunc f() " + preStmts(text)
			fl, err := parser.ParseFile(token.NewFileSet(), "emits", src, 0)
			if err != nil {
				return bad(l, "%v in %s", err, src)
			}
			c.Emits = fl.Decls[0].(*ast.FuncDecl).Body.List
		case "closure":
			// closure name = result i (params) (results)
			f := strings.SplitN(rest, "=", 2)
			if len(f) != 2 {
				return bad(l, "closure needs =")
			}
			var idx int
			r2 := strings.TrimSpace(f[1])
			var val ast.Expr
			j := strings.Index(r2, "(")
			if strings.HasPrefix(r2, "value ") {
				// closure name = value expr with (params) (results)
				k := strings.Index(r2, " with ")
				if k < 0 {
					return bad(l, "closure of a value needs with (params)")
				}
				x, err := parser.ParseExpr(pre(r2[len("value "):k]))
				if err != nil {
					return bad(l, "closure: %v", err)
				}
				val = x
				r2 = r2[k:]
				j = strings.Index(r2, "(")
			} else if _, err := fmt.Sscanf(r2, "result %d", &idx); err != nil {
				return bad(l, "closure: %v", err)
			}
			cc := &FuncContract{Pkg: c.Pkg, Key: c.Key + "/" + strings.TrimSpace(f[0]), Kind: "closure", Prop: c.Prop, ResultIdx: idx, Value: val, File: base, Line: l.n}
			if j >= 0 {
				k := matchParen(r2, j)
				cc.Params = names(r2[j+1 : k])
				r3 := strings.TrimSpace(r2[k+1:])
				if strings.HasPrefix(r3, "(") {
					cc.Results = names(r3[1:matchParen(r3, 0)])
				}
			}
			c.Closures = append(c.Closures, cc)
			stack = append(stack, cc)
		default:
			return bad(l, "unexpected %q", word)
		}
	}
	if curT != nil || len(stack) > 0 {
		return fmt.Errorf("%s: missing end", base)
	}
	return nil
}

func preStmts(s string) string {
	// only rewrite ==> inside parentheses
	if !strings.Contains(s, "==>") {
		return s
	}
	panic("==> inside emits")
}

func depth(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '`':
			i = skipQuote(s, i) - 1
		case '{', '(', '[':
			d++
		case '}', ')', ']':
			d--
		}
	}
	return d
}

func cutWord(s string) (string, string) {
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func names(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

// parseClause parses "name [C01,C02]: expr".
func parseClause(s string) (Clause, error) {
	i := strings.Index(s, ":")
	if i < 0 {
		return Clause{}, fmt.Errorf("clause without a name: %s", s)
	}
	head := strings.TrimSpace(s[:i])
	c := Clause{Text: strings.TrimSpace(s[i+1:])}
	if j := strings.Index(head, "["); j >= 0 {
		c.Prop = strings.FieldsFunc(strings.Trim(head[j:], "[]"), func(r rune) bool { return r == ',' || r == ' ' })
		head = strings.TrimSpace(head[:j])
	}
	if j := strings.Index(head, "@"); j >= 0 {
		c.Lock = "." + head[j+1:]
		head = head[:j]
	}
	c.Name = head
	ex, err := parseExpr(c.Text)
	c.Expr = ex
	return c, err
}

// parseHead parses "(c *Counter) Inc(delta) (current)".
func parseHead(pkg, s string) (*FuncContract, error) {
	c := &FuncContract{Pkg: pkg}
	s = strings.TrimSpace(s)
	recvT := ""
	if strings.HasPrefix(s, "(") {
		j := matchParen(s, 0)
		f := strings.Fields(s[1:j])
		if len(f) != 2 {
			return nil, fmt.Errorf("bad receiver %q", s[:j+1])
		}
		c.Params = append(c.Params, f[0])
		recvT = f[1]
		s = strings.TrimSpace(s[j+1:])
	}
	i := strings.Index(s, "(")
	if i < 0 {
		return nil, fmt.Errorf("bad function header %q", s)
	}
	name := strings.TrimSpace(s[:i])
	j := matchParen(s, i)
	c.Params = append(c.Params, names(s[i+1:j])...)
	r := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(r, "(") {
		c.Results = names(r[1:matchParen(r, 0)])
	}
	if recvT != "" {
		c.Key = fmt.Sprintf("%s.(%s).%s", pkg, recvT, name)
	} else {
		c.Key = pkg + "." + name
	}
	return c, nil
}

// resolve binds type declarations to the program's types.
func (w *World) resolve() (problems []string) {
	extra := map[string]*TypeDecl{}
	defer func() {
		for k, d := range extra {
			w.db.types[k] = d
		}
	}()
	for n, d := range w.db.types {
		p := w.tpkgs[d.Pkg]
		if p == nil {
			problems = append(problems, "no package "+d.Pkg)
			continue
		}
		nm := strings.TrimPrefix(n, d.Pkg+".")
		var t types.Type
		if v, ok := strings.CutPrefix(nm, "var "); ok {
			// the (unnamed) type of a package variable
			if o, ok := p.Scope().Lookup(v).(*types.Var); ok {
				t = o.Type()
				if w.db.types[typeKey(t)] == nil {
					extra[typeKey(t)] = d
				}
			}
		} else {
			t = w.lookupType(p, nm)
		}
		if t == nil {
			problems = append(problems, "type "+n+" not found")
			delete(w.db.types, n)
			continue
		}
		d.T = t
		noteRoot(t)
		for f := range d.Rules {
			if typeAtPath(t, f) == nil {
				problems = append(problems, "field "+n+f+" not found")
				delete(d.Rules, f)
			}
		}
		for _, l := range d.Locks {
			if typeAtPath(t, l.Path) == nil {
				problems = append(problems, "lock "+n+l.Path+" not found")
			}
		}
	}
	var globs []string
	for n := range w.db.globs {
		globs = append(globs, n)
	}
	sort.Strings(globs)
	for _, n := range globs {
		k := w.db.globs[n]
		pk, v, _ := strings.Cut(n, ".")
		p := w.tpkgs[pk]
		if p == nil || p.Scope().Lookup(v) == nil {
			problems = append(problems, "variable "+n+" not found")
			delete(w.db.globs, n)
			continue
		}
		g := w.prog.Package(p).Var(v)
		if g == nil {
			problems = append(problems, n+" is not a variable")
			delete(w.db.globs, n)
			continue
		}
		w.globRule[int64(w.globalTerm(g).N)] = k
		if k == "constant" && w.writtenOutsideInit(g) {
			problems = append(problems, "constant variable "+n+" is assigned outside initialisation")
			delete(w.globRule, int64(w.globalTerm(g).N))
		}
	}
	sort.Strings(problems)
	return problems
}

// writtenOutsideInit reports whether a function other than a package
// initialiser stores to the variable directly. (Stores through pointers raise
// obligations where they are met.)
func (w *World) writtenOutsideInit(g *ssa.Global) bool {
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg != g.Pkg && f.Pkg != nil {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return true
				}
			}
		}
	}
	return false
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

// promises are the clauses about the result that hold whatever else happens.
func (c *FuncContract) promises() (out []Clause) {
	for _, en := range c.Ensures {
		if en.Promise {
			out = append(out, en)
		}
	}
	return out
}
