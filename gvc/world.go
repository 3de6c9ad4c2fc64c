package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program with its contracts.
type World struct {
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*packages.Package
	ssaPkgs  []*ssa.Package
	module   string
	db       *DB
	fnIdx    map[string]*ssa.Function
	globals  map[*ssa.Global]int
	globByN  map[int64]*ssa.Global
	globDecl map[int64]*TypeDecl
	globRule map[int64]string
	tags     map[string]int64
	tagType  map[int64]types.Type
	nonnil   map[*Term]bool
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	byKey    map[string]*ssa.Function
	rules    map[string]*ruleHit
	tpkgs    map[string]*types.Package
}

func loadWorld(repo string, db *DB) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	w := &World{pkgs: pkgs, db: db, fnIdx: map[string]*ssa.Function{}, globals: map[*ssa.Global]int{}, globByN: map[int64]*ssa.Global{}, globRule: map[int64]string{},
		tags: map[string]int64{}, tagType: map[int64]types.Type{}, nonnil: map[*Term]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		byKey: map[string]*ssa.Function{}, rules: map[string]*ruleHit{}, tpkgs: map[string]*types.Package{}}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog, w.fset = prog, prog.Fset
	for i, p := range pkgs {
		if p.Module != nil {
			w.module = p.Module.Path
		}
		if spkgs[i] != nil {
			spkgs[i].Build()
			w.ssaPkgs = append(w.ssaPkgs, spkgs[i])
		}
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil {
			in := func(q string) bool { return w.module != "" && strings.HasPrefix(q, w.module) }
			old, dup := w.tpkgs[shortQual(p.Types)]
			hidden := func(q string) bool {
				return strings.HasPrefix(q, "internal/") || strings.Contains(q, "/internal/") || strings.HasPrefix(q, "vendor/")
			}
			better := !dup
			switch {
			case !dup:
			case in(p.PkgPath) != in(old.Path()):
				better = in(p.PkgPath)
			case hidden(p.PkgPath) != hidden(old.Path()):
				better = !hidden(p.PkgPath)
			default:
				better = len(p.PkgPath) < len(old.Path())
			}
			if better {
				w.tpkgs[shortQual(p.Types)] = p.Types
			}
		}
	})
	for _, p := range w.ssaPkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				w.addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							w.addFn(f)
						}
					}
				}
			}
		}
	}
	return w, nil
}

func (w *World) addFn(f *ssa.Function) {
	k := w.funcKey(f)
	if old, dup := w.byKey[k]; dup && old.Pkg != nil && f.Pkg != nil && len(old.Pkg.Pkg.Path()) <= len(f.Pkg.Pkg.Path()) {
		return
	}
	w.byKey[k] = f
}

// funcKey names functions as pkg.Func, pkg.(T).M or pkg.(*T).M using the
// package name.
func (w *World) funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return w.funcKey(f.Parent()) + "$" + f.Name()
	}
	pk := ""
	if f.Pkg != nil {
		pk = shortQual(f.Pkg.Pkg)
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortQual(f.Object().Pkg())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortQual(f.Object().Pkg())
	}
	if r := f.Signature.Recv(); r != nil && f.Synthetic == "" {
		return methodKey(pk, r.Type(), f.Name())
	}
	if f.Synthetic != "" && f.Signature.Recv() != nil {
		return "wrapper:" + methodKey(pk, f.Signature.Recv().Type(), f.Name())
	}
	return pk + "." + f.Name()
}

func methodKey(pk string, recv types.Type, name string) string {
	star := ""
	t := types.Unalias(recv)
	if p, ok := t.(*types.Pointer); ok {
		star = "*"
		t = types.Unalias(p.Elem())
	}
	n := ""
	if nt, ok := t.(*types.Named); ok {
		n = nt.Obj().Name()
	} else {
		n = t.String()
	}
	return fmt.Sprintf("%s.(%s%s).%s", pk, star, n, name)
}

func (w *World) inRepo(f *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return strings.HasPrefix(p.Pkg.Pkg.Path(), w.module)
		}
		if p.Object() != nil && p.Object().Pkg() != nil {
			return strings.HasPrefix(p.Object().Pkg().Path(), w.module)
		}
	}
	// wrappers and bound methods
	if f.Signature.Recv() != nil {
		return true
	}
	return f.Synthetic != ""
}

func (w *World) inlineStd(f *ssa.Function) bool { return f.Synthetic != "" && len(f.Blocks) > 0 }

func (w *World) fnTerm(f *ssa.Function) *Term {
	k := w.fnName(f)
	return UF("fn:"+k, SInt)
}
func (w *World) fnName(f *ssa.Function) string {
	k := w.funcKey(f)
	for i := 0; ; i++ {
		kk := k
		if i > 0 {
			kk = fmt.Sprintf("%s#%d", k, i)
		}
		g, ok := w.fnIdx[kk]
		if !ok {
			w.fnIdx[kk] = f
			return kk
		}
		if g == f {
			return kk
		}
	}
}
func (w *World) cloTerm(f *ssa.Function, bs []*Term) *Term {
	if len(bs) == 0 {
		return w.fnTerm(f)
	}
	return UF("clo:"+w.fnName(f), SInt, bs...)
}
func (w *World) funcOf(t *Term) (*ssa.Function, []*Term) {
	if t.Op != "uf" {
		return nil, nil
	}
	if strings.HasPrefix(t.S, "fn:") {
		return w.fnIdx[t.S[3:]], nil
	}
	if strings.HasPrefix(t.S, "clo:") {
		return w.fnIdx[t.S[4:]], t.Args
	}
	return nil, nil
}

func (w *World) globalTerm(g *ssa.Global) *Term {
	n, ok := w.globals[g]
	if !ok {
		n = 1000 + len(w.globals)
		w.globals[g] = n
		w.globByN[int64(n)] = g
	}
	return IntT(int64(n))
}

// isSentinel: the error variables of io and context hold different values,
// none of them nil.
func (w *World) isSentinel(n int64) bool {
	g := w.globByN[n]
	if g == nil || g.Pkg == nil || g.Pkg.Pkg == nil || !g.Object().Exported() {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "io", "context":
		p, ok := g.Type().(*types.Pointer)
		return ok && isErrorT(p.Elem())
	}
	return false
}

// ---- interfaces ----

func (w *World) tagOf(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	n, ok := w.tags[k]
	if !ok {
		n = int64(len(w.tags) + 1)
		w.tags[k] = n
		w.tagType[n] = t
	}
	return IntT(n)
}

var boxTypes = map[string]types.Type{}

func boxKey(t types.Type) string { return types.TypeString(unlocal(types.Unalias(t)), nil) }

func (w *World) box(t types.Type, v []*Term) *Term {
	if isIface(t) {
		return v[0]
	}
	k := boxKey(t)
	boxTypes[k] = t
	w.tagOf(t)
	// boxing what was unboxed gives the same interface value back
	if len(v) > 0 && v[0].Op == "uf" && strings.HasPrefix(v[0].S, "unbox:"+k+"|") {
		same := true
		for _, x := range v {
			same = same && x.Op == "uf" && strings.HasPrefix(x.S, "unbox:"+k+"|") && x.Args[0] == v[0].Args[0]
		}
		if same {
			return v[0].Args[0]
		}
	}
	return UF("box:"+k, SInt, v...)
}
func (w *World) boxed(t *Term) (types.Type, []*Term) {
	if t.Op == "uf" && strings.HasPrefix(t.S, "box:") {
		return boxTypes[t.S[4:]], t.Args
	}
	return nil, nil
}
func (w *World) unbox(t types.Type, x *Term) []*Term {
	if bt, v := w.boxed(x); bt != nil && types.Identical(bt, t) {
		return v
	}
	var out []*Term
	for i, l := range leaves(t) {
		out = append(out, UF(fmt.Sprintf("unbox:%s|%d", boxKey(t), i), l.Sort, x))
	}
	return out
}
func (w *World) typeIs(x *Term, t types.Type) *Term {
	if x.Op == "int" && x.N == 0 {
		return False
	}
	if bt, _ := w.boxed(x); bt != nil {
		if it, ok := under(t).(*types.Interface); ok {
			return BoolT(types.Implements(bt, it))
		}
		return BoolT(types.Identical(bt, t))
	}
	if isIface(t) {
		return And(Not(Eq(x, IntT(0))), UF("implements:"+boxKey(t), SBool, UF("typetag", SInt, x)))
	}
	return Eq(UF("typetag", SInt, x), w.tagOf(t))
}

// lookupType resolves a type name such as *Func or monkit.Span in package pkg.
func (w *World) lookupType(pkg *types.Package, s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		t := w.lookupType(pkg, s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(s, "[]") {
		t := w.lookupType(pkg, s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if s == "interface{}" || s == "any" {
		return types.NewInterfaceType(nil, nil)
	}
	if i := strings.Index(s, "."); i >= 0 {
		if p, ok := w.tpkgs[s[:i]]; ok {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		return nil
	}
	if o := pkg.Scope().Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	return nil
}

// localType finds a type declared inside a function of the package.
func (w *World) localType(pkg *types.Package, name string) types.Type {
	var found types.Type
	for _, p := range w.pkgs {
		if p.Types != pkg || p.TypesInfo == nil {
			continue
		}
		for id, o := range p.TypesInfo.Defs {
			if tn, ok := o.(*types.TypeName); ok && id.Name == name && tn.Parent() != pkg.Scope() {
				if _, named := tn.Type().(*types.Named); named {
					if found != nil && found != tn.Type() {
						return nil
					}
					found = tn.Type()
				}
			}
		}
	}
	return found
}

func (w *World) pkgNamed(name string) *ssa.Package {
	for _, p := range w.ssaPkgs {
		if shortQual(p.Pkg) == name {
			return p
		}
	}
	return nil
}

// withAxioms adds instances of the defining properties of the uninterpreted
// functions that occur.
func (w *World) withAxioms(asserts []*Term) []*Term {
	out := append([]*Term{}, asserts...)
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	var pending, olds []*Term
	hasFresh := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.bound {
			return
		}
		if t.Op == "uf" {
			pending = append(pending, t)
		}
		if (t.old || t.upto > 0) && t.Sort == SInt {
			olds = append(olds, t)
		}
		if t.Op == "int" && int64(t.N) >= FreshBase {
			hasFresh = true
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	for len(pending) > 0 {
		t := pending[0]
		pending = pending[1:]
		if done[t] {
			continue
		}
		done[t] = true
		for _, ax := range axiomsFor(w, t) {
			out = append(out, ax)
			walk(ax)
		}
	}
	if hasFresh {
		for _, t := range olds {
			if t.old {
				out = append(out, Op("<", SBool, "", t, IntT(FreshBase)))
			} else {
				out = append(out, Op("<", SBool, "", t, IntT(t.upto+1)))
			}
		}
	}
	return out
}

func axiomsFor(w *World, t *Term) []*Term {
	switch {
	case injective(t.S):
		ax := []*Term{Op("<", SBool, "", t, IntT(0)), Eq(UF("kind", SInt, t), IntT(kindOf(t.S)))}
		for i, a := range t.Args {
			ax = append(ax, Eq(UF(fmt.Sprintf("inv:%s:%d", t.S, i), a.Sort, t), a))
		}
		if strings.HasPrefix(t.S, "box:") {
			if bt := boxTypes[t.S[4:]]; bt != nil {
				ax = append(ax, Eq(UF("typetag", SInt, t), w.tagOf(bt)))
				for i, l := range leaves(bt) {
					ax = append(ax, Eq(UF(fmt.Sprintf("unbox:%s|%d", t.S[4:], i), l.Sort, t), t.Args[i]))
				}
			}
		}
		return ax
	case strings.HasPrefix(t.S, "card:"):
		s := t.Args[0]
		k, _ := arrParts(s.Sort)
		pick := UF("pick:"+k, k, s)
		b := Fresh("ax", k)
		empty := ForallOver(b, Not(Select(s, b)))
		return []*Term{
			Not(Op("<", SBool, "", t, IntT(0))),
			Op("<", SBool, "", t, IntT(1<<40)), // fits in memory
			Eq(Eq(t, IntT(0)), empty),
			Implies(Op("<", SBool, "", IntT(0), t), Select(s, pick)),
			Implies(Eq(t, IntT(1)), ForallOver(b, Implies(Select(s, b), Eq(b, pick)))),
		}
	case strings.HasPrefix(t.S, "sorted:") && t.Sort == SArr(SBV(64), SF32):
		// in order over [off, off+len): issorted is the predicate "the first n
		// elements are in nondecreasing order"
		return []*Term{Implies(Eq(t.Args[1], BV64(0)), UF("issorted", SBool, t, t.Args[2]))}
	case t.S == "issorted":
		// a sequence of less than two elements is in order
		return []*Term{Implies(Op("bvslt", SBool, "", t.Args[1], BV64(2)), t)}
	case strings.HasPrefix(t.S, "cmap:"):
		if tab, ok := cmapTables[t.S]; ok {
			var none []*Term
			for c := 0; c < 256; c++ {
				if tab[c] != string([]byte{byte(c)}) {
					none = append(none, Not(Op("str.contains", SBool, "", t.Args[0], StrT(string([]byte{byte(c)})))))
				}
			}
			return []*Term{Implies(And(none...), Eq(t, t.Args[0]))}
		}
	case t.S == "typetag":
		// the nil interface has no dynamic type
		return []*Term{Implies(Eq(t.Args[0], IntT(0)), Eq(t, IntT(0)))}
	case strings.HasPrefix(t.S, "unbox:"):
		// unboxing a boxed value
		x := t.Args[0]
		k := t.S[len("unbox:"):strings.LastIndex(t.S, "|")]
		if bt := boxTypes[k]; bt != nil {
			n := len(leaves(bt))
			var v []*Term
			for i := 0; i < n; i++ {
				v = append(v, UF(fmt.Sprintf("unbox:%s|%d", k, i), leaves(bt)[i].Sort, x))
			}
			return []*Term{Implies(Eq(UF("typetag", SInt, x), w.tagOf(bt)), Eq(mk("uf", SInt, "box:"+k, 0, v...), x))}
		}
	}
	return nil
}

var kinds = map[string]int64{}

func kindOf(n string) int64 {
	k, ok := kinds[n]
	if !ok {
		k = int64(len(kinds) + 1)
		kinds[n] = k
	}
	return k
}

var cmapTables = map[string][]string{}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func mustAbs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}
