// Command rewrite prepares the overlay the harness compiles the code under
// test with: every statement of every non-test file gets a scheduling point in
// front of it, and the locks, the clock and the go statement are replaced by
// those of package zz. Nothing else changes, and line numbers stay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var subst = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep",
		"Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick", "After": "After",
		"Timer": "Timer", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc"},
	"sync/atomic": atomics(),
	"runtime":     {"Gosched": "Gosched"},
}
var dummy = map[string]string{
	"sync/atomic": "var _ = %s.AddInt64",
	"sync":        "var _ %s.Mutex", "time": "var _ = %s.Now", "runtime": "var _ = %s.Gosched",
}

func atomics() map[string]string {
	m := map[string]string{}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, o := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
			if o != "Add" || t != "Pointer" {
				m[o+t] = o + t
			}
		}
	}
	return m
}

type edit struct {
	at, end int
	text    string
}

const alias = "zzverifpkg"

func main() {
	repo := flag.String("repo", "/repo", "the code under test")
	out := flag.String("out", "", "directory for the rewritten files")
	harness := flag.String("harness", "", "directory of the harness")
	plain := flag.Bool("plain", false, "add the harness, leave the code alone")
	flag.Parse()
	mod := modulePath(*repo)
	replace := map[string]string{}
	zzdir := filepath.Join(*repo, "internal", "zzverif")
	zfs, err := os.ReadDir(filepath.Join(*harness, "zz"))
	must(err)
	for _, f := range zfs {
		if strings.HasSuffix(f.Name(), ".go") {
			replace[filepath.Join(zzdir, f.Name())] = filepath.Join(*harness, "zz", f.Name())
		}
	}
	must(os.MkdirAll(*out, 0o755))
	if !*plain {
		mark := filepath.Join(*out, "mark.go")
		must(os.WriteFile(mark, []byte("package zz\n\nfunc init() { Rewritten = true }\n"), 0o644))
		replace[filepath.Join(zzdir, "mark.go")] = mark
		must(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				b := fi.Name()
				if p != *repo && (strings.HasPrefix(b, ".") || b == "examples" || b == "testdata" || b == "vendor") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			res, err := rewrite(p, src, mod+"/internal/zzverif")
			if err != nil {
				return fmt.Errorf("%s: %v", p, err)
			}
			if res == nil {
				return nil
			}
			rel, _ := filepath.Rel(*repo, p)
			dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			replace[p] = dst
			return nil
		}))
	}
	// the tests: harness/<dir>/x_test.go goes to <repo>/<dir>/zzverif_x_test.go,
	// with root standing for the top directory
	dirs, err := os.ReadDir(*harness)
	must(err)
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "zz" {
			continue
		}
		fs, err := os.ReadDir(filepath.Join(*harness, d.Name()))
		must(err)
		to := *repo
		if d.Name() != "root" {
			to = filepath.Join(*repo, strings.ReplaceAll(d.Name(), "__", "/"))
		}
		for _, f := range fs {
			if !strings.HasSuffix(f.Name(), ".go") {
				continue
			}
			replace[filepath.Join(to, "zzverif_"+f.Name())] = filepath.Join(*harness, d.Name(), f.Name())
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
}

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	must(fmt.Errorf("no module line in go.mod"))
	return ""
}

func rewrite(name string, src []byte, zzpath string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, nil // not ours to judge: the compiler will
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	pkgs := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "C" {
			return nil, nil
		}
		if subst[path] == nil {
			continue
		}
		n := path[strings.LastIndexByte(path, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if n == "." || n == "_" {
			return nil, nil
		}
		pkgs[n] = path
	}
	var edits []edit
	used := map[string]bool{}
	point := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), alias + ".Point(); "})
		}
	}
	funcs := 0
	text := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			point(x.List)
			funcs++
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		case *ast.SwitchStmt:
			// its body's "statements" are clauses
			for _, c := range x.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return false })
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			if to, ok := subst[pkgs[id.Name]][x.Sel.Name]; ok {
				edits = append(edits, edit{off(x.Pos()), off(x.End()), alias + "." + to})
				used[id.Name] = true
			}
		case *ast.IncDecStmt:
			if shared(x.X) {
				t := text(x.X)
				edits = append(edits, edit{off(x.Pos()), off(x.End()),
					fmt.Sprintf("{ zzp := &%s; zzv := *zzp; %s.Point(); *zzp = zzv %s 1 }", t, alias, x.Tok.String()[:1])})
				return false
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !shared(x.Lhs[0]) || !simple(x.Rhs[0]) {
				return true
			}
			t, r := text(x.Lhs[0]), text(x.Rhs[0])
			switch x.Tok {
			case token.ASSIGN:
				if mentions(x.Rhs[0], t, text) {
					edits = append(edits, edit{off(x.Pos()), off(x.End()),
						fmt.Sprintf("{ zzv := %s; %s.Point(); %s = zzv }", r, alias, t)})
					return false
				}
			case token.DEFINE:
			default:
				edits = append(edits, edit{off(x.Pos()), off(x.End()),
					fmt.Sprintf("{ zzp := &%s; zzv := *zzp; %s.Point(); *zzp = zzv %s (%s) }", t, alias, strings.TrimSuffix(x.Tok.String(), "="), r)})
				return false
			}
		case *ast.GoStmt:
			// go f(a, b)  =>  func() { zzf, zz0, zz1 := f, a, b; zz.Go(func() { zzf(zz0, zz1) }) }()
			c := x.Call
			edits = append(edits, edit{off(x.Pos()), off(c.Pos()), "func() { zzf := "})
			names := make([]string, len(c.Args))
			for i := range c.Args {
				names[i] = fmt.Sprintf("zz%d", i)
			}
			call := "zzf(" + strings.Join(names, ", ")
			if c.Ellipsis.IsValid() {
				call += "..."
			}
			call += ")"
			// between the function and its arguments
			prev := off(c.Lparen)
			end := off(c.Rparen) + 1
			for i, a := range c.Args {
				edits = append(edits, edit{prev, off(a.Pos()), "; " + names[i] + " := "})
				prev = off(a.End())
			}
			edits = append(edits, edit{prev, end, "; " + alias + ".Go(func() { " + call + " }) }()"})
		}
		return true
	})
	if len(edits) == 0 {
		return nil, nil
	}
	// clauses of switch and select statements are not statements
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	var es []edit
	for _, e := range edits {
		if e.at == e.end && clause[e.at] && strings.HasSuffix(e.text, "Point(); ") {
			continue
		}
		es = append(es, e)
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var b bytes.Buffer
	pkgEnd := off(f.Name.End())
	es = append([]edit{}, es...)
	last := 0
	b.Write(src[:pkgEnd])
	fmt.Fprintf(&b, "; import %s %q", alias, zzpath)
	last = pkgEnd
	for _, e := range es {
		if e.at < last {
			return nil, fmt.Errorf("overlapping edits at offset %d", e.at)
		}
		b.Write(src[last:e.at])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	fmt.Fprintf(&b, "\nvar _ = %s.Point\n", alias)
	for n := range used {
		fmt.Fprintf(&b, dummy[pkgs[n]]+"\n", n)
	}
	return b.Bytes(), nil
}

// shared tells whether e may be a variable other goroutines see: a field, or
// what a pointer points at.
func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return simple(x)
	case *ast.StarExpr:
		return simple(x)
	case *ast.ParenExpr:
		return shared(x.X)
	}
	return false
}

// simple: nothing in e needs rewriting itself.
func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.CallExpr:
			id, isId := x.Fun.(*ast.Ident)
			if !isId || (id.Name != "append" && id.Name != "int64" && id.Name != "len" && id.Name != "float64" && id.Name != "int") {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func mentions(e ast.Expr, t string, text func(ast.Expr) string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && text(x) == t {
			found = true
		}
		return !found
	})
	return found
}
