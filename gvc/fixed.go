package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// findFixed marks the guarded maps that are stored only while their object is
// being built, before anybody else can see it: what the lock guards is then
// the contents of the map, and reading the reference itself is not a race.
func (w *World) findFixed() {
	bad := map[string]bool{}
	seen := map[string]bool{}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), w.module) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					k := fieldKey(in.X.Type(), in.Field)
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != ssa.Value(in) || !unseenBefore(in.X, r) {
								bad[k] = true
							} else {
								seen[k] = true
							}
						default:
							bad[k] = true
						}
					}
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.Alloc); !ok {
						overwritten(in.Val.Type(), bad, 0)
					}
				}
			}
		}
	}
	for _, d := range w.db.types {
		st, ok := d.T.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			rule := d.Rules["."+st.Field(i).Name()]
			if rule == nil || rule.Kind != "guarded" || !rule.Owned {
				continue
			}
			if _, ok := st.Field(i).Type().Underlying().(*types.Map); !ok {
				continue
			}
			k := fieldKey(d.T, i)
			rule.Fixed = seen[k] && !bad[k]
		}
	}
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return typeKey(t) + "." + st.Field(i).Name()
}

// overwritten notes the fields that a store of a whole value replaces.
func overwritten(t types.Type, bad map[string]bool, depth int) {
	if depth > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			bad[fieldKey(t, i)] = true
			overwritten(u.Field(i).Type(), bad, depth+1)
		}
	case *types.Array:
		overwritten(u.Elem(), bad, depth+1)
	}
}

// unseenBefore reports whether x is allocated in the block of the store, and
// nothing but accesses to its fields happens to it in between.
func unseenBefore(x ssa.Value, st *ssa.Store) bool {
	a, ok := x.(*ssa.Alloc)
	if !ok || a.Block() != st.Block() {
		return false
	}
	on := false
	for _, in := range a.Block().Instrs {
		if in == ssa.Instruction(a) {
			on = true
			continue
		}
		if in == ssa.Instruction(st) {
			return on
		}
		if _, ok := in.(*ssa.FieldAddr); ok || !on {
			continue
		}
		for _, o := range in.Operands(nil) {
			if *o == ssa.Value(a) {
				return false
			}
		}
	}
	return false
}

// touchesNothing: the function and what it calls only compute: no locks,
// channels, goroutines or calls to unknown code, and no field or variable that
// goroutines share by contract.
func (w *World) touchesNothing(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if len(f.Blocks) == 0 || len(seen) > 40 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan, *ssa.Defer, *ssa.MakeClosure, *ssa.RunDefers:
				return false
			case *ssa.FieldAddr:
				t, ok := isPtrTo(in.X.Type())
				if !ok {
					return false
				}
				if d := w.declFor(t); d != nil {
					st := t.Underlying().(*types.Struct)
					if d.Rules["."+st.Field(in.Field).Name()] != nil || d.Locks["."+st.Field(in.Field).Name()] != nil {
						return false
					}
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := in.Call.StaticCallee()
				if g == nil || g.Pkg == nil || !w.inRepo(g) || !w.touchesNothing(g, seen) {
					return false
				}
			}
			for _, o := range in.Operands(nil) {
				if g, ok := (*o).(*ssa.Global); ok && w.writtenOutsideInit(g) {
					return false
				}
			}
		}
	}
	return true
}
