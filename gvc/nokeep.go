package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Whether a function keeps a function it is given beyond its own return. The
// check follows the value through the function's body: it may be called and
// handed on to functions that do not keep it either, and captured by closures
// that are themselves only used so; it may not be stored anywhere else.

func (w *World) keepsParam(fn *ssa.Function, i int, seen map[ssa.Value]bool) string {
	if len(fn.Blocks) == 0 {
		if c := w.db.byKey[w.funcKey(fn)]; c != nil && c.NoKeep {
			return ""
		}
		return "passes it to " + fn.String()
	}
	if i >= len(fn.Params) {
		return "passes it to " + fn.String()
	}
	return w.keepsValue(fn.Params[i], seen)
}

func (w *World) keepsValue(p ssa.Value, seen map[ssa.Value]bool) string {
	if seen[p] {
		return ""
	}
	seen[p] = true
	for _, r := range *p.Referrers() {
		why := ""
		switch in := r.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case ssa.CallInstruction:
			if _, ok := in.(*ssa.Go); ok {
				return "starts a goroutine with it"
			}
			c := in.Common()
			for k, a := range c.Args {
				if a != p {
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					return "passes it on at " + w.prog.Fset.Position(in.Pos()).String()
				}
				if why = w.keepsParam(f, k, seen); why != "" {
					return why
				}
			}
		case *ssa.MakeClosure:
			why = w.closureKeeps(in, p, w.keepsValue, seen)
		case *ssa.Store:
			al, ok := in.Addr.(*ssa.Alloc)
			if !ok {
				return "stores it"
			}
			why = w.keepsCell(al, seen)
		case *ssa.Phi:
			why = w.keepsValue(in, seen)
		case *ssa.ChangeType:
			why = w.keepsValue(in, seen)
		default:
			return fmt.Sprintf("uses it (%T)", in)
		}
		if why != "" {
			return why
		}
	}
	return ""
}

func (w *World) closureKeeps(mc *ssa.MakeClosure, p ssa.Value, walk func(ssa.Value, map[ssa.Value]bool) string, seen map[ssa.Value]bool) string {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b == p {
			if why := walk(f.FreeVars[i], seen); why != "" {
				return why
			}
		}
	}
	return w.keepsValue(mc, seen)
}

// keepsCell follows a local variable that holds the function.
func (w *World) keepsCell(p ssa.Value, seen map[ssa.Value]bool) string {
	if seen[p] {
		return ""
	}
	seen[p] = true
	for _, r := range *p.Referrers() {
		why := ""
		switch in := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if in.Val == p {
				return "stores its variable"
			}
		case *ssa.UnOp:
			why = w.keepsValue(in, seen)
		case *ssa.MakeClosure:
			why = w.closureKeeps(in, p, w.keepsCell, seen)
		default:
			return fmt.Sprintf("uses its variable (%T)", in)
		}
		if why != "" {
			return why
		}
	}
	return ""
}
