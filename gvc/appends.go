package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Appending writes into the room behind a slice, which another slice with
// the same beginning may use too. Sequences are modelled as values, so an
// append is checked to extend a slice that is the function's own, or one it
// puts back where it came from (or returns, when it was handed one).

// appendShares tells why an append may write where another slice looks.
func appendShares(in *ssa.Call) string {
	why := ""
	seen := map[ssa.Value]bool{}
	var base func(v ssa.Value)
	base = func(v ssa.Value) {
		if seen[v] || why != "" {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				base(e)
			}
		case *ssa.Slice:
			if x.Max != nil {
				return // no room behind it, or room that was set apart
			}
			base(x.X)
		case *ssa.ChangeType:
			base(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				base(x.Call.Args[0])
			}
		case *ssa.UnOp:
			if x.Op != token.MUL || localAddr(x.X) {
				return
			}
			if !goesTo(in, func(i ssa.Instruction, val ssa.Value) bool {
				s, ok := i.(*ssa.Store)
				return ok && s.Val == val && sameExpr(s.Addr, x.X)
			}) {
				why = "extends a slice it has read without putting it back: another slice may share its room"
			}
		case *ssa.Lookup:
			if !goesTo(in, func(i ssa.Instruction, val ssa.Value) bool {
				s, ok := i.(*ssa.MapUpdate)
				return ok && s.Value == val && sameExpr(s.Map, x.X) && sameExpr(s.Key, x.Index)
			}) {
				why = "extends a slice of a map without putting it back: another slice may share its room"
			}
		case *ssa.Parameter:
			if !goesTo(in, func(i ssa.Instruction, val ssa.Value) bool {
				_, ok := i.(*ssa.Return)
				return ok
			}) {
				why = "extends a slice it was handed and keeps the result: the caller may do so too"
			}
		}
	}
	base(in.Call.Args[0])
	return why
}

// localAddr: the address of a variable of the function, or of a part of one.
func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	}
	return false
}

// goesTo: the value, perhaps extended further, reaches an instruction.
func goesTo(v ssa.Value, is func(ssa.Instruction, ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if is(r, v) {
				return true
			}
			switch x := r.(type) {
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			case *ssa.ChangeType:
				if walk(x) {
					return true
				}
			case *ssa.Slice:
				if walk(x) {
					return true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v && walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// sameExpr: two values computed alike from the same values.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(x.X, y.X) && sameExpr(x.Index, y.Index)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && x.CommaOk == y.CommaOk && sameExpr(x.X, y.X) && sameExpr(x.Index, y.Index)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && sameExpr(x.Tuple, y.Tuple)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}
