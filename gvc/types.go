package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Leaf is one scalar component of a Go type.
type Leaf struct {
	Path string // ".f.g", with "[]" for array elements
	Sort Sort
	T    types.Type
}

var leafCache = map[string][]Leaf{}

// shortQual is the name by which contracts know a package.
func shortQual(p *types.Package) string {
	if p.Path() == "net/http" {
		return "nethttp"
	}
	return p.Name()
}

func typeKey(t types.Type) string {
	k := types.TypeString(unlocal(types.Unalias(t)), shortQual)
	if strings.Contains(k, "func(") {
		k = types.TypeString(anon(unlocal(types.Unalias(t))), shortQual)
	}
	return k
}

// anon drops the names of parameters and results, which are not part of the
// identity of a type.
func anon(t types.Type) types.Type {
	tuple := func(tu *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < tu.Len(); i++ {
			vs = append(vs, types.NewParam(0, nil, "", anon(tu.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	switch t := types.Unalias(t).(type) {
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, tuple(t.Params()), tuple(t.Results()), t.Variadic())
	case *types.Pointer:
		return types.NewPointer(anon(t.Elem()))
	case *types.Slice:
		return types.NewSlice(anon(t.Elem()))
	case *types.Array:
		return types.NewArray(anon(t.Elem()), t.Len())
	case *types.Chan:
		return types.NewChan(t.Dir(), anon(t.Elem()))
	case *types.Map:
		return types.NewMap(anon(t.Key()), anon(t.Elem()))
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, types.NewField(0, f.Pkg(), f.Name(), anon(f.Type()), f.Embedded()))
			tags = append(tags, t.Tag(i))
		}
		return types.NewStruct(fs, tags)
	}
	return t
}

// locktypes are types whose Lock/Unlock are lock primitives with no leaves.
var lockTypes = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func basicSort(b *types.Basic) Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int8, types.Uint8:
		return SBV(8)
	case types.Int16, types.Uint16:
		return SBV(16)
	case types.Int32, types.Uint32, types.UntypedRune:
		return SBV(32)
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return SBV(64)
	case types.Float32:
		return SF32
	case types.Float64, types.UntypedFloat:
		return SF64
	case types.String, types.UntypedString:
		return SString
	case types.UnsafePointer, types.UntypedNil:
		return SInt
	}
	return SInt
}

func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type) []Leaf {
	k := typeKey(t)
	if lockTypes[k] {
		return nil
	}
	switch k {
	case "time.Time":
		return []Leaf{{"", STime, t}}
	case "sync.Once":
		return []Leaf{{".done", SBool, types.Typ[types.Bool]}}
	case "sync.WaitGroup":
		return nil
	case "atomic.Value":
		return []Leaf{{".v", SInt, types.NewInterfaceType(nil, nil)}}
	case "atomic.Int64", "atomic.Uint64":
		return []Leaf{{".v", SBV(64), types.Typ[types.Int64]}}
	case "atomic.Int32", "atomic.Uint32":
		return []Leaf{{".v", SBV(32), types.Typ[types.Int32]}}
	case "atomic.Bool":
		return []Leaf{{".v", SBool, types.Typ[types.Bool]}}
	case "strings.Builder", "bytes.Buffer":
		return []Leaf{{".s", SString, types.Typ[types.String]}}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer" {
		return []Leaf{{".v", SInt, types.NewPointer(n.TypeArgs().At(0))}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return []Leaf{{"", basicSort(u), t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, Leaf{"." + fieldName(f, i) + l.Path, l.Sort, l.T})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Path, SArr(SBV(64), l.Sort), l.T})
		}
		return out
	case *types.Slice:
		i := types.Typ[types.Int]
		return []Leaf{{".#arr", SInt, t}, {".#off", SBV(64), i}, {".#len", SBV(64), i}, {".#cap", SBV(64), i}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort, l.T})
			}
		}
		return out
	}
	return []Leaf{{"", SInt, t}}
}

func fieldName(f *types.Var, i int) string {
	if f.Name() == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return f.Name()
}

// fieldRange is the range of leaf indexes of field i.
func fieldRange(st *types.Struct, i int) (lo, hi int) {
	for j := 0; j < i; j++ {
		lo += len(leaves(st.Field(j).Type()))
	}
	return lo, lo + len(leaves(st.Field(i).Type()))
}

func tupleRange(tu *types.Tuple, i int) (lo, hi int) {
	for j := 0; j < i; j++ {
		lo += len(leaves(tu.At(j).Type()))
	}
	return lo, lo + len(leaves(tu.At(i).Type()))
}

func zeroOf(s Sort) *Term {
	switch {
	case s == SBool:
		return False
	case s == SInt:
		return IntT(0)
	case s == SString:
		return StrT("")
	case s == SF64:
		return F64(0)
	case s == SF32:
		return F32(0)
	case s == STime:
		return UF("time.zero", STime)
	case isBV(s):
		return BV(bvWidth(s), 0)
	case isArr(s):
		_, v := arrParts(s)
		return ConstArr(s, zeroOf(v))
	}
	panic("zero of " + s)
}

func zeroVal(t types.Type) []*Term {
	var out []*Term
	for _, l := range leaves(t) {
		out = append(out, zeroOf(l.Sort))
	}
	return out
}

func freshVal(prefix string, t types.Type) []*Term {
	var out []*Term
	for _, l := range leaves(t) {
		out = append(out, Fresh(prefix+l.Path, l.Sort))
	}
	return out
}

// keySort is the SMT sort used for map keys of type t.
func keySort(t types.Type) Sort {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].Sort
	}
	var ss []Sort
	for _, l := range ls {
		ss = append(ss, l.Sort)
	}
	name := "K_" + strings.NewReplacer(".", "_", "/", "_", "*", "p", " ", "", "{", "_", "}", "_", ";", "_").Replace(typeKey(t))
	return TupleSort(name, ss)
}
func keyTerm(t types.Type, v []*Term) *Term {
	if len(v) == 1 {
		return v[0]
	}
	return MkTuple(keySort(t), v...)
}
func keyUnpack(t types.Type, k *Term) []*Term {
	ls := leaves(t)
	if len(ls) == 1 {
		return []*Term{k}
	}
	var out []*Term
	for i, l := range ls {
		out = append(out, TupleGet(k, i, l.Sort))
	}
	return out
}

func isPtrTo(t types.Type) (types.Type, bool) {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool  { _, ok := under(t).(*types.Interface); return ok }
func isErrorT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
func isFuncT(t types.Type) bool  { _, ok := under(t).(*types.Signature); return ok }

// unlocal replaces an interface type declared inside a function by what it
// stands for.
func unlocal(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Parent() == n.Obj().Pkg().Scope() || n.TypeArgs().Len() > 0 {
		return t
	}
	if i, ok := n.Underlying().(*types.Interface); ok {
		return i
	}
	return t
}
