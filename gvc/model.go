package main

// Models of library functions. Each is an assumption about the library,
// reported in the evidence.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome

func ret(st *State, v ...*Term) []Outcome { return []Outcome{{st: st, ret: v}} }

func recvElem(f *ssa.Function) types.Type {
	return under(f.Signature.Recv().Type()).(*types.Pointer).Elem()
}

var models map[string]modelFn

func init() {
	lock := func(write, un bool) modelFn {
		return func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			if un {
				e.unlockOp(st, args[0], recvElem(f), write, pos)
			} else {
				e.lockOp(st, args[0], recvElem(f), write, pos)
			}
			return ret(st)
		}
	}
	now := func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
		return ret(st, Fresh("now", STime))
	}
	models = map[string]modelFn{
		"sync.(*Mutex).Lock":        lock(true, false),
		"sync.(*Mutex).Unlock":      lock(true, true),
		"sync.(*RWMutex).Lock":      lock(true, false),
		"sync.(*RWMutex).Unlock":    lock(true, true),
		"sync.(*RWMutex).RLock":     lock(false, false),
		"sync.(*RWMutex).RUnlock":   lock(false, true),
		"monkit.(*spinLock).Lock":   lock(true, false),
		"monkit.(*spinLock).Unlock": lock(true, true),
		"monotime.Now":              now,
		"time.Now":                  now,
		"time.Since": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("time.Sub", SBV(64), Fresh("now", STime), args[0]))
		},
		"time.(Time).Sub": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("time.Sub", SBV(64), args[0], args[1]))
		},
		"time.(Duration).Seconds": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("time.Seconds", SF64, args[0]))
		},
		"math.NaN": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, F64(math.NaN()))
		},
		"math.IsNaN": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, Op("fp.isNaN", SBool, "", args[0]))
		},
		"math.IsInf": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			if args[1].Op != "bv" {
				unsupported("math.IsInf with a symbolic sign")
			}
			inf := Op("fp.isInfinite", SBool, "", args[0])
			switch n := args[1].Int(); {
			case n == 0:
				return ret(st, inf)
			case n > 0:
				return ret(st, And(inf, Op("fp.lt", SBool, "", F64(0), args[0])))
			}
			return ret(st, And(inf, Op("fp.lt", SBool, "", args[0], F64(0))))
		},
		"rand.Int63": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			v := Fresh("rand", SBV(64))
			st.assume(Not(Op("bvslt", SBool, "", v, BV64(0))))
			return ret(st, v)
		},
		"rand.Read": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			el := types.Typ[types.Uint8]
			l := e.decode(st, e.elemAddr(st, args, el, BV64(0)), el)
			e.checkAccess(st, l, el, true, pos)
			base := Loc{Ref: l.Ref, Root: l.Root, Path: l.Path, Idx: l.Idx[:len(l.Idx)-1]}
			srt := SArr(SBV(64), SBV(8))
			c := cell{key: base.Root + base.Path, sort: wrapSort(srt, len(base.Idx)), ref: base.Ref, idx: base.Idx}
			c.write(e, st.heap, Fresh("random", srt))
			err := Fresh("randerr", SInt)
			err.old = true
			return ret(st, Fresh("randn", SBV(64)), err)
		},
		"rand.NewSource": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("fn:rand.Source", SInt, args[0]))
		},
		"rand.New": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("fn:rand.Rand", SInt, args[0]))
		},
		"rand.(*Rand).Int63": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			v := Fresh("rand", SBV(64))
			st.assume(Not(Op("bvslt", SBool, "", v, BV64(0))))
			return ret(st, v)
		},
		"binary.(bigEndian).Uint64": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, Fresh("uint64", SBV(64)))
		},
		"strings.Join": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			// the elements of a set: in increasing order, or in some order
			if a := args[:4]; a[0].Op == "int" && a[0].N != 0 && args[4].Op == "str" {
				if sq, ok := st.seqs[int64(a[0].N)]; ok {
					segs := e.segsOf(st, a, types.Typ[types.String])
					if len(segs) == 1 && segs[0].Enum != nil && segs[0].Enum.Dom.Set != nil {
						en := segs[0].Enum
						in := en.Dom.contains(en.Binder)
						if en.Guard != nil {
							in = And(in, en.Guard)
						}
						set := LambdaOver(en.Binder, in)
						if en.Sorted && !sq.Perm {
							return ret(st, joinTerm(set, en.Binder, en.Elem[0], args[4].S))
						}
						return ret(st, UF("joinset:"+en.Binder.Sort, SString, set, LambdaOver(en.Binder, en.Elem[0]), args[4], Fresh("order", SInt)))
					}
				}
			}
			res, ok := e.external(st, f, "strings.Join", args, pos)
			if !ok {
				unsupported("strings.Join")
			}
			return res
		},
		"runtime.Gosched": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome { return ret(st) },
		"context.Background": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("fn:context.Background()", SInt))
		},
		"context.TODO": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, UF("fn:context.TODO()", SInt))
		},
		"sync.(*Once).Do": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			l := e.decode(st, args[0], recvElem(f))
			lf := Leaf{".done", SBool, types.Typ[types.Bool]}
			done := readHeap(e, st.heap, l, lf)
			var res []Outcome
			if e.feasible(st, done) {
				s2 := st.clone()
				s2.assume(done)
				res = append(res, Outcome{st: s2})
			}
			if e.feasible(st, Not(done)) {
				st.assume(Not(done))
				sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
				for _, o := range e.callValue(st, sig, args[1], nil, nil, pos) {
					writeHeap(e, o.st.heap, l, lf, True)
					res = append(res, o)
				}
			}
			return res
		},
		"strings.IndexByte": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, indexByte(args[0], args[1]))
		},
		"strings.Index": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, I2BV(Op("str.indexof", SInt, "", args[0], args[1], IntT(0))))
		},
		"strings.Contains": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, Op("str.contains", SBool, "", args[0], args[1]))
		},
		"strings.ContainsAny": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			if args[1].Op != "str" {
				return ret(st, AbsUF("strings.ContainsAny", SBool, args...))
			}
			var alts []*Term
			for i := 0; i < len(args[1].S); i++ {
				if args[1].S[i] >= 128 {
					return ret(st, AbsUF("strings.ContainsAny", SBool, args...))
				}
				alts = append(alts, Op("str.contains", SBool, "", args[0], StrT(args[1].S[i:i+1])))
			}
			return ret(st, Or(alts...))
		},
		"strings.ContainsRune": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			if args[1].Op == "bv" && args[1].Int() < 128 && args[1].Int() >= 0 {
				return ret(st, Op("str.contains", SBool, "", args[0], StrT(string([]byte{byte(args[1].N)}))))
			}
			return ret(st, AbsUF("strings.ContainsRune", SBool, args...))
		},
		"strings.HasPrefix": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, Op("str.prefixof", SBool, "", args[1], args[0]))
		},
		"strings.LastIndexByte": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			return ret(st, lastIndex(st, args[0], byteStr(args[1])))
		},
		"strings.LastIndex": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			if args[1].Op != "str" || len(args[1].S) != 1 {
				return ret(st, AbsUF("strings.LastIndex", SBV(64), args...))
			}
			return ret(st, lastIndex(st, args[0], args[1]))
		},
		"fmt.Fprintf":             fprintModel("Sprintf"),
		"fmt.Fprint":              fprintModel("Sprint"),
		"fmt.Fprintln":            fprintModel("Sprintln"),
		"sort.Sort":               sortModel,
		"sort.Stable":             sortModel,
		"sort.Strings":            sortModel,
		"sort.Slice":              sortModel,
		"sort.SliceStable":        sortModel,
		"strings.(*Builder).Grow": func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome { return ret(st) },
	}
	wr := func(conv func(a []*Term) *Term, rets func(a []*Term) []*Term) modelFn {
		return func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			l := e.decode(st, args[0], recvElem(f))
			noteRoot(recvElem(f))
			lf := Leaf{".s", SString, types.Typ[types.String]}
			cur := readHeap(e, st.heap, l, lf)
			writeHeap(e, st.heap, l, lf, Op("str.++", SString, "", cur, conv(args[1:])))
			if rets == nil {
				return ret(st)
			}
			return ret(st, rets(args[1:])...)
		}
	}
	for _, t := range []string{"strings.(*Builder)", "bytes.(*Buffer)"} {
		models[t+".WriteString"] = wr(func(a []*Term) *Term { return a[0] }, func(a []*Term) []*Term { return []*Term{I2BV(Op("str.len", SInt, "", a[0])), IntT(0)} })
		models[t+".WriteByte"] = wr(func(a []*Term) *Term { return byteStr(a[0]) }, func(a []*Term) []*Term { return []*Term{IntT(0)} })
		models[t+".WriteRune"] = wr(func(a []*Term) *Term {
			if a[0].Op == "bv" {
				return StrT(string(rune(a[0].Int())))
			}
			return AbsUF("runestr", SString, a[0])
		}, func(a []*Term) []*Term { return []*Term{AbsUF("runelen", SBV(64), a[0]), IntT(0)} })
		models[t+".String"] = func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			l := e.decode(st, args[0], recvElem(f))
			return ret(st, readHeap(e, st.heap, l, Leaf{".s", SString, types.Typ[types.String]}))
		}
		models[t+".Len"] = func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
			l := e.decode(st, args[0], recvElem(f))
			return ret(st, I2BV(Op("str.len", SInt, "", readHeap(e, st.heap, l, Leaf{".s", SString, types.Typ[types.String]}))))
		}
	}
}

// fprintModel: formatting to a string builder or buffer appends what the
// matching Sprint function returns; other writers see one call.
func fprintModel(name string) modelFn {
	return func(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
		t, v := e.w.boxed(args[0])
		if t != nil {
			if k := typeKey(t); k == "*strings.Builder" || k == "*bytes.Buffer" {
				g := f.Pkg.Func(name)
				outs, ok := e.external(st, g, "fmt."+name, args[1:], pos)
				w := e.w.prog.LookupMethod(t, nil, "WriteString")
				if ok && w != nil {
					return e.callStatic(st, w, append(append([]*Term{}, v...), outs[0].ret...), nil, nil, pos)
				}
			}
		}
		c := e.w.db.byKey["fmt."+f.Name()]
		if c == nil {
			unsupported("call of fmt.%s", f.Name())
		}
		return e.callOp(st, c, f, args, pos)
	}
}

// lastIndex is the position of the last occurrence of a character.
func lastIndex(st *State, s, c *Term) *Term {
	r := UF("strings.LastIndexByte", SInt, s, c)
	n := Op("str.len", SInt, "", s)
	st.assume(Not(Op("<", SBool, "", r, IntT(-1))))
	st.assume(Op("<", SBool, "", r, n))
	next := Op("+", SInt, "", r, IntT(1))
	st.assume(Implies(Not(Op("<", SBool, "", r, IntT(0))), Eq(Op("str.at", SString, "", s, r), c)))
	st.assume(Not(Op("str.contains", SBool, "", Op("str.substr", SString, "", s, next, n), c)))
	return I2BV(r)
}

func byteStr(b *Term) *Term {
	if b.Op == "bv" {
		return StrT(string([]byte{byte(b.N)}))
	}
	// the byte of a string at an index
	if b.Op == "int2bv" && b.Args[0].Op == "str.to_code" {
		return b.Args[0].Args[0]
	}
	return Op("str.from_code", SString, "", Op("bv2int", SInt, "", Op("zext", SBV(16), "8", b)))
}

func indexByte(s, c *Term) *Term {
	if s.Op == "str" && c.Op != "bv" {
		r := BV64(-1)
		for i := len(s.S) - 1; i >= 0; i-- {
			r = Ite(Eq(c, BV(8, uint64(s.S[i]))), BV64(int64(i)), r)
		}
		return r
	}
	return I2BV(Op("str.indexof", SInt, "", s, byteStr(c), IntT(0)))
}

func sortModel(e *Exec, st *State, f *ssa.Function, args []*Term, pos string) []Outcome {
	t, v := e.w.boxed(args[0])
	if f.Name() == "Strings" {
		t, v = f.Signature.Params().At(0).Type(), args
	}
	if t == nil {
		unsupported("sort of an unknown value")
	}
	sl, ok := under(t).(*types.Slice)
	if !ok {
		unsupported("sort of %s", t)
	}
	_ = sl
	if v[0].Op == "int" {
		if sq, ok := st.seqs[int64(v[0].N)]; ok {
			if len(sq.Segs) == 1 && sq.Segs[0].Enum != nil && e.sortsByKey(st, f, args, t, v, sq) {
				en := *sq.Segs[0].Enum
				en.Sorted = true
				st.seqs[int64(v[0].N)] = &Seq{Elem: sq.Elem, Segs: []Seg{{Enum: &en}}}
				return ret(st)
			}
			st.seqs[int64(v[0].N)] = &Seq{Elem: sq.Elem, Segs: sq.Segs, Perm: true}
			st.note("order after sort.%s is not tracked", f.Name())
			return ret(st)
		}
	}
	// an array in the heap: becomes some sorted permutation
	el := sl.Elem()
	if f.Name() == "Strings" {
		unsupported("sort of strings in place")
	}
	if len(leaves(el)) != 1 {
		unsupported("sort of %s in place", t)
	}
	p := e.elemAddr(st, v, el, BV64(0))
	l := e.decode(st, p, el)
	e.checkAccess(st, l, el, true, pos)
	base := Loc{Ref: l.Ref, Root: l.Root, Path: l.Path, Idx: l.Idx[:len(l.Idx)-1]}
	key := base.Root + base.Path
	lf := leaves(el)[0]
	srt := SArr(SBV(64), lf.Sort)
	c := cell{key: key, sort: wrapSort(srt, len(base.Idx)), ref: base.Ref, idx: base.Idx}
	old := c.read(e, st.heap)
	c.write(e, st.heap, UF("sorted:"+typeKey(t), srt, old, v[1], v[2]))
	return ret(st)
}

// sortsByKey: the comparison of a sort over an enumeration of a set of strings
// is "key of i before key of j".
func (e *Exec) sortsByKey(st *State, f *ssa.Function, args []*Term, t types.Type, v []*Term, sq *Seq) (ok bool) {
	en := sq.Segs[0].Enum
	if en.Binder.Sort != SString || en.Dom.Set == nil {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); !is {
				panic(r)
			}
			ok = false
		}
	}()
	s2 := st.clone()
	var idx, keys []*Term
	for _, n := range []string{"i", "j"} {
		ix, k := Fresh("pos"+n, SBV(64)), Fresh("k"+n, SString)
		m := map[*Term]*Term{en.Binder: k}
		var el []*Term
		for _, x := range en.Elem {
			el = append(el, Subst(x, m))
		}
		s2.elemOf[fmt.Sprintf("%d#%d", v[0].N, ix.id)] = el
		s2.assume(And(Not(Op("bvslt", SBool, "", ix, BV64(0))), Op("bvslt", SBool, "", ix, v[2])))
		idx, keys = append(idx, ix), append(keys, k)
	}
	var outs []Outcome
	if f.Name() == "Strings" {
		return len(en.Elem) == 1 && en.Elem[0] == en.Binder
	}
	if strings.HasPrefix(f.Name(), "Slice") {
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.Typ[types.Int])), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
		outs = e.callValue(s2, sig, args[1], idx, nil, "")
	} else if m := e.w.prog.LookupMethod(t, nil, "Less"); m != nil {
		outs = e.callStatic(s2, m, append(append([]*Term{}, v...), idx...), nil, nil, "")
	}
	return len(outs) == 1 && !outs[0].panicked && len(outs[0].ret) == 1 && outs[0].ret[0] == Op("str.<", SBool, "", keys[0], keys[1])
}

func atomType(name string) (op string, ok bool) {
	for _, p := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap", "And", "Or"} {
		if strings.HasPrefix(name, p) {
			return p, true
		}
	}
	return "", false
}

// genericModel covers sync/atomic.
func (e *Exec) genericModel(st *State, f *ssa.Function, key string, args []*Term, pos string) ([]Outcome, bool) {
	pk := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
	} else if f.Origin() != nil && f.Origin().Object() != nil && f.Origin().Object().Pkg() != nil {
		pk = f.Origin().Object().Pkg().Path()
	}
	if pk != "sync/atomic" {
		return nil, false
	}
	op, ok := atomType(f.Name())
	if !ok {
		return nil, false
	}
	var t types.Type
	sub := ""
	if r := f.Signature.Recv(); r != nil {
		t = under(r.Type()).(*types.Pointer).Elem()
		sub = ".v"
	} else {
		t = under(f.Signature.Params().At(0).Type()).(*types.Pointer).Elem()
	}
	p, rest := args[0], args[1:]
	switch op {
	case "Load":
		v := e.atomicOp(st, p, t, sub, pos, "load", func(st *State, cur *Term) *Term { return nil })
		return ret(st, v), true
	case "Store":
		e.atomicOp(st, p, t, sub, pos, "store", func(st *State, cur *Term) *Term { return rest[0] })
		return ret(st), true
	case "Swap":
		v := e.atomicOp(st, p, t, sub, pos, "swap", func(st *State, cur *Term) *Term { return rest[0] })
		return ret(st, v), true
	case "Add":
		var n *Term
		e.atomicOp(st, p, t, sub, pos, "add", func(st *State, cur *Term) *Term {
			n = Op("bvadd", cur.Sort, "", cur, rest[0])
			return n
		})
		return ret(st, n), true
	case "CompareAndSwap":
		st2 := st.clone()
		var res []Outcome
		good := true
		e.atomicOp(st, p, t, sub, pos, "cas", func(st *State, cur *Term) *Term {
			eq := Eq(cur, rest[0])
			if eq == False || !e.feasible(st, eq) {
				good = false
				return nil
			}
			st.assume(eq)
			return rest[1]
		})
		if good {
			res = append(res, Outcome{st: st, ret: []*Term{True}})
		}
		good = true
		e.atomicOp(st2, p, t, sub, pos, "cas", func(st *State, cur *Term) *Term {
			eq := Eq(cur, rest[0])
			if eq == True || !e.feasible(st, Not(eq)) {
				good = false
				return nil
			}
			st.assume(Not(eq))
			return nil
		})
		if good {
			res = append(res, Outcome{st: st2, ret: []*Term{False}})
		}
		return res, true
	}
	return nil, false
}

// purePackages are libraries whose functions are deterministic functions of
// their arguments.
var purePackages = map[string]bool{
	"strings": true, "strconv": true, "encoding/hex": true, "math": true, "unicode": true, "unicode/utf8": true,
	"errors": true, "path": true, "net/url": true, "html": true, "math/bits": true, "time": true, "reflect": true, "bytes": true,
}

func (e *Exec) external(st *State, f *ssa.Function, key string, args []*Term, pos string) ([]Outcome, bool) {
	pk := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path()
	}
	pure := purePackages[pk] || (pk == "fmt" && strings.HasPrefix(f.Name(), "Sprint")) || (pk == "fmt" && f.Name() == "Errorf")
	if !pure {
		return nil, false
	}
	if pk == "time" && (f.Name() == "Sleep" || f.Name() == "After" || strings.HasPrefix(f.Name(), "New")) {
		return nil, false
	}
	sig := f.Signature
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	ts = append(ts, sigTypes(sig)...)
	for _, t := range ts {
		if isFuncT(t) {
			return nil, false
		}
		if _, ok := under(t).(*types.Pointer); ok && sig.Recv() != nil {
			return nil, false
		}
	}
	if t, ok := e.canonExternal(st, key, args); ok {
		return ret(st, t), true
	}
	fa := e.flattenForUF(st, ts, args)
	var out []*Term
	k := 0
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if sl, ok := under(rt).(*types.Slice); ok {
			_ = sl
			arr := AbsUF(fmt.Sprintf("ext:%s#%d", key, k), SInt, fa...)
			n := AbsUF(fmt.Sprintf("ext:%s#%d.len", key, k), SBV(64), fa...)
			st.assume(And(Not(Op("bvslt", SBool, "", n, BV64(0))), Op("bvslt", SBool, "", n, BV64(1<<40))))
			switch key {
			case "strings.Split", "strings.SplitN", "strings.SplitAfter":
				// with a separator, at least one piece, at most as many as asked for
				if args[1].Op == "str" && args[1].S != "" && (key != "strings.SplitN" || args[2].Op == "bv" && args[2].Int() != 0) {
					st.assume(Not(Op("bvslt", SBool, "", n, BV64(1))))
				}
				if key == "strings.SplitN" && args[2].Op == "bv" && args[2].Int() > 0 {
					st.assume(Not(Op("bvslt", SBool, "", args[2], n)))
				}
			}
			out = append(out, arr, BV64(0), n, n)
			k++
			continue
		}
		for _, l := range leaves(rt) {
			u := AbsUF(fmt.Sprintf("ext:%s#%d", key, k), l.Sort, fa...)
			u.old = l.Sort == SInt
			out = append(out, u)
			k++
		}
	}
	return ret(st, out...), true
}
