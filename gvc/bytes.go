package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// wholeBytes: the slice is an unchanged copy of a whole string.
func (e *Exec) wholeBytes(st *State, x []*Term) (*Term, bool) {
	if x[0].Op == "int" && x[0].N == 0 {
		return StrT(""), true
	}
	if x[0].Op != "uf" || x[0].S != "bytesof" {
		return nil, false
	}
	s := x[0].Args[0]
	if x[1] != BV64(0) || x[2] != I2BV(Op("str.len", SInt, "", s)) {
		return nil, false
	}
	key := "elems:uint8[]"
	for h := st.heap[key]; h != nil && h.Op == "store"; h = h.Args[0] {
		if !distinct(h.Args[1], x[0]) {
			return nil, false
		}
	}
	return s, true
}

// foldBytes recognises a loop over all bytes of a string that appends to a
// byte slice what depends on that byte alone: the image of the string under a
// table, made by running the body on each of the 256 bytes.
func (e *Exec) foldBytes(it *iteration, init, acc []*Term, backs []bodyRun, edge func(bodyRun) []*Term) ([]*Term, bool) {
	if it.dom.Set != nil || it.dom.Hi == nil || len(init) != 4 || init[2] != BV64(0) {
		return nil, false
	}
	hi := BV2I(it.dom.Hi)
	if hi.Op != "str.len" || it.dom.Guard != nil && it.dom.Guard != True {
		return nil, false
	}
	s := hi.Args[0]
	byteT := strByte(s, it.binder)
	charT := Op("str.at", SString, "", s, BV2I(it.binder))
	var tab []string
	for c := 0; c < 256; c++ {
		m := map[*Term]*Term{byteT: BV(8, uint64(c)), charT: StrT(string([]byte{byte(c)}))}
		img, n := "", 0
		for _, r := range backs {
			g := e.foldConst(Subst(r.guard, m))
			if g == False {
				continue
			}
			if g != True {
				return nil, false
			}
			n++
			v := edge(r)
			if v[0] == acc[0] && v[2] == acc[2] {
				continue
			}
			sq, ok := r.o.st.seqs[int64(v[0].N)]
			if v[0].Op != "int" || !ok || len(sq.Segs) == 0 || !sq.Segs[0].Acc {
				return nil, false
			}
			for _, sg := range sq.Segs[1:] {
				var t *Term
				switch {
				case sg.Single != nil:
					b := e.foldConst(Subst(sg.Single[0], m))
					if b.Op != "bv" {
						return nil, false
					}
					t = StrT(string([]byte{byte(b.N)}))
				case sg.Heap != nil && sg.Heap.Arr.Op == "uf" && sg.Heap.Arr.S == "bytesof" && sg.Heap.Off == BV64(0) && sg.Heap.Len == I2BV(Op("str.len", SInt, "", sg.Heap.Arr.Args[0])):
					t = e.foldConst(Subst(sg.Heap.Arr.Args[0], m))
				default:
					return nil, false
				}
				if t.Op != "str" {
					return nil, false
				}
				img += t.S
			}
		}
		if n != 1 {
			return nil, false
		}
		tab = append(tab, img)
	}
	t := cmapTerm(tab, s)
	l := I2BV(Op("str.len", SInt, "", t))
	return []*Term{AbsUF("bytesof", SInt, t), BV64(0), l, l}, true
}

// foldConst evaluates fmt.Sprintf of constants.
func (e *Exec) foldConst(t *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.Op == "uf" && strings.HasPrefix(t.S, "ext:fmt.Sprintf#") && len(t.Args) == 2 && t.Args[0].Op == "str" {
			if vs, ok := e.constSeq(t.Args[1]); ok {
				m[t] = StrT(fmt.Sprintf(t.Args[0].S, vs...))
			}
		}
		if t.Op == "uf" && (t.S == "ext:strconv.FormatInt#0" || t.S == "ext:strconv.FormatUint#0") && t.Args[0].Op == "bv" && t.Args[1].Op == "bv" && t.Args[1].N >= 2 && t.Args[1].N <= 36 {
			if t.S == "ext:strconv.FormatInt#0" {
				m[t] = StrT(strconv.FormatInt(t.Args[0].Int(), int(t.Args[1].N)))
			} else {
				m[t] = StrT(strconv.FormatUint(t.Args[0].N, int(t.Args[1].N)))
			}
		}
	}
	walk(t)
	for len(m) > 0 {
		t = Subst(t, m)
		m, seen = map[*Term]*Term{}, map[*Term]bool{}
		walk(t)
	}
	return t
}

func (e *Exec) constSeq(t *Term) ([]interface{}, bool) {
	if t.Op != "uf" {
		return nil, false
	}
	if t.S == "seq:nil" {
		return nil, true
	}
	if !strings.HasPrefix(t.S, "seq:cons:") || len(t.Args) != 2 {
		return nil, false
	}
	vs, ok := e.constSeq(t.Args[0])
	if !ok {
		return nil, false
	}
	bt, bv := e.w.boxed(t.Args[1])
	if bt == nil || len(bv) != 1 {
		return nil, false
	}
	b, ok := types.Unalias(bt).(*types.Basic)
	if !ok {
		return nil, false
	}
	switch {
	case b.Kind() == types.Uint8 && bv[0].Op == "bv":
		return append(vs, uint8(bv[0].N)), true
	case b.Info()&types.IsUnsigned != 0 && bv[0].Op == "bv":
		return append(vs, bv[0].N), true
	case b.Info()&types.IsInteger != 0 && bv[0].Op == "bv":
		return append(vs, bv[0].Int()), true
	case b.Kind() == types.String && bv[0].Op == "str":
		return append(vs, bv[0].S), true
	}
	return nil, false
}
