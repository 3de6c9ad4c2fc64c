package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// localGuard is a lock in a captured variable and the captured variables it
// guards, as a closure contract declares.
type localGuard struct {
	name   string
	vars   []guardedVar
	assume func(st *State)
}

type guardedVar struct {
	name string
	ref  *Term
	t    types.Type
	own  bool
}

func (g *localGuard) cells(e *Exec, h map[string]*Term) []cell {
	var out []cell
	for _, v := range g.vars {
		cs := e.pointeeCells(types.NewPointer(v.t), v.ref, ":"+v.name)
		out = append(out, cs...)
		if v.own {
			out = append(out, e.pointeeCells(v.t, cs[0].read(e, h), ":*"+v.name)...)
		}
	}
	return out
}

// havoc forgets the guarded variables; invariants of the sequential objects
// among them hold.
func (g *localGuard) havoc(e *Exec, st *State) {
	for _, v := range g.vars {
		if !v.own || !e.stable[v.ref] {
			e.havocVar(st, v.ref, v.t)
		}
		if v.own {
			e.havocPointee(st, v.t, readHeap(e, st.heap, Loc{Ref: v.ref, Root: typeKey(v.t)}, leaves(v.t)[0]))
		}
	}
}

// what the contract assumes about the guarded state
func (g *localGuard) assumed(st *State) {
	if g.assume != nil {
		g.assume(st)
	}
}

func (g *localGuard) invariants(e *Exec, st *State, f func(name string, t *Term)) {
	for _, v := range g.vars {
		if !v.own {
			continue
		}
		pt, ok := isPtrTo(v.t)
		if !ok {
			continue
		}
		if d := e.w.declFor(pt); d != nil && d.Seq {
			ref := readHeap(e, st.heap, Loc{Ref: v.ref, Root: typeKey(v.t)}, leaves(v.t)[0])
			for _, c := range d.Inv {
				f(d.Name+":"+c.Name, e.evalInv(st, c, d, e.decode(st, ref, pt), st.heap))
			}
		}
	}
}

// writtenBy lists the fields of a captured struct that closures may write, for
// a call that may run them; nil is all of them.
func (e *Exec) writtenBy(a *ssa.Alloc) map[string]bool {
	pt, _ := isPtrTo(a.Type())
	s, ok := under(pt).(*types.Struct)
	if !ok || !e.calling {
		return nil
	}
	out := map[string]bool{}
	var scan func(v ssa.Value, home bool, seen map[ssa.Value]bool) bool
	scan = func(v ssa.Value, home bool, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v || !home {
					return false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !scan(fn.FreeVars[i], false, seen) {
						return false
					}
				}
			case *ssa.FieldAddr:
				if !onlyReadField(r, home) {
					out[s.Field(r.Field).Name()] = true
				}
			default:
				return false
			}
		}
		return true
	}
	if !scan(a, true, map[ssa.Value]bool{}) {
		return nil
	}
	return out
}

func (e *Exec) havocFields(st *State, ref *Term, t types.Type, only map[string]bool) {
	if only == nil {
		e.havocVar(st, ref, t)
		return
	}
	s := under(t).(*types.Struct)
	noteRoot(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !only[f.Name()] {
			continue
		}
		var vs []*Term
		for _, l := range leaves(f.Type()) {
			l.Path = "." + f.Name() + l.Path
			v := Fresh("cap:"+l.Path, l.Sort)
			v.old = v.Sort == SInt
			vs = append(vs, v)
			writeHeap(e, st.heap, Loc{Ref: ref, Root: typeKey(t)}, l, v)
		}
		if _, ok := under(f.Type()).(*types.Slice); ok && len(vs) == 4 {
			st.assume(sliceWF(vs))
		}
	}
}

func (e *Exec) havocVar(st *State, ref *Term, t types.Type) {
	noteRoot(t)
	var vs []*Term
	for _, l := range leaves(t) {
		if e.watch != nil {
			e.watch(cell{key: typeKey(t) + l.Path, sort: l.Sort, ref: ref})
			continue
		}
		v := Fresh("cap:"+l.Path, l.Sort)
		v.old = v.Sort == SInt
		vs = append(vs, v)
		writeHeap(e, st.heap, Loc{Ref: ref, Root: typeKey(t)}, l, v)
	}
	if _, ok := under(t).(*types.Slice); ok && len(vs) == 4 {
		st.assume(sliceWF(vs))
	}
}

func (e *Exec) havocPointee(st *State, t types.Type, ref *Term) {
	for _, c := range e.pointeeCells(t, ref, "") {
		if e.watch != nil {
			e.watch(c)
			continue
		}
		v := Fresh("cap:"+c.key, c.leafSort())
		v.old = v.Sort == SInt
		c.write(e, st.heap, v)
	}
	if pt, ok := isPtrTo(t); ok && e.watch == nil {
		if d := e.w.declFor(pt); d != nil && d.Seq {
			for _, c := range d.Inv {
				st.assume(e.evalInv(st, c, d, e.decode(st, ref, pt), st.heap))
			}
		}
	}
}

// fixedCapture reports whether nothing can change the variable once the
// function that declares it has returned: only that function stores to it.
func fixedCapture(a ssa.Value) bool {
	return onlyRead(a, true, map[ssa.Value]bool{})
}

func onlyRead(a ssa.Value, home bool, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == a || !home {
				return false
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a && !onlyRead(fn.FreeVars[i], false, seen) {
					return false
				}
			}
		case *ssa.FieldAddr:
			if !onlyReadField(r, home) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func onlyReadField(f *ssa.FieldAddr, home bool) bool {
	for _, r := range *f.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == ssa.Value(f) || !home {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyReadField(r, home) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// captured finds the variable a free variable stands for.
func captured(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	k := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			k = i
		}
	}
	if fn.Parent() == nil || k < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				if o, ok := mc.Bindings[k].(*ssa.FreeVar); ok {
					return captured(o)
				}
				return mc.Bindings[k]
			}
		}
	}
	return nil
}

// forgetCaptured: a closure is called any number of times, so what earlier
// calls may have changed is arbitrary when it runs.
func (e *Exec) forgetCaptured(st *State, f *ssa.Function, bs []*Term) {
	seen := map[*Term]bool{}
	var closure func(f *ssa.Function, bs []*Term)
	var value func(t types.Type, v []*Term)
	closure = func(f *ssa.Function, bs []*Term) {
		if len(bs) != len(f.FreeVars) {
			return
		}
		for i, fv := range f.FreeVars {
			a, _ := captured(fv).(*ssa.Alloc)
			if a == nil {
				if f.Synthetic != "" {
					value(fv.Type(), []*Term{bs[i]})
				}
				continue
			}
			if seen[bs[i]] || bs[i].Op != "int" {
				continue
			}
			seen[bs[i]] = true
			if lk := e.guardOf[bs[i]]; lk != nil && e.holds(st, lk, false) == True {
				continue // nobody else can change it now
			}
			pt, _ := isPtrTo(a.Type())
			noteRoot(pt)
			if !fixedCapture(a) {
				if e.w.declFor(pt) == nil {
					e.havocFields(st, bs[i], pt, e.writtenBy(a))
				}
				continue
			}
			e.stable[bs[i]] = true
			var vs []*Term
			for _, l := range leaves(pt) {
				vs = append(vs, readHeap(e, st.heap, Loc{Ref: bs[i], Root: typeKey(pt)}, l))
			}
			value(pt, vs)
		}
	}
	value = func(t types.Type, v []*Term) {
		for i, l := range leaves(t) {
			if l.Sort != SInt || i >= len(v) || seen[v[i]] || strings.HasSuffix(l.Path, "#off") {
				continue
			}
			x := v[i]
			if fn, b := e.w.funcOf(x); fn != nil {
				seen[x] = true
				closure(fn, b)
				continue
			}
			if bt, bv := e.w.boxed(x); bt != nil {
				value(bt, bv)
				continue
			}
			if x.Op != "int" {
				continue
			}
			o := st.fresh[int64(x.N)]
			if o == nil {
				continue
			}
			seen[x] = true
			switch under(o.T).(type) {
			case *types.Map:
				e.havocPointee(st, o.T, x)
				continue
			case *types.Struct:
			default:
				if _, isSlice := under(o.T).(*types.Slice); !isSlice {
					e.havocVar(st, x, o.T)
				}
				continue
			}
			d := e.w.declFor(o.T)
			if d == nil || d.Seq {
				e.havocPointee(st, types.NewPointer(o.T), x)
				continue
			}
			for _, lf := range leaves(o.T) {
				loc := Loc{Ref: x, Root: typeKey(o.T)}
				hit := e.w.findRule(loc.Root, lf.Path)
				if hit == nil && e.watch != nil {
					e.watch(cell{key: loc.Root + lf.Path, sort: lf.Sort, ref: x})
					continue
				}
				if hit == nil {
					w := Fresh("cap:"+lf.Path, lf.Sort)
					w.old = w.Sort == SInt
					writeHeap(e, st.heap, loc, lf, w)
					continue
				}
				if hit.rule.Kind == "immutable" && lf.Sort == SInt {
					value(lf.T, []*Term{readHeap(e, st.heap, loc, lf)})
				}
			}
		}
	}
	closure(f, bs)
}

// declareGuards reads the guards clauses of a closure contract.
func (e *Exec) declareGuards(st *State, cl *FuncContract, f *ssa.Function, bs []*Term) {
	type capt struct {
		ref *Term
		t   types.Type
	}
	byName := map[string]capt{}
	add := func(f *ssa.Function, bs []*Term) {
		for i, fv := range f.FreeVars {
			if _, ok := byName[fv.Name()]; !ok && i < len(bs) {
				byName[fv.Name()] = capt{bs[i], fv.Type()}
			}
		}
	}
	add(f, bs)
	for _, x := range st.escaped {
		// other functions that capture the same variables
		if g, gb := e.w.funcOf(x); g != nil && g.Parent() == f.Parent() {
			add(g, gb)
		}
	}
	for _, g := range cl.Guards {
		lk, ok := byName[g[0]]
		if !ok {
			specFail("no captured variable %s", g[0])
		}
		lg := &localGuard{name: g[0]}
		for _, n := range g[1:] {
			own := strings.HasSuffix(n, "*")
			n = strings.TrimSuffix(n, "*")
			v, ok := byName[n]
			if !ok {
				continue
			}
			pt, _ := isPtrTo(v.t)
			noteRoot(pt)
			lg.vars = append(lg.vars, guardedVar{n, v.ref, pt, own})
			e.guardOf[v.ref] = lk.ref
		}
		e.guards[lk.ref] = lg
	}
}

// called: functions handed to other code may be called from now on, by it or
// by anybody it gives them to.
func (e *Exec) called(st *State, ev *Event, ts []types.Type, args []*Term) {
	keep := true
	if k, ok := strings.CutPrefix(ev.Name, "op:"); ok {
		c := e.w.db.byKey[k]
		keep = c == nil || !c.NoKeep
	}
	n := len(st.escaped)
	for i, a := range splitArgs(ts, args) {
		for k, l := range leaves(ts[i]) {
			if l.Sort == SInt && k < len(a) && e.passes(a[k]) {
				st.escaped = append(st.escaped[:len(st.escaped):len(st.escaped)], a[k])
			}
		}
	}
	for _, x := range st.escaped {
		if f, bs := e.w.funcOf(x); f != nil {
			e.calling = true
			e.forgetCaptured(st, f, bs)
			e.calling = false
		} else if t, v := e.w.boxed(x); t != nil && isFuncT(t) {
			if f, bs := e.w.funcOf(v[0]); f != nil {
				e.forgetCaptured(st, f, bs)
			}
		}
	}
	if !keep {
		st.escaped = st.escaped[:n:n]
	}
	ev.Post = copyHeap(st.heap)
}

func (e *Exec) passes(x *Term) bool {
	f, bs := e.w.funcOf(x)
	if f == nil {
		if t, v := e.w.boxed(x); t != nil && isFuncT(t) && len(v) > 0 {
			f, bs = e.w.funcOf(v[0])
		}
	}
	return f != nil && len(bs) > 0
}

// selectOp: any of the cases may be taken.
func (e *Exec) selectOp(fr *Frame, st *State, in *ssa.Select) []Outcome {
	if in.Blocking {
		e.raise(st, "callback-under-lock", "waits on channels holding "+e.heldNames(st), e.pos(in.Pos()), BoolT(len(st.held) == 0))
	}
	var chans []*Term
	var cts []types.Type
	for _, s := range in.States {
		chans = append(chans, e.val1(fr, s.Chan))
		cts = append(cts, s.Chan.Type())
		if s.Send != nil {
			unsupported("select with a send")
		}
	}
	var outs []Outcome
	first := 0
	if !in.Blocking {
		first = -1
	}
	for k := first; k < len(in.States); k++ {
		s2 := st.clone()
		if k >= 0 && chans[k].Op == "int" && chans[k].N == 0 {
			continue // a nil channel is never ready
		}
		ok := Fresh("recvok", SBool)
		ret := []*Term{BV64(int64(k)), ok}
		for j, s := range in.States {
			el := under(s.Chan.Type()).(*types.Chan).Elem()
			if j == k {
				ret = append(ret, freshVal("recv", el)...)
			} else {
				ret = append(ret, zeroVal(el)...)
			}
		}
		ev := &Event{Name: "wait", Args: chans, ArgT: cts, Guard: True, Pos: e.pos(in.Pos()), Heap: copyHeap(s2.heap), Res: []*Term{BV64(int64(k))}}
		s2.events = append(s2.events, ev)
		e.called(s2, ev, nil, nil)
		outs = append(outs, Outcome{st: s2, ret: ret})
	}
	return outs
}
