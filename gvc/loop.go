package main

// Loops: concrete unrolling while the exit test folds, otherwise summarised.

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// loopCtx is a loop whose body is being executed once.
type loopCtx struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (w *World) loopOf(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	m, ok := w.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loopInfo{}
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if s.Dominates(x) {
					li := m[s]
					if li == nil {
						li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
						m[s] = li
					}
					var add func(b *ssa.BasicBlock)
					add = func(b *ssa.BasicBlock) {
						if li.body[b] {
							return
						}
						li.body[b] = true
						for _, p := range b.Preds {
							add(p)
						}
					}
					add(x)
				}
			}
		}
		w.loops[fn] = m
	}
	return m[b]
}

// peekCond evaluates the header's exit test without side effects.
func (e *Exec) peekCond(fr *Frame, st *State, li *loopInfo) (cond *Term, next *ssa.Next, ok bool) {
	f2 := fr.clone()
	s2 := st.clone()
	for _, in := range li.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Next:
			return nil, in, true
		case *ssa.If:
			in2 := li.body[li.header.Succs[0]]
			in3 := li.body[li.header.Succs[1]]
			if in2 == in3 {
				return nil, nil, false
			}
			return e.val1(f2, in.Cond), nil, true
		case *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.Convert, *ssa.FieldAddr:
			if u, isU := in.(*ssa.UnOp); isU && u.Op == token.MUL {
				l := e.decode(s2, e.val1(f2, u.X), u.Type())
				if !s2.isLocal(l.Ref) && !e.steady(s2, u.X, l) {
					return nil, nil, false
				}
			}
			outs, _ := e.simple(f2, s2, in)
			if outs != nil {
				return nil, nil, false
			}
		case *ssa.Call:
			b, isB := in.Call.Value.(*ssa.Builtin)
			if !isB || (b.Name() != "len" && b.Name() != "cap") {
				return nil, nil, false
			}
			_, args := e.callTargets(f2, &in.Call)
			outs := e.builtin(f2, s2, b, &in.Call, args, in)
			f2.env[in] = outs[0].ret
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// steady reports whether v is a captured variable or a field that nobody else
// can change now.
func (e *Exec) steady(st *State, v ssa.Value, l Loc) bool {
	fv, ok := v.(*ssa.FreeVar)
	if !ok {
		hit := e.w.findRule(l.Root, l.Path)
		if hit == nil {
			return false
		}
		return hit.rule.Kind == "immutable" || hit.rule.Kind == "guarded" && e.holds(st, e.lockPtrFor(st.heap, hit, l), false) == True
	}
	if lk := e.guardOf[l.Ref]; lk != nil && e.holds(st, lk, false) == True {
		return true
	}
	a := captured(fv)
	return a != nil && fixedCapture(a)
}

const maxUnroll = 200

func (e *Exec) enterLoop(fr *Frame, st *State, li *loopInfo, prev *ssa.BasicBlock) []Outcome {
	e.doPhis(fr, li.header, prev)
	e.unrolled++
	if e.unrolled > 20000 {
		unsupported("loop in %s does not end", fr.fn)
	}
	cond, next, ok := e.peekCond(fr, st, li)
	if ok && next == nil && cond.isConst() {
		return e.runInstrs(fr, st, li.header, 0)
	}
	if ok && next != nil {
		return e.summarise(fr, st, li, next)
	}
	if ok {
		return e.summarise(fr, st, li, nil)
	}
	return e.retryLoop(fr, st, li)
}

// retryLoop handles loops such as compare-and-swap retries: an iteration that
// does not leave the loop must have no effect.
func (e *Exec) retryLoop(fr *Frame, st *State, li *loopInfo) []Outcome {
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	var res []Outcome
	var reps []repAlt
	ne := len(st.events)
	if e.cur != nil && e.cur.Forever && fr.fn == e.endless {
		exits := hasExit(li)
		if len(phis) > 0 {
			unsupported("endless loop with loop-carried values in %s", fr.fn)
		}
		h0, ns := copyHeap(st.heap), len(st.steps)
		e.loops = append(e.loops, &loopCtx{fn: fr.fn, header: li.header, body: li.body})
		outs := e.runInstrs(fr, st, li.header, 0)
		e.loops = e.loops[:len(e.loops)-1]
		for _, o := range outs {
			if o.back == li.header {
				e.raise(o.st, "round-state", "a round of the endless loop leaves something to the next one", e.pos(li.header.Instrs[0].Pos()), e.sameHeap(o.st, h0, ns))
				if exits {
					o.st.events = append(o.st.events, &Event{Name: "again", Guard: True, Pos: e.pos(li.header.Instrs[0].Pos()), Heap: copyHeap(o.st.heap)})
				}
				o = Outcome{st: o.st}
			}
			if o.back != nil {
				res = append(res, e.runBlock(o.fr, o.st, o.back, o.from)...)
				continue
			}
			res = append(res, o)
		}
		return res
	}
	// once runs one iteration and returns the outcomes that try again.
	once := func(fr *Frame, st *State) (again []Outcome) {
		h0 := copyHeap(st.heap)
		ns, ne := len(st.steps), len(st.events)
		e.loops = append(e.loops, &loopCtx{fn: fr.fn, header: li.header, body: li.body})
		outs := e.runInstrs(fr, st, li.header, 0)
		e.loops = e.loops[:len(e.loops)-1]
		for _, o := range outs {
			if o.back == li.header {
				if len(o.st.events) != ne {
					if len(phis) > 0 {
						unsupported("retry loop with loop-carried values and calls in %s", fr.fn)
					}
					reps = append(reps, repAlt{o.st, o.st.events[ne:]})
				}
				var stut []*Term
				for _, s := range o.st.steps[ns:] {
					stut = append(stut, e.stutters(s))
				}
				e.raise(o.st, "retry-effect", "an iteration that retries must not change shared state", e.pos(li.header.Instrs[0].Pos()), And(stut...))
				e.raise(o.st, "retry-effect", "an iteration that retries must not change anything", e.pos(li.header.Instrs[0].Pos()), e.sameHeap(o.st, h0, ns))
				again = append(again, o)
				continue
			}
			res = append(res, o)
		}
		return again
	}
	mark := varCount
	again := once(fr, st)
	if len(phis) > 0 {
		// What an iteration hands to the next one is something it read from
		// shared state, so any number of iterations that only try again are
		// as good as one that was followed by what the others did meanwhile.
		// Numbers that are handed on otherwise, such as a count of the
		// attempts, are taken to be any.
		free := map[*ssa.Phi]bool{}
		check := func(o Outcome, mark int, first bool) {
			for _, p := range phis {
				if free[p] {
					continue
				}
				for i, pr := range li.header.Preds {
					if pr != o.from {
						continue
					}
					for _, v := range e.val(o.fr, p.Edges[i]) {
						if v.Op == "var" && varSeq[v.S] > mark {
							continue
						}
						if b, ok := under(p.Type()).(*types.Basic); ok && first && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
							free[p] = true
							continue
						}
						unsupported("retry loop with loop-carried values in %s", fr.fn)
					}
				}
			}
		}
		for _, o := range again {
			check(o, mark, true)
		}
		for _, o := range again {
			m2 := varCount
			e.doPhis(o.fr, li.header, o.from)
			for p := range free {
				o.fr.env[p] = freshVal("carried", p.Type())
			}
			for _, o2 := range once(o.fr, o.st) {
				check(o2, m2, false)
			}
		}
	}
	for i := range res {
		if len(reps) > 0 {
			s := res[i].st
			rep := &Event{Name: "repeat", Rep: reps, Pos: e.pos(li.header.Instrs[0].Pos())}
			s.events = append(append(append([]*Event{}, s.events[:ne]...), rep), s.events[ne:]...)
		}
	}
	var fin []Outcome
	for _, o := range res {
		if o.back != nil {
			fin = append(fin, e.runBlock(o.fr, o.st, o.back, o.from)...)
			continue
		}
		fin = append(fin, o)
	}
	return fin
}

// hasExit tells whether a loop has a way out other than a panic.
func hasExit(li *loopInfo) bool {
	for b := range li.body {
		for _, s := range b.Succs {
			if !li.body[s] {
				return true
			}
		}
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
				return true
			}
		}
	}
	return false
}

// sameHeap: what differs from an earlier heap was changed by others, in steps.
func (e *Exec) sameHeap(st *State, h0 map[string]*Term, ns int) *Term {
	h := copyHeap(st.heap)
	for _, s := range st.steps[ns:] {
		for _, c := range e.regionCells(s.Reg, s.Obj, s.Pre) {
			c.write(e, h, c.read(e, h0))
		}
		for _, k := range e.foreignKeys(s.Reg) {
			if a, ok := h0[k]; ok {
				h[k] = a
			}
		}
	}
	var cs []*Term
	for k, a := range h {
		_, vs := arrParts(a.Sort)
		b, ok := h0[k]
		if !ok {
			b = initialHeapVar(k, vs)
		}
		if a == b {
			continue
		}
		// what was allocated meanwhile does not count
		x := a
		for x.Op == "store" {
			if x.Args[1].Op == "int" && int64(x.Args[1].N) >= FreshBase {
				if _, was := st.fresh[int64(x.Args[1].N)]; was {
					x = x.Args[0]
					continue
				}
			}
			cs = append(cs, Eq(x.Args[2], Select(b, x.Args[1])))
			x = x.Args[0]
		}
		y := b
		for y.Op == "store" {
			y = y.Args[0]
		}
		if x != y {
			cs = append(cs, Eq(a, b))
		}
	}
	return And(cs...)
}

// repAlt is one way an iteration that retries can go.
type repAlt struct {
	st     *State
	events []*Event
}

// iteration describes what a loop ranges over.
type iteration struct {
	binder *Term
	dom    Domain
	// per-iteration bindings
	setup  func(fr *Frame, st *State)
	final  func(fr *Frame, st *State)
	order  bool
	elemN  int
	sorted bool  // a set domain visited in increasing order of its keys
	pos    *Term // the position of the element in the sequence

	keep map[*Term]bool  // binders of inner loops
	made map[string]bool // functions of the binder
	mark int             // variables created later are made in the body

	rewrote map[string]bool // maps of which an entry at the binder was taken from before the loop
}

func (e *Exec) summarise(fr *Frame, st *State, li *loopInfo, next *ssa.Next) []Outcome {
	var bodyB, exitB *ssa.BasicBlock
	for _, s := range li.header.Succs {
		if li.body[s] {
			bodyB = s
		} else {
			exitB = s
		}
	}
	if bodyB == nil || exitB == nil {
		unsupported("loop shape in %s", fr.fn)
	}
	if next != nil {
		if next.IsString {
			unsupported("range over a string in %s", fr.fn)
		}
		rng := next.Iter.(*ssa.Range)
		mt := rng.X.Type()
		ref := e.val1(fr, rng)
		m := under(mt).(*types.Map)
		e.checkOwned(st, ref, false, e.pos(rng.Pos()))
		d := e.mapDom(st.heap, mt, ref)
		if d.Op == "constarr" && d.Args[0] == False {
			fr.env[next] = append([]*Term{False}, append(zeroVal(m.Key()), zeroVal(m.Elem())...)...)
			return e.afterHeader(fr, st, li, next, exitB)
		}
		// literal maps: iterate concretely over the stores
		if ks, okc := concreteDom(d); okc {
			return e.concreteMap(fr, st, li, next, mt, ref, ks, bodyB, exitB)
		}
		heap := st.heap
		ks := keySort(m.Key())
		k := Fresh("k", ks)
		k.old = ks == SInt
		it := &iteration{binder: k, dom: Domain{Set: d}}
		it.setup = func(fr *Frame, st *State) {
			v, _ := e.mapLookup(heap, mt, ref, k)
			for i := range v {
				v[i] = Subst(v[i], map[*Term]*Term{Select(d, k): True})
			}
			tu := []*Term{True}
			tu = append(tu, keyUnpack(m.Key(), k)...)
			tu = append(tu, v...)
			// the tuple types may omit unused parts
			fr.env[next] = fitTuple(next, tu, m)
			st.assume(Select(d, k))
		}
		it.final = func(fr *Frame, st *State) {
			tu := append([]*Term{False}, append(zeroVal(m.Key()), zeroVal(m.Elem())...)...)
			fr.env[next] = fitTuple(next, tu, m)
		}
		return e.runIteration(fr, st, li, it, bodyB, exitB, nil, 0)
	}
	// index loops
	iff := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If)
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return e.tryRetry(fr, st, li)
	}
	// find the induction variable: phi, or phi+1 (range loops)
	phi, step, ivar := e.induction(li, bo.X)
	limitV := bo.Y
	flip := false
	if phi == nil {
		phi, step, ivar = e.induction(li, bo.Y)
		limitV = bo.X
		flip = true
	}
	if phi == nil {
		return e.tryRetry(fr, st, li)
	}
	op := bo.Op
	if flip {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	// evaluate the limit in the header
	f2 := fr.clone()
	s2 := st.clone()
	for _, in := range li.header.Instrs {
		if in == ssa.Instruction(iff) {
			break
		}
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.Call:
			b := in.Call.Value.(*ssa.Builtin)
			_, args := e.callTargets(f2, &in.Call)
			f2.env[in] = e.builtin(f2, s2, b, &in.Call, args, in)[0].ret
		default:
			e.simple(f2, s2, in)
		}
	}
	limit := e.val1(f2, limitV)
	if mentionsAny(limitV, phi) {
		return e.tryRetry(fr, st, li)
	}
	start := e.val1(fr, phi)
	if ivar != ssa.Value(phi) {
		start = Op("bvadd", start.Sort, "", start, BV64(step))
	}
	var lo, hi *Term
	rev := false
	switch {
	case step == 1 && op == token.LSS:
		lo, hi = start, limit
	case step == 1 && op == token.LEQ:
		lo, hi = start, Op("bvadd", limit.Sort, "", limit, BV64(1))
	case step == 1 && op == token.NEQ:
		lo, hi = start, limit
	case step == -1 && op == token.GEQ:
		lo, hi, rev = limit, Op("bvadd", start.Sort, "", start, BV64(1)), true
	case step == -1 && op == token.GTR:
		lo, hi, rev = Op("bvadd", limit.Sort, "", limit, BV64(1)), Op("bvadd", start.Sort, "", start, BV64(1)), true
	default:
		return e.tryRetry(fr, st, li)
	}
	// iterate over a structured sequence?
	if sq, arr := e.seqWithLen(st, fr, li, hi); sq != nil && lo.Op == "bv" && lo.N == 0 && !rev {
		return e.overSegments(fr, st, li, phi, ivar, sq, arr, 0, bodyB, exitB)
	}
	i := Fresh("i", SBV(64))
	it := &iteration{binder: i, dom: Domain{Lo: lo, Hi: hi, Rev: rev}, order: true}
	it.setup = func(fr *Frame, st *State) {
		st.assume(it.dom.contains(i))
		e.setInd(fr, st, li, phi, ivar, i, step)
	}
	it.final = func(fr *Frame, st *State) {
		end := hi
		if rev {
			end = Op("bvsub", lo.Sort, "", lo, BV64(1))
		}
		end = Ite(Op("bvslt", SBool, "", lo, hi), end, start)
		e.setInd(fr, st, li, phi, ivar, end, step)
	}
	return e.runIteration(fr, st, li, it, bodyB, exitB, phi, step)
}

func (e *Exec) tryRetry(fr *Frame, st *State, li *loopInfo) []Outcome {
	for _, in := range li.header.Instrs {
		if _, ok := in.(*ssa.Phi); ok && !e.w.readsShared(li) {
			unsupported("loop in %s", fr.fn)
		}
	}
	return e.retryLoop(fr, st, li)
}

func mentionsAny(v ssa.Value, phi *ssa.Phi) bool {
	if v == ssa.Value(phi) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, isPhi := v.(*ssa.Phi); isPhi {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && mentionsAny(*o, phi) {
			return true
		}
	}
	return false
}

// induction recognises v as phi or phi+step with a constant step.
func (e *Exec) induction(li *loopInfo, v ssa.Value) (*ssa.Phi, int64, ssa.Value) {
	stepOf := func(p *ssa.Phi) (int64, bool) {
		if p.Block() != li.header {
			return 0, false
		}
		var step int64
		for i, pr := range li.header.Preds {
			if !li.body[pr] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.X != ssa.Value(p) {
				return 0, false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0, false
			}
			n := c.Int64()
			if b.Op == token.SUB {
				n = -n
			} else if b.Op != token.ADD {
				return 0, false
			}
			if step != 0 && step != n {
				return 0, false
			}
			step = n
		}
		return step, step == 1 || step == -1
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if s, ok := stepOf(v); ok {
			return v, s, v
		}
	case *ssa.BinOp:
		if p, ok := v.X.(*ssa.Phi); ok {
			if s, ok := stepOf(p); ok && v.Block() == li.header {
				return p, s, v
			}
		}
	}
	return nil, 0, nil
}

// setInd binds the induction variable to i.
func (e *Exec) setInd(fr *Frame, st *State, li *loopInfo, phi *ssa.Phi, ivar ssa.Value, i *Term, step int64) {
	fr.env[ivar] = []*Term{i}
	if ivar != ssa.Value(phi) {
		fr.env[phi] = []*Term{Op("bvsub", i.Sort, "", i, BV64(step))}
	}
}

// headerRest evaluates the remaining header instructions (comparisons,
// lengths, extracts) so that values used in the body are available.
func (e *Exec) headerRest(fr *Frame, st *State, li *loopInfo, skip map[ssa.Value]bool) {
	for _, in := range li.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef, *ssa.Next:
		case *ssa.Call:
			b := in.Call.Value.(*ssa.Builtin)
			_, args := e.callTargets(fr, &in.Call)
			fr.env[in] = e.builtin(fr, st, b, &in.Call, args, in)[0].ret
		default:
			if v, ok := in.(ssa.Value); ok && skip[v] {
				continue
			}
			if outs, ok := e.simple(fr, st, in); !ok || outs != nil {
				unsupported("loop header in %s", fr.fn)
			}
		}
	}
}

func fitTuple(next *ssa.Next, tu []*Term, m *types.Map) []*Term {
	// tuple (ok bool, k K, v V) where unused components have invalid type
	tt := next.Type().(*types.Tuple)
	out := []*Term{tu[0]}
	nk := len(leaves(m.Key()))
	if validT(tt.At(1).Type()) {
		out = append(out, tu[1:1+nk]...)
	} else {
		out = append(out, zeroVal(tt.At(1).Type())...)
	}
	if validT(tt.At(2).Type()) {
		out = append(out, tu[1+nk:]...)
	} else {
		out = append(out, zeroVal(tt.At(2).Type())...)
	}
	return out
}
func validT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return !ok || b.Kind() != types.Invalid
}

func concreteDom(d *Term) ([]*Term, bool) {
	var ks []*Term
	for d.Op == "store" {
		if d.Args[2] != True || !d.Args[1].isConst() {
			return nil, false
		}
		ks = append(ks, d.Args[1])
		d = d.Args[0]
	}
	return ks, d.Op == "constarr" && d.Args[0] == False && len(ks) <= 16
}

func (e *Exec) concreteMap(fr *Frame, st *State, li *loopInfo, next *ssa.Next, mt types.Type, ref *Term, ks []*Term, bodyB, exitB *ssa.BasicBlock) []Outcome {
	m := under(mt).(*types.Map)
	type item struct {
		fr *Frame
		st *State
	}
	cur := []item{{fr, st}}
	var res []Outcome
	for _, k := range ks {
		var nxt []item
		for _, c := range cur {
			v, _ := e.mapLookup(c.st.heap, mt, ref, k)
			tu := append([]*Term{True}, append(keyUnpack(m.Key(), k), v...)...)
			c.fr.env[next] = fitTuple(next, tu, m)
			e.headerRest(c.fr, c.st, li, nil)
			e.loops = append(e.loops, &loopCtx{fn: fr.fn, header: li.header, body: li.body})
			outs := e.runBlock(c.fr, c.st, bodyB, li.header)
			e.loops = e.loops[:len(e.loops)-1]
			for _, o := range outs {
				switch {
				case o.back == li.header:
					e.doPhis(o.fr, li.header, o.from)
					nxt = append(nxt, item{o.fr, o.st})
				case o.back != nil:
					res = append(res, e.runBlock(o.fr, o.st, o.back, o.from)...)
				default:
					res = append(res, o)
				}
			}
		}
		cur = nxt
	}
	for _, c := range cur {
		tu := append([]*Term{False}, append(zeroVal(m.Key()), zeroVal(m.Elem())...)...)
		c.fr.env[next] = fitTuple(next, tu, m)
		res = append(res, e.afterHeader(c.fr, c.st, li, next, exitB)...)
	}
	return res
}

func (e *Exec) afterHeader(fr *Frame, st *State, li *loopInfo, next *ssa.Next, exitB *ssa.BasicBlock) []Outcome {
	e.headerRest(fr, st, li, nil)
	return e.runBlock(fr, st, exitB, li.header)
}

// seqWithLen finds the structured sequence whose length bounds the loop.
func (e *Exec) seqWithLen(st *State, fr *Frame, li *loopInfo, hi *Term) (*Seq, int64) {
	if hi.Op == "bv" {
		return nil, 0
	}
	// candidates: slices indexed in the body
	for b := range li.body {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			v, ok := fr.env[ia.X]
			if !ok {
				v, ok = e.peekLoad(fr, st, ia.X)
			}
			if !ok || len(v) != 4 {
				continue
			}
			if v[0].Op == "int" && v[1].Op == "bv" && v[1].N == 0 && v[2] == hi {
				if sq, ok := st.seqs[int64(v[0].N)]; ok && seqLen(sq) == hi {
					return sq, int64(v[0].N)
				}
			}
		}
	}
	return nil, 0
}

// overSegments iterates over the segments of a structured sequence.
func (e *Exec) overSegments(fr *Frame, st *State, li *loopInfo, phi *ssa.Phi, ivar ssa.Value, sq *Seq, arr int64, n int, bodyB, exitB *ssa.BasicBlock) []Outcome {
	if n == len(sq.Segs) {
		e.setInd(fr, st, li, phi, ivar, seqLen(sq), 1)
		e.headerRest(fr, st, li, map[ssa.Value]bool{ivar: true})
		return e.runBlock(fr, st, exitB, li.header)
	}
	seg := sq.Segs[n]
	cont := func(fr *Frame, st *State) []Outcome {
		return e.overSegments(fr, st, li, phi, ivar, sq, arr, n+1, bodyB, exitB)
	}
	idx := Fresh("pos", SBV(64))
	if n == 0 && seg.Single != nil && !sq.Perm {
		idx = BV64(0)
	}
	bind := func(fr *Frame, st *State, el []*Term) {
		st.elemOf[fmt.Sprintf("%d#%d", arr, idx.id)] = el
		st.assume(And(Not(Op("bvslt", SBool, "", idx, BV64(0))), Op("bvslt", SBool, "", idx, seqLen(sq))))
		if n > 0 {
			st.assume(Op("bvslt", SBool, "", BV64(0), idx))
		}
		e.setInd(fr, st, li, phi, ivar, idx, 1)
	}
	switch {
	case seg.Single != nil:
		bind(fr, st, seg.Single)
		e.headerRest(fr, st, li, map[ssa.Value]bool{ivar: true})
		e.loops = append(e.loops, &loopCtx{fn: fr.fn, header: li.header, body: li.body})
		outs := e.runBlock(fr, st, bodyB, li.header)
		e.loops = e.loops[:len(e.loops)-1]
		var res []Outcome
		for _, o := range outs {
			switch {
			case o.back == li.header:
				e.doPhis(o.fr, li.header, o.from)
				res = append(res, cont(o.fr, o.st)...)
			case o.back != nil:
				res = append(res, e.runBlock(o.fr, o.st, o.back, o.from)...)
			default:
				res = append(res, o)
			}
		}
		return res
	case seg.Enum != nil:
		en := seg.Enum
		k := Fresh("k", en.Binder.Sort)
		k.old = k.Sort == SInt
		m := map[*Term]*Term{en.Binder: k}
		var el []*Term
		for _, x := range en.Elem {
			el = append(el, Subst(x, m))
		}
		set := LambdaOver(k, And(Subst(en.Dom.contains(en.Binder), m), Subst(en.Guard, m)))
		it := &iteration{binder: k, dom: Domain{Set: set}, sorted: en.Sorted && !sq.Perm && len(sq.Segs) == 1, pos: idx}
		if en.Dom.Set == nil {
			it.dom = Domain{Lo: en.Dom.Lo, Hi: en.Dom.Hi, Guard: Subst(en.Guard, m)}
		}
		it.setup = func(fr *Frame, st *State) {
			st.assume(it.dom.contains(k))
			if it.dom.Guard != nil {
				st.assume(it.dom.Guard)
			}
			bind(fr, st, el)
		}
		return e.iterate(fr, st, li, it, bodyB, phi, cont)
	case seg.Heap != nil:
		h := seg.Heap
		i := Fresh("i", SBV(64))
		it := &iteration{binder: i, dom: Domain{Lo: BV64(0), Hi: h.Len}, order: !sq.Perm}
		it.setup = func(fr *Frame, st *State) {
			st.assume(it.dom.contains(i))
			bind(fr, st, e.elemAt(st, h.Heap, []*Term{h.Arr, h.Off, h.Len, h.Len}, sq.Elem, i))
		}
		return e.iterate(fr, st, li, it, bodyB, phi, cont)
	}
	unsupported("sequence segment")
	return nil
}

func (e *Exec) runIteration(fr *Frame, st *State, li *loopInfo, it *iteration, bodyB, exitB *ssa.BasicBlock, phi *ssa.Phi, step int64) []Outcome {
	var skip map[ssa.Value]bool
	if phi != nil {
		skip = map[ssa.Value]bool{}
		for _, in := range li.header.Instrs {
			if b, ok := in.(*ssa.BinOp); ok && b.X == ssa.Value(phi) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && b.Op == token.ADD {
					skip[b] = true
				}
			}
		}
	}
	return e.iterate2(fr, st, li, it, bodyB, phi, skip, func(fr *Frame, st *State) []Outcome {
		it.final(fr, st)
		e.headerRest(fr, st, li, skip)
		return e.runBlock(fr, st, exitB, li.header)
	})
}

func (e *Exec) iterate(fr *Frame, st *State, li *loopInfo, it *iteration, bodyB *ssa.BasicBlock, phi *ssa.Phi, cont func(*Frame, *State) []Outcome) []Outcome {
	skip := map[ssa.Value]bool{}
	if phi != nil {
		for _, in := range li.header.Instrs {
			if b, ok := in.(*ssa.BinOp); ok && b.X == ssa.Value(phi) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && b.Op == token.ADD {
					skip[b] = true
				}
			}
		}
	}
	return e.iterate2(fr, st, li, it, bodyB, phi, skip, cont)
}

type bodyRun struct {
	o     Outcome
	guard *Term // path condition relative to the loop entry
	nev   int
	nst   int
}

// iterate2 runs the body once for an arbitrary element and generalises.
func (e *Exec) iterate2(fr *Frame, st *State, li *loopInfo, it *iteration, bodyB *ssa.BasicBlock, ind *ssa.Phi, skip map[ssa.Value]bool, cont func(*Frame, *State) []Outcome) []Outcome {
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p != ind {
			phis = append(phis, p)
		}
	}
	// run executes the body from the given heap with accumulators acc.
	var cells []*sliceCell
	run := func(heap map[string]*Term, acc map[*ssa.Phi][]*Term) ([]bodyRun, *State) {
		s2 := st.clone()
		f2 := fr.clone()
		s2.heap = copyHeap(heap)
		for _, c := range cells {
			s2.seqs[int64(c.acc[0].N)] = &Seq{Elem: c.elem, Segs: []Seg{{Acc: true}}}
			s2.fresh[int64(c.acc[0].N)] = &freshObj{T: types.NewSlice(c.elem), Owned: true}
		}
		for p, v := range acc {
			f2.env[p] = v
			if sl, ok := under(p.Type()).(*types.Slice); ok && v[0].Op == "int" && int64(v[0].N) >= FreshBase {
				s2.seqs[int64(v[0].N)] = &Seq{Elem: sl.Elem(), Segs: []Seg{{Acc: true}}}
				s2.fresh[int64(v[0].N)] = &freshObj{T: p.Type(), Owned: true}
			}
		}
		it.setup(f2, s2)
		e.headerRest(f2, s2, li, skip)
		for _, k := range e.keeps(fr, s2) {
			s2.assume(k.t)
		}
		base := len(s2.pc)
		e.loops = append(e.loops, &loopCtx{fn: fr.fn, header: li.header, body: li.body})
		outs := e.runBlock(f2, s2, bodyB, li.header)
		e.loops = e.loops[:len(e.loops)-1]
		var rs []bodyRun
		for _, o := range outs {
			g := True
			if len(o.st.pc) > base {
				g = And(o.st.pc[base:]...)
			}
			rs = append(rs, bodyRun{o: o, guard: g})
		}
		return rs, s2
	}
	for _, k := range e.keeps(fr, st) {
		e.raise(st, "keeps:"+k.name, "loop invariant holds at first: "+k.text, e.pos(li.header.Instrs[0].Pos()), k.t)
	}
	savedRaise := e.raise
	// pass 1: find what changes
	acc := map[*ssa.Phi][]*Term{}
	for _, p := range phis {
		acc[p] = e.accFor(st, fr, p)
	}
	e.raise = func(st *State, name, what, pos string, goal *Term) {}
	rs, _ := run(st.heap, acc)
	e.raise = savedRaise
	changed := map[string]bool{}
	for _, r := range rs {
		for k, v := range r.o.st.heap {
			if o, ok := st.heap[k]; ok && o != v {
				changed[k] = true
			} else if !ok && v.Op != "var" {
				changed[k] = true
			}
		}
		for n, sq := range r.o.st.seqs {
			if o, ok := st.seqs[n]; ok && o != sq {
				unsupported("sequence changed in place inside a loop in %s", fr.fn)
			}
		}
	}
	// ignore changes confined to objects allocated inside the body
	allocBefore := allocSeq
	heapP := copyHeap(st.heap)
	ph := map[string]*Term{}
	for k := range changed {
		var srt Sort
		for _, r := range rs {
			if v, ok := r.o.st.heap[k]; ok {
				srt = v.Sort
			}
		}
		orig, ok := st.heap[k]
		if !ok {
			_, vs := arrParts(srt)
			orig = e.heapGet(st.heap, k, vs)
		}
		v := Fresh("P:"+k, srt)
		v.old = orig.old
		ph[k] = v
		heapP[k] = v
	}
	cells = e.sliceCells(st, rs, changed)
	for _, c := range cells {
		for i, k := range c.keys {
			delete(ph, k)
			orig, ok := st.heap[k]
			if !ok {
				_, vs := arrParts(heapP[k].Sort)
				orig = e.heapGet(st.heap, k, vs)
			}
			c.init = append(c.init, Select(orig, c.ref))
			heapP[k] = Store(orig, c.ref, c.acc[i])
		}
	}
	acc2 := map[*ssa.Phi][]*Term{}
	for _, p := range phis {
		acc2[p] = e.accFor(st, fr, p)
	}
	// what provably has its first value again whenever the loop goes on keeps
	// it (found by assuming so for as much as possible)
	same, sameAcc := map[string]*Term{}, map[*ssa.Phi][]*Term{}
	if canLeave(rs, li) {
		for k := range ph {
			if o, ok := st.heap[k]; ok {
				same[k] = o
			}
		}
		for _, p := range phis {
			if _, ok := under(p.Type()).(*types.Slice); !ok {
				sameAcc[p] = e.val(fr, p)
			}
		}
	}
	var backs, exits []bodyRun
	for {
		h, a := copyHeap(heapP), map[*ssa.Phi][]*Term{}
		for k, v := range same {
			h[k] = v
		}
		for p, v := range acc2 {
			a[p] = v
			if s, ok := sameAcc[p]; ok {
				a[p] = s
			}
		}
		it.mark = varCount
		rs, _ = run(h, a)
		backs, exits = nil, nil
		for _, r := range rs {
			if r.o.back == li.header {
				backs = append(backs, r)
			} else {
				exits = append(exits, r)
			}
		}
		n := len(same) + len(sameAcc)
		for _, r := range backs {
			for k, v := range same {
				if !e.sameArray(r.o.st, r.o.st.heap[k], v) {
					delete(same, k)
				}
			}
			for p, v := range sameAcc {
				for i, pr := range li.header.Preds {
					if pr != r.o.from {
						continue
					}
					for j, x := range e.val(r.o.fr, p.Edges[i]) {
						if x != v[j] && e.feasible(r.o.st, Not(Eq(x, v[j]))) {
							delete(sameAcc, p)
							break
						}
					}
				}
			}
		}
		if len(same)+len(sameAcc) == n {
			break
		}
	}
	for k, v := range same {
		delete(ph, k)
		for _, r := range backs {
			r.o.st.heap[k] = v
		}
	}
	for p := range sameAcc {
		delete(acc2, p)
	}
	_ = allocBefore
	for _, r := range backs {
		for _, k := range e.keeps(fr, r.o.st) {
			e.raise(r.o.st, "keeps:"+k.name, "loop invariant is kept: "+k.text, e.pos(li.header.Instrs[0].Pos()), k.t)
		}
	}
	// locks must balance across an iteration
	for _, r := range backs {
		if len(r.o.st.held) != len(st.held) {
			savedRaise(r.o.st, "lock-in-loop", "an iteration ends holding different locks than it started with", e.pos(li.header.Instrs[0].Pos()), False)
		}
	}
	res := st
	// rewriting of placeholders that read at the binder: earlier iterations
	// cannot have touched the binder's own entry
	rewrite := e.placeholderRewrite(it, ph, st)
	base := func(t *Term) *Term { return rewrite(t) }

	// guards must not depend on accumulators
	accVars := map[*Term]bool{}
	for _, v := range acc2 {
		for _, x := range v {
			if x.Op == "var" {
				accVars[x] = true
			}
		}
	}
	for _, c := range cells {
		for _, x := range c.acc {
			if x.Op == "int2bv" {
				accVars[x.Args[0]] = true
			}
		}
	}
	depends := func(t *Term) bool {
		for v := range accVars {
			if mentions(t, v) {
				return true
			}
		}
		for _, v := range ph {
			if mentions(t, v) {
				return true
			}
		}
		return false
	}
	for i := range backs {
		backs[i].guard = base(backs[i].guard)
	}
	for i := range exits {
		exits[i].guard = base(exits[i].guard)
	}

	// --- loops that can stop early ---
	if len(exits) > 0 {
		return e.searchLoop(fr, st, li, it, backs, exits, ph, acc2, base, depends, cont)
	}

	out := res
	// every iteration took one of the paths (says something only when inner
	// loops found elements)
	{
		var gs []*Term
		inner := false
		for _, r := range backs {
			g := e.generalise(it, st, r.guard)
			inner = inner || g != r.guard && strings.Contains(fullString(g), "each/1:i!")
			gs = append(gs, g)
		}
		dom := it.dom.contains(it.binder)
		if it.dom.Guard != nil {
			dom = And(dom, it.dom.Guard)
		}
		if g := Or(gs...); inner && !depends(g) {
			out.assume(ForallOver(it.binder, Implies(dom, g)))
		}
	}
	base = e.carried(fr, st, li, it, backs, ph, acc2, base, depends)
	// events
	e.foldEvents(out, st, it, backs, base, depends)
	// steps taken in iterations on shared regions
	for _, r := range backs {
		for _, s := range r.o.st.steps[len(st.steps):] {
			if s.Reg != nil {
				out.steps = append(out.steps, &Step{Reg: s.Reg, Obj: s.Obj, Pre: s.Pre, Post: s.Post, Kind: "in a loop: " + s.Kind, Local: s.Local, NEvent: s.NEvent, Pos: s.Pos, InLoop: true})
			}
		}
	}
	// heap
	newHeap := e.foldHeap(st, fr, it, backs, ph, base, depends)
	// accumulators
	nf := fr
	newAcc := map[*ssa.Phi][]*Term{}
	for _, p := range phis {
		if _, ok := sameAcc[p]; ok {
			continue
		}
		newAcc[p] = e.foldPhi(out, st, nf, li, it, p, acc2[p], backs, base, depends)
	}
	for _, c := range cells {
		for _, r := range backs {
			for _, k := range c.keys {
				h := r.o.st.heap[k]
				for h.Op == "store" && h.Args[1] == c.ref {
					h = h.Args[0]
				}
				o := st.heap[k]
				for o.Op == "store" && o.Args[1] == c.ref {
					o = o.Args[0]
				}
				if h != o {
					unsupported("several slices change in a loop (%s)", k)
				}
			}
		}
		v := e.foldSlice(out, st, it, c.elem, c.init, c.acc, backs, func(r bodyRun) []*Term {
			var v []*Term
			for _, k := range c.keys {
				v = append(v, Select(r.o.st.heap[k], c.ref))
			}
			return v
		}, base, depends, fr)
		for i, k := range c.keys {
			newHeap[k] = Store(st.heap[k], c.ref, v[i])
		}
	}
	out.heap = newHeap
	for _, k := range e.keeps(fr, out) {
		out.assume(k.t)
	}
	for p, v := range newAcc {
		nf.env[p] = v
	}
	for _, r := range backs {
		out.notes = append(out.notes, r.o.st.notes[len(st.notes):]...)
		for k, v := range r.o.st.owned {
			if out.owned == nil {
				out.owned = map[*Term]*Term{}
			}
			out.owned[k] = v
		}
	}
	return cont(nf, out)
}

// accFor makes the accumulator placeholder of a loop-carried value.
// canLeave: some path of the body ends the loop.
func canLeave(rs []bodyRun, li *loopInfo) bool {
	for _, r := range rs {
		if r.o.back != li.header {
			return true
		}
	}
	return false
}

// sameArray: whatever was stored is what was there before.
func (e *Exec) sameArray(st *State, v, old *Term) bool {
	for v != old {
		if v == nil || v.Op != "store" {
			return false
		}
		x := Select(old, v.Args[1])
		if x != v.Args[2] && e.feasible(st, Not(Eq(x, v.Args[2]))) {
			return false
		}
		v = v.Args[0]
	}
	return true
}

func (e *Exec) accFor(st *State, fr *Frame, p *ssa.Phi) []*Term {
	if sl, ok := under(p.Type()).(*types.Slice); ok {
		_ = sl
		allocSeq++
		n := Fresh("acclen", SInt)
		return []*Term{IntT(allocSeq), BV64(0), I2BV(n), I2BV(Fresh("acccap", SInt))}
	}
	return freshVal("acc:"+p.Name(), p.Type())
}

// placeholderRewrite replaces reads of a changing map (or array) at the
// binder by reads of its contents before the loop.
func (e *Exec) placeholderRewrite(it *iteration, ph map[string]*Term, st *State) func(*Term) *Term {
	cache := map[*Term]*Term{}
	var walk func(t *Term) *Term
	rev := map[*Term]string{}
	for k, v := range ph {
		rev[v] = k
	}
	walk = func(t *Term) *Term {
		if r, ok := cache[t]; ok {
			return r
		}
		r := t
		if t.Op == "select" && t.Args[1] == it.binder && t.Args[0].Op == "select" {
			if k, ok := rev[t.Args[0].Args[0]]; ok && strings.HasPrefix(k, "map:") {
				if it.rewrote == nil {
					it.rewrote = map[string]bool{}
				}
				it.rewrote[k] = true
				r = Select(Select(st.heap[k], walk(t.Args[0].Args[1])), it.binder)
				cache[t] = r
				return r
			}
		}
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = walk(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
		cache[t] = r
		return r
	}
	return walk
}

func bodyAllocated(t *Term, before map[int64]*freshObj) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "int" && int64(t.N) > FreshBase {
			if _, ok := before[int64(t.N)]; !ok {
				return true
			}
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// generalise turns what a body finds out anew in every iteration (results of
// calls, clock reads, elements found by inner loops, states left by others)
// into functions of the binder.
func (e *Exec) generalise(it *iteration, st *State, t *Term) *Term {
	cache := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := cache[t]; ok {
			return r
		}
		r := t
		switch {
		case t.Op == "var":
			if t != it.binder && t != it.pos && !it.keep[t] && varSeq[t.S] > it.mark && !placeholder(t.S) {
				it.make("each/1:" + t.S)
				r = UF("each/1:"+t.S, t.Sort, it.binder)
				r.old = t.old
			}
		case len(t.Args) > 0:
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = walk(a)
				ch = ch || args[i] != a
			}
			name := ""
			if t.Op == "uf" && (strings.HasPrefix(t.S, "each/") || strings.HasPrefix(t.S, "clo:alloc")) {
				// already a function of an inner loop's binder
				if strings.HasPrefix(t.S, "each/") {
					if b := t.S[strings.Index(t.S, ":")+1:]; varSeq[b] > it.mark {
						name = fmt.Sprintf("each/%d:%s", len(args)+1, b)
					}
				} else {
					b := strings.SplitN(strings.TrimPrefix(t.S, "clo:alloc"), "/", 2)[0]
					n, err := strconv.ParseInt(b, 10, 64)
					if _, ok := st.fresh[n]; err == nil && !ok {
						name = fmt.Sprintf("clo:alloc%d/%d", n, len(args)+1)
					}
				}
			}
			if name != "" && !it.made[t.S] {
				it.make(name)
				if q, ok := e.iterSeqs[t.S]; ok && e.iterSeqs[name] == nil {
					q2 := &iterSeq{binders: append([]*Term{it.binder}, q.binders...)}
					e.iterSeqs[name] = q2
					for _, x := range q.elems {
						var y []*Term
						for _, v := range x {
							y = append(y, walk(v))
						}
						q2.elems = append(q2.elems, y)
					}
				}
				r = UF(name, t.Sort, append([]*Term{it.binder}, args...)...)
				r.old = t.old
			} else if ch {
				r = rebuild(t, args)
			}
		}
		cache[t] = r
		return r
	}
	return walk(t)
}

func (it *iteration) make(name string) {
	if it.made == nil {
		it.made = map[string]bool{}
	}
	it.made[name] = true
}

func placeholder(n string) bool {
	for _, p := range []string{"P:", "acc!", "acclen!", "acccap!", "carried!"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (s *State) mentionsVar(v *Term) bool {
	for _, p := range s.pc {
		if mentions(p, v) {
			return true
		}
	}
	for _, h := range s.heap {
		if mentions(h, v) {
			return true
		}
	}
	return false
}

func (e *Exec) foldEvents(out, st *State, it *iteration, backs []bodyRun, base func(*Term) *Term, depends func(*Term) bool) {
	n0 := len(st.events)
	var items []*Event
	for _, r := range backs {
		for _, ev := range r.o.st.events[n0:] {
			if ev.Rep != nil {
				unsupported("a retry loop with calls inside a loop")
			}
			c := *ev
			c.Guard = And(ev.Guard, e.generalise(it, st, r.guard))
			if depends(c.Guard) {
				// for any of the elements
				havocSeq++
				c.Guard = AbsUF("loopguard", SBool, IntT(int64(havocSeq)), it.binder)
			}
			fix := func(t *Term) *Term {
				if t == nil {
					return nil
				}
				t = e.generalise(it, st, base(t))
				if bodyAllocated(t, st.fresh) {
					t = e.perIteration(it, st, t)
				}
				if depends(t) {
					havocSeq++
					t = AbsUF("looparg:"+t.Sort, t.Sort, IntT(int64(havocSeq)), it.binder)
				}
				return t
			}
			var deep func(c *Event)
			deep = func(c *Event) {
				c.Fn = fix(c.Fn)
				for _, a := range c.Args {
					e.rememberSeq(it, st, r.o.st, a, fix)
				}
				var as, rs []*Term
				for _, a := range c.Args {
					as = append(as, fix(a))
				}
				for _, r := range c.Res {
					rs = append(rs, e.generalise(it, st, base(r)))
				}
				c.Args, c.Res = as, rs
				if c.Each != nil {
					fe := *c.Each
					if it.keep == nil {
						it.keep = map[*Term]bool{}
					}
					it.keep[fe.Binder] = true
					fe.Dom.Set, fe.Dom.Lo, fe.Dom.Hi, fe.Dom.Guard = fix(fe.Dom.Set), fix(fe.Dom.Lo), fix(fe.Dom.Hi), fix(fe.Dom.Guard)
					fe.Items = nil
					for _, x := range c.Each.Items {
						y := *x
						y.Guard = fix(y.Guard)
						deep(&y)
						fe.Items = append(fe.Items, &y)
					}
					c.Each = &fe
				}
			}
			deep(&c)
			items = append(items, &c)
		}
	}
	// identical events on several paths of the body merge their guards
	var merged []*Event
	for _, ev := range items {
		done := false
		for _, m := range merged {
			if sameEvent(m, ev) {
				m.Guard = Or(m.Guard, ev.Guard)
				done = true
				break
			}
		}
		if !done {
			merged = append(merged, ev)
		}
	}
	if len(merged) > 0 {
		fe := &ForEach{Dom: it.dom, Binder: it.binder, Items: merged, Ordered: it.order}
		out.events = append(append([]*Event{}, st.events...), &Event{Name: "foreach", Each: fe, Guard: True})
		if len(merged) > 0 {
			for _, a := range merged {
				e.publish(out, a.Args...)
			}
		}
	}
}

func sameEvent(a, b *Event) bool {
	if a.Name != b.Name || a.Fn != b.Fn || len(a.Args) != len(b.Args) || a.Each != nil || b.Each != nil {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	return true
}

// perIteration turns references allocated in the body into functions of the
// binder.
func (e *Exec) perIteration(it *iteration, st *State, t *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "int" && int64(t.N) > FreshBase {
			if _, ok := st.fresh[int64(t.N)]; !ok {
				it.make(fmt.Sprintf("clo:alloc%d", t.N))
				m[t] = UF(fmt.Sprintf("clo:alloc%d", t.N), SInt, it.binder)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return Subst(t, m)
}

// iterSeq is a slice with known elements made anew in every iteration.
type iterSeq struct {
	binders []*Term
	elems   [][]*Term
}

// rememberSeq keeps the elements of a slice made in the body of a loop.
func (e *Exec) rememberSeq(it *iteration, st, body *State, a *Term, fix func(*Term) *Term) {
	if a.Op != "int" || int64(a.N) <= FreshBase {
		return
	}
	if _, ok := st.fresh[int64(a.N)]; ok {
		return
	}
	sq, ok := body.seqs[int64(a.N)]
	if !ok || sq == nil {
		return
	}
	q := &iterSeq{binders: []*Term{it.binder}}
	for _, s := range sq.Segs {
		if s.Single == nil {
			return
		}
		var x []*Term
		for _, v := range s.Single {
			x = append(x, fix(v))
		}
		q.elems = append(q.elems, x)
	}
	if e.iterSeqs == nil {
		e.iterSeqs = map[string]*iterSeq{}
	}
	e.iterSeqs[fmt.Sprintf("clo:alloc%d", a.N)] = q
}

// iterSegs: the elements of such a slice.
func (e *Exec) iterSegs(sl []*Term) ([]Seg, bool) {
	if sl[0].Op != "uf" || len(sl) < 3 {
		return nil, false
	}
	q := e.iterSeqs[sl[0].S]
	if q == nil || len(q.binders) != len(sl[0].Args) || sl[1].Op != "bv" || sl[1].N != 0 || sl[2].Op != "bv" || sl[2].Int() != int64(len(q.elems)) {
		return nil, false
	}
	m := map[*Term]*Term{}
	for i, b := range q.binders {
		m[b] = sl[0].Args[i]
	}
	var out []Seg
	for _, x := range q.elems {
		out = append(out, Seg{Single: substAll(x, m)})
	}
	return out, true
}

func (e *Exec) domSet(it *iteration, guard *Term) *Term {
	g := And(it.dom.contains(it.binder), guard)
	if it.dom.Guard != nil {
		g = And(g, it.dom.Guard)
	}
	return LambdaOver(it.binder, g)
}

// foldHeap summarises heap changes.
func (e *Exec) foldHeap(st *State, fr *Frame, it *iteration, backs []bodyRun, ph map[string]*Term, base func(*Term) *Term, depends func(*Term) bool) map[string]*Term {
	out := copyHeap(st.heap)
	var keys []string
	for k := range ph {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// updates per back edge: list of (ref, inner)
	type upd struct {
		ref, inner, guard *Term
	}
	var upds []upd
	collected := false
	fold1 := func(k string) {
		orig := st.heap[k]
		P := ph[k]
		upds, collected = nil, false
		for _, r := range backs {
			v := r.o.st.heap[k]
			for v != P {
				if v.Op != "store" {
					unsupported("heap change in a loop (%s)", k)
				}
				ref, val := v.Args[1], v.Args[2]
				if ref.Op == "int" && int64(ref.N) > FreshBase {
					if _, ok := st.fresh[int64(ref.N)]; !ok {
						v = v.Args[0]
						continue // object private to the iteration
					}
				}
				upds = append(upds, upd{ref, val, r.guard})
				v = v.Args[0]
			}
		}
		collected = true
		if len(upds) == 0 {
			return
		}
		ref := upds[0].ref
		for _, u := range upds {
			if u.ref != ref {
				unsupported("several objects change in a loop (%s)", k)
			}
		}
		if mentions(ref, it.binder) {
			// one object per element: obj.field = value
			unsupported("per-element objects change in a loop (%s)", k)
		}
		before := Select(orig, ref)
		inner := Select(P, ref)
		if !isArr(before.Sort) {
			// a scalar accumulator in memory
			var parts []guardedVal
			for _, u := range upds {
				parts = append(parts, guardedVal{u.guard, u.inner})
			}
			out[k] = Store(orig, ref, e.foldScalar(st, it, inner, before, parts, backs, base, depends))
			return
		}
		// a map or array: stores at keys
		type entry struct{ key, val, guard *Term }
		var ents []entry
		for _, u := range upds {
			for v := u.inner; v != inner; v = v.Args[0] {
				if v.Op != "store" || v.Args[0] != inner && v.Args[0].Op != "store" {
					unsupported("map change in a loop (%s)", k)
				}
				kk, vv := e.generalise(it, st, base(elsewhere(v.Args[1], P, orig, ref))), e.generalise(it, st, base(elsewhere(v.Args[2], P, orig, ref)))
				if depends(kk) || depends(vv) {
					unsupported("map entries written in a loop depend on earlier iterations (%s)", k)
				}
				if bodyAllocated(vv, st.fresh) {
					vv = e.perIteration(it, st, vv)
				}
				g := e.generalise(it, st, elsewhere(u.guard, P, orig, ref))
				if depends(g) {
					unsupported("map changes in a loop depend on earlier iterations (%s)", k)
				}
				merged := false
				for i := range ents {
					if ents[i].key == kk { // another path of the same iteration
						ents[i].val = Ite(ents[i].guard, ents[i].val, vv)
						ents[i].guard = Or(ents[i].guard, g)
						merged = true
					}
				}
				if !merged {
					ents = append(ents, entry{kk, vv, g})
				}
			}
		}
		if len(ents) != 1 {
			unsupported("a loop writes several entries of one map (%s)", k)
		}
		kk, vv, g := ents[0].key, ents[0].val, ents[0].guard
		b := Fresh("x", arrKey(before.Sort))
		elem := And(it.dom.contains(it.binder), g)
		if it.dom.Guard != nil {
			elem = And(elem, it.dom.Guard)
		}
		var cur *Term
		if kk == it.binder {
			m := map[*Term]*Term{it.binder: b}
			cur = LambdaOver(b, Ite(Subst(elem, m), Subst(vv, m), Select(before, b)))
		} else {
			if it.rewrote[k] {
				unsupported("a loop reads and writes other entries of one map (%s)", k)
			}
			// in(b): some element of the domain is mapped to b; then wit(b) is such
			// an element, the last one visited when the domain is an index range
			set, keyF := LambdaOver(it.binder, elem), LambdaOver(it.binder, kk)
			wsort := it.binder.Sort
			wit := UF("witness:"+set.Sort+keyF.Sort, wsort, set, keyF, b)
			m := map[*Term]*Term{it.binder: wit}
			q := Fresh("e", wsort)
			mq := map[*Term]*Term{it.binder: q}
			in := ExistsOver(q, And(Subst(elem, mq), Eq(Subst(kk, mq), b)))
			fact := And(Subst(elem, m), Eq(Subst(kk, m), b))
			if it.dom.Set == nil {
				later := Op("bvslt", SBool, "", wit, q)
				if it.dom.Rev {
					later = Op("bvslt", SBool, "", q, wit)
				}
				fact = And(fact, ForallOver(q, Implies(And(Subst(elem, mq), later), Ne(Subst(kk, mq), b))))
			}
			st.assume(ForallOver(b, Implies(in, fact)))
			cur = LambdaOver(b, Ite(in, Subst(vv, m), Select(before, b)))
		}
		out[k] = Store(orig, ref, cur)
	}
	for _, k := range keys {
		if why := attempt(func() { fold1(k) }); why != "" {
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "loop:", why)
			}
			// cannot be described: anything afterwards
			h := st.heap[k]
			for _, u := range upds {
				if mentions(u.ref, it.binder) || depends(u.ref) || bodyAllocated(u.ref, st.fresh) || bodyVars(u.ref, it) {
					h = nil
				}
				if h != nil {
					h = Store(h, u.ref, havocTerm(u.inner.Sort))
				}
			}
			if h == nil || !collected {
				h = havocTerm(ph[k].Sort)
			}
			out[k] = h
		}
	}
	return out
}

// elsewhere: what t reads of objects other than ref, the only one that
// changes, is what it was before the loop.
func elsewhere(t, now, before, ref *Term) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[0] == now && Eq(t.Args[1], ref) == False {
			m[t] = Select(before, t.Args[1])
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

func arrKey(s Sort) Sort { k, _ := arrParts(s); return k }

type guardedVal struct{ g, v *Term }

// foldScalar summarises acc' = f(acc, k).
func (e *Exec) foldScalar(st *State, it *iteration, acc, init *Term, parts []guardedVal, backs []bodyRun, base func(*Term) *Term, depends func(*Term) bool) *Term {
	// parts not covering a back edge mean "unchanged"
	f := acc
	for i := len(parts) - 1; i >= 0; i-- {
		f = Ite(e.generalise(it, st, base(parts[i].g)), e.generalise(it, st, base(parts[i].v)), f)
	}
	if f == acc {
		return init
	}
	return e.foldTerm(it, acc, init, f)
}

// carried finds the values each iteration leaves to the next one without
// looking at what it was left itself (c = f(x, c), where f is a call): what
// an iteration finds is then the first value or what the previous one left.
func (e *Exec) carried(fr *Frame, st *State, li *loopInfo, it *iteration, backs []bodyRun, ph map[string]*Term, acc map[*ssa.Phi][]*Term, base func(*Term) *Term, depends func(*Term) bool) func(*Term) *Term {
	if it.dom.Set != nil || it.dom.Guard != nil {
		return base
	}
	for _, r := range backs {
		if depends(e.generalise(it, st, r.guard)) {
			return base
		}
	}
	m := map[*Term]*Term{}
	add := func(acc, init, f *Term) {
		if f != acc && !depends(f) && !bodyAllocated(f, st.fresh) {
			m[acc] = it.dom.found(it.binder, init, f)
		}
	}
	for p, a := range acc {
		if _, ok := under(p.Type()).(*types.Slice); ok {
			continue
		}
		init := e.val(fr, p)
		for i := range a {
			f := a[i]
			for j := len(backs) - 1; j >= 0; j-- {
				for n, pr := range li.header.Preds {
					if pr == backs[j].o.from {
						f = Ite(e.generalise(it, st, backs[j].guard), e.generalise(it, st, base(e.val(backs[j].o.fr, p.Edges[n])[i])), f)
					}
				}
			}
			add(a[i], init[i], f)
		}
	}
	for k, P := range ph {
		var ref, f *Term
		ok := true
		for j := len(backs) - 1; j >= 0 && ok; j-- {
			v := backs[j].o.st.heap[k]
			for v.Op == "store" && v.Args[1].Op == "int" && int64(v.Args[1].N) > FreshBase {
				if _, was := st.fresh[int64(v.Args[1].N)]; was {
					break
				}
				v = v.Args[0]
			}
			if v == P {
				continue
			}
			if v.Op != "store" || v.Args[0] != P || mentions(v.Args[1], it.binder) || isArr(v.Args[2].Sort) || ref != nil && ref != v.Args[1] {
				ok = false
				break
			}
			if ref == nil {
				ref = v.Args[1]
				f = Select(P, ref)
			}
			f = Ite(e.generalise(it, st, backs[j].guard), e.generalise(it, st, base(v.Args[2])), f)
		}
		if ok && ref != nil {
			add(Select(P, ref), Select(st.heap[k], ref), f)
		}
	}
	if len(m) == 0 {
		return base
	}
	return func(t *Term) *Term { return Subst(base(t), m) }
}

// found is what an iteration finds when each leaves f to the next one.
func (d Domain) found(k, init, f *Term) *Term {
	first, prev := d.Lo, Op("bvsub", SBV(64), "", k, BV64(1))
	if d.Rev {
		first, prev = Op("bvsub", SBV(64), "", d.Hi, BV64(1)), Op("bvadd", SBV(64), "", k, BV64(1))
	}
	return Ite(Eq(k, first), init, Subst(f, map[*Term]*Term{k: prev}))
}

// left is what remains after the last iteration.
func (d Domain) left(k, init, f *Term) *Term {
	last := Op("bvsub", SBV(64), "", d.Hi, BV64(1))
	if d.Rev {
		last = d.Lo
	}
	return Ite(Op("bvslt", SBool, "", d.Lo, d.Hi), Subst(f, map[*Term]*Term{k: last}), init)
}

func (e *Exec) foldTerm(it *iteration, acc, init, f *Term) *Term {
	if it.dom.Set == nil && it.dom.Guard == nil && !mentions(f, acc) && !f.isConst() {
		return it.dom.left(it.binder, init, f)
	}
	// additive: f = acc + t(k)
	if isBV(acc.Sort) {
		if d, ok := addend(f, acc); ok {
			g := And(it.dom.contains(it.binder))
			if it.dom.Guard != nil {
				g = And(g, it.dom.Guard)
			}
			body := LambdaOver(it.binder, Ite(g, d, BV(bvWidth(acc.Sort), 0)))
			s := UF("sum:"+body.Sort, acc.Sort, body)
			return Op("bvadd", acc.Sort, "", init, s)
		}
	}
	if acc.Sort == SBool {
		// acc or t(k)
		x := Subst(f, map[*Term]*Term{acc: False})
		y := Subst(f, map[*Term]*Term{acc: True})
		if y == True {
			g := it.dom.contains(it.binder)
			if it.dom.Guard != nil {
				g = And(g, it.dom.Guard)
			}
			return Or(init, ExistsOver(it.binder, And(g, x)))
		}
		if x == y && x.isConst() {
			g := it.dom.contains(it.binder)
			if it.dom.Guard != nil {
				g = And(g, it.dom.Guard)
			}
			return Ite(ExistsOver(it.binder, g), x, init)
		}
	}
	if acc.Sort == SString && it.dom.Set == nil && !it.dom.Rev && it.dom.Lo.Op == "bv" && it.dom.Lo.N == 0 {
		if t, ok := e.byteMap(it, acc, init, f); ok {
			return t
		}
	}
	if acc.Sort == SString && it.dom.Set == nil && !it.dom.Rev && it.dom.Lo.Op == "bv" && it.dom.Lo.N == 0 && it.dom.Guard == nil {
		// acc ++ x(i), in order
		if x, ok := suffix(f, acc); ok {
			if !mentions(x, acc) {
				return Op("str.++", SString, "", init, concatTerm(it.binder, it.dom.Hi, x))
			}
		}
	}
	if acc.Sort == SString && it.sorted {
		if t, ok := e.joinSorted(it, acc, init, f); ok {
			return t
		}
	}
	if f.isConst() {
		g := it.dom.contains(it.binder)
		return Ite(ExistsOver(it.binder, g), f, init)
	}
	// a general fold, keyed by its body
	A := BoundVar(900, acc.Sort)
	B := BoundVar(901, it.binder.Sort)
	bodyT := Subst(f, map[*Term]*Term{acc: A, it.binder: B})
	if os.Getenv("GVC_FOLD") != "" {
		fmt.Fprintln(os.Stderr, "fold", fullString(bodyT))
	}
	h := sha256.Sum256([]byte(fullString(bodyT)))
	var caps []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "var" {
			caps = append(caps, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(bodyT)
	args := []*Term{init}
	if it.dom.Set != nil {
		args = append(args, it.dom.Set)
	} else {
		args = append(args, it.dom.Lo, it.dom.Hi)
	}
	args = append(args, caps...)
	kind := "fold"
	switch {
	case it.sorted:
		kind = "foldsorted"
	case it.dom.Set != nil:
		args = append(args, Fresh("order", SInt)) // some order, different every time
	case it.dom.Rev:
		kind = "foldrev"
	}
	return AbsUF(fmt.Sprintf("%s:%x", kind, h[:6]), acc.Sort, args...)
}

// joinSorted recognises acc ++ sep ++ x(k) for all but the first k and
// acc ++ x(k) for the first, over the keys of a set in increasing order.
func (e *Exec) joinSorted(it *iteration, acc, init, f *Term) (*Term, bool) {
	f = Subst(f, map[*Term]*Term{it.dom.contains(it.binder): True}) // only such keys matter
	at := func(n int64) *Term { return Subst(f, map[*Term]*Term{it.pos: BV64(n)}) }
	f0, f1, f2 := at(0), at(1), at(2)
	if f1 != f2 {
		return nil, false
	}
	parts := func(t *Term) []*Term {
		if t == acc {
			return []*Term{}
		}
		if t.Op == "str.++" && t.Args[0] == acc {
			return t.Args[1:]
		}
		return nil
	}
	p, q := parts(f0), parts(f1)
	if p == nil || q == nil {
		return nil, false
	}
	cat := func(a []*Term) *Term { return Op("str.++", SString, "", append([]*Term{StrT("")}, a...)...) }
	x, y := cat(p), cat(q)
	if mentions(x, acc) || mentions(y, acc) || mentions(x, it.pos) {
		return nil, false
	}
	sep := ""
	if x != y {
		if len(q) == 0 || q[0].Op != "str" {
			return nil, false
		}
		sep = q[0].S
		if len(p) > 0 && p[0].Op == "str" {
			if !strings.HasSuffix(sep, p[0].S) {
				return nil, false
			}
			sep = strings.TrimSuffix(sep, p[0].S)
		}
		if Op("str.++", SString, "", StrT(sep), x) != y {
			return nil, false
		}
	}
	return Op("str.++", SString, "", init, joinTerm(it.dom.Set, it.binder, x, sep)), true
}

// concatTerm is x(0) ++ ... ++ x(n-1).
// suffix is what f adds after acc.
func suffix(f, acc *Term) (*Term, bool) {
	switch {
	case f == acc:
		return StrT(""), true
	case f.Op == "str.++" && f.Args[0] == acc:
		return Op("str.++", SString, "", append([]*Term{StrT("")}, f.Args[1:]...)...), true
	case f.Op == "ite":
		a, ok1 := suffix(f.Args[1], acc)
		b, ok2 := suffix(f.Args[2], acc)
		if ok1 && ok2 {
			return Ite(f.Args[0], a, b), true
		}
	}
	return nil, false
}

func concatTerm(i, n, x *Term) *Term {
	in := And(Not(Op("bvslt", SBool, "", i, BV64(0))), Op("bvslt", SBool, "", i, n))
	return UF("concat", SString, LambdaOver(i, Ite(in, x, StrT(""))), n)
}

func joinTerm(set, k, x *Term, sep string) *Term {
	return UF("joinsorted:"+k.Sort, SString, set, LambdaOver(k, x), StrT(sep))
}

func fullString(t *Term) string {
	return t.str(1000)
}

func addend(f, acc *Term) (*Term, bool) {
	if f == acc {
		return BV(bvWidth(acc.Sort), 0), true
	}
	switch f.Op {
	case "ite":
		a, ok1 := addend(f.Args[1], acc)
		b, ok2 := addend(f.Args[2], acc)
		if ok1 && ok2 && !mentions(f.Args[0], acc) {
			return Ite(f.Args[0], a, b), true
		}
	case "bvadd":
		if !mentions(f.Args[1], acc) {
			if d, ok := addend(f.Args[0], acc); ok {
				return Op("bvadd", acc.Sort, "", d, f.Args[1]), true
			}
		}
		if !mentions(f.Args[0], acc) {
			if d, ok := addend(f.Args[1], acc); ok {
				return Op("bvadd", acc.Sort, "", d, f.Args[0]), true
			}
		}
	}
	return nil, false
}

// byteMap recognises acc ++ g(s[i]) over all bytes of a string s.
func (e *Exec) byteMap(it *iteration, acc, init, f *Term) (*Term, bool) {
	hi := BV2I(it.dom.Hi)
	if hi.Op != "str.len" {
		return nil, false
	}
	s := hi.Args[0]
	byteT := strByte(s, it.binder)
	charT := Op("str.at", SString, "", s, BV2I(it.binder))
	var tab []string
	for c := 0; c < 256; c++ {
		g := Subst(f, map[*Term]*Term{byteT: BV(8, uint64(c)), charT: StrT(string([]byte{byte(c)})), acc: StrT("")})
		if g.Op != "str" || mentions(g, it.binder) {
			return nil, false
		}
		tab = append(tab, g.S)
	}
	// f must append to acc
	g := Subst(f, map[*Term]*Term{byteT: BV(8, 'a'), charT: StrT("a")})
	if g.Op == "str.++" && g.Args[0] == acc || g == acc {
		return Op("str.++", SString, "", init, cmapTerm(tab, s)), true
	}
	return nil, false
}

func cmapTerm(tab []string, s *Term) *Term {
	h := sha256.Sum256([]byte(strings.Join(tab, "\x00")))
	name := fmt.Sprintf("cmap:%x", h[:6])
	cmapTables[name] = tab
	if s.Op == "str" {
		var b strings.Builder
		for i := 0; i < len(s.S); i++ {
			b.WriteString(tab[s.S[i]])
		}
		return StrT(b.String())
	}
	return UF(name, SString, s)
}

func (e *Exec) foldPhi(out, st *State, fr *Frame, li *loopInfo, it *iteration, p *ssa.Phi, acc []*Term, backs []bodyRun, base func(*Term) *Term, depends func(*Term) bool) []*Term {
	init := e.val(fr, p)
	edge := func(r bodyRun) []*Term {
		for i, pr := range li.header.Preds {
			if pr == r.o.from {
				return e.val(r.o.fr, p.Edges[i])
			}
		}
		panic("no edge")
	}
	if sl, ok := under(p.Type()).(*types.Slice); ok {
		return e.foldSlice(out, st, it, sl.Elem(), init, acc, backs, edge, base, depends, fr)
	}
	var res []*Term
	for i := range acc {
		f := acc[i]
		for j := len(backs) - 1; j >= 0; j-- {
			f = Ite(e.generalise(it, st, backs[j].guard), e.generalise(it, st, base(edge(backs[j])[i])), f)
		}
		if f == acc[i] {
			res = append(res, init[i])
			continue
		}
		res = append(res, e.foldTerm(it, acc[i], init[i], f))
	}
	return res
}

// searchLoop handles loops that may leave early: the leaving element is the
// first one (in iteration order) for which the exit guard holds.
func (e *Exec) searchLoop(fr *Frame, st *State, li *loopInfo, it *iteration, backs, exits []bodyRun, ph map[string]*Term, acc map[*ssa.Phi][]*Term, base func(*Term) *Term, depends func(*Term) bool, cont func(*Frame, *State) []Outcome) []Outcome {
	scratch := map[string]map[*Term]bool{}
	for _, r := range backs {
		for k, P := range ph {
			v := r.o.st.heap[k]
			for v.Op == "store" && v.Args[1].Op == "int" {
				if _, ok := st.fresh[int64(v.Args[1].N)]; ok {
					// a local variable: anything afterwards
					if scratch[k] == nil {
						scratch[k] = map[*Term]bool{}
					}
					scratch[k][v.Args[1]] = true
				}
				v = v.Args[0]
			}
			if v != P {
				unsupported("early exit from a loop that changes memory in %s (%s)", fr.fn, k)
			}
		}
		for p, a := range acc {
			for i, pr := range li.header.Preds {
				if pr == r.o.from {
					v := e.val(r.o.fr, p.Edges[i])
					for j := range v {
						if v[j] != a[j] {
							unsupported("early exit from a loop with accumulators in %s", fr.fn)
						}
					}
				}
			}
		}
	}
	var gs []*Term
	for _, r := range exits {
		g := e.generalise(it, st, r.guard)
		if depends(g) {
			unsupported("early exit depends on earlier iterations in %s", fr.fn)
		}
		gs = append(gs, g)
	}
	exitG := Or(gs...)
	dom := it.dom.contains(it.binder)
	if it.dom.Guard != nil {
		dom = And(dom, it.dom.Guard)
	}
	restore := map[*Term]*Term{}
	for k, P := range ph {
		orig, ok := st.heap[k]
		if !ok {
			_, vs := arrParts(P.Sort)
			orig = e.heapGet(st.heap, k, vs)
		}
		for ref := range scratch[k] {
			_, vs := arrParts(P.Sort)
			orig = Store(orig, ref, Fresh("scratch:"+k, vs))
		}
		restore[P] = orig
	}
	for p, a := range acc {
		init := e.val(fr, p)
		for i := range a {
			restore[a[i]] = init[i]
		}
	}
	var res []Outcome
	// leaving at element w
	for _, r := range exits {
		o := r.o
		s2 := o.st
		// path facts already contain the guard for this binder (used as witness)
		s2.pc = substAll(s2.pc, restore)
		for k := range s2.heap {
			s2.heap[k] = Subst(s2.heap[k], restore)
		}
		for v, t := range o.fr.env {
			o.fr.env[v] = substAll(t, restore)
		}
		o.ret = substAll(o.ret, restore)
		for i, ev := range s2.events {
			if i >= len(st.events) {
				c := *ev
				c.Args = substAll(c.Args, restore)
				s2.events[i] = &c
			}
		}
		if it.dom.Set == nil {
			j := Fresh("j", SBV(64))
			m := map[*Term]*Term{it.binder: j}
			var before *Term
			if it.dom.Rev {
				before = And(Op("bvslt", SBool, "", it.binder, j), Op("bvslt", SBool, "", j, it.dom.Hi))
			} else {
				before = And(Not(Op("bvslt", SBool, "", j, it.dom.Lo)), Op("bvslt", SBool, "", j, it.binder))
			}
			s2.assume(ForallOver(j, Implies(before, Not(Subst(exitG, m)))))
			// events of the iterations before
			mine := append([]*Event{}, s2.events[len(st.events):]...)
			tmp := st.clone()
			d := it.dom
			if d.Rev {
				d.Lo = Op("bvadd", SBV(64), "", it.binder, BV64(1))
			} else {
				d.Hi = it.binder
			}
			// a separate binder for the earlier iterations
			jb := Fresh("i", SBV(64))
			it2 := &iteration{binder: jb, dom: d, order: it.order, mark: it.mark, made: it.made, keep: it.keep}
			var bb []bodyRun
			for _, b := range backs {
				c := b
				mm := map[*Term]*Term{it.binder: jb}
				c.guard = Subst(b.guard, mm)
				ns := b.o.st.clone()
				for i := range ns.events {
					if i >= len(st.events) {
						ev := *ns.events[i]
						ev.Args = substAll(ev.Args, mm)
						ev.Res = substAll(ev.Res, mm)
						if ev.Fn != nil {
							ev.Fn = Subst(ev.Fn, mm)
						}
						ns.events[i] = &ev
					}
				}
				c.o.st = ns
				bb = append(bb, c)
			}
			e.foldEvents(tmp, st, it2, bb, base, depends)
			s2.events = append(append([]*Event{}, tmp.events...), mine...)
		} else if anyEvents(backs, len(st.events)) {
			unsupported("early exit from a map iteration with callbacks in %s", fr.fn)
		}
		if o.back != nil {
			res = append(res, e.runBlock(o.fr, s2, o.back, o.from)...)
		} else {
			o.st = s2
			res = append(res, o)
		}
	}
	// never leaving
	done := st
	done.heap = copyHeap(done.heap)
	for k := range scratch {
		done.heap[k] = restore[ph[k]]
	}
	e.foldEvents(done, st.clone(), it, backs, base, depends)
	done.assume(ForallOver(it.binder, Implies(dom, Not(exitG))))
	if e.feasible(done) {
		res = append(res, cont(fr, done)...)
	}
	return res
}

func anyEvents(rs []bodyRun, n int) bool {
	for _, r := range rs {
		if len(r.o.st.events) > n {
			return true
		}
	}
	return false
}

func substAll(ts []*Term, m map[*Term]*Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = Subst(t, m)
	}
	return out
}

// sliceCell is a slice variable in memory that a loop appends to.
type sliceCell struct {
	keys []string // #arr #off #len #cap
	ref  *Term
	elem types.Type
	init []*Term
	acc  []*Term
}

// sliceCells finds slice variables private to the function (captured by a
// closure, say) that change in a loop.
func (e *Exec) sliceCells(st *State, rs []bodyRun, changed map[string]bool) []*sliceCell {
	var out []*sliceCell
	for k := range changed {
		if !strings.HasSuffix(k, ".#arr") {
			continue
		}
		var ref *Term
		many := false
		for _, r := range rs {
			for v := r.o.st.heap[k]; v != nil && v.Op == "store" && v != st.heap[k]; v = v.Args[0] {
				if st.heap[k] != nil && Select(st.heap[k], v.Args[1]) == Select(r.o.st.heap[k], v.Args[1]) {
					continue
				}
				if ref == nil {
					ref = v.Args[1]
				}
				many = many || ref != v.Args[1]
			}
		}
		if many {
			continue
		}
		if ref == nil || !st.isLocal(ref) || ref.Op != "int" {
			continue
		}
		o := st.fresh[int64(ref.N)]
		if o == nil {
			continue
		}
		path, ok := strings.CutPrefix(strings.TrimSuffix(k, ".#arr"), typeKey(o.T))
		if !ok {
			continue
		}
		ft := typeAtPath(o.T, path)
		if ft == nil {
			continue
		}
		sl, ok := under(ft).(*types.Slice)
		if !ok {
			continue
		}
		c := &sliceCell{ref: ref, elem: sl.Elem()}
		p := strings.TrimSuffix(k, "#arr")
		for _, n := range []string{"#arr", "#off", "#len", "#cap"} {
			c.keys = append(c.keys, p+n)
		}
		allocSeq++
		c.acc = []*Term{IntT(allocSeq), BV64(0), I2BV(Fresh("acclen", SInt)), I2BV(Fresh("acccap", SInt))}
		out = append(out, c)
	}
	return out
}

func (e *Exec) foldSlice(out, st *State, it *iteration, elem types.Type, init, acc []*Term, backs []bodyRun, edge func(bodyRun) []*Term, base func(*Term) *Term, depends func(*Term) bool, fr *Frame) []*Term {
	if b, ok := under(elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
		if v, ok := e.foldBytes(it, init, acc, backs, edge); ok {
			return v
		}
	}
	// appends
	var segs []Seg
	any := false
	for _, r := range backs {
		v := edge(r)
		if v[0] == acc[0] && v[2] == acc[2] {
			continue
		}
		sq, ok := r.o.st.seqs[int64(v[0].N)]
		if v[0].Op != "int" || !ok || len(sq.Segs) == 0 || !sq.Segs[0].Acc {
			unsupported("slice rebuilt in a loop in %s", fr.fn)
		}
		for _, s := range sq.Segs[1:] {
			if s.Single == nil {
				unsupported("nested sequence built in a loop in %s", fr.fn)
			}
			var el []*Term
			for _, x := range s.Single {
				e.rememberSeq(it, st, r.o.st, x, func(t *Term) *Term {
					t = e.generalise(it, st, base(t))
					if depends(t) {
						unsupported("elements appended in a loop depend on earlier iterations in %s", fr.fn)
					}
					return t
				})
				x = e.generalise(it, st, base(x))
				if bodyAllocated(x, st.fresh) {
					x = e.perIteration(it, st, x)
				}
				if depends(x) {
					unsupported("elements appended in a loop depend on earlier iterations in %s", fr.fn)
				}
				el = append(el, x)
			}
			g := e.generalise(it, st, r.guard)
			if depends(g) {
				unsupported("appends in a loop depend on earlier iterations in %s", fr.fn)
			}
			if it.dom.Guard != nil {
				g = And(g, it.dom.Guard)
			}
			segs = append(segs, Seg{Enum: &EnumSeg{Dom: it.dom, Binder: it.binder, Guard: g, Elem: el}})
			any = true
		}
	}
	if !any {
		return init
	}
	// one element in each iteration, whichever path it takes
	if it.dom.Set == nil && len(segs) == len(backs) {
		one := true
		for _, r := range backs {
			v := edge(r)
			one = one && v[0] != acc[0] && len(r.o.st.seqs[int64(v[0].N)].Segs) == 2
		}
		if one {
			en := *segs[len(segs)-1].Enum
			en.Elem = append([]*Term{}, en.Elem...)
			for i := len(segs) - 2; i >= 0; i-- {
				for j := range en.Elem {
					en.Elem[j] = Ite(segs[i].Enum.Guard, segs[i].Enum.Elem[j], en.Elem[j])
				}
			}
			en.Guard = True
			if it.dom.Guard != nil {
				en.Guard = it.dom.Guard
			}
			segs = []Seg{{Enum: &en}}
		}
	}
	// the same element appended on several paths: merge guards
	var merged []Seg
	for _, s := range segs {
		done := false
		for i, m := range merged {
			same := true
			for j := range s.Enum.Elem {
				same = same && m.Enum.Elem[j] == s.Enum.Elem[j]
			}
			if same {
				merged[i].Enum.Guard = Or(m.Enum.Guard, s.Enum.Guard)
				done = true
				break
			}
		}
		if !done {
			merged = append(merged, s)
		}
	}
	bs := e.segsOf(st, init, elem)
	v := e.mkSeq(out, elem, append(append([]Seg{}, bs...), merged...))
	if len(merged) > 1 { // they alternate
		out.seqs[int64(v[0].N)].Perm = true
	}
	return v
}

// attempt runs f and says why it is outside the supported fragment.
func attempt(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok {
				panic(r)
			}
			why = u.Why + "."
		}
	}()
	f()
	return ""
}

var havocSeq uint64

// havocTerm is any value whatever.
func havocTerm(s Sort) *Term {
	havocSeq++
	return AbsUF("loopvalue:"+s, s, IntT(int64(havocSeq)))
}

// bodyVars: mentions something chosen in the body of the loop.
func bodyVars(t *Term, it *iteration) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t.Op == "var" && varSeq[t.S] > it.mark {
			found = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return found
}

type kept struct {
	name, text string
	t          *Term
}

// keeps are the loop invariants of the function under verification.
func (e *Exec) keeps(fr *Frame, st *State) []kept {
	c := e.cur
	if c == nil || len(c.Keeps) == 0 || fr.fn != e.curFn {
		return nil
	}
	var out []kept
	for _, k := range c.Keeps {
		out = append(out, kept{k.Name, k.Text, e.evalBool(k.Expr, &specCtx{e: e, st: st, env: e.curEnv, old: e.curEntry, cur: st.heap, pkg: e.w.tpkgs[c.Pkg]})})
	}
	return out
}

// readsShared: the loop performs atomic operations.
func (w *World) readsShared(li *loopInfo) bool {
	for b := range li.body {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil {
					if f.Pkg.Pkg.Path() == "sync/atomic" || strings.HasPrefix(f.Pkg.Pkg.Path(), w.module) {
						return true
					}
				}
			}
		}
	}
	return false
}

// peekLoad evaluates a variable or field that the body of a loop reads, as it
// is when the loop starts.
func (e *Exec) peekLoad(fr *Frame, st *State, v ssa.Value) (out []*Term, ok bool) {
	u, isU := v.(*ssa.UnOp)
	if !isU || u.Op != token.MUL {
		return nil, false
	}
	f2, s2 := fr.clone(), st.clone()
	addr := u.X
	if fa, isF := addr.(*ssa.FieldAddr); isF {
		if _, known := f2.env[fa]; !known {
			if _, base := f2.env[fa.X]; !base {
				return nil, false
			}
			if outs, _ := e.simple(f2, s2, fa); outs != nil {
				return nil, false
			}
		}
	} else if _, known := f2.env[addr]; !known {
		return nil, false
	}
	l := e.decode(s2, e.val1(f2, addr), u.Type())
	if !s2.isLocal(l.Ref) && !e.steady(s2, u.X, l) {
		return nil, false
	}
	return e.load(s2, e.val1(f2, addr), u.Type(), ""), true
}
