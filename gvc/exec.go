package main

// Symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unsupported aborts the analysis of a function: the obligation is undecided.
type Unsupported struct{ Why string }

func unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// Exec executes code on behalf of one contract.
type Exec struct {
	iterSeqs map[string]*iterSeq // slices made in the iterations of loops
	nowMark  int                 // clock reads made when the function returned the closure under check
	w        *World
	sol      *Solvers
	endless  *ssa.Function // the function a contract with forever is about
	top      *ssa.Function
	depth    int
	paths    int
	loops    []*loopCtx
	unrolled int
	inSpec   bool
	// obligations raised by execution itself (locking, framing)
	raise func(st *State, name, what, pos string, goal *Term)
	cur   *FuncContract
	// loop invariants named by the contract (keeps) are about this call
	curFn    *ssa.Function
	calling  bool // captured state is forgotten because a call may run the closures
	curEnv   map[string]specVal
	curEntry map[string]*Term
	inl      map[string]bool // functions inlined
	mods     map[string]bool // library models used
	// captured variables: guarded by captured locks, never changed
	guards   map[*Term]*localGuard
	guardOf  map[*Term]*Term
	stable   map[*Term]bool
	deadline time.Time
	watch    func(c cell)    // set: captured state is listed, not forgotten
	used     map[string]bool // functions called by contract
	wanted   map[string]bool // functions the contract under check mentions
	open     map[string]bool // functions whose bodies are used instead of their contracts
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  string
}

// Frame of a function being executed.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value][]*Term
	defers []deferred
	// panicking state visible to functions deferred by the parent
	rec *recState
}

type recState struct {
	val       *Term // recovered value (0 when not panicking)
	recovered bool
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value][]*Term, len(f.env)+8), defers: append([]deferred(nil), f.defers...)}
	for k, v := range f.env {
		n.env[k] = v
	}
	if f.rec != nil {
		c := *f.rec
		n.rec = &c
	}
	return n
}

// Outcome of executing a function or a block.
type Outcome struct {
	st       *State
	ret      []*Term
	panicked bool
	pval     *Term
	recov    bool // recover() was called by the function
	// loop control
	back   *ssa.BasicBlock // back edge or exit intercepted by a loop context
	from   *ssa.BasicBlock
	fr     *Frame
	runRec *recState
}

const maxPaths = 4000
const maxDepth = 24

func (e *Exec) feasible(st *State, extra ...*Term) bool {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		unsupported("out of time")
	}
	for _, x := range extra {
		if x == False {
			return false
		}
		for _, p := range st.pc {
			if Not(p) == x {
				return false
			}
		}
	}
	all := append(append([]*Term{}, st.pc...), extra...)
	triv := true
	for _, x := range extra {
		if x != True && !st.knows(x) {
			triv = false
		}
	}
	if triv {
		return true
	}
	// hard arithmetic stays uninterpreted here: more paths are kept, none lost
	q, _ := opaqueAll(e.w.withAxioms(relevant(all, extra)))
	return e.sol.feasible(q)
}

// consistent: the path is not known to be impossible.
func (e *Exec) consistent(st *State) bool {
	for _, p := range st.pc {
		if p == False {
			return false
		}
	}
	q, _ := opaqueAll(e.w.withAxioms(st.pc))
	return e.sol.feasible(q)
}

// saysFresh: the contract promises that a result is a new object.
func (c *FuncContract) saysFresh(name string) bool {
	found := false
	for _, en := range c.Ensures {
		ast.Inspect(en.Expr, func(n ast.Node) bool {
			if x, ok := n.(*ast.CallExpr); ok && exprStr(x) == "fresh("+name+")" {
				found = true
			}
			return true
		})
	}
	return found
}

// relevant keeps the path facts connected to the question.
func relevant(all []*Term, extra []*Term) []*Term {
	if len(extra) == 0 {
		return all
	}
	syms := map[string]bool{}
	for _, x := range extra {
		for s := range symbols(x) {
			syms[s] = true
		}
	}
	used := make([]bool, len(all))
	for {
		ch := false
		for i, a := range all {
			if used[i] {
				continue
			}
			sa := symbols(a)
			hit := false
			for s := range sa {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for s := range sa {
					syms[s] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, a := range all {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

var symCache = map[*Term]map[string]bool{}

func symbols(t *Term) map[string]bool {
	if s, ok := symCache[t]; ok {
		return s
	}
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "var":
			out[t.S] = true
		case "uf":
			if !injective(t.S) {
				out["uf:"+t.S] = true
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	symCache[t] = out
	return out
}

// ---- values ----

func (e *Exec) constVal(c *ssa.Const) []*Term {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return zeroVal(t)
	}
	s := basicSort(b)
	switch {
	case s == SBool:
		return []*Term{BoolT(constant.BoolVal(c.Value))}
	case s == SString:
		return []*Term{StrT(constant.StringVal(c.Value))}
	case isBV(s):
		if b.Info()&types.IsUnsigned != 0 {
			n, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return []*Term{BV(bvWidth(s), n)}
		}
		n, _ := constant.Int64Val(constant.ToInt(c.Value))
		return []*Term{BV(bvWidth(s), uint64(n))}
	case s == SF64:
		f, _ := constant.Float64Val(c.Value)
		return []*Term{F64(f)}
	case s == SF32:
		f, _ := constant.Float32Val(c.Value)
		return []*Term{F32(f)}
	}
	return zeroVal(t)
}

func (e *Exec) val(fr *Frame, v ssa.Value) []*Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return []*Term{e.w.fnTerm(v)}
	case *ssa.Global:
		return []*Term{e.w.globalTerm(v)}
	case *ssa.Builtin:
		return nil
	}
	t, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
	}
	return t
}
func (e *Exec) val1(fr *Frame, v ssa.Value) *Term {
	t := e.val(fr, v)
	if len(t) != 1 {
		panic(fmt.Sprintf("value %s of type %s has %d leaves", v.Name(), v.Type(), len(t)))
	}
	return t[0]
}

func (e *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.w.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- functions ----

// runFunc executes fn from its entry.
func (e *Exec) runFunc(st *State, fn *ssa.Function, args []*Term, bindings []*Term, rec *recState) []Outcome {
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > maxDepth {
		unsupported("inlining too deep at %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value][]*Term{}, rec: rec}
	k := 0
	for _, p := range fn.Params {
		n := len(leaves(p.Type()))
		if k+n > len(args) {
			panic(fmt.Sprintf("args of %s", fn))
		}
		fr.env[p] = args[k : k+n]
		k += n
	}
	k = 0
	for _, p := range fn.FreeVars {
		n := len(leaves(p.Type()))
		fr.env[p] = bindings[k : k+n]
		k += n
	}
	saved := e.loops
	e.loops = nil
	outs := e.runBlock(fr, st, fn.Blocks[0], nil)
	e.loops = saved
	return outs
}

func (e *Exec) runBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Outcome {
	// loop interception
	for i := len(e.loops) - 1; i >= 0; i-- {
		lc := e.loops[i]
		if lc.fn != fr.fn {
			continue
		}
		if b == lc.header || !lc.body[b] {
			return []Outcome{{st: st, fr: fr, back: b, from: prev}}
		}
		break
	}
	li := e.w.loopOf(fr.fn, b)
	if li != nil {
		return e.enterLoop(fr, st, li, prev)
	}
	return e.runBlockPlain(fr, st, b, prev)
}

func (e *Exec) doPhis(fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals [][]*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.val(fr, p.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (e *Exec) runBlockPlain(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Outcome {
	e.doPhis(fr, b, prev)
	return e.runInstrs(fr, st, b, 0)
}

func (e *Exec) runInstrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val1(fr, in.Cond)
			if c == True {
				return e.runBlock(fr, st, b.Succs[0], b)
			}
			if c == False {
				return e.runBlock(fr, st, b.Succs[1], b)
			}
			var outs []Outcome
			ft := e.feasible(st, c)
			ff := e.feasible(st, Not(c))
			if ft && ff {
				e.paths++
				if e.paths > maxPaths {
					unsupported("too many paths in %s", fr.fn)
				}
				st2, fr2 := st.clone(), fr.clone()
				st2.assume(c)
				outs = append(outs, e.runBlock(fr2, st2, b.Succs[0], b)...)
				st.assume(Not(c))
				outs = append(outs, e.runBlock(fr, st, b.Succs[1], b)...)
				return outs
			}
			if ft {
				return e.runBlock(fr, st, b.Succs[0], b)
			}
			if ff {
				return e.runBlock(fr, st, b.Succs[1], b)
			}
			return nil
		case *ssa.Jump:
			return e.runBlock(fr, st, b.Succs[0], b)
		case *ssa.Return:
			var ret []*Term
			for _, r := range in.Results {
				ret = append(ret, e.val(fr, r)...)
			}
			return []Outcome{{st: st, ret: ret, fr: fr, runRec: fr.rec}}
		case *ssa.Panic:
			return e.doPanic(fr, st, e.val1(fr, in.X))
		case *ssa.RunDefers:
			outs := e.runDefers(fr, st, nil)
			var res []Outcome
			for _, o := range outs {
				if o.panicked {
					res = append(res, o)
					continue
				}
				res = append(res, e.runInstrs(o.fr, o.st, b, i+1)...)
			}
			return res
		case *ssa.Defer:
			fn, args := e.callTargets(fr, &in.Call)
			fr.defers = append(fr.defers, deferred{call: &in.Call, fn: fn, args: args, pos: e.pos(in.Pos())})
			continue
		case *ssa.Go:
			fn, args := e.callTargets(fr, &in.Call)
			e.publish(st, args...)
			name := "go"
			if in.Call.StaticCallee() != nil {
				name = "go:" + e.w.funcKey(in.Call.StaticCallee())
			}
			ev := &Event{Name: name, Fn: fn, Args: args, Guard: True, Pos: e.pos(in.Pos()), Heap: st.heap}
			if f := in.Call.StaticCallee(); f != nil && f.Parent() != nil && len(args) == 0 && fn != nil {
				// a function literal: what it does is for a contract of its own
				ev = &Event{Name: "spawn", Args: []*Term{fn}, ArgT: []types.Type{in.Call.Value.Type()}, Guard: True, Pos: ev.Pos, Heap: st.heap}
				e.publish(st, fn)
			}
			st.events = append(st.events, ev)
			st.heap = copyHeap(st.heap)
			continue
		case *ssa.Call:
			outs := e.call(fr, st, in)
			var res []Outcome
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				if o.fr != nil && o.fr != fr && o.fr.fn == fr.fn && o.back != nil {
					panic("loop outcome escaped a call")
				}
				if o.panicked {
					res = append(res, e.doPanic(f2, o.st, o.pval)...)
					continue
				}
				f2.env[in] = o.ret
				res = append(res, e.runInstrs(f2, o.st, b, i+1)...)
			}
			return res
		default:
			outs, handled := e.simple(fr, st, in)
			if handled && outs == nil {
				continue
			}
			if !handled {
				unsupported("instruction %T (%s) in %s", in, in, fr.fn)
			}
			// forks
			var res []Outcome
			for k, o := range outs {
				f2 := fr
				if k < len(outs)-1 {
					f2 = fr.clone()
				}
				if o.panicked {
					res = append(res, e.doPanic(f2, o.st, o.pval)...)
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					f2.env[v] = o.ret
				}
				res = append(res, e.runInstrs(f2, o.st, b, i+1)...)
			}
			return res
		}
	}
	panic("block without terminator")
}

func (e *Exec) doPanic(fr *Frame, st *State, pval *Term) []Outcome {
	outs := e.runDefers(fr, st, pval)
	var res []Outcome
	for _, o := range outs {
		if o.panicked {
			res = append(res, o)
			continue
		}
		// recovered: results are the named results
		if fr.fn.Recover != nil {
			saved := e.loops
			e.loops = nil
			res = append(res, e.runBlockPlain(o.fr, o.st, fr.fn.Recover, nil)...)
			e.loops = saved
		} else {
			res = append(res, Outcome{st: o.st, ret: zeroVal(fr.fn.Signature.Results()), fr: o.fr})
		}
	}
	return res
}

// runDefers runs the deferred calls; pval non-nil when panicking.
func (e *Exec) runDefers(fr *Frame, st *State, pval *Term) []Outcome {
	if len(fr.defers) == 0 {
		if pval != nil {
			return []Outcome{{st: st, panicked: true, pval: pval, fr: fr}}
		}
		return []Outcome{{st: st, fr: fr}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	rv := pval
	if rv == nil {
		rv = IntT(0)
	}
	outs := e.invoke(st, d.call, d.fn, d.args, &recState{val: rv}, d.pos)
	var res []Outcome
	for k, o := range outs {
		f2 := fr
		if k < len(outs)-1 {
			f2 = fr.clone()
		}
		np := pval
		if o.panicked {
			np = o.pval
		} else if o.runRec != nil && o.runRec.recovered {
			np = nil
		}
		res = append(res, e.runDefers(f2, o.st, np)...)
	}
	return res
}

// ---- instructions ----

func (e *Exec) simple(fr *Frame, st *State, in ssa.Instruction) ([]Outcome, bool) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		fr.env[in] = []*Term{e.alloc(st, t, in.Comment)}
	case *ssa.BinOp:
		x, y := e.val(fr, in.X), e.val(fr, in.Y)
		if (in.Op == token.QUO || in.Op == token.REM) && isInteger(in.X.Type()) {
			z := Eq(y[0], zeroOf(y[0].Sort))
			if z != False && e.feasible(st, z) {
				st2 := st.clone()
				st2.assume(z)
				st.assume(Not(z))
				return []Outcome{{st: st2, panicked: true, pval: runtimePanic("divide by zero")},
					{st: st, ret: e.binop(in.Op, in.X.Type(), x, y, in.Y.Type())}}, true
			}
		}
		fr.env[in] = e.binop(in.Op, in.X.Type(), x, y, in.Y.Type())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := e.val1(fr, in.X)
			return e.withNonNil(st, p, func(st *State) []*Term {
				return e.load(st, p, in.Type(), e.pos(in.Pos()))
			}, fr, in)
		case token.NOT:
			fr.env[in] = []*Term{Not(e.val1(fr, in.X))}
		case token.SUB:
			x := e.val1(fr, in.X)
			if isFloat(in.Type()) {
				fr.env[in] = []*Term{Op("fp.neg", x.Sort, "", x)}
			} else {
				fr.env[in] = []*Term{Op("bvneg", x.Sort, "", x)}
			}
		case token.XOR:
			x := e.val1(fr, in.X)
			fr.env[in] = []*Term{Op("bvnot", x.Sort, "", x)}
		default:
			return nil, false
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		v := in.(ssa.Value)
		x := *in.Operands(nil)[0]
		fr.env[v] = e.val(fr, x)
		if from, ok := isPtrTo(x.Type()); ok {
			if to, ok := isPtrTo(v.Type()); ok && typeKey(from) != typeKey(to) {
				if t := fr.env[v][0]; t.Op != "int" && castElem[t] == nil {
					castElem[t] = from
				}
			}
		}
	case *ssa.Convert:
		fr.env[in] = e.convert(st, in.X.Type(), in.Type(), e.val(fr, in.X))
	case *ssa.MakeInterface:
		fr.env[in] = []*Term{e.w.box(in.X.Type(), e.val(fr, in.X))}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(fr, b)...)
		}
		fr.env[in] = []*Term{e.w.cloTerm(in.Fn.(*ssa.Function), bs)}
	case *ssa.MakeMap:
		ref := e.allocRef(st, in.Type(), in.Name())
		m := under(in.Type()).(*types.Map)
		var vals []*Term
		for _, l := range leaves(m.Elem()) {
			vals = append(vals, ConstArr(SArr(keySort(m.Key()), l.Sort), zeroOf(l.Sort)))
		}
		e.mapSetAll(st.heap, in.Type(), ref, ConstArr(SArr(keySort(m.Key()), SBool), False), vals)
		fr.env[in] = []*Term{ref}
	case *ssa.MakeSlice:
		n := toI64(e.val1(fr, in.Len))
		el := under(in.Type()).(*types.Slice).Elem()
		ref := e.allocRef(st, types.NewSlice(el), in.Name())
		if n.Op == "bv" && n.N == 0 {
			st.seqs[int64(ref.N)] = &Seq{Elem: el}
		} else if n.Op == "bv" && n.Int() <= 64 {
			sq := &Seq{Elem: el}
			for k := int64(0); k < n.Int(); k++ {
				sq.Segs = append(sq.Segs, Seg{Single: zeroVal(el)})
			}
			st.seqs[int64(ref.N)] = sq
		} else {
			for _, l := range leaves(el) {
				key := "elems:" + typeKey(el) + "[]" + l.Path
				srt := SArr(SBV(64), l.Sort)
				st.heap[key] = Store(e.heapGet(st.heap, key, srt), ref, ConstArr(srt, zeroOf(l.Sort)))
			}
		}
		fr.env[in] = []*Term{ref, BV64(0), n, toI64(e.val1(fr, in.Cap))}
	case *ssa.Select:
		return e.selectOp(fr, st, in), true
	case *ssa.Send:
		args := append(append([]*Term{}, e.val(fr, in.Chan)...), e.val(fr, in.X)...)
		e.raise(st, "callback-under-lock", "sends on a channel holding "+e.heldNames(st), e.pos(in.Pos()), BoolT(len(st.held) == 0))
		e.publish(st, args...)
		st.events = append(st.events, &Event{Name: "send", Args: args, ArgT: []types.Type{in.Chan.Type(), in.X.Type()}, Guard: True, Pos: e.pos(in.Pos()), Heap: copyHeap(st.heap)})
	case *ssa.MakeChan:
		ref := e.allocRef(st, in.Type(), in.Name())
		fr.env[in] = []*Term{ref}
	case *ssa.FieldAddr:
		p := e.val1(fr, in.X)
		st2 := types.Unalias(in.X.Type()).Underlying().(*types.Pointer).Elem()
		s := under(st2).(*types.Struct)
		return e.withNonNil(st, p, func(st *State) []*Term {
			return []*Term{e.fieldAddr(st, p, st2, s, in.Field)}
		}, fr, in)
	case *ssa.Field:
		s := under(in.X.Type()).(*types.Struct)
		lo, hi := fieldRange(s, in.Field)
		fr.env[in] = e.val(fr, in.X)[lo:hi]
	case *ssa.IndexAddr:
		idx := toI64t(e.val1(fr, in.Index), in.Index.Type())
		if p, ok := under(in.X.Type()).(*types.Pointer); ok {
			arr := under(p.Elem()).(*types.Array)
			base := e.val1(fr, in.X)
			return e.withBounds(st, idx, BV64(arr.Len()), func(st *State) []*Term {
				l := e.decode(st, base, p.Elem())
				return []*Term{ptrTerm(Loc{Ref: l.Ref, Root: l.Root, Path: l.Path + "[]", Idx: append(append([]*Term{}, l.Idx...), idx)})}
			}, fr, in)
		}
		sl := e.val(fr, in.X)
		el := under(in.X.Type()).(*types.Slice).Elem()
		return e.withBounds(st, idx, sl[2], func(st *State) []*Term {
			return []*Term{e.elemAddr(st, sl, el, idx)}
		}, fr, in)
	case *ssa.Index:
		x := e.val(fr, in.X)
		idx := toI64t(e.val1(fr, in.Index), in.Index.Type())
		if isString(in.X.Type()) {
			return e.withBounds(st, idx, I2BV(Op("str.len", SInt, "", x[0])), func(st *State) []*Term {
				return []*Term{strByte(x[0], idx)}
			}, fr, in)
		}
		arr := under(in.X.Type()).(*types.Array)
		return e.withBounds(st, idx, BV64(arr.Len()), func(st *State) []*Term {
			var out []*Term
			for _, a := range x {
				out = append(out, Select(a, idx))
			}
			return out
		}, fr, in)
	case *ssa.Lookup:
		x := e.val(fr, in.X)
		if isString(in.X.Type()) {
			idx := toI64t(e.val1(fr, in.Index), in.Index.Type())
			return e.withBounds(st, idx, I2BV(Op("str.len", SInt, "", x[0])), func(st *State) []*Term {
				return []*Term{strByte(x[0], idx)}
			}, fr, in)
		}
		m := under(in.X.Type()).(*types.Map)
		e.checkOwned(st, x[0], false, e.pos(in.Pos()))
		k := keyTerm(m.Key(), e.val(fr, in.Index))
		v, ok := e.mapLookup(st.heap, in.X.Type(), x[0], k)
		if !ok.isConst() && st.knows(ok) {
			for i := range v {
				v[i] = Subst(v[i], map[*Term]*Term{ok: True})
			}
			ok = True
		}
		v = e.named(st, in.X.Type(), x[0], k, v, ok)
		if in.CommaOk {
			v = append(append([]*Term{}, v...), ok)
		}
		fr.env[in] = v
	case *ssa.MapUpdate:
		mt := in.Map.Type()
		ref := e.val1(fr, in.Map)
		if ref.Op == "int" && ref.N == 0 {
			return []Outcome{{st: st, panicked: true, pval: runtimePanic("assignment to entry in nil map")}}, true
		}
		if nz := Eq(ref, IntT(0)); nz != False && e.feasible(st, nz) {
			unsupported("map may be nil at %s", e.pos(in.Pos()))
		}
		m := under(mt).(*types.Map)
		e.checkOwned(st, ref, true, e.pos(in.Pos()))
		vs := e.val(fr, in.Value)
		if !st.isLocal(ref) {
			e.publish(st, vs...)
			e.publish(st, e.val(fr, in.Key)...)
		}
		e.mapStore(st.heap, mt, ref, keyTerm(m.Key(), e.val(fr, in.Key)), vs)
	case *ssa.Range:
		fr.env[in] = e.val(fr, in.X)
	case *ssa.TypeAssert:
		return e.typeAssert(st, in, e.val1(fr, in.X), fr), true
	case *ssa.Extract:
		tu := in.Tuple.Type().(*types.Tuple)
		lo, hi := tupleRange(tu, in.Index)
		fr.env[in] = e.val(fr, in.Tuple)[lo:hi]
	case *ssa.Store:
		p := e.val1(fr, in.Addr)
		v := e.val(fr, in.Val)
		return e.withNonNil(st, p, func(st *State) []*Term {
			e.store(st, p, in.Val.Type(), v, e.pos(in.Pos()))
			return nil
		}, fr, in)
	case *ssa.Slice:
		return e.sliceOp(fr, st, in)
	default:
		return nil, false
	}
	return nil, true
}

func runtimePanic(s string) *Term { return UF("fn:runtime-error:"+s, SInt) }

func (e *Exec) nonNil(st *State, p *Term) bool {
	if p.Op == "int" {
		return p.N != 0
	}
	if p.Op == "uf" && injective(p.S) {
		return true
	}
	if e.w.nonnil[p] {
		return true
	}
	if p.Op == "select" && e.w.nonnilField(p) {
		return true
	}
	nz := Not(Eq(p, IntT(0)))
	return st.knows(nz)
}

func (e *Exec) withNonNil(st *State, p *Term, f func(*State) []*Term, fr *Frame, in ssa.Instruction) ([]Outcome, bool) {
	set := func(v []*Term) {
		if val, ok := in.(ssa.Value); ok {
			fr.env[val] = v
		}
	}
	if e.nonNil(st, p) {
		set(f(st))
		return nil, true
	}
	z := Eq(p, IntT(0))
	if z == True {
		return []Outcome{{st: st, panicked: true, pval: runtimePanic("nil pointer")}}, true
	}
	if !e.feasible(st, z) {
		set(f(st))
		return nil, true
	}
	st2 := st.clone()
	st2.assume(z)
	st.assume(Not(z))
	if _, ok := in.(ssa.Value); !ok {
		// a store: cannot continue with a value; treat like a fork
		f(st)
		return []Outcome{{st: st2, panicked: true, pval: runtimePanic("nil pointer")}, {st: st, ret: nil, fr: fr}}, true
	}
	return []Outcome{{st: st2, panicked: true, pval: runtimePanic("nil pointer")}, {st: st, ret: f(st)}}, true
}

func (e *Exec) withBounds(st *State, idx, n *Term, f func(*State) []*Term, fr *Frame, in ssa.Instruction) ([]Outcome, bool) {
	ok := And(Not(Op("bvslt", SBool, "", idx, BV64(0))), Op("bvslt", SBool, "", idx, n))
	if ok == True || st.knowsAll(ok) {
		fr.env[in.(ssa.Value)] = f(st)
		return nil, true
	}
	if ok != False && !e.feasible(st, Not(ok)) {
		fr.env[in.(ssa.Value)] = f(st)
		return nil, true
	}
	st2 := st.clone()
	st2.assume(Not(ok))
	outs := []Outcome{{st: st2, panicked: true, pval: runtimePanic("index out of range")}}
	if ok != False && e.feasible(st, ok) {
		st.assume(ok)
		outs = append(outs, Outcome{st: st, ret: f(st)})
	}
	return outs, true
}

func (s *State) knowsAll(t *Term) bool {
	if t.Op == "and" {
		for _, a := range t.Args {
			if !s.knows(a) {
				return false
			}
		}
		return true
	}
	return s.knows(t)
}

func strByte(s, idx *Term) *Term {
	if s.Op == "str" && idx.Op == "bv" && idx.Int() < int64(len(s.S)) {
		return BV(8, uint64(s.S[idx.Int()]))
	}
	return Op("int2bv", SBV(8), "", Op("str.to_code", SInt, "", Op("str.at", SString, "", s, BV2I(idx))))
}

func toI64(t *Term) *Term { return resize(t, 64, true) }
func toI64t(t *Term, ty types.Type) *Term {
	return resize(t, 64, isSigned(ty))
}
func resize(t *Term, w int, signed bool) *Term {
	tw := bvWidth(t.Sort)
	switch {
	case tw == w:
		return t
	case tw > w:
		return Op("extract", SBV(w), fmt.Sprintf("%d 0", w-1), t)
	case signed:
		return Op("sext", SBV(w), fmt.Sprint(w-tw), t)
	}
	return Op("zext", SBV(w), fmt.Sprint(w-tw), t)
}

func (e *Exec) fieldAddr(st *State, p *Term, t types.Type, s *types.Struct, i int) *Term {
	if p.Op == "ite" {
		return Ite(p.Args[0], e.fieldAddr(st, p.Args[1], t, s, i), e.fieldAddr(st, p.Args[2], t, s, i))
	}
	l := e.decode(st, p, t)
	noteRoot(t)
	return ptrTerm(Loc{Ref: l.Ref, Root: l.Root, Path: l.Path + "." + fieldName(s.Field(i), i), Idx: l.Idx})
}

// elemAddr is the address of slice element idx.
func (e *Exec) elemAddr(st *State, sl []*Term, el types.Type, idx *Term) *Term {
	arr := sl[0]
	at := Op("bvadd", SBV(64), "", idx, sl[1])
	if arr.Op == "uf" && strings.HasPrefix(arr.S, "ip:") {
		l := e.decode(st, arr, nil)
		return ptrTerm(Loc{Ref: l.Ref, Root: l.Root, Path: l.Path + "[]", Idx: append(append([]*Term{}, l.Idx...), at)})
	}
	if arr.Op == "int" {
		if o, ok := st.fresh[int64(arr.N)]; ok {
			if _, isA := under(o.T).(*types.Array); isA {
				return ptrTerm(Loc{Ref: arr, Root: typeKey(o.T), Path: "[]", Idx: []*Term{at}})
			}
		}
	}
	return ptrTerm(Loc{Ref: arr, Root: "elems:" + typeKey(el), Path: "[]", Idx: []*Term{at}})
}

func (e *Exec) load(st *State, p *Term, t types.Type, pos string) []*Term {
	if p.Op == "ite" {
		a := e.load(st, p.Args[1], t, pos)
		b := e.load(st, p.Args[2], t, pos)
		var out []*Term
		for i := range a {
			out = append(out, Ite(p.Args[0], a[i], b[i]))
		}
		return out
	}
	l := e.decode(st, p, t)
	if strings.HasPrefix(l.Root, "elems:") && l.Ref.Op == "int" {
		if sq, ok := st.seqs[int64(l.Ref.N)]; ok {
			return e.seqRead(st, sq, l, t)
		}
	}
	e.checkAccess(st, l, t, false, pos)
	var out []*Term
	for _, lf := range leaves(t) {
		v := readHeap(e, st.heap, l, lf)
		if v.Sort == SInt && l.Ref.Op == "int" && e.w.globRule[int64(l.Ref.N)] == "constant" && l.Path == "" && lf.Path == "" {
			st.assume(Not(Eq(v, IntT(0))))
		}
		e.noteSentinel(st, l, v)
		if v.Op == "select" && v.Sort == SInt && e.w.nonnilField(v) {
			st.assume(Not(Eq(v, IntT(0))))
		}
		out = append(out, v)
	}
	if _, ok := under(t).(*types.Slice); ok && len(out) == 4 && out[2].Op == "select" {
		st.assume(sliceWF(out))
	}
	e.noteLoad(st, l, t, out)
	return out
}

// noteSentinel: see isSentinel.
func (e *Exec) noteSentinel(st *State, l Loc, v *Term) {
	if l.Ref.Op == "int" && e.w.isSentinel(int64(l.Ref.N)) && v.Op != "int" {
		st.assume(Not(Eq(v, IntT(0))))
		st.assume(Eq(UF("sentinel", SInt, v), l.Ref))
	}
}

func (e *Exec) store(st *State, p *Term, t types.Type, v []*Term, pos string) {
	if p.Op == "ite" {
		c := p.Args[0]
		old1 := e.load(st, p.Args[1], t, pos)
		old2 := e.load(st, p.Args[2], t, pos)
		var v1, v2 []*Term
		for i := range v {
			v1 = append(v1, Ite(c, v[i], old1[i]))
			v2 = append(v2, Ite(c, old2[i], v[i]))
		}
		e.store(st, p.Args[1], t, v1, pos)
		e.store(st, p.Args[2], t, v2, pos)
		return
	}
	l := e.decode(st, p, t)
	if strings.HasPrefix(l.Root, "elems:") && l.Ref.Op == "int" {
		if sq, ok := st.seqs[int64(l.Ref.N)]; ok {
			e.seqWrite(st, int64(l.Ref.N), sq, l, t, v)
			return
		}
	}
	if strings.HasPrefix(l.Root, "elems:") && l.Ref.Op == "uf" && e.iterSeqs[l.Ref.S] != nil {
		unsupported("writes to a slice made in a loop")
	}
	e.checkAccess(st, l, t, true, pos)
	if !st.isLocal(l.Ref) {
		e.checkOwnedStore(st, l, t, v, pos)
		e.publish(st, v...)
	}
	for i, lf := range leaves(t) {
		writeHeap(e, st.heap, l, lf, v[i])
	}
}

func (e *Exec) binop(op token.Token, t types.Type, x, y []*Term, yt types.Type) []*Term {
	one := func(t *Term) []*Term { return []*Term{t} }
	switch op {
	case token.EQL, token.NEQ:
		var cs []*Term
		ls := leaves(t)
		for i := range x {
			if i < len(ls) && isFP(x[i].Sort) {
				cs = append(cs, Op("fp.eq", SBool, "", x[i], y[i]))
				continue
			}
			cs = append(cs, Eq(x[i], y[i]))
		}
		if _, ok := under(t).(*types.Slice); ok {
			cs = []*Term{Eq(x[0], y[0])}
		}
		r := And(cs...)
		if op == token.NEQ {
			r = Not(r)
		}
		return one(r)
	}
	a, b := x[0], y[0]
	switch {
	case isString(t):
		switch op {
		case token.ADD:
			return one(Op("str.++", SString, "", a, b))
		case token.LSS:
			return one(Op("str.<", SBool, "", a, b))
		case token.GTR:
			return one(Op("str.<", SBool, "", b, a))
		case token.LEQ:
			return one(Not(Op("str.<", SBool, "", b, a)))
		case token.GEQ:
			return one(Not(Op("str.<", SBool, "", a, b)))
		}
	case isFloat(t):
		switch op {
		case token.ADD:
			return one(Op("fp.add", a.Sort, "", a, b))
		case token.SUB:
			return one(Op("fp.sub", a.Sort, "", a, b))
		case token.MUL:
			return one(Op("fp.mul", a.Sort, "", a, b))
		case token.QUO:
			return one(Op("fp.div", a.Sort, "", a, b))
		case token.LSS:
			return one(Op("fp.lt", SBool, "", a, b))
		case token.GTR:
			return one(Op("fp.lt", SBool, "", b, a))
		case token.LEQ:
			return one(Op("fp.leq", SBool, "", a, b))
		case token.GEQ:
			return one(Op("fp.leq", SBool, "", b, a))
		}
	case isInteger(t):
		s := isSigned(t)
		pick := func(a, b string) string {
			if s {
				return a
			}
			return b
		}
		switch op {
		case token.ADD:
			return one(Op("bvadd", a.Sort, "", a, b))
		case token.SUB:
			return one(Op("bvsub", a.Sort, "", a, b))
		case token.MUL:
			return one(Op("bvmul", a.Sort, "", a, b))
		case token.QUO:
			return one(Op(pick("bvsdiv", "bvudiv"), a.Sort, "", a, b))
		case token.REM:
			return one(Op(pick("bvsrem", "bvurem"), a.Sort, "", a, b))
		case token.AND:
			return one(Op("bvand", a.Sort, "", a, b))
		case token.OR:
			return one(Op("bvor", a.Sort, "", a, b))
		case token.XOR:
			return one(Op("bvxor", a.Sort, "", a, b))
		case token.AND_NOT:
			return one(Op("bvand", a.Sort, "", a, Op("bvnot", b.Sort, "", b)))
		case token.SHL, token.SHR:
			w := bvWidth(a.Sort)
			big := False
			bw := bvWidth(b.Sort)
			if bw > w {
				big = Not(Op("bvult", SBool, "", b, BV(bw, uint64(w))))
			}
			b = resize(b, w, false)
			var r *Term
			if op == token.SHL {
				r = Op("bvshl", a.Sort, "", a, b)
			} else {
				r = Op(pick("bvashr", "bvlshr"), a.Sort, "", a, b)
			}
			over := BV(w, 0)
			if op == token.SHR && s {
				over = Op("bvashr", a.Sort, "", a, BV(w, uint64(w-1)))
			}
			return one(Ite(big, over, r))
		case token.LSS:
			return one(Op(pick("bvslt", "bvult"), SBool, "", a, b))
		case token.GTR:
			return one(Op(pick("bvslt", "bvult"), SBool, "", b, a))
		case token.LEQ:
			return one(Op(pick("bvsle", "bvule"), SBool, "", a, b))
		case token.GEQ:
			return one(Op(pick("bvsle", "bvule"), SBool, "", b, a))
		}
	case a.Sort == SBool:
		switch op {
		case token.AND:
			return one(And(a, b))
		case token.OR:
			return one(Or(a, b))
		case token.XOR:
			return one(Ne(a, b))
		}
	}
	unsupported("binop %s on %s", op, t)
	return nil
}

func (e *Exec) convert(st *State, from, to types.Type, x []*Term) []*Term {
	one := func(t *Term) []*Term { return []*Term{t} }
	if el, ok := isPtrTo(from); ok && typeKey(to) == "unsafe.Pointer" {
		if _, isp := isPtrTo(el); isp {
			noteRoot(el)
			ptrElem[x[0]] = el
		}
	}
	switch {
	case isInteger(from) && isInteger(to):
		return one(resize(x[0], bvWidth(leaves(to)[0].Sort), isSigned(from)))
	case isInteger(from) && isFloat(to):
		op := "fp.of.u"
		if isSigned(from) {
			op = "fp.of.s"
		}
		return one(Op(op, leaves(to)[0].Sort, "", x[0]))
	case isFloat(from) && isFloat(to):
		return one(Op("fp.of.f", leaves(to)[0].Sort, "", x[0]))
	case isFloat(from) && isInteger(to):
		op := "fp.to.u"
		if isSigned(to) {
			op = "fp.to.s"
		}
		return one(Op(op, leaves(to)[0].Sort, "", x[0]))
	case isString(from) && isString(to):
		return x
	case isString(to):
		if _, ok := under(from).(*types.Slice); ok {
			if t, ok := e.wholeBytes(st, x); ok {
				return one(t)
			}
			return one(AbsUF("stringof", SString, x...))
		}
		return one(AbsUF("string("+typeKey(from)+")", SString, x...))
	case isString(from):
		if _, ok := under(to).(*types.Slice); ok {
			n := I2BV(Op("str.len", SInt, "", x[0]))
			return []*Term{AbsUF("bytesof", SInt, x[0]), BV64(0), n, n}
		}
	}
	lf, lt := leaves(from), leaves(to)
	if len(lf) == len(lt) {
		same := true
		for i := range lf {
			same = same && lf[i].Sort == lt[i].Sort
		}
		if same {
			return x
		}
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

func (e *Exec) typeAssert(st *State, in *ssa.TypeAssert, x *Term, fr *Frame) []Outcome {
	if x.Op == "ite" {
		var res []Outcome
		for k, c := range []*Term{x.Args[0], Not(x.Args[0])} {
			if e.feasible(st, c) {
				s2 := st.clone()
				s2.assume(c)
				res = append(res, e.typeAssert(s2, in, x.Args[1+k], fr)...)
			}
		}
		return res
	}
	t := in.AssertedType
	fail := func(st *State) Outcome {
		if in.CommaOk {
			return Outcome{st: st, ret: append(zeroVal(t), False)}
		}
		return Outcome{st: st, panicked: true, pval: runtimePanic("interface conversion")}
	}
	succ := func(st *State, v []*Term) Outcome {
		if in.CommaOk {
			return Outcome{st: st, ret: append(append([]*Term{}, v...), True)}
		}
		return Outcome{st: st, ret: v}
	}
	cond := e.w.typeIs(x, t)
	var v []*Term
	if isIface(t) {
		v = []*Term{x}
	} else {
		v = e.w.unbox(t, x)
	}
	if cond == True {
		return []Outcome{succ(st, v)}
	}
	if cond == False {
		return []Outcome{fail(st)}
	}
	var res []Outcome
	ft, ff := e.feasible(st, cond), e.feasible(st, Not(cond))
	if ft {
		s2 := st
		if ff {
			s2 = st.clone()
		}
		s2.assume(cond)
		s2.assume(Not(Eq(x, IntT(0))))
		if !isIface(t) {
			for i, l := range leaves(t) {
				if l.Sort == SInt {
					v[i].old = true
				}
			}
		}
		res = append(res, succ(s2, v))
	}
	if ff {
		st.assume(Not(cond))
		res = append(res, fail(st))
	}
	return res
}

func (e *Exec) sliceOp(fr *Frame, st *State, in *ssa.Slice) ([]Outcome, bool) {
	x := e.val(fr, in.X)
	lo := BV64(0)
	if in.Low != nil {
		lo = toI64t(e.val1(fr, in.Low), in.Low.Type())
	}
	if isString(in.X.Type()) {
		n := I2BV(Op("str.len", SInt, "", x[0]))
		hi := n
		if in.High != nil {
			hi = toI64t(e.val1(fr, in.High), in.High.Type())
		}
		ok := And(Op("bvsle", SBool, "", BV64(0), lo), Op("bvsle", SBool, "", lo, hi), Op("bvsle", SBool, "", hi, n))
		return e.guarded(st, ok, "slice bounds", func() []*Term {
			if lo.Op == "bv" && lo.N == 0 && hi == n {
				return x
			}
			l := BV2I(lo)
			return []*Term{Op("str.substr", SString, "", x[0], l, Op("-", SInt, "", BV2I(hi), l))}
		}, fr, in)
	}
	if p, ok := under(in.X.Type()).(*types.Pointer); ok {
		arr := under(p.Elem()).(*types.Array)
		n := BV64(arr.Len())
		hi := n
		if in.High != nil {
			hi = toI64t(e.val1(fr, in.High), in.High.Type())
		}
		ok := And(Op("bvsle", SBool, "", BV64(0), lo), Op("bvsle", SBool, "", lo, hi), Op("bvsle", SBool, "", hi, n))
		return e.guarded(st, ok, "slice bounds", func() []*Term {
			base := x[0]
			// varargs and composite literals: a small local array becomes a
			// structured sequence
			if o, isNum := st.fresh[int64(base.N)]; base.Op == "int" && isNum && lo.Op == "bv" && hi.Op == "bv" && arr.Len() <= 64 {
				if _, isA := under(o.T).(*types.Array); isA && !o.Published {
					ref := e.allocRef(st, types.NewSlice(arr.Elem()), "lit")
					sq := &Seq{Elem: arr.Elem()}
					for k := lo.Int(); k < hi.Int(); k++ {
						var el []*Term
						for _, l := range leaves(arr.Elem()) {
							el = append(el, readHeap(e, st.heap, Loc{Ref: base, Root: typeKey(o.T), Path: "[]", Idx: []*Term{BV64(k)}}, l))
						}
						sq.Segs = append(sq.Segs, Seg{Single: el})
					}
					if in.High == nil && in.Low == nil && strings.Contains(in.X.Name(), "t") {
						st.seqs[int64(ref.N)] = sq
						return []*Term{ref, BV64(0), hi, hi}
					}
				}
			}
			return []*Term{base, lo, Op("bvsub", SBV(64), "", hi, lo), Op("bvsub", SBV(64), "", n, lo)}
		}, fr, in)
	}
	// slice of slice
	hi := x[2]
	if in.High != nil {
		hi = toI64t(e.val1(fr, in.High), in.High.Type())
	}
	capE := x[3]
	if in.Max != nil {
		capE = toI64t(e.val1(fr, in.Max), in.Max.Type())
	}
	ok := And(Op("bvsle", SBool, "", BV64(0), lo), Op("bvsle", SBool, "", lo, hi), Op("bvsle", SBool, "", hi, capE))
	return e.guarded(st, ok, "slice bounds", func() []*Term {
		return []*Term{x[0], Op("bvadd", SBV(64), "", x[1], lo), Op("bvsub", SBV(64), "", hi, lo), Op("bvsub", SBV(64), "", capE, lo)}
	}, fr, in)
}

func (e *Exec) guarded(st *State, ok *Term, what string, f func() []*Term, fr *Frame, in ssa.Value) ([]Outcome, bool) {
	if ok == True || !e.feasible(st, Not(ok)) {
		fr.env[in] = f() // ok follows from the path
		return nil, true
	}
	st2 := st.clone()
	st2.assume(Not(ok))
	outs := []Outcome{{st: st2, panicked: true, pval: runtimePanic(what)}}
	if e.feasible(st, ok) {
		st.assume(ok)
		outs = append(outs, Outcome{st: st, ret: f()})
	}
	return outs, true
}

// ---- sequences ----

func segLen(s Seg) *Term {
	switch {
	case s.Single != nil:
		return IntT(1)
	case s.Heap != nil:
		return BV2I(s.Heap.Len)
	case s.Enum != nil:
		if n := s.Enum.full(); n != nil {
			return BV2I(n)
		}
		return cardOf(LambdaOver(s.Enum.Binder, And(s.Enum.Dom.contains(s.Enum.Binder), s.Enum.Guard)))
	}
	return UF("acclen", SInt)
}

// full is the length of a segment with one element for each index below a
// limit, in order.
func (en *EnumSeg) full() *Term {
	d := en.Dom
	if d.Set != nil || d.Rev || d.Guard != nil || en.Guard != True || d.Lo.Op != "bv" || d.Lo.N != 0 {
		return nil
	}
	if d.Hi.Op == "bv" && d.Hi.Int() >= 0 {
		return d.Hi
	}
	return Ite(Op("bvslt", SBool, "", BV64(0), d.Hi), d.Hi, BV64(0))
}

func seqLen(sq *Seq) *Term {
	if len(sq.Segs) == 1 && sq.Segs[0].Enum != nil {
		if n := sq.Segs[0].Enum.full(); n != nil {
			return n
		}
	}
	n := IntT(0)
	for _, s := range sq.Segs {
		n = Op("+", SInt, "", n, segLen(s))
	}
	if n.Op == "int" {
		return BV64(int64(n.N))
	}
	return I2BV(n)
}

// segsOf views a slice value as a sequence of segments.
func (e *Exec) segsOf(st *State, sl []*Term, el types.Type) []Seg {
	arr := sl[0]
	if sl[2].Op == "bv" && sl[2].N == 0 {
		return nil
	}
	if arr.Op == "int" {
		if arr.N == 0 {
			return nil
		}
		if sq, ok := st.seqs[int64(arr.N)]; ok {
			if sl[1].Op == "bv" && sl[1].N == 0 && (sl[2] == seqLen(sq) || len(sq.Segs) == 1 && sq.Segs[0].Acc && isAccLen(sl[2])) {
				return sq.Segs
			}
			// concrete sub range of singles
			if sl[1].Op == "bv" && sl[2].Op == "bv" {
				lo, n := sl[1].Int(), sl[2].Int()
				if lo+n <= int64(len(sq.Segs)) {
					ok := true
					for _, s := range sq.Segs[:lo+n] {
						ok = ok && s.Single != nil
					}
					if ok {
						return sq.Segs[lo : lo+n]
					}
				}
			}
			unsupported("sub-slice of a structured sequence")
		}
	}
	if segs, ok := e.iterSegs(sl); ok {
		return segs
	}
	if sl[2].Op == "bv" && sl[2].Int() <= 8 {
		var out []Seg
		for k := int64(0); k < sl[2].Int(); k++ {
			out = append(out, Seg{Single: e.elemAt(st, st.heap, sl, el, BV64(k))})
		}
		return out
	}
	return []Seg{{Heap: &HeapSeg{Arr: arr, Off: sl[1], Len: sl[2], Heap: st.heap}}}
}

// isAccLen: the length of a slice under construction in a loop.
func isAccLen(t *Term) bool {
	return t.Op == "int2bv" && t.Args[0].Op == "var" && strings.HasPrefix(t.Args[0].S, "acclen")
}

func (e *Exec) elemAt(st *State, heap map[string]*Term, sl []*Term, el types.Type, idx *Term) []*Term {
	if segs, ok := e.iterSegs(sl); ok && idx.Op == "bv" && idx.Int() < int64(len(segs)) {
		return segs[idx.Int()].Single
	}
	p := e.elemAddr(st, sl, el, idx)
	l := e.decode(st, p, el)
	if strings.HasPrefix(l.Root, "elems:") && l.Ref.Op == "int" {
		if sq, ok := st.seqs[int64(l.Ref.N)]; ok {
			return e.seqRead(st, sq, l, el)
		}
	}
	var out []*Term
	for _, lf := range leaves(el) {
		out = append(out, readHeap(e, heap, l, lf))
	}
	return out
}

func (e *Exec) seqRead(st *State, sq *Seq, l Loc, t types.Type) []*Term {
	sub := strings.TrimPrefix(l.Path, "[]")
	idx := l.Idx[0]
	// iterating?
	if v, ok := st.elemOf[fmt.Sprintf("%d#%d", l.Ref.N, idx.id)]; ok {
		return subLeaves(sq.Elem, v, sub, t)
	}
	if idx.Op == "bv" {
		n := idx.Int()
		for k, s := range sq.Segs {
			if int64(k) == n && s.Single != nil {
				return subLeaves(sq.Elem, s.Single, sub, t)
			}
			if s.Single == nil {
				if int64(k) == n && s.Heap != nil {
					return subLeaves(sq.Elem, e.elemAt(st, s.Heap.Heap, []*Term{s.Heap.Arr, s.Heap.Off, s.Heap.Len, s.Heap.Len}, sq.Elem, BV64(0)), sub, t)
				}
				if int64(k) == n && s.Enum != nil {
					// some element of the enumeration
					var w []*Term
					nm := UF("pick:"+s.Enum.Binder.Sort, s.Enum.Binder.Sort, LambdaOver(s.Enum.Binder, And(s.Enum.Dom.contains(s.Enum.Binder), s.Enum.Guard)))
					m := map[*Term]*Term{s.Enum.Binder: nm}
					for _, x := range s.Enum.Elem {
						w = append(w, Subst(x, m))
					}
					st.assume(And(Subst(s.Enum.Dom.contains(s.Enum.Binder), m), Subst(s.Enum.Guard, m)))
					return subLeaves(sq.Elem, w, sub, t)
				}
				break
			}
		}
	}
	if len(sq.Segs) == 1 && sq.Segs[0].Heap != nil {
		h := sq.Segs[0].Heap
		return subLeaves(sq.Elem, e.elemAt(st, h.Heap, []*Term{h.Arr, h.Off, h.Len, h.Len}, sq.Elem, idx), sub, t)
	}
	if len(sq.Segs) == 1 && sq.Segs[0].Enum != nil && sq.Segs[0].Enum.full() != nil && !sq.Perm {
		en := sq.Segs[0].Enum
		var w []*Term
		for _, x := range en.Elem {
			w = append(w, Subst(x, map[*Term]*Term{en.Binder: idx}))
		}
		return subLeaves(sq.Elem, w, sub, t)
	}
	unsupported("symbolic index into a structured sequence")
	return nil
}

func (e *Exec) seqWrite(st *State, ref int64, sq *Seq, l Loc, t types.Type, v []*Term) {
	idx := l.Idx[0]
	if idx.Op == "bv" && idx.Int() < int64(len(sq.Segs)) {
		n := &Seq{Elem: sq.Elem, Segs: append([]Seg(nil), sq.Segs...)}
		for k := int64(0); k <= idx.Int(); k++ {
			if n.Segs[k].Single == nil {
				unsupported("write into a structured sequence")
			}
		}
		s := append([]*Term(nil), n.Segs[idx.Int()].Single...)
		lo := leafOffset(sq.Elem, strings.TrimPrefix(l.Path, "[]"), t)
		copy(s[lo:], v)
		n.Segs[idx.Int()] = Seg{Single: s}
		st.seqs[ref] = n
		return
	}
	unsupported("write into a structured sequence")
}

func leafOffset(t types.Type, path string, sub types.Type) int {
	for i, l := range leaves(t) {
		if strings.HasPrefix(l.Path, path) {
			return i
		}
	}
	return 0
}
func subLeaves(t types.Type, v []*Term, path string, sub types.Type) []*Term {
	if path == "" {
		return v
	}
	lo := leafOffset(t, path, sub)
	return v[lo : lo+len(leaves(sub))]
}

func (e *Exec) mkSeq(st *State, el types.Type, segs []Seg) []*Term {
	ref := e.allocRef(st, types.NewSlice(el), "seq")
	sq := &Seq{Elem: el, Segs: segs}
	st.seqs[int64(ref.N)] = sq
	n := seqLen(sq)
	return []*Term{ref, BV64(0), n, n}
}

// ---- calls ----

func (e *Exec) callTargets(fr *Frame, c *ssa.CallCommon) (fn *Term, args []*Term) {
	if c.IsInvoke() {
		fn = e.val1(fr, c.Value)
	} else if v := e.val(fr, c.Value); len(v) == 1 {
		fn = v[0]
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a)...)
	}
	return fn, args
}

func (e *Exec) call(fr *Frame, st *State, in *ssa.Call) []Outcome {
	fn, args := e.callTargets(fr, &in.Call)
	if b, ok := in.Call.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b, &in.Call, args, in)
	}
	return e.invoke(st, &in.Call, fn, args, nil, e.pos(in.Pos()))
}

func splitArgs(ts []types.Type, args []*Term) [][]*Term {
	var out [][]*Term
	k := 0
	for _, t := range ts {
		n := len(leaves(t))
		out = append(out, args[k:k+n])
		k += n
	}
	return out
}

func sigTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (e *Exec) invoke(st *State, c *ssa.CallCommon, fn *Term, args []*Term, rec *recState, pos string) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(nil, st, b, c, args, nil)
	}
	if c.IsInvoke() {
		return e.invokeIface(st, c.Method, c.Value.Type(), fn, args, pos)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return e.callStatic(st, f, args, nil, rec, pos)
	}
	return e.callValue(st, c.Signature(), fn, args, rec, pos)
}

func (e *Exec) callValue(st *State, sig *types.Signature, fn *Term, args []*Term, rec *recState, pos string) []Outcome {
	if fn.Op == "ite" {
		var res []Outcome
		for k, c := range []*Term{fn.Args[0], Not(fn.Args[0])} {
			if e.feasible(st, c) {
				s2 := st.clone()
				s2.assume(c)
				res = append(res, e.callValue(s2, sig, fn.Args[1+k], args, rec, pos)...)
			}
		}
		return res
	}
	if f, bs := e.w.funcOf(fn); f != nil {
		return e.callStatic(st, f, args, bs, rec, pos)
	}
	if fn.Op == "int" && fn.N == 0 {
		return []Outcome{{st: st, panicked: true, pval: runtimePanic("nil function")}}
	}
	return e.opaqueCall(st, "cb", fn, sig, args, pos)
}

// opaqueCall is a call of code we know nothing about.
func (e *Exec) opaqueCall(st *State, name string, fn *Term, sig *types.Signature, args []*Term, pos string) []Outcome {
	e.raise(st, "callback-under-lock", fmt.Sprintf("calls %s holding %s", describeFn(name, fn), e.heldNames(st)), pos, BoolT(len(st.held) == 0 || e.allowUnderLock(name, fn)))
	e.publish(st, args...)
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		for _, l := range leaves(sig.Results().At(i).Type()) {
			v := Fresh(fmt.Sprintf("res:%s", name)+l.Path, l.Sort)
			v.old = v.Sort == SInt
			res = append(res, v)
		}
	}
	st.sliceResults(sig, res)
	ev := &Event{Name: name, Fn: fn, Args: args, ArgT: sigTypes(sig), Guard: True, Pos: pos, Heap: copyHeap(st.heap), Res: res}
	st.events = append(st.events, ev)
	e.called(st, ev, sigTypes(sig), args)
	return []Outcome{{st: st, ret: res}}
}

func describeFn(name string, fn *Term) string {
	if name == "cb" && fn != nil {
		return "the function value " + fn.String()
	}
	return name
}

func (e *Exec) heldNames(st *State) string {
	if len(st.held) == 0 {
		return "no lock"
	}
	var n []string
	for _, h := range st.held {
		n = append(n, h.name)
	}
	sort.Strings(n)
	return strings.Join(n, ", ")
}

func (e *Exec) allowUnderLock(name string, fn *Term) bool {
	if e.cur == nil {
		return false
	}
	for _, a := range e.cur.AllowUnderLock {
		if a == "*" || a == name {
			return true
		}
		if name == "cb" && fn != nil && fn.Op == "var" && strings.HasPrefix(fn.S, "p:"+a) {
			return true
		}
	}
	return false
}

func (e *Exec) invokeIface(st *State, m *types.Func, it types.Type, recv *Term, args []*Term, pos string) []Outcome {
	if recv.Op == "ite" {
		var res []Outcome
		for k, c := range []*Term{recv.Args[0], Not(recv.Args[0])} {
			if e.feasible(st, c) {
				s2 := st.clone()
				s2.assume(c)
				res = append(res, e.invokeIface(s2, m, it, recv.Args[1+k], args, pos)...)
			}
		}
		return res
	}
	if recv.Op == "int" && recv.N == 0 {
		return []Outcome{{st: st, panicked: true, pval: runtimePanic("nil interface")}}
	}
	if t, v := e.w.boxed(recv); t != nil {
		f := e.w.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f != nil {
			return e.callStatic(st, f, append(append([]*Term{}, v...), args...), nil, nil, pos)
		}
	}
	sig := m.Type().(*types.Signature)
	q := "iface:" + typeKey(it) + "." + m.Name()
	if e.w.db.quiet[typeKey(it)+"."+m.Name()] {
		// a deterministic query of the receiver
		var res []*Term
		k := 0
		for i := 0; i < sig.Results().Len(); i++ {
			for range leaves(sig.Results().At(i).Type()) {
				l := leaves(sig.Results().At(i).Type())[0]
				_ = l
			}
			for _, l := range leaves(sig.Results().At(i).Type()) {
				u := AbsUF(fmt.Sprintf("%s#%d", q, k), l.Sort, append([]*Term{recv}, args...)...)
				u.old = l.Sort == SInt
				res = append(res, u)
				k++
			}
		}
		return []Outcome{{st: st, ret: res}}
	}
	return e.opaqueCall(st, q, recv, sig, args, pos)
}

func (e *Exec) callStatic(st *State, f *ssa.Function, args, bindings []*Term, rec *recState, pos string) []Outcome {
	key := e.w.funcKey(f)
	if m, ok := models[key]; ok {
		e.mods[key] = true
		return m(e, st, f, args, pos)
	}
	if outs, ok := e.genericModel(st, f, key, args, pos); ok {
		e.mods[key] = true
		return outs
	}
	if c := e.w.db.byKey[key]; c != nil && f != e.top && !e.noContract(c) {
		if !c.Trusted && !c.Unfold && e.w.inRepo(f) {
			e.used[key] = true
		}
		switch c.Kind {
		case "op":
			return e.callOp(st, c, f, args, pos)
		case "pure":
			return e.callPure(st, c, f, args, pos)
		case "proc":
			return e.callProc(st, c, f, args, pos)
		}
	}
	if !e.w.inRepo(f) {
		if o, ok := e.external(st, f, key, args, pos); ok {
			e.mods[key] = true
			return o
		}
		if len(f.Blocks) == 0 || !e.w.inlineStd(f) {
			unsupported("call of %s", key)
		}
	}
	if f == e.top && e.depth >= 1 {
		if c := e.w.db.byKey[key]; c != nil {
			switch c.Kind {
			case "op":
				return e.callOp(st, c, f, args, pos)
			case "pure":
				return e.callPure(st, c, f, args, pos)
			case "proc":
				return e.callProc(st, c, f, args, pos)
			}
		}
		unsupported("recursion on %s", key)
	}
	e.inl[key] = true
	return e.runFunc(st, f, args, bindings, rec)
}

func (e *Exec) noContract(c *FuncContract) bool {
	if e.open[c.Key] {
		return true
	}
	if e.cur != nil {
		for _, n := range e.cur.Inline {
			if n == c.Key || strings.HasSuffix(c.Key, n) {
				return true
			}
		}
	}
	return false
}

func (e *Exec) callOp(st *State, c *FuncContract, f *ssa.Function, args []*Term, pos string) []Outcome {
	sig := f.Signature
	if c.CallsBack {
		e.raise(st, "callback-under-lock", fmt.Sprintf("calls %s (which runs callbacks) holding %s", c.Key, e.heldNames(st)), pos, BoolT(len(st.held) == 0 || e.allowUnderLock(c.Key, nil)))
	}
	for _, l := range c.Holding {
		ok := false
		for _, h := range st.held {
			ok = ok || h.name == l && h.write
		}
		if e.cur != nil {
			for _, m := range e.cur.Holding {
				ok = ok || m == l
			}
		}
		if !ok {
			e.raise(st, "not-locked", fmt.Sprintf("calls %s without holding %s", c.Key, l), pos, False)
		}
	}
	if len(c.Locks) > 0 {
		for _, h := range st.held {
			for _, l := range c.Locks {
				if h.name == l && !c.Reentrant {
					e.raise(st, "self-deadlock", fmt.Sprintf("calls %s, which takes %s, while holding it", c.Key, l), pos, False)
				}
			}
		}
	}
	for _, r := range c.Requires {
		if !r.Free {
			t := e.evalBool(r.Expr, &specCtx{e: e, st: st, env: e.specEnv(c, f, args, nil), old: st.heap, cur: st.heap, pkg: e.w.tpkgs[c.Pkg]})
			e.raise(st, "requires:"+c.Key+":"+r.Name, "precondition of "+c.Key, pos, t)
			st.assume(t)
		}
	}
	e.publish(st, args...)
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		for _, l := range leaves(rt) {
			v := Fresh("r:"+c.Key+l.Path, l.Sort)
			v.old = v.Sort == SInt
			res = append(res, v)
			if l.Sort == SInt && c.NonNilResult {
				e.w.nonnil[v] = true
				st.assume(Not(Eq(v, IntT(0))))
			}
		}
	}
	ts := []types.Type{}
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	ts = append(ts, sigTypes(sig)...)
	st.sliceResults(sig, res)
	ev := &Event{Name: "op:" + c.Key, Args: args, ArgT: ts, Guard: True, Pos: pos, Heap: copyHeap(st.heap), Res: res}
	st.events = append(st.events, ev)
	pre := copyHeap(st.heap)
	e.havocPrivate(st, c, f, args)
	e.called(st, ev, ts, args)
	if len(c.Ensures) > 0 && c.AssumeEnsures {
		e.assumeEnsures(st, c, f, args, res, pre, st.heap)
	} else if ps := c.promises(); len(ps) > 0 {
		p := *c
		p.Ensures = ps
		e.assumeEnsures(st, &p, f, args, res, pre, st.heap)
	}
	return []Outcome{{st: st, ret: res}}
}

func (e *Exec) fieldOf(x ast.Expr, ctx *specCtx) []cell {
	if _, ok := x.(*ast.SelectorExpr); !ok {
		return nil
	}
	return e.cellsOf(x, ctx)
}

// havocPrivate forgets what the callee may change and no lock or atomic
// access will refresh: variables whose address it is given, objects used by
// one goroutine at a time, state whose lock the caller holds.
func (e *Exec) havocPrivate(st *State, c *FuncContract, f *ssa.Function, args []*Term) {
	env := e.specEnv(c, f, args, nil)
	for _, m := range c.Modifies {
		ctx := &specCtx{e: e, st: st, env: env, old: st.heap, cur: st.heap, pkg: e.w.tpkgs[c.Pkg]}
		if call, ok := m.(*ast.CallExpr); ok && len(call.Args) == 1 {
			// what a field owns is refreshed with the field
			private := false
			for _, cell := range e.cellsOf(m, ctx) {
				private = private || st.isLocal(cell.ref)
			}
			for _, cell := range e.fieldOf(call.Args[0], ctx) {
				hit := e.w.findRule(cell.loc.Root, cell.loc.Path)
				private = private || hit == nil || hit.rule.Kind == "guarded" && e.holds(st, e.lockPtrFor(st.heap, hit, cell.loc), true) == True
			}
			if !private {
				continue
			}
		}
		for _, cell := range e.cellsOf(m, ctx) {
			if cell.ref != nil && cell.ref.Op == "int" && (cell.ref.N == 0 || e.w.globRule[int64(cell.ref.N)] == "atomicvar") {
				continue
			}
			if hit := e.w.findRule(cell.loc.Root, cell.loc.Path); cell.loc.Root != "" && hit != nil && !st.isLocal(cell.ref) {
				if hit.rule.Kind == "atomic" || hit.rule.Kind == "immutable" {
					continue
				}
				if hit.rule.Kind == "guarded" && e.holds(st, e.lockPtrFor(st.heap, hit, cell.loc), true) != True {
					continue
				}
			}
			v := Fresh("h:"+c.Key+"."+cell.key, cell.leafSort())
			v.old = v.Sort == SInt
			cell.write(e, st.heap, v)
		}
	}
}

func (e *Exec) callPure(st *State, c *FuncContract, f *ssa.Function, args []*Term, pos string) []Outcome {
	sig := f.Signature
	var res []*Term
	if c.Unfold {
		return []Outcome{{st: st, ret: e.unfold(st, c, f, args)}}
	}
	k := 0
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		for _, l := range leaves(rt) {
			v := UF(fmt.Sprintf("pure:%s#%d", c.Key, k), l.Sort, e.pureArgs(st, f, args)...)
			if l.Sort == SInt && c.NonNilResult {
				e.w.nonnil[v] = true
				st.assume(Not(Eq(v, IntT(0))))
			}
			if l.Sort == SInt {
				v.old = true
			}
			res = append(res, v)
			k++
		}
	}
	st.sliceResults(sig, res)
	if c.AssumeEnsures {
		e.assumeEnsures(st, c, f, args, res, st.heap, st.heap)
	}
	return []Outcome{{st: st, ret: res}}
}

// pureArgs flattens arguments; slices become their contents where known.
func (e *Exec) pureArgs(st *State, f *ssa.Function, args []*Term) []*Term {
	var ts []types.Type
	if f.Signature.Recv() != nil {
		ts = append(ts, f.Signature.Recv().Type())
	}
	ts = append(ts, sigTypes(f.Signature)...)
	return e.flattenForUF(st, ts, args)
}

func (e *Exec) flattenForUF(st *State, ts []types.Type, args []*Term) []*Term {
	var out []*Term
	for i, a := range splitArgs(ts, args) {
		if sl, ok := under(ts[i]).(*types.Slice); ok {
			out = append(out, e.seqTerm(st, a, sl.Elem()))
			continue
		}
		out = append(out, a...)
	}
	return out
}

// seqTerm is a single Int term standing for the contents of a slice.
func (e *Exec) seqTerm(st *State, a []*Term, el types.Type) *Term {
	if a[0].Op == "int" && a[0].N != 0 {
		if _, ok := st.seqs[int64(a[0].N)]; ok {
			segs := e.segsOf(st, a, el)
			t := UF("seq:nil", SInt)
			for _, s := range segs {
				switch {
				case s.Single != nil:
					t = UF("seq:cons:"+typeKey(el), SInt, append([]*Term{t}, s.Single...)...)
				case s.Heap != nil:
					t = e.seqHeap(t, s.Heap.Heap, []*Term{s.Heap.Arr, s.Heap.Off, s.Heap.Len}, el)
				default:
					println(segs)
					panic(fmt.Sprintf("sequence argument (%+v) %d", s, len(segs)))
				}
			}
			return t
		}
	}
	if a[2].Op == "bv" && a[2].N == 0 {
		return UF("seq:nil", SInt)
	}
	if segs, ok := e.iterSegs(a); ok {
		t := UF("seq:nil", SInt)
		for _, s := range segs {
			t = UF("seq:cons:"+typeKey(el), SInt, append([]*Term{t}, s.Single...)...)
		}
		return t
	}
	return e.seqHeap(UF("seq:nil", SInt), st.heap, a, el)
}

// seqHeap is a sequence followed by the elements of a slice in a heap.
func (e *Exec) seqHeap(t *Term, h map[string]*Term, a []*Term, el types.Type) *Term {
	if h == nil {
		h = map[string]*Term{}
	}
	ha := []*Term{t, a[0], a[1], a[2]}
	for _, l := range leaves(el) {
		ha = append(ha, Select(e.heapGet(h, "elems:"+typeKey(el)+"[]"+l.Path, SArr(SBV(64), l.Sort)), a[0]))
	}
	return UF("seq:heap:"+typeKey(el), SInt, ha...)
}

// callProc uses the callee's contract: requires checked, frame havocked,
// ensures assumed.
func (e *Exec) callProc(st *State, c *FuncContract, f *ssa.Function, args []*Term, pos string) []Outcome {
	env := e.specEnv(c, f, args, nil)
	pre := copyHeap(st.heap)
	for _, r := range c.Requires {
		t := e.evalBool(r.Expr, &specCtx{e: e, st: st, env: env, old: pre, cur: pre, pkg: e.w.tpkgs[c.Pkg]})
		if r.Free {
			st.assume(t)
			continue
		}
		e.raise(st, "requires:"+c.Key+":"+r.Name, "precondition of "+c.Key, pos, t)
		st.assume(t)
	}
	for _, inv := range e.receiverInvariants(c, f) {
		t := e.evalBool(inv.Expr, &specCtx{e: e, st: st, env: env, old: pre, cur: pre, pkg: e.w.tpkgs[c.Pkg]})
		e.raise(st, "invariant:"+c.Key+":"+inv.Name, "invariant "+inv.Name+" of the receiver of "+c.Key, pos, t)
		st.assume(t)
	}
	// havoc the frame
	mine := map[*Term]bool{}
	var cells []cell
	for _, m := range c.Modifies {
		for _, cell := range e.cellsOf(m, &specCtx{e: e, st: st, env: env, old: pre, cur: pre, pkg: e.w.tpkgs[c.Pkg]}) {
			e.checkAccessKey(st, cell, pos)
			v := Fresh("h:"+c.Key+"."+cell.key, cell.leafSort())
			mine[v] = true
			cell.write(e, st.heap, v)
			cells = append(cells, cell)
		}
	}
	var res []*Term
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if el, ok := isPtrTo(sig.Results().At(i).Type()); ok && c.saysFresh(c.Results[i]) {
			// a new object with unknown contents
			ref := e.alloc(st, el, "r:"+c.Key)
			for _, cell := range e.fieldCells(Loc{Ref: ref, Root: noteRoot(el)}, "", el, "*") {
				v := Fresh("r:"+c.Key+cell.key, cell.leafSort())
				v.old = v.Sort == SInt
				mine[v] = true
				cell.write(e, st.heap, v)
				cells = append(cells, cell)
			}
			res = append(res, ref)
			continue
		}
		for _, l := range leaves(sig.Results().At(i).Type()) {
			v := Fresh("r:"+c.Key+l.Path, l.Sort)
			v.old = v.Sort == SInt
			mine[v] = true
			res = append(res, v)
		}
	}
	var facts []*Term
	for _, t := range e.ensuresOf(st, c, f, args, res, pre, st.heap) {
		if t.Op == "and" {
			facts = append(facts, t.Args...)
		} else {
			facts = append(facts, t)
		}
	}
	// what the contract gives by an equation is put in place of the unknown
	for {
		var from, to *Term
		for _, t := range facts {
			if t.Op != "=" {
				continue
			}
			for k := 0; k < 2; k++ {
				if mine[t.Args[k]] && !mentions(t.Args[1-k], t.Args[k]) {
					from, to = t.Args[k], t.Args[1-k]
				}
			}
			if from != nil {
				break
			}
		}
		if from == nil {
			break
		}
		delete(mine, from)
		m := map[*Term]*Term{from: to}
		for i := range facts {
			facts[i] = Subst(facts[i], m)
		}
		for i := range res {
			res[i] = Subst(res[i], m)
		}
		for _, cell := range cells {
			if v := cell.read(e, st.heap); mentions(v, from) {
				cell.write(e, st.heap, Subst(v, m))
			}
		}
	}
	for _, t := range facts {
		st.assume(t)
	}
	if !e.consistent(st) {
		e.raise(st, "contract-consistent:"+c.Key, "the contract of "+c.Key+" cannot be met here", pos, False)
	}
	for _, inv := range e.receiverInvariants(c, f) {
		st.assume(e.evalBool(inv.Expr, &specCtx{e: e, st: st, env: env, old: pre, cur: st.heap, pkg: e.w.tpkgs[c.Pkg]}))
	}
	return []Outcome{{st: st, ret: res}}
}

func (e *Exec) assumeEnsures(st *State, c *FuncContract, f *ssa.Function, args, res []*Term, pre, post map[string]*Term) {
	for _, t := range e.ensuresOf(st, c, f, args, res, pre, post) {
		st.assume(t)
	}
}

func (e *Exec) ensuresOf(st *State, c *FuncContract, f *ssa.Function, args, res []*Term, pre, post map[string]*Term) []*Term {
	env := e.specEnv(c, f, args, res)
	ctx := &specCtx{e: e, st: st, env: env, old: pre, cur: post, pkg: e.w.tpkgs[c.Pkg], assuming: true}
	for _, l := range c.Lets {
		ctx = ctx.with(l.Name, ctx.eval(l.Expr))
	}
	var out []*Term
	for _, en := range c.Ensures {
		out = append(out, e.evalBool(en.Expr, ctx))
	}
	return out
}

// ---- builtins ----

func (e *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, in *ssa.Call) []Outcome {
	ret := func(v ...*Term) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		switch u := under(t).(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return ret(args[3])
			}
			return ret(args[2])
		case *types.Basic:
			return ret(I2BV(Op("str.len", SInt, "", args[0])))
		case *types.Map:
			e.checkOwned(st, args[0], false, "")
			return ret(e.mapLen(st.heap, t, args[0]))
		case *types.Array:
			return ret(BV64(u.Len()))
		case *types.Pointer:
			return ret(BV64(under(u.Elem()).(*types.Array).Len()))
		}
	case "append":
		sl := c.Args[0].Type()
		el := under(sl).(*types.Slice).Elem()
		var extra []Seg
		if isString(c.Args[1].Type()) {
			unsupported("append of a string")
		}
		extra = e.segsOf(st, args[4:8], el)
		if len(extra) == 0 {
			return ret(args[0:4]...)
		}
		if in != nil && !st.isLocal(args[0]) && !(args[0].Op == "int" && args[0].N == 0) {
			if why := appendShares(in); why != "" {
				e.raise(st, "append-shared", why, e.pos(in.Pos()), Eq(args[0], IntT(0)))
			}
		}
		base := e.segsOf(st, args[0:4], el)
		return ret(e.mkSeq(st, el, append(append([]Seg{}, base...), extra...))...)
	case "copy":
		return e.copyBuiltin(st, c, args)
	case "delete":
		m := under(c.Args[0].Type()).(*types.Map)
		n := len(leaves(m.Key()))
		e.checkOwned(st, args[0], true, "")
		if args[0].Op == "int" && args[0].N == 0 {
			return ret()
		}
		k := keyTerm(m.Key(), args[1:1+n])
		if z := Eq(args[0], IntT(0)); z != False && e.feasible(st, z) {
			s2 := st.clone()
			s2.assume(z)
			st.assume(Not(z))
			e.mapDelete(st.heap, c.Args[0].Type(), args[0], k)
			return []Outcome{{st: s2}, {st: st}}
		}
		e.mapDelete(st.heap, c.Args[0].Type(), args[0], k)
		return ret()
	case "close":
		st.events = append(st.events, &Event{Name: "close", Args: args, ArgT: []types.Type{c.Args[0].Type()}, Guard: True, Heap: copyHeap(st.heap)})
		return ret()
	case "recover":
		if fr != nil && fr.rec != nil {
			v := fr.rec.val
			if fr.rec.recovered {
				return ret(IntT(0))
			}
			fr.rec = &recState{val: v, recovered: true}
			return ret(v)
		}
		return ret(IntT(0))
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, x := range args[1:] {
			var lt *Term
			if isFloat(t) {
				unsupported("float min/max")
			} else if isString(t) {
				lt = Op("str.<", SBool, "", x, r)
			} else if isSigned(t) {
				lt = Op("bvslt", SBool, "", x, r)
			} else {
				lt = Op("bvult", SBool, "", x, r)
			}
			if b.Name() == "max" {
				lt = And(Not(lt), Not(Eq(x, r)))
			}
			r = Ite(lt, x, r)
		}
		return ret(r)
	case "print", "println":
		return ret()
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (e *Exec) mapLen(h map[string]*Term, t types.Type, ref *Term) *Term {
	d := e.mapDom(h, t, ref)
	return I2BV(cardOf(d))
}

// cardOf is the number of elements of a finite set.
func cardOf(d *Term) *Term {
	if d.Op == "constarr" && d.Args[0] == False {
		return IntT(0)
	}
	if d.Op == "ite" {
		return Ite(d.Args[0], cardOf(d.Args[1]), cardOf(d.Args[2]))
	}
	return UF("card:"+d.Sort, SInt, d)
}

func (e *Exec) copyBuiltin(st *State, c *ssa.CallCommon, args []*Term) []Outcome {
	sl, ok := under(c.Args[0].Type()).(*types.Slice)
	if !ok || isString(c.Args[1].Type()) {
		unsupported("copy")
	}
	dst, src := args[0:4], args[4:8]
	if dst[2].Op != "bv" || src[2].Op != "bv" {
		// a copy into a fresh slice of the same length
		if dst[0].Op == "int" && dst[2] == src[2] && st.isLocal(dst[0]) && dst[1].Op == "bv" && dst[1].N == 0 {
			st.seqs[int64(dst[0].N)] = &Seq{Elem: sl.Elem(), Segs: e.segsOf(st, src, sl.Elem())}
			return []Outcome{{st: st, ret: []*Term{dst[2]}}}
		}
		unsupported("copy of symbolic length")
	}
	n := dst[2].Int()
	if src[2].Int() < n {
		n = src[2].Int()
	}
	if n > 128 {
		unsupported("copy of %d elements", n)
	}
	var vals [][]*Term
	for k := int64(0); k < n; k++ {
		p := e.elemAddr(st, src, sl.Elem(), BV64(k))
		vals = append(vals, e.load(st, p, sl.Elem(), ""))
	}
	for k := int64(0); k < n; k++ {
		p := e.elemAddr(st, dst, sl.Elem(), BV64(k))
		e.store(st, p, sl.Elem(), vals[k], "")
	}
	return []Outcome{{st: st, ret: []*Term{BV64(n)}}}
}

var _ = math.Pi

// sliceResults: slices returned by a call are slices.
func (st *State) sliceResults(sig *types.Signature, res []*Term) {
	for i, v := range splitArgs(resultTypes(sig), res) {
		if _, ok := under(sig.Results().At(i).Type()).(*types.Slice); ok && len(v) == 4 {
			st.assume(sliceWF(v))
		}
	}
}

// unfold replaces a call by the definition its (separately proved) contract
// gives it.
func (e *Exec) unfold(st *State, c *FuncContract, f *ssa.Function, args []*Term) []*Term {
	if len(c.Ensures) != 1 || f.Signature.Results().Len() != 1 {
		specFail("%s: only a function with one result and one ensures clause can be unfolded", c.Key)
	}
	b, ok := c.Ensures[0].Expr.(*ast.BinaryExpr)
	if id, isID := b.X.(*ast.Ident); !ok || b.Op != token.EQL || !isID || id.Name != c.Results[0] {
		specFail("%s: the clause to unfold must be result == expression", c.Key)
	}
	ctx := &specCtx{e: e, st: st, env: e.specEnv(c, f, args, nil), old: st.heap, cur: st.heap, pkg: e.w.tpkgs[c.Pkg]}
	v := ctx.asType(ctx.eval(b.Y), f.Signature.Results().At(0).Type())
	for i, l := range leaves(f.Signature.Results().At(0).Type()) {
		if l.Sort == SInt && c.NonNilResult && !v[i].isConst() {
			e.w.nonnil[v[i]] = true
		}
	}
	return v
}
