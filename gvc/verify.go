package main

// Generation and discharge of the obligations of one contract.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// VC is one verification condition: a proof obligation on one path.
type VC struct {
	Name, Kind, What, Pos string
	script                []*Term
	goal                  *Term
	abstract              bool
	notes                 []string
	body, alt             string
	Result, Model, Tool   string
	Millis                int64
	Values                []modelValue
}

// Obligation groups the conditions of a clause of a contract.
type Obligation struct {
	Func, Name, What, Pos string
	Kind                  string // value, structural, state
	Status                string // proved, refuted, refuted-abstract, unknown
	Paths                 int
	Tools                 map[string]int
	Model                 string
	Values                []modelValue
	Notes                 []string
	Millis                int64
	Prop                  []string
}

type modelValue struct{ Name, Sort, Value string }

// FuncResult is what became of one contract.
type FuncResult struct {
	Key, Status string // verified, failed, unsupported, unresolved, spec-error
	Why         string
	File        string
	Kind        string
	Obligations []*Obligation
	Inlined     []string
	Models      []string
	Callees     []string
	Paths       int
	Trusted     bool
	Prop        []string
	Millis      int64
}

type verifier struct {
	missing map[missingKey][]*Term
	e       *Exec
	w       *World
	sol     *Solvers
	c       *FuncContract
	vcs     []*VC
	props   map[string][]string
	entry   map[string]*Term
	env     map[string]specVal
	reach   bool
	calls   map[string]bool
}

var bookkeeping = map[string]string{
	"unlocked-access": "C24", "nonatomic-access": "C24", "write-immutable": "C24", "mixed-access": "C24",
	"callback-under-lock": "C23", "lock-released": "C23", "self-deadlock": "C23", "unlock-unheld": "C23", "unlock-mode": "C23", "lock-in-loop": "C23",
}

// sweepProp, when set, is the only bookkeeping property whose obligations
// are generated.
var sweepProp string

func (v *verifier) raiseK(st *State, name, kind, what, pos string, goal *Term) {
	if sweepProp != "" && bookkeeping[name] != sweepProp {
		return
	}
	if goal == True {
		v.vcs = append(v.vcs, &VC{Name: name, Kind: kind, What: what, Pos: pos, goal: True, Result: "proved", Tool: "simplifier"})
		return
	}
	goal = skolem(goal)
	vc := &VC{Name: name, Kind: kind, What: what, Pos: pos, goal: goal, notes: append([]string(nil), st.notes...)}
	asserts := append([]*Term{}, st.pc...)
	vc.script = v.w.withAxioms(append(asserts, Not(goal)))
	for _, a := range asserts {
		vc.abstract = vc.abstract || a.abstract
	}
	vc.abstract = vc.abstract || goal.abstract || len(st.notes) > 0
	vc.body = Script(vc.script)
	if alt, ok := opaqueAll(vc.script); ok {
		vc.alt = Script(alt)
	}
	v.vcs = append(v.vcs, vc)
}

func (v *verifier) freshParam(st *State, name string, t types.Type) []*Term {
	out := freshVal("p:"+name, t)
	for i, l := range leaves(t) {
		if l.Sort == SInt {
			out[i].old = true
		}
	}
	if _, ok := under(t).(*types.Slice); ok {
		st.assume(sliceWF(out))
	}
	return out
}

// withSplits runs f, splitting the state when it needs to know a condition.
func (v *verifier) withSplits(st *State, f func(st *State)) {
	v.splitN(st, f, 0)
}

func (v *verifier) splitN(st *State, f func(st *State), n int) {
	var sp *needSplit
	mark := len(v.vcs)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(needSplit); ok {
					sp = &s
					return
				}
				panic(r)
			}
		}()
		f(st.clone())
	}()
	if sp == nil {
		return
	}
	v.vcs = v.vcs[:mark]
	if n > 12 {
		if os.Getenv("GVC_DEBUG") != "" {
			println(fullString(sp.cond))
		}
		unsupported("too many case splits")
	}
	for _, c := range []*Term{sp.cond, Not(sp.cond)} {
		if v.e.feasible(st, c) {
			s2 := st.clone()
			s2.assume(c)
			v.splitN(s2, f, n+1)
		}
	}
}

// verifyLemma proves a formula over its variables.
func verifyLemma(w *World, sol *Solvers, lm *Lemma) (fr *FuncResult) {
	c := &FuncContract{Key: "lemma " + lm.Name, Pkg: lm.Pkg, Prop: lm.Prop, Kind: "lemma"}
	fr = &FuncResult{Key: c.Key, Kind: "lemma", Prop: lm.Prop}
	t0 := time.Now()
	defer func() { fr.Millis = time.Since(t0).Milliseconds() }()
	v := &verifier{e: newExec(w, sol), w: w, sol: sol, c: c, props: map[string][]string{}, calls: map[string]bool{}}
	v.e.cur = c
	v.e.raise = func(st *State, name, what, pos string, goal *Term) { v.raiseK(st, name, "state", what, pos, goal) }
	func() {
		defer func() {
			if r := recover(); r != nil {
				fr.Status, fr.Why = "spec-error", fmt.Sprint(r)
			}
		}()
		st := newState()
		env := map[string]specVal{}
		pkg := w.tpkgs[lm.Pkg]
		for _, x := range lm.Vars {
			t := w.lookupType(pkg, x[1])
			if t == nil {
				if o := types.Universe.Lookup(x[1]); o != nil {
					t = o.Type()
				}
			}
			if t == nil {
				specFail("unknown type %s", x[1])
			}
			env[x[0]] = specVal{t: t, v: v.freshParam(st, x[0], t)}
		}
		v.raiseK(st, "lemma:"+lm.Name, "value", lm.Text, "", v.e.evalBool(lm.Expr, &specCtx{e: v.e, st: st, env: env, old: st.heap, cur: st.heap, pkg: pkg}))
	}()
	v.discharge(fr)
	return fr
}

func newExec(w *World, sol *Solvers) *Exec {
	return &Exec{w: w, sol: sol, used: map[string]bool{}, wanted: map[string]bool{}, inl: map[string]bool{}, mods: map[string]bool{}, guards: map[*Term]*localGuard{}, guardOf: map[*Term]*Term{}, stable: map[*Term]bool{}}
}

// verify generates and discharges the obligations of contract c. Functions
// that the contract does not mention may be called all the same: if it cannot
// be proved with their contracts, their bodies are looked at.
func verify(w *World, sol *Solvers, c *FuncContract) (fr *FuncResult) {
	fr, used := verifyWith(w, sol, c, nil)
	if fr.Status != "failed" && fr.Status != "unsupported" || len(used) == 0 || c.Kind == "sweep" {
		return fr
	}
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "again with the bodies of", sortedKeys(used))
	}
	again, _ := verifyWith(w, sol, c, used)
	again.Millis += fr.Millis
	if again.Status == "verified" {
		return again
	}
	return fr
}

func verifyWith(w *World, sol *Solvers, c *FuncContract, open map[string]bool) (fr *FuncResult, unmentioned map[string]bool) {
	fr = &FuncResult{Key: c.Key, File: fmt.Sprintf("%s:%d", c.File, c.Line), Kind: c.Kind, Prop: c.Prop}
	t0 := time.Now()
	defer func() { fr.Millis = time.Since(t0).Milliseconds() }()
	if c.Trusted {
		fr.Status, fr.Why, fr.Trusted = "trusted", c.Why, true
		return fr, nil
	}
	fn := w.byKey[c.Key]
	if fn == nil {
		fr.Status, fr.Why = "unresolved", "no function "+c.Key+" in the current tree"
		return fr, nil
	}
	np := fn.Signature.Params().Len()
	if fn.Signature.Recv() != nil {
		np++
	}
	if np != len(c.Params) || len(c.Results) > fn.Signature.Results().Len() {
		fr.Status, fr.Why = "unresolved", "the signature of "+c.Key+" is not the one under contract"
		return fr, nil
	}
	v := &verifier{e: newExec(w, sol), w: w, sol: sol, c: c, props: map[string][]string{}, calls: map[string]bool{}}
	v.e.top, v.e.cur, v.e.open = fn, c, open
	v.e.endless = fn
	v.e.deadline = t0.Add(5 * time.Minute)
	if c.Kind == "sweep" {
		v.e.deadline = t0.Add(15 * time.Second)
	}
	v.e.raise = func(st *State, name, what, pos string, goal *Term) { v.raiseK(st, name, "state", what, pos, goal) }
	defer func() {
		fr.Inlined, fr.Models = sortedKeys(v.e.inl), sortedKeys(v.e.mods)
		fr.Callees = sortedKeys(v.calls)
		fr.Paths = v.e.paths
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case Unsupported:
					fr.Status, fr.Why = "unsupported", r.Why
				case specError:
					fr.Status, fr.Why = "spec-error", r.msg
				default:
					fr.Status, fr.Why = "unsupported", fmt.Sprintf("internal: %v", r)
					if os.Getenv("GVC_DEBUG") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		v.run(fn)
	}()
	v.discharge(fr)
	unmentioned = map[string]bool{}
	for k := range v.e.used {
		if !v.e.wanted[k] {
			unmentioned[k] = true
		}
	}
	return fr, unmentioned
}

func (v *verifier) run(fn *ssa.Function) {
	e, c := v.e, v.c
	st := newState()
	sig := fn.Signature
	var args []*Term
	i := 0
	if sig.Recv() != nil {
		a := v.freshParam(st, c.Params[0], sig.Recv().Type())
		if _, ok := isPtrTo(sig.Recv().Type()); ok && !c.Nilable {
			st.assume(Not(Eq(a[0], IntT(0))))
			v.w.nonnil[a[0]] = true
		}
		args = append(args, a...)
		i = 1
	}
	for k, t := range sigTypes(sig) {
		args = append(args, v.freshParam(st, c.Params[i+k], t)...)
	}
	for _, n := range v.w.globNums() {
		g := v.w.globByN[n]
		el := under(g.Type()).(*types.Pointer).Elem()
		if v.w.globRule[n] == "constant" && g.Pkg == fn.Pkg && len(leaves(el)) == 1 && leaves(el)[0].Sort == SInt {
			st.assume(Not(Eq(readHeap(e, st.heap, e.decode(st, IntT(n), el), leaves(el)[0]), IntT(0))))
		}
	}
	env := e.specEnv(c, fn, args, nil)
	v.env = env
	pkg := v.w.tpkgs[c.Pkg]
	for _, r := range c.Requires {
		st.assume(e.evalBool(r.Expr, &specCtx{e: e, st: st, env: env, old: st.heap, cur: st.heap, pkg: pkg}))
	}
	invs := e.receiverInvariants(c, fn)
	for _, r := range invs {
		st.assume(e.evalBool(r.Expr, &specCtx{e: e, st: st, env: env, old: st.heap, cur: st.heap, pkg: pkg}))
	}
	v.entry = copyHeap(st.heap)
	e.curFn, e.curEnv, e.curEntry = fn, env, v.entry
	if c.NoKeep {
		for i, p := range fn.Params {
			if isFuncT(p.Type()) {
				why := v.w.keepsParam(fn, i, map[ssa.Value]bool{})
				what := "does not keep " + c.Params[i] + " after returning"
				if why != "" {
					what += ", but " + why
				}
				v.raiseK(st, "callback-kept", "structural", what, "", BoolT(why == ""))
			}
		}
	}
	if !e.sol.feasible(v.w.withAxioms(st.pc)) {
		v.raiseK(newState(), "vacuity", "state", "the precondition is unsatisfiable", "", False)
		return
	}
	outs := e.runFunc(st, fn, args, nil, nil)
	for _, o := range outs {
		if !o.panicked && !v.reach {
			v.reach = e.consistent(o.st)
		}
		o := o
		v.withSplits(o.st, func(st *State) {
			o2 := o
			o2.st = st
			v.outcome(c, fn.Signature, o2, env, v.entry, invs, pkg)
		})
	}
	if !v.reach && (c.Panics == nil) {
		v.raiseK(newState(), "vacuity", "state", "no path returns", "", False)
	}
}

// heaps are the heaps before and after, as the contract sees them: for a
// region accessed in a step, its contents when the step began and ended.
func (v *verifier) heaps(st *State, entry map[string]*Term, check func(mains []*Step)) (old, cur map[string]*Term) {
	e := v.e
	old, cur = copyHeap(entry), copyHeap(st.heap)
	for k := range cur {
		if _, ok := old[k]; !ok {
			// first touched later: initially the symbolic initial heap
			_, vs := arrParts(cur[k].Sort)
			old[k] = initialHeapVar(k, vs)
		}
	}
	type grp struct {
		key   string
		steps []*Step
	}
	var groups []*grp
	idx := map[string]*grp{}
	for _, s := range st.steps {
		if s.Local || s.Reg == nil {
			continue
		}
		k := fmt.Sprintf("%s#%d%s", s.Reg.name(), ptrTerm(s.Obj).id, s.Reg.Atom)
		g := idx[k]
		if g == nil {
			g = &grp{key: k}
			idx[k] = g
			groups = append(groups, g)
		}
		g.steps = append(g.steps, s)
	}
	var mains []*Step
	for _, g := range groups {
		var act []*Step
		for _, s := range g.steps {
			if e.stutters(s) != True {
				act = append(act, s)
			}
		}
		main := g.steps[len(g.steps)-1]
		if len(act) > 0 {
			main = act[len(act)-1]
		}
		if len(act) > 1 && check != nil {
			var cs []*Term
			for _, s := range act[:len(act)-1] {
				cs = append(cs, e.stutters(s))
			}
			v.raiseK(st, "atomic-step", "structural", fmt.Sprintf("%s changes in more than one step (%s)", main.Reg.name(), main.Pos), main.Pos, And(cs...))
		}
		mains = append(mains, main)
		for _, c := range e.regionCells(main.Reg, main.Obj, main.Pre) {
			c.write(e, old, c.read(e, main.Pre))
		}
		for _, c := range e.regionCells(main.Reg, main.Obj, main.Post) {
			c.write(e, cur, c.read(e, main.Post))
		}
		for _, k := range e.foreignKeys(main.Reg) {
			if a, ok := main.Pre[k]; ok {
				old[k] = a
			}
			if a, ok := main.Post[k]; ok {
				cur[k] = a
			}
		}
	}
	if check != nil {
		check(mains)
	}
	return old, cur
}

func (v *verifier) outcome(c *FuncContract, sig *types.Signature, o Outcome, env map[string]specVal, entry map[string]*Term, invs []Clause, pkg *types.Package) {
	e, st := v.e, o.st
	for _, ev := range st.events {
		v.noteCallees(ev)
	}
	v.raiseK(st, "lock-released", "state", "returns (or panics) holding "+e.heldNames(st), "", BoolT(len(st.held) == 0))
	if o.panicked {
		if c.Recovering && env["panicking"].v != nil {
			v.raiseK(st, "repanic", "value", "the panic value is passed on unchanged", "", Eq(o.pval, env["panicking"].v[0]))
		} else if c.PanicsAfter != nil {
			// decided once the calls made have been matched
		} else if c.Panics != nil {
			t := e.evalBool(c.Panics.Expr, &specCtx{e: e, st: st, env: env, old: entry, cur: entry, pkg: pkg})
			v.raiseK(st, "panics", "value", "panics only when "+c.Panics.Text+" ("+o.pval.String()+")", "", t)
			return
		} else {
			v.raiseK(st, "no-panic", "value", "may panic: "+o.pval.String(), "", False)
			return
		}
	} else if c.Panics != nil {
		t := e.evalBool(c.Panics.Expr, &specCtx{e: e, st: st, env: env, old: entry, cur: entry, pkg: pkg})
		v.raiseK(st, "panics", "value", "panics when "+c.Panics.Text, "", Not(t))
	} else if c.Recovering {
		if pv := env["panicking"]; pv.v != nil && pv.v[0].Op != "int" {
			v.raiseK(st, "repanic", "value", "a panic in flight is not swallowed", "", Eq(pv.v[0], IntT(0)))
		}
	}
	if !o.panicked {
		e.publish(st, o.ret...)
	}
	var mains []*Step
	old, cur := v.heaps(st, entry, func(ms []*Step) { mains = ms })
	ev2 := map[string]specVal{}
	for k, x := range env {
		ev2[k] = x
	}
	if !o.panicked {
		rts := resultTypes(sig)
		for i, a := range splitArgs(rts, o.ret) {
			x := specVal{t: rts[i], v: a}
			if i < len(c.Results) && c.Results[i] != "_" {
				ev2[c.Results[i]] = x
			}
			ev2[fmt.Sprintf("result%d", i)] = x
			if i == 0 {
				ev2["result"] = x
			}
		}
	}
	ctx := &specCtx{e: e, st: st, env: ev2, old: old, cur: cur, pkg: pkg}
	for _, l := range c.Lets {
		ctx = ctx.with(l.Name, ctx.eval(l.Expr))
	}
	if c.HasEmits || c.Kind == "pure" || c.Kind == "proc" {
		ctx = v.matchEmits(c, st, ctx, c.Emits, st.events)
	}
	if c.PanicsAfter != nil {
		t := e.evalBool(c.PanicsAfter.Expr, ctx)
		if o.panicked {
			v.raiseK(st, "panics", "value", "panics only when "+c.PanicsAfter.Text+" ("+o.pval.String()+")", "", t)
		} else {
			v.raiseK(st, "panics", "value", "panics when "+c.PanicsAfter.Text, "", Not(t))
		}
	}
	if !o.panicked {
		for _, en := range c.Ensures {
			v.props["ensures:"+en.Name] = en.Prop
			v.raiseK(st, "ensures:"+en.Name, "value", en.Text, "", e.evalBool(en.Expr, ctx))
		}
		for _, r := range invs {
			v.raiseK(st, "invariant:"+r.Name, "value", r.Text, "", e.evalBool(r.Expr, ctx))
		}
	}
	v.frame(c, st, ctx, mains, entry)
	for _, cl := range c.Closures {
		if o.panicked {
			continue
		}
		if cl.When != nil && !v.decide(st, e.evalBool(cl.When.Expr, ctx)) {
			continue
		}
		if cl.Value != nil {
			if id, ok := cl.Value.(*ast.Ident); ok && ctx.env[id.Name].t == nil && bindsName(c, id.Name) {
				continue // the call it is passed to is in another branch
			}
			x := ctx.eval(cl.Value)
			if f, _ := v.w.funcOf(x.v[0]); f == nil {
				x.v = []*Term{e.resolveItes(st, x.v[0])}
			}
			v.closure(cl, st, x.v[0], x.t, ctx, pkg)
			continue
		}
		rts := resultTypes(sig)
		t := splitArgs(rts, o.ret)[cl.ResultIdx][0]
		v.closure(cl, st, t, rts[cl.ResultIdx], ctx, pkg)
	}
}

// resolveItes picks the branches of conditionals that the state decides.
func (e *Exec) resolveItes(st *State, t *Term) *Term {
	for n := 0; n < 20; n++ {
		var hit *Term
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if hit != nil || seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "ite" && (!e.feasible(st, t.Args[0]) || !e.feasible(st, Not(t.Args[0]))) {
				hit = t
				return
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(t)
		if hit == nil {
			break
		}
		to := hit.Args[1]
		if !e.feasible(st, hit.Args[0]) {
			to = hit.Args[2]
		}
		t = Subst(t, map[*Term]*Term{hit: to})
	}
	return t
}

func (v *verifier) noteCallees(ev *Event) {
	if strings.HasPrefix(ev.Name, "op:") {
		v.calls[ev.Name[3:]] = true
	}
	for _, a := range ev.Rep {
		for _, x := range a.events {
			v.noteCallees(x)
		}
	}
	if ev.Each != nil {
		for _, x := range ev.Each.Items {
			v.noteCallees(x)
		}
	}
}

func (v *verifier) closure(cl *FuncContract, st *State, t *Term, ft types.Type, ctx *specCtx, pkg *types.Package) {
	f, bs := v.w.funcOf(t)
	if f == nil && cl.Value == nil {
		v.raiseK(st, "closure", "structural", "the returned function is not one the contract can follow: "+t.String(), "", False)
		return
	}
	saved := v.c
	v.c = cl
	savedCur := v.e.cur
	v.e.cur = cl
	savedFn, savedEndless := v.e.curFn, v.e.endless
	v.e.curFn, v.e.endless = nil, f
	savedMark := v.e.nowMark
	v.e.nowMark = freshSeq["now"] + 1
	defer func() {
		v.c = saved
		v.e.cur = savedCur
		v.e.curFn, v.e.endless = savedFn, savedEndless
		v.e.nowMark = savedMark
		v.e.guards, v.e.guardOf = map[*Term]*localGuard{}, map[*Term]*Term{}
	}()
	sig := under(ft).(*types.Signature)
	modes := []*Term{IntT(0)}
	if cl.Recovering {
		pv := Fresh("p:panicking", SInt)
		pv.old = true
		modes = append(modes, pv)
	}
	for _, pv := range modes {
		s2 := st.clone()
		s2.events, s2.steps = nil, nil
		if pv.Op != "int" {
			s2.assume(Not(Eq(pv, IntT(0))))
			v.w.nonnil[pv] = true
		}
		env := map[string]specVal{}
		for k, x := range ctx.env {
			env[k] = x
		}
		if cl.Recovering {
			env["panicking"] = specVal{t: types.NewInterfaceType(nil, nil), v: []*Term{pv}}
		}
		var args []*Term
		var kept []cell
		for i, pt := range sigTypes(sig) {
			n := fmt.Sprintf("a%d", i)
			if i < len(cl.Params) {
				n = cl.Params[i]
			}
			a := v.freshParam(s2, n, pt)
			args = append(args, a...)
			if i < len(cl.Params) {
				env[cl.Params[i]] = specVal{t: pt, v: a}
			}
		}
		if f != nil {
			if cl.Stays {
				v.e.watch = func(c cell) { kept = append(kept, c) }
				v.e.forgetCaptured(s2, f, bs)
				v.e.watch = nil
			} else if !cl.First {
				v.e.forgetCaptured(s2, f, bs)
			}
			v.e.declareGuards(s2, cl, f, bs)
			for i, fv := range f.FreeVars {
				if _, ok := env[fv.Name()]; !ok {
					env[fv.Name()] = specVal{t: fv.Type(), v: []*Term{bs[i]}}
				}
			}
			for _, x := range s2.escaped {
				// variables it reaches through other functions declared with it
				if g, gb := v.e.w.funcOf(x); g != nil && g.Parent() == f.Parent() {
					for i, fv := range g.FreeVars {
						if _, ok := env[fv.Name()]; !ok && i < len(gb) {
							env[fv.Name()] = specVal{t: fv.Type(), v: []*Term{gb[i]}}
						}
					}
				}
			}
		}
		for _, g := range v.e.guards {
			g.assume = func(st *State) {
				for _, a := range cl.Assumes {
					st.assume(v.e.evalBool(a.Expr, &specCtx{e: v.e, st: st, env: env, old: st.heap, cur: st.heap, pkg: pkg}))
				}
			}
		}
		for _, r := range cl.Requires {
			s2.assume(v.e.evalBool(r.Expr, &specCtx{e: v.e, st: s2, env: env, old: s2.heap, cur: s2.heap, pkg: pkg}))
		}
		entry := copyHeap(s2.heap)
		for _, c := range kept {
			c.read(v.e, entry)
		}
		var outs []Outcome
		if f == nil {
			outs = v.e.callValue(s2, sig, t, args, nil, "")
		} else {
			outs = v.e.runFunc(s2, f, args, bs, &recState{val: pv})
		}
		for _, o := range outs {
			o := o
			for _, c := range kept {
				v.raiseK(o.st, "stays", "value", "later calls leave what the first one set up as it is", "", Eq(c.read(v.e, o.st.heap), c.read(v.e, entry)))
			}
			v.withSplits(o.st, func(st *State) {
				o2 := o
				o2.st = st
				v.outcome(cl, sig, o2, env, entry, nil, pkg)
			})
		}
	}
}

// frame: what the contract does not list is unchanged.
func (v *verifier) frame(c *FuncContract, st *State, ctx *specCtx, mains []*Step, entry map[string]*Term) {
	e := v.e
	octx := *ctx
	octx.cur = ctx.old
	var mods []cell
	for _, m := range c.Modifies {
		mods = append(mods, e.cellsOf(m, &octx)...)
	}
	for _, m := range c.Makes {
		if v.madeByCall(m, &octx) {
			mods = append(mods, e.cellsOf(m, &octx)...)
		}
	}
	listed := func(key string, ref *Term) []*Term {
		var out []*Term
		for _, m := range mods {
			if m.key == key {
				out = append(out, Eq(m.ref, ref))
			}
		}
		return out
	}
	covered := map[string]map[*Term]bool{}
	cover := func(key string, ref *Term) {
		if covered[key] == nil {
			covered[key] = map[*Term]bool{}
		}
		covered[key][ref] = true
	}
	for _, s := range st.steps {
		if s.Reg == nil {
			continue
		}
		for _, h := range []map[string]*Term{s.Pre, s.Post} {
			for _, cl := range e.regionCells(s.Reg, s.Obj, h) {
				cover(cl.key, cl.ref)
			}
		}
	}
	if c.Kind == "sweep" {
		return
	}
	for _, s := range mains {
		for _, cl := range e.regionCells(s.Reg, s.Obj, s.Pre) {
			ok := Or(listed(cl.key, cl.ref)...)
			if ok == True {
				continue
			}
			g := Or(ok, Eq(cl.read(e, s.Pre), cl.read(e, s.Post)))
			v.raiseK(st, "frame", "structural", "changes "+s.Reg.Decl.Name+cl.field+", which the contract does not list", s.Pos, g)
		}
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		now := st.heap[k]
		was, ok := entry[k]
		if !ok {
			_, vs := arrParts(now.Sort)
			was = initialHeapVar(k, vs)
		}
		for t := now; t != was; {
			if t.Op != "store" {
				break // replaced wholesale by a region's havoc
			}
			ref := t.Args[1]
			switch {
			case ref.Op == "int" && int64(ref.N) >= FreshBase:
			case covered[k][ref]:
			default:
				if _, own := st.owned[ref]; own {
					break
				}
				g := Or(append(listed(k, ref), Eq(t.Args[2], Select(t.Args[0], ref)))...)
				if g != True {
					v.raiseK(st, "frame", "structural", "changes "+k+", which the contract does not list", "", g)
				}
			}
			t = t.Args[0]
		}
	}
}

// ---- discharge ----

func (v *verifier) discharge(fr *FuncResult) {
	var todo []*VC
	seen := map[string]*VC{}
	dups := map[*VC]*VC{}
	for _, vc := range v.vcs {
		if vc.Result != "" {
			continue
		}
		if d, ok := seen[vc.body]; ok {
			dups[vc] = d
			continue
		}
		seen[vc.body] = vc
		todo = append(todo, vc)
	}
	var wg sync.WaitGroup
	ch := make(chan *VC)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for vc := range ch {
				t0 := time.Now()
				if vc.alt != "" {
					// arithmetic as uninterpreted functions: enough for most
					if r, _ := v.sol.z3(vc.alt, 3000, false); r == "unsat" {
						vc.Result, vc.Tool = "proved", z3Bin
					}
				}
				if vc.Result == "" {
					vc.Result, vc.Model, vc.Tool = v.sol.proveBody(vc.body, solverTimeout)
				}
				vc.Millis = time.Since(t0).Milliseconds()
			}
		}()
	}
	for _, vc := range todo {
		ch <- vc
	}
	close(ch)
	wg.Wait()
	for d, o := range dups {
		d.Result, d.Model, d.Tool = o.Result, o.Model, o.Tool
	}
	byName := map[string]*Obligation{}
	rank := map[string]int{"proved": 0, "unknown": 1, "refuted-abstract": 2, "refuted": 3}
	for _, vc := range v.vcs {
		status := vc.Result
		if status == "error" {
			status = "unknown"
		}
		if status == "refuted" && (vc.abstract || strings.Contains(vc.body, "(forall")) {
			status = "refuted-abstract"
		}
		k := vc.Name
		o := byName[k]
		if o == nil {
			o = &Obligation{Func: fr.Key, Name: k, What: vc.What, Pos: vc.Pos, Kind: vc.Kind, Status: "proved", Tools: map[string]int{}}
			o.Prop = v.props[k]
			byName[k] = o
			fr.Obligations = append(fr.Obligations, o)
		}
		o.Paths++
		if vc.Tool != "" {
			o.Tools[vc.Tool]++
		}
		o.Millis += vc.Millis
		if rank[status] > rank[o.Status] {
			o.Status, o.What, o.Pos, o.Kind, o.Notes = status, vc.What, vc.Pos, vc.Kind, vc.notes
			o.Model = vc.Model
			o.Values = parseModel(vc.Model)
			if os.Getenv("GVC_DUMP") != "" {
				fmt.Fprintf(os.Stderr, "--- %s %s: %s\n%s\n", fr.Key, k, vc.What, vc.body)
			}
		}
	}
	if fr.Status == "" {
		fr.Status = "verified"
		for _, o := range fr.Obligations {
			if o.Status != "proved" {
				fr.Status = "failed"
			}
		}
	}
}

var solverTimeout = 10000

// parseModel extracts the scalar values of a z3 model.
func parseModel(m string) []modelValue {
	var out []modelValue
	i := 0
	for {
		j := strings.Index(m[i:], "(define-fun ")
		if j < 0 {
			break
		}
		i += j
		depth, k, inq, ins := 0, i, false, false
		for ; k < len(m); k++ {
			ch := m[k]
			if inq {
				inq = ch != '|'
				continue
			}
			if ins {
				ins = ch != '"'
				continue
			}
			switch ch {
			case '|':
				inq = true
			case '"':
				ins = true
			case '(':
				depth++
			case ')':
				depth--
			}
			if depth == 0 {
				break
			}
		}
		if k > len(m) {
			k = len(m)
		}
		def := strings.Join(strings.Fields(m[i:min(k+1, len(m))]), " ")
		i = min(k+1, len(m))
		def = strings.TrimSuffix(strings.TrimPrefix(def, "(define-fun "), ")")
		name := ""
		if strings.HasPrefix(def, "|") {
			e := strings.Index(def[1:], "|")
			if e < 0 {
				continue
			}
			name, def = def[1:1+e], strings.TrimSpace(def[e+2:])
		} else {
			name, def = cutWord(def)
		}
		if !strings.HasPrefix(def, "() ") {
			continue
		}
		def = def[3:]
		for _, s := range []string{"(_ BitVec 64)", "(_ BitVec 32)", "(_ BitVec 8)", SF64, SF32, SString, SBool} {
			if strings.HasPrefix(def, s+" ") {
				out = append(out, modelValue{name, s, strings.TrimSpace(def[len(s):])})
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Name < out[b].Name })
	return out
}

var _ ast.Expr

var opaqueOps = map[string]bool{"bvurem": true, "bvudiv": true, "bvsdiv": true, "bvsrem": true, "bvmul": true, "fp.mul": true, "fp.div": true,
	"fp.add": true, "fp.sub": true, "fp.of.s": true, "fp.of.u": true, "fp.of.f": true, "fp.to.s": true, "fp.to.u": true}

// opaqueAll replaces hard arithmetic by uninterpreted functions: a weaker
// assumption, so that what is proved this way is proved.
func opaqueAll(ts []*Term) ([]*Term, bool) {
	cache := map[*Term]*Term{}
	hit := false
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := cache[t]; ok {
			return r
		}
		r := t
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = walk(a)
				ch = ch || args[i] != a
			}
			if opaqueOps[t.Op] {
				hit = true
				sg := ""
				for _, a := range args {
					sg += ":" + a.Sort
				}
				r = UF("opq:"+t.Op+t.S+sg+":"+t.Sort, t.Sort, args...)
			} else if ch {
				r = rebuild(t, args)
			}
		}
		cache[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = walk(t)
	}
	return out, hit
}

// skolem replaces the universally quantified variables of a goal by fresh
// constants.
func skolem(g *Term) *Term {
	switch g.Op {
	case "forall":
		return skolem(Subst(g.Args[1], map[*Term]*Term{g.Args[0]: Fresh("any", g.Args[0].Sort)}))
	case "=":
		// arrays are equal when they agree everywhere
		if a, b := g.Args[0], g.Args[1]; isArr(a.Sort) && (hasLambda(a) || hasLambda(b)) {
			ks, _ := arrParts(a.Sort)
			k := Fresh("any", ks)
			return skolem(Eq(Select(a, k), Select(b, k)))
		}
		if a, b := g.Args[0], g.Args[1]; a.Sort == SString {
			// texts are equal when their parts are
			x, y := pieces(a), pieces(b)
			for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
				x, y = x[1:], y[1:]
			}
			for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
				x, y = x[:len(x)-1], y[:len(y)-1]
			}
			if len(x) == 1 && len(y) == 1 && x[0].Op == "uf" && y[0].Op == "uf" && x[0].S == y[0].S && (x[0].S == "concat" || strings.HasPrefix(x[0].S, "joinsorted:") || strings.HasPrefix(x[0].S, "joinset:")) {
				var cs []*Term
				for i := range x[0].Args {
					if strings.HasPrefix(x[0].S, "joinset:") && i == 3 {
						continue // some order
					}
					cs = append(cs, skolem(Eq(x[0].Args[i], y[0].Args[i])))
				}
				return And(cs...)
			}
		}
	case "or", "and":
		args := make([]*Term, len(g.Args))
		for i, a := range g.Args {
			args[i] = skolem(a)
		}
		if g.Op == "or" {
			return Or(args...)
		}
		return And(args...)
	}
	return g
}

func pieces(t *Term) []*Term {
	if t.Op == "str.++" {
		return t.Args
	}
	return []*Term{t}
}

func hasLambda(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t.Op == "lambda" {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// bindsName: the contract names an argument of a call so.
func bindsName(c *FuncContract, name string) bool {
	found := false
	for _, s := range c.Emits {
		ast.Inspect(s, func(n ast.Node) bool {
			if x, ok := n.(*ast.CallExpr); ok && exprStr(x.Fun) == "bind" && len(x.Args) == 1 && exprStr(x.Args[0]) == name {
				found = true
			}
			return true
		})
	}
	return found
}

// madeByCall: the object was returned by a call whose contract says it is new.
func (v *verifier) madeByCall(m ast.Expr, ctx *specCtx) bool {
	sel, ok := m.(*ast.SelectorExpr)
	if !ok {
		specFail("makes: %s", exprStr(m))
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok || ctx.env[id.Name].t == nil {
		return false // not on this path
	}
	t := ctx.env[id.Name].v[0]
	if t.Op != "var" || !strings.HasPrefix(t.S, "r:") {
		specFail("makes: %s is not the result of a call", id.Name)
	}
	k := strings.TrimPrefix(t.S[:strings.LastIndex(t.S, "!")], "r:")
	c := v.w.db.byKey[k]
	if c == nil || len(c.Results) == 0 {
		specFail("makes: no contract for %s", k)
	}
	for _, en := range c.Ensures {
		if strings.Contains(en.Text, "fresh("+c.Results[0]+")") {
			return true
		}
	}
	specFail("makes: the contract of %s does not say that its result is new", k)
	return false
}
