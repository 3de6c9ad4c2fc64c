package main

// Matching the calls an execution makes against a contract's emits block.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// needSplit asks the driver to consider both values of a condition.
type needSplit struct{ cond *Term }

// matcher matches one run.
type matcher struct {
	v       *verifier
	c       *FuncContract
	st      *State
	ordered bool
	events  []*Event
	used    []bool
	last    int
	lastEv  int
	labels  map[string]int
	latest  bool
}

func (v *verifier) matchEmits(c *FuncContract, st *State, ctx *specCtx, stmts []ast.Stmt, events []*Event) *specCtx {
	m := &matcher{v: v, c: c, st: st, ordered: c.Ordered, events: events, used: make([]bool, len(events)), last: -1}
	for i, ev := range events {
		if m.ignored(ev) {
			m.used[i] = true
		}
	}
	ctx = m.stmts(ctx, stmts)
	if c.AnyEvents {
		return ctx
	}
	for i, ev := range events {
		if !m.used[i] && !m.harmless(ev) {
			v.raiseK(st, "emits", "structural", fmt.Sprintf("makes a call the contract does not allow: %s", eventStr(ev)), ev.Pos, False)
		}
	}
	return ctx
}

func eventStr(ev *Event) string {
	if ev.Each != nil {
		var items []string
		for _, it := range ev.Each.Items {
			items = append(items, eventStr(it))
		}
		return "for each element { " + strings.Join(items, "; ") + " }"
	}
	if ev.Rep != nil {
		var alts []string
		for _, a := range ev.Rep {
			var items []string
			for _, it := range a.events {
				items = append(items, eventStr(it))
			}
			alts = append(alts, strings.Join(items, "; "))
		}
		return "repeatedly { " + strings.Join(alts, " or ") + " }"
	}
	var as []string
	for _, a := range ev.Args {
		as = append(as, a.String())
	}
	n := ev.Name
	if ev.Fn != nil {
		n += "<" + ev.Fn.String() + ">"
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// harmless: calls of functions that by their contracts change nothing, call
// nobody and are seen by nobody.
func (m *matcher) harmless(ev *Event) bool {
	if ev.Rep != nil {
		return false
	}
	if ev.Each != nil {
		for _, x := range ev.Each.Items {
			if !m.harmless(x) {
				return false
			}
		}
		return true
	}
	k, ok := strings.CutPrefix(ev.Name, "op:")
	if !ok {
		return false
	}
	c := m.v.e.w.db.byKey[k]
	return c != nil && c.Kind == "op" && c.HasEmits && len(c.Emits) == 0 && !c.AnyEvents && len(c.Modifies) == 0 && !c.CallsBack && !c.Trusted && c.PanicsAfter == nil
}

func (m *matcher) ignored(ev *Event) bool {
	for _, i := range m.c.Ignore {
		if ev.Name == i || strings.HasSuffix(ev.Name, i) {
			return true
		}
	}
	if ev.Each != nil {
		for _, x := range ev.Each.Items {
			if !m.ignored(x) {
				return false
			}
		}
		return true
	}
	return false
}

// decide settles a condition on this path or asks for a split.
func (v *verifier) decide(st *State, cond *Term) bool {
	if cond == True {
		return true
	}
	if cond == False {
		return false
	}
	if st.knows(cond) {
		return true
	}
	if st.knows(Not(cond)) {
		return false
	}
	t, f := v.e.feasible(st, cond), v.e.feasible(st, Not(cond))
	switch {
	case t && !f:
		return true
	case f && !t:
		return false
	}
	panic(needSplit{cond})
}

func (m *matcher) stmts(ctx *specCtx, ss []ast.Stmt) *specCtx {
	for _, s := range ss {
		ctx = m.stmt(ctx, s)
	}
	return ctx
}

func (m *matcher) stmt(ctx *specCtx, s ast.Stmt) *specCtx {
	switch s := s.(type) {
	case *ast.ExprStmt:
		call, ok := s.X.(*ast.CallExpr)
		if !ok {
			specFail("emits: %s", exprStr(s.X))
		}
		if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "assert" && len(call.Args) == 2 {
			// assert("name", formula): what holds on this branch
			n := "ensures:" + constant.StringVal(ctx.constArg(call.Args[0]))
			m.v.props[n] = m.v.c.EmitsProp
			if ok, is := m.before(call.Args[1]); is {
				m.v.raiseK(m.st, n, "value", exprStr(call.Args[1]), "", BoolT(ok))
				return ctx
			}
			m.v.raiseK(m.st, n, "value", exprStr(call.Args[1]), "", ctx.boolArg(call.Args[1]))
			return ctx
		}
		ev, _ := m.call(ctx, call)
		return m.bindArgs(ctx, call, ev)
	case *ast.AssignStmt:
		call, ok := s.Rhs[0].(*ast.CallExpr)
		if ok && exprStr(call.Fun) == "latest" && len(call.Args) == 1 {
			// of several equal calls the last one
			if c2, ok := call.Args[0].(*ast.CallExpr); ok {
				call = c2
				m.latest = true
				defer func() { m.latest = false }()
			}
		}
		if !ok || !m.isEventCall(ctx, call) {
			v := ctx.eval(s.Rhs[0])
			if tu, ok := v.t.(*types.Tuple); ok && len(s.Lhs) == tu.Len() && len(s.Lhs) > 1 {
				var ts []types.Type
				for i := 0; i < tu.Len(); i++ {
					ts = append(ts, tu.At(i).Type())
				}
				for i, x := range splitArgs(ts, v.v) {
					ctx = ctx.with(s.Lhs[i].(*ast.Ident).Name, specVal{t: ts[i], v: x})
				}
				return ctx
			}
			return ctx.with(s.Lhs[0].(*ast.Ident).Name, v)
		}
		ev, rt := m.call(ctx, call)
		var vals [][]*Term
		if ev != nil {
			vals = splitArgs(rt, ev.Res)
		} else {
			for i, t := range rt {
				vals = append(vals, m.v.missingVal(call, i, t))
			}
		}
		for i, l := range s.Lhs {
			if id := l.(*ast.Ident).Name; id != "_" && i < len(rt) {
				ctx = ctx.with(id, specVal{t: rt[i], v: vals[i]})
			}
		}
		return m.bindArgs(ctx, call, ev)
	case *ast.IfStmt:
		if s.Init != nil {
			ctx = m.stmt(ctx, s.Init)
		}
		// names bound in the branch taken remain bound
		if m.v.decide(m.st, ctx.boolArg(s.Cond)) {
			return m.stmts(ctx, s.Body.List)
		} else if s.Else != nil {
			switch el := s.Else.(type) {
			case *ast.BlockStmt:
				return m.stmts(ctx, el.List)
			default:
				return m.stmt(ctx, el)
			}
		}
		return ctx
	case *ast.LabeledStmt:
		// a name for the call, for before(a, b)
		m.lastEv = -1
		ctx = m.stmt(ctx, s.Stmt)
		if m.labels == nil {
			m.labels = map[string]int{}
		}
		if m.lastEv >= 0 {
			m.labels[s.Label.Name] = m.lastEv
			c2 := *ctx
			c2.marks = map[string]*Event{}
			for k, x := range ctx.marks {
				c2.marks[k] = x
			}
			c2.marks[s.Label.Name] = m.events[m.lastEv]
			ctx = &c2
		}
		return ctx
	case *ast.RangeStmt:
		if cond, ok := searches(s); ok {
			return m.searchStmt(ctx, s, cond)
		}
		return m.rangeStmt(ctx, s)
	case *ast.BlockStmt:
		return m.stmts(ctx, s.List)
	case *ast.ForStmt:
		// for { ... }: what may happen any number of times
		if s.Cond != nil || s.Init != nil || s.Post != nil {
			specFail("emits: only 'for {' and 'for range' loops")
		}
		for i, ev := range m.events {
			if m.used[i] || ev.Rep == nil || m.ordered && i < m.last {
				continue
			}
			m.used[i] = true
			if i > m.last {
				m.last = i
			}
			for _, alt := range ev.Rep {
				alt := alt
				m.v.withSplits(alt.st.clone(), func(st *State) {
					c2 := *ctx
					c2.st = st
					_, c2.cur = m.v.heaps(st, st.heap, nil)
					mm := &matcher{v: m.v, c: m.c, st: st, ordered: m.ordered, events: alt.events, used: make([]bool, len(alt.events)), last: -1}
					for k, e2 := range alt.events {
						mm.used[k] = mm.ignored(e2)
					}
					mm.stmts(&c2, s.Body.List)
					for k, e2 := range alt.events {
						if !mm.used[k] && !mm.harmless(e2) {
							m.v.raiseK(st, "emits", "structural", "in a loop that retries: a call the contract does not allow: "+eventStr(e2), e2.Pos, False)
						}
					}
				})
			}
			break
		}
		return ctx
	}
	specFail("emits: unsupported statement %T", s)
	return ctx
}

// before evaluates before(a, b) and conjunctions of such.
func (m *matcher) before(x ast.Expr) (holds, is bool) {
	switch b := x.(type) {
	case *ast.BinaryExpr:
		if b.Op == token.LAND {
			h1, ok1 := m.before(b.X)
			h2, ok2 := m.before(b.Y)
			return h1 && h2, ok1 && ok2
		}
	case *ast.CallExpr:
		if exprStr(b.Fun) == "before" {
			x, okx := m.labels[exprStr(b.Args[0])]
			y, oky := m.labels[exprStr(b.Args[1])]
			return !okx || !oky || x < y, true
		}
	}
	return false, false
}

// missingVal stands for a result of a call that was not made; it is the same
// when the match is tried again after a case split.
func (v *verifier) missingVal(call *ast.CallExpr, i int, t types.Type) []*Term {
	k := missingKey{call, i}
	if v.missing[k] == nil {
		if v.missing == nil {
			v.missing = map[missingKey][]*Term{}
		}
		v.missing[k] = freshVal("missing", t)
	}
	return v.missing[k]
}

type missingKey struct {
	call *ast.CallExpr
	i    int
}

// bindArgs names the actual arguments at bind(name).
func (m *matcher) bindArgs(ctx *specCtx, call *ast.CallExpr, ev *Event) *specCtx {
	for i, a := range call.Args {
		b, ok := a.(*ast.CallExpr)
		if !ok || exprStr(b.Fun) != "bind" || len(b.Args) != 1 {
			continue
		}
		tg := m.resolveCall(ctx, call)
		n := tg.nrecv + i
		x := specVal{t: tg.args[n].t}
		if ev == nil {
			x.v = m.v.missingVal(call, 1000+i, x.t)
		} else {
			ts := make([]types.Type, len(tg.args))
			for k, a := range tg.args {
				ts[k] = a.t
			}
			x.v = splitArgs(ts, ev.Args)[n]
		}
		ctx = ctx.with(exprStr(b.Args[0]), x)
	}
	return ctx
}

func (m *matcher) isEventCall(ctx *specCtx, x *ast.CallExpr) bool {
	if id, ok := x.Fun.(*ast.Ident); ok {
		if _, shadow := ctx.env[id.Name]; !shadow {
			switch id.Name {
			case "old", "implies", "iff", "ite", "len", "has", "contents", "with", "without", "forall", "exists", "sum", "is", "as", "box", "bytes", "seq":
				return false
			}
		}
	}
	if _, ok := ctx.tryType(x.Fun); ok {
		return false
	}
	f, _, _ := ctx.callee2(x)
	if f != "" {
		fc := m.v.e.w.db.byKey[f]
		return fc != nil && fc.Kind == "op"
	}
	return true
}

func (c *specCtx) callee2(x *ast.CallExpr) (key string, args []*Term, ts []types.Type) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specError); ok {
				key = ""
				return
			}
			panic(r)
		}
	}()
	f, a, t := c.callee(x)
	if f == nil {
		return "", nil, nil
	}
	return c.e.w.funcKey(f), a, t
}

// target describes an expected call.
type target struct {
	name string
	fn   *Term // receiver or function value
	args []expArg
	rt   []types.Type
	text string

	nrecv int // arguments before the written ones
}
type expArg struct {
	v []*Term
	t types.Type
	// wildcard, or a function literal describing the behaviour of a function
	// argument
	any     bool
	elapsed bool
	since   *Term // elapsed since this time
	lit     *ast.FuncLit
	each    []expArg // the arguments of a variadic call, some of them wildcards
}

func (m *matcher) resolveCall(ctx *specCtx, x *ast.CallExpr) target {
	tg := target{text: exprStr(x)}
	results := func(sig *types.Signature) {
		for i := 0; i < sig.Results().Len(); i++ {
			tg.rt = append(tg.rt, sig.Results().At(i).Type())
		}
	}
	addArgs := func(sig *types.Signature, args []ast.Expr) {
		n := sig.Params().Len()
		tg.nrecv = len(tg.args)
		for i := 0; i < n; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == n-1 && !x.Ellipsis.IsValid() && !(len(args) == n && ctx.isSliceArg(args[i], pt)) {
				el := under(pt).(*types.Slice).Elem()
				var segs []Seg
				var each []expArg
				wild := false
				for _, a := range args[i:] {
					v := ctx.eval(a)
					if v.any || v.elapsed || v.since != nil {
						wild = true
						each = append(each, expArg{any: v.any, elapsed: v.elapsed, since: v.since, t: el})
						continue
					}
					segs = append(segs, Seg{Single: ctx.asType(v, el)})
					each = append(each, expArg{v: ctx.asType(v, el), t: el})
				}
				if wild {
					tg.args = append(tg.args, expArg{t: pt, each: each})
					continue
				}
				v := zeroVal(pt)
				if len(segs) > 0 {
					v = ctx.e.mkSeq(ctx.st, el, segs)
				}
				tg.args = append(tg.args, expArg{v: v, t: pt})
				continue
			}
			if i >= len(args) {
				specFail("emits: too few arguments in %s", tg.text)
			}
			a := ctx.eval(args[i])
			switch {
			case a.since != nil:
				tg.args = append(tg.args, expArg{since: a.since, t: pt})
			case a.elapsed:
				tg.args = append(tg.args, expArg{elapsed: true, t: pt})
			case a.any:
				tg.args = append(tg.args, expArg{any: true, t: pt})
			case a.lit != nil:
				tg.args = append(tg.args, expArg{lit: a.lit, t: pt})
			default:
				tg.args = append(tg.args, expArg{v: ctx.asType(a, pt), t: pt})
			}
		}
	}
	switch fx := x.Fun.(type) {
	case *ast.Ident:
		if v, ok := ctx.env[fx.Name]; ok && v.t != nil && isFuncT(v.t) {
			tg.name, tg.fn = "cb", v.v[0]
			sig := under(v.t).(*types.Signature)
			addArgs(sig, x.Args)
			results(sig)
			return tg
		}
		if fx.Name == "close" || fx.Name == "wait" || fx.Name == "recv" || fx.Name == "send" || fx.Name == "again" || fx.Name == "spawn" {
			tg.name = fx.Name
			for _, a := range x.Args {
				v := ctx.eval(a)
				tg.args = append(tg.args, expArg{v: v.v, t: v.t, any: v.any})
				if v.any && fx.Name == "spawn" {
					tg.args[len(tg.args)-1].t = types.NewSignatureType(nil, nil, nil, nil, nil, false)
				} else if v.any {
					tg.args[len(tg.args)-1].t = types.NewChan(types.SendRecv, types.NewStruct(nil, nil))
				}
			}
			if fx.Name == "wait" {
				tg.rt = []types.Type{types.Typ[types.Int]}
			}
			if fx.Name == "recv" && len(tg.args) == 1 && tg.args[0].t != nil {
				tg.rt = []types.Type{under(tg.args[0].t).(*types.Chan).Elem()}
			}
			return tg
		}
		if ctx.pkg != nil {
			if o, ok := ctx.pkg.Scope().Lookup(fx.Name).(*types.Func); ok {
				f := ctx.e.w.prog.Package(o.Pkg()).Func(o.Name())
				tg.name = "op:" + ctx.e.w.funcKey(f)
				addArgs(f.Signature, x.Args)
				results(f.Signature)
				return tg
			}
		}
	case *ast.SelectorExpr:
		if id, ok := fx.X.(*ast.Ident); ok {
			if _, shadow := ctx.env[id.Name]; !shadow {
				if p, ok := ctx.e.w.tpkgs[id.Name]; ok && (ctx.pkg == nil || ctx.pkg.Scope().Lookup(id.Name) == nil) {
					if o, ok := p.Scope().Lookup(fx.Sel.Name).(*types.Func); ok {
						f := ctx.e.w.prog.Package(p).Func(o.Name())
						tg.name = "op:" + ctx.e.w.funcKey(f)
						addArgs(f.Signature, x.Args)
						results(f.Signature)
						return tg
					}
				}
			}
		}
		if px, ok := fx.X.(*ast.ParenExpr); ok && len(x.Args) > 0 {
			// a method expression: the receiver is the first argument
			if t := ctx.e.w.lookupType(ctx.pkg, exprStr(px.X)); t != nil {
				o, _, _ := types.LookupFieldOrMethod(t, true, ctx.pkgOf(t), fx.Sel.Name)
				f := ctx.e.w.prog.FuncValue(o.(*types.Func))
				tg.name = "op:" + ctx.e.w.funcKey(f)
				ra := expArg{any: true, t: f.Signature.Recv().Type()}
				if a := ctx.eval(x.Args[0]); !a.any {
					ra = expArg{v: ctx.asType(a, ra.t), t: ra.t}
				}
				tg.args = append(tg.args, ra)
				addArgs(f.Signature, x.Args[1:])
				results(f.Signature)
				tg.nrecv = 0
				return tg
			}
		}
		v := ctx.eval(fx.X)
		if v.t == nil {
			specFail("emits: cannot call %s", tg.text)
		}
		obj, idx, _ := types.LookupFieldOrMethod(v.t, true, ctx.pkgOf(v.t), fx.Sel.Name)
		switch o := obj.(type) {
		case *types.Var:
			fv := ctx.field(v, idx)
			if !isFuncT(fv.t) {
				break
			}
			tg.name, tg.fn = "cb", fv.v[0]
			sig := under(fv.t).(*types.Signature)
			addArgs(sig, x.Args)
			results(sig)
			return tg
		case *types.Func:
			sig := o.Type().(*types.Signature)
			for _, i := range idx[:len(idx)-1] {
				if el, ok := isPtrTo(v.t); ok {
					s := under(el).(*types.Struct)
					addr := ctx.e.fieldAddr(ctx.st, v.v[0], el, s, i)
					ft := s.Field(i).Type()
					if _, isp := isPtrTo(ft); isp || isIface(ft) {
						v = ctx.loadAt(addr, ft)
					} else {
						v = specVal{t: types.NewPointer(ft), v: []*Term{addr}}
					}
					continue
				}
				v = ctx.field(v, []int{i})
			}
			if isIface(v.t) {
				tg.name, tg.fn = "iface:"+typeKey(v.t)+"."+fx.Sel.Name, v.v[0]
				addArgs(sig, x.Args)
				results(sig)
				return tg
			}
			f := ctx.e.w.prog.FuncValue(o)
			tg.name = "op:" + ctx.e.w.funcKey(f)
			rt := sig.Recv().Type()
			_, wantPtr := isPtrTo(rt)
			_, havePtr := isPtrTo(v.t)
			rv := v.v
			if wantPtr && !havePtr {
				if s, ok := addressable(fx.X); ok {
					rv = ctx.unary(&ast.UnaryExpr{Op: token.AND, X: s}).v
				} else {
					specFail("emits: receiver of %s is not addressable", tg.text)
				}
			} else if !wantPtr && havePtr {
				el, _ := isPtrTo(v.t)
				rv = ctx.loadAt(v.v[0], el).v
			}
			tg.args = append(tg.args, expArg{v: rv, t: rt})
			addArgs(sig, x.Args)
			results(sig)
			return tg
		}
	}
	specFail("emits: cannot call %s", tg.text)
	return tg
}

// argEq is the equality of an expected and an actual argument.
func (m *matcher) argEq(ctx *specCtx, a expArg, v []*Term) *Term {
	if a.each != nil {
		el := under(a.t).(*types.Slice).Elem()
		if _, ok := ctx.e.iterSegs(v); !ok && (v[0].Op != "int" || m.st.seqs[int64(v[0].N)] == nil) {
			return False
		}
		segs := ctx.e.segsOf(m.st, v, el)
		if len(segs) != len(a.each) {
			return False
		}
		var cs []*Term
		for i, s := range segs {
			if s.Single == nil {
				return False
			}
			cs = append(cs, m.argEq(ctx, a.each[i], s.Single))
		}
		return And(cs...)
	}
	if a.elapsed || a.since != nil {
		if _, x := ctx.e.w.boxed(v[0]); x != nil {
			v = x
		}
	}
	if a.since != nil {
		return ctx.elapsed(v[0], a.since)
	}
	if a.elapsed {
		return BoolT(ctx.e.elapsedTerm(v[0]))
	}
	if a.any || a.lit != nil {
		return True
	}
	if sl, ok := under(a.t).(*types.Slice); ok {
		if And(Eq(a.v[0], v[0]), Eq(a.v[1], v[1]), Eq(a.v[2], v[2])) == True {
			return True
		}
		l := len(leaves(a.t))
		if l == 4 {
			return Eq(ctx.e.seqTerm(m.st, a.v, sl.Elem()), ctx.e.seqTerm(m.st, v, sl.Elem()))
		}
	}
	var cs []*Term
	for i := range a.v {
		cs = append(cs, Eq(a.v[i], v[i]))
	}
	return And(cs...)
}

// textWriters send one text to a writer: what they send counts, not how.
var textWriters = map[string]string{"op:fmt.Fprint": "Sprint", "op:fmt.Fprintf": "Sprintf", "op:fmt.Fprintln": "Sprintln", "op:io.WriteString": "string"}

// textEq compares the writers and texts of such calls; it is nil if they are
// to be compared argument by argument.
func (m *matcher) textEq(ctx *specCtx, tg target, ev *Event) *Term {
	if textWriters[tg.name] == "" || textWriters[ev.Name] == "" {
		return nil
	}
	args := []*Term{}
	for _, a := range tg.args {
		if a.v == nil || a.each != nil {
			return nil
		}
		args = append(args, a.v...)
	}
	text := func(name string, args []*Term) *Term {
		w := textWriters[name]
		if w == "string" {
			return args[1]
		}
		pk := ctx.e.w.tpkgs["fmt"]
		f := ctx.e.w.prog.Package(pk).Func(w)
		o, ok := ctx.e.external(m.st, f, "fmt."+w, args[1:], "")
		if !ok || len(o) != 1 {
			return Fresh("text", SString)
		}
		return o[0].ret[0]
	}
	return And(m.argEq(ctx, tg.args[0], ev.Args[:1]), Eq(text(tg.name, args), text(ev.Name, ev.Args)))
}

func (m *matcher) call(ctx *specCtx, x *ast.CallExpr) (*Event, []types.Type) {
	tg := m.resolveCall(ctx, x)
	ctx.e.wanted[strings.TrimPrefix(tg.name, "op:")] = true
	ts := make([]types.Type, len(tg.args))
	for i, a := range tg.args {
		ts[i] = a.t
	}
	best, bestScore := -1, -1
	var why []string
	for i, ev := range m.events {
		if m.used[i] || ev.Name != tg.name && !(textWriters[ev.Name] != "" && textWriters[tg.name] != "") || ev.Each != nil || ev.Rep != nil {
			continue
		}
		if m.ordered && i < m.last {
			continue
		}
		score := 1
		if eq := m.textEq(ctx, tg, ev); eq != nil && (eq == True || ev.Name != tg.name) {
			if eq == True {
				score += 20
			}
			if score > bestScore || m.latest && score == bestScore {
				best, bestScore = i, score
			}
			continue
		} else if ev.Name != tg.name {
			continue
		}
		if tg.fn != nil {
			switch Eq(tg.fn, ev.Fn) {
			case True:
				score += 100
			case False:
				why = append(why, "different receiver")
				continue
			}
		}
		n := 0
		for _, t := range ts {
			n += len(leaves(t))
		}
		if len(ev.Args) != n {
			continue
		}
		if ev.Name == "wait" {
			ev = alignWait(ev, tg)
			m.events[i] = ev
		}
		for k, av := range splitArgs(ts, ev.Args) {
			switch m.argEq(ctx, tg.args[k], av) {
			case True:
				score += 10
			case False:
				score -= 5
			}
		}
		if score > bestScore || m.latest && score == bestScore {
			best, bestScore = i, score
		}
	}
	if best < 0 {
		m.v.raiseK(m.st, "emits", "structural", fmt.Sprintf("the call %s does not happen", tg.text), "", False)
		return nil, tg.rt
	}
	ev := m.events[best]
	m.used[best] = true
	m.lastEv = best
	if best > m.last {
		m.last = best
	}
	var goals []*Term
	if tg.fn != nil {
		goals = append(goals, Eq(tg.fn, ev.Fn))
	}
	if eq := m.textEq(ctx, tg, ev); eq != nil {
		goals = append(goals, eq)
	} else {
		for k, av := range splitArgs(ts, ev.Args) {
			goals = append(goals, m.argEq(ctx, tg.args[k], av))
		}
	}
	m.v.raiseK(m.st, "emits", "value", fmt.Sprintf("arguments of %s (actually %s)", tg.text, eventStr(ev)), ev.Pos, And(goals...))
	for k, a := range tg.args {
		if a.lit != nil {
			av := splitArgs(ts, ev.Args)[k]
			m.funcArg(ctx, tg.args[k], av[0], ev)
		}
	}
	return ev, tg.rt
}

// funcArg checks the behaviour of a function passed to a call.
func (m *matcher) funcArg(ctx *specCtx, a expArg, fn *Term, ev *Event) {
	sig := under(a.t).(*types.Signature)
	f, bs := m.v.e.w.funcOf(fn)
	if f == nil {
		m.v.raiseK(m.st, "emits", "structural", "a function argument of "+ev.Name+" is not a known function", ev.Pos, False)
		return
	}
	st := m.st.clone()
	st.events, st.steps = nil, nil
	var names []string
	if a.lit.Type.Params != nil {
		for _, fl := range a.lit.Type.Params.List {
			if len(fl.Names) == 0 {
				names = append(names, exprStr(fl.Type))
			}
			for _, n := range fl.Names {
				names = append(names, n.Name)
			}
		}
	}
	var args []*Term
	c2 := ctx
	for i, t := range sigTypes(sig) {
		v := m.v.freshParam(st, fmt.Sprintf("arg%d", i), t)
		args = append(args, v...)
		if i < len(names) && names[i] != "_" {
			c2 = c2.with(names[i], specVal{t: t, v: v})
		}
	}
	m.v.e.forgetCaptured(st, f, bs)
	for _, o := range m.v.e.callStatic(st, f, args, bs, nil, ev.Pos) {
		for _, s := range o.st.steps {
			if s.Reg != nil && !s.Local {
				if g := m.v.e.stutters(s); g != True {
					m.v.raiseK(o.st, "emits", "structural", "a function passed to "+ev.Name+" changes "+s.Reg.name(), s.Pos, g)
				}
			}
		}
		if o.panicked {
			m.v.raiseK(o.st, "no-panic", "structural", "a function passed to "+ev.Name+" may panic", ev.Pos, False)
			continue
		}
		o := o
		m.v.withSplits(o.st, func(st *State) {
			oc := *c2
			oc.st = st
			_, nh := m.v.heaps(st, st.heap, nil)
			oc.cur = nh
			mm := &matcher{v: m.v, c: m.c, st: st, ordered: m.ordered, events: st.events, used: make([]bool, len(st.events)), last: -1}
			for i, e2 := range st.events {
				mm.used[i] = mm.ignored(e2)
			}
			cc := &oc
			for _, s := range a.lit.Body.List {
				if r, ok := s.(*ast.ReturnStmt); ok {
					rts := resultTypes(sig)
					for i, rv := range splitArgs(rts, o.ret) {
						want := cc.asType(cc.eval(r.Results[i]), rts[i])
						var eqs []*Term
						for k := range want {
							eqs = append(eqs, Eq(want[k], rv[k]))
						}
						m.v.raiseK(st, "emits", "value", "result of a function passed to "+ev.Name, ev.Pos, And(eqs...))
					}
					continue
				}
				cc = mm.stmt(cc, s)
			}
			for i, e2 := range st.events {
				if !mm.used[i] {
					m.v.raiseK(st, "emits", "structural", "a function passed to "+ev.Name+" makes a call the contract does not allow: "+eventStr(e2), e2.Pos, False)
				}
			}
		})
	}
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

// searches reports whether a loop of a contract ends with "if c { break }".
func searches(s *ast.RangeStmt) (cond ast.Expr, ok bool) {
	if len(s.Body.List) == 0 {
		return nil, false
	}
	f, ok := s.Body.List[len(s.Body.List)-1].(*ast.IfStmt)
	if !ok || f.Else != nil || len(f.Body.List) != 1 {
		return nil, false
	}
	b, ok := f.Body.List[0].(*ast.BranchStmt)
	return f.Cond, ok && b.Tok == token.BREAK
}

// searchStmt matches a loop over a slice that stops at the first element for
// which a condition holds. Afterwards found says whether one did, and the
// names bound in the body are those of that element.
func (m *matcher) searchStmt(ctx *specCtx, s *ast.RangeStmt, cond ast.Expr) *specCtx {
	X, rev := s.X, false
	if c, ok := X.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "down" {
			X, rev = c.Args[0], true
		}
	}
	found := func(c *specCtx, b *Term) *specCtx {
		return c.with("found", specVal{t: types.Typ[types.Bool], v: []*Term{b}})
	}
	v := ctx.eval(X)
	sl, ok := under(v.t).(*types.Slice)
	if !ok {
		specFail("emits: search in %s", exprStr(X))
	}
	body := s.Body.List[:len(s.Body.List)-1]
	at := func(ctx *specCtx, i *Term) *specCtx {
		if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
			ctx = ctx.with(k.Name, specVal{t: types.Typ[types.Int], v: []*Term{i}})
		}
		if k, ok := s.Value.(*ast.Ident); ok && k.Name != "_" {
			ctx = ctx.with(k.Name, specVal{t: sl.Elem(), v: ctx.e.elemAt(ctx.st, ctx.cur, v.v, sl.Elem(), i)})
		}
		return ctx
	}
	if v.v[2].Op == "bv" && v.v[2].Int() == 0 {
		return found(ctx, False)
	}
	for i, ev := range m.events {
		if m.used[i] || ev.Each == nil || ev.Each.Binder.Sort != SBV(64) || ev.Each.Dom.Set != nil || m.ordered && i < m.last {
			continue
		}
		d := ev.Each.Dom
		m.used[i] = true
		if i > m.last {
			m.last = i
		}
		var w *Term
		first, last := Eq(d.Lo, BV64(0)), Eq(d.Hi, v.v[2])
		if rev {
			first, last = last, first
		}
		m.v.raiseK(m.st, "emits", "value", "the search in "+exprStr(X)+" begins at its end", ev.Pos, first)
		if last != True {
			w = d.Hi
			if rev {
				w = Op("bvsub", SBV(64), "", d.Lo, BV64(1))
				if d.Lo.Op == "bvadd" && d.Lo.Args[1] == BV64(1) {
					w = d.Lo.Args[0]
				}
			}
		}
		m.v.raiseK(m.st, "emits", "structural", "the search in "+exprStr(X)+" goes the right way", ev.Pos, BoolT(d.Rev == rev))
		st := m.st.clone()
		st.assume(d.contains(ev.Each.Binder))
		m.v.withSplits(st, func(st *State) {
			var items []*Event
			for _, it := range ev.Each.Items {
				if it.Guard == nil || m.v.decide(st, it.Guard) {
					items = append(items, it)
				}
			}
			c3 := *at(ctx, ev.Each.Binder)
			c3.st = st
			mm := &matcher{v: m.v, c: m.c, st: st, ordered: m.ordered, events: items, used: make([]bool, len(items)), last: -1}
			for k, e2 := range items {
				mm.used[k] = mm.ignored(e2)
			}
			c4 := &c3
			for _, b := range body {
				c4 = mm.stmt(c4, b)
			}
			m.v.raiseK(st, "emits", "value", "the search goes on only when not "+exprStr(cond), ev.Pos, Not(c4.asType(c4.eval(cond), types.Typ[types.Bool])[0]))
			for k, e2 := range items {
				if !mm.used[k] && !mm.harmless(e2) {
					m.v.raiseK(st, "emits", "structural", "in a search in "+exprStr(X)+": a call the contract does not allow: "+eventStr(e2), e2.Pos, False)
				}
			}
		})
		if w == nil {
			return found(ctx, False)
		}
		m.v.raiseK(m.st, "emits", "value", "the search in "+exprStr(X)+" ends at one of its elements", ev.Pos,
			And(Not(Op("bvslt", SBool, "", w, BV64(0))), Op("bvslt", SBool, "", w, v.v[2])))
		ctx = at(ctx, w)
		for _, b := range body {
			ctx = m.stmt(ctx, b)
		}
		m.v.raiseK(m.st, "emits", "value", "the search stops only when "+exprStr(cond), ev.Pos, ctx.asType(ctx.eval(cond), types.Typ[types.Bool])[0])
		return found(ctx, True)
	}
	m.v.raiseK(m.st, "emits", "structural", "no search in "+exprStr(X), "", Eq(v.v[2], BV64(0)))
	return found(ctx, False)
}

// during(x): x as it was at some moment of the call, the one an iteration
// visibly goes over if there is one.
func (m *matcher) during(ctx *specCtx, x ast.Expr) specVal {
	c, ok := x.(*ast.CallExpr)
	if !ok || exprStr(c.Fun) != "during" || len(c.Args) != 1 {
		return ctx.eval(x)
	}
	v := ctx.eval(c.Args[0])
	for _, s := range m.st.steps {
		c2 := *ctx
		c2.cur = s.Pre
		w := c2.eval(c.Args[0])
		if mt, ok := under2(w.t).(*types.Map); ok && w.dom == nil {
			_ = mt
			w = c2.contents(w)
		}
		for i, ev := range m.events {
			if m.used[i] || ev.Each == nil {
				continue
			}
			b := ev.Each.Binder
			if w.dom != nil && b.Sort == keySort(w.mt.Key()) && ev.Each.Dom.contains(b) == Select(w.dom, b) {
				return w
			}
			if w.dom == nil && ev.Each.Dom.Set == nil && ev.Each.Dom.Hi == w.v[2] {
				return w
			}
		}
	}
	return v
}

func under2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return under(t)
}

// assigned is the variable a loop of a contract sets anew in each iteration.
func assigned(s *ast.RangeStmt) string {
	for _, b := range s.Body.List {
		if a, ok := b.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN && len(a.Lhs) == 1 {
			return exprStr(a.Lhs[0])
		}
	}
	return ""
}

func (m *matcher) rangeStmt(ctx *specCtx, s *ast.RangeStmt) *specCtx {
	carry := assigned(s)
	v := m.during(ctx, s.X)
	ident := func(x ast.Expr) string {
		if x == nil {
			return "_"
		}
		return x.(*ast.Ident).Name
	}
	kn, vn := ident(s.Key), ident(s.Value)
	isMap := v.dom != nil
	var slEl types.Type
	if !isMap {
		switch u := under(v.t).(type) {
		case *types.Map:
			v = ctx.contents(v)
			isMap = true
		case *types.Slice:
			slEl = u.Elem()
		default:
			specFail("emits: range over %s", exprStr(s.X))
		}
	}
	// a domain known to be empty, or concrete, needs no loop
	if isMap {
		if ks, ok := concreteDom(v.dom); ok {
			for _, k := range ks {
				c2 := ctx
				if kn != "_" {
					c2 = c2.with(kn, specVal{t: v.mt.Key(), v: keyUnpack(v.mt.Key(), k)})
				}
				if vn != "_" {
					c2 = c2.with(vn, ctx.mapAt(v, k))
				}
				m.stmts(c2, s.Body.List)
			}
			return ctx
		}
	} else if v.v[2].Op == "bv" && v.v[2].Int() <= 16 {
		for i := int64(0); i < v.v[2].Int(); i++ {
			c2 := ctx
			if kn != "_" {
				c2 = c2.with(kn, specVal{t: types.Typ[types.Int], v: []*Term{BV64(i)}})
			}
			if vn != "_" {
				c2 = c2.with(vn, specVal{t: slEl, v: ctx.e.elemAt(ctx.st, ctx.cur, v.v, slEl, BV64(i))})
			}
			c2 = m.stmts(c2, s.Body.List)
			if carry != "" {
				ctx = ctx.with(carry, c2.env[carry])
			}
		}
		return ctx
	}
	// an iteration that visibly has the right domain comes first
	order := make([]int, 0, len(m.events))
	for _, sure := range []bool{true, false} {
		for i, ev := range m.events {
			if ev.Each == nil {
				continue
			}
			is := false
			if b := ev.Each.Binder; isMap && b.Sort == keySort(v.mt.Key()) {
				is = ev.Each.Dom.contains(b) == Select(v.dom, b)
			}
			if is == sure {
				order = append(order, i)
			}
		}
	}
	if isMap && v.dom.Op == "store" && v.dom.Args[2] == True {
		// one element added to a set may be visited on its own
		whole := false
		for _, i := range order {
			ev := m.events[i]
			if b := ev.Each.Binder; !m.used[i] && b.Sort == keySort(v.mt.Key()) {
				if !m.v.e.feasible(m.st, Not(Eq(ev.Each.Dom.contains(b), Select(v.dom, b)))) {
					whole = true
				}
			}
		}
		if !whole {
			k := v.dom.Args[1]
			c2 := ctx
			if kn != "_" {
				c2 = c2.with(kn, specVal{t: v.mt.Key(), v: keyUnpack(v.mt.Key(), k)})
			}
			if vn != "_" {
				c2 = c2.with(vn, ctx.mapAt(v, k))
			}
			m.stmts(c2, s.Body.List)
			v.dom = Store(v.dom.Args[0], k, False)
		}
	}
	for _, i := range order {
		ev := m.events[i]
		if m.used[i] || m.ordered && i < m.last {
			continue
		}
		b := ev.Each.Binder
		if isMap && b.Sort != keySort(v.mt.Key()) || !isMap && b.Sort != SBV(64) {
			continue
		}
		var dom *Term
		c2 := ctx
		if isMap {
			dom = Select(v.dom, b)
			if kn != "_" {
				c2 = c2.with(kn, specVal{t: v.mt.Key(), v: keyUnpack(v.mt.Key(), b)})
			}
			if vn != "_" {
				c2 = c2.with(vn, ctx.mapAt(v, b))
			}
		} else {
			dom = And(Not(Op("bvslt", SBool, "", b, BV64(0))), Op("bvslt", SBool, "", b, v.v[2]))
			if kn != "_" {
				c2 = c2.with(kn, specVal{t: types.Typ[types.Int], v: []*Term{b}})
			}
			if vn != "_" {
				c2 = c2.with(vn, specVal{t: slEl, v: ctx.e.elemAt(ctx.st, ctx.cur, v.v, slEl, b)})
			}
		}
		m.used[i] = true
		if i > m.last {
			m.last = i
		}
		actual := ev.Each.Dom.contains(b)
		m.v.raiseK(m.st, "emits", "value", "the elements iterated over are those of "+exprStr(s.X), ev.Pos, Eq(actual, dom))
		st := m.st.clone()
		st.assume(dom)
		var after *Term
		m.v.withSplits(st, func(st *State) {
			var items []*Event
			for _, it := range ev.Each.Items {
				g := it.Guard
				if g == nil {
					g = True
				}
				if m.v.decide(st, g) {
					items = append(items, it)
				}
			}
			c3 := *c2
			c3.st = st
			if carry != "" {
				// what an iteration finds is what the one before left
				x := ctx.env[carry]
				if isMap || len(x.v) != 1 {
					specFail("emits: %s cannot be carried through this loop", carry)
				}
				hole := Fresh("carried", x.v[0].Sort)
				mark := len(m.v.vcs)
				mm := &matcher{v: m.v, c: m.c, st: st, ordered: m.ordered, events: items, used: make([]bool, len(items)), last: -1}
				c4 := mm.stmts(c3.with(carry, specVal{t: x.t, v: []*Term{hole}}), s.Body.List)
				m.v.vcs = m.v.vcs[:mark]
				f := c4.env[carry].v[0]
				if mentions(f, hole) {
					specFail("emits: %s does not change in the loop", carry)
				}
				dom := ev.Each.Dom
				c3 = *c3.with(carry, specVal{t: x.t, v: []*Term{dom.found(b, x.v[0], f)}})
				l := dom.left(b, x.v[0], f)
				if after != nil && after != l {
					specFail("emits: %s is left different on different paths", carry)
				}
				after = l
				m.v.raiseK(st, "emits", "structural", "the loop over "+exprStr(s.X)+" goes up", ev.Pos, BoolT(!dom.Rev))
			}
			mm := &matcher{v: m.v, c: m.c, st: st, ordered: m.ordered, events: items, used: make([]bool, len(items)), last: -1}
			for k, e2 := range items {
				mm.used[k] = mm.ignored(e2)
			}
			mm.stmts(&c3, s.Body.List)
			for k, e2 := range items {
				if !mm.used[k] && !mm.harmless(e2) {
					m.v.raiseK(st, "emits", "structural", "in a loop over "+exprStr(s.X)+": a call the contract does not allow: "+eventStr(e2), e2.Pos, False)
				}
			}
		})
		if after != nil {
			ctx = ctx.with(carry, specVal{t: ctx.env[carry].t, v: []*Term{after}})
		}
		return ctx
	}
	if isMap {
		// a set of one element needs no loop
		k := UF("pick:"+keySort(v.mt.Key()), keySort(v.mt.Key()), v.dom)
		j := Fresh("k", k.Sort)
		one := Eq(Select(v.dom, j), Eq(j, k))
		if !m.v.e.feasible(m.st, Not(one)) {
			c2 := ctx
			if kn != "_" {
				c2 = c2.with(kn, specVal{t: v.mt.Key(), v: keyUnpack(v.mt.Key(), k)})
			}
			if vn != "_" {
				c2 = c2.with(vn, ctx.mapAt(v, k))
			}
			m.stmts(c2, s.Body.List)
			return ctx
		}
	}
	// no loop happened: fine only when there is nothing to iterate over, or
	// the body expects nothing
	var none *Term
	if isMap {
		k := Fresh("k", keySort(v.mt.Key()))
		none = ForallOver(k, Not(Select(v.dom, k)))
	} else {
		none = Eq(v.v[2], BV64(0))
	}
	m.v.raiseK(m.st, "emits", "structural", "no iteration over "+exprStr(s.X), "", none)
	return ctx
}

func (c *specCtx) mapAt(v specVal, k *Term) specVal {
	var out []*Term
	for _, a := range v.vals {
		out = append(out, Select(a, k))
	}
	return specVal{t: v.mt.Elem(), v: out}
}

func addressable(x ast.Expr) (ast.Expr, bool) {
	switch x.(type) {
	case *ast.SelectorExpr, *ast.Ident:
		return x, true
	}
	return nil, false
}

// alignWait lists the channels of a select in the order the contract names
// them: the order of the cases means nothing.
func alignWait(ev *Event, tg target) *Event {
	perm := make([]int, len(tg.args))
	used := map[int]bool{}
	for i := range perm {
		perm[i] = -1
	}
	for pass := 0; pass < 2; pass++ {
		for i, a := range tg.args {
			if perm[i] >= 0 || pass == 0 && (a.any || len(a.v) != 1) {
				continue
			}
			for j := range ev.Args {
				if !used[j] && (pass == 1 || Eq(a.v[0], ev.Args[j]) == True) {
					perm[i], used[j] = j, true
					break
				}
			}
		}
	}
	n := *ev
	n.Args, n.ArgT, n.Res = nil, nil, ev.Res
	for i, j := range perm {
		if j < 0 {
			return ev
		}
		n.Args = append(n.Args, ev.Args[j])
		n.ArgT = append(n.ArgT, ev.ArgT[j])
		if ev.Res[0].isConst() && ev.Res[0].Int() == int64(j) {
			n.Res = []*Term{BV64(int64(i))}
		}
	}
	return &n
}
