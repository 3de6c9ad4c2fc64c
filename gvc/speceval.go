package main

// Evaluation of contract expressions over symbolic heaps.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specVal is the value of a contract expression.
type specVal struct {
	t     types.Type
	v     []*Term
	c     constant.Value // untyped constant
	dom   *Term          // contents of a map
	vals  []*Term
	mt    *types.Map
	isNil bool
	any   bool // wildcard
	// the time from a clock read at the start to one now
	elapsed bool
	since   *Term
	pkg     *types.Package
	typ     types.Type // a type used as a value
	lit     *ast.FuncLit
}

type specCtx struct {
	e        *Exec
	st       *State
	env      map[string]specVal
	old, cur map[string]*Term
	pkg      *types.Package
	self     *specVal
	bound    int
	assuming bool // the formula is assumed, not proved
	marks    map[string]*Event
}

type specError struct{ msg string }

func specFail(f string, a ...interface{}) { panic(specError{fmt.Sprintf(f, a...)}) }

func (c *specCtx) with(name string, v specVal) *specCtx {
	n := *c
	n.env = make(map[string]specVal, len(c.env)+1)
	for k, x := range c.env {
		n.env[k] = x
	}
	n.env[name] = v
	return &n
}

func (e *Exec) evalBool(x ast.Expr, c *specCtx) *Term {
	if c.pkg == nil && e.cur != nil {
		c.pkg = e.w.tpkgs[e.cur.Pkg]
	}
	v := c.eval(x)
	t := c.asType(v, types.Typ[types.Bool])
	if len(t) != 1 || t[0].Sort != SBool {
		specFail("not a boolean: %s", exprStr(x))
	}
	return t[0]
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

// asType materialises a value at a type (for constants and nil).
func (c *specCtx) asType(v specVal, t types.Type) []*Term {
	if v.isNil {
		return zeroVal(t)
	}
	if v.c != nil {
		if isIface(t) {
			// boxing a constant
			d := types.Default(constType(v.c))
			return []*Term{c.e.w.box(d, c.asType(v, d))}
		}
		return c.e.constVal(ssa.NewConst(v.c, t))
	}
	if t != nil && v.t != nil && isIface(t) && !isIface(v.t) {
		return []*Term{c.e.w.box(v.t, v.v)}
	}
	return v.v
}

func constType(c constant.Value) types.Type {
	switch c.Kind() {
	case constant.Bool:
		return types.Typ[types.UntypedBool]
	case constant.String:
		return types.Typ[types.UntypedString]
	case constant.Int:
		return types.Typ[types.UntypedInt]
	}
	return types.Typ[types.UntypedFloat]
}

func boolVal(t *Term) specVal { return specVal{t: types.Typ[types.Bool], v: []*Term{t}} }

func (c *specCtx) eval(x ast.Expr) specVal {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		return specVal{c: constant.MakeFromLiteral(x.Value, x.Kind, 0)}
	case *ast.Ident:
		return c.ident(x.Name)
	case *ast.SelectorExpr:
		return c.selector(x)
	case *ast.StarExpr:
		v := c.eval(x.X)
		if v.typ != nil {
			return specVal{typ: types.NewPointer(v.typ)}
		}
		el, ok := isPtrTo(v.t)
		if !ok {
			specFail("dereference of %s", exprStr(x.X))
		}
		return c.loadAt(v.v[0], el)
	case *ast.UnaryExpr:
		return c.unary(x)
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.IndexExpr:
		return c.index(x)
	case *ast.CallExpr:
		return c.call(x)
	case *ast.FuncLit:
		return specVal{lit: x}
	case *ast.CompositeLit:
		return c.composite(x)
	case *ast.ArrayType:
		if x.Len == nil {
			el := c.eval(x.Elt)
			if el.typ != nil {
				return specVal{typ: types.NewSlice(el.typ)}
			}
		}
	case *ast.StructType:
		var fs []*types.Var
		for _, f := range x.Fields.List {
			t := c.eval(f.Type).typ
			if t == nil {
				specFail("not a type: %s", exprStr(f.Type))
			}
			if len(f.Names) == 0 {
				n := exprStr(f.Type)
				fs = append(fs, types.NewField(0, c.pkg, n[strings.LastIndexAny(n, ".*")+1:], t, true))
			}
			for _, id := range f.Names {
				fs = append(fs, types.NewField(0, c.pkg, id.Name, t, false))
			}
		}
		return specVal{typ: types.NewStruct(fs, nil)}
	case *ast.InterfaceType:
		var ms []*types.Func
		for _, f := range x.Methods.List {
			ft, ok := c.eval(f.Type).typ.(*types.Signature)
			if !ok || len(f.Names) != 1 {
				specFail("unsupported interface type %s", exprStr(x))
			}
			ms = append(ms, types.NewFunc(0, c.pkg, f.Names[0].Name, ft))
		}
		return specVal{typ: types.NewInterfaceType(ms, nil).Complete()}
	case *ast.FuncType:
		sig := func(fl *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if fl != nil {
				for _, f := range fl.List {
					t := c.eval(f.Type).typ
					if t == nil {
						specFail("not a type: %s", exprStr(f.Type))
					}
					n := len(f.Names)
					if n == 0 {
						n = 1
					}
					for i := 0; i < n; i++ {
						vs = append(vs, types.NewVar(0, nil, "", t))
					}
				}
			}
			return types.NewTuple(vs...)
		}
		return specVal{typ: types.NewSignatureType(nil, nil, nil, sig(x.Params), sig(x.Results), false)}
	case *ast.MapType:
		return specVal{typ: types.NewMap(c.eval(x.Key).typ, c.eval(x.Value).typ)}
	case *ast.SliceExpr:
		v := c.eval(x.X)
		if v.t != nil && isString(v.t) || v.c != nil {
			s := c.asType(v, types.Typ[types.String])[0]
			lo, hi := IntT(0), Op("str.len", SInt, "", s)
			if x.Low != nil {
				lo = c.intTerm(x.Low)
			}
			if x.High != nil {
				hi = c.intTerm(x.High)
			}
			return specVal{t: types.Typ[types.String], v: []*Term{Op("str.substr", SString, "", s, lo, Op("-", SInt, "", hi, lo))}}
		}
		if v.t != nil && len(v.v) == 4 {
			if _, ok := under(v.t).(*types.Slice); ok {
				lo, hi := BV64(0), v.v[2]
				if x.Low != nil {
					lo = c.asType(c.eval(x.Low), types.Typ[types.Int])[0]
				}
				if x.High != nil {
					hi = c.asType(c.eval(x.High), types.Typ[types.Int])[0]
				}
				sub := func(a, b *Term) *Term { return Op("bvsub", SBV(64), "", a, b) }
				return specVal{t: v.t, v: []*Term{v.v[0], Op("bvadd", SBV(64), "", v.v[1], lo), sub(hi, lo), sub(v.v[3], lo)}}
			}
		}
	}
	specFail("unsupported contract expression %s", exprStr(x))
	return specVal{}
}

func (c *specCtx) intTerm(x ast.Expr) *Term {
	v := c.asType(c.eval(x), types.Typ[types.Int])[0]
	if isBV(v.Sort) {
		return BV2I(v)
	}
	return v
}

func (c *specCtx) composite(x *ast.CompositeLit) specVal {
	tv := c.eval(x.Type)
	if tv.typ == nil {
		specFail("not a type: %s", exprStr(x.Type))
	}
	s, ok := under(tv.typ).(*types.Struct)
	if !ok {
		specFail("composite literal of %s", tv.typ)
	}
	out := zeroVal(tv.typ)
	for i, el := range x.Elts {
		fi := i
		val := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			val = kv.Value
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == kv.Key.(*ast.Ident).Name {
					fi = j
				}
			}
		}
		lo, hi := fieldRange(s, fi)
		v := c.asType(c.eval(val), s.Field(fi).Type())
		if len(v) != hi-lo {
			specFail("field %s of %s", s.Field(fi).Name(), tv.typ)
		}
		copy(out[lo:hi], v)
	}
	return specVal{t: tv.typ, v: out}
}

func (c *specCtx) ident(n string) specVal {
	if v, ok := c.env[n]; ok {
		return v
	}
	switch n {
	case "found":
		return boolVal(False)
	case "true":
		return specVal{c: constant.MakeBool(true)}
	case "false":
		return specVal{c: constant.MakeBool(false)}
	case "nil":
		return specVal{isNil: true}
	case "_", "any":
		return specVal{any: true}
	case "elapsed":
		return specVal{any: true, elapsed: true}
	}
	if c.pkg != nil {
		if o := c.pkg.Scope().Lookup(n); o != nil {
			return c.object(o)
		}
	}
	if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return specVal{typ: tn.Type()}
		}
	}
	if p, ok := c.e.w.tpkgs[n]; ok {
		return specVal{pkg: p}
	}
	if t := c.e.w.localType(c.pkg, n); t != nil {
		return specVal{typ: t}
	}
	specFail("unknown name %s", n)
	return specVal{}
}

func (c *specCtx) object(o types.Object) specVal {
	switch o := o.(type) {
	case *types.Const:
		return specVal{t: o.Type(), v: c.e.constVal(ssa.NewConst(o.Val(), o.Type())), c: untypedOnly(o)}
	case *types.TypeName:
		return specVal{typ: o.Type()}
	case *types.Var:
		sp := c.e.w.prog.Package(o.Pkg())
		if sp == nil {
			specFail("no package for %s", o)
		}
		g := sp.Var(o.Name())
		return c.loadAt(c.e.w.globalTerm(g), o.Type())
	case *types.Func:
		sp := c.e.w.prog.Package(o.Pkg())
		if f := sp.Func(o.Name()); f != nil {
			return specVal{t: o.Type(), v: []*Term{c.e.w.fnTerm(f)}}
		}
	}
	specFail("cannot use %s in a contract", o)
	return specVal{}
}

func untypedOnly(o *types.Const) constant.Value {
	if b, ok := o.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return o.Val()
	}
	return nil
}

func (c *specCtx) loadAt(p *Term, t types.Type) specVal {
	noteRoot(t)
	if p.Op == "ite" {
		a, b := c.loadAt(p.Args[1], t), c.loadAt(p.Args[2], t)
		var out []*Term
		for i := range a.v {
			out = append(out, Ite(p.Args[0], a.v[i], b.v[i]))
		}
		return specVal{t: t, v: out}
	}
	l := c.e.decode(c.st, p, t)
	if strings.HasPrefix(l.Root, "elems:") && l.Ref.Op == "int" {
		if sq, ok := c.st.seqs[int64(l.Ref.N)]; ok {
			return specVal{t: t, v: c.e.seqRead(c.st, sq, l, t)}
		}
	}
	var out []*Term
	for _, lf := range leaves(t) {
		v := readHeap(c.e, c.cur, l, lf)
		c.e.noteSentinel(c.st, l, v)
		out = append(out, v)
	}
	return specVal{t: t, v: out}
}

// field selects a field of a struct value or of what a pointer points to.
func (c *specCtx) field(v specVal, idx []int) specVal {
	for _, i := range idx {
		if el, ok := isPtrTo(v.t); ok {
			s := under(el).(*types.Struct)
			addr := c.e.fieldAddr(c.st, v.v[0], el, s, i)
			v = c.loadAt(addr, s.Field(i).Type())
			continue
		}
		s := under(v.t).(*types.Struct)
		lo, hi := fieldRange(s, i)
		v = specVal{t: s.Field(i).Type(), v: v.v[lo:hi]}
	}
	return v
}

func (c *specCtx) selector(x *ast.SelectorExpr) specVal {
	v := c.eval(x.X)
	if v.pkg != nil {
		o := v.pkg.Scope().Lookup(x.Sel.Name)
		if o == nil {
			specFail("%s not found", exprStr(x))
		}
		return c.object(o)
	}
	if v.t == nil {
		specFail("selector on %s", exprStr(x.X))
	}
	// the contents of a library value: builder.s, atomic.v, once.done
	if bt, ok := isPtrTo(v.t); ok {
		if ls := leaves(bt); len(ls) == 1 && ls[0].Path == "."+x.Sel.Name {
			noteRoot(bt)
			return specVal{t: ls[0].T, v: c.loadAt(v.v[0], bt).v}
		}
	} else if ls := leaves(v.t); len(ls) == 1 && ls[0].Path == "."+x.Sel.Name {
		return specVal{t: ls[0].T, v: v.v}
	}
	obj, idx, _ := types.LookupFieldOrMethod(v.t, true, c.pkgOf(v.t), x.Sel.Name)
	if f, ok := obj.(*types.Var); ok && f.IsField() {
		return c.field(v, idx)
	}
	specFail("no field %s in %s", x.Sel.Name, v.t)
	return specVal{}
}

func (c *specCtx) pkgOf(t types.Type) *types.Package {
	if p, ok := isPtrTo(t); ok {
		t = p
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return c.pkg
}

func (c *specCtx) unary(x *ast.UnaryExpr) specVal {
	switch x.Op {
	case token.NOT:
		return boolVal(Not(c.asType(c.eval(x.X), types.Typ[types.Bool])[0]))
	case token.AND:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, inEnv := c.env[id.Name]; !inEnv && c.pkg != nil {
				if o, ok := c.pkg.Scope().Lookup(id.Name).(*types.Var); ok {
					g := c.e.w.prog.Package(o.Pkg()).Var(o.Name())
					return specVal{t: types.NewPointer(o.Type()), v: []*Term{c.e.w.globalTerm(g)}}
				}
			}
		}
		if s, ok := x.X.(*ast.SelectorExpr); ok {
			v := c.eval(s.X)
			if v.pkg != nil {
				o := v.pkg.Scope().Lookup(s.Sel.Name).(*types.Var)
				g := c.e.w.prog.Package(o.Pkg()).Var(o.Name())
				return specVal{t: types.NewPointer(o.Type()), v: []*Term{c.e.w.globalTerm(g)}}
			}
			if _, isp := isPtrTo(v.t); !isp {
				_, sel := s.X.(*ast.SelectorExpr)
				if id, ok := s.X.(*ast.Ident); ok {
					_, local := c.env[id.Name]
					sel = !local
				}
				if sel {
					v = c.unary(&ast.UnaryExpr{Op: token.AND, X: s.X})
				}
			}
			_, idx, _ := types.LookupFieldOrMethod(v.t, true, c.pkgOf(v.t), s.Sel.Name)
			for k, i := range idx {
				el, ok := isPtrTo(v.t)
				if !ok {
					specFail("address of a field of a value")
				}
				st := under(el).(*types.Struct)
				addr := c.e.fieldAddr(c.st, v.v[0], el, st, i)
				ft := st.Field(i).Type()
				if k == len(idx)-1 {
					return specVal{t: types.NewPointer(ft), v: []*Term{addr}}
				}
				if _, isp := isPtrTo(ft); isp {
					v = c.loadAt(addr, ft)
				} else {
					v = specVal{t: types.NewPointer(ft), v: []*Term{addr}}
				}
			}
		}
		specFail("address of %s", exprStr(x.X))
	case token.SUB:
		v := c.eval(x.X)
		if v.c != nil {
			return specVal{c: constant.UnaryOp(token.SUB, v.c, 0)}
		}
		if isFloat(v.t) {
			return specVal{t: v.t, v: []*Term{Op("fp.neg", v.v[0].Sort, "", v.v[0])}}
		}
		return specVal{t: v.t, v: []*Term{Op("bvneg", v.v[0].Sort, "", v.v[0])}}
	}
	specFail("unsupported contract expression %s", exprStr(x))
	return specVal{}
}

// identical is equality of values: for floats, bit-level identity with a
// single NaN.
func (c *specCtx) identical(a, b specVal) *Term {
	if a.dom != nil || b.dom != nil {
		if a.dom == nil || b.dom == nil {
			specFail("comparing a map's contents with something else")
		}
		k := Fresh("mk", keySort(a.mt.Key()))
		cs := []*Term{}
		for i := range a.vals {
			cs = append(cs, Eq(Select(a.vals[i], k), Select(b.vals[i], k)))
		}
		if a.dom == b.dom {
			same := true
			for i := range a.vals {
				same = same && a.vals[i] == b.vals[i]
			}
			if same {
				return True
			}
		}
		return And(Eq(a.dom, b.dom), ForallOver(k, Implies(Select(a.dom, k), And(cs...))))
	}
	t := a.t
	if a.c != nil || a.isNil || (t != nil && b.t != nil && !isIface(t) && isIface(b.t)) {
		t = b.t
	}
	if t == nil {
		if a.c != nil && b.c != nil {
			return BoolT(constant.Compare(a.c, token.EQL, b.c))
		}
		if a.isNil && b.isNil {
			return True
		}
		if len(a.v) == 1 && len(b.v) == 1 {
			return Eq(a.v[0], b.v[0])
		}
		specFail("comparison of untyped values")
	}
	x, y := c.asType(a, t), c.asType(b, t)
	if len(x) != len(y) {
		specFail("comparison of different types")
	}
	if _, ok := under(t).(*types.Slice); ok {
		if a.isNil || b.isNil {
			return Eq(x[0], y[0])
		}
		return And(Eq(x[0], y[0]), Eq(x[1], y[1]), Eq(x[2], y[2]))
	}
	var cs []*Term
	for i := range x {
		if x[i].Sort != y[i].Sort {
			specFail("comparison of different types")
		}
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func (c *specCtx) binary(x *ast.BinaryExpr) specVal {
	switch x.Op {
	case token.LAND, token.LOR:
		a := c.asType(c.eval(x.X), types.Typ[types.Bool])[0]
		// short circuit: the right side may only make sense otherwise
		if x.Op == token.LAND && a == False {
			return boolVal(False)
		}
		if x.Op == token.LOR && a == True {
			return boolVal(True)
		}
		b := c.asType(c.eval(x.Y), types.Typ[types.Bool])[0]
		if x.Op == token.LAND {
			return boolVal(And(a, b))
		}
		return boolVal(Or(a, b))
	}
	a, b := c.eval(x.X), c.eval(x.Y)
	if a.any || b.any {
		return boolVal(True)
	}
	switch x.Op {
	case token.EQL:
		return boolVal(c.identical(a, b))
	case token.NEQ:
		return boolVal(Not(c.identical(a, b)))
	}
	if a.c != nil && b.c != nil {
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return boolVal(BoolT(constant.Compare(a.c, x.Op, b.c)))
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(b.c)
			return specVal{c: constant.Shift(a.c, x.Op, uint(n))}
		}
		op := x.Op
		if op == token.QUO && a.c.Kind() == constant.Int && b.c.Kind() == constant.Int {
			op = token.QUO_ASSIGN
		}
		return specVal{c: constant.BinaryOp(a.c, op, b.c)}
	}
	t := a.t
	if a.c != nil {
		t = b.t
	}
	// unbounded integers
	if (len(a.v) == 1 && a.v[0].Sort == SInt && a.t == nil) || (len(b.v) == 1 && b.v[0].Sort == SInt && b.t == nil) {
		ai, bi := c.bigInt(a), c.bigInt(b)
		switch x.Op {
		case token.ADD, token.SUB:
			return specVal{v: []*Term{Op(x.Op.String(), SInt, "", ai, bi)}}
		case token.LSS:
			return boolVal(Op("<", SBool, "", ai, bi))
		case token.GTR:
			return boolVal(Op("<", SBool, "", bi, ai))
		case token.LEQ:
			return boolVal(Not(Op("<", SBool, "", bi, ai)))
		case token.GEQ:
			return boolVal(Not(Op("<", SBool, "", ai, bi)))
		}
	}
	av, bv := c.asType(a, t), b.v
	if x.Op == token.SHL || x.Op == token.SHR {
		bt := b.t
		if b.c != nil {
			bt = types.Typ[types.Uint64]
			bv = c.asType(b, bt)
		}
		r := c.e.binop(x.Op, t, av, bv, bt)
		return specVal{t: t, v: r}
	}
	bv = c.asType(b, t)
	r := c.e.binop(x.Op, t, av, bv, t)
	switch x.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return boolVal(r[0])
	}
	return specVal{t: t, v: r}
}

func (c *specCtx) bigInt(v specVal) *Term {
	if v.c != nil {
		n, _ := constant.Int64Val(v.c)
		return IntT(n)
	}
	if isBV(v.v[0].Sort) {
		return BV2I(v.v[0])
	}
	return v.v[0]
}

func (c *specCtx) index(x *ast.IndexExpr) specVal {
	v := c.eval(x.X)
	if v.dom != nil {
		k := keyTerm(v.mt.Key(), c.asType(c.eval(x.Index), v.mt.Key()))
		var out []*Term
		for _, a := range v.vals {
			out = append(out, Select(a, k))
		}
		return specVal{t: v.mt.Elem(), v: out}
	}
	switch u := under(v.t).(type) {
	case *types.Map:
		k := keyTerm(u.Key(), c.asType(c.eval(x.Index), u.Key()))
		val, _ := c.e.mapLookup(c.cur, v.t, v.v[0], k)
		return specVal{t: u.Elem(), v: val}
	case *types.Array:
		i := c.asType(c.eval(x.Index), types.Typ[types.Int])[0]
		var out []*Term
		for _, a := range v.v {
			out = append(out, Select(a, i))
		}
		return specVal{t: u.Elem(), v: out}
	case *types.Slice:
		i := c.asType(c.eval(x.Index), types.Typ[types.Int])[0]
		return specVal{t: u.Elem(), v: c.e.elemAt(c.st, c.cur, v.v, u.Elem(), i)}
	case *types.Basic:
		i := c.asType(c.eval(x.Index), types.Typ[types.Int])[0]
		return specVal{t: types.Typ[types.Uint8], v: []*Term{strByte(v.v[0], i)}}
	}
	specFail("index of %s", exprStr(x.X))
	return specVal{}
}

func (c *specCtx) contents(v specVal) specVal {
	if v.dom != nil {
		return v
	}
	m, ok := under(v.t).(*types.Map)
	if !ok {
		specFail("contents of something that is not a map")
	}
	r := specVal{mt: m, dom: c.e.mapDom(c.cur, v.t, v.v[0])}
	for _, l := range leaves(m.Elem()) {
		r.vals = append(r.vals, c.e.mapVal(c.cur, v.t, v.v[0], l))
	}
	return r
}

func (c *specCtx) typeArg(x ast.Expr) types.Type {
	v := c.eval(x)
	if v.typ == nil {
		specFail("not a type: %s", exprStr(x))
	}
	return v.typ
}

func (c *specCtx) boolArg(x ast.Expr) *Term {
	t := c.asType(c.eval(x), types.Typ[types.Bool])
	if len(t) != 1 || t[0].Sort != SBool {
		specFail("not a boolean: %s", exprStr(x))
	}
	return t[0]
}

func (c *specCtx) call(x *ast.CallExpr) specVal {
	if id, ok := x.Fun.(*ast.Ident); ok {
		if _, shadow := c.env[id.Name]; !shadow {
			if v, ok := c.builtin(id.Name, x); ok {
				return v
			}
		}
	}
	// conversion
	if tv, ok := c.tryType(x.Fun); ok && len(x.Args) == 1 {
		a := c.eval(x.Args[0])
		if a.c != nil {
			if isIface(tv) {
				return specVal{t: tv, v: c.asType(a, tv)}
			}
			return specVal{t: tv, v: c.asType(a, tv)}
		}
		if isIface(tv) {
			return specVal{t: tv, v: c.asType(a, tv)}
		}
		return specVal{t: tv, v: c.e.convert(c.st, a.t, tv, a.v)}
	}
	if v, ok := c.quietCall(x); ok {
		return v
	}
	f, args, ts := c.callee(x)
	if f == nil {
		specFail("cannot call %s in a contract", exprStr(x.Fun))
	}
	key := c.e.w.funcKey(f)
	c.e.wanted[key] = true
	fc := c.e.w.db.byKey[key]
	if fc == nil || fc.Kind != "pure" {
		// a query with a deterministic library model
		outs, ok := c.e.specModel(c, f, key, args)
		if !ok {
			specFail("%s has no pure contract", key)
		}
		return c.result(f, outs)
	}
	_ = ts
	saved := c.st.pc
	st := c.st.clone()
	st.heap = copyHeap(c.cur)
	outs := c.e.callPure(st, fc, f, args, "")
	c.st.pc = saved
	return c.result(f, outs[0].ret)
}

// quietCall is a call of an interface method declared to be a plain query.
func (c *specCtx) quietCall(x *ast.CallExpr) (specVal, bool) {
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return specVal{}, false
	}
	if id, ok := sel.X.(*ast.Ident); ok {
		if _, bound := c.env[id.Name]; !bound {
			return specVal{}, false
		}
	}
	v := c.eval(sel.X)
	if v.t == nil || !isIface(v.t) {
		return specVal{}, false
	}
	obj, _, _ := types.LookupFieldOrMethod(v.t, false, c.pkgOf(v.t), sel.Sel.Name)
	m, ok := obj.(*types.Func)
	if !ok || !c.e.w.db.quiet[typeKey(v.t)+"."+m.Name()] {
		return specVal{}, false
	}
	sig := m.Type().(*types.Signature)
	var args []*Term
	for i, a := range x.Args {
		args = append(args, c.asType(c.eval(a), sig.Params().At(i).Type())...)
	}
	st := c.st.clone()
	st.heap = copyHeap(c.cur)
	outs := c.e.invokeIface(st, m, v.t, v.v[0], args, "")
	if len(outs) != 1 || sig.Results().Len() != 1 {
		specFail("%s has no single result", exprStr(x))
	}
	return specVal{t: sig.Results().At(0).Type(), v: outs[0].ret}, true
}

func (c *specCtx) result(f *ssa.Function, r []*Term) specVal {
	rs := f.Signature.Results()
	if rs.Len() == 1 {
		return specVal{t: rs.At(0).Type(), v: r}
	}
	return specVal{t: rs, v: r}
}

// specModel evaluates library functions with exact models on a scratch state.
func (e *Exec) specModel(c *specCtx, f *ssa.Function, key string, args []*Term) ([]*Term, bool) {
	st := c.st.clone()
	st.heap = copyHeap(c.cur)
	saved := e.raise
	e.raise = func(st *State, name, what, pos string, goal *Term) {}
	defer func() { e.raise = saved }()
	if m, ok := models[key]; ok {
		o := m(e, st, f, args, "")
		if len(o) == 1 && !o[0].panicked {
			return o[0].ret, true
		}
		return nil, false
	}
	if o, ok := e.genericModel(st, f, key, args, ""); ok && len(o) == 1 {
		return o[0].ret, true
	}
	if !e.w.inRepo(f) {
		if o, ok := e.external(st, f, key, args, ""); ok && len(o) == 1 {
			return o[0].ret, true
		}
	}
	return nil, false
}

func (c *specCtx) tryType(x ast.Expr) (t types.Type, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specError); is {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr, *ast.ArrayType, *ast.ParenExpr:
		v := c.eval(x)
		return v.typ, v.typ != nil
	}
	return nil, false
}

// callee resolves a call in a contract to a function of the program and its
// flattened arguments.
func (c *specCtx) callee(x *ast.CallExpr) (f *ssa.Function, args []*Term, ts []types.Type) {
	switch fx := x.Fun.(type) {
	case *ast.Ident:
		if c.pkg != nil {
			if o, ok := c.pkg.Scope().Lookup(fx.Name).(*types.Func); ok {
				f = c.e.w.prog.Package(o.Pkg()).Func(o.Name())
			}
		}
	case *ast.SelectorExpr:
		if id, ok := fx.X.(*ast.Ident); ok {
			if _, shadow := c.env[id.Name]; !shadow {
				if p, ok := c.e.w.tpkgs[id.Name]; ok && (c.pkg == nil || c.pkg.Scope().Lookup(id.Name) == nil) {
					if o, ok := p.Scope().Lookup(fx.Sel.Name).(*types.Func); ok {
						f = c.e.w.prog.Package(p).Func(o.Name())
						break
					}
					return nil, nil, nil
				}
			}
		}
		v := c.eval(fx.X)
		if v.t == nil || isIface(v.t) {
			return nil, nil, nil
		}
		obj, idx, _ := types.LookupFieldOrMethod(v.t, true, c.pkgOf(v.t), fx.Sel.Name)
		m, ok := obj.(*types.Func)
		if !ok {
			return nil, nil, nil
		}
		// walk embedded fields
		for _, i := range idx[:len(idx)-1] {
			if el, ok := isPtrTo(v.t); ok {
				s := under(el).(*types.Struct)
				addr := c.e.fieldAddr(c.st, v.v[0], el, s, i)
				ft := s.Field(i).Type()
				if _, isp := isPtrTo(ft); isp {
					v = c.loadAt(addr, ft)
				} else {
					v = specVal{t: types.NewPointer(ft), v: []*Term{addr}}
				}
				continue
			}
			v = c.field(v, []int{i})
		}
		if isIface(v.t) {
			return nil, nil, nil
		}
		f = c.e.w.prog.FuncValue(m)
		if f == nil {
			return nil, nil, nil
		}
		rt := m.Type().(*types.Signature).Recv().Type()
		_, wantPtr := isPtrTo(rt)
		_, havePtr := isPtrTo(v.t)
		switch {
		case wantPtr && havePtr, !wantPtr && !havePtr:
			args = append(args, v.v...)
		case !wantPtr && havePtr:
			el, _ := isPtrTo(v.t)
			args = append(args, c.loadAt(v.v[0], el).v...)
		default:
			// method with a pointer receiver on an addressable field
			if s, ok := fx.X.(*ast.SelectorExpr); ok {
				p := c.unary(&ast.UnaryExpr{Op: token.AND, X: s})
				args = append(args, p.v...)
			} else {
				return nil, nil, nil
			}
		}
		ts = append(ts, rt)
	}
	if f == nil {
		return nil, nil, nil
	}
	sig := f.Signature
	n := sig.Params().Len()
	for i := 0; i < n; i++ {
		pt := sig.Params().At(i).Type()
		ts = append(ts, pt)
		if sig.Variadic() && i == n-1 && !x.Ellipsis.IsValid() && !(len(x.Args) == n && c.isSliceArg(x.Args[i], pt)) {
			el := under(pt).(*types.Slice).Elem()
			var segs []Seg
			for _, a := range x.Args[i:] {
				segs = append(segs, Seg{Single: c.asType(c.eval(a), el)})
			}
			if len(segs) == 0 {
				args = append(args, zeroVal(pt)...)
			} else {
				args = append(args, c.e.mkSeq(c.st, el, segs)...)
			}
			continue
		}
		if i >= len(x.Args) {
			specFail("too few arguments in %s", exprStr(x))
		}
		args = append(args, c.asType(c.eval(x.Args[i]), pt)...)
	}
	return f, args, ts
}

func (c *specCtx) isSliceArg(x ast.Expr, t types.Type) bool {
	if _, ok := x.(*ast.BasicLit); ok {
		return false
	}
	v := c.eval(x)
	return v.any || (v.t != nil && types.Identical(v.t, t))
}

func (c *specCtx) builtin(n string, x *ast.CallExpr) (specVal, bool) {
	a := x.Args
	switch n {
	case "old":
		o := *c
		o.cur = c.old
		return o.eval(a[0]), true
	case "first":
		// as the first step of the call that others can see found it
		for _, s := range c.st.steps {
			if s.Reg == nil || s.Local {
				continue
			}
			o := *c
			o.cur = s.Pre
			return o.eval(a[0]), true
		}
		return c.eval(a[0]), true
	case "after", "at":
		// the state just after (when) a labelled call was made
		ev := c.marks[exprStr(a[0])]
		if ev == nil {
			return c.eval(a[1]), true
		}
		o := *c
		o.cur = ev.Heap
		if n == "after" && ev.Post != nil {
			o.cur = ev.Post
		}
		return o.eval(a[1]), true
	case "implies":
		l := c.boolArg(a[0])
		if l == False {
			return boolVal(True), true
		}
		return boolVal(Implies(l, c.boolArg(a[1]))), true
	case "iff":
		return boolVal(Eq(c.boolArg(a[0]), c.boolArg(a[1]))), true
	case "ite":
		cd := c.boolArg(a[0])
		u, v := c.eval(a[1]), c.eval(a[2])
		t := u.t
		if t == nil {
			t = v.t
		}
		if t == nil {
			t = types.Default(constType(u.c))
		}
		uu, vv := c.asType(u, t), c.asType(v, t)
		var out []*Term
		for i := range uu {
			out = append(out, Ite(cd, uu[i], vv[i]))
		}
		return specVal{t: t, v: out}, true
	case "len":
		v := c.eval(a[0])
		if v.dom != nil {
			return specVal{t: types.Typ[types.Int], v: []*Term{I2BV(cardOf(v.dom))}}, true
		}
		if v.c != nil {
			return specVal{c: constant.MakeInt64(int64(len(constant.StringVal(v.c))))}, true
		}
		switch u := under(v.t).(type) {
		case *types.Map:
			return specVal{t: types.Typ[types.Int], v: []*Term{c.e.mapLen(c.cur, v.t, v.v[0])}}, true
		case *types.Slice:
			return specVal{t: types.Typ[types.Int], v: []*Term{v.v[2]}}, true
		case *types.Array:
			return specVal{t: types.Typ[types.Int], v: []*Term{BV64(u.Len())}}, true
		default:
			return specVal{t: types.Typ[types.Int], v: []*Term{I2BV(Op("str.len", SInt, "", v.v[0]))}}, true
		}
	case "has":
		v := c.contents(c.eval(a[0]))
		k := keyTerm(v.mt.Key(), c.asType(c.eval(a[1]), v.mt.Key()))
		return boolVal(Select(v.dom, k)), true
	case "contents":
		return c.contents(c.eval(a[0])), true
	case "empty":
		// empty(m): the contents of an empty map of m's type
		v := c.contents(c.eval(a[0]))
		r := specVal{mt: v.mt, dom: ConstArr(v.dom.Sort, False)}
		r.vals = v.vals
		return r, true
	case "with":
		v := c.contents(c.eval(a[0]))
		k := keyTerm(v.mt.Key(), c.asType(c.eval(a[1]), v.mt.Key()))
		r := specVal{mt: v.mt, dom: Store(v.dom, k, True)}
		var vv []*Term
		if len(a) > 2 {
			vv = c.asType(c.eval(a[2]), v.mt.Elem())
		} else {
			vv = zeroVal(v.mt.Elem())
		}
		for i, arr := range v.vals {
			r.vals = append(r.vals, Store(arr, k, vv[i]))
		}
		return r, true
	case "without":
		v := c.contents(c.eval(a[0]))
		k := keyTerm(v.mt.Key(), c.asType(c.eval(a[1]), v.mt.Key()))
		return specVal{mt: v.mt, dom: Store(v.dom, k, False), vals: v.vals}, true
	case "setof":
		// setof(x, T, condition): the set of values with a property
		name := a[0].(*ast.Ident).Name
		t := c.typeArg(a[1])
		b := Fresh("q:"+name, keySort(t))
		body := c.with(name, specVal{t: t, v: keyUnpack(t, b)}).boolArg(a[2])
		return specVal{mt: types.NewMap(t, types.NewStruct(nil, nil)), dom: LambdaOver(b, body)}, true
	case "forall", "exists":
		// forall(k, T, body)
		name := a[0].(*ast.Ident).Name
		t := c.typeArg(a[1])
		ks := keySort(t)
		b := Fresh("q:"+name, ks)
		body := c.with(name, specVal{t: t, v: keyUnpack(t, b)}).boolArg(a[2])
		if n == "forall" {
			return boolVal(ForallOver(b, body)), true
		}
		return boolVal(ExistsOver(b, body)), true
	case "allN", "sumN":
		// allN(i, lo, hi, body)
		name := a[0].(*ast.Ident).Name
		lo, _ := constant.Int64Val(c.constArg(a[1]))
		hi, _ := constant.Int64Val(c.constArg(a[2]))
		var cs []*Term
		var sum specVal
		for i := lo; i < hi; i++ {
			cc := c.with(name, specVal{c: constant.MakeInt64(i)})
			if n == "allN" {
				cs = append(cs, cc.boolArg(a[3]))
				continue
			}
			v := cc.eval(a[3])
			if i == lo {
				sum = v
				continue
			}
			sum = specVal{t: v.t, v: c.e.binop(token.ADD, v.t, sum.v, v.v, v.t)}
		}
		if n == "allN" {
			return boolVal(And(cs...)), true
		}
		return sum, true
	case "concat":
		// concat(xs, [i,] x, text): the texts of the elements of a slice, in order
		v := c.eval(a[0])
		sl, ok := under(v.t).(*types.Slice)
		if !ok {
			specFail("concat over %s", exprStr(a[0]))
		}
		i := Fresh("i", SBV(64))
		cc := c
		if len(a) == 4 {
			cc = cc.with(a[1].(*ast.Ident).Name, specVal{t: types.Typ[types.Int], v: []*Term{i}})
			a = a[1:]
		}
		cc = cc.with(a[1].(*ast.Ident).Name, specVal{t: sl.Elem(), v: c.e.elemAt(c.st, c.cur, v.v, sl.Elem(), i)})
		x := cc.asType(cc.eval(a[2]), types.Typ[types.String])[0]
		return specVal{t: types.Typ[types.String], v: []*Term{concatTerm(i, v.v[2], x)}}, true
	case "sum":
		// sum(m): the sum of a map's integer values
		v := c.contents(c.eval(a[0]))
		k := Fresh("k", keySort(v.mt.Key()))
		_, es := arrParts(v.vals[0].Sort)
		body := LambdaOver(k, Ite(Select(v.dom, k), Select(v.vals[0], k), zeroOf(es)))
		return specVal{t: v.mt.Elem(), v: []*Term{UF("sum:"+body.Sort, es, body)}}, true
	case "is":
		v := c.eval(a[0])
		return boolVal(And(Ne(v.v[0], IntT(0)), c.e.w.typeIs(v.v[0], c.typeArg(a[1])))), true
	case "as":
		v := c.eval(a[0])
		t := c.typeArg(a[1])
		if isIface(t) {
			return specVal{t: t, v: v.v}, true
		}
		return specVal{t: t, v: c.e.w.unbox(t, v.v[0])}, true
	case "fresh":
		v := c.eval(a[0])
		if c.assuming {
			return boolVal(True), true
		}
		return boolVal(freshRef(v.v[0])), true
	case "unpublished":
		return boolVal(True), true
	case "NaN":
		return specVal{t: types.Typ[types.Float64], v: []*Term{F64(math.NaN())}}, true
	case "isNaN":
		v := c.asType(c.eval(a[0]), types.Typ[types.Float64])
		return boolVal(Op("fp.isNaN", SBool, "", v[0])), true
	case "elapsed":
		return specVal{any: true, since: c.eval(a[0]).v[0]}, true
	case "isElapsed":
		v := c.eval(a[0])
		s := c.eval(a[1])
		return boolVal(c.elapsed(v.v[0], s.v[0])), true
	case "isNow":
		v := c.eval(a[0])
		return boolVal(BoolT(isNow(v.v[0]))), true
	case "dyn":
		// what an interface holds, as the type it is known to have
		v := c.eval(a[0])
		t, x := c.e.w.boxed(v.v[0])
		if t == nil {
			specFail("dyn of a value of unknown type: %s", v.v[0].String())
		}
		return specVal{t: t, v: x}, true
	case "last":
		// the last element of a slice
		v := c.eval(a[0])
		el := under(v.t).(*types.Slice).Elem()
		if v.v[0].Op == "int" && v.v[0].N != 0 {
			if _, ok := c.st.seqs[int64(v.v[0].N)]; ok {
				segs := c.e.segsOf(c.st, v.v, el)
				if len(segs) > 0 && segs[len(segs)-1].Single != nil {
					return specVal{t: el, v: segs[len(segs)-1].Single}, true
				}
			}
		}
		return specVal{t: el, v: c.e.elemAt(c.st, c.cur, v.v, el, Op("bvsub", SBV(64), "", v.v[2], BV64(1)))}, true
	case "seq":
		v := c.eval(a[0])
		sl, ok := under(v.t).(*types.Slice)
		if !ok {
			specFail("seq of something that is not a slice")
		}
		st := c.st.clone()
		st.heap = c.cur
		return specVal{v: []*Term{c.e.seqTerm(st, v.v, sl.Elem())}}, true
	case "bind":
		return specVal{any: true}, true
	case "from":
		// from(x, F): x is what a call of F returned
		v := c.eval(a[0])
		scope, fn := c.pkg.Scope(), exprStr(a[1])
		if i := strings.Index(fn, "."); i > 0 && c.e.w.tpkgs[fn[:i]] != nil {
			scope, fn = c.e.w.tpkgs[fn[:i]].Scope(), fn[i+1:]
		}
		o, ok := scope.Lookup(fn).(*types.Func)
		if !ok {
			specFail("from: %s is not a function", exprStr(a[1]))
		}
		k := "r:" + c.e.w.funcKey(c.e.w.prog.Package(o.Pkg()).Func(o.Name())) + "!"
		return boolVal(BoolT(v.v[0].Op == "var" && strings.HasPrefix(v.v[0].S, k))), true
	case "append":
		// append(seq(s), x): a sequence and one more element
		v := c.eval(a[0])
		x := c.eval(a[1])
		if x.t == nil && len(x.v) == 1 && strings.HasPrefix(x.v[0].S, "seq:") {
			// two sequences
			return specVal{v: []*Term{Subst(x.v[0], map[*Term]*Term{UF("seq:nil", SInt): v.v[0]})}}, true
		}
		return specVal{v: []*Term{UF("seq:cons:"+typeKey(x.t), SInt, append([]*Term{v.v[0]}, x.v...)...)}}, true
	case "contains":
		s := c.asType(c.eval(a[0]), types.Typ[types.String])[0]
		u := c.asType(c.eval(a[1]), types.Typ[types.String])[0]
		return boolVal(Op("str.contains", SBool, "", s, u)), true
	case "prefix":
		s := c.asType(c.eval(a[0]), types.Typ[types.String])[0]
		u := c.asType(c.eval(a[1]), types.Typ[types.String])[0]
		return boolVal(Op("str.prefixof", SBool, "", u, s)), true
	case "fsum":
		// fsum(x.f, n): the float32 sum, left to right, of the first n elements
		// of an array field
		heap := c.cur
		a = append([]ast.Expr{}, a...)
		if o, ok := a[0].(*ast.CallExpr); ok && exprStr(o.Fun) == "old" {
			a[0], heap = o.Args[0], c.old
		}
		sel := a[0].(*ast.SelectorExpr)
		pv := c.unary(&ast.UnaryExpr{Op: token.AND, X: sel})
		el, _ := isPtrTo(pv.t)
		l := c.e.decode(c.st, pv.v[0], el)
		n := c.asType(c.eval(a[1]), types.Typ[types.Int])[0]
		b, acc := Fresh("i", SBV(64)), Fresh("acc", SF32)
		elem := readHeap(c.e, heap, Loc{Ref: l.Ref, Root: l.Root, Path: l.Path + "[]", Idx: append(append([]*Term{}, l.Idx...), b)}, Leaf{"", SF32, types.Typ[types.Float32]})
		if n.Op == "bv" && n.Int() <= maxUnroll {
			sum := F32(0)
			for i := int64(0); i < n.Int(); i++ {
				sum = Op("fp.add", SF32, "", sum, Subst(elem, map[*Term]*Term{b: BV64(i)}))
			}
			return specVal{t: types.Typ[types.Float32], v: []*Term{sum}}, true
		}
		it := &iteration{binder: b, dom: Domain{Lo: BV64(0), Hi: n}}
		return specVal{t: types.Typ[types.Float32], v: []*Term{c.e.foldTerm(it, acc, F32(0), Op("fp.add", SF32, "", acc, elem))}}, true
	case "sorted":
		// sorted(arr, n): the array with its first n elements in order
		v := c.eval(a[0])
		n := c.asType(c.eval(a[1]), types.Typ[types.Int])
		return specVal{t: v.t, v: []*Term{UF("sorted:monkit.float32Slice", v.v[0].Sort, v.v[0], BV64(0), n[0])}}, true
	case "isSorted":
		v := c.eval(a[0])
		n := c.asType(c.eval(a[1]), types.Typ[types.Int])
		return boolVal(UF("issorted", SBool, v.v[0], n[0])), true
	case "nth":
		// nth(f(x), k): the k-th result of a pure call
		v := c.eval(a[0])
		tu, ok := v.t.(*types.Tuple)
		if !ok {
			specFail("nth: %s has a single result", exprStr(a[0]))
		}
		k, _ := constant.Int64Val(c.constArg(a[1]))
		var ts []types.Type
		for i := 0; i < tu.Len(); i++ {
			ts = append(ts, tu.At(i).Type())
		}
		return specVal{t: ts[k], v: splitArgs(ts, v.v)[k]}, true
	case "join", "joinset":
		// joinset is join in some order.
		// join(m, k, v, sep, expr): expr for every entry of m, in increasing
		// order of the keys, with sep between them
		m := c.contents(c.eval(a[0]))
		k := Fresh("k", keySort(m.mt.Key()))
		cc := c.with(a[1].(*ast.Ident).Name, specVal{t: m.mt.Key(), v: keyUnpack(m.mt.Key(), k)})
		var vv []*Term
		for _, arr := range m.vals {
			vv = append(vv, Select(arr, k))
		}
		cc = cc.with(a[2].(*ast.Ident).Name, specVal{t: m.mt.Elem(), v: vv})
		x := cc.asType(cc.eval(a[4]), types.Typ[types.String])[0]
		sep := constant.StringVal(c.constArg(a[3]))
		if n == "joinset" {
			return specVal{t: types.Typ[types.String], v: []*Term{UF("joinset:"+k.Sort, SString, LambdaOver(k, Select(m.dom, k)), LambdaOver(k, x), StrT(sep), Fresh("order", SInt))}}, true
		}
		return specVal{t: types.Typ[types.String], v: []*Term{joinTerm(LambdaOver(k, Select(m.dom, k)), k, x, sep)}}, true
	case "box":
		v := c.eval(a[0])
		return specVal{t: types.NewInterfaceType(nil, nil), v: []*Term{c.e.w.box(v.t, v.v)}}, true
	case "captured":
		// captured(g, x): where the closure g keeps the variable x
		f, bs := c.e.w.funcOf(c.eval(a[0]).v[0])
		if f == nil {
			specFail("captured: %s is not a known closure", exprStr(a[0]))
		}
		for i, fv := range f.FreeVars {
			if fv.Name() == exprStr(a[1]) {
				return specVal{t: fv.Type(), v: []*Term{bs[i]}}, true
			}
		}
		specFail("captured: no variable %s", exprStr(a[1]))
	case "images":
		// images(r, s, "regexp"): r is s with every byte replaced, different
		// bytes by different things, and all of those match the expression
		r := c.asType(c.eval(a[0]), types.Typ[types.String])[0]
		s := c.asType(c.eval(a[1]), types.Typ[types.String])[0]
		re := regexp.MustCompile("^(?:" + constant.StringVal(c.constArg(a[2])) + ")$")
		tab, ok := cmapTables[r.S]
		if r.Op != "uf" || !ok || r.Args[0] != s {
			return specVal{t: types.Typ[types.Bool], v: []*Term{AbsUF("images", SBool, r, s)}}, true
		}
		seen := map[string]bool{}
		good := true
		for _, x := range tab {
			l := make([]rune, len(x)) // bytes, not runes
			for i := range l {
				l[i] = rune(x[i])
			}
			good = good && !seen[x] && re.MatchString(string(l))
			seen[x] = true
		}
		return specVal{t: types.Typ[types.Bool], v: []*Term{BoolT(good)}}, true
	case "bytes":
		// bytemap("in", "tbl"...) is the byte-wise image of a string
		return c.byteImage(a), true
	}
	return specVal{}, false
}

// byteImage(s, "set", "prefix"): every byte of s that occurs in set is
// preceded by prefix.
func (c *specCtx) byteImage(a []ast.Expr) specVal {
	s := c.asType(c.eval(a[0]), types.Typ[types.String])[0]
	set := constant.StringVal(c.constArg(a[1]))
	pre := constant.StringVal(c.constArg(a[2]))
	tab := make([]string, 256)
	for i := range tab {
		tab[i] = string([]byte{byte(i)})
		if strings.IndexByte(set, byte(i)) >= 0 {
			tab[i] = pre + tab[i]
		}
	}
	return specVal{t: types.Typ[types.String], v: []*Term{cmapTerm(tab, s)}}
}

func isNow(t *Term) bool { return t.Op == "var" && strings.HasPrefix(t.S, "now!") }

// elapsedTerm recognises the difference between a clock read and an earlier
// one; in a returned function the earlier one was made before it was called.
func (e *Exec) elapsedTerm(t *Term) bool {
	if t.Op != "uf" || t.S != "time.Sub" || !isNow(t.Args[0]) || !isNow(t.Args[1]) {
		return false
	}
	k, j := nowSeq(t.Args[0]), nowSeq(t.Args[1])
	return j < k && (e.nowMark == 0 || j < e.nowMark && e.nowMark <= k)
}

func nowSeq(t *Term) int {
	n, _ := strconv.Atoi(strings.TrimPrefix(t.S, "now!"))
	return n
}

func (c *specCtx) elapsed(t, start *Term) *Term {
	if t.Op == "uf" && t.S == "time.Sub" && isNow(t.Args[0]) {
		return Eq(t.Args[1], start)
	}
	return False
}

func (c *specCtx) constArg(x ast.Expr) constant.Value {
	v := c.eval(x)
	if v.c == nil {
		if len(v.v) == 1 && v.v[0].Op == "bv" {
			return constant.MakeInt64(v.v[0].Int())
		}
		specFail("not a constant: %s", exprStr(x))
	}
	return v.c
}

// specEnv names the parameters and results of a contract.
func (e *Exec) specEnv(c *FuncContract, f *ssa.Function, args, res []*Term) map[string]specVal {
	env := map[string]specVal{}
	var ts []types.Type
	if f.Signature.Recv() != nil {
		ts = append(ts, f.Signature.Recv().Type())
	}
	ts = append(ts, sigTypes(f.Signature)...)
	for i, a := range splitArgs(ts, args) {
		if i < len(c.Params) && c.Params[i] != "_" {
			env[c.Params[i]] = specVal{t: ts[i], v: a}
		}
	}
	if res != nil {
		var rt []types.Type
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rt = append(rt, f.Signature.Results().At(i).Type())
		}
		for i, a := range splitArgs(rt, res) {
			v := specVal{t: rt[i], v: a}
			if i < len(c.Results) && c.Results[i] != "_" {
				env[c.Results[i]] = v
			}
			env["result"+strconv.Itoa(i)] = v
			if i == 0 {
				env["result"] = v
			}
		}
	}
	return env
}

// receiverInvariants are the invariants of a sequential receiver type.
func (e *Exec) receiverInvariants(c *FuncContract, f *ssa.Function) []Clause {
	if f.Signature.Recv() == nil || len(c.Params) == 0 {
		return nil
	}
	el, ok := isPtrTo(f.Signature.Recv().Type())
	if !ok {
		return nil
	}
	d := e.w.declFor(el)
	if d == nil || !d.Seq {
		return nil
	}
	var out []Clause
	for _, i := range d.Inv {
		// invariants speak of self; contracts of the receiver's name
		out = append(out, Clause{Name: i.Name, Text: i.Text, Expr: renameSelf(i.Expr, c.Params[0]), Prop: i.Prop})
	}
	return out
}

func renameSelf(x ast.Expr, name string) ast.Expr {
	ex, err := parser_copy(x)
	if err != nil {
		return x
	}
	ast.Inspect(ex, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "self" {
			id.Name = name
		}
		return true
	})
	return ex
}

func parser_copy(x ast.Expr) (ast.Expr, error) { return parseExpr(exprStr(x)) }

// cellsOf lists the heap cells a modifies item names: x.f, *x, contents(m),
// x.f[...] (all of it), or everything(x).
func (e *Exec) cellsOf(m ast.Expr, c *specCtx) []cell {
	if c.pkg == nil && e.cur != nil {
		c.pkg = e.w.tpkgs[e.cur.Pkg]
	}
	switch x := m.(type) {
	case *ast.SelectorExpr:
		v := c.eval(x.X)
		if v.pkg != nil {
			o := v.pkg.Scope().Lookup(x.Sel.Name).(*types.Var)
			g := e.w.prog.Package(o.Pkg()).Var(o.Name())
			noteRoot(o.Type())
			return e.fieldCells(Loc{Ref: e.w.globalTerm(g), Root: typeKey(o.Type())}, "", o.Type(), x.Sel.Name)
		}
		p := c.unary(&ast.UnaryExpr{Op: token.AND, X: x})
		el, _ := isPtrTo(p.t)
		l := e.decode(c.st, p.v[0], el)
		return e.fieldCells(l, "", el, x.Sel.Name)
	case *ast.StarExpr:
		v := c.eval(x.X)
		el, ok := isPtrTo(v.t)
		if !ok {
			specFail("modifies %s", exprStr(m))
		}
		noteRoot(el)
		return e.fieldCells(e.decode(c.st, v.v[0], el), "", el, "*")
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "contents" {
			v := c.eval(x.Args[0])
			return e.pointeeCells(v.t, v.v[0], "contents")
		}
	case *ast.Ident:
		if c.pkg != nil {
			if o, ok := c.pkg.Scope().Lookup(x.Name).(*types.Var); ok {
				g := e.w.prog.Package(o.Pkg()).Var(o.Name())
				noteRoot(o.Type())
				return e.fieldCells(Loc{Ref: e.w.globalTerm(g), Root: typeKey(o.Type())}, "", o.Type(), x.Name)
			}
		}
	}
	specFail("unsupported modifies item %s", exprStr(m))
	return nil
}

// named lets the state remember facts about looked-up values.
func (e *Exec) named(st *State, mt types.Type, ref, k *Term, v []*Term, ok *Term) []*Term {
	return v
}

// nonnilField reports whether a heap read is of a field declared never nil.
func (w *World) nonnilField(t *Term) bool {
	// select(heap, ref) or select(select(...), idx): find the heap key
	h := t.Args[0]
	for h.Op == "store" {
		h = h.Args[0]
	}
	if h.Op != "var" || !strings.HasPrefix(h.S, "H:") {
		return false
	}
	key := h.S[2:]
	for n, d := range w.db.types {
		if strings.HasPrefix(key, n) && d.NonN[key[len(n):]] {
			return true
		}
	}
	return false
}

// freshRef: the reference was allocated in the call.
func freshRef(t *Term) *Term {
	switch {
	case t.Op == "ite":
		return Ite(t.Args[0], freshRef(t.Args[1]), freshRef(t.Args[2]))
	case t.Op == "uf" && strings.HasPrefix(t.S, "ip:"):
		return freshRef(t.Args[0])
	}
	return BoolT(t.Op == "int" && int64(t.N) >= FreshBase)
}
