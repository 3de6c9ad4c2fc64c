package main

// Terms: hash-consed, simplifying SMT terms.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Sort is the SMT-LIB text of a sort.
type Sort = string

const (
	SBool   Sort = "Bool"
	SInt    Sort = "Int" // references, interface ids, function ids
	SString Sort = "String"
	SF64    Sort = "(_ FloatingPoint 11 53)"
	SF32    Sort = "(_ FloatingPoint 8 24)"
	STime   Sort = "Time"
)

// FreshBase is the first reference number given to objects allocated by the
// code being executed; every object that exists before has a smaller one.
const FreshBase = 1000000

func SBV(w int) Sort      { return "(_ BitVec " + strconv.Itoa(w) + ")" }
func SArr(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }
func isArr(s Sort) bool   { return strings.HasPrefix(s, "(Array ") }
func isBV(s Sort) bool    { return strings.HasPrefix(s, "(_ BitVec ") }
func isFP(s Sort) bool    { return strings.HasPrefix(s, "(_ FloatingPoint") }
func bvWidth(s Sort) int {
	n, _ := strconv.Atoi(strings.TrimSuffix(s[len("(_ BitVec "):], ")"))
	return n
}
func arrParts(s Sort) (k, v Sort) {
	body := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is an immutable hash-consed term.
type Term struct {
	Op   string
	Args []*Term
	Sort Sort
	S    string // var/uf name, string constant, operator parameters
	N    uint64 // bit-vector / float bits, or int64 as uint64
	id   int
	// abstract is set when the term involves something over-approximated
	// (uninterpreted library functions, summaries): a refutation that depends
	// on it is not trusted without a replay.
	abstract bool
	bound    bool  // contains a free bound variable
	old      bool  // for SInt: certainly refers to an object older than any fresh one
	upto     int64 // for SInt: refers to no object allocated after this one (0: not known)
}

var (
	termTab = map[string]*Term{}
	termSeq int
	ufDecl  = map[string]string{} // name -> declaration
	ufOrder []string
	dtDecl  = map[string]string{} // datatype sorts
	dtOrder []string
)

func mk(op string, sort Sort, s string, n uint64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(sort)
	b.WriteByte(0)
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(strconv.FormatUint(n, 16))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Args: args, Sort: sort, S: s, N: n, id: termSeq}
	for _, a := range args {
		t.abstract = t.abstract || a.abstract
		t.bound = t.bound || a.bound
	}
	if op == "bvar" {
		t.bound = true
	}
	if op == "lambda" || op == "forall" {
		// closed if the only bound variable is its own
		t.bound = hasOtherBound(args[0], args[1])
	}
	termTab[k] = t
	return t
}

func hasOtherBound(v, body *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "bvar" {
			return t != v
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(body)
}

var (
	True  = mk("true", SBool, "", 0)
	False = mk("false", SBool, "", 0)
)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func BV(w int, n uint64) *Term {
	if w < 64 {
		n &= 1<<uint(w) - 1
	}
	return mk("bv", SBV(w), "", n)
}
func BV64(n int64) *Term  { return BV(64, uint64(n)) }
func IntT(n int64) *Term  { return mk("int", SInt, "", uint64(n)) }
func StrT(s string) *Term { return mk("str", SString, s, 0) }
func F64(f float64) *Term { return mk("fp", SF64, "", math.Float64bits(canonNaN(f))) }
func F32(f float32) *Term {
	if f != f {
		return mk("fp", SF32, "", 0x7fc00000)
	}
	return mk("fp", SF32, "", uint64(math.Float32bits(f)))
}
func canonNaN(f float64) float64 {
	if f != f {
		return math.Float64frombits(0x7ff8000000000000)
	}
	return f
}

func Var(name string, sort Sort) *Term { return mk("var", sort, name, 0) }

var freshSeq = map[string]int{}

func Fresh(prefix string, sort Sort) *Term {
	prefix = strings.NewReplacer("|", "_", "\\", "_").Replace(prefix)
	freshSeq[prefix]++
	name := fmt.Sprintf("%s!%d", prefix, freshSeq[prefix])
	varCount++
	varSeq[name] = varCount
	return Var(name, sort)
}

// varSeq numbers variables in the order of their creation.
var (
	varCount int
	varSeq   = map[string]int{}
)

// BoundVar makes a bound variable; names are canonical per depth so that
// alpha-equivalent lambdas are identical terms.
func BoundVar(depth int, sort Sort) *Term {
	return mk("bvar", sort, fmt.Sprintf("b%d", depth), 0)
}

func boundDepth(t *Term) int {
	if !t.bound && t.Op != "lambda" && t.Op != "forall" {
		// might still contain closed lambdas
		d := 0
		for _, a := range t.Args {
			if x := boundDepth(a); x > d {
				d = x
			}
		}
		return d
	}
	if t.Op == "bvar" {
		n, _ := strconv.Atoi(t.S[1:])
		return n + 1
	}
	d := 0
	for _, a := range t.Args {
		if x := boundDepth(a); x > d {
			d = x
		}
	}
	return d
}

// LambdaOver abstracts term v (a variable) in body.
func LambdaOver(v, body *Term) *Term {
	bv := BoundVar(boundDepth(body), v.Sort)
	b := Subst(body, map[*Term]*Term{v: bv})
	// eta: lambda k. select(a,k) == a
	if b.Op == "select" && b.Args[1] == bv && !mentions(b.Args[0], bv) {
		return b.Args[0]
	}
	if !mentions(b, bv) {
		return ConstArr(SArr(v.Sort, b.Sort), b)
	}
	return mk("lambda", SArr(v.Sort, body.Sort), "", 0, bv, b)
}

func ForallOver(v, body *Term) *Term {
	if body == True {
		return True
	}
	bv := BoundVar(boundDepth(body), v.Sort)
	b := Subst(body, map[*Term]*Term{v: bv})
	if !mentions(b, bv) {
		return b
	}
	return mk("forall", SBool, "", 0, bv, b)
}
func ExistsOver(v, body *Term) *Term { return Not(ForallOver(v, Not(body))) }

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// Subst replaces variables, rebuilding (and so re-simplifying) terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = walk(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		cache[t] = r
		return r
	}
	return walk(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.Sort, a[0])
	case "lambda":
		if a[0] == t.Args[0] {
			nb := a[0]
			if d := boundDepthExcept(a[1], nb); fmt.Sprintf("b%d", d) != nb.S {
				// renumber to stay canonical and capture free
				tmp := Fresh("alpha", nb.Sort)
				return LambdaOver(tmp, Subst(a[1], map[*Term]*Term{nb: tmp}))
			}
			return mk("lambda", t.Sort, "", 0, a[0], a[1])
		}
		return mk("lambda", t.Sort, "", 0, a...)
	case "forall":
		return mk("forall", t.Sort, "", 0, a...)
	case "uf":
		if strings.HasPrefix(t.S, "unbox:") && len(a) == 1 && a[0].Op == "uf" && strings.HasPrefix(a[0].S, "box:") {
			k := strings.LastIndex(t.S, "|")
			if n, err := strconv.Atoi(t.S[k+1:]); err == nil && t.S[6:k] == a[0].S[4:] && n < len(a[0].Args) {
				return a[0].Args[n]
			}
		}
		r := mk("uf", t.Sort, t.S, 0, a...)
		r.abstract = r.abstract || t.abstract
		r.old = t.old
		return r
	}
	if r := Op(t.Op, t.Sort, t.S, a...); r != nil {
		return r
	}
	panic("rebuild " + t.Op)
}

func boundDepthExcept(t, v *Term) int {
	d := 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t == v {
			return
		}
		seen[t] = true
		if t.Op == "bvar" {
			n, _ := strconv.Atoi(t.S[1:])
			if n+1 > d {
				d = n + 1
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return d
}

func (t *Term) isConst() bool {
	switch t.Op {
	case "true", "false", "bv", "int", "str", "fp":
		return true
	}
	return false
}
func (t *Term) Int() int64 {
	if t.Op == "bv" {
		w := bvWidth(t.Sort)
		return sext64(t.N, w)
	}
	return int64(t.N)
}
func sext64(n uint64, w int) int64 {
	if w >= 64 {
		return int64(n)
	}
	return int64(n<<(64-uint(w))) >> (64 - uint(w))
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "ite":
		if a.Args[1].isConst() || a.Args[2].isConst() {
			return Ite(a.Args[0], Not(a.Args[1]), Not(a.Args[2]))
		}
	}
	return mk("not", SBool, "", 0, a)
}

func nary(op string, unit, zero *Term, args []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero || seen[Not(a)] {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, SBool, "", 0, out...)
}
func And(args ...*Term) *Term  { return nary("and", True, False, args) }
func Or(args ...*Term) *Term   { return nary("or", False, True, args) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	r := mk("ite", a.Sort, "", 0, c, a, b)
	r.old = a.old && b.old
	return r
}

// injective functions build references: interior pointers, boxed interface
// values, closures, static functions. They never yield nil.
func injective(name string) bool {
	return strings.HasPrefix(name, "ip:") || strings.HasPrefix(name, "box:") ||
		strings.HasPrefix(name, "clo:") || strings.HasPrefix(name, "fn:")
}

// distinct reports that a and b certainly differ.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	if a.Sort == SInt {
		if a.Op == "int" && int64(a.N) >= FreshBase && b.old {
			return true
		}
		if b.Op == "int" && int64(b.N) >= FreshBase && a.old {
			return true
		}
		if a.Op == "int" && b.upto > 0 && int64(a.N) > b.upto || b.Op == "int" && a.upto > 0 && int64(b.N) > a.upto {
			return true
		}
	}
	if a.Op == "uf" && injective(a.S) {
		if b.Op == "int" && (int64(b.N) == 0 || int64(b.N) >= FreshBase) {
			return true
		}
		if b.Op == "uf" && injective(b.S) {
			if a.S != b.S {
				return true
			}
			for i := range a.Args {
				if distinct(a.Args[i], b.Args[i]) {
					return true
				}
			}
		}
	}
	if b.Op == "uf" && injective(b.S) && a.Op == "int" && (int64(a.N) == 0 || int64(a.N) >= FreshBase) {
		return true
	}
	if a.Op == "mk" && b.Op == "mk" && a.Sort == b.Sort {
		for i := range a.Args {
			if distinct(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if distinct(a, b) {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if x, y, ok := bothSmall(a, b); ok {
		return Eq(x, y)
	}
	if a.Op == "uf" && b.Op == "uf" && a.S == b.S && injective(a.S) {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "mk" && b.Op == "mk" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "ite" && b.isConst() && (a.Args[1].isConst() || a.Args[2].isConst()) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && a.isConst() && (b.Args[1].isConst() || b.Args[2].isConst()) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.Sort == SInt {
		if a.Op == "ite" && (distinct(a.Args[1], b) || distinct(a.Args[2], b)) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if b.Op == "ite" && (distinct(b.Args[1], a) || distinct(b.Args[2], a)) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", 0, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, "", 0, v) }

func Select(a, i *Term) *Term {
	k, v := arrParts(a.Sort)
	if k != i.Sort {
		panic(fmt.Sprintf("select index sort %s for array %s", i.Sort, a.Sort))
	}
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if distinct(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	switch a.Op {
	case "constarr":
		return a.Args[0]
	case "lambda":
		return Subst(a.Args[1], map[*Term]*Term{a.Args[0]: i})
	case "ite":
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	case "store":
		if v == SBool || a.Args[2].isConst() {
			return Ite(Eq(a.Args[1], i), a.Args[2], Select(a.Args[0], i))
		}
	}
	if v == SBV(8) && a.Op == "select" && a.Args[0].Op == "var" && a.Args[1].Op == "uf" && a.Args[1].S == "bytesof" {
		// nothing was written to the bytes of a string's copy
		return strByte(a.Args[1].Args[0], i)
	}
	t := mk("select", v, "", 0, a, i)
	if v == SInt && (a.Op == "var" && a.old) {
		t.old = true
	}
	if isArr(v) && a.Op == "var" && a.old {
		t.old = true
	}
	if a.Op == "select" && a.old && v == SInt {
		t.old = true
	}
	if (a.Op == "var" || a.Op == "select") && a.upto > 0 && (v == SInt || isArr(v)) {
		t.upto = a.upto
	}
	return t
}

func Store(a, i, v *Term) *Term {
	ks, vs := arrParts(a.Sort)
	if ks != i.Sort || vs != v.Sort {
		panic(fmt.Sprintf("store sorts: array %s index %s value %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	// canonical order for certainly different constant indexes
	if a.Op == "store" && i.isConst() && a.Args[1].isConst() && i.Op == "bv" && i.N < a.Args[1].N {
		return Store(Store(a.Args[0], i, v), a.Args[1], a.Args[2])
	}
	return mk("store", a.Sort, "", 0, a, i, v)
}

// UF applies an uninterpreted function.
func UF(name string, sort Sort, args ...*Term) *Term {
	var as []string
	for _, a := range args {
		as = append(as, a.Sort)
	}
	decl := fmt.Sprintf("(declare-fun |%s| (%s) %s)", smtName(name), strings.Join(as, " "), sort)
	if d, ok := ufDecl[name]; !ok {
		ufDecl[name] = decl
		ufOrder = append(ufOrder, name)
	} else if d != decl {
		panic("UF " + name + " redeclared: " + d + " vs " + decl)
	}
	return mk("uf", sort, name, 0, args...)
}

// AbsUF is UF marking the result as an abstraction of a library function.
func AbsUF(name string, sort Sort, args ...*Term) *Term {
	t := UF(name, sort, args...)
	t.abstract = true
	return t
}

// Tuple builds a datatype value.
func TupleSort(name string, sorts []Sort) Sort {
	if _, ok := dtDecl[name]; !ok {
		var fs []string
		for i, s := range sorts {
			fs = append(fs, fmt.Sprintf("(%s_f%d %s)", name, i, s))
		}
		dtDecl[name] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", name, name, strings.Join(fs, " "))
		dtOrder = append(dtOrder, name)
	}
	return name
}
func MkTuple(sort Sort, args ...*Term) *Term { return mk("mk", sort, "mk_"+sort, 0, args...) }
func TupleGet(t *Term, i int, s Sort) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	return mk("get", s, fmt.Sprintf("%s_f%d", t.Sort, i), 0, t)
}

func bvBin(op string, w int, x, y uint64) (uint64, bool) {
	sx, sy := sext64(x, w), sext64(y, w)
	switch op {
	case "bvadd":
		return x + y, true
	case "bvsub":
		return x - y, true
	case "bvmul":
		return x * y, true
	case "bvand":
		return x & y, true
	case "bvor":
		return x | y, true
	case "bvxor":
		return x ^ y, true
	case "bvshl":
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case "bvlshr":
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case "bvashr":
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx >> y), true
	case "bvsdiv":
		if sy == 0 || (sy == -1) {
			return 0, false
		}
		return uint64(sx / sy), true
	case "bvsrem":
		if sy == 0 || sy == -1 {
			return 0, false
		}
		return uint64(sx % sy), true
	case "bvudiv":
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case "bvurem":
		if y == 0 {
			return 0, false
		}
		return x % y, true
	}
	return 0, false
}

func fpval(t *Term) float64 {
	if t.Sort == SF32 {
		return float64(math.Float32frombits(uint32(t.N)))
	}
	return math.Float64frombits(t.N)
}
func fpconst(s Sort, f float64) *Term {
	if s == SF32 {
		return F32(float32(f))
	}
	return F64(f)
}

// Small integers: bit-vector views (int2bv) of lengths and indexes, which are
// assumed to stay far from the 64 bit limits.
func smallInt(t *Term) (*Term, bool) {
	if t.Op == "int2bv" && bvWidth(t.Sort) == 64 {
		return t.Args[0], true
	}
	if t.Op == "bv" && bvWidth(t.Sort) == 64 {
		if n := t.Int(); n > -(1<<40) && n < 1<<40 {
			return IntT(n), true
		}
	}
	return nil, false
}
func bothSmall(a, b *Term) (x, y *Term, ok bool) {
	if a.Op != "int2bv" && b.Op != "int2bv" {
		return nil, nil, false
	}
	x, ok1 := smallInt(a)
	y, ok2 := smallInt(b)
	return x, y, ok1 && ok2
}

// I2BV views a small mathematical integer as a Go int.
func I2BV(t *Term) *Term { return Op("int2bv", SBV(64), "", t) }

// BV2I is the mathematical value of a Go int.
func BV2I(t *Term) *Term {
	if x, ok := smallInt(t); ok {
		return x
	}
	return Op("bv2int", SInt, "", t)
}

// Op builds any other operator with constant folding.
func Op(op string, s Sort, param string, a ...*Term) *Term {
	for _, x := range a {
		if x == nil {
			panic("nil arg to " + op)
		}
	}
	switch op {
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvsdiv", "bvsrem", "bvudiv", "bvurem":
		w := bvWidth(a[0].Sort)
		if a[0].Op == "bv" && a[1].Op == "bv" {
			if r, ok := bvBin(op, w, a[0].N, a[1].N); ok {
				return BV(w, r)
			}
		}
		if op == "bvsub" && a[0] == a[1] {
			return BV(w, 0)
		}
		if op == "bvadd" || op == "bvsub" {
			if x, y, ok := bothSmall(a[0], a[1]); ok {
				if op == "bvadd" {
					return I2BV(Op("+", SInt, "", x, y))
				}
				return I2BV(Op("-", SInt, "", x, y))
			}
		}
		if op == "bvsub" && a[1].Op == "bv" {
			return Op("bvadd", s, "", a[0], BV(w, -a[1].N))
		}
		if op == "bvadd" || op == "bvsub" {
			if a[1].Op == "bv" && a[1].N == 0 {
				return a[0]
			}
			if op == "bvadd" && a[0].Op == "bv" && a[0].N == 0 {
				return a[1]
			}
			// keep constants on the right and merged
			if op == "bvadd" && a[0].Op == "bv" {
				return Op("bvadd", s, "", a[1], a[0])
			}
			if op == "bvadd" && a[1].Op == "bv" && a[0].Op == "bvadd" && a[0].Args[1].Op == "bv" {
				return Op("bvadd", s, "", a[0].Args[0], BV(w, a[1].N+a[0].Args[1].N))
			}
		}
		if op == "bvadd" || op == "bvmul" || op == "bvand" || op == "bvor" || op == "bvxor" {
			if a[0].Op != "bv" && a[1].Op != "bv" && a[0].id > a[1].id {
				a = []*Term{a[1], a[0]}
			}
		}
		return mk(op, a[0].Sort, "", 0, a...)
	case "bvneg":
		if a[0].Op == "bv" {
			return BV(bvWidth(a[0].Sort), -a[0].N)
		}
		return mk(op, a[0].Sort, "", 0, a...)
	case "bvnot":
		if a[0].Op == "bv" {
			return BV(bvWidth(a[0].Sort), ^a[0].N)
		}
		return mk(op, a[0].Sort, "", 0, a...)
	case "bvslt", "bvsle", "bvult", "bvule":
		if a[0] == a[1] {
			return BoolT(op == "bvsle" || op == "bvule")
		}
		if a[0].Op == "bv" && a[1].Op == "bv" {
			w := bvWidth(a[0].Sort)
			x, y := sext64(a[0].N, w), sext64(a[1].N, w)
			switch op {
			case "bvslt":
				return BoolT(x < y)
			case "bvsle":
				return BoolT(x <= y)
			case "bvult":
				return BoolT(a[0].N < a[1].N)
			default:
				return BoolT(a[0].N <= a[1].N)
			}
		}
		if x, y, ok := bothSmall(a[0], a[1]); ok {
			switch op {
			case "bvslt":
				return Op("<", SBool, "", x, y)
			case "bvsle":
				return Op("<=", SBool, "", x, y)
			}
		}
		// a <= b  is  not (b < a)
		if op == "bvsle" {
			return Not(Op("bvslt", SBool, "", a[1], a[0]))
		}
		if op == "bvule" {
			return Not(Op("bvult", SBool, "", a[1], a[0]))
		}
		return mk(op, SBool, "", 0, a...)
	case "extract":
		var hi, lo int
		fmt.Sscanf(param, "%d %d", &hi, &lo)
		if a[0].Op == "bv" {
			return BV(hi-lo+1, a[0].N>>uint(lo))
		}
		if lo == 0 && hi+1 == bvWidth(a[0].Sort) {
			return a[0]
		}
		return mk(op, SBV(hi-lo+1), param, 0, a...)
	case "sext", "zext":
		n, _ := strconv.Atoi(param)
		w := bvWidth(a[0].Sort)
		if n == 0 {
			return a[0]
		}
		if a[0].Op == "bv" {
			if op == "sext" {
				return BV(w+n, uint64(sext64(a[0].N, w)))
			}
			return BV(w+n, a[0].N)
		}
		return mk(op, SBV(w+n), param, 0, a...)
	case "+", "-", "*":
		if a[0].Op == "int" && a[1].Op == "int" {
			x, y := int64(a[0].N), int64(a[1].N)
			switch op {
			case "+":
				return IntT(x + y)
			case "-":
				return IntT(x - y)
			default:
				return IntT(x * y)
			}
		}
		if op == "-" && a[1].Op == "int" {
			return Op("+", s, "", a[0], IntT(-int64(a[1].N)))
		}
		if op == "+" {
			if a[0].Op == "int" {
				a = []*Term{a[1], a[0]}
			}
			if a[1].Op == "int" && a[1].N == 0 {
				return a[0]
			}
			if a[1].Op == "int" && a[0].Op == "+" && a[0].Args[1].Op == "int" {
				return Op("+", s, "", a[0].Args[0], IntT(int64(a[1].N)+int64(a[0].Args[1].N)))
			}
		}
		if op == "-" && a[0] == a[1] {
			return IntT(0)
		}
		return mk(op, SInt, "", 0, a...)
	case "<", "<=":
		if a[0].Op == "int" && a[1].Op == "int" {
			if op == "<" {
				return BoolT(int64(a[0].N) < int64(a[1].N))
			}
			return BoolT(int64(a[0].N) <= int64(a[1].N))
		}
		if a[0] == a[1] {
			return BoolT(op == "<=")
		}
		if op == "<=" {
			return Not(Op("<", SBool, "", a[1], a[0]))
		}
		return mk(op, SBool, "", 0, a...)
	case "fp.add", "fp.sub", "fp.mul", "fp.div":
		if a[0].Op == "fp" && a[1].Op == "fp" {
			x, y := fpval(a[0]), fpval(a[1])
			if s == SF32 {
				x32, y32 := float32(x), float32(y)
				switch op {
				case "fp.add":
					return F32(x32 + y32)
				case "fp.sub":
					return F32(x32 - y32)
				case "fp.mul":
					return F32(x32 * y32)
				default:
					return F32(x32 / y32)
				}
			}
			switch op {
			case "fp.add":
				return F64(x + y)
			case "fp.sub":
				return F64(x - y)
			case "fp.mul":
				return F64(x * y)
			default:
				return F64(x / y)
			}
		}
		return mk(op, a[0].Sort, "", 0, a...)
	case "fp.neg":
		if a[0].Op == "fp" {
			return fpconst(a[0].Sort, -fpval(a[0]))
		}
		return mk(op, a[0].Sort, "", 0, a...)
	case "fp.lt", "fp.leq", "fp.eq":
		if a[0].Op == "fp" && a[1].Op == "fp" {
			x, y := fpval(a[0]), fpval(a[1])
			switch op {
			case "fp.lt":
				return BoolT(x < y)
			case "fp.leq":
				return BoolT(x <= y)
			default:
				return BoolT(x == y)
			}
		}
		return mk(op, SBool, "", 0, a...)
	case "fp.isNaN", "fp.isInfinite":
		if a[0].Op == "fp" {
			x := fpval(a[0])
			if op == "fp.isNaN" {
				return BoolT(x != x)
			}
			return BoolT(math.IsInf(x, 0))
		}
		return mk(op, SBool, "", 0, a...)
	case "fp.of.s":
		if a[0].Op == "bv" {
			return fpconst(s, float64(a[0].Int()))
		}
		return mk(op, s, "", 0, a...)
	case "fp.of.u":
		if a[0].Op == "bv" {
			return fpconst(s, float64(a[0].N))
		}
		return mk(op, s, "", 0, a...)
	case "fp.of.f":
		if a[0].Sort == s {
			return a[0]
		}
		if a[0].Op == "fp" {
			return fpconst(s, fpval(a[0]))
		}
		return mk(op, s, "", 0, a...)
	case "fp.to.s":
		if a[0].Op == "fp" {
			f := fpval(a[0])
			if f > -9.2e18 && f < 9.2e18 {
				return BV(bvWidth(s), uint64(int64(f)))
			}
		}
		return mk(op, s, "", 0, a...)
	case "fp.to.u":
		return mk(op, s, "", 0, a...)
	case "str.++":
		var out []*Term
		var add func(t *Term)
		add = func(t *Term) {
			if t.Op == "str.++" {
				for _, x := range t.Args {
					add(x)
				}
				return
			}
			if t.Op == "str" && t.S == "" {
				return
			}
			if t.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = StrT(out[len(out)-1].S + t.S)
				return
			}
			out = append(out, t)
		}
		for _, x := range a {
			add(x)
		}
		if len(out) == 0 {
			return StrT("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return mk(op, SString, "", 0, out...)
	case "str.len":
		if a[0].Op == "str" {
			return IntT(int64(len(a[0].S)))
		}
		if a[0].Op == "str.++" {
			r := IntT(0)
			for _, x := range a[0].Args {
				r = Op("+", SInt, "", r, Op("str.len", SInt, "", x))
			}
			return r
		}
		return mk(op, SInt, "", 0, a...)
	case "str.contains":
		if a[0].Op == "str" && a[1].Op == "str" {
			return BoolT(strings.Contains(a[0].S, a[1].S))
		}
		return mk(op, SBool, "", 0, a...)
	case "str.prefixof":
		if a[0].Op == "str" && a[1].Op == "str" {
			return BoolT(strings.HasPrefix(a[1].S, a[0].S))
		}
		return mk(op, SBool, "", 0, a...)
	case "str.<":
		if a[0].Op == "str" && a[1].Op == "str" {
			return BoolT(a[0].S < a[1].S)
		}
		return mk(op, SBool, "", 0, a...)
	case "str.at", "str.substr", "str.indexof", "str.to_code", "str.from_code", "int2bv", "bv2int", "get", "mk":
		if op == "str.from_code" && a[0].Op == "int" {
			return StrT(string([]byte{byte(a[0].N)}))
		}
		if op == "bv2int" && a[0].Op == "bv" {
			return IntT(a[0].Int())
		}
		if op == "int2bv" && a[0].Op == "int" {
			return BV(bvWidth(s), a[0].N)
		}
		if op == "int2bv" && a[0].Op == "bv2int" && a[0].Args[0].Sort == s {
			return a[0].Args[0]
		}
		if op == "int2bv" && a[0].Op == "+" {
			// conversion modulo 2^n is a homomorphism; worth it when it meets
			// a bit-vector
			hit := false
			for _, x := range a[0].Args {
				hit = hit || x.Op == "bv2int" && x.Args[0].Sort == s
			}
			if hit {
				r := Op(op, s, param, a[0].Args[0])
				for _, x := range a[0].Args[1:] {
					r = Op("bvadd", s, "", r, Op(op, s, param, x))
				}
				return r
			}
		}
		return mk(op, s, param, 0, a...)
	}
	return nil
}

// ---- printing ----

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtName(s string) string {
	if strings.ContainsAny(s, "|\\") {
		return strings.NewReplacer("|", "!", "\\", "/").Replace(s)
	}
	return s
}

func (t *Term) head(args []string) string {
	j := strings.Join(args, " ")
	switch t.Op {
	case "var":
		return "|" + smtName(t.S) + "|"
	case "bvar":
		return t.S
	case "true", "false":
		return t.Op
	case "bv":
		return fmt.Sprintf("(_ bv%d %d)", t.N, bvWidth(t.Sort))
	case "int":
		if int64(t.N) < 0 {
			return fmt.Sprintf("(- %d)", -int64(t.N))
		}
		return fmt.Sprint(int64(t.N))
	case "str":
		return smtStr(t.S)
	case "fp":
		if t.Sort == SF32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.N)
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.N)
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.Sort, j)
	case "lambda":
		return fmt.Sprintf("(lambda ((%s %s)) %s)", args[0], t.Args[0].Sort, args[1])
	case "forall":
		return fmt.Sprintf("(forall ((%s %s)) %s)", args[0], t.Args[0].Sort, args[1])
	case "extract":
		return fmt.Sprintf("((_ extract %s) %s)", t.S, j)
	case "sext":
		return fmt.Sprintf("((_ sign_extend %s) %s)", t.S, j)
	case "zext":
		return fmt.Sprintf("((_ zero_extend %s) %s)", t.S, j)
	case "fp.add", "fp.sub", "fp.mul", "fp.div":
		return fmt.Sprintf("(%s RNE %s)", t.Op, j)
	case "fp.of.s", "fp.of.f":
		return fmt.Sprintf("(%s RNE %s)", strings.Replace(t.Sort, "FloatingPoint", "to_fp", 1), j)
	case "fp.of.u":
		return fmt.Sprintf("(%s RNE %s)", strings.Replace(t.Sort, "FloatingPoint", "to_fp_unsigned", 1), j)
	case "fp.to.s":
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", bvWidth(t.Sort), j)
	case "fp.to.u":
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", bvWidth(t.Sort), j)
	case "int2bv":
		return fmt.Sprintf("((_ int2bv %d) %s)", bvWidth(t.Sort), j)
	case "bv2int":
		// signed
		w := bvWidth(t.Args[0].Sort)
		return fmt.Sprintf("(ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s))", j, w, j, pow2(w), j)
	case "uf":
		if len(args) == 0 {
			return "|" + smtName(t.S) + "|"
		}
		return fmt.Sprintf("(|%s| %s)", smtName(t.S), j)
	case "get", "mk":
		return fmt.Sprintf("(%s %s)", t.S, j)
	}
	return fmt.Sprintf("(%s %s)", t.Op, j)
}
func pow2(w int) string {
	if w == 64 {
		return "18446744073709551616"
	}
	return fmt.Sprint(uint64(1) << uint(w))
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d-1))
	}
	return t.head(as)
}

// Script renders assertions as an SMT-LIB script body (declarations and
// asserts), sharing common subterms.
func Script(asserts []*Term) string {
	refs := map[*Term]int{}
	var order []*Term
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		count(a)
	}
	var b strings.Builder
	usedUF := map[string]bool{}
	usesTime := false
	usedDT := map[string]bool{}
	noteSort := func(s string) {
		if strings.Contains(s, "Time") {
			usesTime = true
		}
		for _, d := range dtOrder {
			if strings.Contains(s, d) {
				usedDT[d] = true
			}
		}
	}
	for _, t := range order {
		noteSort(t.Sort)
		if t.Op == "uf" {
			usedUF[t.S] = true
			noteSort(ufDecl[t.S])
		}
	}
	if usesTime {
		b.WriteString("(declare-sort Time 0)\n")
	}
	for _, d := range dtOrder {
		if usedDT[d] {
			b.WriteString(dtDecl[d] + "\n")
		}
	}
	for _, u := range ufOrder {
		if usedUF[u] {
			b.WriteString(ufDecl[u] + "\n")
		}
	}
	for _, t := range order {
		if t.Op == "var" {
			fmt.Fprintf(&b, "(declare-const |%s| %s)\n", smtName(t.S), t.Sort)
		}
	}
	name := map[*Term]string{}
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := name[t]; ok {
			return n
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, pr(a))
		}
		s := t.head(as)
		if refs[t] > 1 && len(t.Args) > 0 && !t.bound {
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, s)
			name[t] = n
			return n
		}
		return s
	}
	for _, a := range asserts {
		s := pr(a)
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	return b.String()
}
