package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Loc is a decoded pointer.
type Loc struct {
	Ref  *Term
	Root string // type key of the root object, or "elems:T"
	Path string // ".f[].g"
	Idx  []*Term
}

func ptrTerm(l Loc) *Term {
	if l.Path == "" {
		return l.Ref
	}
	name := "ip:" + l.Root + "|" + l.Path
	return UF(name, SInt, append([]*Term{l.Ref}, l.Idx...)...)
}

func (e *Exec) decode(st *State, t *Term, elem types.Type) Loc {
	if t.Op == "uf" && strings.HasPrefix(t.S, "ip:") {
		n := t.S[3:]
		i := strings.Index(n, "|")
		return Loc{Ref: t.Args[0], Root: n[:i], Path: n[i+1:], Idx: t.Args[1:]}
	}
	if b, ok := under(elem).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if pt := ptrElem[t]; pt != nil {
			elem = pt
		}
	}
	if from := castElem[t]; from != nil && types.Identical(under(from), under(elem)) {
		elem = from
	}
	return Loc{Ref: t, Root: typeKey(elem)}
}

// castElem remembers what pointers converted to ones of another type, with
// the same representation, point to.
var castElem = map[*Term]types.Type{}

// ptrElem remembers what pointers converted to unsafe ones point to.
var ptrElem = map[*Term]types.Type{}

// rootStruct remembers the types behind root keys.
var rootTypes = map[string]types.Type{}

func noteRoot(t types.Type) string {
	k := typeKey(t)
	rootTypes[k] = t
	return k
}

func wrapSort(s Sort, n int) Sort {
	for i := 0; i < n; i++ {
		s = SArr(SBV(64), s)
	}
	return s
}

type heldLock struct {
	ptr   *Term // pointer to the lock
	name  string
	write bool
	reg   *Region // nil when the lock is not declared
	obj   Loc     // object whose region it guards
	pre   map[string]*Term
	nev   int
	local bool
}

// Step is one atomic step on a region: a critical section or an atomic
// operation.
type Step struct {
	Reg    *Region
	Obj    Loc
	Pre    map[string]*Term // whole heap when the step began
	Post   map[string]*Term // whole heap when it ended
	Kind   string
	Local  bool // on an object nobody else can reach yet
	NEvent int  // number of events before the step
	InLoop bool
	Pos    string
}

// Event is a call the code makes that a contract talks about: a callback, an
// opaque interface method, or an operation with its own contract.
type Event struct {
	Name  string // "cb" for function values, "Type.Method", or "iface:Method"
	Fn    *Term  // for function values
	Args  []*Term
	ArgT  []types.Type
	Guard *Term // within a ForEach
	Each  *ForEach
	Pos   string
	Heap  map[string]*Term // heap at the time of the call
	Res   []*Term
	Rep   []repAlt         // what may happen any number of times here
	Post  map[string]*Term // heap just after the call, when functions were passed
}

// ForEach is a summarised iteration: Items happen once per binder in the
// domain, under their guards.
type ForEach struct {
	Dom     Domain
	Binder  *Term
	Items   []*Event
	Ordered bool
}

// Domain of an iteration: a set given by a predicate array over a key sort, or
// the half-open index range of a slice.
type Domain struct {
	Set    *Term // (Array K Bool)
	Lo, Hi *Term // index range (bit-vectors), for slices
	Guard  *Term
	Rev    bool
}

func (d Domain) contains(k *Term) *Term {
	if d.Set != nil {
		return Select(d.Set, k)
	}
	return And(Not(Op("bvslt", SBool, "", k, d.Lo)), Op("bvslt", SBool, "", k, d.Hi))
}

// Seg is a piece of a structured sequence.
type Seg struct {
	Single []*Term  // one element
	Enum   *EnumSeg // one element per binder of a domain, in unspecified order
	Heap   *HeapSeg // elements of a slice, at a given moment
	Acc    bool     // accumulator placeholder while analysing a loop
}
type EnumSeg struct {
	Dom    Domain
	Binder *Term
	Guard  *Term
	Elem   []*Term
	Sorted bool
}
type HeapSeg struct {
	Arr, Off, Len *Term
	Heap          map[string]*Term
}
type Seq struct {
	Perm bool // in unspecified order
	Segs []Seg
	Elem types.Type
}

type freshObj struct {
	T         types.Type
	Published bool
	Name      string
	Owned     bool // array backing etc.
}

type chanState struct{ closed *Term }

// State is a symbolic state on one path.
type State struct {
	pc      []*Term
	heap    map[string]*Term
	held    []heldLock
	steps   []*Step
	events  []*Event
	fresh   map[int64]*freshObj
	seqs    map[int64]*Seq
	elemOf  map[string][]*Term // "arr#idx" -> element while iterating
	notes   []string           // abstractions made on this path
	lastRel map[string]map[string]*Term
	onceOf  map[*Term]bool
	anyPub  bool
	trail   []string
	owned   map[*Term]*Term
	owns    []ownRef
	escaped []*Term // functions handed to code that may call them at any time
}

func newState() *State {
	return &State{heap: map[string]*Term{}, fresh: map[int64]*freshObj{}, seqs: map[int64]*Seq{}, elemOf: map[string][]*Term{}, lastRel: map[string]map[string]*Term{}}
}

func copyHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h)+4)
	for k, v := range h {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	n := &State{
		pc:      append([]*Term(nil), s.pc...),
		heap:    copyHeap(s.heap),
		held:    append([]heldLock(nil), s.held...),
		steps:   append([]*Step(nil), s.steps...),
		events:  append([]*Event(nil), s.events...),
		fresh:   make(map[int64]*freshObj, len(s.fresh)),
		seqs:    make(map[int64]*Seq, len(s.seqs)),
		elemOf:  make(map[string][]*Term, len(s.elemOf)),
		notes:   append([]string(nil), s.notes...),
		anyPub:  s.anyPub,
		owns:    s.owns,
		escaped: s.escaped[:len(s.escaped):len(s.escaped)],
		trail:   append([]string(nil), s.trail...),
	}
	for k, v := range s.fresh {
		c := *v
		n.fresh[k] = &c
	}
	for k, v := range s.seqs {
		n.seqs[k] = v
	}
	for k, v := range s.elemOf {
		n.elemOf[k] = v
	}
	n.owned = make(map[*Term]*Term, len(s.owned))
	for k, v := range s.owned {
		n.owned[k] = v
	}
	n.lastRel = map[string]map[string]*Term{}
	for k, v := range s.lastRel {
		n.lastRel[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

func (s *State) note(f string, args ...interface{}) {
	s.notes = append(s.notes, fmt.Sprintf(f, args...))
}

// knows reports whether the path condition syntactically contains t.
func (s *State) knows(t *Term) bool {
	if t == True {
		return true
	}
	for _, p := range s.pc {
		if p == t {
			return true
		}
	}
	return false
}

// heapGet returns the array for a key, creating the initial one on demand.
func (e *Exec) heapGet(h map[string]*Term, key string, sort Sort) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	t := Var("H:"+key, SArr(SInt, sort))
	t.old = true
	h[key] = t
	return t
}

func initialHeapVar(key string, sort Sort) *Term {
	t := Var("H:"+key, SArr(SInt, sort))
	t.old = true
	return t
}

func readHeap(e *Exec, h map[string]*Term, l Loc, leaf Leaf) *Term {
	key := l.Root + l.Path + leaf.Path
	sort := wrapSort(leaf.Sort, len(l.Idx))
	v := Select(e.heapGet(h, key, sort), l.Ref)
	for _, i := range l.Idx {
		v = Select(v, i)
	}
	return v
}

func writeHeap(e *Exec, h map[string]*Term, l Loc, leaf Leaf, val *Term) {
	key := l.Root + l.Path + leaf.Path
	sort := wrapSort(leaf.Sort, len(l.Idx))
	a := e.heapGet(h, key, sort)
	if len(l.Idx) == 0 {
		h[key] = Store(a, l.Ref, val)
		return
	}
	var upd func(arr *Term, idx []*Term) *Term
	upd = func(arr *Term, idx []*Term) *Term {
		if len(idx) == 1 {
			return Store(arr, idx[0], val)
		}
		return Store(arr, idx[0], upd(Select(arr, idx[0]), idx[1:]))
	}
	h[key] = Store(a, l.Ref, upd(Select(a, l.Ref), l.Idx))
}

// ---- maps ----

func mapKeys(t types.Type) (dom, val string, mt *types.Map) {
	m := under(t).(*types.Map)
	k := "map:" + typeKey(m.Key()) + "->" + typeKey(m.Elem())
	return k + ".dom", k + ".val", m
}

func (e *Exec) mapDom(h map[string]*Term, t types.Type, ref *Term) *Term {
	dk, _, m := mapKeys(t)
	d := Select(e.heapGet(h, dk, SArr(keySort(m.Key()), SBool)), ref)
	empty := ConstArr(SArr(keySort(m.Key()), SBool), False)
	if ref.Op == "int" && ref.N == 0 {
		return empty
	}
	if ref.Op == "int" && int64(ref.N) >= FreshBase || e.w.nonnil[ref] {
		return d
	}
	return Ite(Eq(ref, IntT(0)), empty, d)
}

func (e *Exec) mapVal(h map[string]*Term, t types.Type, ref *Term, leaf Leaf) *Term {
	_, vk, m := mapKeys(t)
	return Select(e.heapGet(h, vk+leaf.Path, SArr(keySort(m.Key()), leaf.Sort)), ref)
}

func (e *Exec) mapLookup(h map[string]*Term, t types.Type, ref, key *Term) (val []*Term, ok *Term) {
	_, _, m := mapKeys(t)
	ok = Select(e.mapDom(h, t, ref), key)
	for _, l := range leaves(m.Elem()) {
		val = append(val, Ite(ok, Select(e.mapVal(h, t, ref, l), key), zeroOf(l.Sort)))
	}
	return val, ok
}

func (e *Exec) mapStore(h map[string]*Term, t types.Type, ref, key *Term, val []*Term) {
	dk, vk, m := mapKeys(t)
	ds := SArr(keySort(m.Key()), SBool)
	d := e.heapGet(h, dk, ds)
	h[dk] = Store(d, ref, Store(Select(d, ref), key, True))
	for i, l := range leaves(m.Elem()) {
		vs := SArr(keySort(m.Key()), l.Sort)
		a := e.heapGet(h, vk+l.Path, vs)
		h[vk+l.Path] = Store(a, ref, Store(Select(a, ref), key, val[i]))
	}
}

func (e *Exec) mapDelete(h map[string]*Term, t types.Type, ref, key *Term) {
	dk, _, m := mapKeys(t)
	ds := SArr(keySort(m.Key()), SBool)
	d := e.heapGet(h, dk, ds)
	h[dk] = Store(d, ref, Store(Select(d, ref), key, False))
}

func (e *Exec) mapSetAll(h map[string]*Term, t types.Type, ref *Term, dom *Term, vals []*Term) {
	dk, vk, m := mapKeys(t)
	ds := SArr(keySort(m.Key()), SBool)
	h[dk] = Store(e.heapGet(h, dk, ds), ref, dom)
	for i, l := range leaves(m.Elem()) {
		vs := SArr(keySort(m.Key()), l.Sort)
		h[vk+l.Path] = Store(e.heapGet(h, vk+l.Path, vs), ref, vals[i])
	}
}

// ---- allocation ----

var allocSeq int64 = FreshBase

func (e *Exec) alloc(st *State, t types.Type, name string) *Term {
	allocSeq++
	ref := IntT(allocSeq)
	st.fresh[allocSeq] = &freshObj{T: t, Name: name}
	root := noteRoot(t)
	for _, l := range leaves(t) {
		writeHeap(e, st.heap, Loc{Ref: ref, Root: root}, l, zeroOf(l.Sort))
	}
	return ref
}

func (e *Exec) allocRef(st *State, t types.Type, name string) *Term {
	allocSeq++
	st.fresh[allocSeq] = &freshObj{T: t, Name: name, Owned: true}
	return IntT(allocSeq)
}

// isLocal reports whether the object is fresh and unpublished.
func (st *State) isLocal(ref *Term) bool {
	if ref.Op == "int" {
		if o, ok := st.fresh[int64(ref.N)]; ok {
			return !o.Published
		}
	}
	return false
}

// checkNew: an object that others can now reach satisfies what its type
// declares.
func (e *Exec) checkNew(st *State, ref int64, o *freshObj) {
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		s, ok := under(t).(*types.Struct)
		if !ok {
			return
		}
		if d := e.w.declFor(t); d != nil && !d.Seq {
			obj := Loc{Ref: IntT(ref), Root: typeKey(o.T), Path: path}
			for _, c := range d.Inv {
				if !c.Free {
					e.raise(st, "invariant:"+d.Name+":"+c.Name, "invariant "+c.Name+" of a new "+d.Name, "", e.evalInv(st, c, d, obj, st.heap))
				}
			}
			for f := range d.NonN {
				ft := typeAtPath(t, f)
				if ft == nil || len(leaves(ft)) == 0 || leaves(ft)[0].Sort != SInt {
					continue
				}
				v := readHeap(e, st.heap, Loc{Ref: obj.Ref, Root: obj.Root, Path: path + f}, leaves(ft)[0])
				e.raise(st, "nonnil:"+d.Name+f, d.Name+f+" of a new object is not nil", "", Not(Eq(v, IntT(0))))
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			walk(s.Field(i).Type(), path+"."+fieldName(s.Field(i), i))
		}
	}
	noteRoot(o.T)
	walk(o.T, "")
}

// publish marks every fresh object reachable from the terms as shared.
func (e *Exec) publish(st *State, ts ...*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	var pub func(ref int64)
	pub = func(ref int64) {
		o, ok := st.fresh[ref]
		if !ok || o.Published {
			return
		}
		o.Published = true
		st.anyPub = true
		e.checkNew(st, ref, o)
		// everything reachable from it
		for _, l := range leaves(o.T) {
			loc := Loc{Ref: IntT(ref), Root: typeKey(o.T)}
			v := readHeap(e, st.heap, loc, l)
			if l.Sort == SInt && v != IntT(0) {
				if hit := e.w.findRule(loc.Root, l.Path); hit != nil && hit.rule.Owned && hit.rule.Kind == "guarded" && !st.isLocal(v) {
					e.raise(st, "ownership", "a new "+o.Name+" owns something that others may share: "+hit.decl.Name+hit.field, "", Eq(v, IntT(0)))
				}
			}
			walk(v)
		}
		if m, ok := under(o.T).(*types.Map); ok {
			for _, l := range leaves(m.Elem()) {
				walk(e.mapVal(st.heap, o.T, IntT(ref), l))
			}
			walk(e.mapDom(st.heap, o.T, IntT(ref)))
		}
		if sq, ok := st.seqs[ref]; ok {
			for _, sg := range sq.Segs {
				for _, t := range sg.Single {
					walk(t)
				}
			}
		}
	}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "int" && int64(t.N) >= FreshBase {
			pub(int64(t.N))
			return
		}
		if t.Op == "select" && isArr(t.Args[0].Sort) {
			// contents of the heap: only what the index refers to
			walk(t.Args[1])
			if !strings.HasPrefix(t.Args[0].Sort, "(Array Int") {
				walk(t.Args[0])
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}
