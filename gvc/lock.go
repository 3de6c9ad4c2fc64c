package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// FieldRule says how concurrent goroutines share a field.
type FieldRule struct {
	Kind  string // "guarded", "atomic", "immutable"
	Lock  string // path of the lock, for guarded fields (and guarded writes of atomic ones)
	Owned bool   // the pointee (map, slice, pointer) belongs to the region too
	Fixed bool   // a guarded map that is made with its object and never replaced: the reference itself never changes
	Via   string // for foreign fields: the field holding the pointer to the lock's owner
}

// LockDecl is a lock declared for a type.
type LockDecl struct {
	Path   string
	Guards []string
}

// TypeDecl is the concurrency contract of a type.
type TypeDecl struct {
	Name  string // pkg.Type
	Pkg   string
	Locks map[string]*LockDecl
	Rules map[string]*FieldRule // by field path
	Inv   []Clause              // invariants of the lock regions / of sequential types
	NonN  map[string]bool
	Seq   bool // sequential type: invariants hold at call boundaries
	T     types.Type
	Prop  []string
	Over  bool // outermost: rules of nested declared types do not apply
}

// Region is a lock's protected state or an atomic field.
type Region struct {
	Decl *TypeDecl
	Lock *LockDecl
	Atom string
	Loc  *localGuard
}

func (r *Region) name() string {
	if r.Lock != nil {
		return r.Decl.Name + r.Lock.Path
	}
	return r.Decl.Name + r.Atom
}

type ruleHit struct {
	decl   *TypeDecl
	prefix string
	field  string
	rule   *FieldRule
}

// typeAtPath walks a path from a root type.
func typeAtPath(t types.Type, path string) types.Type {
	if t == nil {
		return nil
	}
	for path != "" {
		if strings.HasPrefix(path, "[]") {
			switch u := under(t).(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
			path = path[2:]
			continue
		}
		rest := path[1:]
		name := rest
		if i := strings.IndexAny(rest, ".["); i >= 0 {
			name = rest[:i]
		}
		path = rest[len(name):]
		s, ok := under(t).(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if fieldName(s.Field(i), i) == name {
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return t
}

func pathPrefixes(path string) []string {
	out := []string{""}
	for i := 1; i <= len(path); i++ {
		if i == len(path) || path[i] == '.' || path[i] == '[' {
			out = append(out, path[:i])
		}
	}
	return out
}

func (w *World) declFor(t types.Type) *TypeDecl {
	if t == nil {
		return nil
	}
	return w.db.types[typeKey(t)]
}

// findRule finds the rule governing a leaf, outermost declaration first.
func (w *World) findRule(root, path string) *ruleHit {
	k := root + "\x00" + path
	if h, ok := w.rules[k]; ok {
		return h
	}
	var hit *ruleHit
	rt := rootTypes[root]
	if rt == nil && strings.HasPrefix(root, "elems:") {
		w.rules[k] = nil
		return nil
	}
	for _, p := range pathPrefixes(path) {
		d := w.declFor(typeAtPath(rt, p))
		if d == nil {
			continue
		}
		rest := path[len(p):]
		for _, q := range pathPrefixes(rest) {
			if r, ok := d.Rules[q]; ok {
				hit = &ruleHit{d, p, q, r}
			}
		}
		if hit != nil {
			break
		}
	}
	w.rules[k] = hit
	return hit
}

func locAt(l Loc, prefix string) Loc {
	n := strings.Count(prefix, "[]")
	return Loc{Ref: l.Ref, Root: l.Root, Path: prefix, Idx: l.Idx[:n]}
}

// lockPtrFor is the pointer term of the lock guarding a rule's field.
func (e *Exec) lockPtrFor(h map[string]*Term, hit *ruleHit, l Loc) *Term {
	obj := locAt(l, hit.prefix)
	if hit.rule.Via != "" {
		// foreign: the owner is behind a field of this object
		t := typeAtPath(rootTypes[obj.Root], obj.Path+hit.rule.Via)
		pt, _ := isPtrTo(t)
		own := readHeap(e, h, Loc{Ref: obj.Ref, Root: obj.Root, Path: obj.Path + hit.rule.Via, Idx: obj.Idx}, Leaf{"", SInt, t})
		ol := e.decode(nil, own, pt)
		noteRoot(pt)
		return ptrTerm(Loc{Ref: ol.Ref, Root: ol.Root, Path: ol.Path + hit.rule.Lock, Idx: ol.Idx})
	}
	return ptrTerm(Loc{Ref: obj.Ref, Root: obj.Root, Path: obj.Path + hit.rule.Lock, Idx: obj.Idx})
}

func (e *Exec) holds(st *State, ptr *Term, write bool) *Term {
	var alts []*Term
	for _, h := range st.held {
		if write && !h.write {
			continue
		}
		alts = append(alts, Eq(h.ptr, ptr))
	}
	return Or(alts...)
}

func (e *Exec) checkAccess(st *State, l Loc, t types.Type, write bool, pos string) {
	if e.inSpec {
		return
	}
	if lk, ok := e.guardOf[l.Ref]; ok {
		if !e.stable[l.Ref] || write {
			e.raise(st, "unlocked-access", "touches a captured variable without holding the lock that guards it", pos, e.holds(st, lk, write))
		}
		return
	}
	if st.isLocal(l.Ref) {
		return
	}
	e.checkOwned(st, l.Ref, write, pos)
	e.checkGlobal(st, l, t, write, pos)
	for _, lf := range leaves(t) {
		hit := e.w.findRule(l.Root, l.Path+lf.Path)
		if hit == nil {
			continue
		}
		fn := hit.decl.Name + hit.field
		verb := "reads"
		if write {
			verb = "writes"
		}
		switch hit.rule.Kind {
		case "guarded":
			if hit.rule.Fixed && !write {
				continue
			}
			ptr := e.lockPtrFor(st.heap, hit, l)
			e.raise(st, "unlocked-access", fmt.Sprintf("%s %s without holding its lock", verb, fn), pos, e.holds(st, ptr, write))
		case "atomic":
			e.raise(st, "nonatomic-access", fmt.Sprintf("%s %s without an atomic operation", verb, fn), pos, False)
		case "immutable":
			if write {
				e.raise(st, "write-immutable", fmt.Sprintf("writes %s after construction", fn), pos, False)
			}
		}
	}
}

func (e *Exec) checkAccessKey(st *State, c cell, pos string) {
	if c.loc.Root != "" && !st.isLocal(c.ref) {
		hit := e.w.findRule(c.loc.Root, c.loc.Path)
		if hit != nil && hit.rule.Kind == "guarded" {
			ptr := e.lockPtrFor(st.heap, hit, c.loc)
			e.raise(st, "unlocked-access", fmt.Sprintf("changes %s%s without holding its lock", hit.decl.Name, hit.field), pos, e.holds(st, ptr, true))
		}
	}
}

// noteLoad remembers which lock owns what a loaded reference points to.
func (e *Exec) noteLoad(st *State, l Loc, t types.Type, vals []*Term) {
	if st.isLocal(l.Ref) {
		return
	}
	for i, lf := range leaves(t) {
		if lf.Sort != SInt || vals[i].isConst() {
			continue
		}
		if hit := e.w.findRule(l.Root, l.Path+lf.Path); hit != nil && hit.rule.Owned {
			if st.owned == nil {
				st.owned = map[*Term]*Term{}
			}
			st.owned[vals[i]] = e.lockPtrFor(st.heap, hit, l)
		}
	}
}

// checkOwnedStore: what a region owns is nobody else's, so what is stored in
// an owning field is new or was in that field before.
func (e *Exec) checkOwnedStore(st *State, l Loc, t types.Type, v []*Term, pos string) {
	if e.inSpec {
		return
	}
	for i, lf := range leaves(t) {
		if lf.Sort != SInt || strings.HasSuffix(lf.Path, "#off") || v[i].Op == "int" && v[i].N == 0 {
			continue
		}
		hit := e.w.findRule(l.Root, l.Path+lf.Path)
		if hit == nil || !hit.rule.Owned || hit.rule.Kind != "guarded" {
			continue
		}
		if st.isLocal(v[i]) {
			continue
		}
		if v[i].Op == "int" && int64(v[i].N) >= FreshBase && st.fresh[int64(v[i].N)] != nil && st.owned[v[i]] == e.lockPtrFor(st.heap, hit, l) {
			continue
		}
		was := readHeap(e, st.heap, l, lf)
		e.raise(st, "ownership", fmt.Sprintf("stores in %s%s something that others may share", hit.decl.Name, hit.field), pos, Or(Eq(v[i], was), Eq(v[i], IntT(0))))
	}
}

func (e *Exec) checkOwned(st *State, ref *Term, write bool, pos string) {
	if e.inSpec || st.isLocal(ref) {
		return
	}
	if ptr, ok := st.owned[ref]; ok {
		verb := "reads"
		if write {
			verb = "writes"
		}
		e.raise(st, "unlocked-access", verb+" shared contents without holding the lock that guards them", pos, e.holds(st, ptr, write))
	}
}

// ---- cells ----

// cell is one heap location: the value of a heap array at a reference.
type cell struct {
	key   string
	sort  Sort // sort of the array's range (wrapped for indexes)
	ref   *Term
	idx   []*Term
	field string
	loc   Loc
}

func (c cell) leafSort() Sort {
	s := c.sort
	for range c.idx {
		_, s = arrParts(s)
	}
	return s
}
func (c cell) read(e *Exec, h map[string]*Term) *Term {
	v := Select(e.heapGet(h, c.key, c.sort), c.ref)
	for _, i := range c.idx {
		v = Select(v, i)
	}
	return v
}
func (c cell) write(e *Exec, h map[string]*Term, v *Term) {
	a := e.heapGet(h, c.key, c.sort)
	if len(c.idx) == 0 {
		h[c.key] = Store(a, c.ref, v)
		return
	}
	var upd func(arr *Term, idx []*Term) *Term
	upd = func(arr *Term, idx []*Term) *Term {
		if len(idx) == 1 {
			return Store(arr, idx[0], v)
		}
		return Store(arr, idx[0], upd(Select(arr, idx[0]), idx[1:]))
	}
	h[c.key] = Store(a, c.ref, upd(Select(a, c.ref), c.idx))
}

// fieldCells are the cells of everything below a path of an object.
func (e *Exec) fieldCells(obj Loc, path string, t types.Type, field string) []cell {
	var out []cell
	for _, lf := range leaves(t) {
		p := obj.Path + path + lf.Path
		out = append(out, cell{key: obj.Root + p, sort: wrapSort(lf.Sort, len(obj.Idx)), ref: obj.Ref, idx: obj.Idx, field: field,
			loc: Loc{Ref: obj.Ref, Root: obj.Root, Path: p, Idx: obj.Idx}})
	}
	return out
}

// pointeeCells are the cells of what a reference of type t points to.
func (e *Exec) pointeeCells(t types.Type, ref *Term, field string) []cell {
	var out []cell
	switch u := under(t).(type) {
	case *types.Map:
		dk, vk, m := mapKeys(t)
		out = append(out, cell{key: dk, sort: SArr(keySort(m.Key()), SBool), ref: ref, field: field})
		for _, l := range leaves(m.Elem()) {
			out = append(out, cell{key: vk + l.Path, sort: SArr(keySort(m.Key()), l.Sort), ref: ref, field: field})
		}
	case *types.Pointer:
		noteRoot(u.Elem())
		l := e.decode(nil, ref, u.Elem())
		out = append(out, e.fieldCells(l, "", u.Elem(), field)...)
	case *types.Slice:
		for _, l := range leaves(u.Elem()) {
			out = append(out, cell{key: "elems:" + typeKey(u.Elem()) + "[]" + l.Path, sort: SArr(SBV(64), l.Sort), ref: ref, field: field})
		}
	}
	return out
}

// regionCells lists a region's cells in heap h.
func (e *Exec) regionCells(r *Region, obj Loc, h map[string]*Term) []cell {
	if r.Loc != nil {
		return r.Loc.cells(e, h)
	}
	var out []cell
	add := func(f string, rule *FieldRule) {
		t := typeAtPath(r.Decl.T, f)
		if t == nil {
			return
		}
		cs := e.fieldCells(obj, f, t, f)
		out = append(out, cs...)
		if rule.Owned {
			ref := cs[0].read(e, h)
			out = append(out, e.pointeeCells(t, ref, f)...)
		}
	}
	if r.Lock == nil {
		add(r.Atom, r.Decl.Rules[r.Atom])
		return out
	}
	for _, f := range r.Lock.Guards {
		add(f, r.Decl.Rules[f])
	}
	return out
}

func (e *Exec) havocRegion(st *State, r *Region, obj Loc) {
	if r.Loc != nil {
		r.Loc.havoc(e, st)
		r.Loc.assumed(st)
		return
	}
	mkv := func(c cell) *Term {
		v := Fresh("v:"+r.Decl.Name+c.field, c.leafSort())
		v.old, v.upto = !st.anyPub, allocSeq
		return v
	}
	one := func(f string) {
		rule := r.Decl.Rules[f]
		t := typeAtPath(r.Decl.T, f)
		if t == nil {
			return
		}
		cs := e.fieldCells(obj, f, t, f)
		for _, c := range cs {
			if rule.Fixed {
				if v := c.read(e, st.heap); r.Decl.NonN[f] && v.Sort == SInt {
					if v.Op == "select" {
						e.w.nonnil[v] = true
					}
					st.assume(Not(Eq(v, IntT(0))))
				}
				continue
			}
			v := mkv(c)
			if (r.Decl.NonN[f]) && v.Sort == SInt {
				e.w.nonnil[v] = true
				st.assume(Not(Eq(v, IntT(0))))
			}
			c.write(e, st.heap, v)
		}
		if _, ok := under(t).(*types.Slice); ok && len(cs) == 4 {
			st.assume(sliceWF([]*Term{cs[0].read(e, st.heap), cs[1].read(e, st.heap), cs[2].read(e, st.heap), cs[3].read(e, st.heap)}))
		}
		if rule.Owned {
			ref := cs[0].read(e, st.heap)
			e.apart(st, ref, t, r.Decl.Name+f, obj)
			for _, c := range e.pointeeCells(t, ref, f) {
				c.write(e, st.heap, mkv(c))
			}
		}
	}
	if r.Lock == nil {
		one(r.Atom)
		return
	}
	for _, f := range r.Lock.Guards {
		one(f)
	}
	for k, srt := range e.foreign(r) {
		v := Fresh("v:"+k, SArr(SInt, srt))
		v.old = !st.anyPub
		st.heap[k] = v
	}
}

// ownRef is a reference found in an owning field.
type ownRef struct {
	ref   *Term
	t     types.Type
	field string
	obj   *Term
}

// apart: what different fields or objects own is different (checked where
// owning fields are written).
func (e *Exec) apart(st *State, ref *Term, t types.Type, field string, obj Loc) {
	o := ptrTerm(obj)
	for _, x := range st.owns {
		if typeKey(x.t) != typeKey(t) || x.ref == ref {
			continue
		}
		alts := []*Term{Eq(ref, IntT(0)), Not(Eq(ref, x.ref))}
		if x.field == field {
			alts = append(alts, Eq(x.obj, o))
		}
		st.assume(Or(alts...))
	}
	st.owns = append(st.owns[:len(st.owns):len(st.owns)], ownRef{ref, t, field, o})
}

// foreign lists the heap arrays of the fields of other types that a region's
// lock guards.
func (e *Exec) foreign(r *Region) map[string]Sort {
	out := map[string]Sort{}
	if r.Lock == nil {
		return out
	}
	for _, d := range e.w.db.types {
		for f, rule := range d.Rules {
			if rule.Via == "" || rule.Lock != r.Lock.Path {
				continue
			}
			if pt, ok := isPtrTo(typeAtPath(d.T, rule.Via)); ok && typeKey(pt) == r.Decl.Name {
				for _, lf := range leaves(typeAtPath(d.T, f)) {
					out[d.Name+f+lf.Path] = lf.Sort
				}
			}
		}
	}
	return out
}

func (e *Exec) foreignKeys(r *Region) []string {
	var out []string
	for k := range e.foreign(r) {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sliceWF(s []*Term) *Term {
	return And(Not(Op("bvslt", SBool, "", s[2], BV64(0))), Not(Op("bvslt", SBool, "", s[3], s[2])), Not(Op("bvslt", SBool, "", s[1], BV64(0))),
		Op("bvslt", SBool, "", s[2], BV64(1<<40)), Op("bvslt", SBool, "", s[1], BV64(1<<40)), Op("bvslt", SBool, "", s[3], BV64(1<<40)))
}

// findLock finds the declaration of the lock at a location.
func (e *Exec) findLock(l Loc) (*Region, Loc) {
	if g := e.guards[l.Ref]; g != nil && l.Path == "" {
		return &Region{Decl: &TypeDecl{Name: "captured:"}, Lock: &LockDecl{Path: g.name}, Loc: g}, l
	}
	rt := rootTypes[l.Root]
	for _, p := range pathPrefixes(l.Path) {
		d := e.w.declFor(typeAtPath(rt, p))
		if d == nil {
			continue
		}
		if lk, ok := d.Locks[l.Path[len(p):]]; ok {
			return &Region{Decl: d, Lock: lk}, locAt(l, p)
		}
	}
	return nil, Loc{}
}

func (e *Exec) invariantsOf(r *Region) []Clause {
	var out []Clause
	for _, c := range r.Decl.Inv {
		if r.Lock != nil && (c.Lock == "" || c.Lock == r.Lock.Path) {
			out = append(out, c)
		}
		if r.Lock == nil && c.Lock == r.Atom {
			out = append(out, c)
		}
	}
	return out
}

func (e *Exec) evalInv(st *State, c Clause, d *TypeDecl, obj Loc, heap map[string]*Term) *Term {
	ctx := &specCtx{e: e, st: st, cur: heap, old: heap, env: map[string]specVal{}, pkg: e.w.tpkgs[d.Pkg]}
	ctx.self = &specVal{t: types.NewPointer(d.T), v: []*Term{ptrTerm(obj)}}
	ctx.env["self"] = *ctx.self
	return e.evalBool(c.Expr, ctx)
}

func (e *Exec) lockOp(st *State, ptr *Term, elem types.Type, write bool, pos string) {
	l := e.decode(st, ptr, elem)
	noteRoot(elem)
	reg, obj := e.findLock(l)
	name := l.Root + l.Path
	if reg != nil {
		name = reg.name()
	}
	for _, h := range st.held {
		if eq := Eq(h.ptr, ptr); eq != False {
			e.raise(st, "self-deadlock", "takes "+name+" while it may already hold it", pos, Not(eq))
		}
	}
	h := heldLock{ptr: ptr, name: name, write: write, reg: reg, obj: obj, nev: len(st.events)}
	if reg != nil {
		if reg.Loc != nil || !st.isLocal(obj.Ref) {
			e.havocRegion(st, reg, obj)
		} else {
			h.local = true
		}
		for _, c := range e.invariantsOf(reg) {
			st.assume(e.evalInv(st, c, reg.Decl, obj, st.heap))
		}
	}
	h.pre = copyHeap(st.heap)
	st.held = append(st.held, h)
}

func (e *Exec) unlockOp(st *State, ptr *Term, elem types.Type, write bool, pos string) {
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.ptr != ptr && Eq(h.ptr, ptr) != True {
			continue
		}
		if h.write != write {
			e.raise(st, "unlock-mode", "releases "+h.name+" in the wrong mode", pos, False)
		}
		if h.reg != nil {
			if h.reg.Loc != nil {
				h.reg.Loc.invariants(e, st, func(n string, t *Term) {
					e.raise(st, "invariant:"+n, "invariant "+n+" when releasing "+h.name, pos, t)
				})
			}
			for _, c := range e.invariantsOf(h.reg) {
				if c.Free {
					continue
				}
				e.raise(st, "invariant:"+h.reg.Decl.Name+":"+c.Name, "invariant "+c.Name+" of "+h.reg.Decl.Name+" when releasing "+h.name, pos, e.evalInv(st, c, h.reg.Decl, h.obj, st.heap))
			}
			st.steps = append(st.steps, &Step{Reg: h.reg, Obj: h.obj, Pre: h.pre, Post: copyHeap(st.heap), Kind: "critical section", Local: h.local, NEvent: h.nev, Pos: pos})
		}
		st.held = append(append([]heldLock{}, st.held[:i]...), st.held[i+1:]...)
		return
	}
	e.raise(st, "unlock-unheld", "releases a lock it does not hold", pos, False)
}

// atomicCell finds the cell an atomic operation works on.
func (e *Exec) atomicOp(st *State, ptr *Term, t types.Type, sub string, pos string, kind string, f func(st *State, cur *Term) (next *Term)) *Term {
	l := e.decode(st, ptr, t)
	noteRoot(t)
	leaf := Leaf{sub, "", nil}
	lt := t
	hit := e.w.findRule(l.Root, l.Path+sub)
	if hit == nil && l.Path+sub == "" && l.Ref.Op == "int" && e.w.globRule[int64(l.Ref.N)] == "atomicvar" {
		hit = e.w.globHit(int64(l.Ref.N))
	}
	// the leaf sort comes from the location itself
	var sortL Sort
	if rt := rootTypes[l.Root]; rt != nil {
		if tt := typeAtPath(rt, l.Path); tt != nil {
			for _, x := range leaves(tt) {
				if x.Path == sub {
					sortL = x.Sort
					lt = x.T
				}
			}
		}
	}
	if sortL == "" {
		for _, x := range leaves(t) {
			if x.Path == sub {
				sortL = x.Sort
			}
		}
	}
	leaf.Sort, leaf.T = sortL, lt
	local := st.isLocal(l.Ref)
	var reg *Region
	var obj Loc
	if hit != nil && !local {
		if hit.rule.Kind != "atomic" {
			e.raise(st, "mixed-access", fmt.Sprintf("atomic access to %s%s, which is not declared atomic", hit.decl.Name, hit.field), pos, False)
		} else {
			if hit.rule.Lock != "" && kind != "load" {
				p := e.lockPtrFor(st.heap, hit, l)
				if len(st.held) > 0 || true {
					e.raise(st, "unlocked-access", fmt.Sprintf("changes %s%s without holding the lock that serialises its writers", hit.decl.Name, hit.field), pos, e.holds(st, p, true))
				}
			}
			reg = &Region{Decl: hit.decl, Atom: hit.field}
			obj = locAt(l, hit.prefix)
			stable := hit.rule.Lock != "" && e.holds(st, e.lockPtrFor(st.heap, hit, l), true) == True
			if !stable {
				e.havocRegion(st, reg, obj)
			}
			for _, c := range e.invariantsOf(reg) {
				st.assume(e.evalInv(st, c, reg.Decl, obj, st.heap))
			}
		}
	}
	pre := copyHeap(st.heap)
	cur := readHeap(e, st.heap, l, leaf)
	next := f(st, cur)
	if next != nil {
		if !local {
			e.publish(st, next)
		}
		writeHeap(e, st.heap, l, leaf, next)
	}
	if reg != nil {
		for _, c := range e.invariantsOf(reg) {
			if next != nil && !c.Free {
				e.raise(st, "invariant:"+reg.Decl.Name+":"+c.Name, "invariant "+c.Name+" of "+reg.Decl.Name, pos, e.evalInv(st, c, reg.Decl, obj, st.heap))
			}
		}
		st.steps = append(st.steps, &Step{Reg: reg, Obj: obj, Pre: pre, Post: copyHeap(st.heap), Kind: "atomic " + kind, NEvent: len(st.events), Pos: pos})
	}
	return cur
}

// stutters reports whether a step left its region unchanged (as a term).
func (e *Exec) stutters(s *Step) *Term {
	var cs []*Term
	pre := e.regionCells(s.Reg, s.Obj, s.Pre)
	for _, c := range pre {
		cs = append(cs, Eq(c.read(e, s.Pre), c.read(e, s.Post)))
	}
	return And(cs...)
}

// checkGlobal: constant package variables are not written, atomic ones only
// accessed atomically, also not through pointers.
func (e *Exec) checkGlobal(st *State, l Loc, t types.Type, write bool, pos string) {
	if l.Path != "" || len(l.Idx) > 0 || e.top != nil && strings.HasPrefix(e.top.Name(), "init#") {
		return
	}
	for _, n := range e.w.globNums() {
		k := e.w.globRule[n]
		g := e.w.globByN[n]
		el := under(g.Type()).(*types.Pointer).Elem()
		if typeKey(el) != l.Root {
			continue
		}
		is := Eq(l.Ref, IntT(n))
		if is == False {
			continue
		}
		if k == "constant" && write {
			e.raise(st, "write-immutable", "writes the package variable "+g.Name()+" after initialisation", pos, Not(is))
		}
		if k == "atomicvar" {
			e.raise(st, "nonatomic-access", "accesses the package variable "+g.Name()+" without an atomic operation", pos, Not(is))
		}
	}
}

// globHit is the rule of a package variable declared atomic.
func (w *World) globHit(n int64) *ruleHit {
	d := w.globDecl[n]
	if d == nil {
		g := w.globByN[n]
		d = &TypeDecl{Name: g.Pkg.Pkg.Name() + "." + g.Name(), T: under(g.Type()).(*types.Pointer).Elem(), Rules: map[string]*FieldRule{"": {Kind: "atomic"}}}
		if w.globDecl == nil {
			w.globDecl = map[int64]*TypeDecl{}
		}
		w.globDecl[n] = d
	}
	return &ruleHit{d, "", "", d.Rules[""]}
}

func (w *World) globNums() (out []int64) {
	for n := range w.globRule {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
