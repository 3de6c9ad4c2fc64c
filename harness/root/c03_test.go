package monkit_test

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

type liveSpan struct {
	span   *monkit.Span
	ctx    context.Context
	exit   func(*error)
	parent *liveSpan
	trace  *monkit.Trace
	live   bool
	name   string
}

func startSpan(f *monkit.Func, kind int, ctx context.Context, parent *liveSpan) *liveSpan {
	s := &liveSpan{live: true}
	if parent != nil {
		ctx = parent.ctx
	}
	switch kind {
	case 0:
		s.exit = f.Task(&ctx)
		s.parent = parent
	case 1:
		s.exit = f.ResetTrace(&ctx)
	default:
		s.exit = f.RemoteTrace(&ctx, 77, monkit.NewTrace(monkit.NewId()))
	}
	s.ctx = ctx
	s.span = monkit.SpanFromCtx(ctx)
	s.trace = s.span.Trace()
	return s
}

func names(all []*liveSpan, spans []*monkit.Span) string {
	var out []string
	for _, s := range spans {
		n := "?"
		for _, l := range all {
			if l.span == s {
				n = l.name
			}
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func checkSpans(r *monkit.Registry, all []*liveSpan) error {
	var listed, roots, wantL, wantR []*monkit.Span
	r.AllSpans(func(s *monkit.Span) { listed = append(listed, s) })
	r.RootSpans(func(s *monkit.Span) { roots = append(roots, s) })
	counts := map[*monkit.Trace]int64{}
	for _, l := range all {
		counts[l.trace] += 0
		if !l.live {
			continue
		}
		counts[l.trace]++
		wantL = append(wantL, l.span)
		orphan := l.parent != nil && !l.parent.live
		if l.parent == nil || orphan {
			wantR = append(wantR, l.span)
		}
		if l.span.Orphaned() != orphan {
			return fmt.Errorf("span %s: orphaned %v, want %v", l.name, l.span.Orphaned(), orphan)
		}
		var kids, wantK []*monkit.Span
		l.span.Children(func(s *monkit.Span) { kids = append(kids, s) })
		for _, k := range all {
			if k.live && k.parent == l {
				wantK = append(wantK, k.span)
			}
		}
		if g, w := names(all, kids), names(all, wantK); g != w {
			return fmt.Errorf("children of %s: %q, want %q", l.name, g, w)
		}
	}
	if g, w := names(all, listed), names(all, wantL); g != w {
		return fmt.Errorf("all spans: %q, live are %q", g, w)
	}
	if g, w := names(all, roots), names(all, wantR); g != w {
		return fmt.Errorf("root spans: %q, want %q", g, w)
	}
	for tr, n := range counts {
		if tr.Spans() != n {
			return fmt.Errorf("a trace reports %d spans, %d are live", tr.Spans(), n)
		}
	}
	return nil
}

func TestC03_Trees(t *testing.T) {
	rng := zz.NewRng(30)
	for i := 0; i < zz.N(600); i++ {
		r := monkit.NewRegistry()
		var fs []*monkit.Func
		for n := 0; n < 3; n++ {
			fs = append(fs, r.ScopeNamed(fmt.Sprint("s", n%2)).FuncNamed(fmt.Sprint("f", n)))
		}
		var all []*liveSpan
		desc := ""
		for n := 0; n < 18; n++ {
			if rng.Intn(2) == 0 || len(all) == 0 {
				var parent *liveSpan
				if len(all) > 0 && rng.Intn(4) > 0 {
					parent = all[rng.Intn(len(all))] // finished ones too
				}
				kind := 0
				if rng.Intn(5) == 0 {
					kind = 1 + rng.Intn(2)
				}
				s := startSpan(fs[rng.Intn(3)], kind, context.Background(), parent)
				s.name = fmt.Sprint(len(all))
				all = append(all, s)
				desc += "+" + s.name
				if s.parent != nil {
					desc += "<" + s.parent.name
				}
				desc += " "
			} else {
				l := all[rng.Intn(len(all))]
				if !l.live {
					continue
				}
				finish(l.exit, []int{-2, -1, 0}[rng.Intn(3)])
				l.live = false
				desc += "-" + l.name + " "
			}
			if err := checkSpans(r, all); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		for _, l := range all {
			if l.live {
				l.exit(nil)
				l.live = false
			}
			if err := checkSpans(r, all); err != nil {
				t.Fatalf("%s then finishing: %v", desc, err)
			}
		}
		zz.Case(t.Name(), desc)
	}
}

type c03err struct{ f func() }

func (e c03err) Error() string        { return "x" }
func (e c03err) Name() (string, bool) { e.f(); return "x", true }

// code of the user that runs while a span starts or ends may end, start and
// list other spans
func TestC03_Reentrant(t *testing.T) {
	rng := zz.NewRng(31)
	for i := 0; i < zz.N(400); i++ {
		r := monkit.NewRegistry()
		f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
		all := []*liveSpan{}
		desc := ""
		var act func()
		if rng.Bool() {
			r.ObserveTraces(func(tr *monkit.Trace) {
				tr.ObserveSpans(c03obs{func() {
					if rng.Intn(3) == 0 {
						act()
					}
				}})
			})
		}
		depth := 0
		act = func() {
			if depth >= 3 || len(all) == 0 {
				return
			}
			depth++
			defer func() { depth-- }()
			l := all[rng.Intn(len(all))]
			if l.span == nil { // just starting
				return
			}
			switch k := rng.Intn(3); {
			case k == 0 && l.live:
				l.live = false
				desc += "-" + l.name + "("
				var err error = c03err{func() { act() }}
				if rng.Intn(3) == 0 {
					err = nil
				}
				l.exit(&err)
				desc += ") "
			case k == 1:
				s := &liveSpan{live: true, name: fmt.Sprint(len(all)), parent: l}
				all = append(all, s)
				desc += "+" + s.name + "<" + l.name + " "
				ctx := l.ctx
				s.exit = g.Task(&ctx)
				s.ctx, s.span = ctx, monkit.SpanFromCtx(ctx)
				s.trace = s.span.Trace()
			default:
				r.AllSpans(func(*monkit.Span) {})
			}
		}
		for n := 0; n < 12; n++ {
			if rng.Intn(4) == 0 || len(all) == 0 {
				s := startSpan(f, 0, context.Background(), nil)
				s.name = fmt.Sprint(len(all))
				all = append(all, s)
				desc += "+" + s.name + " "
			} else {
				act()
			}
			var known []*liveSpan
			for _, l := range all {
				if l.span != nil {
					known = append(known, l)
				}
			}
			if err := checkSpans(r, known); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		zz.Case(t.Name(), desc)
	}
}

type c03obs struct{ f func() }

func (o c03obs) Start(*monkit.Span)                          { o.f() }
func (o c03obs) Finish(*monkit.Span, error, bool, time.Time) { o.f() }

func TestC03_Schedules(t *testing.T) {
	mkf := func() (*monkit.Registry, *monkit.Func, *monkit.Func) {
		r := monkit.NewRegistry()
		return r, r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
	}
	// children start and finish while the parent finishes
	for v := 0; v < 4; v++ {
		v := v
		zz.Try(t, 400, func() ([]func(), func() error) {
			r, f, g := mkf()
			p := startSpan(f, 0, context.Background(), nil)
			p.name = "p"
			var early *liveSpan
			if v >= 2 {
				early = startSpan(g, 0, nil, p)
				early.name = "e"
			}
			all := []*liveSpan{p}
			if early != nil {
				all = append(all, early)
			}
			child := func(n string, end bool) func() {
				return func() {
					c := startSpan(g, 0, nil, p)
					c.name = n
					if end {
						c.exit(nil)
						c.live = false
					}
					all = append(all, c)
				}
			}
			fs := []func(){
				func() { p.exit(nil); p.live = false },
				child("a", v%2 == 0),
				child("b", false),
			}
			if early != nil {
				fs = append(fs, func() { early.exit(nil); early.live = false })
			}
			var bad error
			fs = append(fs, func() {
				r.AllSpans(func(s *monkit.Span) {
					if s == nil || s.Func() == nil {
						bad = fmt.Errorf("listed %v", s)
					}
				})
			})
			return fs, func() error {
				if bad != nil {
					return bad
				}
				if err := checkSpans(r, all); err != nil {
					return err
				}
				for _, l := range all {
					if l.live {
						l.exit(nil)
						l.live = false
					}
				}
				return checkSpans(r, all)
			}
		})
	}
	// a chain of which every link ends at any moment, also while another counts its end
	for v := 0; v < 6; v++ {
		v := v
		zz.Try(t, 400, func() ([]func(), func() error) {
			r, f, g := mkf()
			p := startSpan(f, 0, context.Background(), nil)
			p.name = "p"
			c := startSpan(g, 0, nil, p)
			c.name = "c"
			all := []*liveSpan{p, c}
			if v >= 3 {
				d := startSpan(f, 0, nil, c)
				d.name = "d"
				all = append(all, d)
			}
			var fs []func()
			for _, l := range all {
				l := l
				fs = append(fs, func() {
					if v%3 == 1 && l == c {
						var err error = c03err{func() { zz.Point() }}
						l.exit(&err)
					} else if v%3 == 2 && l == p {
						func() {
							defer func() { recover() }()
							defer l.exit(nil)
							panic("x")
						}()
					} else {
						l.exit(nil)
					}
					l.live = false
				})
			}
			return fs, func() error { return checkSpans(r, all) }
		})
	}
	// siblings under a live parent, and roots
	zz.Try(t, 400, func() ([]func(), func() error) {
		r, f, g := mkf()
		p := startSpan(f, 0, context.Background(), nil)
		p.name = "p"
		all := []*liveSpan{p}
		one := func(n string, kind int, end bool) func() {
			return func() {
				c := startSpan(g, kind, nil, p)
				c.name = n
				if end {
					c.exit(nil)
					c.live = false
				}
				all = append(all, c)
			}
		}
		return []func(){one("a", 0, true), one("b", 0, false), one("c", 0, true), one("d", 1, false)},
			func() error { return checkSpans(r, all) }
	})
}

func TestC04_Inheritance(t *testing.T) {
	rng := zz.NewRng(40)
	for i := 0; i < zz.N(1200); i++ {
		r := monkit.NewRegistry()
		wrap := rng.Intn(3) == 0
		if wrap {
			r.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(&spanLog{add: "obs"}) })
		}
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		var cur *monkit.Span // the span the context carries
		traces := map[*monkit.Trace]bool{}
		var exits []func(*error)
		desc := ""
		for n := 0; n < 9; n++ {
			k := rng.Intn(9)
			args := []interface{}{}
			for a := rng.Intn(3); a > 0; a-- {
				args = append(args, a)
			}
			before := ctx
			switch k {
			case 0, 1, 2, 3:
				name := "task "
				var exit func(*error)
				if k == 3 {
					exit, name = f.Scope().TaskNamed("h")(&ctx, args...), "scopetask "
				} else {
					exit = f.Task(&ctx, args...)
				}
				s := monkit.SpanFromCtx(ctx)
				desc += name
				if s == nil || s == cur {
					t.Fatalf("%s: context carries %v", desc, s)
				}
				id, has := s.ParentId()
				if cur != nil && (s.Trace() != cur.Trace() || !has || id != cur.Id()) {
					t.Fatalf("%s: trace %d parent %d %v, want trace %d parent %d", desc, s.Trace().Id(), id, has, cur.Trace().Id(), cur.Id())
				}
				if cur == nil && (has || traces[s.Trace()] || s.Trace() == nil) {
					t.Fatalf("%s: parent %d %v, trace known before %v", desc, id, has, traces[s.Trace()])
				}
				if cur != nil {
					found := 0
					cur.Children(func(c *monkit.Span) {
						if c == s {
							found++
						}
					})
					if found != 1 {
						t.Fatalf("%s: child listed %d times", desc, found)
					}
				}
				cur = s
				exits = append(exits, exit)
			case 4:
				exit := f.ResetTrace(&ctx, args...)
				s := monkit.SpanFromCtx(ctx)
				desc += "reset "
				if _, has := s.ParentId(); s == cur || has || traces[s.Trace()] {
					t.Fatalf("%s: not a new trace without parent", desc)
				}
				cur = s
				exits = append(exits, exit)
			case 5:
				tr, pid := monkit.NewTrace(monkit.NewId()), rng.Int()
				exit := f.RemoteTrace(&ctx, pid, tr, args...)
				s := monkit.SpanFromCtx(ctx)
				desc += "remote "
				id, has := s.ParentId()
				if s == cur || s.Trace() != tr || !has || id != pid {
					t.Fatalf("%s: trace %v parent %d %v, want %v %d", desc, s.Trace() == tr, id, has, true, pid)
				}
				if cur != nil {
					cur.Children(func(c *monkit.Span) {
						if c == s {
							t.Fatalf("%s: joined span has a local parent", desc)
						}
					})
				}
				cur = s
				exits = append(exits, exit)
			case 6:
				ctx = monkit.ResetContextSpan(ctx)
				desc += "remove "
				cur = nil
				if monkit.SpanFromCtx(ctx) != nil {
					t.Fatalf("%s: span still there", desc)
				}
			case 7:
				ctx = context.WithValue(ctx, ctxK("x"), n)
				desc += "value "
			default:
				if monkit.SpanFromCtx(ctx) != cur {
					t.Fatalf("%s: context carries another span", desc)
				}
				if len(exits) > 0 && rng.Intn(2) == 0 {
					exits[len(exits)-1](nil)
					exits = exits[:len(exits)-1]
					desc += "end "
				}
			}
			if k < 6 {
				traces[cur.Trace()] = true
				if cur.Func() == nil || (k != 3 && cur.Func() != f) {
					t.Fatalf("%s: span of %v", desc, cur.Func())
				}
				if len(cur.Args()) != len(args) {
					t.Fatalf("%s: %d arguments, want %d", desc, len(cur.Args()), len(args))
				}
				if wrap && ctx.Value(ctxK("obs")) != "obs" && k < 5 {
					t.Fatalf("%s: the observer's context is not handed out", desc)
				}
				_ = before
			}
			if got := monkit.SpanFromCtx(ctx); got != cur {
				t.Fatalf("%s: the context carries %v, want %v", desc, got, cur)
			}
		}
		zz.Case(t.Name(), desc)
	}
	// without a context, every call begins a trace
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	seen := map[int64]bool{}
	for n := 0; n < 20; n++ {
		exit := []func() func(*error){func() func(*error) { return f.Task(nil) }, func() func(*error) { return f.ResetTrace(nil) }}[n%2]()
		k := 0
		f.Scope().FuncNamed("other")
		f.Parents(func(p *monkit.Func) {
			if p != nil {
				t.Fatalf("a call without context has the parent %v", p.FullName())
			}
		})
		_ = k
		exit(nil)
	}
	_ = seen
	for i := 0; i < 40; i++ {
		r := monkit.NewRegistry()
		f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
		desc := ""
		for n := 0; n < 6; n++ {
			tr := monkit.NewTrace(monkit.NewId())
			k := rng.Intn(6)
			var exit func(*error)
			switch k {
			case 0:
				exit = f.Task(nil)
			case 1:
				exit = f.ResetTrace(nil)
			case 2:
				exit = f.RemoteTrace(nil, 9, tr)
			case 3:
				exit = f.RemoteTrace(nil, 9, nil)
			case 4:
				exit = g.Scope().TaskNamed("h")(nil)
			default:
				var none context.Context
				exit = g.Task(&none)
				if monkit.SpanFromCtx(none) == nil {
					t.Fatalf("%s: a nil context is not filled in", desc)
				}
			}
			desc += fmt.Sprint(k, " ")
			live := 0
			r.AllSpans(func(s *monkit.Span) {
				live++
				id, has := s.ParentId()
				if remote := k == 2 || k == 3; has != remote || (has && id != 9) || (k == 2) != (s.Trace() == tr) {
					t.Fatalf("kinds of calls without a context %s: parent %d %v, on the given trace: %v", desc, id, has, s.Trace() == tr)
				}
			})
			if live != 1 {
				t.Fatalf("%s: %d live spans", desc, live)
			}
			exit(nil)
		}
		r.Funcs(func(f *monkit.Func) {
			f.Parents(func(p *monkit.Func) {
				if p != nil {
					t.Fatalf("%s: %s has the parent %s", desc, f.ShortName(), p.ShortName())
				}
			})
		})
		zz.Case(t.Name(), desc)
	}
	// a trace joined with no trace given
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	outer := monkit.SpanFromCtx(ctx)
	defer f.RemoteTrace(&ctx, 12, nil)(nil)
	if s := monkit.SpanFromCtx(ctx); s == nil || s == outer {
		t.Fatalf("joining without a trace: %v", s)
	} else if id, ok := s.ParentId(); !ok || id != 12 {
		t.Fatalf("joining without a trace: parent %d %v", id, ok)
	}
}

func TestC04_Schedules(t *testing.T) {
	// goroutines that start from the same context do not mix
	zz.Try(t, 300, func() ([]func(), func() error) {
		r := monkit.NewRegistry()
		f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
		ctx := context.Background()
		f.Task(&ctx)
		p := monkit.SpanFromCtx(ctx)
		var spans []*monkit.Span
		var bad error
		one := func() {
			c := ctx
			e := g.Task(&c)
			s := monkit.SpanFromCtx(c)
			if id, ok := s.ParentId(); !ok || id != p.Id() || s.Trace() != p.Trace() {
				bad = fmt.Errorf("parent %d %v", id, ok)
			}
			e(nil)
			d := context.Background()
			e = g.Task(&d)
			s2 := monkit.SpanFromCtx(d)
			if _, ok := s2.ParentId(); ok || s2.Trace() == p.Trace() {
				bad = fmt.Errorf("a root has a parent or an old trace")
			}
			spans = append(spans, s, s2)
			e(nil)
			e = g.Task(nil)
			e(nil)
		}
		return []func(){one, one, one}, func() error {
			ids, traces := map[int64]bool{p.Id(): true}, map[*monkit.Trace]bool{}
			for _, s := range spans {
				if ids[s.Id()] {
					return fmt.Errorf("two spans with one id")
				}
				ids[s.Id()] = true
				if s.Trace() != p.Trace() {
					if traces[s.Trace()] {
						return fmt.Errorf("two roots on one trace")
					}
					traces[s.Trace()] = true
				}
			}
			return bad
		}
	})
	_ = time.Now
}
