package collect_test

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

func TestMain(m *testing.M) {
	code := m.Run()
	zz.Report()
	os.Exit(code)
}

// node is a span of the reference.
type node struct {
	span   *monkit.Span
	ctx    context.Context
	exit   func(*error)
	parent *node
	done   bool
	err    error
	panick bool
	end    time.Time
}

var errs = []error{nil, errors.New("one"), errors.New("two")}

// now is the time spans end at (only known with the clock of the harness).
func tick() {
	if zz.Rewritten {
		zz.Set(zz.Now().Add(time.Second))
	}
}

func start(f *monkit.Func, ctx context.Context, parent *node) *node {
	tick()
	n := &node{ctx: ctx, parent: parent}
	n.exit = f.Task(&n.ctx)
	n.span = monkit.SpanFromCtx(n.ctx)
	return n
}

func (n *node) finish(err error, panick bool) {
	tick()
	n.done, n.panick = true, panick
	n.end = zz.Now()
	if !panick {
		n.err = err
		n.exit(&err)
		return
	}
	defer func() { recover() }()
	func() {
		var e error
		defer n.exit(&e)
		panic("x")
	}()
}

// descendants are the nodes collected for root: finished before it through
// finished nodes only.
func descendants(root *node, all []*node) map[*monkit.Span]*node {
	out := map[*monkit.Span]*node{}
	for _, n := range all {
		m := n
		for m != nil && m != root && m.done {
			m = m.parent
		}
		if m == root && n.done {
			out[n.span] = n
		}
	}
	return out
}

func verify(got []*collect.FinishedSpan, first *monkit.Span, want map[*monkit.Span]*node) error {
	if len(got) == 0 || got[0].Span != first {
		return fmt.Errorf("the collection does not begin with the target")
	}
	seen := map[*monkit.Span]bool{}
	ids := map[int64]bool{}
	for i, fs := range got {
		if seen[fs.Span] {
			return fmt.Errorf("span %d is there twice", i)
		}
		seen[fs.Span] = true
		if pid, ok := fs.Span.ParentId(); i > 0 && (!ok || !ids[pid]) {
			return fmt.Errorf("span %d is not after its parent", i)
		}
		ids[fs.Span.Id()] = true
		if fs.Span == first && want[first] == nil {
			continue
		}
		w := want[fs.Span]
		if w == nil {
			return fmt.Errorf("span %d (%s) should not be there", i, fs.Span.Func().ShortName())
		}
		if fs.Err != w.err && !(w.panick) {
			return fmt.Errorf("span %d has error %v, not %v", i, fs.Err, w.err)
		}
		if fs.Panicked != w.panick {
			return fmt.Errorf("span %d has panicked=%v", i, fs.Panicked)
		}
		if zz.Rewritten && !fs.Finish.Equal(w.end) {
			return fmt.Errorf("span %d ends at %v, not %v", i, fs.Finish, w.end)
		}
	}
	for s := range want {
		if !seen[s] {
			return fmt.Errorf("a span of %s is missing", s.Func().ShortName())
		}
	}
	return nil
}

// play starts and finishes spans below the given contexts at random.
func play(rng *zz.Rng, f *monkit.Func, roots []*node, n int) (all []*node, log string) {
	live := append([]*node(nil), roots...)
	for i := 0; i < n; i++ {
		switch rng.Intn(5) {
		case 0, 1, 2:
			p := live[rng.Intn(len(live))]
			if len(all) > 0 && rng.Intn(4) == 0 {
				p = all[rng.Intn(len(all))] // maybe finished
			}
			c := start(f, p.ctx, p)
			all = append(all, c)
			live = append(live, c)
			log += "s"
		case 3:
			var open []*node
			for _, c := range all {
				if !c.done {
					open = append(open, c)
				}
			}
			if len(open) > 0 {
				open[rng.Intn(len(open))].finish(errs[rng.Intn(3)], rng.Intn(4) == 0)
				log += "f"
			}
		case 4:
			// another trace altogether
			p := live[rng.Intn(len(live))]
			ctx := p.ctx
			f.ResetTrace(&ctx)(nil)
			log += "o"
		}
	}
	return all, log
}

func TestC07_CollectSpans(t *testing.T) {
	for i := 0; i < zz.N(600); i++ {
		rng := zz.NewRng(uint64(i))
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		f := s.FuncNamed("f")
		outer := start(s.FuncNamed("outer"), context.Background(), nil)
		sibling := start(f, outer.ctx, outer)
		var all []*node
		var first *node
		var log string
		got := collect.CollectSpans(outer.ctx, func(ctx context.Context) {
			first = &node{ctx: ctx, span: monkit.SpanFromCtx(ctx), done: true}
			all, log = play(rng, f, []*node{first, first, outer, sibling}, 2+rng.Intn(14))
			tick()
			first.end = zz.Now()
		})
		if p, ok := first.span.ParentId(); !ok || p != outer.span.Id() || first.span.Trace() != outer.span.Trace() {
			t.Fatalf("the target is not a child of the span of the context")
		}
		want := descendants(first, append(all, first))
		for _, n := range all {
			if !n.done {
				n.finish(nil, false) // too late to be collected
			}
		}
		sibling.finish(nil, false)
		start(f, outer.ctx, outer).finish(nil, false)
		outer.finish(nil, false)
		if err := verify(got, first.span, want); err != nil {
			t.Fatalf("%s: %v", log, err)
		}
		zz.Case(t.Name(), log)
	}
	ran := 0
	if got := collect.CollectSpans(context.Background(), func(ctx context.Context) {
		ran++
		if monkit.SpanFromCtx(ctx) != nil {
			t.Errorf("a span appeared")
		}
	}); got != nil || ran != 1 {
		t.Fatalf("without a span: %v, work ran %d times", got, ran)
	}
	// work that panics
	r := monkit.NewRegistry()
	outer := start(r.ScopeNamed("s").FuncNamed("f"), context.Background(), nil)
	func() {
		defer func() {
			if x := recover(); x != "boom" {
				t.Errorf("the panic became %v", x)
			}
		}()
		collect.CollectSpans(outer.ctx, func(ctx context.Context) { panic("boom") })
	}()
	n := 0
	r.AllSpans(func(*monkit.Span) { n++ })
	if n != 1 {
		t.Errorf("%d spans are live after the work panicked", n)
	}
	outer.finish(nil, false)
}

// collections nested in and beside each other do not disturb each other
func TestC07_Nested(t *testing.T) {
	for i := 0; i < zz.N(150); i++ {
		rng := zz.NewRng(uint64(i) + 7777)
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		outer := start(f, context.Background(), nil)
		var all []*node
		var top *node
		var fail error
		log := ""
		got := collect.CollectSpans(outer.ctx, func(ctx context.Context) {
			top = &node{ctx: ctx, span: monkit.SpanFromCtx(ctx), done: true}
			for k := 0; k < 2; k++ {
				a, l := play(rng, f, []*node{top}, 1+rng.Intn(5))
				all = append(all, a...)
				log += l + "("
				var in []*node
				var first *node
				from := top
				if len(all) > 0 {
					from = all[rng.Intn(len(all))]
				}
				res := collect.CollectSpans(from.ctx, func(ctx context.Context) {
					first = &node{ctx: ctx, span: monkit.SpanFromCtx(ctx), done: true, parent: from}
					var l string
					in, l = play(rng, f, []*node{first, top}, 1+rng.Intn(6))
					log += l + ")"
					tick()
					first.end = zz.Now()
				})
				if err := verify(res, first.span, descendants(first, append(in, first))); err != nil && fail == nil {
					fail = fmt.Errorf("inner: %v", err)
				}
				all = append(all, in...)
				all = append(all, first)
			}
			tick()
			top.end = zz.Now()
		})
		if fail == nil {
			fail = verify(got, top.span, descendants(top, append(all, top)))
		}
		if fail != nil {
			t.Fatalf("%s: %v", log, fail)
		}
		zz.Case(t.Name(), log)
	}
}

// watch runs WatchForSpans and returns once it sees the spans of both the
// live trace and new ones.
func watch(t *testing.T, ctx context.Context, r *monkit.Registry, live *node, f *monkit.Func, match func(*monkit.Span) bool) (wait func() ([]*collect.FinishedSpan, error)) {
	var seen sync.Map
	type res struct {
		spans []*collect.FinishedSpan
		err   error
	}
	ch := make(chan res, 1)
	go func() {
		s, err := collect.WatchForSpans(ctx, r, func(s *monkit.Span) bool {
			seen.Store(s.Trace(), true)
			return match(s)
		})
		ch <- res{s, err}
	}()
	probe := r.ScopeNamed("probe").FuncNamed("probe")
	ok := zz.Eventually(func() bool {
		n := start(probe, context.Background(), nil)
		n.finish(nil, false)
		start(probe, live.ctx, live).finish(nil, false)
		_, a := seen.Load(n.span.Trace())
		_, b := seen.Load(live.span.Trace())
		return a && b
	})
	if !ok {
		t.Fatalf("the watcher never sees the spans of live and new traces")
	}
	return func() ([]*collect.FinishedSpan, error) {
		select {
		case r := <-ch:
			return r.spans, r.err
		case <-time.After(20 * time.Second):
			t.Fatalf("watching never ends")
			return nil, nil
		}
	}
}

func TestC07_WatchForSpans(t *testing.T) {
	for i := 0; i < zz.N(80); i++ {
		rng := zz.NewRng(uint64(i) + 99)
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		f, target := s.FuncNamed("f"), s.FuncNamed("target")
		live := start(f, context.Background(), nil)
		ctx, cancel := context.WithCancel(context.Background())
		wait := watch(t, ctx, r, live, f, func(s *monkit.Span) bool { return s.Func() == target })
		pre, log := play(rng, f, []*node{live}, rng.Intn(4))
		var from *node
		switch rng.Intn(3) {
		case 0:
			from = live
		case 1:
			from = start(f, context.Background(), nil)
		case 2:
			from = start(f, live.ctx, live)
		}
		first := start(target, from.ctx, from)
		second := start(target, from.ctx, from) // does not match any more
		third := start(target, context.Background(), nil)
		all, l := play(rng, f, []*node{first, first, from, second, third}, 2+rng.Intn(12))
		log += "|" + l
		nested := start(target, first.ctx, first)
		nested.finish(errs[1], false)
		second.finish(nil, false)
		third.finish(nil, false)
		first.finish(errs[rng.Intn(3)], rng.Intn(3) == 0)
		want := descendants(first, append(append(append(pre, all...), nested), first))
		got, err := wait()
		cancel()
		if err != nil {
			t.Fatalf("%s: %v", log, err)
		}
		if err := verify(got, first.span, want); err != nil {
			t.Fatalf("%s: %v", log, err)
		}
		zz.Case(t.Name(), log)
	}
}

type ctxKey struct{}

func TestC07_Cancelled(t *testing.T) {
	for i := 0; i < zz.N(12); i++ {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		live := start(f, context.Background(), nil)
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 1))
		wait := watch(t, ctx, r, live, f, func(s *monkit.Span) bool { return s.Func() == f })
		var n *node
		if i%3 == 1 {
			n = start(f, live.ctx, live) // matched, and never finishes
		}
		if i%3 == 2 {
			n = start(f, context.Background(), nil)
			start(f, n.ctx, n).finish(nil, false)
		}
		cancel()
		got, err := wait()
		if got != nil || err != context.Canceled {
			t.Fatalf("cancelled: %v, %v", got, err)
		}
		if n != nil {
			n.finish(nil, false)
		}
		live.finish(nil, false)
		dctx, c2 := context.WithDeadline(context.Background(), time.Now().Add(-time.Hour))
		zz.Within(t, 20*time.Second, "watching with a context that is over", func() {
			if got, err := collect.WatchForSpans(dctx, r, func(*monkit.Span) bool { return false }); got != nil || err != context.DeadlineExceeded {
				t.Errorf("over: %v, %v", got, err)
			}
			collect.FindSpan(dctx, r, func(*monkit.Span) bool { return false })
			collect.FindSpan(context.Background(), r, nil)
		})
		c2()
		zz.Case(t.Name(), fmt.Sprint(i%3))
	}
}

func TestC07_FindSpan(t *testing.T) {
	for i := 0; i < zz.N(20); i++ {
		r := monkit.NewRegistry()
		f, target := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("target")
		live := start(f, context.Background(), nil)
		var calls, hits int32
		done := make(chan struct{})
		go func() {
			collect.FindSpan(context.Background(), r, func(s *monkit.Span) bool {
				atomic.AddInt32(&calls, 1)
				if s.Func() == target {
					atomic.AddInt32(&hits, 1)
					return true
				}
				return false
			})
			close(done)
		}()
		if !zz.Eventually(func() bool {
			c := atomic.LoadInt32(&calls)
			start(f, live.ctx, live).finish(nil, false)
			start(f, context.Background(), nil).finish(nil, false)
			return atomic.LoadInt32(&calls) == c+2
		}) {
			t.Fatalf("the matcher does not see the spans")
		}
		select {
		case <-done:
			t.Fatalf("it ended without a match")
		default:
		}
		parent := live
		if i%2 == 1 {
			parent = start(f, context.Background(), nil)
		}
		n := start(target, parent.ctx, parent)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fatalf("it never ends")
		}
		start(target, parent.ctx, parent).finish(nil, false)
		n.finish(nil, false)
		if atomic.LoadInt32(&hits) != 1 {
			t.Fatalf("%d matches", hits)
		}
		zz.Case(t.Name(), "match")
	}
}

type token struct{ msg string }

func (e *token) Error() string { return e.msg }

// gone waits until the objects given to watchIt were collected.
func gone(left *int32) bool {
	return zz.Eventually(func() bool { runtime.GC(); return atomic.LoadInt32(left) == 0 })
}

func watchIt(x *token, left *int32) *token {
	atomic.AddInt32(left, 1)
	runtime.SetFinalizer(x, func(*token) { atomic.AddInt32(left, -1) })
	return x
}

// nothing stays behind on traces that live on
func TestC07_NothingLeft(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := start(f, context.Background(), nil)
	other := start(f, context.Background(), nil)
	var left int32
	for i := 0; i < 5; i++ {
		func() {
			got := collect.CollectSpans(live.ctx, func(ctx context.Context) {
				n := &node{ctx: ctx}
				start(f, n.ctx, n).finish(watchIt(&token{"collected"}, &left), false)
			})
			if len(got) != 2 {
				t.Errorf("%d spans", len(got))
			}
		}()
		func() {
			defer func() { recover() }()
			collect.CollectSpans(live.ctx, func(ctx context.Context) {
				n := &node{ctx: ctx}
				start(f, n.ctx, n).finish(watchIt(&token{"collected"}, &left), false)
				panic("boom")
			})
		}()
		func() {
			tok := watchIt(&token{"matcher"}, &left)
			ctx, cancel := context.WithCancel(context.Background())
			wait := watch(t, ctx, r, live, f, func(s *monkit.Span) bool { return s.Func() == f && tok.msg != "" })
			if i%2 == 0 {
				n := start(f, live.ctx, live)
				n.finish(nil, false)
			} else {
				cancel()
			}
			wait()
			cancel()
		}()
		func() {
			tok := watchIt(&token{"finder"}, &left)
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			collect.FindSpan(ctx, r, func(s *monkit.Span) bool { return tok.msg == "" })
		}()
	}
	if !gone(&left) {
		t.Fatalf("%d objects of collections that are over are still reachable", left)
	}
	runtime.KeepAlive(r)
	start(f, live.ctx, live).finish(nil, false)
	start(f, other.ctx, other).finish(nil, false)
	runtime.KeepAlive(live)
	runtime.KeepAlive(other)
	zz.Case(t.Name(), "20 collections")
}

// rec counts what it is told.
type rec struct {
	starts, ends map[*monkit.Span]int
	order        []string
}

func newRec() *rec {
	return &rec{starts: map[*monkit.Span]int{}, ends: map[*monkit.Span]int{}}
}
func (r *rec) Start(s *monkit.Span)                                { r.starts[s]++ }
func (r *rec) Finish(s *monkit.Span, _ error, _ bool, _ time.Time) { r.ends[s]++ }

func TestC07_AllTraces(t *testing.T) {
	zz.Try(t, 1500, func() ([]func(), func() error) {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		old := start(f, context.Background(), nil)
		orphan := start(f, old.ctx, old) // a second root of the same trace
		o2 := start(f, orphan.ctx, orphan)
		orphan.finish(nil, false)
		ob := newRec()
		registered, cancelled := false, false
		var must, mustnot []*monkit.Span
		var cancel func()
		one := func(p context.Context, parent *node) {
			before, was := registered, cancelled
			n := start(f, p, parent)
			if before && !cancelled {
				must = append(must, n.span)
			}
			if was {
				mustnot = append(mustnot, n.span)
			}
			n.finish(nil, false)
		}
		return []func(){
			func() {
				cancel = collect.ObserveAllTraces(r, ob)
				registered = true
				one(old.ctx, old)
				one(o2.ctx, o2)
			},
			func() { one(context.Background(), nil); one(old.ctx, old) },
			func() { one(o2.ctx, o2); one(context.Background(), nil) },
		}, func() error {
			for s, n := range ob.starts {
				if n > 1 {
					return fmt.Errorf("the start of a span of %s was told %d times", s.Func().ShortName(), n)
				}
			}
			for s, n := range ob.ends {
				if n > 1 {
					return fmt.Errorf("the end of a span of %s was told %d times", s.Func().ShortName(), n)
				}
			}
			for _, s := range must {
				if ob.starts[s] != 1 || ob.ends[s] != 1 {
					return fmt.Errorf("a span was told %d starts and %d ends", ob.starts[s], ob.ends[s])
				}
			}
			cancel()
			cancelled = true
			mustnot = nil
			one(old.ctx, old)
			one(o2.ctx, o2)
			one(context.Background(), nil)
			for _, s := range mustnot {
				if ob.starts[s]+ob.ends[s] != 0 {
					return fmt.Errorf("told of a span after cancelling")
				}
			}
			return nil
		}
	})
}

// traces are told apart by identity: a process may join a remote trace more
// than once, each time with a trace object of its own
func TestC07_Twins(t *testing.T) {
	for i := 0; i < zz.N(300); i++ {
		rng := zz.NewRng(uint64(i) + 7700)
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		id := rng.Int()
		c := collect.NewSpanCollector(func(*monkit.Span) bool { return true })
		mk := func(parent int64) *node {
			tr := monkit.NewTrace(id)
			tr.ObserveSpans(c)
			tick()
			n := &node{ctx: context.Background()}
			n.exit = f.RemoteTrace(&n.ctx, parent, tr)
			n.span = monkit.SpanFromCtx(n.ctx)
			return n
		}
		root := mk(rng.Int())
		twin := mk([]int64{root.span.Id(), 5, rng.Int()}[rng.Intn(3)])
		a, _ := play(rng, f, []*node{root}, 6)
		play(rng, f, []*node{twin}, 4)
		b := start(f, twin.ctx, twin)
		b.finish(nil, false)
		twin.finish(errs[1], rng.Bool())
		root.finish(errs[rng.Intn(3)], false)
		got := c.Spans()
		want := descendants(root, append(a, root))
		if err := verify(got, root.span, want); err != nil {
			t.Fatalf("case %d: %v", i, err)
		}
		zz.Case(t.Name(), fmt.Sprint(len(got)))
	}
}

// cancelling while traces begin leaves nothing registered
func TestC07_CancelRace(t *testing.T) {
	zz.Try(t, 1500, func() ([]func(), func() error) {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		old := start(f, context.Background(), nil)
		var live *node
		ob := newRec()
		var cancel func()
		return []func(){
			func() {
				cancel = collect.ObserveAllTraces(r, ob)
				cancel()
			},
			func() { live = start(f, context.Background(), nil) },
			func() { start(f, old.ctx, old).finish(nil, false) },
		}, func() error {
			n := len(ob.starts)
			start(f, old.ctx, old).finish(nil, false)
			start(f, live.ctx, live).finish(nil, false)
			start(f, context.Background(), nil).finish(nil, false)
			if len(ob.starts) != n {
				return fmt.Errorf("told of a span after cancelling")
			}
			return nil
		}
	})
}

// one collector, several goroutines that start and end spans of one trace
func TestC07_CollectorSchedules(t *testing.T) {
	for variant := 0; variant < 3; variant++ {
		variant := variant
		zz.Try(t, 1000, func() ([]func(), func() error) {
			r := monkit.NewRegistry()
			s := r.ScopeNamed("s")
			f, target := s.FuncNamed("f"), s.FuncNamed("target")
			top := start(f, context.Background(), nil)
			c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func() == target })
			cancel := top.span.Trace().ObserveSpans(c)
			var roots []*node
			var kids []*node
			body := func() {
				n := start(target, top.ctx, top)
				roots = append(roots, n)
				k := start(f, n.ctx, n)
				kids = append(kids, k)
				k2 := start(f, k.ctx, k)
				kids = append(kids, k2)
				k2.finish(errs[1], false)
				k.finish(nil, false)
				n.finish(errs[2], false)
			}
			fs := []func(){body, body, func() {
				for i := 0; i < 2; i++ {
					sp := c.Spans()
					if len(sp) != 0 && len(sp) != 3 {
						panic(fmt.Sprintf("%d spans", len(sp)))
					}
				}
			}}
			if variant == 0 {
				// once done is told, all of it can be read
				fs = append(fs, func() {
					for i := 0; i < 4; i++ {
						select {
						case <-c.Done():
							if n := len(c.Spans()); n != 3 {
								panic(fmt.Sprintf("done with %d spans", n))
							}
							return
						default:
							zz.Point()
						}
					}
				})
			}
			switch variant {
			case 1:
				fs = append(fs, func() { c.Stop() })
			case 2:
				fs = append(fs, func() { cancel() })
			}
			return fs, func() error {
				done := false
				select {
				case <-c.Done():
					done = true
				default:
				}
				if variant == 0 && !done || variant == 1 && !done {
					return fmt.Errorf("not done")
				}
				got := c.Spans()
				if len(got) == 0 {
					if variant == 0 {
						return fmt.Errorf("nothing was collected")
					}
					c.Stop()
					return nil
				}
				var first *node
				for _, n := range roots {
					if n.span == got[0].Span {
						first = n
					}
				}
				if first == nil {
					return fmt.Errorf("collected something else")
				}
				for _, g := range got {
					for _, n := range append(append([]*node(nil), roots...), kids...) {
						if n.span == g.Span {
							if g.Err != n.err || g.Panicked {
								return fmt.Errorf("a span was collected with error %v, not %v", g.Err, n.err)
							}
							n.end = g.Finish
						}
					}
				}
				if variant == 2 && len(got) != 3 {
					return nil
				}
				return verify(got, first.span, descendants(first, append(append([]*node(nil), kids...), first)))
			}
		})
	}
}

// stopping twice, starting by hand
func TestC07_ForceStart(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	top := start(f, context.Background(), nil)
	c := collect.NewSpanCollector(nil)
	defer top.span.Trace().ObserveSpans(c)()
	start(f, top.ctx, top).finish(nil, false)
	n := start(f, top.ctx, top)
	c.ForceStart(n.span)
	k := start(f, n.ctx, n)
	k.finish(errs[1], false)
	c.ForceStart(k.span) // already started
	x := start(f, top.ctx, top)
	x.finish(nil, false)
	if got := c.Spans(); len(got) != 0 {
		t.Errorf("%d spans before the target ended", len(got))
	}
	n.finish(errs[2], false)
	late := start(f, n.ctx, n)
	late.finish(nil, false)
	select {
	case <-c.Done():
	default:
		t.Errorf("not done")
	}
	if err := verify(c.Spans(), n.span, descendants(n, []*node{n, k})); err != nil {
		t.Error(err)
	}
	c.Stop()
	c.Stop()
	if got := c.Spans(); len(got) != 2 {
		t.Errorf("%d spans after stopping", len(got))
	}
	d := collect.NewSpanCollector(nil)
	d.Stop()
	d.ForceStart(top.span)
	d.Stop()
	if got := d.Spans(); len(got) != 0 {
		t.Errorf("a stopped collector has %d spans", len(got))
	}
	zz.Case(t.Name(), "one")

	for i := 0; i < zz.N(50); i++ {
		rng := zz.NewRng(uint64(i))
		var s collect.StartTimeSorter
		for k := rng.Intn(8); k >= 0; k-- {
			n := start(f, top.ctx, top)
			n.finish(nil, false)
			s = append(s, &collect.FinishedSpan{Span: n.span})
		}
		have := map[*collect.FinishedSpan]bool{}
		var sh collect.StartTimeSorter
		for _, k := range rng.Perm(len(s)) {
			sh = append(sh, s[k])
			have[s[k]] = true
		}
		sh.Sort()
		if !sort.IsSorted(sh) {
			t.Errorf("not sorted")
		}
		for k := range sh {
			delete(have, sh[k])
			if k > 0 && sh[k].Span.Start().Before(sh[k-1].Span.Start()) {
				t.Errorf("not sorted by start time")
			}
		}
		if len(have) != 0 {
			t.Errorf("sorting lost spans")
		}
	}
}

func TestC23_Matcher(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := start(f, context.Background(), nil)
	busy := false
	use := func(s *monkit.Span) bool {
		if zz.Rewritten && zz.Held() != 0 {
			t.Errorf("a matcher is called with %d locks held", zz.Held())
		}
		if busy {
			return false
		}
		busy = true
		defer func() { busy = false }()
		start(f, live.ctx, live).finish(nil, false)
		r.AllSpans(func(*monkit.Span) {})
		s.Annotate("a", "b")
		return false
	}
	c := collect.NewSpanCollector(use)
	cancel := collect.ObserveAllTraces(r, c)
	zz.Within(t, 20*time.Second, "a matcher that calls back", func() {
		start(f, live.ctx, live).finish(nil, false)
		start(f, context.Background(), nil).finish(nil, false)
		collect.CollectSpans(live.ctx, func(ctx context.Context) {
			start(f, ctx, live).finish(nil, false)
			if zz.Rewritten && zz.Held() != 0 {
				t.Errorf("the work is called with %d locks held", zz.Held())
			}
		})
	})
	cancel()
	if zz.Rewritten && zz.Held() != 0 {
		t.Errorf("%d locks are still held", zz.Held())
	}
	zz.Case(t.Name(), "matcher")
}

func TestC24_Collect_Race(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := start(f, context.Background(), nil)
	var wg sync.WaitGroup
	run := func(g func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zz.N(40); i++ {
				g()
			}
		}()
	}
	task := func(ctx context.Context) {
		e := f.Task(&ctx)
		c := ctx
		f.Task(&c)(nil)
		e(nil)
	}
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func() == f })
	cancel := collect.ObserveAllTraces(r, c)
	run(func() { task(live.ctx) })
	run(func() { task(context.Background()) })
	run(func() { task(live.ctx) })
	run(func() { c.Spans() })
	run(func() { c.ForceStart(live.span) })
	run(func() { collect.CollectSpans(live.ctx, func(ctx context.Context) { task(ctx) }) })
	run(func() {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		defer cancel()
		collect.WatchForSpans(ctx, r, func(s *monkit.Span) bool { return s.Func() == f })
		collect.FindSpan(ctx, r, func(s *monkit.Span) bool { return s.Func() == f })
	})
	run(func() { collect.ObserveAllTraces(r, collect.NewSpanCollector(nil))() })
	run(func() { c.Stop() })
	wg.Wait()
	cancel()
	zz.Case(t.Name(), "9 goroutines")
}
