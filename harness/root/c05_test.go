package monkit_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

type obsEvent struct {
	obs      int
	start    bool
	span     *monkit.Span
	err      error
	panicked bool
	finish   time.Time
	ctx      context.Context
}

// recObs records what it is told.
type recObs struct {
	id  int
	log *[]obsEvent
}

func (o *recObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	*o.log = append(*o.log, obsEvent{obs: o.id, start: true, span: s, ctx: ctx})
	return context.WithValue(ctx, ctxK("last"), o.id)
}
func (o *recObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	*o.log = append(*o.log, obsEvent{obs: o.id, span: s, err: err, panicked: panicked, finish: finish, ctx: ctx})
}

// simpleObs is the other kind of observer.
type simpleObs struct {
	id  int
	log *[]obsEvent
}

func (o *simpleObs) Start(s *monkit.Span) {
	*o.log = append(*o.log, obsEvent{obs: o.id, start: true, span: s})
}
func (o *simpleObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	*o.log = append(*o.log, obsEvent{obs: o.id, span: s, err: err, panicked: panicked, finish: finish})
}

type funcObs func()

func (o funcObs) Start(*monkit.Span)                          { o() }
func (o funcObs) Finish(*monkit.Span, error, bool, time.Time) { o() }

func TestC05_Sequences(t *testing.T) {
	rng := zz.NewRng(50)
	boom := errors.New("boom")
	for i := 0; i < zz.N(1200); i++ {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		tr, other := monkit.NewTrace(monkit.NewId()), monkit.NewTrace(monkit.NewId())
		var log []obsEvent
		type obs struct {
			id     int
			simple bool
			cancel func()
			live   bool
			at     int
		}
		var all []*obs
		type sp struct {
			*liveSpan
			at      int
			begun   time.Time
			endCtx  context.Context
			started map[int]bool
		}
		var spans []*sp
		desc := ""
		now := 0
		// ids of the live observers, latest first, that were there at a time
		expect := func(before int) (out []int) {
			for k := len(all) - 1; k >= 0; k-- {
				if all[k].live && all[k].at < before {
					out = append(out, all[k].id)
				}
			}
			return
		}
		for n := 0; n < 22; n++ {
			now++
			log = nil
			switch k := rng.Intn(7); {
			case k < 2:
				o := &obs{id: len(all) + 1, simple: rng.Intn(3) == 0, live: true, at: now}
				if o.simple {
					o.cancel = tr.ObserveSpans(&simpleObs{o.id, &log})
				} else {
					o.cancel = tr.ObserveSpansCtx(&recObs{o.id, &log})
				}
				all = append(all, o)
				desc += fmt.Sprintf("observe%d ", o.id)
			case k < 3 && len(all) > 0:
				o := all[rng.Intn(len(all))]
				o.cancel() // also twice
				o.live = false
				desc += fmt.Sprintf("cancel%d ", o.id)
			case k < 5:
				ctx := context.Background()
				s := &sp{liveSpan: &liveSpan{live: true}, at: now, begun: zz.Now(), started: map[int]bool{}}
				if len(spans) > 0 && rng.Intn(2) == 0 {
					ctx = spans[rng.Intn(len(spans))].ctx
					s.exit = f.Task(&ctx)
				} else {
					s.exit = f.RemoteTrace(&ctx, 3, tr)
				}
				s.ctx, s.span = ctx, monkit.SpanFromCtx(ctx)
				spans = append(spans, s)
				s.name = fmt.Sprint("s", len(spans))
				desc += s.name + " "
				var got []int
				var last interface{}
				for _, e := range log {
					if !e.start || e.span != s.span {
						t.Fatalf("%s: observer %d told %+v", desc, e.obs, e)
					}
					if e.ctx != nil {
						if monkit.SpanFromCtx(e.ctx) != s.span {
							t.Fatalf("%s: observer %d got a context without the span", desc, e.obs)
						}
						if last != nil && e.ctx.Value(ctxK("last")) != last {
							t.Fatalf("%s: observer %d got the context of %v, want that of %v", desc, e.obs, e.ctx.Value(ctxK("last")), last)
						}
						last = e.obs
					}
					got = append(got, e.obs)
					s.started[e.obs] = true
				}
				if want := expect(now); show(got) != show(want) {
					t.Fatalf("%s: start told to %v, want %v", desc, got, want)
				}
				if last != nil && ctx.Value(ctxK("last")) != last {
					t.Fatalf("%s: body gets the context of %v, want that of %v", desc, ctx.Value(ctxK("last")), last)
				}
			case k < 6 && len(spans) > 0:
				s := spans[rng.Intn(len(spans))]
				if !s.live {
					continue
				}
				zz.Set(zz.Now().Add(time.Duration(rng.Intn(1000)) * time.Millisecond))
				s.live = false
				how := rng.Intn(3)
				var want error
				if how == 1 {
					want = boom
				}
				panics(func() {
					err := want
					defer s.exit(&err)
					if how == 2 {
						panic("x")
					}
				})
				desc += "end-" + s.name + " "
				var got []int
				for _, e := range log {
					if e.start || e.span != s.span || e.err != want || e.panicked != (how == 2) {
						t.Fatalf("%s: observer %d told %+v, want the end with %v %v", desc, e.obs, e, want, how == 2)
					}
					if zz.Rewritten && !e.finish.Equal(zz.Now()) {
						t.Fatalf("%s: observer %d told the end was at %v, not %v", desc, e.obs, e.finish, zz.Now())
					}
					if all[e.obs-1].at < s.at {
						got = append(got, e.obs)
					} else if !all[e.obs-1].live {
						t.Fatalf("%s: cancelled observer %d told", desc, e.obs)
					}
				}
				if want := expect(s.at); show(got) != show(want) {
					t.Fatalf("%s: end told to %v, want %v", desc, got, want)
				}
			default: // another trace: nobody is told
				ctx := context.Background()
				f.RemoteTrace(&ctx, 3, other)(nil)
				f.ResetTrace(&ctx)(nil)
				if len(log) > 0 {
					t.Fatalf("%s: told about another trace: %+v", desc, log)
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC05_Schedules(t *testing.T) {
	type seen struct{ starts, ends int }
	tally := func(log []obsEvent, id int) map[*monkit.Span]*seen {
		m := map[*monkit.Span]*seen{}
		for _, e := range log {
			if e.obs != id {
				continue
			}
			if m[e.span] == nil {
				m[e.span] = &seen{}
			}
			if e.start {
				m[e.span].starts++
			} else {
				m[e.span].ends++
			}
		}
		return m
	}
	for v := 0; v < 4; v++ {
		v := v
		zz.Try(t, 500, func() ([]func(), func() error) {
			f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
			tr := monkit.NewTrace(5)
			var log []obsEvent
			// other observers around the one that stays
			var cancels []func()
			add := func(id int) func() { return tr.ObserveSpans(&simpleObs{id, &log}) }
			for id := 10; id < 10+v; id++ {
				cancels = append(cancels, add(id))
			}
			add(1)
			for id := 20; id < 23-v; id++ {
				cancels = append(cancels, add(id))
			}
			var spans []*monkit.Span
			call := func() {
				ctx := context.Background()
				exit := f.RemoteTrace(&ctx, 2, tr)
				spans = append(spans, monkit.SpanFromCtx(ctx))
				exit(nil)
			}
			fs := []func(){call}
			for k, c := range cancels {
				k, c := k, c
				if k < 2 {
					fs = append(fs, c)
				}
			}
			fs = append(fs, func() { add(30)() })
			var late *monkit.Span
			done := false
			fs = append(fs, func() {
				c := add(40)
				c()
				ctx := context.Background()
				exit := f.RemoteTrace(&ctx, 2, tr)
				late = monkit.SpanFromCtx(ctx)
				exit(nil)
				done = true
			})
			return fs, func() error {
				m := tally(log, 1)
				for _, s := range append(spans, late) {
					if m[s] == nil || m[s].starts != 1 || m[s].ends != 1 {
						return fmt.Errorf("the observer that stayed was told %+v of a span", m[s])
					}
				}
				if done && tally(log, 40)[late] != nil {
					return fmt.Errorf("a cancelled observer was told of a later span")
				}
				// everyone but the one that stays is gone in the end
				for _, c := range cancels {
					c()
				}
				log = nil
				call()
				if len(log) != 2 || log[0].obs != 1 || log[1].obs != 1 {
					return fmt.Errorf("after all cancellations: told %+v", log)
				}
				return nil
			}
		})
	}
	// observers registered at the same time are all kept
	zz.Try(t, 400, func() ([]func(), func() error) {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		tr := monkit.NewTrace(5)
		var log []obsEvent
		old := tr.ObserveSpans(&simpleObs{9, &log})
		return []func(){
			func() { tr.ObserveSpans(&simpleObs{1, &log}) },
			func() { tr.ObserveSpansCtx(&recObs{2, &log}) },
			func() { old(); tr.ObserveSpans(&simpleObs{3, &log}) }}, func() error {
			ctx := context.Background()
			f.RemoteTrace(&ctx, 1, tr)(nil)
			n := map[int]int{}
			for _, e := range log {
				n[e.obs]++
			}
			if show(n) != show(map[int]int{1: 2, 2: 2, 3: 2}) {
				return fmt.Errorf("events per observer: %v", n)
			}
			return nil
		}
	})
	// an observer registered several times is told once per registration
	for _, order := range [][]int{{0}, {1}, {2}, {0, 0}, {1, 1}, {2, 2}, {0, 2}, {1, 0}, {2, 1, 2}} {
		for kind := 0; kind < 3; kind++ {
			f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
			tr := monkit.NewTrace(5)
			var log []obsEvent
			told := 0
			var cancels []func()
			simple, full := &simpleObs{1, &log}, &recObs{1, &log}
			for k := 0; k < 3; k++ {
				switch kind {
				case 0:
					cancels = append(cancels, tr.ObserveSpans(simple))
				case 1:
					cancels = append(cancels, tr.ObserveSpansCtx(full))
				case 2: // of a type that cannot be compared
					cancels = append(cancels, tr.ObserveSpans(funcObs(func() { told++ })))
				}
			}
			live := map[int]bool{0: true, 1: true, 2: true}
			for _, k := range order {
				cancels[k]()
				delete(live, k)
			}
			ctx := context.Background()
			f.RemoteTrace(&ctx, 1, tr)(nil)
			if n := len(log) + told; n != 2*len(live) {
				t.Fatalf("kind %d, cancelled %v of three registrations: told %d times, want %d", kind, order, n, 2*len(live))
			}
		}
	}
	// neighbours cancelled at the same time
	zz.Try(t, 500, func() ([]func(), func() error) {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		tr := monkit.NewTrace(5)
		var log []obsEvent
		var c []func()
		for id := 1; id <= 5; id++ {
			c = append(c, tr.ObserveSpans(&simpleObs{id, &log}))
		}
		return []func(){func() { c[1]() }, func() { c[2]() }, func() { c[3](); c[1]() }}, func() error {
			ctx := context.Background()
			f.RemoteTrace(&ctx, 1, tr)(nil)
			got := ""
			for _, e := range log {
				got += fmt.Sprint(e.obs)
			}
			if got != "5151" {
				return fmt.Errorf("observers told: %s, want 5151", got)
			}
			return nil
		}
	})
}

func TestC06_Sequences(t *testing.T) {
	rng := zz.NewRng(60)
	for i := 0; i < zz.N(1200); i++ {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		type watcher struct {
			cancel func()
			live   bool
		}
		var ws []*watcher
		var calls []string
		var told []*monkit.Trace
		var liveAt []int64
		desc := ""
		ctx := context.Background()
		for n := 0; n < 18; n++ {
			calls, told, liveAt = nil, nil, nil
			switch k := rng.Intn(8); {
			case k < 3:
				id := len(ws)
				w := &watcher{live: true}
				w.cancel = r.ObserveTraces(func(tr *monkit.Trace) {
					calls = append(calls, fmt.Sprint(id))
					told = append(told, tr)
					liveAt = append(liveAt, tr.Spans())
				})
				ws = append(ws, w)
				desc += fmt.Sprintf("watch%d ", id)
			case k < 4 && len(ws) > 0:
				j := rng.Intn(len(ws))
				ws[j].cancel()
				ws[j].live = false
				desc += fmt.Sprintf("cancel%d ", j)
			default:
				c := ctx
				kind := rng.Intn(4)
				tr := monkit.NewTrace(monkit.NewId())
				switch kind {
				case 0:
					f.Task(&c)
				case 1:
					f.ResetTrace(&c)
				case 2:
					f.RemoteTrace(&c, 1, tr)
				default:
					f.Task(&c)
					ctx = c
				}
				begins := kind == 1 || kind == 2 || monkit.SpanFromCtx(ctx) == nil || kind == 3
				if kind == 0 && monkit.SpanFromCtx(ctx) != nil {
					begins = false
				}
				if kind == 3 {
					if _, has := monkit.SpanFromCtx(c).ParentId(); has {
						begins = false
					}
				}
				desc += fmt.Sprintf("span%d ", kind)
				want := map[string]int{}
				for j, w := range ws {
					if w.live && begins {
						want[fmt.Sprint(j)] = 1
					}
				}
				got := map[string]int{}
				for _, id := range calls {
					got[id]++
				}
				if show(got) != show(want) {
					t.Fatalf("%s: watchers called %v, want %v", desc, got, want)
				}
				for j, x := range told {
					if x != monkit.SpanFromCtx(c).Trace() {
						t.Fatalf("%s: told of another trace", desc)
					}
					if liveAt[j] != 0 {
						t.Fatalf("%s: told after the span had started", desc)
					}
				}
				if rng.Intn(4) == 0 {
					ctx = context.Background()
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC06_Schedules(t *testing.T) {
	zz.Try(t, 600, func() ([]func(), func() error) {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		type call struct {
			w  string
			tr *monkit.Trace
		}
		var calls []call
		watch := func(w string) func() {
			return r.ObserveTraces(func(tr *monkit.Trace) { calls = append(calls, call{w, tr}) })
		}
		watch("stays")
		gone := watch("gone")
		var traces []*monkit.Trace
		var after, fresh *monkit.Trace
		begin := func(kind int) *monkit.Trace {
			ctx := context.Background()
			switch kind {
			case 0:
				f.Task(&ctx)(nil)
			case 1:
				f.ResetTrace(&ctx)(nil)
			default:
				f.RemoteTrace(&ctx, 1, monkit.NewTrace(monkit.NewId()))(nil)
			}
			tr := monkit.SpanFromCtx(ctx).Trace()
			traces = append(traces, tr)
			return tr
		}
		return []func(){
			func() { begin(0); begin(2) },
			func() { gone(); after = begin(1) },
			func() { watch("new"); fresh = begin(0) },
			func() { watch("brief")() }}, func() error {
			n := func(w string, tr *monkit.Trace) (k int) {
				for _, c := range calls {
					if c.w == w && c.tr == tr {
						k++
					}
				}
				return
			}
			for _, tr := range traces {
				if n("stays", tr) != 1 {
					return fmt.Errorf("the watcher that stayed was called %d times for a trace", n("stays", tr))
				}
				for _, w := range []string{"gone", "new", "brief"} {
					if n(w, tr) > 1 {
						return fmt.Errorf("watcher %s was called twice", w)
					}
				}
			}
			if n("gone", after) != 0 {
				return fmt.Errorf("a cancelled watcher was called")
			}
			if n("new", fresh) != 1 {
				return fmt.Errorf("a new watcher was called %d times", n("new", fresh))
			}
			calls = nil
			begin(0)
			var ws []string
			for _, c := range calls {
				ws = append(ws, c.w)
			}
			if s := strings.Join(ws, " "); s != "stays new" && s != "new stays" {
				return fmt.Errorf("in the end %q are called", s)
			}
			return nil
		}
	})
}
