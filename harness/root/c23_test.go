package monkit_test

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

// world is a registry with one of everything and a live span.
type world struct {
	t     *testing.T
	r     *monkit.Registry
	s     *monkit.Scope
	f     *monkit.Func
	ctx   context.Context
	span  *monkit.Span
	child *monkit.Span
	dt    *monkit.DeltaTransformer
	timer *monkit.RunningTimer
	depth int
	what  string
	boom  bool
	mute  bool
	calls int
	log   map[string]int
}

type cbErr struct{ w *world }

func (cbErr) Error() string { return "cb" }
func (e cbErr) Name() (string, bool) {
	e.w.call("the error's Name")
	return "cb", true
}

type cbObs struct{ w *world }

func (o cbObs) Start(s *monkit.Span) { o.w.call("observer Start") }
func (o cbObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.w.call("observer Finish")
}

type cbCtxObs struct{ w *world }

func (o cbCtxObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.w.call("context observer Start")
	return ctx
}
func (o cbCtxObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.w.call("context observer Finish")
}

func newWorld(t *testing.T) *world {
	w := &world{t: t, r: monkit.NewRegistry(), log: map[string]int{}, dt: monkit.NewDeltaTransformer()}
	w.s = w.r.ScopeNamed("s")
	w.f = w.s.FuncNamed("f")
	w.ctx = context.Background()
	w.s.FuncNamed("root").Task(&w.ctx)
	w.f.Task(&w.ctx)
	w.span = monkit.SpanFromCtx(w.ctx)
	c := w.ctx
	w.s.FuncNamed("child").Task(&c)
	w.child = monkit.SpanFromCtx(c)
	w.s.Counter("c").Inc(1)
	w.s.Meter("m").Mark(1)
	w.s.IntVal("i").Observe(1)
	w.s.FloatVal("fl").Observe(1)
	w.s.BoolVal("b").Observe(true)
	w.s.StructVal("st").Observe(struct{ A int }{1})
	w.s.DurationVal("d").Observe(1)
	w.timer = w.s.Timer("t").Start()
	w.timer.Stop()
	w.s.DiffMeter("dm", w.s.Meter("m"), w.s.Meter("m2"))
	w.s.Gauge("g", func() float64 { w.call("gauge"); return 1 })
	w.s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		w.call("chained source")
		cb(monkit.NewSeriesKey("x"), "total", 1)
	}))
	finish(w.f.Observe(), 0)
	return w
}

// call is what every callback does.
func (w *world) call(name string) {
	if w.mute {
		return
	}
	w.calls++
	w.log[name]++
	if w.depth > 0 {
		return
	}
	if n := zz.Held(); zz.Rewritten && n > 0 {
		w.t.Errorf("%s: %s is called with %d locks held", w.what, name, n)
	}
	if w.boom {
		panic("boom")
	}
	w.depth++
	w.poke()
	w.depth--
}

// poke uses everything once.
func (w *world) poke() {
	nop := func(monkit.SeriesKey, string, float64) {}
	w.s.Counter("c").Inc(1)
	w.s.Counter("c").Reset()
	w.s.Meter("m").Mark(1)
	w.s.Meter("m").Rate()
	w.s.IntVal("i").Observe(1)
	w.s.IntVal("i").Quantile(.5)
	w.s.FloatVal("fl").Observe(1)
	w.s.FloatVal("fl").Quantile(.5)
	w.s.BoolVal("b").Observe(true)
	w.s.StructVal("st").Observe(struct{ A int }{1})
	w.s.DurationVal("d").Observe(1)
	w.s.DurationVal("d").Quantile(.5)
	w.s.Timer("t").Start().Stop()
	w.s.Timer("t").Values()
	w.s.Event("m2")
	w.s.Gauge("g2", func() float64 { return 1 })
	w.s.FuncNamed(fmt.Sprint("new", w.calls%5))
	w.r.ScopeNamed(fmt.Sprint("new", w.calls%5)).Counter("c").Inc(1)
	if w.depth < 2 {
		d := w.depth
		w.depth = 2
		w.r.Stats(nop)
		w.r.Funcs(func(f *monkit.Func) { f.Parents(func(*monkit.Func) {}) })
		w.r.AllSpans(func(s *monkit.Span) { s.Annotations() })
		w.depth = d
	}
	ctx := w.ctx
	e := w.f.Task(&ctx)
	monkit.SpanFromCtx(ctx).Annotate("a", "b")
	err := io.EOF
	e(&err)
	w.f.Errors()
	w.f.Success()
	w.f.Panics()
	w.f.SuccessTimes()
	w.f.FailureTimes()
	w.span.Annotate("a", "b")
	w.span.Orphaned()
	w.span.Children(func(*monkit.Span) {})
	w.child.Annotate("a", "b")
	w.span.Trace().Set("k", "v")
	w.span.Trace().Get("k")
	w.span.Trace().GetAll()
	w.span.Trace().ObserveSpans(cbObs{&world{mute: true}})()
	w.r.ObserveTraces(func(*monkit.Trace) {})()
	w.dt.Transform(nop)(monkit.NewSeriesKey("m"), "total", 1)
	_ = monkit.NewSeriesKey("x").WithTag("a", "b").String()
}

// uses are the operations that call back, with the callback they must reach.
var uses = []struct {
	name, callback string
	run            func(w *world)
}{
	{"Registry.Stats", "", func(w *world) { w.r.Stats(w.cb("Stats callback")) }},
	{"Scope.Stats", "", func(w *world) { w.s.Stats(w.cb("Stats callback")) }},
	{"Func.Stats", "", func(w *world) { w.f.Stats(w.cb("Stats callback")) }},
	{"Counter.Stats", "", func(w *world) { w.s.Counter("c").Stats(w.cb("Stats callback")) }},
	{"Meter.Stats", "", func(w *world) { w.s.Meter("m").Stats(w.cb("Stats callback")) }},
	{"IntVal.Stats", "", func(w *world) { w.s.IntVal("i").Stats(w.cb("Stats callback")) }},
	{"FloatVal.Stats", "", func(w *world) { w.s.FloatVal("fl").Stats(w.cb("Stats callback")) }},
	{"BoolVal.Stats", "", func(w *world) { w.s.BoolVal("b").Stats(w.cb("Stats callback")) }},
	{"StructVal.Stats", "", func(w *world) { w.s.StructVal("st").Stats(w.cb("Stats callback")) }},
	{"DurationVal.Stats", "", func(w *world) { w.s.DurationVal("d").Stats(w.cb("Stats callback")) }},
	{"Timer.Stats", "", func(w *world) { w.s.Timer("t").Stats(w.cb("Stats callback")) }},
	{"Collect", "", func(w *world) { monkit.Collect(w.r) }},
	{"WithTransformers.Stats", "", func(w *world) {
		w.r.WithTransformers(monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
			w.call("transformer")
			return func(k monkit.SeriesKey, f string, v float64) { w.call("transformed callback"); cb(k, f, v) }
		}), w.dt).Stats(w.cb("Stats callback"))
	}},
	{"DeltaTransformer", "", func(w *world) {
		cb := w.dt.Transform(w.cb("Stats callback"))
		cb(monkit.NewSeriesKey("z"), "total", 1)
		cb(monkit.NewSeriesKey("z"), "total", 2)
	}},
	{"Registry.Funcs", "", func(w *world) { w.r.Funcs(func(*monkit.Func) { w.call("Funcs callback") }) }},
	{"Scope.Funcs", "", func(w *world) { w.s.Funcs(func(*monkit.Func) { w.call("Funcs callback") }) }},
	{"Registry.Scopes", "", func(w *world) { w.r.Scopes(func(*monkit.Scope) { w.call("Scopes callback") }) }},
	{"RootSpans", "", func(w *world) { w.r.RootSpans(func(*monkit.Span) { w.call("RootSpans callback") }) }},
	{"AllSpans", "", func(w *world) { w.r.AllSpans(func(*monkit.Span) { w.call("AllSpans callback") }) }},
	{"Children", "", func(w *world) { w.span.Children(func(*monkit.Span) { w.call("Children callback") }) }},
	{"Parents", "", func(w *world) { w.f.Parents(func(*monkit.Func) { w.call("Parents callback") }) }},
	{"a new trace", "", func(w *world) {
		defer w.r.ObserveTraces(func(*monkit.Trace) { w.call("watcher") })()
		defer w.r.ObserveTraces(func(*monkit.Trace) { w.call("second watcher") })()
		ctx := context.Background()
		w.f.Task(&ctx)(nil)
	}},
	{"a reset trace", "", func(w *world) {
		defer w.r.ObserveTraces(func(*monkit.Trace) { w.call("watcher") })()
		w.f.ResetTrace(nil)(nil)
	}},
	{"a remote trace", "", func(w *world) {
		defer w.r.ObserveTraces(func(*monkit.Trace) { w.call("watcher") })()
		w.f.RemoteTrace(nil, 1, monkit.NewTrace(4))(nil)
	}},
	{"an observed span", "", func(w *world) {
		defer w.span.Trace().ObserveSpans(cbObs{w})()
		ctx := w.ctx
		w.f.Task(&ctx)(nil)
	}},
	{"a span with two observers", "", func(w *world) {
		defer w.span.Trace().ObserveSpansCtx(cbCtxObs{w})()
		defer w.span.Trace().ObserveSpans(cbObs{w})()
		ctx := w.ctx
		err := io.EOF
		w.f.Task(&ctx)(&err)
	}},
	{"the end of a span", "", func(w *world) {
		ctx := w.ctx
		exit := w.f.Task(&ctx)
		c := ctx
		w.f.Task(&c)
		defer w.span.Trace().ObserveSpansCtx(cbCtxObs{w})()
		exit(nil)
	}},
	{"an error naming itself", "", func(w *world) {
		ctx := w.ctx
		var err error = cbErr{w}
		w.f.Task(&ctx)(&err)
	}},
	{"an observed error naming itself", "", func(w *world) {
		var err error = cbErr{w}
		w.f.Observe()(&err)
	}},
	{"an error name handler", "", func(w *world) {
		c23handler = func() { w.call("error name handler") }
		defer func() { c23handler = nil }()
		err := io.EOF
		w.f.Observe()(&err)
	}},
}

var c23handler func()
var c23once sync.Once

func (w *world) cb(name string) func(monkit.SeriesKey, string, float64) {
	return func(monkit.SeriesKey, string, float64) { w.call(name) }
}

func callbacks(t *testing.T) {
	c23once.Do(func() {
		monkit.AddErrorNameHandler(func(error) (string, bool) {
			if f := c23handler; f != nil {
				f()
			}
			return "", false
		})
	})
	for _, u := range uses {
		u := u
		for _, boom := range []bool{false, true} {
			boom := boom
			what := u.name
			if boom {
				what += " with a callback that panics"
			}
			w := newWorld(t)
			w.what, w.boom = what, boom
			zz.Within(t, 20*time.Second, what, func() {
				func() {
					defer func() {
						if x := recover(); x != nil && (!boom || x != "boom") {
							panic(x)
						}
					}()
					u.run(w)
				}()
				if w.calls == 0 {
					t.Errorf("%s: no callback", what)
				}
				w.boom, w.depth = false, 1
				w.poke() // every lock is free again
				w.depth = 0
			})
			if zz.Rewritten && zz.Held() != 0 {
				t.Fatalf("%s: %d locks are still held", what, zz.Held())
			}
			zz.Case(t.Name(), fmt.Sprintf("%s: %v", what, w.log))
			if t.Failed() {
				return
			}
		}
	}
	// an operation that panics by itself leaves no lock behind
	w := newWorld(t)
	w.depth = 2
	for _, f := range []func(){
		func() { w.s.Counter("m") }, func() { w.s.Meter("c") }, func() { w.s.IntVal("c") }, func() { w.s.FloatVal("c") },
		func() { w.s.BoolVal("c") }, func() { w.s.StructVal("c") }, func() { w.s.DurationVal("c") }, func() { w.s.Timer("c") },
		func() { w.s.DiffMeter("c", nil, nil) }, func() { w.s.Gauge("c", nil) },
	} {
		if _, did := panics(f); !did {
			t.Errorf("no panic for a name of another kind")
		}
		zz.Within(t, 20*time.Second, "after a panic", w.poke)
	}
}

func TestC23_Callbacks(t *testing.T) { callbacks(t) }

// the same with the real locks
func TestC23_Callbacks_Plain(t *testing.T) { callbacks(t) }

// goroutines that use everything at once never wait for each other for good
func TestC23_Deadlocks_Plain(t *testing.T) {
	w := newWorld(t)
	w.depth, w.mute = 2, true
	zz.Within(t, 60*time.Second, "using everything from many goroutines", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			v := *w
			v.log = map[string]int{}
			wg.Add(1)
			go func(v *world) {
				defer wg.Done()
				for i := 0; i < zz.N(60); i++ {
					v.calls = i
					v.depth = 3
					v.poke()
					v.r.WithTransformers(v.dt).Stats(func(monkit.SeriesKey, string, float64) {})
					v.r.AllSpans(func(*monkit.Span) {})
				}
			}(&v)
		}
		wg.Wait()
	})
	zz.Case(t.Name(), "8 goroutines")
}

func TestC23_Schedules(t *testing.T) {
	// parents and children that end at the same time, observers and listings
	zz.Try(t, 400, func() ([]func(), func() error) {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		e1 := f.Task(&ctx)
		p := monkit.SpanFromCtx(ctx)
		c := ctx
		e2 := f.Task(&c)
		child := monkit.SpanFromCtx(c)
		return []func(){
			func() { e1(nil) },
			func() { child.Annotate("a", "b"); e2(nil) },
			func() {
				r.AllSpans(func(s *monkit.Span) {
					s.Annotations()
					s.Children(func(s *monkit.Span) { s.Orphaned() })
				})
			},
			func() { cancel := p.Trace().ObserveSpans(cbObs{&world{mute: true}}); cancel() },
			func() { r.Stats(func(monkit.SeriesKey, string, float64) { f.Errors() }) },
		}, func() error { return nil }
	})
}
