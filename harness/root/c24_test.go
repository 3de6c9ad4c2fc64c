package monkit_test

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

type quietObs struct{}

func (quietObs) Start(ctx context.Context, s *monkit.Span) context.Context { return ctx }
func (quietObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
}

// Every pair of operations runs at the same time, under the race detector.
func TestC24_Pairs_Race(t *testing.T) {
	r := monkit.NewRegistry()
	s := r.ScopeNamed("s")
	f := s.FuncNamed("f")
	nop := func(monkit.SeriesKey, string, float64) {}
	base := context.Background()
	f.Task(&base)
	span := monkit.SpanFromCtx(base)
	task := s.Task()
	key := monkit.NewSeriesKey("k").WithTag("a", "b")
	dt := monkit.NewDeltaTransformer()
	trace := span.Trace()
	rt := s.Timer("t").Start()
	src := monkit.TransformStatSource(s.Counter("c"), dt)
	ops := []struct {
		name string
		f    func(i int)
	}{
		{"Counter.Inc", func(int) { s.Counter("c").Inc(1) }},
		{"Counter.Dec", func(int) { s.Counter("c").Dec(1) }},
		{"Counter.Set", func(int) { s.Counter("c").Set(1) }},
		{"Counter.Reset", func(int) { s.Counter("c").Reset() }},
		{"Counter.read", func(int) { s.Counter("c").Current(); s.Counter("c").High(); s.Counter("c").Low() }},
		{"Counter.Stats", func(int) { s.Counter("c").Stats(nop) }},
		{"Meter.Mark", func(int) { s.Meter("m").Mark(1) }},
		{"Meter.Mark64", func(int) { s.Meter("m").Mark64(1) }},
		{"Meter.Reset", func(int) { s.Meter("m").Reset(1) }},
		{"Meter.SetTotal", func(int) { s.Meter("m").SetTotal(1) }},
		{"Meter.read", func(int) { s.Meter("m").Rate(); s.Meter("m").Total() }},
		{"Meter.Stats", func(int) { s.Meter("m").Stats(nop) }},
		{"NewMeter", func(int) { monkit.NewMeter(key) }},
		{"DiffMeter", func(int) { s.DiffMeter("dm", s.Meter("m"), s.Meter("m2")) }},
		{"IntVal.Observe", func(i int) { s.IntVal("i").Observe(int64(i)) }},
		{"IntVal.Quantile", func(int) { s.IntVal("i").Quantile(.3) }},
		{"IntVal.Stats", func(int) { s.IntVal("i").Stats(nop) }},
		{"FloatVal.Observe", func(i int) { s.FloatVal("fl").Observe(float64(i)) }},
		{"FloatVal.Quantile", func(int) { s.FloatVal("fl").Quantile(.3) }},
		{"FloatVal.Stats", func(int) { s.FloatVal("fl").Stats(nop) }},
		{"BoolVal.Observe", func(i int) { s.BoolVal("b").Observe(i%2 == 0) }},
		{"BoolVal.Stats", func(int) { s.BoolVal("b").Stats(nop) }},
		{"StructVal.Observe", func(i int) { s.StructVal("st").Observe(struct{ A int }{i}) }},
		{"StructVal.Stats", func(int) { s.StructVal("st").Stats(nop) }},
		{"DurationVal.Observe", func(i int) { s.DurationVal("d").Observe(time.Duration(i)) }},
		{"DurationVal.Quantile", func(int) { s.DurationVal("d").Quantile(.3) }},
		{"DurationVal.Stats", func(int) { s.DurationVal("d").Stats(nop) }},
		{"Timer", func(int) { s.Timer("t").Start().Stop() }},
		{"RunningTimer.Stop", func(int) { rt.Stop(); rt.Elapsed() }},
		{"Timer.Values", func(int) { s.Timer("t").Values().Query(.5) }},
		{"Timer.Stats", func(int) { s.Timer("t").Stats(nop) }},
		{"Event", func(int) { s.Event("m") }},
		{"Gauge", func(int) { s.Gauge("g", func() float64 { return 1 }) }},
		{"Chain", func(i int) {
			if i < 5 {
				s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {}))
			}
		}},
		{"new instrument", func(i int) { s.Counter(fmt.Sprint("c", i%7)).Inc(1) }},
		{"new func", func(i int) { s.FuncNamed(fmt.Sprint("f", i%7)) }},
		{"new scope", func(i int) { r.ScopeNamed(fmt.Sprint("s", i%7)).Counter("c").Inc(1) }},
		{"Registry.Stats", func(int) { r.Stats(nop) }},
		{"Registry.Stats transformed", func(int) { r.WithTransformers(dt).Stats(nop) }},
		{"TransformStatSource", func(int) { src.Stats(nop) }},
		{"Collect", func(int) { monkit.Collect(r) }},
		{"Funcs", func(int) { r.Funcs(func(f *monkit.Func) { f.Parents(func(*monkit.Func) {}); f.FullName(); f.Id() }) }},
		{"Scopes", func(int) { r.Scopes(func(*monkit.Scope) {}) }},
		{"AllSpans", func(int) {
			r.AllSpans(func(s *monkit.Span) {
				s.Annotations()
				s.Args()
				s.ParentId()
				s.Orphaned()
				s.Duration()
				s.Children(func(*monkit.Span) {})
				s.Trace().Spans()
			})
		}},
		{"RootSpans", func(int) { r.RootSpans(func(s *monkit.Span) { s.Start() }) }},
		{"Func.Task", func(i int) {
			ctx := base
			err := io.EOF
			e := f.Task(&ctx, i, "x")
			c := ctx
			e2 := s.FuncNamed("kid").Task(&c)
			if i%2 == 0 {
				e(&err)
				e2(nil)
			} else {
				e2(nil)
				e(nil)
			}
		}},
		{"Scope.Task", func(int) { ctx := base; task(&ctx)(nil) }},
		{"Task.Func", func(int) { panics(func() { task.Func().ShortName() }) }},
		{"Task without context", func(int) { f.Task(nil)(nil) }},
		{"Observe", func(int) { f.Observe()(nil) }},
		{"panic", func(int) { finish(f.Observe(), -1) }},
		{"ResetTrace", func(int) { f.ResetTrace(nil)(nil) }},
		{"RemoteTrace", func(int) { ctx := base; f.RemoteTrace(&ctx, 1, trace)(nil) }},
		{"FuncStats read", func(int) {
			f.Current()
			f.Highwater()
			f.Success()
			f.Panics()
			f.Errors()
			f.SuccessTimes().Query(.5)
			f.FailureTimes().Query(.5)
		}},
		{"Func.Stats", func(int) { f.Stats(nop) }},
		{"Func.Reset", func(int) { f.Reset() }},
		{"Annotate", func(int) { span.Annotate("a", "b") }},
		{"Annotations", func(int) { span.Annotations() }},
		{"Trace.Set", func(i int) { trace.Set(i%3, i) }},
		{"Trace.Get", func(i int) { trace.Get(i % 3); trace.Spans() }},
		{"Trace.GetAll", func(int) { trace.GetAll() }},
		{"ObserveSpans", func(int) { trace.ObserveSpansCtx(quietObs{})() }},
		{"two observers", func(int) {
			a, b := trace.ObserveSpansCtx(quietObs{}), trace.ObserveSpansCtx(quietObs{})
			a()
			b()
		}},
		{"ObserveTraces", func(int) { r.ObserveTraces(func(*monkit.Trace) {})() }},
		{"DeltaTransformer", func(i int) { dt.Transform(nop)(key, "total", float64(i)) }},
		{"SeriesKey.String", func(int) { _ = key.String(); _ = key.WithField("x"); _ = key.Tags.String() }},
		{"SeriesKey.WithTag", func(int) { _ = key.WithTag("a", "c").String(); key.Tags.Get("a"); key.Tags.Len() }},
		{"AddErrorNameHandler", func(i int) {
			if i == 0 {
				monkit.AddErrorNameHandler(func(error) (string, bool) { return "", false })
			}
		}},
		{"NewId", func(int) { monkit.NewId() }},
	}
	round := func(a, b int, n int) {
		var wg sync.WaitGroup
		for _, k := range []int{a, b} {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					ops[k].f(i)
				}
			}()
		}
		wg.Wait()
	}
	for a := range ops {
		for b := a; b < len(ops); b++ {
			// fresh objects now and then, for what happens only once
			round(a, b, 4)
			zz.Case(t.Name(), ops[a].name+" | "+ops[b].name)
			if t.Failed() {
				return
			}
		}
	}
}

// First uses of fresh objects race most easily.
func TestC24_Fresh_Race(t *testing.T) {
	for i := 0; i < zz.N(150); i++ {
		r := monkit.NewRegistry()
		key := monkit.NewSeriesKey("k").WithTag("a", "b").WithTag("c", "d")
		task := r.ScopeNamed("s").Task()
		tr := monkit.NewTrace(1)
		dt := monkit.NewDeltaTransformer()
		fs := monkit.NewFuncStats(key)
		set := monkit.NewSeriesKey("x").WithTags(monkit.NewSeriesTag("q", "r")).Tags
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		exit := f.Task(&ctx)
		span := monkit.SpanFromCtx(ctx)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_ = set.String()
				_ = key.String()
				c := context.Background()
				task(&c)(nil)
				task.Func()
				tr.Set(g, g)
				tr.GetAll()
				dt.Transform(func(monkit.SeriesKey, string, float64) {})(key, "total", 1)
				fs.Observe()(nil)
				fs.Stats(func(monkit.SeriesKey, string, float64) {})
				cc := ctx
				e := f.Task(&cc)
				if g == 0 {
					exit(nil)
				}
				span.Annotate("a", "b")
				e(nil)
				span.Children(func(*monkit.Span) {})
				r.ScopeNamed("s").Counter("c").Inc(1)
				r.ScopeNamed("s").Meter("m").Mark(1)
				r.ScopeNamed("t").IntVal("c").Observe(1)
				f.Parents(func(*monkit.Func) {})
			}()
		}
		close(start)
		wg.Wait()
		zz.Case(t.Name(), fmt.Sprint("round ", i))
		if t.Failed() {
			return
		}
	}
}
