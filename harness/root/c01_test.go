package monkit_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

type namedErr struct{ name string }

func (n *namedErr) Error() string        { return "named " + n.name }
func (n *namedErr) Name() (string, bool) { return n.name, n.name != "" }

// callErrs are errors with the names they are counted under.
var callErrs = []struct {
	err  error
	name string
}{
	{errors.New("plain"), "System Error"}, {io.EOF, "EOF"}, {&namedErr{"A"}, "A"}, {&namedErr{"B b,=\"\\"}, "B b,=\"\\"},
	{context.Canceled, "Canceled"}, {&namedErr{""}, "System Error"}, {(*namedErr2)(nil), "nil2"},
}

type namedErr2 struct{}

func (n *namedErr2) Error() string        { return "nil named" }
func (n *namedErr2) Name() (string, bool) { return "nil2", true }

// finish ends a call: how is -2 success, -3 success with a nil error pointer,
// -1 panic, otherwise an error of callErrs, plus 100 for a panic on top.
func finish(exit func(*error), how int) (rec interface{}, did bool, err error) {
	if how >= 0 {
		err = callErrs[how%100].err
	}
	ptr := &err
	if how == -3 {
		ptr = nil
	}
	rec, did = panics(func() {
		defer exit(ptr)
		if how == -1 || how >= 100 {
			panic(how)
		}
	})
	return
}

type refFunc struct {
	current, high, panics int64
	errs                  map[string]int64
	succ, fail            refDist
}

func (r *refFunc) start() {
	r.current++
	if r.current > r.high {
		r.high = r.current
	}
}
func (r *refFunc) end(how int, d time.Duration) {
	r.current--
	switch {
	case how == -1 || how >= 100:
		r.panics++
		r.fail.insert(d.Seconds())
	case how < 0:
		r.succ.insert(d.Seconds())
	default:
		r.errs[callErrs[how].name]++
		r.fail.insert(d.Seconds())
	}
}

func (r *refFunc) check(f *monkit.FuncStats) error {
	if f.Current() != r.current || f.Highwater() != r.high || f.Success() != int64(r.succ.count) || f.Panics() != r.panics {
		return fmt.Errorf("current %d highwater %d successes %d panics %d, want %d %d %d %d",
			f.Current(), f.Highwater(), f.Success(), f.Panics(), r.current, r.high, int64(r.succ.count), r.panics)
	}
	if g, w := show(f.Errors()), show(r.errs); g != w {
		return fmt.Errorf("errors %s, want %s", g, w)
	}
	f.Errors()["made up"] = 5 // a copy
	for i, d := range []*monkit.DurationDist{f.SuccessTimes(), f.FailureTimes()} {
		ref := []*refDist{&r.succ, &r.fail}[i]
		if d.Count != int64(ref.count) {
			return fmt.Errorf("times %d count %d, want %d", i, d.Count, int64(ref.count))
		}
		if zz.Rewritten && d.Count > 0 && (absf(d.Sum.Seconds()-ref.sum) > 1e-6 || absf(d.Low.Seconds()-ref.low) > 1e-6 ||
			absf(d.High.Seconds()-ref.high) > 1e-6 || absf(d.Recent.Seconds()-ref.recent) > 1e-6) {
			return fmt.Errorf("times %d %+v, want %s", i, d, ref)
		}
		d.Insert(time.Hour)
	}
	var nerr int64
	got := map[string]float64{}
	seen := map[string]int64{}
	for _, s := range publish(f) {
		if s.field == "count" && !contains(s.key, "_times") {
			for n := range r.errs {
				if contains(s.key, fmt.Sprintf("%q=%q", "error_name", n)) {
					seen[n] += int64(s.val)
				}
			}
			continue
		}
		if contains(s.key, "_times") {
			for _, k := range []string{"success", "failure"} {
				if contains(s.key, fmt.Sprintf("%q=%q", "kind", k)) {
					got[k+s.field] = s.val
				}
			}
			continue
		}
		if _, twice := got[s.field]; twice {
			return fmt.Errorf("%s published twice", s.field)
		}
		got[s.field] = s.val
	}
	for n, c := range r.errs {
		nerr += c
		if seen[n] != c {
			return fmt.Errorf("error %q published with count %d, want %d", n, seen[n], c)
		}
	}
	want := map[string]float64{"current": float64(r.current), "highwater": float64(r.high), "successes": r.succ.count,
		"errors": float64(nerr), "panics": float64(r.panics), "failures": float64(nerr + r.panics), "total": r.succ.count + float64(nerr+r.panics),
		"successcount": r.succ.count, "failurecount": r.fail.count}
	for k, w := range want {
		if g, ok := got[k]; !ok || g != w {
			return fmt.Errorf("%s published as %v, want %v", k, g, w)
		}
	}
	return nil
}

// starter is one of the ways to enter a monitored call.
func starter(kind int, f *monkit.Func) func() func(*error) {
	ctx := context.Background()
	switch kind {
	case 0:
		return func() func(*error) { return f.Observe() }
	case 1:
		return func() func(*error) { return f.Task(&ctx) }
	case 2:
		return func() func(*error) { return f.Task(nil, 1, "x") }
	case 3:
		return func() func(*error) { return f.ResetTrace(&ctx) }
	case 4:
		return func() func(*error) { return f.RemoteTrace(&ctx, 5, monkit.NewTrace(monkit.NewId())) }
	}
	return func() func(*error) { var c context.Context; return f.Scope().TaskNamed(f.ShortName())(&c) }
}

func TestC01_Sequences(t *testing.T) {
	rng := zz.NewRng(1)
	for i := 0; i < zz.N(500); i++ {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ref := &refFunc{errs: map[string]int64{}}
		type open struct {
			exit  func(*error)
			start time.Time
		}
		var live []open
		desc := ""
		for n := 0; n < 14; n++ {
			switch k := rng.Intn(8); {
			case k < 3:
				kind := rng.Intn(6)
				desc += fmt.Sprintf("start%d ", kind)
				live = append(live, open{starter(kind, f)(), zz.Now()})
				ref.start()
			case k < 4:
				d := time.Duration(rng.Intn(1000)) * time.Millisecond
				zz.Set(zz.Now().Add(d))
				desc += d.String() + " "
			case k < 7 && len(live) > 0:
				j := rng.Intn(len(live))
				how := rng.Intn(len(callErrs)+3) - 3
				if how >= 0 && rng.Intn(4) == 0 {
					how += 100
				}
				desc += fmt.Sprintf("end#%d(%d) ", j, how)
				_, did, _ := finish(live[j].exit, how)
				if did != (how == -1 || how >= 100) {
					t.Fatalf("%s: panicked %v", desc, did)
				}
				ref.end(how, zz.Now().Sub(live[j].start))
				live = append(live[:j:j], live[j+1:]...)
			case len(live) == 0 && rng.Intn(3) == 0:
				desc += "reset "
				f.Reset()
				*ref = refFunc{errs: map[string]int64{}}
			}
			if err := ref.check(&f.FuncStats); err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC01_Schedules(t *testing.T) {
	// calls that overlap: none is lost, whatever the schedule
	for v := 0; v < 3; v++ {
		v := v
		zz.Try(t, 400, func() ([]func(), func() error) {
			f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
			g := f.Scope().FuncNamed("g")
			ends := [][]int{{-2, 0}, {0, -1}, {2, -2}}
			var bad error
			fs := []func(){}
			for i := range ends {
				i := i
				fs = append(fs, func() {
					ctx := context.Background()
					for _, how := range ends[i] {
						var exit func(*error)
						switch v {
						case 0:
							exit = f.Observe()
						case 1:
							c := ctx
							exit = f.Task(&c)
						default:
							c := ctx
							e := g.Task(&c)
							defer e(nil)
							exit = f.Task(&c)
						}
						if f.Current() < 1 {
							bad = fmt.Errorf("current %d while a call is running", f.Current())
						}
						finish(exit, how)
					}
				})
			}
			fs = append(fs, func() {
				st := map[string]float64{}
				for _, s := range publish(f) {
					if !contains(s.key, "_times") && s.field != "count" {
						st[s.field] = s.val
					}
				}
				if st["total"] != st["successes"]+st["errors"]+st["panics"] || st["failures"] != st["errors"]+st["panics"] || st["total"] > 6 {
					bad = fmt.Errorf("published in between: %v", st)
				}
			})
			return fs, func() error {
				if bad != nil {
					return bad
				}
				if f.Current() != 0 || f.Highwater() < 1 || f.Highwater() > 3 || f.Success() != 2 || f.Panics() != 1 {
					return fmt.Errorf("current %d highwater %d successes %d panics %d", f.Current(), f.Highwater(), f.Success(), f.Panics())
				}
				if g, w := show(f.Errors()), show(map[string]int64{"System Error": 2, "A": 1}); g != w {
					return fmt.Errorf("errors %s, want %s", g, w)
				}
				if a, b := f.SuccessTimes().Count, f.FailureTimes().Count; a != 2 || b != 4 {
					return fmt.Errorf("%d success times and %d failure times", a, b)
				}
				return nil
			}
		})
	}
	// calls that only start: all in flight at once
	zz.Try(t, 400, func() ([]func(), func() error) {
		f := monkit.NewFuncStats(monkit.NewSeriesKey("x"))
		var hw []int64
		start := func() { f.Observe(); hw = append(hw, f.Highwater()) }
		return []func(){start, start, start}, func() error {
			if f.Current() != 3 || f.Highwater() != 3 {
				return fmt.Errorf("3 calls in flight: current %d, highwater %d", f.Current(), f.Highwater())
			}
			return nil
		}
	})
	// the high-water mark never falls
	zz.Try(t, 400, func() ([]func(), func() error) {
		f := monkit.NewFuncStats(monkit.NewSeriesKey("x"))
		a := f.Observe()
		var bad error
		look := func() func() {
			var last int64
			return func() {
				if h := f.Highwater(); h < last {
					bad = fmt.Errorf("highwater fell from %d to %d", last, h)
				} else {
					last = h
				}
			}
		}
		l := look()
		return []func(){
			func() { f.Observe()(nil); a(nil) },
			func() { f.Observe(); l() },
			func() { l(); l(); l() }}, func() error {
			if f.Highwater() < 2 || f.Highwater() > 3 || f.Current() != 1 {
				return fmt.Errorf("highwater %d, current %d", f.Highwater(), f.Current())
			}
			return bad
		}
	})
}

type ctxK string

type spanLog struct{ add string }

func (l *spanLog) Start(ctx context.Context, s *monkit.Span) context.Context {
	if l.add == "" {
		return ctx
	}
	return context.WithValue(ctx, ctxK(l.add), l.add)
}
func (l *spanLog) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
}

func TestC02_Outcome(t *testing.T) {
	rng := zz.NewRng(2)
	type odd struct{ a, b int }
	ptr := &odd{1, 2}
	vals := []interface{}{"text", 5, errors.New("e"), ptr, odd{3, 4}, io.EOF, context.Canceled, (*odd)(nil), 0, ""}
	for i := 0; i < zz.N(1500); i++ {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		if rng.Intn(3) == 0 {
			defer r.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(&spanLog{}) })()
		}
		kind := rng.Intn(6)
		start := starter(kind, f)
		depth := 1 + rng.Intn(3)
		mode := rng.Intn(3) // returns, panics, panics with the error set
		val := vals[rng.Intn(len(vals))]
		var want error
		if mode != 1 && rng.Intn(3) > 0 {
			want = callErrs[rng.Intn(len(callErrs))].err
		}
		nilptr := rng.Intn(4) == 0
		desc := fmt.Sprintf("kind %d depth %d mode %d value %#v error %v nil pointer %v", kind, depth, mode, val, want, nilptr)
		var after error
		var run func(d int) (err error)
		run = func(d int) (err error) {
			defer func() {
				if d == depth {
					after = err
				}
			}()
			exit := start()
			if nilptr {
				defer exit(nil)
			} else {
				defer exit(&err)
			}
			if d > 1 {
				return run(d - 1)
			}
			err = want
			if mode > 0 {
				panic(val)
			}
			return err
		}
		var got error
		rec, did := panics(func() { got = run(depth) })
		if did != (mode > 0) || (did && rec != val) {
			t.Fatalf("%s: panicked %v with %#v", desc, did, rec)
		}
		if mode == 0 && (got != want || after != want) {
			t.Fatalf("%s: returned %v and left %v", desc, got, after)
		}
		if mode > 0 && depth == 1 && after != want {
			t.Fatalf("%s: error became %v", desc, after)
		}
		zz.Case(t.Name(), desc)
	}
	// a run-time error stays one
	rec, did := panics(func() {
		defer monkit.NewFuncStats(monkit.NewSeriesKey("x")).Observe()(nil)
		var m map[string]int
		m["a"] = 1
	})
	if _, ok := rec.(interface{ RuntimeError() }); !did || !ok {
		t.Fatalf("nil map write panicked with %#v", rec)
	}
}

func TestC02_Context(t *testing.T) {
	rng := zz.NewRng(3)
	for i := 0; i < zz.N(600); i++ {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		g := r.ScopeNamed("s").FuncNamed("g")
		if rng.Intn(3) == 0 {
			defer r.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(&spanLog{add: "obs"}) })()
		}
		desc := ""
		base := context.Background()
		var cancels []context.CancelFunc
		vals := map[string]int{}
		for n := rng.Intn(5); n >= 0; n-- {
			switch rng.Intn(5) {
			case 0:
				k := fmt.Sprint(rng.Intn(3))
				vals[k] = rng.Intn(100)
				base = context.WithValue(base, ctxK(k), vals[k])
				desc += "value "
			case 1:
				c, cancel := context.WithCancel(base)
				base, cancels = c, append(cancels, cancel)
				desc += "cancel "
			case 2:
				c, cancel := context.WithDeadline(base, time.Now().Add(time.Hour))
				base, cancels = c, append(cancels, cancel)
				desc += "deadline "
			case 3:
				defer g.Task(&base)(nil)
				desc += "span "
			default:
				base = monkit.ResetContextSpan(base)
				desc += "reset "
			}
		}
		ctx := base
		kind := 1 + rng.Intn(4)
		var exit func(*error)
		switch kind {
		case 1:
			exit = f.Task(&ctx)
		case 2:
			exit = f.Scope().TaskNamed("h")(&ctx)
		case 3:
			exit = f.ResetTrace(&ctx)
		default:
			exit = f.RemoteTrace(&ctx, 5, monkit.NewTrace(5))
		}
		desc += fmt.Sprintf("-> kind %d", kind)
		if ctx == nil || monkit.SpanFromCtx(ctx) == nil {
			t.Fatalf("%s: no span in the context", desc)
		}
		for k, v := range vals {
			if ctx.Value(ctxK(k)) != v {
				t.Fatalf("%s: value %s is %v, want %v", desc, k, ctx.Value(ctxK(k)), v)
			}
		}
		if ctx.Value(ctxK("absent")) != nil {
			t.Fatalf("%s: a value appeared", desc)
		}
		d1, ok1 := base.Deadline()
		d2, ok2 := ctx.Deadline()
		if d1 != d2 || ok1 != ok2 {
			t.Fatalf("%s: deadline %v %v, want %v %v", desc, d2, ok2, d1, ok1)
		}
		if ctx.Done() != base.Done() || ctx.Err() != base.Err() {
			t.Fatalf("%s: cancellation differs", desc)
		}
		for _, c := range cancels {
			c()
		}
		if ctx.Err() != base.Err() {
			t.Fatalf("%s: after cancelling %v, want %v", desc, ctx.Err(), base.Err())
		}
		exit(nil)
		zz.Case(t.Name(), desc)
	}
	// no context pointer, nil context
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	for kind := 0; kind < 4; kind++ {
		for n := 0; n < 2; n++ {
			var c context.Context
			p := &c
			if n == 0 {
				p = nil
			}
			start := []func() func(*error){
				func() func(*error) { return f.Task(p) },
				func() func(*error) { return f.ResetTrace(p) },
				func() func(*error) { return f.RemoteTrace(p, 1, monkit.NewTrace(1)) },
				func() func(*error) { return f.Scope().Task()(p) }}[kind]
			if rec, did := panics(func() { defer start()(nil) }); did {
				t.Fatalf("kind %d with no context (%v): panic %v", kind, n, rec)
			}
			if n == 1 && (c == nil || monkit.SpanFromCtx(c) == nil) {
				t.Fatalf("kind %d: nil context not replaced", kind)
			}
		}
	}
	if monkit.SpanFromCtx(context.Background()) != nil {
		t.Fatalf("the background context carries a span")
	}
}
