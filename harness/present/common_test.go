package present_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

func TestMain(m *testing.M) {
	code := m.Run()
	zz.Report()
	os.Exit(code)
}

func pass(d time.Duration) {
	if zz.Rewritten {
		zz.Set(zz.Now().Add(d))
	}
}

// world is a registry with funcs that have run and spans that are live.
type world struct {
	reg  *monkit.Registry
	live []*monkit.Span
	desc string
}

type named struct{ n string }

func (e named) Error() string        { return e.n }
func (e named) Name() (string, bool) { return e.n, true }

func newWorld(r *zz.Rng, str func() string) *world {
	w := &world{reg: monkit.NewRegistry()}
	var funcs []*monkit.Func
	for i := 1 + r.Intn(2); i > 0; i-- {
		s := w.reg.ScopeNamed(str())
		for k := 1 + r.Intn(2); k > 0; k-- {
			funcs = append(funcs, s.FuncNamed(str()))
		}
		if r.Bool() {
			s.Counter(str()).Inc(r.Small())
		}
		if r.Intn(3) == 0 {
			s.FloatVal(str(), monkit.NewSeriesTag(str(), str())).Observe(r.Float())
		}
		if r.Intn(4) == 0 {
			k, v := monkit.NewSeriesKey("odd").WithTag(str(), str()), zz.Floats[r.Intn(18)]
			s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				cb(k, "v", v)
			}))
		}
	}
	f := func() *monkit.Func { return funcs[r.Intn(len(funcs))] }
	args := func() (out []interface{}) {
		for n := r.Intn(3); n > 0; n-- {
			switch r.Intn(3) {
			case 0:
				out = append(out, str())
			case 1:
				out = append(out, r.Int())
			case 2:
				out = append(out, []byte(str()))
			}
		}
		return out
	}
	var ctxs []context.Context
	exits := map[*monkit.Span]func(*error){}
	for n := r.Intn(12); n > 0; n-- {
		pass(time.Duration(r.Intn(5)) * time.Second)
		switch {
		case len(ctxs) == 0 || r.Intn(6) == 0:
			ctx := context.Background()
			e := f().Task(&ctx, args()...)
			s := monkit.SpanFromCtx(ctx)
			exits[s] = e
			ctxs = append(ctxs, ctx)
			w.live = append(w.live, s)
		case r.Intn(3) > 0:
			ctx := ctxs[r.Intn(len(ctxs))]
			e := f().Task(&ctx, args()...)
			s := monkit.SpanFromCtx(ctx)
			exits[s] = e
			ctxs = append(ctxs, ctx)
			w.live = append(w.live, s)
			for k := r.Intn(3); k > 0; k-- {
				s.Annotate(str(), str())
			}
		case len(w.live) > 0:
			k := r.Intn(len(w.live))
			s := w.live[k]
			w.live = append(w.live[:k:k], w.live[k+1:]...)
			switch r.Intn(3) {
			case 0:
				exits[s](nil)
			case 1:
				var err error = named{str()}
				exits[s](&err)
			case 2:
				func() {
					defer func() { recover() }()
					defer exits[s](nil)
					panic("x")
				}()
			}
		}
	}
	pass(3 * time.Second)
	w.desc = fmt.Sprintf("%d funcs, %d live spans", len(funcs), len(w.live))
	return w
}

func (w *world) funcs() (out []*monkit.Func) {
	w.reg.Funcs(func(f *monkit.Func) { out = append(out, f) })
	return out
}

func sorted(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

// failing fails at its nth write, once; later writes would succeed.
type failing struct {
	n, writes int
	after     int
}

var errWrite = errors.New("no space")

func (f *failing) Write(p []byte) (int, error) {
	f.writes++
	if f.writes == f.n {
		return len(p) / 2, errWrite
	}
	if f.writes > f.n && f.n > 0 {
		f.after++
	}
	return len(p), nil
}

// collected makes a list of finished spans.
func collected(r *zz.Rng, str func() string) []*collect.FinishedSpan {
	reg := monkit.NewRegistry()
	s := reg.ScopeNamed(str())
	var spans []*collect.FinishedSpan
	obs := &finisher{}
	top := context.Background()
	tr := monkit.NewTrace(r.Int())
	tr.ObserveSpans(obs)
	pass(time.Second)
	var ex []func(*error)
	if r.Bool() {
		ex = append(ex, s.FuncNamed(str()).RemoteTrace(&top, r.Int(), tr))
	} else {
		ex = append(ex, s.FuncNamed(str()).RemoteTrace(&top, 0, tr))
	}
	ctxs := []context.Context{top}
	step := func() {
		if r.Intn(4) == 0 {
			return
		}
		pass(time.Duration(r.Intn(2000)) * time.Millisecond)
	}
	if r.Intn(6) == 0 {
		step = func() {}
	}
	for n := r.Intn(8); n > 0; n-- {
		step()
		ctx := ctxs[r.Intn(len(ctxs))]
		ex = append(ex, s.FuncNamed(str()).Task(&ctx, str(), r.Intn(5)))
		ctxs = append(ctxs, ctx)
		sp := monkit.SpanFromCtx(ctx)
		for k := r.Intn(2); k > 0; k-- {
			sp.Annotate(str(), str())
		}
		step()
	}
	for _, k := range r.Perm(len(ex)) {
		step()
		var err error
		switch r.Intn(5) {
		case 0:
			err = errors.New(str())
		case 1:
			err = context.Canceled
		case 2:
			err = wrapped{context.Canceled}
		case 3:
			func() {
				defer func() { recover() }()
				defer ex[k](nil)
				panic("x")
			}()
			continue
		}
		ex[k](&err)
	}
	spans = obs.spans
	// clocks step, and whoever collects spans fills in the end itself
	switch all := r.Intn(12); {
	case all == 0:
		for _, s := range spans {
			s.Finish = s.Span.Start().Add(-time.Duration(1+r.Intn(3000)) * time.Millisecond)
		}
	case all < 4:
		for _, s := range spans {
			if r.Intn(3) == 0 {
				s.Finish = s.Finish.Add(time.Duration(r.Intn(6000)-3000) * time.Millisecond)
			}
		}
	}
	return spans
}

type wrapped struct{ err error }

func (w wrapped) Error() string     { return "w" }
func (w wrapped) WrappedErr() error { return w.err }

type finisher struct {
	mu    sync.Mutex
	spans []*collect.FinishedSpan
}

func (f *finisher) Start(*monkit.Span) {}
func (f *finisher) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.spans = append(f.spans, &collect.FinishedSpan{Span: s, Err: err, Panicked: panicked, Finish: finish})
}

func export(t *testing.T, f func(io.Writer) error) string {
	var b strings.Builder
	if err := f(&b); err != nil {
		t.Fatalf("the export fails: %v", err)
	}
	return b.String()
}
