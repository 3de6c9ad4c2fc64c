package present_test

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
	"github.com/spacemonkeygo/monkit/v3/present"
)

const (
	plainType = "text/plain; charset=utf-8"
	jsonType  = "application/json; charset=utf-8"
	svgType   = "image/svg+xml; charset=utf-8"
)

type route struct {
	path, ctype string
	direct      func(*monkit.Registry, io.Writer) error
}

var routes = []route{
	{"ps", plainType, present.SpansText},
	{"ps/text", plainType, present.SpansText},
	{"ps/dot", plainType, present.SpansDot},
	{"ps/json", jsonType, present.SpansJSON},
	{"funcs", plainType, present.FuncsText},
	{"funcs/text", plainType, present.FuncsText},
	{"funcs/dot", plainType, present.FuncsDot},
	{"funcs/json", jsonType, present.FuncsJSON},
	{"stats", plainType, present.StatsText},
	{"stats/text", plainType, present.StatsText},
	{"stats/json", jsonType, present.StatsJSON},
}

func serve(reg *monkit.Registry, path string, q url.Values) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	present.HTTP(reg).ServeHTTP(w, &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: q.Encode()}})
	return w
}

// bag is a text whatever the order of its lines and list items.
func bag(s string) string {
	return strings.Join(sorted(strings.FieldsFunc(s, func(c rune) bool { return c == '\n' || c == ',' || c == ' ' || c == '[' || c == ']' })), " ")
}

func slashes(r *zz.Rng, p string) string {
	s := strings.Repeat("/", r.Intn(4))
	for _, c := range strings.Split(p, "/") {
		s += c + strings.Repeat("/", 1+r.Intn(3))
	}
	if r.Bool() {
		s = strings.TrimRight(s, "/")
	}
	return s
}

func TestC27_Routes(t *testing.T) {
	for i := 0; i < zz.N(60); i++ {
		r := zz.NewRng(uint64(i))
		w := newWorld(r, clean(r))
		for _, ro := range routes {
			for _, p := range []string{"/" + ro.path, ro.path, slashes(r, ro.path)} {
				want := bag(export(t, func(o io.Writer) error { return ro.direct(w.reg, o) }))
				q := url.Values{}
				if r.Intn(3) == 0 {
					q.Set("regex", "(")
				}
				res := serve(w.reg, p, q)
				if res.Code != 200 || res.Header().Get("Content-Type") != ro.ctype {
					t.Fatalf("%s: status %d, type %s", p, res.Code, res.Header().Get("Content-Type"))
				}
				if got := bag(res.Body.String()); zz.Rewritten && got != want {
					t.Fatalf("%s gives\n%s\nnot\n%s", p, got, want)
				}
				zz.Case(t.Name(), p)
			}
		}
		for _, p := range []string{"", "/", "//"} {
			res := serve(w.reg, p, nil)
			if res.Code != 200 || !strings.HasPrefix(res.Header().Get("Content-Type"), "text/html") || !strings.Contains(res.Body.String(), "<html") {
				t.Fatalf("index: %d %s", res.Code, res.Body.String())
			}
		}
	}
}

func TestC27_Rejected(t *testing.T) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	f.Task(nil)(nil)
	q := func(kv ...string) url.Values {
		v := url.Values{}
		for i := 0; i < len(kv); i += 2 {
			v.Set(kv[i], kv[i+1])
		}
		return v
	}
	for _, c := range []struct {
		path string
		q    url.Values
		code int
	}{
		{"/nope", nil, 404}, {"/ps/nope", nil, 404}, {"/funcs/svg", nil, 404}, {"/stats/svg", nil, 404}, {"/stats/dot", nil, 404},
		{"/PS", nil, 404}, {"/ps2", nil, 404}, {"/ ps", nil, 404}, {"/trac", nil, 404}, {"/json", nil, 404},
		{"/trace/svg", nil, 400}, {"/trace/json", nil, 400}, {"/trace/remote", nil, 400}, {"/trace/json", q("viz", "x"), 400},
		{"/trace/svg", q("regex", "("), 400}, {"/trace/json", q("regex", "["), 400}, {"/trace/json", q("regex", "f", "preselect", "maybe"), 400},
		{"/trace/json", q("regex", "matchesnothing"), 400}, {"/trace/remote", q("regex", "matchesnothing", "preselect", "true"), 400},
		{"/trace/json", q("trace_id", "xyz"), 400}, {"/trace/json", q("trace_id", "-1"), 400}, {"/trace/svg", q("trace_id", "10000000000000000"), 400},
		{"/trace/json", q("regex", "f", "trace_id", "0x1"), 400}, {"/trace/nope", q("trace_id", "1"), 404}, {"/trace", q("regex", "f"), 404},
		{"/trace/nope", q("regex", "f", "preselect", "false"), 404},
	} {
		res := serve(reg, c.path, c.q)
		if res.Code != c.code {
			t.Errorf("%s?%s: status %d, not %d", c.path, c.q.Encode(), res.Code, c.code)
		}
		if f, ct, err := present.FromRequest(reg, c.path, c.q); err == nil || f != nil || ct != "" {
			t.Errorf("%s?%s: no error", c.path, c.q.Encode())
		}
		zz.Case(t.Name(), c.path+"?"+c.q.Encode())
	}
	known := map[string]bool{"": true}
	for _, ro := range routes {
		known[ro.path] = true
	}
	for i := 0; i < zz.N(3000); i++ {
		r := zz.NewRng(uint64(i))
		word := func() string {
			return []string{"ps", "funcs", "stats", "trace", "text", "dot", "json", "svg", "", "/", "//", r.Str(true), r.Str(true)}[r.Intn(13)]
		}
		p := "/" + word() + "/" + word()
		if r.Bool() {
			p += "/" + word()
		}
		v := url.Values{}
		for n := r.Intn(3); n > 0; n-- {
			v.Add([]string{"regex", "trace_id", "preselect", "viz"}[r.Intn(4)], []string{"(", "zz", "", "-", r.Str(true)}[r.Intn(5)])
		}
		_, _, err := present.FromRequest(reg, p, v) // never a panic
		parts := []string{"", ""}
		for k, s := range strings.FieldsFunc(p, func(c rune) bool { return c == '/' }) {
			if k < 2 {
				parts[k] = s
			}
		}
		if parts[0] == "trace" {
			continue
		}
		if ok := known[strings.Trim(strings.Join(parts, "/"), "/")] || parts[0] == "" || strings.Join(parts, "/") == "stats/old"; ok != (err == nil) {
			t.Fatalf("%q: %v", p, err)
		}
		if err != nil {
			if res := serve(reg, p, v); res.Code != 404 {
				t.Fatalf("%q: status %d", p, res.Code)
			}
		}
		zz.Case(t.Name(), p)
	}
}

// sink is a writer used by several goroutines.
type sink struct {
	mu      sync.Mutex
	writes  []string
	fail    error
	boom    bool
	onWrite func(string)
	flushes int
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.writes = append(s.writes, string(p))
	fail, boom, f := s.fail, s.boom, s.onWrite
	s.mu.Unlock()
	if f != nil {
		f(string(p))
	}
	if boom {
		panic(errBoom)
	}
	if fail != nil {
		return 0, fail
	}
	return len(p), nil
}

var errBoom = errors.New("boom")

func (s *sink) text() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Join(s.writes, "")
}

func (s *sink) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.writes)
}

type shape struct {
	root, child *monkit.Span
	trace       *monkit.Trace
}

func run(f, g *monkit.Func, tr *monkit.Trace) shape {
	ctx := context.Background()
	exit := f.RemoteTrace(&ctx, 12345, tr)
	s := shape{root: monkit.SpanFromCtx(ctx), trace: tr}
	c := ctx
	e := g.Task(&c)
	s.child = monkit.SpanFromCtx(c)
	e(nil)
	exit(nil)
	return s
}

func TestC27_Trace(t *testing.T) {
	for i := 0; i < zz.N(60); i++ {
		r := zz.NewRng(uint64(i))
		reg := monkit.NewRegistry()
		s := reg.ScopeNamed("pkg")
		f, g, other := s.FuncNamed("Target"), s.FuncNamed("child"), s.FuncNamed("other")
		run(other, g, monkit.NewTrace(1))
		kind := []string{"json", "svg", "remote"}[i%3]
		v := url.Values{}
		traceID := r.Int()
		mode := r.Intn(4)
		if mode != 0 {
			v.Set("regex", []string{"Target", `^pkg\.Target$`, "(?i)target"}[r.Intn(3)])
		}
		if mode == 1 {
			v.Set("preselect", []string{"false", "0", "F"}[r.Intn(3)])
		}
		if mode == 0 || mode == 3 {
			v.Set("trace_id", fmt.Sprintf("%x", uint64(traceID)))
		}
		if kind == "remote" && r.Bool() {
			v.Set("viz", []string{"localhost:1?x=y", "http://h/p", "https://h/?q=\"<>"}[r.Intn(3)])
		}
		live := run(other, g, monkit.NewTrace(monkit.NewId())) // no match
		p, ctype, err := present.FromRequest(reg, "/trace/"+kind, v)
		if err != nil {
			t.Fatalf("%s: %v", v.Encode(), err)
		}
		want := map[string]string{"json": jsonType, "svg": svgType, "remote": jsonType}[kind]
		if v.Get("viz") != "" {
			want = "text/html; charset=utf-8"
		}
		if ctype != want {
			t.Fatalf("type %s, not %s", ctype, want)
		}
		w := &sink{}
		done := make(chan error, 1)
		go func() { done <- p(w) }()
		var all []shape
		deadline := time.Now().Add(20 * time.Second)
		for {
			// spans that do not match: another function, another trace
			all = append(all, run(other, g, monkit.NewTrace(monkit.NewId())))
			if mode == 3 {
				all = append(all, run(f, g, monkit.NewTrace(traceID^1)))
				all = append(all, run(other, g, monkit.NewTrace(traceID)))
			}
			if len(all) < 30 {
				select {
				case err := <-done:
					t.Fatalf("%s?%s: ended without a match: %v\n%s", kind, v.Encode(), err, w.text())
				default:
				}
				time.Sleep(50 * time.Microsecond)
				continue
			}
			n := run(f, g, monkit.NewTrace(traceID))
			all = append(all, n)
			time.Sleep(200 * time.Microsecond)
			select {
			case err = <-done:
				done = nil
			default:
			}
			if done == nil {
				break
			}
			if time.Now().After(deadline) {
				t.Fatalf("%s?%s: never answered", kind, v.Encode())
			}
		}
		if err != nil {
			t.Fatal(err)
		}
		_ = live
		text := strings.TrimLeft(w.text(), "\n")
		check := func(root, child string) {
			for _, n := range all {
				if fmt.Sprint(n.root.Id()) == root {
					if n.root.Func() != f {
						t.Fatalf("%s?%s: answered with a span of %s", kind, v.Encode(), n.root.Func().FullName())
					}
					if v.Get("trace_id") != "" && n.trace.Id() != traceID {
						t.Fatalf("answered with trace %d, not %d", n.trace.Id(), traceID)
					}
					if child != fmt.Sprint(n.child.Id()) {
						t.Fatalf("child %s, not %d", child, n.child.Id())
					}
					return
				}
			}
			t.Fatalf("answered with an unknown span %s\n%s", root, text)
		}
		// with only a trace id the first span that matches may be the child,
		// when watching began in between
		switch kind {
		case "json":
			l := list(t, text)
			if len(l) == 1 && mode == 0 {
				break
			}
			if len(l) != 2 {
				t.Fatalf("%s: %d spans\n%s", v.Encode(), len(l), text)
			}
			if sval(l[1]["parent_id"]) != sval(l[0]["id"]) {
				l[0], l[1] = l[1], l[0]
			}
			check(sval(l[0]["id"]), sval(l[1]["id"]))
		case "svg":
			bars, _, err := parseSVG(text)
			if err != nil {
				t.Fatalf("%v\n%s", err, text)
			}
			if len(bars) == 1 && mode == 0 {
				break
			}
			if len(bars) != 2 {
				t.Fatalf("%d bars", len(bars))
			}
			for _, n := range all {
				if bars[fmt.Sprint(n.root.Id())] != nil {
					if bars[fmt.Sprint(n.child.Id())] == nil {
						t.Fatalf("the child has no bar")
					}
					check(fmt.Sprint(n.root.Id()), fmt.Sprint(n.child.Id()))
				}
			}
		case "remote":
			sampled := 0
			for _, n := range all {
				if b, _ := n.trace.Get(present.SampledKey).(bool); b {
					sampled++
					if v.Get("trace_id") != "" && n.trace.Id() != traceID {
						t.Fatalf("trace %d is sampled, not %d", n.trace.Id(), traceID)
					}
					if !strings.Contains(text, fmt.Sprint(n.trace.Id())) {
						t.Fatalf("the answer does not name trace %d\n%s", n.trace.Id(), text)
					}
				}
			}
			if sampled != 1 {
				t.Fatalf("%d traces are sampled", sampled)
			}
			if v.Get("viz") == "" {
				var x struct {
					ID *int64 `json:"trace_id"`
				}
				if err := json.Unmarshal([]byte(text), &x); err != nil || x.ID == nil {
					t.Fatalf("%v\n%s", err, text)
				}
			} else if strings.Contains(text, "\"<>") {
				t.Fatalf("not escaped\n%s", text)
			}
		}
		zz.Case(t.Name(), kind+"?"+v.Encode())
	}
}

// waiting requests, with and without the endpoint's buffering
func waiting(t *testing.T, reg *monkit.Registry, kind string, direct bool) func(io.Writer) error {
	if direct {
		match := func(s *monkit.Span) bool { return s.Func().ShortName() == "Target" }
		if kind == "svg" {
			return func(w io.Writer) error { return present.TraceQuerySVG(reg, w, match) }
		}
		return func(w io.Writer) error { return present.TraceQueryJSON(reg, w, match) }
	}
	p, _, err := present.FromRequest(reg, "/trace/"+kind, url.Values{"regex": {"Target"}})
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func TestC27_KeepAlive(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the clock")
	}
	for i := 0; i < zz.N(24); i++ {
		reg := monkit.NewRegistry()
		s := reg.ScopeNamed("pkg")
		f, g := s.FuncNamed("Target"), s.FuncNamed("child")
		kind := []string{"json", "svg", "remote"}[i%3]
		direct := kind != "remote" && i%2 == 0
		p := waiting(t, reg, kind, direct)
		w := &sink{}
		what := fmt.Sprintf("%s direct=%v", kind, direct)
		done := make(chan error, 1)
		go func() { done <- p(w) }()
		for k := 1; k < 4; k++ {
			if !zz.Eventually(func() bool { zz.Advance(31 * time.Second); return w.count() >= k }) {
				t.Fatalf("%s: no keep-alive is sent while waiting", what)
			}
		}
		if strings.Trim(w.text(), "\n") != "" {
			t.Fatalf("%s: the keep-alive is %q", what, w.text())
		}
		n := w.count()
		zz.Advance(5 * time.Second)
		zz.Sleepy(time.Millisecond)
		if w.count() > n+1 {
			t.Fatalf("%s: keep-alives after 5 seconds", what)
		}
		// answer, with time passing during each write
		var bad string
		began := false
		w.mu.Lock()
		w.onWrite = func(p string) {
			if began && strings.Trim(p, "\n") == "" {
				bad = p
			}
			if strings.Trim(p, "\n") != "" {
				began = true
				zz.Advance(31 * time.Second)
				zz.Sleepy(500 * time.Microsecond)
			}
		}
		w.mu.Unlock()
		if !zz.Eventually(func() bool { run(f, g, monkit.NewTrace(7)); return len(done) > 0 }) {
			t.Fatalf("%s: never answered", what)
		}
		if err := <-done; err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		zz.Advance(31 * time.Second)
		zz.Advance(31 * time.Second)
		zz.Sleepy(time.Millisecond)
		if bad != "" {
			t.Fatalf("%s: a keep-alive was written after the answer had begun", what)
		}
		text := strings.TrimLeft(w.text(), "\n")
		if kind == "json" {
			list(t, text)
		} else if kind == "svg" {
			if _, _, err := parseSVG(text); err != nil {
				t.Fatalf("%v\n%s", err, text)
			}
		}
		zz.Case(t.Name(), what)
	}
}

func TestC27_KeepAliveFails(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the clock")
	}
	for i := 0; i < zz.N(24); i++ {
		reg := monkit.NewRegistry()
		reg.ScopeNamed("pkg").FuncNamed("Target")
		kind := []string{"json", "svg", "remote"}[i%3]
		direct := kind != "remote" && i%2 == 0
		p := waiting(t, reg, kind, direct)
		w := &sink{}
		if i >= 12 && (i/3)%2 == 0 {
			w.boom = true
		} else {
			w.fail = errWrite
		}
		what := fmt.Sprintf("%s direct=%v boom=%v", kind, direct, w.boom)
		done := make(chan error, 1)
		go func() { done <- p(w) }()
		if !zz.Eventually(func() bool { zz.Advance(31 * time.Second); return len(done) > 0 }) {
			t.Fatalf("%s: a keep-alive that cannot be written does not end the wait", what)
		}
		want := errWrite
		if w.boom {
			want = errBoom
		}
		if err := <-done; err != want {
			t.Fatalf("%s: %v", what, err)
		}
		n := w.count()
		zz.Advance(31 * time.Second)
		zz.Advance(31 * time.Second)
		if w.count() != n || n != 1 {
			t.Fatalf("%s: %d writes, then %d", what, n, w.count())
		}
		zz.Case(t.Name(), what)
	}
}

// the span is found while a keep-alive is being written to a slow client
func TestC27_KeepAliveSlow(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the clock")
	}
	for i := 0; i < zz.N(12); i++ {
		reg := monkit.NewRegistry()
		s := reg.ScopeNamed("pkg")
		f, g := s.FuncNamed("Target"), s.FuncNamed("child")
		kind := []string{"json", "svg"}[i%2]
		direct := i%4 < 2
		p := waiting(t, reg, kind, direct)
		w := &sink{}
		if i%3 == 0 {
			w.fail = errWrite
		}
		what := fmt.Sprintf("%s direct=%v fails=%v", kind, direct, w.fail != nil)
		began, release := make(chan bool), make(chan bool)
		var once sync.Once
		w.onWrite = func(string) {
			first := false
			once.Do(func() { first = true })
			if first {
				close(began)
				<-release
			}
		}
		done := make(chan error, 1)
		go func() { done <- p(w) }()
		pinging := func() bool {
			select {
			case <-began:
				return true
			default:
				return false
			}
		}
		if !zz.Eventually(func() bool { zz.Advance(31 * time.Second); return pinging() }) {
			t.Fatalf("%s: no keep-alive is sent while waiting", what)
		}
		for k := 0; k < 10; k++ {
			run(f, g, monkit.NewTrace(7))
			time.Sleep(time.Millisecond)
		}
		if n := w.count(); n != 1 || len(done) > 0 {
			t.Fatalf("%s: %d writes, %d answers while a keep-alive is being written", what, n, len(done))
		}
		fail := w.fail
		close(release)
		if !zz.Eventually(func() bool { return len(done) > 0 }) {
			t.Fatalf("%s: never answered", what)
		}
		if err := <-done; err != fail {
			t.Fatalf("%s: the error is %v, not %v", what, err, fail)
		}
		if fail != nil && w.count() != 1 {
			t.Fatalf("%s: writes after one that failed", what)
		}
		zz.Case(t.Name(), what)
	}
}

// over a real connection
func TestC27_Connection_Plain(t *testing.T) {
	reg := monkit.NewRegistry()
	f, g := reg.ScopeNamed("pkg").FuncNamed("Target"), reg.ScopeNamed("pkg").FuncNamed("child")
	w := &sink{}
	for _, kind := range []string{"json", "svg", "remote"} {
		p := waiting(t, reg, kind, false)
		done := make(chan error, 1)
		go func() { done <- p(w) }()
		if !zz.Eventually(func() bool { run(f, g, monkit.NewTrace(7)); return len(done) > 0 }) {
			t.Fatalf("%s: never answered", kind)
		}
		if err := <-done; err != nil {
			t.Fatal(err)
		}
		zz.Case(t.Name(), kind)
	}
}

func TestC23_Present(t *testing.T) {
	r := zz.NewRng(1)
	var w *world
	for w == nil || len(w.live) == 0 {
		w = newWorld(r, clean(r))
	}
	calls := 0
	use := writerFunc(func(p []byte) {
		calls++
		if zz.Rewritten && zz.Held() != 0 {
			t.Errorf("a writer is called with %d locks held", zz.Held())
		}
		w.reg.AllSpans(func(s *monkit.Span) {
			if calls < 20 { // what is written grows with what is annotated
				s.Annotate("a", "b")
			}
			s.Children(func(*monkit.Span) {})
		})
		w.reg.Funcs(func(f *monkit.Func) { f.Task(nil)(nil) })
		w.reg.Stats(func(monkit.SeriesKey, string, float64) {})
	})
	for _, ro := range routes {
		zz.Within(t, 20*time.Second, ro.path, func() {
			if err := ro.direct(w.reg, use); err != nil {
				t.Error(err)
			}
		})
		func() {
			defer func() { recover() }()
			ro.direct(w.reg, writerFunc(func(p []byte) { panic("boom") }))
		}()
		if zz.Rewritten && zz.Held() != 0 {
			t.Fatalf("%s: %d locks are still held", ro.path, zz.Held())
		}
		zz.Case(t.Name(), ro.path)
	}
}

type writerFunc func([]byte)

func (f writerFunc) Write(p []byte) (int, error) { f(p); return len(p), nil }

func TestC24_Present_Race(t *testing.T) {
	r := zz.NewRng(1)
	w := newWorld(r, clean(r))
	f := w.reg.ScopeNamed("pkg").FuncNamed("Target")
	f.Task(nil)(nil)
	var wg sync.WaitGroup
	for _, ro := range routes {
		ro := ro
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zz.N(30); i++ {
				ro.direct(w.reg, io.Discard)
				ctx := context.Background()
				e := f.Task(&ctx, "a", i)
				monkit.SpanFromCtx(ctx).Annotate("a", "b")
				e(nil)
			}
		}()
	}
	stop := make(chan struct{})
	var bg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				ctx := context.Background()
				e := f.Task(&ctx)
				f.Task(&ctx)(nil)
				e(nil)
			}
		}
	}()
	for _, kind := range []string{"json", "svg", "remote"} {
		p := waiting(t, w.reg, kind, false)
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p(io.Discard)
			}()
		}
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	zz.Case(t.Name(), "all endpoints at once")
}
