package http_test

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"
	mh "github.com/spacemonkeygo/monkit/v3/http"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func TestMain(m *testing.M) {
	code := m.Run()
	zz.Report()
	os.Exit(code)
}

func id(v int64) *int64 { return &v }

func num(p *int64) string {
	if p == nil {
		return "none"
	}
	return strconv.FormatInt(*p, 10)
}

func baggage(m map[string]string) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func info(i mh.TraceInfo) string {
	return fmt.Sprintf("trace %s parent %s sampled %v baggage {%s}", num(i.TraceId), num(i.ParentId), i.Sampled, baggage(i.Baggage))
}

// plain is a header that keeps names as they are given.
type plain map[string]string

func (p plain) Get(k string) string { return p[k] }
func (p plain) Set(k, v string)     { p[k] = v }

type header interface {
	mh.HeaderGetter
	mh.HeaderSetter
}

func token(r *zz.Rng) string {
	return strings.NewReplacer(",", "", "=", "", "\n", "").Replace(r.Str(true))
}

func TestC18_RoundTrip(t *testing.T) {
	for i := 0; i < zz.N(6000); i++ {
		r := zz.NewRng(uint64(i))
		in := mh.TraceInfo{TraceId: id(r.Int()), ParentId: id(r.Int()), Sampled: r.Bool()}
		want := mh.TraceInfo{TraceId: id(*in.TraceId), ParentId: id(*in.ParentId), Sampled: in.Sampled, Baggage: map[string]string{}}
		var allowed []string
		if r.Intn(3) > 0 {
			in.Baggage = map[string]string{}
			for n := r.Intn(5); n > 0; n-- {
				k := token(r)
				v := token(r)
				in.Baggage[k] = v
			}
			for k, v := range in.Baggage {
				if k != "" && r.Bool() {
					allowed = append(allowed, k)
					want.Baggage[k] = v
				}
			}
			for n := r.Intn(3); n > 0; n-- {
				a := token(r) + "!"
				if _, ok := in.Baggage[a]; !ok {
					allowed = append(allowed, a)
				}
			}
			var mixed []string
			for _, k := range r.Perm(len(allowed)) {
				mixed = append(mixed, allowed[k])
			}
			allowed = mixed
		}
		var h header = http.Header{}
		if r.Bool() {
			h = plain{}
		}
		in.SetHeader(h)
		got := mh.TraceInfoFromHeader(h, allowed...)
		if info(got) != info(want) {
			t.Fatalf("wrote %s (allowing %q), read %s", info(in), allowed, info(got))
		}
		zz.Case(t.Name(), info(in))
	}
	// without ids only the sampling is carried
	for i := 0; i < 16; i++ {
		in := mh.TraceInfo{Sampled: i&1 == 1}
		if i&2 != 0 {
			in.TraceId = id(5)
		} else if i&4 != 0 {
			in.ParentId = id(6)
		}
		if i&8 != 0 {
			in.Baggage = map[string]string{"a": "b"}
		}
		h := http.Header{}
		in.SetHeader(h)
		got := mh.TraceInfoFromHeader(h, "a")
		if got.TraceId != nil || got.ParentId != nil || got.Sampled != in.Sampled {
			t.Errorf("wrote %s, read %s", info(in), info(got))
		}
	}
}

func hex(r *zz.Rng) string {
	switch r.Intn(5) {
	case 0:
		return strings.Repeat("0", r.Intn(16)) + "1"
	case 1:
		return "ffffffffffffffff"
	case 2:
		return strings.ToUpper(strconv.FormatUint(uint64(r.Int()), 16))
	}
	return strconv.FormatUint(uint64(r.Int()), 16)
}

var bad = []string{"", "g", "0x1", "+1", "-", " 1", "1 ", "1_0", "z", "\x00", "é", "10000000000000000", "fffffffffffffffff", "1.5", "%d"}

func TestC18_Malformed(t *testing.T) {
	for i := 0; i < zz.N(6000); i++ {
		r := zz.NewRng(uint64(i) + 5)
		parts := []string{"00", hex(r), hex(r), []string{"00", "01", "02", "03", "ff", "1", "0"}[r.Intn(7)]}
		switch r.Intn(4) {
		case 0:
			parts[1+r.Intn(3)] = bad[r.Intn(len(bad))]
		case 1:
			parts[0] = []string{"01", "ff", "1", "x", "", "cc"}[r.Intn(6)]
		case 2:
			n := r.Intn(4)
			if r.Bool() {
				parts = append(parts, hex(r))
			} else {
				parts = append(parts[:n:n], parts[n+1:]...)
			}
		case 3:
			k := r.Intn(4)
			parts[k] += bad[1+r.Intn(len(bad)-1)]
		}
		v := strings.Join(parts, "-")
		if v == "" {
			continue
		}
		h := plain{"traceparent": v, "tracestate": []string{"", "sampled=true"}[r.Intn(2)], "baggage": []string{"", "a=b,c", ",,=,a", r.Str(true)}[r.Intn(4)]}
		got := mh.TraceInfoFromHeader(h, "a", "", "c")
		if got.TraceId != nil || got.ParentId != nil {
			t.Fatalf("traceparent %q gives %s", v, info(got))
		}
		zz.Case(t.Name(), v)
	}
	// anything at all: no panic, ids together or not at all
	for i := 0; i < zz.N(4000); i++ {
		r := zz.NewRng(uint64(i) + 77)
		p := []string{"00", "-", "--", "0", hex(r), hex(r), r.Str(true), "01", "-00-", "00-1-1-1"}
		s := ""
		for n := r.Intn(8); n >= 0; n-- {
			s += p[r.Intn(len(p))]
		}
		h := plain{"traceparent": s, "tracestate": r.Str(true), "baggage": r.Str(true) + "," + r.Str(true) + "=" + r.Str(true)}
		got := mh.TraceInfoFromHeader(h, r.Str(true), r.Str(true))
		if (got.TraceId == nil) != (got.ParentId == nil) {
			t.Fatalf("traceparent %q gives %s", s, info(got))
		}
		zz.Case(t.Name(), s)
	}
}

func TestC18_WellFormed(t *testing.T) {
	for i := 0; i < zz.N(3000); i++ {
		r := zz.NewRng(uint64(i) + 9)
		a, b, f := uint64(r.Int()), uint64(r.Int()), uint64(r.Intn(256))
		v := fmt.Sprintf("00-%032x-%016x-%02x", a, b, f)
		got := mh.TraceInfoFromHeader(plain{"traceparent": v, "tracestate": []string{"", "sampled=true"}[r.Intn(2)]})
		if got.TraceId == nil || got.ParentId == nil || uint64(*got.TraceId) != a || uint64(*got.ParentId) != b || got.Sampled != (f&1 == 1) {
			t.Fatalf("%s gives %s", v, info(got))
		}
		zz.Case(t.Name(), v)
	}
	for _, c := range []struct {
		state   string
		sampled bool
	}{{"", false}, {"sampled=true", true}, {"sampled=false", false}, {"foo=bar", false}, {"foo=bar,sampled=true", true}, {"sampled=true,foo=bar", true}, {"sampled", false}, {"true", false}, {"sampled=tru", false}} {
		got := mh.TraceInfoFromHeader(plain{"tracestate": c.state})
		if got.TraceId != nil || got.ParentId != nil || got.Sampled != c.sampled {
			t.Errorf("trace state %q gives %s", c.state, info(got))
		}
	}
	// baggage: first of equal keys is not lost, what is not allowed is not read, junk is skipped
	got := mh.TraceInfoFromHeader(plain{"traceparent": "00-1-2-0", "baggage": "a=1,junk,b=2,c=3,=4,"}, "a", "c", "d", "junk")
	if baggage(got.Baggage) != `"a"="1","c"="3"` {
		t.Errorf("baggage %s", baggage(got.Baggage))
	}
}

func TestC18_FromSpan(t *testing.T) {
	for i := 0; i < zz.N(200); i++ {
		r := zz.NewRng(uint64(i))
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		tr := monkit.NewTrace(r.Int())
		sampled := r.Intn(4) > 0
		if sampled {
			tr.Set(present.SampledKey, true)
		} else if r.Bool() {
			tr.Set(present.SampledKey, []interface{}{false, "true", nil, 1}[r.Intn(4)])
		}
		ctx := context.Background()
		parent := r.Int()
		f.RemoteTrace(&ctx, parent, tr)
		s := monkit.SpanFromCtx(ctx)
		got := mh.TraceInfoFromSpan(s)
		want := mh.TraceInfo{Sampled: sampled}
		if sampled {
			want.TraceId, want.ParentId = id(tr.Id()), id(parent)
		}
		if info(got) != info(want) {
			t.Fatalf("span gives %s, not %s", info(got), info(want))
		}
		h := http.Header{}
		got.SetHeader(h)
		if back := mh.TraceInfoFromHeader(h); info(back) != info(want) {
			t.Fatalf("%s comes back as %s", info(want), info(back))
		}
		zz.Case(t.Name(), info(want))
	}
}

// ---- handlers ----

type recorder struct {
	log    []string
	header http.Header
	short  bool
}

func (w *recorder) add(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }
func (w *recorder) Header() http.Header            { return w.header }
func (w *recorder) WriteHeader(c int)              { w.add("status %d with %s", c, headers(w.header)) }
func (w *recorder) Write(p []byte) (int, error) {
	w.add("write %q with %s", p, headers(w.header))
	if w.short {
		return len(p) / 2, errShort
	}
	return len(p), nil
}

var errShort = errors.New("short")

type flushing struct{ *recorder }

func (w flushing) Flush() { w.add("flush") }

func headers(h http.Header) string {
	var out []string
	for k, v := range h {
		if k != "Trace-Id" && k != "Child-Id" {
			out = append(out, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

type hkey struct{}

// script is what a handler does, and what of it it saw.
func script(r *zz.Rng, flush bool) (desc string, run func(w http.ResponseWriter) string, status int, boom bool) {
	var steps []func(w http.ResponseWriter) string
	wrote := false
	for n := r.Intn(6); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			k, v := "X-"+strconv.Itoa(r.Intn(3)), r.Str(true)
			desc += fmt.Sprintf("header %s=%q; ", k, v)
			steps = append(steps, func(w http.ResponseWriter) string { w.Header().Add(k, v); return "" })
		case 1:
			if wrote || status != 0 {
				continue
			}
			c := 200 + r.Intn(400)
			status = c
			desc += fmt.Sprintf("status %d; ", c)
			steps = append(steps, func(w http.ResponseWriter) string { w.WriteHeader(c); return "" })
		case 2, 3:
			b := r.Str(true)
			if r.Intn(10) == 0 {
				b = ""
			}
			wrote = true
			desc += fmt.Sprintf("write %q; ", b)
			steps = append(steps, func(w http.ResponseWriter) string {
				n, err := w.Write([]byte(b))
				return fmt.Sprint(n, err)
			})
		case 4:
			if !flush {
				continue
			}
			wrote = true
			desc += "flush; "
			steps = append(steps, func(w http.ResponseWriter) string {
				f, ok := w.(http.Flusher)
				if ok {
					f.Flush()
				}
				return fmt.Sprint(ok)
			})
		}
	}
	if r.Intn(6) == 0 {
		boom = true
		desc += "panic; "
		steps = append(steps, func(w http.ResponseWriter) string { panic(hkey{}) })
	}
	if status == 0 {
		status = 200
	}
	return desc, func(w http.ResponseWriter) (out string) {
		for _, s := range steps {
			out += s(w) + ";"
		}
		return out
	}, status, boom
}

func TestC19_Handler(t *testing.T) {
	for i := 0; i < zz.N(1500); i++ {
		r := zz.NewRng(uint64(i))
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed("s")
		canFlush := r.Bool()
		desc, run, status, boom := script(r, canFlush)

		req := httptest.NewRequest([]string{"GET", "POST"}[r.Intn(2)], "http://x/p?q="+url.QueryEscape(r.Str(true)), strings.NewReader("body"))
		req.Header.Set("X-In", "1")
		req = req.WithContext(context.WithValue(req.Context(), hkey{}, i))
		var wantTrace, wantParent *int64
		wantSampled := false
		wantBag := map[string]string{}
		switch r.Intn(4) {
		case 0, 1:
			wantTrace, wantParent, wantSampled = id(r.Int()), id(r.Int()), r.Bool()
			mh.TraceInfo{TraceId: wantTrace, ParentId: wantParent, Sampled: wantSampled, Baggage: map[string]string{"k1": "v1", "k2": "v2"}}.SetHeader(req.Header)
			wantBag["k1"] = "v1"
		case 2:
			mh.TraceInfo{Sampled: true}.SetHeader(req.Header)
			wantSampled = true
		}
		cbs := 0
		reg.ObserveTraces(func(tr *monkit.Trace) {
			if v, _ := tr.Get(present.SampledKey).(bool); v != wantSampled {
				t.Errorf("%s: the trace begins with sampled=%v", desc, v)
			}
			tr.Set(present.SampledCBKey, func(t2 *monkit.Trace) { cbs++ })
		})

		mk := func() (*recorder, http.ResponseWriter) {
			w := &recorder{header: http.Header{}, short: r.Intn(8) == 0}
			if canFlush {
				return w, flushing{w}
			}
			return w, w
		}
		direct, dw := mk()
		var saw1, saw2 string
		func() {
			defer func() { recover() }()
			saw1 = run(dw)
		}()

		traced, tw := mk()
		traced.short = direct.short
		var span *monkit.Span
		calls := 0
		h := mh.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			calls++
			span = monkit.SpanFromCtx(q.Context())
			if span == nil {
				t.Fatalf("no span in the context")
			}
			if q.Context().Value(hkey{}) != i {
				t.Errorf("the context lost its values")
			}
			if q.Method != req.Method || q.URL.String() != req.URL.String() || q.RequestURI != req.RequestURI || q.Body != req.Body || fmt.Sprint(q.Header) != fmt.Sprint(req.Header) || q.Host != req.Host {
				t.Errorf("the request changed")
			}
			if _, ok := w.(http.Flusher); ok != canFlush {
				t.Errorf("flusher: %v, the real writer: %v", ok, canFlush)
			}
			live := 0
			reg.AllSpans(func(s *monkit.Span) {
				if s == span {
					live++
				}
			})
			if live != 1 {
				t.Errorf("the span is live %d times", live)
			}
			saw2 = run(w)
		}), scope, "k1", "nope")
		func() {
			defer func() {
				x := recover()
				if boom && x != (hkey{}) || !boom && x != nil {
					t.Errorf("%s: the panic became %v", desc, x)
				}
			}()
			h.ServeHTTP(tw, req)
		}()
		if calls != 1 {
			t.Fatalf("the handler ran %d times", calls)
		}
		if strings.Join(direct.log, "\n") != strings.Join(traced.log, "\n") || headers(direct.header) != headers(traced.header) || saw1 != saw2 {
			t.Fatalf("%s\nwithout tracing: %q %s saw %s\nwith: %q %s saw %s", desc, direct.log, headers(direct.header), saw1, traced.log, headers(traced.header), saw2)
		}
		if wantTrace != nil && span.Trace().Id() != *wantTrace {
			t.Fatalf("trace %d, not %d", span.Trace().Id(), *wantTrace)
		}
		if p, ok := span.ParentId(); wantParent != nil && (!ok || p != *wantParent) {
			t.Fatalf("parent %d, not %d", p, *wantParent)
		}
		if _, has := traced.header["Trace-Id"]; has != (wantSampled && wantParent == nil) {
			t.Errorf("trace id in the response: %v", has)
		} else if has {
			if traced.header.Get("trace-id") != strconv.FormatUint(uint64(span.Trace().Id()), 16) || traced.header.Get("child-id") != strconv.FormatUint(uint64(span.Id()), 16) {
				t.Errorf("the response names trace %s and span %s, not %x and %x", traced.header.Get("trace-id"), traced.header.Get("child-id"), span.Trace().Id(), span.Id())
			}
		}
		ann := map[string]string{}
		for _, a := range span.Annotations() {
			if _, twice := ann[a.Name]; twice {
				t.Errorf("annotation %s is there twice", a.Name)
			}
			ann[a.Name] = a.Value
		}
		want := map[string]string{"http.uri": req.RequestURI, "http.responsecode": strconv.Itoa(status)}
		for k, v := range wantBag {
			want[k] = v
		}
		if boom {
			delete(want, "http.responsecode")
			delete(ann, "http.responsecode")
		}
		if baggage(ann) != baggage(want) {
			t.Fatalf("%s: annotations %s, not %s", desc, baggage(ann), baggage(want))
		}
		n := 0
		reg.AllSpans(func(*monkit.Span) { n++ })
		if n != 0 {
			t.Fatalf("%d spans are live afterwards", n)
		}
		if cbs != 1 {
			t.Errorf("the sampling callback was called %d times", cbs)
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC19_Wrap(t *testing.T) {
	for _, flush := range []bool{false, true} {
		w := &recorder{header: http.Header{}}
		var rw http.ResponseWriter = w
		if flush {
			rw = flushing{w}
		}
		a, sa := mh.Wrap(rw)
		b, sb := mh.Wrap(a)
		if sa() != 200 || sb() != 200 {
			t.Errorf("status %d %d before anything", sa(), sb())
		}
		b.WriteHeader(404)
		if sa() != 404 || sb() != 404 || len(w.log) != 1 {
			t.Errorf("status %d %d, log %q", sa(), sb(), w.log)
		}
		b.Header().Set("X-A", "b")
		if w.header.Get("X-A") != "b" {
			t.Errorf("headers are lost")
		}
		if f, ok := b.(http.Flusher); ok != flush {
			t.Errorf("flusher %v", ok)
		} else if ok {
			f.Flush()
			if w.log[len(w.log)-1] != "flush" {
				t.Errorf("flush is lost")
			}
		}
		zz.Case(t.Name(), fmt.Sprint(flush))
	}
	w := &recorder{header: http.Header{}}
	a, s := mh.Wrap(w)
	a.Write(nil)
	if s() != 200 || len(w.log) != 1 {
		t.Errorf("an empty write: %d %q", s(), w.log)
	}
}

// ---- clients ----

type client struct {
	do func(*http.Request) (*http.Response, error)
}

func (c client) Do(r *http.Request) (*http.Response, error) { return c.do(r) }

type watcher struct{ ends []string }

func TestC19_Client(t *testing.T) {
	for i := 0; i < zz.N(800); i++ {
		r := zz.NewRng(uint64(i))
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed("s")
		tr := monkit.NewTrace(r.Int())
		sampled := r.Bool()
		if sampled {
			tr.Set(present.SampledKey, true)
		}
		ctx := context.Background()
		exit := scope.FuncNamed("outer").RemoteTrace(&ctx, r.Int(), tr)
		outer := monkit.SpanFromCtx(ctx)
		req, err := http.NewRequest("GET", "http://x/a?b="+url.QueryEscape(r.Str(true)), nil)
		if err != nil {
			t.Fatal(err)
		}
		if r.Intn(6) == 0 {
			req.Header = nil
		} else {
			req.Header.Set("X-A", "1")
		}
		uri := req.URL.String()
		var resp *http.Response
		var rerr error
		kind := r.Intn(4)
		if kind != 1 {
			resp = &http.Response{StatusCode: 100 + r.Intn(500)}
		}
		if kind == 1 || kind == 2 {
			rerr = errors.New("no")
		}
		calls := 0
		var span *monkit.Span
		var got *http.Response
		var gerr error
		func() {
			defer func() {
				if x := recover(); (kind == 3) != (x == hkey{}) || kind != 3 && x != nil {
					t.Errorf("the panic became %v", x)
				}
			}()
			got, gerr = mh.TraceRequest(ctx, scope, client{func(q *http.Request) (*http.Response, error) {
				calls++
				if q != req && (q.Method != req.Method || q.URL.String() != uri) {
					t.Errorf("another request is sent")
				}
				reg.AllSpans(func(s *monkit.Span) {
					if s != outer {
						span = s
					}
				})
				if span == nil {
					t.Fatalf("no span is live during the request")
				}
				have := mh.TraceInfoFromHeader(q.Header)
				want := mh.TraceInfoFromSpan(span)
				if info(have) != info(want) {
					t.Errorf("the request carries %s, its span %s", info(have), info(want))
				}
				if want.Sampled != sampled || sampled && *want.TraceId != tr.Id() {
					t.Errorf("trace information %s", info(want))
				}
				if kind == 3 {
					panic(hkey{})
				}
				return resp, rerr
			}}, req)
		}()
		if calls != 1 {
			t.Fatalf("%d requests", calls)
		}
		if kind != 3 && (got != resp || gerr != rerr) {
			t.Fatalf("response %v %v, not %v %v", got, gerr, resp, rerr)
		}
		n := 0
		reg.AllSpans(func(*monkit.Span) { n++ })
		if n != 1 {
			t.Fatalf("%d spans are live afterwards", n)
		}
		if p, ok := span.ParentId(); !ok || p != outer.Id() || span.Trace() != tr {
			t.Fatalf("the span is not a child of the caller's")
		}
		f := scope.FuncNamed("GET")
		if span.Func() != f {
			t.Errorf("the span is of %s", span.Func().ShortName())
		}
		var errn int64
		for _, c := range f.Errors() {
			errn += c
		}
		w := [3]int64{1, 0, 0}
		if kind == 1 || kind == 2 {
			w = [3]int64{0, 1, 0}
		} else if kind == 3 {
			w = [3]int64{0, 0, 1}
		}
		if [3]int64{f.Success(), errn, f.Panics()} != w {
			t.Errorf("counted as %v, not %v", [3]int64{f.Success(), errn, f.Panics()}, w)
		}
		ann := map[string]string{}
		for _, a := range span.Annotations() {
			ann[a.Name] = a.Value
		}
		if ann["http.uri"] != uri {
			t.Errorf("uri %q, not %q", ann["http.uri"], uri)
		}
		if kind == 0 && ann["http.responsecode"] != strconv.Itoa(resp.StatusCode) {
			t.Errorf("status %q, not %d", ann["http.responsecode"], resp.StatusCode)
		}
		exit(nil)
		zz.Case(t.Name(), fmt.Sprint(kind, sampled, uri))
	}
}

// a client and a handler together
func TestC19_EndToEnd(t *testing.T) {
	for i := 0; i < zz.N(100); i++ {
		r := zz.NewRng(uint64(i))
		cr, sr := monkit.NewRegistry(), monkit.NewRegistry()
		var inner *monkit.Span
		h := mh.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			inner = monkit.SpanFromCtx(q.Context())
			w.WriteHeader(204)
		}), sr.ScopeNamed("server"))
		ctx := context.Background()
		tr := monkit.NewTrace(r.Int())
		tr.Set(present.SampledKey, true)
		exit := cr.ScopeNamed("client").FuncNamed("f").RemoteTrace(&ctx, r.Int(), tr)
		req := httptest.NewRequest("GET", "http://x/", nil)
		resp, err := mh.TraceRequest(ctx, cr.ScopeNamed("client"), client{func(q *http.Request) (*http.Response, error) {
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, q)
			return rec.Result(), nil
		}}, req)
		if err != nil || resp.StatusCode != 204 {
			t.Fatalf("%v %v", resp, err)
		}
		if inner.Trace().Id() != tr.Id() {
			t.Fatalf("the server's trace is %d, not %d", inner.Trace().Id(), tr.Id())
		}
		if v, _ := inner.Trace().Get(present.SampledKey).(bool); !v {
			t.Fatalf("the server's trace is not sampled")
		}
		exit(nil)
		zz.Case(t.Name(), fmt.Sprint(tr.Id()))
	}
}

func TestC23_Http(t *testing.T) {
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("s")
	chk := func(what string) {
		if zz.Rewritten && zz.Held() != 0 {
			t.Errorf("%s is called with %d locks held", what, zz.Held())
		}
		reg.AllSpans(func(s *monkit.Span) { s.Annotate("a", "b") })
	}
	reg.ObserveTraces(func(tr *monkit.Trace) {
		chk("watcher")
		tr.Set(present.SampledCBKey, func(t2 *monkit.Trace) { chk("sampling callback"); t2.Set("a", "b") })
	})
	h := mh.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { chk("handler") }), scope)
	req := httptest.NewRequest("GET", "http://x/", nil)
	h.ServeHTTP(httptest.NewRecorder(), req)
	mh.TraceRequest(context.Background(), scope, client{func(*http.Request) (*http.Response, error) {
		chk("client")
		return &http.Response{}, nil
	}}, req)
	if zz.Rewritten && zz.Held() != 0 {
		t.Errorf("%d locks are still held", zz.Held())
	}
	zz.Case(t.Name(), "one")
}

func TestC24_Http_Race(t *testing.T) {
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("s")
	h := mh.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mh.TraceRequest(q.Context(), scope, client{func(*http.Request) (*http.Response, error) { return &http.Response{}, nil }}, httptest.NewRequest("GET", "http://x/", nil))
		w.Write([]byte("x"))
	}), scope, "a")
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zz.N(40); i++ {
				q := httptest.NewRequest("GET", "http://x/", nil)
				mh.TraceInfo{TraceId: id(3), ParentId: id(4), Sampled: true, Baggage: map[string]string{"a": "b"}}.SetHeader(q.Header)
				h.ServeHTTP(httptest.NewRecorder(), q)
				reg.AllSpans(func(s *monkit.Span) { s.Annotations() })
			}
		}()
	}
	wg.Wait()
	zz.Case(t.Name(), "6 goroutines")
}
