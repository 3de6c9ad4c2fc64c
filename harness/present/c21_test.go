package present_test

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func list(t *testing.T, text string) (out []map[string]interface{}) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if err := d.Decode(&out); err != nil {
		t.Fatalf("not JSON: %v\n%s", err, text)
	}
	if _, err := d.Token(); err != io.EOF {
		t.Fatalf("more than one JSON value\n%s", text)
	}
	return out
}

func get(m map[string]interface{}, path ...string) interface{} {
	var v interface{} = m
	for _, p := range path {
		mm, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		v = mm[p]
	}
	return v
}

func sval(v interface{}) string { return fmt.Sprint(v) }

func sameArgs(v interface{}, args []string) bool {
	l, ok := v.([]interface{})
	if !ok || len(l) != len(args) {
		return false
	}
	for i := range l {
		s, _ := l[i].(string)
		if u, err := strconv.Unquote(s); err == nil && u == args[i] {
			continue
		}
		if s != args[i] {
			return false
		}
	}
	return true
}

func sameAnnotations(v interface{}, ann []monkit.Annotation) bool {
	l, ok := v.([]interface{})
	if !ok || len(l) != len(ann) {
		return false
	}
	for i := range l {
		p, _ := l[i].([]interface{})
		if len(p) != 2 || p[0] != ann[i].Name || p[1] != ann[i].Value {
			return false
		}
	}
	return true
}

// common checks what live and finished spans share.
func commonSpan(t *testing.T, e map[string]interface{}, s *monkit.Span) {
	if sval(e["id"]) != fmt.Sprint(s.Id()) {
		t.Fatalf("span id %v, not %d", e["id"], s.Id())
	}
	pid, has := s.ParentId()
	if p, ok := e["parent_id"]; ok != has || ok && sval(p) != fmt.Sprint(pid) {
		t.Fatalf("parent id %v, not %v %v", p, pid, has)
	}
	if get(e, "func", "package") != s.Func().Scope().Name() || get(e, "func", "name") != s.Func().ShortName() {
		t.Fatalf("func %v, not %s", e["func"], s.Func().FullName())
	}
	if sval(get(e, "trace", "id")) != fmt.Sprint(s.Trace().Id()) {
		t.Fatalf("trace %v, not %d", e["trace"], s.Trace().Id())
	}
	if sval(e["start"]) != fmt.Sprint(s.Start().UnixNano()) {
		t.Fatalf("start %v, not %d", e["start"], s.Start().UnixNano())
	}
	if e["orphaned"] != s.Orphaned() {
		t.Fatalf("orphaned %v", e["orphaned"])
	}
	if !sameArgs(e["args"], s.Args()) {
		t.Fatalf("arguments %v, not %q", e["args"], s.Args())
	}
	if !sameAnnotations(e["annotations"], s.Annotations()) {
		t.Fatalf("annotations %v, not %q", e["annotations"], s.Annotations())
	}
}

func TestC21_SpansJSON(t *testing.T) {
	for i := 0; i < zz.N(600); i++ {
		r := zz.NewRng(uint64(i))
		w := newWorld(r, func() string { return r.Str(true) })
		text := export(t, func(o io.Writer) error { return present.SpansJSON(w.reg, o) })
		l := list(t, text)
		if len(l) != len(w.live) {
			t.Fatalf("%d elements for %d live spans", len(l), len(w.live))
		}
		byID := map[string]map[string]interface{}{}
		for _, e := range l {
			byID[sval(e["id"])] = e
		}
		for _, s := range w.live {
			e := byID[fmt.Sprint(s.Id())]
			if e == nil {
				t.Fatalf("span %d is missing", s.Id())
			}
			commonSpan(t, e, s)
			el, err := e["elapsed"].(json.Number).Int64()
			if zz.Rewritten && (err != nil || el != zz.Now().Sub(s.Start()).Nanoseconds()) {
				t.Fatalf("elapsed %d, not %v", el, zz.Now().Sub(s.Start()))
			}
		}
		zz.Case(t.Name(), text)
	}
}

func sameDist(t *testing.T, what string, v interface{}, d *monkit.DurationDist) {
	m, _ := v.(map[string]interface{})
	for k, want := range map[string]time.Duration{"average": d.FullAverage(), "full_average": d.FullAverage(), "reservoir_average": d.ReservoirAverage(), "max": d.High, "min": d.Low, "recent": d.Recent} {
		if sval(m[k]) != fmt.Sprint(int64(want)) {
			t.Fatalf("%s: %s is %v, not %d", what, k, m[k], want)
		}
	}
	q, _ := m["quantiles"].(map[string]interface{})
	if len(q) != len(monkit.ObservedQuantiles) {
		t.Fatalf("%s: quantiles %v", what, q)
	}
	for _, x := range monkit.ObservedQuantiles {
		if sval(q[fmt.Sprintf("%.02f", x)]) != fmt.Sprint(int64(d.Query(x))) {
			t.Fatalf("%s: quantile %v is %v, not %d", what, x, q[fmt.Sprintf("%.02f", x)], d.Query(x))
		}
	}
}

func parents(f *monkit.Func) (ids []string, entry bool) {
	f.Parents(func(p *monkit.Func) {
		if p == nil {
			entry = true
		} else {
			ids = append(ids, fmt.Sprint(p.Id()))
		}
	})
	return sorted(ids), entry
}

func TestC21_FuncsJSON(t *testing.T) {
	for i := 0; i < zz.N(600); i++ {
		r := zz.NewRng(uint64(i) + 1000)
		w := newWorld(r, func() string { return r.Str(true) })
		l := list(t, export(t, func(o io.Writer) error { return present.FuncsJSON(w.reg, o) }))
		fs := w.funcs()
		if len(l) != len(fs) {
			t.Fatalf("%d elements for %d functions", len(l), len(fs))
		}
		byID := map[string]map[string]interface{}{}
		for _, e := range l {
			byID[sval(e["id"])] = e
		}
		for _, f := range fs {
			e := byID[fmt.Sprint(f.Id())]
			if e == nil {
				t.Fatalf("function %d is missing", f.Id())
			}
			ids, entry := parents(f)
			var got []string
			if l, ok := e["parent_ids"].([]interface{}); ok {
				for _, x := range l {
					got = append(got, sval(x))
				}
			}
			if fmt.Sprint(sorted(got)) != fmt.Sprint(ids) || e["entry"] != entry {
				t.Fatalf("parents %v entry %v, not %v %v", got, e["entry"], ids, entry)
			}
			if e["package"] != f.Scope().Name() || e["name"] != f.ShortName() {
				t.Fatalf("name %v %v, not %q", e["package"], e["name"], f.FullName())
			}
			for k, v := range map[string]int64{"current": f.Current(), "highwater": f.Highwater(), "success": f.Success(), "panics": f.Panics()} {
				if sval(e[k]) != fmt.Sprint(v) {
					t.Fatalf("%s is %v, not %d", k, e[k], v)
				}
			}
			errs, _ := e["errors"].(map[string]interface{})
			want := f.Errors()
			if len(errs) != len(want) {
				t.Fatalf("errors %v, not %v", errs, want)
			}
			for k, v := range want {
				if sval(errs[k]) != fmt.Sprint(v) {
					t.Fatalf("errors %v, not %v", errs, want)
				}
			}
			sameDist(t, "success", e["success_times"], f.SuccessTimes())
			sameDist(t, "failure", e["failure_times"], f.FailureTimes())
		}
		zz.Case(t.Name(), w.desc)
	}
}

type st struct {
	key   monkit.SeriesKey
	field string
	val   float64
}

func stats(reg *monkit.Registry) (out []st) {
	reg.Stats(func(k monkit.SeriesKey, f string, v float64) { out = append(out, st{k, f, v}) })
	return out
}

func key(meas string, tags map[string]interface{}, field string, val interface{}) string {
	var ks []string
	for k, v := range tags {
		ks = append(ks, fmt.Sprintf("%q=%q", k, sval(v)))
	}
	return fmt.Sprintf("%q %v %q %v", meas, sorted(ks), field, val)
}

// world2 is a registry whose statistics do not depend on the clock or on chance.
func world2(r *zz.Rng, str func() string) *monkit.Registry {
	reg := monkit.NewRegistry()
	for n := 1 + r.Intn(3); n > 0; n-- {
		s := reg.ScopeNamed(str())
		for k := r.Intn(4); k > 0; k-- {
			func() {
				defer func() { recover() }()
				switch r.Intn(4) {
				case 0:
					s.Counter(str(), monkit.NewSeriesTag(str(), str())).Inc(r.Int())
				case 1:
					v := zz.Floats[r.Intn(len(zz.Floats))]
					if r.Intn(4) == 0 {
						v = math.NaN()
					}
					s.Gauge(str(), func() float64 { return v })
				case 2:
					s.FloatVal(str()).Observe(r.Float())
				case 3:
					s.FuncNamed(str()).Task(nil)(nil)
				}
			}()
		}
	}
	return reg
}

func TestC21_StatsJSON(t *testing.T) {
	for i := 0; i < zz.N(600); i++ {
		r := zz.NewRng(uint64(i) + 3000)
		reg := world2(r, func() string { return r.Str(true) })
		text := export(t, func(o io.Writer) error { return present.StatsJSON(reg, o) })
		var l [][]interface{}
		if err := json.Unmarshal([]byte(text), &l); err != nil {
			t.Fatalf("not JSON: %v\n%s", err, text)
		}
		var got, want []string
		for _, e := range l {
			if len(e) != 4 {
				t.Fatalf("element %v", e)
			}
			m, _ := e[0].(string)
			tags, _ := e[1].(map[string]interface{})
			f, _ := e[2].(string)
			got = append(got, key(m, tags, f, e[3]))
		}
		for _, s := range stats(reg) {
			tags := map[string]interface{}{}
			for k, v := range s.key.Tags.All() {
				tags[k] = v
			}
			var v interface{} = s.val
			if math.IsNaN(s.val) || math.IsInf(s.val, 0) {
				v = nil
			}
			want = append(want, key(s.key.Measurement, tags, s.field, v))
		}
		if a, b := strings.Join(sorted(got), "\n"), strings.Join(sorted(want), "\n"); a != b {
			t.Fatalf("got\n%s\nwant\n%s", a, b)
		}
		zz.Case(t.Name(), text)
	}
}

func TestC21_SpansToJSON(t *testing.T) {
	for i := 0; i < zz.N(500); i++ {
		r := zz.NewRng(uint64(i) + 5000)
		spans := collected(r, func() string { return r.Str(true) })
		if r.Intn(10) == 0 {
			spans = nil
		}
		text := export(t, func(o io.Writer) error { return present.SpansToJSON(o, spans) })
		l := list(t, text)
		if len(l) != len(spans) {
			t.Fatalf("%d elements for %d spans", len(l), len(spans))
		}
		byID := map[string]map[string]interface{}{}
		for _, e := range l {
			byID[sval(e["id"])] = e
		}
		for _, s := range spans {
			e := byID[fmt.Sprint(s.Span.Id())]
			if e == nil {
				t.Fatalf("span %d is missing", s.Span.Id())
			}
			commonSpan(t, e, s.Span)
			want := ""
			if s.Err != nil {
				want = s.Err.Error()
			}
			if e["err"] != want || e["panicked"] != s.Panicked || sval(e["finish"]) != fmt.Sprint(s.Finish.UnixNano()) {
				t.Fatalf("err %v panicked %v finish %v, not %q %v %d", e["err"], e["panicked"], e["finish"], want, s.Panicked, s.Finish.UnixNano())
			}
		}
		zz.Case(t.Name(), text)
	}
}

// texts that are not UTF-8 still give JSON
func TestC21_Bytes(t *testing.T) {
	for i := 0; i < zz.N(200); i++ {
		r := zz.NewRng(uint64(i))
		str := func() string { return r.Str(true) + string([]byte{byte(r.Intn(256)), byte(r.Intn(256))}) }
		w := newWorld(r, str)
		spans := collected(r, str)
		for _, f := range []func(io.Writer) error{
			func(o io.Writer) error { return present.SpansJSON(w.reg, o) },
			func(o io.Writer) error { return present.FuncsJSON(w.reg, o) },
			func(o io.Writer) error { return present.StatsJSON(w.reg, o) },
			func(o io.Writer) error { return present.SpansToJSON(o, spans) },
		} {
			text := export(t, f)
			if !json.Valid([]byte(text)) || !utf8.ValidString(text) {
				t.Fatalf("not JSON: %q", text)
			}
		}
		zz.Case(t.Name(), w.desc)
	}
}

func clean(r *zz.Rng) func() string {
	return func() string { return strings.NewReplacer("\n", "", "\t", "").Replace(r.Str(true)) + "n" }
}

func TestC21_StatsText(t *testing.T) {
	for i := 0; i < zz.N(400); i++ {
		r := zz.NewRng(uint64(i) + 8000)
		reg := world2(r, clean(r))
		text := export(t, func(o io.Writer) error { return present.StatsText(reg, o) })
		old := export(t, func(o io.Writer) error { return present.StatsOld(reg, o) })
		var want []string
		for _, s := range stats(reg) {
			want = append(want, fmt.Sprintf("%s=%f", s.key.WithField(s.field), s.val))
		}
		for _, text := range []string{text, old} {
			if a, b := strings.Join(sorted(strings.Split(strings.TrimSuffix(text, "\n"), "\n")), "\n"), strings.Join(sorted(want), "\n"); a != b {
				t.Fatalf("got\n%s\nwant\n%s", a, b)
			}
		}
		zz.Case(t.Name(), text)
	}
}

func TestC21_SpansText(t *testing.T) {
	for i := 0; i < zz.N(400); i++ {
		r := zz.NewRng(uint64(i) + 9000)
		w := newWorld(r, clean(r))
		text := export(t, func(o io.Writer) error { return present.SpansText(w.reg, o) })
		have := map[string]int{}
		for _, l := range strings.Split(text, "\n") {
			have[strings.TrimLeft(l, " ")]++
		}
		need := map[string]int{}
		for _, s := range w.live {
			or := ""
			if s.Orphaned() {
				or = ", orphaned"
			}
			if zz.Rewritten {
				need[fmt.Sprintf("[%d,%d] %s(%s) (elapsed: %s%s)", s.Id(), s.Trace().Id(), s.Func().FullName(), strings.Join(s.Args(), ", "), zz.Now().Sub(s.Start()), or)]++
			} else {
				n := 0
				for l := range have {
					if strings.HasPrefix(l, fmt.Sprintf("[%d,%d] ", s.Id(), s.Trace().Id())) {
						n++
					}
				}
				if n != 1 {
					t.Fatalf("span %d is there %d times", s.Id(), n)
				}
			}
			for _, a := range s.Annotations() {
				need[strings.TrimLeft(fmt.Sprintf("%s: %s", a.Name, a.Value), " ")]++
			}
		}
		for l, n := range need {
			if have[l] != n {
				t.Fatalf("line %q is there %d times, not %d\n%s", l, have[l], n, text)
			}
		}
		if zz.Rewritten {
			for l, n := range have {
				if l != "" && need[l] != n {
					t.Fatalf("line %q should not be there\n%s", l, text)
				}
			}
		}
		zz.Case(t.Name(), text)
	}
}

func distText(d *monkit.DurationDist) (out []string) {
	for _, q := range monkit.ObservedQuantiles {
		out = append(out, fmt.Sprintf("%.02f: %s", q, d.Query(q)))
	}
	return append(out, fmt.Sprintf("avg: %s", d.FullAverage()), fmt.Sprintf("ravg: %s", d.ReservoirAverage()), fmt.Sprintf("recent: %s", d.Recent), fmt.Sprintf("sum: %s", d.Sum))
}

func TestC21_FuncsText(t *testing.T) {
	for i := 0; i < zz.N(400); i++ {
		r := zz.NewRng(uint64(i) + 11000)
		w := newWorld(r, clean(r))
		text := export(t, func(o io.Writer) error { return present.FuncsText(w.reg, o) })
		var got, want []string
		block := ""
		for _, l := range strings.Split(text, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "parents: ") {
				l = "parents: " + strings.Join(sorted(strings.Split(l[9:], ", ")), ", ")
			}
			if l == "" {
				if block != "" {
					got = append(got, strings.Join(sorted(strings.Split(block, "\n")), "\n"))
				}
				block = ""
				continue
			}
			block += l + "\n"
		}
		for _, f := range w.funcs() {
			ids, entry := parents(f)
			if entry {
				ids = append(ids, "entry")
			}
			total := int64(0)
			lines := []string{fmt.Sprintf("[%d] %s", f.Id(), f.FullName())}
			if p := strings.TrimSpace("parents: " + strings.Join(sorted(ids), ", ")); len(ids) > 0 {
				lines = append(lines, p)
			} else {
				lines = append(lines, "parents:")
			}
			for n, c := range f.Errors() {
				total += c
				lines = append(lines, strings.TrimSpace(fmt.Sprintf("error %s: %d", n, c)))
			}
			lines = append(lines, fmt.Sprintf("current: %d, highwater: %d, success: %d, errors: %d, panics: %d", f.Current(), f.Highwater(), f.Success(), total, f.Panics()))
			lines = append(lines, "success times:")
			lines = append(lines, distText(f.SuccessTimes())...)
			lines = append(lines, "failure times:")
			lines = append(lines, distText(f.FailureTimes())...)
			want = append(want, strings.Join(sorted(append(lines, "")), "\n"))
		}
		if a, b := strings.Join(sorted(got), "\n\n"), strings.Join(sorted(want), "\n\n"); a != b {
			t.Fatalf("got\n%s\nwant\n%s", a, b)
		}
		zz.Case(t.Name(), text)
	}
}

// a write error ends an export at once and is what it returns
func writeErrors(t *testing.T, name string, f func(io.Writer) error) {
	count := &failing{}
	if err := f(count); err != nil {
		t.Fatalf("%s: %v", name, err)
	}
	for n := 1; n <= count.writes; n++ {
		w := &failing{n: n}
		err := f(w)
		if w.writes < n {
			continue // fewer writes this time (the order may differ)
		}
		if err != errWrite {
			t.Fatalf("%s: write %d of %d failed and the export returned %v", name, n, count.writes, err)
		}
		if w.after != 0 {
			t.Fatalf("%s: %d writes after write %d of %d failed", name, w.after, n, count.writes)
		}
		zz.Case(t.Name(), fmt.Sprintf("%s: failing write %d", name, n))
	}
}

func TestC21_WriteErrors(t *testing.T) {
	for i := 0; i < zz.N(60); i++ {
		r := zz.NewRng(uint64(i) + 13000)
		w := newWorld(r, func() string { return r.Str(true) })
		spans := collected(r, func() string { return r.Str(true) })
		writeErrors(t, "SpansText", func(o io.Writer) error { return present.SpansText(w.reg, o) })
		writeErrors(t, "FuncsText", func(o io.Writer) error { return present.FuncsText(w.reg, o) })
		writeErrors(t, "StatsText", func(o io.Writer) error { return present.StatsText(w.reg, o) })
		writeErrors(t, "SpansJSON", func(o io.Writer) error { return present.SpansJSON(w.reg, o) })
		writeErrors(t, "FuncsJSON", func(o io.Writer) error { return present.FuncsJSON(w.reg, o) })
		writeErrors(t, "StatsJSON", func(o io.Writer) error { return present.StatsJSON(w.reg, o) })
		writeErrors(t, "SpansToJSON", func(o io.Writer) error { return present.SpansToJSON(o, spans) })
		writeErrors(t, "SpansDot", func(o io.Writer) error { return present.SpansDot(w.reg, o) })
		writeErrors(t, "FuncsDot", func(o io.Writer) error { return present.FuncsDot(w.reg, o) })
		writeErrors(t, "SpansToSVG", func(o io.Writer) error { return present.SpansToSVG(o, spans) })
	}
}
