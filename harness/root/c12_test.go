package monkit_test

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

// refDist is the aggregate part of a distribution, in the published unit.
type refDist struct {
	count                  float64
	sum, low, high, recent float64
}

func (d *refDist) insert(v float64) {
	if d.count == 0 || v < d.low {
		d.low = v
	}
	if d.count == 0 || v > d.high {
		d.high = v
	}
	d.count++
	d.sum += v
	d.recent = v
}

func (d *refDist) String() string {
	if d.count == 0 {
		return "count=0"
	}
	return fmt.Sprintf("count=%v sum=%.6f min=%.6f max=%.6f recent=%.6f", d.count, d.sum, d.low, d.high, d.recent)
}

func aggregates(src monkit.StatSource) string {
	st := published(src)
	d := &refDist{st["count"], st["sum"], st["min"], st["max"], st["recent"]}
	return d.String()
}

type observable struct {
	kind     string
	observe  func(int64)
	src      monkit.StatSource
	unit     float64
	quantile func(float64) float64
}

func observables() []observable {
	k := monkit.NewSeriesKey("v")
	iv, fv, dv := monkit.NewIntVal(k), monkit.NewFloatVal(k), monkit.NewDurationVal(k)
	return []observable{
		{"integer value", func(v int64) { iv.Observe(v) }, iv, 1, func(q float64) float64 { return float64(iv.Quantile(q)) }},
		{"float value", func(v int64) { fv.Observe(float64(v)) }, fv, 1, fv.Quantile},
		{"duration value", func(v int64) { dv.Observe(time.Duration(v) * time.Second) }, dv, 1, func(q float64) float64 { return math.Round(dv.Quantile(q).Seconds()*1000) / 1000 }},
	}
}

func TestC12_Sequences(t *testing.T) {
	rng := zz.NewRng(120)
	for i := 0; i < zz.N(600); i++ {
		for k := 0; k < 3; k++ {
			o := observables()[k]
			ref := &refDist{}
			var vals []int64
			desc := o.kind + ": "
			for n := rng.Intn(12); n >= 0; n-- {
				v := int64(rng.Intn(2001) - 1000)
				o.observe(v)
				ref.insert(float64(v))
				vals = append(vals, v)
				desc += fmt.Sprint(v, " ")
				if g, w := aggregates(o.src), ref.String(); g != w {
					t.Fatalf("%s publishes %s, want %s", desc, g, w)
				}
				for _, s := range publish(o.src) {
					if s.key != plainKey(monkit.NewSeriesKey("v")) {
						t.Fatalf("%s published under %s", o.kind, s.key)
					}
				}
				for _, q := range []float64{-1, 0, .5, 1, 2} {
					_, _, w := orderStat(vals, q)
					tol := 1e-3
					if k == 0 {
						tol = 1
					}
					if g := o.quantile(q); g-w > tol*(1+absf(w)*1e-6) || w-g > tol*(1+absf(w)*1e-6) {
						t.Fatalf("%s: quantile %v is %v, want %v", desc, q, g, w)
					}
				}
			}
			zz.Case(t.Name(), desc)
		}
		// booleans
		b := monkit.NewBoolVal(monkit.NewSeriesKey("v"))
		trues, falses, recent := 0., 0., 0.
		desc := "bool: "
		for n := rng.Intn(8); n >= 0; n-- {
			v := rng.Bool()
			b.Observe(v)
			desc += fmt.Sprint(v, " ")
			if v {
				trues++
				recent = 1
			} else {
				falses++
				recent = 0
			}
			key := plainKey(monkit.NewSeriesKey("v"))
			want := []stat{{key, "disposition", trues - falses}, {key, "false", falses}, {key, "recent", recent}, {key, "true", trues}}
			if g := publish(b); !sameSet(g, want) {
				t.Fatalf("%s: published %v, want %v", desc, g, want)
			}
		}
		zz.Case(t.Name(), desc)
	}
	type data struct {
		A int
		B float64
		C bool
	}
	sv := monkit.NewStructVal(monkit.NewSeriesKey("s"))
	if g := publish(sv); len(g) != 0 {
		t.Fatalf("a structure value without observation publishes %v", g)
	}
	for i := 0; i < 20; i++ {
		sv.Observe(data{i, float64(i) / 2, i%2 == 0})
		if i%3 == 0 {
			sv.Observe(&data{i, float64(i) / 2, i%2 == 0})
		}
		c := 0.
		if i%2 == 0 {
			c = 1
		}
		key := plainKey(monkit.NewSeriesKey("s"))
		want := []stat{{key, "A", float64(i)}, {key, "B", float64(i) / 2}, {key, "C", c}}
		if g := publish(sv); !sameSet(g, want) {
			t.Fatalf("structure value publishes %v, want %v", g, want)
		}
		zz.Case(t.Name(), fmt.Sprint(want))
	}
}

func absf(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

func TestC12_Schedules(t *testing.T) {
	for k := 0; k < 3; k++ {
		for v := 0; v < 2; v++ {
			k := k
			v := v
			zz.Try(t, 250, func() ([]func(), func() error) {
				o := observables()[k]
				h := &zz.Hist[*refDist]{}
				obs := func(x int64) {
					h.Do(fmt.Sprintf("Observe(%d)", x), func() string { o.observe(x); return "" }, func(r *refDist) string { r.insert(float64(x)); return "" })
				}
				stats := func() {
					h.Do("Stats()", func() string { return aggregates(o.src) }, func(r *refDist) string { return r.String() })
				}
				quant := func() {
					h.Do("Quantile(1)", func() string { return show(o.quantile(1)) }, func(r *refDist) string { return show(r.high) })
				}
				fs := []func(){func() { obs(1); obs(5) }, func() { obs(-3); stats() }}
				if v == 0 {
					fs = append(fs, func() { stats(); obs(9) })
				} else {
					fs = append(fs, func() { quant(); obs(2) })
				}
				return fs, func() error {
					stats()
					quant()
					return h.Check(func() *refDist { return &refDist{} })
				}
			})
		}
	}
	// booleans: counts are exact in the end, whatever the interleaving
	zz.Try(t, 250, func() ([]func(), func() error) {
		b := monkit.NewBoolVal(monkit.NewSeriesKey("v"))
		var seen []map[string]float64
		fs := []func(){
			func() { b.Observe(true); b.Observe(false) },
			func() { b.Observe(true); b.Observe(true) },
			func() { b.Observe(false); seen = append(seen, published(b)) }}
		return fs, func() error {
			st := published(b)
			if st["true"] != 3 || st["false"] != 2 || st["disposition"] != 1 {
				return fmt.Errorf("3 trues and 2 falses observed, published %v", st)
			}
			for _, s := range seen {
				if s["true"] > 3 || s["false"] > 2 || s["false"] < 1 || (s["recent"] != 0 && s["recent"] != 1) {
					return fmt.Errorf("published %v in between", s)
				}
			}
			return nil
		}
	})
	type data struct{ A, B int }
	zz.Try(t, 250, func() ([]func(), func() error) {
		sv := monkit.NewStructVal(monkit.NewSeriesKey("s"))
		var bad error
		look := func() {
			st := published(sv)
			if len(st) != 0 && (len(st) != 2 || st["A"] != st["B"] || st["A"] < 1) {
				bad = fmt.Errorf("structure value publishes %v", st)
			}
		}
		fs := []func(){
			func() { sv.Observe(data{1, 1}); look() },
			func() { sv.Observe(data{2, 2}); look() },
			func() { look(); look() }}
		return fs, func() error {
			if st := published(sv); len(st) != 2 {
				return fmt.Errorf("structure value publishes %v in the end", st)
			}
			return bad
		}
	})
}

func TestC12_Timers(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the rewritten clock")
	}
	rng := zz.NewRng(121)
	for i := 0; i < zz.N(300); i++ {
		tm := monkit.NewTimer(monkit.NewSeriesKey("t"))
		ref := &refDist{}
		type running struct {
			r       *monkit.RunningTimer
			start   time.Time
			stopped bool
		}
		var rs []*running
		desc := ""
		for n := 0; n < 14; n++ {
			switch rng.Intn(4) {
			case 0:
				rs = append(rs, &running{tm.Start(), zz.Now(), false})
				desc += "start "
			case 1:
				d := time.Duration(rng.Intn(5000)) * time.Millisecond
				zz.Set(zz.Now().Add(d))
				desc += d.String() + " "
			default:
				if len(rs) == 0 {
					continue
				}
				r := rs[rng.Intn(len(rs))]
				want := zz.Now().Sub(r.start)
				if g := r.r.Elapsed(); g != want {
					t.Fatalf("%s: elapsed %v, want %v", desc, g, want)
				}
				if g := r.r.Stop(); g != want && !r.stopped {
					t.Fatalf("%s: stop returns %v, want %v", desc, g, want)
				}
				if !r.stopped {
					ref.insert(want.Seconds())
				}
				r.stopped = true
				desc += "stop "
			}
			if g, w := aggregates(tm), ref.String(); g != w {
				t.Fatalf("%s: timer publishes %s, want %s", desc, g, w)
			}
			v := tm.Values()
			if v.Count != int64(ref.count) || absf(v.Sum.Seconds()-ref.sum) > 1e-6 {
				t.Fatalf("%s: timer values %+v, want %s", desc, v, ref)
			}
			v.Insert(5 * time.Hour) // a copy: must not show
		}
		zz.Case(t.Name(), desc)
	}
	// two goroutines stop the same timer
	zz.Try(t, 300, func() ([]func(), func() error) {
		tm := monkit.NewTimer(monkit.NewSeriesKey("t"))
		a, b := tm.Start(), tm.Start()
		zz.Set(zz.Now().Add(time.Second))
		var seen []float64
		fs := []func(){
			func() { a.Stop(); b.Stop() },
			func() { a.Stop(); seen = append(seen, published(tm)["count"]) },
			func() { b.Stop(); seen = append(seen, float64(tm.Values().Count)) }}
		return fs, func() error {
			st := published(tm)
			if st["count"] != 2 || st["sum"] != 2 || st["min"] != 1 || st["max"] != 1 {
				return fmt.Errorf("two timers of one second: %v", st)
			}
			for _, s := range seen {
				if s < 1 || s > 2 {
					return fmt.Errorf("count %v after the first stop", s)
				}
			}
			return nil
		}
	})
}
