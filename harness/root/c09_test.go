package monkit_test

import (
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

// dist is one of the three kinds of distribution. Values are given as int64
// and read back as float64 in the unit they were given in.
type dist struct {
	kind   string
	insert func(int64)
	count  func() int64
	sum    func() float64
	low    func() float64
	high   func() float64
	recent func() float64
	full   func() float64
	ravg   func() float64
	query  func(float64) float64
	reset  func()
	copy   func() dist
	stats  func() []stat
	unit   float64 // published values are multiplied by this
}

func intDist(d *monkit.IntDist) dist {
	return dist{"int", func(v int64) { d.Insert(v) }, func() int64 { return d.Count }, func() float64 { return float64(d.Sum) },
		func() float64 { return float64(d.Low) }, func() float64 { return float64(d.High) }, func() float64 { return float64(d.Recent) },
		func() float64 { return float64(d.FullAverage()) }, func() float64 { return float64(d.ReservoirAverage()) },
		func(q float64) float64 { return float64(d.Query(q)) }, d.Reset, func() dist { return intDist(d.Copy()) },
		func() []stat { return publish(d) }, 1}
}

func floatDist(d *monkit.FloatDist) dist {
	return dist{"float", func(v int64) { d.Insert(float64(v)) }, func() int64 { return d.Count }, func() float64 { return d.Sum },
		func() float64 { return d.Low }, func() float64 { return d.High }, func() float64 { return d.Recent },
		d.FullAverage, d.ReservoirAverage, d.Query, d.Reset, func() dist { return floatDist(d.Copy()) },
		func() []stat { return publish(d) }, 1}
}

func durDist(d *monkit.DurationDist) dist {
	return dist{"duration", func(v int64) { d.Insert(time.Duration(v)) }, func() int64 { return d.Count }, func() float64 { return float64(d.Sum) },
		func() float64 { return float64(d.Low) }, func() float64 { return float64(d.High) }, func() float64 { return float64(d.Recent) },
		func() float64 { return float64(d.FullAverage()) }, func() float64 { return float64(d.ReservoirAverage()) },
		func(q float64) float64 { return float64(d.Query(q)) }, d.Reset, func() dist { return durDist(d.Copy()) },
		func() []stat { return publish(d) }, 1e-9}
}

func newDists() []dist {
	k := monkit.NewSeriesKey("d")
	return []dist{intDist(monkit.NewIntDist(k)), floatDist(monkit.NewFloatDist(k)), durDist(monkit.NewDurationDist(k))}
}

func near(a, b, eps float64) bool {
	return a == b || math.Abs(a-b) <= eps*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func checkAggregates(t *testing.T, d dist, vals []int64, desc string) {
	t.Helper()
	var sum, low, high, recent float64
	for i, v := range vals {
		sum += float64(v)
		if i == 0 || float64(v) < low {
			low = float64(v)
		}
		if i == 0 || float64(v) > high {
			high = float64(v)
		}
		recent = float64(v)
	}
	bad := func(what string, got, want float64) {
		t.Fatalf("%s distribution after %s: %s is %v, want %v", d.kind, desc, what, got, want)
	}
	if d.count() != int64(len(vals)) {
		bad("count", float64(d.count()), float64(len(vals)))
	}
	for _, c := range []struct {
		what      string
		got, want float64
	}{{"sum", d.sum(), sum}, {"low", d.low(), low}, {"high", d.high(), high}, {"recent", d.recent(), recent}} {
		if c.got != c.want {
			bad(c.what, c.got, c.want)
		}
	}
	avg := 0.0
	if len(vals) > 0 {
		avg = sum / float64(len(vals))
		if d.kind != "float" {
			avg = math.Trunc(avg)
		}
	}
	if !near(d.full(), avg, 1e-12) {
		bad("full average", d.full(), avg)
	}
	st := map[string]float64{}
	for _, s := range d.stats() {
		if _, dup := st[s.field]; dup {
			t.Fatalf("%s distribution after %s publishes %s twice", d.kind, desc, s.field)
		}
		st[s.field] = s.val
		if s.key != plainKey(monkit.NewSeriesKey("d")) {
			t.Fatalf("%s distribution publishes under key %s", d.kind, s.key)
		}
	}
	if st["count"] != float64(len(vals)) {
		bad("published count", st["count"], float64(len(vals)))
	}
	if len(vals) == 0 {
		if len(st) != 1 {
			t.Fatalf("%s distribution with no values publishes %v", d.kind, st)
		}
		return
	}
	for f, w := range map[string]float64{"sum": sum, "min": low, "max": high, "recent": recent} {
		g, ok := st[f]
		if !ok || !near(g, w*d.unit, 1e-12) {
			bad("published "+f, g, w*d.unit)
		}
	}
}

func TestC09_Aggregates(t *testing.T) {
	rng := zz.NewRng(9)
	for i := 0; i < zz.N(1500); i++ {
		for k := 0; k < 3; k++ {
			d := newDists()[k]
			var vals []int64
			desc := ""
			n := rng.Intn(12)
			if i%10 == 0 {
				n = 60 + rng.Intn(90)
			}
			for j := 0; j < n; j++ {
				switch op := rng.Intn(14); {
				case op == 0:
					d.reset()
					vals = nil
					desc += "reset "
				case op == 1:
					was := append([]int64(nil), vals...)
					c := d.copy()
					checkAggregates(t, c, was, desc+"copy")
					if rng.Bool() { // go on with the copy; the original must not follow
						c.insert(77)
						checkAggregates(t, d, vals, desc+"insert into a copy")
						d = c
						vals = append(append([]int64(nil), vals...), 77)
						desc += "copy,77 "
					} else {
						d.insert(-78)
						vals = append(vals, -78)
						checkAggregates(t, c, was, desc+"copy, then -78 into the original")
						desc += "-78 "
					}
				case op == 2:
					d.query(float64(rng.Intn(11)) / 10)
					desc += "query "
				default:
					v := rng.Small() % (1 << 40)
					d.insert(v)
					vals = append(vals, v)
					desc += fmt.Sprint(v, " ")
				}
				if j%7 == 0 || j == n-1 {
					checkAggregates(t, d, vals, desc)
				}
			}
			checkAggregates(t, d, vals, desc)
			zz.Case(t.Name(), d.kind+": "+desc)
		}
	}
}

// extreme values: the integer aggregates must stay exact where float64 is not
func TestC09_Extremes(t *testing.T) {
	for _, a := range zz.Ints {
		for _, b := range zz.Ints {
			d := monkit.NewIntDist(monkit.NewSeriesKey("d"))
			d.Insert(a)
			d.Insert(b)
			lo, hi := a, b
			if b < a {
				lo, hi = b, a
			}
			if d.Low != lo || d.High != hi || d.Recent != b || d.Count != 2 || d.Sum != a+b || d.FullAverage() != (a+b)/2 {
				t.Fatalf("int distribution of %d, %d: %+v", a, b, d)
			}
			e := monkit.NewDurationDist(monkit.NewSeriesKey("d"))
			e.Insert(time.Duration(a))
			e.Insert(time.Duration(b))
			if e.Low != time.Duration(lo) || e.High != time.Duration(hi) || e.Recent != time.Duration(b) || e.Count != 2 || e.Sum != time.Duration(a+b) || e.FullAverage() != time.Duration(a+b)/2 {
				t.Fatalf("duration distribution of %d, %d: %+v", a, b, e)
			}
			zz.Case(t.Name(), fmt.Sprint(a, b))
		}
	}
	for _, a := range zz.Floats {
		for _, b := range zz.Floats {
			d := monkit.NewFloatDist(monkit.NewSeriesKey("d"))
			d.Insert(a)
			d.Insert(b)
			if d.Low != math.Min(a, b) || d.High != math.Max(a, b) || d.Recent != b || d.Count != 2 || !same(d.Sum, a+b) || !same(d.FullAverage(), (a+b)/2) {
				t.Fatalf("float distribution of %v, %v: %+v", a, b, d)
			}
			zz.Case(t.Name(), fmt.Sprint(a, b))
		}
	}
}

var fractions = []float64{-1e9, -1, -1e-9, 0, 1e-12, .01, .1, .25, 1. / 3, .5, .51, .75, .9, .95, .99, .999999999, 1, 1 + 1e-9, 2, 1e9, math.Inf(1), math.Inf(-1)}

func orderStat(vals []int64, q float64) (lo, hi, exact float64) {
	s := append([]int64(nil), vals...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	n := len(s)
	if n == 0 {
		return 0, 0, 0
	}
	q = math.Max(0, math.Min(1, q))
	x := q * float64(n-1)
	i := int(x)
	if i >= n-1 {
		return float64(s[n-1]), float64(s[n-1]), float64(s[n-1])
	}
	a, b := float64(s[i]), float64(s[i+1])
	return a, b, a + (x-float64(i))*(b-a)
}

func checkQuantiles(t *testing.T, d dist, vals []int64, desc string) {
	t.Helper()
	prev := math.Inf(-1)
	for _, q := range []float64{math.Inf(-1), -1, 0, 1e-12, .01, .1, .25, 1. / 3, .5, .51, .75, .9, .95, .99, .999999999, 1, 1 + 1e-9, 2, math.Inf(1)} {
		g := d.query(q)
		_, _, w := orderStat(vals, q)
		eps := 1e-9
		tol := 0.0
		if d.kind != "float" {
			tol = 1
		}
		if math.Abs(g-w) > tol+eps*math.Abs(w) {
			t.Fatalf("%s distribution of %s: quantile %v is %v, want %v", d.kind, desc, q, g, w)
		}
		if g < prev {
			t.Fatalf("%s distribution of %s: quantile %v is %v, less than a smaller fraction's %v", d.kind, desc, q, g, prev)
		}
		prev = g
	}
	if n := len(vals); n > 0 {
		lo, _, _ := orderStat(vals, 0)
		hi, _, _ := orderStat(vals, 1)
		if d.query(0) != lo || d.query(1) != hi || d.query(-3) != lo || d.query(7) != hi {
			t.Fatalf("%s distribution of %s: extremes %v..%v, want %v..%v", d.kind, desc, d.query(0), d.query(1), lo, hi)
		}
		for _, m := range []int{1, 2, 4, 8, 16, 32} {
			if n == m+1 {
				for k := 0; k <= m; k++ {
					a, _, _ := orderStat(vals, float64(k)/float64(m))
					if g := d.query(float64(k) / float64(m)); g != a {
						t.Fatalf("%s distribution of %s: quantile %d/%d is %v, want the order statistic %v", d.kind, desc, k, m, g, a)
					}
				}
			}
		}
		sum := 0.0
		for _, v := range vals {
			sum += float64(v)
		}
		if g, w := d.ravg(), sum/float64(n); math.Abs(g-w) > 1+1e-3*math.Abs(w)+1e-2 {
			t.Fatalf("%s distribution of %s: reservoir average %v, want %v", d.kind, desc, g, w)
		}
	} else if d.ravg() != 0 {
		t.Fatalf("%s distribution without values has reservoir average %v", d.kind, d.ravg())
	}
	st := map[string]float64{}
	for _, s := range d.stats() {
		st[s.field] = s.val
	}
	if len(vals) > 0 {
		for f, q := range map[string]float64{"rmin": 0, "r10": .1, "r50": .5, "r90": .9, "r99": .99, "rmax": 1} {
			if g, ok := st[f]; !ok || !near(g, d.query(q)*d.unit, 1e-12) {
				t.Fatalf("%s distribution of %s publishes %s=%v, quantile %v is %v", d.kind, desc, f, g, q, d.query(q))
			}
		}
		if g, ok := st["ravg"]; !ok || !near(g, d.ravg()*d.unit, 1e-12) {
			t.Fatalf("%s distribution of %s publishes ravg=%v, want %v", d.kind, desc, g, d.ravg())
		}
	}
}

func TestC10_Small(t *testing.T) {
	rng := zz.NewRng(10)
	for i := 0; i < zz.N(700); i++ {
		for k := 0; k < 3; k++ {
			d := newDists()[k]
			n := rng.Intn(monkit.ReservoirSize + 1)
			if i < 70 {
				n = i
				if n > monkit.ReservoirSize {
					n = monkit.ReservoirSize
				}
			}
			var vals []int64
			desc := ""
			for round := 0; round < 1+rng.Intn(3); round++ {
				if round > 0 {
					switch rng.Intn(3) {
					case 0:
						d = d.copy()
						desc += "copy "
					default:
						d.reset()
						vals = nil
						desc += "reset "
						checkQuantiles(t, d, vals, desc)
						n = rng.Intn(monkit.ReservoirSize + 1)
					}
				}
				for len(vals) < n {
					v := int64(rng.Intn(1<<20)) - 1<<19
					switch rng.Intn(4) {
					case 0:
						v = int64(rng.Intn(5))
					case 1:
						v = -int64(rng.Intn(3)) * 1000
					}
					d.insert(v)
					vals = append(vals, v)
					desc += fmt.Sprint(v, " ")
					if rng.Intn(10) == 0 {
						d.query(fractions[rng.Intn(len(fractions))])
						desc += "query "
					}
				}
				checkQuantiles(t, d, vals, desc)
			}
			zz.Case(t.Name(), d.kind+": "+desc)
		}
	}
}

// sample reads the sample of a full distribution whose values are multiples
// of a thousand.
func sample(d dist) []int64 {
	out := make([]int64, monkit.ReservoirSize)
	for k := range out {
		out[k] = int64(math.Round(d.query(float64(k)/float64(len(out)-1))/1000)) * 1000
	}
	return out
}

func TestC10_Sampling(t *testing.T) {
	rng := zz.NewRng(11)
	for i := 0; i < zz.N(60); i++ {
		for k := 0; k < 3; k++ {
			d := newDists()[k]
			if i%4 == 3 { // old values must be gone after a reset
				for j := 0; j < 200; j++ {
					d.insert(int64(5000000 + j*1000))
				}
				d.query(.5)
				d.reset()
			}
			inserted := map[int64]int{}
			var before []int64
			n := monkit.ReservoirSize + rng.Intn(300)
			for j := 0; j < n; j++ {
				v := int64(rng.Intn(2000)-1000) * 1000
				d.insert(v)
				inserted[v]++
				if j+1 < monkit.ReservoirSize {
					continue
				}
				after := sample(d)
				for x := 1; x < len(after); x++ {
					if after[x] < after[x-1] {
						t.Fatalf("%s distribution: quantiles decrease: %v", d.kind, after)
					}
				}
				count := map[int64]int{}
				for _, x := range after {
					count[x]++
					if count[x] > inserted[x] {
						t.Fatalf("%s distribution after %d insertions: the sample holds %d (%d times), which was inserted %d times", d.kind, j+1, x, count[x], inserted[x])
					}
				}
				if before != nil {
					lost := 0
					for _, x := range before {
						if count[x] == 0 {
							lost++
						} else {
							count[x]--
						}
					}
					gained := 0
					for x, c := range count {
						if c > 0 {
							gained += c
							if x != v {
								t.Fatalf("%s distribution: inserting %d brought %d into the sample", d.kind, v, x)
							}
						}
					}
					if lost > 1 || gained > 1 || lost != gained {
						t.Fatalf("%s distribution: inserting %d replaced %d values by %d", d.kind, v, lost, gained)
					}
				}
				before = after
				if g := d.query(0); g != float64(after[0]) {
					t.Fatalf("%s distribution: least sampled value %v, quantile 0 gives %v", d.kind, after[0], g)
				}
				if g := d.query(1); g != float64(after[len(after)-1]) {
					t.Fatalf("%s distribution: greatest sampled value %v, quantile 1 gives %v", d.kind, after[len(after)-1], g)
				}
			}
			zz.Case(t.Name(), fmt.Sprintf("%s: %d insertions %v", d.kind, n, before))
		}
	}
}

// the sample follows the values in time
func TestC10_Fresh(t *testing.T) {
	for k := 0; k < 3; k++ {
		zeros := func(d dist) (n int) {
			for _, v := range sample(d) {
				if v == 0 {
					n++
				}
			}
			return n
		}
		d := newDists()[k]
		for j := 0; j < monkit.ReservoirSize; j++ {
			d.insert(0)
		}
		for j := 0; j < 200; j++ {
			d.insert(1000)
		}
		if z := zeros(d); z > 50 {
			t.Fatalf("%s distribution: %d of the first %d values survived 200 more in the sample", d.kind, z, monkit.ReservoirSize)
		}
		for j := 0; j < 30000; j++ {
			d.insert(1000)
		}
		if z := zeros(d); z > 3 {
			t.Fatalf("%s distribution: %d of the first %d values survived 30000 more in the sample", d.kind, z, monkit.ReservoirSize)
		}
		zz.Case(t.Name(), d.kind)
	}
}

// no query panics, whatever went in
func TestC10_NoPanic(t *testing.T) {
	rng := zz.NewRng(12)
	for i := 0; i < zz.N(400); i++ {
		ds := newDists()
		n := rng.Intn(140)
		for j := 0; j < n; j++ {
			v := rng.Int()
			for _, d := range ds {
				d.insert(v)
			}
		}
		f := monkit.NewFloatDist(monkit.NewSeriesKey("f"))
		for j := 0; j < n; j++ {
			f.Insert(rng.Float())
		}
		ds = append(ds, floatDist(f))
		for _, d := range ds {
			for _, q := range fractions {
				d := d
				q := q
				if p, did := panics(func() { d.query(q) }); did {
					t.Fatalf("%s distribution of %d values: quantile %v panics: %v", d.kind, n, q, p)
				}
			}
			if p, did := panics(func() { d.stats(); d.ravg(); d.full() }); did {
				t.Fatalf("%s distribution of %d values panics: %v", d.kind, n, p)
			}
		}
		zz.Case(t.Name(), fmt.Sprint(n, i))
	}
}
