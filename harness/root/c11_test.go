package monkit_test

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

const (
	tickEvery = 10 * time.Minute
	tickKeep  = 24
)

// refMeter is what a meter must be.
type refMeter struct {
	base   int64
	counts []int64
	starts []time.Time
}

func newRefMeter(now time.Time) *refMeter {
	m := &refMeter{}
	m.reset(0, now)
	return m
}

func (m *refMeter) reset(total int64, now time.Time) {
	m.base = total
	m.counts = make([]int64, tickKeep)
	m.starts = make([]time.Time, tickKeep)
	for i := range m.starts {
		m.starts[i] = now
	}
}

func (m *refMeter) mark(n int64) { m.counts[tickKeep-1] += n }

func (m *refMeter) tick(now time.Time) {
	if m.counts[tickKeep-1] == 0 {
		return
	}
	m.base += m.counts[0]
	m.counts = append(m.counts[1:len(m.counts):len(m.counts)], 0)
	m.starts = append(m.starts[1:len(m.starts):len(m.starts)], now)
}

func (m *refMeter) total() int64 {
	t := m.base
	for _, c := range m.counts {
		t += c
	}
	return t
}

func (m *refMeter) rate(now time.Time) float64 {
	t := int64(0)
	for _, c := range m.counts {
		t += c
	}
	d := now.Sub(m.starts[0]).Seconds()
	if d <= 0 {
		return 0
	}
	return float64(t) / d
}

func TestC11_Sequences(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the rewritten clock")
	}
	rng := zz.NewRng(110)
	for i := 0; i < zz.N(40); i++ {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		zz.Settle()
		ref := newRefMeter(zz.Now())
		m2 := monkit.NewMeter(monkit.NewSeriesKey("m2"))
		ref2 := newRefMeter(zz.Now())
		diff := monkit.NewDiffMeter(monkit.NewSeriesKey("diff"), m, m2)
		desc := ""
		marked := false
		check := func() {
			now := zz.Now()
			if g, w := m.Total(), float64(ref.total()); g != w {
				t.Fatalf("after %s: total %v, want %v", desc, g, w)
			}
			if g, w := m.Rate(), ref.rate(now); !near(g, w, 1e-9) {
				t.Fatalf("after %s: rate %v, want %v", desc, g, w)
			}
			st := publish(m)
			w := []stat{{plainKey(monkit.NewSeriesKey("m")), "rate", m.Rate()}, {plainKey(monkit.NewSeriesKey("m")), "total", m.Total()}}
			if !sameSet(st, w) {
				t.Fatalf("after %s: published %v, want %v", desc, st, w)
			}
			dk := plainKey(monkit.NewSeriesKey("diff"))
			st = publish(diff)
			got := map[string]float64{}
			for _, s := range st {
				if s.key != dk {
					t.Fatalf("difference published under %s", s.key)
				}
				got[s.field] = s.val
			}
			if len(st) != 2 || got["total"] != float64(ref.total()-ref2.total()) || !near(got["rate"], ref.rate(now)-ref2.rate(now), 1e-9) {
				t.Fatalf("after %s: difference %v, want rate %v total %v", desc, st, ref.rate(now)-ref2.rate(now), ref.total()-ref2.total())
			}
		}
		steps := 20
		if i%5 == 0 {
			steps = 150
		}
		for j := 0; j < steps; j++ {
			switch op := rng.Intn(12); {
			case op < 3:
				v := rng.Int()
				m.Mark64(v)
				ref.mark(v)
				marked = true
				desc += fmt.Sprintf("Mark64(%d) ", v)
			case op < 4:
				v := int(rng.Int())
				m.Mark(v)
				ref.mark(int64(v))
				marked = true
				desc += fmt.Sprintf("Mark(%d) ", v)
			case op < 6:
				v := rng.Small()
				m2.Mark64(v)
				ref2.mark(v)
				desc += fmt.Sprintf("second.Mark(%d) ", v)
			case op == 6 && rng.Intn(4) == 0:
				v := rng.Small()
				m.Reset(v)
				ref.reset(v, zz.Now())
				marked = false
				desc += fmt.Sprintf("Reset(%d) ", v)
			case op == 7 && !marked:
				v := rng.Small()
				m.SetTotal(v)
				ref.base = v
				desc += fmt.Sprintf("SetTotal(%d) ", v)
			default:
				zz.Advance(tickEvery)
				ref.tick(zz.Now())
				ref2.tick(zz.Now())
				desc += "tick "
			}
			if len(desc) > 3000 {
				desc = desc[len(desc)-3000:]
			}
			check()
		}
		zz.Case(t.Name(), desc)
	}
}

// a meter's marks and a passing interval, in every order of their steps
func TestC11_Schedules(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the rewritten code")
	}
	m := monkit.NewMeter(monkit.NewSeriesKey("m"))
	zz.Settle()
	for v := 0; v < 4; v++ {
		v := v
		zz.Try(t, 300, func() ([]func(), func() error) {
			m.Reset(0)
			now := zz.Now()
			for i := 0; i < 3; i++ {
				m.Mark64(100)
			}
			h := &zz.Hist[*refMeter]{}
			mark := func(n int64) func() {
				return func() {
					h.Do(fmt.Sprintf("Mark64(%d)", n), func() string { m.Mark64(n); return "" }, func(r *refMeter) string { r.mark(n); return "" })
				}
			}
			total := func() {
				h.Do("Total()", func() string { return show(m.Total()) }, func(r *refMeter) string { return show(float64(r.total())) })
			}
			reset := func() {
				h.Do("Reset(5)", func() string { m.Reset(5); return "" }, func(r *refMeter) string { r.reset(5, now); return "" })
			}
			stats := func() {
				h.Do("Stats()", func() string { return show(published(m)["total"]) }, func(r *refMeter) string { return show(float64(r.total())) })
			}
			markInt := func() {
				h.Do("Mark(7)", func() string { m.Mark(7); return "" }, func(r *refMeter) string { r.mark(7); return "" })
			}
			fs := []func(){func() { mark(1)(); mark(2)() }, func() { mark(10)(); total() }}
			switch v {
			case 0:
				fs = append(fs, func() { total(); stats() })
			case 1:
				fs = append(fs, func() { reset(); total() })
			case 2:
				fs = append(fs, func() { zz.Advance(tickEvery); total() })
			case 3:
				fs = append(fs, func() { markInt(); stats() })
			}
			return fs, func() error {
				total()
				return h.Check(func() *refMeter { r := newRefMeter(now); r.mark(300); return r })
			}
		})
	}
}

// many intervals pass without a reading in between
func TestC11_Window(t *testing.T) {
	if !zz.Rewritten {
		t.Skip("needs the rewritten clock")
	}
	for _, every := range []int{1, 2, 3} {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		zz.Settle()
		ref := newRefMeter(zz.Now())
		desc := ""
		for i := 0; i < 100; i++ {
			if i%every == 0 {
				m.Mark(i + 1)
				ref.mark(int64(i + 1))
			}
			zz.Advance(tickEvery)
			ref.tick(zz.Now())
			desc += "."
			if i%13 == 12 {
				if g, w := m.Total(), float64(ref.total()); g != w {
					t.Fatalf("marks every %d intervals: after %d intervals total %v, want %v", every, i+1, g, w)
				}
				if g, w := m.Rate(), ref.rate(zz.Now()); math.Abs(g-w) > 1e-9*math.Max(1, w) {
					t.Fatalf("marks every %d intervals: after %d intervals rate %v, want %v", every, i+1, g, w)
				}
			}
		}
		zz.Case(t.Name(), fmt.Sprint(every, strings.Count(desc, ".")))
	}
}
