package monkit_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

// refCounter is what a counter must be.
type refCounter struct {
	val, low, high int64
	any            bool
}

func (c *refCounter) set(v int64) {
	c.val = v
	if !c.any || v < c.low {
		c.low = v
	}
	if !c.any || v > c.high {
		c.high = v
	}
	c.any = true
}

func counterOp(kind int, v int64) (string, func(*monkit.Counter) string, func(*refCounter) string) {
	switch kind {
	case 0:
		return fmt.Sprintf("Inc(%d)", v), func(c *monkit.Counter) string { return show(c.Inc(v)) },
			func(c *refCounter) string { c.set(c.val + v); return show(c.val) }
	case 1:
		return fmt.Sprintf("Dec(%d)", v), func(c *monkit.Counter) string { return show(c.Dec(v)) },
			func(c *refCounter) string { c.set(c.val - v); return show(c.val) }
	case 2:
		return fmt.Sprintf("Set(%d)", v), func(c *monkit.Counter) string { return show(c.Set(v)) },
			func(c *refCounter) string { o := c.val; c.set(v); return show(o) }
	case 3:
		return "Reset()", func(c *monkit.Counter) string { a, b, d := c.Reset(); return show([]int64{a, b, d}) },
			func(c *refCounter) string {
				o := show([]int64{c.val, c.low, c.high})
				*c = refCounter{}
				return o
			}
	case 4:
		return "Current()", func(c *monkit.Counter) string { return show(c.Current()) }, func(c *refCounter) string { return show(c.val) }
	case 5:
		return "High()", func(c *monkit.Counter) string { return show(c.High()) }, func(c *refCounter) string { return show(c.high) }
	case 6:
		return "Low()", func(c *monkit.Counter) string { return show(c.Low()) }, func(c *refCounter) string { return show(c.low) }
	}
	return "Stats()", func(c *monkit.Counter) string { return statsStr(publish(c)) },
		func(c *refCounter) string {
			k := plainKey(monkit.NewSeriesKey("c"))
			if !c.any {
				return statsStr([]stat{{k, "high", math.NaN()}, {k, "low", math.NaN()}, {k, "value", 0}})
			}
			return statsStr([]stat{{k, "high", float64(c.high)}, {k, "low", float64(c.low)}, {k, "value", float64(c.val)}})
		}
}

func TestC08_Sequences(t *testing.T) {
	// every short sequence over a small set of operations
	type op struct {
		kind int
		v    int64
	}
	ops := []op{{0, 1}, {1, 2}, {0, 0}, {2, 5}, {2, -5}, {3, 0}, {0, -3}}
	var rec func(seq []op, depth int)
	check := func(seq []op) {
		c, ref := monkit.NewCounter(monkit.NewSeriesKey("c")), &refCounter{}
		desc := ""
		for _, o := range seq {
			name, real, model := counterOp(o.kind, o.v)
			desc += name + " "
			if g, w := real(c), model(ref); g != w {
				t.Fatalf("%s: got %s, want %s", desc, g, w)
			}
			for k := 4; k <= 7; k++ {
				name, real, model := counterOp(k, 0)
				if g, w := real(c), model(ref); g != w {
					t.Fatalf("%s then %s: got %s, want %s", desc, name, g, w)
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
	rec = func(seq []op, depth int) {
		check(seq)
		if depth == 0 {
			return
		}
		for _, o := range ops {
			rec(append(append([]op(nil), seq...), o), depth-1)
		}
	}
	rec(nil, 4)
	rng := zz.NewRng(8)
	for i := 0; i < zz.N(3000); i++ {
		var seq []op
		for n := rng.Intn(25); n >= 0; n-- {
			k := rng.Intn(3)
			if rng.Intn(9) == 0 {
				k = 3
			}
			seq = append(seq, op{k, rng.Int()})
		}
		check(seq)
	}
}

func TestC08_Schedules(t *testing.T) {
	cases := [][][2]int64{
		{{0, 1}, {0, 2}, {1, 5}}, {{0, 1}, {7, 0}, {0, 3}}, {{0, 4}, {3, 0}, {1, 1}}, {{2, 9}, {0, 1}, {2, -9}}, {{0, 1}, {5, 0}, {6, 0}}, {{1, 3}, {4, 0}, {3, 0}}, {{0, 7}, {3, 0}, {7, 0}}, {{2, 7}, {3, 0}, {5, 0}},
	}
	for i := range cases {
		c := cases[i]
		zz.Try(t, 400, func() ([]func(), func() error) {
			ctr := monkit.NewCounter(monkit.NewSeriesKey("c"))
			h := &zz.Hist[*refCounter]{}
			var fs []func()
			for g := 0; g < len(c); g++ {
				g := g
				fs = append(fs, func() {
					for k := 0; k < 2; k++ {
						name, real, model := counterOp(int(c[(g+k)%len(c)][0]), c[(g+k)%len(c)][1])
						h.Do(name, func() string { return real(ctr) }, model)
					}
				})
			}
			return fs, func() error {
				name, real, model := counterOp(7, 0)
				h.Do(name, func() string { return real(ctr) }, model)
				return h.Check(func() *refCounter { return &refCounter{} })
			}
		})
	}
}
