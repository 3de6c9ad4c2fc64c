package zz

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"
)

// T is what of testing.T the helpers need.
type T interface {
	Helper()
	Errorf(string, ...interface{})
	Fatalf(string, ...interface{})
	Logf(string, ...interface{})
	Skip(...interface{})
	Name() string
}

// Thorough tells whether the deep tier was asked for.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N is the number of cases to run.
func N(quick int) int {
	if Thorough() {
		return quick * 24
	}
	return quick * 4
}

// Seed is the seed of every random choice.
func Seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n*0x9E3779B97F4A7C15 + 0x1234567
}

// Pools are values the verifier's countermodels named.
type pools struct {
	Int   []int64
	Float []float64
	Str   []string
}

var pool = func() (p pools) {
	if b, err := os.ReadFile(os.Getenv("GVC_POOL")); err == nil {
		_ = json.Unmarshal(b, &p)
	}
	return p
}()

// Rng is a seeded random source that favours boundary values.
type Rng struct{ x xorshift }

func NewRng(salt uint64) *Rng {
	r := &Rng{xorshift(Seed() ^ (salt+1)*0xBF58476D1CE4E5B9)}
	if r.x == 0 {
		r.x = 1
	}
	for i := 0; i < 8; i++ {
		r.x.next(2)
	}
	return r
}

func (r *Rng) Intn(n int) int { return r.x.next(n) }
func (r *Rng) Bool() bool     { return r.x.next(2) == 0 }
func (r *Rng) Uint64() uint64 {
	return uint64(r.x.next(1<<31))<<33 ^ uint64(r.x.next(1<<31))<<11 ^ uint64(r.x.next(1<<20))
}

// Ints are interesting integers.
var Ints = append([]int64{0, 1, -1, 2, -2, 3, 5, 7, 10, -10, 63, 64, 65, 100, 1000, -1000,
	1 << 20, 1<<31 - 1, 1 << 31, -(1 << 31), 1 << 32, 1 << 40, -(1 << 40), 1<<53 + 1,
	1 << 62, -(1 << 62), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}, pool.Int...)

// Int is a small number most of the time.
func (r *Rng) Int() int64 {
	switch r.Intn(4) {
	case 0:
		return Ints[r.Intn(len(Ints))]
	case 1:
		return int64(r.Uint64())
	}
	return int64(r.Intn(41) - 20)
}

// Small is an integer far from overflow.
func (r *Rng) Small() int64 {
	if n := len(pool.Int); n > 0 && r.Intn(4) == 0 {
		if v := pool.Int[r.Intn(n)]; v > -(1<<40) && v < 1<<40 {
			return v
		}
	}
	switch r.Intn(3) {
	case 0:
		return int64(r.Intn(2001) - 1000)
	case 1:
		return int64(r.Intn(7) - 3)
	}
	return int64(r.Uint64()%(1<<40)) - 1<<39
}

var Floats = append([]float64{0, 1, -1, 0.5, -0.5, 2, 10, 1e-9, 1e9, -1e9, 123.25, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}, pool.Float...)

func (r *Rng) Float() float64 {
	switch r.Intn(3) {
	case 0:
		f := Floats[r.Intn(len(Floats))]
		if f == f {
			return f
		}
		return 0
	case 1:
		return float64(r.Intn(2001)-1000) / 8
	}
	return float64(r.Intn(11) - 5)
}

var pieces = []string{"a", "b", "name", "x y", ",", "=", " ", "\"", "'", "<", ">", "&", "\n", "/", ":", ".", "-", "é", "世", "%d", "%", "{", "}", "[", "]", ";", "#", "\t", "0", "total", "scope"}

// Str is a short text made of awkward pieces; back says whether a backslash
// may be among them.
func (r *Rng) Str(back bool) string {
	if n := len(pool.Str); n > 0 && r.Intn(4) == 0 {
		return pool.Str[r.Intn(n)]
	}
	s := ""
	for n := r.Intn(4); n >= 0; n-- {
		if back && r.Intn(8) == 0 {
			s += "\\"
		} else {
			s += pieces[r.Intn(len(pieces))]
		}
	}
	if r.Intn(12) == 0 {
		return ""
	}
	return s
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---- counting what was covered ----

var cover = struct {
	sync.Mutex
	n        map[string]int
	distinct map[string]map[string]bool
	sample   map[string]string
}{n: map[string]int{}, distinct: map[string]map[string]bool{}, sample: map[string]string{}}

// Case records one case that was run.
func Case(test, desc string) {
	cover.Lock()
	defer cover.Unlock()
	cover.n[test]++
	if cover.distinct[test] == nil {
		cover.distinct[test] = map[string]bool{}
	}
	if len(cover.distinct[test]) < 200000 {
		cover.distinct[test][desc] = true
	}
	if len(desc) > 300 {
		desc = desc[:300] + "..."
	}
	cover.sample[test] = desc
}

// Report prints what was covered, for the evidence file.
func Report() {
	cover.Lock()
	defer cover.Unlock()
	var names []string
	for n := range cover.n {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b, _ := json.Marshal(map[string]interface{}{"test": n, "evaluations": cover.n[n], "distinct": len(cover.distinct[n]), "sample": cover.sample[n]})
		fmt.Printf("ZZCOVER %s\n", b)
	}
}

// Try explores schedules and reports a failure to t.
func Try(t T, budget int, mk func() ([]func(), func() error)) {
	t.Helper()
	if !Rewritten {
		t.Skip("needs the rewritten code")
	}
	res, err := Explore(N(budget), Seed(), mk)
	for i := 0; i < res.Runs; i++ {
		Case(t.Name(), fmt.Sprintf("schedule %d", i))
	}
	Case(t.Name(), fmt.Sprintf("%d schedules, up to %d steps, %d not finished within the step limit", res.Runs, res.MaxSteps, res.Inconclusive))
	if err != nil {
		t.Fatalf("%v", err)
	}
}

// ---- linearizability ----

type event[M any] struct {
	name      string
	call, ret int
	got       string
	model     func(M) string
}

// Hist records concurrent operations on one object.
type Hist[M any] struct {
	mu  sync.Mutex
	ev  []*event[M]
	clk int
}

func (h *Hist[M]) tick() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.clk++
	return h.clk
}

// Do runs op on the object under test; model says what the reference does.
func (h *Hist[M]) Do(name string, op func() string, model func(M) string) {
	e := &event[M]{name: name, call: h.tick(), model: model}
	h.mu.Lock()
	h.ev = append(h.ev, e)
	h.mu.Unlock()
	e.got = op()
	e.ret = h.tick()
}

// Check looks for an order of the operations, compatible with the order in
// which they ran, that explains every result.
func (h *Hist[M]) Check(fresh func() M) error {
	n := len(h.ev)
	order := make([]int, 0, n)
	used := make([]bool, n)
	var rec func() bool
	replay := func() bool {
		m := fresh()
		for i, k := range order {
			r := h.ev[k].model(m)
			if i == len(order)-1 && r != h.ev[k].got {
				return false
			}
		}
		return true
	}
	rec = func() bool {
		if len(order) == n {
			return true
		}
		min := math.MaxInt
		for i, e := range h.ev {
			if !used[i] && e.ret < min {
				min = e.ret
			}
		}
		for i, e := range h.ev {
			if used[i] || e.call > min {
				continue
			}
			used[i] = true
			order = append(order, i)
			if replay() && rec() {
				return true
			}
			order = order[:len(order)-1]
			used[i] = false
		}
		return false
	}
	if rec() {
		return nil
	}
	s := ""
	for _, e := range h.ev {
		s += fmt.Sprintf("\n  [%d,%d] %s -> %s", e.call, e.ret, e.name, e.got)
	}
	return fmt.Errorf("no order of these operations explains their results:%s", s)
}

// Within fails unless f returns within d: it stands for "does not deadlock".
func Within(t T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			t.Errorf("%s: panic: %v", what, p)
		}
	case <-time.After(d):
		t.Fatalf("%s: still not done after %v", what, d)
	}
}

// Sleepy lets a real moment pass.
func Sleepy(d time.Duration) { time.Sleep(d) }

// Eventually waits for cond, in real time.
func Eventually(cond func() bool) bool {
	for t0 := time.Now(); time.Since(t0) < 10*time.Second; {
		if cond() {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return cond()
}
