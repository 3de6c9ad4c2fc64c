// Package zz is laid over the code under test by the checks' overlay. It
// stands in for the locks, the clock and the scheduler, so that a test can
// run goroutines under a schedule of its choosing and a clock of its own.
package zz

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rewritten reports whether the code under test was compiled against this
// package (set by a file the rewriter adds).
var Rewritten bool

type task struct {
	id     int
	resume chan struct{}
	wait   func() bool
	done   bool
	asleep bool
	held   int
	run    int // steps since it was last switched to
}

// Run is one execution under a chosen schedule.
type Run struct {
	tasks    []*task
	cur      *task
	over     chan struct{}
	ended    bool
	Deadlock bool
	Livelock bool
	Panics   []string
	Steps    int
	choose   func(r *Run, cur *task, ready []*task) *task
	prefix   map[int]int
	limit    int
}

var active *Run
var held int32

// Active tells whether a scheduled run is going on.
func Active() bool { return active != nil }

// Held is the number of locks of the code under test the running goroutine
// holds (exact when only one goroutine runs at a time).
func Held() int {
	if r := active; r != nil {
		return r.cur.held
	}
	return int(atomic.LoadInt32(&held))
}

func (r *Run) ready(self *task, all bool) []*task {
	var out []*task
	for _, t := range r.tasks {
		if t.done || t.asleep {
			continue
		}
		if t.wait != nil && !t.wait() {
			continue
		}
		out = append(out, t)
	}
	return out
}

func (r *Run) finish() {
	if !r.ended {
		r.ended = true
		close(r.over)
	}
}

func (r *Run) switchTo(self, next *task) {
	if next == self {
		return
	}
	r.cur = next
	next.run = 0
	next.resume <- struct{}{}
	<-self.resume
}

// point is a place where another goroutine may run.
func (r *Run) point(force bool) {
	self := r.cur
	r.Steps++
	self.run++
	if r.Steps > r.limit {
		r.Livelock = true
		r.finish()
		select {} // abandoned
	}
	ready := r.ready(self, true)
	if len(ready) == 0 {
		r.Deadlock = true
		r.finish()
		select {}
	}
	if force || self.run > 3000 {
		var o []*task
		for _, t := range ready {
			if t != self {
				o = append(o, t)
			}
		}
		if len(o) > 0 {
			r.switchTo(self, o[r.Steps%len(o)])
			return
		}
	}
	r.switchTo(self, r.choose(r, self, ready))
}

func (r *Run) block(cond func() bool) {
	self := r.cur
	for !cond() {
		self.wait = cond
		ready := r.ready(self, true)
		if len(ready) == 0 {
			r.Deadlock = true
			r.finish()
			select {}
		}
		r.Steps++
		r.switchTo(self, r.choose(r, self, ready))
		self.wait = nil
	}
	self.wait = nil
}

func (r *Run) leave(self *task) {
	ready := r.ready(nil, true)
	if len(ready) == 0 {
		for _, t := range r.tasks {
			if !t.done && !t.asleep {
				r.Deadlock = true
			}
		}
		r.finish()
		return
	}
	next := r.choose(r, self, ready)
	r.cur = next
	next.run = 0
	next.resume <- struct{}{}
}

func (r *Run) start(f func()) *task {
	t := &task{id: len(r.tasks), resume: make(chan struct{}, 1)}
	r.tasks = append(r.tasks, t)
	go func() {
		<-t.resume
		defer func() {
			if p := recover(); p != nil {
				r.Panics = append(r.Panics, fmt.Sprintf("%v\n%s", p, trim(debug.Stack())))
			}
			t.done = true
			r.leave(t)
		}()
		f()
	}()
	return t
}

func trim(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Point marks a place between two statements of the code under test.
func Point() {
	if r := active; r != nil {
		r.point(false)
	}
}

// Gosched stands in for runtime.Gosched.
func Gosched() {
	if r := active; r != nil {
		r.point(true)
		return
	}
	time.Sleep(0)
}

// Go stands in for the go statement.
func Go(f func()) {
	if r := active; r != nil {
		r.start(f)
		return
	}
	clock.mu.Lock()
	clock.running++
	clock.mu.Unlock()
	go func() {
		defer func() {
			clock.mu.Lock()
			clock.running--
			clock.mu.Unlock()
		}()
		f()
	}()
}

// ---- locks ----

const patience = 5 * time.Second

func stuck(what string) {
	panic("zz: " + what + " is never released\n" + trim(debug.Stack()))
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

func (m *Mutex) Lock() {
	if r := active; r != nil {
		r.point(false)
		r.block(func() bool { return !m.locked })
		m.locked = true
		r.cur.held++
		return
	}
	for t0 := time.Now(); !m.real.TryLock(); {
		if time.Since(t0) > patience {
			stuck("a mutex")
		}
		time.Sleep(50 * time.Microsecond)
	}
	if m.locked {
		stuck("a mutex")
	}
	m.locked = true
	atomic.AddInt32(&held, 1)
}

func (m *Mutex) TryLock() bool {
	if r := active; r != nil {
		r.point(false)
		if m.locked {
			return false
		}
		m.locked = true
		r.cur.held++
		return true
	}
	if !m.real.TryLock() {
		return false
	}
	m.locked = true
	atomic.AddInt32(&held, 1)
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("zz: unlock of unlocked mutex")
	}
	m.locked = false
	if r := active; r != nil {
		r.cur.held--
		r.point(false)
		return
	}
	atomic.AddInt32(&held, -1)
	m.real.Unlock()
}

// RWMutex stands in for sync.RWMutex; waiting writers keep new readers out.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) try(f func() bool) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return f()
}

func (m *RWMutex) wait(f func() bool) {
	if r := active; r != nil {
		r.block(f)
		return
	}
	for t0 := time.Now(); !m.try(f); {
		if time.Since(t0) > patience {
			stuck("a read/write mutex")
		}
		time.Sleep(50 * time.Microsecond)
	}
}

func count(n int) {
	if r := active; r != nil {
		r.cur.held += n
		return
	}
	atomic.AddInt32(&held, int32(n))
}

func (m *RWMutex) Lock() {
	Point()
	if r := active; r != nil {
		m.waiting++
		r.block(func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
		m.writer = true
	} else {
		m.try(func() bool { m.waiting++; return true })
		m.wait(func() bool {
			if m.writer || m.readers > 0 {
				return false
			}
			m.writer = true
			m.waiting--
			return true
		})
	}
	count(1)
}

func (m *RWMutex) TryLock() bool {
	Point()
	ok := m.try(func() bool {
		if m.writer || m.readers > 0 {
			return false
		}
		m.writer = true
		return true
	})
	if ok {
		count(1)
	}
	return ok
}

func (m *RWMutex) Unlock() {
	m.try(func() bool {
		if !m.writer {
			panic("zz: unlock of unlocked read/write mutex")
		}
		m.writer = false
		return true
	})
	count(-1)
	Point()
}

func (m *RWMutex) RLock() {
	Point()
	if r := active; r != nil {
		r.block(func() bool { return !m.writer && m.waiting == 0 })
		m.readers++
	} else {
		m.wait(func() bool {
			if m.writer || m.waiting > 0 {
				return false
			}
			m.readers++
			return true
		})
	}
	count(1)
}

func (m *RWMutex) TryRLock() bool {
	Point()
	ok := m.try(func() bool {
		if m.writer || m.waiting > 0 {
			return false
		}
		m.readers++
		return true
	})
	if ok {
		count(1)
	}
	return ok
}

func (m *RWMutex) RUnlock() {
	m.try(func() bool {
		if m.readers == 0 {
			panic("zz: read-unlock of a read/write mutex nobody reads under")
		}
		m.readers--
		return true
	})
	count(-1)
	Point()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Point()
	if !o.done {
		o.doSlow(f) // two frames below the caller, as in sync
	}
}

func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// ---- the clock ----

type sleeper struct {
	until  time.Time
	ch     chan *task
	fire   func(time.Time) // tickers and timers
	period time.Duration
	off    bool
}

var clock = struct {
	mu       sync.Mutex
	now      time.Time
	sleepers []*sleeper
	running  int
}{now: time.Unix(1700000000, 0)}

// Now stands in for time.Now.
func Now() time.Time {
	clock.mu.Lock()
	defer clock.mu.Unlock()
	return clock.now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Set moves the clock without waking anyone.
func Set(t time.Time) {
	clock.mu.Lock()
	clock.now = t
	clock.mu.Unlock()
}

// Sleep stands in for time.Sleep.
func Sleep(d time.Duration) {
	s := &sleeper{ch: make(chan *task, 1)}
	clock.mu.Lock()
	s.until = clock.now.Add(d)
	clock.sleepers = append(clock.sleepers, s)
	var self *task
	if r := active; r != nil {
		self = r.cur
		self.asleep = true
		clock.mu.Unlock()
		r.leave(self)
	} else {
		clock.running--
		clock.mu.Unlock()
	}
	t := <-s.ch
	if t != nil {
		<-t.resume
	}
}

// Advance moves the clock and lets whoever slept until then run: under the
// schedule of the current run, or, outside one, to its next sleep.
func Advance(d time.Duration) {
	clock.mu.Lock()
	clock.now = clock.now.Add(d)
	var keep, wake []*sleeper
	tickers := 0
	for _, s := range clock.sleepers {
		if s.off {
			continue
		}
		if s.fire != nil {
			tickers++
		}
		switch {
		case s.until.After(clock.now):
			keep = append(keep, s)
		case s.fire != nil:
			s.fire(clock.now)
			if s.period > 0 {
				for !s.until.After(clock.now) {
					s.until = s.until.Add(s.period)
				}
				keep = append(keep, s)
			}
		default:
			wake = append(wake, s)
		}
	}
	clock.sleepers = keep
	if r := active; r != nil {
		clock.mu.Unlock()
		for _, s := range wake {
			t := &task{id: len(r.tasks), resume: make(chan struct{}, 1)}
			r.tasks = append(r.tasks, t)
			s.ch <- t
		}
		r.point(false)
		return
	}
	clock.running += len(wake)
	clock.mu.Unlock()
	for _, s := range wake {
		s.ch <- nil
	}
	if tickers > 0 {
		time.Sleep(2 * time.Millisecond) // its goroutine waits on channels we do not see
		return
	}
	Settle()
}

func arm(d, period time.Duration, fire func(time.Time)) *sleeper {
	clock.mu.Lock()
	defer clock.mu.Unlock()
	s := &sleeper{until: clock.now.Add(d), period: period, fire: fire}
	clock.sleepers = append(clock.sleepers, s)
	return s
}

func (s *sleeper) disarm() bool {
	clock.mu.Lock()
	defer clock.mu.Unlock()
	was := !s.off && s.until.After(clock.now)
	s.off = true
	return was
}

func feed() (chan time.Time, func(time.Time)) {
	c := make(chan time.Time, 1)
	return c, func(t time.Time) {
		select {
		case c <- t:
		default:
		}
	}
}

// Ticker stands in for time.Ticker.
type Ticker struct {
	C <-chan time.Time
	s *sleeper
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c, f := feed()
	return &Ticker{C: c, s: arm(d, d, f)}
}

func (t *Ticker) Stop() { t.s.disarm() }

func (t *Ticker) Reset(d time.Duration) {
	f := t.s.fire
	t.s.disarm()
	t.s = arm(d, d, f)
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Timer stands in for time.Timer.
type Timer struct {
	C <-chan time.Time
	s *sleeper
}

func NewTimer(d time.Duration) *Timer {
	c, f := feed()
	return &Timer{C: c, s: arm(d, 0, f)}
}

func (t *Timer) Stop() bool { return t.s.disarm() }

func (t *Timer) Reset(d time.Duration) bool {
	f := t.s.fire
	was := t.s.disarm()
	t.s = arm(d, 0, f)
	return was
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{s: arm(d, 0, func(time.Time) { go f() })}
}

// Tickers is the number of armed tickers and timers.
func Tickers() (n int) {
	clock.mu.Lock()
	defer clock.mu.Unlock()
	for _, s := range clock.sleepers {
		if s.fire != nil && !s.off {
			n++
		}
	}
	return n
}

// Settle waits until every goroutine the code under test started sleeps or is
// gone.
func Settle() {
	for t0 := time.Now(); time.Since(t0) < patience; {
		clock.mu.Lock()
		n := clock.running
		clock.mu.Unlock()
		if n <= 0 {
			return
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// ---- exploration ----

// Result is what became of an exploration.
type Result struct {
	Runs, MaxSteps int
	Inconclusive   int
}

type xorshift uint64

func (x *xorshift) next(n int) int {
	v := *x
	v ^= v << 13
	v ^= v >> 7
	v ^= v << 17
	*x = v
	return int(uint64(v>>11) % uint64(n))
}

func execute(fs []func(), order int, pre map[int]int, prob int, seed uint64) *Run {
	r := &Run{over: make(chan struct{}), limit: 400000}
	rng := xorshift(seed*2654435761 + 88172645463325252)
	r.choose = func(r *Run, cur *task, ready []*task) *task {
		if k, ok := pre[r.Steps]; ok {
			return ready[k%len(ready)]
		}
		if prob > 0 && rng.next(1000) < prob {
			return ready[rng.next(len(ready))]
		}
		for _, t := range ready {
			if t == cur {
				return t
			}
		}
		return ready[(order+len(ready)-1)%len(ready)]
	}
	for _, f := range fs {
		r.start(f)
	}
	first := r.tasks[order%len(r.tasks)]
	active = r
	r.cur = first
	first.resume <- struct{}{}
	select {
	case <-r.over:
	case <-time.After(30 * time.Second):
		r.Livelock = true
	}
	active = nil
	return r
}

// Explore runs the goroutines make returns, under every schedule with one
// preemption, then under schedules with two and random ones, up to the
// budget. check, the second result of make, inspects the outcome.
func Explore(budget int, seed uint64, mk func() ([]func(), func() error)) (Result, error) {
	var res Result
	t0 := time.Now()
	limit := 20 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 120 * time.Second
	}
	one := func(order int, pre map[int]int, prob int, s uint64) (int, error) {
		fs, check := mk()
		r := execute(fs, order, pre, prob, s)
		res.Runs++
		if r.Steps > res.MaxSteps {
			res.MaxSteps = r.Steps
		}
		desc := fmt.Sprintf("schedule: first goroutine %d, forced switches %v, switch probability %d/1000, seed %d", order, pre, prob, s)
		switch {
		case r.Deadlock:
			return r.Steps, fmt.Errorf("goroutines deadlock (%s)", desc)
		case r.Livelock:
			res.Inconclusive++
			return r.Steps, nil
		case len(r.Panics) > 0:
			return r.Steps, fmt.Errorf("panic: %s (%s)", strings.Join(r.Panics, "\n"), desc)
		}
		if err := check(); err != nil {
			return r.Steps, fmt.Errorf("%v (%s)", err, desc)
		}
		return r.Steps, nil
	}
	fs, _ := mk()
	n := len(fs)
	steps := make([]int, n)
	for o := 0; o < n; o++ {
		s, err := one(o, nil, 0, 0)
		if err != nil {
			return res, err
		}
		steps[o] = s
	}
	out := func() bool { return res.Runs >= budget || time.Since(t0) > limit }
	for o := 0; o < n; o++ {
		stride := 1
		if steps[o]*n > budget {
			stride = steps[o]*n/budget + 1
		}
		for s := 1; s <= steps[o]; s += stride {
			for k := 0; k < n; k++ {
				if out() {
					return res, nil
				}
				if _, err := one(o, map[int]int{s: k}, 0, 0); err != nil {
					return res, err
				}
			}
		}
	}
	rng := xorshift(seed + 12345)
	probs := []int{5, 20, 80, 300, 700}
	for i := 0; !out(); i++ {
		o := rng.next(n)
		if i%2 == 0 {
			a, b := 1+rng.next(steps[o]+1), 1+rng.next(2*steps[o]+1)
			if _, err := one(o, map[int]int{a: rng.next(n), b: rng.next(n)}, 0, 0); err != nil {
				return res, err
			}
			continue
		}
		if _, err := one(o, nil, probs[rng.next(len(probs))], uint64(rng.next(1<<30))); err != nil {
			return res, err
		}
	}
	return res, nil
}
