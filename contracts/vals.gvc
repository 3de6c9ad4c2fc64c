// Values and timers: each observation is one atomic step on the distribution
// it feeds; statistics are taken from one consistent copy of it.
package monkit
prop C12

type IntVal
  lock mtx guards dist
  assume room: self.dist.Count < 4611686018427387904
  invariant count: self.dist.Count >= 0
  invariant sorted: self.dist.sorted ==> isSorted(self.dist.reservoir, ite(self.dist.Count < 64, int(self.dist.Count), 64))
end

func NewIntVal(key) (v)
  op nonnil
  ensures new: fresh(v)
  ensures blank: v.dist.Count == 0 && v.dist.Sum == 0 && v.dist.Low == 0 && v.dist.High == 0 && v.dist.Recent == 0
  ensures key: v.dist.key == key
  emits nothing
end

func (v *IntVal) Observe(val)
  op
  given window: Window < 4611686018427387904
  modifies v.dist.Low, v.dist.High, v.dist.Recent, v.dist.Sum, v.dist.Count, v.dist.reservoir, v.dist.rng, v.dist.sorted
  ensures count: v.dist.Count == old(v.dist.Count) + 1
  ensures sum: v.dist.Sum == old(v.dist.Sum) + val
  ensures recent: v.dist.Recent == val
  ensures low: v.dist.Low == ite(old(v.dist.Count) != 0 && !(val < old(v.dist.Low)), old(v.dist.Low), val)
  ensures high: v.dist.High == ite(old(v.dist.Count) != 0 && !(val > old(v.dist.High)), old(v.dist.High), val)
  emits nothing
end

func (v *IntVal) Quantile(quantile) (rv)
  op
  requires number: !isNaN(quantile)
  modifies v.dist.reservoir, v.dist.sorted
  let n: ite(v.dist.Count < 64, int(v.dist.Count), 64)
  ensures none: n < 1 ==> rv == 0
  ensures one: n == 1 ==> rv == int64(v.dist.reservoir[0])
  ensures order: n >= 2 ==> v.dist.reservoir == ite(old(v.dist.sorted), old(v.dist.reservoir), sorted(old(v.dist.reservoir), n))
  ensures least: n >= 2 && quantile <= 0 ==> rv == int64(v.dist.reservoir[0])
  ensures most: n >= 2 && quantile >= 1 ==> rv == int64(v.dist.reservoir[n-1])
  emits nothing
end

func (v *IntVal) Stats(cb)
  op callsback
  inlines (*IntDist).Stats
  emits {
    cb(v.dist.key, "count", float64(v.dist.Count))
    if v.dist.Count > 0 {
      cb(v.dist.key, "sum", float64(v.dist.Sum))
      cb(v.dist.key, "min", float64(v.dist.Low))
      cb(v.dist.key, "max", float64(v.dist.High))
      cb(v.dist.key, "rmin", any)
      cb(v.dist.key, "ravg", any)
      cb(v.dist.key, "r10", any)
      cb(v.dist.key, "r50", any)
      cb(v.dist.key, "r90", any)
      cb(v.dist.key, "r99", any)
      cb(v.dist.key, "rmax", any)
      cb(v.dist.key, "recent", float64(v.dist.Recent))
    }
  }
end

type FloatVal
  lock mtx guards dist
  assume room: self.dist.Count < 4611686018427387904
  invariant count: self.dist.Count >= 0
  invariant sorted: self.dist.sorted ==> isSorted(self.dist.reservoir, ite(self.dist.Count < 64, int(self.dist.Count), 64))
end

func NewFloatVal(key) (v)
  op nonnil
  ensures new: fresh(v)
  ensures blank: v.dist.Count == 0 && v.dist.Sum == 0 && v.dist.Low == 0 && v.dist.High == 0 && v.dist.Recent == 0
  ensures key: v.dist.key == key
  emits nothing
end

func (v *FloatVal) Observe(val)
  op
  requires number: !isNaN(val)
  given window: Window < 4611686018427387904
  modifies v.dist.Low, v.dist.High, v.dist.Recent, v.dist.Sum, v.dist.Count, v.dist.reservoir, v.dist.rng, v.dist.sorted
  ensures count: v.dist.Count == old(v.dist.Count) + 1
  ensures sum: v.dist.Sum == old(v.dist.Sum) + val
  ensures recent: v.dist.Recent == val
  ensures low: v.dist.Low == ite(old(v.dist.Count) != 0 && !(val < old(v.dist.Low)), old(v.dist.Low), val)
  ensures high: v.dist.High == ite(old(v.dist.Count) != 0 && !(val > old(v.dist.High)), old(v.dist.High), val)
  emits nothing
end

func (v *FloatVal) Quantile(quantile) (rv)
  op
  requires number: !isNaN(quantile)
  modifies v.dist.reservoir, v.dist.sorted
  let n: ite(v.dist.Count < 64, int(v.dist.Count), 64)
  ensures none: n < 1 ==> rv == 0
  ensures one: n == 1 ==> rv == float64(v.dist.reservoir[0])
  ensures order: n >= 2 ==> v.dist.reservoir == ite(old(v.dist.sorted), old(v.dist.reservoir), sorted(old(v.dist.reservoir), n))
  ensures least: n >= 2 && quantile <= 0 ==> rv == float64(v.dist.reservoir[0])
  ensures most: n >= 2 && quantile >= 1 ==> rv == float64(v.dist.reservoir[n-1])
  emits nothing
end

func (v *FloatVal) Stats(cb)
  op callsback
  inlines (*FloatDist).Stats
  emits {
    cb(v.dist.key, "count", float64(v.dist.Count))
    if v.dist.Count > 0 {
      cb(v.dist.key, "sum", float64(v.dist.Sum))
      cb(v.dist.key, "min", float64(v.dist.Low))
      cb(v.dist.key, "max", float64(v.dist.High))
      cb(v.dist.key, "rmin", any)
      cb(v.dist.key, "ravg", any)
      cb(v.dist.key, "r10", any)
      cb(v.dist.key, "r50", any)
      cb(v.dist.key, "r90", any)
      cb(v.dist.key, "r99", any)
      cb(v.dist.key, "rmax", any)
      cb(v.dist.key, "recent", float64(v.dist.Recent))
    }
  }
end

type DurationVal
  lock mtx guards dist
  assume room: self.dist.Count < 4611686018427387904
  invariant count: self.dist.Count >= 0
  invariant sorted: self.dist.sorted ==> isSorted(self.dist.reservoir, ite(self.dist.Count < 64, int(self.dist.Count), 64))
end

func NewDurationVal(key) (v)
  op nonnil
  ensures new: fresh(v)
  ensures blank: v.dist.Count == 0 && v.dist.Sum == 0 && v.dist.Low == 0 && v.dist.High == 0 && v.dist.Recent == 0
  ensures key: v.dist.key == key
  emits nothing
end

func (v *DurationVal) Observe(val)
  op
  given window: Window < 4611686018427387904
  modifies v.dist.Low, v.dist.High, v.dist.Recent, v.dist.Sum, v.dist.Count, v.dist.reservoir, v.dist.rng, v.dist.sorted
  ensures count: v.dist.Count == old(v.dist.Count) + 1
  ensures sum: v.dist.Sum == old(v.dist.Sum) + val
  ensures recent: v.dist.Recent == val
  ensures low: v.dist.Low == ite(old(v.dist.Count) != 0 && !(val < old(v.dist.Low)), old(v.dist.Low), val)
  ensures high: v.dist.High == ite(old(v.dist.Count) != 0 && !(val > old(v.dist.High)), old(v.dist.High), val)
  emits nothing
end

func (v *DurationVal) Quantile(quantile) (rv)
  op
  requires number: !isNaN(quantile)
  modifies v.dist.reservoir, v.dist.sorted
  let n: ite(v.dist.Count < 64, int(v.dist.Count), 64)
  ensures none: n < 1 ==> rv == 0
  ensures one: n == 1 ==> rv == time.Duration(v.dist.reservoir[0])
  ensures order: n >= 2 ==> v.dist.reservoir == ite(old(v.dist.sorted), old(v.dist.reservoir), sorted(old(v.dist.reservoir), n))
  ensures least: n >= 2 && quantile <= 0 ==> rv == time.Duration(v.dist.reservoir[0])
  ensures most: n >= 2 && quantile >= 1 ==> rv == time.Duration(v.dist.reservoir[n-1])
  emits nothing
end

func (v *DurationVal) Stats(cb)
  op callsback
  inlines (*DurationDist).Stats
  emits {
    cb(v.dist.key, "count", float64(v.dist.Count))
    if v.dist.Count > 0 {
      cb(v.dist.key, "sum", v.dist.Sum.Seconds())
      cb(v.dist.key, "min", v.dist.Low.Seconds())
      cb(v.dist.key, "max", v.dist.High.Seconds())
      cb(v.dist.key, "rmin", any)
      cb(v.dist.key, "ravg", any)
      cb(v.dist.key, "r10", any)
      cb(v.dist.key, "r50", any)
      cb(v.dist.key, "r90", any)
      cb(v.dist.key, "r99", any)
      cb(v.dist.key, "rmax", any)
      cb(v.dist.key, "recent", v.dist.Recent.Seconds())
    }
  }
end

type BoolVal
  atomic trues
  atomic falses
  atomic recent
  immutable key
end

func NewBoolVal(key) (v)
  op nonnil
  ensures new: fresh(v)
  ensures blank: v.trues == 0 && v.falses == 0 && v.recent == 0
  ensures key: v.key == key
  emits nothing
end

func (v *BoolVal) Observe(val)
  proc
  modifies v.trues, v.falses, v.recent
  ensures trues: v.trues == old(v.trues) + ite(val, int64(1), int64(0))
  ensures falses: v.falses == old(v.falses) + ite(val, int64(0), int64(1))
  ensures recent: v.recent == ite(val, int32(1), int32(0))
  emits nothing
end

func (v *BoolVal) Stats(cb)
  proc callsback
  emits {
    cb(v.key, "disposition", float64(v.trues - v.falses))
    cb(v.key, "false", float64(v.falses))
    cb(v.key, "recent", float64(v.recent))
    cb(v.key, "true", float64(v.trues))
  }
end

type StructVal
  lock mtx guards recent
  immutable key
end

func NewStructVal(key) (v)
  op nonnil
  ensures new: fresh(v)
  ensures blank: v.recent == nil
  ensures key: v.key == key
  emits nothing
end

func (v *StructVal) Observe(val)
  op
  modifies v.recent
  ensures recent: v.recent == val
  emits nothing
end

type Timer
  lock mtx guards times*
  nonnil times
  assume room: self.times.Count < 4611686018427387904
  invariant count: self.times.Count >= 0
  invariant sorted: self.times.sorted ==> isSorted(self.times.reservoir, ite(self.times.Count < 64, int(self.times.Count), 64))
end

type RunningTimer
  immutable start t
  nonnil t
  guarded stopped by t.mtx
end

func NewTimer(key) (t)
  op nonnil
  inlines NewDurationDist
  ensures new: fresh(t)
  ensures blank: t.times.Count == 0 && t.times.Sum == 0
  ensures key: t.times.key == key
  emits nothing
end

func (t *Timer) Start() (r)
  op nonnil
  ensures new: fresh(r)
  ensures of: r.t == t
  ensures running: !r.stopped
  ensures start: isNow(r.start)
  emits nothing
end

func (r *RunningTimer) Elapsed() (d)
  op
  ensures elapsed: isElapsed(d, r.start)
  emits nothing
end

func (r *RunningTimer) Stop() (d)
  op
  inlines Elapsed
  given window: Window < 4611686018427387904
  modifies r.stopped, r.t.times.Low, r.t.times.High, r.t.times.Recent, r.t.times.Sum, r.t.times.Count, r.t.times.reservoir, r.t.times.rng, r.t.times.sorted
  ensures elapsed: isElapsed(d, r.start)
  ensures stopped: r.stopped
  ensures once: old(r.stopped) ==> r.t.times.Count == old(r.t.times.Count) && r.t.times.Sum == old(r.t.times.Sum)
  ensures counted: !old(r.stopped) ==> r.t.times.Count == old(r.t.times.Count) + 1
  ensures sum: !old(r.stopped) ==> r.t.times.Sum == old(r.t.times.Sum) + d
  ensures recent: !old(r.stopped) ==> r.t.times.Recent == d
  emits nothing
end

func (t *Timer) Values() (rv)
  op
  ensures new: fresh(rv)
  ensures same: rv.Low == t.times.Low && rv.High == t.times.High && rv.Recent == t.times.Recent && rv.Count == t.times.Count && rv.Sum == t.times.Sum && rv.key == t.times.key
  ensures samples: rv.reservoir == t.times.reservoir
  emits nothing
end

func (t *Timer) Stats(cb)
  op callsback
  inlines (*DurationDist).Stats
  emits {
    cb(t.times.key, "count", float64(t.times.Count))
    if t.times.Count > 0 {
      cb(t.times.key, "sum", t.times.Sum.Seconds())
      cb(t.times.key, "min", t.times.Low.Seconds())
      cb(t.times.key, "max", t.times.High.Seconds())
      cb(t.times.key, "rmin", any)
      cb(t.times.key, "ravg", any)
      cb(t.times.key, "r10", any)
      cb(t.times.key, "r50", any)
      cb(t.times.key, "r90", any)
      cb(t.times.key, "r99", any)
      cb(t.times.key, "rmax", any)
      cb(t.times.key, "recent", t.times.Recent.Seconds())
    }
  }
end
