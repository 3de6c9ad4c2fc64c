// FuncStats: a call is counted once, in its class, when it ends.
package monkit
prop C01

type FuncStats
  lock parentsAndMutex.Mutex guards errors* panics successTimes failureTimes
  atomic current highwater
  immutable key
  nonnil errors
  assume room: self.successTimes.Count < 4611686018427387904 && self.failureTimes.Count < 4611686018427387904
  invariant counts: self.successTimes.Count >= 0 && self.failureTimes.Count >= 0
  invariant sortedS: self.successTimes.sorted ==> isSorted(self.successTimes.reservoir, ite(self.successTimes.Count < 64, int(self.successTimes.Count), 64))
  invariant sortedF: self.failureTimes.sorted ==> isSorted(self.failureTimes.reservoir, ite(self.failureTimes.Count < 64, int(self.failureTimes.Count), 64))
end

func NewFuncStats(key) (f)
  op nonnil
  ensures new: fresh(f) && fresh(f.errors)
  ensures blank: f.current == 0 && f.highwater == 0 && f.panics == 0 && f.successTimes.Count == 0 && f.failureTimes.Count == 0 && forall(k, string, !has(f.errors, k))
  ensures key: f.key == key
  emits nothing
end

func (f *FuncStats) Reset()
  op
  modifies f.current, f.highwater, f.errors, f.panics, f.successTimes, f.failureTimes
  ensures blank: f.current == 0 && f.highwater == 0 && f.panics == 0 && f.successTimes.Count == 0 && f.failureTimes.Count == 0 && forall(k, string, !has(f.errors, k))
  ensures sums: f.successTimes.Sum == 0 && f.failureTimes.Sum == 0
  emits nothing
end

func (f *FuncStats) start(parent)
  op
  modifies f.current, f.highwater
  ensures current: f.current == old(f.current) + 1
  ensures highwater: f.highwater == ite(old(f.highwater) >= f.current, old(f.highwater), f.current)
  emits {
    f.parentsAndMutex.Add(parent)
  }
end

func (f *FuncStats) end(err, panicked, duration)
  op callsback
  given window: Window < 4611686018427387904
  modifies f.current, contents(f.errors), f.panics, f.successTimes, f.failureTimes
  ensures current: f.current == old(f.current) - 1
  ensures panics: f.panics == ite(panicked, old(f.panics) + 1, old(f.panics))
  ensures success: f.successTimes.Count == ite(!panicked && err == nil, old(f.successTimes.Count) + 1, old(f.successTimes.Count))
  ensures successTime: f.successTimes.Sum == ite(!panicked && err == nil, old(f.successTimes.Sum) + duration, old(f.successTimes.Sum))
  ensures failure: f.failureTimes.Count == ite(panicked || err != nil, old(f.failureTimes.Count) + 1, old(f.failureTimes.Count))
  ensures failureTime: f.failureTimes.Sum == ite(panicked || err != nil, old(f.failureTimes.Sum) + duration, old(f.failureTimes.Sum))
  ensures noerror: panicked || err == nil ==> contents(f.errors) == old(contents(f.errors))
  emits {
    if err != nil && !panicked {
      n := getErrorName(err)
      assert("counted", contents(f.errors) == with(old(contents(f.errors)), n, ite(old(has(f.errors, n)), old(f.errors[n]), int64(0)) + 1))
    }
  }
end

func (f *FuncStats) Current() (n)
  op
  ensures value: n == f.current
  emits nothing
end

func (f *FuncStats) Highwater() (n)
  op
  ensures value: n == f.highwater
  emits nothing
end

func (f *FuncStats) Success() (n)
  op
  ensures value: n == f.successTimes.Count
  emits nothing
end

func (f *FuncStats) Panics() (n)
  op
  ensures value: n == f.panics
  emits nothing
end

func (f *FuncStats) Errors() (m)
  op
  ensures copy: fresh(m) && contents(m) == contents(f.errors)
  emits nothing
end

func (f *FuncStats) SuccessTimes() (d)
  op nonnil
  promises new: fresh(d)
  promises valid: d.Count >= 0 && (d.sorted ==> isSorted(d.reservoir, ite(d.Count < 64, int(d.Count), 64)))
  ensures copy: fresh(d) && d.Count == f.successTimes.Count && d.Sum == f.successTimes.Sum && d.Low == f.successTimes.Low && d.High == f.successTimes.High && d.Recent == f.successTimes.Recent && d.reservoir == f.successTimes.reservoir
  emits nothing
end

func (f *FuncStats) FailureTimes() (d)
  op nonnil
  promises new: fresh(d)
  promises valid: d.Count >= 0 && (d.sorted ==> isSorted(d.reservoir, ite(d.Count < 64, int(d.Count), 64)))
  ensures copy: fresh(d) && d.Count == f.failureTimes.Count && d.Sum == f.failureTimes.Sum && d.Low == f.failureTimes.Low && d.High == f.failureTimes.High && d.Recent == f.failureTimes.Recent && d.reservoir == f.failureTimes.reservoir
  emits nothing
end

func (f *FuncStats) parents(cb)
  prop C26
  op callsback nokeep
  emits {
    f.parentsAndMutex.Iterate(cb)
  }
end

func (f *FuncStats) Stats(cb)
  op callsback
  inlines (*DurationDist).Stats (*FuncStats).Current (*FuncStats).Highwater
  let errs: sum(f.errors)
  emits {
    cb(f.key, "current", float64(f.current))
    cb(f.key, "highwater", float64(f.highwater))
    cb(f.key, "successes", float64(f.successTimes.Count))
    for n, c := range f.errors {
      cb(f.key.WithTag("error_name", n), "count", float64(c))
    }
    cb(f.key, "errors", float64(errs))
    cb(f.key, "panics", float64(f.panics))
    cb(f.key, "failures", float64(errs + f.panics))
    cb(f.key, "total", float64(f.successTimes.Count + errs + f.panics))
    cb(f.successTimes.key, "count", float64(f.successTimes.Count))
    if f.successTimes.Count > 0 {
      cb(f.successTimes.key, "sum", f.successTimes.Sum.Seconds())
      cb(f.successTimes.key, "min", f.successTimes.Low.Seconds())
      cb(f.successTimes.key, "max", f.successTimes.High.Seconds())
      cb(f.successTimes.key, "rmin", any)
      cb(f.successTimes.key, "ravg", any)
      cb(f.successTimes.key, "r10", any)
      cb(f.successTimes.key, "r50", any)
      cb(f.successTimes.key, "r90", any)
      cb(f.successTimes.key, "r99", any)
      cb(f.successTimes.key, "rmax", any)
      cb(f.successTimes.key, "recent", f.successTimes.Recent.Seconds())
    }
    cb(f.failureTimes.key, "count", float64(f.failureTimes.Count))
    if f.failureTimes.Count > 0 {
      cb(f.failureTimes.key, "sum", f.failureTimes.Sum.Seconds())
      cb(f.failureTimes.key, "min", f.failureTimes.Low.Seconds())
      cb(f.failureTimes.key, "max", f.failureTimes.High.Seconds())
      cb(f.failureTimes.key, "rmin", any)
      cb(f.failureTimes.key, "ravg", any)
      cb(f.failureTimes.key, "r10", any)
      cb(f.failureTimes.key, "r50", any)
      cb(f.failureTimes.key, "r90", any)
      cb(f.failureTimes.key, "r99", any)
      cb(f.failureTimes.key, "rmax", any)
      cb(f.failureTimes.key, "recent", f.failureTimes.Recent.Seconds())
    }
  }
end

func (f *FuncStats) Observe() (done)
  prop C01 C02
  op
  emits {
    f.start(nil)
  }
  closure d = result 0 (errptr)
    recovering
    emits {
      if panicking != nil {
        f.end(any, true, elapsed)
      } else if errptr != nil {
        f.end(*errptr, false, elapsed)
      } else {
        f.end(nil, false, elapsed)
      }
    }
  end
end
