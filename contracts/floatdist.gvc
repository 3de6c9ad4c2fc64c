// FloatDist: sequential; its aggregates are exact, its reservoir samples.
package monkit
prop C09

type FloatDist sequential
  invariant count: self.Count >= 0
  invariant sorted [C10]: self.sorted ==> isSorted(self.reservoir, ite(self.Count < 64, int(self.Count), 64))
end

func initFloatDist(v, key)
  proc
  requires some: v != nil
  modifies v.key, v.rng
  ensures key: v.key == key
end

func NewFloatDist(key) (d)
  op nonnil
  ensures new: fresh(d)
  ensures blank: d.Count == 0 && d.Sum == 0 && d.Low == 0 && d.High == 0 && d.Recent == 0 && !d.sorted
  ensures key: d.key == key
  emits nothing
end

func (d *FloatDist) Insert(val)
  prop C09 C10
  proc
  requires room: d.Count < 4611686018427387904
  given window: Window < 4611686018427387904
  requires number: !isNaN(val)
  modifies d.Low, d.High, d.Recent, d.Sum, d.Count, d.reservoir, d.rng, d.sorted
  ensures count [C09]: d.Count == old(d.Count) + 1
  ensures sum [C09]: d.Sum == old(d.Sum) + val
  ensures recent [C09]: d.Recent == val
  ensures low [C09]: d.Low == ite(old(d.Count) != 0 && !(val < old(d.Low)), old(d.Low), val)
  ensures high [C09]: d.High == ite(old(d.Count) != 0 && !(val > old(d.High)), old(d.High), val)
  ensures stored [C10]: forall(i, int, i >= 0 && i < 64 && old(d.Count) == int64(i) ==> d.reservoir[i] == float32(val))
  ensures kept [C10]: forall(i, int, i >= 0 && i < 64 && old(d.Count) < 64 && old(d.Count) != int64(i) ==> d.reservoir[i] == old(d.reservoir[i]))
  ensures sampled [C10]: forall(i, int, i >= 0 && i < 64 ==> d.reservoir[i] == old(d.reservoir[i]) || d.reservoir[i] == float32(val))
end

func (d *FloatDist) FullAverage() (r)
  proc
  ensures none: d.Count == 0 ==> r == 0
  ensures mean: d.Count > 0 ==> r == d.Sum / float64(d.Count)
end

func (d *FloatDist) ReservoirAverage() (r)
  prop C10
  proc
  ensures none: d.Count == 0 ==> r == 0
  let n: ite(d.Count < 64, int(d.Count), 64)
  ensures part: d.Count > 0 && d.Count < 64 ==> r == float64(fsum(d.reservoir, int(d.Count)) / float32(int(d.Count)))
  ensures full: d.Count >= 64 ==> r == float64(fsum(d.reservoir, 64) / float32(64))
end

func (d *FloatDist) Query(quantile) (r)
  prop C10
  proc
  requires number: !isNaN(quantile)
  modifies d.reservoir, d.sorted
  let n: ite(d.Count < 64, int(d.Count), 64)
  let at: quantile * float64(n - 1)
  ensures none: n < 1 ==> r == 0
  ensures one: n == 1 ==> r == float64(d.reservoir[0])
  ensures order: n >= 2 ==> d.reservoir == ite(old(d.sorted), old(d.reservoir), sorted(old(d.reservoir), n))
  ensures untouched: n < 2 ==> d.reservoir == old(d.reservoir)
  ensures least: n >= 2 && quantile <= 0 ==> r == float64(d.reservoir[0])
  ensures most: n >= 2 && quantile >= 1 ==> r == float64(d.reservoir[n-1])
  ensures between: n >= 2 && quantile > 0 && quantile < 1 ==>
    \ r == float64(float64(d.reservoir[int(at)]) + (at - float64(int(at))) * (float64(d.reservoir[int(at)+1]) - float64(d.reservoir[int(at)])))
end

func (d *FloatDist) Copy() (r)
  proc
  ensures new: fresh(r)
  ensures same: r.Low == d.Low && r.High == d.High && r.Recent == d.Recent && r.Count == d.Count && r.Sum == d.Sum && r.key == d.key
  ensures samples: r.reservoir == d.reservoir && r.sorted == d.sorted
end

func (d *FloatDist) Reset()
  proc
  modifies d.Low, d.High, d.Recent, d.Count, d.Sum
  ensures blank: d.Low == 0 && d.High == 0 && d.Recent == 0 && d.Count == 0 && d.Sum == 0
end

func (d *FloatDist) toFloat64(v) (r)
  proc
  ensures value: r == v
end

func (d *FloatDist) Stats(cb)
  op callsback
  modifies d.reservoir, d.sorted
  emits {
    cb(d.key, "count", float64(d.Count))
    if d.Count > 0 {
      cb(d.key, "sum", d.Sum)
      cb(d.key, "min", d.Low)
      cb(d.key, "max", d.High)
      cb(d.key, "rmin", any)
      cb(d.key, "ravg", any)
      cb(d.key, "r10", any)
      cb(d.key, "r50", any)
      cb(d.key, "r90", any)
      cb(d.key, "r99", any)
      cb(d.key, "rmax", any)
      cb(d.key, "recent", d.Recent)
    }
  }
end
