// Counter: every operation is one atomic step on (val, low, high, nonempty).
package monkit
prop C08

type Counter
  lock mtx guards val low high nonempty
  immutable key
  invariant ordered: self.nonempty ==> (self.low <= self.val && self.val <= self.high)
  invariant blank: !self.nonempty ==> (self.val == 0 && self.low == 0 && self.high == 0)
end

func (c *Counter) set(val)
  inline
end

func NewCounter(key) (r)
  op nonnil
  ensures blank: !r.nonempty && r.val == 0 && r.low == 0 && r.high == 0
  ensures key: r.key == key
  ensures new: fresh(r)
  emits nothing
end

func (c *Counter) Set(val) (former)
  op
  modifies c.val, c.low, c.high, c.nonempty
  ensures former: former == old(c.val)
  ensures value: c.val == val
  ensures low: c.low == ite(old(c.nonempty) && old(c.low) <= val, old(c.low), val)
  ensures high: c.high == ite(old(c.nonempty) && old(c.high) >= val, old(c.high), val)
  ensures seen: c.nonempty
  emits nothing
end

func (c *Counter) Inc(delta) (current)
  op
  modifies c.val, c.low, c.high, c.nonempty
  ensures value: c.val == old(c.val) + delta
  ensures current: current == c.val
  ensures low: c.low == ite(old(c.nonempty) && old(c.low) <= c.val, old(c.low), c.val)
  ensures high: c.high == ite(old(c.nonempty) && old(c.high) >= c.val, old(c.high), c.val)
  ensures seen: c.nonempty
  emits nothing
end

func (c *Counter) Dec(delta) (current)
  op
  inlines Inc
  modifies c.val, c.low, c.high, c.nonempty
  ensures value: c.val == old(c.val) - delta
  ensures current: current == c.val
  ensures low: c.low == ite(old(c.nonempty) && old(c.low) <= c.val, old(c.low), c.val)
  ensures high: c.high == ite(old(c.nonempty) && old(c.high) >= c.val, old(c.high), c.val)
  ensures seen: c.nonempty
  emits nothing
end

func (c *Counter) High() (h)
  op
  ensures high: h == c.high
  emits nothing
end

func (c *Counter) Low() (l)
  op
  ensures low: l == c.low
  emits nothing
end

func (c *Counter) Current() (cur)
  op
  ensures value: cur == c.val
  emits nothing
end

func (c *Counter) Reset() (val, low, high)
  op
  modifies c.val, c.low, c.high, c.nonempty
  ensures returned: val == old(c.val) && low == old(c.low) && high == old(c.high)
  ensures blank: c.val == 0 && c.low == 0 && c.high == 0 && !c.nonempty
  emits nothing
end

func (c *Counter) Stats(cb)
  op callsback
  emits {
    if c.nonempty {
      cb(c.key, "high", float64(c.high))
      cb(c.key, "low", float64(c.low))
    } else {
      cb(c.key, "high", NaN())
      cb(c.key, "low", NaN())
    }
    cb(c.key, "value", float64(c.val))
  }
end
