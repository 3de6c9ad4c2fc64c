// Meters: no mark is lost or counted twice, whatever the ticker does.
package monkit
prop C11

type meterBucket
end

type Meter
  lock mtx guards total slices
  immutable key
end

type ticker
  // the elements are not guarded: the list is only appended to, so that what
  // a reader was given of it under the lock stays as it is (register, run)
  lock mtx guards started meters
end

func NewMeter(key) (m)
  op nonnil
  ensures new: fresh(m)
  ensures blank: m.total == 0 && allN(i, 0, 24, m.slices[i].count == 0)
  ensures starts: allN(i, 0, 24, isNow(m.slices[i].start))
  ensures key: m.key == key
  emits {
    defaultTicker.register(m)
  }
end

func (e *Meter) Reset(new_total)
  op
  modifies e.total, e.slices
  ensures total: e.total == new_total
  ensures zero: allN(i, 0, 24, e.slices[i].count == 0)
  ensures starts: allN(i, 0, 24, isNow(e.slices[i].start))
  emits nothing
end

func (e *Meter) SetTotal(total)
  op
  modifies e.total
  ensures total: e.total == total
  emits nothing
end

func (e *Meter) Mark(amount)
  op
  modifies e.slices
  ensures marked: e.slices[23].count == old(e.slices[23].count) + int64(amount)
  ensures kept: allN(i, 0, 23, e.slices[i].count == old(e.slices[i].count))
  ensures starts: allN(i, 0, 24, e.slices[i].start == old(e.slices[i].start))
  emits nothing
end

func (e *Meter) Mark64(amount)
  op
  modifies e.slices
  ensures marked: e.slices[23].count == old(e.slices[23].count) + amount
  ensures kept: allN(i, 0, 23, e.slices[i].count == old(e.slices[i].count))
  ensures starts: allN(i, 0, 24, e.slices[i].start == old(e.slices[i].start))
  emits nothing
end

func (e *Meter) tick(now)
  op
  modifies e.total, e.slices
  ensures lossless: e.total + sumN(i, 0, 24, e.slices[i].count) == old(e.total) + sumN(i, 0, 24, old(e.slices[i].count))
  ensures idle: old(e.slices[23].count) == 0 ==> e.total == old(e.total) && allN(i, 0, 24, e.slices[i].count == old(e.slices[i].count) && e.slices[i].start == old(e.slices[i].start))
  ensures advanced: old(e.slices[23].count) != 0 ==> allN(i, 0, 23, e.slices[i].count == old(e.slices[i+1].count) && e.slices[i].start == old(e.slices[i+1].start))
  ensures opened: old(e.slices[23].count) != 0 ==> e.slices[23].count == 0 && e.slices[23].start == now && e.total == old(e.total) + old(e.slices[0].count)
  emits nothing
end

func (e *Meter) stats(now) (rate, total)
  op
  let cur: sumN(i, 0, 24, e.slices[i].count)
  let secs: now.Sub(e.slices[0].start).Seconds()
  ensures total: total == e.total + cur
  ensures rate: secs > 0 ==> rate == float64(cur) / secs
  ensures none: !(secs > 0) ==> rate == 0
  emits nothing
end

func (e *Meter) Rate() (r)
  op
  inlines stats
  emits nothing
end

func (e *Meter) Total() (r)
  op
  inlines stats
  ensures total: r == float64(e.total + sumN(i, 0, 24, e.slices[i].count))
  emits nothing
end

func (e *Meter) Stats(cb)
  op callsback
  inlines stats
  emits {
    cb(e.key, "rate", any)
    cb(e.key, "total", float64(e.total + sumN(i, 0, 24, e.slices[i].count)))
  }
end

type DiffMeter
  immutable meter1 meter2 key
  nonnil meter1 meter2
end

func NewDiffMeter(key, meter1, meter2) (m)
  op nonnil
  requires some: meter1 != nil && meter2 != nil
  ensures new: fresh(m)
  ensures parts: m.key == key && m.meter1 == meter1 && m.meter2 == meter2
  emits nothing
end

func (m *DiffMeter) Stats(cb)
  proc callsback
  inlines stats
  requires distinct: m.meter1 != m.meter2
  emits {
    cb(m.key, "rate", any)
    cb(m.key, "total", float64((m.meter1.total + sumN(i, 0, 24, m.meter1.slices[i].count)) - (m.meter2.total + sumN(i, 0, 24, m.meter2.slices[i].count))))
  }
end

func (t *ticker) register(m)
  op
  anyevents
  modifies t.started, t.meters
  ensures started: t.started
  ensures listed: seq(t.meters) == append(old(seq(t.meters)), m)
end

// The shared ticker's loop: what one round does.
func (t *ticker) run()
  op
  forever
  emits {
    time.Sleep(timePerTick)
    for i, m := range t.meters {
      m.tick(bind(now))
      assert("now", isNow(now))
    }
  }
end
