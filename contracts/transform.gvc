// Transformers, and the delta transformer's table of previous totals.
package monkit
prop C17

type DeltaTransformer
  lock mtx guards lastTotals*
  nonnil lastTotals
end

func NewDeltaTransformer() (d)
  op nonnil
  ensures new: fresh(d) && fresh(d.lastTotals)
  ensures blank: forall(k, string, !has(d.lastTotals, k))
  emits nothing
end

func (dt *DeltaTransformer) Transform(cb) (r)
  op
  closure f = result 0 (key, field, val)
    modifies contents(dt.lastTotals)
    ensures remembered: field == "total" ==> contents(dt.lastTotals) == with(old(contents(dt.lastTotals)), key.WithField(field), val)
    ensures other: field != "total" ==> contents(dt.lastTotals) == old(contents(dt.lastTotals))
    emits ordered {
      cb(key, field, val)
      if field == "total" && old(has(dt.lastTotals, key.WithField(field))) {
        cb(key, "delta", val - old(dt.lastTotals[key.WithField(field)]))
      }
    }
  end
end
