// funcSet: the set of functions seen as callers; nil is a member like any other.
package monkit
prop C26

type funcSet
  lock Mutex guards rest*
  atomic first
end

func (s *funcSet) Add(f)
  op
  let g: ite(f == nil, nilFunc, f)
  modifies s.first, s.rest, contents(s.rest)
  ensures present: s.first == g || has(s.rest, g)
  ensures first: s.first == old(s.first) || (old(s.first) == nil && s.first == g)
  ensures kept: forall(k, *Func, old(has(s.rest, k)) ==> has(s.rest, k))
  ensures only: forall(k, *Func, has(s.rest, k) ==> old(has(s.rest, k)) || k == g)
  emits nothing
end

func (s *funcSet) Iterate(cb)
  op callsback
  emits {
    if s.first != nil {
      for k := range with(s.rest, s.first) {
        if k == nilFunc {
          cb(nil)
        } else {
          cb(k)
        }
      }
    } else {
      for k := range s.rest {
        if k == nilFunc {
          cb(nil)
        } else {
          cb(k)
        }
      }
    }
  }
end
