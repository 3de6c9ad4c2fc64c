// The spin lock: taken by one atomic step from free to taken, given back by one
// atomic step.
package monkit
prop C24

type spinLock
  atomic self
end

func (s *spinLock) Lock()
  op
  modifies *s
  ensures free: old(*s) == 0
  ensures taken: *s == 1
  emits nothing
end

func (s *spinLock) Unlock()
  op
  modifies *s
  ensures given: *s == 0
  emits nothing
end
