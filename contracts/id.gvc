// Identifiers.
package monkit
prop C25
atomicvar idCounter
constant inc

// The process's starting point and stride: the stride is odd and not one.
func init#1()
  op
  modifies idCounter, inc
  ensures stride: inc & 3 == 3 && inc < 9223372036854775808
  emits nothing
end

func NewId() (id)
  op
  modifies idCounter
  ensures step: idCounter == old(idCounter) + inc
  ensures value: uint64(id) == idCounter >> 1
  ensures natural: id >= 0
  emits nothing
end

// Multiplying by an odd stride is injective, so that the counter visits every
// value before it repeats one.
lemma stride-cycle (d uint64, i uint64): i & 1 == 1 && d != 0 ==> d * i != 0
// Two equal ids come from counter values that differ by one at most.
lemma id-counter (a uint64, b uint64): a >> 1 == b >> 1 ==> a == b || a == b + 1 || b == a + 1
// The stride is at least three, so that neighbouring requests never collide.
lemma neighbours (c uint64, i uint64): i & 3 == 3 && i < 9223372036854775808 ==> c >> 1 != (c + i) >> 1
