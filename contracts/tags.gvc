// Tag sets and series keys: immutable values with a canonical text form.
package monkit
prop C15

type TagSet
  immutable all
  atomic str
  invariant cached@str [C16]: self.str.v == nil || self.str.v == box(join(self.all, k, v, ",", bytes(k, ",= ", "\\") + "=" + bytes(v, ",= ", "\\")))
end

func NewSeriesTag(key, val) (t)
  pure assume
  ensures parts: t.Key == key && t.Val == val
end

func NewSeriesKey(measurement) (k)
  pure assume
  ensures parts: k.Measurement == measurement && k.Tags == nil
end

func (t *TagSet) Get(key) (v)
  pure assume
  nilable
  ensures none: t == nil ==> v == ""
  ensures absent: t != nil && !has(t.all, key) ==> v == ""
  ensures value: t != nil && has(t.all, key) ==> v == t.all[key]
end

func (t *TagSet) All() (m)
  pure assume
  nilable
  ensures none: t == nil ==> len(m) == 0
  ensures all: t != nil ==> contents(m) == contents(t.all)
end

func (t *TagSet) Len() (n)
  pure assume
  nilable
  ensures none: t == nil ==> n == 0
  ensures all: t != nil ==> n == len(t.all)
end

func (t *TagSet) SetAll(kvs) (r)
  pure nonnil
  nilable
  ensures new: fresh(r) && fresh(r.all)
  ensures keys: forall(k, string, has(r.all, k) == (has(kvs, k) || (t != nil && has(t.all, k))))
  ensures given: forall(k, string, has(kvs, k) ==> r.all[k] == kvs[k])
  ensures kept: t != nil ==> forall(k, string, has(t.all, k) && !has(kvs, k) ==> r.all[k] == t.all[k])
end

func (t *TagSet) Set(key, value) (r)
  pure nonnil
  nilable
  inlines SetAll
  ensures new: fresh(r) && fresh(r.all)
  ensures keys: forall(k, string, has(r.all, k) == (k == key || (t != nil && has(t.all, k))))
  ensures given: r.all[key] == value
  ensures kept: t != nil ==> forall(k, string, has(t.all, k) && k != key ==> r.all[k] == t.all[k])
end

func (t *TagSet) SetTags(tags) (r)
  pure nonnil
  nilable
  ensures new: fresh(r) && fresh(r.all)
  ensures keys: forall(k, string, has(r.all, k) == (exists(i, int, i >= 0 && i < len(tags) && tags[i].Key == k) || (t != nil && has(t.all, k))))
  ensures given: forall(i, int, i >= 0 && i < len(tags) && forall(j, int, j > i && j < len(tags) ==> tags[j].Key != tags[i].Key) ==> r.all[tags[i].Key] == tags[i].Val)
  ensures kept: t != nil ==> forall(k, string, has(t.all, k) && !exists(i, int, i >= 0 && i < len(tags) && tags[i].Key == k) ==> r.all[k] == t.all[k])
end

func (s SeriesKey) WithTag(key, value) (r)
  pure
  inlines Set SetAll
  ensures measurement: r.Measurement == s.Measurement
  ensures new: fresh(r.Tags) && fresh(r.Tags.all)
  ensures keys: forall(k, string, has(r.Tags.all, k) == (k == key || (s.Tags != nil && has(s.Tags.all, k))))
  ensures given: r.Tags.all[key] == value
  ensures kept: s.Tags != nil ==> forall(k, string, has(s.Tags.all, k) && k != key ==> r.Tags.all[k] == s.Tags.all[k])
end

func (s SeriesKey) WithTags(tags) (r)
  pure
  inlines SetTags
  ensures measurement: r.Measurement == s.Measurement
  ensures new: fresh(r.Tags) && fresh(r.Tags.all)
  ensures keys: forall(k, string, has(r.Tags.all, k) == (exists(i, int, i >= 0 && i < len(tags) && tags[i].Key == k) || (s.Tags != nil && has(s.Tags.all, k))))
  ensures given: forall(i, int, i >= 0 && i < len(tags) && forall(j, int, j > i && j < len(tags) ==> tags[j].Key != tags[i].Key) ==> r.Tags.all[tags[i].Key] == tags[i].Val)
  ensures kept: s.Tags != nil ==> forall(k, string, has(s.Tags.all, k) && !exists(i, int, i >= 0 && i < len(tags) && tags[i].Key == k) ==> r.Tags.all[k] == s.Tags.all[k])
end

func writeTag(builder, tag)
  prop C16
  proc
  requires some: builder != nil
  modifies *builder
  ensures escaped: builder.s == old(builder.s) + bytes(tag, ",= ", "\\")
end

func writeMeasurement(builder, measurement)
  prop C16
  proc
  requires some: builder != nil
  modifies *builder
  ensures escaped: builder.s == old(builder.s) + bytes(measurement, ", ", "\\")
end

func (t *TagSet) writeTags(builder)
  prop C16
  proc
  requires some: builder != nil
  modifies *builder
  ensures text: builder.s == old(builder.s) + join(t.all, k, v, ",", bytes(k, ",= ", "\\") + "=" + bytes(v, ",= ", "\\"))
end

func (t *TagSet) String() (r)
  prop C16
  pure assume
  nilable
  modifies t.str
  ensures none: t == nil ==> r == ""
  ensures text: t != nil ==> r == join(t.all, k, v, ",", bytes(k, ",= ", "\\") + "=" + bytes(v, ",= ", "\\"))
end

func (s SeriesKey) String() (r)
  prop C16
  pure assume
  ensures plain: s.Tags == nil || len(s.Tags.all) == 0 ==> r == bytes(s.Measurement, ", ", "\\")
  ensures tagged: s.Tags != nil && len(s.Tags.all) > 0 ==> r == bytes(s.Measurement, ", ", "\\") + "," + join(s.Tags.all, k, v, ",", bytes(k, ",= ", "\\") + "=" + bytes(v, ",= ", "\\"))
end

func (s SeriesKey) WithField(field) (r)
  prop C16
  pure assume
  ensures plain: s.Tags == nil || len(s.Tags.all) == 0 ==> r == bytes(s.Measurement, ", ", "\\") + " " + bytes(field, ",= ", "\\")
  ensures tagged: s.Tags != nil && len(s.Tags.all) > 0 ==> r == bytes(s.Measurement, ", ", "\\") + "," + join(s.Tags.all, k, v, ",", bytes(k, ",= ", "\\") + "=" + bytes(v, ",= ", "\\")) + " " + bytes(field, ",= ", "\\")
end
