// Spans: parents and children, orphans, annotations, accessors.
package monkit
prop C03

type Span
  lock mtx guards done orphaned children.first children.rest* annotations
  immutable id start f trace parent parentId args Context
  nonnil f trace Context
end

type Func
  immutable id scope key
  nonnil scope
end

func (s *Span) addChild(child)
  op
  modifies s.children.first, s.children.rest, contents(s.children.rest)
  requires some: child != nil
  ensures added: s.children.first == child || has(s.children.rest, child)
  ensures kept: forall(k, *Span, k != nil && old(s.children.first == k || has(s.children.rest, k)) ==> s.children.first == k || has(s.children.rest, k))
  ensures only: forall(k, *Span, k != nil && (s.children.first == k || has(s.children.rest, k)) ==> k == child || old(s.children.first == k || has(s.children.rest, k)))
  ensures single: !old(has(s.children.rest, child)) && has(s.children.rest, child) ==> s.children.rest[child] == 1
  emits {
    if s.done {
      child.orphan()
    }
  }
end

func (s *Span) removeChild(child)
  op
  requires some: child != nil
  modifies s.children.first, contents(s.children.rest)
  ensures gone: !old(s.children.first == child && has(s.children.rest, child)) && (!old(has(s.children.rest, child)) || old(s.children.rest[child]) <= 1) ==> s.children.first != child && !has(s.children.rest, child)
  ensures others: forall(k, *Span, k != child && k != nil ==> (s.children.first == k || has(s.children.rest, k)) == old(s.children.first == k || has(s.children.rest, k)))
  emits nothing
end

func (s *Span) orphan()
  op
  modifies s.orphaned
  ensures orphaned: s.orphaned == (old(s.orphaned) || !s.done)
  emits {
    if !s.done && !old(s.orphaned) {
      s.f.scope.r.orphanedSpan(s)
    }
  }
end

func (s *Span) Children(cb)
  op callsback
  emits {
    if s.children.first != nil {
      for k := range with(s.children.rest, s.children.first) {
        cb(k)
      }
    } else {
      for k := range s.children.rest {
        cb(k)
      }
    }
  }
end

func (s *Span) Orphaned() (rv)
  op
  ensures value: rv == s.orphaned
  emits nothing
end

func (s *Span) Annotations() (rv)
  prop C30
  op
  ensures copy: seq(rv) == seq(s.annotations)
  ensures new: fresh(rv)
  emits nothing
end

func (s *Span) Annotate(name, val)
  prop C30
  op
  modifies s.annotations
  ensures added: seq(s.annotations) == append(old(seq(s.annotations)), Annotation{Name: name, Value: val})
  emits nothing
end

func (s *Span) Id() (id)
  prop C04
  pure unfold
  ensures value: id == s.id
end

func (s *Span) ParentId() (id, ok)
  prop C04
  pure assume
  ensures given: s.parentId != nil ==> ok && id == *s.parentId
  ensures parent: s.parentId == nil && s.parent != nil ==> ok && id == s.parent.id
  ensures none: s.parentId == nil && s.parent == nil ==> !ok && id == 0
end

func (s *Span) Func() (f)
  prop C04
  pure unfold
  ensures value: f == s.f
end

func (s *Span) Trace() (t)
  prop C04
  pure unfold
  ensures value: t == s.trace
end

func (s *Span) Start() (t)
  prop C04
  pure unfold
  ensures value: t == s.start
end

func (s *Span) Value(key) (v)
  prop C02 C04
  op
  ensures span: key == box(spanKey) ==> v == box(s)
  ensures other: key != box(spanKey) ==> v == s.Context.Value(key)
  emits nothing
end

func SpanFromCtx(ctx) (s)
  prop C04
  pure assume
  requires some: ctx != nil
  ensures itself: is(ctx, *Span) && as(ctx, *Span) != nil ==> s == as(ctx, *Span)
  ensures carried: !(is(ctx, *Span) && as(ctx, *Span) != nil) && is(ctx.Value(spanKey), *Span) ==> s == as(ctx.Value(spanKey), *Span)
  ensures none: !(is(ctx, *Span) && as(ctx, *Span) != nil) && !is(ctx.Value(spanKey), *Span) ==> s == nil
end

func interfacesToString(args) (r)
  prop C30
  pure
  ensures text: r == "{" + concat(args, i, a, ite(i > 0, ", ", "") + ite(is(a, string), strconv.Quote(as(a, string)), ite(is(a, []uint8), "[]uint8(0x" + hex.EncodeToString(as(a, []uint8)) + ")", ite(is(a, time.Time), "time.Time(" + as(a, time.Time).Format(time.RFC3339Nano) + ")", fmt.Sprintf("%#v", a))))) + "}"
  emits nothing
end

func (s *Span) Args() (rv)
  prop C30
  op
  ensures count: len(rv) == len(s.args)
  ensures texts: forall(i, int, 0 <= i && i < len(rv) ==> rv[i] == ite(is(s.args[i], string), strconv.Quote(as(s.args[i], string)), ite(is(s.args[i], []uint8), "[]uint8(0x" + hex.EncodeToString(as(s.args[i], []uint8)) + ")", ite(is(s.args[i], []interface{}), interfacesToString(as(s.args[i], []interface{})), ite(is(s.args[i], time.Time), "time.Time(" + as(s.args[i], time.Time).Format(time.RFC3339Nano) + ")", fmt.Sprintf("%#v", s.args[i]))))))
  emits nothing
end
