// Scopes: one object per kind, name and tags; publication.
package monkit
prop C13

func writeSourceNamePart(builder, part)
  proc
  requires some: builder != nil
  modifies *builder
  ensures escaped: builder.s == old(builder.s) + bytes(part, "\\:,=", "\\")
end

func sourceName(namespace, name, tags) (r)
  pure assume
  ensures text: r == namespace + bytes(name, "\\:,=", "\\") + concat(tags, t, "," + bytes(t.Key, "\\:,=", "\\") + "=" + bytes(t.Val, "\\:,=", "\\"))
end

func (s *Scope) newSource(name, constructor) (rv)
  op
  underlock constructor
  requires maker: constructor != nil
  modifies contents(s.sources)
  ensures existing: old(has(s.sources, name)) ==> rv == old(s.sources[name]) && contents(s.sources) == old(contents(s.sources))
  ensures new: !old(has(s.sources, name)) ==> contents(s.sources) == with(old(contents(s.sources)), name, rv)
  emits {
    if !old(has(s.sources, name)) {
      c := constructor()
      assert("made", rv == c)
    }
  }
end

func (r *Registry) ScopeNamed(name) (s)
  op nonnil
  modifies contents(r.scopes)
  ensures existing: old(has(r.scopes, name)) ==> s == old(r.scopes[name]) && contents(r.scopes) == old(contents(r.scopes))
  ensures new: !old(has(r.scopes, name)) ==> fresh(s) && s.r == r && s.name == name && len(s.sources) == 0 && len(s.chains) == 0 && contents(r.scopes) == with(old(contents(r.scopes)), name, s)
  emits nothing
end

func newFunc(s, key) (f)
  op nonnil
  requires some: s != nil
  ensures new: fresh(f)
  ensures parts: f.scope == s && f.key == key
  ensures id [C13 C25]: from(f.id, NewId)
  anyevents
end

func (s *Scope) FuncNamed(name, tags) (f)
  op nonnil
  emits {
    src := s.newSource(sourceName("func:", name, tags), func() StatSource {
      x := newFunc(s, NewSeriesKey("function").WithTag("name", name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *Func)
  ensures object: f == as(src, *Func)
end

func (s *Scope) Func() (f)
  prop C32 C13
  op nonnil
  emits {
    n := callerFunc(any)
    g := s.FuncNamed(n)
    assert("same", f == g)
  }
end

func (s *Scope) DiffMeter(name, m1, m2, tags)
  op
  requires some: m1 != nil && m2 != nil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewDiffMeter(NewSeriesKey(name).WithTags(tags), m1, m2)
      return box(x)
    })
  }
  panics after !is(src, *DiffMeter)
end

func (s *Scope) Event(name, tags)
  op
  emits {
    m := s.Meter(name, tags)
    m.Mark(1)
  }
end

func (s *Scope) Meter(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewMeter(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *Meter)
  ensures object: v == as(src, *Meter)
end

func (s *Scope) IntVal(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewIntVal(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *IntVal)
  ensures object: v == as(src, *IntVal)
end

func (s *Scope) FloatVal(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewFloatVal(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *FloatVal)
  ensures object: v == as(src, *FloatVal)
end

func (s *Scope) BoolVal(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewBoolVal(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *BoolVal)
  ensures object: v == as(src, *BoolVal)
end

func (s *Scope) StructVal(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewStructVal(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *StructVal)
  ensures object: v == as(src, *StructVal)
end

func (s *Scope) DurationVal(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewDurationVal(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *DurationVal)
  ensures object: v == as(src, *DurationVal)
end

func (s *Scope) Timer(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewTimer(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *Timer)
  ensures object: v == as(src, *Timer)
end

func (s *Scope) Counter(name, tags) (v)
  op nonnil
  emits {
    src := s.newSource(sourceName("", name, tags), func() StatSource {
      x := NewCounter(NewSeriesKey(name).WithTags(tags))
      return box(x)
    })
  }
  panics after !is(src, *Counter)
  ensures object: v == as(src, *Counter)
end

func (s *Scope) IntValf(template, args) (v)
  op nonnil
  emits {
    x := s.IntVal(fmt.Sprintf(template, args))
    assert("same", v == x)
  }
end

func (s *Scope) FloatValf(template, args) (v)
  op nonnil
  emits {
    x := s.FloatVal(fmt.Sprintf(template, args))
    assert("same", v == x)
  }
end

func (s *Scope) BoolValf(template, args) (v)
  op nonnil
  emits {
    x := s.BoolVal(fmt.Sprintf(template, args))
    assert("same", v == x)
  }
end

func (s *Scope) Gauge(name, cb)
  prop C13 C14
  op
  modifies contents(s.sources)
  let n: sourceName("", name, nil)
  panics after old(has(s.sources, n)) && !is(old(s.sources[n]), gauge)
  ensures listed: contents(s.sources) == with(old(contents(s.sources)), n, s.sources[n]) && has(s.sources, n)
  ensures kind: is(s.sources[n], gauge) && is(as(s.sources[n], gauge).StatSource, StatSourceFunc)
  emits nothing
  closure publish = value as(as(s.sources[n], gauge).StatSource, StatSourceFunc) with (scb)
    emits ordered {
      v := cb()
      scb(NewSeriesKey(name), "value", v)
    }
  end
end

func (s *Scope) Chain(source)
  prop C14
  op
  modifies s.chains
  ensures added: seq(s.chains) == append(old(seq(s.chains)), source)
  emits nothing
end

func (s *Scope) Name() (n)
  prop C13 C14
  pure unfold
  ensures value: n == s.name
end
