// Publication: scopes, registries, transformers, collection into a map.
package monkit
prop C14

func (s *Scope) Stats(cb)
  op callsback
  emits {
    for n, src := range during(s.sources) {
      src.Stats(func(key, field, val) { cb(key.WithTag("scope", s.name), field, val) })
    }
    for i, src := range during(s.chains) {
      src.Stats(func(key, field, val) { cb(key.WithTag("scope", s.name), field, val) })
    }
  }
end

func (s *Scope) Funcs(cb)
  op callsback
  emits {
    for f := range setof(f, *Func, exists(n, string, has(s.sources, n) && is(s.sources[n], *Func) && f == as(s.sources[n], *Func))) {
      cb(f)
    }
  }
end

func (r *Registry) Scopes(cb)
  op callsback
  emits {
    for n, s := range r.scopes {
      cb(s)
    }
  }
end

func (r *Registry) Funcs(cb)
  op callsback
  emits {
    r.Scopes(func(s) { s.Funcs(cb) })
  }
end

func (r *Registry) Stats(cb)
  op callsback
  emits ordered {
    c := cb
    for i, t := range r.transformers {
      c = t.Transform(c)
    }
    r.Scopes(func(s) { s.Stats(c) })
  }
end

func (r *Registry) WithTransformers(t) (r2)
  op nonnil
  ensures new: fresh(r2)
  ensures shared: r2.registryInternal == r.registryInternal
  ensures chain: seq(r2.transformers) == append(seq(r.transformers), seq(t))
  ensures own: len(r2.transformers) == 0 || fresh(r2.transformers)
  emits nothing
end

func NewRegistry() (r)
  op nonnil
  ensures new: fresh(r) && fresh(r.registryInternal)
  ensures blank: len(r.scopes) == 0 && len(r.spans) == 0 && len(r.orphans) == 0 && len(r.traceWatchers) == 0 && r.traceWatcher == nil && len(r.transformers) == 0
  emits nothing
end

func TransformStatSource(s, transformers) (r)
  op
  closure f = value as(r, StatSourceFunc) with (cb)
    emits ordered {
      c := cb
      for i, t := range transformers {
        c = t.Transform(c)
      }
      s.Stats(c)
    }
  end
end

func (f CallbackTransformerFunc) Transform(cb) (r)
  op
  emits {
    x := f(cb)
    assert("its", r == x)
  }
end

func (f StatSourceFunc) Stats(cb)
  op
  emits {
    f(cb)
  }
end

func Collect(mon) (rv)
  op
  ensures new: fresh(rv)
  emits {
    L: mon.Stats(bind(c))
    assert("empty", at(L, len(rv)) == 0)
    assert("whole", contents(rv) == after(L, contents(rv)))
  }
  closure f = value c with (key, field, val)
    modifies contents(rv)
    ensures kept: contents(rv) == with(old(contents(rv)), key.WithField(field), val)
    emits nothing
  end
end

constant Default

func ScopeNamed(name) (s)
  op
  emits {
    x := Default.ScopeNamed(name)
    assert("its", s == x)
  }
end

func RootSpans(cb)
  op
  emits {
    Default.RootSpans(cb)
  }
end

func Scopes(cb)
  op
  emits {
    Default.Scopes(cb)
  }
end

func Funcs(cb)
  op
  emits {
    Default.Funcs(cb)
  }
end

func Stats(cb)
  op
  emits {
    Default.Stats(cb)
  }
end
