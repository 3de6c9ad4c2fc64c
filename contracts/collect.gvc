// Collecting spans.
package collect
prop C07

quiet context.Context.Done
constant donePointer

type SpanCollector
  atomic check
  immutable matcher done
  nonnil matcher spansByParent
  lock mtx guards root spansByParent*
end

func NewSpanCollector(matcher) (rv)
  op nonnil
  nilable
  ensures new: fresh(rv) && fresh(rv.done) && rv.check == nil && rv.root == nil && len(rv.spansByParent) == 0
  ensures given: matcher != nil ==> rv.matcher == matcher
  emits nothing
  closure never = value rv.matcher with (s) (r)
    when matcher == nil
    ensures no: !r
    emits nothing
  end
end

func (c *SpanCollector) Done() (ch)
  op
  ensures its: ch == c.done
  emits nothing
end

func (c *SpanCollector) ForceStart(endSpan)
  op
  modifies c.check
  ensures started: c.check == ite(old(c.check) == nil, endSpan, old(c.check))
  emits nothing
end

func (c *SpanCollector) Start(s)
  op callsback
  modifies c.check
  ensures kept: old(c.check) != nil ==> c.check == old(c.check)
  emits {
    if first(c.check) == nil {
      x := c.matcher(s)
      assert("found", implies(x && old(c.check) == nil, c.check == s))
      assert("passed", implies(!x, c.check == old(c.check)))
    }
  }
end

func (c *SpanCollector) Stop()
  op
  modifies c.check
  ensures stopped: c.check == donePointer
  emits {
    if old(c.check) != donePointer {
      close(c.done)
    }
  }
end

func (c *SpanCollector) Finish(s, err, panicked, finish)
  op
  requires some: s != nil
  modifies c.root, contents(c.spansByParent)
  let e0: old(c.check)
  let wanted: e0 != nil && e0 != donePointer && e0.Trace() == s.Trace() && old(c.root) == nil
  let id: nth(s.ParentId(), 0)
  let ok: nth(s.ParentId(), 1)
  ensures apart: !wanted || e0 == s ==> contents(c.spansByParent) == old(contents(c.spansByParent))
  ensures still: !wanted || e0 != s ==> c.root == old(c.root)
  let key: spanParent{parentId: id, ok: ok}
  ensures others: wanted && e0 != s ==> forall(k, spanParent, k != key ==> has(c.spansByParent, k) == old(has(c.spansByParent, k)) && seq(c.spansByParent[k]) == old(seq(c.spansByParent[k])))
  ensures filed: wanted && e0 != s ==> len(c.spansByParent[key]) == old(len(c.spansByParent[key])) + 1
  let z: last(c.spansByParent[key])
  ensures what: wanted && e0 != s ==> fresh(z) && z.Span == s && z.Err == err && z.Panicked == panicked && z.Finish == finish
  ensures before: wanted && e0 != s ==> seq(c.spansByParent[key]) == append(old(seq(c.spansByParent[key])), z)
  ensures last: wanted && e0 == s ==> fresh(c.root) && c.root.Span == s && c.root.Err == err && c.root.Panicked == panicked && c.root.Finish == finish
  emits {
    if wanted && e0 == s {
      c.Stop()
    }
  }
end

func (c *SpanCollector) Spans() (spans)
  op
  trusted "recursion through a local function variable; bounded stand-in"
end

func ObserveAllTraces(r, collector) (cancel)
  op nonnil
  requires some: r != nil && collector != nil
  emits ordered {
    m := r.ObserveTraces(bind(w))
    r.RootSpans(bind(g))
  }
  closure watch = value w with (t)
    given some: t != nil
    guards mtx: cancelers existingTraces* stopping
    modifies *cancelers, contents(*existingTraces)
    let skip: old((*existingTraces)[t]) || old(*stopping)
    ensures idle: skip ==> contents(*existingTraces) == old(contents(*existingTraces)) && seq(*cancelers) == old(seq(*cancelers))
    ensures known: !skip ==> contents(*existingTraces) == with(old(contents(*existingTraces)), t, true)
    emits {
      if !skip {
        x := t.ObserveSpans(collector)
        assert("kept", seq(*cancelers) == append(old(seq(*cancelers)), x))
      }
    }
  end
  closure pick = value g with (s)
    given some: s != nil && s.Trace() != nil
    guards mtx: cancelers existingTraces* stopping
    modifies *cancelers, contents(*existingTraces)
    let skip: old((*existingTraces)[s.Trace()]) || old(*stopping)
    ensures idle: skip ==> contents(*existingTraces) == old(contents(*existingTraces)) && seq(*cancelers) == old(seq(*cancelers))
    ensures known: !skip ==> contents(*existingTraces) == with(old(contents(*existingTraces)), s.Trace(), true)
    emits {
      if !skip {
        x := s.Trace().ObserveSpans(collector)
        assert("kept", seq(*cancelers) == append(old(seq(*cancelers)), x))
      }
    }
  end
  closure stop = result 0 ()
    guards mtx: cancelers existingTraces* stopping
    underlock cb
    modifies *stopping
    ensures over: *stopping
    emits {
      M: m()
      for i, c := range *cancelers {
        c()
      }
    }
  end
end

func WatchForSpans(ctx, r, matcher) (spans, err)
  op callsback
  requires some: r != nil && ctx != nil
  nilable
  emits {
    c := NewSpanCollector(matcher)
    O: cancel := ObserveAllTraces(r, box(c))
    d := c.Done()
    W: k := wait(ctx.Done(), d)
    if k == 0 {
      E: e := ctx.Err()
      assert("ended", spans == nil && err == e)
    } else {
      S: s := c.Spans()
      assert("found", seq(spans) == seq(s) && err == nil)
    }
    C: cancel()
    T: c.Stop()
    assert("order", before(O, W) && before(W, C) && before(W, T))
  }
end

func FindSpan(ctx, r, matcher)
  op callsback
  requires some: r != nil && ctx != nil
  nilable
  emits {
    if matcher != nil {
      O: cancel := ObserveAllTraces(r, bind(m))
      assert("finder", is(m, *spanFinder) && fresh(as(m, *spanFinder)))
      d := as(m, *spanFinder).Done()
      W: k := wait(ctx.Done(), d)
      C: cancel()
      T: as(m, *spanFinder).Stop()
      assert("order", before(O, W) && before(W, C) && before(W, T))
    }
  }
end

type spanFinder
  atomic doneFlag
  immutable doneCh matcher
  nonnil matcher
end

func newSpanFinder(matcher) (m)
  inline
end

func (m *spanFinder) Start(s)
  op callsback
  emits {
    if first(m.doneFlag) == 0 {
      x := m.matcher(s)
      if x {
        m.Stop()
      }
    }
  }
end

func (m *spanFinder) Finish(s, err, panicked, finish)
  op
  emits nothing
end

func (m *spanFinder) Stop()
  op
  modifies m.doneFlag
  ensures stopped: m.doneFlag == 1
  emits {
    if old(m.doneFlag) == 0 {
      close(m.doneCh)
    }
  }
end

func (m *spanFinder) Done() (ch)
  op
  ensures its: ch == m.doneCh
  emits nothing
end

func CollectSpans(ctx, work) (spans)
  op callsback
  requires some: ctx != nil && work != nil
  let s: monkit.SpanFromCtx(ctx)
  let f: s.Func()
  emits {
    if s == nil {
      work(ctx)
      assert("none", spans == nil)
    } else {
      c := NewSpanCollector(nil)
      O: un := s.Trace().ObserveSpans(box(c))
      newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
      X: exit := newF.Task(bind(cp))
      F: c.ForceStart(monkit.SpanFromCtx(at(F, *cp)))
      W: work(at(W, *cp))
      E: exit(nil)
      S: r := c.Spans()
      assert("found", seq(spans) == seq(r))
      U: un()
      T: c.Stop()
      assert("order", before(O, X) && before(X, F) && before(F, W) && before(W, E) && before(E, S) && before(S, U) && before(S, T))
    }
  }
end
