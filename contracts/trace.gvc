// Traces: values, span count, span observers.
package monkit
prop C31

type Trace
  lock mtx guards vals*
  atomic spanCount spanObservers
  immutable id
end

type spanObserverTuple
  atomic cdr
  immutable car
  nonnil car
end

func NewTrace(id) (t)
  prop C03 C04 C31
  op nonnil
  ensures new: fresh(t)
  ensures blank: t.id == id && t.spanCount == 0 && t.vals == nil && t.spanObservers == nil
  emits nothing
end

func (t *Trace) Id() (id)
  prop C04
  pure unfold
  ensures value: id == t.id
end

func (t *Trace) GetAll() (m)
  op
  ensures copy: fresh(m) && contents(m) == contents(t.vals)
  emits nothing
end

func (t *Trace) Get(key) (val)
  op
  ensures value: val == ite(has(t.vals, key), t.vals[key], nil)
  emits nothing
end

func (t *Trace) Set(key, val)
  op
  modifies t.vals, contents(t.vals)
  ensures set: contents(t.vals) == with(old(contents(t.vals)), key, val)
  emits nothing
end

func (t *Trace) incrementSpans()
  prop C03
  op
  modifies t.spanCount
  ensures counted: t.spanCount == old(t.spanCount) + 1
  emits nothing
end

func (t *Trace) decrementSpans()
  prop C03
  op
  modifies t.spanCount
  ensures counted: t.spanCount == old(t.spanCount) - 1
  emits nothing
end

func (t *Trace) Spans() (n)
  prop C03
  op
  ensures value: n == t.spanCount
  emits nothing
end

func (t *Trace) getObserver() (o)
  prop C05
  op
  ensures none: t.spanObservers == nil ==> o == nil
  ensures one: t.spanObservers != nil && t.spanObservers.cdr == nil ==> o == t.spanObservers.car
  ensures several: t.spanObservers != nil && t.spanObservers.cdr != nil ==> o == box(t.spanObservers)
  emits nothing
end

func (t *Trace) ObserveSpansCtx(observer) (cancel)
  prop C05
  op nonnil
  requires some: observer != nil
  modifies t.spanObservers
  ensures first: fresh(t.spanObservers) && t.spanObservers.car == observer && t.spanObservers.cdr == old(t.spanObservers)
  let mine: t.spanObservers
  emits nothing
  closure c = result 0 ()
    emits {
      t.removeObserver(mine)
    }
  end
end

func (t *Trace) ObserveSpans(observer) (cancel)
  prop C05
  op nonnil
  emits {
    c := t.ObserveSpansCtx(box(spanObserverToSpanCtxObserver{observer: observer}))
    assert("cancel", cancel == c)
  }
end

func (t *Trace) removeObserver(ref)
  prop C05
  op
  emits {
    for {
      q := removeObserverFrom(&t.spanObservers, ref)
      assert("again", !q)
    }
    r := removeObserverFrom(&t.spanObservers, ref)
    assert("until-done", r)
  }
end

func removeObserverFrom(parent, ref) (success)
  prop C05
  op
  holding monkit.Trace.mtx
  modifies *parent
  ensures unlinked: old(*parent) == ref && ref != nil && success ==> *parent == ref.cdr
  ensures kept: old(*parent) != ref || !success ==> *parent == old(*parent)
  ensures none: old(*parent) == nil ==> success
  emits {
    if old(*parent) != nil && old(*parent) != ref {
      r := removeObserverFrom(&old(*parent).cdr, ref)
      assert("result", r == success)
    }
  }
end

func (so spanObserverToSpanCtxObserver) Start(ctx, s) (r)
  prop C05
  op callsback
  ensures same: r == ctx
  emits {
    so.observer.Start(s)
  }
end

func (so spanObserverToSpanCtxObserver) Finish(ctx, s, err, panicked, finish)
  prop C05
  op callsback
  emits {
    so.observer.Finish(s, err, panicked, finish)
  }
end

func (l *spanObserverTuple) Start(ctx, s) (r)
  prop C05
  op callsback
  emits ordered {
    c := l.car.Start(ctx, s)
    if l.cdr != nil {
      d := l.cdr.Start(c, s)
      assert("last", r == d)
    } else {
      assert("only", r == c)
    }
  }
end

func (l *spanObserverTuple) Finish(ctx, s, err, panicked, finish)
  prop C05
  op callsback
  emits ordered {
    l.car.Finish(ctx, s, err, panicked, finish)
    if l.cdr != nil {
      l.cdr.Finish(ctx, s, err, panicked, finish)
    }
  }
end
