// Starting and finishing spans.
package monkit
prop C01 C02 C03 C04 C05 C06
constant unparented taskSecret

type Scope
  immutable r name
  nonnil r sources
  lock mtx guards sources* chains*
end

func newSpan(ctx, f, args, trace, parentId) (sctx, exit)
  op nonnil
  requires some: ctx != nil && f != nil
  ignore monkit.NewId
  let direct: is(ctx, *Span) && as(ctx, *Span) != nil
  let carried: is(ctx.Value(spanKey), *Span) && as(ctx.Value(spanKey), *Span) != nil
  let ps: ite(direct, as(ctx, *Span), as(ctx.Value(spanKey), *Span))
  let parent: ite(parentId == nil && trace == nil && (direct || carried), ps, nil)
  emits {
    if trace != nil {
      t := trace
    } else if direct || carried {
      t := ps.trace
    } else {
      t := NewTrace(bind(n))
      assert("trace-id", from(n, NewId))
      W: f.scope.r.observeTrace(t)
    }
    o := t.getObserver()
    t.incrementSpans()
    if parent != nil {
      f.start(parent.f)
      L: parent.addChild(bind(s))
    } else {
      f.start(nil)
      L: f.scope.r.rootSpanStart(bind(s))
    }
    assert("watched-first", before(W, L))
    assert("span-id", from(s.id, NewId))
    assert("start", isNow(s.start))
    assert("func", s.f == f)
    assert("trace", s.trace == t)
    assert("parent", s.parent == parent)
    assert("parent-id", s.parentId == parentId)
    assert("args", seq(s.args) == seq(args))
    assert("inner", s.Context == ite(direct, ps.Context, ctx))
    assert("live", !s.done && !s.orphaned)
    if o != nil {
      O: c := o.Start(s, s)
      assert("context", sctx == c)
    } else {
      assert("context", sctx == box(s))
    }
    assert("listed-first", before(L, O))
  }
  closure x = result 1 (errptr)
    recovering
    modifies s.done
    let e: ite(errptr != nil, *errptr, nil)
    ensures done: s.done
    emits {
      if panicking != nil {
        E: f.end(any, true, elapsed)
      } else {
        E: f.end(e, false, elapsed)
      }
      if s.children.first != nil {
        s.children.first.orphan()
      }
      for k := range s.children.rest {
        k.orphan()
      }
      if parent != nil {
        parent.removeChild(s)
        if s.orphaned {
          f.scope.r.orphanEnd(s)
        }
      } else {
        f.scope.r.rootSpanEnd(s)
      }
      t.decrementSpans()
      o2 := t.getObserver()
      if o2 != nil {
        O2: o2.Finish(sctx, s, e, panicking != nil, bind(fin))
        assert("finish-time", isNow(fin))
      }
    }
  end
end

func (f *Func) Task(ctx, args) (exit)
  prop C02 C04
  op
  modifies *ctx
  given public: ctx != &taskSecret
  let given0: ite(ctx == nil, old(unparented), ite(old(*ctx) == nil, context.Background(), old(*ctx)))
  emits {
    sctx, x := newSpan(given0, f, args, nil, nil)
    assert("exit", exit == x)
    if ctx != nil && ctx != &unparented {
      assert("context", *ctx == sctx)
    }
  }
end

func (f *Func) RemoteTrace(ctx, parentId, trace, args) (exit)
  prop C02 C04 C06
  op
  given public: ctx != &taskSecret
  modifies *ctx
  let given0: ite(ctx == nil, old(unparented), ite(old(*ctx) == nil, context.Background(), old(*ctx)))
  emits {
    if trace != nil {
      W: f.scope.r.observeTrace(trace)
    }
    S: sctx, x := newSpan(given0, f, args, trace, bind(pid))
    assert("watched-first", before(W, S))
    assert("parent-id", pid != nil && *pid == parentId)
    assert("exit", exit == x)
    if ctx != nil && ctx != &unparented {
      assert("context", *ctx == sctx)
    }
  }
end

func (f *Func) ResetTrace(ctx, args) (exit)
  prop C02 C04 C06
  op
  modifies *ctx
  ignore monkit.NewId
  given public: ctx != &taskSecret
  let given0: ite(ctx == nil, old(unparented), ite(old(*ctx) == nil, context.Background(), old(*ctx)))
  emits {
    t := NewTrace(bind(n))
    assert("trace-id", from(n, NewId))
    W: f.scope.r.observeTrace(t)
    S: sctx, x := newSpan(given0, f, args, t, nil)
    assert("watched-first", before(W, S))
    assert("exit", exit == x)
    if ctx != nil && ctx != &unparented {
      assert("context", *ctx == sctx)
    }
  }
end

func (r resetContext) Value(key) (v)
  prop C04
  op
  requires some: r.Context != nil
  ensures reset: v == ite(key == box(spanKey), nil, r.Context.Value(key))
  emits nothing
end

func ResetContextSpan(ctx) (r)
  prop C04
  op nonnil
  ensures wrapped: r == box(resetContext{Context: ctx})
  emits nothing
end

func taskArgs(f, args) (taken)
  prop C32
  proc
  let asked: len(args) == 2 && is(args[0], taskKey) && as(args[0], taskKey) == taskGetFunc
  given place: !(len(args) == 2 && is(args[0], taskKey) && as(args[0], taskKey) == taskGetFunc) || is(args[1], **Func) && as(args[1], **Func) != nil
  modifies *as(args[1], **Func)
  ensures taken: taken == asked
  ensures given: asked ==> *as(args[1], **Func) == f
  ensures else: !asked && is(args[1], **Func) ==> *as(args[1], **Func) == old(*as(args[1], **Func))
end

func (s *Scope) Task(tags) (t)
  prop C02 C04 C32
  op nonnil
  emits nothing
  closure c = result 0 (ctx, args) (exit)
    first
    given public: ctx != &taskSecret
    modifies *ctx
    let given0: ite(ctx == nil, old(unparented), ite(old(*ctx) == nil, context.Background(), old(*ctx)))
    emits {
      n := callerFunc(any)
      f := s.FuncNamed(n, tags)
      sctx, x := newSpan(given0, f, args, nil, nil)
      assert("exit", exit == x)
      if ctx != nil && ctx != &unparented {
        assert("context", *ctx == sctx)
      }
    }
    closure again = value t with (ctx2, args2) (exit2)
      stays
      given public: ctx2 != &taskSecret
      modifies *ctx2
      let given2: ite(ctx2 == nil, old(unparented), ite(old(*ctx2) == nil, context.Background(), old(*ctx2)))
      emits {
        sctx2, x2 := newSpan(given2, f, args2, nil, nil)
        assert("exit", exit2 == x2)
        if ctx2 != nil && ctx2 != &unparented {
          assert("context", *ctx2 == sctx2)
        }
      }
    end
  end
end

