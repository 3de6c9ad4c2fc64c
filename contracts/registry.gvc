// The registry: scopes, live root spans, orphans, trace watchers.
package monkit
prop C03

quiet context.Context.Value

type registryInternal
  lock watcherMtx guards watcherCounter traceWatchers*
  lock scopeMtx guards scopes*
  lock spanMtx guards spans*
  lock orphanMtx guards orphans*
  atomic traceWatcher writers watcherMtx
  nonnil traceWatchers scopes spans orphans
  assume ids@watcherMtx: self.watcherCounter < 4611686018427387904
  invariant made@scopeMtx: forall(k, string, has(self.scopes, k) ==> self.scopes[k] != nil)
  invariant some@watcherMtx: forall(k, int64, has(self.traceWatchers, k) ==> self.traceWatchers[k] != nil)
  invariant ids@watcherMtx: self.watcherCounter >= 0 && forall(k, int64, has(self.traceWatchers, k) ==> k < self.watcherCounter)
end

type traceWatcherRef
  immutable watcher
  nonnil watcher
end

type Registry
  immutable registryInternal transformers
  nonnil registryInternal
end

func (r *Registry) rootSpanStart(s)
  op
  modifies contents(r.spans)
  ensures listed: contents(r.spans) == with(old(contents(r.spans)), s)
  emits nothing
end

func (r *Registry) rootSpanEnd(s)
  op
  modifies contents(r.spans)
  ensures unlisted: contents(r.spans) == without(old(contents(r.spans)), s)
  emits nothing
end

func (r *Registry) orphanedSpan(s)
  op
  holding monkit.Span.mtx
  modifies contents(r.orphans)
  ensures listed: contents(r.orphans) == with(old(contents(r.orphans)), s)
  emits nothing
end

func (r *Registry) orphanEnd(s)
  op
  modifies contents(r.orphans)
  ensures unlisted: contents(r.orphans) == without(old(contents(r.orphans)), s)
  emits nothing
end

func (r *Registry) RootSpans(cb)
  op callsback
  emits {
    for s := range r.spans {
      cb(s)
    }
    for s := range r.orphans {
      cb(s)
    }
  }
end

func walkSpan(s, cb)
  op callsback
  emits ordered {
    cb(s)
    s.Children(func(c) { walkSpan(c, cb) })
  }
end

func (r *Registry) AllSpans(cb)
  op callsback
  emits {
    r.RootSpans(func(s) { walkSpan(s, cb) })
  }
end

func (r *Registry) observeTrace(t)
  prop C06
  op callsback
  emits {
    if r.traceWatcher != nil {
      r.traceWatcher.watcher(t)
    }
  }
end

func (r *Registry) ObserveTraces(cb) (cancel)
  prop C06
  op nonnil
  inlines (*Registry).updateWatcher
  requires some: cb != nil
  modifies r.watcherCounter, contents(r.traceWatchers), r.traceWatcher
  let id: old(r.watcherCounter)
  ensures registered: contents(r.traceWatchers) == with(old(contents(r.traceWatchers)), id, cb)
  ensures new: !old(has(r.traceWatchers, id))
  ensures installed: r.traceWatcher != nil
  emits nothing
  closure w = value r.traceWatcher.watcher with (t)
    when r.traceWatcher != nil
    emits {
      for k, c := range r.traceWatchers {
        c(t)
      }
    }
  end
  closure c = result 0 ()
    modifies contents(r.traceWatchers), r.traceWatcher
    ensures removed: contents(r.traceWatchers) == without(old(contents(r.traceWatchers)), id)
    ensures installed: r.traceWatcher == nil ==> forall(k, int64, !has(r.traceWatchers, k))
    emits nothing
    closure w = value r.traceWatcher.watcher with (t)
      when r.traceWatcher != nil
      emits {
        for k, c := range r.traceWatchers {
          c(t)
        }
      }
    end
  end
end
