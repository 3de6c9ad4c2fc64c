// Trace information in HTTP headers; traced handlers and clients.
package http
prop C18

func hexToUint64(s) (v, err)
  pure
  emits {
    u, e := strconv.ParseUint(s, 16, 64)
    assert("parsed", v == int64(u) && err == e)
  }
end

func TraceInfoFromHeader(header, allowedBaggage) (rv)
  op
  emits {
    tp := header.Get("traceparent")
    ts := header.Get("tracestate")
    bg := header.Get("baggage")
    if tp == "" {
      assert("no-ids", rv.TraceId == nil && rv.ParentId == nil && rv.Baggage == nil)
      assert("orphan-sampling", rv.Sampled == strings.Contains(ts, "sampled=true"))
    } else {
      parts := strings.Split(tp, "-")
      v0, e0 := hexToUint64(parts[0])
      v1, e1 := hexToUint64(parts[1])
      v2, e2 := hexToUint64(parts[2])
      v3, e3 := hexToUint64(parts[3])
      if len(parts) == 4 && e0 == nil && v0 == 0 && e1 == nil && e2 == nil && e3 == nil {
        assert("trace", rv.TraceId != nil && *rv.TraceId == v1)
        assert("parent", rv.ParentId != nil && *rv.ParentId == v2)
        assert("sampled", rv.Sampled == (v3&1 == 1))
        kvs := strings.Split(bg, ",")
        assert("complete", implies(bg != "", forall(k, string, has(rv.Baggage, k) == (exists(i, int, 0 <= i && i < len(allowedBaggage) && allowedBaggage[i] == k) && exists(j, int, 0 <= j && j < len(kvs) && nth(strings.Cut(kvs[j], "="), 2) && nth(strings.Cut(kvs[j], "="), 0) == k)))))
        assert("values", implies(bg != "", forall(j, int, implies(0 <= j && j < len(kvs) && nth(strings.Cut(kvs[j], "="), 2) && has(rv.Baggage, nth(strings.Cut(kvs[j], "="), 0)) && forall(l, int, implies(j < l && l < len(kvs) && nth(strings.Cut(kvs[l], "="), 2), nth(strings.Cut(kvs[l], "="), 0) != nth(strings.Cut(kvs[j], "="), 0))), rv.Baggage[nth(strings.Cut(kvs[j], "="), 0)] == nth(strings.Cut(kvs[j], "="), 1)))))
        assert("no-baggage", implies(bg == "", rv.Baggage != nil && len(rv.Baggage) == 0))
        assert("allowed", forall(k, string, implies(has(rv.Baggage, k), exists(i, int, 0 <= i && i < len(allowedBaggage) && allowedBaggage[i] == k))))
      } else {
        assert("malformed", rv.TraceId == nil && rv.ParentId == nil && !rv.Sampled && rv.Baggage == nil)
      }
    }
  }
end

func TraceInfoFromSpan(s) (info)
  op
  emits {
    v := s.Trace().Get(present.SampledKey)
    if is(v, bool) && as(v, bool) {
      pid, pok := s.ParentId()
      assert("trace", info.TraceId != nil && *info.TraceId == s.Trace().Id())
      assert("parent", info.ParentId != nil && *info.ParentId == ite(pok, pid, s.Id()))
      assert("sampled", info.Sampled && info.Baggage == nil)
    } else {
      assert("nothing", !info.Sampled && info.TraceId == nil && info.ParentId == nil && info.Baggage == nil)
    }
  }
end

func (r TraceInfo) SetHeader(header)
  op
  emits {
    if r.TraceId != nil && r.ParentId != nil {
      header.Set("traceparent", fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), ite(r.Sampled, 1, 0)))
    } else if r.Sampled {
      header.Set("tracestate", "sampled=true")
    }
    if r.Baggage != nil {
      header.Set("baggage", joinset(r.Baggage, k, v, ",", fmt.Sprintf("%s=%s", k, v)))
    }
  }
end

prop C19

type responseWriterObserver sequential
  immutable w
  nonnil w
end

func (w *responseWriterObserver) WriteHeader(statusCode)
  op
  modifies w.sc
  ensures code: w.sc == statusCode
  emits {
    w.w.WriteHeader(statusCode)
  }
end

func (w *responseWriterObserver) Write(p) (n, err)
  op
  modifies w.sc
  ensures code: w.sc == ite(old(w.sc) == 0, 200, old(w.sc))
  emits {
    n1, err1 := w.w.Write(p)
    assert("result", n == n1 && err == err1)
  }
end

func (w *responseWriterObserver) Header() (h)
  op
  emits {
    h1 := w.w.Header()
    assert("result", h == h1)
  }
end

func (w *responseWriterObserver) StatusCode() (sc)
  op
  ensures code: sc == ite(w.sc == 0, 200, w.sc)
  emits nothing
end

func Wrap(w) (rw, sc)
  op nonnil
  let flusher: is(w, nethttp.Flusher)
  let both: as(rw, struct{nethttp.ResponseWriter; nethttp.Flusher})
  let o: ite(flusher, as(both.ResponseWriter, *responseWriterObserver), as(rw, *responseWriterObserver))
  ensures plain: !flusher ==> is(rw, *responseWriterObserver)
  ensures flush: flusher ==> is(rw, struct{nethttp.ResponseWriter; nethttp.Flusher}) && is(both.ResponseWriter, *responseWriterObserver) && both.Flusher == as(w, nethttp.Flusher)
  ensures observed: fresh(o) && o.w == w && o.sc == 0
  emits nothing
  closure c = result 1 () (code)
    emits {
      x := o.StatusCode()
      assert("its", code == x)
    }
  end
end

func TraceHandler(c, scope, allowedBaggage) (h)
  op
  let t: as(h, traceHandler)
  ensures handler: is(h, traceHandler) && t.handler == c && t.scope == scope && seq(t.allowedBaggage) == seq(allowedBaggage)
  emits nothing
end

func (t traceHandler) ServeHTTP(writer, request)
  op
  ignore monkit.NewId
  given some: request != nil && t.scope != nil
  emits {
    info := TraceInfoFromHeader(request.Header, t.allowedBaggage)
    tr := monkit.NewTrace(bind(id))
    assert("trace-id", ite(info.TraceId != nil, id == *info.TraceId, from(id, monkit.NewId)))
    c := request.Context()
    if info.Sampled {
      P: tr.Set(present.SampledKey, true)
    }
    f := t.scope.Func()
    R: exit := f.RemoteTrace(bind(cp), ite(info.ParentId != nil, *info.ParentId, int64(0)), tr)
    assert("sampled-first", before(P, R))
    cb := tr.Get(present.SampledCBKey)
    if is(cb, func(*monkit.Trace)) {
      g := as(cb, func(*monkit.Trace))
      g(tr)
    }
    s := monkit.SpanFromCtx(*cp)
    for k, v := range info.Baggage {
      s.Annotate(k, v)
    }
    s.Annotate("http.uri", request.RequestURI)
    w2, sc := Wrap(writer)
    if info.ParentId == nil && info.Sampled {
      h := writer.Header()
      h.Set("trace-id", fmt.Sprintf("%x", uint64(s.Trace().Id())))
      h2 := writer.Header()
      h2.Set("child-id", fmt.Sprintf("%x", uint64(s.Id())))
    }
    r2 := request.WithContext(s)
    A: t.handler.ServeHTTP(w2, r2)
    B: code := sc()
    D: s.Annotate("http.responsecode", fmt.Sprint(code))
    C: exit(nil)
    assert("served", before(R, A) && before(A, B) && before(A, D) && before(D, C))
  }
end

func TraceRequest(ctx, scope, cl, req) (resp, err)
  op
  given some: req != nil && scope != nil
  modifies req.Header
  panics after e == nil && r == nil
  ensures header: old(req.Header) != nil ==> req.Header == old(req.Header)
  emits {
    f := scope.FuncNamed(req.Method)
    T: exit := f.Task(bind(cp))
    s := monkit.SpanFromCtx(*cp)
    u := req.URL.String()
    s.Annotate("http.uri", u)
    info := TraceInfoFromSpan(s)
    H: info.SetHeader(bind(h))
    A: r, e := cl.Do(req)
    assert("sent-with", is(h, nethttp.Header) && as(h, nethttp.Header) == req.Header)
    if e == nil && r != nil {
      D: s.Annotate("http.responsecode", fmt.Sprint(r.StatusCode))
    }
    C: exit(bind(ep))
    if e != nil || r != nil {
      assert("result", resp == r && err == e)
      assert("error", *ep == err)
    }
    assert("sent", before(T, H) && before(H, A) && before(A, D) && before(A, C) && before(D, C))
  }
end
