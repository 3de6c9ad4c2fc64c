// Text, JSON and graph presentations.
package present
prop C21

func newListWriter(w) (rv)
  op nonnil callsback
  requires some: w != nil
  ensures new: fresh(rv) && rv.w == w && rv.sep == "\n"
  emits {
    n, e := fmt.Fprint(w, "[")
    assert("error", rv.err == e)
  }
end

type listWriter sequential
  immutable w
  nonnil w
end

func (l *listWriter) elem(elem)
  op callsback
  modifies l.err, l.sep
  emits {
    if old(l.err) != nil {
      assert("idle", l.err == old(l.err) && l.sep == old(l.sep))
    } else {
      data, e := json.Marshal(elem)
      if e != nil {
        assert("broken", l.err == e)
      } else {
        n, e2 := fmt.Fprintf(l.w, "%s %s", old(l.sep), data)
        assert("written", l.err == e2 && l.sep == ",\n")
      }
    }
  }
end

func (l *listWriter) done() (err)
  op callsback
  emits {
    if l.err != nil {
      assert("error", err == l.err)
    } else {
      n, e := fmt.Fprint(l.w, "]\n")
      assert("result", err == e)
    }
  }
end

func outputTextSpan(w, s, indent) (rv)
  op callsback
  requires some: w != nil && s != nil
  emits {
    o := s.Orphaned()
    a := s.Args()
    W: n, e := fmt.Fprintf(w, "%s[%d,%d] %s(%s) (elapsed: %s%s)\n", indent, s.Id(), s.Trace().Id(), s.Func().FullName(), strings.Join(a, ", "), elapsed(s.start), ite(o, ", orphaned", ""))
    if e != nil {
      assert("error", rv == e)
    } else {
      an := s.Annotations()
      for i, x := range an {
        A: n2, e2 := fmt.Fprintf(w, "%s  %s: %s\n", indent, x.Name, x.Value)
        if e2 != nil { break }
      }
      if found {
        assert("error2", rv == e2)
      } else {
        C: s.Children(bind(g))
        assert("order", before(W, C) && before(A, C) && before(W, A))
      }
    }
  }
  closure each = value g with (c)
    given some: c != nil
    modifies *err
    emits {
      if old(*err) == nil {
        e := outputTextSpan(w, c, indent + " ")
        assert("kept", *err == e)
      } else {
        assert("skipped", *err == old(*err))
      }
    }
  end
end

func SpansText(r, w) (rv)
  op callsback
  requires some: r != nil && w != nil
  emits {
    r.RootSpans(bind(g))
  }
  closure each = value g with (s)
    given some: s != nil
    modifies *err
    emits {
      if old(*err) == nil {
        e := outputTextSpan(w, s, "")
        if e != nil {
          assert("error", *err == e)
        } else {
          n, e2 := fmt.Fprintf(w, "\n")
          assert("error2", *err == e2)
        }
      } else {
        assert("kept", *err == old(*err))
      }
    }
  end
end

func SpansJSON(r, w) (err)
  op callsback
  requires some: r != nil && w != nil
  emits {
    N: l := newListWriter(w)
    G: r.AllSpans(bind(g))
    D: e := l.done()
    assert("order", before(N, G) && before(G, D))
    assert("result", err == e)
  }
  closure each = value g with (s)
    given some: s != nil
    modifies l.err, l.sep
    emits {
      x := formatSpan(s)
      l.elem(x)
    }
  end
end

func formatSpan(s) (r)
  op
  requires some: s != nil
  emits {
    o := s.Orphaned()
    a := latest(s.Args())
    an := latest(s.Annotations())
    assert("ids", dyn(r).Id == s.Id() && dyn(r).Trace.Id == s.Trace().Id() && (dyn(r).ParentId != nil) == nth(s.ParentId(), 1) && implies(nth(s.ParentId(), 1), *dyn(r).ParentId == nth(s.ParentId(), 0)))
    assert("func", dyn(r).Func.Package == s.Func().Scope().Name() && dyn(r).Func.Name == s.Func().ShortName())
    assert("times", dyn(r).Start == s.Start().UnixNano())
    assert("orphaned", dyn(r).Orphaned == o)
    assert("args", len(dyn(r).Args) == len(a) && forall(i, int, implies(0 <= i && i < len(a), dyn(r).Args[i] == fmt.Sprintf("%#v", a[i]))))
    assert("annotations", len(dyn(r).Annotations) == len(an) && forall(i, int, implies(0 <= i && i < len(an), len(dyn(r).Annotations[i]) == 2 && dyn(r).Annotations[i][0] == an[i].Name && dyn(r).Annotations[i][1] == an[i].Value)))
  }
end

func formatFinishedSpan(s) (r)
  op callsback
  requires some: s != nil && s.Span != nil
  emits {
    o := s.Span.Orphaned()
    a := latest(s.Span.Args())
    an := latest(s.Span.Annotations())
    assert("ids", dyn(r).Id == s.Span.Id() && dyn(r).Trace.Id == s.Span.Trace().Id() && (dyn(r).ParentId != nil) == nth(s.Span.ParentId(), 1) && implies(nth(s.Span.ParentId(), 1), *dyn(r).ParentId == nth(s.Span.ParentId(), 0)))
    assert("func", dyn(r).Func.Package == s.Span.Func().Scope().Name() && dyn(r).Func.Name == s.Span.Func().ShortName())
    assert("times", dyn(r).Start == s.Span.Start().UnixNano() && dyn(r).Finish == s.Finish.UnixNano())
    assert("orphaned", dyn(r).Orphaned == o && dyn(r).Panicked == s.Panicked)
    assert("error", implies(s.Err != nil, dyn(r).Err == s.Err.Error()) && implies(s.Err == nil, dyn(r).Err == ""))
    assert("args", len(dyn(r).Args) == len(a) && forall(i, int, implies(0 <= i && i < len(a), dyn(r).Args[i] == fmt.Sprintf("%#v", a[i]))))
    assert("annotations", len(dyn(r).Annotations) == len(an) && forall(i, int, implies(0 <= i && i < len(an), len(dyn(r).Annotations[i]) == 2 && dyn(r).Annotations[i][0] == an[i].Name && dyn(r).Annotations[i][1] == an[i].Value)))
  }
end

func SpansToJSON(w, spans) (err)
  op callsback
  makes l.err, l.sep
  requires some: w != nil
  given spans: forall(i, int, 0 <= i && i < len(spans) ==> spans[i] != nil && spans[i].Span != nil)
  emits {
    N: l := newListWriter(w)
    for i, s := range spans {
      x := formatFinishedSpan(s)
      L: l.elem(x)
    }
    D: e := l.done()
    assert("result", err == e)
    assert("order", before(N, L) && before(L, D))
  }
end

func formatDuration(d, out)
  op
  requires some: d != nil && out != nil
  requires valid: d.Count >= 0 && (d.sorted ==> isSorted(d.reservoir, ite(d.Count < 64, int(d.Count), 64)))
  given numbers: forall(i, int, 0 <= i && i < len(monkit.ObservedQuantiles) ==> !isNaN(monkit.ObservedQuantiles[i]))
  keeps valid: d.Count == old(d.Count) && (d.sorted ==> isSorted(d.reservoir, ite(d.Count < 64, int(d.Count), 64)))
  modifies *out, d.reservoir, d.sorted
  ensures average: out.Average == ite(d.Count == 0, 0, d.Sum / time.Duration(d.Count)) && out.FullAverage == out.Average
  ensures reservoir: d.Count == 0 ==> out.ReservoirAverage == 0
  ensures part: d.Count > 0 && d.Count < 64 ==> out.ReservoirAverage == time.Duration(fsum(old(d.reservoir), int(d.Count)) / float32(int(d.Count)))
  ensures full: d.Count >= 64 ==> out.ReservoirAverage == time.Duration(fsum(old(d.reservoir), 64) / float32(64))
  ensures extremes: out.High == old(d.High) && out.Low == old(d.Low) && out.Recent == old(d.Recent)
  emits nothing
end

func formatFunc(f) (r)
  op
  makes st.reservoir, st.sorted, ft.reservoir, ft.sorted
  requires some: f != nil
  emits {
    f.Parents(bind(p))
    c := f.Current()
    h := f.Highwater()
    su := f.Success()
    pa := f.Panics()
    er := f.Errors()
    st := f.SuccessTimes()
    ft := f.FailureTimes()
    formatDuration(st, bind(o1))
    formatDuration(ft, bind(o2))
    assert("ids", dyn(r).Id == f.Id() && dyn(r).Package == f.Scope().Name() && dyn(r).Name == f.ShortName())
    assert("figures", dyn(r).Current == c && dyn(r).Highwater == h && dyn(r).Success == su && dyn(r).Panics == pa && dyn(r).Errors == er)
  }
  closure each = value p with (parent)
    modifies js.Entry, js.ParentIds
    ensures entry: js.Entry == (old(js.Entry) || parent == nil)
    ensures parents: parent == nil ==> js.ParentIds == old(js.ParentIds)
    ensures more: parent != nil ==> seq(js.ParentIds) == append(old(seq(js.ParentIds)), parent.Id())
    emits nothing
  end
end

func FuncsJSON(r, w) (err)
  op callsback
  requires some: r != nil && w != nil
  emits {
    N: l := newListWriter(w)
    G: r.Funcs(bind(g))
    D: e := l.done()
    assert("result", err == e)
    assert("order", before(N, G) && before(G, D))
  }
  closure each = value g with (f)
    given some: f != nil
    modifies l.err, l.sep
    emits {
      x := formatFunc(f)
      l.elem(x)
    }
  end
end

func StatsText(r, w) (rv)
  op callsback
  requires some: r != nil && w != nil
  emits {
    r.Stats(bind(g))
  }
  closure each = value g with (key, field, val)
    modifies *err
    emits {
      if old(*err) == nil {
        n, e := fmt.Fprintf(w, "%s=%f\n", key.WithField(field), val)
        assert("kept", *err == e)
      } else {
        assert("skipped", *err == old(*err))
      }
    }
  end
end

func StatsJSON(r, w) (err)
  op callsback
  requires some: r != nil && w != nil
  emits {
    N: l := newListWriter(w)
    G: r.Stats(bind(g))
    D: e := l.done()
    assert("result", err == e)
    assert("order", before(N, G) && before(G, D))
  }
  closure each = value g with (key, field, val)
    modifies l.err, l.sep
    emits {
      l.elem(bind(x))
      y := as(x, []interface{})
      assert("what", len(y) == 4 && y[0] == box(key.Measurement) && as(y[1], map[string]string) == key.Tags.All() && y[2] == box(field))
      assert("number", implies(!math.IsNaN(val) && !math.IsInf(val, 0), y[3] == box(val)))
      assert("none", implies(math.IsNaN(val) || math.IsInf(val, 0), y[3] == nil))
    }
  end
end

func StatsOld(r, w) (err)
  op callsback
  requires some: r != nil && w != nil
  emits {
    e := StatsText(r, w)
    assert("same", err == e)
  }
end

func escapeDotLabel(format, args) (r)
  prop C22
  op
  ensures safe: images(r, fmt.Sprintf(format, args), "[A-Za-z0-9 \\x80-\\xff]|&#[0-9]+;|\\\\l")
  emits nothing
end

func outputDotSpan(w, s) (rv)
  prop C22
  op callsback
  requires some: w != nil && s != nil
  emits {
    o := s.Orphaned()
    a := s.Args()
    lb := escapeDotLabel("%s(%s)\nelapsed: %s\n%s", s.Func().FullName(), strings.Join(a, ", "), elapsed(s.start), ite(o, "orphaned\n", ""))
    W: n, e := fmt.Fprintf(w, " f%d [label=\"%s", s.Id(), lb)
    if e != nil {
      assert("error", rv == e)
    } else {
      an := s.Annotations()
      for i, x := range an {
        la := escapeDotLabel("%s: %s\n", x.Name, x.Value)
        A: n2, e2 := fmt.Fprint(w, la)
        if e2 != nil { break }
      }
      if found {
        assert("error2", rv == e2)
      } else {
        Z: n3, e3 := fmt.Fprint(w, "\"];\n")
        assert("order", before(W, A) && before(W, Z) && before(A, Z))
        if e3 != nil {
          assert("error3", rv == e3)
        } else {
          C: s.Children(bind(g))
          assert("order2", before(Z, C))
        }
      }
    }
  }
  closure each = value g with (c)
    given some: c != nil
    modifies *err
    emits {
      if old(*err) == nil {
        e := outputDotSpan(w, c)
        if e != nil {
          assert("kept", *err == e)
        } else {
          n, e2 := fmt.Fprintf(w, " f%d -> f%d;\n", s.Id(), c.Id())
          assert("kept2", *err == e2)
        }
      } else {
        assert("skipped", *err == old(*err))
      }
    }
  end
end

func SpansDot(r, w) (rv)
  prop C22
  op callsback
  requires some: r != nil && w != nil
  emits {
    H: n, e := fmt.Fprintf(w, "digraph G {\n node [shape=box];\n")
    if e != nil {
      assert("error", rv == e)
    } else {
      S: r.RootSpans(bind(g))
      assert("order", before(H, S))
      if after(S, *captured(g, err)) != nil {
        assert("error2", rv == after(S, *captured(g, err)))
      } else {
        T: n2, e2 := fmt.Fprintf(w, "}\n")
        assert("error3", rv == e2)
        assert("order2", before(S, T))
      }
    }
  }
  closure each = value g with (s)
    given some: s != nil
    modifies *err
    emits {
      if old(*err) == nil {
        e := outputDotSpan(w, s)
        assert("kept", *err == e)
      } else {
        assert("skipped", *err == old(*err))
      }
    }
  end
end

func formatDist(data, indent) (result)
  op
  requires some: data != nil
  requires valid: data.Count >= 0 && (data.sorted ==> isSorted(data.reservoir, ite(data.Count < 64, int(data.Count), 64)))
  given numbers: forall(i, int, 0 <= i && i < len(monkit.ObservedQuantiles) ==> !isNaN(monkit.ObservedQuantiles[i]))
  keeps valid: data.Count == old(data.Count) && (data.sorted ==> isSorted(data.reservoir, ite(data.Count < 64, int(data.Count), 64)))
  modifies data.reservoir, data.sorted
  emits nothing
end

func getStatusCode(err, def) (code)
  prop C27
  pure
  ensures foreign: !is(err, errorT) ==> code == def
  ensures unknown: is(err, errorT) && !has(statusCodes, as(err, errorT).kind) ==> code == def
  ensures known: is(err, errorT) && has(statusCodes, as(err, errorT).kind) ==> code == statusCodes[as(err, errorT).kind]
end

func (e errorKind) New(format, args) (err)
  prop C27
  pure assume
  ensures kind: is(err, errorT) && as(err, errorT).kind == e
  ensures message: as(err, errorT).message == fmt.Sprintf(format, args)
end

func (e errorT) Error() (s)
  prop C27
  pure
  ensures text: s == fmt.Sprintf("%s: %s", string(e.kind), e.message)
end

func shift(path) (dir, left)
  prop C27
  pure
  let p: strings.TrimLeft(path, "/")
  let i: strings.Index(p, "/")
  ensures last: i == -1 ==> dir == p && left == ""
  ensures more: i != -1 ==> dir == p[:i] && left == p[i:]
end

func (h handler) ServeHTTP(w, req)
  prop C27
  op callsback
  requires some: w != nil && req != nil && req.URL != nil && h.Registry != nil
  emits {
    q := req.URL.Query()
    p, ct, err := FromRequest(h.Registry, req.URL.Path, q)
    if err != nil {
      nethttp.Error(w, err.Error(), getStatusCode(err, 500))
    } else {
      x := w.Header()
      x.Set("Content-Type", ct)
      p(w)
    }
  }
end

func flush(w) (err)
  prop C27
  op callsback
  anyevents
end

func TraceQueryJSON(reg, w, matcher) (err)
  prop C27
  op callsback
  requires some: reg != nil && w != nil && matcher != nil
  emits {
    A: spans, e := watchForSpansWithKeepalive(any, reg, w, matcher, any)
    if e != nil {
      assert("error", err == e)
    } else {
      B: e2 := SpansToJSON(w, spans)
      assert("result", err == e2)
    }
  }
end

func TraceQuerySVG(reg, w, matcher) (err)
  prop C27
  op callsback
  requires some: reg != nil && w != nil && matcher != nil
  emits {
    A: spans, e := watchForSpansWithKeepalive(any, reg, w, matcher, any)
    if e != nil {
      assert("error", err == e)
    } else {
      B: e2 := SpansToSVG(w, spans)
      assert("result", err == e2)
    }
  }
end

func SpansToSVG(w, spans) (err)
  trusted loops over a tree of rows and templates; the bounded stand-in covers it
  prop C22
  op callsback
end

func watchForSpansWithKeepalive(ctx, reg, w, matcher, keepalive) (spans, err)
  prop C27
  op callsback
  requires some: ctx != nil && reg != nil && w != nil && matcher != nil
  emits {
    c, stop := keepAlive(ctx, bind(ping))
    A: sp, e := collect.WatchForSpans(c, reg, matcher)
    S: e2 := stop()
    assert("order", before(A, S))
    if e2 != nil {
      assert("write-error", err == e2 && len(spans) == 0)
    } else {
      assert("result", err == e && spans == sp)
    }
    S2: e3 := stop()
  }
  closure pinging = value ping with (c) (rv)
    emits {
      n, e := w.Write(keepalive)
      if e != nil {
        assert("error", rv == e)
      } else {
        e2 := flush(w)
        assert("flushed", rv == e2)
      }
    }
  end
end

func catchPanics(cb) (f)
  prop C27
  op nonnil
  requires some: cb != nil
  closure c = result 0 (ctx) (err)
    emits {
      e := cb(ctx)
      assert("same", err == e)
    }
  end
end

func keepAlive(ctx, ping) (rctx, stop)
  prop C27
  op callsback nonnil
  requires some: ctx != nil && ping != nil
  ignore time.NewTicker
  emits {
    p := catchPanics(ping)
    c, cancel := context.WithCancel(ctx)
    spawn(bind(g))
    assert("ctx", rctx == c)
  }
  // one round of the pinging goroutine: a ping happens only while the mutex is
  // held, and not after stop or a failed ping
  closure pinging = value g with ()
    forever
    ignore time.NewTicker time.(*Ticker).Stop
    guards mu: stopped pingErr
    underlock cb
    modifies *pingErr
    let idle: old(*stopped) || old(*pingErr) != nil
    emits {
      k := wait(*done, ctx.Done(), any)
      if k == 2 && !idle {
        e := p(ctx)
        if e != nil {
          cancel()
          assert("kept", *pingErr == e)
        } else {
          again()
        }
      }
    }
  end
  closure stop = result 1 () (rv)
    guards mu: stopped pingErr
    modifies *stopped
    ensures over: *stopped
    ensures error: rv == old(*pingErr)
    ensures once: once.done
    emits {
      if !old(once.done) {
        close(*done)
      }
    }
  end
end

func FromRequest(reg, path, query) (f, contentType, err)
  prop C27
  op callsback
  requires some: reg != nil
  let a: nth(shift(path), 0)
  let b: nth(shift(nth(shift(path), 1)), 0)
  ensures index: a == "" ==> err == nil && contentType == "text/html"
  ensures text: (a == "ps" || a == "funcs" || a == "stats") && (b == "" || b == "text") ==> err == nil && contentType == "text/plain; charset=utf-8"
  ensures dot: (a == "ps" || a == "funcs") && b == "dot" ==> err == nil && contentType == "text/plain; charset=utf-8"
  ensures json: (a == "ps" || a == "funcs" || a == "stats") && b == "json" ==> err == nil && contentType == "application/json; charset=utf-8"
  ensures old: a == "stats" && b == "old" ==> err == nil && contentType == "text/plain; charset=utf-8"
  ensures elsewhere: a != "" && a != "ps" && a != "funcs" && a != "stats" && a != "trace" ==> err == errNotFound.New("path not found: %s", path)
  ensures below: (a == "ps" || a == "funcs" || a == "stats") && b != "" && b != "text" && b != "dot" && b != "json" && b != "old" ==> err == errNotFound.New("path not found: %s", path)
  ensures nothing: a == "trace" && query.Get("regex") == "" && query.Get("trace_id") == "" ==> err != nil && is(err, errorT) && as(err, errorT).kind == errBadRequest
  ensures svg: a == "trace" && b == "svg" && err == nil ==> contentType == "image/svg+xml; charset=utf-8"
  ensures tracejson: a == "trace" && b == "json" && err == nil ==> contentType == "application/json; charset=utf-8"
  ensures refused: err != nil ==> f == nil && contentType == "" && is(err, errorT) && (as(err, errorT).kind == errBadRequest || as(err, errorT).kind == errNotFound)
  anyevents
  closure pstext = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "ps" && (nth(shift(nth(shift(path), 1)), 0) == "" || nth(shift(nth(shift(path), 1)), 0) == "text")
    emits {
      bw := bufio.NewWriter(w)
      R: e := SpansText(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure psdot = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "ps" && nth(shift(nth(shift(path), 1)), 0) == "dot"
    emits {
      bw := bufio.NewWriter(w)
      R: e := SpansDot(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure psjson = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "ps" && nth(shift(nth(shift(path), 1)), 0) == "json"
    emits {
      bw := bufio.NewWriter(w)
      R: e := SpansJSON(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure funcstext = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "funcs" && (nth(shift(nth(shift(path), 1)), 0) == "" || nth(shift(nth(shift(path), 1)), 0) == "text")
    emits {
      bw := bufio.NewWriter(w)
      R: e := FuncsText(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure funcsdot = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "funcs" && nth(shift(nth(shift(path), 1)), 0) == "dot"
    emits {
      bw := bufio.NewWriter(w)
      R: e := FuncsDot(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure funcsjson = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "funcs" && nth(shift(nth(shift(path), 1)), 0) == "json"
    emits {
      bw := bufio.NewWriter(w)
      R: e := FuncsJSON(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure statsText = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "stats" && (nth(shift(nth(shift(path), 1)), 0) == "" || nth(shift(nth(shift(path), 1)), 0) == "text" || nth(shift(nth(shift(path), 1)), 0) == "old")
    emits {
      bw := bufio.NewWriter(w)
      R: e := StatsText(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure statsJSON = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "stats" && nth(shift(nth(shift(path), 1)), 0) == "json"
    emits {
      bw := bufio.NewWriter(w)
      R: e := StatsJSON(reg, bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure index = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == ""
    emits {
      bw := bufio.NewWriter(w)
      R: e := writeIndex(bind(x))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure traceSVG = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "trace" && nth(shift(nth(shift(path), 1)), 0) == "svg"
    emits {
      bw := bufio.NewWriter(w)
      R: e := TraceQuerySVG(reg, bind(x), bind(m))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
  closure traceJSON = result 0 (w) (rv)
    when err == nil && nth(shift(path), 0) == "trace" && nth(shift(nth(shift(path), 1)), 0) == "json"
    emits {
      bw := bufio.NewWriter(w)
      R: e := TraceQueryJSON(reg, bind(x), bind(m))
      if e != nil {
        assert("error", rv == e)
      } else {
        F: e2 := bw.Flush()
        assert("order", before(R, F))
        assert("result", rv == e2)
      }
    }
  end
end

func writeIndex(w) (err)
  prop C27
  op callsback
  requires some: w != nil
  emits {
    n, e := w.Write(any)
    assert("result", err == e)
  }
end

func FuncsText(r, w) (err)
  trusted nested callbacks and buffers; the bounded stand-in covers it
  prop C21
  op callsback
end

func FuncsDot(r, w) (err)
  trusted nested callbacks and buffers; the bounded stand-in covers it
  prop C22
  op callsback
end
