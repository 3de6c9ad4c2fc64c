// Environment statistics.
package environment
prop C28

func Register(registry)
  op
  nilable
  emits {
    r := ite(registry == nil, monkit.Default, registry)
    p := r.Package()
    for i, src := range registrations {
      p.Chain(src)
    }
  }
end

func OS() (src)
  op nonnil
  closure f = value as(src, monkit.StatSourceFunc) with (cb)
    emits {
      n, err := fdCount()
      if err == nil {
        cb(monkit.NewSeriesKey("fds"), "count", float64(n))
      }
    }
  end
end

func fdCount() (n, err)
  op
  anyevents
end

func Process() (src)
  op nonnil
  closure f = value as(src, monkit.StatSourceFunc) with (cb)
    modifies crcCache.crc, crcCache.err, crcCache.once
    emits {
      cb(monkit.NewSeriesKey("process"), "control", 1)
      c, err := processCRC()
      if err == nil {
        cb(monkit.NewSeriesKey("process"), "crc", float64(c))
      }
      cb(monkit.NewSeriesKey("process"), "uptime", bind(up))
    }
  end
end

func processCRC() (c, err)
  op
  ensures kept: c == crcCache.crc && err == crcCache.err
  modifies crcCache.crc, crcCache.err, crcCache.once
  ensures stays: old(crcCache.once.done) ==> crcCache.crc == old(crcCache.crc) && crcCache.err == old(crcCache.err)
  emits {
    if !old(crcCache.once.done) {
      x, e := getProcessCRC()
      assert("computed", crcCache.crc == x && crcCache.err == e)
    }
  }
end

func getProcessCRC() (c, err)
  op
  emits {
    f, e := openProc()
    if e == nil {
      h := crc32.NewIEEE()
      n, e2 := io.Copy(h, box(f))
      x := h.Sum32()
      ce := f.Close()
      assert("sum", c == x && err == e2)
    } else {
      assert("failure", err == e)
    }
  }
end

func openProc() (f, err)
  op
  emits {
    f2, e := os.Open("/proc/self/exe")
    assert("file", f == f2 && err == e)
  }
end

func Runtime() (src)
  op nonnil
  closure f = value as(src, monkit.StatSourceFunc) with (cb)
    guards mtx: lastNumGC durDist*
    assume room: (*durDist).Count < 4611686018427387904
    modifies *lastNumGC, *(*durDist)
    emits {
      n := runtime.NumGoroutine()
      cb(monkit.NewSeriesKey("goroutines"), "count", float64(n))
      runtime.ReadMemStats(any)
      m := monkit.StatSourceFromStruct(monkit.NewSeriesKey("runtime_memstats"), any)
      m.Stats(cb)
      G: debug.ReadGCStats(bind(g))
      assert("pause", (*durDist).Count == old((*durDist).Count) + ite(after(G, g.NumGC) > old(*lastNumGC) && after(G, len(g.Pause)) > 0, int64(1), int64(0)))
      assert("which", implies((*durDist).Count > old((*durDist).Count), (*durDist).Recent == after(G, g.Pause[0]) && *lastNumGC == after(G, g.NumGC)))
      assert("once", *lastNumGC >= old(*lastNumGC))
      (*monkit.DurationDist).Stats(bind(d), cb)
    }
  end
end

func Rusage() (src)
  op nonnil
  closure f = value as(src, monkit.StatSourceFunc) with (cb)
    emits {
      err := syscall.Getrusage(0, any)
      if err == nil {
        s := monkit.StatSourceFromStruct(monkit.NewSeriesKey("rusage"), any)
        s.Stats(cb)
      }
    }
  end
end

func Proc() (src)
  op nonnil
  closure f = value as(src, monkit.StatSourceFunc) with (cb)
    emits {
      e1 := readProcSelfStat(bind(a))
      if e1 == nil {
        s1 := monkit.StatSourceFromStruct(monkit.NewSeriesKey("proc_stat"), a)
        s1.Stats(cb)
      }
      e2 := readProcSelfStatm(bind(b))
      if e2 == nil {
        s2 := monkit.StatSourceFromStruct(monkit.NewSeriesKey("proc_statm"), b)
        s2.Stats(cb)
      }
    }
  end
end

func proc(cb)
  op callsback
  emits {
    e1 := readProcSelfStat(bind(a))
    if e1 == nil {
      s1 := monkit.StatSourceFromStruct(monkit.NewSeriesKey("proc_stat"), a)
      s1.Stats(cb)
    }
    e2 := readProcSelfStatm(bind(b))
    if e2 == nil {
      s2 := monkit.StatSourceFromStruct(monkit.NewSeriesKey("proc_statm"), b)
      s2.Stats(cb)
    }
  }
end

func readProcSelfStat(s) (err)
  op
  requires some: s != nil
  modifies *s
  emits {
    data, e1 := os.ReadFile("/proc/self/stat")
    if e1 == nil {
      n, e2 := fmt.Sscanf(string(data), any, any)
      assert("failure", err == e2)
    } else {
      assert("failure", err == e1)
    }
  }
end

func readProcSelfStatm(s) (err)
  op
  requires some: s != nil
  modifies *s
  emits {
    data, e1 := os.ReadFile("/proc/self/statm")
    if e1 == nil {
      n, e2 := fmt.Sscanf(string(data), any, any)
      assert("failure", err == e2)
    } else {
      assert("failure", err == e1)
    }
  }
end
