// Names derived from the calling code.
package monkit
prop C32

func extractFuncName(q) (f, ok)
  pure
  let base: q[strings.LastIndexByte(q, '/')+1:]
  let dot: strings.IndexByte(base, '.')
  ensures found: ok == (dot >= 0 && dot+1 < len(base))
  ensures name: ok ==> f == base[dot+1:]
  ensures none: !ok ==> f == ""
end

func callerFunc(frames) (name)
  op
  emits {
    n := runtime.Callers(any, bind(pc))
    if n == 1 {
      fs := runtime.CallersFrames(pc)
      frame, more := fs.Next()
      f, ok := extractFuncName(frame.Function)
      assert("name", name == ite(frame.Function != "" && ok, f, "unknown"))
    } else {
      assert("nowhere", name == "unknown")
    }
  }
end

func callerPackage(frames) (name)
  op
  emits {
    n := runtime.Callers(any, bind(pc))
    if n == 1 {
      fs := runtime.CallersFrames(pc)
      frame, more := fs.Next()
      if frame.Function != "" {
        parts := strings.Split(frame.Function, "/")
        last := strings.SplitN(parts[len(parts)-1], ".", 2)
        assert("package", name == strings.Join(parts[:len(parts)-1], "/") + "/" + last[0])
      } else {
        assert("unknown", name == "unknown")
      }
    } else {
      assert("nowhere", name == "unknown")
    }
  }
end

func (r *Registry) Package() (s)
  op nonnil
  emits {
    n := callerPackage(any)
    x := r.ScopeNamed(n)
    assert("its", s == x)
  }
end

func Package() (s)
  op nonnil
  emits {
    n := callerPackage(any)
    x := Default.ScopeNamed(n)
    assert("its", s == x)
  }
end
