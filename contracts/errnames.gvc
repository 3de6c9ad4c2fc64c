// How errors are named.
package monkit
prop C20
quiet error.Error

type var errorNameHandlers
  atomic value writers write_mu
  invariant kind@value: self.value.v == nil || is(self.value.v, []func(error) (string, bool))
end

func AddErrorNameHandler(f)
  op
  modifies errorNameHandlers.value
  let before: as(old(errorNameHandlers.value.v), []func(error) (string, bool))
  let after: as(errorNameHandlers.value.v, []func(error) (string, bool))
  ensures first: old(errorNameHandlers.value.v) == nil ==> len(after) == 1 && after[0] == f
  ensures added: old(errorNameHandlers.value.v) != nil ==> seq(after) == append(seq(before), f)
  emits nothing
end

func isErrnoError(err) (is0)
  pure
  ensures errno: is0 == is(err, syscall.Errno)
end

func getNetErrorName(err) (name)
  pure
  ensures syscall: is(err, *os.SyscallError) ==> name == ""
  ensures unknown: is(err, net.UnknownNetworkError) ==> name == "Unknown Network Error"
  ensures addr: is(err, *net.AddrError) ==> name == "Addr Error"
  ensures invalid: is(err, net.InvalidAddrError) ==> name == "Invalid Addr Error"
  ensures op: is(err, *net.OpError) ==> name == "Net Op Error"
  ensures parse: is(err, *net.ParseError) ==> name == "Net Parse Error"
  ensures dns: is(err, *net.DNSError) ==> name == "DNS Error"
  ensures config: is(err, *net.DNSConfigError) ==> name == "DNS Config Error"
  ensures nil: err == nil ==> name == ""
  let special: is(err, *os.SyscallError) || is(err, net.UnknownNetworkError) || is(err, *net.AddrError) || is(err, net.InvalidAddrError) || is(err, *net.OpError) || is(err, *net.ParseError) || is(err, *net.DNSError) || is(err, *net.DNSConfigError)
  ensures other: !special && is(err, net.Error) ==> name == "Network Error"
  ensures rest: !special && !is(err, net.Error) ==> name == ""
end

func getErrorName(err) (name)
  op callsback
  let hs: as(errorNameHandlers.value.v, []func(error) (string, bool))
  let kind: ite(err == io.EOF, "EOF",
  \  ite(err == io.ErrUnexpectedEOF, "Unexpected EOF Error",
  \  ite(err == io.ErrClosedPipe, "Closed Pipe Error",
  \  ite(err == io.ErrNoProgress, "No Progress Error",
  \  ite(err == io.ErrShortBuffer, "Short Buffer Error",
  \  ite(err == io.ErrShortWrite, "Short Write Error",
  \  ite(err == context.Canceled, "Canceled",
  \  ite(err == context.DeadlineExceeded, "Timeout",
  \  ite(isErrnoError(err), "Errno",
  \  ite(getNetErrorName(err) != "", getNetErrorName(err), "System Error"))))))))))
  emits ordered {
    if errorNameHandlers.value.v != nil {
      for i, h := range down(hs) {
        n, ok := h(err)
        if ok { break }
      }
    }
    if found {
      assert("handler", name == n)
    } else if is(err, interface{ Name() (string, bool) }) {
      n2, ok2 := as(err, interface{ Name() (string, bool) }).Name()
      assert("own-name", name == ite(ok2, n2, kind))
    } else {
      assert("kind", name == kind)
    }
  }
end
