// Library functions with effects: calls of them are events with any result.
package runtime
prop C32

func Callers(skip, pc) (n)
  op
  trusted library
end

func CallersFrames(pc) (f)
  op nonnil
  trusted library
end

func (f *Frames) Next() (frame, more)
  op
  trusted library
end

package fmt
prop C21

func Fprintf(w, format, args) (n, err)
  op callsback
  trusted library
end

func Fprint(w, args) (n, err)
  op callsback
  trusted library
end

func Fprintln(w, args) (n, err)
  op callsback
  trusted library
end

func Sscanf(str, format, args) (n, err)
  op
  trusted library
end

package nethttp
prop C19

func (r *Request) Context() (c)
  op nonnil
  trusted library
end

func (r *Request) WithContext(ctx) (r2)
  op nonnil
  trusted library
end

func (h Header) Set(key, value)
  op
  trusted library
end

package url
prop C19

func (u *URL) String() (s)
  op
  trusted library
end

package runtime
prop C28

func NumGoroutine() (n)
  op
  trusted library
end

func ReadMemStats(m)
  op
  modifies *m
  trusted library
end

package debug
prop C28

func ReadGCStats(stats)
  op
  modifies *stats
  trusted library
end

package syscall
prop C28

func Getrusage(who, rusage) (err)
  op
  modifies *rusage
  trusted library
end

package os
prop C28

func Open(name) (f, err)
  op
  trusted library
end

func ReadFile(name) (data, err)
  op
  trusted library
end

func (f *File) Close() (err)
  op
  trusted library
end

func (f *File) Readdirnames(n) (names, err)
  op
  trusted library
end

package io
prop C28

func WriteString(w, s) (n, err)
  op callsback
  trusted library
end

func Copy(dst, src) (n, err)
  op
  trusted library
end

package crc32
prop C28

func NewIEEE() (h)
  op nonnil
  trusted library
end

package json
prop C21

func Marshal(v) (data, err)
  op callsback
  trusted library
end

package url
prop C27

func (u *URL) Query() (q)
  op
  trusted library
end

func (v Values) Get(key) (s)
  pure
  trusted library
end

package nethttp
prop C27

func Error(w, text, code)
  op callsback
  trusted library
end

package regexp
prop C27

func Compile(expr) (re, err)
  op
  trusted library
end

func (re *Regexp) MatchString(s) (b)
  pure
  trusted library
end

package bufio
prop C27

func NewWriter(w) (b)
  op nonnil
  trusted library
end

func (b *Writer) Flush() (err)
  op callsback
  trusted library
end

package time
prop C11

func Sleep(d)
  op
  trusted library
end

func NewTicker(d) (tk)
  op nonnil
  trusted library
end

func (t *Ticker) Stop()
  op
  trusted library
end

package context
prop C27

func WithCancel(parent) (c, cancel)
  op nonnil
  trusted library
end
