package monkit_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

type kindErr struct {
	name string
	ok   bool
	asks *int
}

func (k kindErr) Error() string { return "kind" }
func (k kindErr) Name() (string, bool) {
	*k.asks++
	return k.name, k.ok
}

type netErr struct{}

func (netErr) Error() string   { return "net" }
func (netErr) Timeout() bool   { return false }
func (netErr) Temporary() bool { return false }

// uncomparable errors must not break the naming
type sliceErr []string

func (s sliceErr) Error() string { return "slice" }

var asks int

// fixedNames are errors and the name their kind gives.
var fixedNames = []struct {
	err  error
	name string
}{
	{io.EOF, "EOF"}, {io.ErrUnexpectedEOF, "Unexpected EOF Error"}, {io.ErrClosedPipe, "Closed Pipe Error"},
	{io.ErrNoProgress, "No Progress Error"}, {io.ErrShortBuffer, "Short Buffer Error"}, {io.ErrShortWrite, "Short Write Error"},
	{context.Canceled, "Canceled"}, {context.DeadlineExceeded, "Timeout"},
	{syscall.ENOENT, "Errno"}, {syscall.Errno(0), "Errno"}, {syscall.ETIMEDOUT, "Errno"},
	{net.UnknownNetworkError("x"), "Unknown Network Error"}, {&net.AddrError{}, "Addr Error"}, {net.InvalidAddrError("x"), "Invalid Addr Error"},
	{&net.OpError{Err: io.EOF}, "Net Op Error"}, {&net.ParseError{}, "Net Parse Error"}, {&net.DNSError{}, "DNS Error"},
	{&net.DNSConfigError{Err: io.EOF}, "DNS Config Error"}, {netErr{}, "Network Error"}, {&netErr{}, "Network Error"},
	{errors.New("x"), "System Error"}, {fmt.Errorf("w %w", io.EOF), "System Error"}, {sliceErr{"a"}, "System Error"},
	{&os.PathError{Op: "open", Err: syscall.ENOENT}, "System Error"},
	{kindErr{"own", true, &asks}, "own"}, {kindErr{"own", false, &asks}, "System Error"}, {kindErr{"", true, &asks}, ""},
	{&namedErr{"n"}, "n"}, {&namedErr{""}, "System Error"},
}

// nameOf counts one failed call and returns the name it was counted under.
func nameOf(err error) string {
	f := monkit.NewFuncStats(monkit.NewSeriesKey("x"))
	e := err
	f.Observe()(&e)
	out := "?"
	n := int64(0)
	for k, c := range f.Errors() {
		out = k
		n += c
	}
	if n != 1 {
		return fmt.Sprintf("?? %v", f.Errors())
	}
	return out
}

type handler struct {
	id     int
	accept func(error) (string, bool)
}

var (
	handlers []*handler
	consults []int
)

// add registers a handler for good; it does nothing until armed.
func addHandler() *handler {
	h := &handler{id: len(handlers)}
	handlers = append(handlers, h)
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if h.accept == nil {
			return "", false
		}
		consults = append(consults, h.id)
		return h.accept(err)
	})
	return h
}

func TestC20_Names(t *testing.T) {
	defer func() {
		for _, h := range handlers {
			h.accept = nil
		}
	}()
	for _, c := range fixedNames {
		if g := nameOf(c.err); g != c.name {
			t.Fatalf("%T %v is named %q, want %q", c.err, c.err, g, c.name)
		}
		zz.Case(t.Name(), fmt.Sprintf("%T %v: %s", c.err, c.err, c.name))
	}
	rng := zz.NewRng(200)
	for i := 0; i < zz.N(300); i++ {
		if i < 8 {
			addHandler()
		}
		desc := ""
		want := map[int]func(error) (string, bool){}
		for _, h := range handlers {
			h := h
			h.accept = nil
			switch rng.Intn(4) {
			case 0:
				h.accept = func(error) (string, bool) { return "ignored", false }
			case 1:
				h.accept = func(err error) (string, bool) { return fmt.Sprint("h", h.id), err == io.EOF }
			case 2:
				h.accept = func(err error) (string, bool) {
					_, ok := err.(kindErr)
					return fmt.Sprint("k", h.id), ok
				}
			}
			if rng.Intn(6) == 0 {
				h.accept = func(error) (string, bool) { return []string{"", "any"}[h.id%2], true }
			}
			if h.accept != nil {
				want[h.id] = h.accept
			}
		}
		c := fixedNames[rng.Intn(len(fixedNames))]
		name := c.name
		var order []int
		named := false
		for id := len(handlers) - 1; id >= 0 && !named; id-- {
			if a := want[id]; a != nil {
				order = append(order, id)
				if n, ok := a(c.err); ok {
					name, named = n, true
				}
			}
		}
		consults, asks = nil, 0
		got := nameOf(c.err)
		desc = fmt.Sprintf("%T with %d handlers: %q", c.err, len(want), name)
		if got != name {
			t.Fatalf("%s: named %q", desc, got)
		}
		if show(consults) != show(order) {
			t.Fatalf("%s: handlers consulted %v, want %v", desc, consults, order)
		}
		if _, own := c.err.(kindErr); own && (asks > 1 || (named && asks > 0)) {
			t.Fatalf("%s: the error was asked %d times for its name", desc, asks)
		}
		zz.Case(t.Name(), desc)
	}
	// a panic or a success names nothing
	consults, asks = nil, 0
	for _, h := range handlers {
		h.accept = func(error) (string, bool) { return "x", true }
	}
	f := monkit.NewFuncStats(monkit.NewSeriesKey("x"))
	finish(f.Observe(), -2)
	finish(f.Observe(), 101)
	if len(f.Errors()) != 0 {
		t.Fatalf("errors without an error: %v", f.Errors())
	}
}

func TestC20_Schedules(t *testing.T) {
	on := 0
	zz.Try(t, 40, func() ([]func(), func() error) {
		on++
		run := on
		var hit [3]int
		add := func(i int) func() {
			return func() {
				monkit.AddErrorNameHandler(func(err error) (string, bool) {
					if on == run {
						hit[i]++
					}
					return "", false
				})
			}
		}
		return []func(){add(0), add(1), add(2), func() { nameOf(io.EOF) }}, func() error {
			hit = [3]int{}
			if n := nameOf(io.EOF); n != "EOF" {
				return fmt.Errorf("named %q", n)
			}
			if hit != [3]int{1, 1, 1} {
				return fmt.Errorf("handlers added at the same time were consulted %v times", hit)
			}
			return nil
		}
	})
	on = -1
	_ = time.Now
}
