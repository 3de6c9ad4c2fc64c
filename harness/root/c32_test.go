package monkit_test

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

// here is the name of the function that calls it, without its package.
func here() string {
	var pc [1]uintptr
	runtime.Callers(2, pc[:])
	fr, _ := runtime.CallersFrames(pc[:]).Next()
	n := fr.Function
	n = n[strings.LastIndexByte(n, '/')+1:]
	return n[strings.IndexByte(n, '.')+1:]
}

const herePkg = "github.com/spacemonkeygo/monkit/v3_test"

var c32reg = monkit.NewRegistry()
var c32 = c32reg.Package()
var c32task = c32.Task()
var c32init = func() string { return c32.Func().ShortName() }()

func smallScope() *monkit.Scope              { return c32reg.Package() }
func smallDefault() *monkit.Scope            { return monkit.Package() }
func smallFunc(s *monkit.Scope) *monkit.Func { return s.Func() }

type c32T struct{}

func (c32T) val() (string, string)  { return c32.Func().ShortName(), here() }
func (*c32T) ptr() (string, string) { return c32.Func().ShortName(), here() }

type c32I interface{ val() (string, string) }

type glob struct{}

func (glob) globbing() (string, string, string) {
	return c32.Func().ShortName(), here(), c32reg.Package().Name()
}
func (glob) init() (string, string, string) {
	return c32.Func().ShortName(), here(), c32reg.Package().Name()
}
func (*glob) func1() (string, string, string) {
	return c32.Func().ShortName(), here(), c32reg.Package().Name()
}
func initialize() (string, string, string) {
	return c32.Func().ShortName(), here(), c32reg.Package().Name()
}
func func2() (a, b, c string) {
	func() {
		defer func() { a, b, c = c32.Func().ShortName(), here(), c32reg.Package().Name() }()
	}()
	return
}

type box[T any] struct{ x T }

func (*box[T]) get() (string, string, string) {
	f := func() (string, string, string) {
		return c32.Func().ShortName(), here(), c32reg.Package().Name()
	}
	return f()
}

func generic[T any](x T) (string, string) { return c32.Func().ShortName(), here() }

func taskName(ctx context.Context) string { return monkit.SpanFromCtx(ctx).Func().ShortName() }

func viaTask(ctx context.Context) (string, string) {
	defer c32.Task()(&ctx)(nil)
	return taskName(ctx), here()
}

func viaTaskVar(ctx context.Context) (string, string, *monkit.Func) {
	defer c32task(&ctx)(nil)
	return taskName(ctx), here(), c32task.Func()
}

func anotherUser(ctx context.Context) string {
	defer c32task(&ctx)(nil)
	return taskName(ctx)
}

func (c32T) method(ctx context.Context) (string, string) {
	defer c32.Task(monkit.NewSeriesTag("a", "b"))(&ctx)(nil)
	return taskName(ctx), here()
}

func TestC32_Names_Plain(t *testing.T) {
	eq := func(what, got, want string) {
		t.Helper()
		if got != want {
			t.Errorf("%s is named %q, want %q", what, got, want)
		}
		zz.Case(t.Name(), what+" "+got)
	}
	two := func(what string) func(a, b string) { return func(a, b string) { t.Helper(); eq(what, a, b) } }
	eq("this function", c32.Func().ShortName(), "TestC32_Names_Plain")
	eq("this function in full", c32.Func().FullName(), herePkg+".TestC32_Names_Plain")
	two("a method")(c32T{}.val())
	two("a pointer method")((&c32T{}).ptr())
	two("a method through an interface")(c32I(&c32T{}).val())
	mv := (&c32T{}).ptr
	two("a method value")(mv())
	two("a generic function")(generic(1))
	three := func(what string) func(a, b, c string) {
		return func(a, b, c string) { t.Helper(); eq(what, a, b); eq("the scope asked for by "+what, c, herePkg) }
	}
	three("a method named globbing")(glob{}.globbing())
	three("a method named init")(glob{}.init())
	three("a method named func1")((&glob{}).func1())
	three("a function named initialize")(initialize())
	three("a closure in a function named func2")(func2())
	three("a closure in a generic method")((&box[glob]{}).get())
	three("a method value named globbing")(func() (string, string, string) { f := glob{}.globbing; return f() }())
	func() {
		eq("a closure", c32.Func().ShortName(), here())
		func() { eq("an inner closure", c32.Func().ShortName(), here()) }()
	}()
	done := make(chan bool)
	go func() {
		eq("a goroutine", c32.Func().ShortName(), here())
		close(done)
	}()
	<-done
	func() {
		defer func() { eq("a deferred closure", c32.Func().ShortName(), here()) }()
	}()
	if !strings.Contains(c32init, "init") && !strings.HasPrefix(c32init, "glob..") && !strings.HasPrefix(c32init, "func") {
		t.Errorf("a package initializer is named %q", c32init)
	}
	eq("the scope", c32.Name(), herePkg)
	eq("the scope asked for in a small function", smallScope().Name(), herePkg)
	eq("the default scope in a small function", smallDefault().Name(), herePkg)
	eq("a small function", smallFunc(c32).ShortName(), "smallFunc")
	func() { eq("the scope in a closure", c32reg.Package().Name(), herePkg) }()
	ctx := context.Background()
	two("a task")(viaTask(ctx))
	two("a task in a method")(c32T{}.method(ctx))
	a, b, f := viaTaskVar(ctx)
	eq("a task variable", a, b)
	if f.ShortName() != b {
		t.Errorf("the task's function is %q, want %q", f.ShortName(), b)
	}
	eq("a task variable used elsewhere", anotherUser(ctx), b)
	func() {
		c := ctx
		defer c32.Task()(&c, 1, 2)(nil)
		eq("a task in a closure", taskName(c), here())
	}()
	if x, y := c32.Func(), c32.FuncNamed("TestC32_Names_Plain"); x != y {
		t.Errorf("asking by name gives another function")
	}
	if c32reg.ScopeNamed(herePkg) != c32 {
		t.Errorf("asking for the package by name gives another scope")
	}
}

var c32once = [64]monkit.Task{}

func firstA(ctx context.Context, task monkit.Task) string {
	defer task(&ctx)(nil)
	return taskName(ctx)
}
func firstB(ctx context.Context, task monkit.Task) string {
	defer task(&ctx)(nil)
	return taskName(ctx)
}

func TestC32_Once_Plain(t *testing.T) {
	for i := 0; i < zz.N(200); i++ {
		task := monkit.NewRegistry().ScopeNamed(fmt.Sprint("s", i)).Task()
		var wg sync.WaitGroup
		got := make([]string, 6)
		for g := range got {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				if g%2 == 0 {
					got[g] = firstA(context.Background(), task)
				} else {
					got[g] = firstB(context.Background(), task)
				}
			}()
		}
		wg.Wait()
		for _, n := range got {
			if n != got[0] || (n != "firstA" && n != "firstB") || task.Func().ShortName() != n {
				t.Fatalf("one task has the names %v", got)
			}
		}
		zz.Case(t.Name(), show(got))
	}
}

func TestC32_Schedules(t *testing.T) {
	zz.Try(t, 300, func() ([]func(), func() error) {
		task := monkit.NewRegistry().ScopeNamed("s").Task()
		got := make([]string, 3)
		return []func(){
			func() { got[0] = firstA(context.Background(), task) },
			func() { got[1] = firstB(context.Background(), task) },
			func() { got[2] = firstA(context.Background(), task) }}, func() error {
			if got[0] != got[1] || got[0] != got[2] {
				return fmt.Errorf("one task has the names %v", got)
			}
			return nil
		}
	})
}
