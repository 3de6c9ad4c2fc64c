package monkit_test

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

func TestC25_Ids(t *testing.T) {
	if os.Getenv("ZZ_PRINT_IDS") != "" {
		for i := 0; i < 64; i++ {
			fmt.Printf("ID %d\n", monkit.NewId())
		}
		return
	}
	seen := map[int64]bool{}
	ids := make([][]int64, 8)
	var wg sync.WaitGroup
	for g := range ids {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zz.N(40000); i++ {
				ids[g] = append(ids[g], monkit.NewId())
			}
		}()
	}
	wg.Wait()
	for _, l := range ids {
		for _, id := range l {
			if id < 0 {
				t.Fatalf("id %d", id)
			}
			if seen[id] {
				t.Fatalf("id %d twice within %d", id, len(seen))
			}
			seen[id] = true
		}
	}
	zz.Case(t.Name(), fmt.Sprintf("%d ids from 8 goroutines", len(seen)))
	r := monkit.NewRegistry()
	own := map[int64]string{}
	note := func(id int64, what string) {
		if id < 0 || own[id] != "" || seen[id] {
			t.Fatalf("%s has the id %d, which is also that of %s", what, id, own[id])
		}
		own[id] = what
	}
	for i := 0; i < 200; i++ {
		f := r.ScopeNamed("s").FuncNamed(fmt.Sprint("f", i))
		note(f.Id(), "func")
		ctx := context.Background()
		f.Task(&ctx)
		note(monkit.SpanFromCtx(ctx).Id(), "span")
		note(monkit.SpanFromCtx(ctx).Trace().Id(), "trace")
		f.Task(&ctx)
		note(monkit.SpanFromCtx(ctx).Id(), "child span")
		f.ResetTrace(&ctx)
		note(monkit.SpanFromCtx(ctx).Id(), "reset span")
		note(monkit.SpanFromCtx(ctx).Trace().Id(), "reset trace")
		if id := monkit.SpanFromCtx(ctx).Id(); monkit.SpanFromCtx(ctx).Id() != id || f.Id() != f.Id() {
			t.Fatalf("an id changes")
		}
	}
	if monkit.NewTrace(77).Id() != 77 {
		t.Fatalf("a trace made with an id has another")
	}
	// other processes
	exe, err := os.Executable()
	if err != nil {
		t.Skip(err)
	}
	all := map[string]int{}
	for p := 0; p < 6; p++ {
		cmd := exec.Command(exe, "-test.run", "^TestC25_Ids$")
		cmd.Env = append(os.Environ(), "ZZ_PRINT_IDS=1")
		out, err := cmd.Output()
		if err != nil || bytes.Count(out, []byte("ID ")) != 64 {
			t.Skip("cannot run another process", err)
		}
		var first, second int64
		for i, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "ID ") {
				all[l]++
				v, _ := strconv.ParseInt(l[3:], 10, 64)
				if i == 0 {
					first = v
				} else if i == 1 {
					second = v
				}
				if v < 0 {
					t.Fatalf("id %d", v)
				}
				if all[l] > 1 {
					t.Fatalf("%s in two processes", l)
				}
			}
		}
		zz.Case(t.Name(), fmt.Sprintf("another process: %d %d", first, second))
	}
}

func TestC25_Schedules(t *testing.T) {
	zz.Try(t, 400, func() ([]func(), func() error) {
		var ids []int64
		get := func() {
			for i := 0; i < 3; i++ {
				id := monkit.NewId()
				ids = append(ids, id)
			}
		}
		return []func(){get, get, get}, func() error {
			m := map[int64]bool{}
			for _, id := range ids {
				if m[id] || id < 0 {
					return fmt.Errorf("ids %v", ids)
				}
				m[id] = true
			}
			return nil
		}
	})
}

func parentsOf(f *monkit.Func) string {
	var out []string
	f.Parents(func(p *monkit.Func) {
		if p == nil {
			out = append(out, "entry")
		} else {
			out = append(out, p.ShortName())
		}
	})
	sort.Strings(out)
	return strings.Join(out, " ")
}

func TestC26_Parents(t *testing.T) {
	rng := zz.NewRng(260)
	for i := 0; i < zz.N(500); i++ {
		r := monkit.NewRegistry()
		var fs []*monkit.Func
		for n := 0; n < 5; n++ {
			fs = append(fs, r.ScopeNamed("s").FuncNamed(fmt.Sprint("f", n)))
		}
		want := map[*monkit.Func]map[string]bool{}
		for _, f := range fs {
			want[f] = map[string]bool{}
		}
		ctxs := []context.Context{context.Background()}
		desc := ""
		for n := 0; n < 16; n++ {
			f := fs[rng.Intn(5)]
			ctx := ctxs[rng.Intn(len(ctxs))]
			p := monkit.SpanFromCtx(ctx)
			from := "entry"
			switch k := rng.Intn(8); {
			case k < 5:
				f.Task(&ctx)
				if p != nil {
					from = p.Func().ShortName()
				}
			case k == 5:
				f.ResetTrace(&ctx)
			case k == 6:
				f.RemoteTrace(&ctx, 4, monkit.NewTrace(1))
			default:
				f.Observe()
				want[f][from] = true
				desc += f.ShortName() + "<observed "
				continue
			}
			want[f][from] = true
			ctxs = append(ctxs, ctx)
			desc += f.ShortName() + "<" + from + " "
			for _, g := range fs {
				var w []string
				for k := range want[g] {
					w = append(w, k)
				}
				sort.Strings(w)
				if got := parentsOf(g); got != strings.Join(w, " ") {
					t.Fatalf("%s: callers of %s: %q, want %q", desc, g.ShortName(), got, strings.Join(w, " "))
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC26_Schedules(t *testing.T) {
	for v := 0; v < 2; v++ {
		v := v
		zz.Try(t, 500, func() ([]func(), func() error) {
			r := monkit.NewRegistry()
			f := r.ScopeNamed("s").FuncNamed("f")
			if v == 1 {
				f.Task(nil)(nil)
			}
			call := func(names ...string) func() {
				return func() {
					for _, n := range names {
						ctx := context.Background()
						if n != "" {
							defer r.ScopeNamed("s").FuncNamed(n).Task(&ctx)(nil)
						}
						f.Task(&ctx)(nil)
					}
				}
			}
			var seen []string
			return []func(){call("a", "b"), call("a", ""), call("c"), func() { seen = append(seen, parentsOf(f)) }}, func() error {
				if g := parentsOf(f); g != "a b c entry" {
					return fmt.Errorf("callers %q, want a b c entry", g)
				}
				for _, s := range seen {
					if strings.Count(s, "a") > 1 || strings.Count(s, "entry") > 1 {
						return fmt.Errorf("callers seen in between: %q", s)
					}
				}
				return nil
			}
		})
	}
}

func TestC30_Annotations(t *testing.T) {
	rng := zz.NewRng(300)
	for i := 0; i < zz.N(300); i++ {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		exit := f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		var want []monkit.Annotation
		var reads [][]monkit.Annotation
		var lens []int
		desc := ""
		for n := rng.Intn(20); n >= 0; n-- {
			switch rng.Intn(4) {
			case 0:
				a := s.Annotations()
				reads, lens = append(reads, a), append(lens, len(want))
				if rng.Bool() && len(a) > 0 { // a copy
					a[0].Name = "changed"
					reads, lens = reads[:len(reads)-1], lens[:len(lens)-1]
				}
				_ = append(s.Annotations(), monkit.Annotation{Name: "mine"})
			default:
				a := monkit.Annotation{Name: rng.Str(true), Value: rng.Str(true)}
				s.Annotate(a.Name, a.Value)
				want = append(want, a)
				desc += fmt.Sprintf("%q ", a)
			}
			if rng.Intn(10) == 0 {
				exit(nil)
				exit = func(*error) {}
			}
		}
		if g := s.Annotations(); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) && len(want) > 0 {
			t.Fatalf("annotations %q, want %q", g, want)
		} else if len(g) != len(want) {
			t.Fatalf("annotations %q, want %q", g, want)
		}
		for j, a := range reads {
			if len(a) != lens[j] || (len(a) > 0 && fmt.Sprintf("%q", a) != fmt.Sprintf("%q", want[:lens[j]])) {
				t.Fatalf("read earlier: %q, want %q", a, want[:lens[j]])
			}
		}
		zz.Case(t.Name(), desc)
	}
}

type printer struct{ a, b int }

func (p printer) GoString() string { return fmt.Sprintf("<%d %d>", p.a, p.b) }

func renderArg(a interface{}, deep bool) string {
	switch x := a.(type) {
	case string:
		return strconv.Quote(x)
	case []uint8:
		return "[]uint8(0x" + hex.EncodeToString(x) + ")"
	case time.Time:
		return "time.Time(" + x.Format(time.RFC3339Nano) + ")"
	case []interface{}:
		if deep {
			var parts []string
			for _, y := range x {
				parts = append(parts, renderArg(y, false))
			}
			return "{" + strings.Join(parts, ", ") + "}"
		}
	}
	return fmt.Sprintf("%#v", a)
}

func TestC30_Arguments(t *testing.T) {
	rng := zz.NewRng(301)
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	p := &printer{1, 2}
	for i := 0; i < zz.N(1500); i++ {
		one := func(depth int) interface{} { return nil }
		one = func(depth int) interface{} {
			switch k := rng.Intn(16); k {
			case 0, 1:
				return rng.Str(true) + string([]byte{0xff, 0})[:rng.Intn(3)]
			case 2:
				return []byte(rng.Str(true))
			case 3:
				return []byte(nil)
			case 4:
				return nil
			case 5:
				return rng.Int()
			case 6:
				return rng.Float()
			case 7:
				return time.Unix(rng.Small(), int64(rng.Intn(1000000000)))
			case 8:
				return time.Time{}.Add(time.Duration(rng.Intn(100)))
			case 9, 10:
				if depth > 0 {
					l := []interface{}{}
					for n := rng.Intn(4); n > 0; n-- {
						l = append(l, one(depth-1))
					}
					return l
				}
				return []int{1, 2}
			case 11:
				return p
			case 12:
				return printer{3, 4}
			case 13:
				return map[string]int{"a": 1}
			case 14:
				return []string{"x", rng.Str(true)}
			default:
				return fmt.Errorf("e")
			}
		}
		var args []interface{}
		var want []string
		for n := rng.Intn(4); n >= 0; n-- {
			a := one(2)
			if _, isErr := a.(error); isErr {
				a = true
			}
			args = append(args, a)
			want = append(want, renderArg(a, true))
		}
		ctx := context.Background()
		f.Task(&ctx, args...)(nil)
		s := monkit.SpanFromCtx(ctx)
		if g := s.Args(); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
			t.Fatalf("arguments %#v rendered %q, want %q", args, g, want)
		}
		zz.Case(t.Name(), fmt.Sprintf("%q", want))
	}
	ctx := context.Background()
	f.Task(&ctx)(nil)
	if g := monkit.SpanFromCtx(ctx).Args(); len(g) != 0 {
		t.Fatalf("no arguments rendered %q", g)
	}
	f.RemoteTrace(&ctx, 1, monkit.NewTrace(3), "r", 1)(nil)
	if g := monkit.SpanFromCtx(ctx).Args(); show(g) != `["r" 1]` {
		t.Fatalf("arguments rendered %q", g)
	}
	f.ResetTrace(&ctx, "t", 2)(nil)
	if g := monkit.SpanFromCtx(ctx).Args(); show(g) != `["t" 2]` {
		t.Fatalf("arguments rendered %q", g)
	}
}

func TestC30_Schedules(t *testing.T) {
	zz.Try(t, 500, func() ([]func(), func() error) {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		exit := f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		s.Annotate("0", "")
		var reads [][]monkit.Annotation
		ann := func(names ...string) func() {
			return func() {
				for _, n := range names {
					s.Annotate(n, n)
				}
			}
		}
		return []func(){ann("a1", "a2"), ann("b1", "b2"), func() { reads = append(reads, s.Annotations(), s.Annotations()) }, func() { exit(nil) }}, func() error {
			all := s.Annotations()
			got := ""
			for _, a := range all {
				got += a.Name + " "
			}
			for _, n := range []string{"0", "a1", "a2", "b1", "b2"} {
				if strings.Count(got, n+" ") != 1 {
					return fmt.Errorf("annotations %s", got)
				}
			}
			if strings.Index(got, "a1") > strings.Index(got, "a2") || strings.Index(got, "b1") > strings.Index(got, "b2") {
				return fmt.Errorf("annotations out of order: %s", got)
			}
			for _, r := range reads {
				if fmt.Sprint(r) != fmt.Sprint(all[:len(r)]) {
					return fmt.Errorf("read %v, later %v", r, all)
				}
			}
			return nil
		}
	})
}

func TestC31_Values(t *testing.T) {
	rng := zz.NewRng(310)
	type key struct{ a int }
	keys := []interface{}{"a", 1, int64(1), key{1}, key{2}, nil, &key{1}, true, 1.5}
	for i := 0; i < zz.N(400); i++ {
		tr := monkit.NewTrace(1)
		ref := map[interface{}]interface{}{}
		desc := ""
		var copies []map[interface{}]interface{}
		var want []string
		str := func(m map[interface{}]interface{}) string {
			var out []string
			for k, v := range m {
				out = append(out, fmt.Sprintf("%T%v=%v", k, k, v))
			}
			sort.Strings(out)
			return strings.Join(out, " ")
		}
		for n := 0; n < 15; n++ {
			k := keys[rng.Intn(len(keys))]
			switch rng.Intn(4) {
			case 0, 1:
				var v interface{} = rng.Intn(10)
				if rng.Intn(5) == 0 {
					v = nil
				}
				tr.Set(k, v)
				ref[k] = v
				desc += fmt.Sprintf("set %v=%v ", k, v)
			case 2:
				m := tr.GetAll()
				copies, want = append(copies, m), append(want, str(ref))
				if str(m) != str(ref) {
					t.Fatalf("%s: all %s, want %s", desc, str(m), str(ref))
				}
				if rng.Bool() {
					m["mine"] = 1
					delete(m, k)
					copies, want = copies[:len(copies)-1], want[:len(want)-1]
				}
			}
			for _, k := range keys {
				if g := tr.Get(k); g != ref[k] {
					t.Fatalf("%s: %v is %v, want %v", desc, k, g, ref[k])
				}
			}
			for j := range copies {
				if str(copies[j]) != want[j] {
					t.Fatalf("%s: a copy became %s, was %s", desc, str(copies[j]), want[j])
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC31_Schedules(t *testing.T) {
	type model map[interface{}]interface{}
	zz.Try(t, 500, func() ([]func(), func() error) {
		tr := monkit.NewTrace(1)
		h := &zz.Hist[model]{}
		set := func(k, v interface{}) {
			h.Do(fmt.Sprintf("set %v %v", k, v), func() string { tr.Set(k, v); return "" }, func(m model) string { m[k] = v; return "" })
		}
		get := func(k interface{}) {
			h.Do(fmt.Sprintf("get %v", k), func() string { return show(tr.Get(k)) }, func(m model) string { return show(m[k]) })
		}
		all := func() {
			h.Do("all", func() string { return show(tr.GetAll()) }, func(m model) string { return show(map[interface{}]interface{}(m)) })
		}
		return []func(){
			func() { set("a", 1); get("b") },
			func() { set("b", 2); all() },
			func() { set("a", 3); get("a") }}, func() error {
			return h.Check(func() model { return model{} })
		}
	})
}
