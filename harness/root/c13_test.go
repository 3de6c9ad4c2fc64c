package monkit_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

// kinds of instruments; each returns something that identifies the object.
var kinds = []struct {
	name string
	get  func(s *monkit.Scope, name string, tags []monkit.SeriesTag) interface{}
}{
	{"Func", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.FuncNamed(n, t...) }},
	{"Meter", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.Meter(n, t...) }},
	{"IntVal", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.IntVal(n, t...) }},
	{"FloatVal", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.FloatVal(n, t...) }},
	{"BoolVal", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.BoolVal(n, t...) }},
	{"StructVal", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.StructVal(n, t...) }},
	{"DurationVal", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.DurationVal(n, t...) }},
	{"Timer", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.Timer(n, t...) }},
	{"Counter", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} { return s.Counter(n, t...) }},
	{"DiffMeter", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} {
		s.DiffMeter(n, s.Meter("dm-a"), s.Meter("dm-b"), t...)
		return nil
	}},
	{"Gauge", func(s *monkit.Scope, n string, t []monkit.SeriesTag) interface{} {
		s.Gauge(n, func() float64 { return 5 })
		return nil
	}},
}

func tagStr(tags []monkit.SeriesTag) string {
	s := ""
	for _, t := range tags {
		s += fmt.Sprintf(" %q=%q", t.Key, t.Val)
	}
	return s
}

func TestC13_Identity(t *testing.T) {
	rng := zz.NewRng(130)
	for i := 0; i < zz.N(500); i++ {
		r := monkit.NewRegistry()
		type inst struct {
			kind int
			obj  interface{}
			desc string
		}
		known := map[string]*inst{} // by scope, namespace, name and tags
		objs := map[interface{}]string{}
		scopes := map[string]*monkit.Scope{}
		pool := []string{}
		for n := 0; n < 4; n++ {
			pool = append(pool, rng.Str(true))
		}
		for _, extra := range []string{"x,a=1", "x", "a", "1", "func:x", "1,b=2"} {
			if rng.Intn(3) == 0 {
				pool = append(pool, extra)
			}
		}
		log := ""
		for n := 0; n < 30; n++ {
			sn := []string{"s1", "s2", ""}[rng.Intn(3)]
			s := r.ScopeNamed(sn)
			if rng.Intn(3) == 0 {
				s = r.WithTransformers().ScopeNamed(sn)
			}
			if old := scopes[sn]; old != nil && old != s || s.Name() != sn {
				t.Fatalf("scope %q asked for twice gives different scopes", sn)
			}
			scopes[sn] = s
			k := rng.Intn(len(kinds))
			name := pool[rng.Intn(len(pool))]
			var tags []monkit.SeriesTag
			if kinds[k].name != "Gauge" {
				for m := rng.Intn(3); m > 0; m-- {
					tags = append(tags, monkit.NewSeriesTag(pool[rng.Intn(len(pool))], pool[rng.Intn(len(pool))]))
				}
			}
			ns := "v"
			if kinds[k].name == "Func" {
				ns = "f"
			}
			id := fmt.Sprintf("%q %s %q%s", sn, ns, name, tagStr(tags))
			desc := fmt.Sprintf("%s(%q%s) in %q", kinds[k].name, name, tagStr(tags), sn)
			log += desc + "; "
			if kinds[k].name == "DiffMeter" {
				known[fmt.Sprintf("%q v %q", sn, "dm-a")] = &inst{kind: 1, obj: s.Meter("dm-a")}
				known[fmt.Sprintf("%q v %q", sn, "dm-b")] = &inst{kind: 1, obj: s.Meter("dm-b")}
			}
			var obj interface{}
			_, did := panics(func() { obj = kinds[k].get(s, name, tags) })
			old := known[id]
			if clash := old != nil && old.kind != k; did != clash {
				t.Fatalf("%s\n%s: panicked %v, want %v", log, desc, did, clash)
			} else if clash {
				continue
			}
			if old != nil {
				if old.obj != obj {
					t.Fatalf("%s\n%s: a second object", log, desc)
				}
				continue
			}
			if obj != nil {
				if was, dup := objs[obj]; dup {
					t.Fatalf("%s\n%s: the object of %s", log, desc, was)
				}
				objs[obj] = desc
			}
			known[id] = &inst{kind: k, obj: obj}
		}
		zz.Case(t.Name(), log)
	}
	// formatted names are names
	s := monkit.NewRegistry().ScopeNamed("s")
	if s.IntValf("%s-%d", "a", 5) != s.IntVal("a-5") || s.FloatValf("f%d", 5) != s.FloatVal("f5") || s.BoolValf("b%d", 5) != s.BoolVal("b5") {
		t.Fatalf("a formatted name is not the name")
	}
	s.Event("e")
	s.Event("e", monkit.NewSeriesTag("a", "b"))
	s.Event("e")
	if a, b := s.Meter("e").Total(), s.Meter("e", monkit.NewSeriesTag("a", "b")).Total(); a != 2 || b != 1 {
		t.Fatalf("events marked: %v %v", a, b)
	}
}

func TestC13_Schedules(t *testing.T) {
	for k := range kinds {
		k := k
		if kinds[k].name == "Gauge" {
			continue
		}
		zz.Try(t, 120, func() ([]func(), func() error) {
			r := monkit.NewRegistry()
			got := make([]interface{}, 4)
			ask := func(i int, name string) func() {
				return func() { got[i] = kinds[k].get(r.ScopeNamed("s"), name, nil) }
			}
			clash := false
			return []func(){ask(0, "x"), ask(1, "x"), ask(2, "y"), func() {
				_, clash = panics(func() { kinds[(k+1)%9].get(r.ScopeNamed("s"), "z", nil) })
				got[3] = kinds[k].get(r.ScopeNamed("s"), "x", nil)
			}}, func() error {
				s := r.ScopeNamed("s")
				if got[0] != got[1] || got[0] != got[3] || got[0] != kinds[k].get(s, "x", nil) {
					return fmt.Errorf("%s: different objects for one name", kinds[k].name)
				}
				if got[2] != kinds[k].get(s, "y", nil) || (got[2] != nil && got[2] == got[0]) {
					return fmt.Errorf("%s: wrong object for another name", kinds[k].name)
				}
				_ = clash
				n := 0
				r.Scopes(func(*monkit.Scope) { n++ })
				if n != 1 {
					return fmt.Errorf("%d scopes for one name", n)
				}
				return nil
			}
		})
	}
}

func scoped(src monkit.StatSource, scope string) (out []stat) {
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, stat{plainKey(key.WithTag("scope", scope)), field, val})
	})
	return
}

// noRate drops what depends on the moment of publication.
func noRate(in []stat) (out []stat) {
	for _, s := range in {
		if s.field != "rate" || zz.Rewritten {
			out = append(out, s)
		}
	}
	return
}

func TestC14_Publishing(t *testing.T) {
	rng := zz.NewRng(140)
	for i := 0; i < zz.N(400); i++ {
		r := monkit.NewRegistry()
		var want func() []stat
		type src struct {
			scope string
			s     monkit.StatSource
		}
		var srcs []src
		seen := map[monkit.StatSource]bool{}
		gauges := map[string]func() float64{}
		used := map[string]bool{}
		want = func() (out []stat) {
			for _, s := range srcs {
				out = append(out, scoped(s.s, s.scope)...)
			}
			for k, g := range gauges {
				p := strings.SplitN(k, "\x00", 2)
				out = append(out, stat{plainKey(monkit.NewSeriesKey(p[1]).WithTag("scope", p[0])), "value", g()})
			}
			return
		}
		desc := ""
		for n := 0; n < 12; n++ {
			sn := []string{"s1", "s2", "a b"}[rng.Intn(3)]
			s := r.ScopeNamed(sn)
			name := fmt.Sprint(rng.Str(true), n)
			var tags []monkit.SeriesTag
			for m := rng.Intn(2); m > 0; m-- {
				tags = append(tags, monkit.NewSeriesTag(rng.Str(true), rng.Str(true)))
			}
			if used[name] {
				continue
			}
			used[name] = true
			k := rng.Intn(13)
			desc += fmt.Sprintf("%d in %s; ", k, sn)
			var o monkit.StatSource
			switch {
			case k < 9:
				o = kinds[k].get(s, name, tags).(monkit.StatSource)
				switch x := o.(type) {
				case *monkit.Func:
					for m := rng.Intn(4); m > 0; m-- {
						finish(x.Observe(), []int{-2, -1, 0, 1}[rng.Intn(4)])
					}
				case *monkit.Meter:
					x.Mark(rng.Intn(100))
				case *monkit.IntVal:
					x.Observe(rng.Small())
				case *monkit.FloatVal:
					x.Observe(1.5)
				case *monkit.BoolVal:
					x.Observe(true)
				case *monkit.StructVal:
					x.Observe(struct{ A, B int }{1, 2})
				case *monkit.DurationVal:
					x.Observe(time.Second)
				case *monkit.Counter:
					x.Inc(5)
				}
			case k == 9:
				a, b := monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))
				a.Mark(5)
				s.DiffMeter(name, a, b, tags...)
				o = monkit.NewDiffMeter(monkit.NewSeriesKey(name).WithTags(tags...), a, b)
			case k == 10:
				v := float64(rng.Intn(100))
				if rng.Bool() {
					s.Gauge(name, func() float64 { return -1 })
				}
				s.Gauge(name, func() float64 { return v })
				gauges[sn+"\x00"+name] = func() float64 { return v }
			default:
				v, n := float64(rng.Intn(100)), fmt.Sprint("chained", n)
				o = monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
					cb(monkit.NewSeriesKey(n).WithTag("scope", "other"), "f", v)
					cb(monkit.NewSeriesKey(n), "g", v+1)
				})
				s.Chain(o)
				srcs = append(srcs, src{sn, o})
				if rng.Intn(4) == 0 {
					s.Chain(o)
					srcs = append(srcs, src{sn, o})
				}
				continue
			}
			if o != nil && !seen[o] {
				seen[o] = true
				srcs = append(srcs, src{sn, o})
			}
		}
		zz.Set(zz.Now().Add(time.Second))
		w := noRate(want())
		for n := 0; n < 2; n++ {
			if g := noRate(publish(r)); !sameSet(g, w) {
				t.Fatalf("%s: published\n%s\nwant\n%s", desc, statsStr(g), statsStr(w))
			}
		}
		for _, sn := range []string{"s1", "s2", "a b"} {
			var part []stat
			for _, x := range w {
				if contains(x.key, fmt.Sprintf("%q=%q", "scope", sn)) {
					part = append(part, x)
				}
			}
			if g := noRate(publish(r.ScopeNamed(sn))); !sameSet(g, part) {
				t.Fatalf("%s: scope %s published\n%s\nwant\n%s", desc, sn, statsStr(g), statsStr(part))
			}
		}
		c := monkit.Collect(r)
		r.Stats(func(k monkit.SeriesKey, f string, v float64) {
			if g, ok := c[k.WithField(f)]; !ok || (!same(g, v) && f != "rate") {
				t.Fatalf("%s: collected %s as %v %v, want %v", desc, k.WithField(f), g, ok, v)
			}
		})
		zz.Case(t.Name(), desc)
	}
}

func TestC14_Transformers(t *testing.T) {
	rng := zz.NewRng(141)
	mk := func(name string, calls *[]string) monkit.CallbackTransformer {
		return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
			*calls = append(*calls, name)
			return func(k monkit.SeriesKey, f string, v float64) { cb(k, f+"<"+name, v+1) }
		})
	}
	for i := 0; i < zz.N(300); i++ {
		var calls []string
		base := monkit.NewRegistry()
		base.ScopeNamed("s").Counter("c").Set(5)
		base.ScopeNamed("t").Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("x"), "y", 7) }))
		regs := []*monkit.Registry{base}
		chains := [][]string{nil}
		desc := ""
		for n := 0; n < 8; n++ {
			j := rng.Intn(len(regs))
			var ts []monkit.CallbackTransformer
			ch := append([]string(nil), chains[j]...)
			for m := rng.Intn(3); m > 0; m-- {
				nm := fmt.Sprintf("t%d.%d", n, m)
				ts = append(ts, mk(nm, &calls))
				ch = append(ch, nm)
			}
			regs = append(regs, regs[j].WithTransformers(ts...))
			chains = append(chains, ch)
			desc += fmt.Sprintf("%d+%d ", j, len(ts))
			for m := range ts { // the caller's slice is the caller's
				ts[m] = mk("changed", &calls)
			}
			for q, reg := range regs {
				var want []stat
				for _, s := range publish(base) {
					for p := len(chains[q]) - 1; p >= 0; p-- {
						s.field += "<" + chains[q][p]
						s.val++
					}
					want = append(want, s)
				}
				calls = nil
				if g := publish(reg); !sameSet(g, want) {
					t.Fatalf("%s: registry %d published\n%s\nwant\n%s", desc, q, statsStr(g), statsStr(want))
				}
				if show(calls) != show(chains[q]) {
					t.Fatalf("%s: registry %d transformers applied in order %v, want %v", desc, q, calls, chains[q])
				}
			}
		}
		// the same for single sources, published more than once
		var ts []monkit.CallbackTransformer
		var ch []string
		for m := 0; m < 3; m++ {
			ts = append(ts, mk(fmt.Sprint("u", m), &calls))
			ch = append(ch, fmt.Sprint("u", m))
		}
		src := monkit.TransformStatSource(base.ScopeNamed("s").Counter("c"), ts...)
		for n := 0; n < 3; n++ {
			calls = nil
			g := publish(src)
			if len(g) != 3 || show(calls) != show(ch) {
				t.Fatalf("transformed source published %s with %v", statsStr(g), calls)
			}
			for _, s := range g {
				if !contains(s.field, "<u2<u1<u0") || s.val != 8 {
					t.Fatalf("transformed source published %s", statsStr(g))
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC14_Schedules(t *testing.T) {
	zz.Try(t, 300, func() ([]func(), func() error) {
		r := monkit.NewRegistry()
		r.ScopeNamed("s").Counter("old").Set(1)
		r.ScopeNamed("u").Gauge("g", func() float64 { return 1 })
		var pubs [][]stat
		pub := func() { pubs = append(pubs, publish(r)) }
		return []func(){
			func() { r.ScopeNamed("s").Counter("new").Set(2); pub() },
			func() { r.ScopeNamed("t").Gauge("h", func() float64 { return 3 }); pub() },
			func() {
				r.ScopeNamed("s").Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("ch"), "v", 4) }))
			},
			func() {
				r.ScopeNamed("s").Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("ci"), "v", 4) }))
			}}, func() error {
			for _, p := range pubs {
				n := map[string]int{}
				for _, s := range p {
					n[s.key+s.field]++
				}
				for k, c := range n {
					if c != 1 {
						return fmt.Errorf("%s published %d times", k, c)
					}
				}
				if n[`"old","scope"="s"value`] != 1 || n[`"g","scope"="u"value`] != 1 {
					return fmt.Errorf("a registered instrument is missing from %s", statsStr(p))
				}
			}
			var have []string
			for _, s := range publish(r) {
				have = append(have, s.key)
			}
			sort.Strings(have)
			for _, k := range []string{`"new","scope"="s"`, `"h","scope"="t"`, `"ch","scope"="s"`, `"ci","scope"="s"`} {
				if !contains(strings.Join(have, " "), k) {
					return fmt.Errorf("%s is missing from %v", k, have)
				}
			}
			return nil
		}
	})
}
