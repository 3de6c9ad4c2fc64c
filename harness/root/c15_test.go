package monkit_test

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

func TestC15_Immutable(t *testing.T) {
	rng := zz.NewRng(150)
	for i := 0; i < zz.N(600); i++ {
		type set struct {
			ts  *monkit.TagSet
			ref map[string]string
		}
		sets := []set{{nil, map[string]string{}}, {&monkit.TagSet{}, map[string]string{}}}
		keys := []string{"a", "b", "", "c d", rng.Str(true)}
		desc := ""
		for n := 0; n < 12; n++ {
			src := sets[rng.Intn(len(sets))]
			ref := map[string]string{}
			for k, v := range src.ref {
				ref[k] = v
			}
			var tags []monkit.SeriesTag
			m := map[string]string{}
			for c := rng.Intn(4); c > 0; c-- {
				k, v := keys[rng.Intn(len(keys))], fmt.Sprint(rng.Intn(5))
				tags = append(tags, monkit.NewSeriesTag(k, v))
				m[k] = v
			}
			var got *monkit.TagSet
			switch k := rng.Intn(5); k {
			case 0:
				got = src.ts.SetTags(tags...)
			case 1:
				got = src.ts.SetAll(m)
				for k := range m {
					defer delete(m, k)
				}
			case 2:
				tags, m = tags[:0], map[string]string{keys[0]: "z"}
				got = src.ts.Set(keys[0], "z")
			case 3:
				got = monkit.SeriesKey{Measurement: "m", Tags: src.ts}.WithTags(tags...).Tags
			default:
				tags, m = tags[:0], map[string]string{keys[1]: "y"}
				got = monkit.SeriesKey{Measurement: "m", Tags: src.ts}.WithTag(keys[1], "y").Tags
			}
			for k, v := range m {
				ref[k] = v
			}
			// what the caller passed stays the caller's
			for j := range tags {
				tags[j] = monkit.NewSeriesTag("mine", "mine")
			}
			for k := range m {
				m[k] = "mine"
			}
			m["mine"] = "mine"
			sets = append(sets, set{got, ref})
			desc += fmt.Sprint(ref, " ")
			for _, s := range sets {
				if s.ts.Len() != len(s.ref) || len(s.ts.All()) != len(s.ref) {
					t.Fatalf("%s: %d tags, want %v", desc, s.ts.Len(), s.ref)
				}
				for k, v := range s.ref {
					if all, ok := s.ts.All()[k]; s.ts.Get(k) != v || all != v || !ok {
						t.Fatalf("%s: tag %q is %q, want %q", desc, k, s.ts.Get(k), v)
					}
				}
				if s.ts.Get("absent") != "" {
					t.Fatalf("%s: an absent tag has a value", desc)
				}
				if n > 5 {
					_ = s.ts.String()
				}
			}
		}
		zz.Case(t.Name(), desc)
	}
	// an instrument's key keeps its tags whatever is done with the published one
	c := monkit.NewCounter(monkit.NewSeriesKey("c").WithTag("a", "1"))
	before := statsStr(publish(c))
	c.Stats(func(k monkit.SeriesKey, f string, v float64) {
		k.WithTag("a", "2").WithTags(monkit.NewSeriesTag("b", "3"))
	})
	if g := statsStr(publish(c)); g != before {
		t.Fatalf("published %s, then %s", before, g)
	}
}

func TestC15_Schedules(t *testing.T) {
	zz.Try(t, 200, func() ([]func(), func() error) {
		k := monkit.NewSeriesKey("m").WithTag("a", "1")
		got := make([]string, 3)
		return []func(){
			func() { got[0] = k.WithTag("b", "2").String() },
			func() { got[1] = k.WithTag("a", "3").String() },
			func() { got[2] = k.String() }}, func() error {
			if w := []string{"m,a=1,b=2", "m,a=3", "m,a=1"}; show(got) != show(w) || k.String() != "m,a=1" {
				return fmt.Errorf("texts %v, want %v", got, w)
			}
			return nil
		}
	})
}

func refEsc(s, seps string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(seps, s[i]) >= 0 {
			out += "\\"
		}
		out += string(s[i : i+1])
	}
	return out
}

func refText(m string, tags map[string]string, field string, withField bool) string {
	out := refEsc(m, ", ")
	var keys []string
	for k := range tags {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		out += "," + refEsc(k, ",= ") + "=" + refEsc(tags[k], ",= ")
	}
	if withField {
		out += " " + refEsc(field, ",= ")
	}
	return out
}

func TestC16_Text(t *testing.T) {
	rng := zz.NewRng(160)
	texts := map[string]string{}
	try := func(m string, tags map[string]string, field string, back bool) {
		var list []monkit.SeriesTag
		for k, v := range tags {
			list = append(list, monkit.NewSeriesTag(k, v))
		}
		sort.Slice(list, func(i, j int) bool { return list[i].Key < list[j].Key })
		id := fmt.Sprintf("%q %q %q", m, tags, field)
		for n := 0; n < 3; n++ {
			k := monkit.NewSeriesKey(m)
			if n == 1 {
				k = k.WithTags(list...)
			} else {
				for _, j := range rng.Perm(len(list)) {
					if n == 2 {
						k = k.WithTag(list[j].Key, "before")
						_ = k.String()
					}
					k = k.WithTag(list[j].Key, list[j].Val)
				}
			}
			if g, w := k.String(), refText(m, tags, "", false); g != w {
				t.Fatalf("%s: text %q, want %q", id, g, w)
			}
			if g, w := k.WithField(field), refText(m, tags, field, true); g != w {
				t.Fatalf("%s: text %q, want %q", id, g, w)
			}
			if g, w := k.Tags.String(), strings.TrimPrefix(refText("", tags, "", false), ","); g != w {
				t.Fatalf("%s: tags %q, want %q", id, g, w)
			}
			if g := k.String(); g != refText(m, tags, "", false) {
				t.Fatalf("%s: second text %q", id, g)
			}
			if !back {
				text := k.WithField(field)
				if was, ok := texts[text]; ok && was != id {
					t.Fatalf("%s and %s have the text %q", was, id, text)
				}
				texts[text] = id
			}
		}
		zz.Case(t.Name(), id)
	}
	parts := []string{"", "a", ",", "=", " ", "a,", "=a", "a=b", ",a=", " a", "a b", "é"}
	for _, m := range parts {
		for _, k := range parts {
			for _, v := range parts {
				try(m, map[string]string{k: v}, "f", false)
				try(m, map[string]string{}, k+v, false)
				try("m", map[string]string{k: v, m: "x"}, "f", false)
			}
		}
	}
	for i := 0; i < zz.N(4000); i++ {
		back := rng.Intn(4) == 0
		tags := map[string]string{}
		for n := rng.Intn(4); n > 0; n-- {
			tags[rng.Str(back)] = rng.Str(back)
		}
		try(rng.Str(back), tags, rng.Str(back), back)
	}
}

func TestC17_Sequences(t *testing.T) {
	rng := zz.NewRng(170)
	for i := 0; i < zz.N(800); i++ {
		dt := monkit.NewDeltaTransformer()
		last := map[string]float64{}
		keys := []monkit.SeriesKey{monkit.NewSeriesKey("m"), monkit.NewSeriesKey("m").WithTag("a", "b"), monkit.NewSeriesKey("m").WithTag("a", "c"),
			monkit.NewSeriesKey(rng.Str(false)), monkit.NewSeriesKey("m,a=b"), monkit.NewSeriesKey("m,a=b,"), monkit.NewSeriesKey("m").WithTag("a", "b,c=d"),
			monkit.NewSeriesKey("m").WithTag("a", "b").WithTag("c", "d"), monkit.NewSeriesKey("m,a=b").WithTag("c", "d"), monkit.NewSeriesKey("m ").WithTag("", ""),
			monkit.NewSeriesKey("m").WithTag("a", "b total"), monkit.NewSeriesKey("m").WithTag("a=b", "c"), monkit.NewSeriesKey("m").WithTag("scope", rng.Str(false))}
		var got []stat
		cb := dt.Transform(func(k monkit.SeriesKey, f string, v float64) { got = append(got, stat{plainKey(k), f, v}) })
		desc := ""
		for n := 0; n < 25; n++ {
			if rng.Intn(6) == 0 { // each publication transforms anew
				cb = dt.Transform(func(k monkit.SeriesKey, f string, v float64) { got = append(got, stat{plainKey(k), f, v}) })
			}
			k := keys[rng.Intn(len(keys))]
			f := []string{"total", "total", "total", "rate", "delta", "totals", ""}[rng.Intn(7)]
			v := rng.Float()
			if rng.Intn(10) == 0 {
				v = math.NaN()
			}
			want := []stat{{plainKey(k), f, v}}
			if f == "total" {
				if old, ok := last[plainKey(k)]; ok {
					want = append(want, stat{plainKey(k), "delta", v - old})
				}
				last[plainKey(k)] = v
			}
			got = nil
			cb(k, f, v)
			desc += fmt.Sprintf("%s %s=%v; ", plainKey(k), f, v)
			if !statsEqual(got, want) {
				t.Fatalf("%s: passed on %v, want %v", desc, got, want)
			}
		}
		zz.Case(t.Name(), desc)
	}
}

func TestC17_Schedules(t *testing.T) {
	zz.Try(t, 400, func() ([]func(), func() error) {
		dt := monkit.NewDeltaTransformer()
		var got []stat
		k1, k2 := monkit.NewSeriesKey("m"), monkit.NewSeriesKey("n")
		send := func(k monkit.SeriesKey, vs ...float64) func() {
			return func() {
				cb := dt.Transform(func(k monkit.SeriesKey, f string, v float64) { got = append(got, stat{plainKey(k), f, v}) })
				for _, v := range vs {
					cb(k, "total", v)
				}
			}
		}
		return []func(){send(k1, 1, 8), send(k1, 64, 512), send(k2, 3, 5), send(k1, 4096)}, func() error {
			send(k1, 1<<20)()
			send(k2, 1<<20)()
			for _, k := range []string{plainKey(k1), plainKey(k2)} {
				var totals, deltas int
				var sum float64
				first := math.NaN()
				vals := map[float64]bool{}
				for _, s := range got {
					if s.key != k {
						continue
					}
					if s.field == "delta" {
						deltas++
						sum += s.val
					} else {
						totals++
						vals[s.val] = true
					}
				}
				ok := false
				for v := range vals {
					if (1<<20)-v == sum {
						ok, first = true, v
					}
				}
				if !ok || deltas != totals-1 {
					return fmt.Errorf("series %s: %d totals, %d deltas adding up to %v (first %v): %v", k, totals, deltas, sum, first, got)
				}
			}
			return nil
		}
	})
}
