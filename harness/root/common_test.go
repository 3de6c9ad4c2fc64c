package monkit_test

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

func TestMain(m *testing.M) {
	code := m.Run()
	zz.Report()
	os.Exit(code)
}

type stat struct {
	key, field string
	val        float64
}

func (s stat) String() string { return fmt.Sprintf("%s %s=%v", s.key, s.field, s.val) }

func plainKey(k monkit.SeriesKey) string {
	all := k.Tags.All()
	var keys []string
	for t := range all {
		keys = append(keys, t)
	}
	sort.Strings(keys)
	s := fmt.Sprintf("%q", k.Measurement)
	for _, t := range keys {
		s += fmt.Sprintf(",%q=%q", t, all[t])
	}
	return s
}

// publish is what a source publishes, in order.
func publish(src monkit.StatSource) (out []stat) {
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, stat{plainKey(key), field, val})
	})
	return out
}

func published(src monkit.StatSource) map[string]float64 {
	m := map[string]float64{}
	for _, s := range publish(src) {
		m[s.field] = s.val
	}
	return m
}

func same(a, b float64) bool { return a == b || (a != a && b != b) }

func statsEqual(a, b []stat) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key || a[i].field != b[i].field || !same(a[i].val, b[i].val) {
			return false
		}
	}
	return true
}

// sameSet compares publications whatever their order.
func sameSet(a, b []stat) bool {
	x, y := append([]stat(nil), a...), append([]stat(nil), b...)
	for _, s := range [][]stat{x, y} {
		s := s
		sort.Slice(s, func(i, j int) bool { return s[i].String() < s[j].String() })
	}
	return statsEqual(x, y)
}

// statsStr is a publication as text, whatever its order.
func statsStr(a []stat) string {
	var out []string
	for _, s := range a {
		out = append(out, s.String())
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func show(v interface{}) string { return fmt.Sprintf("%v", v) }

// panics runs f and returns what it panicked with.
func panics(f func()) (val interface{}, did bool) {
	did = true
	defer func() {
		if did {
			val = recover()
		}
	}()
	f()
	did = false
	return nil, did
}

var (
	_ = context.Background
	_ = errors.New
	_ = math.Inf
	_ = strings.Join
	_ = time.Now
)

func contains(s, sub string) bool { return strings.Contains(s, sub) }
