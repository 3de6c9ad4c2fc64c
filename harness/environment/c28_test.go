package environment_test

import (
	"fmt"
	"hash/crc32"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"unsafe"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
)

func init() { runtime.LockOSThread() } // the main thread names the process

// oddName is what is published while the name of the process is such that
// its data does not parse.
var oddName stats

func setName(name string) {
	b := append([]byte(name), make([]byte, 16)...)
	syscall.RawSyscall(syscall.SYS_PRCTL, 15, uintptr(unsafe.Pointer(&b[0])), 0)
}

func TestMain(m *testing.M) {
	if old, err := os.ReadFile("/proc/self/comm"); err == nil {
		setName("a b")
		oddName = read(environment.Proc())
		setName(strings.TrimSpace(string(old)))
	}
	runtime.UnlockOSThread()
	code := m.Run()
	zz.Report()
	os.Exit(code)
}

type stats map[string][]float64

func read(src monkit.StatSource) stats {
	out := stats{}
	src.Stats(func(k monkit.SeriesKey, f string, v float64) {
		key := k.Measurement + "/" + f
		out[key] = append(out[key], v)
	})
	return out
}

var sources = map[string]func() monkit.StatSource{
	"OS": environment.OS, "Proc": environment.Proc, "Process": environment.Process, "Runtime": environment.Runtime, "Rusage": environment.Rusage,
}

func keys(s stats) string {
	var out []string
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func TestC28_Register(t *testing.T) {
	runtime.GC()
	want := stats{}
	for _, f := range sources {
		for k, v := range read(f()) {
			want[k] = append(want[k], v...)
		}
	}
	for _, k := range []string{"fds/count", "proc_stat/Pid", "proc_statm/Size", "process/control", "process/crc", "process/uptime", "goroutines/count", "runtime_memstats/Alloc", "runtime_gcstats/count", "rusage/Minflt"} {
		if len(want[k]) != 1 {
			t.Errorf("%s is published %d times", k, len(want[k]))
		}
	}
	for times := 0; times < 4; times++ {
		reg := monkit.NewRegistry()
		other := monkit.NewRegistry()
		for i := 0; i < times; i++ {
			environment.Register(reg)
		}
		got := read(reg)
		for k := range want {
			if len(got[k]) != times {
				t.Fatalf("registered %d times, %s is published %d times", times, k, len(got[k]))
			}
		}
		if times > 0 && keys(got) != keys(want) {
			t.Fatalf("published %s, not %s", keys(got), keys(want))
		}
		if len(read(other)) != 0 {
			t.Fatalf("another registry was touched")
		}
		zz.Case(t.Name(), fmt.Sprint(times))
	}
	before := read(monkit.Default)
	environment.Register(nil)
	after := read(monkit.Default)
	for k := range want {
		if len(after[k]) != len(before[k])+1 {
			t.Fatalf("%s: %d, then %d on the default registry", k, len(before[k]), len(after[k]))
		}
	}
}

func TestC28_Values(t *testing.T) {
	for i := 0; i < zz.N(3); i++ {
		var open []*os.File
		for k := 0; k < i; k++ {
			f, err := os.Open("/dev/null")
			if err == nil {
				open = append(open, f)
			}
		}
		ents, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip("no /proc")
		}
		if v := read(environment.OS())["fds/count"]; len(v) != 1 || v[0] != float64(len(ents)) {
			t.Errorf("fds %v, not %d", v, len(ents))
		}
		for _, f := range open {
			f.Close()
		}
		p := read(environment.Proc())
		if v := p["proc_stat/Pid"]; len(v) != 1 || v[0] != float64(os.Getpid()) {
			t.Errorf("pid %v, not %d", v, os.Getpid())
		}
		if v := p["proc_stat/Ppid"]; len(v) != 1 || v[0] != float64(os.Getppid()) {
			t.Errorf("parent pid %v, not %d", v, os.Getppid())
		}
		b, err := os.ReadFile("/proc/self/exe")
		if err != nil {
			t.Skip("no /proc")
		}
		q := read(environment.Process())
		if v := q["process/crc"]; len(v) != 1 || v[0] != float64(crc32.ChecksumIEEE(b)) {
			t.Errorf("crc %v, not %d", v, crc32.ChecksumIEEE(b))
		}
		if v := q["process/control"]; len(v) != 1 || v[0] != 1 {
			t.Errorf("control %v", v)
		}
		if v := read(environment.Runtime())["goroutines/count"]; len(v) != 1 || v[0] < 1 || v[0] > float64(runtime.NumGoroutine()+50) {
			t.Errorf("goroutines %v", v)
		}
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		if v := read(environment.Rusage())["rusage/Maxrss"]; len(v) != 1 || v[0] < float64(ru.Maxrss) {
			t.Errorf("rusage %v, at least %d", v, ru.Maxrss)
		}
		zz.Case(t.Name(), "values")
	}
}

func gcs() int64 {
	var s debug.GCStats
	debug.ReadGCStats(&s)
	return s.NumGC
}

func TestC28_Pauses(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	count := func(src monkit.StatSource) float64 {
		v := read(src)["runtime_gcstats/count"]
		if len(v) != 1 {
			t.Fatalf("the pauses are published %d times", len(v))
		}
		return v[0]
	}
	for i := 0; i < zz.N(6); i++ {
		r := zz.NewRng(uint64(i))
		src := environment.Runtime()
		runtime.GC()
		var log string
		last, n := gcs(), 0.0
		for k := 0; k < 12; k++ {
			if r.Intn(3) == 0 {
				for c := 1 + r.Intn(2); c > 0; c-- {
					runtime.GC()
				}
				log += "g"
			}
			now := gcs()
			got := count(src)
			log += "p"
			most := float64(now - last)
			if k == 0 {
				most = float64(now)
			}
			if got < n || got > n+most {
				t.Fatalf("%s: %v pauses recorded, %v before, %v collections meanwhile", log, got, n, most)
			}
			if k > 0 && now > last && got == n {
				t.Fatalf("%s: a collection was not recorded", log)
			}
			last, n = now, got
		}
		zz.Case(t.Name(), log)
	}
	zz.Try(t, 120, func() ([]func(), func() error) {
		src := environment.Runtime()
		runtime.GC()
		start := count(src)
		n := gcs()
		pub := func() { read(src) }
		return []func(){pub, pub, func() { runtime.GC(); read(src) }}, func() error {
			if got := count(src); got > start+float64(gcs()-n) {
				return fmt.Errorf("%v pauses recorded for %d collections", got-start, gcs()-n)
			}
			return nil
		}
	})
}

// system data that cannot be read
func TestC28_Unreadable(t *testing.T) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		t.Skip("no limits")
	}
	all := map[string]monkit.StatSource{}
	for n, f := range sources {
		all[n] = f()
	}
	lim := old
	lim.Cur = 0
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		t.Skip("no limits")
	}
	got := map[string]stats{}
	bad := map[string]interface{}{}
	_, err := os.Open("/proc/self/stat")
	for n, s := range all {
		func() {
			defer func() {
				if x := recover(); x != nil {
					bad[n] = x
				}
			}()
			got[n] = read(s)
		}()
	}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	if err == nil {
		t.Skip("files can be opened all the same")
	}
	if len(bad) > 0 {
		t.Fatalf("panics: %v", bad)
	}
	if len(got["OS"]) != 0 || len(got["Proc"]) != 0 {
		t.Fatalf("published what cannot be read: %v %v", got["OS"], got["Proc"])
	}
	if len(got["Process"]["process/control"]) != 1 || len(got["Process"]["process/uptime"]) != 1 || len(got["Rusage"]) == 0 || len(got["Runtime"]) == 0 {
		t.Fatalf("what can be read is not published: %v", got)
	}
	zz.Case(t.Name(), "no files")
}

func TestC28_Unparsable(t *testing.T) {
	for k, v := range oddName {
		if strings.HasPrefix(k, "proc_stat/") && len(v) != 1 {
			t.Fatalf("%s: %v", k, v)
		}
	}
	if p := oddName["proc_stat/Pid"]; len(p) > 0 && (p[0] != float64(os.Getpid()) || oddName["proc_stat/Ppid"][0] != float64(os.Getppid()) || oddName["proc_stat/NumThreads"][0] < 1) {
		t.Fatalf("published of what cannot be read: %v", oddName)
	}
	zz.Case(t.Name(), "odd name")
}

func TestC23_Environment(t *testing.T) {
	for n, f := range sources {
		src := f()
		for _, boom := range []bool{false, true} {
			func() {
				defer func() { recover() }()
				deep := false
				src.Stats(func(monkit.SeriesKey, string, float64) {
					if zz.Rewritten && zz.Held() != 0 {
						t.Errorf("%s: the callback is called with %d locks held", n, zz.Held())
					}
					if !deep {
						deep = true
						src.Stats(func(monkit.SeriesKey, string, float64) {})
					}
					if boom {
						panic("boom")
					}
				})
			}()
			read(src)
			if zz.Rewritten && zz.Held() != 0 {
				t.Errorf("%s: %d locks are still held", n, zz.Held())
			}
		}
		zz.Case(t.Name(), n)
	}
}

func TestC24_Environment_Race(t *testing.T) {
	reg := monkit.NewRegistry()
	environment.Register(reg)
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zz.N(10); i++ {
				read(reg)
				runtime.GC()
			}
		}()
	}
	wg.Wait()
	zz.Case(t.Name(), "6 goroutines")
}
