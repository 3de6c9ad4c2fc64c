package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Z3 is a persistent z3 process; each query is preceded by (reset).
type Z3 struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	bin string
}

func startZ3(bin string) (*Z3, error) {
	cmd := exec.Command(bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Z3{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), bin: bin}, nil
}

func (z *Z3) stop() {
	z.in.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

// query returns sat/unsat/unknown and, when sat and wanted, the model text.
func (z *Z3) query(body string, timeoutMs int, wantModel bool) (res, model string, err error) {
	var b strings.Builder
	fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", timeoutMs)
	b.WriteString(body)
	b.WriteString("(check-sat)\n(echo \"--done--\")\n")
	type answer struct {
		lines []string
		err   error
	}
	ch := make(chan answer, 1)
	ask := func(text string) ([]string, error) {
		go func() {
			if _, err := io.WriteString(z.in, text); err != nil {
				ch <- answer{err: err}
				return
			}
			var lines []string
			for {
				l, err := z.out.ReadString('\n')
				if err != nil {
					ch <- answer{err: err}
					return
				}
				l = strings.TrimRight(l, "\n")
				if l == "--done--" || l == "\"--done--\"" {
					break
				}
				lines = append(lines, l)
			}
			ch <- answer{lines: lines}
		}()
		select {
		case a := <-ch:
			return a.lines, a.err
		case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 5*time.Second):
			z.cmd.Process.Kill()
			return nil, fmt.Errorf("solver hung")
		}
	}
	lines, err := ask(b.String())
	if err != nil {
		return "unknown", "", err
	}
	res = "unknown"
	for _, l := range lines {
		switch l {
		case "sat", "unsat", "unknown":
			res = l
		}
		if strings.HasPrefix(l, "(error") {
			return "error", strings.Join(lines, "\n"), nil
		}
	}
	if res == "sat" && wantModel {
		lines, err := ask("(get-model)\n(echo \"--done--\")\n")
		if err == nil {
			model = strings.Join(lines, "\n")
		}
	}
	return res, model, nil
}

// Solvers is a pool.
type Solvers struct {
	mu      sync.Mutex
	idle    []*Z3
	cache   map[string]string
	Queries int
	Time    time.Duration
	ByTool  map[string]int
}

func newSolvers() *Solvers { return &Solvers{cache: map[string]string{}, ByTool: map[string]int{}} }

var z3Bin = func() string {
	for _, b := range []string{"z3-new", "z3"} {
		if _, err := exec.LookPath(b); err == nil {
			return b
		}
	}
	return "z3"
}()

func (s *Solvers) get() (*Z3, error) {
	s.mu.Lock()
	if n := len(s.idle); n > 0 {
		z := s.idle[n-1]
		s.idle = s.idle[:n-1]
		s.mu.Unlock()
		return z, nil
	}
	s.mu.Unlock()
	return startZ3(z3Bin)
}
func (s *Solvers) put(z *Z3) {
	s.mu.Lock()
	s.idle = append(s.idle, z)
	s.mu.Unlock()
}
func (s *Solvers) close() {
	for _, z := range s.idle {
		z.stop()
	}
	s.idle = nil
}

func (s *Solvers) z3(body string, timeoutMs int, model bool) (string, string) {
	z, err := s.get()
	if err != nil {
		return "unknown", err.Error()
	}
	t0 := time.Now()
	res, m, err := z.query(body, timeoutMs, model)
	s.mu.Lock()
	s.Queries++
	s.Time += time.Since(t0)
	s.mu.Unlock()
	if err != nil {
		z.stop()
		return "unknown", err.Error()
	}
	s.put(z)
	return res, m
}

// feasible is the quick check used to prune paths: false only when unsat.
func (s *Solvers) feasible(asserts []*Term) bool {
	body := Script(asserts)
	s.mu.Lock()
	if r, ok := s.cache[body]; ok {
		s.mu.Unlock()
		return r != "unsat"
	}
	s.mu.Unlock()
	r, m := s.z3(body, 400, false)
	if r == "error" {
		fmt.Fprintln(os.Stderr, "solver error (feasible):", m)
		if os.Getenv("GVC_DUMP") != "" {
			fmt.Fprintln(os.Stderr, body)
		}
	}
	s.mu.Lock()
	s.cache[body] = r
	s.mu.Unlock()
	return r != "unsat"
}

func runTool(body string, timeoutS int, name string, args ...string) string {
	cmd := exec.Command(name, args...)
	cmd.Stdin = strings.NewReader(body)
	done := make(chan string, 1)
	go func() {
		out, _ := cmd.Output()
		done <- string(out)
	}()
	select {
	case o := <-done:
		for _, l := range strings.Split(o, "\n") {
			if l == "sat" || l == "unsat" || l == "unknown" {
				return l
			}
		}
		return "unknown"
	case <-time.After(time.Duration(timeoutS+2) * time.Second):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		return "unknown"
	}
}

// prove decides validity of (and asserts) => goal.
// Result: "proved", "refuted" (with model), "unknown", "error".
func (s *Solvers) prove(asserts []*Term, goal *Term, timeoutMs int) (res, model, tool string) {
	all := append(append([]*Term{}, asserts...), Not(goal))
	return s.proveBody(Script(all), timeoutMs)
}

// proveBody decides whether the script is unsatisfiable.
func (s *Solvers) proveBody(body string, timeoutMs int) (res, model, tool string) {
	r, m := s.z3(body, timeoutMs, true)
	switch r {
	case "unsat":
		return "proved", "", z3Bin
	case "sat":
		return "refuted", m, z3Bin
	case "error":
		return "error", m, z3Bin
	}
	t0 := time.Now()
	defer func() {
		s.mu.Lock()
		s.Time += time.Since(t0)
		s.mu.Unlock()
	}()
	if !strings.Contains(body, "(lambda ") {
		full := "(set-logic ALL)\n" + body + "(check-sat)\n"
		r = runTool(full, timeoutMs/1000+1, "cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", timeoutMs))
		if r == "unsat" {
			return "proved", "", "cvc5"
		}
		if r == "sat" {
			return "refuted", "", "cvc5"
		}
	}
	r = runTool(body+"(check-sat)\n", timeoutMs/1000+1, "z3", "-in", "-smt2", fmt.Sprintf("-T:%d", timeoutMs/1000+1))
	if r == "unsat" {
		return "proved", "", "z3"
	}
	return "unknown", m, z3Bin
}
