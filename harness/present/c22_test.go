package present_test

import (
	"context"
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	zz "github.com/spacemonkeygo/monkit/v3/internal/zzverif"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// dot reads a graph strictly: digraph NAME { statements }.
type dot struct {
	toks  []string
	pos   int
	nodes map[string]string // label
	edges map[string]int
	dup   []string
}

func lex(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case strings.IndexByte("{}[];=,", c) >= 0:
			out = append(out, string(c))
			i++
		case strings.HasPrefix(s[i:], "->"):
			out = append(out, "->")
			i += 2
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("a string does not end")
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q at %d", c, i)
		}
	}
	return out, nil
}

func parseDot(s string) (*dot, error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	d := &dot{toks: toks, nodes: map[string]string{}, edges: map[string]int{}}
	next := func() string {
		if d.pos >= len(d.toks) {
			return ""
		}
		d.pos++
		return d.toks[d.pos-1]
	}
	want := func(x string) error {
		if t := next(); t != x {
			return fmt.Errorf("%q instead of %q", t, x)
		}
		return nil
	}
	if err := want("digraph"); err != nil {
		return nil, err
	}
	next()
	if err := want("{"); err != nil {
		return nil, err
	}
	for {
		id := next()
		if id == "}" {
			break
		}
		if id == "" {
			return nil, fmt.Errorf("the graph does not end")
		}
		switch t := next(); t {
		case "->":
			to := next()
			d.edges[id+" "+to]++
			if err := want(";"); err != nil {
				return nil, err
			}
		case "[":
			k := next()
			if err := want("="); err != nil {
				return nil, err
			}
			v := next()
			if err := want("]"); err != nil {
				return nil, err
			}
			if err := want(";"); err != nil {
				return nil, err
			}
			if id == "node" {
				continue
			}
			if k != "label" || len(v) < 2 || v[0] != '"' {
				return nil, fmt.Errorf("node %s has %s=%s", id, k, v)
			}
			if _, ok := d.nodes[id]; ok {
				d.dup = append(d.dup, id)
			}
			d.nodes[id] = v[1 : len(v)-1]
		default:
			return nil, fmt.Errorf("%q after %q", t, id)
		}
	}
	if d.pos != len(d.toks) {
		return nil, fmt.Errorf("%q after the graph", d.toks[d.pos])
	}
	return d, nil
}

// shown is the text a label stands for: the escapes of DOT first (some of
// which stand for names of the graph), then the entities.
func shown(label string) string {
	var out strings.Builder
	for i := 0; i < len(label); i++ {
		if label[i] != '\\' || i+1 == len(label) {
			out.WriteByte(label[i])
			continue
		}
		i++
		switch label[i] {
		case 'l', 'n', 'r':
			out.WriteByte('\n')
		case 'N', 'G', 'L', 'E', 'T', 'H':
			out.WriteString("<a name of the graph>")
		default:
			out.WriteByte(label[i])
		}
	}
	return html.UnescapeString(out.String())
}

func linesOf(s string) string { return strings.Join(sorted(strings.Split(s, "\n")), "\n") }

func TestC22_SpansDot(t *testing.T) {
	for i := 0; i < zz.N(600); i++ {
		r := zz.NewRng(uint64(i))
		w := newWorld(r, func() string { return r.Str(true) })
		text := export(t, func(o io.Writer) error { return present.SpansDot(w.reg, o) })
		d, err := parseDot(text)
		if err != nil {
			t.Fatalf("%v\n%s", err, text)
		}
		if len(d.dup) > 0 || len(d.nodes) != len(w.live) {
			t.Fatalf("%d nodes for %d spans, twice: %v\n%s", len(d.nodes), len(w.live), d.dup, text)
		}
		edges := 0
		for _, s := range w.live {
			label, ok := d.nodes[fmt.Sprintf("f%d", s.Id())]
			if !ok {
				t.Fatalf("span %d is missing\n%s", s.Id(), text)
			}
			want := fmt.Sprintf("%s(%s)\nelapsed: %s\n", s.Func().FullName(), strings.Join(s.Args(), ", "), zz.Now().Sub(s.Start()))
			if s.Orphaned() {
				want += "orphaned\n"
			}
			for _, a := range s.Annotations() {
				want += fmt.Sprintf("%s: %s\n", a.Name, a.Value)
			}
			if zz.Rewritten && shown(label) != want {
				t.Fatalf("span %d is labelled %q, not %q", s.Id(), shown(label), want)
			}
			s.Children(func(c *monkit.Span) {
				edges++
				if d.edges[fmt.Sprintf("f%d f%d", s.Id(), c.Id())] != 1 {
					t.Fatalf("the edge from %d to %d is there %d times", s.Id(), c.Id(), d.edges[fmt.Sprintf("f%d f%d", s.Id(), c.Id())])
				}
			})
		}
		if len(d.edges) != edges {
			t.Fatalf("%d edges, not %d\n%s", len(d.edges), edges, text)
		}
		zz.Case(t.Name(), text)
	}
}

func TestC22_FuncsDot(t *testing.T) {
	for i := 0; i < zz.N(600); i++ {
		r := zz.NewRng(uint64(i) + 1000)
		w := newWorld(r, func() string { return r.Str(true) })
		text := export(t, func(o io.Writer) error { return present.FuncsDot(w.reg, o) })
		d, err := parseDot(text)
		if err != nil {
			t.Fatalf("%v\n%s", err, text)
		}
		nodes, edges := 0, 0
		for _, f := range w.funcs() {
			nodes++
			label, ok := d.nodes[fmt.Sprintf("f%d", f.Id())]
			if !ok {
				t.Fatalf("function %d is missing\n%s", f.Id(), text)
			}
			ids, entry := parents(f)
			if entry {
				nodes++
				edges++
				if d.nodes[fmt.Sprintf("r%d", f.Id())] != "entry" || d.edges[fmt.Sprintf("r%d f%d", f.Id(), f.Id())] != 1 {
					t.Fatalf("the entry of %d is missing\n%s", f.Id(), text)
				}
			}
			for _, p := range ids {
				edges++
				if d.edges[fmt.Sprintf("f%s f%d", p, f.Id())] != 1 {
					t.Fatalf("the edge from %s to %d is missing\n%s", p, f.Id(), text)
				}
			}
			total := int64(0)
			want := ""
			for n, c := range f.Errors() {
				total += c
				want += fmt.Sprintf("error %s: %d\n", n, c)
			}
			want = fmt.Sprintf("%s\ncurrent: %d, highwater: %d, success: %d, errors: %d, panics: %d\n", f.FullName(), f.Current(), f.Highwater(), f.Success(), total, f.Panics()) + want
			if f.Success() > 0 {
				want += "success times:\n"
				for _, l := range distText(f.SuccessTimes()) {
					want += "        " + l + "\n"
				}
			}
			if total+f.Panics() > 0 {
				want += "failure times:\n"
				for _, l := range distText(f.FailureTimes()) {
					want += "        " + l + "\n"
				}
			}
			if linesOf(shown(label)) != linesOf(want) {
				t.Fatalf("function %d is labelled\n%s\nnot\n%s", f.Id(), shown(label), want)
			}
		}
		if len(d.dup) > 0 || len(d.nodes) != nodes || len(d.edges) != edges {
			t.Fatalf("%d nodes, %d edges, not %d, %d; twice: %v\n%s", len(d.nodes), len(d.edges), nodes, edges, d.dup, text)
		}
		for e, n := range d.edges {
			if n != 1 {
				t.Fatalf("the edge %s is there %d times", e, n)
			}
		}
		zz.Case(t.Name(), text)
	}
}

type bar struct {
	x, width   int
	y, height  int
	fill, text string
}

func parseSVG(text string) (map[string]*bar, int, error) {
	if !utf8.ValidString(text) {
		return nil, 0, fmt.Errorf("not UTF-8")
	}
	d := xml.NewDecoder(strings.NewReader(text))
	out := map[string]*bar{}
	groups := 0
	depth, cur := 0, ""
	roots := 0
	inText := false
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, 0, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
				if x.Name.Local != "svg" || roots > 1 {
					return nil, 0, fmt.Errorf("root element %s", x.Name.Local)
				}
			}
			depth++
			a := map[string]string{}
			for _, at := range x.Attr {
				if _, twice := a[at.Name.Local]; twice && at.Name.Space == "" {
					return nil, 0, fmt.Errorf("attribute %s twice", at.Name.Local)
				}
				a[at.Name.Local] = at.Value
			}
			if x.Name.Local == "g" && strings.HasPrefix(a["id"], "id-") {
				groups++
			}
			if x.Name.Local == "rect" && strings.HasPrefix(a["id"], "rect-") {
				id := a["id"][5:]
				if out[id] != nil {
					return nil, 0, fmt.Errorf("two bars for span %s", id)
				}
				b := &bar{fill: a["fill"]}
				for k, p := range map[string]*int{"x": &b.x, "y": &b.y, "width": &b.width, "height": &b.height} {
					if *p, err = strconv.Atoi(a[k]); err != nil {
						return nil, 0, fmt.Errorf("%s=%q", k, a[k])
					}
				}
				out[id] = b
			}
			if x.Name.Local == "text" && strings.HasPrefix(a["id"], "text-") {
				inText, cur = true, a["id"][5:]
			}
		case xml.EndElement:
			depth--
			inText = false
		case xml.CharData:
			if inText && out[cur] != nil {
				out[cur].text += string(x)
			}
		}
	}
	if depth != 0 || roots != 1 {
		return nil, 0, fmt.Errorf("not one element")
	}
	return out, groups, nil
}

func unwrap(err error) error {
	for {
		w, ok := err.(wrapped)
		if !ok || w.err == nil {
			return err
		}
		err = w.err
	}
}

func near(a, b int) bool { return a-b <= 1 && b-a <= 1 }

func checkSVG(t *testing.T, spans []*collect.FinishedSpan) {
	t.Helper()
	list := append([]*collect.FinishedSpan(nil), spans...)
	text := export(t, func(o io.Writer) error { return present.SpansToSVG(o, list) })
	bars, groups, err := parseSVG(text)
	if err != nil {
		t.Fatalf("%v\n%s", err, text)
	}
	if len(bars) != len(spans) || groups != len(spans) {
		t.Fatalf("%d bars in %d groups for %d spans", len(bars), groups, len(spans))
	}
	var min, max time.Time
	for i, s := range spans {
		if i == 0 || s.Span.Start().Before(min) {
			min = s.Span.Start()
		}
		if i == 0 || s.Finish.After(max) {
			max = s.Finish
		}
	}
	for _, s := range spans {
		b := bars[fmt.Sprint(s.Span.Id())]
		if b == nil {
			t.Fatalf("span %d has no bar", s.Span.Id())
		}
		x := func(at time.Time) int {
			if !max.After(min) {
				return 0
			}
			return int(at.Sub(min).Nanoseconds() * 1200 / max.Sub(min).Nanoseconds())
		}
		x0, x1 := x(s.Span.Start()), x(s.Finish)
		if x1 <= x0 {
			x1 = x0 + 1
		}
		if !near(b.x, x0) || !near(b.x+b.width, x1) || b.width < 1 || b.height < 1 || b.y < 0 {
			t.Fatalf("span %d is at %d..%d, not at %d..%d", s.Span.Id(), b.x, b.x+b.width, x0, x1)
		}
		color := "rgb(128,128,255)"
		switch {
		case s.Panicked:
			color = "rgb(255,0,0)"
		case unwrap(s.Err) == context.Canceled:
			color = "rgb(255,255,0)"
		case s.Err != nil:
			color = "rgb(255,144,0)"
		}
		if strings.ReplaceAll(b.fill, " ", "") != color {
			t.Fatalf("span %d (panicked %v, error %v) is %s", s.Span.Id(), s.Panicked, s.Err, b.fill)
		}
		name := strings.Map(func(c rune) rune { return c }, s.Span.Func().FullName())
		if utf8.ValidString(name) && !strings.Contains(norm(b.text), norm(name)) {
			t.Fatalf("span %d reads %q, not %q", s.Span.Id(), b.text, name)
		}
	}
	zz.Case(t.Name(), text)
}

func norm(s string) string { return strings.ReplaceAll(s, "\r", "\n") }

func TestC22_SVG(t *testing.T) {
	for i := 0; i < zz.N(500); i++ {
		r := zz.NewRng(uint64(i) + 2000)
		checkSVG(t, collected(r, func() string { return r.Str(true) }))
	}
	checkSVG(t, nil)
}

// control characters and bytes that are no text do not break it either
func TestC22_Bytes(t *testing.T) {
	for i := 0; i < zz.N(300); i++ {
		r := zz.NewRng(uint64(i) + 4000)
		str := func() string { return r.Str(true) + string([]byte{byte(r.Intn(256)), byte(r.Intn(256))}) + "\\" }
		w := newWorld(r, str)
		spans := collected(r, str)
		text := export(t, func(o io.Writer) error { return present.SpansToSVG(o, spans) })
		if bars, _, err := parseSVG(text); err != nil || len(bars) != len(spans) {
			t.Fatalf("%v: %d bars for %d spans\n%q", err, len(bars), len(spans), text)
		}
		for _, f := range []func(io.Writer) error{
			func(o io.Writer) error { return present.SpansDot(w.reg, o) },
			func(o io.Writer) error { return present.FuncsDot(w.reg, o) },
		} {
			text := export(t, f)
			if _, err := parseDot(text); err != nil {
				t.Fatalf("%v\n%s", err, text)
			}
		}
		zz.Case(t.Name(), w.desc)
	}
}

// a part of a trace, and spans without their parents
func TestC22_Parts(t *testing.T) {
	for i := 0; i < zz.N(300); i++ {
		r := zz.NewRng(uint64(i) + 6000)
		spans := collected(r, func() string { return r.Str(true) })
		var some []*collect.FinishedSpan
		for _, k := range r.Perm(len(spans)) {
			if r.Intn(3) > 0 {
				some = append(some, spans[k])
			}
		}
		checkSVG(t, some)
	}
}
