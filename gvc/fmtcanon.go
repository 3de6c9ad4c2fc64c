package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Formatting is put in one form, so that a contract need not say how a text
// is put together: a format is split at its verbs, %s of a string is that
// string, and plain integers go through strconv.FormatInt and FormatUint.

// canonFormat is fmt.Sprintf(format, seq...) in that form.
func (e *Exec) canonFormat(format, seq *Term) (*Term, bool) {
	if format.Op != "str" {
		return nil, false
	}
	var xs []*Term
	for t := seq; ; {
		if t.Op != "uf" {
			return nil, false
		}
		if t.S == "seq:nil" {
			break
		}
		if !strings.HasPrefix(t.S, "seq:cons:") || len(t.Args) != 2 {
			return nil, false
		}
		xs = append([]*Term{t.Args[1]}, xs...)
		t = t.Args[0]
	}
	parts := []*Term{StrT("")}
	lit := ""
	f := format.S
	for len(f) > 0 {
		if f[0] != '%' {
			lit += f[:1]
			f = f[1:]
			continue
		}
		if strings.HasPrefix(f, "%%") {
			lit += "%"
			f = f[2:]
			continue
		}
		n := 1
		for n < len(f) && strings.IndexByte("+-# 0123456789.", f[n]) >= 0 {
			n++
		}
		if n >= len(f) || !(f[n] >= 'a' && f[n] <= 'z' || f[n] >= 'A' && f[n] <= 'Z') || len(xs) == 0 {
			return nil, false
		}
		verb := f[:n+1]
		f = f[n+1:]
		parts = append(parts, StrT(lit), e.formatOne(verb, xs[0]))
		lit = ""
		xs = xs[1:]
	}
	if len(xs) > 0 {
		return nil, false
	}
	return Op("str.++", SString, "", append(parts, StrT(lit))...), true
}

func (e *Exec) formatOne(verb string, x *Term) *Term {
	if t, v := e.w.boxed(x); t != nil && len(v) == 1 {
		if b, ok := types.Unalias(t).(*types.Basic); ok {
			switch {
			case b.Kind() == types.String && (verb == "%s" || verb == "%v"):
				return v[0]
			case b.Info()&types.IsInteger != 0 && b.Kind() != types.Uintptr && (verb == "%d" || verb == "%v" || verb == "%x"):
				base := uint64(10)
				if verb == "%x" {
					base = 16
				}
				signed := b.Info()&types.IsUnsigned == 0
				x := v[0]
				if w := bvWidth(x.Sort); w < 64 {
					op := "zext"
					if signed {
						op = "sext"
					}
					x = Op(op, SBV(64), fmt.Sprint(64-w), x)
				}
				return formatInt(signed, x, BV64(int64(base)))
			}
		}
	}
	return AbsUF("ext:fmt.Sprintf#0", SString, StrT(verb), UF("seq:cons:interface{}", SInt, UF("seq:nil", SInt), x))
}

func formatInt(signed bool, x, base *Term) *Term {
	if signed {
		return AbsUF("ext:strconv.FormatInt#0", SString, x, base)
	}
	return AbsUF("ext:strconv.FormatUint#0", SString, x, base)
}

// canonExternal: see above.
func (e *Exec) canonExternal(st *State, key string, args []*Term) (*Term, bool) {
	switch key {
	case "strconv.Itoa":
		return formatInt(true, args[0], BV64(10)), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		sl := args
		format := StrT("%v")
		if key == "fmt.Sprintf" {
			format, sl = args[0], args[1:]
		}
		if key == "fmt.Sprintln" {
			format = StrT("%v\n")
		}
		t := e.seqTerm(st, sl, emptyIface)
		if key != "fmt.Sprintf" {
			if t.S == "seq:nil" {
				return StrT(strings.TrimPrefix(format.S, "%v")), true
			}
			if t.Op != "uf" || len(t.Args) != 2 || t.Args[0].S != "seq:nil" {
				return nil, false // spaces depend on the operands
			}
		}
		return e.canonFormat(format, t)
	}
	return nil, false
}

var emptyIface = types.NewInterfaceType(nil, nil)
