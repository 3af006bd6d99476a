package rules

import (
	"go/token"
	"strings"

	"verif/checker/vn"
)

const tokenEQL = token.EQL

// part is a piece of a text: a constant or a term printed with a verb.
type part struct {
	s    string
	v    *vn.V
	verb string
}

// flatten cuts a text term into the constants and values it is made of, looking into
// concatenations and formatting calls.
func flatten(e *vn.Engine, st *vn.State, v *vn.V) []part {
	v = vn.Strip(v)
	if s, ok := v.StrVal(); ok {
		return []part{{s: s}}
	}
	switch {
	case v.Op == "cat":
		var out []part
		for _, a := range v.A {
			out = append(out, flatten(e, st, a)...)
		}
		return joinParts(out)
	case v.Op == "call" && v.P == "fmt.Sprintf" && len(v.A) == 2:
		if f, ok := v.A[0].StrVal(); ok {
			if l := listOf(e, st, v.A[1]); l != nil {
				return joinParts(formatParts(e, st, f, l))
			}
		}
	case v.Op == "call" && v.P == "fmt.Sprint" && len(v.A) == 1:
		if l := listOf(e, st, v.A[0]); l != nil {
			var out []part
			for _, a := range l {
				out = append(out, partOf(e, st, a, "v")...)
			}
			return joinParts(out)
		}
	}
	return []part{{v: v, verb: "s"}}
}

func joinParts(ps []part) []part {
	var out []part
	for _, p := range ps {
		if p.v == nil && len(out) > 0 && out[len(out)-1].v == nil {
			out[len(out)-1].s += p.s
			continue
		}
		out = append(out, p)
	}
	return out
}

// listOf is the known elements of a variadic argument.
func listOf(e *vn.Engine, st *vn.State, v *vn.V) []*vn.V {
	v = e.Snapshot(st, vn.Strip(v))
	if v.Op == "list" && len(v.A) > 0 {
		return v.A
	}
	if v.Op == "nil" || v.Op == "list" {
		return []*vn.V{}
	}
	return nil
}

func partOf(e *vn.Engine, st *vn.State, a *vn.V, verb string) []part {
	if a.Op == "iface" {
		a = a.A[0]
	}
	if verb == "s" || verb == "v" {
		if isStr(a) {
			return flatten(e, st, a)
		}
	}
	return []part{{v: vn.Strip(a), verb: verb}}
}

func isStr(v *vn.V) bool {
	return v.T != nil && strings.Contains(v.T.Underlying().String(), "string") && v.T.Underlying().String() == "string"
}

// formatParts applies a format to its arguments.
func formatParts(e *vn.Engine, st *vn.State, f string, args []*vn.V) []part {
	var out []part
	n := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out = append(out, part{s: f})
			break
		}
		if i > 0 {
			out = append(out, part{s: f[:i]})
		}
		f = f[i+1:]
		j := 0
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[:j+1]
		f = f[j+1:]
		if verb == "%" {
			out = append(out, part{s: "%"})
			continue
		}
		if n < len(args) {
			out = append(out, partOf(e, st, args[n], verb)...)
		}
		n++
	}
	return out
}
