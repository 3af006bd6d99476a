package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"verif/checker/vn"
)

// A bit of an integer term as a polynomial over GF(2): an exclusive or of products of
// variables ("term.bit"); the form is canonical, so equal bits have equal polynomials.
type poly map[string]bool // product of variables, sorted, "&"-joined; "" is 1

func (p poly) xor(q poly) poly {
	r := poly{}
	for k := range p {
		r[k] = true
	}
	for k := range q {
		if r[k] {
			delete(r, k)
		} else {
			r[k] = true
		}
	}
	return r
}

func (p poly) and(q poly) poly {
	r := poly{}
	for a := range p {
		for b := range q {
			m := map[string]bool{}
			for _, x := range strings.Split(a+"&"+b, "&") {
				if x != "" {
					m[x] = true
				}
			}
			var l []string
			for x := range m {
				l = append(l, x)
			}
			sort.Strings(l)
			k := strings.Join(l, "&")
			if r[k] {
				delete(r, k)
			} else {
				r[k] = true
			}
		}
	}
	return r
}

func (p poly) eq(q poly) bool {
	if len(p) != len(q) {
		return false
	}
	for k := range p {
		if !q[k] {
			return false
		}
	}
	return true
}

// without sets the variables to 0.
func (p poly) without(zero map[string]bool) poly {
	r := poly{}
	for k := range p {
		keep := true
		for _, x := range strings.Split(k, "&") {
			if zero[x] {
				keep = false
			}
		}
		if keep {
			r[k] = true
		}
	}
	return r
}

func intBits(t types.Type) int {
	if t == nil {
		return 0
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// bitsOf gives the bits of an integer term, least significant first. Sums and products
// are atoms except for shifts.
func bitsOf(v *vn.V) []poly {
	n := intBits(v.T)
	if n == 0 {
		return nil
	}
	out := make([]poly, n)
	switch {
	case v.Op == "const" && v.C.Kind() == constant.Int:
		u, ok := constant.Uint64Val(v.C)
		if !ok {
			i, ok2 := constant.Int64Val(v.C)
			if !ok2 {
				return nil
			}
			u = uint64(i)
		}
		for i := range out {
			out[i] = poly{}
			if u>>uint(i)&1 == 1 {
				out[i][""] = true
			}
		}
		return out
	case v.Op == "bin" && v.P == "^" && len(v.A) == 1:
		a := bitsOf(v.A[0])
		if len(a) != n {
			break
		}
		for i := range out {
			out[i] = a[i].xor(poly{"": true})
		}
		return out
	case v.Op == "bin" && len(v.A) == 2:
		switch v.P {
		case "&", "|", "^", "&^":
			a, b := bitsOf(v.A[0]), bitsOf(v.A[1])
			if len(a) != n || len(b) != n {
				break
			}
			one := poly{"": true}
			for i := range out {
				switch v.P {
				case "&":
					out[i] = a[i].and(b[i])
				case "|":
					out[i] = a[i].xor(b[i]).xor(a[i].and(b[i]))
				case "^":
					out[i] = a[i].xor(b[i])
				case "&^":
					out[i] = a[i].and(b[i].xor(one))
				}
			}
			return out
		case ">>", "<<":
			k, ok := v.A[1].Int64()
			a := bitsOf(v.A[0])
			if !ok || k < 0 || len(a) != n || isSigned(v.T) {
				break
			}
			if v.P == "<<" {
				k = -k
			}
			for i := range out {
				out[i] = poly{}
				if j := i + int(k); j >= 0 && j < n {
					out[i] = a[j]
				}
			}
			return out
		}
	case v.Op == "mul" && len(v.A) == 2:
		if k, ok := v.A[0].Int64(); ok && k > 0 && k&(k-1) == 0 {
			if a := bitsOf(v.A[1]); len(a) == n {
				s := 0
				for ; k > 1; k >>= 1 {
					s++
				}
				for i := range out {
					out[i] = poly{}
					if i-s >= 0 {
						out[i] = a[i-s]
					}
				}
				return out
			}
		}
	case v.Op == "add" && len(v.A) == 2:
		// -1 - x is the complement of x.
		if k, ok := v.A[0].Int64(); ok && v.A[1].Op == "mul" && isMinusOne(k, v.T) {
			if m, ok := v.A[1].A[0].Int64(); ok && isMinusOne(m, v.T) {
				if a := bitsOf(v.A[1].A[1]); len(a) == n {
					for i := range out {
						out[i] = a[i].xor(poly{"": true})
					}
					return out
				}
			}
		}
	case v.Op == "conv" && len(v.A) == 1:
		a := bitsOf(v.A[0])
		if a == nil || isSigned(v.A[0].T) && len(a) < n {
			break
		}
		for i := range out {
			out[i] = poly{}
			if i < len(a) {
				out[i] = a[i]
			}
		}
		return out
	}
	for i := range out {
		out[i] = poly{fmt.Sprintf("%d.%d", v.ID, i): true}
	}
	return out
}

func isMinusOne(k int64, t types.Type) bool {
	n := intBits(t)
	return k == -1 || n < 64 && n > 0 && k == int64(1)<<uint(n)-1
}

// zeroBits are the variables the known conditions of a state force to 0.
func zeroBits(st *vn.State) map[string]bool {
	out := map[string]bool{}
	single := func(p poly) (string, bool) {
		if len(p) != 1 {
			return "", false
		}
		for k := range p {
			return k, k != "" && !strings.Contains(k, "&")
		}
		return "", false
	}
	for c, b := range st.Cond() {
		switch {
		case c.Op == "eq" && b:
			for i := range c.A {
				if k, ok := c.A[i].Int64(); ok && k == 0 {
					for _, p := range bitsOf(c.A[1-i]) {
						if x, ok := single(p); ok {
							out[x] = true
						}
					}
				}
			}
		case c.Op == "lt":
			// x < k (or not k < x): no bit at or above the top of k.
			x, k := c.A[0], c.A[1]
			if !b {
				x, k = k, x
			}
			n, ok := k.Int64()
			if !ok || n < 0 || x.T == nil || isSigned(x.T) {
				continue
			}
			if b {
				n--
			}
			top := 0
			for n>>uint(top) > 0 && top < 63 {
				top++
			}
			for i, p := range bitsOf(x) {
				if v, ok := single(p); ok && i >= top {
					out[v] = true
				}
			}
		}
	}
	return out
}
