// Package lin decides small conjunctions of linear integer inequalities by
// Fourier-Motzkin elimination with integer tightening.
package lin

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Sym is an integer symbol.
type Sym int32

// Term is Coef*Sym.
type Term struct {
	S Sym
	C int64
}

// Lin is a linear expression C + sum T.
type Lin struct {
	C int64
	T []Term
}

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
	// MaxLen bounds the length of any slice, string or map (address-space
	// argument: 2^47 bytes).
	MaxLen = 1 << 47
)

func K(c int64) Lin    { return Lin{C: c} }
func SymLin(s Sym) Lin { return Lin{T: []Term{{s, 1}}} }

func (l Lin) IsConst() (int64, bool) { return l.C, len(l.T) == 0 }

func (l Lin) IsSym() (Sym, bool) {
	if l.C == 0 && len(l.T) == 1 && l.T[0].C == 1 {
		return l.T[0].S, true
	}
	return 0, false
}

func (l Lin) Key() string {
	if len(l.T) == 0 {
		return fmt.Sprintf("%d", l.C)
	}
	var b strings.Builder
	for _, t := range l.T {
		fmt.Fprintf(&b, "%d*s%d+", t.C, t.S)
	}
	fmt.Fprintf(&b, "%d", l.C)
	return b.String()
}

func (l Lin) Equal(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == minI || b == minI {
		if a == 1 {
			return b, true
		}
		if b == 1 {
			return a, true
		}
		return 0, false
	}
	ua, ub := uint64(a), uint64(b)
	neg := false
	if a < 0 {
		ua = uint64(-a)
		neg = !neg
	}
	if b < 0 {
		ub = uint64(-b)
		neg = !neg
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > maxI {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

// comb returns a*x + b*y.
func comb(a int64, x Lin, b int64, y Lin) (Lin, bool) {
	c1, ok1 := mulOv(a, x.C)
	c2, ok2 := mulOv(b, y.C)
	if !ok1 || !ok2 {
		return Lin{}, false
	}
	c, ok := addOv(c1, c2)
	if !ok {
		return Lin{}, false
	}
	r := Lin{C: c}
	r.T = make([]Term, 0, len(x.T)+len(y.T))
	i, j := 0, 0
	for i < len(x.T) || j < len(y.T) {
		var t Term
		switch {
		case j >= len(y.T) || (i < len(x.T) && x.T[i].S < y.T[j].S):
			v, ok := mulOv(a, x.T[i].C)
			if !ok {
				return Lin{}, false
			}
			t = Term{x.T[i].S, v}
			i++
		case i >= len(x.T) || y.T[j].S < x.T[i].S:
			v, ok := mulOv(b, y.T[j].C)
			if !ok {
				return Lin{}, false
			}
			t = Term{y.T[j].S, v}
			j++
		default:
			v1, ok1 := mulOv(a, x.T[i].C)
			v2, ok2 := mulOv(b, y.T[j].C)
			if !ok1 || !ok2 {
				return Lin{}, false
			}
			v, ok := addOv(v1, v2)
			if !ok {
				return Lin{}, false
			}
			t = Term{x.T[i].S, v}
			i++
			j++
		}
		if t.C != 0 {
			r.T = append(r.T, t)
		}
	}
	return r, true
}

func (l Lin) Add(m Lin) (Lin, bool) { return comb(1, l, 1, m) }
func (l Lin) Sub(m Lin) (Lin, bool) { return comb(1, l, -1, m) }
func (l Lin) Neg() (Lin, bool)      { return comb(-1, l, 0, K(0)) }
func (l Lin) AddC(c int64) (Lin, bool) {
	return comb(1, l, 1, K(c))
}

func (l Lin) coef(s Sym) int64 {
	for _, t := range l.T {
		if t.S == s {
			return t.C
		}
	}
	return 0
}

// Subst replaces symbols simultaneously.
func (l Lin) Subst(m map[Sym]Lin) (Lin, bool) {
	hit := false
	for _, t := range l.T {
		if _, ok := m[t.S]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l, true
	}
	r := K(l.C)
	for _, t := range l.T {
		v, ok := m[t.S]
		if !ok {
			v = SymLin(t.S)
		}
		r, ok = comb(1, r, t.C, v)
		if !ok {
			return Lin{}, false
		}
	}
	return r, true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// tighten divides by the gcd of the coefficients (constraint l >= 0).
func tighten(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	var g int64
	for _, t := range l.T {
		g = gcd(g, t.C)
		if g == 1 {
			return l
		}
	}
	if g <= 1 {
		return l
	}
	r := Lin{C: floorDiv(l.C, g), T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, t.C / g}
	}
	return r
}

// infeasible decides, soundly but incompletely, whether the conjunction of
// cs (each >= 0) has no integer solution: Fourier-Motzkin elimination.
// Infeasible decides whether a conjunction has no solution.
func Infeasible(cs []Lin) bool { return infeasible(cs) }

func infeasible(cs []Lin) bool {
	set := map[string]bool{}
	var cur []Lin
	add := func(l Lin) bool { // returns true when contradictory
		l = tighten(l)
		if len(l.T) == 0 {
			return l.C < 0
		}
		k := l.Key()
		if set[k] {
			return false
		}
		set[k] = true
		cur = append(cur, l)
		return false
	}
	for _, c := range cs {
		if add(c) {
			return true
		}
	}
	for round := 0; round < 40; round++ {
		if len(cur) == 0 {
			return false
		}
		pos := map[Sym]int{}
		neg := map[Sym]int{}
		for _, c := range cur {
			for _, t := range c.T {
				if t.C > 0 {
					pos[t.S]++
				} else {
					neg[t.S]++
				}
			}
		}
		var syms []Sym
		for s := range pos {
			syms = append(syms, s)
		}
		for s := range neg {
			if pos[s] == 0 {
				syms = append(syms, s)
			}
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
		best, bc := Sym(-1), 1<<30
		for _, s := range syms {
			if c := pos[s]*neg[s] - pos[s] - neg[s]; c < bc {
				bc, best = c, s
			}
		}
		var ps, ns, rest []Lin
		for _, c := range cur {
			switch k := c.coef(best); {
			case k > 0:
				ps = append(ps, c)
			case k < 0:
				ns = append(ns, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(ps)*len(ns)+len(rest) > 500 {
			return false
		}
		set = map[string]bool{}
		cur = nil
		for _, c := range rest {
			if add(c) {
				return true
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.coef(best), -n.coef(best)
				g := gcd(a, b)
				r, ok := comb(b/g, p, a/g, n)
				if !ok {
					continue
				}
				if add(r) {
					return true
				}
			}
		}
	}
	return false
}
