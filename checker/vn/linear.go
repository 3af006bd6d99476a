package vn

import (
	"go/constant"
	"go/types"
	"sort"

	"verif/checker/lin"
)

// Linear reasoning over what is known: integer terms become linear expressions over
// atoms when their arithmetic provably does not wrap.

const maxLen = int64(1) << 47

// intrinsic bounds of an atom.
func (e *Engine) bounds(v *V) (lo, hi int64) {
	const big = int64(1) << 62
	lo, hi = -big, big
	if v.T != nil {
		if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n := intBits(v.T)
			if isUnsigned(v.T) {
				lo = 0
				if n < 64 {
					hi = int64(1)<<n - 1
				} else {
					hi = 1<<63 - 1
				}
			} else if n < 64 {
				lo, hi = -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
			} else {
				lo, hi = -1<<63, 1<<63-1
			}
		}
	}
	switch v.Op {
	case "const":
		if n, ok := v.Int64(); ok && n >= lo && n <= hi {
			return n, n
		}
	case "len", "cap":
		lo, hi = 0, maxLen
	case "add":
		// A sum of small numbers.
		k, m := e.linOf(v)
		n, ok := constant.Int64Val(constant.ToInt(k))
		l, h := n, n
		for a, co := range m {
			x, o := constant.Int64Val(co)
			if a == v || !o || !ok {
				ok = false
				break
			}
			al, ah := e.bounds(a)
			if x < 0 {
				al, ah = ah, al
			}
			l1, o1 := mulSat(x, al)
			h1, o2 := mulSat(x, ah)
			var o3, o4 bool
			l, o3 = addSat(l, l1)
			h, o4 = addSat(h, h1)
			ok = o1 && o2 && o3 && o4
		}
		if ok && l >= lo && h <= hi {
			lo, hi = l, h
		}
	case "conv":
		if v.A[0].T != nil && isIntT(v.A[0].T) {
			l, h := e.bounds(v.A[0])
			if l >= lo && h <= hi {
				lo, hi = l, h
			}
		}
	case "bin":
		switch v.P {
		case "%":
			if c, ok := v.A[1].Int64(); ok && c > 0 {
				if hi > c-1 {
					hi = c - 1
				}
				if isUnsigned(v.T) {
					lo = 0
				} else if l, _ := e.bounds(v.A[0]); l >= 0 {
					lo = 0
				} else if lo < -(c - 1) {
					lo = -(c - 1)
				}
			}
		case "&":
			for _, a := range v.A {
				if c, ok := a.Int64(); ok && c >= 0 {
					lo = 0
					if c < hi {
						hi = c
					}
				}
			}
		case "/":
			if c, ok := v.A[1].Int64(); ok && c > 0 {
				l, h := e.bounds(v.A[0])
				lo, hi = l/c, h/c
			}
		case ">>":
			if c, ok := v.A[1].Int64(); ok && c >= 0 && c < 63 {
				l, h := e.bounds(v.A[0])
				lo, hi = l>>uint(c), h>>uint(c)
			}
		}
	case "nonneg":
		lo = 0
	}
	if e.AtomBounds != nil {
		if l, h, ok := e.AtomBounds(v); ok {
			if l > lo {
				lo = l
			}
			if h < hi {
				hi = h
			}
		}
	}
	return
}

type linCtx struct {
	e     *Engine
	st    *State
	atoms map[*V]bool
	order []*V
	extra []lin.Lin
	deep  int
}

func (c *linCtx) atom(v *V) lin.Lin {
	if !c.atoms[v] {
		c.atoms[v] = true
		c.order = append(c.order, v)
	}
	return lin.SymLin(lin.Sym(v.ID))
}

// of translates an integer term exactly, or to an atom.
func (c *linCtx) of(v *V) lin.Lin {
	switch v.Op {
	case "const":
		if n, ok := constant.Int64Val(v.C); ok && v.C.Kind() == constant.Int {
			return lin.K(n)
		}
		return c.atom(v)
	case "conv":
		if v.A[0].T != nil && isIntT(v.A[0].T) && isIntT(v.T) {
			l, h := c.e.bounds(v.A[0])
			if l2, h2 := c.e.typeRange(v.T); l >= l2 && h <= h2 {
				return c.of(v.A[0])
			}
			// In range because of what is known.
			if c.deep < 3 {
				c.deep++
				x := c.of(v.A[0])
				l2, h2 := c.e.typeRange(v.T)
				ok := c.provable(x, l2, h2)
				c.deep--
				if ok {
					return x
				}
			}
		}
		return c.atom(v)
	case "add", "mul":
		k, m := c.e.linOf(v)
		if v.Op == "mul" && len(m) == 1 {
			if _, self := m[v]; self {
				return c.atom(v)
			}
		}
		n, ok := constant.Int64Val(constant.ToInt(k))
		if !ok {
			return c.atom(v)
		}
		sum := lin.K(n)
		lo, hi := n, n
		exact := true
		unsigned := isUnsigned(v.T)
		type part struct {
			l  lin.Lin
			co int64
		}
		var negConst bool
		for _, a := range sortV(m) {
			co, ok := constant.Int64Val(m[a])
			if !ok {
				return c.atom(v)
			}
			if unsigned {
				// Coefficients are residues: take the signed representative.
				bits := intBits(v.T)
				if bits < 64 && co >= int64(1)<<(bits-1) {
					co -= int64(1) << bits
				}
			}
			x := c.of(a)
			nx := lin.Lin{C: 0}
			var ok2 bool
			nx, ok2 = mulLin(x, co)
			if !ok2 {
				return c.atom(v)
			}
			sum, ok2 = sum.Add(nx)
			if !ok2 {
				return c.atom(v)
			}
			l, h := c.rangeOf(a)
			if co < 0 {
				l, h = h, l
			}
			l1, o1 := mulSat(co, l)
			h1, o2 := mulSat(co, h)
			l2, o3 := addSat(lo, l1)
			h2, o4 := addSat(hi, h1)
			if !(o1 && o2 && o3 && o4) {
				exact = false
			}
			lo, hi = l2, h2
		}
		if unsigned {
			bits := intBits(v.T)
			if bits < 64 && n >= int64(1)<<(bits-1) {
				sum, _ = sum.AddC(-(int64(1) << bits))
				lo -= int64(1) << bits
				hi -= int64(1) << bits
				negConst = true
			}
		}
		_ = negConst
		tl, th := c.e.typeRange(v.T)
		if exact && lo >= tl && hi <= th {
			return sum
		}
		if c.factsFit(n, m, v.T, tl, th) {
			return sum
		}
		most := 2
		if unsigned && intBits(v.T) < 64 {
			most = 4 // small counters: their differences must not wrap, either
		}
		if c.deep < most {
			c.deep++
			ok := c.provable(sum, tl, th)
			c.deep--
			if ok {
				return sum
			}
		}
		return c.atom(v)
	case "bin":
		switch v.P {
		case "/":
			if d, ok := v.A[1].Int64(); ok && d > 0 {
				if l, _ := c.rangeOf(v.A[0]); l >= 0 {
					// q*d <= x <= q*d + d-1
					x := c.of(v.A[0])
					q := c.atom(v)
					qd, ok := mulLin(q, d)
					if ok {
						a, ok1 := x.Sub(qd)
						b, ok2 := qd.Sub(x)
						if ok1 && ok2 {
							b, _ = b.AddC(d - 1)
							c.extra = append(c.extra, a, b)
						}
					}
					return q
				}
			}
		}
	}
	return c.atom(v)
}

// factsFit: the sum stays in range because of what is known of each part by itself.
func (c *linCtx) factsFit(n int64, m map[*V]constant.Value, t types.Type, tl, th int64) bool {
	bits, unsigned := intBits(t), isUnsigned(t)
	if c.st == nil || bits >= 64 {
		return false
	}
	half := int64(1) << (bits - 1)
	if unsigned && n >= half {
		n -= 2 * half
	}
	lo, hi := n, n
	for a, k := range m {
		co, ok := constant.Int64Val(k)
		if !ok {
			return false
		}
		if unsigned && co >= half {
			co -= 2 * half
		}
		l, h := c.factRange(a)
		if co < 0 {
			l, h = h, l
		}
		l1, o1 := mulSat(co, l)
		h1, o2 := mulSat(co, h)
		l2, o3 := addSat(lo, l1)
		h2, o4 := addSat(hi, h1)
		if !(o1 && o2 && o3 && o4) {
			return false
		}
		lo, hi = l2, h2
	}
	return lo >= tl && hi <= th
}

func (c *linCtx) rangeOf(v *V) (int64, int64) {
	l, h := c.e.bounds(v)
	if tl, th := int64(-1)<<62, int64(1)<<62; l < tl || h > th {
		return c.factRange(v)
	}
	return l, h
}

func (c *linCtx) factRange(v *V) (int64, int64) { return c.factRangeN(v, 1) }

func (c *linCtx) factRangeN(v *V, depth int) (int64, int64) {
	l, h := c.e.bounds(v)
	of := func(x *V) (int64, int64) {
		if xl, xh := c.e.bounds(x); depth == 0 || x.Op == "add" || xl >= int64(-1)<<62 && xh <= int64(1)<<62 {
			return xl, xh
		}
		return c.factRangeN(x, depth-1)
	}
	tl := int64(-1) << 62
	if c.st != nil {
		// Use facts that bound it directly.
		for k, b := range c.st.cond {
			if k.Op != "lt" {
				continue
			}
			x, y := k.A[0], k.A[1]
			if b { // x < y
				if x == v {
					if _, yh := of(y); yh-1 < h {
						h = yh - 1
					}
				}
				if y == v {
					if xl, _ := of(x); xl+1 > l && xl > tl {
						l = xl + 1
					}
				}
			} else { // x >= y
				if x == v {
					if yl, _ := of(y); yl > l {
						l = yl
					}
				}
				if y == v {
					if _, xh := of(x); xh < h {
						h = xh
					}
				}
			}
		}
	}
	return l, h
}

func (c *linCtx) provable(x lin.Lin, lo, hi int64) bool {
	// x >= lo and x <= hi from the facts.
	n := c.e
	hyp := n.hyps(c)
	// not (x >= lo): lo-1-x >= 0
	a, ok := lin.K(lo).Sub(x)
	if !ok {
		return false
	}
	if lo > -(int64(1) << 62) {
		a, _ = a.AddC(-1)
		if !excluded(a, hyp) {
			return false
		}
	} else if !boundedBelow(x) {
		l, ok := c.minOf(x)
		if !ok || l < -(int64(1)<<62) {
			return false
		}
	}
	if hi < int64(1)<<62 {
		b, ok := x.Sub(lin.K(hi))
		if !ok {
			return false
		}
		b, _ = b.AddC(-1)
		return excluded(b, hyp)
	}
	b, ok := x.Sub(lin.K(int64(1) << 60))
	if !ok {
		return false
	}
	return excluded(b, hyp)
}

func boundedBelow(lin.Lin) bool { return false }

func (c *linCtx) minOf(x lin.Lin) (int64, bool) {
	b, ok := lin.K(-(int64(1) << 60)).Sub(x)
	if !ok {
		return 0, false
	}
	if excluded(b, c.e.hyps(c)) {
		return -(int64(1) << 60), true
	}
	return 0, false
}

// termMin is a lower bound of an expression from the bounds of its atoms alone.
func (c *linCtx) termMin(x lin.Lin) (int64, bool) {
	r := x.C
	for _, t := range x.T {
		var at *V
		for v := range c.atoms {
			if lin.Sym(v.ID) == t.S {
				at = v
				break
			}
		}
		if at == nil {
			return 0, false
		}
		l, h := c.e.bounds(at)
		if t.C < 0 {
			l = h
		}
		p, ok := mulSat(t.C, l)
		if !ok {
			return 0, false
		}
		if r, ok = addSat(r, p); !ok {
			return 0, false
		}
	}
	return r, true
}

func mulLin(x lin.Lin, k int64) (lin.Lin, bool) {
	r := lin.K(0)
	ok := true
	if k == 0 {
		return r, true
	}
	// k*x through repeated combination is avoided: scale each term.
	y := lin.Lin{}
	c, o := mulSat(k, x.C)
	if !o {
		return r, false
	}
	y.C = c
	for _, t := range x.T {
		v, o := mulSat(k, t.C)
		if !o {
			return r, false
		}
		y.T = append(y.T, lin.Term{S: t.S, C: v})
	}
	return y, ok
}

func mulSat(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return p, true
}

func addSat(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func sortV(m map[*V]constant.Value) []*V {
	var out []*V
	for v := range m {
		out = append(out, v)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].ID < out[j-1].ID; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (e *Engine) typeRange(t types.Type) (int64, int64) {
	n := intBits(t)
	if isUnsigned(t) {
		if n == 64 {
			return 0, 1<<63 - 1
		}
		return 0, int64(1)<<n - 1
	}
	if n == 64 {
		return -1 << 63, 1<<63 - 1
	}
	return -(int64(1) << (n - 1)), int64(1)<<(n-1) - 1
}

// hyps are the linear facts known in a state, about the atoms met so far.
func (e *Engine) hyps(c *linCtx) []lin.Lin {
	var out []lin.Lin
	if c.st == nil || c.deep > 4 {
		return append(out, c.extra...)
	}
	c.deep++
	defer func() { c.deep-- }()
	for _, k := range sortCond(c.st.cond) {
		b := c.st.cond[k]
		switch k.Op {
		case "lt":
			if !isIntT(k.A[0].T) || !isIntT(k.A[1].T) {
				continue
			}
			x, y := c.of(k.A[0]), c.of(k.A[1])
			if b {
				d, ok := y.Sub(x)
				if ok {
					d, ok = d.AddC(-1)
					if ok {
						out = append(out, d)
					}
				}
			} else if d, ok := x.Sub(y); ok {
				out = append(out, d)
			}
		case "eq":
			if b && isIntT(k.A[0].T) {
				x, y := c.of(k.A[0]), c.of(k.A[1])
				if d, ok := x.Sub(y); ok {
					out = append(out, d)
					if m, ok := d.Neg(); ok {
						out = append(out, m)
					}
				}
			}
			// x != y, where x >= y or x <= y is known of their terms alone.
			if !b && isIntT(k.A[0].T) {
				x, y := c.of(k.A[0]), c.of(k.A[1])
				if d, ok := x.Sub(y); ok {
					if m, ok := c.termMin(d); ok && m == 0 {
						if d, ok := d.AddC(-1); ok {
							out = append(out, d)
						}
					} else if n, ok := d.Neg(); ok {
						if m, ok := c.termMin(n); ok && m == 0 {
							if n, ok := n.AddC(-1); ok {
								out = append(out, n)
							}
						}
					}
				}
			}
		case "empty":
			x := c.of(e.Len(k.A[0]))
			if b {
				if m, ok := x.Neg(); ok {
					out = append(out, m)
				}
			} else if m, ok := x.AddC(-1); ok {
				out = append(out, m)
			}
		case "isnil":
			// A nil slice has length 0.
			if b && k.A[0].T != nil {
				switch k.A[0].T.Underlying().(type) {
				case *types.Slice, *types.Map:
					if m, ok := c.of(e.Len(k.A[0])).Neg(); ok {
						out = append(out, m)
					}
				}
			}
		}
	}
	out = append(out, e.conditional(c)...)
	if e.TermFacts != nil {
		done := map[*V]bool{}
		for n := 0; n < len(c.order) && n < 200; n++ {
			v := c.order[n]
			if done[v] {
				continue
			}
			done[v] = true
			for _, f := range e.TermFacts(v) {
				if x := c.of(f); true {
					out = append(out, x)
				}
			}
		}
	}
	out = append(out, c.extra...)
	for _, v := range c.order {
		l, h := e.bounds(v)
		if l > -(int64(1) << 62) {
			if d, ok := lin.SymLin(lin.Sym(v.ID)).AddC(-l); ok {
				out = append(out, d)
			}
		}
		if h < int64(1)<<62 {
			if d, ok := lin.K(h).Sub(lin.SymLin(lin.Sym(v.ID))); ok {
				out = append(out, d)
			}
		}
	}
	return out
}

func sortCond(m map[*V]bool) []*V {
	var out []*V
	for v := range m {
		out = append(out, v)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].ID < out[j-1].ID; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// related keeps the constraints that share symbols, transitively, with the goal.
func related(goal lin.Lin, cs []lin.Lin, depth int) []lin.Lin {
	want := map[lin.Sym]bool{}
	for _, t := range goal.T {
		want[t.S] = true
	}
	used := make([]bool, len(cs))
	var out []lin.Lin
	for changed := true; changed && depth > 0; depth-- {
		changed = false
		next := map[lin.Sym]bool{}
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := len(c.T) == 0
			for _, t := range c.T {
				if want[t.S] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, t := range c.T {
					next[t.S] = true
				}
			}
		}
		for s := range next {
			want[s] = true
		}
	}
	return out
}

// ProveGE proves a - b >= k.
func (e *Engine) ProveGE(st *State, a, b *V, k int64) bool {
	c := &linCtx{e: e, st: st, atoms: map[*V]bool{}}
	x, y := c.of(a), c.of(b)
	// refute: b - a + k - 1 >= 0
	d, ok := y.Sub(x)
	if !ok {
		return false
	}
	d, ok = d.AddC(k - 1)
	if !ok {
		return false
	}
	if len(d.T) == 0 {
		return d.C < 0
	}
	hyp := e.hyps(c)
	return excluded(d, hyp)
}

func (e *Engine) linTruth(st *State, v *V) (bool, bool) {
	switch v.Op {
	case "lt":
		if !isIntT(v.A[0].T) {
			return false, false
		}
		if e.ProveGE(st, v.A[1], v.A[0], 1) {
			return true, true
		}
		if e.ProveGE(st, v.A[0], v.A[1], 0) {
			return false, true
		}
	case "eq":
		if !isIntT(v.A[0].T) {
			return false, false
		}
		if e.ProveGE(st, v.A[1], v.A[0], 1) || e.ProveGE(st, v.A[0], v.A[1], 1) {
			return false, true
		}
		if e.ProveGE(st, v.A[1], v.A[0], 0) && e.ProveGE(st, v.A[0], v.A[1], 0) {
			return true, true
		}
	case "empty":
		n := e.Len(v.A[0])
		if e.ProveGE(st, n, e.Int(0), 1) {
			return false, true
		}
		if e.ProveGE(st, e.Int(0), n, 0) {
			return true, true
		}
	}
	return false, false
}

// conditional gives what facts of two parts say: "x <= c or y < n" where x > c is known, and
// "the numbers in a map are less than n" for those looked up.
func (e *Engine) conditional(c *linCtx) []lin.Lin {
	var imps, mbs []*V
	for k, b := range c.st.cond {
		if b && k.Op == "imp" {
			imps = append(imps, k)
		} else if b && k.Op == "mapbound" {
			mbs = append(mbs, k)
		}
	}
	if len(imps)+len(mbs) == 0 || e.inCond {
		return nil
	}
	e.inCond = true
	defer func() { e.inCond = false }()
	var out []lin.Lin
	less := func(y, n *V) {
		x, m := c.of(y), c.of(n)
		if d, ok := m.Sub(x); ok {
			if d, ok := d.AddC(-1); ok {
				out = append(out, d)
			}
		}
	}
	sort.Slice(imps, func(i, j int) bool { return imps[i].ID < imps[j].ID })
	for _, k := range imps {
		uses := false
		for _, v := range c.order {
			Walk(k.A[2], func(x *V) bool { uses = uses || x == v; return !uses })
		}
		if uses && e.ProveGE(c.st, k.A[0], k.A[1], 1) {
			less(k.A[2], k.A[3])
		}
	}
	sort.Slice(mbs, func(i, j int) bool { return mbs[i].ID < mbs[j].ID })
	for n := 0; n < len(c.order) && n < 200 && len(mbs) > 0; n++ {
		v := c.order[n]
		g, name := v, ""
		if g.Op == "field" && len(g.A) == 1 {
			g, name = g.A[0], g.P
		}
		if g.Op != "mapget" {
			continue
		}
		has, known := e.Truth(c.st, e.mk(&V{Op: "maphas", A: g.A, T: types.Typ[types.Bool]}))
		if !known || !has {
			continue
		}
		for _, k := range mbs {
			if k.A[0] == g.A[0] && k.P == name {
				less(v, k.A[1])
				out = append(out, c.of(v))
			}
		}
	}
	return out
}

// mapBounded: every number in a map (in the named field of its values) is at least 0 and less
// than n.
func (e *Engine) mapBounded(st *State, c *V, name string, ft types.Type, n *V) bool {
	for ; ; c = c.A[0] {
		switch c.Op {
		case "emptymap":
			return true
		case "mapset":
			v := c.A[2]
			if name != "" {
				v = e.Field(v, name, ft)
			}
			if !e.ProveGE(st, v, e.Int(0), 0) || !e.ProveGE(st, n, v, 1) {
				return false
			}
		case "mapdel":
		default:
			for k, b := range st.cond {
				if b && k.Op == "mapbound" && k.A[0] == c && k.P == name && e.ProveGE(st, n, k.A[1], 0) {
					return true
				}
			}
			return false
		}
	}
}

// excluded: a constraint contradicts what is known.
func excluded(d lin.Lin, hyp []lin.Lin) bool {
	// The closest facts first; few of them are most often enough.
	n := -1
	for _, depth := range []int{1, 2, 3, 1000} {
		rel := related(d, hyp, depth)
		if len(rel) == n {
			break
		}
		n = len(rel)
		if lin.Infeasible(append(rel, d)) {
			return true
		}
	}
	return false
}
