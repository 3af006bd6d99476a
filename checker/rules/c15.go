package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C15", c15) }

// cmpElem tells the element type of a comparison's signature func(T, T) int.
func cmpElem(sig *types.Signature) types.Type {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return nil
	}
	a, b := sig.Params().At(0).Type(), sig.Params().At(1).Type()
	if !types.Identical(a, b) || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Int]) {
		return nil
	}
	return a
}

// listCmp tells a function comparing two lists with a given comparison:
// func([]T, []T, func(T, T) int) int (or bool).
func listCmp(sig *types.Signature) bool {
	if sig.Params().Len() != 3 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return false
	}
	for i := 0; i < 2; i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); !ok {
			return false
		}
	}
	f, ok := sig.Params().At(2).Type().Underlying().(*types.Signature)
	return ok && f.Params().Len() == 2 && f.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.Int])
}

// sortPred tells func([]T, func(T, T) int) bool.
func sortPred(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Recv() != nil || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	if _, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	f, ok := sig.Params().At(1).Type().Underlying().(*types.Signature)
	return ok && cmpElem(f) != nil
}

func sorterCall(f *ssa.Function) bool {
	switch stdName(f) {
	case "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// undecidable aborts a decision.
type undecidable struct{ why string }

// table is the decision table of a function of two elements a and b.
type table struct {
	e        *vn.Engine
	a, b     *vn.V
	outs     []vn.Outcome
	two, one map[*vn.V]bool // atoms comparing both elements (in terms of a, b), of one element (in terms of a)
}

func side(v, a, b *vn.V) int {
	r := 0
	vn.Walk(v, func(x *vn.V) bool {
		if x == a {
			r |= 1
		}
		if x == b {
			r |= 2
		}
		return true
	})
	return r
}

// pair classifies two terms: x made of a and y the same of b (+1), or the reverse (-1).
func (t *table) pair(x, y *vn.V) (*vn.V, int) {
	sx, sy := side(x, t.a, t.b), side(y, t.a, t.b)
	if sx == 1 && sy == 2 && t.e.Subst(x, map[*vn.V]*vn.V{t.a: t.b}) == y {
		return x, 1
	}
	if sx == 2 && sy == 1 && t.e.Subst(y, map[*vn.V]*vn.V{t.a: t.b}) == x {
		return y, -1
	}
	panic(undecidable{fmt.Sprintf("it compares %s with %s, which are not the same part of the two elements", x, y)})
}

// env gives the signs of the atoms for a pair of elements.
type env interface {
	two(atom *vn.V) int
	one(atom *vn.V, second bool) bool
}

func (t *table) unary(v *vn.V, ev env) bool {
	switch side(v, t.a, t.b) {
	case 1:
		return ev.one(v, false)
	case 2:
		return ev.one(t.e.Subst(v, map[*vn.V]*vn.V{t.b: t.a}), true)
	}
	panic(undecidable{"it depends on " + v.String()})
}

func isCompareCall(v *vn.V) bool {
	if v.Op != "call" {
		return false
	}
	return v.P == "strings.Compare" || strings.HasPrefix(v.P, "cmp.Compare") || v.P == "bytes.Compare"
}

func (t *table) sign(v *vn.V, ev env) int {
	v = vn.Strip(v)
	if n, ok := v.Int64(); ok {
		switch {
		case n < 0:
			return -1
		case n > 0:
			return 1
		}
		return 0
	}
	if isCompareCall(v) {
		at, o := t.pair(v.A[0], v.A[1])
		return o * ev.two(at)
	}
	if v.Op == "call" && strings.HasPrefix(v.P, "list comparison") {
		at, o := t.pair(v.A[0], v.A[1])
		return o * ev.two(t.e.Mk("list by", "", v.T, append([]*vn.V{at}, v.A[2:]...)...))
	}
	if k, a, ok := t.e.Scaled(v); ok && a != v && (k == 1 || k == -1) {
		return int(k) * t.sign(a, ev)
	}
	if v.Op == "add" {
		panic(undecidable{"the result is computed by arithmetic, which overflows for extreme values: " + v.String()})
	}
	panic(undecidable{"its result is not understood: " + v.String()})
}

func (t *table) truth(v *vn.V, ev env) bool {
	if b, ok := v.BoolVal(); ok {
		return b
	}
	switch v.Op {
	case "not":
		return !t.truth(v.A[0], ev)
	case "eq", "lt":
		x, y := v.A[0], v.A[1]
		if side(x, t.a, t.b) == 3 || side(y, t.a, t.b) == 3 {
			// A comparison's result against a constant.
			if n, ok := y.Int64(); ok {
				return relate(v.Op, t.scaledSign(x, ev), n)
			}
			if n, ok := x.Int64(); ok {
				return relate(v.Op, n, t.scaledSign(y, ev))
			}
			panic(undecidable{"it depends on " + v.String()})
		}
		if side(x, t.a, t.b)|side(y, t.a, t.b) != 3 {
			return t.unary(v, ev)
		}
		if x.T != nil && types.Identical(x.T.Underlying(), types.Typ[types.Bool]) {
			return t.truth(x, ev) == t.truth(y, ev)
		}
		at, o := t.pair(x, y)
		s := o * ev.two(at)
		if v.Op == "eq" {
			return s == 0
		}
		return s < 0
	}
	if side(v, t.a, t.b) == 3 && v.Op == "call" && (strings.HasPrefix(v.P, "strings.EqualFold")) {
		at, _ := t.pair(t.e.CallTerm("strings.ToLower", v.A[:1], v.A[0].T), t.e.CallTerm("strings.ToLower", v.A[1:], v.A[1].T))
		return ev.two(at) == 0
	}
	return t.unary(v, ev)
}

func (t *table) scaledSign(v *vn.V, ev env) int64 { return int64(t.sign(v, ev)) }

// relate compares a sign with a constant.
func relate(op string, x, y int64) bool {
	if op == "eq" {
		return x == y
	}
	return x < y
}

// collect records atoms instead of evaluating them.
type collect struct{ t *table }

func (c collect) two(a *vn.V) int { c.t.two[a] = true; return 0 }
func (c collect) one(a *vn.V, _ bool) bool {
	c.t.one[a] = true
	return false
}

// ranks is a valuation: per atom, the rank of each of the elements.
type ranks struct {
	r    map[*vn.V][]int
	i, j int
}

func (e ranks) two(a *vn.V) int {
	x, y := e.r[a][e.i], e.r[a][e.j]
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}
func (e ranks) one(a *vn.V, second bool) bool {
	if second {
		return e.r[a][e.j] == 1
	}
	return e.r[a][e.i] == 1
}

// eval decides the function for one valuation; the results of all matching outcomes.
func (t *table) eval(ev env, res func(o vn.Outcome) int) int {
	got, n := 0, 0
next:
	for _, o := range t.outs {
		for v, b := range o.St.Cond() {
			if side(v, t.a, t.b) == 0 {
				continue // configuration, not the elements
			}
			if t.truth(v, ev) != b {
				continue next
			}
		}
		r := res(o)
		if n > 0 && r != got {
			panic(undecidable{"two paths with the same conditions give different results"})
		}
		got = r
		n++
	}
	if n == 0 {
		panic(undecidable{"no path covers some combination of orders"})
	}
	return got
}

// weak3 lists the weak orders of three elements as ranks.
func weak3() [][]int {
	seen := map[string]bool{}
	var out [][]int
	for n := 0; n < 27; n++ {
		r := []int{n % 3, n / 3 % 3, n / 9}
		k := fmt.Sprint(sgn(r[0]-r[1]), sgn(r[1]-r[2]), sgn(r[0]-r[2]))
		if !seen[k] {
			seen[k] = true
			out = append(out, r)
		}
	}
	return out
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func bool3() [][]int {
	var out [][]int
	for n := 0; n < 8; n++ {
		out = append(out, []int{n & 1, n >> 1 & 1, n >> 2})
	}
	return out
}

type comparators struct {
	c     *core.Ctx
	work  []*vn.V
	seen  map[string]bool
	lists map[*ssa.Function]bool
	e     *vn.Engine
}

// newCmpEngine: functions of one element are uninterpreted, list comparisons are atoms.
func (q *comparators) engine() *vn.Engine {
	e := newVN(q.c, load.IsLib)
	e.MaxParts = 4096
	e.KeepConds = true
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Fn == nil {
			return false, nil
		}
		sig := k.Fn.Signature
		if listCmp(sig) && k.Fn.Parent() == nil {
			q.listFn(k.Fn)
			f := vn.Strip(k.Args[2])
			q.add(f)
			if k.Args[0] == k.Args[1] {
				return true, e.Int(0)
			}
			return true, e.CallTerm("list comparison", []*vn.V{k.Args[0], k.Args[1], f}, types.Typ[types.Int])
		}
		if load.InRepo(fnPkg(k.Fn)) && k.Fn.Parent() == nil && len(k.Args) == 1 && sig.Results().Len() == 1 {
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok {
				if _, ptr := k.Args[0].T.Underlying().(*types.Pointer); !ptr {
					return true, e.CallTerm(fnName(k.Fn), k.Args, sig.Results().At(0).Type())
				}
			}
		}
		return false, nil
	}
	return e
}

func (q *comparators) add(f *vn.V) {
	f = vn.Strip(f)
	if f.Op != "func" && f.Op != "closure" {
		return
	}
	n := fnName(f.Fn)
	if !q.seen[n] {
		q.seen[n] = true
		q.work = append(q.work, f)
	}
}

func (q *comparators) listFn(f *ssa.Function) { q.lists[f] = true }

func trustedCompare(f *ssa.Function) bool {
	switch stdName(f) {
	case "strings.Compare", "cmp.Compare", "bytes.Compare":
		return true
	}
	return false
}

// decide builds the decision table of a function of two elements.
func decideTable(e *vn.Engine, run func(a, b *vn.V) []vn.Outcome, t types.Type) (*table, string) {
	a, b := e.Param("a", t), e.Param("b", t)
	outs := run(a, b)
	if e.Err != nil || len(outs) == 0 {
		return nil, fmt.Sprintf("it could not be analysed: %v", e.Err)
	}
	return &table{e: e, a: a, b: b, outs: outs, two: map[*vn.V]bool{}, one: map[*vn.V]bool{}}, ""
}

// atoms collects the atoms of a table.
func (t *table) atoms(res func(o vn.Outcome, ev env) int) (two, one []*vn.V) {
	for _, o := range t.outs {
		for v := range o.St.Cond() {
			if side(v, t.a, t.b) != 0 {
				t.truth(v, collect{t})
			}
		}
		res(o, collect{t})
	}
	for v := range t.two {
		two = append(two, v)
	}
	for v := range t.one {
		one = append(one, v)
	}
	sort.Slice(two, func(i, j int) bool { return two[i].ID < two[j].ID })
	sort.Slice(one, func(i, j int) bool { return one[i].ID < one[j].ID })
	return
}

// triples visits every valuation of three elements.
func triples(two, one []*vn.V, f func(r map[*vn.V][]int) bool) {
	w, b := weak3(), bool3()
	r := map[*vn.V][]int{}
	var rec func(i int) bool
	rec = func(i int) bool {
		switch {
		case i < len(two):
			for _, x := range w {
				r[two[i]] = x
				if !rec(i + 1) {
					return false
				}
			}
		case i < len(two)+len(one):
			for _, x := range b {
				r[one[i-len(two)]] = x
				if !rec(i + 1) {
					return false
				}
			}
		default:
			return f(r)
		}
		return true
	}
	rec(0)
}

func (q *comparators) comparator(f *vn.V) {
	c := q.c
	name, pos := fnName(f.Fn), c.P.Pos(f.Fn.Pos())
	c.Count("comparisons", 1)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecidable)
			if !ok {
				panic(r)
			}
			c.Fail("orders-consistently", name, pos, "the comparison is not a consistent order: "+u.why)
		}
	}()
	e := q.engine()
	t, why := decideTable(e, func(a, b *vn.V) []vn.Outcome { return e.RunClosure(f, []*vn.V{a, b}, e.NewState()) }, f.Fn.Signature.Params().At(0).Type())
	if t == nil {
		c.Fail("undecided", name, pos, why)
		return
	}
	two, one := t.atoms(func(o vn.Outcome, ev env) int { return t.sign(o.Res[0], ev) })
	n := 1
	for range two {
		n *= 13
	}
	for range one {
		n *= 8
	}
	if len(two)+len(one) > 8 || n > 2000000 {
		c.Fail("undecided", name, pos, fmt.Sprintf("it compares too many parts (%d) to decide", len(two)+len(one)))
		return
	}
	c.Count("orders of three elements decided", n)
	bad := ""
	deps := t.dependencies(two, one)
	triples(two, one, func(r map[*vn.V][]int) bool {
		if !possible(r, deps) {
			return true
		}
		d := func(i, j int) int {
			ev := ranks{r, i, j}
			return t.eval(ev, func(o vn.Outcome) int { return t.sign(o.Res[0], ev) })
		}
		xy, yx, yz, xz := d(0, 1), d(1, 0), d(1, 2), d(0, 2)
		switch {
		case d(0, 0) != 0:
			bad = "an element does not compare equal to itself"
		case xy != -yx:
			bad = "swapping the arguments does not flip the sign"
		case xy <= 0 && yz <= 0 && xz > 0, xy >= 0 && yz >= 0 && xz < 0:
			bad = "it is not transitive"
		case xy == 0 && yz != xz:
			bad = "elements that compare equal compare differently with others"
		}
		if bad != "" {
			bad += ": " + describe(r)
		}
		return bad == ""
	})
	c.Check(bad == "", "total-preorder", name, pos, bad)
}

// dependencies lists pairs of atoms where the second is a function of the first.
func (t *table) dependencies(two, one []*vn.V) (out [][2]*vn.V) {
	all := append(append([]*vn.V{}, two...), one...)
	hole := t.e.Param("hole", nil)
	for _, x := range all {
		for _, y := range all {
			if x == y {
				continue
			}
			z := t.e.Subst(y, map[*vn.V]*vn.V{x: hole})
			if z != y && side(z, t.a, t.b) == 0 {
				out = append(out, [2]*vn.V{x, y})
			}
		}
	}
	return
}

// possible: equal arguments give equal results.
func possible(r map[*vn.V][]int, deps [][2]*vn.V) bool {
	for _, d := range deps {
		x, y := r[d[0]], r[d[1]]
		for i := range x {
			for j := range x {
				if x[i] == x[j] && y[i] != y[j] {
					return false
				}
			}
		}
	}
	return true
}

func describe(r map[*vn.V][]int) string {
	var out []string
	for v, x := range r {
		out = append(out, fmt.Sprintf("%s of three elements ordered as %v", v, x))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// listComparison decides a function comparing lists with an arbitrary comparison, on
// lists of up to three elements.
func (q *comparators) listComparison(f *ssa.Function) {
	c := q.c
	if fnPkg(f) == "slices" {
		return
	}
	name, pos := fnName(f), c.P.Pos(f.Pos())
	if o := f.Origin(); o != nil {
		name = fnName(o)
	}
	c.Count("list comparisons", 1)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecidable)
			if !ok {
				panic(r)
			}
			c.Fail("lexicographic", name, pos, "the list comparison is not understood: "+u.why)
		}
	}()
	sig := f.Signature
	for m := 0; m <= 3; m++ {
		for n := 0; n <= 3; n++ {
			e, rk, l := q.listEngine(sig.Params().At(2).Type())
			l1, l2 := l("x", m, sig.Params().At(0).Type()), l("y", n, sig.Params().At(1).Type())
			outs := e.Run(f, []*vn.V{l1, l2, e.Param("cmp", sig.Params().At(2).Type())}, nil)
			if e.Err != nil || len(outs) == 0 {
				c.Fail("undecided", name, pos, fmt.Sprintf("it could not be analysed: %v", e.Err))
				return
			}
			c.Count("list sizes decided", 1)
			bad := rk.all(outs, append(append([]*vn.V{}, l1.A...), l2.A...), func(rank map[*vn.V]int) int {
				for i := 0; i < m && i < n; i++ {
					if s := sgn(rank[l1.A[i]] - rank[l2.A[i]]); s != 0 {
						return s
					}
				}
				return sgn(m - n)
			}, false)
			c.Check(bad == "", "lexicographic", name, pos, fmt.Sprintf("lists of %d and %d elements: %s", m, n, bad))
			if bad != "" {
				return
			}
		}
	}
}

// sortedPredicate decides an is-sorted function on lists of up to four elements.
func (q *comparators) sortedPredicate(f *ssa.Function) {
	c := q.c
	if fnPkg(f) == "slices" {
		return
	}
	name, pos := fnName(f), c.P.Pos(f.Pos())
	if o := f.Origin(); o != nil {
		name = fnName(o)
	}
	c.Count("is-sorted functions", 1)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecidable)
			if !ok {
				panic(r)
			}
			c.Fail("is-sorted", name, pos, "the is-sorted function is not understood: "+u.why)
		}
	}()
	sig := f.Signature
	for m := 0; m <= 4; m++ {
		e, rk, l := q.listEngine(sig.Params().At(1).Type())
		l1 := l("x", m, sig.Params().At(0).Type())
		outs := e.Run(f, []*vn.V{l1, e.Param("cmp", sig.Params().At(1).Type())}, nil)
		if e.Err != nil || len(outs) == 0 {
			c.Fail("undecided", name, pos, fmt.Sprintf("it could not be analysed: %v", e.Err))
			return
		}
		bad := rk.all(outs, l1.A, func(rank map[*vn.V]int) int {
			for i := 0; i+1 < m; i++ {
				if rank[l1.A[i]] > rank[l1.A[i+1]] {
					return 0
				}
			}
			return 1
		}, true)
		c.Check(bad == "", "is-sorted", name, pos, fmt.Sprintf("a list of %d elements: %s", m, bad))
		if bad != "" {
			return
		}
	}
}

type listRanks struct{ e *vn.Engine }

func (q *comparators) listEngine(cmpT types.Type) (*vn.Engine, listRanks, func(n string, k int, t types.Type) *vn.V) {
	e := newVN(q.c, load.IsLib)
	e.MaxParts = 4096
	e.KeepConds = true
	cmp := e.Param("cmp", cmpT)
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if vn.Strip(k.FnV) == cmp && len(k.Args) == 2 {
			return true, e.CallTerm("cmp", k.Args, types.Typ[types.Int])
		}
		return false, nil
	}
	return e, listRanks{e}, func(n string, k int, t types.Type) *vn.V {
		var l []*vn.V
		for i := 0; i < k; i++ {
			l = append(l, e.Param(fmt.Sprintf("%s%d", n, i), t.Underlying().(*types.Slice).Elem()))
		}
		return e.Mk("list", "", t, l...)
	}
}

// all compares the outcomes with a reference for every ranking of the elements.
func (r listRanks) all(outs []vn.Outcome, elems []*vn.V, ref func(map[*vn.V]int) int, boolRes bool) string {
	rank := map[*vn.V]int{}
	var sign func(v *vn.V) int
	sign = func(v *vn.V) int {
		v = vn.Strip(v)
		if n, ok := v.Int64(); ok {
			return sgn(int(n))
		}
		if v.Op == "call" && v.P == "cmp" {
			a, ok1 := rank[v.A[0]]
			b, ok2 := rank[v.A[1]]
			if !ok1 || !ok2 {
				panic(undecidable{"it compares " + v.A[0].String() + " with " + v.A[1].String()})
			}
			return sgn(a - b)
		}
		if k, a, ok := r.e.Scaled(v); ok && a != v {
			return sgn(int(k)) * sign(a)
		}
		panic(undecidable{"its result depends on " + v.String()})
	}
	var truth func(v *vn.V) bool
	truth = func(v *vn.V) bool {
		if b, ok := v.BoolVal(); ok {
			return b
		}
		switch v.Op {
		case "not":
			return !truth(v.A[0])
		case "eq", "lt":
			x, y := v.A[0], v.A[1]
			if n, ok := y.Int64(); ok {
				return relate(v.Op, int64(sign(x)), n)
			}
			if n, ok := x.Int64(); ok {
				return relate(v.Op, n, int64(sign(y)))
			}
		case "isnil":
			return false
		}
		panic(undecidable{"it depends on " + v.String()})
	}
	bad := ""
	var rec func(i int) bool
	rec = func(i int) bool {
		if i < len(elems) {
			for k := 0; k < 3; k++ {
				rank[elems[i]] = k
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		want := ref(rank)
		n := 0
	next:
		for _, o := range outs {
			for v, b := range o.St.Cond() {
				if truth(v) != b {
					continue next
				}
			}
			n++
			var got int
			if boolRes {
				if truth(o.Res[0]) {
					got = 1
				}
			} else {
				got = sign(o.Res[0])
			}
			if got != want {
				var rs []string
				for _, x := range elems {
					rs = append(rs, fmt.Sprintf("%s=%d", x, rank[x]))
				}
				bad = fmt.Sprintf("gives %d instead of %d for elements ranked %s", got, want, strings.Join(rs, " "))
				return false
			}
		}
		if n == 0 {
			panic(undecidable{"no path covers some combination of orders"})
		}
		return true
	}
	rec(0)
	return bad
}

func c15(c *core.Ctx) {
	c.Rule = "Every exported comparison of the library, and every comparison handed to a sort, is-sorted or list comparison, is turned into a decision table over the signs of its elementary comparisons (value numbering; an elementary comparison must compare the same function of both elements: strings.Compare, <, ==, booleans, lists under another comparison that is checked itself). For every weak order of three elements per elementary comparison the table must be reflexive, antisymmetric, transitive and treat equal elements alike. Results computed by arithmetic are rejected. List comparisons must be lexicographic and is-sorted must mean no adjacent descent, decided with an arbitrary comparison for lists of up to three (four) elements. Each type's Sort and IsSorted must use the same comparison."
	c.Assumptions = []string{"The standard library's sort functions sort; strings.Compare and filepath.Clean are what they are documented to be.", "List functions treat longer lists like those of up to four elements (their loops are analysed unrolled).", "Functions of one element (such as its unified identifier) are deterministic (C08)."}
	q := &comparators{c: c, seen: map[string]bool{}, lists: map[*ssa.Function]bool{}}
	q.e = q.engine()
	preds := map[*ssa.Function]bool{}
	for _, f := range repoFuncs(c, load.IsLib) {
		sig := f.Signature
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && !strings.Contains(fnPkg(f), "/internal/") && strings.HasPrefix(f.Name(), "Compare") {
			if t := cmpElem(sig); t != nil {
				if _, ok := t.Underlying().(*types.Struct); ok {
					q.add(q.e.FuncVal(f))
				}
			} else if listCmp(sig) {
				q.lists[f] = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				g := ci.Common().StaticCallee()
				if listCmp(g.Signature) && len(g.Blocks) > 0 && load.InRepo(fnPkg(g)) {
					q.lists[g] = true
				}
				if sortPred(g.Signature) && len(g.Blocks) > 0 && load.InRepo(fnPkg(g)) {
					preds[g] = true
				}
				for _, a := range ci.Common().Args {
					if s, ok := a.Type().Underlying().(*types.Signature); !ok || cmpElem(s) == nil {
						continue
					}
					if ct, ok := a.(*ssa.ChangeType); ok {
						a = ct.X
					}
					switch v := a.(type) {
					case *ssa.Function:
						q.add(q.e.FuncVal(v))
					case *ssa.MakeClosure:
						g := v.Fn.(*ssa.Function)
						var bs []*vn.V
						for i, fv := range g.FreeVars {
							bs = append(bs, q.e.Param(fmt.Sprintf("captured%d", i), fv.Type()))
						}
						q.add(q.e.ClosureVal(g, bs))
					}
				}
			}
		}
	}
	for len(q.work) > 0 {
		f := q.work[0]
		q.work = q.work[1:]
		if trustedCompare(f.Fn) {
			continue
		}
		if len(f.Fn.Blocks) == 0 || !load.InRepo(fnPkg(f.Fn)) {
			c.Fail("undecided", fnName(f.Fn), "-", "a comparison from outside the repository is not known to be consistent")
			continue
		}
		// Terms belong to an engine; rebuild the function value in a fresh one.
		q.comparator(f)
	}
	var lists []*ssa.Function
	done := map[string]bool{}
	for f := range q.lists {
		lists = append(lists, f)
	}
	sort.Slice(lists, func(i, j int) bool { return fnName(lists[i]) < fnName(lists[j]) })
	for _, f := range lists {
		n := fnName(f)
		if o := f.Origin(); o != nil {
			n = fnName(o)
		}
		if !done[n] {
			done[n] = true
			q.listComparison(f)
		}
	}
	var ps []*ssa.Function
	for f := range preds {
		ps = append(ps, f)
	}
	sort.Slice(ps, func(i, j int) bool { return fnName(ps[i]) < fnName(ps[j]) })
	for _, f := range ps {
		n := fnName(f)
		if o := f.Origin(); o != nil {
			n = fnName(o)
		}
		if !done[n] {
			done[n] = true
			q.sortedPredicate(f)
		}
	}
	c15Agree(c)
	c.Min("comparisons", 8)
	c.Min("orders of three elements decided", 300)
	c.Min("list comparisons", 1)
	c.Min("sort and is-sorted pairs", 3)
}

// c15Agree: Sort and IsSorted of a type use the same comparison.
func c15Agree(c *core.Ctx) {
	for _, pk := range c.P.Pkgs {
		if !load.IsLib(pk.PkgPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Slice); !ok {
				continue
			}
			s, is := method(c, nt, "Sort"), method(c, nt, "IsSorted")
			if s == nil || is == nil {
				continue
			}
			c.Count("sort and is-sorted pairs", 1)
			name, pos := fnName(s), c.P.Pos(s.Pos())
			used := func(f *ssa.Function) map[string]bool {
				got := map[string]bool{}
				e := newVN(c, load.IsLib)
				e.Hook = func(k *vn.Call) (bool, *vn.V) {
					if k.Fn == nil {
						return false, nil
					}
					if sorterCall(k.Fn) {
						got[cmpName(k.Args[1])] = true
						return true, nil
					}
					if sortPred(k.Fn.Signature) {
						got[cmpName(k.Args[1])] = true
						return true, e.Param("sorted", types.Typ[types.Bool])
					}
					return false, nil
				}
				e.Run(f, e.Inputs(f), nil)
				return got
			}
			a, b := used(s), used(is)
			if len(a) != 1 || len(b) != 1 {
				c.Fail("undecided", name, pos, fmt.Sprintf("Sort uses the comparisons %v, IsSorted %v", keysOf(a), keysOf(b)))
				continue
			}
			c.Check(keysOf(a)[0] == keysOf(b)[0], "sort-agrees", name, pos, fmt.Sprintf("Sort orders by %s but IsSorted checks %s", keysOf(a)[0], keysOf(b)[0]))
		}
	}
}

func cmpName(v *vn.V) string {
	v = vn.Strip(v)
	if v.Fn != nil {
		return fnName(v.Fn)
	}
	return v.String()
}

var _ = constant.Int
