package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C16", c16) }

// listEq tells func([]T, []T) bool on lists of comparable elements.
func listEq(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Recv() != nil || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	for i := 0; i < 2; i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); !ok {
			return false
		}
	}
	return types.Identical(sig.Params().At(0).Type(), sig.Params().At(1).Type())
}

func c16(c *core.Ctx) {
	c.Rule = "Entry.Equal is analysed on two unknown entries (value numbering, all paths kept apart). Everything it decides on must be an elementary equality between the same function of both entries (a field, the joined translation, lists under a list comparison decided by C15's rule, lists under an equality decided on lists of up to three elements). It must report equal exactly when all of those equalities hold, which makes it reflexive, symmetric and transitive, and every path reporting equal must have established equality of identifier, context, plural identifier, translation, plural translations, flags and obsolete status. The same entry given twice must be reported equal on every path."
	c.Assumptions = []string{"Functions of one entry (such as its joined translation) are deterministic (C08).", "Entries whose joined translations are equal count as having the same translations."}
	ent := libType(c, "pkg/po.Entry")
	if ent == nil {
		c.Fail("undecided", "types", "-", "the entry type was not found")
		return
	}
	f := method(c, ent, "Equal")
	if f == nil {
		c.Fail("undecided", "Equal", "-", "the equality of entries was not found")
		return
	}
	name, pos := fnName(f), c.P.Pos(f.Pos())
	q := &comparators{c: c, seen: map[string]bool{}, lists: map[*ssa.Function]bool{}}
	eqs := map[*ssa.Function]bool{}
	engine := func() *vn.Engine {
		e := q.engine()
		inner := e.Hook
		e.Hook = func(k *vn.Call) (bool, *vn.V) {
			if k.Fn != nil && k.Fn.Parent() == nil && listEq(k.Fn.Signature) {
				eqs[k.Fn] = true
				if k.Args[0] == k.Args[1] {
					return true, e.Bool(true)
				}
				return true, e.CallTerm("list equality", k.Args, types.Typ[types.Bool])
			}
			if k.Fn != nil && k.Fn.Parent() == nil && listCmp(k.Fn.Signature) {
				// Any order will do for equality, if its comparison is one.
				fv := vn.Strip(k.Args[2])
				if fv.Fn != nil && trustedCompare(fv.Fn) {
					q.listFn(k.Fn)
					if k.Args[0] == k.Args[1] {
						return true, e.Int(0)
					}
					return true, e.CallTerm("list comparison", []*vn.V{k.Args[0], k.Args[1], fv}, types.Typ[types.Int])
				}
			}
			return inner(k)
		}
		return e
	}
	// The same entry twice.
	e := engine()
	a := e.Param("a", ent)
	for _, o := range e.Run(f, []*vn.V{a, a}, nil) {
		b, ok := o.Res[0].BoolVal()
		if !ok {
			b, ok = e.Truth(o.St, o.Res[0])
		}
		c.Count("paths", 1)
		c.Check(ok && b, "reflexive", name, pos, "an entry is not reported equal to itself: "+o.Res[0].String())
	}
	if e.Err != nil {
		c.Fail("undecided", name, pos, e.Err.Error())
		return
	}
	e = engine()
	t, why := decideTable(e, func(a, b *vn.V) []vn.Outcome { return e.Run(f, []*vn.V{a, b}, nil) }, ent)
	if t == nil {
		c.Fail("undecided", name, pos, why)
		return
	}
	// split a result that is itself a condition.
	type way struct {
		res  bool
		cond map[*vn.V]bool
	}
	var ways []way
	for _, o := range t.outs {
		if b, ok := o.Res[0].BoolVal(); ok {
			ways = append(ways, way{b, o.St.Cond()})
			continue
		}
		for _, b := range []bool{true, false} {
			s := o.St.Clone()
			if e.Assume(s, o.Res[0], b) {
				ways = append(ways, way{b, s.Cond()})
			}
		}
	}
	bt := types.Typ[types.Bool]
	// equality: the part (in terms of a) whose equality a condition states, and whether.
	equality := func(v *vn.V, b bool) (part *vn.V, eq bool, ok bool) {
		for v.Op == "not" {
			v, b = v.A[0], !b
		}
		defer func() {
			if r := recover(); r != nil {
				if _, isU := r.(undecidable); !isU {
					panic(r)
				}
				part, ok = nil, false
			}
		}()
		if v.Op == "call" && v.P == "list equality" {
			p, _ := t.pair(v.A[0], v.A[1])
			return p, b, true
		}
		if v.Op == "call" && v.P == "slices.Equal" {
			p, _ := t.pair(v.A[0], v.A[1])
			return p, b, true
		}
		if v.Op == "eq" {
			x, y := v.A[0], v.A[1]
			if n, isN := y.Int64(); isN && n == 0 && x.Op == "call" && (strings.HasPrefix(x.P, "list comparison") || isCompareCall(x)) {
				p, _ := t.pair(x.A[0], x.A[1])
				return p, b, true
			}
			p, _ := t.pair(x, y)
			return p, b, true
		}
		if (v.Op == "eq" || v.Op == "bin") && len(v.A) == 2 {
			p, _ := t.pair(v.A[0], v.A[1])
			return p, b == (v.P != "!="), true
		}
		return nil, false, false
	}
	needed := map[string][]*vn.V{}
	st := ent.Underlying().(*types.Struct)
	field := func(n string) *vn.V {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return e.Field(t.a, n, st.Field(i).Type())
			}
		}
		return nil
	}
	for _, n := range []string{"ID", "Context", "Plural", "Str", "Flags", "Obsolete", "Plurals"} {
		v := field(n)
		if v == nil {
			c.Fail("undecided", name+" "+n, pos, "the entry has no field "+n)
			continue
		}
		needed[n] = []*vn.V{v}
	}
	joined := method(c, ent, "UnifiedStr")
	if joined != nil && needed["Plurals"] != nil {
		needed["Plurals"] = append(needed["Plurals"], e.CallTerm(fnName(joined), []*vn.V{t.a}, types.Typ[types.String]))
	}
	parts := map[*vn.V]bool{}
	nTrue := 0
	for _, w := range ways {
		c.Count("paths", 1)
		eq := map[*vn.V]bool{}
		allEq := true
		for v, b := range w.cond {
			if side(v, t.a, t.b) == 0 {
				continue
			}
			p, is, ok := equality(v, b)
			if !ok {
				// Conditions on single bools of both entries also decide their equality.
				if s := side(v, t.a, t.b); (s == 1 || s == 2) && v.T != nil && types.Identical(v.T.Underlying(), bt) {
					u := v
					if s == 2 {
						u = e.Subst(v, map[*vn.V]*vn.V{t.b: t.a})
					}
					other := e.Subst(u, map[*vn.V]*vn.V{t.a: t.b})
					if s == 2 {
						other = u
					}
					if ob, known := w.cond[other]; known {
						parts[u] = true
						eq[u] = ob == b
						allEq = allEq && ob == b
						continue
					}
					// One side alone: harmless if the result does not hang on it.
					continue
				}
				c.Fail("equality-only", name, pos, "equality of entries depends on something other than equality of their parts: "+v.String())
				continue
			}
			parts[p] = true
			if _, dup := eq[p]; !dup || !is {
				eq[p] = is
			}
			allEq = allEq && is
		}
		if w.res {
			nTrue++
			c.Check(allEq, "equal-means-equal-parts", name, pos, "entries are reported equal on a path where "+differing(eq)+" differ")
			for _, n := range keysOfList(needed) {
				ok := false
				for _, v := range needed[n] {
					ok = ok || eq[v]
				}
				c.Check(ok, "compares-"+strings.ToLower(n), name, pos, "entries are reported equal on a path that has not compared "+n)
			}
		} else {
			c.Check(!allEq, "unequal-means-a-difference", name, pos, "entries are reported different on a path where everything compared is equal")
		}
	}
	c.Check(nTrue > 0, "some-entries-equal", name, pos, "no path reports entries equal")
	c.Count("parts compared", len(parts))
	// The list functions used.
	done := map[string]bool{}
	for g := range q.lists {
		if n := fnName(g); !done[n] {
			done[n] = true
			q.listComparison(g)
		}
	}
	for g := range eqs {
		if n := fnName(g); !done[n] {
			done[n] = true
			listEquality(c, g)
		}
	}
	c.Min("parts compared", 5)
	c.Min("paths", 3)
	_ = token.EQL
}

func differing(m map[*vn.V]bool) string {
	var out []string
	for v, b := range m {
		if !b {
			out = append(out, v.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func keysOfList(m map[string][]*vn.V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// listEquality decides an equality of lists on lists of up to three elements.
func listEquality(c *core.Ctx, f *ssa.Function) {
	if !load.InRepo(fnPkg(f)) {
		return
	}
	name, pos := fnName(f), c.P.Pos(f.Pos())
	et := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	for m := 0; m <= 3; m++ {
		for n := 0; n <= 3; n++ {
			e := newVN(c, load.IsLib)
			e.KeepConds = true
			e.MaxParts = 4096
			mk := func(p string, k int) *vn.V {
				var l []*vn.V
				for i := 0; i < k; i++ {
					l = append(l, e.Param(fmt.Sprintf("%s%d", p, i), et))
				}
				return e.Mk("list", "", f.Signature.Params().At(0).Type(), l...)
			}
			x, y := mk("x", m), mk("y", n)
			outs := e.Run(f, []*vn.V{x, y}, nil)
			if e.Err != nil || len(outs) == 0 {
				c.Fail("undecided", name, pos, fmt.Sprintf("the list equality could not be analysed: %v", e.Err))
				return
			}
			for _, o := range outs {
				for _, b := range []bool{true, false} {
					s := o.St.Clone()
					if !e.Assume(s, o.Res[0], b) {
						continue
					}
					all, some := true, false
					for i := 0; i < m && i < n; i++ {
						eq, known := e.Truth(s, e.Bin(token.EQL, x.A[i], y.A[i], types.Typ[types.Bool]))
						all = all && known && eq
						some = some || known && !eq
					}
					if b {
						c.Check(m == n && all, "list-equality", name, pos, fmt.Sprintf("lists of %d and %d elements are reported equal without all elements being equal", m, n))
					} else {
						c.Check(m != n || some, "list-equality", name, pos, fmt.Sprintf("lists of %d and %d elements are reported different without a difference", m, n))
					}
				}
			}
		}
	}
}
