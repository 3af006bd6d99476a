package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C21", c21) }

// gotextArgs are the positions of identifier, plural and context in the signatures of
// github.com/leonelquinteros/gotext (-1: none).
var gotextArgs = map[string][3]int{
	"Get":    {0, -1, -1}, // (str, vars...)
	"GetN":   {0, 1, -1},  // (str, plural, n, vars...)
	"GetD":   {1, -1, -1}, // (dom, str, vars...)
	"GetND":  {1, 2, -1},  // (dom, str, plural, n, vars...)
	"GetC":   {0, -1, 1},  // (str, ctx, vars...)
	"GetNC":  {0, 1, 3},   // (str, plural, n, ctx, vars...)
	"GetDC":  {1, -1, 2},  // (dom, str, ctx, vars...)
	"GetNDC": {1, 2, 4},   // (dom, str, plural, n, ctx, vars...)
}

// otherNames are further functions a package may be called with.
var otherNames = []string{"SetDomain", "GetDomain", "SetLanguage", "GetLanguage", "SetLibrary", "GetLibrary", "Configure", "GetTranslations", "IsTranslated", "IsTranslatedN", "NewPo", "NewMo", "NewLocale", "GetE", "GetNE", "Getf", "get", "getn", "GETN", "Gettext", "NGettext", "DGet", "Sprintf", "Append", ""}

// goast builds syntax trees out of unknown parts.
type goast struct {
	c *core.Ctx
	e *vn.Engine
	p *types.Package
}

func (g *goast) typ(name string) types.Type {
	return g.p.Scope().Lookup(name).Type()
}

// node makes a pointer to a node with the given fields; the others are unknown.
func (g *goast) node(st *vn.State, name, typ string, fields map[string]*vn.V) *vn.V {
	t := g.typ(typ)
	ptr := g.e.Param(name, types.NewPointer(t))
	s := t.Underlying().(*types.Struct)
	var fs []*vn.V
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := fields[f.Name()]
		if v == nil {
			v = g.e.Param(name+"."+f.Name(), f.Type())
		}
		fs = append(fs, v)
	}
	g.e.SetContent(st, g.e.Lazy(ptr), g.e.Struct(t, fs))
	return ptr
}

func (g *goast) iface(v *vn.V) *vn.V { return g.e.Mk("iface", "", v.T, v) }

func goastPkg(c *core.Ctx) *types.Package {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "go/ast" {
			return p.Pkg
		}
	}
	return nil
}

type inspection struct {
	visit *vn.V
	st    *vn.State
}

// inspections runs the entry extraction of a Go file up to where the syntax tree is walked.
func inspections(c *core.Ctx, e *vn.Engine, f *ssa.Function) []inspection {
	var out []inspection
	seen := map[*vn.V]bool{}
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Name == "go/ast.Inspect" && !k.Quiet && len(k.Args) == 2 {
			v := vn.Strip(k.Args[1])
			if v.Op == "closure" || v.Op == "func" {
				if !seen[v] {
					seen[v] = true
					e.Keep = append(e.Keep, v)
				}
				out = append(out, inspection{v, k.St.Clone()})
				return true, nil
			}
		}
		return false, nil
	}
	e.Run(f, e.Inputs(f), nil)
	e.Hook = nil
	return out
}

func c21(c *core.Ctx) {
	c.Rule = "The extraction of entries from a Go file is analysed with a syntax tree built for each lookup function of gotext: a selector call on the package's name whose arguments are unknown string literals. Every entry appended on any path must take identifier, plural and context from the literals at that function's positions and from nothing else; on the path where all literals are well-formed and non-empty exactly one entry with all parts must be appended. Calls of every other name (all string constants of the package, other gotext functions) and of other packages, and calls whose identifier is no string literal, must append nothing."
	c.Assumptions = []string{"The argument positions are those of github.com/leonelquinteros/gotext's documented signatures.", "A literal's text is strconv.Unquote of its source text."}
	file := libType(c, "pkg/go/parse.File")
	ap := goastPkg(c)
	if file == nil || ap == nil {
		c.Fail("undecided", "types", "-", "the Go file type was not found")
		return
	}
	f := method(c, file, "Entries")
	if f == nil {
		c.Fail("undecided", "Entries", "-", "the extraction of entries was not found")
		return
	}
	name, pos := fnName(f), c.P.Pos(f.Pos())
	names := map[string]bool{}
	for n := range gotextArgs {
		names[n] = true
	}
	for _, n := range otherNames {
		names[n] = true
	}
	for _, g := range repoFuncs(c, func(p string) bool { return p == fnPkg(f) }) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						if s := constant.StringVal(k.Value); len(s) < 40 && token.IsIdentifier(s) {
							names[s] = true
						}
					}
				}
			}
		}
	}
	var all []string
	for n := range names {
		all = append(all, n)
	}
	sort.Strings(all)

	e := newVN(c, load.IsLib)
	e.MaxParts = 64
	ins := inspections(c, e, f)
	if e.Err != nil || len(ins) == 0 {
		c.Fail("undecided", name, pos, fmt.Sprintf("the walk over the syntax tree was not found (%v)", e.Err))
		return
	}
	g := &goast{c, e, ap}
	boolT := types.Typ[types.Bool]
	strT := types.Typ[types.String]
	entT := libType(c, "pkg/po.Entry")
	entriesT := libType(c, "pkg/po.Entries")
	if entT == nil || entriesT == nil {
		c.Fail("undecided", "types", "-", "the entry types were not found")
		return
	}
	text := func(i int) *vn.V { return e.Param(fmt.Sprintf("text%d", i), strT) }
	unq := func(i int) *vn.V {
		return e.CallTerm("strconv.Unquote", []*vn.V{text(i)}, types.NewTuple(types.NewVar(0, nil, "", strT), types.NewVar(0, nil, "", errorType)))
	}
	recvPkg := func(st *vn.State) *vn.V {
		o := e.Lazy(e.Param(f.Params[0].Name(), f.Params[0].Type()))
		fs := file.Underlying().(*types.Struct)
		for i := 0; i < fs.NumFields(); i++ {
			if strings.HasSuffix(strings.ToLower(fs.Field(i).Name()), "pkgname") {
				return e.Field(e.Content(st, o), fs.Field(i).Name(), fs.Field(i).Type())
			}
		}
		return nil
	}
	if recvPkg(ins[0].st) == nil {
		c.Fail("undecided", "package name", pos, "the field holding the package's name was not found")
		return
	}
	// appended lists the entries that were appended to the list the visit keeps.
	type result struct {
		st  *vn.State
		ent []*vn.V
		ok  bool
	}
	run := func(in inspection, call func(st *vn.State) *vn.V, wellFormed bool, nargs int) []result {
		st := in.st.Clone()
		n := call(st)
		if wellFormed {
			for i := 0; i < nargs; i++ {
				for _, s := range []string{`""`, "``"} {
					e.Assume(st, e.Bin(token.EQL, text(i), e.Str(s), boolT), false)
				}
				r := e.ResultOf(unq(i), 0, strT)
				e.Assume(st, e.Bin(token.EQL, r, e.Str(""), boolT), false)
				e.Assume(st, e.Bin(token.EQL, e.ResultOf(unq(i), 1, errorType), e.Zero(errorType), boolT), true)
			}
		}
		var res []result
		for _, o := range e.RunClosure(in.visit, []*vn.V{n}, st) {
			r := result{st: o.St, ok: true}
			for _, ob := range e.Objects(o.St) {
				if !types.Identical(ob.T, entriesT) {
					continue
				}
				was, now := e.Content(st, ob), e.Content(o.St, ob)
				if was == now {
					continue
				}
				l, ok := appendedTo(was, now)
				if !ok {
					r.ok = false
				}
				r.ent = append(r.ent, l...)
			}
			res = append(res, r)
		}
		return res
	}
	mkCall := func(st *vn.State, fn string, x *vn.V, args int, kind func(i int) string) *vn.V {
		var l []*vn.V
		for i := 0; i < args; i++ {
			switch kind(i) {
			case "lit":
				l = append(l, g.iface(g.node(st, fmt.Sprintf("lit%d", i), "BasicLit", map[string]*vn.V{
					"Kind": e.Const(constant.MakeInt64(int64(token.STRING)), tokenType(ap)), "Value": text(i)})))
			case "int":
				l = append(l, g.iface(g.node(st, fmt.Sprintf("int%d", i), "BasicLit", map[string]*vn.V{
					"Kind": e.Const(constant.MakeInt64(int64(token.INT)), tokenType(ap)), "Value": text(i)})))
			default:
				l = append(l, g.iface(g.node(st, fmt.Sprintf("ident%d", i), "Ident", nil)))
			}
		}
		at := types.NewSlice(g.typ("Expr"))
		sel := g.node(st, "sel", "SelectorExpr", map[string]*vn.V{
			"X":   g.iface(g.node(st, "x", "Ident", map[string]*vn.V{"Name": x})),
			"Sel": g.node(st, "selname", "Ident", map[string]*vn.V{"Name": e.Str(fn)}),
		})
		return g.iface(g.node(st, "call", "CallExpr", map[string]*vn.V{"Fun": g.iface(sel), "Args": e.Mk("list", "", at, l...)}))
	}
	lits := func(int) string { return "lit" }
	const nargs = 6
	parts := [3]string{"ID", "Plural", "Context"}
	check := func(fn, what string, want [3]int, rs []result, complete bool) {
		for _, r := range rs {
			c.Count("paths", 1)
			if !r.ok {
				c.Fail("undecided", name+" "+fn+what, pos, "what was appended to the entries is not known")
				continue
			}
			if complete {
				c.Check(len(r.ent) == 1, "extracts-one", name+" "+fn+what, pos, fmt.Sprintf("a well-formed call of %s yields %d entries", fn, len(r.ent)))
			}
			for _, x := range r.ent {
				for i, p := range parts {
					v := vn.Strip(e.Field(x, p, strT))
					m := map[string]bool{}
					mentions(e, r.st, v, m)
					exp := ""
					if want[i] >= 0 {
						exp = text(want[i]).P
					}
					for k := range m {
						if k != exp {
							c.Fail("right-argument", name+" "+fn+what+" "+p, pos, fmt.Sprintf("%s of a %s call is taken from %s instead of %s", p, fn, k, orNone(exp)))
						}
					}
					if complete && want[i] >= 0 {
						c.Check(v == e.ResultOf(unq(want[i]), 0, strT), "right-argument", name+" "+fn+what+" "+p, pos, fmt.Sprintf("%s of a %s call is %s, not the text of argument %d", p, fn, v, want[i]))
					}
				}
			}
		}
	}
	for _, in := range ins {
		pk := recvPkg(in.st)
		for _, fn := range all {
			want, known := gotextArgs[fn]
			if known {
				c.Count("lookup functions", 1)
				rs := run(in, func(st *vn.State) *vn.V { return mkCall(st, fn, pk, nargs, lits) }, true, nargs)
				c.Check(len(rs) > 0, "extracts-one", name+" "+fn, pos, "no path of the extraction returns")
				check(fn, "", want, rs, true)
				check(fn, " (any literals)", want, run(in, func(st *vn.State) *vn.V { return mkCall(st, fn, pk, nargs, lits) }, false, nargs), false)
				// Fewest arguments that still hold all texts.
				min := want[0]
				for _, w := range want {
					if w > min {
						min = w
					}
				}
				check(fn, " (no extra arguments)", want, run(in, func(st *vn.State) *vn.V { return mkCall(st, fn, pk, min+1, lits) }, true, min+1), true)
				// The identifier is not a literal, or no string.
				for _, k := range []string{"ident", "int"} {
					rs := run(in, func(st *vn.State) *vn.V {
						return mkCall(st, fn, pk, nargs, func(i int) string {
							if i == want[0] {
								return k
							}
							return "lit"
						})
					}, true, nargs)
					for _, r := range rs {
						c.Check(r.ok && len(r.ent) == 0, "literals-only", name+" "+fn+" "+k, pos, "a call of "+fn+" whose identifier is no string literal yields an entry")
					}
				}
				// A variable where plural or context belong does not move the others.
				for j := 1; j < 3; j++ {
					if want[j] < 0 {
						continue
					}
					w := want
					w[j] = -1
					check(fn, " (variable "+parts[j]+")", w, run(in, func(st *vn.State) *vn.V {
						return mkCall(st, fn, pk, nargs, func(i int) string {
							if i == want[j] {
								return "ident"
							}
							return "lit"
						})
					}, true, nargs), false)
				}
			} else {
				c.Count("other names", 1)
				for _, r := range run(in, func(st *vn.State) *vn.V { return mkCall(st, fn, pk, nargs, lits) }, true, nargs) {
					c.Check(r.ok && len(r.ent) == 0, "lookups-only", name+" "+fn, pos, "a call of "+fn+" yields an entry")
				}
			}
			if known {
				other := e.Param("another package", strT)
				st0 := in
				st0.st = in.st.Clone()
				e.Assume(st0.st, e.Bin(token.EQL, other, pk, boolT), false)
				for _, r := range run(st0, func(st *vn.State) *vn.V { return mkCall(st, fn, other, nargs, lits) }, true, nargs) {
					c.Check(r.ok && len(r.ent) == 0, "gotext-only", name+" "+fn, pos, "a call of "+fn+" on another package yields an entry")
				}
			}
		}
	}
	if e.Err != nil {
		c.Fail("undecided", name, pos, e.Err.Error())
	}
	c.Min("lookup functions", 8)
	c.Min("other names", 20)
	c.Min("paths", 24)
}

func orNone(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

func tokenType(ast *types.Package) types.Type {
	for _, p := range ast.Imports() {
		if p.Path() == "go/token" {
			return p.Scope().Lookup("Token").Type()
		}
	}
	return types.Typ[types.Int]
}

// appendedTo lists what a list term gained at its end.
func appendedTo(was, now *vn.V) ([]*vn.V, bool) {
	was, now = vn.Strip(was), vn.Strip(now)
	if was == now {
		return nil, true
	}
	switch now.Op {
	case "list":
		if was.Op == "nil" || was.Op == "zero" {
			return now.A, true
		}
		if was.Op == "list" && len(was.A) <= len(now.A) {
			for i := range was.A {
				if was.A[i] != now.A[i] {
					return nil, false
				}
			}
			return now.A[len(was.A):], true
		}
	case "append":
		l, ok := appendedTo(was, now.A[0])
		if !ok {
			return nil, false
		}
		y := vn.Strip(now.A[1])
		if y.Op == "nil" {
			return l, true
		}
		if y.Op == "list" {
			return append(append([]*vn.V{}, l...), y.A...), true
		}
	}
	return nil, false
}
