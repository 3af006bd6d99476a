package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

// Freedom from panics. Every function that can be reached from the entry points of a
// property is interpreted on unknown arguments; at every instruction that can panic, the
// facts of the path must exclude it. Where a function's own facts do not suffice, it is
// interpreted again with the functions whose results matter followed, and, when it is not an
// entry point itself, in its callers' place.

// panicOb is one instruction that can panic, in one interpretation root.
type panicOb struct {
	fn    *ssa.Function
	in    ssa.Instruction
	what  string
	n     int
	bad   int
	term  string
	terms []*vn.V // what could not be bounded, for the first failure
	param bool    // about an argument of the root
}

func (o *panicOb) key() string {
	return fmt.Sprintf("%s\x00%s\x00%d\x00%s", fnName(o.fn), o.what, o.in.Pos(), o.in)
}

type panicRun struct {
	obs     map[string]*panicOb
	visited map[*ssa.Function]bool
	uses    map[*ssa.Function]bool // functions followed or called
	nn      []int8                 // per result: 1 never nil, 2 never nil unless the last result is an error, 0 may be nil
	err     error
	returns int
	joins   int
}

type panicAn struct {
	c        *core.Ctx
	pred     func(string) bool
	reach    map[*ssa.Function]bool
	order    []*ssa.Function
	callers  map[*ssa.Function]map[*ssa.Function]bool
	escapes  map[*ssa.Function]bool // used as values
	entry    map[*ssa.Function]bool
	byName   map[string][]*ssa.Function
	inl      map[*ssa.Function]bool
	maybeNil map[string]bool // of the function being interpreted
	exp      map[*ssa.Function]map[*ssa.Function]bool
	nn       map[*ssa.Function][]int8
	runs     map[*ssa.Function]*panicRun
	fieldNN  map[*types.Var]int8
	stores   map[*types.Var][]*ssa.Store
	mods     map[*ssa.Function]*modSet
	parts    map[*ssa.Function]int       // how many paths are kept apart
	omitted  map[*types.Var][]*ssa.Alloc // constructions that leave a field out
	comment  string                      // the lexer's rule for comments
	methods  map[string][]*ssa.Function
	memory   bool // reserved memory must be bounded, too
}

// indexParam lists entry points whose integer argument must be a valid index: what they do
// with another one is the caller's mistake.
var indexParam = map[string]bool{"(pkg/po.Entries).HeaderFromIndex": true}

func newPanicAn(c *core.Ctx, pred func(string) bool, isEntry func(*ssa.Function) bool) *panicAn {
	a := &panicAn{c: c, pred: pred, reach: map[*ssa.Function]bool{}, callers: map[*ssa.Function]map[*ssa.Function]bool{}, escapes: map[*ssa.Function]bool{},
		entry: map[*ssa.Function]bool{}, byName: map[string][]*ssa.Function{}, inl: map[*ssa.Function]bool{}, exp: map[*ssa.Function]map[*ssa.Function]bool{},
		nn: map[*ssa.Function][]int8{}, runs: map[*ssa.Function]*panicRun{}, fieldNN: map[*types.Var]int8{}, parts: map[*ssa.Function]int{}}
	all := repoFuncs(c, pred)
	methods := map[string][]*ssa.Function{}
	a.methods = methods
	bySig := map[string][]*ssa.Function{}
	for _, f := range all {
		if f.Signature.Recv() != nil {
			methods[f.Name()] = append(methods[f.Name()], f)
		}
		bySig[f.Signature.String()] = append(bySig[f.Signature.String()], f)
	}
	var work []*ssa.Function
	add := func(from, f *ssa.Function) {
		if f == nil {
			return
		}
		if isWrapper(f) && !a.reach[f] {
			// Methods taken as values.
			a.reach[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && pred(fnPkg(g)) {
							a.escapes[g] = true
							work = append(work, g)
						}
					}
				}
			}
			return
		}
		if !pred(fnPkg(f)) || len(f.Blocks) == 0 || isGenericOrigin(f) {
			return
		}
		if from != nil {
			if a.callers[f] == nil {
				a.callers[f] = map[*ssa.Function]bool{}
			}
			a.callers[f][from] = true
		}
		if !a.reach[f] {
			work = append(work, f)
		}
	}
	for _, f := range all {
		if f.Parent() == nil && !isInit(f) && isEntry(f) {
			a.entry[f] = true
			add(nil, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if a.reach[f] {
			continue
		}
		a.reach[f] = true
		a.order = append(a.order, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				called := ssa.Value(nil)
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, m := range methods[cc.Method.Name()] {
							if types.Identical(m.Signature.Params(), cc.Method.Type().(*types.Signature).Params()) {
								add(nil, m)
								a.escapes[m] = true
							}
						}
					} else if g := cc.StaticCallee(); g != nil {
						called = cc.Value
						add(f, g)
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == called {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						if pred(fnPkg(x)) || isWrapper(x) {
							a.escapes[x] = true
							add(nil, x)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(f, mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	sort.Slice(a.order, func(i, j int) bool {
		if x, y := fnName(a.order[i]), fnName(a.order[j]); x != y {
			return x < y
		}
		return a.order[i].Pos() < a.order[j].Pos()
	})
	for _, f := range a.order {
		a.byName[vn.FuncName(f)] = append(a.byName[vn.FuncName(f)], f)
		n := f.Signature.Results().Len()
		a.nn[f] = make([]int8, n)
		for i := range a.nn[f] {
			a.nn[f][i] = 1
		}
	}
	a.fieldStores(all)
	return a
}

func isWrapper(f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper")
}

// fieldStores collects, for fields that hold pointers of types defined in the repository,
// what is stored to them; fields some construction of the struct leaves out are marked.
func (a *panicAn) fieldStores(all []*ssa.Function) {
	a.stores = map[*types.Var][]*ssa.Store{}
	a.omitted = map[*types.Var][]*ssa.Alloc{}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						fl := deref1(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
						a.stores[fl.Origin()] = append(a.stores[fl.Origin()], in)
					}
				case *ssa.Alloc:
					st, ok := deref1(in.Type()).Underlying().(*types.Struct)
					if !ok {
						break
					}
					// A composite literal sets the fields it names right where it is made;
					// a variable that is assigned as a whole takes another's fields.
					set := map[int]bool{}
					whole := false
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.FieldAddr:
							for _, s := range *r.Referrers() {
								if st, ok := s.(*ssa.Store); ok && st.Addr == r {
									set[r.Field] = true
								}
							}
						case *ssa.Store:
							if r.Addr == in {
								whole = true
							}
						}
					}
					if whole {
						break
					}
					for i := 0; i < st.NumFields(); i++ {
						if !set[i] {
							a.omitted[st.Field(i).Origin()] = append(a.omitted[st.Field(i).Origin()], in)
						}
					}
				}
			}
		}
	}
}

// setLater: the functions that leave a field out set it before anybody else sees the struct.
func (a *panicAn) setLater(fl *types.Var) bool {
	for _, al := range a.omitted[fl] {
		if !a.established(al, fl, 0) {
			return false
		}
	}
	return true
}

// established: the new struct is only handed out or used after a method of its own, which
// stores the field on every path, ran on it. A function that is only called may leave that
// to its callers.
func (a *panicAn) established(v ssa.Value, fl *types.Var, depth int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || depth > 4 || v.Referrers() == nil {
		return false
	}
	f := in.Parent()
	var est []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Call:
			g := r.Call.StaticCallee()
			if g != nil && a.pred(fnPkg(g)) && len(r.Call.Args) > 0 && r.Call.Args[0] == v && a.alwaysStores(g, fl) {
				est = append(est, r)
			}
		case *ssa.FieldAddr:
			if deref1(r.X.Type()).Underlying().(*types.Struct).Field(r.Field).Origin() == fl {
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == r {
						est = append(est, s)
					}
				}
			}
		}
	}
	after := func(r ssa.Instruction) bool {
		for _, x := range est {
			if before(x, r) {
				return true
			}
		}
		return false
	}
	for _, r := range *v.Referrers() {
		isEst := false
		for _, x := range est {
			isEst = isEst || x == r
		}
		if isEst || after(r) {
			continue
		}
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if deref1(r.X.Type()).Underlying().(*types.Struct).Field(r.Field).Origin() == fl {
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); !ok || st.Addr != r {
						return false
					}
				}
			}
		case *ssa.DebugRef:
		case *ssa.Return:
			if a.entry[f] || a.escapes[f] || f.Parent() != nil || len(a.callers[f]) == 0 {
				return false
			}
			for k, x := range r.Results {
				if x != v {
					continue
				}
				for g := range a.callers[f] {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							c, ok := in.(*ssa.Call)
							if !ok || c.Call.StaticCallee() != f {
								continue
							}
							var res ssa.Value = c
							if len(r.Results) > 1 {
								res = nil
								for _, x := range *c.Referrers() {
									if ex, ok := x.(*ssa.Extract); ok && ex.Index == k {
										res = ex
									}
								}
							}
							if res != nil && !a.established(res, fl, depth+1) {
								return false
							}
						}
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// before: an instruction always runs before another.
func before(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// alwaysStores: the method stores the field of its receiver before anything reads it or
// gets to see the receiver, whatever way it returns.
func (a *panicAn) alwaysStores(g *ssa.Function, fl *types.Var) bool {
	if len(g.Params) == 0 || len(g.Blocks) == 0 {
		return false
	}
	var sts []ssa.Instruction
	for _, r := range *g.Params[0].Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && deref1(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Origin() == fl {
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
					sts = append(sts, st)
				}
			}
		}
	}
	after := func(r ssa.Instruction) bool {
		for _, x := range sts {
			if before(x, r) {
				return true
			}
		}
		return false
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !after(r) {
			return false
		}
	}
	for _, r := range *g.Params[0].Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); !ok && !after(r) {
				return false
			}
			continue
		}
		if deref1(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Origin() == fl {
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); (!ok || st.Addr != fa) && !after(s) {
					return false
				}
			}
		}
	}
	return true
}

// modSet is what a function, and what it calls, can change in structs.
type modSet struct {
	fields map[*types.Var]bool
	types  map[string]bool
}

func (a *panicAn) modsOf(f *ssa.Function) *modSet {
	if a.mods == nil {
		a.mods = map[*ssa.Function]*modSet{}
	}
	if m := a.mods[f]; m != nil {
		return m
	}
	m := &modSet{map[*types.Var]bool{}, map[string]bool{}}
	a.mods[f] = m
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{f}
	mark := func(v ssa.Value) {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				m.fields[deref1(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Origin()] = true
				return
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					v = x.X
					continue
				}
				return
			default:
				return
			}
		}
	}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[g] {
			continue
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						if a.pred(fnPkg(x)) || isWrapper(x) {
							work = append(work, x)
						}
					case *ssa.FieldAddr:
						switch in := in.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Store:
							if in.Addr != x {
								mark(x)
							}
						case ssa.CallInstruction:
							if h := in.Common().StaticCallee(); h == nil || !a.pred(fnPkg(h)) {
								mark(x)
							}
						default:
							mark(x)
						}
					}
				}
				switch in := in.(type) {
				case *ssa.Store:
					switch in.Addr.(type) {
					case *ssa.Alloc, *ssa.Global:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						mark(in.Addr)
					default:
						m.types[in.Val.Type().String()] = true
					}
				case ssa.CallInstruction:
					if cc := in.Common(); cc.IsInvoke() {
						for _, h := range a.methods[cc.Method.Name()] {
							work = append(work, h)
						}
					}
				}
			}
		}
	}
	return m
}

// unmod: nothing a call can run stores to the field.
func (a *panicAn) unmod(fn *ssa.Function, args []*vn.V, owner types.Type, fl *types.Var) bool {
	if fn == nil || fl.Pkg() == nil || !load.InRepo(fl.Pkg().Path()) {
		return false
	}
	free := func(f *ssa.Function) bool {
		m := a.modsOf(f)
		return !m.fields[fl.Origin()] && !m.types[owner.String()] && !m.types[fl.Type().String()]
	}
	if a.pred(vn.PkgOf(fn)) {
		return free(fn)
	}
	if fl.Exported() {
		return false
	}
	ok := true
	for _, x := range args {
		vn.Walk(x, func(v *vn.V) bool {
			if v.Fn != nil && (a.pred(vn.PkgOf(v.Fn)) || isWrapper(v.Fn)) && !free(v.Fn) {
				ok = false
			}
			if v.Op == "iface" && v.T != nil {
				ms := a.c.P.SSA.MethodSets.MethodSet(v.T)
				for i := 0; i < ms.Len(); i++ {
					if h := a.c.P.SSA.MethodValue(ms.At(i)); h != nil && a.pred(vn.PkgOf(h)) && !free(h) {
						ok = false
					}
				}
			}
			return ok
		})
	}
	return ok
}

func deref1(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldNonNil: every construction of the struct in the repository sets the field, and
// everything stored to it anywhere is a parameter, an address, a constructor's result or
// another such field.
func (a *panicAn) fieldNonNil(fl *types.Var) bool {
	fl = fl.Origin()
	if fl.Pkg() == nil || !load.InRepo(fl.Pkg().Path()) {
		return false
	}
	if v := a.fieldNN[fl]; v != 0 {
		return v > 0
	}
	if len(a.stores[fl]) == 0 || len(a.omitted[fl]) > 0 && !a.setLater(fl) {
		a.fieldNN[fl] = -1
		return false
	}
	a.fieldNN[fl] = 1 // coinductively
	for _, st := range a.stores[fl] {
		if !a.valueNonNil(st.Val, 0) && !guardedNonNil(st.Val, st.Block(), nil) {
			a.fieldNN[fl] = -1
			return false
		}
	}
	return true
}

func (a *panicAn) valueNonNil(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		// Compared with nil: it may be. Anything else is the caller's mistake.
		if v.Parent() != nil && a.maybeNilParams(v.Parent())[v.Name()] {
			return false
		}
		return true
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface, *ssa.Global:
		return true
	case *ssa.Phi:
		for i, e := range v.Edges {
			if a.valueNonNil(e, d+1) {
				continue
			}
			// A parameter that was compared with nil on the way here.
			if !guardedNonNil(e, v.Block().Preds[i], v.Block()) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 && ta.CommaOk {
			// Only where the assertion held; an interface does not hold a nil pointer.
			for _, r := range *v.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Val == v && !guardedOk(ta, st.Block()) {
					return false
				}
			}
			return true
		}
		// A partial tree at least, when the source itself could be read.
		if c, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 {
			if g := c.Call.StaticCallee(); g != nil && vn.FuncName(g) == "go/parser.ParseFile" && len(c.Call.Args) == 4 {
				if mi, ok := c.Call.Args[2].(*ssa.MakeInterface); ok {
					switch mi.X.Type().String() {
					case "*bytes.Reader", "*bytes.Buffer", "*strings.Reader", "string", "[]byte":
						return true
					}
				}
			}
		}
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			if a.pred(fnPkg(g)) {
				r := a.nn[g]
				return len(r) == 1 && r[0] == 1
			}
			return freshExternal(vn.FuncName(g))
		}
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return a.fieldNonNil(deref1(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field))
		}
	case *ssa.ChangeType:
		return a.valueNonNil(v.X, d+1)
	case *ssa.ChangeInterface:
		return a.valueNonNil(v.X, d+1)
	}
	if in, ok := v.(ssa.Instruction); ok {
		_ = in
	}
	return false
}

// guardedOk: a block is only entered where a type assertion held.
func guardedOk(ta *ssa.TypeAssert, b *ssa.BasicBlock) bool {
	for d := 0; d < 20 && len(b.Preds) == 1; d++ {
		p := b.Preds[0]
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] == b && p.Succs[1] != b {
			if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Tuple == ta && ex.Index == 1 {
				return true
			}
		}
		b = p
	}
	return false
}

// guardedNonNil: a block is only entered from another where the value was found not nil.
func guardedNonNil(v ssa.Value, b, to *ssa.BasicBlock) bool {
	for d := 0; b != nil && d < 20; d++ {
		if n := len(b.Instrs); n > 0 && to != nil {
			if iff, ok := b.Instrs[n-1].(*ssa.If); ok {
				if c, ok := iff.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
					k, isK := c.Y.(*ssa.Const)
					if c.X == v && isK && k.IsNil() {
						want := b.Succs[0]
						if c.Op == token.EQL {
							want = b.Succs[1]
						}
						return want == to && b.Succs[0] != b.Succs[1]
					}
				}
			}
		}
		if len(b.Preds) != 1 {
			return false
		}
		to, b = b, b.Preds[0]
	}
	return false
}

// freshExternal lists outside functions whose single result is never nil.
func freshExternal(name string) bool {
	i := strings.LastIndex(name, ".")
	n := name[i+1:]
	if strings.HasPrefix(n, "New") || strings.HasPrefix(n, "Must") {
		return true
	}
	switch name {
	case "log.Default", "github.com/kr/fs.Walk", "reflect.TypeOf", "(reflect.Value).Type", "io.MultiWriter", "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

// engine prepares an interpretation root.
func (a *panicAn) engine(root *ssa.Function, r *panicRun) *vn.Engine {
	e := newVN(a.c, load.InRepo)
	a.maybeNil = a.maybeNilParams(root)
	e.InRepo = func(g *ssa.Function) bool { return a.pred(vn.PkgOf(g)) || followedStd[stdName(g)] }
	e.Linear = true
	e.MaxParts = 4 << a.parts[root]
	e.MaxSteps = 4000000
	if a.comment == "" {
		a.comment = commentRule(e, a.c)
	}
	e.NoInline = func(g *ssa.Function) bool {
		if followedStd[stdName(g)] || isWrapper(g) || a.inl[g] || a.exp[root][g] {
			return false
		}
		for p := g.Parent(); p != nil; p = p.Parent() {
			if p == root || a.inl[p] || a.exp[root][p] {
				return false
			}
		}
		return true
	}
	e.Fork = a.fork(e)
	e.AtomBounds = a.atomBounds(e)
	e.TermFacts = a.termFacts(e)
	e.NonNil = func(st *vn.State, v *vn.V) bool { return a.nonNil(e, st, v) }
	e.Unmod = a.unmod
	e.PureFn = func(name string) bool { return name == tokenString || name == "(regexp.Regexp).MatchString" }
	e.Site = func(fr *vn.Frame, in ssa.Instruction, st *vn.State) {
		r.visited[fr.Fn] = true
		if ci, ok := in.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && a.reach[g] {
				r.uses[g] = true
			}
		}
		ok, what, term, terms := a.panicFree(e, fr, in, st)
		if what == "" {
			return
		}
		if !ok && a.parsedSomething(e, st, terms) {
			ok, what, term, terms = a.panicFree(e, fr, in, st)
		}
		o := &panicOb{fn: fr.Fn, in: in, what: what}
		if x := r.obs[o.key()]; x != nil {
			o = x
		} else {
			r.obs[o.key()] = o
		}
		o.n++
		if !ok {
			o.bad++
			if w := os.Getenv("GTV_WHY"); w != "" && strings.Contains(fnName(root)+" "+fnName(fr.Fn)+" "+what, w) {
				fmt.Println("WHY", fnName(root), fnName(fr.Fn), what, term, len(a.exp[root]))
				for k, b := range st.Cond() {
					fmt.Println("    ", b, cut(k.String(), 300))
				}
			}
			if o.bad == 1 {
				o.term, o.terms = term, append(terms, related(st, terms)...)
			}
		}
	}
	e.OnReturn = func(fr *vn.Frame, st *vn.State, res []*vn.V) {
		if fr.Fn != root || fr.Parent != nil {
			return
		}
		r.returns++
		last := len(res) - 1
		for i, v := range res {
			if a.nonNil(e, st, v) {
				continue
			}
			if i < last && isError(root.Signature.Results().At(last).Type()) && a.nonNil(e, st, res[last]) {
				if r.nn[i] == 1 {
					r.nn[i] = 2
				}
				continue
			}
			r.nn[i] = 0
		}
	}
	return e
}

// commentRule finds the lexer's rule for comments.
func commentRule(e *vn.Engine, c *core.Ctx) string {
	found := "?"
	for _, p := range c.P.SPkgs {
		if !load.InRepo(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			v := e.GlobalVal(g)
			if v == nil || !strings.Contains(v.T.String(), "lexer.StatefulDefinition") {
				continue
			}
			vn.Walk(v, func(x *vn.V) bool {
				if x.Op == "struct" && len(x.A) >= 2 {
					a, ok := x.A[0].StrVal()
					b, ok2 := x.A[1].StrVal()
					if ok && ok2 && a == "Comment" {
						if found != "?" && found != b {
							found = "??"
						} else {
							found = b
						}
					}
				}
				return true
			})
		}
	}
	return found
}

const tokenString = "(github.com/alecthomas/participle/v2/lexer.Token).String"

// parsedSomething adds to a state that a text whose last line does not consist of skipped
// tokens, once parsed as a list of things, gives at least one of them.
func (a *panicAn) parsedSomething(e *vn.Engine, st *vn.State, terms []*vn.V) bool {
	added := false
	for _, t := range terms {
		vn.Walk(t, func(v *vn.V) bool {
			if v.Op != "len" || v.A[0].Op != "field" {
				return true
			}
			f := v.A[0]
			d := f.A[0]
			if d.Op != "deref" && d.Op != "lazy" && len(d.A) != 1 {
				return true
			}
			r := d
			for len(r.A) > 0 && r.Op != "res" && r.Op != "call" {
				r = r.A[0]
			}
			if r.Op != "res" || r.P != "0" || r.A[0].Op != "call" || !strings.HasPrefix(r.A[0].P, participlePkg+"Parser).Parse") {
				return true
			}
			call := r.A[0]
			tt, ok := call.T.(*types.Tuple)
			if !ok || tt.Len() != 2 {
				return true
			}
			errNil := e.Bin(token.EQL, e.ResultOf(call, 1, tt.At(1).Type()), e.Zero(tt.At(1).Type()), types.Typ[types.Bool])
			if b, known := e.Truth(st, errNil); !known || !b {
				return true
			}
			if !onlyListOf(tt.At(0).Type(), f.P) || !a.lastLineCounts(call) {
				return true
			}
			if e.ProveGE(st, v, e.Int(0), 1) {
				return true
			}
			e.Assume(st, e.Bin(token.GEQ, v, e.Int(1), types.Typ[types.Bool]), true)
			added = true
			return true
		})
	}
	return added
}

const participlePkg = "(github.com/alecthomas/participle/v2."

// onlyListOf tells a parsed structure with one grammar rule, a list.
func onlyListOf(t types.Type, field string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	found := false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case f.Name() == field:
			found = regexp.MustCompile(`^@@[*+]$`).MatchString(strings.TrimSpace(st.Tag(i)))
		case f.Name() == "Tokens" || f.Name() == "Pos" || f.Name() == "EndPos":
			if st.Tag(i) != "" {
				return false
			}
		default:
			return false
		}
	}
	return found
}

// lastLineCounts: the text given to a parser ends with a constant text with a line that no
// skipped token takes: skipped tokens cannot hold both a line break and its first letter.
func (a *panicAn) lastLineCounts(call *vn.V) bool {
	text := ""
	for _, x := range call.A {
		for x = vn.Strip(x); x.Op == "append" || x.Op == "cat" || x.Op == "conv"; {
			x = vn.Strip(x.A[len(x.A)-1])
		}
		if s, ok := x.StrVal(); ok && strings.Contains(s, "\n") {
			text = s
		}
	}
	i := regexp.MustCompile(`\n[A-Za-z]`).FindStringIndex(text)
	if i == nil {
		return false
	}
	first := text[i[1]-1 : i[1]]
	// The parser: the rules of its lexer and the names of those skipped.
	rules := map[string]string{}
	var skipped []string
	vn.Walk(call.A[0], func(x *vn.V) bool {
		if x.Op == "struct" && len(x.A) >= 2 {
			n, ok := x.A[0].StrVal()
			p, ok2 := x.A[1].StrVal()
			if ok && ok2 {
				rules[n] = p
			}
		}
		if x.Op == "call" && strings.HasPrefix(x.P, strings.TrimPrefix(participlePkg, "(")+"Elide") {
			vn.Walk(x, func(y *vn.V) bool {
				if n, ok := y.StrVal(); ok {
					skipped = append(skipped, n)
				}
				return true
			})
		}
		return true
	})
	trailing := false
	for _, x := range call.A {
		vn.Walk(x, func(y *vn.V) bool {
			trailing = trailing || y.Op == "call" && strings.Contains(y.P, "participle/v2.AllowTrailing")
			return true
		})
	}
	if len(rules) == 0 || trailing {
		return false
	}
	for _, n := range skipped {
		p, ok := rules[n]
		if !ok {
			return false
		}
		if mayHold(p, '\n') && mayHold(p, rune(first[0])) {
			return false
		}
	}
	return true
}

// mayHold tells whether a text an expression matches can hold a character.
func mayHold(pat string, r rune) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return true
	}
	var in func(re *syntax.Regexp) bool
	in = func(re *syntax.Regexp) bool {
		switch re.Op {
		case syntax.OpAnyChar:
			return true
		case syntax.OpAnyCharNotNL:
			return r != '\n'
		case syntax.OpLiteral:
			for _, x := range re.Rune {
				if x == r || re.Flags&syntax.FoldCase != 0 {
					return true
				}
			}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(re.Rune); i += 2 {
				if re.Rune[i] <= r && r <= re.Rune[i+1] {
					return true
				}
			}
		}
		for _, x := range re.Sub {
			if in(x) {
				return true
			}
		}
		return false
	}
	return in(re)
}

// patternOf is the text of a regular expression whose term is known; quoted parts stand for
// themselves and are replaced by a letter.
func patternOf(v *vn.V) (string, bool) {
	v = vn.Strip(v)
	if v.Op == "call" && len(v.A) == 1 && strings.HasPrefix(v.P, "regexp.MustCompile") {
		v = vn.Strip(v.A[0])
	} else {
		return "", false
	}
	return patternText(v)
}

func patternText(v *vn.V) (string, bool) {
	v = vn.Strip(v)
	if s, ok := v.StrVal(); ok {
		return s, true
	}
	if v.Op == "cat" {
		out := ""
		for _, x := range v.A {
			s, ok := patternText(x)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	}
	if v.Op == "call" && strings.HasPrefix(v.P, "regexp.QuoteMeta") {
		return "x", true
	}
	return "", false
}

// fork tells a search that finds nothing from one that does.
func (a *panicAn) fork(e *vn.Engine) func(*vn.Call) ([]vn.Outcome, bool) {
	return func(k *vn.Call) ([]vn.Outcome, bool) {
		if k.Name != "(regexp.Regexp).FindStringSubmatch" || len(k.Args) != 2 {
			return nil, false
		}
		pat, ok := patternOf(k.Args[0])
		if !ok {
			return nil, false
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			return nil, false
		}
		rt := k.In.Common().Signature().Results().At(0).Type()
		bt := types.Typ[types.Bool]
		match := e.CallTerm("(regexp.Regexp).MatchString", k.Args, bt)
		var ms []*vn.V
		for i := 0; i <= re.NumSubexp(); i++ {
			ms = append(ms, e.Mk("submatch", fmt.Sprint(i), types.Typ[types.String], k.Args...))
		}
		yes := k.St.Clone()
		var outs []vn.Outcome
		always := a.commentText(k.St, k.Args[1]) && a.matchesComments(pat)
		if !always && e.Assume(k.St, match, false) {
			outs = append(outs, vn.Outcome{St: k.St, Res: []*vn.V{e.Zero(rt)}})
		}
		if e.Assume(yes, match, true) {
			outs = append(outs, vn.Outcome{St: yes, Res: []*vn.V{e.Mk("list", "", rt, ms...)}})
		}
		return outs, true
	}
}

// commentText tells the text of a token known to be a comment.
func (a *panicAn) commentText(st *vn.State, s *vn.V) bool {
	s = vn.Strip(s)
	if s.Op != "call" || !strings.HasPrefix(s.P, "(github.com/alecthomas/participle/v2/lexer.Token).String") || len(s.A) == 0 {
		return false
	}
	tok := s.A[0]
	for k, b := range st.Cond() {
		if !b || k.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := k.A[i], k.A[1-i]
			if x.Op != "field" || x.P != "Type" || len(x.A) == 0 {
				continue
			}
			if x.A[0] != tok && vn.Strip(tok) != x.A[0] {
				continue
			}
			is := false
			vn.Walk(y, func(v *vn.V) bool {
				if s, ok := v.StrVal(); ok && s == "Comment" {
					is = true
				}
				return y.Op == "mapget"
			})
			if y.Op == "mapget" && is {
				if s, ok := y.A[len(y.A)-1].StrVal(); ok && s == "Comment" {
					return true
				}
			}
		}
	}
	return false
}

// matchesComments: the expression is found in every text the lexer's rule for comments takes.
func (a *panicAn) matchesComments(pat string) bool {
	re, err := regexp.Compile(a.comment)
	if err != nil || strings.HasPrefix(a.comment, "?") {
		return false
	}
	if re.MatchString("\n") || re.MatchString("#\n") && len(re.FindString("#\n")) > 1 || len(re.FindString("#a\nb")) > 2 {
		return false
	}
	prefix, _ := re.LiteralPrefix()
	all, _ := newNFA(pat).matchesAll(prefix)
	return all
}

func (a *panicAn) atomBounds(e *vn.Engine) func(*vn.V) (int64, int64, bool) {
	return func(v *vn.V) (int64, int64, bool) {
		const big = int64(1) << 47
		if v.Op == "call" && indexCall.MatchString(v.P) {
			return -1, big, true
		}
		if v.Op != "len" {
			return 0, 0, false
		}
		x := vn.Strip(v.A[0])
		if x.Op == "call" {
			switch x.P {
			case "strings.Split", "bytes.Split":
				// With a separator, there is at least one part.
				if sep, ok := textOf(x.A[1]); ok && sep != "" {
					return 1, big, true
				}
			case "strings.SplitN", "bytes.SplitN":
				if sep, ok := textOf(x.A[1]); ok && sep != "" {
					if n, ok := x.A[2].Int64(); ok && n > 0 {
						return 1, n, true
					} else if ok && n < 0 {
						return 1, big, true
					}
				}
			}
		}
		if x.Op == "elem" {
			b := vn.Strip(x.A[0])
			if b.Op == "call" && strings.HasPrefix(b.P, "(regexp.Regexp).FindAllStringSubmatch") {
				if pat, ok := patternOf(b.A[0]); ok {
					if re, err := regexp.Compile(pat); err == nil {
						n := int64(re.NumSubexp() + 1)
						return n, n, true
					}
				}
			}
		}
		return 0, 0, false
	}
}

// textOf is a constant text, or bytes of known values.
func textOf(v *vn.V) (string, bool) {
	v = vn.Strip(v)
	if s, ok := v.StrVal(); ok {
		return s, true
	}
	if v.Op == "list" {
		out := ""
		for _, x := range v.A {
			n, ok := x.Int64()
			if !ok {
				return "", false
			}
			out += string(rune(n))
		}
		return out, true
	}
	return "", false
}

var indexCall = regexp.MustCompile(`^(?:strings|bytes)\.(Last)?Index(Byte|Rune|Any|Func)?(?:@\d+)?$`)

// termFacts: the remainder of a division is less than the divisor.
func (a *panicAn) termFacts(e *vn.Engine) func(*vn.V) []*vn.V {
	return func(v *vn.V) []*vn.V {
		if v.Op == "bin" && v.P == "%" && len(v.A) == 2 && !v.A[1].IsConst() && v.T != nil {
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				// divisor - remainder - 1, which does not wrap
				it := types.Typ[types.Int]
				return []*vn.V{e.Sub(it, e.Sub(it, e.Conv(v.A[1], it), e.Conv(v, it)), e.Int(1))}
			}
		}
		if v.Op == "call" && len(v.A) == 2 {
			if m := indexCall.FindStringSubmatch(v.P); m != nil {
				// A position, or -1, and what was found there fits in.
				it := types.Typ[types.Int]
				gap := int64(1)
				if m[2] == "" {
					if sep, ok := textOf(v.A[1]); !ok || sep == "" {
						gap = 0
					}
				}
				return []*vn.V{e.Add(it, v, e.Int(1)), e.Sub(it, e.Sub(it, e.Len(v.A[0]), v), e.Int(gap))}
			}
		}
		if v.Op == "conv" && v.T != nil && v.A[0].Op == "len" {
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				// A length cut to fewer bits is not more.
				it := types.Typ[types.Int]
				return []*vn.V{e.Sub(it, v.A[0], e.Conv(v, it))}
			}
		}
		return nil
	}
}

// nonNil decides whether a value can be nil in a state.
func (a *panicAn) nonNil(e *vn.Engine, st *vn.State, v *vn.V) bool {
	if v.T == nil {
		return false
	}
	switch v.T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
	default:
		return v.Op == "iface"
	}
	if v.Op == "param" {
		if a.maybeNil[v.P] {
			b, known := e.Truth(st, e.Bin(token.EQL, v, e.Zero(v.T), types.Typ[types.Bool]))
			return known && !b
		}
		b, known := e.Truth(st, e.Bin(token.EQL, v, e.Zero(v.T), types.Typ[types.Bool]))
		return !known || !b
	}
	if b, known := e.Truth(st, e.Bin(token.EQL, v, e.Zero(v.T), types.Typ[types.Bool])); known {
		return !b
	}
	isNil := func(x *vn.V) bool {
		b, known := e.Truth(st, e.Bin(token.EQL, x, e.Zero(x.T), types.Typ[types.Bool]))
		return known && b
	}
	switch v.Op {
	case "conv":
		if len(v.A) == 1 && v.A[0].T != nil {
			return a.nonNil(e, st, v.A[0])
		}
	case "ta":
		if ok, known := e.Truth(st, e.Mk("taok", v.P, types.Typ[types.Bool], v.A...)); known && ok {
			return true // an interface does not hold a nil pointer
		}
	case "mapget":
		// A key that is there, in a map all of whose values are known.
		if has, known := e.Truth(st, e.Mk("maphas", "", types.Typ[types.Bool], v.A...)); !known || !has {
			return false
		}
		for c := v.A[0]; ; c = c.A[0] {
			switch {
			case c.Op == "emptymap":
				return true
			case c.Op != "mapset" || !a.nonNil(e, st, c.A[2]):
				return false
			}
		}
	case "elem":
		return a.elemNonNil(v)
	case "field":
		if st, ok := v.A[0].T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == v.P {
					return a.knownField(v.A[0].T, st.Field(i))
				}
			}
		}
	case "call", "res":
		call, i := v, 0
		if v.Op == "res" {
			call = v.A[0]
			fmt.Sscan(v.P, &i)
		}
		if call.Op != "call" {
			return false
		}
		name := call.P
		if j := strings.LastIndex(name, "@"); j > 0 {
			name = name[:j]
		}
		if fs := a.byName[name]; len(fs) > 0 {
			for _, f := range fs {
				r := a.nn[f]
				if i >= len(r) {
					return false
				}
				if r[i] == 1 {
					continue
				}
				last := len(r) - 1
				if r[i] == 2 && isNil(e.ResultOf(call, last, f.Signature.Results().At(last).Type())) {
					continue
				}
				return false
			}
			return true
		}
		if v.Op == "call" {
			if name == "(github.com/kr/fs.Walker).Stat" {
				// Nothing failed, so the file was looked at.
				for k, b := range st.Cond() {
					if b && k.Op == "isnil" && k.A[0].Op == "call" && strings.HasPrefix(k.A[0].P, "(github.com/kr/fs.Walker).Err") {
						return true
					}
				}
				return false
			}
			return freshExternal(name)
		}
		// A result that comes with an error is there when the error is nil.
		tt, ok := call.T.(*types.Tuple)
		if !ok {
			return false
		}
		if name == "go/parser.ParseFile" && i == 0 && len(call.A) == 4 && vn.Strip(call.A[2]).T != nil {
			// A partial tree at least, when the source itself could be read.
			switch sourceType(call.A[2]) {
			case "*bytes.Reader", "*bytes.Buffer", "*strings.Reader", "string", "[]byte":
				return true
			}
		}
		last := tt.Len() - 1
		return i < last && isError(tt.At(last).Type()) && isNil(e.ResultOf(call, last, tt.At(last).Type()))
	}
	return false
}

func sourceType(v *vn.V) string {
	if v.T == nil {
		return ""
	}
	return v.T.String()
}

// elemNonNil: elements of lists are there; a list with nil in it is the caller's mistake.
func (a *panicAn) elemNonNil(v *vn.V) bool {
	return true
}

// knownField: pointers in other packages' data.
func (a *panicAn) knownField(t types.Type, f *types.Var) bool {
	n := namedPath(t)
	if strings.HasPrefix(n, "go/ast.") {
		// What the parser always fills in.
		return astField[n[len("go/ast."):]+"."+f.Name()]
	}
	return a.fieldNonNil(f)
}

func namedPath(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

var astField = map[string]bool{
	"ImportSpec.Path": true, "SelectorExpr.Sel": true, "SelectorExpr.X": true, "CallExpr.Fun": true,
	"File.Name": true, "FuncDecl.Name": true, "FuncDecl.Type": true,
}

// panicFree decides whether an instruction cannot panic in a state; what names the kind of
// panic, "" when the instruction has none.
func (a *panicAn) panicFree(e *vn.Engine, fr *vn.Frame, in ssa.Instruction, st *vn.State) (ok bool, what, term string, terms []*vn.V) {
	it := types.Typ[types.Int]
	val := func(v ssa.Value) *vn.V { return e.Val(fr, st, v) }
	none := func() (bool, string, string, []*vn.V) { return true, "", "", nil }
	inRange := func(x ssa.Value, i *vn.V) (bool, string, string, []*vn.V) {
		var n *vn.V
		xt := x.Type().Underlying()
		if p, ok := xt.(*types.Pointer); ok {
			xt = p.Elem().Underlying()
		}
		if arr, ok := xt.(*types.Array); ok {
			n = e.Int(arr.Len())
		} else {
			n = e.Len(val(x))
		}
		i = e.Conv(i, it)
		ok := e.ProveGE(st, i, e.Int(0), 0) && e.ProveGE(st, n, i, 1)
		return ok, "index", i.String() + " < " + n.String(), []*vn.V{i, n}
	}
	isNil := func(x ssa.Value) (bool, string, string, []*vn.V) {
		if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fv, ok := ld.X.(*ssa.FreeVar); ok && a.captured(fv) {
				return none()
			}
		}
		switch x.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
			return none()
		}
		v := val(x)
		return a.nonNil(e, st, v), "nil", v.String(), []*vn.V{v}
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			return isNil(in.X)
		}
	case *ssa.FieldAddr:
		return isNil(in.X)
	case *ssa.Store:
		return isNil(in.Addr)
	case ssa.CallInstruction:
		cc := in.Common()
		if n, i := fixedSize(cc); n > 0 {
			x := e.Len(val(cc.Args[i]))
			return e.ProveGE(st, x, e.Int(n), 0), "short buffer", x.String(), []*vn.V{x}
		}
		if cc.IsInvoke() {
			return isNil(cc.Value)
		}
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if bi.Name() == "close" {
				return false, "close", "", nil
			}
			return none()
		}
		g := cc.StaticCallee()
		if g == nil {
			return isNil(cc.Value)
		}
		name := vn.FuncName(g)
		if a.pred(vn.PkgOf(g)) || followedStd[stdName(g)] {
			// Arguments the called function counts on.
			for i, x := range cc.Args {
				if i >= len(g.Params) || !needsNonNil(x.Type()) || nilTolerant(g.Params[i]) {
					continue
				}
				if ok, _, t, ts := isNil(x); !ok {
					return false, "nil argument", g.Params[i].Name() + " of " + name + ": " + t, ts
				}
			}
			return none()
		}
		switch name {
		case "regexp.MustCompile":
			p, ok := patternText(val(cc.Args[0]))
			if ok {
				_, err := regexp.Compile(p)
				ok = err == nil
			}
			return ok, "pattern", val(cc.Args[0]).String(), []*vn.V{val(cc.Args[0])}
		case "strings.NewReplacer":
			n := e.Len(val(cc.Args[0]))
			k, ok := n.Int64()
			return ok && k%2 == 0, "odd argument count", n.String(), []*vn.V{n}
		case "strings.Repeat", "bytes.Repeat":
			n := val(cc.Args[1])
			if !e.ProveGE(st, n, e.Int(0), 0) {
				return false, "negative count", n.String(), []*vn.V{n}
			}
			return a.backed(e, st, n), "negative count", n.String(), []*vn.V{n}
		case "(bytes.Buffer).Grow", "(strings.Builder).Grow", "(bytes.Buffer).Truncate", "slices.Grow":
			n := val(cc.Args[1])
			if !e.ProveGE(st, n, e.Int(0), 0) {
				return false, "negative count", n.String(), []*vn.V{n}
			}
			return a.backed(e, st, n), "negative count", n.String(), []*vn.V{n}
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "(log.Logger).Fatal", "(log.Logger).Fatalf", "(log.Logger).Fatalln", "(log.Logger).Panic", "(log.Logger).Panicf", "(log.Logger).Panicln", "runtime.Goexit":
			return false, "exit", name, nil
		}
		for _, x := range cc.Args {
			if i, ok := x.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				continue
			}
			if needsNonNil(x.Type()) && !isError(x.Type()) {
				if ok, w, t, ts := isNil(x); !ok {
					return false, w, "given to " + name + ": " + t, ts
				}
			}
		}
		if len(cc.Args) > 0 && needsNonNil(cc.Args[0].Type()) {
			return isNil(cc.Args[0])
		}
	case *ssa.IndexAddr:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if ok, w, t, ts := isNil(in.X); !ok {
				return ok, w, t, ts
			}
		}
		return inRange(in.X, val(in.Index))
	case *ssa.Index:
		return inRange(in.X, val(in.Index))
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return none()
		}
		return inRange(in.X, val(in.Index))
	case *ssa.Slice:
		x := val(in.X)
		lo := e.Int(0)
		if in.Low != nil {
			lo = e.Conv(val(in.Low), it)
		}
		var n *vn.V
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if ok, w, t, ts := isNil(in.X); !ok {
				return ok, w, t, ts
			}
			n = e.Int(p.Elem().Underlying().(*types.Array).Len())
		} else {
			n = e.Len(x)
		}
		hi := n
		if in.High != nil {
			hi = e.Conv(val(in.High), it)
		}
		top := hi
		ok := e.ProveGE(st, lo, e.Int(0), 0) && e.ProveGE(st, hi, lo, 0)
		if in.Max != nil {
			top = e.Conv(val(in.Max), it)
			ok = ok && e.ProveGE(st, top, hi, 0)
		}
		ok = ok && (top == n || e.ProveGE(st, n, top, 0))
		return ok, "slice", lo.String() + " : " + hi.String() + " of " + n.String(), []*vn.V{lo, hi, n}
	case *ssa.TypeAssert:
		if in.CommaOk {
			return none()
		}
		return a.assertFits(e, fr, in, st)
	case *ssa.BinOp:
		b, isB := in.X.Type().Underlying().(*types.Basic)
		if !isB || b.Info()&types.IsInteger == 0 {
			return none()
		}
		switch in.Op {
		case token.QUO, token.REM:
			y := val(in.Y)
			ok := e.ProveGE(st, y, e.Zero(y.T), 1) || e.ProveGE(st, e.Zero(y.T), y, 1) || alwaysOdd(in.Y, map[ssa.Value]bool{})
			return ok, "divide", y.String(), []*vn.V{y}
		case token.SHL, token.SHR:
			if b, ok := in.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
				y := val(in.Y)
				return e.ProveGE(st, y, e.Zero(y.T), 0), "shift", y.String(), []*vn.V{y}
			}
		}
	case *ssa.MapUpdate:
		m := val(in.Map)
		return a.nonNil(e, st, m), "nil map", m.String(), []*vn.V{m}
	case *ssa.MakeSlice:
		n, cp := e.Conv(val(in.Len), it), e.Conv(val(in.Cap), it)
		if !e.ProveGE(st, n, e.Int(0), 0) || !e.ProveGE(st, cp, n, 0) || !e.ProveGE(st, e.Int(1<<60), cp, 0) {
			return false, "make", n.String(), []*vn.V{n}
		}
		return a.backed(e, st, cp), "make", n.String(), []*vn.V{n}
	case *ssa.Panic:
		return false, "panic", "", nil
	case *ssa.SliceToArrayPointer:
		return false, "toarray", "", nil
	}
	return none()
}

// fixedSize is how many bytes a number's encoder or decoder counts on in its buffer.
func fixedSize(cc *ssa.CallCommon) (n int64, arg int) {
	var f *types.Func
	if cc.IsInvoke() {
		f = cc.Method
	} else if g := cc.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		f, _ = g.Object().(*types.Func)
		arg = 1
	}
	if f == nil || f.Pkg() == nil || f.Pkg().Path() != "encoding/binary" || len(cc.Args) <= arg {
		return 0, 0
	}
	switch f.Name() {
	case "Uint16", "PutUint16":
		return 2, arg
	case "Uint32", "PutUint32":
		return 4, arg
	case "Uint64", "PutUint64":
		return 8, arg
	}
	return 0, 0
}

// backed tells that an amount of memory is small or at most what some list or text at hand
// holds already.
func (a *panicAn) backed(e *vn.Engine, st *vn.State, n *vn.V) bool {
	const small = 1 << 16
	if !a.memory || e.ProveGE(st, e.Int(small), n, 0) {
		return true
	}
	seen := map[*vn.V]bool{}
	found := false
	try := func(t *vn.V) {
		vn.Walk(t, func(v *vn.V) bool {
			if (v.Op == "len" || v.Op == "cap") && !seen[v] && !found {
				seen[v] = true
				if v == n || e.ProveGE(st, v, n, 0) {
					found = true
				}
			}
			return !found && (v.Op == "add" || v.Op == "lt" || v.Op == "mul" || v.Op == "conv" || v.Op == "bin" || v.Op == "eq")
		})
	}
	try(n)
	for k := range st.Cond() {
		if found {
			break
		}
		try(k)
	}
	return found
}

func needsNonNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// nilTolerant: the function looks whether its argument is nil, or only passes it on.
func nilTolerant(p *ssa.Parameter) bool { return tolerates(p, map[*ssa.Parameter]bool{}) }

// maybeNilParams: parameters a function has to expect nil in, since it compares them with nil
// or since nil is how its users leave the configuration to it.
func (a *panicAn) maybeNilParams(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for i, p := range f.Params {
		if !needsNonNil(p.Type()) || i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if a.entry[f] && strings.HasSuffix(namedPath(deref1(p.Type())), "Config") || comparedToNil(p) {
			out[p.Name()] = true
		}
	}
	return out
}

func comparedToNil(p *ssa.Parameter) bool {
	for _, r := range *p.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					return true
				}
			}
		}
	}
	return false
}

// tolerates: nil is expected in a parameter, here or in what it is handed on to.
func tolerates(p *ssa.Parameter, seen map[*ssa.Parameter]bool) bool {
	if seen[p] {
		return true
	}
	seen[p] = true
	used := false
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.BinOp:
			for _, o := range []ssa.Value{r.X, r.Y} {
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					return true
				}
			}
		case *ssa.DebugRef:
		case *ssa.Call:
			g := r.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 || len(g.Params) != len(r.Call.Args) {
				used = true
				continue
			}
			for i, x := range r.Call.Args {
				if x == p && !tolerates(g.Params[i], seen) {
					used = true
				}
			}
		default:
			used = true
		}
	}
	if _, ok := p.Type().Underlying().(*types.Interface); ok {
		// An interface matters where a method of it is called.
		for _, r := range *p.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Value == p {
				return false
			}
		}
		return true
	}
	return !used
}

// alwaysOdd: built from odd constants by adding even ones.
func alwaysOdd(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	par := func(v ssa.Value, odd bool) bool {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		n, ok := constant.Int64Val(constant.ToInt(k.Value))
		return ok && (n%2 != 0) == odd
	}
	switch v := v.(type) {
	case *ssa.Const:
		return par(v, true)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !alwaysOdd(x, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			return alwaysOdd(v.X, seen) && par(v.Y, false)
		}
	}
	return false
}

// captured: the variable a closure captured only ever holds what is not nil.
func (a *panicAn) captured(fv *ssa.FreeVar) bool {
	f := fv.Parent()
	if f.Parent() == nil {
		return false
	}
	k := -1
	for i, x := range f.FreeVars {
		if x == fv {
			k = i
		}
	}
	found := false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			found = true
			al, ok := mc.Bindings[k].(*ssa.Alloc)
			if !ok {
				if up, ok := mc.Bindings[k].(*ssa.FreeVar); ok && a.captured(up) {
					continue
				}
				return false
			}
			n := 0
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					n++
					if r.Addr != al || !a.valueNonNil(r.Val, 0) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					// Not assigned in the closure.
					for i, y := range r.Bindings {
						if y != al {
							continue
						}
						for _, u := range *r.Fn.(*ssa.Function).FreeVars[i].Referrers() {
							if _, ok := u.(*ssa.UnOp); !ok {
								return false
							}
						}
					}
				default:
					return false
				}
			}
			if n == 0 {
				return false
			}
		}
	}
	return found
}

// assertFits decides a type assertion without a second result.
func (a *panicAn) assertFits(e *vn.Engine, fr *vn.Frame, in *ssa.TypeAssert, st *vn.State) (bool, string, string, []*vn.V) {
	x := e.Val(fr, st, in.X)
	if x.Op == "iface" {
		if i, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			return types.Implements(x.T, i), "assertion", x.String(), []*vn.V{x}
		}
		return types.Identical(x.T, in.AssertedType), "assertion", x.String(), []*vn.V{x}
	}
	// A field that only ever holds one type, and is known not to be nil here.
	if ld, ok := in.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			fl := deref1(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Origin()
			only := !fl.Exported() && len(a.stores[fl]) > 0
			for _, s := range a.stores[fl] {
				mi, ok := s.Val.(*ssa.MakeInterface)
				if k, isK := s.Val.(*ssa.Const); isK && k.IsNil() {
					continue
				}
				if !ok || !types.Identical(mi.X.Type(), in.AssertedType) {
					only = false
				}
			}
			if only && a.nonNil(e, st, x) {
				return true, "assertion", "", nil
			}
		}
	}
	return false, "assertion", x.String(), []*vn.V{x}
}

// related lists the calls the path's facts are about that were given parts of some terms.
func related(st *vn.State, terms []*vn.V) []*vn.V {
	parts := map[*vn.V]bool{}
	any := false // a constant: whatever led here matters
	for _, t := range terms {
		any = any || t.Op == "nil"
		vn.Walk(t, func(v *vn.V) bool {
			if !v.IsConst() {
				parts[v] = true
			}
			return true
		})
	}
	var out []*vn.V
	for k := range st.Cond() {
		vn.Walk(k, func(v *vn.V) bool {
			if any && v.Op == "unk" && strings.HasPrefix(v.P, "after ") {
				out = append(out, v)
			}
			if v.Op == "call" {
				hit := any
				for _, x := range v.A {
					vn.Walk(x, func(y *vn.V) bool {
						hit = hit || parts[y]
						return !hit
					})
				}
				if hit {
					out = append(out, v)
				}
			}
			return true
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// run interprets one root.
func (a *panicAn) run(f *ssa.Function) *panicRun {
	r := &panicRun{obs: map[string]*panicOb{}, visited: map[*ssa.Function]bool{}, uses: map[*ssa.Function]bool{}}
	r.nn = make([]int8, f.Signature.Results().Len())
	for i := range r.nn {
		r.nn[i] = 1
	}
	e := a.engine(f, r)
	if len(f.FreeVars) > 0 {
		var b []*vn.V
		for _, v := range f.FreeVars {
			b = append(b, e.Param("free "+v.Name(), v.Type()))
		}
		e.RunClosure(e.ClosureVal(f, b), e.Inputs(f), e.NewState())
	} else {
		e.Run(f, e.Inputs(f), nil)
	}
	r.err = e.Err
	r.joins = e.Joins
	for g := range r.visited {
		r.uses[g] = true
	}
	return r
}

// calls lists the repository functions a term's value comes from.
func (a *panicAn) results(r *panicRun, ts []*vn.V) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, t := range ts {
		vn.Walk(t, func(v *vn.V) bool {
			name := ""
			switch {
			case v.Op == "call":
				name = v.P
			case v.Op == "unk" && strings.HasPrefix(v.P, "after "):
				name = v.P[len("after "):]
			}
			if name != "" {
				if j := strings.LastIndex(name, "@"); j > 0 {
					for _, f := range a.byName[name[:j]] {
						if r.uses[f] && !seen[f] {
							seen[f] = true
							out = append(out, f)
						}
					}
				}
			}
			return true
		})
	}
	return out
}

// patience limits how long more context is tried for what fails; what does not fail on the
// current tree takes a small part of it.
const patience = 100 * time.Second

// solve interprets every function in the contexts that are needed.
func (a *panicAn) solve() {
	dirty := map[*ssa.Function]bool{}
	for _, f := range a.order {
		dirty[f] = true
	}
	isRoot := func(f *ssa.Function) bool { return f.Parent() == nil && !a.inl[f] }
	debug := os.Getenv("GTV_PANIC") != ""
	start := time.Now()
	for round := 0; round < 60; round++ {
		// Summaries first: what is never nil.
		for {
			var redo []*ssa.Function
			for _, f := range a.order {
				if dirty[f] && (isRoot(f) || a.runs[f] != nil) {
					redo = append(redo, f)
				}
			}
			if len(redo) == 0 {
				break
			}
			dirty = map[*ssa.Function]bool{}
			changed := map[*ssa.Function]bool{}
			for _, f := range redo {
				r := a.run(f)
				a.runs[f] = r
				for i := range r.nn {
					if r.nn[i] != a.nn[f][i] && (r.nn[i] == 0 || a.nn[f][i] == 1) {
						a.nn[f][i] = r.nn[i]
						changed[f] = true
					}
				}
			}
			if len(changed) > 0 {
				// Fields' contents depend on them, too.
				for k, v := range a.fieldNN {
					if v == 1 {
						delete(a.fieldNN, k)
					}
				}
				for _, f := range a.order {
					if r := a.runs[f]; r != nil {
						for g := range changed {
							if r.uses[g] {
								dirty[f] = true
							}
						}
					}
				}
			}
		}
		// Closures nothing followed are interpreted on their own.
		seen := map[*ssa.Function]bool{}
		for f, r := range a.runs {
			if !a.inl[f] {
				for g := range r.visited {
					seen[g] = true
				}
			}
		}
		for _, f := range a.order {
			if !seen[f] && f.Parent() != nil && a.runs[f] == nil {
				dirty[f] = true
				a.runs[f] = &panicRun{}
			}
		}
		if len(dirty) > 0 {
			continue
		}
		if time.Since(start) > patience {
			return
		}
		// What failed asks for more context.
		for _, f := range a.order {
			r := a.runs[f]
			if r == nil || a.inl[f] {
				continue
			}
			for _, o := range sortedObs(r) {
				if o.bad == 0 {
					continue
				}
				follow := func(gs []*ssa.Function) bool {
					more := false
					for _, g := range gs {
						if a.exp[f][g] || a.inl[g] || g == f || g.Parent() != nil {
							continue
						}
						if a.exp[f] == nil {
							a.exp[f] = map[*ssa.Function]bool{}
						}
						a.exp[f][g] = true
						dirty[f] = true
						more = true
						if debug {
							fmt.Println("follow", fnName(g), "in", fnName(f), "for", fnName(o.fn), o.what)
						}
					}
					return more
				}
				if follow(a.results(r, o.terms)) || dirty[f] {
					continue
				}
				if r.joins > 0 && a.parts[f] < 2 {
					a.parts[f]++
					dirty[f] = true
					if debug {
						fmt.Println("apart", fnName(f), "for", fnName(o.fn), o.what, cut(o.term, 100))
					}
					continue
				}
				if a.promotable(f) {
					a.inl[f] = true
					if debug {
						fmt.Println("in place", fnName(f), "for", fnName(o.fn), o.what, cut(o.term, 100))
					}
					for g, r := range a.runs {
						if r.uses[f] && g != f {
							dirty[g] = true
						}
					}
					break
				}
				// What led here was forgotten: look into everything small.
				var small []*ssa.Function
				for _, g := range a.order {
					if r.uses[g] && !r.visited[g] && size(g) < 80 {
						small = append(small, g)
					}
				}
				follow(small)
			}
		}
		if len(dirty) == 0 {
			return
		}
	}
}

func size(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func cut(s string, n int) string {
	if r := []rune(s); len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

// promotable: the function is only ever called, from functions that are analysed, so that
// its callers' facts can be used.
func (a *panicAn) promotable(f *ssa.Function) bool {
	if a.inl[f] || a.escapes[f] || f.Parent() != nil || len(a.callers[f]) == 0 {
		return false
	}
	if a.entry[f] && !indexParam[fnName(f)] {
		return false
	}
	// Not part of a cycle.
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		for h := range a.callers[g] {
			if h == f {
				return false
			}
			if !seen[h] {
				seen[h] = true
				work = append(work, h)
			}
		}
	}
	return true
}

func sortedObs(r *panicRun) []*panicOb {
	var out []*panicOb
	for _, o := range r.obs {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

func init() { register("panics", panicsDebug) }

func panicsDebug(c *core.Ctx) {
	c.Rule = "debug"
	pred := func(p string) bool { return load.InRepo(p) && !strings.Contains(p, "/cli") }
	a := newPanicAn(c, pred, func(f *ssa.Function) bool {
		return token.IsExported(f.Name()) && strings.Contains(fnPkg(f), "/pkg/") && strings.Contains(fnPkg(f), os.Getenv("GTV_PKG"))
	})
	fmt.Println("reach", len(a.order), "comment", a.comment)
	a.solve()
	total, bad := 0, 0
	for _, f := range a.order {
		r := a.runs[f]
		if r == nil || a.inl[f] {
			continue
		}
		if r.err != nil {
			fmt.Println("ERR", fnName(f), r.err)
		}
		for _, o := range sortedObs(r) {
			total++
			if o.bad > 0 {
				bad++
				p := c.P.Fset.Position(o.in.Pos())
				fmt.Printf("%s in %s %s:%d %s %d/%d  %s\n", fnName(f), fnName(o.fn), p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line, o.what, o.bad, o.n, cut(o.term, 160))
			}
		}
	}
	fmt.Println("total", total, "bad", bad)
}
