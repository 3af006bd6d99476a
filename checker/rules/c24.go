package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C24", c24) }

// Methods that start a run over an object again.
var reuseEntry = map[string]bool{"Parse": true, "ParseWithOptions": true, "Entries": true, "Reset": true}

func c24(c *core.Ctx) {
	c.Rule = "per parser type: no field is read by a run (Parse, ParseWithOptions, Entries, Reset) before the run has set it if any run of that type may change it; what a run may change is set on every path of the run before it ends; " +
		"Reset sets every field, constants to what the constructors set; a reader kept in a field is positioned before it is read; temporary options are undone on every path"
	c.Assumptions = []string{
		"Fields are told apart by type and name; an object made in the same function is not the one being reused.",
		"The configuration and the logger belong to the user; a run that changes them through the field is reported, except options applied and undone.",
	}
	var types_ []*types.Named
	for _, p := range c.P.SPkgs {
		if !load.IsLib(p.Pkg.Path()) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			if method(c, nt, "Parse") != nil && method(c, nt, "Errors") != nil || method(c, nt, "Reset") != nil && method(c, nt, "Entries") != nil {
				types_ = append(types_, nt)
			}
		}
	}
	sort.Slice(types_, func(i, j int) bool { return types_[i].String() < types_[j].String() })
	for _, t := range types_ {
		c.Count("types of reusable objects", 1)
		r := &reuse{c: c, t: t, st: t.Underlying().(*types.Struct), sum: map[*ssa.Function]*reuseSum{}}
		r.check()
	}
	c.Min("types of reusable objects", 4)
	c.Min("runs", 8)
	c.Min("functions summarised", 20)
	c.Min("fields a run may change", 5)
}

// reuse is the analysis of one object type.
type reuse struct {
	c       *core.Ctx
	t       *types.Named
	st      *types.Struct
	sum     map[*ssa.Function]*reuseSum
	changed bool
}

// reuseSum summarises a function's accesses to the fields of the type.
type reuseSum struct {
	reads  map[int]token.Pos // read before the function set them
	writes map[int]token.Pos // may be written, on an object not made here
	kills  map[int]bool      // set on every path that ends without an error, on the function's receiver
	killsE map[int]bool      // set on every path
}

func (r *reuse) field(i int) string { return r.st.Field(i).Name() }

// isObj: a pointer to (or value of) the type.
func (r *reuse) isObj(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj() == r.t.Obj()
}

// receiver: the function's own object, as the parameter, a captured variable or the cell of either.
func (r *reuse) receiver(f *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return len(f.Params) > 0 && v == f.Params[0]
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return r.receiver(f, v.X, depth+1)
		}
	case *ssa.Alloc:
		// A cell that holds only the parameter.
		n := 0
		for _, u := range *v.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == v {
				if !r.receiver(f, s.Val, depth+1) {
					return false
				}
				n++
			}
		}
		return n > 0
	case *ssa.FreeVar:
		return false
	}
	return false
}

// fresh: an object made by this function (or by a constructor it called).
func (r *reuse) fresh(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		if !r.isObj(v.Type()) {
			n := 0
			for _, u := range *v.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == v {
					if !r.fresh(s.Val, depth+1) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		// A composite literal, not the copy of a parameter.
		for _, u := range *v.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == v {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL && r.fresh(v.X, depth+1)
	case *ssa.Call:
		g := v.Call.StaticCallee()
		return g != nil && load.InRepo(fnPkg(g)) && r.makes(g, depth+1)
	case *ssa.Extract:
		return r.fresh(v.Tuple, depth)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if k, ok := x.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			if !r.fresh(x, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// makes: every object of the type the function returns was made by it.
func (r *reuse) makes(g *ssa.Function, depth int) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, v := range ret.Results {
			if !r.isObj(v.Type()) {
				continue
			}
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			if !r.fresh(v, depth) {
				return false
			}
		}
	}
	return true
}

// through finds the field of a reusable object whose content an address belongs to.
func (r *reuse) through(v ssa.Value, depth int) (int, bool) {
	if depth > 12 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if r.isObj(v.X.Type()) {
			return v.Field, !r.fresh(v.X, 0)
		}
		return r.through(v.X, depth+1)
	case *ssa.Field:
		if r.isObj(v.X.Type()) {
			return v.Field, true
		}
		return r.through(v.X, depth+1)
	case *ssa.IndexAddr:
		return r.through(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return r.through(v.X, depth+1)
		}
	case *ssa.Slice:
		return r.through(v.X, depth+1)
	case *ssa.ChangeType:
		return r.through(v.X, depth+1)
	case *ssa.MakeInterface:
		return r.through(v.X, depth+1)
	case *ssa.Lookup:
		return r.through(v.X, depth+1)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if f, ok := r.through(x, depth+3); ok {
				return f, true
			}
		}
	}
	return 0, false
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	}
	return false
}

// mutators change the elements of what they are given.
func mutator(g *ssa.Function) bool {
	p := fnPkg(g)
	n := g.Name()
	if o := g.Origin(); o != nil {
		n = o.Name()
	}
	switch {
	case p == "sort":
		return !strings.HasPrefix(n, "Search") && !strings.Contains(n, "IsSorted") && !strings.Contains(n, "AreSorted")
	case p == "slices" || strings.HasSuffix(p, "/internal/slices"):
		for _, m := range []string{"Sort", "Delete", "Reverse", "Compact", "Replace", "Insert"} {
			if strings.HasPrefix(n, m) && n != "Sorted" {
				return true
			}
		}
	case p == "maps":
		return n == "Copy" || n == "DeleteFunc"
	}
	return false
}

func (r *reuse) summary(f *ssa.Function) *reuseSum {
	s := r.sum[f]
	if s == nil {
		s = &reuseSum{reads: map[int]token.Pos{}, writes: map[int]token.Pos{}, kills: r.all(), killsE: r.all()}
		r.sum[f] = s
		r.changed = true
	}
	return s
}

func (r *reuse) all() map[int]bool {
	m := map[int]bool{}
	for i := 0; i < r.st.NumFields(); i++ {
		m[i] = true
	}
	return m
}

func cloneSet(m map[int]bool) map[int]bool {
	n := make(map[int]bool, len(m))
	for k := range m {
		n[k] = true
	}
	return n
}

// step computes a function's summary from its callees' current ones.
func (r *reuse) step(f *ssa.Function) {
	s := r.summary(f)
	read := func(i int, k map[int]bool, pos token.Pos) {
		if !k[i] {
			if _, ok := s.reads[i]; !ok {
				s.reads[i] = pos
				r.changed = true
			}
		}
	}
	top := f
	for top.Parent() != nil {
		top = top.Parent()
	}
	write := func(i int, pos token.Pos) {
		if r.field(i) == "Config" && top.Name() == "ParseWithOptions" {
			return // see options
		}
		if _, ok := s.writes[i]; !ok {
			s.writes[i] = pos
			r.changed = true
		}
	}
	// called merges a callee that may run here.
	called := func(g *ssa.Function, k map[int]bool, pos token.Pos, own, fresh bool) {
		if len(g.Blocks) == 0 || !load.InRepo(fnPkg(g)) {
			return
		}
		t := r.summary(g)
		if !fresh {
			for i := range t.reads {
				read(i, k, pos)
			}
			for i := range t.writes {
				write(i, pos)
			}
		}
		if own {
			for i := range t.killsE {
				k[i] = true
			}
		}
	}
	in := make([]map[int]bool, len(f.Blocks))
	out := make([]map[int]bool, len(f.Blocks))
	run := func(b *ssa.BasicBlock, k map[int]bool) {
		for _, ins := range b.Instrs {
			pos := ins.Pos()
			switch ins := ins.(type) {
			case *ssa.UnOp:
				if ins.Op != token.MUL {
					continue
				}
				if fa, ok := ins.X.(*ssa.FieldAddr); ok {
					if i, ok := r.base(fa); ok {
						read(i, k, pos)
					}
				} else if r.isObj(ins.X.Type()) && !isPtrTo(ins.X.Type(), 2) && !r.fresh(ins.X, 0) {
					// The whole object: passed to a method of the value, or copied.
					if !onlyReceiver(ins) {
						for i := 0; i < r.st.NumFields(); i++ {
							read(i, k, pos)
						}
					}
				}
			case *ssa.Field:
				if r.isObj(ins.X.Type()) {
					read(ins.Field, k, pos)
				}
			case *ssa.FieldAddr:
				// An address that is not only stored to or loaded from.
				if i, ok := r.base(ins); ok {
					for _, u := range *ins.Referrers() {
						switch u := u.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Store:
							if u.Addr != ins {
								read(i, k, pos)
								write(i, pos)
							}
						default:
							if ci, ok := u.(ssa.CallInstruction); ok && r.settings(ci) {
								read(i, k, pos)
								continue
							}
							if a, ok := u.(*ssa.MakeInterface); ok && a.X == ssa.Value(ins) {
								read(i, k, pos)
								continue
							}
							// Configurations are handed to constructors by address.
							if st, ok := ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && st != nil {
								read(i, k, pos)
								continue
							}
							read(i, k, pos)
							write(i, pos)
						}
					}
				}
			case *ssa.Store:
				if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && r.isObj(fa.X.Type()) {
					if r.fresh(fa.X, 0) {
						continue
					}
					write(fa.Field, pos)
					if r.receiver(f, fa.X, 0) {
						k[fa.Field] = true
					}
					continue
				}
				if r.isObj(ins.Addr.Type()) && !isPtrTo(ins.Addr.Type(), 2) {
					if _, ok := ins.Addr.(*ssa.Alloc); ok {
						continue
					}
					for i := 0; i < r.st.NumFields(); i++ {
						write(i, pos)
						if r.receiver(f, ins.Addr, 0) {
							k[i] = true
						}
					}
					continue
				}
				if i, ok := r.through(ins.Addr, 0); ok {
					write(i, pos)
				}
			case *ssa.MapUpdate:
				if i, ok := r.through(ins.Map, 0); ok {
					write(i, pos)
				}
			case *ssa.MakeClosure:
				if g, ok := ins.Fn.(*ssa.Function); ok {
					called(g, k, pos, false, false)
				}
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				if n := b.Name(); (n == "copy" || n == "delete" || n == "clear") && len(com.Args) > 0 {
					if i, ok := r.through(com.Args[0], 0); ok {
						write(i, pos)
					}
				}
				continue
			}
			for _, a := range com.Args {
				if g, ok := a.(*ssa.Function); ok {
					called(g, k, pos, false, false)
				}
			}
			g := com.StaticCallee()
			if g == nil {
				if com.IsInvoke() {
					// Methods of this type reached through an interface.
					if m := method(r.c, r.t, com.Method.Name()); m != nil && types.Implements(types.NewPointer(r.t), com.Value.Type().Underlying().(*types.Interface)) {
						called(m, k, pos, false, false)
					}
				}
				continue
			}
			if mutator(g) && len(com.Args) > 0 && pointerLike(com.Args[0].Type()) {
				if i, ok := r.through(com.Args[0], 0); ok {
					write(i, pos)
				}
			}
			own, fresh := false, false
			if len(com.Args) > 0 && r.isObj(com.Args[0].Type()) {
				own = r.receiver(f, com.Args[0], 0)
				fresh = r.fresh(com.Args[0], 0)
			}
			_, isDefer := ins.(*ssa.Defer)
			called(g, k, pos, own && !isDefer, fresh)
		}
	}
	for i := range f.Blocks {
		in[i], out[i] = r.all(), r.all()
	}
	in[0] = map[int]bool{}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			k := cloneSet(in[b.Index])
			if b.Index != 0 {
				k = r.all()
				for _, p := range b.Preds {
					for i := range k {
						if !out[p.Index][i] {
							delete(k, i)
						}
					}
				}
				if len(b.Preds) == 0 {
					k = r.all() // the recover block
				}
			}
			in[b.Index] = cloneSet(k)
			for _, ins := range b.Instrs {
				r.kill(f, ins, k)
			}
			if len(k) != len(out[b.Index]) {
				out[b.Index] = k
				again = true
			}
		}
	}
	for _, b := range f.Blocks {
		run(b, cloneSet(in[b.Index]))
	}
	kills, killsE := r.all(), r.all()
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover {
			continue
		}
		bad := errReturn(ret)
		for i := range r.all() {
			if !out[b.Index][i] {
				delete(killsE, i)
				if !bad {
					delete(kills, i)
				}
			}
		}
	}
	if len(kills) != len(s.kills) || len(killsE) != len(s.killsE) {
		s.kills, s.killsE = kills, killsE
		r.changed = true
	}
}

// globals: a run leaves nothing in package variables either.
func (r *reuse) globals() {
	c := r.c
	var root func(v ssa.Value, depth int) *ssa.Global
	root = func(v ssa.Value, depth int) *ssa.Global {
		if depth > 12 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Global:
			return v
		case *ssa.FieldAddr:
			return root(v.X, depth+1)
		case *ssa.IndexAddr:
			return root(v.X, depth+1)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				return root(v.X, depth+1)
			}
		case *ssa.Slice:
			return root(v.X, depth+1)
		case *ssa.Lookup:
			return root(v.X, depth+1)
		}
		return nil
	}
	for f := range r.sum {
		bad := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				switch in := in.(type) {
				case *ssa.Store:
					g = root(in.Addr, 0)
				case *ssa.MapUpdate:
					g = root(in.Map, 0)
				}
				if g != nil && load.InRepo(g.Pkg.Pkg.Path()) {
					c.Fail("kept in a package variable", fnName(f)+": "+g.Name(), c.P.Fset.Position(in.Pos()).String(), fmt.Sprintf("a run of %s leaves something in the package variable %s, which later runs share", r.t.Obj().Name(), g.Name()))
					bad = g.Name()
				}
			}
		}
		if bad == "" {
			c.OK("no package variable written", fnName(f))
		}
	}
}

// kill is the effect of one instruction on what has been set.
func (r *reuse) kill(f *ssa.Function, ins ssa.Instruction, k map[int]bool) {
	switch ins := ins.(type) {
	case *ssa.Store:
		if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && r.isObj(fa.X.Type()) && r.receiver(f, fa.X, 0) {
			k[fa.Field] = true
		} else if r.isObj(ins.Addr.Type()) && !isPtrTo(ins.Addr.Type(), 2) && r.receiver(f, ins.Addr, 0) {
			if _, ok := ins.Addr.(*ssa.Alloc); !ok {
				for i := 0; i < r.st.NumFields(); i++ {
					k[i] = true
				}
			}
		}
	case *ssa.Call:
		g := ins.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || !load.InRepo(fnPkg(g)) || len(ins.Call.Args) == 0 || !r.isObj(ins.Call.Args[0].Type()) {
			return
		}
		if _, ok := ins.Call.Args[0].Type().Underlying().(*types.Pointer); ok && r.receiver(f, ins.Call.Args[0], 0) {
			for i := range r.summary(g).killsE {
				k[i] = true
			}
		}
	}
}

// base is the field of a reusable object an address lies in, and whether the object is not one made here.
func (r *reuse) base(fa *ssa.FieldAddr) (int, bool) {
	for {
		if r.isObj(fa.X.Type()) {
			return fa.Field, !r.fresh(fa.X, 0)
		}
		x, ok := fa.X.(*ssa.FieldAddr)
		if !ok {
			return 0, false
		}
		fa = x
	}
}

func isPtrTo(t types.Type, n int) bool {
	for i := 0; i < n; i++ {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		t = p.Elem()
	}
	return true
}

// onlyReceiver: a loaded object that is only the receiver of calls.
func onlyReceiver(v *ssa.UnOp) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef, *ssa.Field, *ssa.FieldAddr, *ssa.UnOp:
			if fa, ok := u.(*ssa.Field); ok && fa.X != v {
				return false
			}
		case ssa.CallInstruction:
			if u.Common().StaticCallee() == nil || len(u.Common().Args) == 0 || u.Common().Args[0] != ssa.Value(v) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// errReturn: the returned error is known not to be nil.
func errReturn(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	v := ret.Results[len(ret.Results)-1]
	if !isError(v.Type()) {
		return false
	}
	for b := ret.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := i.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v && cmp.Y != v {
			continue
		}
		if cmp.Op == token.NEQ && d.Succs[0] == b && len(b.Preds) == 1 || cmp.Op == token.EQL && d.Succs[1] == b && len(b.Preds) == 1 {
			return true
		}
	}
	if call, ok := v.(*ssa.Call); ok {
		if g := call.Call.StaticCallee(); g != nil {
			n := funcName(g)
			return n == "fmt.Errorf" || n == "errors.New"
		}
	}
	return false
}

// settings: the options of a run, applied to its configuration or undone.
func (r *reuse) settings(ci ssa.CallInstruction) bool {
	g := ci.Common().StaticCallee()
	return g != nil && (g.Name() == "ApplyOptions" || g.Name() == "RestoreLastCfg")
}

func (r *reuse) check() {
	c := r.c
	name := shortPkg(r.t.Obj().Pkg().Path()) + "." + r.t.Obj().Name()
	var entries []*ssa.Function
	for m := range reuseEntry {
		if f := method(c, r.t, m); f != nil {
			entries = append(entries, f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].Name() < entries[j].Name() })
	for _, f := range entries {
		r.summary(f)
	}
	for i := 0; ; i++ {
		r.changed = false
		var fs []*ssa.Function
		for f := range r.sum {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			r.step(f)
		}
		if !r.changed {
			break
		}
		if i > 100 {
			c.Fail("undecided", name, "", "the summaries do not settle")
			return
		}
	}
	c.Count("functions summarised", len(r.sum))
	r.globals()
	// Reset leaves every field set, so its own writes are no left-overs.
	may, all := map[int]string{}, map[int]bool{}
	for _, f := range entries {
		for i, p := range r.sum[f].writes {
			all[i] = true
			if may[i] == "" && f.Name() != "Reset" {
				may[i] = fmt.Sprintf("%s (%s)", fnName(f), c.P.Pos(p))
			}
		}
	}
	c.Count("fields a run may change", len(all))
	for _, f := range entries {
		c.Count("runs", 1)
		s := r.sum[f]
		for i := 0; i < r.st.NumFields(); i++ {
			if named(r.st.Field(i).Type()) == "sync.Mutex" {
				continue
			}
			w, changed := may[i]
			if f.Name() == "Reset" && all[i] {
				changed = true
			}
			p, read := s.reads[i]
			if changed {
				c.Check(!read, "read before set", fnName(f)+": "+r.field(i), c.P.Pos(p), fmt.Sprintf("%s reads the field %s that an earlier run may have changed, before it is set again (%s)", fnName(f), r.field(i), w))
			} else {
				c.OK("not changed by a run", fnName(f)+": "+r.field(i))
			}
			_, own := s.writes[i]
			if f.Name() == "Reset" {
				c.Check(s.kills[i], "reset", fnName(f)+": "+r.field(i), c.P.Pos(f.Pos()), fmt.Sprintf("%s can succeed without having set the field %s", fnName(f), r.field(i)))
			} else if own {
				c.Check(s.killsE[i], "set by every run", fnName(f)+": "+r.field(i), c.P.Pos(s.writes[i]), fmt.Sprintf("%s may change the field %s, but there is a path on which it keeps what an earlier run left", fnName(f), r.field(i)))
			}
		}
		if f.Name() == "Reset" {
			r.constants(f)
		} else {
			r.readers(f)
		}
		if f.Name() == "ParseWithOptions" {
			r.options(f)
		}
	}
}

// constants: what Reset first stores as a constant is what the constructors store.
func (r *reuse) constants(reset *ssa.Function) {
	c := r.c
	want := map[int]map[string]bool{}
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Signature.Recv() != nil || fnPkg(f) != r.t.Obj().Pkg().Path() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !r.isObj(a.Type()) || !r.fresh(a, 0) {
					continue
				}
				set := map[int]string{}
				for _, u := range *a.Referrers() {
					fa, ok := u.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, w := range *fa.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == fa {
							set[fa.Field] = constText(st.Val)
						}
					}
				}
				for i := 0; i < r.st.NumFields(); i++ {
					t, ok := set[i]
					if !ok {
						t = constText(ssa.NewConst(nil, r.st.Field(i).Type()))
						if v := zeroConst(r.st.Field(i).Type()); v != nil {
							t = v.ExactString()
						}
					}
					if want[i] == nil {
						want[i] = map[string]bool{}
					}
					want[i][t] = true
				}
			}
		}
	}
	if len(want) == 0 {
		c.Fail("undecided", fnName(reset)+": constructors", c.P.Pos(reset.Pos()), "no constructor of the type was found")
		return
	}
	for _, b := range reset.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !r.isObj(fa.X.Type()) || !r.receiver(reset, fa.X, 0) {
				continue
			}
			t := constText(st.Val)
			if t == "" {
				continue
			}
			c.Check(want[fa.Field][t], "reset to the initial value", fnName(reset)+": "+r.field(fa.Field), c.P.Fset.Position(in.Pos()).String(),
				fmt.Sprintf("%s sets %s to %s, no constructor does", fnName(reset), r.field(fa.Field), t))
		}
	}
}

func zeroConst(t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case b.Info()&types.IsString != 0:
			return constant.MakeString("")
		case b.Info()&types.IsNumeric != 0:
			return constant.MakeInt64(0)
		}
	}
	return nil
}

func constText(v ssa.Value) string {
	k, ok := v.(*ssa.Const)
	if !ok {
		return ""
	}
	if k.Value == nil {
		return "nil"
	}
	return k.Value.ExactString()
}

var positioned = map[string]bool{"bytes.Reader": true, "strings.Reader": true, "os.File": true, "io.SectionReader": true}

// readers: a reader kept in a field is positioned before each use.
func (r *reuse) readers(f *ssa.Function) {
	c := r.c
	for i := 0; i < r.st.NumFields(); i++ {
		if !isPtrTo(r.st.Field(i).Type(), 1) {
			continue
		}
		if n := named(r.st.Field(i).Type()); n == "bufio.Reader" || n == "bytes.Buffer" {
			// What was read from these cannot be read again.
		} else if !positioned[n] {
			continue
		}
		var fs []*ssa.Function
		for g := range r.sum {
			fs = append(fs, g)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, g := range fs {
			if !r.reaches(f, g, map[*ssa.Function]bool{}) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						continue
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					if !ok || fa.Field != i || !r.isObj(fa.X.Type()) || r.fresh(fa.X, 0) {
						continue
					}
					c.Count("uses of a kept reader", 1)
					c.Check(r.seeks(g, u, 0), "positioned", fnName(g)+": "+r.field(i), c.P.Fset.Position(in.Pos()).String(),
						fmt.Sprintf("the reader kept in %s is read where the last use left it", r.field(i)))
				}
			}
		}
	}
}

// seeks: every use of the reader comes after its position was set from the start.
func (r *reuse) seeks(g *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	var seek []ssa.Instruction
	whole := func(u ssa.Instruction) bool {
		ci, ok := u.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() == nil {
			return false
		}
		a := ci.Common().Args
		if ci.Common().StaticCallee().Name() != "Seek" || len(a) != 3 || a[0] != v {
			return false
		}
		w, ok := a[2].(*ssa.Const)
		_, offset := a[1].(*ssa.Const)
		return ok && offset && w.Value != nil && w.Int64() == 0
	}
	for _, u := range *v.Referrers() {
		if whole(u) {
			seek = append(seek, u)
		}
	}
	before := func(u ssa.Instruction) bool {
		for _, s := range seek {
			if s.Block() == u.Block() {
				for _, x := range s.Block().Instrs {
					if x == s {
						return true
					}
					if x == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				return true
			}
		}
		return false
	}
	for _, u := range *v.Referrers() {
		if whole(u) || before(u) {
			continue
		}
		switch u := u.(type) {
		case *ssa.DebugRef, *ssa.BinOp:
			continue
		case ssa.CallInstruction:
			h := u.Common().StaticCallee()
			if h == nil {
				return false
			}
			if n := h.Name(); n == "Size" || n == "ReadAt" || n == "Name" || n == "Reset" {
				continue
			}
			if !load.InRepo(fnPkg(h)) && h.Origin() == nil || len(h.Blocks) == 0 {
				return false
			}
			for j, a := range u.Common().Args {
				if a == v && (j >= len(h.Params) || !r.seeks(h, h.Params[j], depth+1)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (r *reuse) reaches(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == g {
		return true
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && r.reaches(m.Fn.(*ssa.Function), g, seen) {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && load.InRepo(fnPkg(h)) && r.reaches(h, g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// options: after a run with temporary options the configuration is what it was.
func (r *reuse) options(f *ssa.Function) {
	c := r.c
	e := newVN(c, load.IsLib)
	var cfg *types.Var
	for i := 0; i < r.st.NumFields(); i++ {
		if r.field(i) == "Config" {
			cfg = r.st.Field(i)
		}
	}
	if cfg == nil {
		return
	}
	args := e.Inputs(f)
	st := e.NewState()
	o := e.Lazy(args[0])
	before := e.Field(e.Content(st, o), "Config", cfg.Type())
	parsed := 0
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Fn != nil && k.Fn.Name() == "Parse" && len(k.Args) > 0 && k.Args[0] == args[0] {
			if !k.Quiet {
				parsed++
			}
			return true, e.Unk("parsed", k.Fn.Signature.Results().At(0).Type())
		}
		return false, nil
	}
	outs := e.Run(f, args, st)
	where := c.P.Pos(f.Pos())
	if e.Err != nil || len(outs) == 0 {
		c.Fail("undecided", fnName(f), where, fmt.Sprint("the interpretation failed: ", e.Err))
		return
	}
	c.Check(parsed > 0, "runs the parser", fnName(f), where, "the run is not the one of Parse")
	for _, out := range outs {
		after := e.Field(e.Content(out.St, o), "Config", cfg.Type())
		s := cfg.Type().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			x, y := e.Field(before, s.Field(i).Name(), s.Field(i).Type()), e.Field(after, s.Field(i).Name(), s.Field(i).Type())
			if s.Field(i).Name() == "lastCfg" {
				continue // only read by RestoreLastCfg, after ApplyOptions set it
			}
			c.Check(x == y, "options undone", fnName(f)+": "+s.Field(i).Name(), where, fmt.Sprintf("after the run the setting %s is %s", s.Field(i).Name(), y))
		}
	}
}
