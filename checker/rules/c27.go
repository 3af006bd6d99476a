package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C27", c27) }

// A scene's catalogues: the identifier of each message, file by file.
var c27Groups = [][][]string{
	{{"a"}},
	{{"a", "b"}},
	{{"a"}, {"a"}},
	{{"a", "a"}},
	{{"a", "b"}, {"b"}},
	{{"a", "b"}, {"b", "a"}},
	{{"a"}, {"b", "a"}, {"a", "c"}},
	{{"a", "b"}, {"a"}, {"b", "a", "b"}},
	{{}, {"a"}, {"a", "a", "a"}},
	{{"a", "b"}, {}, {"b", "b", "c"}, {"a", "b"}},
}

func c27(c *core.Ctx) {
	c.Rule = "the concatenation is interpreted on lists of catalogues with unknown bounds: on every path a message defined n times is in the result, once, exactly if the path knows that n is more than one bound and less than the other; " +
		"and with one part of the definitions unknown at a time, every part of the combined message must be made of the parts of all definitions, unless the path knows that one is empty or the same as another"
	c.Assumptions = []string{"The lists analysed stand for longer ones: up to four catalogues, up to five definitions of a message, up to three elements in a list of a message."}
	var fn *ssa.Function
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Name() == "MsgcatMergeFiles" && f.Signature.Recv() == nil && f.Parent() == nil {
			fn = f
		}
	}
	entry, file, cfg := libType(c, "pkg/po.Entry"), libType(c, "pkg/po.File"), libType(c, "pkg/po.MsgcatMergeConfig")
	if fn == nil || entry == nil || file == nil || cfg == nil {
		c.Fail("undecided", "MsgcatMergeFiles", "-", "the concatenation was not found")
		return
	}
	var with *ssa.Function
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Name() == "MsgcatMergeWithConfig" && f.Parent() == nil {
			with = f
		}
	}
	if with == nil {
		c.Fail("undecided", "MsgcatMergeWithConfig", "-", "the option that sets the bounds was not found")
		return
	}
	// The bounds nothing set: they must keep everything.
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Name() != "DefaultMsgcatMergeConfig" || f.Parent() != nil {
			continue
		}
		e := newVN(c, load.IsLib)
		for _, o := range e.Run(f, []*vn.V{e.Zero(f.Params[0].Type())}, nil) {
			c.Count("default bounds", 1)
			v := e.Snapshot(o.St, o.Res[0])
			less := e.Field(v, "LessThan", namedField(cfg, "LessThan").Type())
			more, mk := constInt(e.Field(v, "MoreThan", namedField(cfg, "MoreThan").Type()))
			c.Check(less.Op == "const" && constant.Compare(constant.ToInt(less.C), token.GEQ, constant.MakeInt64(1<<31-1)) && mk && more == 0, "default bounds", fnName(f), c.P.Pos(f.Pos()), "the bounds that are in force by default leave messages out: "+v.String())
		}
	}
	c.Min("default bounds", 1)
	s := &c27State{c: c, fn: fn, with: with, entry: entry, file: file, cfg: cfg}
	for _, g := range c27Groups {
		s.scene(g, "", nil, 0)
	}
	s.scene([][]string{{"a", "b"}, {"b", "c", "b"}}, "", nil, 2) // no options: everything is kept
	st := entry.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Name() {
		case "ID":
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			for _, sizes := range [][]int{{1, 1}, {0, 1}, {1, 0}, {2, 1}, {1, 2}} {
				s.scene([][]string{{"a"}, {"a"}}, f.Name(), sizes, 1)
			}
			s.scene([][]string{{"a"}, {"a"}, {"a"}}, f.Name(), []int{1, 1, 1}, 1)
		} else {
			s.scene([][]string{{"a"}, {"a"}}, f.Name(), []int{1, 1}, 1)
			s.scene([][]string{{"a"}, {"a"}, {"a"}}, f.Name(), []int{1, 1, 1}, 1)
		}
		s.scene([][]string{{"a"}, {"b"}}, f.Name(), []int{1, 2}, 1)
		c.Count("parts of a message", 1)
	}
	s.tool()
	if len(c.Findings()) > 0 {
		return
	}
	c.Min("bounds set by the tool", 2)
	c.Min("concatenations", 60)
	c.Min("results", 300)
	c.Min("parts of a message", 10)
	c.Min("messages kept", 300)
	c.Min("messages left out", 20)
}

type c27State struct {
	c                *core.Ctx
	fn, with         *ssa.Function
	entry, file, cfg *types.Named
}

// scene interprets one concatenation. mode 0: unknown bounds; 1: bounds that keep everything; 2: no options.
func (s *c27State) scene(groups [][]string, part string, sizes []int, mode int) {
	c := s.c
	if len(c.Findings()) > 0 {
		return // The rest may be hard to analyse, and would say the same.
	}
	name, pos := fnName(s.fn), c.P.Pos(s.fn.Pos())
	e := newVN(c, load.IsLib)
	e.MaxParts = 1 << 14
	e.MaxSteps = 400000
	e.KeepConds = true
	e.SplitMaps = true
	e.KeepCaps = true
	str := &streams{e: e}
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if ok, r := str.hook(k); ok {
			return ok, r
		}
		if k.Fn == nil {
			return false, nil
		}
		switch stdName(k.Fn) {
		case "fmt.Sprintf":
			if l := listOf(e, k.St, k.Args[1]); l != nil && k.Args[0].Op == "const" {
				return true, str.parts(joinParts(formatParts(e, k.St, constant.StringVal(k.Args[0].C), l)))
			}
		case "strings.Join":
			if l := listOf(e, k.St, k.Args[0]); l != nil {
				var ps []*vn.V
				for i, x := range l {
					if i > 0 {
						ps = append(ps, k.Args[1])
					}
					ps = append(ps, x)
				}
				return true, e.Cat(strT(), ps...)
			}
		}
		return false, nil
	}
	e.Fork = func(k *vn.Call) ([]vn.Outcome, bool) { return sorting(e, k) }
	st := e.NewState()
	bt := types.Typ[types.Bool]
	est := s.entry.Underlying().(*types.Struct)
	type def struct {
		id, file string
		parts    []*vn.V // what the unknown part consists of
		val      []*vn.V // the fields
	}
	var defs []def
	var files []*vn.V
	for fi, ids := range groups {
		fname := fmt.Sprintf("file%d", fi)
		var list []*vn.V
		for _, id := range ids {
			n := len(defs)
			d := def{id: id, file: fname}
			for j := 0; j < est.NumFields(); j++ {
				f := est.Field(j)
				v := e.Zero(f.Type())
				switch {
				case f.Name() == "ID":
					v = e.Str(id)
				case f.Name() == part:
					var ps []*vn.V
					if sl, ok := f.Type().Underlying().(*types.Slice); ok {
						var els []*vn.V
						for k := 0; k < sizes[n%len(sizes)]; k++ {
							el, leaf := s.element(e, sl.Elem(), fmt.Sprintf("%d.%s%d", n, f.Name(), k), k)
							els = append(els, el)
							ps = append(ps, leaf...)
						}
						if len(els) > 0 {
							v = e.MutableSlice(st, fmt.Sprintf("%d.%s", n, f.Name()), f.Type(), els)
						}
					} else if f.Name() == "Context" {
						v = e.Str("the context of " + id)
						ps = append(ps, v)
					} else {
						v = e.Param(fmt.Sprintf("%d.%s", n, f.Name()), f.Type())
						ps = append(ps, v)
					}
					d.parts = ps
				}
				d.val = append(d.val, v)
			}
			defs = append(defs, d)
			list = append(list, e.Struct(s.entry, d.val))
		}
		p := e.Param(fname, types.NewPointer(s.file))
		a := e.Addr(e.Lazy(p), p.T)
		fst := s.file.Underlying().(*types.Struct)
		var ff []*vn.V
		for j := 0; j < fst.NumFields(); j++ {
			f := fst.Field(j)
			if f.Name() == "Entries" {
				ff = append(ff, e.MutableSlice(st, fname+".entries", f.Type(), list))
			} else {
				ff = append(ff, e.Param(fname+"."+f.Name(), f.Type()))
			}
		}
		e.Store(st, a, e.Struct(s.file, ff))
		files = append(files, a)
	}
	cst := s.cfg.Underlying().(*types.Struct)
	var cf []*vn.V
	var less, more, first *vn.V
	for j := 0; j < cst.NumFields(); j++ {
		f := cst.Field(j)
		v := e.Param("cfg."+f.Name(), f.Type())
		switch f.Name() {
		case "LessThan":
			if mode == 1 {
				v = e.Conv(e.Int(1000), f.Type())
			}
			less = v
		case "MoreThan":
			if mode == 1 {
				v = e.Conv(e.Int(0), f.Type())
			}
			more = v
		case "UseFirst":
			first = v
		default:
			v = e.Zero(f.Type())
		}
		cf = append(cf, v)
	}
	if less == nil || more == nil || first == nil {
		c.Fail("undecided", name, pos, "the bounds were not found in the configuration")
		return
	}
	optsT := s.fn.Params[1].Type()
	opts := e.Zero(optsT)
	if mode != 2 {
		o := e.Run(s.with, []*vn.V{e.Struct(s.cfg, cf)}, st)
		if e.Err != nil || len(o) != 1 {
			c.Fail("undecided", fnName(s.with), c.P.Pos(s.with.Pos()), fmt.Sprint("could not be analysed: ", e.Err))
			return
		}
		st = o[0].St
		opts = e.MutableSlice(st, "opts", optsT, []*vn.V{o[0].Res[0]})
	}
	outs := e.Run(s.fn, []*vn.V{e.MutableSlice(st, "files", s.fn.Params[0].Type(), files), opts}, st)
	what := fmt.Sprintf("%v", groups)
	if part != "" {
		what += fmt.Sprintf(", %s %v", part, sizes)
	}
	if e.Err != nil || len(outs) == 0 {
		c.Fail("undecided", name, pos, fmt.Sprintf("%s could not be analysed: %v", what, e.Err))
		return
	}
	c.Count("concatenations", 1)
	c.Count("instructions interpreted", e.Steps())
	ids := []string{}
	count := map[string]int{}
	for _, d := range defs {
		if count[d.id] == 0 {
			ids = append(ids, d.id)
		}
		count[d.id]++
	}
	for _, o := range outs {
		c.Count("results", 1)
		res := listOf(e, o.St, o.Res[0])
		if res == nil {
			c.Fail("undecided", name, pos, fmt.Sprintf("%s: the result is not a known list: %s", what, e.Snapshot(o.St, o.Res[0])))
			continue
		}
		kept := map[string]*vn.V{}
		for _, r := range res {
			r = e.Snapshot(o.St, r)
			id := e.Field(r, "ID", types.Typ[types.String])
			t := strings.Trim(id.String(), `"`)
			if count[t] == 0 {
				c.Fail("identifier", name, pos, fmt.Sprintf("%s: the result has a message %s that no catalogue defines", what, id))
				continue
			}
			c.Check(kept[t] == nil, "once", name, pos, fmt.Sprintf("%s: the result has message %s twice", what, t))
			kept[t] = r
		}
		ask := func(v *vn.V) (bool, bool) { return e.Truth(o.St, v) }
		for _, id := range ids {
			n := e.Conv(e.Int(int64(count[id])), less.T)
			gt, lt := e.Bin(token.GTR, n, more, bt), e.Bin(token.LSS, n, less, bt)
			a, ak := ask(gt)
			b, bk := ask(lt)
			r := kept[id]
			if mode == 2 {
				a, ak, b, bk = true, true, true, true
			}
			if r == nil {
				c.Count("messages left out", 1)
				c.Check(ak && !a || bk && !b, "left out", name, pos, fmt.Sprintf("%s: a message defined %d times is left out though that may be more than the more-than and less than the less-than bound", what, count[id]))
				continue
			}
			c.Count("messages kept", 1)
			c.Check(ak && a && bk && b, "kept", name, pos, fmt.Sprintf("%s: a message defined %d times is kept though that may be outside the bounds", what, count[id]))
			if part == "" {
				continue
			}
			var ds []int
			for i, d := range defs {
				if d.id == id {
					ds = append(ds, i)
				}
			}
			uf, ufk := ask(first)
			if len(ds) == 1 || ufk && uf {
				ds = ds[:1]
			}
			f := namedField(s.entry, part)
			got := e.Field(r, part, f.Type())
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				var vs []*vn.V
				for _, i := range ds {
					vs = append(vs, defs[i].parts...)
				}
				c.Check(conjunction(e, o.St, got, vs), "part "+part, name, pos, fmt.Sprintf("%s: %s of the combined message is not that of all its definitions", what, part))
				continue
			}
			var parts [][]*vn.V
			for _, i := range ds {
				parts = append(parts, defs[i].parts)
			}
			s.carries(e, o.St, part, got, parts, what, name, pos)
		}
	}
}

// element makes an element of a list of a message and lists the parts that must be carried over.
func (s *c27State) element(e *vn.Engine, t types.Type, name string, k int) (*vn.V, []*vn.V) {
	n, ok := types.Unalias(t).(*types.Named)
	if ok {
		if st, ok := n.Underlying().(*types.Struct); ok {
			var fs, leaf []*vn.V
			for j := 0; j < st.NumFields(); j++ {
				v := e.Param(name+"."+st.Field(j).Name(), st.Field(j).Type())
				if st.Field(j).Name() == "ID" {
					v = e.Conv(e.Int(int64(k)), st.Field(j).Type())
				} else {
					leaf = append(leaf, v)
				}
				fs = append(fs, v)
			}
			return e.Struct(n, fs), leaf
		}
	}
	v := e.Param(name, t)
	return v, []*vn.V{v}
}

// conjunction: the value is true exactly if all the given ones are.
func conjunction(e *vn.Engine, st *vn.State, got *vn.V, vs []*vn.V) bool {
	for m := 0; m < 1<<len(vs); m++ {
		s := st.Clone()
		ok, want := true, true
		for i, v := range vs {
			b := m>>i&1 != 0
			want = want && b
			ok = ok && e.Assume(s, v, b)
		}
		if !ok {
			continue
		}
		if t, known := e.Truth(s, got); !known || t != want {
			return false
		}
	}
	return true
}

// carries: what is given is found in the result, or is known to be empty or the same as what is.
func (s *c27State) carries(e *vn.Engine, st *vn.State, part string, got *vn.V, parts [][]*vn.V, what, name, pos string) {
	c := s.c
	has := map[*vn.V]bool{}
	var walk func(v *vn.V)
	seen := map[*vn.V]bool{}
	walk = func(v *vn.V) {
		v = e.Snapshot(st, v)
		if seen[v] {
			return
		}
		seen[v] = true
		vn.Walk(v, func(x *vn.V) bool { has[x] = true; return true })
	}
	walk(got)
	bt := types.Typ[types.Bool]
	for i, ps := range parts {
		for _, p := range ps {
			// p and everything known to be the same as it.
			same, ok := []*vn.V{p}, false
			for k := 0; k < len(same) && !ok; k++ {
				q := same[k]
				ok = has[q]
				if isStr(q) && !ok {
					t, known := e.Truth(st, e.Bin(token.EQL, q, e.Str(""), bt))
					ok = known && t
				}
				for v, b := range st.Cond() {
					if !b || len(v.A) != 2 {
						continue
					}
					for n, x := range v.A {
						y := v.A[1-n]
						if x != q || e.Bin(token.EQL, x, y, bt) != v {
							continue
						}
						add := true
						for _, z := range same {
							add = add && z != y
						}
						if add {
							same = append(same, y)
						}
					}
				}
			}
			if !ok && part == "Plural" && i > 0 {
				// A message has one plural identifier: that of the first definition that has one.
				for j := 0; j < i; j++ {
					for _, q := range parts[j] {
						if t, known := e.Truth(st, e.Bin(token.EQL, q, e.Str(""), bt)); has[q] && known && !t {
							ok = true
						}
					}
				}
			}
			c.Check(ok, "part "+part, name, pos, fmt.Sprintf("%s: the combined message does not carry over %s of definition %d", what, part, i+1))
		}
	}
}

// tool: the bounds the concatenation tool passes on are those of its flags, and 2 for unique messages.
func (s *c27State) tool() {
	c := s.c
	var set *ssa.Function
	var cfg *ssa.Global
	flag := map[string]*ssa.Global{}
	for _, f := range repoFuncs(c, load.IsCli) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					a := in.Addr
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
					}
					if g, ok := a.(*ssa.Global); ok && types.Identical(g.Type().Underlying().(*types.Pointer).Elem(), s.cfg) && !isInit(f) {
						cfg, set = g, f
					}
				}
			}
		}
	}
	if set == nil {
		c.Fail("undecided", "msgocat", "-", "the function that sets the bounds was not found")
		return
	}
	for _, f := range repoFuncs(c, load.IsCli) {
		if fnPkg(f) != fnPkg(set) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && flagVar.MatchString(funcName(ci.Common().StaticCallee())) && len(ci.Common().Args) > 2 {
					if g, ok := ci.Common().Args[1].(*ssa.Global); ok {
						flag[constStr(ci.Common().Args[2])] = g
					}
				}
			}
		}
	}
	pos := c.P.Pos(set.Pos())
	e := newVN(c, load.IsLib)
	e.MaxParts = 256
	e.InRepo = func(f *ssa.Function) bool { return load.InRepo(fnPkg(f)) || followedStd[stdName(f)] }
	st := e.NewState()
	val := func(name string) *vn.V {
		if flag[name] == nil {
			return nil
		}
		return e.Content(st, e.GlobalAddr(flag[name]).O)
	}
	less, more, unique, first := val("less-than"), val("more-than"), val("unique"), val("use-first")
	if less == nil || more == nil || unique == nil || first == nil {
		c.Fail("undecided", fnName(set), pos, "the flags of the bounds were not found")
		return
	}
	e.KeepCond = func(v *vn.V) bool {
		found := false
		vn.Walk(v, func(x *vn.V) bool { found = found || x == unique; return !found })
		return found
	}
	for _, o := range e.Run(set, e.Inputs(set), st) {
		if n := len(o.Res); n > 0 && isError(set.Signature.Results().At(n-1).Type()) && vn.Strip(o.Res[n-1]).Op != "nil" {
			continue
		}
		v := e.Snapshot(o.St, e.Content(o.St, e.GlobalAddr(cfg).O))
		get := func(n string) *vn.V { return e.Field(v, n, namedField(s.cfg, n).Type()) }
		u, known := e.Truth(o.St, unique)
		c.Count("bounds set by the tool", 1)
		if k, ok := constInt(get("LessThan")); known && u {
			c.Check(ok && k == 2, "unique", fnName(set), pos, "with --unique the less-than bound is "+get("LessThan").String())
		} else {
			c.Check(known && get("LessThan") == less, "less-than flag", fnName(set), pos, "the less-than bound is "+get("LessThan").String())
		}
		c.Check(get("MoreThan") == more, "more-than flag", fnName(set), pos, "the more-than bound is "+get("MoreThan").String())
		same := get("UseFirst") == first
		if t, ok := e.Truth(o.St, first); ok {
			t2, ok2 := e.Truth(o.St, get("UseFirst"))
			same = same || ok2 && t == t2
		}
		c.Check(same, "use-first flag", fnName(set), pos, "the use-first setting is "+get("UseFirst").String())
	}
	if e.Err != nil {
		c.Fail("undecided", fnName(set), pos, e.Err.Error())
	}
}
