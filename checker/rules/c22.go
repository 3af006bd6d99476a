package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

func init() { register("C22", c22) }

// c22 follows every flag's value from the variable it is parsed into (or the
// flag set's getter) to what it decides, separately for each tool.
func c22(c *core.Ctx) {
	c.Rule = "per tool, a field-sensitive value-flow analysis (points-to cells and value origins together) is run over the functions that can be reached from the command's hooks and body; " +
		"every registered flag's value must be read there and reach a branch, an input/output or other external operation, or a library operation that branches on it or writes it; no two flags share a variable and no flag's variable is overwritten before it is used"
	c.Assumptions = []string{
		"cobra parses flags before it calls Args, PreRun and Run hooks, and stores each value where it was told to.",
		"Decides that the value flows into a decision or an output operation, not what the operation makes of it.",
	}
	fns := repoFuncs(c, func(p string) bool { return load.IsCli(p) || load.IsLib(p) })
	pkgs := map[string][]*ssa.Function{}
	for _, f := range fns {
		if load.IsCli(fnPkg(f)) {
			pkgs[fnPkg(f)] = append(pkgs[fnPkg(f)], f)
		}
	}
	var names []string
	for p := range pkgs {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		flagsOf(c, p, pkgs[p], fns)
	}
	c.Min("flags", 50)
	c.Min("commands", 8)
}

var (
	flagVar  = regexp.MustCompile(`^\(github\.com/spf13/pflag\.FlagSet\)\.([A-Z][A-Za-z0-9]*)Var(P|PF)?$`)
	flagAny  = regexp.MustCompile(`^\(github\.com/spf13/pflag\.FlagSet\)\.Var(P|PF)?$`)
	flagPtr  = regexp.MustCompile(`^\(github\.com/spf13/pflag\.FlagSet\)\.(Bool|String|Int|Uint|Float|Duration|Count|IP|Bytes)[A-Za-z0-9]*$`)
	flagGet  = regexp.MustCompile(`^\(github\.com/spf13/(pflag\.FlagSet|cobra\.Command)\)\.(Get[A-Z][A-Za-z0-9]*|Changed|Lookup|Flag)$`)
	cmdHooks = map[string]bool{"Run": true, "RunE": true, "PreRun": true, "PreRunE": true, "PersistentPreRun": true, "PersistentPreRunE": true,
		"PostRun": true, "PostRunE": true, "PersistentPostRun": true, "PersistentPostRunE": true, "Args": true}
	pureExt   = regexp.MustCompile(`^((strings|bytes|strconv|path|path/filepath|unicode|unicode/utf8|errors|slices|maps|cmp|math|regexp|golang\.org/x/exp/slices|fmt)\.[A-Z].*|\(github\.com/spf13/pflag\..*|github\.com/spf13/cobra\..*|\(github\.com/spf13/cobra\..*|\(error\)\.Error|os\.(ReadFile|ReadDir|Open|Stat|Lstat)|io\.ReadAll|github\.com/kr/fs\..*|\(github\.com/kr/fs\..*|\(iface (io/fs|os)\.(DirEntry|FileInfo)\)\..*|builtin .*)$`)
	printsExt = regexp.MustCompile(`^fmt\.(F?[Pp]rint.*|Fscan.*|Scan.*)$`)
)

type fobj struct {
	glob *ssa.Global
	fn   *ssa.Function
	mc   *ssa.MakeClosure
	x    *fctx // where a closure was made
	flag bool  // what StringP and the like return
	desc string
}

// A felem is an address, a function, a string constant or a flag's value.
type felem struct {
	obj  *fobj
	path string
	flag string
	str  string
	isS  bool
}

type flow struct {
	c       *core.Ctx
	cells   map[any]map[string]map[felem]bool
	globs   map[*ssa.Global]*fobj
	funcs   map[*ssa.Function]*fobj
	sites   map[fsite]*fobj
	methods map[string][]*ssa.Function
	run     map[*ssa.Function]bool // reachable after parsing
	early   map[*ssa.Function]bool // reachable before the body (initialisation, checks of the arguments, preparation)
	late    map[*ssa.Function]bool // reachable from the body
	order   []*fctx
	seen    map[fctx]*fctx
	ids     map[ssa.CallInstruction]int
	places  map[felem]string // where a flag's value is put
	effects map[string]string
	loads   map[string]bool
	changed bool
	byName  map[string]string // flag name → id
}

type flagReg struct {
	id, name, pos string
	place         []felem
}

func flagsOf(c *core.Ctx, pkg string, fns, all []*ssa.Function) {
	fl := &flow{c: c, cells: map[any]map[string]map[felem]bool{}, globs: map[*ssa.Global]*fobj{}, funcs: map[*ssa.Function]*fobj{}, sites: map[fsite]*fobj{},
		methods: map[string][]*ssa.Function{}, run: map[*ssa.Function]bool{}, early: map[*ssa.Function]bool{}, late: map[*ssa.Function]bool{}, seen: map[fctx]*fctx{}, ids: map[ssa.CallInstruction]int{}, places: map[felem]string{}, effects: map[string]string{}, loads: map[string]bool{}, byName: map[string]string{}}
	for _, f := range all {
		if f.Signature.Recv() != nil && len(f.Blocks) > 0 {
			fl.methods[f.Name()] = append(fl.methods[f.Name()], f)
		}
	}
	// Initialisation of the tool and of the library: no flag has a value yet.
	for _, f := range all {
		if isInit(f) && f.Parent() == nil && (fnPkg(f) == pkg || load.IsLib(fnPkg(f))) {
			fl.visit(f, "", false)
			fl.mark(fl.early, f)
		}
	}
	regs := map[string]*flagReg{}
	var ids []string
	for round := 0; round < 60; round++ {
		fl.changed = false
		for i := 0; i < len(fl.order); i++ {
			x := fl.order[i]
			f := x.f
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fl.instr(x, in)
					if fnPkg(f) != pkg {
						continue
					}
					// Hooks of the tool's commands.
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && named(fa.X.Type()) == "github.com/spf13/cobra.Command" && cmdHooks[fieldName(fa.X.Type(), fa.Field)] {
							for e := range fl.get(x.v(st.Val), "") {
								if e.obj != nil && e.obj.fn != nil {
									if y := fl.visit(e.obj.fn, "", true); y != nil {
										if n := fieldName(fa.X.Type(), fa.Field); n == "Run" || n == "RunE" || strings.Contains(n, "Post") {
											fl.mark(fl.late, e.obj.fn)
										} else {
											fl.mark(fl.early, e.obj.fn)
										}
										fl.bind(y, e.obj)
									}
								}
							}
						}
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() == nil {
						continue
					}
					n := funcName(ci.Common().StaticCallee())
					args := ci.Common().Args
					pos := c.P.Fset.Position(in.Pos()).String()
					switch {
					case (flagVar.MatchString(n) || flagAny.MatchString(n)) && len(args) > 2:
						name := constStr(args[2])
						for e := range fl.get(x.v(args[1]), "") {
							if e.obj == nil || e.obj.fn != nil {
								continue
							}
							id := name
							if id == "" {
								id = "variable " + e.obj.desc + e.path
							}
							if r := regs[id]; r == nil {
								regs[id] = &flagReg{id: id, name: name, pos: pos, place: []felem{e}}
								ids = append(ids, id)
								fl.changed = true
							} else if !hasElem(r.place, e) {
								r.place = append(r.place, e)
								fl.changed = true
							}
							if old := fl.places[e]; old == "" {
								fl.places[e] = id
								fl.changed = true
							} else if old != id {
								c.Fail("own variable", shortPkg(pkg)+" --"+id, pos, fmt.Sprintf("the flags --%s and --%s are parsed into the same variable %s%s", old, id, e.obj.desc, e.path))
							}
							fl.byName[name] = id
						}
					case flagPtr.MatchString(n) && len(args) > 1 && !strings.Contains(n, "Var"):
						name := constStr(args[1])
						id := name
						if id == "" {
							id = "flag at " + fnName(f)
						}
						if regs[id] == nil {
							o := fl.site(x, in, "flag")
							o.flag = true
							e := felem{obj: o}
							regs[id] = &flagReg{id: id, name: name, pos: pos, place: []felem{e}}
							ids = append(ids, id)
							fl.places[e] = id
							fl.byName[name] = id
							fl.changed = true
						}
						if v := ci.Value(); v != nil {
							fl.add(x.v(v), "", felem{obj: fl.site(x, in, "flag")})
						}
					}
				}
			}
		}
		if !fl.changed {
			break
		}
	}
	if len(ids) == 0 {
		return
	}
	nrun := 0
	for range fl.run {
		nrun++
	}
	c.Count("functions reached from the tools' commands", nrun)
	sort.Strings(ids)
	for _, id := range ids {
		c.Count("flags", 1)
		r := regs[id]
		what := shortPkg(pkg) + " --" + id
		switch {
		case fl.effects[id] != "":
			c.OK("effective", what+": "+fl.effects[id])
		case fl.loads[id]:
			c.Fail("effective", what, r.pos, "the value of the flag is read but decides nothing and reaches no operation")
		default:
			c.Fail("effective", what, r.pos, "the value of the flag is not read by anything the command runs after parsing its flags")
		}
	}
	// Overwriting.
	for _, x := range fl.order {
		f := x.f
		if !fl.run[f] || fnPkg(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				for e := range fl.get(x.v(st.Addr), "") {
					id := fl.places[felem{obj: e.obj, path: e.path}]
					if id == "" || e.obj == nil {
						continue
					}
					own := false
					for y := range fl.get(x.v(st.Val), "") {
						if y.flag == id {
							own = true
						}
					}
					if own || !always(b) {
						c.OK("kept", fnName(f)+" updates --"+id)
						continue
					}
					c.Fail("kept", shortPkg(pkg)+" --"+id, c.P.Fset.Position(in.Pos()).String(), fnName(f)+" replaces the value of the flag whatever the user passed")
				}
			}
		}
	}
	fl.sameSettings(pkg, fns, regs)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && named(fa.X.Type()) == "github.com/spf13/cobra.Command" {
						if n := fieldName(fa.X.Type(), fa.Field); n == "RunE" || n == "Run" {
							c.Count("commands", 1)
						}
					}
				}
			}
		}
	}
}

// sameSettings: wherever the tool has a catalogue written, the options it passes carry the same flags.
func (fl *flow) sameSettings(pkg string, fns []*ssa.Function, regs map[string]*flagReg) {
	type sink struct {
		f   *ssa.Function
		in  ssa.CallInstruction
		set map[string]bool
	}
	var sinks []sink
	all := map[string]bool{}
	for _, x := range fl.order {
		f := x.f
		if !fl.run[f] || fnPkg(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				g := ci.Common().StaticCallee()
				if !writesCatalogue.MatchString(baseName(g)) || !strings.HasSuffix(fnPkg(g), "/pkg/po/compile") {
					continue
				}
				s := sink{f, ci, map[string]bool{}}
				for _, a := range ci.Common().Args {
					for id := range fl.captured(x.v(a), a.Type()) {
						s.set[id] = true
						all[id] = true
					}
				}
				sinks = append(sinks, s)
				fl.c.Count("calls that write a catalogue", 1)
			}
		}
	}
	var ids []string
	for id := range all {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, s := range sinks {
		for _, id := range ids {
			callee := baseName(s.in.Common().StaticCallee())
			fl.c.Check(s.set[id], "every output", shortPkg(pkg)+" --"+id+" in "+fnName(s.f)+" -> "+callee, fl.c.P.Fset.Position(s.in.Pos()).String(),
				"the options passed here do not depend on --"+id+", which other outputs of the tool honour")
		}
	}
}

func baseName(g *ssa.Function) string {
	n, _, _ := strings.Cut(g.Name(), "[")
	return n
}

var writesCatalogue = regexp.MustCompile(`^(Po|Mo)?To(Writer|File|String|Bytes)(WithOptions)?$`)

// captured is the flags held by the functions (options) and configurations a value carries.
func (fl *flow) captured(v any, t types.Type) map[string]bool {
	out := map[string]bool{}
	seen := map[felem]bool{}
	var walk func(base any, path string, in bool, d int)
	walk = func(base any, path string, in bool, d int) {
		var es []felem
		for e := range fl.get(base, path) {
			es = append(es, e)
		}
		for q, s := range fl.cells[base] {
			if strings.HasPrefix(q, path+".") {
				for e := range s {
					es = append(es, e)
				}
			}
		}
		for _, e := range es {
			if e.flag != "" && in {
				out[e.flag] = true
			}
			if e.obj == nil || seen[e] || d == 0 {
				continue
			}
			if e.obj.mc != nil {
				seen[e] = true
				for _, b := range e.obj.mc.Bindings {
					walk(e.obj.x.v(b), "", true, d-1)
				}
			} else if e.obj.fn == nil {
				seen[e] = true
				if s, ok := e.obj.glob, e.obj.glob != nil; ok && s != nil && in {
					for pl, id := range fl.places {
						if pl.obj == e.obj {
							out[id] = true
						}
					}
				}
				walk(e.obj, e.path, in, d-1)
			}
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	walk(v, "", strings.HasSuffix(named(t), "Config"), 6)
	return out
}

func hasElem(l []felem, e felem) bool {
	for _, x := range l {
		if x == e {
			return true
		}
	}
	return false
}

// always: every way out of the function passes this block.
func always(b *ssa.BasicBlock) bool {
	for _, x := range b.Parent().Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
			return false
		}
	}
	return true
}

func shortPkg(p string) string {
	return strings.TrimPrefix(p, load.CliPath+"/")
}

func emptyConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
}

func constStr(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

func (fl *flow) visit(f *ssa.Function, chain string, run bool) *fctx {
	if f == nil || len(f.Blocks) == 0 || !load.InRepo(fnPkg(f)) && f.Synthetic == "" {
		return nil
	}
	k := fctx{f, chain}
	x := fl.seen[k]
	if x == nil {
		x = &k
		fl.seen[k] = x
		fl.order = append(fl.order, x)
		fl.changed = true
	}
	if run && !fl.run[f] {
		fl.run[f] = true
		fl.changed = true
	}
	return x
}

func (fl *flow) global(g *ssa.Global) *fobj {
	o := fl.globs[g]
	if o == nil {
		o = &fobj{glob: g, desc: g.Name()}
		fl.globs[g] = o
	}
	return o
}

func (fl *flow) function(f *ssa.Function) *fobj {
	o := fl.funcs[f]
	if o == nil {
		o = &fobj{fn: f, desc: f.Name()}
		fl.funcs[f] = o
	}
	return o
}

type fsite struct {
	x  *fctx
	in ssa.Instruction
}

func (fl *flow) site(x *fctx, in ssa.Instruction, desc string) *fobj {
	k := fsite{x, in}
	o := fl.sites[k]
	if o == nil {
		o = &fobj{desc: desc}
		fl.sites[k] = o
	}
	return o
}

const flowDepth = 6

func join(p, q string) string {
	r := p + q
	if strings.Count(r, ".") <= flowDepth {
		return r
	}
	n := 0
	for i := range r {
		if r[i] == '.' {
			if n == flowDepth {
				return r[:i]
			}
			n++
		}
	}
	return r
}

// get is what base holds at path, what holds for the whole of it included.
func (fl *flow) get(base any, path string) map[felem]bool {
	switch v := base.(type) {
	case *ssa.Global:
		return map[felem]bool{{obj: fl.global(v)}: true}
	case *ssa.Function:
		return map[felem]bool{{obj: fl.function(v)}: true}
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return map[felem]bool{{str: constant.StringVal(v.Value), isS: true}: true}
		}
		return nil
	}
	m := fl.cells[base]
	if m == nil {
		return nil
	}
	out := map[felem]bool{}
	for e := range m[path] {
		out[e] = true
	}
	// A flag that decides the whole decides its parts.
	for q := path; q != ""; {
		i := strings.LastIndexByte(q, '.')
		if i < 0 {
			break
		}
		q = q[:i]
		for e := range m[q] {
			if e.flag != "" {
				out[e] = true
			}
		}
	}
	return out
}

func (fl *flow) add(base any, path string, e felem) {
	m := fl.cells[base]
	if m == nil {
		m = map[string]map[felem]bool{}
		fl.cells[base] = m
	}
	s := m[path]
	if s == nil {
		s = map[felem]bool{}
		m[path] = s
	}
	if !s[e] {
		s[e] = true
		fl.changed = true
	}
}

// copy puts everything src holds below sp below dp of dst.
func (fl *flow) copy(dst any, dp string, src any, sp string) {
	for e := range fl.get(src, sp) {
		fl.add(dst, dp, e)
	}
	switch src.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const:
		return
	}
	type item struct {
		path string
		e    felem
	}
	var l []item
	for q, s := range fl.cells[src] {
		if strings.HasPrefix(q, sp+".") {
			for e := range s {
				l = append(l, item{q[len(sp):], e})
			}
		}
	}
	for _, i := range l {
		fl.add(dst, join(dp, i.path), i.e)
	}
}

// load copies what the addresses in addr point to.
func (fl *flow) load(f *ssa.Function, dst any, dp string, addr map[felem]bool, sub string) {
	for a := range addr {
		if a.obj == nil || a.obj.fn != nil {
			continue
		}
		p := join(a.path, sub)
		fl.copy(dst, dp, a.obj, p)
		if fl.late[f] {
			fl.copy(dst, dp, lateCell{a.obj}, p)
		}
		if fl.run[f] {
			for pl, id := range fl.places {
				if pl.obj != a.obj {
					continue
				}
				if pl.path == p || strings.HasPrefix(p, pl.path+".") {
					fl.add(dst, dp, felem{flag: id})
				} else if strings.HasPrefix(pl.path, p+".") {
					fl.add(dst, join(dp, pl.path[len(p):]), felem{flag: id})
				} else {
					continue
				}
				fl.loads[id] = true
			}
		}
	}
}

// lateCell is what a package variable holds once the command's body changed it; nothing that runs before can see it.
type lateCell struct{ o *fobj }

func (fl *flow) store(f *ssa.Function, addr map[felem]bool, sub string, src any, sp string) {
	for a := range addr {
		if a.obj != nil && a.obj.fn == nil {
			if a.obj.glob != nil && !fl.early[f] {
				fl.copy(lateCell{a.obj}, join(a.path, sub), src, sp)
				continue
			}
			fl.copy(a.obj, join(a.path, sub), src, sp)
		}
	}
}

// flagsIn is every flag a value holds, through its parts and what it points to.
func (fl *flow) flagsIn(v any, depth int) map[string]bool {
	out := map[string]bool{}
	seen := map[felem]bool{}
	var walk func(base any, path string, d int)
	walk = func(base any, path string, d int) {
		var es []felem
		for e := range fl.get(base, path) {
			es = append(es, e)
		}
		for q, s := range fl.cells[base] {
			if strings.HasPrefix(q, path+".") {
				for e := range s {
					es = append(es, e)
				}
			}
		}
		for _, e := range es {
			if e.flag != "" {
				out[e.flag] = true
			}
			if e.obj != nil && e.obj.fn == nil && d > 0 && !seen[e] {
				seen[e] = true
				walk(e.obj, e.path, d-1)
			}
		}
	}
	walk(v, "", depth)
	return out
}

func (fl *flow) effect(f *ssa.Function, in ssa.Instruction, flags map[string]bool, what string) {
	for id := range flags {
		if fl.effects[id] == "" {
			fl.effects[id] = what + " in " + fnName(f) + " at " + fl.c.P.Pos(in.Pos())
		}
	}
}

func (fl *flow) origins(x *fctx, dst any, srcs ...ssa.Value) {
	for _, s := range srcs {
		for e := range fl.get(x.v(s), "") {
			if e.flag != "" {
				fl.add(dst, "", e)
			}
		}
	}
}

func fieldPath(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return "." + s.Field(i).Name()
	}
	return fmt.Sprintf(".%d", i)
}

func (fl *flow) instr(x *fctx, in ssa.Instruction) {
	f := x.f
	switch in := in.(type) {
	case *ssa.Alloc:
		o := fl.site(x, in, in.Comment)
		fl.add(x.v(in), "", felem{obj: o})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		fl.add(x.v(in.(ssa.Value)), "", felem{obj: fl.site(x, in, "made")})
	case *ssa.FieldAddr:
		for e := range fl.get(x.v(in.X), "") {
			if e.obj != nil && e.obj.fn == nil {
				fl.add(x.v(in), "", felem{obj: e.obj, path: join(e.path, fieldPath(in.X.Type(), in.Field))})
			}
		}
	case *ssa.Field:
		fl.copy(x.v(in), "", x.v(in.X), fieldPath(in.X.Type(), in.Field))
	case *ssa.IndexAddr:
		for e := range fl.get(x.v(in.X), "") {
			if e.obj != nil && e.obj.fn == nil {
				fl.add(x.v(in), "", felem{obj: e.obj, path: join(e.path, ".[]")})
			}
		}
	case *ssa.Index:
		fl.copy(x.v(in), "", x.v(in.X), ".[]")
		fl.origins(x, x.v(in), in.X, in.Index)
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			dp := ""
			if in.CommaOk {
				dp = ".#0"
			}
			fl.load(f, x.v(in), dp, fl.get(x.v(in.X), ""), ".[]")
			for _, e := range []ssa.Value{in.Index, in.X} {
				for y := range fl.get(x.v(e), "") {
					if y.flag != "" {
						fl.add(x.v(in), dp, y)
						if in.CommaOk {
							fl.add(x.v(in), ".#1", y)
						}
					}
				}
			}
		} else {
			fl.origins(x, x.v(in), in.X, in.Index)
		}
	case *ssa.MapUpdate:
		fl.store(f, fl.get(x.v(in.Map), ""), ".[]", x.v(in.Value), "")
		fl.store(f, fl.get(x.v(in.Map), ""), ".k", x.v(in.Key), "")
	case *ssa.Store:
		fl.store(f, fl.get(x.v(in.Addr), ""), "", x.v(in.Val), "")
	case *ssa.UnOp:
		if in.Op == token.MUL {
			fl.load(f, x.v(in), "", fl.get(x.v(in.X), ""), "")
		} else {
			fl.origins(x, x.v(in), in.X)
		}
	case *ssa.BinOp:
		if (in.Op == token.EQL || in.Op == token.NEQ) && (emptyConst(in.X) || emptyConst(in.Y)) {
			return // whether a text was given is not yet a use of it
		}
		fl.origins(x, x.v(in), in.X, in.Y)
		for _, y := range []ssa.Value{in.X, in.Y} {
			if _, ok := y.Type().Underlying().(*types.Struct); ok {
				for id := range fl.flagsIn(x.v(y), 0) {
					fl.add(x.v(in), "", felem{flag: id})
				}
			}
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			fl.copy(x.v(in), "", x.v(e), "")
		}
	case *ssa.ChangeType:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.Convert:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.MultiConvert:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.ChangeInterface:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.MakeInterface:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.SliceToArrayPointer:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.TypeAssert:
		if in.CommaOk {
			fl.copy(x.v(in), ".#0", x.v(in.X), "")
		} else {
			fl.copy(x.v(in), "", x.v(in.X), "")
		}
	case *ssa.Slice:
		fl.copy(x.v(in), "", x.v(in.X), "")
		for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
			if v != nil {
				fl.origins(x, x.v(in), v)
			}
		}
	case *ssa.Extract:
		fl.copy(x.v(in), "", x.v(in.Tuple), fmt.Sprintf(".#%d", in.Index))
		if _, ok := in.Tuple.(*ssa.Next); !ok {
			fl.origins(x, x.v(in), in.Tuple)
		}
	case *ssa.Range:
		fl.copy(x.v(in), "", x.v(in.X), "")
	case *ssa.Next:
		if r, ok := in.Iter.(*ssa.Range); ok {
			if in.IsString {
				fl.origins(x, x.v(in), r.X)
				for e := range fl.get(x.v(r.X), "") {
					if e.flag != "" {
						fl.add(x.v(in), ".#0", e)
						fl.add(x.v(in), ".#2", e)
					}
				}
			} else {
				fl.load(f, x.v(in), ".#2", fl.get(x.v(r.X), ""), ".[]")
				fl.load(f, x.v(in), ".#1", fl.get(x.v(r.X), ""), ".k")
			}
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		o := fl.sites[fsite{x, in}]
		if o == nil {
			o = &fobj{fn: g, mc: in, x: x, desc: g.Name()}
			fl.sites[fsite{x, in}] = o
		}
		fl.add(x.v(in), "", felem{obj: o})
	case *ssa.Return:
		for i, r := range in.Results {
			p := fmt.Sprintf(".#%d", i)
			if len(in.Results) == 1 {
				p = ""
			}
			fl.copy(retKey{x}, p, x.v(r), "")
		}
	case *ssa.If:
		if fl.run[f] && len(in.Block().Succs) == 2 && in.Block().Succs[0] != in.Block().Succs[1] {
			if !refuses(in.Block().Succs[0]) && !refuses(in.Block().Succs[1]) {
				fl.branch(x, in, fl.flagsIn(x.v(in.Cond), 0))
			}
		}
	case ssa.CallInstruction:
		fl.call(x, in)
	}
}

// branch: what a flag decides.  A branch that only computes passes the flag on to what it computes.
func (fl *flow) branch(x *fctx, in *ssa.If, flags map[string]bool) {
	if len(flags) == 0 {
		return
	}
	b := in.Block()
	region := map[*ssa.BasicBlock]bool{}
	for _, s := range b.Succs {
		if len(s.Preds) != 1 {
			continue
		}
		for _, k := range x.f.Blocks {
			if s.Dominates(k) {
				region[k] = true
			}
		}
	}
	// What follows the branch on both ways is not decided by it: a loop's way out, or code after an early exit's opposite.
	if len(b.Succs[0].Preds) == 1 && len(b.Succs[1].Preds) == 1 {
		for i, s := range b.Succs {
			if loops(b, b.Succs[1-i]) && !loops(b, s) {
				for _, k := range x.f.Blocks {
					if s.Dominates(k) {
						delete(region, k)
					}
				}
			}
		}
	}
	var out []func(felem)
	for k := range region {
		for _, i := range k.Instrs {
			switch i := i.(type) {
			case *ssa.Return, *ssa.Panic, *ssa.RunDefers, *ssa.Send, *ssa.Go, *ssa.Defer:
				fl.effect(x.f, in, flags, "decides a branch")
				return
			case *ssa.Call:
				n := ""
				if bi, ok := i.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() != "append" && bi.Name() != "len" && bi.Name() != "cap" {
						n = "builtin"
					}
				} else if g := i.Call.StaticCallee(); g == nil || load.InRepo(fnPkg(g)) || !pureName(funcName(g)) {
					n = "call"
				}
				if n != "" {
					fl.effect(x.f, in, flags, "decides a branch")
					return
				}
				out = append(out, func(e felem) { fl.add(x.v(i), "", e) })
			case *ssa.Store:
				out = append(out, func(e felem) {
					for a := range fl.get(x.v(i.Addr), "") {
						if a.obj != nil && a.obj.fn == nil {
							if a.obj.glob != nil && !fl.early[x.f] {
								fl.add(lateCell{a.obj}, a.path, e)
							} else {
								fl.add(a.obj, a.path, e)
							}
						}
					}
				})
			case *ssa.MapUpdate:
				out = append(out, func(e felem) {
					for a := range fl.get(x.v(i.Map), "") {
						if a.obj != nil && a.obj.fn == nil {
							fl.add(a.obj, join(a.path, ".[]"), e)
							fl.add(a.obj, join(a.path, ".k"), e)
						}
					}
				})
			}
		}
	}
	joins := map[*ssa.BasicBlock]bool{}
	for k := range region {
		joins[k] = true
		for _, s := range k.Succs {
			joins[s] = true
		}
	}
	for _, s := range b.Succs {
		joins[s] = true
	}
	for k := range joins {
		for _, i := range k.Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				out = append(out, func(e felem) { fl.add(x.v(phi), "", e) })
			}
		}
	}
	for id := range flags {
		for _, f := range out {
			f(felem{flag: id})
		}
	}
}

// loops: from s one comes back to b.
func loops(b, s *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{s}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if k == b {
			return true
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		work = append(work, k.Succs...)
	}
	return false
}

func pureName(n string) bool {
	return pureExt.MatchString(n) && !printsExt.MatchString(n)
}

// refuses: the block does nothing but leave with a new error.
func refuses(b *ssa.BasicBlock) bool {
	for n := 0; n < 4 && len(b.Succs) == 1; n++ {
		b = b.Succs[0]
	}
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) == 0 || !isError(r.Results[len(r.Results)-1].Type()) {
		return false
	}
	v := r.Results[len(r.Results)-1]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// A named result: what was stored last.
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == u.X {
				v = st.Val
			}
		}
	}
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return false
	}
	n := funcName(call.Call.StaticCallee())
	return n == "errors.New" || n == "fmt.Errorf"
}

type retKey struct{ x *fctx }

// A function is looked at once, or per call string when it takes functions, is called through a value or belongs to a tool.
type fctx struct {
	f     *ssa.Function
	chain string
}

type vkey22 struct {
	x *fctx
	v ssa.Value
}

// v is the cell of a value in this context.
func (x *fctx) v(v ssa.Value) any {
	switch v.(type) {
	case *ssa.Global, *ssa.Function, *ssa.Const:
		return v
	}
	return vkey22{x, v}
}

const flowChain = 4

// enter is the context in which g is looked at when called from the instruction.
func (fl *flow) enter(x *fctx, in ssa.CallInstruction, g *ssa.Function, dynamic bool) *fctx {
	if fl.early[x.f] {
		fl.mark(fl.early, g)
	}
	if fl.late[x.f] {
		fl.mark(fl.late, g)
	}
	if !dynamic && !takesFuncs(g) && !load.IsCli(fnPkg(g)) {
		return fl.visit(g, "", fl.run[x.f])
	}
	n := fl.ids[in]
	if n == 0 {
		n = len(fl.ids) + 1
		fl.ids[in] = n
	}
	l := strings.Fields(x.chain)
	l = append(l, fmt.Sprint(n))
	if len(l) > flowChain {
		l = l[len(l)-flowChain:]
	}
	return fl.visit(g, strings.Join(l, " "), fl.run[x.f])
}

func (fl *flow) mark(m map[*ssa.Function]bool, f *ssa.Function) {
	if !m[f] {
		m[f] = true
		fl.changed = true
	}
}

func takesFuncs(g *ssa.Function) bool {
	for _, p := range g.Params {
		t := p.Type().Underlying()
		if s, ok := t.(*types.Slice); ok {
			t = s.Elem().Underlying()
		}
		if _, ok := t.(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (fl *flow) call(x *fctx, in ssa.CallInstruction) {
	f := x.f
	cc := in.Common()
	v := in.Value()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v == nil {
				return
			}
			o := fl.site(x, in, "appended")
			fl.add(x.v(v), "", felem{obj: o})
			for _, a := range cc.Args {
				fl.origins(x, x.v(v), a)
				for e := range fl.get(x.v(a), "") {
					if e.obj != nil && e.obj.fn == nil {
						fl.copy(o, ".[]", e.obj, join(e.path, ".[]"))
						fl.load(f, o, ".[]", map[felem]bool{e: true}, ".[]")
					}
				}
			}
			for e := range fl.get(x.v(cc.Args[0]), "") {
				fl.add(x.v(v), "", e)
			}
		case "copy":
			for e := range fl.get(x.v(cc.Args[1]), "") {
				if e.obj != nil && e.obj.fn == nil {
					for d := range fl.get(x.v(cc.Args[0]), "") {
						if d.obj != nil && d.obj.fn == nil {
							fl.copy(d.obj, join(d.path, ".[]"), e.obj, join(e.path, ".[]"))
						}
					}
				}
			}
		default:
			if v != nil {
				fl.origins(x, x.v(v), cc.Args...)
				for _, a := range cc.Args {
					for e := range fl.get(x.v(a), "") {
						if e.obj != nil && e.obj.fn == nil && (b.Name() == "len" || b.Name() == "cap") {
							for y := range fl.get(e.obj, e.path) {
								if y.flag != "" {
									fl.add(x.v(v), "", y)
								}
							}
						}
					}
				}
			}
		}
		return
	}
	args := cc.Args
	var targets []*fobj
	dynamic := false
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		if iface, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
			for _, m := range fl.methods[cc.Method.Name()] {
				if types.Implements(m.Signature.Recv().Type(), iface) {
					targets = append(targets, fl.function(m))
				}
			}
		}
		fl.external(x, in, "(iface "+named(cc.Value.Type())+")."+cc.Method.Name(), args)
	} else if g := cc.StaticCallee(); g != nil && !isClosure(cc.Value) {
		targets = append(targets, fl.function(g))
	} else {
		dynamic = true
		for e := range fl.get(x.v(cc.Value), "") {
			if e.obj != nil && e.obj.fn != nil {
				targets = append(targets, e.obj)
			}
		}
		if len(targets) == 0 {
			fl.external(x, in, "callback", args)
		}
	}
	for _, t := range targets {
		g := t.fn
		if len(g.Blocks) == 0 || !load.InRepo(fnPkg(g)) && !(g.Synthetic != "" && load.InRepo(fnPkgOf(g))) {
			fl.external(x, in, funcName(g), args)
			continue
		}
		y := fl.enter(x, in, g, dynamic)
		fl.bind(y, t)
		for i, p := range g.Params {
			if i < len(args) {
				fl.copy(y.v(p), "", x.v(args[i]), "")
			}
		}
		if v != nil {
			fl.copy(x.v(v), "", retKey{y}, "")
		}
	}
}

// bind gives a closure its captured variables.
func (fl *flow) bind(y *fctx, o *fobj) {
	if o.mc == nil {
		return
	}
	for i, fv := range o.fn.FreeVars {
		fl.copy(y.v(fv), "", o.x.v(o.mc.Bindings[i]), "")
	}
}

func isClosure(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

func fnPkgOf(g *ssa.Function) string {
	if g.Object() != nil && g.Object().Pkg() != nil {
		return g.Object().Pkg().Path()
	}
	return fnPkg(g)
}

func (fl *flow) external(x *fctx, in ssa.CallInstruction, name string, args []ssa.Value) {
	f := x.f
	v := in.Value()
	name = strings.TrimPrefix(name, "*")
	if flagGet.MatchString(name) {
		if v == nil || !fl.run[f] {
			return
		}
		for _, a := range args {
			for e := range fl.get(x.v(a), "") {
				if !e.isS {
					continue
				}
				id := fl.byName[e.str]
				if id == "" {
					continue
				}
				fl.loads[id] = true
				if strings.HasSuffix(name, ".Changed") {
					continue // whether a value was given is not yet a use of it
				}
				if v.Type() != nil {
					if _, ok := v.Type().(*types.Tuple); ok {
						fl.add(x.v(v), ".#0", felem{flag: id})
					} else {
						fl.add(x.v(v), "", felem{flag: id})
					}
				}
			}
		}
		return
	}
	if strings.HasPrefix(name, "(github.com/spf13/pflag.FlagSet).") {
		return // registration
	}
	pure := pureName(name)
	tuple := false
	if v != nil {
		_, tuple = v.Type().(*types.Tuple)
	}
	add := func(e felem) {
		if v == nil {
			return
		}
		if tuple {
			t := v.Type().(*types.Tuple)
			for i := 0; i < t.Len(); i++ {
				if pure && e.flag != "" && isError(t.At(i).Type()) {
					continue
				}
				fl.add(x.v(v), fmt.Sprintf(".#%d", i), e)
			}
			return
		}
		if pure && e.flag != "" && isError(v.Type()) {
			return
		}
		fl.add(x.v(v), "", e)
	}
	flags := map[string]bool{}
	for _, a := range args {
		for id := range fl.flagsIn(x.v(a), 2) {
			flags[id] = true
		}
	}
	if fl.run[f] && !pure && name != "callback" && !strings.HasPrefix(name, "(log.Logger).") && !strings.HasPrefix(name, "log.") {
		fl.effect(f, in, flags, "passed to "+name)
	}
	for id := range flags {
		add(felem{flag: id})
	}
	// Results may hold what was given; functions given may be called with it.
	o := fl.site(x, in, "result of "+name)
	hasObj := v != nil && hasPointers(v.Type())
	if hasObj {
		add(felem{obj: o})
	}
	for _, a := range args {
		for e := range fl.get(x.v(a), "") {
			if e.obj == nil {
				continue
			}
			if e.obj.fn != nil {
				y := fl.enter(x, in, e.obj.fn, true)
				if y == nil {
					continue
				}
				fl.bind(y, e.obj)
				for _, p := range e.obj.fn.Params {
					for _, b := range args {
						fl.copy(y.v(p), "", x.v(b), "")
						for z := range fl.get(x.v(b), "") {
							if z.obj != nil && z.obj.fn == nil {
								fl.load(f, y.v(p), "", map[felem]bool{z: true}, ".[]")
							}
						}
					}
				}
				if hasObj {
					for z := range fl.get(retKey{y}, "") {
						add(z)
					}
				}
				continue
			}
			if hasObj {
				add(e)
			}
		}
	}
	for id := range flags {
		if hasObj {
			fl.add(o, ".[]", felem{flag: id})
		}
	}
}
