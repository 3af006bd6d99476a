package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C23", c23) }

// What the tools document: "If input file is -, standard input is read."
var readsStdin = map[string]bool{"msgofmt": true, "msgocat": true, "msgounfmt": true, "xgotext": true}

var (
	outFlag   = regexp.MustCompile(`^output(-file)?$`)
	toFileFn  = regexp.MustCompile(`/pkg/po/compile\.(\([A-Za-z]+\)\.)?[A-Za-z]*ToFile(WithOptions)?$`)
	toWriter  = regexp.MustCompile(`(/pkg/po/compile\.(\([A-Za-z]+\)\.)?[A-Za-z]*ToWriter(WithOptions)?|cobra/doc\.Gen(Man|Markdown|Yaml|ReST)(Custom)?)$`)
	inPathFn  = regexp.MustCompile(`(/pkg/po/parse\.(Po|Mo|NewPo|NewMo|PoFromFile|MoFromFile)|/pkg/go/parse\.(NewParser|NewParserFromPath|FromPath)|^os\.Open|^os\.ReadFile|^github\.com/kr/fs\.Walk)$`)
	fromInput = regexp.MustCompile(`/pkg/po/parse\.[A-Za-z]*From(Reader|File)(WithOptions)?$|^io\.ReadAll$`)
)

func c23(c *core.Ctx) {
	c.Rule = "each tool's command body is interpreted on unknown flags and arguments, path by path: a call that opens or creates a file at a path made from the output flag, and a call that opens an input argument of a tool that documents standard input, " +
		"must be made only where the path is known not to be \"-\"; a call that writes a catalogue or document must be given os.Stdout wherever the output flag is not known to differ from \"-\", and there must be one; the documented tools must read os.Stdin where an argument is \"-\""
	c.Assumptions = []string{"The flags named output and output-file are the tools' output paths; the tools that document standard input are msgofmt, msgocat, msgounfmt and xgotext."}
	fns := repoFuncs(c, load.IsCli)
	type tool struct {
		pkg  string
		fns  []*ssa.Function
		runs []*ssa.Function
	}
	tools := map[string]*tool{}
	for _, f := range fns {
		p := fnPkg(f)
		if !strings.HasSuffix(p, "/cmd") {
			continue
		}
		t := tools[p]
		if t == nil {
			t = &tool{pkg: p}
			tools[p] = t
		}
		t.fns = append(t.fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || named(fa.X.Type()) != "github.com/spf13/cobra.Command" {
					continue
				}
				if n := fieldName(fa.X.Type(), fa.Field); n != "Run" && n != "RunE" {
					continue
				}
				if g := asFunc(st.Val); g != nil {
					t.runs = append(t.runs, g)
				} else {
					c.Fail("undecided", fnName(f)+": command body", c.P.Fset.Position(in.Pos()).String(), "the command's body is not a known function")
				}
			}
		}
	}
	var names []string
	for n := range tools {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := tools[n]
		d := &dashes{c: c, pkg: n, name: strings.Split(strings.TrimPrefix(n, load.CliPath+"/"), "/")[0]}
		d.findOutput(t.fns)
		if !d.has && !readsStdin[d.name] {
			continue
		}
		c.Count("tools", 1)
		for _, r := range t.runs {
			c.Count("command bodies", 1)
			d.run(r)
		}
		if d.has {
			c.Check(d.wrote > 0, "to standard output", d.name, c.P.Pos(t.runs[0].Pos()), "no path of the command writes when the output flag is \"-\"")
		}
		if readsStdin[d.name] {
			// Arguments told apart one by one, or taken out of the list beforehand.
			c.Check(d.stdin > 0 || d.uses && !d.perElement, "standard input", d.name, c.P.Pos(t.runs[0].Pos()), "no path of the command reads standard input for the argument -")
			c.Count("input paths opened", len(d.opened))
			for _, u := range d.opened {
				if d.stdin > 0 {
					c.Check(u.ok, "no input named -", u.in, u.where, "the argument may be \"-\" on this path, where a file of that name is opened")
				}
			}
		}
	}
	c.Min("tools", 6)
	c.Min("command bodies", 7)
	c.Min("calls that write", 7)
	c.Min("input paths opened", 4)
}

func asFunc(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return asFunc(v.X)
	}
	return nil
}

type dashes struct {
	c          *core.Ctx
	pkg        string
	name       string
	glob       *ssa.Global
	path       []int // fields to the flag's variable
	flag       string
	has        bool
	stdin      int
	wrote      int
	perElement bool // the tool reads its inputs one by one
	uses       bool // os.Stdin is used somewhere
	opened     []dashUse
}

type dashUse struct {
	in, where string
	ok        bool
}

func writes(args []*vn.V) bool {
	if len(args) < 2 {
		return true
	}
	n, ok := constInt(args[1])
	return !ok || int(n)&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// findOutput finds the variable (or name) of the tool's output flag.
func (d *dashes) findOutput(fns []*ssa.Function) {
	d.perElement = d.name != "xgotext"
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdin" {
						d.uses = true
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				n := funcName(ci.Common().StaticCallee())
				args := ci.Common().Args
				if flagVar.MatchString(n) && len(args) > 2 && outFlag.MatchString(constStr(args[2])) {
					d.has = true
					a := args[1]
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							d.path = append([]int{fa.Field}, d.path...)
							a = fa.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok {
						d.glob = g
					} else {
						d.c.Fail("undecided", d.name+" output flag", d.c.P.Fset.Position(in.Pos()).String(), "the variable of the output flag is not a package variable")
					}
				} else if flagPtr.MatchString(n) && len(args) > 1 && outFlag.MatchString(constStr(args[1])) {
					d.has = true
					d.flag = constStr(args[1])
				}
			}
		}
	}
}

func (d *dashes) run(r *ssa.Function) {
	c := d.c
	e := newVN(c, load.IsLib)
	e.InRepo = func(f *ssa.Function) bool {
		return vn.PkgOf(f) == d.pkg || followedStd[stdName(f)] || strings.HasSuffix(vn.PkgOf(f), "/internal/slices")
	}
	e.MaxParts = 64
	dash := e.Str("-")
	var out *vn.V
	if d.glob != nil {
		out = e.Content(e.NewState(), e.GlobalAddr(d.glob).O)
		t := d.glob.Type().Underlying().(*types.Pointer).Elem()
		for _, i := range d.path {
			st := t.Underlying().(*types.Struct)
			t = st.Field(i).Type()
			out = e.Field(out, st.Field(i).Name(), t)
		}
	}
	isDash := func(v *vn.V) *vn.V { return e.Bin(token.EQL, v, dash, types.Typ[types.Bool]) }
	var keep func(v *vn.V) bool
	keep = func(v *vn.V) bool {
		found := false
		vn.Walk(v, func(x *vn.V) bool {
			if x == dash {
				found = true
			}
			return !found
		})
		return found
	}
	e.KeepCond = keep
	args := e.Inputs(r)
	var stdout, stdin *vn.V
	if op := c.P.SSA.ImportedPackage("os"); op != nil {
		stdout = e.Content(e.NewState(), e.GlobalAddr(op.Var("Stdout")).O)
		stdin = e.Content(e.NewState(), e.GlobalAddr(op.Var("Stdin")).O)
	}
	has := func(v, w *vn.V) bool {
		found := false
		vn.Walk(v, func(x *vn.V) bool {
			if x == w {
				found = true
			}
			return !found
		})
		return found
	}
	not := func(st *vn.State, v *vn.V) bool {
		b, known := e.Truth(st, isDash(v))
		return known && !b
	}
	// outs lists the parts of a term that are the output flag's value.
	outs := func(v *vn.V) []*vn.V {
		var l []*vn.V
		vn.Walk(v, func(x *vn.V) bool {
			if x == out && out != nil {
				l = append(l, x)
				return false
			}
			if d.flag != "" && x.Op == "res" && x.P == "0" && x.A[0].Op == "call" && strings.HasPrefix(x.A[0].P, "(github.com/spf13/pflag.FlagSet).GetString") && len(x.A[0].A) == 2 && x.A[0].A[1] == e.Str(d.flag) {
				l = append(l, x)
				return false
			}
			return true
		})
		return l
	}
	// elems lists the list elements a path is made of.
	var elems func(v *vn.V) []*vn.V
	elems = func(v *vn.V) []*vn.V {
		switch v.Op {
		case "elem":
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return []*vn.V{v}
			}
			return nil
		case "conv", "iface", "list", "cat":
			var l []*vn.V
			for _, a := range v.A {
				l = append(l, elems(a)...)
			}
			return l
		case "call":
			if strings.HasPrefix(v.P, "path/filepath.") || strings.HasPrefix(v.P, "strings.") {
				var l []*vn.V
				for _, a := range v.A {
					l = append(l, elems(a)...)
				}
				return l
			}
		}
		return nil
	}
	dashKnown := func(st *vn.State) bool {
		for v, b := range st.Cond() {
			if b && len(v.A) == 2 {
				for i, a := range v.A {
					if a.Op == "elem" && v.A[1-i] == dash && v == isDash(a) {
						return true
					}
				}
			}
		}
		return false
	}
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Quiet || k.In == nil {
			return false, nil
		}
		where := c.P.Fset.Position(k.In.Pos()).String()
		in := fnName(k.In.Parent()) + " -> " + shortName(k.Name)
		switch {
		case k.Name == "os.Create" || k.Name == "os.WriteFile" || toFileFn.MatchString(k.Name) || inPathFn.MatchString(k.Name) || k.Name == "os.OpenFile" && writes(k.Args):
			for _, a := range k.Args {
				for _, o := range outs(e.Snapshot(k.St, a)) {
					c.Count("files opened at the output path", 1)
					c.Check(not(k.St, o), "no file named -", in, where, "the output flag may be \"-\" on this path, where a file of that name is opened or created")
				}
			}
		}
		if toWriter.MatchString(k.Name) || toFileFn.MatchString(k.Name) {
			c.Count("calls that write", 1)
		}
		if toWriter.MatchString(k.Name) && (out != nil || d.flag != "") {
			known := false
			if out != nil {
				known = not(k.St, out)
			} else {
				// The value the path asked for: a comparison with "-" that came out false.
				for v, b := range k.St.Cond() {
					known = known || !b && len(outs(v)) > 0 && has(v, dash)
				}
			}
			sig := k.In.Common().Signature().Params()
			for i := 0; i < sig.Len() && !known; i++ {
				j := len(k.Args) - sig.Len() + i
				if j < 0 || named(sig.At(i).Type()) != "io.Writer" {
					continue
				}
				w := vn.Strip(e.Snapshot(k.St, k.Args[j]))
				if w.Op == "nil" {
					continue // The path where opening failed and was reported.
				}
				c.Check(has(w, stdout), "to standard output", in, where, "the output flag may be \"-\" on this path, but what is written does not go to standard output")
				d.wrote++
			}
		}
		if readsStdin[d.name] {
			if fromInput.MatchString(k.Name) {
				for _, a := range k.Args {
					if has(e.Snapshot(k.St, a), stdin) && dashKnown(k.St) {
						d.stdin++
					}
				}
			}
			if inPathFn.MatchString(k.Name) || k.Name == "path/filepath.Join" {
				for _, a := range k.Args {
					for _, x := range elems(e.Snapshot(k.St, a)) {
						if ok := not(k.St, x); !ok || k.Name != "path/filepath.Join" {
							d.opened = append(d.opened, dashUse{in, where, ok})
						}
					}
				}
			}
		}
		return false, nil
	}
	e.Run(r, args, nil)
	if e.Err != nil {
		c.Fail("undecided", fnName(r), c.P.Pos(r.Pos()), fmt.Sprint(e.Err))
	}
}
