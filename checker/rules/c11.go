package rules

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

// Order of input and output: on no path of any command is an input read, parsed or
// validated after an output file has been created, truncated or opened for writing.

func writeEvent(cc *ssa.CallCommon) bool {
	if openKind(cc) == "write" {
		return true
	}
	switch calleeName(cc) {
	case "os.WriteFile", "os.Truncate", "os.Rename", "os.Remove", "os.RemoveAll", "io/ioutil.WriteFile", "os.Symlink", "os.Link", "os.CopyFS":
		return true
	}
	return false
}

func readEvent(cc *ssa.CallCommon) string {
	if openKind(cc) == "open" {
		return calleeName(cc)
	}
	n := calleeName(cc)
	switch n {
	case "os.ReadFile", "os.ReadDir", "io/ioutil.ReadFile", "io/ioutil.ReadDir", "io/ioutil.ReadAll", "path/filepath.Walk", "path/filepath.WalkDir", "io/fs.WalkDir",
		"github.com/kr/fs.Walk", "go/parser.ParseFile", "path/filepath.Glob", "(os.File).Read", "(os.File).ReadDir", "(github.com/kr/fs.Walker).Step":
		return n
	case "io.ReadAll":
		return n
	}
	if strings.HasPrefix(n, "("+load.ModPath+"/pkg/po.") && strings.HasSuffix(n, ").Validate") && !strings.Contains(n, "HeaderConfig") {
		return n
	}
	if strings.Contains(n, "participle") && strings.Contains(n, ".Parse") {
		return n
	}
	return ""
}

type ioSum struct {
	reads  string // why
	writes string
}

type ioOrder struct {
	c    *core.Ctx
	sums map[*ssa.Function]*ioSum
}

// targets lists the repository functions a call may run: the callee and closures handed over.
func targets(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && load.InRepo(fnPkg(f)) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	if !cc.IsInvoke() {
		add(cc.StaticCallee())
	}
	for _, a := range cc.Args {
		switch v := a.(type) {
		case *ssa.MakeClosure:
			add(v.Fn.(*ssa.Function))
		case *ssa.Function:
			add(v)
		}
	}
	return out
}

func (o *ioOrder) calls(f *ssa.Function, fn func(b *ssa.BasicBlock, i int, in ssa.CallInstruction)) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				fn(b, i, ci)
			}
		}
	}
}

func (o *ioOrder) effect(in ssa.CallInstruction) (reads, writes string) {
	cc := in.Common()
	if writeEvent(cc) {
		writes = calleeName(cc)
	}
	reads = readEvent(cc)
	for _, g := range targets(cc) {
		if s := o.sums[g]; s != nil {
			if s.reads != "" && reads == "" {
				reads = fnName(g) + " > " + s.reads
			}
			if s.writes != "" && writes == "" {
				writes = fnName(g) + " > " + s.writes
			}
		}
	}
	return
}

func init() {
	register("C11", func(c *core.Ctx) {
		c.Rule = "Event-order dataflow with call summaries over every function of both modules: no call that reads, parses or validates an input is reachable after a call that creates, truncates or opens a file for writing (loops included); " +
			"functions that run before the command body write nothing; and in the tools that validate catalogues (msgofmt, msgocat, msgounfmt) every path from parsing to compiling passes through validation."
		o := &ioOrder{c, map[*ssa.Function]*ioSum{}}
		fns := repoFuncs(c, load.InRepo)
		for _, f := range fns {
			o.sums[f] = &ioSum{}
		}
		for changed := true; changed; {
			changed = false
			for _, f := range fns {
				s := o.sums[f]
				o.calls(f, func(b *ssa.BasicBlock, i int, in ssa.CallInstruction) {
					r, w := o.effect(in)
					if s.reads == "" && r != "" {
						s.reads = r
						changed = true
					}
					if s.writes == "" && w != "" {
						s.writes = w
						changed = true
					}
				})
			}
		}
		for _, f := range fns {
			if isInit(f) && f.Parent() == nil {
				continue
			}
			if o.sums[f].writes == "" {
				continue
			}
			c.Count("functions that open outputs", 1)
			// may-analysis: where can an output have been opened already?
			in := map[*ssa.BasicBlock]string{}
			work := []*ssa.BasicBlock{f.Blocks[0]}
			done := map[*ssa.BasicBlock]string{}
			visited := map[*ssa.BasicBlock]bool{}
			for len(work) > 0 {
				b := work[0]
				work = work[1:]
				st := in[b]
				if visited[b] && done[b] == st {
					continue
				}
				visited[b] = true
				done[b] = st
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					r, w := o.effect(ci)
					if _, isDefer := ins.(*ssa.Defer); isDefer {
						continue
					}
					if st != "" && r != "" {
						c.FailPath("read-after-write", fnName(f)+"->"+strings.Split(r, " > ")[0], c.P.Pos(ins.Pos()),
							fmt.Sprintf("%s reads or checks input (%s) after an output may have been opened", fnName(f), r), "output opened by "+st)
					} else if r != "" {
						c.OK("read-before-write", fnName(f)+" at "+c.P.Pos(ins.Pos())+": "+r)
					}
					if st == "" && w != "" {
						st = w + " at " + c.P.Pos(ins.Pos())
						c.OK("write-last", fnName(f)+" at "+c.P.Pos(ins.Pos())+": "+w)
					}
				}
				for _, s := range b.Succs {
					if in[s] == "" && st != "" {
						in[s] = st
					}
					if !visited[s] || done[s] != in[s] {
						work = append(work, s)
					}
				}
			}
		}
		// Hooks that run before the body.
		for _, f := range fns {
			o.calls(f, func(*ssa.BasicBlock, int, ssa.CallInstruction) {})
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || named(fa.X.Type()) != "github.com/spf13/cobra.Command" {
						continue
					}
					n := fieldName(fa.X.Type(), fa.Field)
					var g *ssa.Function
					switch v := st.Val.(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g == nil {
						continue
					}
					switch n {
					case "RunE", "Run":
						c.Count("command bodies", 1)
					case "PreRun", "PreRunE", "PersistentPreRun", "PersistentPreRunE", "Args":
						w := ""
						if s := o.sums[g]; s != nil {
							w = s.writes
						}
						c.Check(w == "", "hook-writes", fnName(g), c.P.Pos(g.Pos()), fnName(g)+" runs before the inputs are read and opens an output: "+w)
					}
				}
			}
		}
		v := &validation{c: c, memo: map[vkey]bool{}}
		for _, f := range fns {
			p := fnPkg(f)
			if !strings.HasPrefix(p, load.CliPath+"/msgofmt/") && !strings.HasPrefix(p, load.CliPath+"/msgocat/") && !strings.HasPrefix(p, load.CliPath+"/msgounfmt/") {
				continue
			}
			if isInit(f) && f.Parent() == nil {
				continue
			}
			v.run(f, true)
		}
		c.Min("functions that open outputs", 6)
		c.Min("command bodies", 8)
		c.Min("compile calls checked for validation", 3)
	})
}

// validation: must-analysis of "no parsed catalogue is still unvalidated".
type validation struct {
	c    *core.Ctx
	memo map[vkey]bool
}

type vkey struct {
	f  *ssa.Function
	in bool
}

func (v *validation) run(f *ssa.Function, entry bool) bool {
	k := vkey{f, entry}
	if r, ok := v.memo[k]; ok {
		return r
	}
	v.memo[k] = true // recursion: optimistic
	in := map[*ssa.BasicBlock]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	in[f.Blocks[0]] = entry
	seen[f.Blocks[0]] = true
	exit := true
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := in[b]
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				if !failureReturn(r) {
					exit = exit && st
				}
				continue
			}
			ci, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(&ci.Call)
			switch {
			case strings.HasPrefix(n, "("+load.ModPath+"/pkg/po.") && strings.HasSuffix(n, ").Validate"):
				st = true
			case strings.HasPrefix(n, load.ModPath+"/pkg/po/parse.Po"), strings.HasPrefix(n, load.ModPath+"/pkg/po/parse.Mo"):
				if resultErrorish(ci.Call.Signature()) {
					st = false
				}
			case strings.HasPrefix(n, load.ModPath+"/pkg/po/compile.PoTo"), strings.HasPrefix(n, load.ModPath+"/pkg/po/compile.MoTo"),
				strings.HasPrefix(n, "("+load.ModPath+"/pkg/po/compile.") && strings.Contains(n, ").To"):
				if entry {
					v.c.Count("compile calls checked for validation", 1)
					v.c.Check(st, "validated", fnName(f)+"->"+n, v.c.P.Pos(ci.Pos()), fnName(f)+" compiles catalogues that were parsed but not validated on some path")
				}
			default:
				for _, g := range targets(&ci.Call) {
					if load.IsCli(fnPkg(g)) {
						st = v.run(g, st)
					}
				}
			}
		}
		for k, s := range b.Succs {
			ns := st
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && ignoresErrors(iff.Cond, k == 0) {
				ns = true // the user asked to skip it
			}
			if seen[s] {
				ns = in[s] && ns
			}
			if !seen[s] || ns != in[s] {
				seen[s] = true
				in[s] = ns
				work = append(work, s)
			}
		}
	}
	v.memo[k] = exit
	return exit
}

// ignoresErrors: the branch is taken when an ignore-errors setting is on.
func ignoresErrors(cond ssa.Value, taken bool) bool {
	u, ok := cond.(*ssa.UnOp)
	if !ok {
		return false
	}
	if u.Op == token.NOT {
		return ignoresErrors(u.X, !taken)
	}
	switch a := u.X.(type) {
	case *ssa.Global:
		return taken && ignoreErrorsName.MatchString(a.Name())
	case *ssa.FieldAddr:
		return taken && ignoreErrorsName.MatchString(fieldName(a.X.Type(), a.Field))
	}
	return false
}

// failureReturn: the function returns an error that is known not to be nil.
func failureReturn(r *ssa.Return) bool {
	for _, v := range r.Results {
		if !isError(v.Type()) {
			continue
		}
		if c, ok := v.(*ssa.Call); ok {
			switch calleeName(&c.Call) {
			case "fmt.Errorf", "errors.New":
				return true
			}
		}
		for _, b := range r.Parent().Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok || (c.Op != token.NEQ && c.Op != token.EQL) {
				continue
			}
			k, ok := c.Y.(*ssa.Const)
			if !ok || !k.IsNil() || !sameErr(c.X, v) {
				continue
			}
			s := b.Succs[0]
			if c.Op == token.EQL {
				s = b.Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(r.Block()) {
				return true
			}
		}
	}
	return false
}

// sameErr: the same value, or loads of the same variable.
func sameErr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}
