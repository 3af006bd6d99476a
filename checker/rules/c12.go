package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C12", c12) }

// fsWriters are the standard library's ways to create or replace files.
var fsWriters = map[string]bool{
	"os.OpenFile": true, "os.Create": true, "os.WriteFile": true, "os.Rename": true, "os.Remove": true, "os.RemoveAll": true,
	"os.Truncate": true, "os.Link": true, "os.Symlink": true, "os.CreateTemp": true, "io/ioutil.WriteFile": true, "io/ioutil.TempFile": true,
	"(os.File).Truncate": true, "os.CopyFS": true, "syscall.Open": true, "(os.Root).Create": true, "(os.Root).OpenFile": true, "(os.Root).WriteFile": true,
}

// reachesCall lists the repository functions from which a call of a wanted outside
// function can be reached (static calls, closures and function references).
func reachesCall(c *core.Ctx, want func(string) bool) map[*ssa.Function]bool {
	all := repoFuncs(c, load.InRepo)
	refs := map[*ssa.Function]map[*ssa.Function]bool{} // callee -> users
	hit := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && want(calleeName(ci.Common())) && !hit[f] {
					hit[f] = true
					work = append(work, f)
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						if want(funcName(g)) && !hit[f] {
							hit[f] = true
							work = append(work, f)
						}
						if refs[g] == nil {
							refs[g] = map[*ssa.Function]bool{}
						}
						refs[g][f] = true
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for u := range refs[f] {
			if !hit[u] {
				hit[u] = true
				work = append(work, u)
			}
		}
	}
	return hit
}

func c12(c *core.Ctx) {
	c.Rule = "Every exported to-file method of the compilers is analysed on an unknown compiler and path. At each call that can create or replace a file the open flags are evaluated together with what the path to the call knows of the configuration's force setting: not forced (or not known) requires exclusive creation, forced requires truncation without append or exclusivity, and the file opened must be the path given. Every file-creating call site of the library must be reached by that analysis; there are no others."
	c.Assumptions = []string{"The operating system implements O_EXCL and O_TRUNC."}
	hit := reachesCall(c, func(n string) bool { return fsWriters[n] })
	visited := map[ssa.Instruction]bool{}
	for _, f := range repoFuncs(c, load.IsLib) {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() == nil || !strings.HasPrefix(f.Name(), "ToFile") || !f.Object().Exported() {
			continue
		}
		rt := sig.Recv().Type()
		ptr := false
		if p, ok := rt.(*types.Pointer); ok {
			rt, ptr = p.Elem(), true
		}
		st, ok := rt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var confF, forceF *types.Var
		for i := 0; i < st.NumFields(); i++ {
			if cs, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				for j := 0; j < cs.NumFields(); j++ {
					b, ok := cs.Field(j).Type().Underlying().(*types.Basic)
					if ok && b.Kind() == types.Bool && strings.HasPrefix(strings.ToLower(cs.Field(j).Name()), "force") {
						confF, forceF = st.Field(i), cs.Field(j)
					}
				}
			}
		}
		name, pos := fnName(f), c.P.Pos(f.Pos())
		if forceF == nil {
			c.Fail("force-setting", name, pos, "no force setting found in the configuration")
			continue
		}
		c.Count("to-file methods", 1)
		e := newVN(c, load.IsLib)
		e.MaxParts = 64
		e.Skip = func(k *vn.Call) bool { return !hit[k.Fn] && !isClosureArgCall(k, hit) }
		args := e.Inputs(f)
		var path *vn.V
		for i, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && i > 0 {
				path = args[i]
			}
		}
		force := func(s *vn.State) *vn.V {
			v := args[0]
			if ptr {
				v = e.Content(s, e.Lazy(v))
			}
			return e.Field(e.Field(v, confF.Name(), confF.Type()), forceF.Name(), forceF.Type())
		}
		calls := 0
		e.Hook = func(k *vn.Call) (bool, *vn.V) {
			if k.Quiet || !fsWriters[k.Name] {
				return false, nil
			}
			visited[k.In] = true
			calls++
			c.Count("file-creating calls analysed", 1)
			where := c.P.Pos(k.In.Pos())
			on, known := e.Truth(k.St, force(k.St))
			forced := known && on
			if len(k.Args) == 0 || (path != nil && k.Args[0] != path && !strings.HasPrefix(k.Name, "(")) {
				c.Fail("opens-the-given-path", name, where, k.Name+" is given "+fmt.Sprint(k.Args[0])+", not the path the caller gave")
				return false, nil
			}
			switch k.Name {
			case "os.Create", "os.WriteFile":
				c.Check(forced, "exclusive-unless-forced", name+" "+k.Name, where, k.Name+" replaces an existing file where the configuration does not force it")
				return false, nil
			case "os.OpenFile":
			default:
				c.Check(forced, "exclusive-unless-forced", name+" "+k.Name, where, k.Name+" touches an existing file where the configuration does not force it")
				return false, nil
			}
			n, ok := constInt(k.Args[1])
			if !ok {
				c.Fail("undecided", name+" flags", where, "the open flags are not constant on this path: "+k.Args[1].String())
				return false, nil
			}
			flags := int(n)
			if !forced {
				c.Check(flags&os.O_EXCL != 0 && flags&os.O_CREATE != 0, "exclusive-unless-forced", name, where, fmt.Sprintf("the file is opened with flags %#x, not exclusively, on a path where the configuration does not force overwriting", flags))
			}
			if forced || !known {
				c.Check(flags&os.O_TRUNC != 0 && flags&os.O_CREATE != 0 && flags&(os.O_EXCL|os.O_APPEND) == 0 && flags&(os.O_WRONLY|os.O_RDWR) != 0, "replaces-when-forced", name, where, fmt.Sprintf("the file is opened with flags %#x when overwriting is forced: its old content is not fully replaced", flags))
			}
			return false, nil
		}
		outs := e.Run(f, args, nil)
		if e.Err != nil || len(outs) == 0 {
			c.Fail("undecided", name, pos, fmt.Sprintf("the method could not be analysed: %v", e.Err))
			continue
		}
		if !strings.HasSuffix(f.Name(), "WithOptions") {
			c.Check(calls > 0, "opens-a-file", name, pos, "no file is opened on any path")
		}
	}
	for _, f := range repoFuncs(c, load.IsLib) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && fsWriters[calleeName(ci.Common())] {
					if opensOnly(ci.Common()) {
						c.Count("calls that only open existing files", 1)
						continue
					}
					c.Check(visited[in], "only-to-file-writes-files", fnName(f)+" "+calleeName(ci.Common()), c.P.Pos(in.Pos()), "a file is created or changed outside the to-file operations")
				}
			}
		}
	}
	c.Min("to-file methods", 4)
	c.Min("file-creating calls analysed", 4)
}

// isClosureArgCall: the call passes a function that matters.
func isClosureArgCall(k *vn.Call, hit map[*ssa.Function]bool) bool {
	for _, a := range k.Args {
		a = vn.Strip(a)
		if (a.Op == "closure" || a.Op == "func") && hit[a.Fn] {
			return true
		}
	}
	return false
}

func constInt(v *vn.V) (int64, bool) {
	if v.Op != "const" || v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}

// opensOnly: os.OpenFile with constant flags that neither create nor truncate.
func opensOnly(c *ssa.CallCommon) bool {
	if calleeName(c) != "os.OpenFile" || len(c.Args) < 2 {
		return false
	}
	k, ok := c.Args[1].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, _ := constant.Int64Val(k.Value)
	return int(n)&(os.O_CREATE|os.O_TRUNC) == 0
}
