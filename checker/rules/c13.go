package rules

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C13", c13) }

// optionCtor is an exported function that makes a functional option of a configuration.
type optionCtor struct {
	f    *ssa.Function
	conf *types.Named // the configuration struct
}

func optionCtors(c *core.Ctx) []optionCtor {
	var out []optionCtor
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() == 0 || strings.Contains(fnPkg(f), "/internal/") {
			continue
		}
		if !ast.IsExported(f.Name()) && !strings.Contains(strings.ToLower(f.Name()), "with") {
			continue
		}
		n, ok := types.Unalias(f.Signature.Results().At(0).Type()).(*types.Named)
		if !ok {
			continue
		}
		sig, ok := n.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			continue
		}
		p, ok := sig.Params().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		conf, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok {
			continue
		}
		if _, ok := conf.Underlying().(*types.Struct); !ok || !load.IsLib(conf.Obj().Pkg().Path()) {
			continue
		}
		out = append(out, optionCtor{f, conf})
	}
	return out
}

// settingOf finds the field an option is named after.
func settingOf(name string, st *types.Struct) string {
	i := strings.Index(strings.ToLower(name), "with")
	if i < 0 {
		i = strings.Index(strings.ToLower(name), "wtih")
	}
	if i >= 0 {
		name = name[i+4:]
	}
	norm := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }
	var names []string
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, st.Field(i).Name())
	}
	for _, f := range names {
		if norm(f) == norm(name) {
			return f
		}
	}
	// A singular/plural variant, or the field's name shortened.
	var cand []string
	for _, f := range names {
		a, b := norm(f), norm(name)
		if strings.TrimSuffix(a, "s") == strings.TrimSuffix(b, "s") {
			return f
		}
		if strings.HasPrefix(a, b) || strings.HasPrefix(b, a) {
			cand = append(cand, f)
		}
	}
	if len(cand) == 1 {
		return cand[0]
	}
	return ""
}

// sameValue: the given value, or a fresh copy of a given list.
func sameValue(got, want *vn.V) bool {
	got, want = vn.Strip(got), vn.Strip(want)
	if got == want {
		return true
	}
	if got.Op == "append" && (got.A[0].Op == "nil" || got.A[0].Op == "list" && len(got.A[0].A) == 0) {
		return vn.Strip(got.A[1]) == want
	}
	return false
}

func c13(c *core.Ctx) {
	c.Rule = "Every function of the library that returns a functional option (a named func(*Config) type) is discovered, the option it returns is analysed on an unknown configuration (value numbering, calls followed, every path), and at every return the configuration must be the old one with exactly the field the function is named after replaced by exactly the argument; for whole-configuration options (argument of the configuration type itself) it must be the argument. The option must write nothing else."
	c.Assumptions = []string{
		"The setting an option names is found by comparing its name with the field names of the configuration struct.",
	}
	ctors := optionCtors(c)
	sort.Slice(ctors, func(i, j int) bool { return fnName(ctors[i].f) < fnName(ctors[j].f) })
	set := map[string][]string{}
	for _, ct := range ctors {
		f := ct.f
		name := fnName(f)
		pos := c.P.Pos(f.Pos())
		c.Count("option constructors", 1)
		if f.Signature.Params().Len() != 1 {
			c.Fail("shape", name, pos, "an option constructor with other than one argument is not understood")
			continue
		}
		st := ct.conf.Underlying().(*types.Struct)
		e := newVN(c, load.IsLib)
		arg := e.Param("value", f.Params[0].Type())
		outs := e.Run(f, []*vn.V{arg}, nil)
		if e.Err != nil || len(outs) == 0 {
			c.Fail("undecided", name, pos, fmt.Sprintf("the constructor could not be analysed: %v", e.Err))
			continue
		}
		whole := types.Identical(arg.T, ct.conf)
		field := ""
		if !whole {
			if field = settingOf(f.Name(), st); field == "" {
				c.Fail("names-a-setting", name, pos, "no field of "+ct.conf.Obj().Name()+" has the name of this option")
				continue
			}
			set[ct.conf.Obj().Pkg().Path()+"."+ct.conf.Obj().Name()] = append(set[ct.conf.Obj().Pkg().Path()+"."+ct.conf.Obj().Name()], field)
		}
		for _, o := range outs {
			fv := vn.Strip(o.Res[0])
			if fv.Op != "closure" && fv.Op != "func" {
				c.Fail("undecided", name, pos, "the option returned is not a function literal: "+fv.String())
				continue
			}
			cfg := e.Param("config", types.NewPointer(ct.conf))
			obj := e.Lazy(cfg)
			before := e.Content(o.St, obj)
			stores := 0
			e.OnStore = func(fr *vn.Frame, in ssa.Instruction, addr, val *vn.V, s *vn.State) {
				if addr.O != obj && (addr.O == nil || !addr.O.Fresh) {
					c.Fail("writes-elsewhere", name, c.P.Pos(in.Pos()), "the option writes memory other than the configuration: "+addr.String())
				}
				stores++
			}
			rets := e.RunClosure(fv, []*vn.V{cfg}, o.St)
			e.OnStore = nil
			if e.Err != nil || len(rets) == 0 {
				c.Fail("undecided", name, pos, fmt.Sprintf("the option could not be analysed: %v", e.Err))
				continue
			}
			for _, r := range rets {
				after := e.Content(r.St, obj)
				c.Count("option paths", 1)
				if whole {
					if after == arg {
						c.OK("replaces-all", name)
						continue
					}
					var bad []string
					for i := 0; i < st.NumFields(); i++ {
						fl := st.Field(i)
						if e.Field(after, fl.Name(), fl.Type()) != e.Field(arg, fl.Name(), fl.Type()) {
							// An unexported backup of the previous state may stay.
							bad = append(bad, fl.Name())
						}
					}
					if len(bad) > 0 {
						c.Fail("replaces-all", name, pos, "the whole-configuration option does not replace: "+strings.Join(bad, ", "))
					} else {
						c.OK("replaces-all", name)
					}
					continue
				}
				ok := true
				for i := 0; i < st.NumFields(); i++ {
					fl := st.Field(i)
					got := e.Field(after, fl.Name(), fl.Type())
					if fl.Name() == field {
						want := arg
						if !types.Identical(arg.T.Underlying(), fl.Type().Underlying()) {
							want = e.Conv(arg, fl.Type())
						}
						if !sameValue(got, want) {
							ok = false
							c.Fail("sets-its-setting", name, pos, fmt.Sprintf("%s becomes %s, not the given value", field, got))
						}
					} else if got != e.Field(before, fl.Name(), fl.Type()) {
						ok = false
						c.Fail("leaves-others", name+" "+fl.Name(), pos, fmt.Sprintf("the option for %s also changes %s to %s", field, fl.Name(), got))
					}
				}
				if ok {
					c.OK("sets-exactly-its-setting", name+" sets "+field)
				}
			}
		}
	}
	c.Min("option constructors", 40)
	c.Min("option paths", 40)
}
