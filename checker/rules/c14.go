package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C14", c14) }

// optionConf is the configuration struct a functional-option type modifies.
func optionConf(t types.Type) *types.Named {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	sig, ok := n.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return nil
	}
	p, ok := sig.Params().At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	conf, _ := types.Unalias(p.Elem()).(*types.Named)
	if conf == nil {
		return nil
	}
	if _, ok := conf.Underlying().(*types.Struct); !ok {
		return nil
	}
	return conf
}

func c14(c *core.Ctx) {
	c.Rule = "Every library method with a pointer receiver that takes options variadically, on a struct that holds the options' configuration, is analysed with an unknown object and an unknown list of unknown options (each may change the whole configuration): at every return the configuration held by the object must be the term it was at entry. While the configuration differs from the one at entry, the operation itself may only be called with an undoing deferred call pending, so that a panic undoes it too. Each restore method is analysed with nothing saved: the configuration must be unchanged."
	c.Assumptions = []string{
		"An option changes nothing but the configuration it is given.",
		"A caller's own option function does not itself panic.",
	}
	for _, f := range repoFuncs(c, load.IsLib) {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() == nil || !sig.Variadic() || strings.Contains(fnPkg(f), "/internal/") {
			continue
		}
		rp, ok := sig.Recv().Type().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := rp.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		conf := optionConf(sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem())
		if conf == nil || types.Identical(conf, rp.Elem()) {
			continue
		}
		field := -1
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), conf) {
				field = i
			}
		}
		if field < 0 {
			continue
		}
		name, pos := fnName(f), c.P.Pos(f.Pos())
		c.Count("operations with temporary options", 1)
		e := newVN(c, load.IsLib)
		e.MaxParts = 4
		recv := e.Param("object", sig.Recv().Type())
		args := []*vn.V{recv}
		for _, p := range f.Params[1:] {
			args = append(args, e.Param(p.Name(), p.Type()))
		}
		obj := e.Lazy(recv)
		fl := st.Field(field)
		cfgOf := func(s *vn.State) *vn.V { return e.Field(e.Content(s, obj), fl.Name(), fl.Type()) }
		entry := cfgOf(e.NewState())
		e.Hook = func(k *vn.Call) (bool, *vn.V) {
			if k.Quiet || k.Name == "" || cfgOf(k.St) == entry || k.St.Pending() {
				return false, nil
			}
			for fr := k.Fr; fr != nil; fr = fr.Parent {
				if _, ok := fr.Site.(*ssa.Defer); ok {
					return false, nil
				}
			}
			if k.Defer {
				return false, nil
			}
			own := k.Fn == nil || !load.InRepo(fnPkg(k.Fn))
			if k.Fn != nil && k.Fn.Signature.Recv() != nil {
				t := k.Fn.Signature.Recv().Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				own = own || types.Identical(t, rp.Elem())
			}
			if own {
				c.Fail("undone-on-panic", name, c.P.Pos(k.In.Pos()), k.Name+" is called with the temporary options in force and no deferred restore pending: a panic leaves them in place")
			}
			return false, nil
		}
		e.Skip = func(k *vn.Call) bool {
			vs := append([]*vn.V{k.FnV}, k.Args...)
			return !e.Reaches(k.St, vs, obj)
		}
		outs := e.Run(f, args, nil)
		if e.Err != nil || len(outs) == 0 {
			c.Fail("undecided", name, pos, fmt.Sprintf("the operation could not be analysed: %v", e.Err))
			continue
		}
		c.Count("instructions analysed", e.Steps())
		for _, o := range outs {
			c.Count("exits", 1)
			got := cfgOf(o.St)
			if got == entry {
				c.OK("restored", name)
				continue
			}
			var bad []string
			cs := conf.Underlying().(*types.Struct)
			for i := 0; i < cs.NumFields(); i++ {
				g := e.Field(got, cs.Field(i).Name(), cs.Field(i).Type())
				if g != e.Field(entry, cs.Field(i).Name(), cs.Field(i).Type()) {
					bad = append(bad, cs.Field(i).Name()+" = "+g.String())
				}
			}
			c.Fail("restored", name, pos, "after the call these settings differ from before: "+strings.Join(bad, "; "))
		}
	}
	c.Min("operations with temporary options", 6)

	// Restoring with nothing saved.
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Parent() != nil || f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Restore") || f.Signature.Params().Len() > 0 {
			continue
		}
		rp, ok := f.Signature.Recv().Type().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := rp.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		name, pos := fnName(f), c.P.Pos(f.Pos())
		c.Count("restore methods", 1)
		e := newVN(c, load.IsLib)
		recv := e.Param("config", f.Signature.Recv().Type())
		obj := e.Lazy(recv)
		s := e.NewState()
		before := e.Content(s, obj)
		// Nothing saved: every unexported interface or pointer field that can hold a
		// backup is nil.
		vals := make([]*vn.V, st.NumFields())
		for i := range vals {
			fl := st.Field(i)
			vals[i] = e.Field(before, fl.Name(), fl.Type())
			switch fl.Type().Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Slice:
				if !fl.Exported() {
					vals[i] = e.Zero(fl.Type())
				}
			}
		}
		before = e.Struct(rp.Elem(), vals)
		e.SetContent(s, obj, before)
		asserts := false
		e.Site = func(fr *vn.Frame, in ssa.Instruction, st *vn.State) {
			if ta, ok := in.(*ssa.TypeAssert); ok && !ta.CommaOk && e.Val(fr, st, ta.X).Op == "nil" {
				asserts = true
			}
		}
		outs := e.Run(f, []*vn.V{recv}, s)
		if e.Err != nil || len(outs) == 0 {
			c.Fail("undecided", name, pos, fmt.Sprintf("the method could not be analysed: %v", e.Err))
			continue
		}
		ok = !asserts
		for _, o := range outs {
			ok = ok && e.Content(o.St, obj) == before
		}
		c.Check(ok, "nothing-saved", name, pos, "restoring with nothing saved changes the configuration or panics")
	}
	c.Min("restore methods", 3)
}
