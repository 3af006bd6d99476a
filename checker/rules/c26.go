package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C26", c26) }

// method finds a method of a named type declared in the repository.
func method(c *core.Ctx, n *types.Named, name string) *ssa.Function {
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		if s := c.P.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), name); s != nil {
			if f := c.P.SSA.MethodValue(s); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// libType finds a named type of the library by "pkg/po.Name".
func libType(c *core.Ctx, name string) *types.Named {
	i := strings.LastIndexByte(name, '.')
	pk := c.P.ByID[load.ModPath+"/"+name[:i]]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// mentions collects the inputs (by name) a term was computed from.
func mentions(e *vn.Engine, st *vn.State, v *vn.V, out map[string]bool) {
	seen := map[*vn.Obj]bool{}
	var walk func(v *vn.V)
	walk = func(v *vn.V) {
		vn.Walk(v, func(x *vn.V) bool {
			if x.Op == "param" {
				out[x.P] = true
			}
			if x.O != nil && !seen[x.O] && x.O.Fresh {
				seen[x.O] = true
				walk(e.Content(st, x.O))
			}
			return true
		})
	}
	walk(v)
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// textParsers: functions on strings alone that use a regular expression are taken as
// uninterpreted functions of their arguments.
func textParsers(c *core.Ctx) map[*ssa.Function]bool {
	hit := reachesCall(c, func(n string) bool { return strings.HasPrefix(n, "(regexp.Regexp).") })
	out := map[*ssa.Function]bool{}
	for f := range hit {
		sig := f.Signature
		ok := f.Parent() == nil && sig.Recv() == nil && sig.Params().Len() > 0 && sig.Results().Len() > 0
		for i := 0; ok && i < sig.Params().Len(); i++ {
			b, isB := sig.Params().At(i).Type().Underlying().(*types.Basic)
			ok = isB && b.Info()&types.IsString != 0
		}
		if ok {
			out[f] = true
		}
	}
	return out
}

func c26(c *core.Ctx) {
	c.Rule = "The two conversions are analysed on value numbers. ToHeader on a configuration of unknown non-empty settings yields the list of (key, value) pairs it writes; each value is traced to the settings it is built from. ToConfig on a header holding exactly those keys (unknown non-empty values) plus unknown keys yields, per setting, the key its value is read from. Both relations must be the same: every setting is written under one key, read back from that key, single-setting keys carry the value itself, no written key ends up among the extra fields, and the extra fields come back unchanged and in order, in both directions."
	c.Assumptions = []string{"Functions on strings that use regular expressions are uninterpreted; that mime.ParseMediaType undoes mime.FormatMediaType is trusted to the standard library."}
	hdr, cfg := libType(c, "pkg/po.Header"), libType(c, "pkg/po.HeaderConfig")
	if hdr == nil || cfg == nil {
		c.Fail("undecided", "types", "-", "the header types were not found")
		return
	}
	toCfg, toHdr := method(c, hdr, "ToConfig"), method(c, cfg, "ToHeader")
	if toCfg == nil || toHdr == nil {
		c.Fail("undecided", "conversions", "-", "the conversions were not found")
		return
	}
	parsers := textParsers(c)
	cst := cfg.Underlying().(*types.Struct)
	hst := hdr.Underlying().(*types.Struct)
	var fieldsF *types.Var
	var fieldT types.Type
	for i := 0; i < hst.NumFields(); i++ {
		if s, ok := hst.Field(i).Type().Underlying().(*types.Slice); ok {
			fieldsF, fieldT = hst.Field(i), s.Elem()
		}
	}
	fst, _ := fieldT.Underlying().(*types.Struct)
	if fst == nil || fst.NumFields() != 2 {
		c.Fail("undecided", "header fields", "-", "a header is not a list of key-value pairs")
		return
	}
	kn, vnm := fst.Field(0).Name(), fst.Field(1).Name()
	str := types.Typ[types.String]
	newE := func() *vn.Engine {
		e := newVN(c, load.IsLib)
		e.MaxParts = 256
		e.Hook = func(k *vn.Call) (bool, *vn.V) {
			if k.Fn != nil && parsers[k.Fn] {
				var rt types.Type = k.Fn.Signature.Results()
				if k.Fn.Signature.Results().Len() == 1 {
					rt = k.Fn.Signature.Results().At(0).Type()
				}
				return true, e.CallTerm(k.Name, k.Args, rt)
			}
			return false, nil
		}
		return e
	}
	isExtra := func(f *types.Var) bool { return types.Identical(f.Type().Underlying(), fieldsF.Type().Underlying()) }
	extras := []string{"X-Zulu", "X-Alpha", "X-Generator-Extra"}
	mkExtras := func(e *vn.Engine, t types.Type) *vn.V {
		var l []*vn.V
		for _, k := range extras {
			l = append(l, e.Struct(fieldT, []*vn.V{e.Str(k), e.Param("key "+k, str)}))
		}
		return e.Mk("list", "", t, l...)
	}

	// Configuration to header.
	e := newE()
	st := e.NewState()
	var vals []*vn.V
	var settings []*types.Var
	for i := 0; i < cst.NumFields(); i++ {
		f := cst.Field(i)
		if isExtra(f) {
			vals = append(vals, mkExtras(e, f.Type()))
			continue
		}
		p := e.Param(f.Name(), f.Type())
		vals = append(vals, p)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsInteger) != 0 {
			settings = append(settings, f)
			e.Assume(st, e.Not(e.Bin(tokenEQL, p, e.Zero(f.Type()), types.Typ[types.Bool])), true)
		}
	}
	for _, k := range extras {
		e.Assume(st, e.Not(e.Bin(tokenEQL, e.Param("key "+k, str), e.Str(""), types.Typ[types.Bool])), true)
	}
	outs := e.Run(toHdr, []*vn.V{e.Struct(cfg, vals)}, st)
	name, pos := fnName(toHdr), c.P.Pos(toHdr.Pos())
	if e.Err != nil || len(outs) == 0 {
		c.Fail("undecided", name, pos, fmt.Sprintf("ToHeader could not be analysed: %v", e.Err))
		return
	}
	writes := map[string][]string{} // key -> settings
	var order []string
	for _, o := range outs {
		h := o.Res[0]
		if vn.Strip(e.Field(h, "Template", types.Typ[types.Bool])) != e.Param("Template", types.Typ[types.Bool]) {
			c.Fail("template", name, pos, "the template mark of the configuration is not carried over")
		}
		l := vn.Strip(e.Field(h, fieldsF.Name(), fieldsF.Type()))
		if l.Op != "list" {
			c.Fail("undecided", name, pos, "the list of header fields is not known: "+l.String())
			return
		}
		var gotExtra []string
		order = nil
		for _, x := range l.A {
			k, ok := e.Field(x, kn, str).StrVal()
			if !ok {
				c.Fail("undecided", name, pos, "a header key is not constant")
				continue
			}
			v := vn.Strip(e.Field(x, vnm, str))
			if v.Op == "param" && strings.HasPrefix(v.P, "key ") {
				c.Check(v.P == "key "+k, "extra-kept", name, pos, "the value of extra field "+v.P[4:]+" is written under "+k)
				gotExtra = append(gotExtra, k)
				continue
			}
			m := map[string]bool{}
			mentions(e, o.St, v, m)
			fs := keysOf(m)
			if old, ok := writes[k]; ok && strings.Join(old, ",") != strings.Join(fs, ",") {
				c.Fail("one-source", name+" "+k, pos, fmt.Sprintf("%s is built from %v on one path and %v on another", k, old, fs))
			}
			writes[k] = fs
			order = append(order, k)
			c.Check(len(fs) > 0, "built-from-settings", name+" "+k, pos, k+" is written with a value that no setting determines")
			if len(fs) == 1 && v.Op != "param" {
				c.Fail("value-itself", name+" "+k, pos, k+" is not written as the setting "+fs[0]+" itself but as "+v.String())
			}
			if len(fs) > 1 {
				c26Format(c, e, o.St, name, pos, k, v)
			}
		}
		c.Check(strings.Join(gotExtra, "\n") == strings.Join(extras, "\n"), "extra-kept", name, pos, fmt.Sprintf("the extra fields come out as %q instead of %q", gotExtra, extras))
	}
	from := map[string]string{} // setting -> key
	for k, fs := range writes {
		for _, f := range fs {
			if from[f] != "" && from[f] != k {
				c.Fail("one-key", name+" "+f, pos, "setting "+f+" is written under both "+from[f]+" and "+k)
			}
			from[f] = k
		}
	}
	for _, f := range settings {
		c.Count("settings", 1)
		c.Check(from[f.Name()] != "", "written", name+" "+f.Name(), pos, "setting "+f.Name()+" is written under no key")
	}

	// Header to configuration.
	e = newE()
	st = e.NewState()
	var l []*vn.V
	var keys []string
	for _, k := range extras[:1] {
		keys = append(keys, k)
	}
	keys = append(keys, order...)
	keys = append(keys, extras[1:]...)
	for _, k := range keys {
		p := e.Param("key "+k, str)
		e.Assume(st, e.Not(e.Bin(tokenEQL, p, e.Str(""), types.Typ[types.Bool])), true)
		l = append(l, e.Struct(fieldT, []*vn.V{e.Str(k), p}))
	}
	var hv []*vn.V
	for i := 0; i < hst.NumFields(); i++ {
		if hst.Field(i) == fieldsF {
			hv = append(hv, e.Mk("list", "", fieldsF.Type(), l...))
		} else {
			hv = append(hv, e.Param(hst.Field(i).Name(), hst.Field(i).Type()))
		}
	}
	outs = e.Run(toCfg, []*vn.V{e.Struct(hdr, hv)}, st)
	name, pos = fnName(toCfg), c.P.Pos(toCfg.Pos())
	if e.Err != nil || len(outs) == 0 {
		c.Fail("undecided", name, pos, fmt.Sprintf("ToConfig could not be analysed: %v", e.Err))
		return
	}
	reads := map[string]map[string]bool{}
	for _, o := range outs {
		r := o.Res[0]
		c.Count("conversion paths", 1)
		if vn.Strip(e.Field(r, "Template", types.Typ[types.Bool])) != e.Param("Template", types.Typ[types.Bool]) {
			c.Fail("template", name, pos, "the template mark of the header is not carried over")
		}
		for i := 0; i < cst.NumFields(); i++ {
			f := cst.Field(i)
			v := vn.Strip(e.Field(r, f.Name(), f.Type()))
			if isExtra(f) {
				var got []string
				if s := e.Snapshot(o.St, v); s.Op == "list" {
					for _, x := range s.A {
						k, _ := e.Field(x, kn, str).StrVal()
						got = append(got, k)
						c.Check(vn.Strip(e.Field(x, vnm, str)) == e.Param("key "+k, str), "extra-kept", name+" "+k, pos, "the extra field "+k+" does not keep its value")
					}
				} else {
					c.Fail("undecided", name, pos, "the list of extra fields is not known: "+v.String())
				}
				c.Check(strings.Join(got, "\n") == strings.Join(extras, "\n"), "extra-kept", name, pos, fmt.Sprintf("the extra fields come out as %q instead of %q", got, extras))
				continue
			}
			m := map[string]bool{}
			mentions(e, o.St, v, m)
			if reads[f.Name()] == nil {
				reads[f.Name()] = map[string]bool{}
			}
			for k := range m {
				reads[f.Name()][k] = true
			}
			if k := from[f.Name()]; k != "" && len(writes[k]) == 1 {
				c.Check(v == e.Param("key "+k, str), "read-back", name+" "+f.Name(), pos, fmt.Sprintf("setting %s is written under %q but reading a header gives it %s", f.Name(), k, v))
			} else if k != "" {
				c26Part(c, e, name, pos, f.Name(), v)
			}
		}
	}
	for _, f := range settings {
		k := from[f.Name()]
		if k == "" {
			continue
		}
		got := keysOf(reads[f.Name()])
		c.Check(len(got) == 1 && got[0] == "key "+k, "read-back", name+" "+f.Name(), pos, fmt.Sprintf("setting %s is written under %q but read from %q", f.Name(), k, got))
	}
	c.Count("header keys", len(writes))
	c.Min("settings", 10)
	c.Min("header keys", 9)
}

// paramNameOf is the setting a parameter key ("nplurals", "plural", "charset") stands for.
func keyMatches(key, setting string) bool { return strings.EqualFold(key, setting) }

// c26Format: a value made of several settings must put each after its own name.
func c26Format(c *core.Ctx, e *vn.Engine, st *vn.State, name, pos, k string, v *vn.V) {
	parts := flatten(e, st, v)
	for i, p := range parts {
		if p.v == nil || p.v.Op != "param" || i == 0 || parts[i-1].v != nil {
			continue
		}
		pre := strings.TrimRight(parts[i-1].s, " ")
		if !strings.HasSuffix(pre, "=") {
			continue
		}
		pre = strings.TrimSuffix(pre, "=")
		j := strings.LastIndexAny(pre, " ;")
		c.Check(keyMatches(pre[j+1:], p.v.P), "parts", name+" "+k, pos, fmt.Sprintf("in %s the part %q is given the setting %s", k, pre[j+1:], p.v.P))
	}
	if v.Op == "call" {
		for _, a := range v.A {
			if a.Op != "mapver" {
				continue
			}
			ks, vs, ok := vn.MapEntries(a.A[0])
			for i := range ks {
				if key, isC := ks[i].StrVal(); ok && isC && vs[i].Op == "param" {
					c.Check(keyMatches(key, vs[i].P), "parts", name+" "+k, pos, fmt.Sprintf("in %s the parameter %q is given the setting %s", k, key, vs[i].P))
				}
			}
		}
	}
}

// c26Part: a setting read from a part of a value is read from the part of its own name.
func c26Part(c *core.Ctx, e *vn.Engine, name, pos, setting string, v *vn.V) {
	vn.Walk(v, func(x *vn.V) bool {
		if x.Op == "mapget" && len(x.A) > 1 {
			if key, ok := x.A[1].StrVal(); ok {
				c.Check(keyMatches(key, setting), "parts", name+" "+setting, pos, fmt.Sprintf("setting %s is read from the part %q", setting, key))
			}
		}
		return true
	})
}
