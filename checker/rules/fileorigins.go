package rules

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

// fileOrigins traces file values back to the calls that opened them.
type fileOrigins struct {
	callers map[*ssa.Function][]ssa.CallInstruction
	binds   map[*ssa.FreeVar][]ssa.Value
}

func newFileOrigins(c *core.Ctx) *fileOrigins {
	o := &fileOrigins{map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.FreeVar][]ssa.Value{}}
	for _, f := range repoFuncs(c, load.InRepo) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						o.callers[g] = append(o.callers[g], ci)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
						o.binds[fv] = append(o.binds[fv], mc.Bindings[i])
					}
				}
			}
		}
	}
	return o
}

type origin struct {
	kind string // "open", "write", "std", "unknown"
	in   ssa.Instruction
}

// origins lists where a file (or list of files) can come from.
func (o *fileOrigins) origins(v ssa.Value) []origin {
	var out []origin
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	var cell func(a ssa.Value)
	cell = func(a ssa.Value) {
		switch a := a.(type) {
		case *ssa.Global:
			if a.Pkg != nil && a.Pkg.Pkg.Path() == "os" {
				out = append(out, origin{"std", nil})
			} else {
				out = append(out, origin{"unknown", nil})
			}
		case *ssa.Alloc:
			if seen[a] {
				return
			}
			seen[a] = true
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == a {
						walk(r.Val)
					}
				case *ssa.IndexAddr:
					for _, r2 := range *r.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == r {
							walk(st.Val)
						}
					}
				}
			}
		case *ssa.FreeVar:
			for _, b := range o.binds[a] {
				cell(b)
			}
		case *ssa.IndexAddr:
			walk(a.X)
		default:
			out = append(out, origin{"unknown", nil})
		}
	}
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Slice:
			if a, ok := x.X.(*ssa.Alloc); ok {
				cell(a)
			} else {
				walk(x.X)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				cell(x.X)
			}
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Next); ok {
				out = append(out, origin{"unknown", nil})
				return
			}
			o.fromCall(x.Tuple, x.Index, walk, &out)
		case *ssa.Call:
			o.fromCall(x, 0, walk, &out)
		case *ssa.Parameter:
			f := x.Parent()
			idx := -1
			for i, p := range f.Params {
				if p == x {
					idx = i
				}
			}
			cs := o.callers[f]
			if len(cs) == 0 || (f.Object() != nil && f.Object().Exported() && load.IsLib(fnPkg(f))) {
				out = append(out, origin{"unknown", nil})
			}
			for _, ci := range cs {
				walk(ci.Common().Args[idx])
			}
		case *ssa.FreeVar:
			for _, b := range o.binds[x] {
				walk(b)
			}
		default:
			out = append(out, origin{"unknown", nil})
		}
	}
	walk(v)
	return out
}

func (o *fileOrigins) fromCall(t ssa.Value, idx int, walk func(ssa.Value), out *[]origin) {
	c, ok := t.(*ssa.Call)
	if !ok {
		*out = append(*out, origin{"unknown", nil})
		return
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		for _, a := range c.Call.Args {
			walk(a)
		}
		return
	}
	if k := openKind(&c.Call); k != "" {
		*out = append(*out, origin{k, c})
		return
	}
	f := c.Call.StaticCallee()
	if f != nil && load.InRepo(fnPkg(f)) && len(f.Blocks) > 0 {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && idx < len(r.Results) {
					walk(r.Results[idx])
				}
			}
		}
		return
	}
	*out = append(*out, origin{"unknown", c})
}

// openKind classifies a call that opens a file: "open" (reading only), "write", or "".
func openKind(cc *ssa.CallCommon) string {
	switch calleeName(cc) {
	case "os.Open":
		return "open"
	case "os.Create", "os.CreateTemp":
		return "write"
	case "os.OpenFile":
		if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64()&3 == 0 && k.Int64()&0o1000 == 0 {
			return "open"
		}
		return "write"
	}
	return ""
}

// readOnly: every file the value can be was opened for reading only.
func (o *fileOrigins) readOnly(v ssa.Value) bool {
	os := o.origins(v)
	for _, x := range os {
		if x.kind != "open" && x.kind != "std" {
			return false
		}
	}
	return len(os) > 0
}

var _ = strings.HasPrefix
