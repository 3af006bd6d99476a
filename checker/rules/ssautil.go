package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/core"
	"verif/checker/load"
)

// fnPkg is the import path of the package a function (or instance, or closure) was written in.
func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// fnName is a stable name of a function: package-relative, with receiver and closure number.
func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, load.ModPath+"/", "")
	return s
}

var allFuncsCache map[*ssa.Program][]*ssa.Function

// repoFuncs lists every function with a body written in the repository that satisfies pred
// on its package: declared functions, methods, closures and generic instances (not generic
// origins), in a stable order.
func repoFuncs(c *core.Ctx, pred func(string) bool) []*ssa.Function {
	if allFuncsCache == nil {
		allFuncsCache = map[*ssa.Program][]*ssa.Function{}
	}
	all := allFuncsCache[c.P.SSA]
	if all == nil {
		for f := range ssautil.AllFunctions(c.P.SSA) {
			if !load.InRepo(fnPkg(f)) || len(f.Blocks) == 0 {
				continue
			}
			if f.Synthetic != "" && f.Name() != "init" && f.Origin() == nil {
				continue // wrappers, thunks and bound methods
			}
			if isGenericOrigin(f) {
				continue
			}
			all = append(all, f)
		}
		sort.Slice(all, func(i, j int) bool {
			if a, b := fnName(all[i]), fnName(all[j]); a != b {
				return a < b
			}
			return all[i].Pos() < all[j].Pos()
		})
		allFuncsCache[c.P.SSA] = all
	}
	var out []*ssa.Function
	for _, f := range all {
		if pred(fnPkg(f)) {
			out = append(out, f)
		}
	}
	return out
}

func isGenericOrigin(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.TypeParams().Len() > 0 && len(g.TypeArgs()) == 0 {
			return true
		}
	}
	return false
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

func isErrorSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isError(s.Elem())
}

// named returns "pkgpath.Name" of a named type or of what it points to.
func named(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// calleeName names the static callee of a call as "pkg.Func" or "(pkg.T).Method";
// for interface calls "(iface pkg.T).Method"; "" when it is a function value.
func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(iface " + named(cc.Value.Type()) + ")." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return ""
	}
	return funcName(f)
}

func funcName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + named(r.Type()) + ")." + f.Name()
	}
	if f.Parent() != nil {
		return fnName(f)
	}
	return fnPkg(f) + "." + f.Name()
}

// hasPointers reports whether values of the type can reach memory.
func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}
