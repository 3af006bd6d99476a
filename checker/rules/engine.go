package rules

import (
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

// newVN prepares an interpreter with the contents of the library's (and, when wanted, the
// tools') initialised globals.
func newVN(c *core.Ctx, pred func(string) bool) *vn.Engine {
	e := vn.New(c.P.SSA, func(f *ssa.Function) bool { return pred(vn.PkgOf(f)) || followedStd[stdName(f)] })
	e.RepoPkg = load.InRepo
	e.AllFuncs = repoFuncs(c, load.InRepo)
	var ps []*ssa.Package
	for path, p := range c.P.SPkgs {
		if pred(path) {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	e.RunInits(ps)
	return e
}

// followedStd are the simple generic functions of the standard library whose source is
// analysed like the repository's own.
var followedStd = map[string]bool{
	"slices.Index": true, "slices.IndexFunc": true, "slices.Contains": true, "slices.ContainsFunc": true,
	"slices.Clip": true, "slices.Clone": true, "slices.Equal": true, "slices.EqualFunc": true, "slices.Reverse": true,
	"cmp.Compare": true,
}

// stdName is the name of a standard library function without its type arguments.
func stdName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Signature.Recv() != nil || f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path() + "." + f.Name()
}
