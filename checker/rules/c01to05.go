package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

func init() {
	register("C01", panicRule("pkg/po/parse", "Mo", true, 15, 80))
	register("C02", panicRule("pkg/po/parse", "Po", false, 20, 120))
	register("C03", panicRule("pkg/go/parse", "", false, 25, 250))
	register("C04", panicRule("pkg/po", "", false, 80, 400))
	register("C05", panicRule("pkg/po/compile", "", false, 40, 250))
}

// panicRule decides that nothing that can be reached from the exported functions of a package
// (those of one format) can panic; for a reader of lengths, also that reserved memory is backed
// by memory there already is.
func panicRule(pkg, format string, memory bool, minEntries, minObs int) func(*core.Ctx) {
	return func(c *core.Ctx) {
		c.Rule = "every instruction that can panic, in every function that can be reached from the exported functions of " + pkg + ", is excluded from doing so by the facts of each path that leads to it (value numbering with linear order facts, loop invariants, nil-ness summaries); where a function's own facts do not suffice, its callees are followed or it is analysed in its callers' place"
		if memory {
			c.Rule += "; reserved memory is a constant up to 64 KiB or at most the length of something that is in memory already"
		}
		c.Assumptions = append(c.Assumptions,
			"Arguments and receivers given as pointers, readers, writers, callbacks and options are not nil, and lists given by callers hold no nil elements.",
			"Callbacks do not panic and do not use the object being operated on; explicit index arguments are in range.",
			"The standard library, participle, krfs and reflect-based comparison do not panic on the values given to them (preconditions of repeat counts, patterns, replacers and fixed-size buffers are checked) and keep their documented contracts.",
			"Memory and stack do not run out; termination is not analysed.",
		)
		pred := func(p string) bool { return load.InRepo(p) && !strings.Contains(p, "/cli") }
		a := newPanicAn(c, pred, func(f *ssa.Function) bool {
			if !token.IsExported(f.Name()) || !strings.HasSuffix(fnPkg(f), "/"+pkg) {
				return false
			}
			return format == "" || ofFormat(f, format)
		})
		a.memory = memory
		a.solve()
		c.Count("entry points", len(a.entry))
		c.Count("functions reached", len(a.order))
		c.Min("entry points", minEntries)
		total := 0
		for _, f := range a.order {
			r := a.runs[f]
			if r == nil || a.inl[f] {
				continue
			}
			if r.err != nil {
				c.Fail("analysable", fnName(f), c.P.Fset.Position(f.Pos()).String(), r.err.Error())
				continue
			}
			c.Count("analysed in their own right", 1)
			for _, o := range sortedObs(r) {
				total++
				pos := c.P.Fset.Position(o.in.Pos())
				where := fnName(o.fn)
				if o.fn != f {
					where += " (from " + fnName(f) + ")"
				}
				c.Count("paths", o.n)
				c.Check(o.bad == 0, "no panic", where+": "+o.what, pos.String(), fmt.Sprintf("%d of %d paths do not exclude it: %s", o.bad, o.n, cut(o.term, 300)))
			}
		}
		c.Count("obligations", total)
		c.Min("obligations", minObs)
		var inl []string
		for f := range a.inl {
			inl = append(inl, fnName(f))
		}
		sort.Strings(inl)
		c.Count("analysed in their callers' place", len(inl))
	}
}

// ofFormat tells what belongs to the reader of one format: its receiver or name says so, or
// neither names the other format.
func ofFormat(f *ssa.Function, format string) bool {
	name := f.Name()
	if r := f.Signature.Recv(); r != nil {
		name = r.Type().String()
		name = name[strings.LastIndex(name, ".")+1:]
	}
	if strings.Contains(name, format) {
		return true
	}
	return !strings.Contains(name, "Mo") && !strings.Contains(name, "Po")
}
