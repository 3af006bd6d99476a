package rules

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

func init() { register("C07", c07) }

// Functions outside the repository that change process-wide state.
var globalMutators = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true,
	"log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true,
	"math/rand.Seed": true, "runtime.GOMAXPROCS": true, "mime.AddExtensionType": true,
	"runtime/debug.SetGCPercent": true, "runtime/debug.SetMaxStack": true, "runtime/debug.SetMemoryLimit": true,
	"encoding/gob.Register": true, "encoding/gob.RegisterName": true, "expvar.Publish": true, "time.LoadLocation": false,
}

// Methods outside the repository that do not change the state of their receiver in a way a
// caller can see (they are documented as safe for concurrent use or as pure).
var pureReceivers = regexp.MustCompile(`^\((` + strings.Join([]string{
	`regexp\.Regexp`, `strings\.Replacer`, `reflect\.rtype`, `time\.Location`, `time\.Time`, `text/template\.Template`,
	`github\.com/alecthomas/participle/v2\.Parser`, `github\.com/alecthomas/participle/v2/lexer\.StatefulDefinition`,
	`log\.Logger`, `io/fs\.FileMode`, `math/big\.Int`, `math/big\.Float`,
}, "|") + `)\)\.`)

// Plain functions outside the repository that write through an argument.
var argMutators = regexp.MustCompile(`^(sort\.(Slice|SliceStable|Sort|Stable|Strings|Ints|Float64s)|` +
	`slices\.(Sort|SortFunc|SortStableFunc|Reverse|Insert|Delete|DeleteFunc|Compact|CompactFunc|Replace|Grow)|` +
	`maps\.(Copy|DeleteFunc|Insert)|io\.(Read.*|Copy.*|WriteString)|bufio\.New.*|encoding/binary\.(Read|Write|Decode|PutUvarint|PutVarint|Append)|` +
	`encoding/json\.Unmarshal|fmt\.(Fprint.*|Sscan.*|Fscan.*|Scan.*)|sync/atomic\..*|reflect\.(Copy|Swapper|ValueOf|Indirect)|unsafe\..*|` +
	`bytes\.NewBuffer|crypto/rand\.Read|math/rand\.Shuffle)$`)

// Interface methods that do not write through their receiver.
var pureIfaceMethods = map[string]bool{"Error": true, "String": true, "Unwrap": true, "Is": true, "As": true, "Len": true, "Less": true,
	"Uint16": true, "Uint32": true, "Uint64": true, "Name": true, "Size": true, "Mode": true, "IsDir": true, "Pos": true, "End": true, "GoString": true}

func c07(c *core.Ctx) {
	c.Rule = "A points-to analysis (inclusion-based, object- and call-site-sensitive, field- and flow-insensitive) over every library function computes the memory each store, map update, append, copy, delete and " +
		"outside call can touch; package initialisation is kept apart. No write outside initialisation may touch a package-level variable or an object reachable from one, " +
		"no such object may be passed to an outside function that writes through it, no sync or atomic primitive or goroutine may be used on one, and no outside function that changes process-wide state may be called."
	c.Assumptions = []string{
		"caller-supplied callbacks and writers are not part of the library",
		"methods of the outside types listed as pure (regexp.Regexp, participle.Parser, log.Logger, ...) are safe for concurrent use, as documented",
	}
	fns := repoFuncs(c, load.IsLib)
	p := newPTA(c.P.SSA, fns)

	// Objects reachable from package-level variables, with the variable that reaches them.
	via := map[*pobj]*ssa.Global{}
	var work []*pobj
	var gl []*ssa.Global
	for g := range p.globs {
		gl = append(gl, g)
	}
	// Every package-level variable of the library counts, used or not.
	for _, pk := range c.P.SPkgs {
		if pk == nil || !load.IsLib(pk.Pkg.Path()) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$guard") {
				c.Count("package-level variables", 1)
			}
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
	for _, g := range gl {
		o := p.globs[g]
		via[o] = g
		work = append(work, o)
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		next := func(x *pobj) {
			if x.kind == "func" {
				return
			}
			if via[x] == nil {
				via[x] = via[o]
				work = append(work, x)
			}
		}
		for x := range o.cont {
			next(x)
		}
		if o.kind == "closure" {
			if mc, ok := o.site.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					for x := range p.pts(o.ctx, b) {
						next(x)
					}
				}
			}
		}
	}
	gname := func(g *ssa.Global) string { return strings.ReplaceAll(g.String(), load.ModPath+"/", "") }
	hit := func(objs map[*pobj]bool) *ssa.Global {
		var best *ssa.Global
		for o := range objs {
			if g := via[o]; g != nil && (best == nil || g.String() < best.String()) {
				best = g
			}
		}
		return best
	}
	initOnly := func(w *pwrite) bool { return w.ctx.init }
	for _, k := range p.wOrder {
		w := p.writes[k]
		if initOnly(w) {
			continue
		}
		c.Count("write sites analysed (per calling context)", 1)
		f := w.ctx.fn
		if g := hit(w.objs); g != nil {
			c.Fail("global-write", fnName(f)+"->"+gname(g), c.P.Pos(w.in.Pos()), fmt.Sprintf("%s %s memory of the package-level variable %s", fnName(f), w.what, gname(g)))
		} else {
			c.OK("global-write", fnName(f)+" at "+c.P.Pos(w.in.Pos()))
		}
	}
	for _, k := range p.eOrder {
		w := p.extArgs[k]
		if initOnly(w) {
			continue
		}
		g := hit(w.objs)
		if g == nil {
			continue
		}
		f := w.ctx.fn
		name, idx, _ := strings.Cut(w.what, "#")
		c.Count("global memory passed to outside functions", 1)
		bad := false
		switch {
		case name == "callback":
			bad = g.Pkg != nil && load.InRepo(g.Pkg.Pkg.Path())
			name = "a caller-supplied function"
		case strings.HasPrefix(name, "(iface "):
			m := name[strings.LastIndex(name, ".")+1:]
			bad = idx == "0" && !pureIfaceMethods[m] && !ifaceOfRepo(name)
			if g.Pkg != nil && !load.InRepo(g.Pkg.Pkg.Path()) {
				bad = false // e.g. io.Discard, binary.LittleEndian, os.Stdout
			}
		case strings.HasPrefix(name, "("):
			bad = idx == "0" && !pureReceivers.MatchString(name) && !(g.Pkg != nil && !load.InRepo(g.Pkg.Pkg.Path()))
		default:
			bad = argMutators.MatchString(name) && !readOnlyArg(name, idx)
		}
		if bad {
			c.Fail("global-write", fnName(f)+"->"+gname(g)+" via "+name, c.P.Pos(w.in.Pos()), fmt.Sprintf("%s passes memory of the package-level variable %s to %s, which writes it", fnName(f), gname(g), name))
		} else {
			c.OK("global-passed", fnName(f)+" passes "+gname(g)+" to "+name)
		}
	}
	for _, f := range fns {
		if isInit(f) {
			continue
		}
		c.Count("functions", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(ci.Common())
					if globalMutators[n] {
						c.Fail("process-state", fnName(f)+"->"+n, c.P.Pos(in.Pos()), fnName(f)+" calls "+n+", which changes process-wide state")
					}
				}
			}
		}
	}
	c.Min("functions", 200)
	c.Min("write sites analysed (per calling context)", 300)
	c.Min("package-level variables", 15)
}

func ifaceOfRepo(name string) bool { return strings.Contains(name, load.ModPath) }

// readOnlyArg tells which argument of a writing function is only read.
func readOnlyArg(name, idx string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Fprint"):
		return idx != "0"
	case strings.HasPrefix(name, "io.Copy"):
		return false
	case name == "io.WriteString":
		return idx != "0"
	case strings.HasPrefix(name, "encoding/binary.Write"):
		return idx != "0"
	case strings.HasPrefix(name, "encoding/binary.Read"):
		return idx == "1"
	case strings.HasPrefix(name, "maps.Copy"):
		return idx != "0"
	case strings.HasPrefix(name, "reflect.ValueOf"):
		return true
	case strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Delete"), strings.HasPrefix(name, "slices.Compact"), strings.HasPrefix(name, "sort."):
		return idx != "0"
	}
	return false
}
