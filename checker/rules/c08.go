package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

func init() { register("C08", c08) }

// What gives another answer on another run.
var varying = regexp.MustCompile(`^(time\.(Now|Since|Until|After|Tick|NewTimer|NewTicker|AfterFunc|Sleep)|` +
	`math/rand(/v2)?\..*|\(math/rand(/v2)?\.[A-Za-z0-9]+\)\..*|crypto/rand\..*|hash/maphash\..*|\(hash/maphash\.[A-Za-z]+\)\..*|` +
	`os\.(Getpid|Getppid|Getuid|Getgid|Geteuid|Getegid|Hostname|Getenv|LookupEnv|Environ|ExpandEnv|MkdirTemp|CreateTemp|TempDir|UserHomeDir|UserCacheDir|UserConfigDir|Executable)|` +
	`os/user\..*|runtime\.(NumGoroutine|NumCPU|GOMAXPROCS|Caller|Callers|Stack|ReadMemStats|NumCgoCall|Gosched|SetFinalizer|AddCleanup)|runtime/debug\..*|` +
	`\(reflect\.Value\)\.(Pointer|UnsafeAddr|UnsafePointer|MapRange)|reflect\.(Select|MakeChan)|\(sync\.Pool\)\..*|\(sync\.Map\)\.Range|` +
	`maps\.(All|Keys|Values)|syscall\..*|os/exec\..*|net(/.*)?\..*)$`)

// Lists in no particular order.
var unordered = regexp.MustCompile(`^(\(reflect\.Value\)\.MapKeys|\(os\.File\)\.(Readdir|ReadDir|Readdirnames)|golang\.org/x/exp/maps\.(Keys|Values))$`)

var sorters = regexp.MustCompile(`^(sort\.(Strings|Ints|Float64s|Slice|SliceStable|Sort|Stable)|slices\.(Sort|SortFunc|SortStableFunc|Sorted|SortedFunc)|\(sort\.[A-Za-z]+Slice\)\.Sort|.*/internal/slices\.Sort.*)$`)

func c08(c *core.Ctx) {
	c.Rule = "in every function that can be reached from the library's exported API and package initialisation: no goroutine, select, channel, clock, random source, process, environment or address-dependent call; " +
		"every iteration over a map (or other unordered list) does the same in any order: it only looks for what decides a constant answer, fills tables under the iteration's own key, adds up numbers, or collects what is sorted before anything else is done with it; " +
		"no value whose printed form contains an address is formatted"
	c.Assumptions = []string{
		"participle, krfs, litter, go/parser and the fuzzy matcher are deterministic; directories are walked in the order krfs gives (sorted).",
		"Caller-supplied callbacks, writers and loggers are not part of the library. Highlighting colours may depend on the terminal settings.",
		"Values found by a key they are looked up with are unique (lexer token numbers).",
	}
	fns := repoFuncs(c, load.IsLib)
	reach := reachable(c, fns)
	c.Count("functions reached", len(reach))
	c.Min("functions reached", 250)
	for _, f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := c.P.Fset.Position(in.Pos()).String()
				switch in := in.(type) {
				case *ssa.Go:
					c.Fail("one thread", fnName(f)+": go", pos, "starts a goroutine")
				case *ssa.Select:
					c.Fail("one thread", fnName(f)+": select", pos, "select")
				case *ssa.Send:
					c.Fail("one thread", fnName(f)+": send", pos, "sends on a channel")
				case *ssa.MakeChan:
					c.Fail("one thread", fnName(f)+": channel", pos, "makes a channel")
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						c.Fail("one thread", fnName(f)+": receive", pos, "receives from a channel")
					}
				case *ssa.Convert:
					if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						if rt, ok := in.Type().Underlying().(*types.Basic); ok && rt.Info()&types.IsInteger != 0 {
							c.Fail("no addresses", fnName(f)+": address", pos, "turns an address into a number")
						}
					}
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						c.Count("iterations over maps", 1)
						for _, r := range *in.Referrers() {
							if nx, ok := r.(*ssa.Next); ok {
								why := orderMatters(nx.Block(), nx)
								c.Check(why == "", "any order", fnName(f)+": range over "+typeText(in.X.Type()), pos, why)
							}
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(ci.Common())
				c.Count("calls", 1)
				if v, ok := in.(*ssa.Call); ok && strings.HasPrefix(name, "(reflect.Value).") && identityOnly(v) {
					c.Count("addresses used as identities only", 1)
					continue
				}
				if varying.MatchString(name) {
					c.Fail("same on every run", fnName(f)+": "+name, pos, "depends on more than the input")
					continue
				}
				if unordered.MatchString(name) {
					c.Count("unordered lists", 1)
					v, _ := in.(ssa.Value)
					why := unorderedUse(v)
					c.Check(why == "", "any order", fnName(f)+": "+name, pos, why)
				}
				if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(log.Logger).") || strings.HasSuffix(name, "litter.Sdump") {
					why := printsAddress(f, ci.Common())
					c.Check(why == "", "no addresses", fnName(f)+": "+name, pos, why)
				}
			}
		}
		c.OK("one thread", fnName(f))
	}
}

func typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// reachable lists what exported functions and initialisation can run.
func reachable(c *core.Ctx, fns []*ssa.Function) []*ssa.Function {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	seen := map[*ssa.Function]bool{}
	var out, work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && in[f] {
			seen[f] = true
			out = append(out, f)
			work = append(work, f)
		}
	}
	for _, f := range fns {
		if isInit(f) || token.IsExported(f.Name()) && !strings.Contains(fnPkg(f), "/internal/") {
			add(f)
		}
	}
	conv := map[types.Type]bool{}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
						if o := g.Origin(); o != nil {
							add(o)
						}
					}
				}
				if mi, ok := i.(*ssa.MakeInterface); ok && !conv[mi.X.Type()] {
					conv[mi.X.Type()] = true
					ms := c.P.SSA.MethodSets.MethodSet(mi.X.Type())
					for k := 0; k < ms.Len(); k++ {
						add(c.P.SSA.MethodValue(ms.At(k)))
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// loopOf is the natural loop a block is the head of.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	loop[h] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}

// orderMatters tells why a loop, whose iterations are numbered by it, may do something else in
// another order; "" when it does not.
func orderMatters(h *ssa.BasicBlock, it ssa.Value) string {
	loop := loopOf(h)
	if loop == nil {
		return "" // at most one turn
	}
	// What comes from the turn.
	turn := map[ssa.Value]bool{it: true}
	for changed := true; changed; {
		changed = false
		for b := range loop {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || turn[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && turn[*op] {
						turn[v] = true
						changed = true
					}
				}
			}
		}
	}
	// What comes from earlier turns.
	earlier := map[ssa.Value]bool{}
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			earlier[phi] = true
		}
	}
	tables := map[ssa.Value]bool{}
	for b := range loop {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				tables[mu.Map] = true
			}
		}
	}
	key := map[ssa.Value]bool{}
	for v := range turn {
		if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == it && ex.Index == 1 {
			key[v] = true
		}
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if al, ok := in.Addr.(*ssa.Alloc); !ok || !loop[al.Block()] {
					if !localAddr(in.Addr, loop) {
						return "writes memory that is there beyond the turn"
					}
				}
			case *ssa.MapUpdate:
				if !key[in.Key] && !tokenKey(in.Key) {
					return "fills a table under a key that is not the iteration's own"
				}
				if mentionsAny(in.Value, earlier, it) {
					return "fills a table with what depends on earlier turns"
				}
			case *ssa.Lookup:
				if tables[in.X] && !key[in.Index] {
					return "looks at what earlier turns left in a table"
				}
			case *ssa.If:
				if b != h && mentionsAny(in.Cond, earlier, it) {
					return "a decision depends on earlier turns"
				}
			case *ssa.Phi:
				if b != h {
					continue
				}
				if why := carried(in, loop, earlier); why != "" {
					return why
				}
			case ssa.CallInstruction:
				if why := callMatters(in); why != "" {
					return why
				}
			case *ssa.Return:
				_ = in
			}
		}
	}
	// Where the loop is left early, only constants and what was there before may be told.
	for b := range loop {
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			if why := leaves(b, s, loop, turn, h); why != "" {
				return why
			}
		}
	}
	return ""
}

// leaves: what leaves the loop does not depend on the turn.
func leaves(from, to *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, turn map[ssa.Value]bool, h *ssa.BasicBlock) string {
	unique := uniqueHit(from, loop, turn)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) string
	walk = func(b *ssa.BasicBlock) string {
		if seen[b] || loop[b] {
			return ""
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					if loop[b.Preds[i]] && turn[e] && !(unique || isHeaderPhi(e, h)) {
						return "what is found first is kept"
					}
				}
				continue
			}
			if ci, ok := in.(ssa.CallInstruction); ok && from != h {
				if sorters.MatchString(calleeName(ci.Common())) {
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && turn[*op] && !isHeaderPhi(*op, h) && !unique {
					if from != h || !fromHeader(*op, h) {
						return "what is found first is used"
					}
				}
			}
		}
		for _, s := range b.Succs {
			if why := walk(s); why != "" {
				return why
			}
		}
		return ""
	}
	return walk(to)
}

func isHeaderPhi(v ssa.Value, h *ssa.BasicBlock) bool {
	phi, ok := v.(*ssa.Phi)
	return ok && phi.Block() == h
}

func fromHeader(v ssa.Value, h *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() == h
}

// uniqueHit: the loop is left for the one whose token number is asked for.
func uniqueHit(b *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, turn map[ssa.Value]bool) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	eq, ok := iff.Cond.(*ssa.BinOp)
	if !ok || eq.Op != token.EQL || turn[eq.X] == turn[eq.Y] || !loop[b.Succs[1]] {
		return false
	}
	for _, v := range []ssa.Value{eq.X, eq.Y} {
		if ex, ok := v.(*ssa.Extract); ok && turn[v] {
			return ex.Index == 1 || tokenKey(v)
		}
	}
	return false
}

func tokenKey(v ssa.Value) bool { return strings.HasSuffix(named(v.Type()), "lexer.TokenType") }

// localAddr: memory made in the turn.
func localAddr(a ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for i := 0; i < 10; i++ {
		switch x := a.(type) {
		case *ssa.Alloc:
			return loop[x.Block()]
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return false
		}
	}
	return false
}

// carried: what one turn hands to the next adds up the same in any order, or is sorted later.
func carried(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool, earlier map[ssa.Value]bool) string {
	var consts []*ssa.Const
	added := false
	ok := true
	for i, e := range phi.Edges {
		if loop[phi.Block().Preds[i]] && !sums(e, phi, earlier, &consts, &added, 0) {
			ok = false
		}
	}
	for _, k := range consts {
		if added || k.Value == nil || consts[0].Value == nil || !constant.Compare(k.Value, token.EQL, consts[0].Value) {
			ok = false
		}
	}
	if ok {
		return ""
	}
	for i, e := range phi.Edges {
		if loop[phi.Block().Preds[i]] && !appends(e, phi, 0) {
			return "a value handed from turn to turn depends on their order"
		}
	}
	if !sortedFirst(phi, loop) {
		return "what is collected is used before it is sorted"
	}
	return ""
}

// sums: the value handed on is the old one, the old one and a number that comes from the turn
// alone added up, or a constant.
func sums(v ssa.Value, phi *ssa.Phi, earlier map[ssa.Value]bool, consts *[]*ssa.Const, added *bool, d int) bool {
	if v == phi {
		return true
	}
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		*consts = append(*consts, v)
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !sums(e, phi, earlier, consts, added, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		t, ok := v.Type().Underlying().(*types.Basic)
		if ok && t.Info()&types.IsInteger != 0 && v.Op == token.ADD {
			*added = true
			for _, o := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				if !mentionsAny(o[1], earlier, nil) && mentionsAny(o[0], map[ssa.Value]bool{phi: true}, nil) {
					return sums(o[0], phi, earlier, consts, added, d+1)
				}
			}
		}
	}
	return false
}

// mentionsAny: a value is computed from one of some others, other than through stop.
func mentionsAny(v ssa.Value, what map[ssa.Value]bool, stop ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if v == stop {
			return false
		}
		if what[v] {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] || d > 20 {
			return false
		}
		seen[v] = true
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op, d+1) {
				return true
			}
		}
		return false
	}
	return walk(v, 0)
}

func appends(v ssa.Value, phi *ssa.Phi, d int) bool {
	if v == phi {
		return true
	}
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !appends(e, phi, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return appends(v.Call.Args[0], phi, d+1)
		}
	}
	return false
}

// sortedFirst: outside the loop, the list is sorted before anything else sees it.
func sortedFirst(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	var sorter ssa.Instruction
	var uses []ssa.Instruction
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			if loop[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.MakeInterface:
				collect(x)
				continue
			case *ssa.ChangeType:
				collect(x)
				continue
			case ssa.CallInstruction:
				if sorters.MatchString(calleeName(x.Common())) {
					if sorter == nil {
						sorter = r
					}
					continue
				}
			}
			uses = append(uses, r)
		}
	}
	collect(phi)
	if sorter == nil {
		return len(uses) == 0
	}
	for _, u := range uses {
		if u.Block() == sorter.Block() {
			before := false
			for _, in := range u.Block().Instrs {
				if in == u {
					before = true
					break
				}
				if in == sorter {
					break
				}
			}
			if before {
				return false
			}
		} else if !sorter.Block().Dominates(u.Block()) {
			return false
		}
	}
	return true
}

// callMatters: what is called in a turn must not leave traces that show the order.
func callMatters(ci ssa.CallInstruction) string {
	if _, ok := ci.(*ssa.Call); !ok {
		return "defers work"
	}
	cc := ci.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "print", "println", "copy":
			return "calls " + bi.Name()
		}
		return ""
	}
	if cc.IsInvoke() {
		return "calls " + cc.Method.Name() + " of an interface"
	}
	g := cc.StaticCallee()
	if g == nil {
		return "calls a function value"
	}
	if !quiet(g, map[*ssa.Function]bool{}) {
		return "calls " + funcName(g) + ", which can leave traces"
	}
	return ""
}

var quietOutside = regexp.MustCompile(`^(strings\.[A-Z][A-Za-z]*|bytes\.(Compare|Contains|Equal|HasPrefix|HasSuffix|Index|TrimSpace|Split)|unicode\..*|unicode/utf8\..*|math\..*|strconv\..*|path/filepath\.(Base|Clean|Ext|Dir|Join)|cmp\..*|\(reflect\.[A-Za-z]+\)\..*|reflect\.(ValueOf|TypeOf|DeepEqual)|fmt\.(Sprint.*|Errorf)|errors\..*|slices\.(Contains|Index|Equal|Compare)(Func)?|maps\.Equal)$`)

// quiet: the function only computes; tables it keeps for itself may be added to.
func quiet(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return true
	}
	seen[g] = true
	if len(g.Blocks) == 0 || !load.InRepo(fnPkg(g)) && !strings.Contains(fnPkg(g), "/internal/") {
		return quietOutside.MatchString(funcName(g))
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr, blockSet(g)) {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return false
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "print" || bi.Name() == "println" {
						return false
					}
					continue
				}
				h := in.Call.StaticCallee()
				if h == nil {
					if in.Call.IsInvoke() && strings.HasPrefix(named(in.Call.Value.Type()), "reflect.") {
						continue
					}
					return false
				}
				if !quiet(h, seen) {
					return false
				}
			}
		}
	}
	return true
}

func blockSet(g *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range g.Blocks {
		m[b] = true
	}
	return m
}

// unorderedUse: a list in no particular order may be counted, sorted, or gone through in a way
// that does not depend on the order.
func unorderedUse(v ssa.Value) string {
	if v == nil {
		return "is not followed"
	}
	var why string
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Return:
				if _, ok := r.(*ssa.Return); ok {
					why = "is returned as it is"
				}
			case *ssa.Extract:
				if _, ok := r.Type().Underlying().(*types.Slice); ok {
					follow(r)
				}
			case *ssa.Call:
				if bi, ok := r.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
				if sorters.MatchString(calleeName(&r.Call)) {
					continue
				}
				why = "is given to " + calleeName(&r.Call)
			case *ssa.IndexAddr, *ssa.Index:
				in := r.(ssa.Instruction)
				h := headOf(in.Block())
				if h == nil {
					why = "an element is picked"
					continue
				}
				if w := orderMatters(h, r.(ssa.Value)); w != "" {
					why = w
				}
			default:
				why = fmt.Sprintf("is used in %T", r)
			}
		}
	}
	follow(v)
	return why
}

// headOf is the head of the innermost loop a block is in.
func headOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 1 << 30
	for _, h := range b.Parent().Blocks {
		if l := loopOf(h); l != nil && l[b] && len(l) < n {
			best, n = h, len(l)
		}
	}
	return best
}

// identityOnly: a number is compared for equality or used as a key, nothing else.
func identityOnly(v ssa.Value) bool {
	if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Uintptr {
		return false
	}
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value) bool
	follow = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if r.Op != token.EQL && r.Op != token.NEQ {
					return false
				}
			case *ssa.Lookup:
				if r.X == v {
					return false
				}
			case *ssa.MapUpdate:
				if r.Value == v || r.Map == v {
					return false
				}
			case *ssa.UnOp, *ssa.Phi, *ssa.FieldAddr, *ssa.IndexAddr:
				if !follow(r.(ssa.Value)) {
					return false
				}
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				a := r.Addr
				for {
					if x, ok := a.(*ssa.IndexAddr); ok {
						a = x.X
					} else if x, ok := a.(*ssa.FieldAddr); ok {
						a = x.X
					} else {
						break
					}
				}
				al, ok := a.(*ssa.Alloc)
				if !ok || !follow(al) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return follow(v)
}

// printsAddress tells when a value's printed form would contain an address.
func printsAddress(f *ssa.Function, cc *ssa.CallCommon) string {
	for _, a := range cc.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			return "prints an address"
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if t := mi.X.Type(); hasAddress(t, true, map[types.Type]bool{}) {
					return "the printed form of a " + typeText(t) + " contains an address"
				}
			}
		}
	}
	return ""
}

func printsItself(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Error", "String", "Format", "GoString":
			return true
		}
	}
	return false
}

func hasAddress(t types.Type, top bool, seen map[types.Type]bool) bool {
	if seen[t] || printsItself(t) {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if !top {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return hasAddress(u.Elem(), false, seen)
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasAddress(u.Field(i).Type(), false, seen) {
				return true
			}
		}
	case *types.Slice:
		return hasAddress(u.Elem(), false, seen)
	case *types.Array:
		return hasAddress(u.Elem(), false, seen)
	case *types.Map:
		return hasAddress(u.Elem(), false, seen) || hasAddress(u.Key(), false, seen)
	}
	return false
}
