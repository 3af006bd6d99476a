package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

// Error flow: every error an operation can produce is followed along every path of
// the function that receives it.  The state of a path is the set of values and memory
// cells that hold the pending error ("carriers"); conditions on carriers prune paths on
// which the error would be nil.  At each return the error must be in an error result, in
// the error list of a parameter object, or in an error cell of the caller.

type ecell struct {
	root  ssa.Value
	field int // -1: the cell itself
}

type estate struct {
	vals  map[ssa.Value]bool
	cells map[ecell]bool
	loops map[ssa.Value]bool // loop conditions over a pending list that were true once
}

func newEstate() *estate {
	return &estate{map[ssa.Value]bool{}, map[ecell]bool{}, map[ssa.Value]bool{}}
}

func (s *estate) clone() *estate {
	n := newEstate()
	for v := range s.loops {
		n.loops[v] = true
	}
	for v := range s.vals {
		n.vals[v] = true
	}
	for c := range s.cells {
		n.cells[c] = true
	}
	return n
}

func (s *estate) key() string {
	var ks []string
	for v := range s.vals {
		ks = append(ks, v.Name())
	}
	for c := range s.cells {
		ks = append(ks, fmt.Sprintf("%s.%d", c.root.Name(), c.field))
	}
	for v := range s.loops {
		ks = append(ks, "loop "+v.Name())
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// eoutcome is how one path ends, seen from the caller.
type eoutcome struct {
	kind     string // "report", "drop", "exempt"
	returned bool
	cells    string // "p0.3 f1.-1": parameter/free variable number and field
}

type esummary struct {
	done   bool
	starts map[eoutcome]bool // outcomes of the errors produced inside
}

type errViolation struct {
	fn   *ssa.Function
	in   ssa.Instruction
	what string
	path string
}

type errFlow struct {
	c        *core.Ctx
	sums     map[*ssa.Function]*esummary
	params   map[string]map[eoutcome]bool
	paramRun map[string]bool
	viol     map[string]errViolation
	nProd    int
	prods    map[ssa.Instruction]bool
	recCache map[*types.Named][]int
	open     *fileOrigins
	changed  bool
}

var ignoreErrorsName = regexp.MustCompile(`(?i)^ignoreErrors?$`)

func newErrFlow(c *core.Ctx) *errFlow {
	e := &errFlow{c: c, sums: map[*ssa.Function]*esummary{}, params: map[string]map[eoutcome]bool{}, paramRun: map[string]bool{},
		viol: map[string]errViolation{}, prods: map[ssa.Instruction]bool{}, recCache: map[*types.Named][]int{}}
	e.open = newFileOrigins(c)
	return e
}

// run analyses the functions until the summaries are stable.
func (e *errFlow) run(fns []*ssa.Function) {
	for round := 0; round < 12; round++ {
		e.changed = false
		e.viol = map[string]errViolation{}
		e.params = map[string]map[eoutcome]bool{}
		for _, f := range fns {
			e.function(f)
		}
		if !e.changed {
			return
		}
	}
	panic("error-flow summaries did not stabilise")
}

func (e *errFlow) sum(f *ssa.Function) *esummary {
	s := e.sums[f]
	if s == nil {
		s = &esummary{starts: map[eoutcome]bool{}}
		e.sums[f] = s
	}
	return s
}

// --- what types carry errors

func errorish(t types.Type) bool {
	if isError(t) || isErrorSlice(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isError(s.Field(i).Type()) || isErrorSlice(s.Field(i).Type()) {
				// Only plain data holders, not objects with their own error methods.
				if n, ok := types.Unalias(t).(*types.Named); ok && hasErrorGetter(n) {
					return false
				}
				return true
			}
		}
	}
	return false
}

func hasErrorGetter(n *types.Named) bool {
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && (isError(sig.Results().At(0).Type()) || isErrorSlice(sig.Results().At(0).Type())) {
			switch m.Name() {
			case "Error", "Errors", "Err":
				return true
			}
		}
	}
	return false
}

func resultErrorish(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if errorish(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// getter reports a repository method that only hands out the recorded errors of its receiver.
func (e *errFlow) getter(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	r := f.Signature.Results().At(0).Type()
	if !isError(r) && !isErrorSlice(r) {
		return false
	}
	n, ok := types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named)
	if !ok {
		return false
	}
	reads := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if t := fieldOf(in.X.Type(), in.Field); isError(t) || isErrorSlice(t) {
					reads = true
				}
			case *ssa.Field:
				if t := fieldOf(in.X.Type(), in.Field); isError(t) || isErrorSlice(t) {
					reads = true
				}
			case ssa.CallInstruction:
				if _, ok := in.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				if g := in.Common().StaticCallee(); g != nil && g != f && load.InRepo(fnPkg(g)) && e.getter(g) {
					reads = true
					continue
				}
				return false
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	_ = n
	return reads
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldOf(t types.Type, i int) types.Type {
	if s, ok := deref(t).Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return types.Typ[types.Invalid]
}

func fieldName(t types.Type, i int) string {
	if s, ok := deref(t).Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return ""
}

// --- object identity

func uniqueStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

func rootOf(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			switch y := x.X.(type) {
			case *ssa.FreeVar:
				return y
			case *ssa.Alloc:
				if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr {
					if s := uniqueStore(y); s != nil {
						v = s
						continue
					}
					return y
				}
				// A copy of a struct: the same object as far as recorded errors go.
				if s := uniqueStore(y); s != nil {
					if _, isStruct := x.Type().Underlying().(*types.Struct); isStruct && rootOf(s) != s {
						v = s
						continue
					}
				}
				return y
			}
			if _, isStruct := x.Type().Underlying().(*types.Struct); isStruct {
				v = x.X
				continue
			}
			return v
		case *ssa.Alloc:
			// A parameter spilled to memory.
			if s := uniqueStore(x); s != nil {
				if p, ok := s.(*ssa.Parameter); ok {
					return p
				}
				if _, isStruct := s.Type().Underlying().(*types.Struct); isStruct {
					if u, ok := s.(*ssa.UnOp); ok && u.Op == token.MUL {
						v = u.X
						continue
					}
				}
			}
			return x
		default:
			return v
		}
	}
	return v
}

func cellOf(addr ssa.Value) (ecell, bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return ecell{rootOf(a.X), a.Field}, true
	case *ssa.IndexAddr:
		return ecell{rootOf(a.X), -1}, false
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
		return ecell{a, -1}, true
	}
	return ecell{addr, -1}, false
}

// --- exploration of one function

type eitem struct {
	b  *ssa.BasicBlock
	i  int
	st *estate
}

type explorer struct {
	e       *errFlow
	f       *ssa.Function
	outs    map[eoutcome]string // outcome -> path end
	seen    map[string]bool
	work    []eitem
	dropPos ssa.Instruction
}

func paramIndex(f *ssa.Function, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x {
				return fmt.Sprintf("p%d", i), true
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == x {
				return fmt.Sprintf("f%d", i), true
			}
		}
	}
	return "", false
}

// explore follows a pending error from an instruction to every exit.
func (e *errFlow) explore(f *ssa.Function, b *ssa.BasicBlock, i int, st *estate) (map[eoutcome]string, ssa.Instruction) {
	x := &explorer{e: e, f: f, outs: map[eoutcome]string{}, seen: map[string]bool{}}
	x.push(b, i, st)
	for n := 0; len(x.work) > 0; n++ {
		if n > 200000 {
			panic("error-flow exploration of " + fnName(f) + " does not end")
		}
		it := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.step(it)
	}
	return x.outs, x.dropPos
}

func (x *explorer) push(b *ssa.BasicBlock, i int, st *estate) {
	k := fmt.Sprintf("%d:%d:%s", b.Index, i, st.key())
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	x.work = append(x.work, eitem{b, i, st})
}

func (x *explorer) out(o eoutcome, in ssa.Instruction) {
	if _, ok := x.outs[o]; !ok {
		x.outs[o] = x.e.c.P.Pos(in.Pos())
	}
	if o.kind == "drop" && x.dropPos == nil {
		x.dropPos = in
	}
}

func (x *explorer) step(it eitem) {
	st := it.st.clone()
	for i := it.i; i < len(it.b.Instrs); i++ {
		in := it.b.Instrs[i]
		if _, isPhi := in.(*ssa.Phi); isPhi {
			continue // set on the edge
		}
		if v, ok := in.(ssa.Value); ok {
			delete(st.vals, v)
		}
		switch in := in.(type) {
		case *ssa.Alloc:
			for c := range st.cells {
				if c.root == ssa.Value(in) {
					delete(st.cells, c)
				}
			}
		case *ssa.Store:
			c, strong := cellOf(in.Addr)
			if st.vals[in.Val] {
				st.cells[c] = true
			} else if strong {
				delete(st.cells, c)
				if c.field == -1 {
					for d := range st.cells {
						if d.root == c.root && d.field >= 0 {
							if _, isStruct := deref(in.Addr.Type()).Underlying().(*types.Struct); isStruct {
								delete(st.cells, d)
							}
						}
					}
				}
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				c, _ := cellOf(in.X)
				if st.vals[in.X] || st.cells[c] || (c.field >= 0 && st.cells[ecell{c.root, -1}] && errorish(in.Type())) {
					st.vals[in] = true
				} else if _, isStruct := in.Type().Underlying().(*types.Struct); isStruct && errorish(in.Type()) {
					for d := range st.cells {
						if d.root == c.root {
							st.vals[in] = true
						}
					}
				}
			}
		case *ssa.Field:
			if st.vals[in.X] && errorish(in.Type()) {
				st.vals[in] = true
			}
			if st.cells[ecell{rootOf(in.X), in.Field}] {
				st.vals[in] = true
			}
		case *ssa.Extract:
			if st.vals[in.Tuple] && (errorish(in.Type()) || !tupleErrorish(in.Tuple.Type())) {
				st.vals[in] = true
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert, *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.BinOp, *ssa.Lookup:
			if b, ok := in.(*ssa.BinOp); ok && b.Op != token.ADD {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && st.vals[*op] {
					st.vals[in.(ssa.Value)] = true
				}
			}
			if mi, ok := in.(*ssa.MakeInterface); ok {
				// An error object built around the pending error.
				for c := range st.cells {
					if a, ok := mi.X.(*ssa.Alloc); ok && c.root == ssa.Value(a) && types.Implements(mi.X.Type(), errorType.Underlying().(*types.Interface)) {
						st.vals[mi] = true
					}
				}
			}
			if s, ok := in.(*ssa.Slice); ok {
				if c, _ := cellOf(s.X); st.cells[c] {
					st.vals[s] = true
				}
			}
		case *ssa.Call:
			states := x.call(in, &in.Call, st)
			if states == nil {
				return
			}
			if len(states) > 1 {
				for _, s := range states[1:] {
					x.push(it.b, i+1, s)
				}
			}
			st = states[0]
		case *ssa.Defer:
			// effects happen at RunDefers
		case *ssa.Go:
		case *ssa.RunDefers:
			states := []*estate{st}
			for _, b := range x.f.Blocks {
				for _, d := range b.Instrs {
					df, ok := d.(*ssa.Defer)
					if !ok {
						continue
					}
					var next []*estate
					for _, s := range states {
						ns := x.call(nil, &df.Call, s)
						next = append(next, ns...)
						if !b.Dominates(it.b) {
							next = append(next, s)
						}
					}
					states = next
				}
			}
			if len(states) == 0 {
				return
			}
			for _, s := range states[1:] {
				x.push(it.b, i+1, s)
			}
			st = states[0]
		case *ssa.Return:
			x.ret(in, st)
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			for k, succ := range it.b.Succs {
				ns, ok := x.refine(in.Cond, k == 0, st)
				if !ok {
					continue
				}
				if ns == nil {
					x.out(eoutcome{kind: "exempt"}, in)
					continue
				}
				x.edge(it.b, succ, ns)
			}
			return
		case *ssa.Jump:
			x.edge(it.b, it.b.Succs[0], st)
			return
		}
	}
}

func tupleErrorish(t types.Type) bool {
	tu, ok := t.(*types.Tuple)
	if !ok {
		return errorish(t)
	}
	for i := 0; i < tu.Len(); i++ {
		if errorish(tu.At(i).Type()) {
			return true
		}
	}
	return false
}

func (x *explorer) edge(from, to *ssa.BasicBlock, st *estate) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	ns := st.clone()
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		delete(ns.vals, phi)
		if st.vals[phi.Edges[idx]] {
			ns.vals[phi] = true
		}
	}
	x.push(to, 0, ns)
}

// refine applies a branch condition: ok=false prunes the branch, a nil state exempts it.
func (x *explorer) refine(cond ssa.Value, taken bool, st *estate) (*estate, bool) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return x.refine(c.X, !taken, st)
		}
		if c.Op == token.MUL {
			name := ""
			switch a := c.X.(type) {
			case *ssa.FieldAddr:
				name = fieldName(a.X.Type(), a.Field)
			case *ssa.Global:
				name = a.Name()
			}
			if ignoreErrorsName.MatchString(name) && taken {
				return nil, true
			}
		}
	case *ssa.Field:
		if ignoreErrorsName.MatchString(fieldName(c.X.Type(), c.Field)) && taken {
			return nil, true
		}
	case *ssa.Phi:
		// a && b, a || b compiled to control flow: nothing to learn
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ && c.Op != token.GTR && c.Op != token.LSS && c.Op != token.GEQ && c.Op != token.LEQ {
			break
		}
		l, r, op := c.X, c.Y, c.Op
		if call, ok := r.(*ssa.Call); ok && op == token.LSS {
			// for i := range list: the pending list is not empty, so the body runs.
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && st.vals[call.Call.Args[0]] {
				if _, isConst := l.(*ssa.Const); !isConst {
					if !taken {
						return st, st.loops[c]
					}
					ns := st.clone()
					ns.loops[c] = true
					return ns, true
				}
			}
		}
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
			op = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.GTR: token.LSS, token.LSS: token.GTR, token.GEQ: token.LEQ, token.LEQ: token.GEQ}[op]
		}
		k, ok := r.(*ssa.Const)
		if !ok {
			break
		}
		if k.IsNil() && (op == token.EQL || op == token.NEQ) {
			nonNil := taken == (op == token.NEQ)
			if st.vals[l] {
				return st, nonNil
			}
			if nonNil && isError(l.Type()) {
				// Another error is known: reporting either is enough.
				ns := st.clone()
				ns.vals[l] = true
				if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
					if cl, strong := cellOf(u.X); strong {
						ns.cells[cl] = true
					}
				}
				return ns, true
			}
			break
		}
		if call, ok := l.(*ssa.Call); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && st.vals[call.Call.Args[0]] {
				// The list is not empty: the length is at least 1.
				n := k.Int64()
				holds := func(v int64) bool {
					switch op {
					case token.EQL:
						return v == n
					case token.NEQ:
						return v != n
					case token.GTR:
						return v > n
					case token.LSS:
						return v < n
					case token.GEQ:
						return v >= n
					}
					return v <= n
				}
				feasible := false
				for v := int64(1); v <= n+2; v++ {
					if holds(v) == taken {
						feasible = true
					}
				}
				if n < 0 {
					feasible = holds(1) == taken
				}
				return st, feasible
			}
		}
	}
	return st, true
}

var deriving = regexp.MustCompile(`^(fmt\.Errorf|fmt\.Sprint.*|fmt\.Append.*|errors\..*|strings\..*|slices\..*|strconv\.Quote.*|\(iface error\)\.Error|\(.*\)\.(Error|Unwrap))$`)

// call applies a call to a state with pending carriers; it returns the states after it,
// nil when the path ends there.
func (x *explorer) call(in *ssa.Call, cc *ssa.CallCommon, st *estate) []*estate {
	e := x.e
	var res ssa.Value
	if in != nil {
		res = in
	}
	name := calleeName(cc)
	switch name {
	case "os.Exit":
		if k, ok := cc.Args[0].(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
			x.out(eoutcome{kind: "drop"}, in)
		} else {
			x.out(eoutcome{kind: "report"}, x.f.Blocks[0].Instrs[0])
		}
		return nil
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "(log.Logger).Fatal", "(log.Logger).Fatalf", "(log.Logger).Fatalln":
		x.out(eoutcome{kind: "report"}, x.f.Blocks[0].Instrs[0])
		return nil
	case "builtin.append":
		for _, a := range cc.Args {
			if st.vals[a] && res != nil {
				st.vals[res] = true
			}
		}
		return []*estate{st}
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	var callee *ssa.Function
	if !cc.IsInvoke() {
		callee = cc.StaticCallee()
	}
	// Getters hand out recorded errors.
	if callee != nil && load.InRepo(fnPkg(callee)) && e.getter(callee) && res != nil {
		r := rootOf(args[0])
		for c := range st.cells {
			if c.root == r {
				st.vals[res] = true
			}
		}
		return []*estate{st}
	}
	if res != nil && len(args) > 0 && recorderGetter(name) {
		r := rootOf(args[0])
		if st.cells[ecell{r, -2}] {
			st.vals[res] = true
		}
		return []*estate{st}
	}
	carried := -1
	for i, a := range args {
		if st.vals[a] {
			carried = i
		}
	}
	if callee == nil || !load.InRepo(fnPkg(callee)) || len(callee.Blocks) == 0 {
		if carried >= 0 && res != nil && deriving.MatchString(name) {
			st.vals[res] = true
		}
		states := []*estate{st}
		for _, a := range args {
			if mc, ok := a.(*ssa.MakeClosure); ok {
				states = x.through(nil, mc.Fn.(*ssa.Function), args, mc.Bindings, states, nil)
			}
		}
		return states
	}
	var bind []ssa.Value
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		bind = mc.Bindings
	}
	return x.through(res, callee, args, bind, []*estate{st}, res)
}

// through sends the carriers reachable from a repository callee through it.
func (x *explorer) through(in ssa.Value, callee *ssa.Function, args, bind []ssa.Value, states []*estate, res ssa.Value) []*estate {
	var out []*estate
	for _, st := range states {
		start := newEstate()
		lost := st.clone() // what survives whatever the callee does
		if res != nil {
			for i, a := range args {
				if i < len(callee.Params) {
					if st.vals[a] {
						start.vals[callee.Params[i]] = true
					}
				}
			}
		}
		mapIn := func(actual ssa.Value, formal ssa.Value) {
			if _, isPtr := actual.Type().Underlying().(*types.Pointer); !isPtr {
				if _, isIf := actual.Type().Underlying().(*types.Interface); !isIf {
					return // a copy: the callee cannot change the original
				}
			}
			for c := range st.cells {
				if c.root == actual && c.field == -1 {
					start.cells[ecell{formal, -1}] = true
					delete(lost.cells, c)
				} else if c.field >= 0 && c.root == bindRoot(actual) {
					start.cells[ecell{formal, c.field}] = true
					delete(lost.cells, c)
				}
			}
		}
		if res != nil || in == nil {
			for i, a := range args {
				if i < len(callee.Params) && len(callee.Params) == len(args) {
					mapIn(a, callee.Params[i])
				}
			}
		}
		for i, b := range bind {
			if i < len(callee.FreeVars) {
				mapIn(b, callee.FreeVars[i])
			}
		}
		if len(start.vals) == 0 && len(start.cells) == 0 {
			out = append(out, st)
			continue
		}
		for o := range x.e.param(callee, start) {
			switch o.kind {
			case "exempt":
				x.out(eoutcome{kind: "exempt"}, x.f.Blocks[0].Instrs[0])
				continue
			}
			ns := lost.clone()
			if o.returned && res != nil {
				ns.vals[res] = true
			}
			x.e.applyCells(ns, o.cells, args, bind)
			out = append(out, ns)
		}
	}
	return out
}

// bindRoot is the object a captured variable or argument designates.
func bindRoot(v ssa.Value) ssa.Value {
	if a, ok := v.(*ssa.Alloc); ok {
		if _, isPtr := deref(a.Type()).Underlying().(*types.Pointer); isPtr {
			if s := uniqueStore(a); s != nil {
				return rootOf(s)
			}
		}
	}
	return rootOf(v)
}

func (e *errFlow) applyCells(st *estate, cells string, args, bind []ssa.Value) {
	for _, c := range strings.Fields(cells) {
		var kind byte
		var idx, field int
		fmt.Sscanf(c, "%c%d.%d", &kind, &idx, &field)
		var actual ssa.Value
		if kind == 'p' && idx < len(args) {
			actual = args[idx]
		} else if kind == 'f' && idx < len(bind) {
			actual = bind[idx]
		} else {
			continue
		}
		if field == -1 {
			if fa, ok := actual.(*ssa.FieldAddr); ok {
				st.cells[ecell{rootOf(fa.X), fa.Field}] = true
			} else {
				st.cells[ecell{actual, -1}] = true
			}
		} else {
			st.cells[ecell{bindRoot(actual), field}] = true
		}
	}
}

// param: outcomes of a callee entered with the given carriers.
func (e *errFlow) param(f *ssa.Function, start *estate) map[eoutcome]bool {
	k := fmt.Sprintf("%p:%s", f, start.key())
	if r, ok := e.params[k]; ok {
		return r
	}
	if e.paramRun[k] {
		return map[eoutcome]bool{} // recursion: the other paths decide
	}
	e.paramRun[k] = true
	outs, _ := e.explore(f, f.Blocks[0], 0, start)
	delete(e.paramRun, k)
	r := map[eoutcome]bool{}
	for o := range outs {
		r[o] = true
	}
	e.params[k] = r
	return r
}

func (x *explorer) ret(in *ssa.Return, st *estate) {
	o := eoutcome{kind: "drop"}
	for _, r := range in.Results {
		if errorish(r.Type()) && (st.vals[r] || st.cells[ecell{rootOf(r), -1}]) {
			o.returned = true
			o.kind = "report"
		}
	}
	var cs []string
	for c := range st.cells {
		if p, ok := paramIndex(x.f, c.root); ok {
			cs = append(cs, fmt.Sprintf("%s.%d", p, c.field))
			o.kind = "report"
		}
		if c.field >= 0 {
			for _, r := range in.Results {
				if rootOf(r) == c.root && !errorish(r.Type()) {
					if _, isStruct := deref(r.Type()).Underlying().(*types.Struct); isStruct {
						o.kind = "report" // the object with its recorded errors goes to the caller
					}
				}
			}
		}
	}
	sort.Strings(cs)
	o.cells = strings.Join(cs, " ")
	x.out(o, in)
}

// --- producers

// Outside calls whose error cannot happen or is reported elsewhere.
func (e *errFlow) infallible(f *ssa.Function, cc *ssa.CallCommon, res ssa.Value, name string) bool {
	switch {
	case strings.HasPrefix(name, "(bytes.Buffer)."), strings.HasPrefix(name, "(strings.Builder)."):
		return true
	case strings.HasPrefix(name, "(bufio.Writer).Write"):
		return true // the error sticks and Flush reports it
	case strings.HasPrefix(name, "(hash"):
		return true
	case name == "(bytes.Reader).Seek", name == "(strings.Reader).Seek":
		// Seeking to a fixed non-negative offset cannot fail.
		if k, ok := cc.Args[1].(*ssa.Const); ok && k.Int64() >= 0 {
			return true
		}
	case strings.HasPrefix(name, "(github.com/spf13/pflag.FlagSet).Get"):
		return true // fails only for a flag that is not registered
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Sscan"):
		return strings.HasPrefix(name, "fmt.Print") && false
	case name == "os.Stat" || name == "os.Lstat":
		return askedWhetherExists(res)
	case name == "errors.Unwrap", name == "errors.Join":
		return true // derived
	}
	if strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" {
		return memoryWriter(cc.Args[0])
	}
	if strings.HasSuffix(name, ".Close") && (name == "(os.File).Close" || name == "(iface io.Closer).Close") && len(cc.Args)+1 > 0 {
		recv := cc.Value
		if !cc.IsInvoke() {
			recv = cc.Args[0]
		}
		return e.open.readOnly(recv)
	}
	return false
}

// askedWhetherExists: the error of a probe is only used to ask whether the path exists.
func askedWhetherExists(res ssa.Value) bool {
	if res == nil {
		return false
	}
	for _, r := range *res.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || !isError(ex.Type()) {
			continue
		}
		for _, r2 := range *ex.Referrers() {
			if c, ok := r2.(*ssa.Call); ok {
				switch calleeName(&c.Call) {
				case "os.IsNotExist", "os.IsExist", "errors.Is":
					return true
				}
			}
		}
	}
	return false
}

// Conversions of text whose failure a function without an error channel answers with a default.
var textConversion = regexp.MustCompile(`^(strconv\.(Parse|Unquote|Atoi).*|mime\.ParseMediaType|time\.Parse.*|net/url\.Parse.*|\(bytes\.Reader\)\.Read.*|\(strings\.Reader\)\.Read.*)$`)

// noChannel: the function has no way to report an error: no error result, no error cell among
// its parameters, no parameter object that records errors.
func (e *errFlow) noChannel(f *ssa.Function) bool {
	if f.Parent() != nil || resultErrorish(f.Signature) {
		return false
	}
	for _, p := range f.Params {
		t := p.Type()
		if isError(deref(t)) || isErrorSlice(deref(t)) {
			return false
		}
		if n, ok := types.Unalias(deref(t)).(*types.Named); ok && load.InRepo(pkgOf(n)) && hasErrorGetter(n) {
			return false
		}
	}
	return true
}

func pkgOf(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// getters checks that every method handing out recorded errors does so whenever there are some.
func (e *errFlow) getters(rule string, fns []*ssa.Function) {
	for _, f := range fns {
		if !load.IsLib(fnPkg(f)) || !e.getter(f) || !resultErrorish(f.Signature) {
			continue
		}
		st, ok := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		read := map[int]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					read[in.Field] = true
				case *ssa.Field:
					read[in.Field] = true
				}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if !read[i] || !(isError(st.Field(i).Type()) || isErrorSlice(st.Field(i).Type())) {
				continue
			}
			s := &estate{map[ssa.Value]bool{}, map[ecell]bool{{f.Params[0], i}: true}, map[ssa.Value]bool{}}
			outs, _ := e.explore(f, f.Blocks[0], 0, s)
			ok := len(outs) > 0
			for o := range outs {
				if !o.returned {
					ok = false
				}
			}
			e.c.Count("methods handing out recorded errors", 1)
			e.c.Check(ok, rule, fnName(f)+"."+st.Field(i).Name(), e.c.P.Pos(f.Pos()), fnName(f)+" can return no error although some are recorded in "+st.Field(i).Name())
		}
	}
}

// memoryWriter: the writer is an in-memory buffer (or a buffered writer whose Flush reports).
func memoryWriter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		switch named(x.X.Type()) {
		case "bytes.Buffer", "strings.Builder", "bufio.Writer":
			return true
		}
	case *ssa.ChangeInterface:
		return memoryWriter(x.X)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !memoryWriter(ed) {
				return false
			}
		}
		return true
	}
	return false
}

// Outside objects that record their failure: after the advance method, the getter must be asked.
var extRecorders = map[string]string{
	"(bufio.Scanner).Scan":              "(bufio.Scanner).Err",
	"(github.com/kr/fs.Walker).Step":    "(github.com/kr/fs.Walker).Err",
	"(text/scanner.Scanner).Scan":       "",
	"(database/sql.Rows).Next":          "(database/sql.Rows).Err",
	"(encoding/csv.Reader).InputOffset": "",
}

func recorderGetter(name string) bool {
	for _, g := range extRecorders {
		if g != "" && g == name {
			return true
		}
	}
	return false
}

func (e *errFlow) function(f *ssa.Function) {
	sum := e.sum(f)
	add := func(o eoutcome) {
		if o.kind == "exempt" || o.kind == "drop" || (!o.returned && o.cells == "") {
			return
		}
		if !sum.starts[o] {
			sum.starts[o] = true
			e.changed = true
		}
	}
	start := func(b *ssa.BasicBlock, i int, in ssa.Instruction, st *estate, what string, exemptDrop bool) {
		e.prods[in] = true
		outs, drop := e.explore(f, b, i, st)
		for o := range outs {
			if o.kind == "drop" {
				if exemptDrop {
					continue
				}
				k := fnName(f) + "->" + what
				if _, ok := e.viol[k]; !ok {
					p := ""
					if drop != nil {
						p = "lost at the exit at " + e.c.P.Pos(drop.Pos())
					}
					e.viol[k] = errViolation{f, in, what, p}
				}
			}
			add(o)
		}
	}
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.MakeInterface:
				// An error object is made.
				if isError(v.Type()) {
					start(b, i+1, in, &estate{map[ssa.Value]bool{v: true}, map[ecell]bool{}, map[ssa.Value]bool{}}, named(v.X.Type()), false)
				}
				continue
			case *ssa.UnOp:
				// A predefined error is used other than in a comparison.
				if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && isError(v.Type()) {
					start(b, i+1, in, &estate{map[ssa.Value]bool{v: true}, map[ecell]bool{}, map[ssa.Value]bool{}}, g.Name(), true)
				}
				continue
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			name := calleeName(cc)
			var res ssa.Value
			if v := ci.Value(); v != nil {
				res = v
			}
			_, isDefer := in.(*ssa.Defer)
			var callee *ssa.Function
			if !cc.IsInvoke() {
				callee = cc.StaticCallee()
			}
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			what := name
			if what == "" {
				what = "function value"
			}
			begin := func(st *estate, exemptDrop bool) {
				if !isDefer {
					start(b, i+1, in, st, what, exemptDrop)
					return
				}
				// A deferred call: its effect is seen after RunDefers.
				found := false
				for _, rb := range f.Blocks {
					for ri, rin := range rb.Instrs {
						if _, ok := rin.(*ssa.RunDefers); ok && reaches(b, rb) {
							found = true
							start(rb, ri+1, in, st, "deferred "+what, exemptDrop)
						}
					}
				}
				_ = found
			}
			if callee != nil && load.InRepo(fnPkg(callee)) && len(callee.Blocks) > 0 {
				if e.getter(callee) {
					continue
				}
				var bind []ssa.Value
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
					bind = mc.Bindings
				}
				for _, o := range sortedOutcomes(e.sum(callee).starts) {
					st := newEstate()
					if o.returned && res != nil {
						st.vals[res] = true
					}
					e.applyCells(st, o.cells, args, bind)
					begin(st, e.intoMemory(f, args))
				}
				continue
			}
			// Closures handed to outside functions run there.
			for _, a := range args {
				mc, ok := a.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				for _, o := range sortedOutcomes(e.sum(mc.Fn.(*ssa.Function)).starts) {
					if o.cells == "" {
						continue
					}
					st := newEstate()
					e.applyCells(st, o.cells, nil, mc.Bindings)
					begin(st, false)
				}
			}
			if g := extRecorders[name]; g != "" {
				st := newEstate()
				st.cells[ecell{rootOf(args[0]), -2}] = true
				start(b, i+1, in, st, name, e.askedInCallee(f, rootOf(args[0]), g))
				continue
			}
			if recorderGetter(name) || !resultErrorish(cc.Signature()) || e.infallible(f, cc, res, name) {
				continue
			}
			if name == "(iface error).Unwrap" {
				continue
			}
			if textConversion.MatchString(name) && e.noChannel(f) {
				continue
			}
			st := newEstate()
			if res != nil {
				st.vals[res] = true
			}
			begin(st, false)
		}
	}
}

func sortedOutcomes(m map[eoutcome]bool) []eoutcome {
	var r []eoutcome
	for o := range m {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
	return r
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		for _, s := range x.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// intoMemory: a conversion into memory without an error channel (ToString, ToBytes).
func (e *errFlow) intoMemory(f *ssa.Function, args []ssa.Value) bool {
	if resultErrorish(f.Signature) {
		return false
	}
	if f.Signature.Results().Len() != 1 {
		return false
	}
	switch r := f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		if r.Kind() != types.String {
			return false
		}
	case *types.Slice:
		if b, ok := r.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
			return false
		}
	default:
		return false
	}
	for _, a := range args {
		if memoryWriter(a) {
			return true
		}
	}
	return false
}

// askedInCallee: the recorder object is handed to a repository function that asks the getter
// on every path; that function's error result is then tracked like any other.
func (e *errFlow) askedInCallee(f *ssa.Function, root ssa.Value, getter string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := ci.Common().StaticCallee()
			if callee == nil || !load.InRepo(fnPkg(callee)) {
				continue
			}
			for k, a := range ci.Common().Args {
				if rootOf(a) == root && k < len(callee.Params) && asksGetter(callee, callee.Params[k], getter) {
					return true
				}
			}
		}
	}
	return false
}

// asksGetter: the entry block of the function asks the getter of the parameter.
func asksGetter(f *ssa.Function, p *ssa.Parameter, getter string) bool {
	for _, in := range f.Blocks[0].Instrs {
		if c, ok := in.(*ssa.Call); ok && calleeName(&c.Call) == getter && rootOf(c.Call.Args[0]) == ssa.Value(p) {
			return true
		}
	}
	return false
}

func (e *errFlow) report(rule string, pred func(string) bool) {
	var ks []string
	for k := range e.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	bad := map[ssa.Instruction]bool{}
	for _, k := range ks {
		v := e.viol[k]
		if !pred(fnPkg(v.fn)) {
			continue
		}
		bad[v.in] = true
		e.c.FailPath(rule, k, e.c.P.Pos(v.in.Pos()), fmt.Sprintf("an error of %s can be lost in %s", v.what, fnName(v.fn)), v.path)
	}
	var ps []ssa.Instruction
	for in := range e.prods {
		if !bad[in] && pred(fnPkg(in.Parent())) {
			ps = append(ps, in)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pos() < ps[j].Pos() })
	if os.Getenv("GTV_DEBUG") != "" {
		for _, in := range ps {
			fmt.Println("  tracked:", e.c.P.Pos(in.Pos()), in)
		}
	}
	for _, in := range ps {
		e.c.OK(rule, fnName(in.Parent())+" at "+e.c.P.Pos(in.Pos()))
	}
	e.c.Count("error-producing calls", len(ps)+len(bad))
}

func errFuncs(c *core.Ctx) []*ssa.Function {
	var fns []*ssa.Function
	for _, f := range repoFuncs(c, load.InRepo) {
		if !(isInit(f) && f.Parent() == nil) {
			fns = append(fns, f)
		}
	}
	return fns
}

func init() {
	register("C09", func(c *core.Ctx) {
		c.Rule = "Error flow over SSA: each error produced by a call (error or error-list result, failing outside recorder, recorded parser error) is followed along every path of the receiving function; " +
			"paths where the error is nil are pruned, paths under an ignore-errors setting are exempt. On every other path the error (or one derived from it) must be in an error result, in the error list of the receiver/parameter, or in an error cell of the caller; summaries carry it through helpers, closures and deferred calls."
		c.Assumptions = []string{"writes to in-memory buffers do not fail; bufio.Writer keeps its first error for Flush", "closing a file opened only for reading loses nothing"}
		e := newErrFlow(c)
		e.run(errFuncs(c))
		e.report("error-dropped", func(p string) bool { return load.IsLib(p) && p != load.ModPath+"/internal/color" })
		e.getters("getter", errFuncs(c))
		c.Min("methods handing out recorded errors", 5)
		c.Min("error-producing calls", 100)
	})
	register("C10", func(c *core.Ctx) {
		c.Rule = "The error-flow analysis of C09 over the command-line module: every error produced in a command must be returned by it or end the process with a non-zero status."
		e := newErrFlow(c)
		e.run(errFuncs(c))
		e.report("error-dropped", load.IsCli)
		c.Min("error-producing calls", 45)
	})
}
