package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

// Close typestate: each opened file is followed along every path; at each exit it must have
// been closed, handed to the caller or kept in a longer-lived structure.

type fstate struct {
	vals  map[ssa.Value]bool // the file, or a list containing it
	cells map[ecell]bool
	errs  map[ssa.Value]bool // error results known to be nil exactly when the file is open
	errc  map[ecell]bool
	loops map[ssa.Value]int // 1: this iteration holds the file, 2: an earlier one did
}

func (s *fstate) clone() *fstate {
	n := newFstate()
	for v := range s.vals {
		n.vals[v] = true
	}
	for v := range s.cells {
		n.cells[v] = true
	}
	for v := range s.errs {
		n.errs[v] = true
	}
	for v := range s.errc {
		n.errc[v] = true
	}
	for v, k := range s.loops {
		n.loops[v] = k
	}
	return n
}

func newFstate() *fstate {
	return &fstate{map[ssa.Value]bool{}, map[ecell]bool{}, map[ssa.Value]bool{}, map[ecell]bool{}, map[ssa.Value]int{}}
}

func (s *fstate) key() string {
	var ks []string
	for v := range s.vals {
		ks = append(ks, v.Name())
	}
	for c := range s.cells {
		ks = append(ks, fmt.Sprintf("%s.%d", c.root.Name(), c.field))
	}
	for v := range s.errs {
		ks = append(ks, "e"+v.Name())
	}
	for c := range s.errc {
		ks = append(ks, fmt.Sprintf("e%s.%d", c.root.Name(), c.field))
	}
	for v, k := range s.loops {
		ks = append(ks, fmt.Sprintf("l%s%d", v.Name(), k))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

type fout struct {
	kind   string // "closed", "leak", "returned", "kept"
	idx    int    // returned: which result
	errNil bool   // returned together with a nil error
}

type closeFlow struct {
	c      *core.Ctx
	opens  map[*ssa.Function]map[fout]bool
	memo   map[string]map[fout]bool
	active map[string]bool
	change bool
	leaks  map[string]leak
	nOpen  map[ssa.Instruction]string
	tup    tuple // the call whose components are being followed
}

type tuple struct {
	call  ssa.Value
	idx   int
	prune bool
}

type leak struct {
	f    *ssa.Function
	in   ssa.Instruction
	what string
	at   string
}

type fexp struct {
	e    *closeFlow
	f    *ssa.Function
	outs map[fout]string
	seen map[string]bool
	work []fitem
	tup  tuple
	sub  []tuple
}

type fitem struct {
	b  *ssa.BasicBlock
	i  int
	st *fstate
}

func (e *closeFlow) explore(f *ssa.Function, b *ssa.BasicBlock, i int, st *fstate) map[fout]string {
	x := &fexp{e: e, f: f, outs: map[fout]string{}, seen: map[string]bool{}, tup: e.tup}
	e.tup = tuple{}
	x.push(b, i, st)
	for n := 0; len(x.work) > 0; n++ {
		if n > 100000 {
			panic("close typestate of " + fnName(f) + " does not end")
		}
		it := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.step(it)
	}
	return x.outs
}

func (x *fexp) push(b *ssa.BasicBlock, i int, st *fstate) {
	k := fmt.Sprintf("%d:%d:%s", b.Index, i, st.key())
	if !x.seen[k] {
		x.seen[k] = true
		x.work = append(x.work, fitem{b, i, st})
	}
}

func (x *fexp) out(o fout, in ssa.Instruction) {
	if _, ok := x.outs[o]; !ok {
		x.outs[o] = x.e.c.P.Pos(in.Pos())
	}
}

func isFileList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (x *fexp) step(it fitem) {
	st := it.st.clone()
	for i := it.i; i < len(it.b.Instrs); i++ {
		in := it.b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			delete(st.vals, v)
			delete(st.errs, v)
		}
		switch in := in.(type) {
		case *ssa.Alloc:
			for c := range st.cells {
				if c.root == ssa.Value(in) {
					delete(st.cells, c)
				}
			}
		case *ssa.Store:
			c, strong := cellOf(in.Addr)
			if st.vals[in.Val] {
				// Kept beyond this function when the cell belongs to someone else.
				switch r := c.root.(type) {
				case *ssa.Alloc:
					st.cells[c] = true
				case *ssa.MakeSlice:
					st.vals[r] = true
				case *ssa.FreeVar:
					if c.field == -1 {
						st.cells[c] = true
					}
					x.out(fout{kind: "kept"}, in)
					return
				default:
					x.out(fout{kind: "kept"}, in)
					return
				}
			} else if strong {
				delete(st.cells, c)
			}
			if st.errs[in.Val] {
				st.errc[c] = true
			} else if strong {
				delete(st.errc, c)
			}
		case *ssa.MapUpdate:
			if st.vals[in.Value] {
				x.out(fout{kind: "kept"}, in)
				return
			}
		case *ssa.Send:
			if st.vals[in.X] {
				x.out(fout{kind: "kept"}, in)
				return
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if ia, ok := in.X.(*ssa.IndexAddr); ok {
					if st.vals[ia.X] && x.ours(st, ia.X) {
						st.vals[in] = true
					}
					break
				}
				c, _ := cellOf(in.X)
				if st.cells[c] {
					st.vals[in] = true
				}
				if st.errc[c] {
					st.errs[in] = true
				}
			}
		case *ssa.Extract:
			for _, t := range x.sub {
				if st.vals[in.Tuple] && t.call == in.Tuple && t.idx == in.Index {
					st.vals[in] = true
				}
			}
			if st.vals[in.Tuple] && in.Tuple == x.tup.call {
				if in.Index == x.tup.idx {
					st.vals[in] = true
				} else if x.tup.prune && isError(in.Type()) {
					st.errs[in] = true
				}
			}
		case *ssa.MakeInterface:
			if st.vals[in.X] {
				st.vals[in] = true
			}
		case *ssa.ChangeInterface:
			if st.vals[in.X] {
				st.vals[in] = true
			}
		case *ssa.ChangeType:
			if st.vals[in.X] {
				st.vals[in] = true
			}
		case *ssa.TypeAssert:
			if st.vals[in.X] {
				st.vals[in] = true
			}
		case *ssa.Slice:
			if st.vals[in.X] {
				st.vals[in] = true
			}
			if c, _ := cellOf(in.X); st.cells[c] {
				st.vals[in] = true
			}
		case *ssa.Call:
			st = x.call(in, in, &in.Call, st)
			if st == nil {
				return
			}
		case *ssa.Defer:
			st = x.call(in, nil, &in.Call, st)
			if st == nil {
				return
			}
		case *ssa.Go:
			for _, a := range in.Call.Args {
				if st.vals[a] {
					x.out(fout{kind: "kept"}, in)
					return
				}
			}
		case *ssa.Return:
			errNil := false
			for _, r := range in.Results {
				if isError(r.Type()) {
					if k, ok := r.(*ssa.Const); ok && k.IsNil() {
						errNil = true
					}
					if st.errs[r] {
						errNil = true
					}
				}
			}
			done := false
			for k, r := range in.Results {
				if st.vals[r] {
					x.out(fout{"returned", k, errNil}, in)
					done = true
				} else if a, ok := r.(*ssa.Alloc); ok {
					for c := range st.cells {
						if c.root == ssa.Value(a) {
							x.out(fout{kind: "kept"}, in)
							done = true
						}
					}
				}
			}
			if !done {
				for c := range st.cells {
					if _, ok := paramIndex(x.f, c.root); ok {
						done = true
						x.out(fout{kind: "kept"}, in)
					}
				}
			}
			if !done {
				x.out(fout{kind: "leak"}, in)
			}
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			for k, succ := range it.b.Succs {
				for _, ns := range x.refine(in.Cond, k == 0, st) {
					x.edge(it.b, succ, ns)
				}
			}
			return
		case *ssa.Jump:
			x.edge(it.b, it.b.Succs[0], st)
			return
		}
	}
}

// ours: in a loop over the list this iteration holds the file; outside loops any access may.
func (x *fexp) ours(st *fstate, list ssa.Value) bool {
	inLoop := false
	for c, k := range st.loops {
		if b, ok := c.(*ssa.BinOp); ok {
			if call, ok := b.Y.(*ssa.Call); ok && call.Call.Args[0] == list {
				inLoop = true
				if k == 1 {
					return true
				}
			}
		}
	}
	_ = inLoop
	return false
}

func (x *fexp) edge(from, to *ssa.BasicBlock, st *fstate) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	ns := st.clone()
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		delete(ns.vals, phi)
		delete(ns.errs, phi)
		if st.vals[phi.Edges[idx]] {
			ns.vals[phi] = true
		}
		if st.errs[phi.Edges[idx]] {
			ns.errs[phi] = true
		}
	}
	x.push(to, 0, ns)
}

func (x *fexp) refine(cond ssa.Value, taken bool, st *fstate) []*fstate {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return x.refine(c.X, !taken, st)
		}
	case *ssa.BinOp:
		if c.Op == token.LSS {
			if call, ok := c.Y.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && st.vals[call.Call.Args[0]] {
					ns := st.clone()
					if ns.loops[c] == 1 {
						ns.loops[c] = 2
					}
					if !taken {
						if ns.loops[c] != 2 {
							return nil // the iteration that holds the file has not run yet
						}
						return []*fstate{ns}
					}
					if ns.loops[c] == 2 {
						return []*fstate{ns}
					}
					o := ns.clone()
					o.loops[c] = 1
					return []*fstate{ns, o}
				}
			}
		}
		if c.Op != token.EQL && c.Op != token.NEQ {
			break
		}
		l, r := c.X, c.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
		}
		eq := taken == (c.Op == token.EQL)
		if k, ok := r.(*ssa.Const); ok && k.IsNil() {
			if st.errs[l] && !eq {
				return nil
			}
			if st.vals[l] && eq {
				return nil
			}
			break
		}
		// An opened file is not one of the standard streams.
		if (st.vals[l] && stdStream(r) || st.vals[r] && stdStream(l)) && eq {
			return nil
		}
	}
	return []*fstate{st}
}

func stdStream(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os"
}

func (x *fexp) call(at ssa.Instruction, res ssa.Value, cc *ssa.CallCommon, st *fstate) *fstate {
	name := calleeName(cc)
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	if cc.IsInvoke() && cc.Method.Name() == "Close" && st.vals[cc.Value] || name == "(os.File).Close" && st.vals[args[0]] {
		x.out(fout{kind: "closed"}, at)
		return nil
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		x.out(fout{kind: "closed"}, at)
		return nil
	case "builtin.append":
		for _, a := range args {
			if st.vals[a] && res != nil {
				st.vals[res] = true
			}
		}
		return st
	case "slices.Clone", "slices.Concat", "slices.Clip":
		for _, a := range args {
			if st.vals[a] && res != nil {
				st.vals[res] = true
			}
		}
		return st
	}
	// A method value such as file.Close, kept or deferred.
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		if strings.HasPrefix(fn.Synthetic, "bound method wrapper") && strings.HasPrefix(fn.Name(), "Close") && st.vals[mc.Bindings[0]] {
			x.out(fout{kind: "closed"}, at)
			return nil
		}
	}
	callee := cc.StaticCallee()
	if cc.IsInvoke() {
		callee = nil
	}
	if callee == nil || !load.InRepo(fnPkg(callee)) || len(callee.Blocks) == 0 {
		// Closures handed to an outside function that closes the file (sync.Once.Do, ...) are not assumed to run.
		return st
	}
	start := newFstate()
	for i, a := range args {
		if i >= len(callee.Params) {
			break
		}
		if st.vals[a] {
			start.vals[callee.Params[i]] = true
		}
		if c, _ := cellOf(a); st.cells[c] {
			if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
				start.cells[ecell{callee.Params[i], -1}] = true
			}
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if st.vals[b] {
				start.vals[callee.FreeVars[i]] = true
			}
			if c, _ := cellOf(b); st.cells[c] {
				start.cells[ecell{callee.FreeVars[i], -1}] = true
			}
		}
	}
	if len(start.vals)+len(start.cells) == 0 {
		return st
	}
	outs := x.e.param(callee, start)
	open := false
	for o := range outs {
		switch o.kind {
		case "closed":
		case "kept":
			// Still in the caller's own variable, or stored away.
			if len(start.vals) > 0 && len(start.cells) == 0 {
				x.out(fout{kind: "kept"}, at)
			} else {
				open = true
			}
		case "returned":
			open = true
			if res != nil {
				if callee.Signature.Results().Len() == 1 {
					st.vals[res] = true
				} else {
					st.vals[res] = true
					x.sub = append(x.sub, tuple{res, o.idx, false})
				}
			}
		case "leak":
			open = true
		}
	}
	if !open && len(outs) > 0 {
		x.out(fout{kind: "closed"}, at)
		return nil
	}
	return st
}

func (e *closeFlow) param(f *ssa.Function, start *fstate) map[fout]bool {
	k := fmt.Sprintf("%p:%s", f, start.key())
	if r, ok := e.memo[k]; ok {
		return r
	}
	if e.active[k] {
		return map[fout]bool{{kind: "leak"}: true}
	}
	e.active[k] = true
	outs := e.explore(f, f.Blocks[0], 0, start)
	delete(e.active, k)
	r := map[fout]bool{}
	for o := range outs {
		r[o] = true
	}
	e.memo[k] = r
	return r
}

func (e *closeFlow) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			type prod struct {
				idx   int
				prune bool
				what  string
			}
			var prods []prod
			if openKind(&call.Call) != "" {
				prods = append(prods, prod{0, true, calleeName(&call.Call)})
			} else if g := call.Call.StaticCallee(); g != nil && load.InRepo(fnPkg(g)) && len(g.Blocks) > 0 {
				byIdx := map[int]bool{}
				for o := range e.opens[g] {
					p, ok := byIdx[o.idx]
					byIdx[o.idx] = o.errNil && (p || !ok)
				}
				for idx, prune := range byIdx {
					prods = append(prods, prod{idx, prune, funcName(g)})
				}
			} else if !call.Call.IsInvoke() && call.Call.StaticCallee() != nil && returnsCloser(call.Call.Signature()) >= 0 && !load.InRepo(fnPkg(call.Call.StaticCallee())) {
				prods = append(prods, prod{returnsCloser(call.Call.Signature()), true, calleeName(&call.Call)})
			}
			for _, p := range prods {
				e.nOpen[in] = p.what
				st := newFstate()
				if call.Call.Signature().Results().Len() == 1 {
					st.vals[call] = true
				} else {
					found := false
					for _, r := range *call.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == p.idx {
							found = true
						}
					}
					if !found {
						e.leak(f, in, p.what, e.c.P.Pos(in.Pos()))
						continue
					}
					st.vals[call] = true
					e.tup = tuple{call, p.idx, p.prune}
				}
				e.finish(f, in, p.what, e.explore(f, b, i+1, st))
			}
		}
	}
}

func (e *closeFlow) leak(f *ssa.Function, in ssa.Instruction, what, at string) {
	k := fnName(f) + "->" + what
	if _, ok := e.leaks[k]; !ok {
		e.leaks[k] = leak{f, in, what, at}
	}
}

func (e *closeFlow) finish(f *ssa.Function, in ssa.Instruction, what string, outs map[fout]string) {
	for o, at := range outs {
		switch o.kind {
		case "leak":
			e.leak(f, in, what, at)
		case "returned":
			if e.opens[f] == nil {
				e.opens[f] = map[fout]bool{}
			}
			if !e.opens[f][o] {
				e.opens[f][o] = true
				e.change = true
			}
		}
	}
}

// returnsCloser: an outside function that returns a new closable object (index of the result).
func returnsCloser(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		switch named(sig.Results().At(i).Type()) {
		case "os.File", "io.ReadCloser", "io.WriteCloser", "io.ReadWriteCloser", "compress/gzip.Writer", "compress/gzip.Reader", "archive/zip.ReadCloser", "net.Conn":
			return i
		}
	}
	return -1
}

func init() {
	register("C28", func(c *core.Ctx) {
		c.Rule = "Typestate over SSA: each call that opens a file (os.Open/Create/OpenFile, outside functions returning closable objects, repository functions found to return one) is followed along every path of the function that owns the file, " +
			"through variables, lists, loops over lists, closures, deferred calls and repository helpers; at every exit the file must be closed, returned, or stored in a longer-lived structure. Paths on which opening failed are pruned."
		c.Assumptions = []string{"exits by panic are not counted (C01-C05 cover panics)"}
		e := &closeFlow{c: c, opens: map[*ssa.Function]map[fout]bool{}, memo: map[string]map[fout]bool{}, active: map[string]bool{}, nOpen: map[ssa.Instruction]string{}}
		fns := errFuncs(c)
		for round := 0; ; round++ {
			e.change = false
			e.leaks = map[string]leak{}
			for _, f := range fns {
				e.function(f)
			}
			if !e.change {
				break
			}
			if round > 10 {
				panic("close summaries did not stabilise")
			}
		}
		bad := map[ssa.Instruction]bool{}
		var ks []string
		for k := range e.leaks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l := e.leaks[k]
			bad[l.in] = true
			c.FailPath("file-left-open", k, c.P.Pos(l.in.Pos()), fmt.Sprintf("the file opened by %s in %s is not closed on every path", l.what, fnName(l.f)), "still open at the exit at "+l.at)
		}
		var ins []ssa.Instruction
		for in := range e.nOpen {
			ins = append(ins, in)
		}
		sort.Slice(ins, func(i, j int) bool { return ins[i].Pos() < ins[j].Pos() })
		for _, in := range ins {
			if !bad[in] {
				c.OK("file-closed", fnName(in.Parent())+" at "+c.P.Pos(in.Pos())+" ("+e.nOpen[in]+")")
			}
		}
		c.Count("opened files followed", len(ins))
		c.Min("opened files followed", 7)
	})
}
