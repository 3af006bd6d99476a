package vn

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a function can return.
type Outcome struct {
	St  *State
	Res []*V
}

type outerRegs struct {
	regs   map[ssa.Value]*V
	defers []deferred
	next   *outerRegs
}

type edgeState struct {
	to *ssa.BasicBlock
	st *State
}

func (e *Engine) fail(fr *Frame, format string, a ...any) {
	if e.Err == nil {
		e.Err = fmt.Errorf("%s: %s", fr.Fn.RelString(nil), fmt.Sprintf(format, a...))
	}
}

// NewState is an empty state.
func (e *Engine) NewState() *State { return newState() }

// Run analyses a function from a state with the given arguments (nil: fresh inputs).
func (e *Engine) Run(fn *ssa.Function, args []*V, st *State) []Outcome {
	if st == nil {
		st = newState()
	}
	if args == nil {
		args = e.Inputs(fn)
	}
	fr := &Frame{E: e, Fn: fn, info: e.info(fn)}
	fr.Ctx = e.ctx(0, nil, fn, 0)
	fr.it = fr.Ctx
	for i := range fn.FreeVars {
		fr.bind = append(fr.bind, e.Param(fmt.Sprintf("%s.%s", fn.Name(), fn.FreeVars[i].Name()), fn.FreeVars[i].Type()))
	}
	st = st.clone()
	st.regs = map[ssa.Value]*V{}
	for i, p := range fn.Params {
		st.regs[p] = args[i]
	}
	return e.body(fr, st)
}

// RunClosure analyses a function value.
func (e *Engine) RunClosure(fv *V, args []*V, st *State) []Outcome {
	fr := &Frame{E: e, Fn: fv.Fn, info: e.info(fv.Fn), bind: fv.A}
	fr.Ctx = e.ctx(0, nil, fv.Fn, fv.ID)
	fr.it = fr.Ctx
	st = st.clone()
	st.regs = map[ssa.Value]*V{}
	for i, p := range fv.Fn.Params {
		st.regs[p] = args[i]
	}
	return e.body(fr, st)
}

// Inputs makes a fresh input for every parameter.
func (e *Engine) Inputs(fn *ssa.Function) []*V {
	var out []*V
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		out = append(out, e.Param(n, p.Type()))
	}
	return out
}

func (e *Engine) body(fr *Frame, st *State) []Outcome {
	if len(fr.Fn.Blocks) == 0 {
		e.fail(fr, "no body")
		return nil
	}
	if fr.info.irred {
		e.fail(fr, "irreducible control flow")
		return nil
	}
	st.defers = nil
	e.stack = append(e.stack, fr.Fn)
	_, _, rets := e.region(fr, nil, fr.Fn.Blocks[0], []*State{st})
	e.stack = e.stack[:len(e.stack)-1]
	return e.mergeOut(fr, rets)
}

func (e *Engine) mergeOut(fr *Frame, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	by := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		o.St.regs = map[ssa.Value]*V{}
		e.gc(o.St, o.Res)
		var b strings.Builder
		for _, r := range o.Res {
			fmt.Fprintf(&b, "%d,", r.ID)
		}
		b.WriteString(e.memKey(o.St))
		b.WriteString(e.condKey(o.St))
		k := b.String()
		if i, ok := by[k]; ok {
			res[i].St.cond = intersect(res[i].St.cond, o.St.cond)
			continue
		}
		by[k] = len(res)
		res = append(res, o)
	}
	if len(res) <= e.MaxParts {
		return res
	}
	// Outcomes that differ in which results are nil, or in a constant, stay apart.
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range res {
		k := ""
		for _, v := range o.Res {
			switch {
			case v.Op == "nil" || isBoolConst(v):
				k += v.String() + ","
			case e.notNil(o.St, v):
				k += "+,"
			default:
				k += "?,"
			}
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	if len(order) > e.MaxParts {
		order = []string{""}
		groups[""] = res
	}
	var out []Outcome
	for n, k := range order {
		out = append(out, e.joinOut(fr, groups[k], n))
	}
	return out
}

func isBoolConst(v *V) bool { _, ok := v.BoolVal(); return ok }

func (e *Engine) joinOut(fr *Frame, res []Outcome, n int) Outcome {
	if len(res) == 1 {
		return res[0]
	}
	name := ""
	if n > 0 {
		name = fmt.Sprintf(":%d", n)
	}
	var sts []*State
	for _, o := range res {
		sts = append(sts, o.St)
	}
	vals := make([]*V, len(res[0].Res))
	var nn []*V
	for i := range vals {
		v := res[0].Res[i]
		same, all := true, true
		for _, o := range res {
			same = same && o.Res[i] == v
			all = all && e.notNil(o.St, o.Res[i])
		}
		if !same {
			v = e.Unk(fmt.Sprintf("join:%d%s:ret%d", fr.it, name, i), fr.Fn.Signature.Results().At(i).Type())
			if all {
				nn = append(nn, v)
			}
		}
		vals[i] = v
	}
	j := e.forceJoin(fr, -1-n, sts)
	for _, v := range nn {
		e.Assume(j, e.eq(v, e.mk(&V{Op: "nil", T: v.T})), false)
	}
	return Outcome{j, vals}
}

func intersect(a, b map[*V]bool) map[*V]bool {
	out := map[*V]bool{}
	for k, v := range a {
		if w, ok := b[k]; ok && v == w {
			out[k] = v
		}
	}
	return out
}

func (e *Engine) memKey(st *State) string {
	var b []byte
	for _, o := range sortedObjs(st.mem) {
		b = append(b, '|')
		b = strconv.AppendInt(b, int64(o.ID), 36)
		b = append(b, '=')
		b = strconv.AppendInt(b, int64(st.mem[o].ID), 36)
	}
	for _, d := range st.defers {
		b = append(b, fmt.Sprintf("|d%p:%d", d.in, d.fn.ID)...)
		for _, a := range d.args {
			b = append(b, ',')
			b = strconv.AppendInt(b, int64(a.ID), 36)
		}
	}
	return string(b)
}

// gc forgets local objects nothing refers to any more.
func (e *Engine) gc(st *State, extra []*V) {
	seen := map[*Obj]bool{}
	var visit func(v *V)
	add := func(o *Obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		if c := st.mem[o]; c != nil {
			visit(c)
		}
	}
	visit = func(v *V) {
		if v == nil {
			return
		}
		for _, o := range v.objects() {
			add(o)
		}
	}
	for _, v := range e.Keep {
		visit(v)
	}
	for _, v := range extra {
		visit(v)
	}
	for _, v := range st.regs {
		visit(v)
	}
	for _, d := range st.defers {
		visit(d.fn)
		for _, a := range d.args {
			visit(a)
		}
	}
	for o := st.outer; o != nil; o = o.next {
		for _, v := range o.regs {
			visit(v)
		}
		for _, d := range o.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for o, c := range st.mem {
		if !o.Fresh {
			add(o)
			visit(c)
		}
	}
	for o := range st.mem {
		if !seen[o] {
			delete(st.mem, o)
		}
	}
}

// merge joins states that agree on everything live at the start of a block.
func (e *Engine) merge(fr *Frame, b *ssa.BasicBlock, sts []*State) []*State {
	live := fr.info.live[b]
	for _, s := range sts {
		for r := range s.regs {
			if !live[r] {
				if _, ok := r.(*ssa.Parameter); ok && live[r] {
					continue
				}
				delete(s.regs, r)
			}
		}
	}
	if len(sts) < 2 {
		return sts
	}
	by := map[string]int{}
	var out []*State
	var names []ssa.Value
	for r := range live {
		names = append(names, r)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	for _, s := range sts {
		e.gc(s, nil)
		var k strings.Builder
		for _, r := range names {
			if v := s.regs[r]; v != nil {
				fmt.Fprintf(&k, "%d,", v.ID)
			} else {
				k.WriteString("-,")
			}
		}
		k.WriteString(e.memKey(s))
		k.WriteString(e.condKey(s))
		if i, ok := by[k.String()]; ok {
			out[i].cond = intersect(out[i].cond, s.cond)
			continue
		}
		by[k.String()] = len(out)
		out = append(out, s)
	}
	if len(out) > e.MaxParts {
		return []*State{e.forceJoin(fr, b.Index, out)}
	}
	return out
}

// forceJoin replaces what the states disagree on by unknowns.
func (e *Engine) forceJoin(fr *Frame, blk int, sts []*State) *State {
	e.Joins++
	j := sts[0].clone()
	prev := []*State{sts[0]}
	type made struct {
		v   *V
		val func(*State) *V
	}
	var news []made
	defer func() {
		// What is not nil in any of them, is not nil.
		for _, m := range news {
			all := true
			for _, s := range prev {
				v := m.val(s)
				all = all && v != nil && e.notNil(s, v)
			}
			if all {
				e.Assume(j, e.eq(m.v, e.mk(&V{Op: "nil", T: m.v.T})), false)
			}
		}
		if !e.Linear {
			return
		}
		// Orders of numbers and lengths that hold in all of them.
		type num struct {
			v    *V
			vals []*V
			new  bool
		}
		var ns []num
		for _, m := range news {
			isLen := false
			switch u := m.v.T.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					isLen = true
				} else if u.Info()&types.IsInteger == 0 {
					continue
				}
			case *types.Slice:
				isLen = true
			default:
				continue
			}
			n := num{v: m.v, new: true}
			if isLen {
				n.v = e.Len(m.v)
			}
			for _, s := range prev {
				v := m.val(s)
				if v == nil {
					break
				}
				if isLen {
					v = e.Len(v)
				}
				n.vals = append(n.vals, v)
			}
			if len(n.vals) == len(prev) {
				ns = append(ns, n)
			}
		}
		for _, n := range ns[:len(ns):len(ns)] {
			for _, v := range n.vals {
				same := num{v: v}
				for range prev {
					same.vals = append(same.vals, v)
				}
				ns = append(ns, same)
			}
		}
		if len(ns) > 24 {
			return
		}
		it := types.Typ[types.Int]
		for i, a := range ns {
			for k, b := range ns {
				if i == k || !a.new && !b.new || a.v == b.v {
					continue
				}
				all := true
				for x, s := range prev {
					all = all && e.ProveGE(s, e.Conv(a.vals[x], it), e.Conv(b.vals[x], it), 0)
					if !all {
						break
					}
				}
				if all {
					e.Assume(j, e.Bin(token.GEQ, e.Conv(a.v, it), e.Conv(b.v, it), types.Typ[types.Bool]), true)
				}
			}
		}
	}()
	for _, s := range sts[1:] {
		prev = append(prev, s)
		for r, v := range j.regs {
			w := s.regs[r]
			if w == nil {
				delete(j.regs, r)
			} else if w != v {
				u := e.Unk(fmt.Sprintf("join:%d:%d:%s", fr.it, blk, r.Name()), r.Type())
				if u != v {
					r := r
					news = append(news, made{u, func(s *State) *V { return s.regs[r] }})
				}
				j.regs[r] = u
			}
		}
		objs := map[*Obj]*V{}
		for o := range j.mem {
			objs[o] = nil
		}
		for o := range s.mem {
			objs[o] = nil
		}
		for _, o := range sortedObjs(objs) {
			if o.Fresh && (j.mem[o] == nil || s.mem[o] == nil) {
				if j.mem[o] == nil {
					j.mem[o] = s.mem[o]
				}
				continue
			}
			a, b := e.Content(j, o), e.Content(s, o)
			if a == b {
				continue
			}
			for _, sl := range e.diff(o.T, a, b, nil, nil) {
				u := e.Unk(fmt.Sprintf("join:%d:%d:o%d%s", fr.it, blk, o.ID, selName(sl)), selType(o.T, sl))
				a = e.update(a, o.T, sl, u)
				o, sl := o, sl
				news = append(news, made{u, func(s *State) *V { return e.selectV(e.Content(s, o), sl) }})
			}
			j.mem[o] = a
		}
		j.cond = intersect(j.cond, s.cond)
	}
	return j
}

func selName(sl []*V) string {
	s := ""
	for _, x := range sl {
		s += "." + x.P
	}
	return s
}

func selType(t types.Type, sl []*V) types.Type {
	if len(sl) == 0 {
		return t
	}
	return sl[len(sl)-1].T
}

// diff lists the parts (struct fields, recursively) in which two contents differ.
func (e *Engine) diff(t types.Type, a, b *V, pre []*V, out [][]*V) [][]*V {
	if a == b {
		return out
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 && !e.foreign(t) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			sel := e.mk(&V{Op: "fsel", P: f.Name(), T: f.Type()})
			out = e.diff(f.Type(), e.Field(a, f.Name(), f.Type()), e.Field(b, f.Name(), f.Type()), append(append([]*V{}, pre...), sel), out)
		}
		return out
	}
	return append(out, pre)
}

// foreign: a struct type of another module, whose inside is not looked at.
func (e *Engine) foreign(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && e.RepoPkg != nil && !e.RepoPkg(n.Obj().Pkg().Path())
}

// region analyses a set of blocks (nil: the whole function) from its head.
func (e *Engine) region(fr *Frame, members map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, init []*State) (exits []edgeState, back []*State, rets []Outcome) {
	pend := map[*ssa.BasicBlock][]*State{head: init}
	first := true
	add := func(to *ssa.BasicBlock, st *State) {
		if members != nil {
			if to == head {
				back = append(back, st)
				return
			}
			if !members[to] {
				exits = append(exits, edgeState{to, st})
				return
			}
		}
		pend[to] = append(pend[to], st)
	}
	for len(pend) > 0 && e.Err == nil {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || fr.info.rpo[x] < fr.info.rpo[b] {
				b = x
			}
		}
		sts := e.merge(fr, b, pend[b])
		delete(pend, b)
		if fr.info.loops[b] != nil && !(first && members != nil && b == head) {
			first = false
			ex, r := e.loop(fr, b, sts)
			rets = append(rets, r...)
			for _, x := range ex {
				add(x.to, x.st)
			}
			continue
		}
		first = false
		for _, st := range sts {
			ex, r := e.block(fr, b, st)
			rets = append(rets, r...)
			for _, x := range ex {
				add(x.to, x.st)
			}
		}
	}
	return
}

func (e *Engine) block(fr *Frame, b *ssa.BasicBlock, st *State) (exits []edgeState, rets []Outcome) {
	type item struct {
		st *State
		i  int
	}
	work := []item{{st, 0}}
	for len(work) > 0 && e.Err == nil {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
	instrs:
		for i := it.i; i < len(b.Instrs); i++ {
			e.steps++
			if e.MaxSteps > 0 && e.steps > e.MaxSteps {
				e.fail(fr, "more than %d steps", e.MaxSteps)
				return
			}
			in := b.Instrs[i]
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := e.Val(fr, st, in.Cond)
				t, f := st, st.clone()
				if e.Assume(t, c, true) {
					exits = append(exits, edgeState{b.Succs[0], e.edge(fr, t, b, 0)})
				}
				if e.Assume(f, c, false) {
					exits = append(exits, edgeState{b.Succs[1], e.edge(fr, f, b, 1)})
				}
				break instrs
			case *ssa.Jump:
				exits = append(exits, edgeState{b.Succs[0], e.edge(fr, st, b, 0)})
				break instrs
			case *ssa.Return:
				var res []*V
				for _, r := range in.Results {
					res = append(res, e.Val(fr, st, r))
				}
				if e.OnReturn != nil && e.quiet == 0 {
					e.OnReturn(fr, st, res)
				}
				rets = append(rets, Outcome{st, res})
				break instrs
			case *ssa.Panic:
				e.site(fr, in, st)
				break instrs
			case *ssa.RunDefers:
				sts := []*State{st}
				for len(sts) > 0 {
					var next []*State
					done := true
					for _, s := range sts {
						n := len(s.defers)
						if n == 0 {
							next = append(next, s)
							continue
						}
						done = false
						d := s.defers[n-1]
						s.defers = append([]deferred{}, s.defers[:n-1]...)
						for _, o := range e.call(fr, s, d.in, d.fn, d.args, true) {
							next = append(next, o.St)
						}
					}
					sts = next
					if done {
						break
					}
				}
				for _, s := range sts {
					work = append(work, item{s, i + 1})
				}
				break instrs
			case *ssa.Defer:
				e.site(fr, in, st)
				fnv, args := e.callee(fr, st, &in.Call)
				st.defers = append(append([]deferred{}, st.defers...), deferred{in, fnv, args})
			case *ssa.Lookup:
				if sts := e.splitLookup(fr, in, st); sts != nil {
					for _, s := range sts {
						work = append(work, item{s, i + 1})
					}
					break instrs
				}
				e.exec(fr, in, st)
			case *ssa.Call:
				e.site(fr, in, st)
				fnv, args := e.callee(fr, st, &in.Call)
				outs := e.call(fr, st, in, fnv, args, false)
				for _, o := range outs {
					if len(o.Res) == 1 {
						o.St.regs[in] = o.Res[0]
					} else if len(o.Res) > 1 {
						o.St.regs[in] = e.mk(&V{Op: "tuple", A: o.Res, T: in.Type()})
					}
				}
				for _, o := range outs {
					work = append(work, item{o.St, i + 1})
				}
				break instrs
			default:
				e.exec(fr, in, st)
			}
		}
	}
	return
}

// edge moves a state along the n-th edge out of a block.
func (e *Engine) edge(fr *Frame, st *State, b *ssa.BasicBlock, n int) *State {
	s := b.Succs[n]
	// Which of the edges from b to s is it?
	nth := 0
	for k := 0; k < n; k++ {
		if b.Succs[k] == s {
			nth++
		}
	}
	pi := -1
	for k, p := range s.Preds {
		if p == b {
			if nth == 0 {
				pi = k
				break
			}
			nth--
		}
	}
	var phis []*ssa.Phi
	var vals []*V
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.Val(fr, st, phi.Edges[pi]))
	}
	for i, p := range phis {
		st.regs[p] = vals[i]
	}
	return st
}

func (e *Engine) site(fr *Frame, in ssa.Instruction, st *State) {
	if e.Site != nil && e.quiet == 0 {
		e.Site(fr, in, st)
	}
}

// decided tells whether the loop's own test has a known answer at its header.
func (e *Engine) decided(fr *Frame, h *ssa.BasicBlock, st *State) bool {
	members := fr.info.loops[h]
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || members[h.Succs[0]] == members[h.Succs[1]] {
		return false
	}
	s := st.clone()
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.DebugRef:
			e.quiet++
			e.exec(fr, in, s)
			e.quiet--
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() != "len" {
				return false
			}
			if in.Call.Signature().Results().Len() != 1 {
				return false
			}
			if f := in.Call.StaticCallee(); f == nil {
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			} else if len(f.Blocks) == 0 || !e.InRepo(f) || e.onStack(f) || fr.Depth() >= e.MaxDepth {
				return false
			}
			e.quiet++
			fnv, args := e.callee(fr, s, &in.Call)
			outs := e.call(fr, s, in, fnv, args, false)
			e.quiet--
			if len(outs) != 1 {
				return false
			}
			s = outs[0].St
			s.regs[in] = outs[0].Res[0]
		default:
			return false
		}
	}
	_, ok = e.Truth(s, e.Val(fr, s, iff.Cond))
	return ok
}

const maxPeel = 48

func (e *Engine) loop(fr *Frame, h *ssa.BasicBlock, sts []*State) (exits []edgeState, rets []Outcome) {
	it0 := fr.it
	defer func() { fr.it = it0 }()
	members := fr.info.loops[h]
	cur := sts
	var rest []*State
	for k := 1; len(cur) > 0 && e.Err == nil; k++ {
		var dec []*State
		for _, s := range cur {
			if k <= maxPeel && e.decided(fr, h, s) {
				dec = append(dec, s)
			} else {
				rest = append(rest, s)
			}
		}
		if len(dec) == 0 {
			break
		}
		fr.it = e.ctx(it0, h.Instrs[0], nil, k)
		ex, back, r := e.region(fr, members, h, dec)
		fr.it = it0
		exits = append(exits, ex...)
		rets = append(rets, r...)
		cur = e.merge(fr, h, back)
	}
	rest = e.merge(fr, h, rest)
	for _, s := range rest {
		ex, r := e.fixpoint(fr, h, s)
		exits = append(exits, ex...)
		rets = append(rets, r...)
	}
	return
}

type slot struct {
	phi  *ssa.Phi
	obj  *Obj
	sels []*V
}

func (s slot) key() string {
	if s.phi != nil {
		return s.phi.Name()
	}
	return fmt.Sprintf("o%d%s", s.obj.ID, selName(s.sels))
}

func (s slot) typ() types.Type {
	if s.phi != nil {
		return s.phi.Type()
	}
	return selType(s.obj.T, s.sels)
}

func (e *Engine) slotVal(st *State, s slot) *V {
	if s.phi != nil {
		return st.regs[s.phi]
	}
	return e.selectV(e.Content(st, s.obj), s.sels)
}

func (e *Engine) setSlot(st *State, s slot, v *V) {
	if s.phi != nil {
		st.regs[s.phi] = v
		return
	}
	st.mem[s.obj] = e.update(e.Content(st, s.obj), s.obj.T, s.sels, v)
}

type loopInfo struct {
	unk   map[string]slot
	order []string
	bad   map[string]bool // refuted invariant candidates
}

type cand struct {
	key    string
	a, b   quantity // a - b >= 0
	strict bool     // a - b > 0
	nn     *slot    // not nil
	// The numbers in a map (in a field of its values) are less than a length.
	mb   *slot
	name string
	ft   types.Type
	// "x <= c or y < n"
	imp []quantity
}

func (c cand) gap() int64 {
	if c.strict {
		return 1
	}
	return 0
}

type quantity struct {
	key   string
	slot  *slot
	isLen bool
	fixed *V
}

func (e *Engine) qval(st *State, q quantity) *V {
	if q.fixed != nil {
		return q.fixed
	}
	v := e.slotVal(st, *q.slot)
	if v != nil && q.isLen {
		v = e.Len(v)
	}
	return v
}

func (e *Engine) fixpoint(fr *Frame, h *ssa.BasicBlock, st *State) (exits []edgeState, rets []Outcome) {
	it0 := fr.it
	fr.it = e.ctx(it0, h.Instrs[0], nil, -1)
	defer func() { fr.it = it0 }()
	members := fr.info.loops[h]
	// Contexts of entry states must not share what is unknown about them when they
	// disagree on it, but may: unknowns only lose information.
	li := e.loopInfos[fr.it]
	if li == nil {
		li = &loopInfo{unk: map[string]slot{}, bad: map[string]bool{}}
		e.loopInfos[fr.it] = li
	}
	addUnk := func(s slot) bool {
		k := s.key()
		if _, ok := li.unk[k]; ok {
			return false
		}
		li.unk[k] = s
		li.order = append(li.order, k)
		return true
	}
	for round := 0; ; round++ {
		if round > 200 {
			e.fail(fr, "a loop does not stabilise")
			return nil, nil
		}
		if e.Err != nil {
			return nil, nil
		}
		hs := st.clone()
		for _, k := range li.order {
			s := li.unk[k]
			if s.obj != nil && s.obj.Fresh && st.mem[s.obj] == nil {
				continue
			}
			e.setSlot(hs, s, e.Unk(fmt.Sprintf("phi:%d:%s", fr.it, k), s.typ()))
		}
		cands := e.candidates(fr, h, st, hs, li)
		for _, c := range cands {
			if c.nn != nil {
				v := e.slotVal(hs, *c.nn)
				e.Assume(hs, e.eq(v, e.mk(&V{Op: "nil", T: c.nn.typ()})), false)
				continue
			}
			if c.mb != nil {
				hs.cond[e.mk(&V{Op: "mapbound", P: c.name, A: []*V{e.slotVal(hs, *c.mb), e.qval(hs, c.a)}, T: types.Typ[types.Bool]})] = true
				continue
			}
			if c.imp != nil {
				hs.cond[e.impTerm(hs, c.imp)] = true
				continue
			}
			a, b := e.qval(hs, c.a), e.qval(hs, c.b)
			op := token.GEQ
			if c.strict {
				op = token.GTR
			}
			e.Assume(hs, e.Bin(op, a, b, types.Typ[types.Bool]), true)
		}
		entry := hs.clone()
		e.quiet++
		ex, back, r := e.region(fr, members, h, []*State{hs.clone()})
		e.quiet--
		changed := false
		for _, bs := range back {
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if bs.regs[phi] != entry.regs[phi] && addUnk(slot{phi: phi}) {
					changed = true
				}
			}
			objs := map[*Obj]*V{}
			for o := range bs.mem {
				objs[o] = nil
			}
			for o := range entry.mem {
				objs[o] = nil
			}
			for _, o := range sortedObjs(objs) {
				if o.Fresh && (st.mem[o] == nil || bs.mem[o] == nil) {
					continue
				}
				for _, sl := range e.diff(o.T, e.Content(entry, o), e.Content(bs, o), nil, nil) {
					if addUnk(slot{obj: o, sels: sl}) {
						changed = true
					}
				}
			}
		}
		if changed {
			continue
		}
		for _, c := range cands {
			ok := true
			for _, bs := range back {
				if c.nn != nil {
					ok = e.notNil(bs, e.slotVal(bs, *c.nn))
				} else if c.mb != nil {
					ok = e.mapBounded(bs, e.slotVal(bs, *c.mb), c.name, c.ft, e.qval(bs, c.a))
				} else if c.imp != nil {
					t := e.impTerm(bs, c.imp)
					ok = bs.cond[t] || e.ProveGE(bs, t.A[1], t.A[0], 0) || e.ProveGE(bs, t.A[3], t.A[2], 1)
				} else if !e.ProveGE(bs, e.qval(bs, c.a), e.qval(bs, c.b), c.gap()) {
					ok = false
				}
				if !ok {
					break
				}
			}
			if !ok {
				li.bad[c.key] = true
				changed = true
			}
		}
		if changed {
			continue
		}
		if e.quiet == 0 {
			ex, back, r = e.region(fr, members, h, []*State{entry.clone()})
			if e.OnLoop != nil && e.Err == nil {
				e.OnLoop(fr, h, st, entry, back)
			}
		}
		return ex, r
	}
}

func (e *Engine) candidates(fr *Frame, h *ssa.BasicBlock, st, hs *State, li *loopInfo) []cand {
	var out []cand
	var qs []quantity
	fixed := map[*V]bool{}
	var fq []quantity
	addFixed := func(v *V) {
		if v != nil && !fixed[v] {
			fixed[v] = true
			fq = append(fq, quantity{key: fmt.Sprintf("v%d", v.ID), fixed: v})
		}
	}
	for _, k := range li.order {
		s := li.unk[k]
		if s.obj != nil && s.obj.Fresh && st.mem[s.obj] == nil {
			continue
		}
		t := s.typ()
		s2 := s
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				qs = append(qs, quantity{key: k, slot: &s2})
			} else if u.Info()&types.IsString != 0 {
				qs = append(qs, quantity{key: "len " + k, slot: &s2, isLen: true})
			}
		case *types.Slice:
			qs = append(qs, quantity{key: "len " + k, slot: &s2, isLen: true})
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Signature, *types.Interface:
			key := "nn " + k
			if v := e.slotVal(st, s); !li.bad[key] && v != nil {
				if b, known := e.Truth(st, e.eq(v, e.mk(&V{Op: "nil", T: t}))); known && !b {
					out = append(out, cand{key: key, nn: &s2})
				} else {
					li.bad[key] = true
				}
			}
		}
	}
	if !e.Linear || len(qs) == 0 {
		return out
	}
	// Local variables first: they are what bounds are about most often.
	sort.SliceStable(qs, func(i, j int) bool { return qs[i].slot.obj == nil && qs[j].slot.obj != nil })
	addFixed(e.Int(0))
	for _, q := range qs {
		if q.slot.obj == nil {
			if v := e.qval(st, q); v != nil && isIntT(v.T) {
				addFixed(v)
			}
		}
	}
	var rs []ssa.Value
	for r := range fr.info.live[h] {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
	for _, r := range rs {
		v := hs.regs[r]
		if v == nil {
			continue
		}
		if phi, ok := r.(*ssa.Phi); ok && phi.Block() == h {
			continue
		}
		if isStringT(v.T) {
			addFixed(e.Len(v))
		} else if v.T != nil {
			if _, ok := v.T.Underlying().(*types.Slice); ok {
				addFixed(e.Len(v))
			} else if isIntT(v.T) {
				addFixed(v)
			}
		}
	}
	for _, q := range qs {
		if q.slot.obj == nil {
			continue
		}
		if v := e.qval(st, q); v != nil && isIntT(v.T) {
			addFixed(v)
		}
		// Lengths of the other parts of the same object.
		e.lenParts(q.slot.obj.T, e.Content(hs, q.slot.obj), 2, addFixed)
	}
	if len(fq) > 14 {
		fq = fq[:14]
	}
	try := func(a, b quantity, strict bool) {
		key := a.key + " >= " + b.key
		if strict {
			key = a.key + " > " + b.key
		}
		if li.bad[key] {
			return
		}
		x, y := e.qval(st, a), e.qval(st, b)
		if x == nil || y == nil || x.T == nil || y.T == nil || !isIntT(x.T) || !isIntT(y.T) || !types.Identical(x.T.Underlying(), y.T.Underlying()) {
			return
		}
		if a.fixed == nil && a.isLen && b.fixed != nil {
			if n, ok := b.fixed.Int64(); ok && n <= 0 {
				return // always so
			}
		}
		c := cand{key: key, a: a, b: b, strict: strict}
		if !e.ProveGE(st, x, y, c.gap()) {
			li.bad[key] = true
			return
		}
		out = append(out, c)
	}
	for _, a := range qs {
		for _, b := range fq {
			if b.fixed.IsConst() {
				try(a, b, false)
				try(b, a, false)
				if a.slot.phi != nil && !a.isLen {
					try(b, a, true)
				}
			}
		}
	}
	most := len(out) + 80
	for i, a := range qs {
		if len(out) > most {
			break
		}
		for _, b := range fq {
			if b.fixed.IsConst() {
				continue
			}
			try(a, b, false)
			try(b, a, false)
			if a.slot.phi != nil && !a.isLen {
				try(b, a, true)
			}
		}
		for j, b := range qs {
			if i != j && len(qs) <= 8 {
				try(a, b, false)
			}
		}
	}
	return append(out, e.moreCandidates(fr, st, hs, li, qs, fq)...)
}

func (e *Engine) impTerm(st *State, q []quantity) *V {
	t := &V{Op: "imp", T: types.Typ[types.Bool]}
	for _, x := range q {
		t.A = append(t.A, e.qval(st, x))
	}
	return e.mk(t)
}

// moreCandidates are those of two parts.
func (e *Engine) moreCandidates(fr *Frame, st, hs *State, li *loopInfo, qs, fq []quantity) []cand {
	var out []cand
	// Numbers in maps and lengths.
	for _, k := range li.order {
		s := li.unk[k]
		if s.obj == nil || s.obj.Fresh && st.mem[s.obj] == nil {
			continue
		}
		mt, ok := s.typ().Underlying().(*types.Map)
		v := e.slotVal(st, s)
		if !ok || v == nil || v.Op != "emptymap" && v.Op != "mapset" && v.Op != "unk" {
			continue
		}
		type part struct {
			name string
			t    types.Type
		}
		var parts []part
		if isIntT(mt.Elem()) {
			parts = append(parts, part{"", mt.Elem()})
		} else if sc, ok := mt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < sc.NumFields(); i++ {
				if isIntT(sc.Field(i).Type()) {
					parts = append(parts, part{sc.Field(i).Name(), sc.Field(i).Type()})
				}
			}
		}
		for _, p := range parts {
			for _, q := range qs {
				if !q.isLen || !types.Identical(p.t.Underlying(), types.Typ[types.Int]) {
					continue
				}
				key := "map " + k + "." + p.name + " < " + q.key
				if li.bad[key] {
					continue
				}
				n := e.qval(st, q)
				if n == nil || !e.mapBounded(st, v, p.name, p.t, n) {
					li.bad[key] = true
					continue
				}
				s2 := s
				out = append(out, cand{key: key, mb: &s2, name: p.name, ft: p.t, a: q})
			}
		}
	}
	// A number that is a valid index once another has changed.
	for _, x := range qs {
		if x.isLen || x.slot.phi == nil {
			continue
		}
		c := e.qval(st, x)
		if c == nil || !c.IsConst() || !isIntT(c.T) {
			continue
		}
		for _, y := range qs {
			if y.isLen || y.slot.phi == nil || x.key == y.key {
				continue
			}
			if v := e.qval(st, y); v == nil || !types.Identical(v.T.Underlying(), types.Typ[types.Int]) {
				continue
			}
			for _, n := range fq {
				if n.fixed.Op != "len" {
					continue
				}
				key := x.key + " <= c or " + y.key + " < " + n.key
				if !li.bad[key] {
					out = append(out, cand{key: key, imp: []quantity{x, {fixed: c}, y, n}})
				}
			}
		}
	}
	return out
}

func (e *Engine) lenParts(t types.Type, v *V, depth int, f func(*V)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if depth == 0 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.lenParts(u.Field(i).Type(), e.Field(v, u.Field(i).Name(), u.Field(i).Type()), depth-1, f)
		}
	case *types.Slice:
		f(e.Len(v))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			f(e.Len(v))
		}
	}
}

// Val is the term of an operand.
func (e *Engine) Val(fr *Frame, st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.Zero(v.Type())
		}
		if isIntT(v.Type()) && v.Value.Kind() != constant.Int {
			return e.Const(constant.ToInt(v.Value), v.Type())
		}
		return e.Const(v.Value, v.Type())
	case *ssa.Function:
		return e.mk(&V{Op: "func", Fn: v, T: v.Type()})
	case *ssa.Global:
		return e.Addr(e.globalObj(v), v.Type())
	case *ssa.FreeVar:
		for i, f := range fr.Fn.FreeVars {
			if f == v && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return e.mk(&V{Op: "builtin", P: v.Name()})
	}
	if t := st.regs[v]; t != nil {
		return t
	}
	return e.Unk(fmt.Sprintf("undef:%d:%s", fr.it, v.Name()), v.Type())
}

func (e *Engine) here(fr *Frame, in ssa.Instruction) int { return e.ctx(fr.it, in, nil, 0) }

// Made turns a fresh array into a slice of it.
func (e *Engine) freshObj(fr *Frame, in ssa.Instruction, kind, name string, t types.Type) *Obj {
	key := fmt.Sprintf("%s%d", kind, e.here(fr, in))
	return e.obj(key, func() *Obj {
		return &Obj{Name: name, Kind: kind, T: t, Fresh: true, Pos: in.Pos()}
	})
}

// NewObject makes the object a modelled call allocates.
func (e *Engine) NewObject(fr *Frame, in ssa.Instruction, t types.Type) *V {
	return e.Addr(e.freshObj(fr, in, "alloc", "new", t), types.NewPointer(t))
}

// Store writes through an address term.
func (e *Engine) Store(st *State, addr, val *V) { e.store(st, addr, val) }

func (e *Engine) exec(fr *Frame, in ssa.Instruction, st *State) {
	e.site(fr, in, st)
	it := types.Typ[types.Int]
	switch in := in.(type) {
	case *ssa.Alloc:
		o := e.freshObj(fr, in, "alloc", in.Comment, deref(in.Type()))
		st.mem[o] = e.Zero(o.T)
		st.regs[in] = e.Addr(o, in.Type())
	case *ssa.Store:
		a, v := e.Val(fr, st, in.Addr), e.Val(fr, st, in.Val)
		if e.OnStore != nil && e.quiet == 0 {
			e.OnStore(fr, in, e.toAddr(a), v, st)
		}
		e.store(st, a, v)
	case *ssa.UnOp:
		x := e.Val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			st.regs[in] = e.Load(st, x, in.Type())
		case token.NOT:
			st.regs[in] = e.Not(x)
		case token.SUB:
			if isIntT(in.Type()) {
				st.regs[in] = e.Sub(in.Type(), e.Zero(in.Type()), x)
			} else {
				st.regs[in] = e.mk(&V{Op: "bin", P: "neg", A: []*V{x}, T: in.Type()})
			}
		case token.XOR:
			st.regs[in] = e.mk(&V{Op: "bin", P: "^", A: []*V{x}, T: in.Type()})
		default:
			e.fail(fr, "unsupported operation %s", in)
		}
	case *ssa.BinOp:
		x, y := e.Val(fr, st, in.X), e.Val(fr, st, in.Y)
		v := e.Bin(in.Op, x, y, in.Type())
		if e.Linear && in.Op == token.SHR || in.Op == token.REM || in.Op == token.QUO {
			_ = v
		}
		st.regs[in] = v
	case *ssa.FieldAddr:
		x := e.toAddr(e.Val(fr, st, in.X))
		f := deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)
		sel := e.mk(&V{Op: "fsel", P: f.Name(), T: f.Type()})
		if x.Op != "addr" {
			st.regs[in] = e.Unk(fmt.Sprintf("nilfield:%d:%s", fr.it, in.Name()), in.Type())
			break
		}
		st.regs[in] = e.Addr(x.O, in.Type(), append(append([]*V{}, x.A...), sel)...)
	case *ssa.Field:
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		st.regs[in] = e.Field(e.Val(fr, st, in.X), f.Name(), f.Type())
	case *ssa.IndexAddr:
		st.regs[in] = e.elemAddr(e.Val(fr, st, in.X), e.Val(fr, st, in.Index), in.X.Type())
	case *ssa.Index:
		st.regs[in] = e.indexVal(e.Val(fr, st, in.X), e.Val(fr, st, in.Index), in.X.Type(), in.Type())
	case *ssa.Lookup:
		x, k := e.Val(fr, st, in.X), e.Val(fr, st, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			st.regs[in] = e.indexVal(x, k, in.X.Type(), in.Type())
			break
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		v, has := e.mapGet(e.mapContent(st, x), k, vt)
		if in.CommaOk {
			st.regs[in] = e.mk(&V{Op: "tuple", A: []*V{v, has}, T: in.Type()})
		} else {
			st.regs[in] = v
		}
	case *ssa.MakeMap:
		o := e.freshObj(fr, in, "map", "map", in.Type())
		st.mem[o] = e.mk(&V{Op: "emptymap", T: in.Type()})
		st.regs[in] = e.mk(&V{Op: "mkmap", O: o, T: in.Type()})
	case *ssa.MapUpdate:
		m := e.Val(fr, st, in.Map)
		k, v := e.Val(fr, st, in.Key), e.Val(fr, st, in.Value)
		if m.Op == "nil" {
			break
		}
		if e.OnStore != nil && e.quiet == 0 {
			e.OnStore(fr, in, m, v, st)
		}
		o := e.mapO(m)
		st.mem[o] = e.mk(&V{Op: "mapset", A: []*V{e.Content(st, o), k, v}, T: in.Map.Type()})
	case *ssa.MakeSlice:
		o := e.freshObj(fr, in, "array", "make", in.Type())
		st.mem[o] = e.mk(&V{Op: "mkarray", T: in.Type()})
		n, c := e.Conv(e.Val(fr, st, in.Len), it), e.Conv(e.Val(fr, st, in.Cap), it)
		st.regs[in] = e.mk(&V{Op: "sl", A: []*V{e.Addr(o, types.NewPointer(in.Type())), e.Int(0), n, c}, T: in.Type()})
	case *ssa.Slice:
		st.regs[in] = e.slice(fr, st, in)
		if e.Linear && in.High != nil {
			// It did not panic, so there is as much memory.
			if hi := e.Conv(e.Val(fr, st, in.High), types.Typ[types.Int]); !hi.IsConst() {
				if m := e.Int(maxLen); !e.Assume(st, e.Bin(token.LEQ, hi, m, types.Typ[types.Bool]), true) {
					st.cond[e.Bool(false)] = true
				}
			}
		}
	case *ssa.MakeClosure:
		var b []*V
		for _, x := range in.Bindings {
			b = append(b, e.Val(fr, st, x))
		}
		st.regs[in] = e.mk(&V{Op: "closure", Fn: in.Fn.(*ssa.Function), A: b, T: in.Type()})
	case *ssa.MakeInterface:
		st.regs[in] = e.mk(&V{Op: "iface", A: []*V{e.Val(fr, st, in.X)}, T: in.X.Type()})
	case *ssa.ChangeInterface:
		st.regs[in] = e.Val(fr, st, in.X)
	case *ssa.ChangeType:
		st.regs[in] = e.Conv(e.Val(fr, st, in.X), in.Type())
	case *ssa.Convert:
		st.regs[in] = e.Conv(e.Val(fr, st, in.X), in.Type())
	case *ssa.MultiConvert:
		st.regs[in] = e.mk(&V{Op: "conv", A: []*V{e.Val(fr, st, in.X)}, T: in.Type()})
	case *ssa.SliceToArrayPointer:
		st.regs[in] = e.Unk(fmt.Sprintf("s2a:%d:%s", fr.it, in.Name()), in.Type())
	case *ssa.TypeAssert:
		st.regs[in] = e.typeAssert(fr, st, in)
	case *ssa.Extract:
		t := e.Val(fr, st, in.Tuple)
		if t.Op == "tuple" && in.Index < len(t.A) {
			st.regs[in] = t.A[in.Index]
			break
		}
		st.regs[in] = e.mk(&V{Op: "res", A: []*V{t}, P: fmt.Sprint(in.Index), T: in.Type()})
	case *ssa.Range:
		x := e.Val(fr, st, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			x = e.mapContent(st, x)
		}
		st.regs[in] = e.mk(&V{Op: "range", A: []*V{x}, P: fmt.Sprint(e.here(fr, in)), T: in.X.Type()})
	case *ssa.Next:
		x := e.Val(fr, st, in.Iter)
		st.regs[in] = e.mk(&V{Op: "next", A: []*V{x}, P: fmt.Sprint(e.here(fr, in)), T: in.Type()})
	default:
		e.fail(fr, "unsupported instruction %T", in)
	}
}

func (e *Engine) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) *V {
	x := e.Val(fr, st, in.X)
	bt := types.Typ[types.Bool]
	var v, ok *V
	switch {
	case x.Op == "iface":
		var is bool
		if i, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			is = types.Implements(x.T, i)
			v = x
		} else {
			is = types.Identical(x.T, in.AssertedType)
			v = x.A[0]
		}
		ok = e.Bool(is)
		if !is {
			v = e.Zero(in.AssertedType)
		}
	case x.Op == "nil":
		v, ok = e.Zero(in.AssertedType), e.Bool(false)
	default:
		v = e.mk(&V{Op: "ta", A: []*V{x}, P: e.typeKey(in.AssertedType), T: in.AssertedType})
		ok = e.mk(&V{Op: "taok", A: []*V{x}, P: e.typeKey(in.AssertedType), T: bt})
	}
	if in.CommaOk {
		return e.mk(&V{Op: "tuple", A: []*V{v, ok}, T: in.Type()})
	}
	return v
}

func (e *Engine) indexVal(x, i *V, xt, t types.Type) *V {
	if s, ok := x.StrVal(); ok {
		if n, ok := i.Int64(); ok && n >= 0 && n < int64(len(s)) {
			return e.Const(constant.MakeInt64(int64(s[n])), t)
		}
	}
	return e.index(x, i, t)
}

func (e *Engine) mapO(m *V) *Obj {
	if m.Op == "mkmap" {
		return m.O
	}
	return e.mapObj(m)
}

func (e *Engine) mapContent(st *State, m *V) *V {
	if m.Op == "nil" {
		return e.mk(&V{Op: "emptymap", T: m.T})
	}
	return e.Content(st, e.mapO(m))
}

// MapGet looks a key up in map contents.
func (e *Engine) MapGet(c, k *V, vt types.Type) (*V, *V) { return e.mapGet(c, k, vt) }

func (e *Engine) mapGet(c, k *V, vt types.Type) (*V, *V) {
	bt := types.Typ[types.Bool]
	for cur := c; ; {
		switch cur.Op {
		case "emptymap":
			return e.Zero(vt), e.Bool(false)
		case "mapset":
			if b, ok := e.eq(cur.A[1], k).BoolVal(); ok {
				if b {
					return cur.A[2], e.Bool(true)
				}
				cur = cur.A[0]
				continue
			}
		}
		return e.mk(&V{Op: "mapget", A: []*V{cur, k}, T: vt}), e.mk(&V{Op: "maphas", A: []*V{cur, k}, T: bt})
	}
}

// splitLookup makes one path for each key a lookup may meet, and one for none.
func (e *Engine) splitLookup(fr *Frame, in *ssa.Lookup, st *State) []*State {
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok || !e.SplitMaps {
		return nil
	}
	x, k := e.Val(fr, st, in.X), e.Val(fr, st, in.Index)
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	cur := e.mapContent(st, x)
	for c := cur; ; c = c.A[0] {
		if c.Op == "emptymap" {
			break
		}
		if c.Op != "mapset" {
			return nil
		}
	}
	e.site(fr, in, st)
	var out []*State
	give := func(s *State, v *V, has bool) {
		if in.CommaOk {
			v = e.mk(&V{Op: "tuple", A: []*V{v, e.Bool(has)}, T: in.Type()})
		}
		s.regs[in] = v
		out = append(out, s)
	}
	for ; cur.Op == "mapset"; cur = cur.A[0] {
		eq := e.eq(cur.A[1], k)
		if t, ok := e.Truth(st, eq); ok {
			if t {
				give(st, cur.A[2], true)
				return out
			}
			continue
		}
		s := st.clone()
		if e.Assume(s, eq, true) {
			give(s, cur.A[2], true)
		}
		if !e.Assume(st, eq, false) {
			return out
		}
	}
	give(st, e.Zero(vt), false)
	return out
}

func (e *Engine) slice(fr *Frame, st *State, in *ssa.Slice) *V {
	it := types.Typ[types.Int]
	x := e.Val(fr, st, in.X)
	var lo, hi, mx *V
	lo = e.Int(0)
	if in.Low != nil {
		lo = e.Conv(e.Val(fr, st, in.Low), it)
	}
	if in.High != nil {
		hi = e.Conv(e.Val(fr, st, in.High), it)
	}
	if in.Max != nil {
		mx = e.Conv(e.Val(fr, st, in.Max), it)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := e.Int(p.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		a := e.toAddr(x)
		return e.mk(&V{Op: "sl", A: []*V{a, lo, hi, mx}, T: in.Type()})
	}
	if hi == nil {
		hi = e.Len(x)
	}
	return e.subslice(x, lo, hi, mx, in.Type())
}

func (e *Engine) subslice(x, lo, hi, mx *V, t types.Type) *V {
	it := types.Typ[types.Int]
	if isString(t) {
		if s, ok := x.StrVal(); ok {
			a, o1 := lo.Int64()
			b, o2 := hi.Int64()
			if o1 && o2 && 0 <= a && a <= b && b <= int64(len(s)) {
				return e.Str(s[a:b])
			}
		}
		if lo == e.Int(0) && hi == e.Len(x) {
			return x
		}
		if x.Op == "substr" {
			return e.mk(&V{Op: "substr", A: []*V{x.A[0], e.Add(it, x.A[1], lo), e.Add(it, x.A[1], hi)}, T: types.Typ[types.String]})
		}
		return e.mk(&V{Op: "substr", A: []*V{x, lo, hi}, T: types.Typ[types.String]})
	}
	switch x.Op {
	case "sl":
		c := x.A[3]
		if mx != nil {
			c = e.Add(it, x.A[1], mx)
		}
		return e.mk(&V{Op: "sl", A: []*V{x.A[0], e.Add(it, x.A[1], lo), e.Add(it, x.A[1], hi), c}, T: t})
	case "nil":
		return x
	}
	if lo == e.Int(0) && hi == e.Len(x) && mx == nil {
		return x
	}
	if x.Op == "list" && !e.KeepCaps {
		a, o1 := lo.Int64()
		b, o2 := hi.Int64()
		if o1 && o2 && 0 <= a && a <= b && b <= int64(len(x.A)) {
			return e.mk(&V{Op: "list", A: x.A[a:b:b], T: t})
		}
	}
	base, off := x, e.Int(0)
	if x.Op == "subslice" {
		base, off = x.A[0], x.A[1]
		if mx == nil && len(x.A) > 3 {
			mx = x.A[3]
		} else if mx != nil {
			mx = e.Add(it, off, mx)
		}
	}
	args := []*V{base, e.Add(it, off, lo), e.Add(it, off, hi)}
	if mx != nil {
		args = append(args, mx)
	}
	return e.mk(&V{Op: "subslice", A: args, T: t})
}

// Reg is the value of a register in a state, or nil.
func (st *State) Reg(v ssa.Value) *V { return st.regs[v] }

// MutableSlice makes a slice backed by an array of its own that holds the given elements.
func (e *Engine) MutableSlice(st *State, name string, t types.Type, elems []*V) *V {
	o := e.obj("slice "+name, func() *Obj { return &Obj{Name: name, Kind: "array", T: t, Fresh: true} })
	c := e.mk(&V{Op: "mkarray", T: t})
	for i, x := range elems {
		c = e.mk(&V{Op: "stored", A: []*V{c, e.Int(int64(i)), x}, T: t})
	}
	st.mem[o] = c
	n := e.Int(int64(len(elems)))
	return e.mk(&V{Op: "sl", A: []*V{e.Addr(o, types.NewPointer(t)), e.Int(0), n, n}, T: t})
}
