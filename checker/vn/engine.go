package vn

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Engine analyses functions.
type Engine struct {
	Prog   *ssa.Program
	InRepo func(*ssa.Function) bool
	// Hook sees every call before it is analysed; when it reports handled, its results
	// (nil: none) stand for the call.
	Hook func(c *Call) (handled bool, results *V)
	// Fork is like Hook for calls with several possible outcomes.
	Fork func(c *Call) (outs []Outcome, handled bool)
	// SplitMaps tells a lookup's possible keys apart, one path each.
	SplitMaps bool
	// Site sees every instruction that can panic or reserve memory.
	Site func(fr *Frame, in ssa.Instruction, st *State)
	// OnReturn sees every return of every analysed call.
	OnReturn func(fr *Frame, st *State, results []*V)
	// OnStore sees stores.
	OnStore func(fr *Frame, in ssa.Instruction, addr, val *V, st *State)
	// KnownNonNil tells further terms that are never nil.
	KnownNonNil func(*V) bool
	// NonNil tells terms that are not nil in a state; joins and loops keep it.
	NonNil func(*State, *V) bool
	// Unmod tells struct fields a call of a function (nil: unknown) on some arguments
	// does not change.
	Unmod func(fn *ssa.Function, args []*V, owner types.Type, field *types.Var) bool
	// AtomBounds gives further bounds of integer terms, TermFacts terms that are >= 0 because
	// of what an integer term is.
	AtomBounds func(*V) (int64, int64, bool)
	TermFacts  func(*V) []*V
	// GlobalInit holds the contents of globals after initialisation.
	GlobalInit map[*ssa.Global]*V
	InitMem    map[*Obj]*V
	// NoInline lists repository functions to treat as outside calls.
	NoInline func(*ssa.Function) bool
	MaxDepth int
	MaxParts int // states kept apart per block
	Linear   bool

	terms   map[string]*V
	tkeys   map[types.Type]string
	objs    map[string]*Obj
	ctxs    map[ctxKey]int
	infos   map[*ssa.Function]*fnInfo
	steps   int
	quiet   int // >0: inside a fixpoint iteration whose events do not count yet
	Err     error
	stack   []*ssa.Function
	linMemo map[string]bool
	inCond  bool

	// OnOpaque hears of repository functions that are not followed.
	OnOpaque func(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, why string)
	// PureFn tells further outside functions without effects.
	PureFn func(name string) bool
	// CallbackFacts states what is known of the arguments outside code gives a callback.
	CallbackFacts func(st *State, name string, args []*V, f *V, params []*V)
	// Skip tells calls not to follow: their effect is to change everything they can reach.
	Skip func(c *Call) bool
	// RepoPkg tells the packages whose types are looked into.
	RepoPkg func(string) bool
	// OnLoop sees, for each loop analysed as a fixpoint, the state at its header with
	// everything that changes unknown, the state it was entered in, and the states that
	// reach the header again.
	OnLoop func(fr *Frame, h *ssa.BasicBlock, init, entry *State, back []*State)
	// KeepConds keeps states apart that differ in what is known to hold.
	KeepConds bool
	// KeepCond is like KeepConds for chosen facts.
	KeepCond func(*V) bool
	// Keep lists values whose objects are never forgotten.
	Keep []*V
	// KeepCaps keeps part-of terms even where only the elements would matter.
	KeepCaps bool
	// AllFuncs are the repository's functions, for RunInits.
	AllFuncs  []*ssa.Function
	MaxSteps  int
	Joins     int // forced joins
	loopInfos map[int]*loopInfo

	keyBuf      []byte
	zeros       map[types.Type]*V
	fnNums      map[*ssa.Function]int
	typeNums    map[types.Type]int
	typeKeyNums map[string]int
}

// Steps is how many instructions were analysed.
func (e *Engine) Steps() int { return e.steps }

type ctxKey struct {
	parent int
	in     ssa.Instruction
	fn     *ssa.Function
	n      int
}

func New(prog *ssa.Program, inRepo func(*ssa.Function) bool) *Engine {
	return &Engine{Prog: prog, InRepo: inRepo, zeros: map[types.Type]*V{}, fnNums: map[*ssa.Function]int{}, typeNums: map[types.Type]int{}, typeKeyNums: map[string]int{}, terms: map[string]*V{}, tkeys: map[types.Type]string{}, objs: map[string]*Obj{},
		ctxs: map[ctxKey]int{}, infos: map[*ssa.Function]*fnInfo{}, MaxDepth: 24, MaxParts: 24, GlobalInit: map[*ssa.Global]*V{},
		InitMem: map[*Obj]*V{}, linMemo: map[string]bool{}, loopInfos: map[int]*loopInfo{}, MaxSteps: 20000000}
}

// State is an abstract state.
type State struct {
	regs   map[ssa.Value]*V
	mem    map[*Obj]*V
	cond   map[*V]bool
	defers []deferred
	outer  *outerRegs
}

type deferred struct {
	in   *ssa.Defer
	fn   *V
	args []*V
}

func newState() *State {
	return &State{regs: map[ssa.Value]*V{}, mem: map[*Obj]*V{}, cond: map[*V]bool{}}
}

func (s *State) clone() *State {
	n := &State{regs: make(map[ssa.Value]*V, len(s.regs)), mem: make(map[*Obj]*V, len(s.mem)), cond: make(map[*V]bool, len(s.cond))}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.cond {
		n.cond[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	n.outer = s.outer
	return n
}

// Clone copies a state.
func (s *State) Clone() *State { return s.clone() }

// Cond lists what is known to hold.
func (s *State) Cond() map[*V]bool { return s.cond }

// Defers lists the pending deferred calls of the current function.
func (s *State) Defers() []deferred { return s.defers }

// Frame is one calling context.
type Frame struct {
	E      *Engine
	Fn     *ssa.Function
	Ctx    int
	Parent *Frame
	Site   ssa.Instruction
	bind   []*V
	info   *fnInfo
	it     int // context of the current loop iteration
}

// Depth of the calling context.
func (f *Frame) Depth() int {
	n := 0
	for p := f.Parent; p != nil; p = p.Parent {
		n++
	}
	return n
}

// Root is the outermost frame.
func (f *Frame) Root() *Frame {
	for f.Parent != nil {
		f = f.Parent
	}
	return f
}

// Call is what a hook sees.
type Call struct {
	Fr   *Frame
	In   ssa.CallInstruction
	Name string // outside name, or repository function
	Fn   *ssa.Function
	FnV  *V
	Args []*V
	St   *State
	// Quiet: the call is met in an iteration of a loop that is not stable yet.
	Quiet bool
	Defer bool
}

type fnInfo struct {
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> members
	rpo     map[*ssa.BasicBlock]int
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
	irred   bool
	reached bool
}

func (e *Engine) info(f *ssa.Function) *fnInfo {
	if i := e.infos[f]; i != nil {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	e.infos[f] = i
	// Natural loops.
	state := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					i.irred = true
				}
			}
		}
		state[b] = 2
		order = append(order, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	if f.Recover != nil && state[f.Recover] == 0 {
		dfs(f.Recover)
	}
	for n, b := range order {
		i.rpo[b] = len(order) - n
	}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := i.loops[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = m
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if m[x] {
						continue
					}
					m[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// Liveness (registers live on entry; phis count as defined at entry, their operands as
	// used at the end of the predecessor).
	for _, b := range order {
		i.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range order {
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					lv[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(lv, phi)
					_ = pi
				}
			}
			for _, s := range b.Succs {
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						lv[phi.Edges[k]] = true
					}
				}
			}
			var ops []*ssa.Value
			for n := len(b.Instrs) - 1; n >= 0; n-- {
				in := b.Instrs[n]
				if v, ok := in.(ssa.Value); ok {
					delete(lv, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch (*o).(type) {
					case nil, *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
					default:
						lv[*o] = true
					}
				}
			}
			// Phis are live on entry: they are set on the edge.
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				lv[phi] = true
			}
			if len(lv) != len(i.live[b]) {
				i.live[b] = lv
				changed = true
			}
		}
	}
	return i
}

func (e *Engine) ctx(parent int, in ssa.Instruction, fn *ssa.Function, num int) int {
	k := ctxKey{parent, in, fn, num}
	if n, ok := e.ctxs[k]; ok {
		return n
	}
	n := len(e.ctxs) + 1
	e.ctxs[k] = n
	return n
}

func (e *Engine) obj(key string, mk func() *Obj) *Obj {
	if o := e.objs[key]; o != nil {
		return o
	}
	o := mk()
	o.ID = len(e.objs) + 1
	e.objs[key] = o
	return o
}

// Addr makes an address.
func (e *Engine) Addr(o *Obj, t types.Type, sels ...*V) *V {
	return e.mk(&V{Op: "addr", O: o, A: sels, T: t})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Lazy is the object a pointer input points to.
func (e *Engine) Lazy(p *V) *Obj {
	return e.obj(fmt.Sprintf("lazy%d", p.ID), func() *Obj {
		return &Obj{Name: "*" + p.String(), Kind: "lazy", T: deref(p.T), Ptr: p}
	})
}

// elems is the object holding the elements of a slice input.
func (e *Engine) elems(s *V) *Obj {
	return e.obj(fmt.Sprintf("elems%d", s.ID), func() *Obj {
		return &Obj{Name: s.String(), Kind: "elems", T: s.T, Ptr: s}
	})
}

// mapObj is the object holding the contents of a map input.
func (e *Engine) mapObj(m *V) *Obj {
	return e.obj(fmt.Sprintf("map%d", m.ID), func() *Obj {
		return &Obj{Name: m.String(), Kind: "mapin", T: m.T, Ptr: m}
	})
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	return e.obj(fmt.Sprintf("glob%p", g), func() *Obj {
		return &Obj{Name: g.RelString(nil), Kind: "global", T: deref(g.Type())}
	})
}

// Content is what an object holds.
func (e *Engine) Content(st *State, o *Obj) *V {
	if v := st.mem[o]; v != nil {
		return v
	}
	if v := e.InitMem[o]; v != nil {
		return v
	}
	switch o.Kind {
	case "lazy":
		return e.mk(&V{Op: "deref", A: []*V{o.Ptr}, T: o.T})
	case "elems":
		return e.mk(&V{Op: "elems", A: []*V{o.Ptr}, T: o.T})
	case "mapin":
		return e.mk(&V{Op: "mapof", A: []*V{o.Ptr}, T: o.T})
	case "global":
		return e.mk(&V{Op: "param", P: o.Name, T: o.T})
	}
	return e.Zero(o.T)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

// selectV reads a part of a content term.
func (e *Engine) selectV(v *V, sels []*V) *V {
	for _, s := range sels {
		if s.Op == "fsel" {
			v = e.Field(v, s.P, s.T)
			continue
		}
		v = e.index(v, s.A[0], s.T)
	}
	return v
}

func (e *Engine) index(v, i *V, t types.Type) *V {
	if isIntT(i.T) {
		i = e.Conv(i, types.Typ[types.Int])
	}
	for cur := v; ; {
		switch cur.Op {
		case "stored":
			same := e.eq(cur.A[1], i)
			if b, ok := same.BoolVal(); ok {
				if b {
					return cur.A[2]
				}
				cur = cur.A[0]
				continue
			}
		case "zero":
			return e.Zero(t)
		case "elems":
			if cur.A[0].Op == "subslice" {
				return e.Elem(cur.A[0].A[0], e.Add(types.Typ[types.Int], cur.A[0].A[1], e.Conv(i, types.Typ[types.Int])), t)
			}
			return e.Elem(cur.A[0], i, t)
		case "mkarray":
			return e.Zero(t)
		}
		return e.mk(&V{Op: "elem", A: []*V{cur, i}, T: t})
	}
}

func (e *Engine) update(v *V, t types.Type, sels []*V, val *V) *V {
	if len(sels) == 0 {
		return val
	}
	s := sels[0]
	if s.Op == "fsel" {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return e.Unk("bad-update", t)
		}
		fs := make([]*V, st.NumFields())
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fs[i] = e.Field(v, f.Name(), f.Type())
			if f.Name() == s.P {
				fs[i] = e.update(fs[i], f.Type(), sels[1:], val)
			}
		}
		return e.Struct(t, fs)
	}
	cur := e.index(v, s.A[0], s.T)
	nv := e.update(cur, s.T, sels[1:], val)
	// Drop an older store to the same index right below.
	if v.Op == "stored" && v.A[1] == s.A[0] {
		v = v.A[0]
	}
	return e.mk(&V{Op: "stored", A: []*V{v, s.A[0], nv}, T: t})
}

// Load reads through an address term.
func (e *Engine) Load(st *State, addr *V, t types.Type) *V {
	if addr.Op != "addr" {
		if addr.Op == "nil" {
			return e.Unk("nil-load", t)
		}
		addr = e.Addr(e.Lazy(addr), addr.T)
	}
	return e.selectV(e.Content(st, addr.O), addr.A)
}

func (e *Engine) store(st *State, addr, val *V) {
	if addr.Op != "addr" {
		if addr.Op == "nil" {
			return
		}
		addr = e.Addr(e.Lazy(addr), addr.T)
	}
	st.mem[addr.O] = e.update(e.Content(st, addr.O), addr.O.T, addr.A, val)
}

// toAddr normalises a pointer term.
func (e *Engine) toAddr(p *V) *V {
	if p.Op == "addr" || p.Op == "nil" {
		return p
	}
	return e.Addr(e.Lazy(p), p.T)
}

// elemAddr is the address of an element of a slice or of an array behind a pointer.
func (e *Engine) elemAddr(x, i *V, xt types.Type) *V {
	et := elemType(xt)
	i = e.Conv(i, types.Typ[types.Int])
	it := e.mk(&V{Op: "isel", A: []*V{i}, T: et})
	pt := types.NewPointer(et)
	if _, ok := xt.Underlying().(*types.Pointer); ok {
		a := e.toAddr(x)
		if a.Op != "addr" {
			return e.Unk("nil-elem", pt)
		}
		return e.Addr(a.O, pt, append(append([]*V{}, a.A...), it)...)
	}
	if x.Op == "subslice" {
		return e.elemAddr(x.A[0], e.Add(types.Typ[types.Int], x.A[1], e.Conv(i, types.Typ[types.Int])), xt)
	}
	if x.Op == "sl" {
		a := x.A[0]
		it = e.mk(&V{Op: "isel", A: []*V{e.Add(types.Typ[types.Int], x.A[1], i)}, T: et})
		return e.Addr(a.O, pt, append(append([]*V{}, a.A...), it)...)
	}
	o := e.elems(x)
	return e.Addr(o, pt, it)
}

// Snapshot turns a slice of a local array with a known length into the list of its
// elements, so that it no longer depends on memory.
func (e *Engine) Snapshot(st *State, v *V) *V {
	switch v.Op {
	case "sl":
		lo, ok1 := v.A[1].Int64()
		hi, ok2 := v.A[2].Int64()
		if ok1 && ok2 && hi-lo <= 64 && hi >= lo {
			et := elemType(v.T)
			var el []*V
			for i := lo; i < hi; i++ {
				it := e.mk(&V{Op: "isel", A: []*V{e.Int(i)}, T: et})
				el = append(el, e.Load(st, e.Addr(v.A[0].O, types.NewPointer(et), append(append([]*V{}, v.A[0].A...), it)...), et))
			}
			return e.mk(&V{Op: "list", A: el, T: v.T})
		}
		return e.mk(&V{Op: "part", A: []*V{e.selectV(e.Content(st, v.A[0].O), v.A[0].A), v.A[1], v.A[2]}, T: v.T})
	case "list":
		if o := e.objs[fmt.Sprintf("elems%d", v.ID)]; o == nil || st.mem[o] == nil || len(v.A) > 64 {
			return v
		}
		return e.listed(st, v, 0, int64(len(v.A)), v.T)
	case "mkmap":
		if c := st.mem[v.O]; c != nil {
			return e.mk(&V{Op: "mapver", A: []*V{c}, T: v.T})
		}
	case "param", "unk", "field", "elem", "call", "res", "append", "conv", "deref", "subslice":
		if v.Op == "subslice" && v.A[0].Op == "list" {
			lo, ok1 := v.A[1].Int64()
			hi, ok2 := v.A[2].Int64()
			if ok1 && ok2 && 0 <= lo && lo <= hi && hi <= int64(len(v.A[0].A)) && hi-lo <= 64 {
				return e.listed(st, v.A[0], lo, hi, v.T)
			}
		}
		if v.T != nil {
			if _, ok := v.T.Underlying().(*types.Slice); ok {
				if o := e.objs[fmt.Sprintf("elems%d", v.ID)]; o != nil {
					if c := st.mem[o]; c != nil {
						return e.mk(&V{Op: "ver", A: []*V{v, c}, T: v.T})
					}
				}
			}
		}
	}
	return v
}

// listed is the list of a slice's elements as they are now.
func (e *Engine) listed(st *State, base *V, lo, hi int64, t types.Type) *V {
	et := elemType(t)
	var el []*V
	for i := lo; i < hi; i++ {
		el = append(el, e.Load(st, e.elemAddr(base, e.Int(i), base.T), et))
	}
	return e.mk(&V{Op: "list", A: el, T: t})
}

// reach lists the objects reachable from terms.
func (e *Engine) reach(st *State, vs []*V) []*Obj {
	var out []*Obj
	seen := map[*Obj]bool{}
	seenV := map[*V]bool{}
	var visit func(v *V)
	add := func(o *Obj) {
		if !seen[o] {
			seen[o] = true
			out = append(out, o)
			visit(e.Content(st, o))
		}
	}
	visit = func(v *V) {
		if v == nil || seenV[v] {
			return
		}
		seenV[v] = true
		if v.O != nil {
			add(v.O)
		}
		if v.Op == "field" && v.A[0].T != nil && e.foreign(v.A[0].T) {
			return
		}
		if v.Op == "struct" && v.T != nil && e.foreign(v.T) {
			return
		}
		if v.T != nil {
			switch v.Op {
			case "param", "unk", "field", "elem", "call", "res", "append", "ta", "subslice", "mapget":
				switch v.T.Underlying().(type) {
				case *types.Pointer:
					add(e.Lazy(v))
				case *types.Slice:
					if o := e.objs[fmt.Sprintf("elems%d", v.ID)]; o != nil {
						add(o)
					}
				case *types.Map:
					if o := e.objs[fmt.Sprintf("map%d", v.ID)]; o != nil {
						add(o)
					}
				}
			}
		}
		switch v.Op {
		case "call", "res", "deref", "elems", "mapof":
			return
		}
		for _, a := range v.A {
			visit(a)
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return out
}

// havoc forgets everything reachable from terms.  A pointer to a struct field gives
// access to that field only.
func (e *Engine) havoc(st *State, vs []*V, why string, fn *ssa.Function) {
	type part struct {
		o    *Obj
		sels []*V
	}
	var parts []part
	var rest []*V
	for _, v := range vs {
		x := v
		for x.Op == "iface" || x.Op == "conv" {
			x = x.A[0]
		}
		if x.Op == "addr" && len(x.A) > 0 {
			n := 0
			for n < len(x.A) && x.A[n].Op == "fsel" {
				n++
			}
			if n > 0 {
				parts = append(parts, part{x.O, x.A[:n]})
				rest = append(rest, e.selectV(e.Content(st, x.O), x.A[:n]))
				continue
			}
		}
		rest = append(rest, v)
	}
	done := map[*Obj]bool{}
	for _, o := range e.reach(st, rest) {
		done[o] = true
		if e.InitMem[o] != nil {
			continue
		}
		u := e.Unk(fmt.Sprintf("%s/%d", why, o.ID), o.T)
		if e.Unmod != nil {
			u = e.unmodified(fn, vs, o.T, e.Content(st, o), u)
		}
		st.mem[o] = u
	}
	for _, p := range parts {
		if done[p.o] || e.InitMem[p.o] != nil {
			continue
		}
		u := e.Unk(fmt.Sprintf("%s/%d%s", why, p.o.ID, selName(p.sels)), selType(p.o.T, p.sels))
		st.mem[p.o] = e.update(e.Content(st, p.o), p.o.T, p.sels, u)
	}
}

// Truth evaluates a condition in a state.
func (e *Engine) Truth(st *State, v *V) (bool, bool) {
	if b, ok := v.BoolVal(); ok {
		return b, true
	}
	if v.Op == "not" {
		b, ok := e.Truth(st, v.A[0])
		return !b, ok
	}
	if b, ok := st.cond[v]; ok {
		return b, true
	}
	switch v.Op {
	case "eq":
		x, c := v.A[0], v.A[1]
		if x.Op == "struct" && c.Op == "struct" && len(x.A) == len(c.A) {
			all := true
			for i := range x.A {
				t, ok := e.Truth(st, e.eq(x.A[i], c.A[i]))
				if ok && !t {
					return false, true
				}
				all = all && ok
			}
			if all {
				return true, true
			}
		}
		if c.IsConst() {
			for k, b := range st.cond {
				if !b || k.Op != "eq" || k.A[0] != x || !k.A[1].IsConst() {
					continue
				}
				return e.eq(k.A[1], c).BoolVal()
			}
			if s, ok := c.StrVal(); ok && s != "" {
				if b, ok := st.cond[e.mk(&V{Op: "empty", A: []*V{x}, T: types.Typ[types.Bool]})]; ok && b {
					return false, true
				}
			}
		}
	case "empty":
		for k, b := range st.cond {
			if b && k.Op == "eq" && k.A[0] == v.A[0] {
				if s, ok := k.A[1].StrVal(); ok {
					return s == "", true
				}
			}
		}
		l := v.A[0]
		if l.Op == "cat" {
			for _, a := range l.A {
				if b, ok := e.Truth(st, e.mk(&V{Op: "empty", A: []*V{a}, T: types.Typ[types.Bool]})); ok && !b {
					return false, true
				}
				if s, ok := a.StrVal(); ok && s != "" {
					return false, true
				}
			}
		}
	case "isnil":
		if v.A[0].Op == "append" {
			if b, ok := e.Truth(st, e.eq(v.A[0].A[0], e.mk(&V{Op: "nil", T: v.A[0].T}))); ok && !b {
				return false, true
			}
		}
		if b, ok := st.cond[e.mk(&V{Op: "lt", A: []*V{e.Int(0), e.Len(v.A[0])}, T: types.Typ[types.Bool]})]; ok && b {
			return false, true
		}
	}
	if (v.Op == "lt" || v.Op == "eq") && (isIntT(v.A[0].T) || isStringT(v.A[0].T)) {
		// Exactly one of <, =, > holds.
		var t [3]int8 // x<y, x=y, y<x
		bt := types.Typ[types.Bool]
		x, y := v.A[0], v.A[1]
		for i, k := range []*V{{Op: "lt", A: []*V{x, y}, T: bt}, nil, {Op: "lt", A: []*V{y, x}, T: bt}} {
			if k == nil {
				k = e.eq(x, y)
			} else {
				k = e.mk(k)
			}
			if b, ok := st.cond[k]; ok {
				t[i] = -1
				if b {
					t[i] = 1
				}
			}
		}
		want := 0
		if v.Op == "eq" {
			want = 1
		}
		a, b := t[(want+1)%3], t[(want+2)%3]
		if a == 1 || b == 1 {
			return false, true
		}
		if a == -1 && b == -1 {
			return true, true
		}
	}
	if e.Linear && (v.Op == "lt" || v.Op == "eq" || v.Op == "empty") {
		return e.linTruth(st, v)
	}
	return false, false
}

// Assume adds a condition; it reports whether the state stays possible.
func (e *Engine) Assume(st *State, v *V, b bool) bool {
	for v.Op == "not" {
		v, b = v.A[0], !b
	}
	if w, ok := e.Truth(st, v); ok {
		if w == b && !v.IsConst() {
			st.cond[v] = b
		}
		return w == b
	}
	if v.Op == "phi" {
		return true
	}
	if b && v.Op == "isnil" && (v.A[0].Op == "call" || v.A[0].Op == "res") && e.notNil(st, v.A[0]) {
		return false
	}
	st.cond[v] = b
	if b && v.Op == "isnil" && v.A[0].T != nil {
		if _, ok := v.A[0].T.Underlying().(*types.Slice); ok {
			// A nil list is empty.
			if e.Linear && e.ProveGE(st, e.Len(v.A[0]), e.Int(0), 1) {
				return false
			}
		}
	}
	if b && v.Op == "eq" && v.A[0].Op == "struct" && v.A[1].Op == "struct" && len(v.A[0].A) == len(v.A[1].A) {
		for i, x := range v.A[0].A {
			if !e.Assume(st, e.eq(x, v.A[1].A[i]), true) {
				return false
			}
		}
	}
	return true
}

func sortedObjs(m map[*Obj]*V) []*Obj {
	var out []*Obj
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// SetContent replaces what an object holds.
func (e *Engine) SetContent(st *State, o *Obj, v *V) { st.mem[o] = v }

// Pending tells whether a deferred call is pending in the current function or one that
// called it.
func (s *State) Pending() bool {
	if len(s.defers) > 0 {
		return true
	}
	for o := s.outer; o != nil; o = o.next {
		if len(o.defers) > 0 {
			return true
		}
	}
	return false
}

// Reaches tells whether memory of an object can be reached from terms.
func (e *Engine) Reaches(st *State, vs []*V, o *Obj) bool {
	for _, x := range e.reach(st, vs) {
		if x == o {
			return true
		}
	}
	return false
}

// Objects lists the objects whose contents a state holds.
func (e *Engine) Objects(st *State) []*Obj { return sortedObjs(st.mem) }

// ResultOf is one result of a call with several.
func (e *Engine) ResultOf(call *V, i int, t types.Type) *V {
	return e.mk(&V{Op: "res", A: []*V{call}, P: strconv.Itoa(i), T: t})
}

// Subst replaces terms inside a term.
func (e *Engine) Subst(v *V, m map[*V]*V) *V {
	if r := m[v]; r != nil {
		return r
	}
	if len(v.A) == 0 {
		return v
	}
	changed := false
	as := make([]*V, len(v.A))
	for i, a := range v.A {
		as[i] = e.Subst(a, m)
		changed = changed || as[i] != a
	}
	r := v
	if changed {
		r = e.mk(&V{Op: v.Op, A: as, C: v.C, T: v.T, Fn: v.Fn, O: v.O, P: v.P})
	}
	m[v] = r
	return r
}

// Scaled reports that v is k times another term.
func (e *Engine) Scaled(v *V) (int64, *V, bool) {
	c, m := e.linOf(v)
	if constant.Sign(c) != 0 || len(m) != 1 {
		return 0, nil, false
	}
	for a, k := range m {
		n, ok := constant.Int64Val(k)
		return n, a, ok
	}
	return 0, nil, false
}

func (e *Engine) condKey(st *State) string {
	if !e.KeepConds && e.KeepCond == nil {
		return ""
	}
	var b []byte
	for _, v := range sortCond(st.cond) {
		if !e.KeepConds && !e.KeepCond(v) {
			continue
		}
		b = strconv.AppendInt(b, int64(v.ID), 36)
		if st.cond[v] {
			b = append(b, '+')
		} else {
			b = append(b, '-')
		}
	}
	return string(b)
}

// FuncVal is a function as a value.
func (e *Engine) FuncVal(f *ssa.Function) *V { return e.mk(&V{Op: "func", Fn: f, T: f.Type()}) }

// ClosureVal is a closure over given values.
func (e *Engine) ClosureVal(f *ssa.Function, bind []*V) *V {
	return e.mk(&V{Op: "closure", Fn: f, A: bind, T: f.Type()})
}

// unmodified puts the fields a call does not change back into what is unknown after it.
func (e *Engine) unmodified(fn *ssa.Function, args []*V, t types.Type, old, u *V) *V {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 || e.foreign(t) {
		return u
	}
	res := u
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !e.Unmod(fn, args, t, f) {
			continue
		}
		o := e.Field(old, f.Name(), f.Type())
		n := e.unmodified(fn, args, f.Type(), o, e.Field(u, f.Name(), f.Type()))
		if fst, ok := f.Type().Underlying().(*types.Struct); !ok || fst.NumFields() == 0 || e.foreign(f.Type()) {
			n = o
		}
		res = e.update(res, t, []*V{e.mk(&V{Op: "fsel", P: f.Name(), T: f.Type()})}, n)
	}
	return res
}

// notNil: known not to be nil in a state.
func (e *Engine) notNil(st *State, v *V) bool {
	if v == nil || v.T == nil {
		return false
	}
	switch v.T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
	default:
		return false
	}
	if b, known := e.Truth(st, e.eq(v, e.mk(&V{Op: "nil", T: v.T}))); known {
		return !b
	}
	return e.NonNil != nil && e.NonNil(st, v)
}
