package rules

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// A small inclusion-based points-to analysis over the repository's functions:
// objects are globals, allocation sites and the results of external calls, told
// apart by the call site their function was entered from; struct fields are
// merged, statements are unordered.  It over-approximates which memory a write
// can touch.

type pobj struct {
	kind string // "global", "alloc", "ext", "func", "closure"
	glob *ssa.Global
	fn   *ssa.Function // for func/closure
	ctx  *pctx         // creation context of a closure
	site ssa.Instruction
	typ  types.Type // the memory it stands for, if known
	cont map[*pobj]bool
	id   int
}

type pctx struct {
	fn   *ssa.Function
	site ssa.CallInstruction
	init bool
	vals map[ssa.Value]map[*pobj]bool
	ret  map[*pobj]bool
	objs map[ssa.Instruction]*pobj
}

type pwrite struct {
	ctx  *pctx
	in   ssa.Instruction
	objs map[*pobj]bool
	what string
}

type pta struct {
	ctxs    map[pkey]*pctx
	order   []*pctx
	globs   map[*ssa.Global]*pobj
	funcs   map[*ssa.Function]*pobj
	methods map[string][]*ssa.Function
	changed bool
	nobj    int
	writes  map[string]*pwrite
	wOrder  []string
	extArgs map[string]*pwrite // external calls: what is passed to them
	eOrder  []string
	// typed keeps objects out of values that cannot point to memory of their type.
	typed bool
	fits  map[pfit]bool
}

type pfit struct {
	v types.Type
	o *pobj
}

type pkey struct {
	fn   *ssa.Function
	site ssa.CallInstruction
	init bool
}

func newPTA(prog *ssa.Program, fns []*ssa.Function) *pta {
	p := &pta{ctxs: map[pkey]*pctx{}, globs: map[*ssa.Global]*pobj{}, funcs: map[*ssa.Function]*pobj{},
		methods: map[string][]*ssa.Function{}, writes: map[string]*pwrite{}, extArgs: map[string]*pwrite{}}
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			p.methods[f.Name()] = append(p.methods[f.Name()], f)
		}
	}
	for _, f := range fns {
		if f.Parent() == nil {
			p.ctx(f, nil, isInit(f))
		}
	}
	for round := 0; ; round++ {
		p.changed = false
		for i := 0; i < len(p.order); i++ {
			p.eval(p.order[i])
		}
		if !p.changed {
			return p
		}
		if round > 200 {
			panic("points-to analysis did not converge")
		}
	}
}

func (p *pta) ctx(f *ssa.Function, site ssa.CallInstruction, init bool) *pctx {
	k := pkey{f, site, init}
	if c := p.ctxs[k]; c != nil {
		return c
	}
	c := &pctx{fn: f, site: site, init: init, vals: map[ssa.Value]map[*pobj]bool{}, ret: map[*pobj]bool{}, objs: map[ssa.Instruction]*pobj{}}
	p.ctxs[k] = c
	p.order = append(p.order, c)
	p.changed = true
	return c
}

func (p *pta) newObj(kind string) *pobj {
	p.nobj++
	return &pobj{kind: kind, cont: map[*pobj]bool{}, id: p.nobj}
}

func (p *pta) global(g *ssa.Global) *pobj {
	o := p.globs[g]
	if o == nil {
		o = p.newObj("global")
		o.glob = g
		p.globs[g] = o
	}
	return o
}

func (p *pta) fnObj(f *ssa.Function) *pobj {
	o := p.funcs[f]
	if o == nil {
		o = p.newObj("func")
		o.fn = f
		p.funcs[f] = o
	}
	return o
}

func (p *pta) siteObj(c *pctx, in ssa.Instruction, kind string) *pobj {
	o := c.objs[in]
	if o == nil {
		o = p.newObj(kind)
		o.site = in
		c.objs[in] = o
		if p.typed && kind == "alloc" {
			switch in := in.(type) {
			case *ssa.Alloc:
				o.typ = deref(in.Type())
			case *ssa.MakeMap:
				o.typ = in.Type()
			case *ssa.MakeSlice:
				o.typ = in.Type().Underlying().(*types.Slice).Elem()
			case *ssa.Call:
				if s, ok := in.Type().Underlying().(*types.Slice); ok {
					o.typ = s.Elem()
				}
			}
		}
	}
	return o
}

func (p *pta) pts(c *pctx, v ssa.Value) map[*pobj]bool {
	switch v := v.(type) {
	case *ssa.Global:
		return map[*pobj]bool{p.global(v): true}
	case *ssa.Function:
		return map[*pobj]bool{p.fnObj(v): true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	return c.vals[v]
}

func (p *pta) add(c *pctx, v ssa.Value, objs map[*pobj]bool) {
	if len(objs) == 0 || !hasPointers(v.Type()) {
		return
	}
	m := c.vals[v]
	if m == nil {
		m = map[*pobj]bool{}
		c.vals[v] = m
	}
	for o := range objs {
		if !m[o] && (!p.typed || p.fit(v.Type(), o)) {
			m[o] = true
			p.changed = true
		}
	}
}

// fit reports that a value of a type may refer to an object.
func (p *pta) fit(t types.Type, o *pobj) bool {
	if o.typ == nil {
		return true
	}
	k := pfit{t, o}
	r, ok := p.fits[k]
	if !ok {
		r = refersTo(t, o.typ)
		p.fits[k] = r
	}
	return r
}

// refersTo reports that a value of type t holds a reference to (a part of) memory of type m.
func refersTo(t, m types.Type) bool {
	for _, e := range refTypes(t, nil) {
		if e == nil || memHolds(m, e) {
			return true
		}
	}
	return false
}

// refTypes lists the types of the memory a value refers to; nil stands for any.
func refTypes(t types.Type, out []types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return append(out, u.Elem(), a.Elem()) // a list seen as an array
		}
		return append(out, u.Elem())
	case *types.Slice:
		return append(out, u.Elem())
	case *types.Map:
		return append(out, t)
	case *types.Array:
		return refTypes(u.Elem(), out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = refTypes(u.Field(i).Type(), out)
		}
		return out
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			out = refTypes(u.At(i).Type(), out)
		}
		return out
	case *types.Basic:
		if u.Kind() != types.UnsafePointer {
			return out
		}
	}
	return append(out, nil)
}

// holds reports that memory of type m has a part of type e.
func memHolds(m, e types.Type) bool {
	if types.Identical(m, e) || types.Identical(m.Underlying(), e.Underlying()) {
		return true
	}
	switch u := m.Underlying().(type) {
	case *types.Array:
		return memHolds(u.Elem(), e)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if memHolds(u.Field(i).Type(), e) {
				return true
			}
		}
	}
	return false
}

func (p *pta) addCont(objs, what map[*pobj]bool) {
	for o := range objs {
		for w := range what {
			if !o.cont[w] {
				o.cont[w] = true
				p.changed = true
			}
		}
	}
}

func (p *pta) contents(objs map[*pobj]bool) map[*pobj]bool {
	out := map[*pobj]bool{}
	for o := range objs {
		for x := range o.cont {
			out[x] = true
		}
	}
	return out
}

func (p *pta) write(c *pctx, in ssa.Instruction, objs map[*pobj]bool, what string) {
	p.record(&p.wOrder, p.writes, c, in, objs, what)
}

func (p *pta) record(order *[]string, m map[string]*pwrite, c *pctx, in ssa.Instruction, objs map[*pobj]bool, what string) {
	if len(objs) == 0 {
		return
	}
	k := fmt.Sprintf("%p|%p|%s", c, in, what)
	w := m[k]
	if w == nil {
		w = &pwrite{ctx: c, in: in, objs: map[*pobj]bool{}, what: what}
		m[k] = w
		*order = append(*order, k)
	}
	for o := range objs {
		w.objs[o] = true
	}
}

func union(ms ...map[*pobj]bool) map[*pobj]bool {
	out := map[*pobj]bool{}
	for _, m := range ms {
		for o := range m {
			out[o] = true
		}
	}
	return out
}

func (p *pta) eval(c *pctx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			p.instr(c, in)
		}
	}
}

func (p *pta) instr(c *pctx, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		p.add(c, in, map[*pobj]bool{p.siteObj(c, in, "alloc"): true})
	case *ssa.MakeMap:
		p.add(c, in, map[*pobj]bool{p.siteObj(c, in, "alloc"): true})
	case *ssa.MakeSlice:
		p.add(c, in, map[*pobj]bool{p.siteObj(c, in, "alloc"): true})
	case *ssa.MakeChan:
		p.add(c, in, map[*pobj]bool{p.siteObj(c, in, "alloc"): true})
	case *ssa.MakeClosure:
		o := p.siteObj(c, in, "closure")
		o.fn = in.Fn.(*ssa.Function)
		o.ctx = c
		p.add(c, in, map[*pobj]bool{o: true})
	case *ssa.FieldAddr:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.IndexAddr:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.Field:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.Index:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.Extract:
		p.add(c, in, p.pts(c, in.Tuple))
	case *ssa.Phi:
		for _, e := range in.Edges {
			p.add(c, in, p.pts(c, e))
		}
	case *ssa.ChangeType:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.ChangeInterface:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.MakeInterface:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.TypeAssert:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.SliceToArrayPointer:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.Slice:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.Convert:
		// string<->[]byte conversions copy.
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			if hasPointers(in.Type()) {
				p.add(c, in, map[*pobj]bool{p.siteObj(c, in, "alloc"): true})
			}
		} else {
			p.add(c, in, p.pts(c, in.X))
		}
	case *ssa.MultiConvert:
		p.add(c, in, union(p.pts(c, in.X), map[*pobj]bool{p.siteObj(c, in, "alloc"): true}))
	case *ssa.UnOp:
		if in.Op.String() == "*" && p.typed {
			if vals, ok := lastStores(in); ok {
				for _, v := range vals {
					k := c
					if v.site != nil {
						k = p.ctx(v.site.Common().StaticCallee(), v.site, c.init)
					}
					p.add(c, in, p.pts(k, v.v))
				}
				break
			}
		}
		if in.Op.String() == "*" || in.Op.String() == "<-" {
			p.add(c, in, p.contents(p.pts(c, in.X)))
		}
	case *ssa.Lookup:
		p.add(c, in, p.contents(p.pts(c, in.X)))
	case *ssa.Range:
		p.add(c, in, p.pts(c, in.X))
	case *ssa.Next:
		p.add(c, in, p.contents(p.pts(c, in.Iter)))
	case *ssa.Store:
		a := p.pts(c, in.Addr)
		p.write(c, in, a, "stores to")
		p.addCont(a, p.pts(c, in.Val))
	case *ssa.MapUpdate:
		a := p.pts(c, in.Map)
		p.write(c, in, a, "updates the map")
		p.addCont(a, union(p.pts(c, in.Key), p.pts(c, in.Value)))
	case *ssa.Send:
		p.addCont(p.pts(c, in.Chan), p.pts(c, in.X))
	case *ssa.Return:
		for _, r := range in.Results {
			for o := range p.pts(c, r) {
				if !c.ret[o] {
					c.ret[o] = true
					p.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		p.call(c, in)
	}
}

func (p *pta) call(c *pctx, in ssa.CallInstruction) {
	cc := in.Common()
	v := in.Value()
	res := func(objs map[*pobj]bool) {
		if v != nil {
			p.add(c, v, objs)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			s := p.pts(c, cc.Args[0])
			no := map[*pobj]bool{p.siteObj(c, in, "alloc"): true}
			if len(cc.Args) > 1 {
				if !clipped(cc.Args[0]) {
					p.write(c, in, s, "appends into spare capacity of")
				}
				el := p.contents(p.pts(c, cc.Args[1]))
				p.addCont(no, union(el, p.contents(s)))
				p.addCont(s, el)
			}
			if p.typed && clipped(cc.Args[0]) && len(cc.Args) > 1 && someElems(cc.Args[1]) {
				res(no)
				return
			}
			res(union(s, no))
		case "copy":
			d := p.pts(c, cc.Args[0])
			p.write(c, in, d, "copies into")
			p.addCont(d, p.contents(p.pts(c, cc.Args[1])))
		case "delete":
			p.write(c, in, p.pts(c, cc.Args[0]), "deletes from")
		case "clear":
			p.write(c, in, p.pts(c, cc.Args[0]), "clears")
		}
		return
	}
	args := cc.Args
	var targets []*ssa.Function
	var closures []*pobj
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		iface := cc.Value.Type().Underlying().(*types.Interface)
		for _, m := range p.methods[cc.Method.Name()] {
			if types.Implements(m.Signature.Recv().Type(), iface) {
				targets = append(targets, m)
			}
		}
		p.external(c, in, "(iface "+named(cc.Value.Type())+")."+cc.Method.Name(), args, res)
	} else if f := cc.StaticCallee(); f != nil {
		targets = append(targets, f)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for o := range p.pts(c, mc) {
				closures = append(closures, o)
			}
			targets = nil
		}
	} else {
		for o := range p.pts(c, cc.Value) {
			if o.kind == "func" {
				targets = append(targets, o.fn)
			} else if o.kind == "closure" {
				closures = append(closures, o)
			}
		}
		if len(targets)+len(closures) == 0 {
			// A function value the caller supplies: it may write through what it is given.
			for i, a := range args {
				switch a.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map:
					if o := p.pts(c, a); len(o) > 0 {
						p.record(&p.eOrder, p.extArgs, c, in, o, fmt.Sprintf("callback#%d", i))
					}
				}
			}
		}
		sort.Slice(targets, func(i, j int) bool { return fnName(targets[i]) < fnName(targets[j]) })
		sort.Slice(closures, func(i, j int) bool { return closures[i].id < closures[j].id })
	}
	for _, f := range targets {
		p.enter(c, in, f, nil, args, res)
	}
	for _, o := range closures {
		p.enter(c, in, o.fn, o, args, res)
	}
}

func (p *pta) enter(c *pctx, in ssa.CallInstruction, f *ssa.Function, clo *pobj, args []ssa.Value, res func(map[*pobj]bool)) {
	if !load.InRepo(fnPkg(f)) || len(f.Blocks) == 0 {
		if clo != nil && clo.site != nil {
			// A bound method value: the receiver is the bound variable.
			if mc, ok := clo.site.(*ssa.MakeClosure); ok {
				args = append(append([]ssa.Value{}, mc.Bindings...), args...)
			}
		}
		p.external(c, in, funcName(f), args, res)
		return
	}
	k := p.ctx(f, in, c.init)
	for i, prm := range f.Params {
		if i < len(args) {
			p.add(k, prm, p.pts(c, args[i]))
		}
	}
	if clo != nil {
		if mc, ok := clo.site.(*ssa.MakeClosure); ok {
			for i, fv := range f.FreeVars {
				p.add(k, fv, p.pts(clo.ctx, mc.Bindings[i]))
			}
		}
	}
	res(k.ret)
}

// external models a call outside the repository: the result may be new or alias any
// argument, and function arguments may be called.
func (p *pta) external(c *pctx, in ssa.CallInstruction, name string, args []ssa.Value, res func(map[*pobj]bool)) {
	var all []map[*pobj]bool
	for i, a := range args {
		o := p.pts(c, a)
		if len(o) == 0 {
			continue
		}
		if i > 0 || !pureReceivers.MatchString(name) {
			all = append(all, o) // a shared, read-only receiver does not flow into results
		}
		p.record(&p.eOrder, p.extArgs, c, in, o, fmt.Sprintf("%s#%d", name, i))
	}
	reach := union(all...)
	for o := range p.contents(reach) {
		reach[o] = true
	}
	// Function values handed over may be called with anything reachable from the arguments.
	for o := range reach {
		if (o.kind == "func" || o.kind == "closure") && load.InRepo(fnPkg(o.fn)) && len(o.fn.Blocks) > 0 {
			k := p.ctx(o.fn, in, c.init)
			for _, prm := range o.fn.Params {
				p.add(k, prm, reach)
			}
			if o.kind == "closure" {
				mc := o.site.(*ssa.MakeClosure)
				for i, fv := range o.fn.FreeVars {
					p.add(k, fv, p.pts(o.ctx, mc.Bindings[i]))
				}
			}
			for r := range k.ret {
				reach[r] = true
			}
		}
	}
	if copies(name) {
		// The result is a new list holding what the old one held.
		eo := p.siteObj(c, in, "ext")
		p.addCont(map[*pobj]bool{eo: true}, p.contents(union(all...)))
		res(map[*pobj]bool{eo: true})
		return
	}
	eo := p.siteObj(c, in, "ext")
	p.addCont(map[*pobj]bool{eo: true}, reach)
	res(union(map[*pobj]bool{eo: true}, reach))
}

// someElems reports that a variadic argument has at least one element.
func someElems(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	t, ok := deref(a.Type()).Underlying().(*types.Array)
	return ok && t.Len() > 0
}

// clipped reports that a slice value has no spare capacity: appending copies.
func clipped(v ssa.Value) bool { return clippedIn(v, 0) }

func clippedIn(v ssa.Value, d int) bool {
	if d > 20 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		if v.Max == nil {
			return false
		}
		return v.High != nil && v.Max == v.High || sameLen(v.Max, v.High)
	case *ssa.ChangeType:
		return clippedIn(v.X, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, ok := e.(*ssa.Phi); ok || !clippedIn(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && load.InRepo(fnPkg(f)) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			n := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						n++
						if !clippedIn(r.Results[0], d+1) {
							return false
						}
					}
				}
			}
			return n > 0
		}
		if f := v.Call.StaticCallee(); f != nil && funcName(f) == "slices.Clip" {
			return true
		}
	}
	return false
}

// sameLen reports that both values are len of the same slice.
func sameLen(a, b ssa.Value) bool {
	l := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	x, y := l(a), l(b)
	return x != nil && y != nil && (x == y || sameLoad(x, y))
}

// sameLoad reports that two loads of a field see the same value: nothing is stored or called between them.
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Block() != y.Block() || x.Op != y.Op || !sameField(x.X, y.X) {
		return false
	}
	in := false
	for _, i := range x.Block().Instrs {
		if i == ssa.Instruction(x) || i == ssa.Instruction(y) {
			if in {
				return true
			}
			in = true
			continue
		}
		if !in {
			continue
		}
		switch i := i.(type) {
		case *ssa.Store:
			if mayAlias(i.Addr, x.X) {
				return false
			}
		case ssa.CallInstruction:
			if _, ok := i.Common().Value.(*ssa.Builtin); !ok {
				return false
			}
		}
	}
	return false
}

// copies lists external functions whose result is a fresh copy of their argument.
func copies(name string) bool {
	switch name {
	case "slices.Clone", "maps.Clone", "bytes.Clone", "slices.Concat", "slices.Collect", "slices.Sorted":
		return true
	}
	return false
}

// A stored value, in the function called at a site (nil: the function of the load).
type stored struct {
	v    ssa.Value
	site ssa.CallInstruction
}

// lastStores finds the stores that, on every path, were the last to the place a load reads.
func lastStores(load *ssa.UnOp) ([]stored, bool) {
	if !hasPointers(load.Type()) {
		return nil, false
	}
	i := 0
	for i < len(load.Block().Instrs) && load.Block().Instrs[i] != ssa.Instruction(load) {
		i++
	}
	return storesBefore(load.Block(), i-1, load.X, nil)
}

// storesBefore walks back from an instruction to the last stores to a place. Inside a called
// function (site) the place is a field of one of its parameters.
func storesBefore(b *ssa.BasicBlock, i int, place ssa.Value, site ssa.CallInstruction) ([]stored, bool) {
	base, field := ssa.Value(nil), -1
	if f, ok := place.(*ssa.FieldAddr); ok {
		base, field = f.X, f.Field
	}
	if site != nil {
		for n, a := range site.Common().Args {
			if a == base {
				base = site.Common().StaticCallee().Params[n]
			}
		}
	}
	same := func(addr ssa.Value) bool {
		if site == nil {
			return sameField(addr, place)
		}
		f, ok := addr.(*ssa.FieldAddr)
		return ok && f.X == base && f.Field == field
	}
	var out []stored
	seen := map[*ssa.BasicBlock]bool{}
	var local *ssa.Alloc
	if site == nil {
		local = localBase(place)
	}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			switch in := b.Instrs[i].(type) {
			case *ssa.Store:
				if same(in.Addr) {
					out = append(out, stored{in.Val, site})
					return true
				}
				if (local == nil || baseOf(in.Addr) == ssa.Value(local)) && mayAlias(in.Addr, place) {
					return false
				}
			case *ssa.Alloc:
				if in == place || in == local {
					return false
				}
			case ssa.CallInstruction:
				if local != nil {
					break
				}
				if b, ok := in.Common().Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" || b.Name() == "clear" {
						return false
					}
					break
				}
				got, ok := storesIn(in, place, base, site)
				if !ok {
					return false
				}
				out = append(out, got...)
				return true
			}
			if v, ok := b.Instrs[i].(ssa.Value); ok && v == base && local == nil {
				return false // The same address of another round of a loop is another place.
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				if !back(q, len(q.Instrs)-1) {
					return false
				}
			}
		}
		return true
	}
	if !back(b, i) || len(out) == 0 {
		return nil, false
	}
	return out, true
}

// storesIn finds the last stores of a called function to a field of one of its arguments.
func storesIn(in ssa.CallInstruction, place, base ssa.Value, site ssa.CallInstruction) ([]stored, bool) {
	call, ok := in.(*ssa.Call)
	if !ok || site != nil {
		return nil, false
	}
	f := call.Call.StaticCallee()
	if f == nil || !load.InRepo(fnPkg(f)) || len(f.Blocks) == 0 || len(f.FreeVars) > 0 || f.Recover != nil {
		return nil, false
	}
	n := 0
	for _, a := range call.Call.Args {
		if base != nil && a == base {
			n++
		}
	}
	if n != 1 {
		return nil, false
	}
	var out []stored
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		got, ok := storesBefore(b, len(b.Instrs)-2, place, call)
		if !ok {
			return nil, false
		}
		out = append(out, got...)
	}
	return out, len(out) > 0
}

// sameField reports that two addresses are the same field of the same base.
func sameField(a, b ssa.Value) bool {
	if a == b {
		switch a.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.Parameter:
			return true
		}
		return false
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && (x.X == y.X || sameField(x.X, y.X)) && types.Identical(x.X.Type(), y.X.Type())
}

// mayAlias reports that two addresses may be of overlapping memory, as far as their types tell.
func mayAlias(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && types.Identical(x.X.Type(), y.X.Type()) && x.Field != y.Field {
		return false
	}
	s, t := deref(a.Type()), deref(b.Type())
	return memHolds(s, t) || memHolds(t, s)
}

// baseOf is what the fields of an address belong to.
func baseOf(v ssa.Value) ssa.Value {
	for {
		f, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v
		}
		v = f.X
	}
}

// localBase is the variable an address is of, if its address is not used elsewhere.
func localBase(v ssa.Value) *ssa.Alloc {
	a, ok := baseOf(v).(*ssa.Alloc)
	if !ok {
		return nil
	}
	var own func(v ssa.Value) bool
	own = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if !own(r) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !own(a) {
		return nil
	}
	return a
}
