package rules

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
)

func init() { register("C06", c06) }

// c06Seeds: the memory a caller hands over, one object per type.
type c06Seeds struct {
	p    *pta
	objs map[string]*pobj
}

func (s *c06Seeds) refs(t types.Type) map[*pobj]bool {
	out := map[*pobj]bool{}
	for _, e := range refTypes(t, nil) {
		if e != nil {
			if o := s.obj(e); o != nil {
				out[o] = true
			}
		}
	}
	return out
}

func (s *c06Seeds) obj(t types.Type) *pobj {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !load.InRepo(n.Obj().Pkg().Path()) {
		return nil // a logger, a file: not catalogue data
	}
	k := types.TypeString(t, nil)
	if o := s.objs[k]; o != nil {
		return o
	}
	o := s.p.newObj("caller")
	o.typ = t
	s.objs[k] = o
	parts := []types.Type{t}
	if m, ok := t.Underlying().(*types.Map); ok {
		parts = []types.Type{m.Key(), m.Elem()}
	}
	for _, t := range parts {
		for x := range s.refs(t) {
			o.cont[x] = true
		}
	}
	return o
}

// Methods that work on their receiver in place.
var inPlace = regexp.MustCompile(`^(Sort|Set|Register|Clean|Cut|Apply|Restore|Load|Prepare)`)

func c06(c *core.Ctx) {
	c.Rule = "A points-to analysis (inclusion-based, object- and call-site-sensitive, objects told apart by the type of their memory, stores flow-insensitive but loads forwarded from the stores that reach them) starts every exported function of the catalogue, " +
		"compiler and parser packages, every method of the compilers and parsers (on what their constructors make) and every method of the catalogue types that is not documented to work in place, with caller-owned objects for all lists, maps and pointers in its arguments. " +
		"No store, map update, copy, delete, append (unless the list has no spare capacity) or outside function that writes its argument may touch a caller-owned object."
	c.Assumptions = []string{
		"callbacks, readers, writers and loggers the caller supplies are not part of the library",
		"memory is not viewed as another type (no unsafe)",
		"generic wrappers the library does not call itself are not followed",
	}
	fns := repoFuncs(c, load.IsLib)
	p := &pta{ctxs: map[pkey]*pctx{}, globs: map[*ssa.Global]*pobj{}, funcs: map[*ssa.Function]*pobj{},
		methods: map[string][]*ssa.Function{}, writes: map[string]*pwrite{}, extArgs: map[string]*pwrite{}, typed: true, fits: map[pfit]bool{}}
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			p.methods[f.Name()] = append(p.methods[f.Name()], f)
		}
	}
	s := &c06Seeds{p: p, objs: map[string]*pobj{}}
	type link struct {
		k    *pctx
		recv *pobj
		t    types.Type
	}
	var links []link
	made := map[string][]*pctx{} // constructors by the type they make
	for _, f := range fns {
		if isInit(f) {
			p.ctx(f, nil, true)
			continue
		}
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		pk := strings.TrimPrefix(fnPkg(f), load.ModPath+"/")
		recv := f.Signature.Recv()
		switch pk {
		case "pkg/po":
			if recv != nil {
				if !inPlace.MatchString(f.Name()) && !strings.HasSuffix(named(deref(recv.Type())), "Config") {
					k := p.ctx(f, nil, false)
					c.Count("operations", 1)
					for _, prm := range f.Params {
						p.add(k, prm, s.refs(prm.Type()))
					}
				}
				continue
			}
		case "pkg/po/compile", "pkg/po/parse", "pkg/go/parse":
			if recv != nil && (strings.HasPrefix(f.Name(), "Set") || strings.HasSuffix(named(deref(recv.Type())), "Config")) {
				continue
			}
		default:
			continue
		}
		k := p.ctx(f, nil, false)
		c.Count("operations", 1)
		for i, prm := range f.Params {
			if i == 0 && recv != nil {
				if _, ok := recv.Type().Underlying().(*types.Pointer); ok {
					o := p.newObj("recv")
					o.typ = deref(recv.Type())
					p.add(k, prm, map[*pobj]bool{o: true})
					links = append(links, link{k, o, o.typ})
				} else {
					links = append(links, link{k, nil, recv.Type()})
				}
				continue
			}
			p.add(k, prm, s.refs(prm.Type()))
		}
		if recv == nil {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				n := types.TypeString(deref(f.Signature.Results().At(i).Type()), nil)
				made[n] = append(made[n], k)
			}
		}
	}
	for round := 0; ; round++ {
		p.changed = false
		for i := 0; i < len(p.order); i++ {
			p.eval(p.order[i])
		}
		for _, l := range links {
			for _, m := range made[types.TypeString(l.t, nil)] {
				for o := range m.ret {
					if o.kind == "caller" || !types.Identical(o.typ0(), l.t) {
						if l.recv == nil {
							p.add(l.k, l.k.fn.Params[0], map[*pobj]bool{o: true})
						}
						continue
					}
					if l.recv != nil {
						p.addCont(map[*pobj]bool{l.recv: true}, o.cont)
					} else {
						p.add(l.k, l.k.fn.Params[0], o.cont)
					}
				}
			}
		}
		// Functions handed out (merge strategies) are called with the caller's data later.
		for _, k := range append([]*pctx{}, p.order...) {
			if k.site != nil || k.init {
				continue
			}
			for o := range k.ret {
				if o.kind != "closure" || !load.InRepo(fnPkg(o.fn)) || inPlace.MatchString(k.fn.Name()) {
					continue
				}
				option := false
				for _, prm := range o.fn.Params {
					_, ptr := prm.Type().Underlying().(*types.Pointer)
					option = option || ptr
				}
				if option {
					continue // sets what it is given
				}
				q := p.ctx(o.fn, nil, false)
				for _, prm := range o.fn.Params {
					p.add(q, prm, s.refs(prm.Type()))
				}
				for i, b := range o.site.(*ssa.MakeClosure).Bindings {
					p.add(q, o.fn.FreeVars[i], p.pts(o.ctx, b))
				}
			}
		}
		if !p.changed {
			break
		}
		if round > 200 {
			panic("points-to analysis did not converge")
		}
	}
	hit := func(objs map[*pobj]bool) types.Type {
		var best types.Type
		for o := range objs {
			if o.kind == "caller" && (best == nil || o.typ.String() < best.String()) {
				best = o.typ
			}
		}
		return best
	}
	for _, k := range p.wOrder {
		w := p.writes[k]
		if w.ctx.init {
			continue
		}
		c.Count("write sites analysed (per calling context)", 1)
		f := w.ctx.fn
		if t := hit(w.objs); t != nil {
			from := ""
			if w.ctx.site != nil {
				from = " (called from " + fnName(w.ctx.site.Parent()) + " " + c.P.Pos(w.ctx.site.Pos()) + ")"
			}
			c.Fail("caller-write", fnName(f)+" "+w.what, c.P.Pos(w.in.Pos()), fmt.Sprintf("%s %s memory (%s) that the caller passed in%s", fnName(f), w.what, t, from))
		} else {
			c.OK("caller-write", fnName(f)+" at "+c.P.Pos(w.in.Pos()))
		}
	}
	for _, k := range p.eOrder {
		w := p.extArgs[k]
		if w.ctx.init {
			continue
		}
		t := hit(w.objs)
		if t == nil {
			continue
		}
		f := w.ctx.fn
		name, idx, _ := strings.Cut(w.what, "#")
		c.Count("caller's memory passed to outside functions", 1)
		if argMutators.MatchString(name) && !readOnlyArg(name, idx) {
			c.Fail("caller-write", fnName(f)+" via "+name, c.P.Pos(w.in.Pos()), fmt.Sprintf("%s passes memory (%s) that the caller passed in to %s, which writes it", fnName(f), t, name))
		} else {
			c.OK("caller-passed", fnName(f)+" to "+name)
		}
	}
	if len(c.Findings()) > 0 {
		return
	}
	c.Min("operations", 200)
	c.Min("write sites analysed (per calling context)", 1000)
}

func (o *pobj) typ0() types.Type {
	if o.typ == nil {
		return types.Typ[types.Invalid]
	}
	return o.typ
}
