package vn

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PkgOf is the import path of the package a function was written in.
func PkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func namedOf(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// FuncName names a function "pkg.F", "(pkg.T).M" or, for closures, by its position in its parent.
func FuncName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return f.RelString(nil)
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + namedOf(r.Type()) + ")." + f.Name()
	}
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") {
		return f.RelString(nil)
	}
	return PkgOf(f) + "." + f.Name()
}

// callee evaluates the function and the arguments of a call. For interface calls on a
// known dynamic type the method is resolved; otherwise the function term is "method".
func (e *Engine) callee(fr *Frame, st *State, cc *ssa.CallCommon) (*V, []*V) {
	var args []*V
	if cc.IsInvoke() {
		recv := e.Val(fr, st, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.Val(fr, st, a))
		}
		if recv.Op == "iface" {
			if f := e.Prog.LookupMethod(recv.T, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				return e.mk(&V{Op: "func", Fn: f, T: f.Type()}), append([]*V{recv.A[0]}, args...)
			}
		}
		return e.mk(&V{Op: "method", P: "(iface " + namedOf(cc.Value.Type()) + ")." + cc.Method.Name(), A: []*V{recv}, T: cc.Signature()}), append([]*V{recv}, args...)
	}
	for _, a := range cc.Args {
		args = append(args, e.Val(fr, st, a))
	}
	return e.Val(fr, st, cc.Value), args
}

func (e *Engine) onStack(f *ssa.Function) bool {
	for _, g := range e.stack {
		if g == f {
			return true
		}
	}
	return false
}

// call analyses one call; the states it returns have the caller's registers.
func (e *Engine) call(fr *Frame, st *State, in ssa.CallInstruction, fnv *V, args []*V, isDefer bool) []Outcome {
	if fnv.Op == "conv" {
		fnv = fnv.A[0]
	}
	if fnv.Op == "builtin" {
		return e.builtin(fr, st, in, fnv.P, args)
	}
	name := ""
	var fn *ssa.Function
	switch fnv.Op {
	case "func", "closure":
		fn = fnv.Fn
		name = FuncName(fn)
	case "method":
		name = fnv.P
	}
	if e.Hook != nil {
		snap := args
		handled, r := e.Hook(&Call{Fr: fr, In: in, Name: name, Fn: fn, FnV: fnv, Args: snap, St: st, Quiet: e.quiet > 0, Defer: isDefer})
		if handled {
			return []Outcome{{st, e.split(r, in)}}
		}
	}
	if e.Fork != nil {
		if outs, ok := e.Fork(&Call{Fr: fr, In: in, Name: name, Fn: fn, FnV: fnv, Args: args, St: st, Quiet: e.quiet > 0, Defer: isDefer}); ok {
			return outs
		}
	}
	if fn != nil && len(fn.Blocks) > 0 && (e.InRepo(fn) || isWrapper(fn)) && (e.NoInline == nil || !e.NoInline(fn)) &&
		(e.Skip == nil || !e.Skip(&Call{Fr: fr, In: in, Name: name, Fn: fn, FnV: fnv, Args: args, St: st, Quiet: e.quiet > 0, Defer: isDefer})) {
		switch {
		case e.onStack(fn):
			if e.OnOpaque != nil {
				e.OnOpaque(fr, in, fn, "recursive")
			}
		case fr.Depth() >= e.MaxDepth:
			e.fail(fr, "calls nest deeper than %d at %s", e.MaxDepth, name)
			return nil
		default:
			return e.inline(fr, st, in, fnv, args)
		}
	}
	return e.opaque(fr, st, in, fnv, name, fn, args)
}

func isWrapper(f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper")
}

// CallFrom analyses a function value as if called where another call is.
func (e *Engine) CallFrom(k *Call, fnv *V, args []*V, st *State) []Outcome {
	return e.call(k.Fr, st, k.In, fnv, args, false)
}

func (e *Engine) inline(fr *Frame, st *State, in ssa.Instruction, fnv *V, args []*V) []Outcome {
	fn := fnv.Fn
	ch := &Frame{E: e, Fn: fn, Parent: fr, Site: in, bind: fnv.A, info: e.info(fn)}
	ch.Ctx = e.ctx(fr.it, in, fn, 0)
	ch.it = ch.Ctx
	cs := st.clone()
	cs.outer = &outerRegs{st.regs, st.defers, st.outer}
	cs.regs = map[ssa.Value]*V{}
	for i, p := range fn.Params {
		if i < len(args) {
			cs.regs[p] = args[i]
		}
	}
	outs := e.body(ch, cs)
	for i := range outs {
		s := outs[i].St
		s.regs = make(map[ssa.Value]*V, len(st.regs)+1)
		for k, v := range st.regs {
			s.regs[k] = v
		}
		s.defers = st.defers
		s.outer = st.outer
	}
	return outs
}

func (e *Engine) split(r *V, in ssa.CallInstruction) []*V {
	n := in.Common().Signature().Results().Len()
	if n == 0 || r == nil {
		return nil
	}
	if n == 1 {
		return []*V{r}
	}
	var out []*V
	for i := 0; i < n; i++ {
		if r.Op == "tuple" {
			out = append(out, r.A[i])
			continue
		}
		out = append(out, e.mk(&V{Op: "res", A: []*V{r}, P: fmt.Sprint(i), T: in.Common().Signature().Results().At(i).Type()}))
	}
	return out
}

// Tuple makes a multi-result term.
func (e *Engine) Tuple(vs ...*V) *V { return e.mk(&V{Op: "tuple", A: vs}) }

// CallTerm makes the result term of an outside call.
func (e *Engine) CallTerm(name string, args []*V, t types.Type) *V {
	return e.mk(&V{Op: "call", P: name, A: args, T: t})
}

// Mk makes any term.
func (e *Engine) Mk(op, p string, t types.Type, args ...*V) *V {
	return e.mk(&V{Op: op, P: p, A: args, T: t})
}

func (e *Engine) opaque(fr *Frame, st *State, in ssa.CallInstruction, fnv *V, name string, fn *ssa.Function, args []*V) []Outcome {
	res := in.Common().Signature().Results()
	var rt types.Type
	switch res.Len() {
	case 0:
		rt = types.NewTuple()
	case 1:
		rt = res.At(0).Type()
	default:
		rt = res
	}
	pure := Pure[name] || e.PureFn != nil && e.PureFn(name)
	// Callbacks run an unknown number of times on unknown arguments.
	for _, a := range args {
		f := a
		if f.Op == "conv" {
			f = f.A[0]
		}
		if (f.Op == "closure" || f.Op == "func") && len(f.Fn.Blocks) > 0 && (e.InRepo(f.Fn) || isWrapper(f.Fn)) {
			if e.onStack(f.Fn) {
				continue
			}
			e.callback(fr, st, in, f, name, args)
		}
	}
	if pure {
		if len(args) > 0 || res.Len() > 0 {
			if v := e.foldCall(name, args, rt); v != nil {
				return []Outcome{{st, e.split(v, in)}}
			}
		}
		snap := make([]*V, len(args))
		for i, a := range args {
			snap[i] = e.Snapshot(st, a)
		}
		return []Outcome{{st, e.split(e.mk(&V{Op: "call", P: name, A: snap, T: rt}), in)}}
	}
	snap := make([]*V, len(args))
	for i, a := range args {
		snap[i] = e.Snapshot(st, a)
	}
	if name == "" {
		name = "func:" + fnv.String()
	}
	r := e.mk(&V{Op: "call", P: fmt.Sprintf("%s@%d", name, e.here(fr, in)), A: snap, T: rt})
	if ReadOnly[name] {
		return []Outcome{{st, e.split(r, in)}}
	}
	hv := append([]*V{}, args...)
	if fnv.Op == "closure" {
		hv = append(hv, fnv.A...)
	}
	e.havoc(st, hv, fmt.Sprintf("after %s@%d", name, e.here(fr, in)), fn)
	return []Outcome{{st, e.split(r, in)}}
}

// callback analyses a function handed to outside code: any number of runs, on unknown
// arguments.
func (e *Engine) callback(fr *Frame, st *State, in ssa.CallInstruction, f *V, name string, args []*V) {
	here := e.here(fr, in)
	it := e.ctx(here, in, f.Fn, -2)
	var ps []*V
	for i, p := range f.Fn.Params {
		ps = append(ps, e.Unk(fmt.Sprintf("cb:%d:%d:%s", it, f.ID, p.Name()), p.Type()))
		_ = i
	}
	unk := map[string]slot{}
	var order []string
	for round := 0; round < 100 && e.Err == nil; round++ {
		hs := st.clone()
		for _, k := range order {
			s := unk[k]
			e.setSlot(hs, s, e.Unk(fmt.Sprintf("cbmem:%d:%s", it, k), s.typ()))
		}
		if e.CallbackFacts != nil {
			e.CallbackFacts(hs, name, args, f, ps)
		}
		entry := hs.clone()
		run := func(s *State) []Outcome {
			saved := fr.it
			fr.it = it
			outs := e.inline(fr, s, in, f, ps)
			fr.it = saved
			return outs
		}
		e.quiet++
		outs := run(hs.clone())
		e.quiet--
		changed := false
		for _, o := range outs {
			objs := map[*Obj]*V{}
			for x := range o.St.mem {
				objs[x] = nil
			}
			for x := range entry.mem {
				objs[x] = nil
			}
			for _, x := range sortedObjs(objs) {
				if x.Fresh && (st.mem[x] == nil || o.St.mem[x] == nil) {
					continue
				}
				for _, sl := range e.diff(x.T, e.Content(entry, x), e.Content(o.St, x), nil, nil) {
					s := slot{obj: x, sels: sl}
					if _, ok := unk[s.key()]; !ok {
						unk[s.key()] = s
						order = append(order, s.key())
						changed = true
					}
				}
			}
		}
		if !changed {
			if e.quiet == 0 {
				run(entry.clone())
			}
			break
		}
	}
	for _, k := range order {
		s := unk[k]
		e.setSlot(st, s, e.Unk(fmt.Sprintf("cbmem:%d:%s", it, k), s.typ()))
	}
}

func (e *Engine) builtin(fr *Frame, st *State, in ssa.CallInstruction, name string, args []*V) []Outcome {
	it := types.Typ[types.Int]
	one := func(v *V) []Outcome { return []Outcome{{st, []*V{v}}} }
	cc := in.Common()
	switch name {
	case "len":
		return one(e.lenOf(st, args[0], cc.Args[0].Type()))
	case "cap":
		x := args[0]
		if x.Op == "sl" {
			return one(e.Sub(it, x.A[3], x.A[1]))
		}
		if x.Op == "subslice" && len(x.A) > 3 {
			return one(e.Sub(it, x.A[3], x.A[1]))
		}
		return one(e.mk(&V{Op: "cap", A: []*V{x}, T: it}))
	case "append":
		if len(args) == 1 {
			return one(args[0])
		}
		return one(e.Append(st, args[0], args[1], cc.Args[0].Type()))
	case "copy":
		d, s := args[0], args[1]
		if d.Op != "nil" {
			var o *Obj
			var sels []*V
			if d.Op == "sl" {
				o, sels = d.A[0].O, d.A[0].A
			} else {
				base := d
				if d.Op == "subslice" {
					base = d.A[0]
				}
				o = e.elems(base)
			}
			u := e.mk(&V{Op: "copied", A: []*V{e.Snapshot(st, s), d}, P: fmt.Sprint(e.here(fr, in)), T: selType(o.T, sels)})
			if e.OnStore != nil && e.quiet == 0 {
				e.OnStore(fr, in, d, u, st)
			}
			st.mem[o] = e.update(e.Content(st, o), o.T, sels, u)
		}
		return one(e.mk(&V{Op: "copyn", A: []*V{e.Len(d), e.Len(s)}, T: it}))
	case "delete":
		if args[0].Op != "nil" {
			o := e.mapO(args[0])
			st.mem[o] = e.mk(&V{Op: "mapdel", A: []*V{e.Content(st, o), args[1]}, T: cc.Args[0].Type()})
		}
		return []Outcome{{st, nil}}
	case "clear":
		e.havoc(st, args, fmt.Sprintf("clear@%d", e.here(fr, in)), nil)
		return []Outcome{{st, nil}}
	case "min", "max":
		v := args[0]
		for _, w := range args[1:] {
			if a, ok := v.Int64(); ok {
				if b, ok := w.Int64(); ok {
					if (name == "min") == (b < a) {
						v = w
					}
					continue
				}
			}
			v = e.mk(&V{Op: name, A: []*V{v, w}, T: cc.Signature().Results().At(0).Type()})
		}
		return one(v)
	case "real", "imag", "complex":
		return one(e.mk(&V{Op: "call", P: name, A: args, T: cc.Signature().Results().At(0).Type()}))
	case "print", "println", "close":
		return []Outcome{{st, nil}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "recover":
		return one(e.Unk(fmt.Sprintf("recover:%d", e.here(fr, in)), types.NewInterfaceType(nil, nil)))
	}
	e.fail(fr, "unsupported builtin %s", name)
	return nil
}

func (e *Engine) lenOf(st *State, x *V, t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Map:
		c := e.mapContent(st, x)
		if c.Op == "emptymap" {
			return e.Int(0)
		}
		return e.mk(&V{Op: "len", A: []*V{c}, T: types.Typ[types.Int]})
	case *types.Array:
		return e.Int(u.Len())
	case *types.Pointer:
		return e.Int(u.Elem().Underlying().(*types.Array).Len())
	}
	return e.Len(x)
}

// Append is append(x, y...).
func (e *Engine) Append(st *State, x, y *V, t types.Type) *V {
	x, y = e.Snapshot(st, x), e.Snapshot(st, y)
	if isStringT(y.T) {
		y = e.Conv(y, types.NewSlice(types.Typ[types.Uint8]))
	}
	if y.Op == "nil" || y.Op == "list" && len(y.A) == 0 {
		return x
	}
	if x.Op == "nil" || x.Op == "list" && len(x.A) == 0 {
		if y.Op == "list" {
			return e.mk(&V{Op: "list", A: y.A, T: t})
		}
		x = e.mk(&V{Op: "nil", T: t})
	}
	if x.Op == "list" && y.Op == "list" {
		return e.mk(&V{Op: "list", A: append(append([]*V{}, x.A...), y.A...), T: t})
	}
	if x.Op == "append" && x.A[1].Op == "list" && y.Op == "list" {
		return e.mk(&V{Op: "append", A: []*V{x.A[0], e.mk(&V{Op: "list", A: append(append([]*V{}, x.A[1].A...), y.A...), T: x.A[1].T})}, T: t})
	}
	return e.mk(&V{Op: "append", A: []*V{x, y}, T: t})
}

// foldCall evaluates a few pure functions on constants, as a compiler would.
func (e *Engine) foldCall(name string, args []*V, rt types.Type) *V {
	if len(args) == 2 && args[0] == args[1] {
		switch name {
		case "strings.Compare", "bytes.Compare":
			return e.Int(0)
		case "strings.EqualFold", "bytes.Equal", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			return e.Bool(true)
		}
	}
	if len(args) == 2 && args[0].Op == "cat" {
		if t, ok := args[1].StrVal(); ok && (name == "strings.TrimSuffix" || name == "strings.TrimPrefix") {
			at := 0
			if name == "strings.TrimSuffix" {
				at = len(args[0].A) - 1
			}
			if s, ok := Strip(args[0].A[at]).StrVal(); ok && len(s) >= len(t) {
				if name == "strings.TrimSuffix" {
					s = strings.TrimSuffix(s, t)
				} else {
					s = strings.TrimPrefix(s, t)
				}
				parts := append([]*V{}, args[0].A...)
				parts[at] = e.Str(s)
				return e.Cat(rt, parts...)
			}
		}
		// A constant part can decide the question on its own.
		for i, a := range args[0].A {
			s, ok := Strip(a).StrVal()
			if !ok || s == "" {
				continue
			}
			t, isT := args[1].StrVal()
			n, isN := args[1].Int64()
			last := len(args[0].A) - 1
			switch {
			case name == "strings.Contains" && isT && strings.Contains(s, t),
				name == "strings.ContainsAny" && isT && strings.ContainsAny(s, t),
				name == "strings.ContainsRune" && isN && strings.ContainsRune(s, rune(n)):
				return e.Bool(true)
			case name == "strings.HasPrefix" && isT && i == 0 && len(s) >= len(t):
				return e.Bool(strings.HasPrefix(s, t))
			case name == "strings.HasSuffix" && isT && i == last && len(s) >= len(t):
				return e.Bool(strings.HasSuffix(s, t))
			}
		}
	}
	var ss []string
	for _, a := range args {
		s, ok := a.StrVal()
		if !ok {
			return nil
		}
		ss = append(ss, s)
	}
	switch name {
	case "strings.ToLower":
		return e.Str(strings.ToLower(ss[0]))
	case "strings.ToUpper":
		return e.Str(strings.ToUpper(ss[0]))
	case "strings.HasPrefix":
		return e.Bool(strings.HasPrefix(ss[0], ss[1]))
	case "strings.HasSuffix":
		return e.Bool(strings.HasSuffix(ss[0], ss[1]))
	case "strings.Contains":
		return e.Bool(strings.Contains(ss[0], ss[1]))
	case "strings.TrimSpace":
		return e.Str(strings.TrimSpace(ss[0]))
	}
	return nil
}

// Pure lists outside functions whose result depends on their arguments only and that
// modify nothing.
var Pure = map[string]bool{}

// ReadOnly lists outside functions that modify none of their arguments.
var ReadOnly = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`
strings.Clone strings.Compare strings.Contains strings.ContainsAny strings.ContainsRune strings.ContainsFunc strings.Count strings.Cut strings.CutPrefix strings.CutSuffix
strings.EqualFold strings.Fields strings.FieldsFunc strings.HasPrefix strings.HasSuffix strings.Index strings.IndexAny strings.IndexByte strings.IndexFunc strings.IndexRune strings.Join strings.LastIndex strings.LastIndexAny strings.LastIndexByte strings.LastIndexFunc strings.Map strings.Repeat strings.Replace strings.ReplaceAll strings.Split strings.SplitAfter strings.SplitAfterN strings.SplitN strings.Title strings.ToLower strings.ToTitle strings.ToUpper strings.ToValidUTF8 strings.Trim strings.TrimFunc strings.TrimLeft strings.TrimLeftFunc strings.TrimPrefix strings.TrimRight strings.TrimRightFunc strings.TrimSpace strings.TrimSuffix
bytes.Clone bytes.Compare bytes.Contains bytes.Count bytes.Equal bytes.HasPrefix bytes.HasSuffix bytes.Index bytes.IndexByte bytes.Split bytes.TrimSpace bytes.Trim bytes.TrimPrefix bytes.TrimSuffix bytes.TrimRight bytes.ReplaceAll bytes.Join bytes.Repeat bytes.IndexAny
strconv.Atoi strconv.Itoa strconv.ParseInt strconv.ParseUint strconv.ParseBool strconv.ParseFloat strconv.FormatInt strconv.FormatUint strconv.Quote strconv.Unquote strconv.AppendQuote strconv.FormatBool strconv.UnquoteChar strconv.QuoteToASCII strconv.QuoteRune
unicode.IsLetter unicode.IsDigit unicode.IsSpace unicode.IsUpper unicode.IsLower unicode.IsPrint unicode.IsGraphic unicode.IsControl unicode.IsPunct unicode.IsNumber unicode.ToLower unicode.ToUpper unicode.Is unicode.In
unicode/utf8.RuneLen unicode/utf8.ValidString unicode/utf8.Valid unicode/utf8.RuneCountInString unicode/utf8.RuneCount unicode/utf8.DecodeRuneInString unicode/utf8.DecodeRune unicode/utf8.ValidRune unicode/utf8.DecodeLastRuneInString
fmt.Sprintf fmt.Sprint fmt.Sprintln fmt.Errorf errors.New errors.Is errors.Join errors.Unwrap
path/filepath.Join path/filepath.Base path/filepath.Dir path/filepath.Ext path/filepath.Clean path/filepath.IsAbs path/filepath.ToSlash path/filepath.FromSlash path.Join path.Base path.Dir path.Ext path.Clean path/filepath.Match
math.Max math.Min math.Floor math.Ceil math.Abs math.Round math.Trunc math.Sqrt math/bits.Len math/bits.Len32 math/bits.ReverseBytes32 math/bits.OnesCount
slices.Equal slices.Contains slices.Index slices.Clone slices.IndexFunc slices.ContainsFunc slices.EqualFunc slices.Compare slices.Max slices.Min slices.IsSortedFunc cmp.Compare
sort.SearchInts sort.SearchStrings
regexp.MustCompile regexp.Compile regexp.QuoteMeta regexp.MatchString (regexp.Regexp).MatchString (regexp.Regexp).FindStringSubmatch (regexp.Regexp).ReplaceAllString (regexp.Regexp).FindString (regexp.Regexp).FindAllString (regexp.Regexp).Match (regexp.Regexp).String (regexp.Regexp).FindStringIndex (regexp.Regexp).FindAllStringSubmatch (regexp.Regexp).FindStringSubmatchIndex (regexp.Regexp).ReplaceAllStringFunc
strings.NewReader strings.NewReplacer (strings.Replacer).Replace bytes.NewReader bytes.NewBuffer bytes.NewBufferString
(strings.Builder).String (strings.Builder).Len (bytes.Buffer).String (bytes.Buffer).Bytes (bytes.Buffer).Len
reflect.TypeOf reflect.ValueOf reflect.DeepEqual
(go/token.Pos).IsValid go/token.IsKeyword
(iface error).Error (iface fmt.Stringer).String
mime.FormatMediaType mime.ParseMediaType
`) {
		Pure[n] = true
	}
	// These make a new object each time, but nothing compares their addresses; the buffers'
	// state is what must not be shared, so they are not pure after all.
	for _, n := range []string{"strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "(strings.Builder).String", "(strings.Builder).Len", "(bytes.Buffer).String", "(bytes.Buffer).Bytes", "(bytes.Buffer).Len"} {
		delete(Pure, n)
		ReadOnly[n] = true
	}
	for _, n := range strings.Fields(`
os.OpenFile os.Open os.Create os.Stat os.ReadFile os.MkdirAll os.Getwd os.Getenv os.LookupEnv time.Now fmt.Println fmt.Print fmt.Printf
`) {
		ReadOnly[n] = true
	}
}

// RunInits analyses package initialisation and records what globals hold afterwards, for
// globals nothing but initialisation writes.
func (e *Engine) RunInits(pkgs []*ssa.Package) {
	written := map[*ssa.Global]bool{}
	var fns []*ssa.Function
	for _, p := range pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				fns = append(fns, f)
			}
		}
	}
	_ = fns
	var addrOnlyRead func(v ssa.Value) bool
	addrOnlyRead = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				if !addrOnlyRead(r) {
					return false
				}
			case *ssa.IndexAddr:
				if !addrOnlyRead(r) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	for _, f := range e.AllFuncs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		isInit := root.Signature.Recv() == nil && (root.Name() == "init" || strings.HasPrefix(root.Name(), "init#"))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if isInit && x.Addr == g && x.Val != ssa.Value(g) {
							continue
						}
					case *ssa.FieldAddr:
						if isInit || addrOnlyRead(x) {
							continue
						}
					case *ssa.IndexAddr:
						if isInit || addrOnlyRead(x) {
							continue
						}
					}
					written[g] = true
				}
			}
		}
	}
	done := map[*ssa.Package]bool{}
	st := newState()
	byPkg := map[*types.Package]*ssa.Package{}
	for _, p := range pkgs {
		byPkg[p.Pkg] = p
	}
	hook, site, ret, sto := e.Hook, e.Site, e.OnReturn, e.OnStore
	e.Site, e.OnReturn, e.OnStore = nil, nil, nil
	e.Hook = func(c *Call) (bool, *V) {
		if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Signature.Recv() == nil && c.Fn.Parent() == nil {
			return true, nil
		}
		return false, nil
	}
	var run func(p *ssa.Package)
	run = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, imp := range p.Pkg.Imports() {
			if q := byPkg[imp]; q != nil {
				run(q)
			}
		}
		f := p.Func("init")
		if f == nil {
			return
		}
		// The guard is still false.
		if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
			st.mem[e.globalObj(g)] = e.Bool(false)
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				st.mem[e.globalObj(g)] = e.Zero(deref(g.Type()))
			}
		}
		outs := e.Run(f, nil, st)
		if e.Err != nil || len(outs) == 0 {
			return
		}
		if len(outs) > 1 {
			fr := &Frame{E: e, Fn: f, info: e.info(f)}
			var sts []*State
			for _, o := range outs {
				sts = append(sts, o.St)
			}
			st = e.forceJoin(fr, -1, sts)
		} else {
			st = outs[0].St
		}
		st = st.clone()
		st.regs = map[ssa.Value]*V{}
	}
	for _, p := range pkgs {
		run(p)
	}
	e.Hook, e.Site, e.OnReturn, e.OnStore = hook, site, ret, sto
	// Keep what only initialisation writes, and what it reaches.
	keep := map[*Obj]bool{}
	seenV := map[*V]bool{}
	var visit func(v *V)
	visit = func(v *V) {
		if v == nil || seenV[v] {
			return
		}
		seenV[v] = true
		if v.O != nil && !keep[v.O] {
			keep[v.O] = true
			visit(st.mem[v.O])
		}
		for _, a := range v.A {
			visit(a)
		}
	}
	for _, p := range pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || written[g] {
				continue
			}
			o := e.globalObj(g)
			if c := st.mem[o]; c != nil {
				keep[o] = true
				visit(c)
			}
		}
	}
	globObj := map[*Obj]*ssa.Global{}
	for _, p := range pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				globObj[e.globalObj(g)] = g
			}
		}
	}
	for o := range keep {
		if g := globObj[o]; g != nil && written[g] {
			continue
		}
		if c := st.mem[o]; c != nil {
			e.InitMem[o] = c
		}
	}
}

// GlobalVal is what a global holds after initialisation (nil: not known).
func (e *Engine) GlobalVal(g *ssa.Global) *V { return e.InitMem[e.globalObj(g)] }

// GlobalAddr is the address of a global.
func (e *Engine) GlobalAddr(g *ssa.Global) *V { return e.Addr(e.globalObj(g), g.Type()) }

// MapEntries lists the keys and values of map contents built by initialisation.
func MapEntries(c *V) (ks, vs []*V, ok bool) {
	for {
		switch c.Op {
		case "emptymap":
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
				vs[i], vs[j] = vs[j], vs[i]
			}
			return ks, vs, true
		case "mapset":
			ks = append(ks, c.A[1])
			vs = append(vs, c.A[2])
			c = c.A[0]
		default:
			return nil, nil, false
		}
	}
}

var _ = constant.MakeBool
var _ = token.ADD
