package rules

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C20", c20) }

// sorting makes sorting functions of the standard library return their list with the
// facts the given comparison established for every pair, one path for each way the
// comparison can come to that. The order of the elements is kept: the elements are
// unknown, so every other order is the same case with the names exchanged.
func sorting(e *vn.Engine, k *vn.Call) ([]vn.Outcome, bool) {
	if k.Fn == nil {
		return nil, false
	}
	byIndex := false
	switch stdName(k.Fn) {
	case "slices.SortFunc", "slices.SortStableFunc":
	case "sort.Slice", "sort.SliceStable":
		byIndex = true
	default:
		return nil, false
	}
	x := k.Args[0]
	if x.Op == "iface" {
		x = x.A[0]
	}
	l := listOf(e, k.St, x)
	if l == nil {
		return nil, false
	}
	bt := types.Typ[types.Bool]
	sts := []*vn.State{k.St}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			var next []*vn.State
			for _, st := range sts {
				args := []*vn.V{l[i], l[j]}
				if byIndex {
					args = []*vn.V{e.Int(int64(j)), e.Int(int64(i))}
				}
				for _, o := range e.CallFrom(k, k.Args[1], args, st) {
					if len(o.Res) != 1 {
						return nil, false
					}
					r := vn.Strip(o.Res[0])
					ok := false
					if byIndex {
						ok = e.Assume(o.St, r, false)
					} else {
						ok = e.Assume(o.St, e.Bin(token.GTR, r, e.Int(0), bt), false)
						if ok && isCompareCall(r) {
							ok = e.Assume(o.St, e.Bin(token.LSS, r.A[1], r.A[0], bt), false)
						}
					}
					if ok {
						next = append(next, o.St)
					}
				}
			}
			sts = next
		}
	}
	var outs []vn.Outcome
	for _, st := range sts {
		outs = append(outs, vn.Outcome{St: st})
	}
	return outs, true
}

func c20(c *core.Ctx) {
	c.Rule = "The MO writer is interpreted with the configuration its default constructor gives, on a catalogue of three messages with unknown identifiers, contexts, translations, flags and obsolete marks. On every path, whatever is written must come from messages the path knows to be neither obsolete nor flagged fuzzy; for two written messages the path must exclude that identifier and context are both equal, and must know that the identifier (with its context in front) of the later one is not smaller."
	c.Assumptions = []string{"Sorting functions of the standard library permute their list so that the given comparison is not positive for any earlier and later element (comparisons are total preorders: C15).", "Standard library writers as in C19; three messages stand for any number."}
	comp, file, entry := libType(c, "pkg/po/compile.MoCompiler"), libType(c, "pkg/po.File"), libType(c, "pkg/po.Entry")
	buf := c.P.SSA.ImportedPackage("bytes")
	if comp == nil || file == nil || entry == nil || buf == nil {
		c.Fail("undecided", "types", "-", "the compiler's types were not found")
		return
	}
	w := method(c, comp, "ToWriter")
	if w == nil {
		c.Fail("undecided", "ToWriter", "-", "the compiler's writing operation was not found")
		return
	}
	var ctor *ssa.Function
	for _, f := range repoFuncs(c, load.IsLib) {
		if f.Name() == "NewMo" && f.Signature.Recv() == nil && f.Parent() == nil && f.Pkg == w.Pkg {
			ctor = f
		}
	}
	if ctor == nil {
		c.Fail("undecided", "NewMo", "-", "the compiler's constructor was not found")
		return
	}
	bufT := buf.Type("Buffer").Type()
	hashes := stringHashes(c)
	for _, contexts := range []bool{false, true} {
		for _, flags := range []int{1, 2} {
			if contexts && flags == 2 {
				continue
			}
			c20Scene(c, ctor, w, comp, file, entry, bufT, hashes, contexts, flags)
		}
	}
	c.Min("files", 30)
	c.Min("messages written", 30)
	c.Min("pairs", 10)
}

func c20Scene(c *core.Ctx, ctor, w *ssa.Function, comp, file, entry *types.Named, bufT types.Type, hashes map[*ssa.Function]bool, contexts bool, flags int) {
	name, pos := fnName(w), c.P.Pos(w.Pos())
	e := newVN(c, load.IsLib)
	e.MaxParts = 1 << 16
	e.MaxSteps = 40000000
	e.KeepConds = true
	e.KeepCaps = true
	e.SplitMaps = true
	bt := types.Typ[types.Bool]
	s := &streams{e: e}
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Fn != nil && hashes[k.Fn] {
			return true, e.Zero(k.Fn.Signature.Results().At(0).Type())
		}
		return s.hook(k)
	}
	e.Fork = func(k *vn.Call) ([]vn.Outcome, bool) { return sorting(e, k) }
	st := e.NewState()
	est := entry.Underlying().(*types.Struct)
	const n = 3
	field := func(i int, name string) *vn.V {
		return e.Param(fmt.Sprintf("%d.%s", i, name), namedField(entry, name).Type())
	}
	flag := func(i, j int) *vn.V { return e.Param(fmt.Sprintf("%d.flag%d", i, j), strT()) }
	nflags := func(i int) int {
		if flags == 2 && i > 0 {
			return 0
		}
		return flags
	}
	var list []*vn.V
	for i := 0; i < n; i++ {
		var fs []*vn.V
		for j := 0; j < est.NumFields(); j++ {
			f := est.Field(j)
			v := e.Param(fmt.Sprintf("%d.%s", i, f.Name()), f.Type())
			switch f.Name() {
			case "ID", "Str", "Obsolete":
			case "Context":
				switch {
				case !contexts, i == 2:
					v = e.Zero(f.Type())
				}
			case "Flags":
				var fl []*vn.V
				for k := 0; k < nflags(i); k++ {
					fl = append(fl, flag(i, k))
				}
				v = e.MutableSlice(st, fmt.Sprintf("flags%d", i), f.Type(), fl)
			case "Locations":
				// Two of the messages have a place each.
				if i < 2 && !contexts {
					et := f.Type().Underlying().(*types.Slice).Elem()
					v = e.MutableSlice(st, fmt.Sprintf("locs%d", i), f.Type(), []*vn.V{e.Param(fmt.Sprintf("%d.loc", i), et)})
				} else {
					v = e.Zero(f.Type())
				}
			default:
				v = e.Zero(f.Type())
			}
			fs = append(fs, v)
		}
		list = append(list, e.Struct(entry, fs))
	}
	fileP := e.Param("file", types.NewPointer(file))
	fileA := e.Addr(e.Lazy(fileP), fileP.T)
	fst := file.Underlying().(*types.Struct)
	var ff []*vn.V
	for j := 0; j < fst.NumFields(); j++ {
		f := fst.Field(j)
		if f.Name() == "Entries" {
			ff = append(ff, e.MutableSlice(st, "entries", f.Type(), list))
		} else {
			ff = append(ff, e.Param("file."+f.Name(), f.Type()))
		}
	}
	e.Store(st, fileA, e.Struct(file, ff))
	made := e.Run(ctor, []*vn.V{fileA, e.Zero(ctor.Params[1].Type())}, st)
	if e.Err != nil || len(made) != 1 {
		c.Fail("undecided", fnName(ctor), c.P.Pos(ctor.Pos()), fmt.Sprintf("the default compiler could not be determined: %v", e.Err))
		return
	}
	st = made[0].St
	recv := vn.Strip(made[0].Res[0])
	if _, ok := w.Params[0].Type().(*types.Pointer); ok {
		if _, ok := recv.T.Underlying().(*types.Pointer); !ok {
			p := e.Param("compiler", w.Params[0].Type())
			a := e.Addr(e.Lazy(p), p.T)
			e.Store(st, a, recv)
			recv = a
		}
	} else if _, ok := recv.T.Underlying().(*types.Pointer); ok {
		recv = e.Load(st, recv, comp)
	}
	out, outA := s.sink(st, bufT)
	e.Keep = append(e.Keep, outA)
	outs := e.Run(w, []*vn.V{recv, out}, st)
	if e.Err != nil {
		c.Fail("undecided", name, pos, fmt.Sprintf("could not be analysed: %v", e.Err))
		return
	}
	for _, o := range outs {
		if len(o.Res) > 0 && vn.Strip(o.Res[len(o.Res)-1]).Op != "nil" {
			continue
		}
		text := s.content(o.St, outA, bufT)
		if text.Op == "const" {
			continue
		}
		c.Count("files", 1)
		ids, strs, why := moTexts(e, text)
		if why != "" {
			c.Fail("undecided", name, pos, why)
			continue
		}
		var idx []int
		for k := range ids {
			i := ownerOf(ids[k], "ID", n)
			if i < 0 {
				c.Fail("text", name, pos, "the identifier written is not that of a message: "+ids[k].String())
				continue
			}
			idx = append(idx, i)
			c.Count("messages written", 1)
			j := ownerOf(strs[k], "Str", n)
			if j < 0 {
				j = i
			}
			t, known := e.Truth(o.St, field(j, "Obsolete"))
			c.Check(known && !t, "obsolete", name, pos, "a message that may be obsolete is written with the default configuration")
			for k := 0; k < nflags(j); k++ {
				t, known := e.Truth(o.St, e.Bin(tokenEQL, flag(j, k), e.Str("fuzzy"), bt))
				c.Check(known && !t, "fuzzy", name, pos, "a message that may be fuzzy is written with the default configuration")
			}
		}
		ctx := func(i int) *vn.V {
			if !contexts || i == 2 {
				return e.Str("")
			}
			return field(i, "Context")
		}
		for i := 0; i < n; i++ {
			c20Lost(e, c, o.St, i, n, idx, field, ctx, flag, nflags, name, pos)
		}
		for a := range idx {
			for b := a + 1; b < len(idx); b++ {
				i, j := idx[a], idx[b]
				c.Count("pairs", 1)
				c.Check(i != j && excluded(e, o.St, map[*vn.V]*vn.V{field(j, "ID"): field(i, "ID"), ctx(j): ctx(i)}), "duplicate", name, pos, "two messages that may have the same identifier and context are written with the default configuration")
				t, known := e.Truth(o.St, e.Bin(token.LSS, ids[b], ids[a], bt))
				c.Check(known && !t, "order", name, pos, fmt.Sprintf("%s may be written before the smaller %s", ids[a], ids[b]))
			}
		}
	}
}

// c20Lost: a message that is not written must be unfinished, or the same as another.
func c20Lost(e *vn.Engine, c *core.Ctx, st *vn.State, i, n int, idx []int, field func(int, string) *vn.V, ctx func(int) *vn.V, flag func(int, int) *vn.V, nflags func(int) int, name, pos string) {
	for _, x := range idx {
		if x == i {
			return
		}
	}
	bt := types.Typ[types.Bool]
	c.Count("messages left out", 1)
	if t, ok := e.Truth(st, field(i, "Obsolete")); ok && t {
		return
	}
	for k := 0; k < nflags(i); k++ {
		if t, ok := e.Truth(st, e.Bin(tokenEQL, flag(i, k), e.Str("fuzzy"), bt)); ok && t {
			return
		}
	}
	uid := func(j int) *vn.V {
		if t, ok := e.Truth(st, e.Bin(tokenEQL, ctx(j), e.Str(""), bt)); ok && t {
			return field(j, "ID")
		}
		return e.Cat(strT(), ctx(j), e.Str("\x04"), field(j, "ID"))
	}
	eq := func(x, y *vn.V) bool {
		if x == y {
			return true
		}
		t, ok := e.Truth(st, e.Bin(tokenEQL, x, y, bt))
		return ok && t
	}
	for j := 0; j < n; j++ {
		if j != i && (eq(field(i, "ID"), field(j, "ID")) && eq(ctx(i), ctx(j)) || eq(uid(i), uid(j))) {
			return
		}
	}
	c.Fail("lost", name, pos, "a message that may be finished and unlike all others is not written with the default configuration")
}

// excluded: what is known of a state is contradictory when terms are the same as others.
func excluded(e *vn.Engine, st *vn.State, same map[*vn.V]*vn.V) bool {
	bt := types.Typ[types.Bool]
	for x, y := range same {
		if x == y || x.Op == "const" {
			delete(same, x)
			if x != y {
				same[y] = x
			}
		}
	}
	for x, y := range same {
		if x.Op == "const" {
			return true // two different constants
		}
		if t, ok := e.Truth(st, e.Bin(tokenEQL, x, y, bt)); ok && !t {
			return true
		}
	}
	// Equal terms replace each other until nothing changes.
	facts := map[*vn.V]bool{}
	for k, v := range st.Cond() {
		facts[k] = v
	}
	for round := 0; round < 5; round++ {
		next := map[*vn.V]bool{}
		for k, v := range facts {
			w := e.Subst(k, same)
			if b, ok := w.BoolVal(); ok {
				if b != v {
					return true
				}
				continue
			}
			if w.Op == "eq" && w.A[0] == w.A[1] {
				if !v {
					return true
				}
				continue
			}
			if o, ok := next[w]; ok && o != v {
				return true
			}
			next[w] = v
			if t, ok := e.Truth(st, w); ok && t != v {
				return true
			}
		}
		facts = next
		same = map[*vn.V]*vn.V{}
		for k, v := range facts {
			if v && k.Op == "eq" && !k.A[0].IsConst() && same[k.A[1]] == nil {
				same[k.A[0]] = k.A[1]
			}
		}
		// No cycles: a replacement is not itself replaced in the same round.
		for _, y := range same {
			delete(same, y)
		}
		if len(same) == 0 {
			break
		}
	}
	return false
}

// ownerOf tells whose field a text is made of.
func ownerOf(v *vn.V, field string, n int) int {
	own := map[string]bool{}
	params(v, own)
	r := -1
	for i := 0; i < n; i++ {
		if own[fmt.Sprintf("%d.%s", i, field)] {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// moTexts reads the originals and translations off a file, as its tables name them.
func moTexts(e *vn.Engine, text *vn.V) (ids, strs []*vn.V, why string) {
	ps := moPieces(e, text)
	at := func(l lin32) int {
		for i, p := range ps {
			if p.pos.eq(l) {
				return i
			}
		}
		return -1
	}
	num := func(off uint32) (lin32, bool) {
		if i := at(lin32{c: off}); i >= 0 && ps[i].enc != nil && ps[i].n == 4 {
			return linear32(ps[i].enc), true
		}
		return lin32{}, false
	}
	cnt, ok := num(8)
	if !ok || len(cnt.m) > 0 {
		return nil, nil, "the string count is not a known number"
	}
	for t := 0; t < 2; t++ {
		tab, ok := num(uint32(12 + 4*t))
		if !ok || len(tab.m) > 0 {
			return nil, nil, "the offset of a table is not a known number"
		}
		for k := uint32(0); k < cnt.c; k++ {
			ln, ok1 := num(tab.c + 8*k)
			off, ok2 := num(tab.c + 8*k + 4)
			if !ok1 || !ok2 {
				return nil, nil, "a table has fewer entries than messages"
			}
			a, z := at(off), at(off.add(ln))
			if a < 0 || z < a {
				return nil, nil, "a table entry does not name a text"
			}
			v := e.Str("")
			for _, p := range ps[a:z] {
				switch {
				case p.text != nil:
					v = e.Cat(strT(), v, p.text)
				case p.b >= 0:
					v = e.Cat(strT(), v, e.Str(string([]byte{byte(p.b)})))
				}
			}
			if t == 0 {
				ids = append(ids, v)
			} else {
				strs = append(strs, v)
			}
		}
	}
	return ids, strs, ""
}
