package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C19", c19) }

// lin32 is an integer term as constant + sum of multiples of atoms, modulo 2^32.
type lin32 struct {
	c uint32
	m map[*vn.V]uint32
}

func (a lin32) add(b lin32) lin32 {
	r := lin32{a.c + b.c, map[*vn.V]uint32{}}
	for k, v := range a.m {
		r.m[k] += v
	}
	for k, v := range b.m {
		r.m[k] += v
		if r.m[k] == 0 {
			delete(r.m, k)
		}
	}
	return r
}

func (a lin32) eq(b lin32) bool {
	if a.c != b.c || len(a.m) != len(b.m) {
		return false
	}
	for k, v := range a.m {
		if b.m[k] != v {
			return false
		}
	}
	return true
}

// wide: conversions between these types keep the low 32 bits.
func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Uint, types.Int32, types.Uint32, types.Int64, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

func linear32(v *vn.V) lin32 {
	switch v.Op {
	case "const":
		if v.C.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v.C); ok {
				return lin32{c: uint32(n)}
			}
			if n, ok := constant.Uint64Val(v.C); ok {
				return lin32{c: uint32(n)}
			}
		}
	case "add":
		r := lin32{}
		for _, a := range v.A {
			r = r.add(linear32(a))
		}
		return r
	case "mul":
		if len(v.A) == 2 && v.A[0].Op == "const" {
			k := linear32(v.A[0]).c
			x := linear32(v.A[1])
			r := lin32{c: x.c * k, m: map[*vn.V]uint32{}}
			for a, n := range x.m {
				if n*k != 0 {
					r.m[a] = n * k
				}
			}
			return r
		}
	case "conv":
		if len(v.A) == 1 && v.A[0].T != nil && v.T != nil && wide(v.T) && wide(v.A[0].T) {
			return linear32(v.A[0])
		}
	}
	return lin32{m: map[*vn.V]uint32{v: 1}}
}

// moPiece is one piece of the file: a number, a constant byte, or a text.
type moPiece struct {
	pos  lin32
	size lin32
	enc  *vn.V // number
	ord  string
	n    int
	b    int   // constant byte, or -1
	text *vn.V // anything else
}

func moPieces(e *vn.Engine, v *vn.V) []moPiece {
	var out []moPiece
	pos := lin32{}
	add := func(p moPiece) {
		p.pos = pos
		pos = pos.add(p.size)
		out = append(out, p)
	}
	var walk func(v *vn.V)
	walk = func(v *vn.V) {
		if s, ok := v.StrVal(); ok {
			for i := 0; i < len(s); i++ {
				add(moPiece{size: lin32{c: 1}, b: int(s[i])})
			}
			return
		}
		switch v.Op {
		case "cat":
			for _, a := range v.A {
				walk(a)
			}
		case "enc":
			f := strings.SplitN(v.P, " ", 2)
			n := int(f[0][0] - '0')
			add(moPiece{size: lin32{c: uint32(n)}, enc: v.A[0], ord: f[1], n: n, b: -1})
		default:
			add(moPiece{size: linear32(e.Len(v)), text: v, b: -1})
		}
	}
	walk(v)
	add(moPiece{b: -1}) // end
	return out
}

func c19(c *core.Ctx) {
	c.Rule = "The MO writer is interpreted on value numbers for catalogues of 0 to 4 and of 20 entries with unknown texts, every byte order, with and without hash table and with entries the cleaning removes. What it writes is a sequence of numbers and texts whose positions are linear terms over the texts' lengths. The header fields, read off that sequence, must name the positions and sizes of the tables, and every table pair the position and length of a text followed by a NUL, one pair per message; all numbers must use one byte order and the magic number is 0x950412de in it."
	c.Assumptions = []string{"encoding/binary, bytes.Buffer, strings.Builder and bufio.Writer do what their documentation says (writes modelled as appending text); files stay below 4 GB (positions are compared modulo 2^32); other counts of entries behave like the counts analysed."}
	comp, file, entry := libType(c, "pkg/po/compile.MoCompiler"), libType(c, "pkg/po.File"), libType(c, "pkg/po.Entry")
	if comp == nil || file == nil || entry == nil {
		c.Fail("undecided", "types", "-", "the compiler's types were not found")
		return
	}
	buf := c.P.SSA.ImportedPackage("bytes")
	w := method(c, comp, "ToWriter")
	if w == nil || buf == nil {
		c.Fail("undecided", "ToWriter", "-", "the writing operation was not found")
		return
	}
	bufT := buf.Type("Buffer").Type()
	hashes := stringHashes(c)
	name, pos := fnName(w), c.P.Pos(w.Pos())
	for _, n := range []int{0, 1, 2, 3, 4, 20} {
		for _, table := range []bool{false, true} {
			for _, drop := range []bool{false, true} {
				e := newVN(c, load.IsLib)
				e.MaxParts = 1024
				e.MaxSteps = 4000000
				// Larger catalogues: one byte order, so that paths need not be told apart.
				e.KeepConds = n <= 4
				e.KeepCaps = true
				s := &streams{e: e}
				e.Hook = func(k *vn.Call) (bool, *vn.V) {
					if k.Fn != nil && hashes[k.Fn] {
						// The layout does not depend on where in the table a message goes.
						return true, e.Zero(k.Fn.Signature.Results().At(0).Type())
					}
					return s.hook(k)
				}
				st := e.NewState()
				recv, out, outA := moScene{n: n, table: table, drop: drop, comp: comp, file: file, entry: entry, w: w}.build(e, s, st, bufT)
				e.Keep = append(e.Keep, outA)
				outs := e.Run(w, []*vn.V{recv, out}, st)
				what := fmt.Sprintf("%s, %d entries, table %v, dropping %v", name, n, table, drop)
				if e.Err != nil {
					c.Fail("undecided", name, pos, fmt.Sprintf("%s: could not be analysed: %v", what, e.Err))
					continue
				}
				done := 0
				for _, o := range outs {
					if len(o.Res) > 0 && vn.Strip(o.Res[len(o.Res)-1]).Op != "nil" {
						continue
					}
					text := s.content(o.St, outA, bufT)
					if text.Op == "const" {
						continue // nothing written: a failure that is ignored
					}
					done++
					c.Count("files", 1)
					bad := moLayout(e, text, n, table)
					for _, m := range bad {
						c.Fail(m[0], name, pos, what+": "+m[1])
					}
					if len(bad) == 0 {
						c.OK(name, what)
					}
				}
				c.Count("catalogues", 1)
				if done == 0 {
					c.Fail("undecided", name, pos, what+": no path writes a file")
				}
			}
		}
	}
	c.Min("files", 100)
}

func namedField(n *types.Named, name string) *types.Var {
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// stringHashes are the library's functions of one string that give an integer and loop.
func stringHashes(c *core.Ctx) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range repoFuncs(c, load.IsLib) {
		sig := f.Signature
		if sig.Recv() != nil || f.Parent() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Params().At(0).Type().Underlying(), strT()) {
			continue
		}
		b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Uint32 {
			continue
		}
		out[f] = true
	}
	return out
}

// moLayout checks the pieces of a file against its header and tells what is wrong.
func moLayout(e *vn.Engine, text *vn.V, n int, table bool) (bad [][2]string) {
	fail := func(rule, f string, a ...any) { bad = append(bad, [2]string{rule, fmt.Sprintf(f, a...)}) }
	ps := moPieces(e, text)
	at := func(l lin32) int {
		for i, p := range ps {
			if p.pos.eq(l) {
				return i
			}
		}
		return -1
	}
	// One byte order.
	ord := ""
	for _, p := range ps {
		if p.enc == nil || p.n == 1 {
			continue
		}
		if ord == "" {
			ord = p.ord
		}
		if p.ord != ord {
			fail("byte-order", "numbers are written in different byte orders (%s, %s)", ord, p.ord)
			break
		}
	}
	// Header.
	var h []lin32
	i := 0
	for ; i < len(ps) && len(h) < 7; i++ {
		p := ps[i]
		switch {
		case p.enc != nil && p.n == 4:
			h = append(h, linear32(p.enc))
		case p.enc != nil && p.n == 2 && i+1 < len(ps) && ps[i+1].enc != nil && ps[i+1].n == 2:
			a, b := linear32(p.enc), linear32(ps[i+1].enc)
			if len(a.m)+len(b.m) > 0 || a.c != 0 || b.c > 1 {
				fail("revision", "the revision is not 0.0 or 0.1")
			}
			h = append(h, lin32{})
			i++
		default:
			fail("header", "the header does not consist of seven numbers of four bytes")
			return
		}
	}
	if len(h) < 7 {
		fail("header", "the header has fewer than seven numbers")
		return
	}
	konst := func(l lin32, what string) uint32 {
		if len(l.m) > 0 {
			fail("header", "the %s in the header is not a known number", what)
		}
		return l.c
	}
	if m := konst(h[0], "magic number"); m != 0x950412de {
		fail("magic", "the magic number %#x does not identify the byte order it is written in", m)
	}
	if k := konst(h[2], "string count"); k != uint32(n) {
		fail("count", "the string count is %d for %d messages", k, n)
	}
	size := konst(h[5], "hash table size")
	if table != (size > 0) {
		fail("hash-size", "the hash table size is %d", size)
	}
	used := map[int]string{}
	use := func(i, k int, what string) {
		for j := i; j < i+k; j++ {
			if o, ok := used[j]; ok && o != what {
				fail("overlap", "the %s overlaps the %s", what, o)
				return
			}
			used[j] = what
		}
	}
	use(0, i, "header")
	if size > 0 {
		j := at(h[6])
		if j < 0 {
			fail("hash-offset", "the hash table offset is not the position of anything written")
		} else {
			k := 0
			for j+k < len(ps) && ps[j+k].enc != nil && ps[j+k].n == 4 {
				k++
			}
			if k < int(size) {
				fail("hash-table", "the header announces a hash table of %d words, %d are written", size, k)
			} else {
				use(j, int(size), "hash table")
			}
		}
	}
	for t, what := range []string{"original", "translation"} {
		j := at(h[3+t])
		if n == 0 {
			continue
		}
		if j < 0 {
			fail("table-offset", "the offset of the %s table is not the position of anything written", what)
			continue
		}
		use(j, 2*n, what+" table")
		for k := 0; k < n; k++ {
			if j+2*k+1 >= len(ps) || ps[j+2*k].enc == nil || ps[j+2*k].n != 4 || ps[j+2*k+1].enc == nil || ps[j+2*k+1].n != 4 {
				fail("table", "the %s table has fewer than %d entries", what, n)
				break
			}
			ln, off := linear32(ps[j+2*k].enc), linear32(ps[j+2*k+1].enc)
			a := at(off)
			if a < 0 {
				fail("string-offset", "the offset of %s %d is not the position of a text", what, k)
				continue
			}
			end := at(off.add(ln))
			// A text of length 0 and its NUL share a position: the last piece there counts.
			if end < a {
				fail("string-length", "the length of %s %d does not end at the end of a text", what, k)
				continue
			}
			for end+1 < len(ps) && ps[end].b != 0 && ps[end+1].pos.eq(ps[end].pos) {
				end++
			}
			if ps[end].b != 0 {
				fail("terminator", "%s %d is not followed by a NUL where its length says it ends", what, k)
				continue
			}
			use(a, end-a+1, fmt.Sprintf("%s %d", what, k))
			own := map[string]bool{}
			str := ""
			for _, p := range ps[a:end] {
				if p.enc != nil {
					fail("string", "%s %d covers numbers", what, k)
					break
				}
				if p.b >= 0 {
					str += string(rune(p.b))
				}
				if p.text != nil {
					params(p.text, own)
				}
			}
			want := fmt.Sprintf("%d.ID", k)
			if t == 1 {
				want = fmt.Sprintf("%d.Str", k)
			}
			if !own[want] && !(t == 0 && strings.Contains(str, fmt.Sprintf("id%d", k))) {
				fail("string", "%s %d is not the text of message %d", what, k, k)
			}
			for p := range own {
				if !strings.HasPrefix(p, fmt.Sprintf("%d.", k)) {
					fail("string", "%s %d contains text of another message", what, k)
					break
				}
			}
		}
	}
	return
}

func params(v *vn.V, out map[string]bool) {
	vn.Walk(v, func(x *vn.V) bool {
		if x.Op == "param" {
			out[x.P] = true
		}
		return true
	})
}

// moScene is a catalogue and a compiler to interpret the MO writer on.
type moScene struct {
	n                 int
	table, drop       bool
	little            bool // one byte order only
	comp, file, entry *types.Named
	w                 *ssa.Function
}

func (x moScene) build(e *vn.Engine, s *streams, st *vn.State, bufT types.Type) (recv, out, outA *vn.V) {
	est := x.entry.Underlying().(*types.Struct)
	entries := namedField(x.file, "Entries")
	var list []*vn.V
	mk := func(i int, gone bool) *vn.V {
		var fs []*vn.V
		for j := 0; j < est.NumFields(); j++ {
			f := est.Field(j)
			v := e.Param(fmt.Sprintf("%d.%s", i, f.Name()), f.Type())
			switch {
			case f.Name() == "Obsolete":
				v = e.Bool(gone)
			case f.Name() == "ID" && x.drop:
				// Distinct known identifiers, so that no entry counts as a duplicate.
				v = e.Str(fmt.Sprintf("id%d", i))
			case f.Name() == "Context" && x.drop, f.Name() == "Flags" && x.drop:
				v = e.Zero(f.Type())
			case f.Name() == "Context" && i != 3, f.Name() == "Plural" && i != 3:
				// The first has neither, the second a context, the third a plural.
				if (f.Name() != "Context" || i != 1) && (f.Name() != "Plural" || i != 2) {
					v = e.Zero(f.Type())
					break
				}
				e.Assume(st, e.Bin(tokenEQL, v, e.Zero(f.Type()), types.Typ[types.Bool]), false)
			case f.Name() == "Plurals" && i != 2:
				v = e.Zero(f.Type())
			case f.Name() == "Plurals" && i == 2:
				et := f.Type().Underlying().(*types.Slice).Elem()
				v = e.Mk("list", "", f.Type(), e.Param("2.form0", et), e.Param("2.form1", et))
			}
			fs = append(fs, v)
		}
		return e.Struct(x.entry, fs)
	}
	for i := 0; i < x.n; i++ {
		if x.drop && i == 1 {
			list = append(list, mk(99, true))
		}
		list = append(list, mk(i, false))
	}
	if x.drop && x.n < 2 {
		list = append(list, mk(99, true))
	}
	fileP := e.Param("file", types.NewPointer(x.file))
	fileA := e.Addr(e.Lazy(fileP), fileP.T)
	fst := x.file.Underlying().(*types.Struct)
	var ff []*vn.V
	for j := 0; j < fst.NumFields(); j++ {
		f := fst.Field(j)
		if f == entries {
			ff = append(ff, e.MutableSlice(st, "entries", f.Type(), list))
		} else {
			ff = append(ff, e.Param("file."+f.Name(), f.Type()))
		}
	}
	e.Store(st, fileA, e.Struct(x.file, ff))
	cfg := namedField(x.comp, "Config")
	cst := cfg.Type().Underlying().(*types.Struct)
	var cf []*vn.V
	for j := 0; j < cst.NumFields(); j++ {
		f := cst.Field(j)
		v := e.Param("cfg."+f.Name(), f.Type())
		switch f.Name() {
		case "HashTable":
			v = e.Bool(x.table)
		case "DepureEntries":
			v = e.Bool(x.drop)
		case "SortEntries":
			v = e.Bool(false)
		case "Logger":
			v = e.Zero(f.Type())
		case "Endianness":
			if x.n > 4 || x.little {
				v = e.Const(constant.MakeInt64(2), f.Type())
			}
		}
		cf = append(cf, v)
	}
	mst := x.comp.Underlying().(*types.Struct)
	var mf []*vn.V
	for j := 0; j < mst.NumFields(); j++ {
		switch f := mst.Field(j); f.Name() {
		case "Config":
			mf = append(mf, e.Struct(cfg.Type(), cf))
		case "File":
			mf = append(mf, fileA)
		default:
			mf = append(mf, e.Param(f.Name(), f.Type()))
		}
	}
	out, outA = s.sink(st, bufT)
	recv = e.Struct(x.comp, mf)
	if _, ok := x.w.Params[0].Type().(*types.Pointer); ok {
		p := e.Param("compiler", x.w.Params[0].Type())
		a := e.Addr(e.Lazy(p), p.T)
		e.Store(st, a, recv)
		recv = a
	}
	return recv, out, outA
}
