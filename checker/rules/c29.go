package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C29", c29) }

// hashStep checks the string hash function f: its loop must add one byte after the other
// with the PJW step and the function must return the sum.
func hashStep(c *core.Ctx, f *ssa.Function) {
	name, pos := fnName(f), c.P.Pos(f.Pos())
	e := newVN(c, load.IsLib)
	e.Linear = true
	e.KeepConds = true
	str := e.Param("text", f.Params[0].Type())
	var sum *vn.V // the loop's unknown running hash
	var idx []*vn.V
	loops := 0
	u32 := types.Typ[types.Uint32]
	bt := types.Typ[types.Bool]
	e.OnLoop = func(fr *vn.Frame, h *ssa.BasicBlock, init, entry *vn.State, back []*vn.State) {
		loops++
		var first [][2]*vn.V
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i, x := init.Reg(phi), entry.Reg(phi)
			if i == nil || x == nil || i == x {
				continue
			}
			if intBits(phi.Type()) == 32 && !isSigned(phi.Type()) && sum == nil {
				sum = x
				if n, ok := i.Int64(); !ok || n != 0 {
					c.Fail("hash-start", name, pos, "the hash of the empty text is not 0")
				}
				for _, b := range back {
					c.Count("hash steps", 1)
					next := b.Reg(phi)
					var bytes []*vn.V
					vn.Walk(next, func(v *vn.V) bool {
						if v.T != nil && intBits(v.T) == 8 && v.Op == "elem" && fromText(v.A[0], str) {
							bytes = append(bytes, v)
							return false
						}
						return true
					})
					if len(bytes) == 0 {
						c.Fail("hash-bytes", name, pos, "the hash is not computed from the bytes of the text one by one: "+next.String())
						continue
					}
					same := true
					for _, y := range bytes {
						same = same && y == bytes[0]
					}
					if !same {
						c.Fail("hash-bytes", name, pos, "one step of the hash uses several bytes")
						continue
					}
					idx = append(idx, bytes[0].A[1])
					sh := e.Add(u32, e.Bin(token.SHL, x, e.Int(4), u32), e.Conv(bytes[0], u32))
					g := e.Bin(token.AND, sh, e.Const(constant.MakeInt64(0xF0000000), u32), u32)
					ref := e.Bin(token.XOR, e.Bin(token.XOR, sh, e.Bin(token.SHR, g, e.Int(24), u32), u32), g, u32)
					zero := zeroBits(b)
					got, want := bitsOf(next), bitsOf(ref)
					ok := len(got) == len(want)
					for k := range want {
						if ok && !got[k].without(zero).eq(want[k].without(zero)) {
							ok = false
						}
					}
					c.Check(ok, "hash-step", name, pos, "a step of the hash is not the PJW step: "+next.String())
				}
				continue
			}
			// The position: from the first byte, one by one.
			if isIntType(phi.Type()) {
				for _, b := range back {
					if b.Reg(phi) != e.Add(phi.Type(), x, e.Const(constant.MakeInt64(1), phi.Type())) {
						c.Fail("hash-order", name, pos, "the hash does not go through the text byte by byte")
					}
				}
				first = append(first, [2]*vn.V{x, i})
			}
		}
		for _, j := range idx {
			for _, f := range first {
				j = e.Subst(j, map[*vn.V]*vn.V{f[0]: f[1]})
			}
			l := linear32(j)
			c.Check(len(l.m) == 0 && l.c == 0, "hash-order", name, pos, "the hash does not start at the first byte")
		}
		for _, b := range back {
			for _, j := range idx {
				t, ok := e.Truth(b, e.Bin(token.LSS, j, e.Len(str), bt))
				c.Check(ok && t, "hash-range", name, pos, "the hash may read past the text")
			}
		}
	}
	outs := e.Run(f, []*vn.V{str}, nil)
	if e.Err != nil || len(outs) == 0 {
		c.Fail("undecided", name, pos, fmt.Sprintf("the hash could not be analysed: %v", e.Err))
		return
	}
	if loops != 1 || sum == nil || len(idx) == 0 {
		c.Fail("hash-bytes", name, pos, fmt.Sprintf("the hash is not one loop over the bytes of the text (%d loops)", loops))
		return
	}
	for _, o := range outs {
		r := vn.Strip(o.Res[0])
		if n, ok := r.Int64(); ok && n == 0 {
			if t, known := e.Truth(o.St, e.Bin(token.EQL, str, e.Str(""), bt)); known && t {
				continue
			}
		}
		same := r == sum
		if !same {
			a, b := bitsOf(r), bitsOf(sum)
			same = len(a) == len(b)
			for k := range a {
				same = same && a[k].eq(b[k])
			}
		}
		c.Check(same, "hash-result", name, pos, "the hash returned is not the running hash: "+r.String())
		if same {
			whole := false
			for _, j := range idx {
				whole = whole || e.ProveGE(o.St, j, e.Len(str), 0)
			}
			c.Check(whole, "hash-range", name, pos, "the hash may end before the end of the text")
		}
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// fromText: the text itself or its bytes.
func fromText(v, str *vn.V) bool {
	for v.Op == "conv" && len(v.A) == 1 {
		v = v.A[0]
	}
	return v == str
}

func c29(c *core.Ctx) {
	c.Rule = "The string hash is interpreted on an unknown text: its loop must visit every byte once, in order, and the step from one running hash to the next must be the PJW step, compared bit by bit in a canonical form (polynomials over GF(2)) under the path's conditions. The MO writer is interpreted on catalogues of unknown texts: the hashed text must be context, EOT, identifier (or the identifier alone without context); a message is stored at hash mod size, or while that is taken at positions increased by 1 + hash mod (size - 2) modulo size, always in a free slot and as its number from 1; every message is stored. For 0 to 47 messages, the table size obtained by constant propagation must be a prime larger than the number of messages."
	c.Assumptions = []string{"Probing with an increment between 1 and size-1 modulo a prime visits every slot; table sizes for more than 47 messages follow the same computation (not analysed).", "Standard library writers as in C19."}
	comp, file, entry := libType(c, "pkg/po/compile.MoCompiler"), libType(c, "pkg/po.File"), libType(c, "pkg/po.Entry")
	buf := c.P.SSA.ImportedPackage("bytes")
	if comp == nil || file == nil || entry == nil || buf == nil {
		c.Fail("undecided", "types", "-", "the compiler's types were not found")
		return
	}
	w := method(c, comp, "ToWriter")
	if w == nil {
		c.Fail("undecided", "ToWriter", "-", "the writing operation was not found")
		return
	}
	bufT := buf.Type("Buffer").Type()
	hashes := stringHashes(c)
	used := map[*ssa.Function]bool{}
	for _, n := range []int{4, 5} {
		c29Insert(c, moScene{n: n, table: true, little: true, comp: comp, file: file, entry: entry, w: w}, bufT, hashes, used)
	}
	for f := range used {
		hashStep(c, f)
	}
	c.Check(len(used) == 1, "hash", fnName(w), c.P.Pos(w.Pos()), fmt.Sprintf("the table is built from %d hash functions", len(used)))
	// Sizes.
	for n := 0; n < 48; n++ {
		e := newVN(c, load.IsLib)
		e.MaxParts = 64
		s := &streams{e: e}
		calls := 0
		e.Hook = func(k *vn.Call) (bool, *vn.V) {
			if k.Fn != nil && hashes[k.Fn] {
				calls++
				return true, e.Const(constant.MakeInt64(int64(calls-1)), k.Fn.Signature.Results().At(0).Type())
			}
			return s.hook(k)
		}
		st := e.NewState()
		recv, out, outA := moScene{n: n, table: true, little: true, comp: comp, file: file, entry: entry, w: w}.build(e, s, st, bufT)
		e.Keep = append(e.Keep, outA)
		outs := e.Run(w, []*vn.V{recv, out}, st)
		name, pos := fnName(w), c.P.Pos(w.Pos())
		if e.Err != nil {
			c.Fail("undecided", name, pos, fmt.Sprintf("%d messages: could not be analysed: %v", n, e.Err))
			return
		}
		seen := false
		for _, o := range outs {
			text := s.content(o.St, outA, bufT)
			if text.Op == "const" {
				continue
			}
			seen = true
			size, ok := headerWord(e, text, 20)
			if !ok {
				c.Fail("undecided", name, pos, fmt.Sprintf("%d messages: the table size is not a known number", n))
				continue
			}
			c.Count("sizes", 1)
			c.Check(size > int64(n), "table-size", name, pos, fmt.Sprintf("the hash table has %d slots for %d messages", size, n))
			c.Check(isPrime(size), "table-prime", name, pos, fmt.Sprintf("the hash table of %d messages has %d slots, which is not a prime: probing need not find a free slot", n, size))
		}
		if !seen {
			c.Fail("undecided", name, pos, fmt.Sprintf("%d messages: no path writes a file", n))
		}
	}
	c.Min("sizes", 48)
	c.Min("hash steps", 1)
	c.Min("insertions", 20)
	c.Min("probes", 2)
}

func isPrime(n int64) bool {
	for i := int64(2); i*i <= n; i++ {
		if n%i == 0 {
			return false
		}
	}
	return n > 1
}

// headerWord is the constant number at an offset of a file.
func headerWord(e *vn.Engine, text *vn.V, off uint32) (int64, bool) {
	for _, p := range moPieces(e, text) {
		if len(p.pos.m) == 0 && p.pos.c == off && p.enc != nil && p.n == 4 {
			l := linear32(p.enc)
			return int64(l.c), len(l.m) == 0
		}
	}
	return 0, false
}

// unconv drops conversions between integer types that hold the value.
func unconv(v *vn.V) *vn.V {
	for v.Op == "conv" && len(v.A) == 1 && v.A[0].T != nil && v.T != nil && intBits(v.A[0].T) >= 32 && intBits(v.T) >= 32 {
		v = v.A[0]
	}
	return v
}

// remOf: v is h mod k for a constant k.
func remOf(v *vn.V) (h *vn.V, k int64, ok bool) {
	v = unconv(v)
	if v.Op != "bin" || v.P != "%" || len(v.A) != 2 {
		return nil, 0, false
	}
	k, ok = unconv(v.A[1]).Int64()
	return unconv(v.A[0]), k, ok
}

func c29Insert(c *core.Ctx, sc moScene, bufT types.Type, hashes, used map[*ssa.Function]bool) {
	w := sc.w
	name, pos := fnName(w), c.P.Pos(w.Pos())
	e := newVN(c, load.IsLib)
	e.MaxParts = 4096
	e.KeepConds = true
	e.KeepCaps = true
	e.Linear = true
	s := &streams{e: e}
	bt := types.Typ[types.Bool]
	num := map[*vn.V]int{} // hash term -> message
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Fn == nil || !hashes[k.Fn] {
			return s.hook(k)
		}
		used[k.Fn] = true
		r := e.CallTerm(k.Name, k.Args, k.Fn.Signature.Results().At(0).Type())
		ps := flatten(e, k.St, k.Args[0])
		ok := false
		for i := 0; i < sc.n; i++ {
			id, ctx := e.Param(fmt.Sprintf("%d.ID", i), strT()), e.Param(fmt.Sprintf("%d.Context", i), strT())
			if len(ps) == 0 || ps[len(ps)-1].v != id {
				continue
			}
			num[r] = i
			empty, known := true, i != 1 && i != 3
			if !known {
				empty, known = e.Truth(k.St, e.Bin(tokenEQL, ctx, e.Str(""), bt))
			}
			switch {
			case !known:
			case empty:
				ok = len(ps) == 1
			default:
				ok = len(ps) == 3 && ps[0].v == ctx && ps[1].v == nil && ps[1].s == "\x04"
			}
		}
		if !k.Quiet {
			c.Check(ok, "hashed-text", name, pos, "the text hashed is not context, EOT and identifier of a message: "+k.Args[0].String())
			c.Count("hashed texts", 1)
		}
		return true, r
	}
	size := int64(0)
	probe := map[*vn.V]*vn.V{} // a loop's unknown position, and the positions after it -> hash
	e.OnLoop = func(fr *vn.Frame, h *ssa.BasicBlock, init, entry *vn.State, back []*vn.State) {
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i, x := init.Reg(phi), entry.Reg(phi)
			if i == nil || x == nil || i == x {
				continue
			}
			hash, k, ok := remOf(i)
			if !ok {
				continue
			}
			if _, isHash := num[hash]; !isHash {
				continue
			}
			size = k
			probe[x] = hash
			for _, b := range back {
				c.Count("probes", 1)
				next := b.Reg(phi)
				probe[next] = hash
				good := false
				step := func(l lin32, wrap bool) bool {
					d := l.add(lin32{c: -linear32(x).c, m: map[*vn.V]uint32{unconv(x): ^uint32(0)}})
					if len(d.m) != 1 {
						return false
					}
					for a, n := range d.m {
						h2, k2, ok := remOf(a)
						if !ok || h2 != hash || k2 != k-2 || n != 1 {
							return false
						}
					}
					return d.c == 1 || wrap && d.c == uint32(1-k)
				}
				if n := unconv(next); n.Op == "bin" && n.P == "%" {
					if m, ok := unconv(n.A[1]).Int64(); ok && m == k {
						good = step(linear32(n.A[0]), false)
					}
				} else {
					// The position before is in the table: the first one is, and each
					// next one is shown to be.
					b := b.Clone()
					e.Assume(b, e.Bin(token.LSS, x, e.Const(constant.MakeInt64(k), x.T), bt), true)
					good = step(linear32(next), true) && e.ProveGE(b, e.Const(constant.MakeInt64(k), next.T), next, 1)
				}
				c.Check(good, "probe", name, pos, fmt.Sprintf("the next position probed is not position + 1 + hash mod %d, modulo %d: %s", k-2, k, next))
			}
		}
	}
	stored := map[int]int{}
	e.OnStore = func(fr *vn.Frame, in ssa.Instruction, addr, val *vn.V, st *vn.State) {
		if addr.Op != "addr" || len(addr.A) != 1 || addr.A[0].Op != "isel" || addr.A[0].T == nil || !isIntType(addr.A[0].T) {
			return
		}
		i := addr.A[0].A[0]
		hash := probe[i]
		if hash == nil {
			hash = probe[unconv(i)]
		}
		if hash == nil {
			h, k, ok := remOf(i)
			if _, isHash := num[h]; !ok || !isHash {
				isPos := false
				vn.Walk(i, func(v *vn.V) bool { _, a := num[v]; isPos = isPos || a || probe[v] != nil; return true })
				c.Check(!isPos, "slot", name, pos, "a message is stored at a position that is not one the lookup visits: "+i.String())
				return
			}
			hash, size = h, k
		}
		c.Count("insertions", 1)
		n, ok := unconv(val).Int64()
		c.Check(ok && n == int64(num[hash]+1), "slot-value", name, pos, fmt.Sprintf("message %d is stored as %s", num[hash]+1, val))
		free, known := e.Truth(st, e.Bin(tokenEQL, e.Load(st, addr, addr.A[0].T), e.Zero(addr.A[0].T), bt))
		c.Check(known && free, "slot-free", name, pos, "a message is stored in a slot not known to be free")
		stored[num[hash]]++
	}
	st := e.NewState()
	recv, out, outA := sc.build(e, s, st, bufT)
	e.Keep = append(e.Keep, outA)
	outs := e.Run(w, []*vn.V{recv, out}, st)
	if e.Err != nil || len(outs) == 0 {
		c.Fail("undecided", name, pos, fmt.Sprintf("could not be analysed: %v", e.Err))
		return
	}
	for _, o := range outs {
		text := s.content(o.St, outA, bufT)
		if text.Op == "const" {
			continue
		}
		sz, _ := headerWord(e, text, 20)
		c.Check(sz == size, "size", name, pos, fmt.Sprintf("messages are stored modulo %d in a table of %d", size, sz))
		// Every message is in the table.
		vals := map[int64]bool{}
		vn.Walk(text, func(v *vn.V) bool {
			if v.Op == "stored" {
				if n, ok := unconv(v.A[2]).Int64(); ok {
					vals[n] = true
				}
			}
			return true
		})
		for i := 1; i <= sc.n; i++ {
			c.Check(vals[int64(i)], "all-stored", name, pos, fmt.Sprintf("message %d is not in the table on some path", i))
		}
	}
}
