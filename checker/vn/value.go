// Package vn is an abstract interpreter over go/ssa whose domain is value
// numbering: every register and memory cell holds a hash-consed term built from
// constants, inputs and the results of outside calls.  Calls into the repository
// are analysed in their calling context; loops are brought to a fixpoint by
// replacing what they change with unknowns; states that agree on what is live are
// joined.  Nothing of the analysed program is executed.
package vn

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a hash-consed term.
type V struct {
	Op string
	A  []*V
	C  constant.Value
	T  types.Type
	Fn *ssa.Function
	O  *Obj
	P  string
	ID int

	objs     []*Obj // objects the term mentions
	objsDone bool
}

// objects lists the objects a term mentions.
func (v *V) objects() []*Obj {
	if v.objsDone {
		return v.objs
	}
	var out []*Obj
	if v.O != nil {
		out = append(out, v.O)
	}
	for _, a := range v.A {
		as := a.objects()
		if len(out) == 0 {
			out = as
			continue
		}
	next:
		for _, o := range as {
			for _, x := range out {
				if x == o {
					continue next
				}
			}
			out = append(out[:len(out):len(out)], o)
		}
	}
	v.objs, v.objsDone = out, true
	return out
}

// Obj is an abstract memory object.
type Obj struct {
	ID    int
	Name  string
	Kind  string // alloc, lazy, global, map, array
	T     types.Type
	Ptr   *V // the pointer a lazy object is reached through
	Len   *V // of array objects made by make
	Fresh bool
	Pos   token.Pos
	// Loop: created inside a loop (by a site that can run several times).
	Many bool
}

func (e *Engine) mk(v *V) *V {
	b := append(e.keyBuf[:0], v.Op...)
	for _, a := range v.A {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.ID), 36)
	}
	if v.C != nil {
		b = append(b, '|', 'c')
		b = append(b, v.C.ExactString()...)
		b = append(b, byte('0'+int(v.C.Kind())))
	}
	if v.T != nil {
		b = append(b, '|', 't')
		b = strconv.AppendInt(b, int64(e.typeNum(v.T)), 36)
	}
	if v.Fn != nil {
		n, ok := e.fnNums[v.Fn]
		if !ok {
			n = len(e.fnNums) + 1
			e.fnNums[v.Fn] = n
		}
		b = append(b, '|', 'f')
		b = strconv.AppendInt(b, int64(n), 36)
	}
	if v.O != nil {
		b = append(b, '|', 'o')
		b = strconv.AppendInt(b, int64(v.O.ID), 36)
	}
	b = append(b, '|', 'p')
	b = append(b, v.P...)
	e.keyBuf = b
	if o := e.terms[string(b)]; o != nil {
		return o
	}
	v.ID = len(e.terms) + 1
	e.terms[string(b)] = v
	return v
}

// typeNum numbers types by what they say.
func (e *Engine) typeNum(t types.Type) int {
	if n, ok := e.typeNums[t]; ok {
		return n
	}
	k := e.typeKey(t)
	n, ok := e.typeKeyNums[k]
	if !ok {
		n = len(e.typeKeyNums) + 1
		e.typeKeyNums[k] = n
	}
	e.typeNums[t] = n
	return n
}

func (e *Engine) typeKey(t types.Type) string {
	if s, ok := e.tkeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	e.tkeys[t] = s
	return s
}

// Const makes a constant.
func (e *Engine) Const(c constant.Value, t types.Type) *V {
	if b, ok := t.Underlying().(*types.Basic); ok && int(b.Kind()) < len(types.Typ) {
		t = types.Typ[b.Kind()]
	}
	return e.mk(&V{Op: "const", C: c, T: t})
}
func (e *Engine) Int(n int64) *V { return e.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (e *Engine) Bool(b bool) *V {
	return e.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (e *Engine) Str(s string) *V { return e.Const(constant.MakeString(s), types.Typ[types.String]) }

// Zero is the zero value of a type.
func (e *Engine) Zero(t types.Type) *V {
	if v := e.zeros[t]; v != nil {
		return v
	}
	v := e.zero(t)
	e.zeros[t] = v
	return v
}

func (e *Engine) zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Const(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return e.Const(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return e.Const(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return e.Const(constant.MakeFloat64(0), t)
		}
		return e.mk(&V{Op: "nil", T: t})
	case *types.Struct, *types.Array:
		return e.mk(&V{Op: "zero", T: t})
	}
	return e.mk(&V{Op: "nil", T: t})
}

// Unk is a named unknown.
func (e *Engine) Unk(name string, t types.Type) *V { return e.mk(&V{Op: "unk", P: name, T: t}) }

// Param is a named input.
func (e *Engine) Param(name string, t types.Type) *V { return e.mk(&V{Op: "param", P: name, T: t}) }

func (v *V) IsConst() bool { return v.Op == "const" }

func (v *V) Int64() (int64, bool) {
	if v.Op != "const" || v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}

func (v *V) StrVal() (string, bool) {
	if v.Op != "const" || v.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v.C), true
}

func (v *V) BoolVal() (bool, bool) {
	if v.Op != "const" || v.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.C), true
}

// String renders a term for messages.
func (v *V) String() string { return v.str(0) }

func (v *V) str(d int) string {
	if v == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range v.A {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch v.Op {
	case "const":
		return v.C.String()
	case "nil":
		return "nil"
	case "param":
		return v.P
	case "unk":
		return "?" + v.P
	case "field":
		return v.A[0].str(d+1) + "." + v.P
	case "elem":
		return v.A[0].str(d+1) + "[" + v.A[1].str(d+1) + "]"
	case "addr":
		return "&" + v.O.Name + v.P
	case "func", "closure":
		return v.Fn.Name()
	case "call":
		return v.P + "(" + args() + ")"
	case "res":
		return v.A[0].str(d+1) + "#" + v.P
	case "add":
		var s []string
		for _, a := range v.A {
			s = append(s, a.str(d+1))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "deref":
		return "*" + v.A[0].str(d+1)
	case "iface":
		return v.A[0].str(d + 1)
	}
	p := v.P
	if p != "" {
		p = ":" + p
	}
	return v.Op + p + "(" + args() + ")"
}

// Field selects a struct field.
func (e *Engine) Field(v *V, name string, t types.Type) *V {
	switch v.Op {
	case "zero":
		return e.Zero(t)
	case "struct":
		st := v.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return v.A[i]
			}
		}
	case "conv":
		if _, ok := v.T.Underlying().(*types.Struct); ok {
			return e.Field(v.A[0], name, t)
		}
	}
	return e.mk(&V{Op: "field", A: []*V{v}, P: name, T: t})
}

// Struct builds a struct value; a value whose every field is read from the same
// struct is that struct.
func (e *Engine) Struct(t types.Type, fs []*V) *V {
	st := t.Underlying().(*types.Struct)
	if len(fs) > 0 {
		var from *V
		same := true
		allZero := true
		for i, f := range fs {
			if f != e.Zero(st.Field(i).Type()) {
				allZero = false
			}
			if f.Op != "field" || f.P != st.Field(i).Name() || (from != nil && f.A[0] != from) {
				same = false
				continue
			}
			from = f.A[0]
		}
		if same && from != nil && from.T != nil && types.Identical(from.T, t) {
			return from
		}
		if allZero {
			return e.Zero(t)
		}
	}
	return e.mk(&V{Op: "struct", A: fs, T: t})
}

func (e *Engine) Elem(v, i *V, t types.Type) *V {
	if n, ok := i.Int64(); ok {
		if w := e.knownElem(v, n); w != nil {
			return w
		}
	}
	return e.mk(&V{Op: "elem", A: []*V{v, i}, T: t})
}

// knownElem finds a constant-index element of a list built from listed elements.
func (e *Engine) knownElem(v *V, n int64) *V {
	switch v.Op {
	case "list":
		if n >= 0 && n < int64(len(v.A)) {
			return v.A[n]
		}
	}
	return nil
}

// Not negates a boolean term.
func (e *Engine) Not(v *V) *V {
	if b, ok := v.BoolVal(); ok {
		return e.Bool(!b)
	}
	if v.Op == "not" {
		return v.A[0]
	}
	return e.mk(&V{Op: "not", A: []*V{v}, T: types.Typ[types.Bool]})
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func intBits(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func wrap(c constant.Value, t types.Type) constant.Value {
	if c.Kind() != constant.Int {
		return c
	}
	n := intBits(t)
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(n))
	// c mod 2^n
	q := constant.BinaryOp(c, token.QUO_ASSIGN, mod)
	r := constant.BinaryOp(c, token.SUB, constant.BinaryOp(q, token.MUL, mod))
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if !isUnsigned(t) {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(n-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

// Len is the length of a string, slice, map or array.
func (e *Engine) Len(v *V) *V {
	it := types.Typ[types.Int]
	switch v.Op {
	case "const":
		if s, ok := v.StrVal(); ok {
			return e.Int(int64(len(s)))
		}
	case "nil":
		return e.Int(0)
	case "list":
		return e.Int(int64(len(v.A)))
	case "append":
		return e.Add(it, e.Len(v.A[0]), e.Len(v.A[1]))
	case "cat":
		n := e.Int(0)
		for _, a := range v.A {
			n = e.Add(it, n, e.Len(a))
		}
		return n
	case "substr", "subslice", "part":
		return e.Sub(it, v.A[2], v.A[1])
	case "ver":
		return e.Len(v.A[0])
	case "sl": // slice of an array object: base, lo, hi, max
		return e.Sub(it, v.A[2], v.A[1])
	case "mkslice":
		return v.A[0]
	case "byte":
		return e.Int(1)
	case "enc":
		return e.Int(int64(v.P[0] - '0'))
	case "conv":
		if v.T != nil && len(v.A) == 1 {
			from := v.A[0].T
			if from != nil {
				if (isString(v.T) && isByteSlice(from)) || (isByteSlice(v.T) && isString(from)) {
					return e.Len(v.A[0])
				}
			}
		}
	}
	return e.mk(&V{Op: "len", A: []*V{v}, T: it})
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// linear view of an integer term of type t: constant + sum coef*atom, modulo 2^bits.
type linTerm struct {
	coef constant.Value
	atom *V
}

func (e *Engine) linOf(v *V) (constant.Value, map[*V]constant.Value) {
	m := map[*V]constant.Value{}
	c := constant.MakeInt64(0)
	var walk func(v *V, k constant.Value)
	walk = func(v *V, k constant.Value) {
		switch v.Op {
		case "const":
			c = constant.BinaryOp(c, token.ADD, constant.BinaryOp(k, token.MUL, v.C))
			return
		case "add":
			for _, a := range v.A {
				walk(a, k)
			}
			return
		case "mul":
			if v.A[0].Op == "const" {
				walk(v.A[1], constant.BinaryOp(k, token.MUL, v.A[0].C))
				return
			}
		}
		if o, ok := m[v]; ok {
			k = constant.BinaryOp(o, token.ADD, k)
		}
		m[v] = k
	}
	walk(v, constant.MakeInt64(1))
	return c, m
}

func (e *Engine) fromLin(t types.Type, c constant.Value, m map[*V]constant.Value) *V {
	c = wrap(c, t)
	var atoms []*V
	for a, k := range m {
		if constant.Sign(wrap(k, t)) != 0 {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	var args []*V
	if constant.Sign(c) != 0 || len(atoms) == 0 {
		args = append(args, e.Const(c, t))
	}
	for _, a := range atoms {
		k := wrap(m[a], t)
		if i, ok := constant.Int64Val(k); ok && i == 1 {
			args = append(args, a)
		} else {
			args = append(args, e.mk(&V{Op: "mul", A: []*V{e.Const(k, t), a}, T: t}))
		}
	}
	if len(args) == 1 {
		return args[0]
	}
	return e.mk(&V{Op: "add", A: args, T: t})
}

// Add is modular addition in the type's ring.
func (e *Engine) Add(t types.Type, a, b *V) *V { return e.comb(t, a, b, 1) }
func (e *Engine) Sub(t types.Type, a, b *V) *V { return e.comb(t, a, b, -1) }

func (e *Engine) comb(t types.Type, a, b *V, s int64) *V {
	c1, m1 := e.linOf(a)
	c2, m2 := e.linOf(b)
	k := constant.MakeInt64(s)
	c := constant.BinaryOp(c1, token.ADD, constant.BinaryOp(k, token.MUL, c2))
	for x, y := range m2 {
		y = constant.BinaryOp(k, token.MUL, y)
		if o, ok := m1[x]; ok {
			y = constant.BinaryOp(o, token.ADD, y)
		}
		m1[x] = y
	}
	return e.fromLin(t, c, m1)
}

// Bin is a binary operation on terms.
func (e *Engine) Bin(op token.Token, x, y *V, t types.Type) *V {
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		r := e.eq(x, y)
		if op == token.NEQ {
			r = e.Not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.IsConst() && y.IsConst() {
			return e.Bool(constant.Compare(x.C, op, y.C))
		}
		if x == y {
			return e.Bool(op == token.LEQ || op == token.GEQ)
		}
		isFloat := false
		if x.T != nil {
			if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				isFloat = true
			}
		}
		lt := func(a, b *V) *V { return e.mk(&V{Op: "lt", A: []*V{a, b}, T: bt}) }
		switch op {
		case token.LSS:
			return lt(x, y)
		case token.GTR:
			return lt(y, x)
		case token.LEQ:
			if isFloat {
				return e.mk(&V{Op: "le", A: []*V{x, y}, T: bt})
			}
			return e.Not(lt(y, x))
		default:
			if isFloat {
				return e.mk(&V{Op: "le", A: []*V{y, x}, T: bt})
			}
			return e.Not(lt(x, y))
		}
	}
	if x.IsConst() && y.IsConst() && x.C.Kind() == y.C.Kind() {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			c := constant.BinaryOp(x.C, op, y.C)
			if isInt(t) {
				c = wrap(c, t)
			}
			return e.Const(c, t)
		case token.QUO, token.REM:
			if x.C.Kind() == constant.Int && constant.Sign(y.C) != 0 {
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return e.Const(wrap(constant.BinaryOp(x.C, op, y.C), t), t)
			}
		}
	}
	if (op == token.SHL || op == token.SHR) && x.IsConst() && y.IsConst() && x.C.Kind() == constant.Int {
		if n, ok := constant.Uint64Val(y.C); ok && n < 128 {
			return e.Const(wrap(constant.Shift(x.C, op, uint(n)), t), t)
		}
	}
	if isString(t) && op == token.ADD {
		return e.Cat(t, x, y)
	}
	if isInt(t) {
		switch op {
		case token.ADD:
			return e.Add(t, x, y)
		case token.SUB:
			return e.Sub(t, x, y)
		case token.MUL:
			k, v := x, y
			if v.IsConst() {
				k, v = v, k
			}
			if k.IsConst() {
				c, m := e.linOf(v)
				for a := range m {
					m[a] = constant.BinaryOp(m[a], token.MUL, k.C)
				}
				return e.fromLin(t, constant.BinaryOp(c, token.MUL, k.C), m)
			}
			if k.ID > v.ID {
				k, v = v, k
			}
			return e.mk(&V{Op: "mul", A: []*V{k, v}, T: t})
		case token.SHL:
			if y.IsConst() {
				if n, ok := constant.Uint64Val(y.C); ok && n < 64 {
					return e.Bin(token.MUL, e.Const(constant.Shift(constant.MakeInt64(1), token.SHL, uint(n)), t), x, t)
				}
			}
		case token.AND, token.OR, token.XOR:
			if x == y {
				if op == token.XOR {
					return e.Zero(t)
				}
				return x
			}
			if y.ID < x.ID {
				x, y = y, x
			}
		}
	}
	return e.mk(&V{Op: "bin", P: op.String(), A: []*V{x, y}, T: t})
}

// Cat is string concatenation.
func (e *Engine) Cat(t types.Type, xs ...*V) *V {
	var out []*V
	for _, x := range xs {
		parts := []*V{x}
		if x.Op == "cat" {
			parts = x.A
		}
		for _, p := range parts {
			if s, ok := p.StrVal(); ok {
				if s == "" {
					continue
				}
				if n := len(out); n > 0 {
					if l, ok := out[n-1].StrVal(); ok {
						out[n-1] = e.Str(l + s)
						continue
					}
				}
				p = e.Str(s)
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return e.Str("")
	case 1:
		return out[0]
	}
	return e.mk(&V{Op: "cat", A: out, T: types.Typ[types.String]})
}

func nonNil(v *V) bool {
	switch v.Op {
	case "addr", "closure", "func", "iface", "mkslice", "mkmap", "list":
		return v.Op != "list" || len(v.A) > 0
	case "append":
		return len(v.A) == 2 && v.A[1].Op == "list" && len(v.A[1].A) > 0
	case "nonnil":
		return true
	case "subslice":
		return nonNil(v.A[0])
	case "sl":
		// Backed by an array of this path, which is never nil.
		return true
	case "conv":
		return len(v.A) == 1 && nonNil(v.A[0])
	}
	return false
}

func (e *Engine) eq(x, y *V) *V {
	bt := types.Typ[types.Bool]
	if x == y {
		return e.Bool(true)
	}
	if x.IsConst() && y.IsConst() && x.C.Kind() == y.C.Kind() {
		return e.Bool(constant.Compare(x.C, token.EQL, y.C))
	}
	if x.Op == "nil" {
		x, y = y, x
	}
	if y.Op == "nil" {
		if x.Op == "nil" {
			return e.Bool(true)
		}
		if nonNil(x) || e.KnownNonNil != nil && e.KnownNonNil(x) {
			return e.Bool(false)
		}
		return e.mk(&V{Op: "isnil", A: []*V{x}, T: bt})
	}
	if x.Op == "iface" && y.Op == "iface" && !types.Identical(x.T, y.T) {
		return e.Bool(false)
	}
	if (x.Op == "iface") != (y.Op == "iface") {
		if y.ID < x.ID {
			x, y = y, x
		}
		return e.mk(&V{Op: "eq", A: []*V{x, y}, T: bt})
	}
	if x.Op == "iface" && y.Op == "iface" && types.Identical(x.T, y.T) && x.A[0].T != nil && y.A[0].T != nil && types.Identical(x.A[0].T, y.A[0].T) {
		return e.eq(x.A[0], y.A[0])
	}
	if isIntT(x.T) {
		// Compare linear forms: x - y == 0.
		d := e.Sub(x.T, x, y)
		if d.IsConst() {
			return e.Bool(constant.Sign(d.C) == 0)
		}
	}
	if isStringT(x.T) {
		// s == "" is len(s) == 0.
		if s, ok := y.StrVal(); ok && s == "" {
			return e.mk(&V{Op: "empty", A: []*V{x}, T: bt})
		}
		if s, ok := x.StrVal(); ok && s == "" {
			return e.mk(&V{Op: "empty", A: []*V{y}, T: bt})
		}
	}
	if z, ok := y.Int64(); ok && z == 0 && x.Op == "len" && isStringT(x.A[0].T) {
		return e.mk(&V{Op: "empty", A: x.A, T: bt})
	}
	if isBoolT(x.T) {
		if b, ok := y.BoolVal(); ok {
			if b {
				return x
			}
			return e.Not(x)
		}
		if b, ok := x.BoolVal(); ok {
			if b {
				return y
			}
			return e.Not(y)
		}
	}
	if x.IsConst() || (!y.IsConst() && y.ID < x.ID) {
		x, y = y, x
	}
	return e.mk(&V{Op: "eq", A: []*V{x, y}, T: bt})
}

func isIntT(t types.Type) bool    { return t != nil && isInt(t) }
func isStringT(t types.Type) bool { return t != nil && isString(t) }
func isBoolT(t types.Type) bool   { return t != nil && isBool(t) }

// Conv is a conversion.
func (e *Engine) Conv(x *V, t types.Type) *V {
	if x.T != nil && !x.IsConst() && types.Identical(x.T.Underlying(), t.Underlying()) {
		return x
	}
	if x.IsConst() {
		switch {
		case isInt(t) && x.C.Kind() == constant.Int:
			return e.Const(wrap(x.C, t), t)
		case isString(t) && x.C.Kind() == constant.String:
			return e.Const(x.C, t)
		case isString(t) && x.C.Kind() == constant.Int:
			if n, ok := constant.Int64Val(x.C); ok {
				return e.Const(constant.MakeString(string(rune(n))), t)
			}
		case isBool(t):
			return e.Const(x.C, t)
		}
	}
	if x.Op == "nil" {
		return e.Zero(t)
	}
	if x.T != nil && isInt(x.T) && isInt(t) {
		// A conversion to a ring of no more bits is a homomorphism.
		if intBits(t) <= intBits(x.T) && (x.Op == "add" || x.Op == "mul" && x.A[0].IsConst()) {
			c, m := e.linOf(x)
			n := map[*V]constant.Value{}
			for a, k := range m {
				ca := e.Conv(a, t)
				c2, m2 := e.linOf(ca)
				c = constant.BinaryOp(c, token.ADD, constant.BinaryOp(k, token.MUL, c2))
				for b, k2 := range m2 {
					k2 = constant.BinaryOp(k, token.MUL, k2)
					if o, ok := n[b]; ok {
						k2 = constant.BinaryOp(o, token.ADD, k2)
					}
					n[b] = k2
				}
			}
			return e.fromLin(t, c, n)
		}
		if intBits(t) == intBits(x.T) && isUnsigned(t) == isUnsigned(x.T) {
			return e.mk(&V{Op: "conv", A: []*V{x}, T: t})
		}
		if x.Op == "conv" && isIntT(x.A[0].T) && intBits(t) <= intBits(x.T) && (intBits(x.T) > intBits(x.A[0].T) || intBits(t) <= intBits(x.A[0].T)) {
			return e.Conv(x.A[0], t)
		}
	}
	if x.Op == "conv" && x.A[0].T != nil && types.Identical(x.A[0].T.Underlying(), t.Underlying()) && types.Identical(x.T.Underlying(), t.Underlying()) {
		return e.Conv(x.A[0], t)
	}
	return e.mk(&V{Op: "conv", A: []*V{x}, T: t})
}

// Strip removes conversions that do not change the value.
func Strip(v *V) *V {
	for {
		switch {
		case v.Op == "conv" && v.T != nil && v.A[0].T != nil && types.Identical(v.T.Underlying(), v.A[0].T.Underlying()):
			v = v.A[0]
		case v.Op == "iface":
			v = v.A[0]
		default:
			return v
		}
	}
}

// Walk visits a term and its parts once each.
func Walk(v *V, f func(*V) bool) {
	seen := map[*V]bool{}
	var w func(v *V)
	w = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if !f(v) {
			return
		}
		for _, a := range v.A {
			w(a)
		}
		if v.O != nil && v.O.Ptr != nil {
			w(v.O.Ptr)
		}
	}
	w(v)
}
