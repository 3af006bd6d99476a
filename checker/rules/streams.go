package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"verif/checker/vn"
)

// streams models the byte buffers and writers of the standard library as texts: what was
// written to a bytes.Buffer, strings.Builder or bufio.Writer is a term made of the pieces
// written, so that layouts can be read off it. Writes to such a stream succeed.
type streams struct {
	e *vn.Engine
	// lost tells that something was written that the model cannot follow.
	lost []string
	// dests are the destinations buffered writers were made for.
	dests map[*vn.V]*vn.V
}

var streamTypes = map[string]bool{"bytes.Buffer": true, "strings.Builder": true, "bufio.Writer": true, "os.File": true}

func strT() types.Type   { return types.Typ[types.String] }
func bytesT() types.Type { return types.NewSlice(types.Typ[types.Uint8]) }

// target is the address of the stream a writer value stands for and its type.
func (s *streams) target(v *vn.V) (*vn.V, types.Type) {
	for v.Op == "iface" || v.Op == "conv" && len(v.A) == 1 {
		v = v.A[0]
	}
	if v.T == nil {
		return nil, nil
	}
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok || !streamTypes[types.TypeString(types.Unalias(p.Elem()), nil)] {
		return nil, nil
	}
	return v, p.Elem()
}

// content is the text a stream holds.
func (s *streams) content(st *vn.State, addr *vn.V, t types.Type) *vn.V {
	c := vn.Strip(s.e.Load(st, addr, t))
	switch {
	case c == s.e.Zero(t):
		return s.e.Str("")
	case c.Op == "stream":
		return c.A[0]
	}
	return s.e.Mk("textof", "", strT(), c)
}

func (s *streams) dest(st *vn.State, addr *vn.V, t types.Type) *vn.V {
	c := vn.Strip(s.e.Load(st, addr, t))
	if c.Op == "stream" && len(c.A) == 2 {
		return c.A[1]
	}
	if c.Op != "stream" {
		return s.dests[addr]
	}
	return nil
}

func (s *streams) put(st *vn.State, addr *vn.V, t types.Type, text *vn.V) {
	a := []*vn.V{text}
	if d := s.dest(st, addr, t); d != nil {
		a = append(a, d)
	}
	s.e.Store(st, addr, s.e.Mk("stream", "", t, a...))
}

// append writes a text to a writer and tells whether it could be followed.
func (s *streams) append(st *vn.State, w, text *vn.V) bool {
	a, t := s.target(w)
	if a == nil {
		return false
	}
	s.put(st, a, t, s.e.Cat(strT(), s.content(st, a, t), text))
	return true
}

// text is a byte slice or string as a text.
func (s *streams) text(st *vn.State, v *vn.V) *vn.V {
	v = vn.Strip(v)
	if v.T != nil && isStr(v) {
		var out []*vn.V
		for _, p := range flatten(s.e, st, v) {
			switch {
			case p.v == nil:
				out = append(out, s.e.Str(p.s))
			case isStr(p.v):
				out = append(out, p.v)
			default:
				out = append(out, s.e.Mk("fmt", p.verb, strT(), p.v))
			}
		}
		return s.e.Cat(strT(), out...)
	}
	v = s.e.Snapshot(st, v)
	switch v.Op {
	case "nil":
		return s.e.Str("")
	case "conv":
		if len(v.A) == 1 && isStr(v.A[0]) {
			return s.text(st, v.A[0])
		}
	case "append":
		return s.e.Cat(strT(), s.text(st, v.A[0]), s.text(st, v.A[1]))
	case "list":
		var out []*vn.V
		for _, b := range v.A {
			if n, ok := b.Int64(); ok {
				out = append(out, s.e.Const(constant.MakeString(string([]byte{byte(n)})), strT()))
			} else {
				out = append(out, s.e.Mk("byte", "", strT(), b))
			}
		}
		return s.e.Cat(strT(), out...)
	}
	return s.e.Conv(v, strT())
}

// encode is the text of a value written with a byte order: one "enc" piece per number.
func (s *streams) encode(st *vn.State, order, v *vn.V) *vn.V {
	e := s.e
	v = vn.Strip(v)
	if v.Op == "iface" {
		v = v.A[0]
	}
	order = vn.Strip(order)
	ord := order.String()
	if order.Op == "iface" && order.T != nil {
		ord = order.T.String()
	}
	var rec func(v *vn.V, t types.Type) *vn.V
	rec = func(v *vn.V, t types.Type) *vn.V {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rec(e.Load(st, v, u.Elem()), u.Elem())
		case *types.Struct:
			var out []*vn.V
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				out = append(out, rec(e.Field(v, f.Name(), f.Type()), f.Type()))
			}
			return e.Cat(strT(), out...)
		case *types.Basic:
			n := map[types.BasicKind]int{types.Uint8: 1, types.Int8: 1, types.Bool: 1, types.Uint16: 2, types.Int16: 2, types.Uint32: 4, types.Int32: 4, types.Uint64: 8, types.Int64: 8}[u.Kind()]
			if n > 0 {
				return e.Mk("enc", fmt.Sprintf("%d %s", n, ord), strT(), v)
			}
		case *types.Array:
			var out []*vn.V
			for i := int64(0); i < u.Len() && i < 256; i++ {
				out = append(out, rec(e.Elem(v, e.Int(i), u.Elem()), u.Elem()))
			}
			return e.Cat(strT(), out...)
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return s.text(st, v)
			}
			v = vn.Strip(e.Snapshot(st, v))
			switch v.Op {
			case "nil":
				return e.Str("")
			case "list":
				var out []*vn.V
				for _, x := range v.A {
					out = append(out, rec(x, u.Elem()))
				}
				return e.Cat(strT(), out...)
			case "append":
				return e.Cat(strT(), rec(v.A[0], t), rec(v.A[1], t))
			}
		}
		s.lost = append(s.lost, "encoded value "+v.String())
		return e.Mk("enc?", ord, strT(), v)
	}
	if v.T == nil {
		s.lost = append(s.lost, "encoded value "+v.String())
		return e.Mk("enc?", ord, strT(), v)
	}
	return rec(v, v.T)
}

// hook models the stream operations.
func (s *streams) hook(k *vn.Call) (bool, *vn.V) {
	e := s.e
	name := k.Name
	res := func(n *vn.V) (bool, *vn.V) {
		sig := k.In.Common().Signature()
		switch sig.Results().Len() {
		case 0:
			return true, nil
		case 1:
			if types.TypeString(sig.Results().At(0).Type(), nil) == "error" {
				return true, e.Zero(sig.Results().At(0).Type())
			}
			return true, n
		}
		return true, e.Tuple(n, e.Zero(sig.Results().At(1).Type()))
	}
	write := func(w, text *vn.V) (bool, *vn.V) {
		if !s.append(k.St, w, text) {
			return false, nil
		}
		return res(e.Len(text))
	}
	if i := strings.LastIndex(name, ")."); i > 0 && strings.HasPrefix(name, "(") && streamTypes[name[1:i]] {
		a, t := s.target(k.Args[0])
		if a == nil {
			return false, nil
		}
		m := name[i+2:]
		switch m {
		case "WriteString", "Write":
			return write(k.Args[0], s.text(k.St, k.Args[1]))
		case "WriteByte":
			text := e.Mk("byte", "", strT(), k.Args[1])
			if n, ok := k.Args[1].Int64(); ok {
				text = e.Const(constant.MakeString(string([]byte{byte(n)})), strT())
			}
			return write(k.Args[0], text)
		case "WriteRune":
			text := e.Conv(k.Args[1], strT())
			if n, ok := k.Args[1].Int64(); ok {
				text = e.Str(string(rune(n)))
			}
			return write(k.Args[0], text)
		case "String":
			return true, s.content(k.St, a, t)
		case "Bytes":
			return true, e.Conv(s.content(k.St, a, t), bytesT())
		case "Len":
			return true, e.Len(s.content(k.St, a, t))
		case "Grow":
			return true, nil
		case "Reset":
			if len(k.Args) == 1 {
				s.put(k.St, a, t, e.Str(""))
				return true, nil
			}
		case "Flush":
			d := s.dest(k.St, a, t)
			if d != nil && s.append(k.St, d, s.content(k.St, a, t)) {
				s.put(k.St, a, t, e.Str(""))
				return res(nil)
			}
		case "WriteTo":
			if text := s.content(k.St, a, t); s.append(k.St, k.Args[1], text) {
				s.put(k.St, a, t, e.Str(""))
				return res(e.Conv(e.Len(text), types.Typ[types.Int64]))
			}
		}
		return false, nil
	}
	switch name {
	case "bufio.NewWriter", "bufio.NewWriterSize", "bytes.NewBuffer", "bytes.NewBufferString":
		if name[:5] == "bufio" {
			if a, _ := s.target(k.Args[0]); a == nil {
				return false, nil
			}
		}
		pt := k.In.Common().Signature().Results().At(0).Type()
		t := pt.(*types.Pointer).Elem()
		addr := e.NewObject(k.Fr, k.In, t)
		if name[:5] == "bufio" {
			e.Store(k.St, addr, e.Mk("stream", "", t, e.Str(""), k.Args[0]))
			if s.dests == nil {
				s.dests = map[*vn.V]*vn.V{}
			}
			s.dests[addr] = k.Args[0]
		} else {
			e.Store(k.St, addr, e.Mk("stream", "", t, s.text(k.St, k.Args[0])))
		}
		return true, addr
	case "io.WriteString":
		return write(k.Args[0], s.text(k.St, k.Args[1]))
	case "fmt.Fprintf":
		f, ok := k.Args[1].StrVal()
		l := listOf(e, k.St, k.Args[2])
		if ok && l != nil {
			return write(k.Args[0], s.parts(joinParts(formatParts(e, k.St, f, l))))
		}
	case "fmt.Fprint", "fmt.Fprintln":
		// Spaces between operands: always for Fprintln, between non-strings for Fprint.
		l := listOf(e, k.St, k.Args[1])
		if l == nil {
			break
		}
		var ps []part
		for i, a := range l {
			if name == "fmt.Fprintln" && i > 0 {
				ps = append(ps, part{s: " "})
			}
			if name == "fmt.Fprint" && i > 0 && !isStr(dynValue(a)) && !isStr(dynValue(l[i-1])) {
				ps = append(ps, part{s: " "})
			}
			ps = append(ps, partOf(e, k.St, a, "v")...)
		}
		if name == "fmt.Fprintln" {
			ps = append(ps, part{s: "\n"})
		}
		return write(k.Args[0], s.parts(joinParts(ps)))
	case "encoding/binary.Write":
		return write(k.Args[0], s.encode(k.St, k.Args[1], k.Args[2]))
	case "encoding/binary.Append":
		return true, e.Tuple(e.Append(k.St, k.Args[0], e.Conv(s.encode(k.St, k.Args[1], k.Args[2]), bytesT()), bytesT()), e.Zero(k.In.Common().Signature().Results().At(1).Type()))
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		i := strings.LastIndex(name, ").AppendUint")
		if i > 0 && len(k.Args) == 3 {
			n := map[string]string{"16": "2", "32": "4", "64": "8"}[name[i+len(").AppendUint"):]]
			return true, e.Append(k.St, k.Args[1], e.Conv(e.Mk("enc", n+" "+name[1:i], strT(), k.Args[2]), bytesT()), bytesT())
		}
	}
	return false, nil
}

func dynValue(v *vn.V) *vn.V {
	if v.Op == "iface" {
		return v.A[0]
	}
	return v
}

func (s *streams) parts(ps []part) *vn.V {
	var out []*vn.V
	for _, p := range ps {
		switch {
		case p.v == nil:
			out = append(out, s.e.Str(p.s))
		case isStr(p.v) && (p.verb == "s" || p.verb == "v"):
			out = append(out, p.v)
		default:
			out = append(out, s.e.Mk("fmt", p.verb, strT(), p.v))
		}
	}
	return s.e.Cat(strT(), out...)
}

// sink makes an output stream and the io.Writer value that stands for it.
func (s *streams) sink(st *vn.State, t types.Type) (w, addr *vn.V) {
	p := s.e.Param("output", types.NewPointer(t))
	addr = s.e.Addr(s.e.Lazy(p), p.T)
	s.e.Store(st, addr, s.e.Zero(t))
	return s.e.Mk("iface", "", p.T, addr), addr
}
