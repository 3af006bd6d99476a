package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C18", c18) }

func c18(c *core.Ctx) {
	c.Rule = "Writer and reader are compared through what the source says they write and accept. Escaping functions (those whose result cannot leave a quoted string) are interpreted on an unknown text; for every character the path conditions allow, what is written for it must decode, by the rules of strconv.UnquoteChar the reader's lexer uses, to that character. The writer's output is followed with an automaton that notes the keyword or comment marker in front of each text: the text behind a keyword must be the entry field, unchanged but for escaping, that the reader fills from the tokens the keyword is cut into (lexer rules and grammar tags read off the parser's construction); every quoted string must be matched whole and only whole by the string rule; a marker must lead, on every path of the comment classification it can take, to the field it was written for."
	c.Assumptions = []string{"participle builds the lexer and grammar its rules and struct tags describe; regexp and strconv do what they document.", "Numbers of plural forms are not negative.", "Texts are valid UTF-8."}
	comp, parser := libType(c, "pkg/po/compile.PoCompiler"), libType(c, "pkg/po/parse.PoParser")
	buf := c.P.SSA.ImportedPackage("bytes")
	if comp == nil || parser == nil || buf == nil {
		c.Fail("undecided", "types", "-", "the compiler's or the parser's types were not found")
		return
	}
	w, r := method(c, comp, "ToWriter"), method(c, parser, "Parse")
	if w == nil || r == nil {
		c.Fail("undecided", "ToWriter, Parse", "-", "the writing or the reading operation was not found")
		return
	}
	rd := c18Reader(c, r)
	if rd == nil {
		return
	}
	esc := map[*ssa.Function][]string{}
	var units []string
	for _, f := range repoFuncs(c, func(p string) bool { return p == fnPkg(w) || strings.Contains(p, "/internal/") }) {
		if u, ok := escaper(c, f); ok {
			esc[f] = u
			units = append(units, u...)
		}
	}
	if len(esc) == 0 {
		c.Fail("undecided", "escaping", c.P.Pos(w.Pos()), "no function that escapes text for quoted strings was found")
		return
	}
	rd.strings(c, units)
	c18Writer(c, comp, w, esc, buf.Type("Buffer").Type(), rd)
	c.Min("escaped characters", 10)
	c.Min("keywords", 5)
	c.Min("markers", 5)
	c.Min("texts", 10)
}

// ---- escaping ----

// unquote decodes the inside of a quoted string as the lexer does.
func unquoteText(s string) (string, bool) {
	var out strings.Builder
	for s != "" {
		v, _, tail, err := strconv.UnquoteChar(s, '"')
		if err != nil {
			return "", false
		}
		s = tail
		out.WriteRune(v)
	}
	return out.String(), true
}

// charValue evaluates a term over one character's value.
func charValue(v, ch *vn.V, n int64) (constant.Value, bool) {
	v = vn.Strip(v)
	if v == ch {
		return constant.MakeInt64(n), true
	}
	switch v.Op {
	case "const":
		return v.C, true
	case "conv":
		if x, ok := charValue(v.A[0], ch, n); ok && v.T != nil && intBits(v.T) > 0 && x.Kind() == constant.Int {
			k, _ := constant.Int64Val(x)
			if b := intBits(v.T); b < 64 && k >= 0 && k < 1<<(b-1) || b == 64 {
				return x, true
			}
		}
	case "not":
		if x, ok := charValue(v.A[0], ch, n); ok && x.Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(x)), true
		}
	case "eq", "lt":
		x, ok := charValue(v.A[0], ch, n)
		y, ok2 := charValue(v.A[1], ch, n)
		if ok && ok2 && x.Kind() == y.Kind() && x.Kind() == constant.Int {
			a, _ := constant.Int64Val(x)
			b, _ := constant.Int64Val(y)
			return constant.MakeBool(v.Op == "eq" && a == b || v.Op == "lt" && a < b), true
		}
	case "call":
		if len(v.A) == 1 {
			if x, ok := charValue(v.A[0], ch, n); ok && x.Kind() == constant.Int {
				k, _ := constant.Int64Val(x)
				f := map[string]func(rune) bool{"unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic, "strconv.IsPrint": strconv.IsPrint, "strconv.IsGraphic": strconv.IsGraphic, "unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit}[v.P]
				if f != nil {
					return constant.MakeBool(f(rune(k))), true
				}
			}
		}
		if v.P == "strings.ContainsRune" && len(v.A) == 2 {
			s, ok := v.A[0].StrVal()
			x, ok2 := charValue(v.A[1], ch, n)
			if ok && ok2 {
				k, _ := constant.Int64Val(x)
				return constant.MakeBool(strings.ContainsRune(s, rune(k))), true
			}
		}
	}
	return nil, false
}

// escapeStep is what one round of an escaping loop writes.
type escapeStep struct {
	parts []part
	st    *vn.State
	ch    *vn.V
}

// escaper decides whether a function turns a text into one that cannot leave a quoted
// string, checks that every character comes back when it is decoded, and returns the
// texts special characters become.
func escaper(c *core.Ctx, f *ssa.Function) ([]string, bool) {
	sig := f.Signature
	if f.Parent() != nil || len(f.Blocks) == 0 || f.TypeParams().Len() > 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
		return nil, false
	}
	text := -1
	for i, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if text >= 0 {
				return nil, false
			}
			text = i
		}
	}
	if text < 0 {
		return nil, false
	}
	name, pos := fnName(f), c.P.Pos(f.Pos())
	e := newVN(c, load.IsLib)
	e.MaxSteps = 2000000
	e.SplitMaps = true
	e.KeepCond = keepChars
	s := &streams{e: e}
	p := &poText{e: e, s: s, eqs: map[*vn.V][]item{}, part: map[*vn.V]bool{}, stack: map[*vn.V]bool{}, config: func(*vn.V) bool { return false }}
	type loopInfo struct {
		h     *ssa.BasicBlock
		entry *vn.State
		back  []*vn.State
	}
	var loops []loopInfo
	e.OnLoop = func(fr *vn.Frame, h *ssa.BasicBlock, init, entry *vn.State, back []*vn.State) {
		p.watch(fr, h, init, entry, back)
		loops = append(loops, loopInfo{h, entry, back})
	}
	e.Hook = s.hook
	args := e.Inputs(f)
	param := vn.Strip(args[text])
	outs := e.Run(f, args, nil)
	if e.Err != nil || len(outs) == 0 {
		return nil, false
	}
	p.solve()
	for _, o := range outs {
		if p.eval(o.Res[0], o.St)[qQ]&^(1<<qQ) != 0 {
			return nil, false
		}
	}
	// It cannot leave a string: now everything must come back.
	var units []string
	bad := func(detail string) {
		c.Fail("escape", name, pos, detail)
	}
	checkChar := func(img string, ch rune) bool {
		c.Count("escaped characters", 1)
		units = append(units, img)
		back, ok := unquoteText(img)
		if !ok || back != string(ch) {
			bad(fmt.Sprintf("the character %q is written as %q, which reads back as %q", ch, img, back))
			return false
		}
		return true
	}
	for _, o := range outs {
		ps := p.pieces(o.Res[0], o.St)
		if len(ps) == 0 {
			ps = []part{{s: ""}}
		}
		if len(ps) != 1 || ps[0].v == nil && ps[0].s != "" {
			bad("the result is not made from the characters of the text alone: " + o.Res[0].String())
			continue
		}
		if ps[0].v == nil {
			continue
		}
		v := vn.Strip(ps[0].v)
		for (v.Op == "textof" || v.Op == "conv") && len(v.A) == 1 && p.eqs[v] == nil {
			v = vn.Strip(v.A[0])
		}
		if v == param {
			continue // C17 has seen to it that nothing needs escaping here.
		}
		if p.eqs[v] == nil {
			f := imageOf(p, v, param, o.St)
			if f == nil {
				bad("how the text is escaped could not be followed: " + v.String())
				continue
			}
			ok := true
			for ch := rune(0); ch < 0x180 && ok; ch++ {
				ok = checkChar(f(ch), ch)
			}
			for _, ch := range []rune{0x2028, 0xfffd, '世', 0x1f600, 0x10ffff} {
				ok = ok && checkChar(f(ch), ch)
			}
			continue
		}
		var steps []escapeStep
		ok := true
		for _, l := range loops {
			u, nexts := loopValue(e, s, l.entry, l.back, l.h, v)
			if u == nil {
				continue
			}
			if early := earlyExit(l.h); early {
				bad("the loop over the text can end before the text does")
				ok = false
			}
			for i, nx := range nexts {
				qs := p.pieces(nx, l.back[i])
				if len(qs) == 0 || qs[0].v == nil || !sameText(qs[0].v, v) {
					bad("a round of the loop does not keep what was written: " + nx.String())
					ok = false
					continue
				}
				steps = append(steps, escapeStep{parts: qs[1:], st: l.back[i]})
			}
		}
		if !ok {
			continue
		}
		for _, it := range p.eqs[v] {
			if qs := p.pieces(it.v, it.st); len(qs) > 0 && !sameText(qs[0].v, v) && !(qs[0].v != nil && vn.Strip(qs[0].v).Op == "nil") {
				bad("the result does not start empty: " + it.v.String())
			}
		}
		if len(steps) == 0 {
			bad("how the text is escaped could not be followed: " + v.String())
			continue
		}
		// The character of the text a round is about.
		var ch *vn.V
		for _, s := range steps {
			for _, q := range s.parts {
				if x := charOf(q, param); x != nil {
					ch = x
				}
			}
		}
		if ch == nil {
			for cond := range steps[0].st.Cond() {
				vn.Walk(cond, func(x *vn.V) bool {
					if isChar(x) && !x.IsConst() && hasTerm(x, param) && ch == nil && x.Op != "conv" {
						ch = x
						return false
					}
					return true
				})
			}
		}
		if ch == nil {
			bad("the characters of the text do not appear in the result")
			continue
		}
		for _, s := range steps {
			escapeRound(c, s, ch, bad, checkChar)
		}
	}
	return units, true
}

func keepChars(v *vn.V) bool {
	v = vn.Strip(v)
	if v.Op == "not" {
		v = vn.Strip(v.A[0])
	}
	return v.Op == "eq" && len(v.A) == 2 && (isChar(v.A[0]) && v.A[1].IsConst() || isChar(v.A[1]) && v.A[0].IsConst())
}

func sameText(a, v *vn.V) bool {
	if a == nil {
		return false
	}
	a = vn.Strip(a)
	for a != v && (a.Op == "textof" || a.Op == "conv" || a.Op == "stream") && len(a.A) > 0 {
		a = vn.Strip(a.A[0])
	}
	return a == v
}

// loopValue finds a loop's unknown among what changes in it, and its values after a round.
func loopValue(e *vn.Engine, s *streams, entry *vn.State, back []*vn.State, h *ssa.BasicBlock, v *vn.V) (*vn.V, []*vn.V) {
	var out []*vn.V
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if x := entry.Reg(phi); x != nil && vn.Strip(x) == v {
			for _, b := range back {
				out = append(out, b.Reg(phi))
			}
			return x, out
		}
	}
	for _, o := range e.Objects(entry) {
		if x := e.Content(entry, o); vn.Strip(x) == v {
			for _, b := range back {
				out = append(out, e.Content(b, o))
			}
			return x, out
		}
	}
	return nil, nil
}

// earlyExit tells that a loop can be left from within its body.
func earlyExit(h *ssa.BasicBlock) bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var todo []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			todo = append(todo, p)
		}
	}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				todo = append(todo, p)
			}
		}
	}
	for b := range in {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !in[s] {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !ok {
					return true
				}
			}
		}
	}
	return false
}

// charOf is the character of the text a piece prints.
func charOf(q part, param *vn.V) *vn.V {
	if q.v == nil {
		return nil
	}
	v := vn.Strip(q.v)
	for v.Op == "fmt" || v.Op == "conv" || v.Op == "byte" {
		v = vn.Strip(v.A[0])
	}
	if isChar(v) && hasTerm(v, param) {
		return v
	}
	return nil
}

// escapeRound checks every character a round of the loop can be about.
func escapeRound(c *core.Ctx, s escapeStep, ch *vn.V, bad func(string), check func(string, rune) bool) {
	isByte := intBits(ch.T) == 8
	var conds []*vn.V
	neg := map[*vn.V]bool{}
	points := map[int64]bool{0: true}
	full := false
	for v, b := range s.st.Cond() {
		if hasTerm(v, ch) {
			conds = append(conds, v)
			neg[v] = !b
			vn.Walk(v, func(x *vn.V) bool {
				if n, ok := x.Int64(); ok {
					points[n], points[n+1] = true, true
				}
				if x.Op == "call" {
					full = true
				}
				return true
			})
		}
	}
	allowed := func(n int64) bool {
		for _, v := range conds {
			if x, ok := charValue(v, ch, n); ok && x.Kind() == constant.Bool && constant.BoolVal(x) == neg[v] {
				return false
			}
		}
		return true
	}
	raw := len(s.parts) == 1 && s.parts[0].v != nil && vn.Strip(s.parts[0].v).Op != "fmt" && charOf(s.parts[0], ch) == ch
	img := func(n int64) (string, bool) {
		var b strings.Builder
		for _, q := range s.parts {
			if q.v == nil {
				b.WriteString(q.s)
				continue
			}
			v := vn.Strip(q.v)
			verb := q.verb
			for v.Op == "fmt" {
				verb, v = v.P, vn.Strip(v.A[0])
			}
			if charOf(part{v: v}, ch) != ch {
				return "", false
			}
			switch {
			case isStr(v):
				b.WriteString(string(rune(n)))
			case v.Op == "byte":
				b.WriteByte(byte(n))
			default:
				if isByte {
					fmt.Fprintf(&b, "%"+verb, byte(n))
				} else {
					fmt.Fprintf(&b, "%"+verb, rune(n))
				}
			}
		}
		return b.String(), true
	}
	top := int64(0x10ffff)
	if isByte {
		top = 255
	}
	one := func(n int64) bool {
		if n < 0 || n > top || n >= 0xd800 && n < 0xe000 || !allowed(n) {
			return true
		}
		x, ok := img(n)
		if !ok {
			bad("what is written for a character could not be followed")
			return false
		}
		if isByte && n >= 0x80 {
			if x != string([]byte{byte(n)}) {
				bad(fmt.Sprintf("the byte %#x of a character is written as %q", n, x))
				return false
			}
			return true
		}
		return check(x, rune(n))
	}
	if raw && !full {
		for _, n := range []int64{'"', '\\', '\n', 0x7f, 0x80, 0xfffd, 0x10ffff, 'a'} {
			points[n], points[n+1] = true, true
		}
		for n := range points {
			if !one(n) {
				return
			}
		}
		return
	}
	for n := int64(0); n <= top; n++ {
		if !one(n) {
			return
		}
	}
}

// imageOf is what single characters become in a text made by replacing characters.
func imageOf(p *poText, v, param *vn.V, st *vn.State) func(rune) string {
	v = vn.Strip(v)
	if v == param {
		return func(ch rune) string { return string(ch) }
	}
	if v.Op != "call" || len(v.A) < 2 {
		return nil
	}
	switch v.P {
	case "strings.ReplaceAll":
		old, ok1 := v.A[1].StrVal()
		new, ok2 := v.A[2].StrVal()
		f := imageOf(p, v.A[0], param, st)
		if f == nil || !ok1 || !ok2 || len([]rune(old)) != 1 {
			return nil
		}
		return func(ch rune) string { return strings.ReplaceAll(f(ch), old, new) }
	case "(strings.Replacer).Replace":
		pairs := p.replacer(v.A[0], st)
		f := imageOf(p, v.A[1], param, st)
		if pairs == nil || f == nil {
			return nil
		}
		return func(ch rune) string {
			var b strings.Builder
			for _, x := range f(ch) {
				if n, ok := pairs[x]; ok {
					b.WriteString(n)
				} else {
					b.WriteRune(x)
				}
			}
			return b.String()
		}
	}
	return nil
}

// ---- the reader ----

// reader is what the source says the reader accepts.
type poReader struct {
	rules  [][2]string // lexer rules in order
	elided map[string]bool
	unq    map[string]bool
	gram   map[string][]gramItem // per struct type
	top    string
	// fields: which entry field is filled from which field of the grammar's structs.
	fields map[string]string
	// loops over comment lines.
	comments []commentPath
	ordinal  int
	ident    func(*vn.V) *vn.V
	p        *poText
	e        *vn.Engine
}

// gramItem is one symbol of a grammar tag.
type gramItem struct {
	sym      string
	captured bool
	field    string
	sub      string // for @@: the struct
}

// commentPath is one way through the classification of a comment line.
type commentPath struct {
	st      *vn.State
	changed map[string]*vn.V // entry field -> value after
	before  map[string]*vn.V
	lines   []*vn.V // texts collected in lists
	fn      string
}

func (r *poReader) tokens(s string) ([]string, bool) {
	var out []string
	for s != "" {
		found := false
		for _, rule := range r.rules {
			re, err := regexp.Compile("^(?:" + rule[1] + ")")
			if err != nil {
				return nil, false
			}
			if m := re.FindStringIndex(s); m != nil && m[1] > 0 {
				if !r.elided[rule[0]] {
					out = append(out, rule[0])
				}
				s = s[m[1]:]
				found = true
				break
			} else if m != nil {
				return nil, false
			}
		}
		if !found {
			return nil, false
		}
	}
	return out, true
}

// lookup finds the grammar field a string after the given tokens goes to, and the field
// of the number among them.
func (r *poReader) lookup(toks []string) (field, num string, ok bool) {
	str := ""
	for n := range r.unq {
		str = n
	}
	for typ, items := range r.gram {
		for i := range items {
			match := i+len(toks) < len(items)
			num = ""
			for k, t := range toks {
				if !match || items[i+k].sym != t || items[i+k].captured && k == 0 {
					match = false
					break
				}
				if items[i+k].captured {
					num = typ + "." + items[i+k].field
				}
			}
			if match && items[i+len(toks)].sym == str && items[i+len(toks)].captured {
				return typ + "." + items[i+len(toks)].field, num, true
			}
		}
	}
	return "", "", false
}

var gramTok = regexp.MustCompile(`@@|@?[A-Za-z_]\w*|.`)

// grammar reads the tags of a struct type and those it refers to.
func (r *poReader) grammar(t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return
	}
	name := n.Obj().Name()
	st, ok := n.Underlying().(*types.Struct)
	if !ok || r.gram[name] != nil {
		return
	}
	r.gram[name] = []gramItem{}
	for i := 0; i < st.NumFields(); i++ {
		tag := st.Tag(i)
		if v, ok := reflect.StructTag(tag).Lookup("parser"); ok {
			tag = v
		}
		for _, m := range gramTok.FindAllString(tag, -1) {
			switch {
			case m == "@@":
				r.grammar(st.Field(i).Type())
				r.gram[name] = append(r.gram[name], gramItem{sym: "@@", captured: true, field: st.Field(i).Name()})
			case m[0] == '@':
				r.gram[name] = append(r.gram[name], gramItem{sym: m[1:], captured: true, field: st.Field(i).Name()})
			case m[0] >= 'A' && m[0] <= 'Z' || m[0] >= 'a' && m[0] <= 'z':
				r.gram[name] = append(r.gram[name], gramItem{sym: m})
			}
		}
	}
}

// tokenText is the text of a token.
func isTokenText(v *vn.V) bool {
	v = vn.Strip(v)
	return v.Op == "field" && v.P == "Value" && v.A[0].T != nil && strings.HasSuffix(v.A[0].T.String(), "lexer.Token")
}

func mentionsTokenText(v *vn.V) bool {
	found := false
	vn.Walk(v, func(x *vn.V) bool {
		found = found || isTokenText(x)
		return !found
	})
	return found
}

func c18Reader(c *core.Ctx, f *ssa.Function) *poReader {
	name, pos := fnName(f), c.P.Pos(f.Pos())
	e := newVN(c, load.IsLib)
	e.MaxParts = 1 << 16
	e.MaxSteps = 60000000
	r := &poReader{elided: map[string]bool{}, unq: map[string]bool{}, gram: map[string][]gramItem{}, fields: map[string]string{}, e: e}
	s := &streams{e: e}
	r.p = &poText{e: e, s: s, eqs: map[*vn.V][]item{}, part: map[*vn.V]bool{}, stack: map[*vn.V]bool{}}
	var built *vn.V
	var parsed types.Type
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if strings.HasPrefix(k.Name, "(") && strings.Contains(k.Name, "participle/v2.Parser") && strings.Contains(k.Name, ").Parse") {
			built = vn.Strip(k.Args[0])
			res := k.In.Common().Signature().Results()
			parsed = res.At(0).Type()
			return true, e.Tuple(e.Param("parsed", res.At(0).Type()), e.Zero(res.At(1).Type()))
		}
		if strings.HasSuffix(k.Name, "lexer.Token).String") && len(k.Args) == 1 {
			t := k.Args[0]
			if _, ok := t.T.Underlying().(*types.Pointer); !ok {
				return true, e.Field(t, "Value", types.Typ[types.String])
			}
		}
		return s.hook(k)
	}
	e.KeepCond = mentionsTokenText
	entryT := libType(c, "pkg/po.Entry")
	e.OnLoop = func(fr *vn.Frame, h *ssa.BasicBlock, init, entry *vn.State, back []*vn.State) {
		r.p.watch(fr, h, init, entry, back)
		phis := map[*vn.V]bool{}
		for _, in := range h.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				if x := entry.Reg(phi); x != nil {
					phis[x] = true
				}
			}
		}
		for _, b := range back {
			any := false
			for v := range b.Cond() {
				// The token must be this loop's, not that of one within it.
				vn.Walk(v, func(x *vn.V) bool {
					if isTokenText(x) {
						if t := vn.Strip(vn.Strip(x).A[0]); t.Op == "elem" {
							vn.Walk(t.A[1], func(y *vn.V) bool {
								any = any || phis[y]
								return true
							})
						}
						return false
					}
					return true
				})
			}
			if !any {
				continue
			}
			cp := commentPath{st: b, changed: map[string]*vn.V{}, before: map[string]*vn.V{}, fn: fnName(fr.Fn)}
			for _, o := range e.Objects(b) {
				x, y := e.Content(entry, o), e.Content(b, o)
				if x == y {
					continue
				}
				if types.Identical(o.T, entryT) {
					st := entryT.Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						fl := st.Field(i)
						u, v := e.Field(x, fl.Name(), fl.Type()), e.Field(y, fl.Name(), fl.Type())
						if u != v {
							cp.changed[fl.Name()] = v
							cp.before[fl.Name()] = u
						}
					}
				}
			}
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if sl, ok := phi.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.String]) {
					for _, x := range r.appended(b.Reg(phi), entry.Reg(phi), b, 0) {
						cp.lines = append(cp.lines, x)
					}
				}
			}
			r.comments = append(r.comments, cp)
		}
	}
	outs := e.Run(f, e.Inputs(f), nil)
	if e.Err != nil || len(outs) == 0 || built == nil {
		c.Fail("undecided", name, pos, fmt.Sprintf("the reader could not be followed: %v", e.Err))
		return nil
	}
	r.grammar(parsed)
	// The parser's construction.
	vn.Walk(built, func(v *vn.V) bool {
		if v.Op == "list" && len(v.A) > 0 {
			var rules [][2]string
			for _, x := range v.A {
				if x.Op != "struct" || len(x.A) != 2 {
					return true
				}
				a, ok := x.A[0].StrVal()
				b, ok2 := x.A[1].StrVal()
				if !ok || !ok2 {
					return true
				}
				rules = append(rules, [2]string{a, b})
			}
			r.rules = rules
		}
		for suffix, m := range map[string]map[string]bool{"participle/v2.Unquote": r.unq, "participle/v2.Elide": r.elided} {
			if (v.Op == "call" || v.Op == "res") && strings.Contains(v.P, suffix) {
				for _, x := range v.A {
					vn.Walk(x, func(y *vn.V) bool {
						if s, ok := y.StrVal(); ok {
							m[s] = true
						}
						return true
					})
				}
			}
		}
		return true
	})
	if len(r.rules) == 0 || len(r.gram) == 0 {
		c.Fail("undecided", name, pos, "the lexer's rules or the grammar were not found: "+built.String())
		return nil
	}
	c.Check(len(r.unq) == 1, "string-token", name, pos, fmt.Sprintf("the reader decodes the tokens %v, not those of one string rule", keysOf(r.unq)))
	// Which entry field is filled from which grammar field.
	var entries func(v *vn.V, st *vn.State, d int)
	seen := map[*vn.V]bool{}
	entries = func(v *vn.V, st *vn.State, d int) {
		v = vn.Strip(v)
		if seen[v] || d > 30 {
			return
		}
		seen[v] = true
		if v.Op == "struct" && types.Identical(v.T, entryT) {
			r.entry(v, st, entryT.Underlying().(*types.Struct))
			return
		}
		for _, it := range r.p.eqs[v] {
			entries(it.v, it.st, d+1)
		}
		if v.Op == "append" || v.Op == "list" || v.Op == "struct" {
			for _, a := range v.A {
				entries(a, st, d+1)
			}
		}
		if v.Op == "sl" {
			if l := e.Snapshot(st, v); l != v {
				entries(l, st, d+1)
			}
		}
	}
	for u, items := range r.p.eqs {
		if sl, ok := u.T.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), entryT) {
			for _, it := range items {
				entries(it.v, it.st, 0)
			}
		}
	}
	if len(r.fields) == 0 {
		c.Fail("undecided", name, pos, "where the parsed entries go was not found")
		return nil
	}
	return r
}

func hasTerm(v, x *vn.V) bool {
	found := false
	vn.Walk(v, func(y *vn.V) bool {
		found = found || y == x
		return !found
	})
	return found
}

// entry notes where the fields of a new entry come from.
func (r *poReader) entry(v *vn.V, st *vn.State, t *types.Struct) {
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		x := vn.Strip(r.e.Field(v, f.Name(), f.Type()))
		if g := r.joined(x); g != "" {
			r.fields[g] = f.Name()
			continue
		}
		// A list of plural forms.
		var rec func(x *vn.V, st *vn.State, d int)
		seen := map[*vn.V]bool{}
		rec = func(x *vn.V, st *vn.State, d int) {
			x = vn.Strip(x)
			if seen[x] || d > 20 {
				return
			}
			seen[x] = true
			for _, it := range r.p.eqs[x] {
				rec(it.v, it.st, d+1)
			}
			if x.Op == "append" || x.Op == "list" {
				for _, a := range x.A {
					rec(a, st, d+1)
				}
			}
			if s, ok := x.T.Underlying().(*types.Struct); ok && x.Op == "struct" {
				for k := 0; k < s.NumFields(); k++ {
					y := vn.Strip(r.e.Field(x, s.Field(k).Name(), s.Field(k).Type()))
					if g := r.joined(y); g != "" {
						r.fields[g] = f.Name() + "." + s.Field(k).Name()
					} else if g := r.gramField(y); g != "" {
						r.fields[g] = f.Name() + "." + s.Field(k).Name()
					}
				}
			}
		}
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Slice); ok {
				rec(x, st, 0)
			}
		}
	}
}

// joined is the grammar field whose pieces a text is made of, in order and with nothing
// between them.
func (r *poReader) joined(x *vn.V) string {
	if x.Op == "call" && x.P == "strings.Join" && len(x.A) == 2 {
		if sep, ok := x.A[1].StrVal(); ok && sep == "" {
			return r.gramField(vn.Strip(x.A[0]))
		}
	}
	// A loop that appends the pieces.
	for x.Op == "textof" && len(x.A) > 0 {
		x = vn.Strip(x.A[0])
	}
	if items := r.p.eqs[x]; len(items) > 0 {
		g := ""
		for _, it := range items {
			ps := r.p.pieces(it.v, it.st)
			switch {
			case len(ps) == 0:
			case len(ps) == 2 && ps[0].v != nil && sameText(ps[0].v, x) && ps[1].v != nil && vn.Strip(ps[1].v).Op == "elem":
				g = r.gramField(vn.Strip(vn.Strip(ps[1].v).A[0]))
			case len(ps) == 1 && ps[0].v == nil && ps[0].s == "":
			default:
				return ""
			}
		}
		return g
	}
	return ""
}

func (r *poReader) gramField(x *vn.V) string {
	if x.Op == "field" && x.A[0].T != nil {
		if n, ok := types.Unalias(x.A[0].T).(*types.Named); ok && r.gram[n.Obj().Name()] != nil {
			return n.Obj().Name() + "." + x.P
		}
	}
	return ""
}

// appended are the elements added to a list.
func (r *poReader) appended(v, base *vn.V, st *vn.State, d int) []*vn.V {
	if v == nil || v == base || d > 12 {
		return nil
	}
	v = vn.Strip(v)
	l := vn.Strip(r.e.Snapshot(st, v))
	switch l.Op {
	case "list":
		return l.A
	case "append":
		return append(r.appended(l.A[0], base, st, d+1), r.appended(l.A[1], base, st, d+1)...)
	}
	var out []*vn.V
	if items, ok := r.p.eqs[v]; ok && !r.p.stack[v] {
		r.p.stack[v] = true
		for _, it := range items {
			out = append(out, r.appended(it.v, base, it.st, d+1)...)
		}
		delete(r.p.stack, v)
	}
	return out
}

// strings checks that the string rule matches exactly the quoted strings the writer makes.
func (r *poReader) strings(c *core.Ctx, units []string) {
	pos := "-"
	construct := "lexer rules"
	at := -1
	var n *nfa
	for i, rule := range r.rules {
		m := newNFA("^(?:" + rule[1] + ")")
		if m == nil {
			c.Fail("undecided", construct, pos, "the rule "+rule[0]+" is not understood")
			return
		}
		if !m.dead(m.step(m.start(), '"')) || m.accepts(m.start()) {
			at, n = i, m
			break
		}
	}
	if at < 0 {
		c.Fail("string-token", construct, pos, "no rule matches a quoted string")
		return
	}
	rule := r.rules[at]
	c.Check(r.unq[rule[0]], "string-token", construct, pos, "a quoted string is matched by the rule "+rule[0]+", which is not decoded")
	set := map[string]bool{}
	for _, u := range units {
		set[u] = true
	}
	for _, ch := range n.cells() {
		if ch != '"' && ch != '\\' && ch != '\n' {
			set[string(ch)] = true
		}
	}
	var us []string
	for u := range set {
		us = append(us, u)
	}
	sort.Strings(us)
	first := n.step(n.start(), '"')
	seen := map[string]bool{first.key(): true}
	todo := []nset{first}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		c.Count("string states", 1)
		end := n.step(s, '"')
		if !c.Check(n.accepts(end), "string-token", construct, pos, "the rule "+rule[0]+" does not match every quoted string that is written") {
			return
		}
		for _, ch := range n.cells() {
			if !n.dead(n.step(end, ch)) {
				c.Fail("string-token", construct, pos, "the rule "+rule[0]+" can run on behind the closing quote")
				return
			}
		}
		for _, u := range us {
			t := s
			for _, ch := range u {
				t = n.step(t, ch)
				if n.accepts(t) {
					c.Fail("string-token", construct, pos, fmt.Sprintf("the rule %s ends within a string that holds %q", rule[0], u))
					return
				}
			}
			if n.dead(t) {
				c.Fail("string-token", construct, pos, fmt.Sprintf("the rule %s does not match a string that holds %q", rule[0], u))
				return
			}
			if k := t.key(); !seen[k] {
				seen[k] = true
				todo = append(todo, t)
			}
		}
	}
	if n.hard {
		c.Fail("undecided", construct, pos, "the rule "+rule[0]+" uses assertions")
	}
	// Comment lines.
	for _, rule := range r.rules {
		m := newNFA("^(?:" + rule[1] + ")")
		s := m.step(m.start(), '#')
		if m.dead(s) && !m.accepts(m.start()) {
			continue
		}
		re, err := regexp.Compile("^(?:" + rule[1] + ")")
		ok := err == nil && re.FindString("#. a \"b\\ #\t: c\n#d") == "#. a \"b\\ #\t: c" && re.FindString("#\n") == "#"
		seen := map[string]bool{s.key(): true}
		todo := []nset{s}
		for len(todo) > 0 && ok {
			s := todo[0]
			todo = todo[1:]
			ok = ok && m.accepts(s) && m.dead(m.step(s, '\n'))
			for _, ch := range m.cells() {
				if ch == '\n' {
					continue
				}
				t := m.step(s, ch)
				ok = ok && !m.dead(t)
				if k := t.key(); !seen[k] {
					seen[k] = true
					todo = append(todo, t)
				}
			}
		}
		c.Check(ok, "comment-token", construct, pos, "the rule "+rule[0]+" does not match exactly a comment line up to its end")
		break
	}
}

// decide tells what a condition on a comment line is for every line that starts with a
// marker ('?' standing for the configured obsolete prefix).
func (r *poReader) decide(v *vn.V, marker string) (val, known, custom bool) {
	v = vn.Strip(v)
	switch v.Op {
	case "not":
		val, known, custom = r.decide(v.A[0], marker)
		return !val, known, custom
	case "isnil":
		if x := vn.Strip(v.A[0]); x.Op == "call" && strings.Contains(x.P, ".FindStringSubmatch") {
			all, none, cu, ok := r.matches(x.A[0], x.A[1], marker)
			return none, ok && (all || none), cu
		}
	case "empty":
		if isTokenText(v.A[0]) {
			return false, true, false
		}
	case "lt":
		// Every such line is as long as its marker at least.
		if x := vn.Strip(v.A[1]); x.Op == "len" && isTokenText(x.A[0]) {
			if n, ok := v.A[0].Int64(); ok && n < int64(len(marker)) {
				return true, true, false
			}
		}
		if x := vn.Strip(v.A[0]); x.Op == "len" && isTokenText(x.A[0]) {
			if n, ok := v.A[1].Int64(); ok && n <= int64(len(marker)) {
				return false, true, false
			}
		}
	case "eq":
		for i := 0; i < 2; i++ {
			x, k := vn.Strip(v.A[i]), v.A[1-i]
			if x.Op == "len" && isTokenText(x.A[0]) {
				if n, ok := k.Int64(); ok && n < int64(len(marker)) {
					return false, true, false
				}
			}
			if x.Op == "elem" && isTokenText(x.A[0]) {
				at, ok := x.A[1].Int64()
				n, ok2 := k.Int64()
				if ok && ok2 && at >= 0 && int(at) < len(marker) {
					return int64(marker[at]) == n, true, false
				}
			}
		}
	case "call":
		if len(v.A) == 2 && strings.Contains(v.P, "regexp.Regexp).MatchString") {
			all, none, cu, ok := r.matches(v.A[0], v.A[1], marker)
			return all, ok && (all || none), cu
		}
		if len(v.A) == 2 && v.P == "strings.HasPrefix" && isTokenText(v.A[0]) {
			p, cu, ok := r.constOf(v.A[1])
			if ok && len(p) <= len(marker) {
				return strings.HasPrefix(marker, p), true, cu
			}
			if ok && !strings.HasPrefix(p, marker) {
				return false, true, cu
			}
			return false, false, cu
		}
	}
	return false, false, false
}

// constOf is a constant text in which '?' stands for the configured prefix.
func (r *poReader) constOf(v *vn.V) (s string, custom, ok bool) {
	for _, q := range flatten(r.e, r.e.NewState(), v) {
		if q.v == nil {
			s += q.s
			continue
		}
		x := vn.Strip(q.v)
		quote := false
		if x.Op == "call" && x.P == "regexp.QuoteMeta" {
			quote = true
			x = vn.Strip(x.A[0])
		}
		if x.Op == "conv" && vn.Strip(x.A[0]).Op != "const" && isChar(vn.Strip(x.A[0])) {
			custom = true
			if quote {
				s += `\?`
			} else {
				s += "?"
			}
			continue
		}
		return "", custom, false
	}
	return s, custom, true
}

func (r *poReader) matches(re, text *vn.V, marker string) (all, none, custom, ok bool) {
	re = vn.Strip(re)
	if re.Op != "call" || re.P != "regexp.MustCompile" || !isTokenText(text) {
		return false, false, false, false
	}
	p, custom, ok := r.constOf(re.A[0])
	if !ok {
		return false, false, custom, false
	}
	n := newNFA(p)
	if n == nil {
		return false, false, custom, false
	}
	all, none = n.matchesAll(marker)
	return all, none, custom, true
}

// evalText evaluates a text term with a comment line in place of the token's text.
func (r *poReader) evalText(v *vn.V, line string, custom bool) (any, bool) {
	v = vn.Strip(v)
	if isTokenText(v) {
		return line, true
	}
	if v.Op == "const" {
		if s, ok := v.StrVal(); ok {
			return s, true
		}
		if n, ok := v.Int64(); ok {
			return n, true
		}
		return nil, false
	}
	arg := func(i int) any {
		if i >= len(v.A) {
			return nil
		}
		x, _ := r.evalText(v.A[i], line, custom)
		return x
	}
	str := func(i int) (string, bool) { s, ok := arg(i).(string); return s, ok }
	switch v.Op {
	case "elem":
		l, ok := arg(0).([]string)
		if !ok {
			return nil, false
		}
		i := int64(0)
		if n, ok := v.A[1].Int64(); ok {
			i = n
		}
		if i < 0 || int(i) >= len(l) {
			return nil, false
		}
		return l[i], true
	case "substr":
		s, ok := str(0)
		lo, ok2 := v.A[1].Int64()
		if !ok || !ok2 || int(lo) > len(s) {
			return nil, false
		}
		if hi, ok := v.A[2].Int64(); ok && hi >= lo && int(hi) <= len(s) {
			return s[lo:hi], true
		}
		if x := vn.Strip(v.A[2]); x.Op == "len" {
			return s[lo:], true
		}
		return nil, false
	case "proj", "res", "extract":
		if len(v.A) == 1 {
			return arg(0), arg(0) != nil
		}
	case "call":
		switch {
		case strings.Contains(v.P, "regexp.Regexp).FindStringSubmatch"):
			re := vn.Strip(v.A[0])
			if re.Op != "call" || re.P != "regexp.MustCompile" {
				return nil, false
			}
			p, _, ok := r.constOf(re.A[0])
			s, ok2 := str(1)
			x, err := regexp.Compile(p)
			if !ok || !ok2 || err != nil {
				return nil, false
			}
			return x.FindStringSubmatch(s), true
		case v.P == "strings.Split" || v.P == "strings.SplitN":
			a, ok := str(0)
			b, ok2 := str(1)
			if ok && ok2 {
				if v.P == "strings.SplitN" {
					n, ok := v.A[2].Int64()
					if !ok {
						return nil, false
					}
					return strings.SplitN(a, b, int(n)), true
				}
				return strings.Split(a, b), true
			}
		case v.P == "strings.TrimSpace":
			if a, ok := str(0); ok {
				return strings.TrimSpace(a), true
			}
		case v.P == "strings.TrimPrefix", v.P == "strings.TrimLeft", v.P == "strings.TrimRight":
			a, ok := str(0)
			b, ok2 := str(1)
			if ok && ok2 {
				switch v.P {
				case "strings.TrimPrefix":
					return strings.TrimPrefix(a, b), true
				case "strings.TrimLeft":
					return strings.TrimLeft(a, b), true
				}
				return strings.TrimRight(a, b), true
			}
		}
	}
	return nil, false
}

// marker checks what the reader makes of comment lines with a marker written for a field.
func (r *poReader) marker(c *core.Ctx, marker, field string) {
	c.Count("markers", 1)
	construct := fmt.Sprintf("marker %q", marker)
	custom := strings.Contains(marker, "?")
	obsolete := field == "obsolete"
	reached := false
	for _, cp := range r.comments {
		feasible, all, hasCustom := true, true, false
		n := 0
		for v, b := range cp.st.Cond() {
			if !mentionsTokenText(v) {
				continue
			}
			val, known, cu := r.decide(v, marker)
			hasCustom = hasCustom || cu
			n++
			if known && val != b {
				feasible = false
			}
			all = all && known
		}
		if !feasible || n == 0 || hasCustom != custom && (hasCustom || custom) {
			continue
		}
		var fs []string
		for f := range cp.changed {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		if obsolete {
			for _, l := range cp.lines {
				x, ok := r.evalText(l, marker+`msgid "a"`, custom)
				if s, isS := x.(string); ok && isS && s == `msgid "a"` {
					reached = true
				} else if ok {
					c.Fail("marker", construct, "-", fmt.Sprintf("the line %q is read as %q (%s)", marker+`msgid "a"`, x, cp.fn))
				}
			}
			if all && len(fs) > 0 {
				c.Fail("marker", construct, "-", "a line of an obsolete entry is taken for "+strings.Join(fs, ", ")+" in "+cp.fn)
			}
			continue
		}
		for _, l := range cp.lines {
			if mentionsTokenText(l) && all {
				c.Fail("marker", construct, "-", "a comment line is taken for one of an obsolete entry in "+cp.fn)
			}
		}
		for _, f := range fs {
			if f != field {
				c.Fail("marker", construct, "-", "a comment line written for "+field+" is read into "+f+" in "+cp.fn)
				continue
			}
			sample, want := marker+"x y", "x y"
			switch field {
			case "Flags":
				sample, want = marker+"x-y", "x-y"
			case "Locations":
				sample, want = marker+"x/y.go:7", "x/y.go"
			}
			ok := true
			found := false
			for _, x := range r.appended(cp.changed[f], cp.before[f], cp.st, 0) {
				if !mentionsTokenText(x) {
					continue
				}
				found = true
				if t, isS := x.T.Underlying().(*types.Struct); isS {
					for i := 0; i < t.NumFields(); i++ {
						if types.Identical(t.Field(i).Type(), types.Typ[types.String]) {
							x = r.e.Field(x, t.Field(i).Name(), t.Field(i).Type())
							break
						}
					}
				}
				if y, known := r.evalText(x, sample, custom); known {
					if s, isS := y.(string); isS && s != want {
						ok = false
						c.Fail("marker", construct, "-", fmt.Sprintf("the line %q is read as %q in %s", sample, s, cp.fn))
					}
				}
			}
			if ok && found {
				reached = true
			}
		}
	}
	if obsolete {
		c.Check(reached, "marker", construct, "-", "lines of obsolete entries with this marker are never read as such")
		return
	}
	c.Check(reached, "marker", construct, "-", "comment lines with this marker are never read into "+field)
}

// ---- the writer ----

type labelled struct {
	q     int
	label string
}

type event struct {
	at labelled
	v  *vn.V
	st *vn.State
}

// poWalk runs the automaton of C17 with the keyword or marker in front as a label.
type poWalk struct {
	p      *poText
	table  map[*vn.V]map[labelled]map[labelled]bool
	grown  bool
	events map[string]event
	nums   map[string]*vn.V
}

func (w *poWalk) char(s labelled, ch rune) (labelled, bool) {
	r := charRel(ch)[s.q]
	for q := 0; q < nQ; q++ {
		if r != 1<<q || q == qERR {
			continue
		}
		l := s.label
		switch {
		case q == qK && (s.q == qLS || ch >= 'a' && ch <= 'z' && strings.HasSuffix(l, " ")):
			// Also where a loop over the parts of a text is taken to find none.
			l = string(ch)
		case q == qK:
			l += string(ch)
		case q == qC1:
			l = "#"
		case q == qC && len([]rune(l)) < 6 && !strings.HasSuffix(l, " "):
			l += string(ch)
		case q == qLS && (s.q == qC || s.q == qC1):
			l = ""
		}
		return labelled{q, l}, true
	}
	return s, false
}

func (w *poWalk) run(v *vn.V, st *vn.State, in map[labelled]bool) map[labelled]bool {
	cur := in
	for _, x := range w.p.pieces(v, st) {
		next := map[labelled]bool{}
		for s := range cur {
			w.piece(x, st, s, next)
		}
		cur = next
	}
	return cur
}

func (w *poWalk) event(s labelled, v *vn.V, st *vn.State) {
	k := fmt.Sprintf("%d %s %d %p", s.q, s.label, v.ID, st)
	if _, ok := w.events[k]; !ok {
		w.events[k] = event{s, v, st}
		w.grown = true
	}
}

func (w *poWalk) piece(x part, st *vn.State, s labelled, out map[labelled]bool) {
	if x.v == nil {
		for _, ch := range x.s {
			n, ok := w.char(s, ch)
			if !ok {
				return
			}
			s = n
		}
		out[s] = true
		return
	}
	v := vn.Strip(x.v)
	verb := x.verb
	for {
		if v.Op == "fmt" {
			verb, v = v.P, vn.Strip(v.A[0])
		} else if (v.Op == "textof" || v.Op == "stream") && len(v.A) > 0 {
			v = vn.Strip(v.A[0])
		} else {
			break
		}
	}
	if v.Op == "conv" && len(v.A) == 1 && w.p.eqs[vn.Strip(v.A[0])] != nil {
		v = vn.Strip(v.A[0])
	}
	if _, ok := w.p.eqs[v]; ok {
		t := w.table[v]
		if t == nil {
			t = map[labelled]map[labelled]bool{}
			w.table[v] = t
		}
		if t[s] == nil {
			t[s] = map[labelled]bool{}
			w.grown = true
		}
		for r := range t[s] {
			out[r] = true
		}
		return
	}
	if v.T != nil && intBits(v.T) > 0 && !strings.HasSuffix(verb, "c") || v.Op == "call" && strings.HasPrefix(v.P, "strconv.") && v.P != "strconv.Quote" {
		if s.q == qK {
			if n, ok := v.Int64(); ok {
				s.label += strconv.FormatInt(n, 10)
			} else {
				k := fmt.Sprintf("%%%d%%", v.ID)
				w.nums[k] = v
				s.label += k
			}
		}
		if s.q != qLS && s.q != qAQ {
			out[s] = true
		}
		return
	}
	if v.Op == "conv" && isStr(v) && w.p.config(vn.Strip(v.A[0])) && (s.q == qC1 || s.q == qC) {
		if len([]rune(s.label)) < 6 && !strings.HasSuffix(s.label, " ") {
			s = labelled{qC, s.label + "?"}
		}
		s.q = qC
		out[s] = true
		return
	}
	if v.Op == "escaped" {
		w.event(s, v.A[0], st)
		out[s] = true
		return
	}
	if v.Op == "call" && v.P == "strings.Join" && len(v.A) == 2 {
		if els, ok := w.list(v.A[0], st, 0); ok {
			starts := map[labelled]bool{s: true}
			ends := map[labelled]bool{s: true}
			for n := -1; n != len(starts)+len(ends); {
				n = len(starts) + len(ends)
				for _, it := range els {
					now := w.run(it.v, it.st, copySet(starts))
					for r := range now {
						ends[r] = true
					}
					for r := range w.run(v.A[1], st, now) {
						starts[r] = true
					}
				}
			}
			for r := range ends {
				out[r] = true
			}
			return
		}
	}
	if v.Op == "elem" {
		if _, ok := w.p.lines(v, st); ok {
			if l := vn.Strip(v.A[0]); w.structured(l.A[0], st) {
				switch s.q {
				case qLS:
					out[labelled{qLS, ""}] = true
					out[labelled{qC, "# line"}] = true
					out[labelled{qAQ, "line"}] = true
				case qC:
					w.event(s, v, st)
					out[s] = true
				}
				return
			}
		}
	}
	switch s.q {
	case qC, qQ:
		w.event(s, v, st)
		out[s] = true
	}
}

func copySet(m map[labelled]bool) map[labelled]bool {
	out := map[labelled]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func (w *poWalk) list(l *vn.V, st *vn.State, d int) ([]item, bool) {
	if d > 8 {
		return nil, false
	}
	l = vn.Strip(w.p.e.Snapshot(st, vn.Strip(l)))
	switch l.Op {
	case "nil":
		return nil, true
	case "list":
		var out []item
		for _, x := range l.A {
			out = append(out, item{x, st})
		}
		return out, true
	case "append":
		a, ok := w.list(l.A[0], st, d+1)
		b, ok2 := w.list(l.A[1], st, d+1)
		return append(a, b...), ok && ok2
	case "call":
		if l.P == "strings.Split" {
			return []item{{w.p.e.Elem(l, w.p.e.Unk("any index", types.Typ[types.Int]), strT()), st}}, true
		}
	}
	if items, ok := w.p.eqs[l]; ok {
		if w.p.stack[l] {
			return nil, true
		}
		w.p.stack[l] = true
		defer delete(w.p.stack, l)
		var out []item
		for _, it := range items {
			x, ok := w.list(it.v, it.st, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	}
	return nil, false
}

// structured tells that a text was put together by the writer, rather than being one of
// the catalogue's texts.
func (w *poWalk) structured(t *vn.V, st *vn.State) bool {
	ps := w.p.pieces(t, st)
	return len(ps) > 1 || len(ps) == 1 && ps[0].v != nil && (w.p.eqs[vn.Strip(ps[0].v)] != nil || ps[0].v.Op == "textof")
}

func c18Writer(c *core.Ctx, comp *types.Named, f *ssa.Function, esc map[*ssa.Function][]string, bufT types.Type, rd *poReader) {
	name, pos := fnName(f), c.P.Pos(f.Pos())
	m := newPoModel(c, comp)
	e, s, p := m.e, m.s, m.p
	hook := e.Hook
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Fn != nil && esc[k.Fn] != nil {
			for i, a := range k.Fn.Params {
				if types.Identical(a.Type().Underlying(), types.Typ[types.String]) {
					return true, e.Mk("escaped", "", strT(), s.text(k.St, k.Args[i]))
				}
			}
		}
		return hook(k)
	}
	st := e.NewState()
	out, addr := s.sink(st, bufT)
	outs := e.Run(f, m.args(f, st, out), st)
	if e.Err != nil {
		c.Fail("undecided", name, pos, e.Err.Error())
		return
	}
	p.solve()
	w := &poWalk{p: p, table: map[*vn.V]map[labelled]map[labelled]bool{}, events: map[string]event{}, nums: map[string]*vn.V{}}
	for {
		w.grown = false
		for _, o := range outs {
			w.run(s.content(o.St, addr, bufT), o.St, map[labelled]bool{{qLS, ""}: true})
		}
		for u, t := range w.table {
			for in, set := range t {
				for _, it := range p.eqs[u] {
					for r := range w.run(it.v, it.st, map[labelled]bool{in: true}) {
						if !set[r] {
							set[r] = true
							w.grown = true
						}
					}
				}
			}
		}
		if !w.grown {
			break
		}
	}
	entryT := libType(c, "pkg/po.Entry")
	var keys []string
	for k := range w.events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	done := map[string]bool{}
	kw := map[string]bool{}
	for _, k := range keys {
		ev := w.events[k]
		switch ev.at.q {
		case qC:
			fs := entryFields(ev.v, entryT)
			if _, ok := p.lines(ev.v, ev.st); ok && ev.v.Op == "elem" {
				if l := vn.Strip(ev.v.A[0]); l.Op == "call" && w.structured(l.A[0], ev.st) {
					if ev.at.label != "# " { // entries written as plain comments are not read back
						fs = []string{"obsolete"}
					} else {
						fs = nil
					}
				}
			}
			for _, fl := range fs {
				fl = strings.SplitN(fl, ".", 2)[0]
				if id := ev.at.label + " " + fl; !done[id] {
					done[id] = true
					rd.marker(c, ev.at.label, fl)
				}
			}
		case qQ:
			c.Count("texts", 1)
			label := strings.TrimSpace(ev.at.label)
			plain := label
			var num *vn.V
			for n, v := range w.nums {
				if strings.Contains(plain, n) {
					plain = strings.ReplaceAll(plain, n, "0")
					num = v
				}
			}
			kw[plain] = true
			w.check(c, rd, name, pos, plain, num, ev, entryT)
		}
	}
	var kws []string
	for k := range kw {
		kws = append(kws, k)
	}
	sort.Strings(kws)
	c.Count("keywords", len(kws))
	if len(s.lost) > 0 {
		c.Fail("undecided", name, pos, "output that could not be followed: "+s.lost[0])
	}
}

// entryFields are the fields of an entry a term is made of.
func entryFields(v *vn.V, entryT *types.Named) []string {
	set := map[string]bool{}
	var rec func(v *vn.V, path string)
	rec = func(v *vn.V, path string) {
		v = vn.Strip(v)
		if v.Op == "field" {
			if v.A[0].T != nil && types.Identical(v.A[0].T, entryT) {
				set[strings.TrimSuffix(v.P+"."+path, ".")] = true
				return
			}
			rec(v.A[0], strings.TrimSuffix(v.P+"."+path, "."))
			return
		}
		if v.Op == "elem" {
			rec(v.A[0], path)
			return
		}
		for _, a := range v.A {
			rec(a, "")
		}
	}
	rec(v, "")
	return keysOf(set)
}

// check compares the text written behind a keyword with the field the reader fills from it.
func (w *poWalk) check(c *core.Ctx, rd *poReader, name, pos, label string, num *vn.V, ev event, entryT *types.Named) {
	construct := name + " " + label
	toks, ok := rd.tokens(label + " ")
	if !c.Check(ok, "keyword", construct, pos, fmt.Sprintf("the reader's lexer does not accept the keyword %q", label)) {
		return
	}
	g, gnum, ok := rd.lookup(toks)
	want := rd.fields[g]
	if !c.Check(ok && want != "", "keyword", construct, pos, fmt.Sprintf("the reader's grammar takes no text after %q (tokens %v)", label, toks)) {
		return
	}
	if num != nil {
		for _, n := range []string{"1", "9", "10", "123"} {
			more, ok := rd.tokens(strings.Replace(label, "0", n, 1) + " ")
			if !c.Check(ok && fmt.Sprint(more) == fmt.Sprint(toks), "keyword", construct, pos, fmt.Sprintf("the reader's lexer takes the number %s for %v", n, more)) {
				return
			}
		}
	}
	ps := w.p.pieces(ev.v, ev.st)
	entry := 0
	for i, q := range ps {
		if q.v == nil {
			// The line break a wrapped line ends in.
			if !c.Check(q.s == "\n" && i == len(ps)-1 && i > 0, "text", construct, pos, fmt.Sprintf("%q is added to the text", q.s)) {
				return
			}
			continue
		}
		v := vn.Strip(q.v)
		base := v
		if v.Op == "elem" {
			if l := vn.Strip(v.A[0]); l.Op == "call" && (l.P == "strings.Split" || l.P == "strings.SplitAfter") {
				if sep, ok := l.A[1].StrVal(); !c.Check(ok && sep == "\n", "text", construct, pos, "the text is cut at something else than its line breaks: "+l.String()) {
					return
				}
				if l.P == "strings.Split" {
					last := w.p.e.Bin(tokenEQL, v.A[1], w.p.e.Sub(types.Typ[types.Int], w.p.e.Len(l), w.p.e.Int(1)), types.Typ[types.Bool])
					b, known := w.p.e.Truth(ev.st, last)
					added := i+1 < len(ps) && ps[i+1].v == nil
					if !c.Check(known && b != added, "text", construct, pos, "a line of the text is not written with its line break exactly when one follows it") {
						return
					}
				}
				base = vn.Strip(l.A[0])
				inner := w.p.pieces(base, ev.st)
				for _, y := range inner {
					if y.v != nil {
						entry += w.base(c, construct, pos, vn.Strip(y.v), want, gnum, rd, num, entryT, label)
					}
				}
				continue
			}
		}
		entry += w.base(c, construct, pos, base, want, gnum, rd, num, entryT, label)
	}
	c.Check(entry == 1 || entry == 2, "text", construct, pos, "the text is not one text of the entry: "+ev.v.String())
}

// samePlace tells that two terms are the same element of lists that may come from
// different paths through the program.
func samePlace(a, b *vn.V) bool {
	a, b = vn.Strip(a), vn.Strip(b)
	if a == b {
		return true
	}
	if a.Op == "elem" && b.Op == "elem" {
		return a.A[1] == b.A[1] && samePlace(a.A[0], b.A[0])
	}
	if a.Op == "field" && b.Op == "field" {
		return a.P == b.P && samePlace(a.A[0], b.A[0])
	}
	if a.T == nil || b.T == nil || !types.Identical(a.T.Underlying(), b.T.Underlying()) {
		return false
	}
	_, ok := a.T.Underlying().(*types.Slice)
	return ok
}

// base checks one unchanged text: 1 for an entry's own, 0 for the configuration's.
func (w *poWalk) base(c *core.Ctx, construct, pos string, v *vn.V, want, gnum string, rd *poReader, num *vn.V, entryT *types.Named, label string) int {
	fs := entryFields(v, entryT)
	if len(fs) == 0 {
		x := v
		header := false
		cfg := false
		for x.Op == "field" || x.Op == "elem" {
			if x.Op == "field" && x.A[0].T != nil {
				if t := x.A[0].T.String(); strings.HasSuffix(t, "Field") || strings.HasSuffix(t, "Header") {
					header = true
				} else if strings.HasSuffix(t, "Config") {
					cfg = true
				}
			}
			x = vn.Strip(x.A[0])
		}
		if cfg && !header {
			return 0
		}
		if v.T != nil && label == "msgstr" {
			return 2 // header fields: any text
		}
		c.Fail("text", construct, pos, "a text of unknown origin: "+v.String())
		return 0
	}
	for x := v; ; {
		if x.Op != "field" && x.Op != "elem" {
			if !types.Identical(x.T, entryT) && x.Op != "param" && x.Op != "unk" && x.Op != "lazy" {
				// Anything but fields and elements changes the text.
				if x.T != nil && isStr(x) {
					c.Fail("text", construct, pos, "the text is changed before it is written: "+v.String())
					return 0
				}
			}
			break
		}
		x = vn.Strip(x.A[0])
	}
	ok := len(fs) == 1 && fs[0] == want
	if !ok && len(fs) == 1 && fs[0] == "ID" && num == nil && strings.Contains(label, "[") {
		ok = true // an untranslated plural message: the identifier stands in
	}
	c.Check(ok, "keyword", construct, pos, fmt.Sprintf("%v is written behind %q, which is read into %s", fs, label, want))
	if num != nil {
		n := vn.Strip(num)
		same := n.Op == "field" && v.Op == "field" && samePlace(n.A[0], v.A[0])
		nf := rd.fields[gnum]
		c.Check(same && strings.HasSuffix(nf, "."+n.P), "keyword", construct, pos, "the number written in the keyword is not the one read with the text")
	}
	return 1
}
