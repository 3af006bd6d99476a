package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/core"
	"verif/checker/load"
	"verif/checker/vn"
)

func init() { register("C17", c17) }

// The states of the automaton that follows PO output.
const (
	qLS  = iota // at the start of a line
	qC1         // right after the '#' of a comment
	qC          // in a comment
	qK          // in a keyword
	qQ          // inside a quoted string
	qQE         // inside a quoted string after a backslash
	qAQ         // after a closing quote
	qERR        // text stands where it can change the structure
	nQ
)

var qNames = [nQ]string{"at the start of a line", "right after '#'", "in a comment", "in a keyword", "in a quoted string", "after a backslash in a quoted string", "after a closing quote", "broken"}

// rel is what a text does to the automaton: from each state, the set of states after it.
type rel [nQ]uint8

var idRel = func() (r rel) {
	for i := range r {
		r[i] = 1 << i
	}
	return
}()

func (r rel) then(s rel) (out rel) {
	for i := range r {
		for j := 0; j < nQ; j++ {
			if r[i]&(1<<j) != 0 {
				out[i] |= s[j]
			}
		}
	}
	return
}

func (r rel) or(s rel) rel {
	for i := range r {
		r[i] |= s[i]
	}
	return r
}

func (r rel) star() rel {
	out := idRel
	for {
		n := out.or(out.then(r))
		if n == out {
			return out
		}
		out = n
	}
}

func stepTo(f func(q int) int) (r rel) {
	for q := 0; q < nQ; q++ {
		t := qERR
		if q != qERR {
			t = f(q)
		}
		r[q] = 1 << t
	}
	return
}

// ordinary stands for any character but the quote, the backslash and the line break.
const ordinary = rune(-2)

// charRel is what one character does.
func charRel(ch rune) rel {
	return stepTo(func(q int) int {
		switch q {
		case qLS:
			switch {
			case ch == '#':
				return qC1
			case ch == '"':
				return qQ
			case ch == '\n' || ch == ' ' || ch == '\t':
				return qLS
			case ch >= 'a' && ch <= 'z':
				return qK
			}
		case qC1, qC:
			switch {
			case ch == '\n':
				return qLS
			case ch == ordinary && q == qC1:
				return qERR
			}
			return qC
		case qK:
			switch {
			case ch == '"':
				return qQ
			case ch == '\n':
				return qLS
			case ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9' || strings.ContainsRune(" []_", ch):
				return qK
			}
		case qQ:
			switch ch {
			case '"':
				return qAQ
			case '\\':
				return qQE
			case '\n':
				return qERR
			}
			return qQ
		case qQE:
			if ch != '\n' {
				return qQ
			}
		case qAQ:
			switch ch {
			case '\n':
				return qLS
			case ' ':
				return qAQ
			case '"':
				return qQ
			}
		}
		return qERR
	})
}

func constRel(s string) rel {
	out := idRel
	for _, ch := range s {
		out = out.then(charRel(ch))
	}
	return out
}

// number is a printed integer: digits, letters, a sign.
var numberRel = stepTo(func(q int) int {
	switch q {
	case qC1, qC:
		return qC
	case qK:
		return qK
	case qQ, qQE:
		return qQ
	}
	return qERR
})

// lineRel is one whole line, without its line break, of a text that keeps to the rules.
func lineRel() (r rel) {
	r = stepTo(func(q int) int {
		if q == qC {
			return qC
		}
		return qERR
	})
	r[qLS] = 1<<qLS | 1<<qC1 | 1<<qC | 1<<qK | 1<<qAQ
	return
}

// image is the set of texts a character of the original can become; characters other than
// the special ones count as one.
type images map[rune][]string

var specials = []rune{'"', '\\', '\n', ordinary}

const ordinaryMark = "\x00"

func anyText() images {
	return images{'"': {`"`}, '\\': {`\`}, '\n': {"\n"}, ordinary: {ordinaryMark}}
}

func markOf(ch rune) string {
	if ch == ordinary {
		return ordinaryMark
	}
	return string(ch)
}

func (m images) rel() rel {
	var step rel
	for _, l := range m {
		for _, s := range l {
			r := idRel
			for _, ch := range s {
				if string(ch) == ordinaryMark {
					ch = ordinary
				}
				r = r.then(charRel(ch))
			}
			step = step.or(r)
		}
	}
	return step.star()
}

// plain tells that every character stays what it is or disappears.
func (m images) plain() bool {
	for ch, l := range m {
		for _, s := range l {
			if s != markOf(ch) {
				return false
			}
		}
	}
	return true
}

func (m images) has(ch rune) bool {
	for _, l := range m {
		for _, s := range l {
			if strings.Contains(s, markOf(ch)) {
				return true
			}
		}
	}
	return false
}

func classOf(ch rune) rune {
	if ch == '"' || ch == '\\' || ch == '\n' {
		return ch
	}
	return ordinary
}

// mapped applies a replacement of single characters to every image.
func (m images) mapped(f func(ch rune) []string) images {
	out := images{}
	for ch, l := range m {
		var set []string
		for _, s := range l {
			acc := []string{""}
			for _, x := range s {
				if string(x) == ordinaryMark {
					x = ordinary
				}
				var next []string
				for _, a := range acc {
					for _, b := range f(x) {
						next = append(next, a+b)
					}
				}
				acc = next
			}
			set = append(set, acc...)
		}
		sort.Strings(set)
		var uniq []string
		for i, s := range set {
			if i == 0 || s != set[i-1] {
				uniq = append(uniq, s)
			}
		}
		out[ch] = uniq
	}
	return out
}

// masked hides ordinary characters of a constant so that they count as themselves only
// where the place matters: constants keep their characters.
func replacement(pairs map[rune]string) func(ch rune) []string {
	return func(ch rune) []string {
		if ch == ordinary {
			out := []string{ordinaryMark}
			for old, new := range pairs {
				if classOf(old) == ordinary {
					out = append(out, new)
				}
			}
			return out
		}
		if n, ok := pairs[ch]; ok {
			return []string{n}
		}
		return []string{string(ch)}
	}
}

func (m images) without(ch rune) images {
	out := images{}
	for k, l := range m {
		for _, s := range l {
			if !strings.Contains(s, markOf(ch)) {
				out[k] = append(out[k], s)
			}
		}
	}
	return out
}

// item is one way a loop's unknown text comes about.
type item struct {
	v  *vn.V
	st *vn.State
}

// poText evaluates texts over the automaton.
type poText struct {
	e    *vn.Engine
	s    *streams
	eqs  map[*vn.V][]item
	vals map[*vn.V]rel
	// assumed are values of the configuration that are single characters on a line.
	config func(*vn.V) bool
	part   map[*vn.V]bool // texts the library itself wrote: whole PO files
	lineOf map[*vn.V]bool
	stack  map[*vn.V]bool
}

// watch notes how each loop's unknown texts come about.
func (p *poText) watch(fr *vn.Frame, h *ssa.BasicBlock, init, entry *vn.State, back []*vn.State) {
	add := func(u, i *vn.V, bs []*vn.V) {
		if u == nil || i == nil || u == i || u.Op != "unk" {
			return
		}
		p.eqs[u] = append(p.eqs[u], item{i, init})
		for k, b := range bs {
			if b != nil && b != u {
				p.eqs[u] = append(p.eqs[u], item{b, back[k]})
			}
		}
	}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var bs []*vn.V
		for _, b := range back {
			bs = append(bs, b.Reg(phi))
		}
		add(entry.Reg(phi), init.Reg(phi), bs)
	}
	var walk func(u, i *vn.V, bs []*vn.V, d int)
	walk = func(u, i *vn.V, bs []*vn.V, d int) {
		if u == i || d > 6 {
			return
		}
		if u.Op == "unk" {
			add(u, i, bs)
			return
		}
		if u.T == nil {
			return
		}
		if t, ok := u.T.Underlying().(*types.Struct); ok {
			for k := 0; k < t.NumFields(); k++ {
				f := t.Field(k)
				var fb []*vn.V
				for _, b := range bs {
					fb = append(fb, p.e.Field(b, f.Name(), f.Type()))
				}
				walk(p.e.Field(u, f.Name(), f.Type()), p.e.Field(i, f.Name(), f.Type()), fb, d+1)
			}
		}
	}
	for _, o := range p.e.Objects(entry) {
		var bs []*vn.V
		for _, b := range back {
			bs = append(bs, p.e.Content(b, o))
		}
		walk(p.e.Content(entry, o), p.e.Content(init, o), bs, 0)
	}
}

// solve finds what every loop's unknown text can do.
func (p *poText) solve() {
	p.vals = map[*vn.V]rel{}
	for {
		changed := false
		for u, items := range p.eqs {
			r := p.vals[u]
			for _, it := range items {
				r = r.or(p.eval(it.v, it.st))
			}
			if r != p.vals[u] {
				p.vals[u] = r
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

// pieces are the parts of a text one after the other.
func (p *poText) pieces(v *vn.V, st *vn.State) []part {
	v = vn.Strip(v)
	for v.Op == "stream" {
		v = vn.Strip(v.A[0])
	}
	if v.T != nil && streamTypes[types.TypeString(types.Unalias(v.T), nil)] && v == p.e.Zero(v.T) {
		return nil
	}
	if v.T != nil && isByteSlice(v.T) {
		if v.Op == "unk" {
			return []part{{v: v, verb: "s"}}
		}
		v = p.s.text(st, v)
	}
	return flatten(p.e, st, v)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (p *poText) eval(v *vn.V, st *vn.State) rel {
	out := idRel
	for _, x := range p.pieces(v, st) {
		out = out.then(p.piece(x, st))
	}
	return out
}

func (p *poText) piece(x part, st *vn.State) rel {
	if x.v == nil {
		return constRel(x.s)
	}
	v := vn.Strip(x.v)
	verb := x.verb
	for v.Op == "fmt" {
		verb, v = v.P, vn.Strip(v.A[0])
	}
	switch v.Op {
	case "textof":
		return p.piece(part{v: v.A[0], verb: verb}, st)
	case "stream":
		return p.eval(v, st)
	case "byte":
		return p.char(v.A[0], st)
	case "conv":
		if a := vn.Strip(v.A[0]); a.T != nil {
			if intBits(a.T) > 0 && isStr(v) {
				return p.char(a, st)
			}
			if isByteSlice(a.T) || isStr(a) {
				if a.Op == "unk" {
					return p.piece(part{v: a, verb: verb}, st)
				}
				if isStr(a) {
					return p.eval(a, st)
				}
				if t := p.s.text(st, a); vn.Strip(t) != v {
					return p.eval(t, st)
				}
			}
		}
	}
	if v.T != nil && intBits(v.T) > 0 {
		if strings.HasSuffix(verb, "c") {
			return p.char(v, st)
		}
		if strings.HasSuffix(verb, "q") {
			return anyQuoted
		}
		return numberRel
	}
	if strings.HasSuffix(verb, "q") || v.Op == "call" && (v.P == "strconv.Quote" || v.P == "strconv.QuoteToASCII") {
		return anyQuoted
	}
	if strings.HasSuffix(verb, "d") || v.Op == "call" && (v.P == "strconv.Itoa" || v.P == "strconv.FormatInt" || v.P == "strconv.FormatUint") {
		return numberRel
	}
	if v.Op == "escaped" { // by a function seen to keep within a quoted string
		return stepTo(func(q int) int {
			if q == qQ || q == qC {
				return q
			}
			return qERR
		})
	}
	if _, ok := p.eqs[v]; ok {
		return p.vals[v]
	}
	if v.Op == "elem" {
		if r, ok := p.lines(v, st); ok {
			return r
		}
	}
	if p.part[v] {
		return poFileRel
	}
	if v.Op == "call" && v.P == "strings.Repeat" {
		return p.eval(v.A[0], st).star()
	}
	if v.Op == "call" && v.P == "strings.Join" && len(v.A) == 2 {
		if r, ok := p.elems(v.A[0], st, 0); ok {
			return idRel.or(r.then(p.eval(v.A[1], st).then(r).star()))
		}
	}
	return p.text(v, st).rel()
}

// elems is what any element of a list of texts can do.
func (p *poText) elems(l *vn.V, st *vn.State, d int) (rel, bool) {
	var none rel
	if d > 8 {
		return none, false
	}
	l = vn.Strip(p.e.Snapshot(st, vn.Strip(l)))
	switch l.Op {
	case "nil":
		return none, true
	case "list":
		for _, x := range l.A {
			none = none.or(p.eval(x, st))
		}
		return none, true
	case "append":
		a, ok := p.elems(l.A[0], st, d+1)
		b, ok2 := p.elems(l.A[1], st, d+1)
		return a.or(b), ok && ok2
	case "call":
		if l.P == "strings.Split" && len(l.A) == 2 {
			x := p.e.Elem(l, p.e.Unk("any index", types.Typ[types.Int]), strT())
			return p.eval(x, st), true
		}
	}
	if items, ok := p.eqs[l]; ok {
		if p.stack[l] {
			return none, true
		}
		p.stack[l] = true
		defer delete(p.stack, l)
		for _, it := range items {
			r, ok := p.elems(it.v, it.st, d+1)
			if !ok {
				return none, false
			}
			none = none.or(r)
		}
		return none, true
	}
	return none, false
}

var anyQuoted = func() rel {
	m := images{'"': {`\"`}, '\\': {`\\`}, '\n': {`\n`}, ordinary: {ordinaryMark}}
	return charRel('"').then(m.rel()).then(charRel('"'))
}()

// poFileRel is a whole PO text: from the start of a line to the start of a line.
var poFileRel = stepTo(func(q int) int {
	if q == qLS {
		return qLS
	}
	return qERR
})

// char is what an unknown character can do, given what the path knows it is not.
func (p *poText) char(ch *vn.V, st *vn.State) rel {
	ch = vn.Strip(ch)
	if n, ok := ch.Int64(); ok {
		return charRel(rune(n))
	}
	if p.config(ch) {
		return charRel(ordinary).or(stepTo(func(q int) int {
			if q == qC1 {
				return qC
			}
			return qERR
		})).restrict(func(q int) uint8 {
			if q == qC1 {
				return 1 << qC
			}
			return charRel(ordinary)[q]
		})
	}
	for c, b := range st.Cond() {
		c = vn.Strip(c)
		if b && c.Op == "call" && c.P == "strings.ContainsRune" && vn.Strip(c.A[1]) == ch {
			if s, ok := c.A[0].StrVal(); ok {
				var out rel
				for _, k := range s {
					out = out.or(charRel(classOf(k)))
				}
				return out
			}
		}
	}
	out := charRel(ordinary)
	for _, k := range []rune{'"', '\\', '\n'} {
		if !p.never(st, ch, k) {
			out = out.or(charRel(k))
		}
	}
	return out
}

func (r rel) restrict(f func(q int) uint8) rel {
	for q := range r {
		r[q] = f(q)
	}
	return r
}

// never tells that the path excludes a character value.
func (p *poText) never(st *vn.State, ch *vn.V, k rune) bool {
	eq := p.e.Bin(token.EQL, ch, p.e.Conv(p.e.Int(int64(k)), ch.T), types.Typ[types.Bool])
	if b, known := p.e.Truth(st, eq); known && !b {
		return true
	}
	for c, b := range st.Cond() {
		c = vn.Strip(c)
		if !b && c.Op == "call" && c.P == "strings.ContainsRune" && vn.Strip(c.A[1]) == ch {
			if s, ok := c.A[0].StrVal(); ok && strings.ContainsRune(s, k) {
				return true
			}
		}
	}
	return false
}

// lines recognises one line of a text cut at its line breaks.
func (p *poText) lines(v *vn.V, st *vn.State) (rel, bool) {
	l := vn.Strip(v.A[0])
	if l.Op != "call" || l.P != "strings.Split" || len(l.A) != 2 {
		return rel{}, false
	}
	if sep, ok := l.A[1].StrVal(); !ok || sep != "\n" {
		return rel{}, false
	}
	t := vn.Strip(l.A[0])
	for t.Op == "call" && strings.HasPrefix(t.P, "strings.Trim") && (len(t.A) < 2 || t.A[1].IsConst()) {
		if len(t.A) == 2 {
			if s, _ := t.A[1].StrVal(); strings.Trim(s, "\n") != "" {
				break
			}
		} else {
			break
		}
		t = vn.Strip(t.A[0])
	}
	ps := p.pieces(t, st)
	if len(ps) == 1 && ps[0].v != nil {
		if _, loop := p.eqs[vn.Strip(ps[0].v)]; !loop && ps[0].v.Op != "textof" {
			return rel{}, false
		}
	}
	end := p.eval(t, st)[qLS]
	if end&^(1<<qLS|1<<qC1|1<<qC|1<<qK|1<<qAQ) != 0 {
		return rel{}, false
	}
	return lineRel(), true
}

// text is what the characters of a text of unknown content have become.
func (p *poText) text(v *vn.V, st *vn.State) images {
	m := p.rawText(v, st)
	for _, ch := range []rune{'"', '\\', '\n'} {
		if m.has(ch) && p.lacks(v, st, ch) {
			m = m.without(ch)
		}
	}
	return m
}

// lacks tells that the path knows a text not to contain a character.
func (p *poText) lacks(v *vn.V, st *vn.State, ch rune) bool {
	for c, b := range st.Cond() {
		c = vn.Strip(c)
		if b || c.Op != "call" || len(c.A) != 2 || !holds(c.A[0], v) {
			continue
		}
		switch c.P {
		case "strings.Contains":
			if s, ok := c.A[1].StrVal(); ok && s == string(ch) {
				return true
			}
		case "strings.ContainsAny":
			if s, ok := c.A[1].StrVal(); ok && strings.ContainsRune(s, ch) {
				return true
			}
		case "strings.ContainsRune":
			if n, ok := c.A[1].Int64(); ok && rune(n) == ch {
				return true
			}
		}
	}
	return false
}

// holds tells that a text is another or has it as a part.
func holds(t, v *vn.V) bool {
	t = vn.Strip(t)
	if t == v {
		return true
	}
	if t.Op == "cat" {
		for _, a := range t.A {
			if holds(a, v) {
				return true
			}
		}
	}
	return false
}

var keepsChars = regexp.MustCompile(`^strings\.(To|Trim|Cut|Title)`)

func (p *poText) rawText(v *vn.V, st *vn.State) images {
	v = vn.Strip(v)
	if s, ok := v.StrVal(); ok {
		m := images{}
		m[ordinary] = []string{s}
		return m
	}
	switch {
	case v.Op == "call" && v.P == "strings.ReplaceAll" && len(v.A) == 3,
		v.Op == "call" && v.P == "strings.Replace" && len(v.A) == 4:
		old, ok1 := v.A[1].StrVal()
		new, ok2 := v.A[2].StrVal()
		r := []rune(old)
		if !ok1 || !ok2 || len(r) != 1 {
			break
		}
		m := p.text(v.A[0], st)
		f := replacement(map[rune]string{r[0]: new})
		if v.P == "strings.Replace" {
			if n, ok := v.A[3].Int64(); !ok || n >= 0 {
				g := f
				f = func(ch rune) []string { return append(g(ch), markOf(ch)) }
			}
		}
		return m.mapped(f)
	case v.Op == "call" && v.P == "(strings.Replacer).Replace" && len(v.A) == 2:
		if pairs := p.replacer(v.A[0], st); pairs != nil {
			m := p.text(v.A[1], st)
			return m.mapped(replacement(pairs))
		}
	case v.Op == "call" && keepsChars.MatchString(v.P) && len(v.A) > 0:
		if m := p.text(v.A[0], st); m.plain() {
			return m
		}
	case v.Op == "call" && v.P == "(bufio.Scanner).Text":
		return anyText().without('\n')
	case v.Op == "elem":
		l := vn.Strip(v.A[0])
		if l.Op == "call" && (l.P == "strings.Split" || l.P == "strings.Fields" || l.P == "strings.SplitAfter" || l.P == "strings.SplitN") {
			m := p.text(l.A[0], st)
			if !m.plain() {
				m = anyText()
			}
			switch l.P {
			case "strings.Fields":
				return m.without('\n')
			case "strings.Split":
				if sep, ok := l.A[1].StrVal(); ok && sep == "\n" {
					return m.without('\n')
				}
			}
			return m
		}
	case (v.Op == "slice" || v.Op == "substr") && len(v.A) > 0 && isStr(v.A[0]):
		if m := p.text(v.A[0], st); m.plain() {
			return m
		}
	}
	return anyText()
}

// replacer is the table of a strings.Replacer of single characters.
func (p *poText) replacer(v *vn.V, st *vn.State) map[rune]string {
	v = vn.Strip(v)
	if v.Op != "call" || v.P != "strings.NewReplacer" || len(v.A) != 1 {
		return nil
	}
	l := listOf(p.e, st, v.A[0])
	if l == nil || len(l)%2 != 0 {
		return nil
	}
	out := map[rune]string{}
	for i := 0; i < len(l); i += 2 {
		old, ok1 := l[i].StrVal()
		new, ok2 := l[i+1].StrVal()
		r := []rune(old)
		if !ok1 || !ok2 || len(r) != 1 {
			return nil
		}
		if _, dup := out[r[0]]; !dup {
			out[r[0]] = new
		}
	}
	return out
}

// blame names the piece of a text that leads the automaton astray.
func (p *poText) blame(v *vn.V, st *vn.State, from uint8, seen map[*vn.V]bool) (string, uint8) {
	cur := from
	for _, x := range p.pieces(v, st) {
		r := p.piece(x, st)
		var next uint8
		for q := 0; q < nQ; q++ {
			if cur&(1<<q) != 0 {
				next |= r[q]
			}
		}
		if next&(1<<qERR) != 0 && cur&(1<<qERR) == 0 {
			u := x.v
			for u != nil && (u.Op == "textof" || u.Op == "conv" || u.Op == "stream") {
				u = vn.Strip(u.A[0])
			}
			if seen[u] {
				// The rounds before this one.
				cur = next &^ (1 << qERR)
				continue
			}
			if items, ok := p.eqs[u]; ok {
				seen[u] = true
				for _, it := range items {
					if msg, _ := p.blame(it.v, it.st, cur, seen); msg != "" {
						return msg, next
					}
				}
			}
			if u != nil && u.Op == "elem" {
				if l := vn.Strip(u.A[0]); l.Op == "call" && l.P == "strings.Split" {
					if msg, _ := p.blame(l.A[0], st, 1<<qLS, map[*vn.V]bool{}); msg != "" {
						return msg, next
					}
				}
			}
			where := ""
			for q := 0; q < nQ; q++ {
				if cur&(1<<q) != 0 && r[q]&(1<<qERR) != 0 {
					where = qNames[q]
					break
				}
			}
			what := fmt.Sprintf("%q", x.s)
			if x.v != nil {
				what = x.v.String()
			}
			if len(what) > 160 {
				what = what[:160] + "…"
			}
			return what + " " + where, next
		}
		cur = next
	}
	return "", cur
}

func isChar(v *vn.V) bool {
	return v.T != nil && (intBits(v.T) == 32 || intBits(v.T) == 8)
}

func c17(c *core.Ctx) {
	c.Rule = "The PO writer is interpreted with an unknown catalogue and unknown configuration (no highlighting), the output being a term made of constant pieces, unknown texts and unknown repetitions. An automaton for PO lines (line start, comment marker, comment, keyword, quoted string, backslash, after the closing quote) is run over that term for every content of the unknown pieces (its effect on the states is computed as a least fixpoint over the loops): an unknown text may stand only in a comment after its marker or inside a quoted string, what becomes of its quotes, backslashes and line breaks is followed through the escaping code, and the output must end at the start of a line."
	c.Assumptions = []string{"The custom obsolete prefix (configuration, not content) is not a line break.", "Writes to the output succeed; standard library text functions do what they document.", "Only the quote, the backslash and the line break have a meaning in PO text; other characters count as one class."}
	comp := libType(c, "pkg/po/compile.PoCompiler")
	buf := c.P.SSA.ImportedPackage("bytes")
	if comp == nil || buf == nil {
		c.Fail("undecided", "types", "-", "the compiler's types were not found")
		return
	}
	w := method(c, comp, "ToWriter")
	if w == nil {
		c.Fail("undecided", "ToWriter", "-", "the writing operation was not found")
		return
	}
	c17Root(c, comp, w, w, buf.Type("Buffer").Type())
	for _, n := range []string{"ToString", "ToBytes", "ToFile"} {
		if f := method(c, comp, n); f != nil {
			c17Root(c, comp, f, w, buf.Type("Buffer").Type())
		} else {
			c.Fail("undecided", n, "-", "the operation was not found")
		}
	}
	c.Min("outputs", 8)
	c.Min("loops", 10)
}

// poModel interprets the PO writer on an unknown catalogue and configuration.
type poModel struct {
	e    *vn.Engine
	s    *streams
	p    *poText
	recv *vn.V
	self *vn.V
	comp *types.Named
}

func newPoModel(c *core.Ctx, comp *types.Named) *poModel {
	e := newVN(c, load.IsLib)
	e.MaxParts = 1 << 16
	e.SplitMaps = true
	// What is known of a character decides what may be written for it.
	e.KeepCond = keepChars
	e.MaxSteps = 60000000
	s := &streams{e: e}
	p := &poText{e: e, s: s, eqs: map[*vn.V][]item{}, part: map[*vn.V]bool{}, stack: map[*vn.V]bool{}}
	recv := e.Param("compiler", comp)
	cst := comp.Underlying().(*types.Struct)
	var fs []*vn.V
	for i := 0; i < cst.NumFields(); i++ {
		v := e.Field(recv, cst.Field(i).Name(), cst.Field(i).Type())
		if cfg, ok := v.T.Underlying().(*types.Struct); ok {
			var cs []*vn.V
			for k := 0; k < cfg.NumFields(); k++ {
				x := cfg.Field(k)
				if x.Name() == "Highlight" {
					cs = append(cs, e.Zero(x.Type()))
					c.Count("highlight off", 1)
				} else {
					cs = append(cs, e.Field(v, x.Name(), x.Type()))
				}
			}
			v = e.Struct(v.T, cs)
		}
		fs = append(fs, v)
	}
	p.config = func(v *vn.V) bool {
		for v.Op == "conv" || v.Op == "field" {
			if v == recv {
				return true
			}
			if v.Op == "field" && v.A[0].T != nil && strings.HasSuffix(v.A[0].T.String(), "Config") && vn.Strip(v.A[0].A[0]) == recv {
				return true
			}
			v = vn.Strip(v.A[0])
		}
		return false
	}
	e.OnLoop = func(fr *vn.Frame, h *ssa.BasicBlock, init, entry *vn.State, back []*vn.State) {
		c.Count("loops", 1)
		p.watch(fr, h, init, entry, back)
	}
	e.Hook = s.hook
	return &poModel{e: e, s: s, p: p, recv: recv, self: e.Struct(comp, fs), comp: comp}
}

// args are the arguments of an operation of the compiler; the output stands for every
// interface argument.
func (m *poModel) args(f *ssa.Function, st *vn.State, out *vn.V) []*vn.V {
	args := []*vn.V{m.self}
	if _, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok {
		pa := m.e.Param("receiver", f.Params[0].Type())
		m.e.SetContent(st, m.e.Lazy(pa), m.self)
		args[0] = pa
	}
	for i, prm := range f.Params[1:] {
		if _, ok := prm.Type().Underlying().(*types.Interface); ok {
			args = append(args, out)
			continue
		}
		args = append(args, m.e.Param(fmt.Sprintf("arg%d", i), prm.Type()))
	}
	return args
}

func c17Root(c *core.Ctx, comp *types.Named, f, w *ssa.Function, bufT types.Type) {
	name, pos := fnName(f), c.P.Pos(f.Pos())
	m := newPoModel(c, comp)
	e, s, p := m.e, m.s, m.p
	st := e.NewState()
	out, addr := s.sink(st, bufT)
	var files []*vn.V
	e.Hook = func(k *vn.Call) (bool, *vn.V) {
		if k.Fn == w && f != w {
			// Whatever it is given, the writing operation writes a PO text; that is
			// checked on its own.
			text := e.CallTerm("po", nil, strT())
			p.part[vn.Strip(text)] = true
			if s.append(k.St, k.Args[1], text) {
				return true, e.Zero(w.Signature.Results().At(0).Type())
			}
			return false, nil
		}
		if k.Name == "os.OpenFile" || k.Name == "os.Create" {
			pt := k.In.Common().Signature().Results().At(0).Type()
			a := e.NewObject(k.Fr, k.In, pt.(*types.Pointer).Elem())
			e.Store(k.St, a, e.Mk("stream", "", pt.(*types.Pointer).Elem(), e.Str("")))
			files = append(files, a)
			return true, e.Tuple(a, e.Zero(k.In.Common().Signature().Results().At(1).Type()))
		}
		if k.Name == "(os.File).Close" || k.Name == "(*os.File).Close" {
			return true, e.Zero(k.In.Common().Signature().Results().At(0).Type())
		}
		return s.hook(k)
	}
	outs := e.Run(f, m.args(f, st, out), st)
	if e.Err != nil {
		c.Fail("undecided", name, pos, e.Err.Error())
		return
	}
	p.solve()
	check := func(text *vn.V, st *vn.State) {
		c.Count("outputs", 1)
		end := p.eval(text, st)[qLS]
		ok := end&^(1<<qLS) == 0
		detail := ""
		construct := name
		if !ok {
			if msg, _ := p.blame(text, st, 1<<qLS, map[*vn.V]bool{}); msg != "" {
				detail = "this text stands where it can change the structure of the file: " + msg
			} else {
				for q := 0; q < nQ; q++ {
					if end&(1<<q) != 0 && q != qLS {
						detail = "the output can end " + qNames[q]
					}
				}
			}
		}
		c.Check(ok, "po-structure", construct, pos, detail)
	}
	for _, o := range outs {
		switch {
		case f == w:
			check(s.content(o.St, addr, bufT), o.St)
		case len(files) > 0:
			for _, a := range files {
				check(s.content(o.St, a, a.T.(*types.Pointer).Elem()), o.St)
			}
		default:
			for _, r := range o.Res {
				if isStr(r) || isByteSlice(r.T) {
					check(r, o.St)
				}
			}
		}
	}
	if len(s.lost) > 0 {
		c.Fail("undecided", name, pos, "output that could not be followed: "+s.lost[0])
	}
}
