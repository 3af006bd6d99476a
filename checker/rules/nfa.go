package rules

import (
	"regexp/syntax"
	"sort"
	"strings"
)

// nfa runs a regular expression over texts one character at a time, as a set of places in
// its compiled program.
type nfa struct {
	prog *syntax.Prog
	// hard is set when the expression uses assertions the simulation does not follow.
	hard     bool
	anchored bool
}

func newNFA(pattern string) *nfa {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return nil
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	n := &nfa{prog: p}
	n.anchored = p.StartCond()&syntax.EmptyBeginText != 0
	return n
}

type nset map[uint32]bool

func (n *nfa) add(s nset, pc uint32, start bool) {
	if s[pc] {
		return
	}
	in := &n.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		s[pc] = true
		n.add(s, in.Out, start)
		n.add(s, in.Arg, start)
	case syntax.InstCapture, syntax.InstNop:
		s[pc] = true
		n.add(s, in.Out, start)
	case syntax.InstEmptyWidth:
		e := syntax.EmptyOp(in.Arg)
		if e&^(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 {
			n.hard = true
			return
		}
		if start {
			n.add(s, in.Out, start)
		}
	case syntax.InstFail:
	default:
		s[pc] = true
	}
}

func (n *nfa) start() nset {
	s := nset{}
	n.add(s, uint32(n.prog.Start), true)
	return s
}

func (n *nfa) accepts(s nset) bool {
	for pc := range s {
		if n.prog.Inst[pc].Op == syntax.InstMatch {
			return true
		}
	}
	return false
}

func (n *nfa) step(s nset, ch rune) nset {
	out := nset{}
	for pc := range s {
		in := &n.prog.Inst[pc]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(ch) {
				n.add(out, in.Out, false)
			}
		}
	}
	return out
}

// alive tells that some further text can still be matched or is.
func (n *nfa) dead(s nset) bool {
	for pc := range s {
		switch n.prog.Inst[pc].Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL, syntax.InstMatch:
			return false
		}
	}
	return true
}

func (s nset) key() string {
	var l []int
	for pc := range s {
		l = append(l, int(pc))
	}
	sort.Ints(l)
	var b strings.Builder
	for _, pc := range l {
		b.WriteRune(rune(pc + 1))
	}
	return b.String()
}

// cells are representatives of the characters the expression tells apart.
func (n *nfa) cells() []rune {
	set := map[rune]bool{0: true, 'a': true, '0': true, ' ': true, '\r': true, '\t': true, '"': true, '\\': true, '\n': true, '#': true, 0x7f: true, 0x80: true, 0x2028: true, 0xfffd: true, 0x10ffff: true, 'é': true, '世': true}
	for i := range n.prog.Inst {
		in := &n.prog.Inst[i]
		if in.Op == syntax.InstRune || in.Op == syntax.InstRune1 {
			for _, r := range in.Rune {
				set[r] = true
				if r > 0 {
					set[r-1] = true
				}
				if r < 0x10ffff {
					set[r+1] = true
				}
			}
		}
	}
	var out []rune
	for r := range set {
		if r < 0xd800 || r > 0xdfff {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// matchesAll tells whether the expression (searched for anywhere) is found in every text
// made of the prefix and further characters without a line break, and whether it is found
// in none.
func (n *nfa) matchesAll(prefix string) (all, none bool) {
	restart := func(s nset, first bool) {
		if !n.anchored || first {
			n.add(s, uint32(n.prog.Start), first)
		}
	}
	s := nset{}
	restart(s, true)
	if n.accepts(s) {
		return true, false
	}
	for _, ch := range prefix {
		s = n.step(s, ch)
		restart(s, false)
		if n.accepts(s) {
			return true, false
		}
	}
	seen := map[string]bool{s.key(): true}
	todo := []nset{s}
	for len(todo) > 0 {
		s, todo = todo[0], todo[1:]
		for _, ch := range n.cells() {
			if ch == '\n' {
				continue
			}
			t := n.step(s, ch)
			restart(t, false)
			if n.accepts(t) {
				return false, false
			}
			if k := t.key(); !seen[k] {
				seen[k] = true
				todo = append(todo, t)
			}
		}
	}
	return false, !n.hard
}
