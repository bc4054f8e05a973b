package main

import (
	"regexp"
	"regexp/syntax"
	"sync"
)

// rxHost is a compiled expression of the standard regexp package. Concrete subjects go to the host library, subjects
// with symbolic bytes to the matchers below, which run the same compiled program.
type rxHost struct {
	re    *regexp.Regexp
	src   string
	once  sync.Once
	prog  *syntax.Prog
	conds sync.Map
}

func (r *rxHost) program() *syntax.Prog {
	r.once.Do(func() {
		re, err := syntax.Parse(r.src, syntax.Perl)
		if err != nil {
			panic(unsupported("regexp %q: %v", r.src, err))
		}
		p, err := syntax.Compile(re.Simplify())
		if err != nil {
			panic(unsupported("regexp %q: %v", r.src, err))
		}
		r.prog = p
	})
	return r.prog
}

// runeRuns returns the ASCII runs accepted by an instruction.
func runeRuns(in *syntax.Inst) [][2]byte {
	var runs [][2]byte
	for c := 0; c < 128; c++ {
		ok := false
		switch in.Op {
		case syntax.InstRuneAny:
			ok = true
		case syntax.InstRuneAnyNotNL:
			ok = c != '\n'
		case syntax.InstRune, syntax.InstRune1:
			ok = in.MatchRune(rune(c))
		}
		if !ok {
			continue
		}
		if n := len(runs); n > 0 && int(runs[n-1][1]) == c-1 {
			runs[n-1][1] = byte(c)
		} else {
			runs = append(runs, [2]byte{byte(c), byte(c)})
		}
	}
	return runs
}

func (p *Path) inRuns(v Value, runs [][2]byte) *Term {
	tb := p.tb
	t := p.term(v, 8)
	acc := tb.False
	for _, r := range runs {
		var c *Term
		switch {
		case r[0] == r[1]:
			c = tb.Eq(t, tb.Const(uint64(r[0]), 8))
		default:
			c = tb.True
			if r[0] > 0 {
				c = tb.Bin(OpUle, tb.Const(uint64(r[0]), 8), t)
			}
			c = tb.And(c, tb.Bin(OpUle, t, tb.Const(uint64(r[1]), 8)))
		}
		acc = tb.Or(acc, c)
	}
	if p.concrete {
		return acc
	}
	return p.simp(acc)
}

// asciiOnly forks so that every symbolic byte of b is known to be ASCII; otherwise the text is concretised.
func (p *Path) asciiOnly(b []Value) ([]Value, bool) {
	acc := p.tb.True
	for _, c := range b {
		switch t := c.(type) {
		case *Term:
			acc = p.tb.And(acc, p.tb.Bin(OpUlt, t, p.tb.Const(0x80, 8)))
		case uint64:
			if t >= 0x80 {
				return nil, false
			}
		}
	}
	if acc == p.tb.True {
		return b, true
	}
	return b, p.branch(acc)
}

var wordRuns = [][2]byte{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}

// emptyCond is the condition under which the empty-width assertion holds at position i.
func (p *Path) emptyCond(op syntax.EmptyOp, b []Value, i int) *Term {
	tb := p.tb
	acc := tb.True
	n := len(b)
	isNL := func(v Value) *Term { return tb.Eq(p.term(v, 8), tb.Const('\n', 8)) }
	if op&syntax.EmptyBeginText != 0 {
		acc = tb.And(acc, tb.Bool(i == 0))
	}
	if op&syntax.EmptyEndText != 0 {
		acc = tb.And(acc, tb.Bool(i == n))
	}
	if op&syntax.EmptyBeginLine != 0 && i > 0 {
		acc = tb.And(acc, isNL(b[i-1]))
	}
	if op&syntax.EmptyEndLine != 0 && i < n {
		acc = tb.And(acc, isNL(b[i]))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		w1, w2 := tb.False, tb.False
		if i > 0 {
			w1 = p.inRuns(b[i-1], wordRuns)
		}
		if i < n {
			w2 = p.inRuns(b[i], wordRuns)
		}
		diff := tb.Not(tb.Eq(w1, w2))
		if op&syntax.EmptyWordBoundary != 0 {
			acc = tb.And(acc, diff)
		}
		if op&syntax.EmptyNoWordBoundary != 0 {
			acc = tb.And(acc, tb.Not(diff))
		}
	}
	return acc
}

// rxMatchTerm builds "some substring of b matches" as one formula, by simulating the automaton.
func (p *Path) rxMatchTerm(r *rxHost, b []Value) *Term {
	prog := r.program()
	tb := p.tb
	n := len(b)
	match := tb.False
	cur := make([]*Term, len(prog.Inst))
	next := make([]*Term, len(prog.Inst))
	onPath := make([]bool, len(prog.Inst))
	var add func(set []*Term, pc uint32, c *Term, i int)
	add = func(set []*Term, pc uint32, c *Term, i int) {
		if c == tb.False || onPath[pc] {
			return
		}
		p.instrs++
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return
		case syntax.InstMatch:
			match = tb.Or(match, c)
			return
		}
		if set[pc] != nil {
			nc := tb.Or(set[pc], c)
			if nc == set[pc] {
				return
			}
			set[pc] = nc
		} else {
			set[pc] = c
		}
		onPath[pc] = true
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, c, i)
			add(set, in.Arg, c, i)
		case syntax.InstNop, syntax.InstCapture:
			add(set, in.Out, c, i)
		case syntax.InstEmptyWidth:
			add(set, in.Out, tb.And(c, p.emptyCond(syntax.EmptyOp(in.Arg), b, i)), i)
		}
		onPath[pc] = false
	}
	for i := 0; i <= n; i++ {
		add(cur, uint32(prog.Start), tb.True, i)
		if match == tb.True || i == n {
			break
		}
		for pc := range cur {
			c := cur[pc]
			if c == nil {
				continue
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				add(next, in.Out, tb.And(c, p.inRuns(b[i], runeRuns(in))), i+1)
			}
		}
		cur, next = next, cur
		for k := range next {
			next[k] = nil
		}
	}
	return match
}

func (p *Path) rxMatch(r *rxHost, s Value) Value {
	if h, ok := s.(string); ok {
		return r.re.MatchString(h)
	}
	b, ok := p.asciiOnly(strBytes(s))
	if !ok {
		return r.re.MatchString(p.concStr(s))
	}
	return p.tbBool(p.rxMatchTerm(r, b))
}

// rxExec finds the leftmost-first match at or after pos, forking on symbolic bytes.
func (p *Path) rxExec(r *rxHost, b []Value, pos int) []int {
	prog := r.program()
	n := len(b)
	ncap := prog.NumCap
	visited := map[int]bool{}
	var caps []int
	var try func(pc uint32, i int) bool
	try = func(pc uint32, i int) bool {
		for {
			p.instrs++
			key := int(pc)*(n+1) + i
			if visited[key] {
				return false
			}
			visited[key] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
				return false
			case syntax.InstMatch:
				caps[1] = i
				return true
			case syntax.InstAlt, syntax.InstAltMatch:
				if try(in.Out, i) {
					return true
				}
				pc = in.Arg
			case syntax.InstNop:
				pc = in.Out
			case syntax.InstCapture:
				if int(in.Arg) < len(caps) {
					old := caps[in.Arg]
					caps[in.Arg] = i
					if try(in.Out, i) {
						return true
					}
					caps[in.Arg] = old
					return false
				}
				pc = in.Out
			case syntax.InstEmptyWidth:
				if !p.isTrue(p.tbBool(p.emptyCond(syntax.EmptyOp(in.Arg), b, i))) {
					return false
				}
				pc = in.Out
			default:
				if i >= n {
					return false
				}
				if !p.isTrue(p.tbBool(p.inRuns(b[i], runeRuns(in)))) {
					return false
				}
				i++
				pc = in.Out
			}
		}
	}
	for st := pos; st <= n; st++ {
		caps = make([]int, max(ncap, 2))
		for k := range caps {
			caps[k] = -1
		}
		caps[0] = st
		if try(uint32(prog.Start), st) {
			caps[0] = st
			return caps
		}
	}
	return nil
}

func (p *Path) rxAll(r *rxHost, b []Value, n int) [][]int {
	end := len(b)
	if n < 0 {
		n = end + 1
	}
	var res [][]int
	for pos, i, prev := 0, 0, -1; i < n && pos <= end; {
		m := p.rxExec(r, b, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			pos++
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			res = append(res, m)
			i++
		}
	}
	return res
}

func intsV(m []int) Value {
	if m == nil {
		return sliceV{}
	}
	a := make([]Value, len(m))
	for i, x := range m {
		a[i] = uint64(int64(x))
	}
	return sliceV{a}
}

// rxExpand follows Regexp.Expand for the template over src with the given match.
func (p *Path) rxExpand(r *rxHost, dst Value, template string, src []Value, m []int) Value {
	// the host expands against marker text, then the markers are replaced by the captured cells
	names := r.re.SubexpNames()
	acc := &strAcc{}
	acc.val(dst)
	for len(template) > 0 {
		before, after, ok := cut(template, '$')
		if !ok {
			break
		}
		acc.str(before)
		template = after
		if template != "" && template[0] == '$' {
			acc.str("$")
			template = template[1:]
			continue
		}
		name, num, rest, ok := rxExtract(template)
		if !ok {
			acc.str("$")
			continue
		}
		template = rest
		put := func(i int) {
			if 2*i+1 < len(m) && m[2*i] >= 0 {
				acc.val(mkStr(src[m[2*i]:m[2*i+1]]))
			}
		}
		if num >= 0 {
			put(num)
		} else {
			for i, ni := range names {
				if name == ni && 2*i+1 < len(m) && m[2*i] >= 0 {
					put(i)
					break
				}
			}
		}
	}
	acc.str(template)
	return acc.value()
}

func cut(s string, c byte) (string, string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return s[:i], s[i+1:], true
		}
	}
	return s, "", false
}

// rxExtract parses the variable reference at the start of str (the leading $ already removed).
func rxExtract(str string) (name string, num int, rest string, ok bool) {
	if str == "" {
		return
	}
	brace := false
	if str[0] == '{' {
		brace = true
		str = str[1:]
	}
	i := 0
	for i < len(str) {
		c := str[i]
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			break
		}
		i++
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for j := 0; j < len(name); j++ {
		if name[j] < '0' || '9' < name[j] || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[j]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}

func (p *Path) rxReplaceAll(r *rxHost, src []Value, repl string) Value {
	acc := &strAcc{}
	last, pos := 0, 0
	for pos <= len(src) {
		a := p.rxExec(r, src, pos)
		if a == nil {
			break
		}
		acc.val(mkStr(src[last:a[0]]))
		if a[1] > last || a[0] == 0 {
			acc.val(p.rxExpand(r, "", repl, src, a))
		}
		last = a[1]
		width := 0
		if pos < len(src) {
			width = 1
		}
		switch {
		case pos+width > a[1]:
			pos += width
		case pos+1 > a[1]:
			pos++
		default:
			pos = a[1]
		}
	}
	acc.val(mkStr(src[last:]))
	return acc.value()
}
