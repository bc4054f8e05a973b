package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded symbolic branch.
type Decision struct {
	Taken bool
	Val   uint64 // the value tried, for concretisations
}

type WorkItem struct {
	prefix []Decision
	model  map[string]uint64
}

type abortKind int

const (
	abortAssume abortKind = iota
	abortUnsupported
	abortBudget
	abortUnknown
	abortViolation
	abortKilled
	abortDone
)

type pathAbort struct {
	kind abortKind
	msg  string
}

// Violation is a candidate counterexample found by the solver.
type Violation struct {
	Msg   string            `json:"msg"`
	Kind  string            `json:"kind"` // assert, panic
	Model map[string]uint64 `json:"-"`
	Vals  map[string]any    `json:"values"`
	Info  []string          `json:"info,omitempty"`
}

type nondetRec struct {
	key  string // replay key
	kind string // u, b, s(tring)
	t    []*Term
	val  Value // for concrete choices
}

type Path struct {
	eng       *Engine
	w         *Worker
	tb        *TermBuilder
	solver    *Solver
	prefix    []Decision
	trace     []Decision
	model     map[string]uint64
	modelTrue bool
	globals   map[*ssa.Global]ptr
	known     map[*Term]bool
	pc        []*Term
	pruned    []prunedRec
	prunedSet map[*Term]bool
	nondet    []nondetRec
	nameCnt   map[string]int
	instrs    int64
	maxInstrs int64
	nextTick  int64
	timedOut  bool
	concrete  bool // no symbolic values allowed (base and once runs)
	branches  int
	concVals  map[*Term]uint64
	dom       map[*Term]*domain
	tangled   map[*Term]bool
	mapSym    bool
	mapSymPkg string
	mapLeft   int // 1 + how many entries may still be taken out of turn; 0: any number
	clock     int64

	gors         []*gor
	cur          *gor
	gorSeq       int
	gorAbort     any
	killed       chan struct{}
	main         *gor
	progress     int64
	schedSym     bool
	preemptLeft  int // preemptions left, plus one; 0: no bound
	preempt      int
	inInit       bool
	observed     []obsRec
	reached      map[string]bool
	violated     []*Violation
	files        *fsModel
	faults       map[string]bool
	wd           string
	env          map[string]string
	args         sliceV // of the command
	programs     map[string]program
	fronts       map[ptr]*frontEnd
	allowPanic   bool
	onceKey      string
	sampleWanted bool
	depth        int
	trackNS      int64
	logw         strings.Builder
	randState    int64
	curFn        *ssa.Function
}

type obsRec struct {
	name string
	val  Value
}

// tick ends a path that runs past the time of its function.
func (p *Path) tick(fr *frame) {
	p.nextTick = p.instrs + 200000
	if p.w == nil {
		return
	}
	if d := p.w.run.deadline; !d.IsZero() && time.Now().After(d.Add(2*time.Second)) && !p.timedOut {
		p.timedOut = true
		p.abort(abortUnknown, "a path was cut when the time of the function was over, in %s", fr.cf.name)
	}
}

func (p *Path) abort(k abortKind, f string, a ...any) {
	panic(&pathAbort{k, fmt.Sprintf(f, a...)})
}

func (p *Path) setModel(m map[string]uint64) {
	p.model = m
	p.tb.gen++
}

func (p *Path) eval(t *Term) uint64 { return p.tb.Eval(t, p.model) }

// branch decides a symbolic condition, forking the exploration when both sides are feasible.
func (p *Path) branch(c *Term) bool { return p.decide(c, 0, true) }

func (p *Path) decide(c *Term, val uint64, wantModelSide bool) bool {
	if c == p.tb.True {
		return true
	}
	if c == p.tb.False {
		return false
	}
	if v, ok := p.known[c]; ok {
		return v
	}
	if c.op == OpNot {
		if v, ok := p.known[c.a]; ok {
			return !v
		}
	}
	if p.concrete {
		panic(unsupported("symbolic branch in a concrete section"))
	}
	if t, f := p.can(c); !f || !t {
		if t {
			p.prune(p.tb.Not(c))
		} else {
			p.prune(c)
		}
		p.known[c] = t
		return t
	}
	p.branches++
	i := len(p.trace)
	if i < len(p.prefix) {
		d := p.prefix[i]
		p.trace = append(p.trace, d)
		p.take(c, d.Taken)
		return d.Taken
	}
	side := p.eval(c) != 0
	// is the other side feasible?
	var other *Term
	if side {
		other = p.tb.Not(c)
	} else {
		other = c
	}
	res, m := p.feasible(other)
	switch res {
	case Sat:
		pre := make([]Decision, i+1)
		copy(pre, p.trace)
		pre[i] = Decision{!side, val}
		p.w.run.push(&WorkItem{prefix: pre, model: m})
	case Unknown:
		p.w.run.note("solver gave no answer on a branch; one side not explored")
		p.w.run.incomplete.Add(1)
	}
	p.trace = append(p.trace, Decision{side, val})
	p.take(c, side)
	return side
}

func (p *Path) take(c *Term, v bool) {
	p.known[c] = v
	if v {
		p.solver.Assert(c)
		p.pc = append(p.pc, c)
		p.restrict(c)
		p.learn(c)
	} else {
		n := p.tb.Not(c)
		p.known[n] = true
		p.solver.Assert(n)
		p.pc = append(p.pc, n)
		p.restrict(n)
		p.learn(n)
	}
}

// learn records consequences of an asserted conjunction.
func (p *Path) learn(c *Term) {
	switch c.op {
	case OpAnd:
		p.known[c.a] = true
		p.known[c.b] = true
		p.learn(c.a)
		p.learn(c.b)
	case OpNot:
		if c.a.op == OpOr {
			for _, x := range []*Term{c.a.a, c.a.b} {
				p.known[x] = false
				n := p.tb.Not(x)
				p.known[n] = true
				p.learn(n)
			}
		}
	}
}

// concretize picks a value for t under the current constraints, forking over the alternatives. Every step is recorded, so
// that a replayed prefix stays aligned.
func (p *Path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if v, ok := p.concVals[t]; ok {
		return v
	}
	if p.concrete {
		panic(unsupported("symbolic value in a concrete section"))
	}
	eqOf := func(v uint64) *Term {
		if t.w == 0 {
			return p.tb.Eq(t, p.tb.Bool(v != 0))
		}
		return p.tb.Eq(t, p.tb.Const(v, t.w))
	}
	for {
		p.branches++
		i := len(p.trace)
		if i < len(p.prefix) {
			d := p.prefix[i]
			p.trace = append(p.trace, d)
			p.take(eqOf(d.Val), d.Taken)
			if d.Taken {
				p.concVals[t] = d.Val
				return d.Val
			}
			continue
		}
		v := p.eval(t)
		eq := eqOf(v)
		if k, ok := p.known[eq]; ok && !k || eq == p.tb.False {
			p.abort(abortUnsupported, "inconsistent model")
		} else if !ok && eq != p.tb.True {
			res, m := p.feasible(p.tb.Not(eq))
			switch res {
			case Sat:
				pre := make([]Decision, i+1)
				copy(pre, p.trace)
				pre[i] = Decision{false, v}
				p.w.run.push(&WorkItem{prefix: pre, model: m})
			case Unknown:
				p.w.run.note("solver gave no answer on a branch; one side not explored")
				p.w.run.incomplete.Add(1)
			}
		}
		p.trace = append(p.trace, Decision{true, v})
		p.take(eq, true)
		p.concVals[t] = v
		return v
	}
}

func (p *Path) assume(c Value) {
	switch c := c.(type) {
	case bool:
		if !c {
			p.abort(abortAssume, "assume")
		}
	case *Term:
		if v, ok := p.known[c]; ok {
			if !v {
				p.abort(abortAssume, "assume")
			}
			return
		}
		if p.eval(c) != 0 {
			p.take(c, true)
			return
		}
		p.take(c, true)
		if len(p.trace) < len(p.prefix) {
			// the item's model satisfies everything up to the end of its prefix
			return
		}
		var res Result
		var m map[string]uint64
		if d := c.sv; d != nil && p.domainOf(d).empty() {
			res = Unsat
			p.pruned = append(p.pruned, prunedRec{len(p.pc), p.tb.True})
			p.w.run.stats.addDomain()
		} else if d != nil && !p.tangled[d] {
			res, m = p.feasible(c)
		} else {
			res, m = p.solver.Check(nil, p.tb.vars)
		}
		switch res {
		case Sat:
			p.setModel(m)
		case Unsat:
			p.abort(abortAssume, "assume")
		default:
			p.abort(abortUnknown, "assume undecided")
		}
	}
}

// assert checks that c holds for every value on this path.
func (p *Path) assert(c Value, msg string) {
	st := p.w.run.stats
	if _, ok := c.(*Term); !ok || len(p.trace) >= len(p.prefix) {
		p.w.run.addAssert()
	}
	switch c := c.(type) {
	case bool:
		if !c {
			p.report("assert", msg)
			return
		}
		// a constant verdict: the path condition carries the symbolic part, if there is one
		p.w.run.addDischarged(p.branches == 0)
	case *Term:
		if v, ok := p.known[c]; ok {
			if !v {
				p.report("assert", msg)
				return
			}
			p.w.run.addDischarged(false)
			return
		}
		if i := len(p.trace); i < len(p.prefix) {
			// Checked on the path this one was forked from; repeat what was assumed there.
			d := p.prefix[i]
			p.trace = append(p.trace, d)
			if d.Taken {
				p.take(c, true)
			}
			return
		}
		res, m := p.solver.Check(p.tb.Not(c), p.tb.vars)
		switch res {
		case Unsat:
			p.w.run.addDischarged(false)
			p.trace = append(p.trace, Decision{Taken: true})
			p.take(c, true)
		case Sat:
			old := p.model
			p.setModel(m)
			p.report("assert", msg)
			// go on with the values that satisfy it, if any
			if r2, m2 := p.solver.Check(c, p.tb.vars); r2 == Sat {
				p.setModel(m2)
				p.trace = append(p.trace, Decision{Taken: true})
				p.take(c, true)
			} else {
				p.setModel(old)
				p.trace = append(p.trace, Decision{Taken: false})
			}
		default:
			p.w.run.note("solver gave no answer on an assertion: " + msg)
			p.w.run.incomplete.Add(1)
			p.trace = append(p.trace, Decision{Taken: false})
		}
	default:
		panic(unsupported("assert on %T", c))
	}
	_ = st
}

// report records a candidate counterexample for the current model.
func (p *Path) report(kind, msg string) {
	v := &Violation{Msg: msg, Kind: kind, Model: p.model, Vals: p.values()}
	p.w.run.candidate(v)
}

// values renders the nondeterministic inputs of this path under the current model.
func (p *Path) values() map[string]any {
	r := map[string]any{}
	for _, n := range p.nondet {
		switch n.kind {
		case "s":
			b := make([]byte, len(n.t))
			for i, t := range n.t {
				b[i] = byte(p.eval(t))
			}
			r[n.key] = string(b)
		case "b":
			r[n.key] = p.eval(n.t[0]) != 0
		case "u":
			r[n.key] = fmt.Sprint(p.eval(n.t[0]))
		case "i":
			r[n.key] = fmt.Sprint(int64(p.eval(n.t[0])))
		case "c":
			r[n.key] = n.val
		}
	}
	return r
}

func (p *Path) freshKey(name string) string {
	k := p.nameCnt[name]
	p.nameCnt[name]++
	return fmt.Sprintf("%s#%d", strings.Map(func(r rune) rune {
		if r == ' ' || r == '(' || r == ')' || r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, name), k)
}

func (p *Path) newVar(key, kind string, w uint8) *Term {
	if p.concrete {
		panic(unsupported("symbolic input in a concrete section"))
	}
	t := p.tb.Var(key, w)
	p.nondet = append(p.nondet, nondetRec{key: key, kind: kind, t: []*Term{t}})
	return t
}

// choose picks one of n alternatives symbolically (a fresh variable per choice).
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	key := p.freshKey(name)
	w := uint8(8)
	if n > 255 {
		w = 16
	}
	t := p.newVar(key, "u", w)
	p.assume(p.tbBool(p.tb.Bin(OpUlt, t, p.tb.Const(uint64(n), w))))
	return int(p.concretize(t))
}

func (p *Path) tbBool(t *Term) Value {
	if t == p.tb.True {
		return true
	}
	if t == p.tb.False {
		return false
	}
	return t
}

func (p *Path) tbInt(t *Term) Value {
	if t.isConst() {
		return t.val
	}
	return t
}

func (p *Path) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return p.tb.Const(x, w)
	case bool:
		return p.tb.Bool(x)
	}
	panic(unsupported("term of %T", v))
}

// isTrue forks on a boolean value.
func (p *Path) isTrue(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.branch(x)
	}
	panic(unsupported("bool %T", v))
}

func (p *Path) concInt(v Value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		return p.concretize(x)
	}
	panic(unsupported("int %T", v))
}

// concStr forks until the string is concrete.
func (p *Path) concStr(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *symStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			b[i] = byte(p.concInt(c))
		}
		return string(b)
	}
	panic(unsupported("string %T", v))
}

func (p *Path) concSlice(v Value) string {
	s := v.(sliceV)
	b := make([]byte, len(s.a))
	for i, c := range s.a {
		b[i] = byte(p.concInt(c))
	}
	return string(b)
}

// evalStr renders a string under the current model.
func (p *Path) evalStr(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *symStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			if t, ok := c.(*Term); ok {
				b[i] = byte(p.eval(t))
			} else {
				b[i] = byte(c.(uint64))
			}
		}
		return string(b)
	}
	return fmt.Sprint(v)
}

// strEq builds the equality of two strings.
func (p *Path) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	acc := p.tb.True
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		e := p.simp(p.tb.Eq(p.term(x, 8), p.term(y, 8)))
		if e == p.tb.False {
			return false
		}
		acc = p.tb.And(acc, e)
	}
	return p.tbBool(acc)
}

// strLess builds a < b (lexicographic).
func (p *Path) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := strLen(a), strLen(b)
	n := min(na, nb)
	acc := p.tb.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := p.term(strAt(a, i), 8), p.term(strAt(b, i), 8)
		acc = p.tb.Or(p.simp(p.tb.Bin(OpUlt, x, y)), p.tb.And(p.simp(p.tb.Eq(x, y)), acc))
	}
	return p.tbBool(acc)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
