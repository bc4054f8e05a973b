package main

import (
	"fmt"
	"math/bits"
	"os"
)

// Most branch conditions compare one input byte with constants. The values each such variable can still take are kept
// exactly for constraints that mention no other variable, so that these branches need no solver call: a condition false for
// all the values left is infeasible, and one true for some is feasible when no constraint ties the variable to another.
type domain [4]uint64

func fullDomain(w uint8) *domain {
	d := &domain{}
	n := 2
	if w > 0 {
		n = 1 << w
	}
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}

// prunedRec is an alternative left out because the domains say it cannot hold after the first at conditions of the path.
type prunedRec struct {
	at int
	c  *Term
}

// prune notes that c cannot hold here. The solver confirms it at the end of the path.
func (p *Path) prune(c *Term) {
	if c.op == OpConst || len(p.trace) < len(p.prefix) || p.prunedSet[c] {
		return // noted by the path this one was forked from
	}
	p.w.run.stats.addDomain()
	p.prunedSet[c] = true
	p.pruned = append(p.pruned, prunedRec{len(p.pc), c})
}

// confirm asks the solver whether any alternative left out on this path is possible after all: one query over all of them.
func (p *Path) confirm() {
	if len(p.pruned) == 0 {
		return
	}
	cum, bad := p.tb.True, p.tb.False
	n := 0
	for _, r := range p.pruned {
		for ; n < r.at; n++ {
			cum = p.tb.And(cum, p.pc[n])
		}
		bad = p.tb.Or(bad, p.tb.And(cum, r.c))
	}
	s := p.solver
	s.Reset()
	s.Assert(bad)
	switch res, _ := s.Check(nil, nil); res {
	case Unsat:
		p.w.run.stats.addConfirmed(int64(len(p.pruned)))
	case Sat:
		p.w.run.note("engine error: the solver finds a value for an alternative the byte domains left out")
		p.w.run.incomplete.Add(1)
	default:
		p.w.run.note("solver gave no answer on the alternatives left out")
		p.w.run.incomplete.Add(1)
	}
	p.pruned = nil
}

func (p *Path) domainOf(v *Term) *domain {
	d := p.dom[v]
	if d == nil {
		d = fullDomain(v.w)
		p.dom[v] = d
	}
	return d
}

// split gives the values of the variable for which c holds and fails.
func (p *Path) split(c *Term) (yes, no domain) {
	d := p.domainOf(c.sv)
	for w, word := range d {
		for word != 0 {
			b := bits.TrailingZeros64(word)
			word &= word - 1
			if p.tb.evalSingle(c, uint64(w*64+b)) != 0 {
				yes[w] |= 1 << b
			} else {
				no[w] |= 1 << b
			}
		}
	}
	return
}

func (d *domain) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }

func (d *domain) any() uint64 {
	for w, word := range d {
		if word != 0 {
			return uint64(w*64 + bits.TrailingZeros64(word))
		}
	}
	return 0
}

// restrict records that c holds.
func (p *Path) restrict(c *Term) {
	if c.sv != nil {
		yes, _ := p.split(c)
		*p.domainOf(c.sv) = yes
		return
	}
	switch {
	case c.op == OpAnd:
		p.restrict(c.a)
		p.restrict(c.b)
		return
	case c.op == OpNot && c.a.op == OpOr:
		p.restrict(p.tb.Not(c.a.a))
		p.restrict(p.tb.Not(c.a.b))
		return
	}
	p.tangle(c)
}

// tangle marks the variables of a constraint over several of them.
func (p *Path) tangle(c *Term) {
	if c == nil || c.tgSeen {
		return
	}
	c.tgSeen = true
	if c.op == OpVar {
		p.tangled[c] = true
		return
	}
	p.tangle(c.a)
	p.tangle(c.b)
	p.tangle(c.c)
}

// can tells whether c may be true and may be false, as far as the values left tell.
func (p *Path) can(c *Term) (t, f bool) {
	if v, ok := p.known[c]; ok {
		return v, !v
	}
	switch {
	case c.op == OpConst:
		return c.val != 0, c.val == 0
	case c.sv != nil:
		yes, no := p.split(c)
		return !yes.empty(), !no.empty()
	case c.op == OpNot:
		t, f = p.can(c.a)
		return f, t
	case c.op == OpAnd || c.op == OpOr:
		at, af := p.can(c.a)
		bt, bf := p.can(c.b)
		if c.op == OpAnd {
			return at && bt, af || bf
		}
		return at || bt, af && bf
	}
	return true, true
}

// simp replaces a condition by its value where the values left decide it.
func (p *Path) simp(c *Term) *Term {
	if c.op == OpConst {
		return c
	}
	if t, f := p.can(c); !t || !f {
		if t {
			p.prune(p.tb.Not(c))
		} else {
			p.prune(c)
		}
		return p.tb.Bool(t)
	}
	return c
}

// feasible decides whether c can hold here, with values that make it so.
func (p *Path) feasible(c *Term) (Result, map[string]uint64) {
	if c.sv != nil {
		yes, _ := p.split(c)
		if yes.empty() {
			p.prune(c)
			return Unsat, nil
		}
		if !p.tangled[c.sv] {
			p.w.run.stats.addDomain()
			m := make(map[string]uint64, len(p.model)+1)
			for k, v := range p.model {
				m[k] = v
			}
			m[c.sv.name] = yes.any()
			return Sat, m
		}
	}
	if t, _ := p.can(c); !t {
		p.prune(c)
		return Unsat, nil
	}
	if debugQueries {
		fmt.Fprintf(os.Stderr, "QUERY %s %s\n", p.curFn, trunc(c.str(), 300))
	}
	return p.solver.Check(c, p.tb.vars)
}

var debugQueries = os.Getenv("VERIF_QUERIES") != ""

func (t *Term) str() string {
	switch t.op {
	case OpConst:
		return fmt.Sprint(t.val)
	case OpVar:
		return t.name
	}
	if t.size > 60 {
		return fmt.Sprintf("(%s ...%d)", opNames[t.op], t.size)
	}
	r := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + x.str()
		}
	}
	return r + ")"
}
