package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Runs of conditions that lead to one place ("a || b || c", "case 'x', 'y':", "a && b" as a value) are decided as one
// condition: forking on every member would explore one path per member, all doing the same afterwards.

type foldLink struct {
	cond  opnd
	exitT bool // the true side of cond leaves for the target
}

type foldPlan struct {
	blocks []*cblock // the ones after the first, in order
	links  []foldLink
	target int
	last   int // block index of the last folded block
	next   int // where control goes when no exit is taken; -1 when the last block jumps to the target too
	pure   bool
	// per phi of the target, when the last block jumps there
	phis []foldPhi
}

type foldPhi struct {
	dst  int
	vals []opnd // one per link, then the one of the last block
	cond bool
}

func (c *compiler) pureInstr(in ssa.Instruction) (ok, total bool) {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true, true
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false, false
		}
		b, isB := in.X.Type().Underlying().(*types.Basic)
		if !isB {
			return false, false
		}
		return b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0, true
	case *ssa.UnOp:
		switch in.Op {
		case token.SUB, token.NOT, token.XOR:
			return true, true
		case token.MUL:
			return true, false
		}
	case *ssa.Convert:
		f, ok1 := in.X.Type().Underlying().(*types.Basic)
		t, ok2 := in.Type().Underlying().(*types.Basic)
		return ok1 && ok2 && f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0, true
	case *ssa.ChangeType:
		return true, true
	case *ssa.FieldAddr, *ssa.Field:
		return true, false
	case *ssa.IndexAddr:
		_, k := in.Index.(*ssa.Const)
		return k, false
	case *ssa.Index:
		_, k := in.Index.(*ssa.Const)
		return k, false
	}
	return false, false
}

// foldable tells whether b can be evaluated ahead of the decision that leads to it.
func (c *compiler) foldable(b *ssa.BasicBlock) (ok, total bool) {
	if len(b.Preds) != 1 {
		return false, false
	}
	total = true
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, isPhi := in.(*ssa.Phi); isPhi {
			return false, false
		}
		o, t := c.pureInstr(in)
		if !o {
			return false, false
		}
		total = total && t
	}
	return true, total
}

func (c *compiler) sameEdges(t *ssa.BasicBlock, p, q *ssa.BasicBlock) bool {
	pi, qi := predIndex(t, p), predIndex(t, q)
	if pi < 0 || qi < 0 {
		return false
	}
	for _, in := range t.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !sameValue(ph.Edges[pi], ph.Edges[qi]) {
			return false
		}
	}
	return true
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && types.Identical(x.Type(), y.Type()) && x.String() == y.String()
}

func predIndex(t, p *ssa.BasicBlock) int {
	k := -1
	for i, x := range t.Preds {
		if x == p {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

// plan looks for a run of conditions starting at b. Each choice of target is tried.
func (c *compiler) plan(b *ssa.BasicBlock) *foldPlan {
	for side := 0; side < 2; side++ {
		if pl := c.planFor(b, side); pl != nil {
			return pl
		}
	}
	return nil
}

func (c *compiler) planFor(b *ssa.BasicBlock, side int) *foldPlan {
	t := b.Succs[side]
	if b.Succs[0] == b.Succs[1] || predIndex(t, b) < 0 {
		return nil
	}
	iff := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	pl := &foldPlan{target: t.Index, pure: true, last: b.Index}
	chain := []*ssa.BasicBlock{b}
	pl.links = append(pl.links, foldLink{c.op(iff.Cond), side == 0})
	cur := b.Succs[1-side]
	pl.next = cur.Index
	for len(chain) < 200 {
		if cur == t {
			break
		}
		ok, total := c.foldable(cur)
		if !ok {
			break
		}
		switch last := cur.Instrs[len(cur.Instrs)-1].(type) {
		case *ssa.If:
			s := -1
			for k := 0; k < 2; k++ {
				if cur.Succs[k] == t {
					s = k
				}
			}
			if s < 0 || cur.Succs[1-s] == t || !c.sameEdges(t, b, cur) {
				break
			}
			pl.pure = pl.pure && total
			pl.links = append(pl.links, foldLink{c.op(last.Cond), s == 0})
			pl.blocks = append(pl.blocks, &cblock{index: cur.Index})
			pl.last = cur.Index
			chain = append(chain, cur)
			cur = cur.Succs[1-s]
			pl.next = cur.Index
			continue
		case *ssa.Jump:
			if cur.Succs[0] != t {
				break
			}
			li := predIndex(t, cur)
			if li < 0 {
				break
			}
			var phis []foldPhi
			good, any := true, false
			for _, in := range t.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				bt, isB := ph.Type().Underlying().(*types.Basic)
				fp := foldPhi{dst: c.reg[ph], cond: isB && bt.Info()&types.IsBoolean != 0}
				same := true
				for _, x := range chain {
					e := ph.Edges[predIndex(t, x)]
					fp.vals = append(fp.vals, c.op(e))
					if !sameValue(e, ph.Edges[li]) {
						same = false
					}
				}
				fp.vals = append(fp.vals, c.op(ph.Edges[li]))
				if !fp.cond && !same {
					good = false
					break
				}
				any = true
				phis = append(phis, fp)
			}
			if !good || !any {
				break
			}
			pl.pure = pl.pure && total
			pl.blocks = append(pl.blocks, &cblock{index: cur.Index})
			pl.last = cur.Index
			pl.next = -1
			pl.phis = phis
			return pl
		}
		break
	}
	if len(pl.links) < 2 {
		return nil
	}
	return pl
}

// foldRun decides the whole run for a symbolic first condition. ok is false when a step could not be evaluated ahead.
func (fr *frame) foldRun(pl *foldPlan, first *Term) (next int, ok bool) {
	p := fr.p
	if !pl.pure {
		defer func() {
			if r := recover(); r != nil {
				if _, isT := r.(targetPanic); !isT {
					panic(r)
				}
				next, ok = 0, false
			}
		}()
	}
	var sv *Term
	exits := make([]*Term, 0, len(pl.links))
	for i, l := range pl.links {
		if i > 0 {
			for _, in := range fr.cf.blocks[pl.blocks[i-1].index].ins {
				in(fr)
			}
		}
		var c *Term
		switch v := l.cond.get(fr).(type) {
		case bool:
			c = p.tb.Bool(v)
		case *Term:
			c = v
		default:
			return 0, false
		}
		if !l.exitT {
			c = p.tb.Not(c)
		}
		if c = p.simp(c); c.op != OpConst {
			// conditions over one byte stay within what the value domains decide
			if c.sv == nil || (sv != nil && c.sv != sv) {
				return 0, false
			}
			sv = c.sv
		}
		exits = append(exits, c)
	}
	if pl.next == -1 {
		for _, in := range fr.cf.blocks[pl.last].ins {
			in(fr)
		}
		out := make([]Value, len(pl.phis))
		for k, ph := range pl.phis {
			n := len(ph.vals) - 1
			v := ph.vals[n].get(fr)
			if ph.cond {
				acc := p.term(v, 0)
				for i := n - 1; i >= 0; i-- {
					acc = p.tb.Ite(exits[i], p.term(ph.vals[i].get(fr), 0), acc)
				}
				if acc.op != OpConst && acc.sv != sv {
					return 0, false
				}
				v = p.tbBool(p.simp(acc))
			}
			out[k] = v
		}
		for k, ph := range pl.phis {
			fr.regs[ph.dst] = out[k]
		}
		fr.edge = -1
		return pl.target, true
	}
	acc := p.tb.False
	for _, e := range exits {
		acc = p.tb.Or(acc, e)
	}
	if p.decide(acc, 0, true) {
		return pl.target, true
	}
	fr.edge = pl.last + 1
	return pl.next, true
}
