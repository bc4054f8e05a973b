package main

import (
	"fmt"
	"strings"
)

// Term is a hash-consed bit-vector or boolean term. Width 0 means Bool.
type Op uint8

const (
	OpVar Op = iota
	OpConst
	OpNot // bool
	OpAnd // bool n-ary (2)
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpZext
	OpSext
	OpTrunc
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle",
}

type Term struct {
	op      Op
	w       uint8 // 0 = bool
	val     uint64
	name    string
	a, b, c *Term
	id      int
	// memo for evaluation under the current model
	evGen int
	evVal uint64
	// solver definition generation
	defGen int
	size   int
	// the one variable of at most 8 bits it depends on, if that is all
	sv     *Term
	multi  bool
	sgGen  int
	sgVal  uint64
	tgSeen bool
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	name    string
	a, b, c *Term
}

type TermBuilder struct {
	tab    map[termKey]*Term
	nextID int
	vars   []*Term
	True   *Term
	False  *Term
	gen    int
	sgGen  int
}

func NewTermBuilder() *TermBuilder {
	tb := &TermBuilder{tab: map[termKey]*Term{}, gen: 1}
	tb.True = tb.mk(OpConst, 0, 1, "", nil, nil, nil)
	tb.False = tb.mk(OpConst, 0, 0, "", nil, nil, nil)
	return tb
}

func (tb *TermBuilder) mk(op Op, w uint8, val uint64, name string, a, b, c *Term) *Term {
	k := termKey{op, w, val, name, a, b, c}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.nextID++
	t := &Term{op: op, w: w, val: val, name: name, a: a, b: b, c: c, id: tb.nextID, size: 1}
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
			switch {
			case x.multi || t.multi:
				t.multi = true
			case t.sv == nil:
				t.sv = x.sv
			case x.sv != nil && x.sv != t.sv:
				t.multi = true
			}
		}
	}
	if op == OpVar {
		if w <= 8 {
			t.sv = t
		} else {
			t.multi = true
		}
	}
	if t.multi {
		t.sv = nil
	}
	tb.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tb *TermBuilder) Var(name string, w uint8) *Term {
	n := len(tb.tab)
	t := tb.mk(OpVar, w, 0, name, nil, nil, nil)
	if len(tb.tab) != n {
		tb.vars = append(tb.vars, t)
	}
	return t
}

func (tb *TermBuilder) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return tb.Bool(v != 0)
	}
	return tb.mk(OpConst, w, v&mask(w), "", nil, nil, nil)
}

func (tb *TermBuilder) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (tb *TermBuilder) Not(a *Term) *Term {
	if a == tb.True {
		return tb.False
	}
	if a == tb.False {
		return tb.True
	}
	if a.op == OpNot {
		return a.a
	}
	return tb.mk(OpNot, 0, 0, "", a, nil, nil)
}

func (tb *TermBuilder) And(a, b *Term) *Term {
	if a == tb.False || b == tb.False {
		return tb.False
	}
	if a == tb.True {
		return b
	}
	if b == tb.True || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tb.False
	}
	return tb.mk(OpAnd, 0, 0, "", a, b, nil)
}

func (tb *TermBuilder) Or(a, b *Term) *Term {
	if a == tb.True || b == tb.True {
		return tb.True
	}
	if a == tb.False {
		return b
	}
	if b == tb.False || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tb.True
	}
	return tb.mk(OpOr, 0, 0, "", a, b, nil)
}

func (tb *TermBuilder) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == tb.True {
			return a
		}
		if b == tb.False {
			return tb.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OpZext:
			if b.val > mask(a.a.w) {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(b.val, a.a.w))
		case OpSext:
			lo := b.val & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.val {
				return tb.False
			}
			return tb.Eq(a.a, tb.Const(lo, a.a.w))
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				x, y := tb.Eq(a.b, b), tb.Eq(a.c, b)
				return tb.IteBool(a.a, x, y)
			}
		case OpAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(b.val-a.b.val, a.w))
			}
		case OpSub:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.Const(b.val+a.b.val, a.w))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpEq, 0, 0, "", a, b, nil)
}

func (tb *TermBuilder) IteBool(c, x, y *Term) *Term {
	switch {
	case x == tb.True:
		return tb.Or(c, y)
	case x == tb.False:
		return tb.And(tb.Not(c), y)
	case y == tb.True:
		return tb.Or(tb.Not(c), x)
	case y == tb.False:
		return tb.And(c, x)
	}
	return tb.Or(tb.And(c, x), tb.And(tb.Not(c), y))
}

func (tb *TermBuilder) Ite(c, x, y *Term) *Term {
	if c == tb.True || x == y {
		return x
	}
	if c == tb.False {
		return y
	}
	if x.w == 0 {
		return tb.IteBool(c, x, y)
	}
	if c.op == OpNot {
		return tb.Ite(c.a, y, x)
	}
	return tb.mk(OpIte, x.w, 0, "", c, x, y)
}

// evalOp computes the concrete result of op on concrete values.
func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	switch op {
	case OpNot:
		return a ^ 1
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpEq:
		if a == b {
			return 1
		}
		return 0
	case OpIte:
		if a != 0 {
			return b
		}
		return c
	case OpAdd:
		return (a + b) & mask(w)
	case OpSub:
		return (a - b) & mask(w)
	case OpMul:
		return (a * b) & mask(w)
	case OpUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OpSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpBNot:
		return ^a & mask(w)
	case OpNeg:
		return -a & mask(w)
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & mask(w)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OpSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OpZext:
		return a
	case OpSext:
		return uint64(sext(a, aw)) & mask(w)
	case OpTrunc:
		return a & mask(w)
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a binary bit-vector operation (result width w for arithmetic, Bool for comparisons).
func (tb *TermBuilder) Bin(op Op, a, b *Term) *Term {
	w := a.w
	switch op {
	case OpUlt, OpUle, OpSlt, OpSle:
		w = 0
	}
	if a.isConst() && b.isConst() {
		return tb.Const(evalOp(op, w, a.w, a.val, b.val, 0), w)
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return tb.Bin(OpAdd, a.a, tb.Const(a.b.val+b.val, w))
			}
		}
	case OpSub:
		if a == b {
			return tb.Const(0, w)
		}
		if b.isConst() {
			return tb.Bin(OpAdd, a, tb.Const(-b.val, w))
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OpZext && b.val&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpUlt:
		if a == b {
			return tb.False
		}
		if b.isConst() {
			if b.val == 0 {
				return tb.False
			}
			if a.op == OpZext {
				if b.val > mask(a.a.w) {
					return tb.True
				}
				return tb.Bin(OpUlt, a.a, tb.Const(b.val, a.a.w))
			}
		}
		if a.isConst() {
			if a.val == mask(a.w) {
				return tb.False
			}
			if b.op == OpZext {
				if a.val >= mask(b.a.w) {
					return tb.False
				}
				return tb.Bin(OpUlt, tb.Const(a.val, b.a.w), b.a)
			}
		}
	case OpUle:
		return tb.Not(tb.Bin(OpUlt, b, a))
	case OpSlt:
		if a == b {
			return tb.False
		}
		// zero-extended operands are non-negative
		if a.op == OpZext && a.a.w < a.w && b.isConst() {
			if sext(b.val, b.w) <= 0 {
				return tb.False
			}
			return tb.Bin(OpUlt, a, b)
		}
		if b.op == OpZext && b.a.w < b.w && a.isConst() {
			if sext(a.val, a.w) < 0 {
				return tb.True
			}
			return tb.Bin(OpUlt, a, b)
		}
		if a.op == OpZext && b.op == OpZext && a.a.w < a.w && b.a.w < b.w {
			return tb.Bin(OpUlt, a, b)
		}
	case OpSle:
		return tb.Not(tb.Bin(OpSlt, b, a))
	}
	return tb.mk(op, w, 0, "", a, b, nil)
}

func (tb *TermBuilder) Un(op Op, a *Term) *Term {
	if a.isConst() {
		return tb.Const(evalOp(op, a.w, a.w, a.val, 0, 0), a.w)
	}
	return tb.mk(op, a.w, 0, "", a, nil, nil)
}

// Resize converts a to width w, sign- or zero-extending according to signed.
func (tb *TermBuilder) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		v := a.val
		if w > a.w && signed {
			v = uint64(sext(v, a.w))
		}
		return tb.Const(v, w)
	}
	if w < a.w {
		if (a.op == OpZext || a.op == OpSext) && a.a.w >= w {
			return tb.Resize(a.a, w, false)
		}
		if a.op == OpZext && a.a.w < w {
			return tb.Resize(a.a, w, false)
		}
		if a.op == OpSext && a.a.w < w {
			return tb.Resize(a.a, w, true)
		}
		return tb.mk(OpTrunc, w, 0, "", a, nil, nil)
	}
	if signed {
		if a.op == OpZext && a.a.w < a.w {
			return tb.Resize(a.a, w, false)
		}
		return tb.mk(OpSext, w, 0, "", a, nil, nil)
	}
	if a.op == OpZext {
		return tb.Resize(a.a, w, false)
	}
	if a.op == OpIte && a.b.isConst() && a.c.isConst() {
		return tb.Ite(a.a, tb.Const(a.b.val, w), tb.Const(a.c.val, w))
	}
	return tb.mk(OpZext, w, 0, "", a, nil, nil)
}

// Eval evaluates t under model m (variable name to value), memoised per generation.
func (tb *TermBuilder) Eval(t *Term, m map[string]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == tb.gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = m[t.name] & maskB(t.w)
	case OpIte:
		if tb.Eval(t.a, m) != 0 {
			r = tb.Eval(t.b, m)
		} else {
			r = tb.Eval(t.c, m)
		}
	default:
		var a, b uint64
		var aw uint8
		if t.a != nil {
			a = tb.Eval(t.a, m)
			aw = t.a.w
		}
		if t.b != nil {
			b = tb.Eval(t.b, m)
		}
		r = evalOp(t.op, t.w, aw, a, b, 0)
	}
	t.evGen = tb.gen
	t.evVal = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes the definitions t needs (not yet emitted in generation gen) to sb.
func (t *Term) emit(sb *strings.Builder, gen int) {
	if t.defGen == gen || t.op == OpConst {
		return
	}
	t.defGen = gen
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, sortStr(t.w))
		return
	}
	if t.a != nil {
		t.a.emit(sb, gen)
	}
	if t.b != nil {
		t.b.emit(sb, gen)
	}
	if t.c != nil {
		t.c.emit(sb, gen)
	}
	var body string
	switch t.op {
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	default:
		body = "(" + opNames[t.op] + " " + t.a.ref()
		if t.b != nil {
			body += " " + t.b.ref()
		}
		if t.c != nil {
			body += " " + t.c.ref()
		}
		body += ")"
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), body)
}

func (t *Term) String() string {
	switch t.op {
	case OpConst, OpVar:
		return t.ref()
	}
	s := "(" + fmt.Sprint(opNames[t.op])
	if t.op >= OpZext {
		s = fmt.Sprintf("(cast%d", t.w)
	}
	if t.size > 200 {
		return s + " ...)"
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}

// evalSingle evaluates a term that depends on at most one variable, for one value of it.
func (tb *TermBuilder) evalSingle(t *Term, v uint64) uint64 {
	tb.sgGen++
	return tb.evalSg(t, v)
}

func (tb *TermBuilder) evalSg(t *Term, v uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return v & maskB(t.w)
	}
	if t.sgGen == tb.sgGen {
		return t.sgVal
	}
	var r uint64
	if t.op == OpIte {
		if tb.evalSg(t.a, v) != 0 {
			r = tb.evalSg(t.b, v)
		} else {
			r = tb.evalSg(t.c, v)
		}
	} else {
		var a, b uint64
		var aw uint8
		if t.a != nil {
			a = tb.evalSg(t.a, v)
			aw = t.a.w
		}
		if t.b != nil {
			b = tb.evalSg(t.b, v)
		}
		r = evalOp(t.op, t.w, aw, a, b, 0)
	}
	t.sgGen, t.sgVal = tb.sgGen, r
	return r
}
