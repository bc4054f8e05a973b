package main

import (
	"fmt"
	"strings"
)

const rtPkg = "github.com/xlab/c-for-go/verifrt"
const hxPkg = "github.com/xlab/c-for-go/verifhx"

// classRuns parses a character class such as "a-zA-Z0-9_".
func classRuns(s string) [][2]byte {
	var r [][2]byte
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) && s[i+1] == '-' {
			r = append(r, [2]byte{s[i], s[i+2]})
			i += 2
			continue
		}
		r = append(r, [2]byte{s[i], s[i]})
	}
	return r
}

func initRT() {
	reg := func(name string, f intrinsic) { intrinsics[rtPkg+"."+name] = f }
	name := func(fr *frame, v Value) string { return fr.p.freshKey(fr.p.concStr(v)) }
	reg("Bool", func(fr *frame, a []Value) Value {
		k := name(fr, a[0])
		t := fr.p.newVar(k, "b", 0)
		return t
	})
	reg("U8", func(fr *frame, a []Value) Value { return fr.p.newVar(name(fr, a[0]), "u", 8) })
	reg("U64", func(fr *frame, a []Value) Value { return fr.p.newVar(name(fr, a[0]), "u", 64) })
	reg("I64", func(fr *frame, a []Value) Value { return fr.p.newVar(name(fr, a[0]), "u", 64) })
	reg("Int", func(fr *frame, a []Value) Value {
		p := fr.p
		k := name(fr, a[0])
		lo, hi := p.concInt(a[1]), p.concInt(a[2])
		if lo == hi {
			return lo
		}
		if n := hi - lo; int64(hi) > int64(lo) && n < 256 {
			if p.concrete {
				panic(unsupported("symbolic input in a concrete section"))
			}
			v := p.tb.Var(k, 8)
			t := p.tb.Bin(OpAdd, p.tb.Const(lo, 64), p.tb.Resize(v, 64, false))
			p.nondet = append(p.nondet, nondetRec{key: k, kind: "i", t: []*Term{t}})
			if n < 255 {
				p.assume(p.tbBool(p.tb.Bin(OpUle, v, p.tb.Const(n, 8))))
			}
			return t
		}
		t := p.newVar(k, "u", 64)
		p.assume(p.tbBool(p.tb.And(p.tb.Bin(OpSle, p.tb.Const(lo, 64), t), p.tb.Bin(OpSle, t, p.tb.Const(hi, 64)))))
		return t
	})
	reg("Choice", func(fr *frame, a []Value) Value {
		return uint64(fr.p.choose(fr.p.concStr(a[0]), int(fr.p.concInt(a[1]))))
	})
	reg("Pick", func(fr *frame, a []Value) Value {
		el := a[1].(sliceV).a
		i := fr.p.choose(fr.p.concStr(a[0]), len(el))
		return el[i]
	})
	reg("Str", func(fr *frame, a []Value) Value {
		p := fr.p
		nm := p.concStr(a[0])
		lo, hi := int(p.concInt(a[1])), int(p.concInt(a[2]))
		runs := classRuns(p.concStr(a[3]))
		n := lo
		if hi > lo {
			n = lo + p.choose(nm+".len", hi-lo+1)
		}
		k := p.freshKey(nm)
		b := make([]Value, n)
		ts := make([]*Term, n)
		for i := range b {
			t := p.tb.Var(fmt.Sprintf("%s.%d", k, i), 8)
			ts[i] = t
			b[i] = t
			p.assume(p.tbBool(p.inRuns(t, runs)))
		}
		p.nondet = append(p.nondet, nondetRec{key: k, kind: "s", t: ts})
		return mkStr(b)
	})
	reg("Assume", func(fr *frame, a []Value) Value { fr.p.assume(a[0]); return nil })
	reg("Assert", func(fr *frame, a []Value) Value {
		var msg string
		if s, ok := a[1].(string); ok {
			msg = s
		} else {
			msg = fr.p.evalStr(a[1])
		}
		fr.p.assert(a[0], msg)
		return nil
	})
	reg("Fail", func(fr *frame, a []Value) Value {
		fr.p.assert(false, fr.p.evalStr(a[0]))
		return nil
	})
	reg("Reach", func(fr *frame, a []Value) Value {
		l := fr.p.concStr(a[0])
		fr.p.reached[l] = true
		return nil
	})
	reg("Observe", func(fr *frame, a []Value) Value {
		fr.p.observed = append(fr.p.observed, obsRec{fr.p.concStr(a[0]), a[1]})
		return nil
	})
	reg("Once", func(fr *frame, a []Value) Value { return fr.p.onceTemplate(fr, fr.p.concStr(a[0]), a[1]) })
	reg("MapOrder", func(fr *frame, a []Value) Value { fr.p.mapSym = fr.p.isTrue(a[0]); return nil })
	reg("Deviations", func(fr *frame, a []Value) Value { fr.p.mapLeft = int(fr.p.concInt(a[0])) + 1; return nil })
	reg("Later", func(fr *frame, a []Value) Value { fr.p.clock += 1234567; return nil })
	reg("Sched", func(fr *frame, a []Value) Value { fr.p.schedSym = fr.p.isTrue(a[0]); return nil })
	reg("Preempt", func(fr *frame, a []Value) Value { fr.p.preemptLeft = int(fr.p.concInt(a[0])) + 1; return nil })
	reg("Conc", func(fr *frame, a []Value) Value { return fr.p.concStr(a[0]) })
	reg("ConcInt", func(fr *frame, a []Value) Value { return fr.p.concInt(a[0]) })
	reg("IsTrue", func(fr *frame, a []Value) Value { return fr.p.isTrue(a[0]) })
	reg("Symbolic", func(fr *frame, a []Value) Value { return true })
	// And/Or/Eq build one formula instead of forking
	reg("And", func(fr *frame, a []Value) Value {
		acc := fr.p.tb.True
		for _, x := range variadic(a[0]) {
			acc = fr.p.tb.And(acc, fr.p.term(x, 0))
		}
		return fr.p.tbBool(acc)
	})
	reg("Or", func(fr *frame, a []Value) Value {
		acc := fr.p.tb.False
		for _, x := range variadic(a[0]) {
			acc = fr.p.tb.Or(acc, fr.p.term(x, 0))
		}
		return fr.p.tbBool(acc)
	})
	reg("IteStr", func(fr *frame, a []Value) Value {
		if fr.p.isTrue(a[0]) {
			return a[1]
		}
		return a[2]
	})
	reg("InClass", func(fr *frame, a []Value) Value {
		acc := fr.p.tb.True
		runs := classRuns(fr.p.concStr(a[1]))
		for _, c := range strBytes(a[0]) {
			acc = fr.p.tb.And(acc, fr.p.inRuns(c, runs))
		}
		return fr.p.tbBool(acc)
	})
	// Contains as one formula
	reg("Contains", func(fr *frame, a []Value) Value {
		p := fr.p
		if s, ok := hs(a[0]); ok {
			if t, ok := hs(a[1]); ok {
				return strings.Contains(s, t)
			}
		}
		s, t := strBytes(a[0]), strBytes(a[1])
		acc := p.tb.False
		for i := 0; i+len(t) <= len(s); i++ {
			acc = p.tb.Or(acc, p.term(p.strEq(mkStr(s[i:i+len(t)]), mkStr(t)), 0))
		}
		return p.tbBool(acc)
	})
	// Protect runs f and returns "" or the text of the panic / exit / deadlock that ended it.
	reg("Protect", func(fr *frame, a []Value) (res Value) {
		p := fr.p
		d := p.depth
		cur := p.cur
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case targetPanic:
					res = "panic: " + p.panicText(fr, x)
				case *exitErr:
					res = fmt.Sprintf("exit %d", x.code)
				case *deadlockErr:
					res = "deadlock"
				case *fatalErr:
					res = "fatal: " + x.msg
				default:
					panic(r)
				}
				p.depth = d
				p.cur = cur
				p.gorAbort = nil
			}
		}()
		p.callFunc(fr, a[0], nil)
		return ""
	})
	reg("Deep", func(fr *frame, a []Value) Value { return deepTier })
	reg("Pause", func(fr *frame, a []Value) Value { return nil })
	reg("Yield", func(fr *frame, a []Value) Value { fr.p.yield(fr); return nil })
	reg("Gors", func(fr *frame, a []Value) Value {
		n := 0
		for _, g := range fr.p.gors {
			if !g.done {
				n++
			}
		}
		return uint64(n)
	})
	// GoErrors is about concrete text: the text is decided byte by byte first
	reg("GoErrors", func(fr *frame, a []Value) Value {
		var files []string
		for _, f := range a[0].(sliceV).a {
			files = append(files, fr.p.concStr(f))
		}
		var r []Value
		for _, m := range goErrors(files...) {
			r = append(r, m)
		}
		return sliceV{r}
	})
	reg("CgoErrors", func(fr *frame, a []Value) Value {
		var files []string
		for _, f := range a[1].(sliceV).a {
			files = append(files, fr.p.concStr(f))
		}
		var r []Value
		for _, m := range cgoErrors(fr.p.concStr(a[0]), files...) {
			r = append(r, m)
		}
		return sliceV{r}
	})
	reg("Closure", func(fr *frame, a []Value) Value {
		var files []string
		for _, f := range a[1].(sliceV).a {
			files = append(files, fr.p.concStr(f))
		}
		return closure(fr.p.concStr(a[0]), files...)
	})
	reg("Faulted", func(fr *frame, a []Value) Value { return fr.p.files.fault })
	reg("Scratch", func(fr *frame, a []Value) Value { return scratch })
	reg("Chdir", func(fr *frame, a []Value) Value { fr.p.wd = fr.p.abs(fr.p.concStr(a[0])); return nil })
	reg("Setenv", func(fr *frame, a []Value) Value { fr.p.env[fr.p.concStr(a[0])] = fr.p.concStr(a[1]); return nil })
	reg("Program", func(fr *frame, a []Value) Value {
		p := fr.p
		p.programs[p.concStr(a[0])] = program{p.concStr(a[1]), p.concStr(a[2]), p.branch(p.term(a[3], 0))}
		return nil
	})
	front := func(fr *frame, v Value) *frontEnd {
		if i, ok := v.(ifaceV); ok {
			v = i.v
		}
		if s, ok := v.(ptr); ok && fr.p.fronts[s] != nil {
			return fr.p.fronts[s]
		}
		return &frontEnd{predefined: ""}
	}
	reg("Predefined", func(fr *frame, a []Value) Value { return front(fr, a[0]).predefined })
	reg("Marks", func(fr *frame, a []Value) Value { return strings.Join(front(fr, a[0]).marks, " ") })
	reg("SetFault", func(fr *frame, a []Value) Value {
		fr.p.faults[fr.p.concStr(a[0])] = true
		return nil
	})
}

func (p *Path) panicText(fr *frame, tp targetPanic) string {
	if tp.v.t == nil {
		return "nil"
	}
	if tp.v.t == p.eng.runtimeErrType {
		return "runtime error: " + tp.v.v.(string)
	}
	switch v := tp.v.v.(type) {
	case string:
		return v
	case *symStr:
		return p.evalStr(v)
	}
	if s, ok := p.callMethod(fr, tp.v.t, tp.v.v, "Error"); ok {
		return p.evalStr(s)
	}
	return fmt.Sprintf("value of type %s", tp.v.t)
}
