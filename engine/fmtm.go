package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// strAcc accumulates output that may contain symbolic bytes.
type strAcc struct {
	conc []byte
	sym  []Value
	isS  bool
}

func (a *strAcc) str(s string) {
	if !a.isS {
		a.conc = append(a.conc, s...)
		return
	}
	for i := 0; i < len(s); i++ {
		a.sym = append(a.sym, byteVals[s[i]])
	}
}

func (a *strAcc) val(v Value) {
	switch s := v.(type) {
	case string:
		a.str(s)
	case *symStr:
		if !a.isS {
			a.isS = true
			a.sym = strBytes(string(a.conc))
		}
		a.sym = append(a.sym, s.b...)
	default:
		panic(unsupported("append of %T to text", v))
	}
}

func (a *strAcc) value() Value {
	if a.isS {
		return mkStr(a.sym)
	}
	return string(a.conc)
}

// hostBasic converts a concrete basic value to the corresponding host value.
func hostBasic(t types.Type, v Value) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case complex128:
		if b.Kind() == types.Complex64 {
			return complex64(x), true
		}
		return x, true
	case uint64:
		switch b.Kind() {
		case types.Int, types.UntypedInt:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32, types.UntypedRune:
			return int32(x), true
		case types.Int64:
			return int64(x), true
		case types.Uint:
			return uint(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return x, true
		case types.Uintptr:
			return uintptr(x), true
		}
	}
	return nil, false
}

// symItoa renders a symbolic integer in base 10, forking on its sign and number of digits.
func (p *Path) symItoa(t *Term, signed bool) Value {
	tb := p.tb
	w := t.w
	neg := false
	if signed && p.branch(tb.Bin(OpSlt, t, tb.Const(0, w))) {
		neg = true
		t = tb.Un(OpNeg, t)
	}
	if t.isConst() {
		s := strconv.FormatUint(t.val, 10)
		if neg {
			s = "-" + s
		}
		return s
	}
	nd := 1
	lim := uint64(10)
	for nd < 20 {
		if w < 64 && lim > mask(w) {
			break
		}
		if p.branch(tb.Bin(OpUlt, t, tb.Const(lim, w))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		lim *= 10
	}
	// narrow to the bits the value needs
	bits := uint8(4)
	for bits < w && nd < 20 && mask(bits) < lim-1 {
		bits++
	}
	if nd == 20 {
		bits = w
	}
	x := tb.Resize(t, min(bits, w), false)
	if x.w < 8 {
		x = tb.Resize(x, 8, false)
	}
	digs := make([]Value, nd)
	for i := nd - 1; i >= 0; i-- {
		var d *Term
		if i == 0 {
			d = x
		} else {
			d = tb.Bin(OpURem, x, tb.Const(10, x.w))
			x = tb.Bin(OpUDiv, x, tb.Const(10, x.w))
		}
		digs[i] = p.tbInt(tb.Bin(OpAdd, tb.Resize(d, 8, false), tb.Const('0', 8)))
	}
	if neg {
		digs = append([]Value{byteVals['-']}, digs...)
	}
	return mkStr(digs)
}

func (p *Path) callMethod(fr *frame, t types.Type, v Value, name string) (Value, bool) {
	e := p.eng
	e.ssaMu.Lock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	e.ssaMu.Unlock()
	if sel == nil {
		return nil, false
	}
	m, ok := sel.Obj().(*types.Func)
	if !ok {
		return nil, false
	}
	sig := m.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil, false
	}
	if b, ok := sig.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
		return nil, false
	}
	if ho, ok := v.(*hostObj); ok && ho.kind == "hosterr" {
		return ho.v.(string), true
	}
	cf := e.method(t, m)
	if cf == nil {
		return nil, false
	}
	return p.call(fr, cf, []Value{v}, nil), true
}

// printArg renders one operand for the given verb; spec is the full directive ("%5d").
func (p *Path) printArg(fr *frame, acc *strAcc, spec string, verb byte, arg ifaceV, depth int) {
	if arg.t == nil {
		if verb == 'v' || verb == 's' && depth > 0 {
			acc.str("<nil>")
		} else {
			acc.str(fmt.Sprintf(spec, nil))
		}
		return
	}
	if verb == 'T' {
		acc.str(typeName(arg.t))
		return
	}
	if verb == 'p' {
		acc.str("0xc000012345")
		return
	}
	sharp := strings.Contains(spec, "#")
	strVerb := verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X'
	if strVerb && !(verb == 'v' && sharp) {
		for _, m := range []string{"Error", "String"} {
			if isNilPtr(arg.v) {
				break
			}
			if s, ok := p.callMethod(fr, arg.t, arg.v, m); ok {
				p.printStr(acc, spec, verb, s)
				return
			}
		}
	}
	switch u := arg.t.Underlying().(type) {
	case *types.Basic:
		switch v := arg.v.(type) {
		case *symStr:
			p.printStr(acc, spec, verb, v)
			return
		case *Term:
			if v.w == 0 {
				b := p.branch(v)
				acc.str(fmt.Sprintf(spec, b))
				return
			}
			ki := basicInfo(arg.t)
			if (verb == 'd' || verb == 'v') && len(spec) == 2 {
				acc.val(p.symItoa(v, ki.signed))
				return
			}
			if verb == 'c' && len(spec) == 2 {
				if p.branch(p.tb.Bin(OpUlt, v, p.tb.Const(0x80, v.w))) {
					acc.val(mkStr([]Value{p.tbInt(p.tb.Resize(v, 8, false))}))
					return
				}
			}
			cv := p.concretize(v)
			h, ok := hostBasic(arg.t, cv)
			if !ok {
				panic(unsupported("format of %s", arg.t))
			}
			acc.str(fmt.Sprintf(spec, h))
			return
		}
		if h, ok := hostBasic(arg.t, arg.v); ok {
			acc.str(fmt.Sprintf(spec, h))
			return
		}
		if u.Kind() == types.UnsafePointer {
			acc.str("0xc000012345")
			return
		}
	case *types.Slice, *types.Array:
		var el []Value
		var et types.Type
		if s, ok := arg.v.(sliceV); ok {
			el = s.a
			et = u.(*types.Slice).Elem()
		} else {
			el = arg.v.(arrayV)
			et = u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			p.printStr(acc, spec, verb, mkStr(el))
			return
		}
		acc.str("[")
		for i, x := range el {
			if i > 0 {
				acc.str(" ")
			}
			p.printArg(fr, acc, spec, verb, asIface(et, x), depth+1)
		}
		acc.str("]")
		return
	case *types.Map:
		m := arg.v.(*mapV)
		acc.str("map[")
		if m != nil {
			var es []*mapEntry
			for _, e := range m.entries {
				if !e.dead {
					es = append(es, e)
				}
			}
			sort.SliceStable(es, func(i, j int) bool { return mapKeyLess(es[i].k, es[j].k) })
			for i, e := range es {
				if i > 0 {
					acc.str(" ")
				}
				p.printArg(fr, acc, spec, verb, asIface(u.Key(), e.k), depth+1)
				acc.str(":")
				p.printArg(fr, acc, spec, verb, asIface(u.Elem(), e.v), depth+1)
			}
		}
		acc.str("]")
		return
	case *types.Struct:
		s := arg.v.(structV)
		acc.str("{")
		for i := range s {
			if i > 0 {
				acc.str(" ")
			}
			if strings.Contains(spec, "+") {
				acc.str(u.Field(i).Name() + ":")
			}
			if !u.Field(i).Exported() {
				p.printArgNoMethod(fr, acc, spec, verb, asIface(u.Field(i).Type(), s[i]), depth+1)
			} else {
				p.printArg(fr, acc, spec, verb, asIface(u.Field(i).Type(), s[i]), depth+1)
			}
		}
		acc.str("}")
		return
	case *types.Pointer:
		if isNilPtr(arg.v) {
			acc.str("<nil>")
			return
		}
		if pv, ok := arg.v.(ptr); ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				acc.str("&")
				p.printArg(fr, acc, spec, verb, ifaceV{u.Elem(), *pv}, depth+1)
				return
			}
		}
		acc.str("0xc000012345")
		return
	case *types.Signature, *types.Chan:
		acc.str("0xc000012345")
		return
	}
	panic(unsupported("format of %s with %s", arg.t, spec))
}

func (p *Path) printArgNoMethod(fr *frame, acc *strAcc, spec string, verb byte, arg ifaceV, depth int) {
	if arg.t != nil {
		if _, ok := arg.t.Underlying().(*types.Basic); ok {
			p.printArg(fr, acc, spec, verb, ifaceV{arg.t.Underlying(), arg.v}, depth)
			return
		}
	}
	p.printArg(fr, acc, spec, verb, arg, depth)
}

func isNilPtr(v Value) bool {
	x, ok := v.(ptr)
	return ok && x == nil
}

func mapKeyLess(a, b Value) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case uint64:
		if y, ok := b.(uint64); ok {
			return int64(x) < int64(y)
		}
	case ifaceV:
		if y, ok := b.(ifaceV); ok {
			return mapKeyLess(x.v, y.v)
		}
	}
	return false
}

func asIface(t types.Type, v Value) ifaceV {
	if iv, ok := v.(ifaceV); ok {
		return iv
	}
	return ifaceV{t, v}
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (p *Path) printStr(acc *strAcc, spec string, verb byte, s Value) {
	if h, ok := s.(string); ok {
		acc.str(fmt.Sprintf(spec, h))
		return
	}
	if (verb == 's' || verb == 'v') && len(spec) == 2 {
		acc.val(s)
		return
	}
	if (verb == 's' || verb == 'v') && len(spec) > 2 {
		acc.str(fmt.Sprintf(spec, p.concStr(s)))
		return
	}
	if verb == 'q' && len(spec) == 2 {
		// printable ASCII other than the quote and the backslash is copied
		b := s.(*symStr).b
		acc.str(`"`)
		for _, c := range b {
			if t, ok := c.(*Term); ok {
				tb := p.tb
				plain := tb.And(tb.And(tb.Bin(OpUle, tb.Const(0x20, 8), t), tb.Bin(OpUlt, t, tb.Const(0x7f, 8))),
					tb.And(tb.Not(tb.Eq(t, tb.Const('"', 8))), tb.Not(tb.Eq(t, tb.Const('\\', 8)))))
				if p.branch(plain) {
					acc.val(&symStr{[]Value{t}})
					continue
				}
			}
			h := byte(p.concInt(c))
			q := strconv.Quote(string([]byte{h}))
			acc.str(q[1 : len(q)-1])
		}
		acc.str(`"`)
		return
	}
	acc.str(fmt.Sprintf(spec, p.concStr(s)))
}

func (p *Path) sprintf(fr *frame, formatV Value, args []Value) Value {
	format := p.concStr(formatV)
	acc := &strAcc{}
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			acc.str(format[i:])
			break
		}
		acc.str(format[i : i+j])
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			acc.str("%!(NOVERB)")
			break
		}
		verb := format[k]
		spec := format[i : k+1]
		i = k + 1
		if verb >= 0x80 {
			panic(unsupported("non-ASCII verb"))
		}
		if verb == '%' {
			acc.str("%")
			continue
		}
		if strings.ContainsAny(spec, "*[") {
			if strings.Contains(spec, "[") {
				panic(unsupported("indexed format"))
			}
			if n < len(args) {
				w := p.concInt(args[n].(ifaceV).v)
				n++
				spec = strings.Replace(spec, "*", fmt.Sprint(int(w)), 1)
			}
		}
		if n >= len(args) {
			acc.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n].(ifaceV)
		n++
		if verb == 'w' {
			verb, spec = 'v', strings.Replace(spec, "w", "v", 1)
		}
		p.printArg(fr, acc, spec, verb, a, 0)
	}
	if n < len(args) {
		acc.str("%!(EXTRA ")
		for i, a := range args[n:] {
			if i > 0 {
				acc.str(", ")
			}
			iv := a.(ifaceV)
			if iv.t == nil {
				acc.str("<nil>")
				continue
			}
			acc.str(typeName(iv.t) + "=")
			p.printArg(fr, acc, "%v", 'v', iv, 0)
		}
		acc.str(")")
	}
	return acc.value()
}

func isStringArg(v ifaceV) bool {
	if v.t == nil {
		return false
	}
	b, ok := v.t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p *Path) sprint(fr *frame, args []Value, ln bool) Value {
	acc := &strAcc{}
	prevStr := false
	for i, a := range args {
		iv := a.(ifaceV)
		is := isStringArg(iv)
		if i > 0 && (ln || (!is && !prevStr)) {
			acc.str(" ")
		}
		p.printArg(fr, acc, "%v", 'v', iv, 0)
		prevStr = is
	}
	if ln {
		acc.str("\n")
	}
	return acc.value()
}

// fwrite passes text to an io.Writer.
func (p *Path) fwrite(fr *frame, w Value, s Value) Value {
	iv := w.(ifaceV)
	if iv.t == nil {
		p.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	e := p.eng
	e.ssaMu.Lock()
	sel := e.prog.MethodSets.MethodSet(iv.t).Lookup(nil, "Write")
	e.ssaMu.Unlock()
	if sel == nil {
		panic(unsupported("no Write on %s", iv.t))
	}
	cf := e.method(iv.t, sel.Obj().(*types.Func))
	b := strBytes(s)
	a := append([]Value(nil), b...)
	p.instrs += int64(len(a)) / 8
	return p.call(fr, cf, []Value{iv.v, sliceV{a}}, nil)
}
