package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// convert compiles a Convert instruction.
func (c *compiler) convert(xv ssa.Value, t types.Type, dst int) instrFn {
	x := c.op(xv)
	from, to := xv.Type().Underlying(), t.Underlying()
	if tp, ok := from.(*types.Interface); ok {
		_ = tp
		return func(fr *frame) { panic(unsupported("conversion of a type parameter")) }
	}
	fk, tk := basicInfo(from), basicInfo(to)
	elemKind := func(t types.Type) (types.BasicKind, bool) {
		s, ok := t.(*types.Slice)
		if !ok {
			return 0, false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		if !ok {
			return 0, false
		}
		return b.Kind(), true
	}
	switch {
	case fk.isInt && tk.isInt:
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				if fk.signed && tk.w > fk.w {
					v = uint64(sext(v, fk.w))
				}
				fr.regs[dst] = v & mask(tk.w)
			case *Term:
				fr.regs[dst] = fr.p.tbInt(fr.p.tb.Resize(v, tk.w, fk.signed))
			default:
				// unsafe.Pointer disguised as uintptr
				fr.regs[dst] = v
			}
		}
	case fk.isInt && tk.float:
		return func(fr *frame) {
			v := fr.p.concInt(x.get(fr))
			var f float64
			if fk.signed {
				f = float64(sext(v, fk.w))
			} else {
				f = float64(v)
			}
			if tk.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = f
		}
	case fk.float && tk.isInt:
		return func(fr *frame) {
			f := x.get(fr).(float64)
			if tk.signed {
				fr.regs[dst] = uint64(int64(f)) & mask(tk.w)
			} else {
				fr.regs[dst] = uint64(f) & mask(tk.w)
			}
		}
	case fk.float && tk.float:
		return func(fr *frame) {
			f := x.get(fr).(float64)
			if tk.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = f
		}
	case fk.cplx && tk.cplx, fk.str && tk.str, fk.boolean && tk.boolean:
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case fk.isInt && tk.str:
		return func(fr *frame) {
			xv := x.get(fr)
			if tm, ok := xv.(*Term); ok {
				// a symbolic rune below 0x80 is one byte
				p := fr.p
				t64 := p.tb.Resize(tm, 64, fk.signed)
				if p.branch(p.tb.Bin(OpUlt, t64, p.tb.Const(0x80, 64))) {
					fr.regs[dst] = mkStr([]Value{p.tbInt(p.tb.Resize(tm, 8, false))})
					return
				}
			}
			v := fr.p.concInt(xv)
			r := int64(v)
			if fk.signed {
				r = sext(v, fk.w)
			}
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			fr.regs[dst] = string(rune(r))
		}
	}
	if ek, ok := elemKind(to); ok && fk.str {
		if ek == types.Uint8 {
			// the compiler lays out package-level []byte("...") statically, without spare capacity
			static := false
			if _, ok := xv.(*ssa.Const); ok && c.fn.Synthetic == "package initializer" {
				static = true
			}
			return func(fr *frame) {
				v := x.get(fr)
				n := strLen(v)
				fr.p.instrs += int64(n) / 8
				capn := roundup(n)
				if static {
					capn = n
				}
				a := make([]Value, n, capn)
				copy(a, strBytes(v))
				fillZero(a, byteVals[0])
				fr.regs[dst] = sliceV{a}
			}
		}
		return func(fr *frame) { // []rune(string)
			it := &strIter{s: x.get(fr)}
			a := []Value{}
			for {
				t := it.next(fr.p).(tupleV)
				if !t[0].(bool) {
					break
				}
				a = append(a, t[2])
			}
			fr.regs[dst] = sliceV{a[:len(a):len(a)]}
		}
	}
	if ek, ok := elemKind(from); ok && tk.str {
		if ek == types.Uint8 {
			return func(fr *frame) {
				s := x.get(fr).(sliceV)
				fr.p.instrs += int64(len(s.a)) / 8
				fr.regs[dst] = mkStr(s.a)
			}
		}
		return func(fr *frame) {
			s := x.get(fr).(sliceV)
			b := []Value{}
			for _, e := range s.a {
				if tm, ok := e.(*Term); ok {
					p := fr.p
					if p.branch(p.tb.Bin(OpUlt, tm, p.tb.Const(0x80, tm.w))) {
						b = append(b, p.tbInt(p.tb.Resize(tm, 8, false)))
						continue
					}
				}
				r := rune(sext(fr.p.concInt(e), 32))
				for _, h := range []byte(string(r)) {
					b = append(b, byteVals[h])
				}
			}
			fr.regs[dst] = mkStr(b)
		}
	}
	isPtr := func(t types.Type) bool {
		if _, ok := t.(*types.Pointer); ok {
			return true
		}
		b, ok := t.(*types.Basic)
		return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
	}
	if isPtr(from) && isPtr(to) {
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	}
	if isPtr(to) && fk.isInt {
		return func(fr *frame) {
			v := x.get(fr)
			if u, ok := v.(uint64); ok && u == 0 {
				v = nilPtr
			}
			fr.regs[dst] = v
		}
	}
	return func(fr *frame) { panic(unsupported("conversion from %s to %s", from, to)) }
}

func fillZero(a []Value, z Value) {
	n := len(a)
	b := a[:cap(a)]
	for i := n; i < len(b); i++ {
		b[i] = z
	}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) (n int) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return int(stdSizes.Sizeof(t))
}

// growCap follows the runtime's growslice.
func growCap(oldCap, newLen, es int) int {
	newcap := oldCap
	double := newcap + newcap
	switch {
	case newLen > double:
		newcap = newLen
	case oldCap < 256:
		newcap = double
	default:
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if es == 0 {
		return newcap
	}
	return roundup(newcap*es) / es
}

func (c *compiler) slice(in *ssa.Slice, dst int) instrFn {
	x := c.op(in.X)
	var lo, hi, mx *opnd
	mk := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = mk(in.Low), mk(in.High), mk(in.Max)
	get := func(fr *frame, o *opnd, d int) int {
		if o == nil {
			return d
		}
		return int(int64(fr.p.concInt(o.get(fr))))
	}
	return func(fr *frame) {
		switch v := x.get(fr).(type) {
		case string, *symStr:
			n := strLen(v)
			l, h := get(fr, lo, 0), get(fr, hi, n)
			if h < 0 || h > n {
				fr.p.rtPanic(fr, fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				fr.p.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = strSlice(v, l, h)
		case sliceV:
			n := cap(v.a)
			l, h := get(fr, lo, 0), get(fr, hi, len(v.a))
			m := get(fr, mx, n)
			fr.p.sliceCheck(fr, l, h, m, n)
			if v.a == nil {
				fr.regs[dst] = v
				return
			}
			fr.regs[dst] = sliceV{v.a[l:h:m]}
		case ptr:
			if v == nil {
				fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			a, ok := (*v).(arrayV)
			if !ok {
				panic(unsupported("slice of *%T", *v))
			}
			n := len(a)
			l, h := get(fr, lo, 0), get(fr, hi, n)
			m := get(fr, mx, n)
			fr.p.sliceCheck(fr, l, h, m, n)
			fr.regs[dst] = sliceV{[]Value(a)[l:h:m]}
		default:
			panic(unsupported("slice of %T", v))
		}
	}
}

func (p *Path) sliceCheck(fr *frame, l, h, m, n int) {
	if m < 0 || m > n {
		p.rtPanic(fr, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, n))
	}
	if h < 0 || h > m {
		p.rtPanic(fr, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, n))
	}
	if l < 0 || l > h {
		p.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) instrFn {
	x := c.op(in.X)
	at := in.AssertedType
	e := c.e
	if it, ok := at.Underlying().(*types.Interface); ok {
		return func(fr *frame) {
			v, ok := x.get(fr).(ifaceV)
			if !ok {
				panic(unsupported("assertion on %T", x.get(fr)))
			}
			ok = v.t != nil && e.implements(v.t, it)
			if in.CommaOk {
				if !ok {
					v = ifaceV{}
				}
				fr.regs[dst] = tupleV{v, ok}
				return
			}
			if !ok {
				fr.p.rtPanic(fr, fmt.Sprintf("interface conversion: %v is not %v: missing method", v.t, at))
			}
			fr.regs[dst] = v
		}
	}
	z := zero(at)
	return func(fr *frame) {
		v, ok := x.get(fr).(ifaceV)
		if !ok {
			panic(unsupported("assertion on %T", x.get(fr)))
		}
		ok = v.t != nil && sameType(v.t, at)
		if in.CommaOk {
			if ok {
				fr.regs[dst] = tupleV{v.v, true}
			} else {
				fr.regs[dst] = tupleV{copyVal(z), false}
			}
			return
		}
		if !ok {
			fr.p.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, at))
		}
		fr.regs[dst] = v.v
	}
}

type implKey struct {
	t  int
	it *types.Interface
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	if _, ok := t.(*types.Basic); ok {
		return false
	}
	k := implKey{typeID(t), it}
	if v, ok := e.impls.Load(k); ok {
		return v.(bool)
	}
	e.ssaMu.Lock()
	r := types.Implements(t, it)
	e.ssaMu.Unlock()
	e.impls.Store(k, r)
	return r
}

func (c *compiler) lookup(in *ssa.Lookup, dst int) instrFn {
	x, k := c.op(in.X), c.op(in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
		ixk := basicInfo(in.Index.Type())
		return func(fr *frame) { fr.regs[dst] = fr.p.strIndex(fr, x.get(fr), k.get(fr), ixk) }
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	ek := basicInfo(et)
	return func(fr *frame) {
		m := x.get(fr).(*mapV)
		v, ok := fr.p.mapGet(fr, m, k.get(fr), et, ek, in.CommaOk)
		if in.CommaOk {
			fr.regs[dst] = tupleV{v, ok}
		} else {
			fr.regs[dst] = v
		}
	}
}

// ---- maps ----

func newMap(kt types.Type) *mapV {
	return &mapV{keyT: kt, idx: map[any]*mapEntry{}}
}

// mapFind locates k, forking on symbolic keys; nil if absent.
func (p *Path) mapFind(m *mapV, k Value) *mapEntry {
	if m == nil || m.n == 0 {
		if iv, ok := k.(ifaceV); ok && iv.t != nil {
			switch iv.v.(type) {
			case sliceV, *mapV, *funcV:
				p.rtPanic(nil, "hash of unhashable type "+iv.t.String())
			}
		}
		return nil
	}
	hk, conc := concreteKey(k)
	if conc {
		if e, ok := m.idx[hk]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, ok := concreteKey(e.k); ok {
				continue
			}
		}
		if p.isTrue(p.equal(nil, k, e.k, m.keyT, m.keyT)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapGet(fr *frame, m *mapV, k Value, et types.Type, ek kindInfo, commaOk bool) (Value, Value) {
	p.instrs += 2
	if m != nil && m.n > 0 {
		if _, conc := concreteKey(k); !conc || m.nsym > 0 {
			// merge instead of forking when the result is a scalar
			if r, okv, done := p.mapGetSym(m, k, et, ek); done {
				return r, okv
			}
		}
	}
	e := p.mapFind(m, k)
	if e == nil {
		return zero(et), false
	}
	return copyVal(e.v), true
}

func (p *Path) mapGetSym(m *mapV, k Value, et types.Type, ek kindInfo) (Value, Value, bool) {
	scalar := ek.isInt || ek.boolean
	if st, ok := et.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		scalar = true
	}
	if !scalar {
		return nil, nil, false
	}
	var found *Term = p.tb.False
	var val *Term
	w := ek.w
	if ek.boolean {
		val = p.tb.False
	} else {
		val = p.tb.Const(0, max(w, 1))
	}
	for i := len(m.entries) - 1; i >= 0; i-- {
		e := m.entries[i]
		if e.dead {
			continue
		}
		eq := p.term(p.equal(nil, k, e.k, m.keyT, m.keyT), 0)
		if eq == p.tb.False {
			continue
		}
		found = p.tb.Or(found, eq)
		if ek.isInt {
			val = p.tb.Ite(eq, p.term(e.v, w), val)
		} else if ek.boolean {
			val = p.tb.IteBool(eq, p.term(e.v, 0), val)
		}
	}
	switch {
	case ek.isInt:
		return p.tbInt(val), p.tbBool(found), true
	case ek.boolean:
		return p.tbBool(val), p.tbBool(found), true
	}
	return structV{}, p.tbBool(found), true
}

func (p *Path) mapSet(m *mapV, k, v Value) {
	p.instrs += 2
	if m.frozen {
		panic(unsupported("write to a shared map"))
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.entries = append(m.entries, e)
	m.n++
	if hk, ok := concreteKey(k); ok {
		if f, isF := k.(float64); isF && math.IsNaN(f) {
			return
		}
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *mapV, k Value) {
	if m == nil {
		return
	}
	if m.frozen {
		panic(unsupported("write to a shared map"))
	}
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	m.kill(e)
	if m.iters == 0 && m.ndead > 16 && m.ndead > len(m.entries)/2 {
		live := make([]*mapEntry, 0, m.n)
		for _, x := range m.entries {
			if !x.dead {
				live = append(live, x)
			}
		}
		m.entries, m.ndead = live, 0
	}
}

func (m *mapV) kill(e *mapEntry) {
	e.dead = true
	m.n--
	m.ndead++
	if hk, ok := concreteKey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
}

type mapIter struct {
	m    *mapV
	i    int
	sym  bool
	left []*mapEntry
}

func newMapIter(p *Path, m *mapV, repo bool) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if p.mapSym && repo && m.n >= 2 {
		it.sym = true
		for _, e := range m.entries {
			if !e.dead {
				it.left = append(it.left, e)
			}
		}
		return it
	}
	if !m.frozen {
		m.iters++
	}
	return it
}

func (it *mapIter) next(p *Path, tt *types.Tuple) Value {
	done := func() Value {
		if it.m != nil && !it.sym && !it.m.frozen {
			it.m.iters--
		}
		t := tupleV{false, nil, nil}
		for j := 1; j <= 2; j++ {
			if b, ok := tt.At(j).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			t[j] = zero(tt.At(j).Type())
		}
		return t
	}
	if it.m == nil {
		return done()
	}
	if it.sym {
		live := it.left[:0:0]
		for _, e := range it.left {
			if !e.dead {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			return done()
		}
		j := 0
		if len(live) > 1 && p.mapLeft != 1 {
			if j = p.choose("maporder", len(live)); j != 0 && p.mapLeft > 1 {
				p.mapLeft--
			}
		}
		e := live[j]
		it.left = append(append([]*mapEntry(nil), live[:j]...), live[j+1:]...)
		return tupleV{true, copyVal(e.k), copyVal(e.v)}
	}
	for it.i < len(it.m.entries) {
		e := it.m.entries[it.i]
		it.i++
		if !e.dead {
			return tupleV{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	return done()
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(p *Path) Value {
	n := strLen(it.s)
	if it.i >= n {
		return tupleV{false, uint64(0), uint64(0)}
	}
	pos := uint64(it.i)
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[it.i:])
		it.i += w
		return tupleV{true, pos, uint64(uint32(r))}
	}
	b := it.s.(*symStr).b
	if tm, ok := b[it.i].(*Term); ok {
		if p.branch(p.tb.Bin(OpUlt, tm, p.tb.Const(0x80, 8))) {
			it.i++
			return tupleV{true, pos, p.tbInt(p.tb.Resize(tm, 32, false))}
		}
	}
	// decode concretely
	var h []byte
	for j := it.i; j < n && j < it.i+4; j++ {
		c := byte(p.concInt(b[j]))
		h = append(h, c)
		if utf8.FullRune(h) {
			break
		}
	}
	r, w := utf8.DecodeRune(h)
	it.i += w
	return tupleV{true, pos, uint64(uint32(r))}
}

// ---- builtins ----

func (p *Path) builtin(fr *frame, name string, args []Value, argT []types.Type, sig *types.Signature, deferFr *frame) Value {
	switch name {
	case "Sizeof":
		return uint64(stdSizes.Sizeof(argT[0]))
	case "len":
		switch v := args[0].(type) {
		case string, *symStr:
			return uint64(strLen(v))
		case sliceV:
			return uint64(len(v.a))
		case *mapV:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.n)
		case *chanV:
			if v == nil {
				return uint64(0)
			}
			return uint64(len(v.buf))
		case arrayV:
			return uint64(len(v))
		case ptr:
			return uint64(len((*v).(arrayV)))
		}
	case "cap":
		switch v := args[0].(type) {
		case sliceV:
			return uint64(cap(v.a))
		case *chanV:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.cap)
		case arrayV:
			return uint64(len(v))
		case ptr:
			return uint64(len((*v).(arrayV)))
		}
	case "append":
		s := args[0].(sliceV)
		var add []Value
		switch v := args[1].(type) {
		case sliceV:
			add = v.a
		case string, *symStr:
			add = strBytes(v)
		default:
			panic(unsupported("append of %T", v))
		}
		if len(add) == 0 {
			return s
		}
		p.instrs += int64(len(add)) / 8
		n := len(s.a) + len(add)
		var r []Value
		et := argT[0].Underlying().(*types.Slice).Elem()
		if n <= cap(s.a) {
			r = s.a[:n]
		} else {
			nc := growCap(cap(s.a), n, sizeOf(et))
			if nc < n {
				nc = n
			}
			r = make([]Value, n, nc)
			copy(r, s.a)
			z := zero(et)
			rr := r[:nc]
			for i := n; i < nc; i++ {
				rr[i] = copyVal(z)
			}
		}
		d := r[len(s.a):]
		needCopy := false
		switch add[0].(type) {
		case structV, arrayV:
			needCopy = true
		}
		if needCopy {
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			copy(d, tmp)
		} else {
			copy(d, add)
		}
		return sliceV{r}
	case "copy":
		d := args[0].(sliceV)
		var src []Value
		switch v := args[1].(type) {
		case sliceV:
			src = v.a
		case string, *symStr:
			src = strBytes(v)
		}
		n := min(len(d.a), len(src))
		p.instrs += int64(n) / 8
		if n > 0 {
			switch src[0].(type) {
			case structV, arrayV:
				tmp := make([]Value, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				copy(d.a, tmp)
			default:
				copy(d.a, src[:n])
			}
		}
		return uint64(n)
	case "delete":
		p.mapDelete(args[0].(*mapV), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *mapV:
			if v != nil {
				for _, e := range append([]*mapEntry(nil), v.entries...) {
					if !e.dead {
						v.kill(e)
					}
				}
			}
		case sliceV:
			et := argT[0].Underlying().(*types.Slice).Elem()
			for i := range v.a {
				v.a[i] = zero(et)
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0].(ifaceV), fr.cf.name})
	case "recover":
		// the frame whose deferred function is running is the caller of this function
		c := fr.caller
		if deferFr != nil && deferFr.cf == fr.cf && fr.caller == nil {
			c = deferFr
		}
		if c != nil && c.panicking {
			tp := c.panicVal.(targetPanic)
			c.panicking = false
			c.panicVal = nil
			return tp.v
		}
		return ifaceV{}
	case "print", "println":
		return nil
	case "close":
		p.chanClose(fr, args[0].(*chanV))
		return nil
	case "min", "max":
		ki := basicInfo(argT[0])
		acc := args[0]
		for _, a := range args[1:] {
			var less Value
			switch {
			case ki.isInt:
				x, ok1 := acc.(uint64)
				y, ok2 := a.(uint64)
				if ok1 && ok2 {
					less = p.intOp(fr, token.LSS, y, x, ki)
				} else {
					less = p.symIntOp(fr, token.LSS, a, acc, ki)
				}
			case ki.str:
				less = p.strLess(a, acc)
			case ki.float:
				less = a.(float64) < acc.(float64)
			default:
				panic(unsupported("min/max"))
			}
			if name == "max" {
				less = p.not(less)
			}
			if p.isTrue(less) {
				acc = a
			}
		}
		return acc
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if v, ok := args[0].(ptr); ok && v == nil {
			p.rtPanic(fr, "value method called using nil pointer")
		}
		return args[0]
	case "String":
		n := int(p.concInt(args[1]))
		if n == 0 {
			return ""
		}
		switch v := args[0].(type) {
		case *dataPtr:
			if v.s != nil {
				return strSlice(v.s, 0, n)
			}
			return mkStr(v.a[:n])
		case ptr:
			if n == 1 {
				return mkStr([]Value{*v})
			}
			// a pointer to the first element of some slice
			return mkStr(sliceFrom(v, n))
		}
	case "SliceData":
		s := args[0].(sliceV)
		if s.a == nil {
			return nilPtr
		}
		return &dataPtr{a: s.a[:cap(s.a)]}
	case "StringData":
		return &dataPtr{s: args[0]}
	case "Slice":
		n := int(p.concInt(args[1]))
		switch v := args[0].(type) {
		case *dataPtr:
			if v.s != nil {
				return sliceV{append([]Value(nil), strBytes(v.s)[:n]...)}
			}
			return sliceV{v.a[:n:n]}
		case ptr:
			if v == nil || n == 0 {
				return sliceV{}
			}
			return sliceV{sliceFrom(v, n)}
		}
	}
	panic(unsupported("builtin %s on %T", name, args))
}
