package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	p      *Path
	g      *gor
	cf     *cfunc
	regs   []Value
	caller *frame

	defers    []deferred
	panicking bool
	panicVal  any
	result    Value
	next      int
	edge      int // set by a folded run of conditions: -1 when the phis are done, else 1 + the block left
}

type deferred struct {
	fn   func()
	tail *frame
}

type targetPanic struct {
	v     ifaceV
	where string
}

type instrFn func(fr *frame)

type opnd struct {
	r int // register, or -1
	v Value
	g *ssa.Global
}

func (o *opnd) get(fr *frame) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	if o.g != nil {
		return fr.p.global(o.g)
	}
	return o.v
}

type phiMove struct {
	dst int
	src opnd
}

type cblock struct {
	ins   []instrFn
	phis  map[int][]phiMove   // by predecessor block index
	term  func(fr *frame) int // returns next block, -1 for return
	index int
}

type cfunc struct {
	fn       *ssa.Function
	once     sync.Once
	err      error
	blocks   []*cblock
	nregs    int
	nparams  int
	nfree    int
	hasDefer bool
	recover  int // block index or -1
	intr     intrinsic
	fast     func(fr *frame, a []Value) (Value, bool)
	name     string
	res      Value
	repo     bool
	inRuns   sync.Map
}

type intrinsic func(fr *frame, args []Value) Value

func (e *Engine) cfuncOf(fn *ssa.Function) *cfunc {
	if v, ok := e.cfuncs.Load(fn); ok {
		cf := v.(*cfunc)
		cf.once.Do(func() { e.compile(cf) })
		return cf
	}
	cf := &cfunc{fn: fn, recover: -1}
	v, _ := e.cfuncs.LoadOrStore(fn, cf)
	cf = v.(*cfunc)
	cf.once.Do(func() { e.compile(cf) })
	return cf
}

func (p *Path) global(g *ssa.Global) ptr {
	if s, ok := p.globals[g]; ok {
		return s
	}
	if p.eng.base != nil {
		if s, ok := p.eng.base.globals[g]; ok && !p.eng.perPath(g.Pkg) {
			return s
		}
	}
	s := new(Value)
	*s = zero(g.Type().(*types.Pointer).Elem())
	p.globals[g] = s
	return s
}

type compiler struct {
	e   *Engine
	cf  *cfunc
	fn  *ssa.Function
	reg map[ssa.Value]int
}

func (e *Engine) compile(cf *cfunc) {
	fn := cf.fn
	cf.name = fn.String()
	if fn.Origin() != nil && fn.Origin() != fn {
		cf.name = fn.Origin().String()
	}
	if pkg := fnPkg(fn); pkg != nil {
		cf.repo = e.isRepoPkg(pkg.Path())
	}
	if e.skipInit(fn) {
		cf.intr = func(fr *frame, a []Value) Value { return nil }
		return
	}
	front, modelled := frontEnds[cf.name]
	modelled = modelled && frontEndOn
	if in, ok := intrinsics[cf.name]; ok {
		cf.intr = in
		if modelled {
			cf.intr = func(fr *frame, a []Value) Value {
				if fr.p.concrete {
					return in(fr, a)
				}
				return front(fr, a)
			}
		}
		return
	}
	cf.fast = fasts[cf.name]
	if modelled { // except where a tree is made once
		cf.fast = func(fr *frame, a []Value) (Value, bool) {
			if fr.p.concrete {
				return nil, false
			}
			return front(fr, a), true
		}
	}
	if in := e.prefixIntrinsic(fn, cf.name); in != nil {
		cf.intr = in
		return
	}
	e.buildFn(fn)
	if fn.Blocks == nil && fn.Pkg != nil {
		if g := fn.Pkg.Func(fn.Name() + "_g"); g != nil { // the portable version of an assembly routine
			fn = g
			cf.fn = g
		}
	}
	if fn.Blocks == nil {
		cf.err = unsupported("no body and no model for %s", cf.name)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if ue, ok := r.(*unsupportedErr); ok {
				cf.err = unsupported("%s: %s", cf.name, ue.msg)
				return
			}
			panic(r)
		}
	}()
	c := &compiler{e: e, cf: cf, fn: fn, reg: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.newReg(p)
	}
	for _, f := range fn.FreeVars {
		c.newReg(f)
	}
	cf.nparams, cf.nfree = len(fn.Params), len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newReg(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{index: b.Index}
		cf.blocks = append(cf.blocks, cb)
	}
	for i, b := range fn.Blocks {
		c.block(cf.blocks[i], b)
	}
	if fn.Recover != nil {
		cf.recover = fn.Recover.Index
	}
	cf.nregs = len(c.reg)
	e.encoded.Store(cf.name, countInstrs(fn))
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func countInstrs(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func (c *compiler) newReg(v ssa.Value) int {
	i := len(c.reg)
	c.reg[v] = i
	return i
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, v: constValue(v)}
	case *ssa.Global:
		return opnd{r: -1, g: v}
	case *ssa.Function:
		return opnd{r: -1, v: &funcV{fn: v}}
	case *ssa.Builtin:
		return opnd{r: -1, v: &funcV{bi: v}}
	}
	i, ok := c.reg[v]
	if !ok {
		panic(unsupported("unknown value %s", v.Name()))
	}
	return opnd{r: i}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	ki := basicInfo(t)
	if _, ok := t.(*types.TypeParam); ok {
		panic(unsupported("constant of type parameter"))
	}
	switch {
	case ki.isInt:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return u & mask(ki.w)
		}
		i, _ := constant.Int64Val(v)
		return uint64(i) & mask(ki.w)
	case ki.boolean:
		return constant.BoolVal(c.Value)
	case ki.str:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case ki.float:
		f, _ := constant.Float64Val(c.Value)
		if ki.w == 32 {
			f = float64(float32(f))
		}
		return f
	case ki.cplx:
		return c.Complex128()
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return nilPtr
	}
	panic(unsupported("constant %s", c))
}

func (c *compiler) block(cb *cblock, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			if cb.phis == nil {
				cb.phis = map[int][]phiMove{}
			}
			for i, e := range in.Edges {
				pi := b.Preds[i].Index
				cb.phis[pi] = append(cb.phis[pi], phiMove{c.reg[in], c.op(e)})
			}
		case *ssa.Jump:
			n := b.Succs[0].Index
			cb.term = func(fr *frame) int { return n }
		case *ssa.If:
			cond := c.op(in.Cond)
			a, z := b.Succs[0].Index, b.Succs[1].Index
			pl := c.plan(b)
			cb.term = func(fr *frame) int {
				switch v := cond.get(fr).(type) {
				case bool:
					if v {
						return a
					}
					return z
				case *Term:
					if pl != nil && !fr.p.concrete {
						if _, known := fr.p.known[v]; !known {
							if nx, ok := fr.foldRun(pl, v); ok {
								return nx
							}
						}
					}
					if fr.p.branch(v) {
						return a
					}
					return z
				}
				panic(unsupported("if on %T", cond.get(fr)))
			}
		case *ssa.Return:
			ops := make([]opnd, len(in.Results))
			for i, r := range in.Results {
				ops[i] = c.op(r)
			}
			cb.term = func(fr *frame) int {
				switch len(ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = ops[0].get(fr)
				default:
					t := make(tupleV, len(ops))
					for i := range ops {
						t[i] = ops[i].get(fr)
					}
					fr.result = t
				}
				return -1
			}
		case *ssa.Panic:
			x := c.op(in.X)
			where := c.cf.name
			cb.term = func(fr *frame) int {
				panic(targetPanic{x.get(fr).(ifaceV), where})
			}
		case *ssa.DebugRef:
		default:
			cb.ins = append(cb.ins, c.instr(in))
		}
	}
	if cb.term == nil {
		cb.term = func(fr *frame) int { panic(unsupported("block without terminator")) }
	}
}

// call runs cf with args (free variables come from env).
func (p *Path) call(caller *frame, cf *cfunc, args []Value, env []Value) Value {
	if cf.err != nil {
		panic(unsupported("%v", cf.err))
	}
	if caller == nil {
		caller = &frame{p: p, g: p.main, cf: &cfunc{name: "top"}}
	}
	if cf.intr != nil {
		return cf.intr(caller, args)
	}
	if cf.fast != nil {
		if v, ok := cf.fast(caller, args); ok {
			return v
		}
	}
	if traceOn {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(targetPanic); !ok {
					fmt.Fprintln(os.Stderr, "  in", cf.name)
				}
				panic(r)
			}
		}()
	}
	p.depth++
	if p.depth > 5000 {
		p.depth = 0
		p.abort(abortBudget, "call depth exceeded in %s", cf.name)
	}
	fr := &frame{p: p, cf: cf, caller: caller}
	if caller != nil {
		fr.g = caller.g
	} else {
		fr.g = p.main
	}
	fr.regs = make([]Value, cf.nregs)
	copy(fr.regs, args)
	copy(fr.regs[cf.nparams:], env)
	if cf.hasDefer {
		d := p.depth
		fr.runWithDefers(0)
		p.depth = d
	} else {
		fr.run(0)
	}
	p.depth--
	return fr.result
}

func (fr *frame) run(start int) {
	p := fr.p
	cur := start
	blocks := fr.cf.blocks
	for {
		b := blocks[cur]
		for _, in := range b.ins {
			in(fr)
		}
		p.instrs += int64(len(b.ins)) + 1
		if p.instrs > p.nextTick {
			p.tick(fr)
		}
		if p.instrs > p.maxInstrs {
			p.abort(abortBudget, "instruction budget exceeded in %s", fr.cf.name)
		}
		nx := b.term(fr)
		if nx < 0 {
			return
		}
		nb := blocks[nx]
		from := cur
		if fr.edge != 0 {
			from = fr.edge - 1
			fr.edge = 0
		}
		if nb.phis != nil && from >= 0 {
			mv := nb.phis[from]
			if len(mv) == 1 {
				fr.regs[mv[0].dst] = mv[0].src.get(fr)
			} else if len(mv) > 1 {
				var tmp [8]Value
				t := tmp[:0]
				for i := range mv {
					t = append(t, mv[i].src.get(fr))
				}
				for i := range mv {
					fr.regs[mv[i].dst] = t[i]
				}
			}
		}
		cur = nx
	}
}

func (fr *frame) runWithDefers(start int) {
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			r = fr.hostPanic(r)
			fr.panicking = true
			fr.panicVal = r
			fr.runDefers()
		}()
		fr.run(start)
		fr.next = -1
	}()
	if fr.panicking {
		panic(fr.panicVal)
	}
	if fr.next == -2 { // recovered
		if fr.cf.recover >= 0 {
			fr.next = 0
			fr.run(fr.cf.recover)
		} else {
			fr.result = zeroResult(fr.cf.fn)
		}
	}
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

// hostPanic re-raises engine aborts and turns host runtime errors caused by the engine into unsupported aborts.
func (fr *frame) hostPanic(r any) any {
	switch r := r.(type) {
	case targetPanic:
		return r
	default:
		panic(r)
	}
}

// runDefers runs the deferred calls in LIFO order; a recover() clears panicking.
func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicVal = tp
				}
			}()
			d.fn()
		}()
	}
	if !fr.panicking {
		fr.next = -2
	}
}

func (p *Path) callFunc(fr *frame, f Value, args []Value) Value {
	fv, ok := f.(*funcV)
	if !ok || fv == nil {
		p.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	if fv.host != nil {
		return fv.host(fr, args)
	}
	if fv.bi != nil {
		panic(unsupported("builtin %s as a value", fv.bi.Name()))
	}
	return p.call(fr, p.eng.cfuncOf(fv.fn), args, fv.env)
}

// rtPanic raises a run-time error panic in the interpreted program.
func (p *Path) rtPanic(fr *frame, msg string) {
	where := ""
	if fr != nil && fr.cf != nil {
		where = fr.cf.name
	}
	panic(targetPanic{ifaceV{p.eng.runtimeErrType, msg}, where})
}

func (c *compiler) callArgs(cc *ssa.CallCommon) []opnd {
	ops := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		ops[i] = c.op(a)
	}
	return ops
}

// prepCall returns a function evaluating callee and arguments, yielding a thunk-able (callee, args).
func (c *compiler) prepCall(cc *ssa.CallCommon, isDefer bool) func(fr *frame) func(fr *frame) Value {
	args := c.callArgs(cc)
	e := c.e
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func(fr *frame) Value {
			iv, ok := recv.get(fr).(ifaceV)
			if !ok {
				panic(unsupported("invoke on %T", recv.get(fr)))
			}
			if iv.t == nil {
				fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			a := make([]Value, len(args)+1)
			a[0] = iv.v
			for i := range args {
				a[i+1] = args[i].get(fr)
			}
			if ho, ok := iv.v.(*hostObj); ok && ho.kind == "hosterr" {
				return func(fr *frame) Value { return ho.v.(string) }
			}
			cf := e.method(iv.t, m)
			if cf == nil {
				panic(unsupported("no method %s on %s", m.Name(), iv.t))
			}
			return func(fr *frame) Value { return fr.p.call(fr, cf, a, nil) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		argT := make([]types.Type, len(cc.Args))
		for i, a := range cc.Args {
			argT[i] = a.Type()
		}
		sig := cc.Signature()
		name := b.Name()
		return func(fr *frame) func(fr *frame) Value {
			a := make([]Value, len(args))
			for i := range args {
				a[i] = args[i].get(fr)
			}
			return func(fr2 *frame) Value { return fr2.p.builtin(fr2, name, a, argT, sig, fr) }
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		var cf *cfunc
		var once sync.Once
		return func(fr *frame) func(fr *frame) Value {
			once.Do(func() { cf = e.cfuncOf(fn) })
			a := make([]Value, len(args))
			for i := range args {
				a[i] = args[i].get(fr)
			}
			return func(fr *frame) Value { return fr.p.call(fr, cf, a, nil) }
		}
	}
	f := c.op(cc.Value)
	return func(fr *frame) func(fr *frame) Value {
		fv := f.get(fr)
		a := make([]Value, len(args))
		for i := range args {
			a[i] = args[i].get(fr)
		}
		return func(fr *frame) Value { return fr.p.callFunc(fr, fv, a) }
	}
}

func (e *Engine) method(t types.Type, m *types.Func) *cfunc {
	k := methodKey{typeID(t), m}
	if v, ok := e.methods.Load(k); ok {
		return v.(*cfunc)
	}
	e.ssaMu.Lock()
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	var fn *ssa.Function
	if sel != nil {
		fn = e.prog.MethodValue(sel)
	}
	e.ssaMu.Unlock()
	if fn == nil {
		return nil
	}
	cf := e.cfuncOf(fn)
	e.methods.Store(k, cf)
	return cf
}

type methodKey struct {
	t int
	m *types.Func
}

func (c *compiler) instr(in ssa.Instruction) instrFn {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			s := new(Value)
			*s = zero(t)
			fr.regs[dst] = s
		}
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.Call:
		// fast path for static callees
		if fn, ok := in.Call.Value.(*ssa.Function); ok && !in.Call.IsInvoke() {
			args := c.callArgs(&in.Call)
			e := c.e
			var cf *cfunc
			var once sync.Once
			return func(fr *frame) {
				once.Do(func() { cf = e.cfuncOf(fn) })
				a := make([]Value, len(args))
				for i := range args {
					a[i] = args[i].get(fr)
				}
				fr.regs[dst] = fr.p.call(fr, cf, a, nil)
			}
		}
		prep := c.prepCall(&in.Call, false)
		return func(fr *frame) {
			fr.regs[dst] = prep(fr)(fr)
		}
	case *ssa.Defer:
		prep := c.prepCall(&in.Call, true)
		if in.DeferStack != nil {
			// defer stack of an enclosing function (range-over-func); treated as this frame's
		}
		return func(fr *frame) {
			th := prep(fr)
			fr.defers = append(fr.defers, deferred{fn: func() { th(fr) }})
		}
	case *ssa.Go:
		prep := c.prepCall(&in.Call, true)
		return func(fr *frame) {
			th := prep(fr)
			fr.p.spawn(fr, th)
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.runDefersNormal()
		}
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		x := c.op(in.X)
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.Type(), dst)
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		return func(fr *frame) { fr.regs[dst] = x.get(fr).(tupleV)[i] }
	case *ssa.Field:
		x := c.op(in.X)
		i := in.Field
		return func(fr *frame) { fr.regs[dst] = x.get(fr).(structV)[i] }
	case *ssa.FieldAddr:
		x := c.op(in.X)
		i := in.Field
		return func(fr *frame) {
			pv, ok := x.get(fr).(ptr)
			if !ok {
				panic(unsupported("field address of %T", x.get(fr)))
			}
			if pv == nil {
				fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			sv, ok := (*pv).(structV)
			if !ok {
				panic(unsupported("field %d of %T in %s", i, *pv, fr.cf.name))
			}
			fr.regs[dst] = &sv[i]
		}
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		ixk := basicInfo(in.Index.Type())
		ek := kindInfo{}
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			ek = basicInfo(t.Elem())
		case *types.Basic:
			ek = kindInfo{w: 8, isInt: true}
		}
		return func(fr *frame) {
			xv := x.get(fr)
			switch a := xv.(type) {
			case string, *symStr:
				iv := ix.get(fr)
				fr.regs[dst] = fr.p.strIndex(fr, a, iv, ixk)
			case arrayV:
				fr.regs[dst] = fr.p.readElem(fr, a, ix.get(fr), ixk, ek)
			default:
				panic(unsupported("index of %T", xv))
			}
		}
	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		ixk := basicInfo(in.Index.Type())
		// a load-only use with a symbolic index can be turned into a selection
		loadOnly := true
		refs := in.Referrers()
		if refs != nil {
			for _, r := range *refs {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						loadOnly = false
					}
				}
			}
		}
		et := in.Type().Underlying().(*types.Pointer).Elem()
		ek := basicInfo(et)
		return func(fr *frame) {
			xv := x.get(fr)
			var a []Value
			switch v := xv.(type) {
			case sliceV:
				a = v.a
			case ptr:
				if v == nil {
					fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				av, ok := (*v).(arrayV)
				if !ok {
					panic(unsupported("index address of %T", *v))
				}
				a = av
			default:
				panic(unsupported("index address of %T", xv))
			}
			iv := ix.get(fr)
			if u, ok := iv.(uint64); ok {
				i := sext(u, ixk.w)
				if !ixk.signed {
					i = int64(u)
				}
				if i < 0 || i >= int64(len(a)) {
					fr.p.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
				}
				fr.regs[dst] = &a[i]
				return
			}
			t := iv.(*Term)
			fr.p.boundsCheck(fr, t, ixk, len(a))
			if loadOnly && ek.isInt && allInts(a) && len(a) <= 4096 {
				s := new(Value)
				*s = fr.p.selectElem(a, t, ixk, ek)
				fr.regs[dst] = s
				return
			}
			i := fr.p.concretize(t)
			fr.regs[dst] = &a[i]
		}
	case *ssa.Lookup:
		return c.lookup(in, dst)
	case *ssa.MakeChan:
		sz := c.op(in.Size)
		return func(fr *frame) {
			fr.regs[dst] = &chanV{cap: int(fr.p.concInt(sz.get(fr)))}
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		ops := make([]opnd, len(in.Bindings))
		for i, b := range in.Bindings {
			ops[i] = c.op(b)
		}
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = ops[i].get(fr)
			}
			fr.regs[dst] = &funcV{fn: fn, env: env}
		}
	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.regs[dst] = ifaceV{t, x.get(fr)} }
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.regs[dst] = newMap(kt) }
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n := int64(fr.p.concInt(l.get(fr)))
			m := int64(fr.p.concInt(cp.get(fr)))
			if n < 0 || n > 1<<40 {
				fr.p.rtPanic(fr, "makeslice: len out of range")
			}
			if m < n {
				fr.p.rtPanic(fr, "makeslice: cap out of range")
			}
			if m > 1<<24 {
				panic(unsupported("huge allocation"))
			}
			fr.p.instrs += m / 4
			a := make([]Value, m)
			if m > 0 {
				z := zero(et)
				switch z.(type) {
				case structV, arrayV:
					for i := range a {
						a[i] = copyVal(z)
					}
				default:
					for i := range a {
						a[i] = z
					}
				}
			}
			fr.regs[dst] = sliceV{a[:n]}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *frame) {
			mv := m.get(fr).(*mapV)
			if mv == nil {
				panic(targetPanic{ifaceV{fr.p.eng.runtimeErrType, "assignment to entry in nil map"}, fr.cf.name})
			}
			fr.p.mapSet(mv, k.get(fr), v.get(fr))
		}
	case *ssa.Next:
		x := c.op(in.Iter)
		if in.IsString {
			return func(fr *frame) { fr.regs[dst] = x.get(fr).(*hostObj).v.(*strIter).next(fr.p) }
		}
		tt := in.Type().(*types.Tuple)
		return func(fr *frame) { fr.regs[dst] = x.get(fr).(*hostObj).v.(*mapIter).next(fr.p, tt) }
	case *ssa.Range:
		x := c.op(in.X)
		repo := c.cf.repo
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case string, *symStr:
				fr.regs[dst] = &hostObj{"striter", &strIter{s: v}}
			case *mapV:
				fr.regs[dst] = &hostObj{"mapiter", newMapIter(fr.p, v, repo)}
			default:
				panic(unsupported("range over %T", v))
			}
		}
	case *ssa.Select:
		return c.selectInstr(in, dst)
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *frame) { fr.p.chanSend(fr, ch.get(fr).(*chanV), x.get(fr)) }
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := x.get(fr).(sliceV)
			if len(s.a) < n {
				fr.p.rtPanic(fr, "cannot convert slice to array pointer")
			}
			if s.a == nil {
				fr.regs[dst] = nilPtr
				return
			}
			v := new(Value)
			*v = arrayV(s.a[:n:n])
			fr.regs[dst] = v
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		return func(fr *frame) {
			pv, ok := a.get(fr).(ptr)
			if !ok {
				panic(unsupported("store through %T", a.get(fr)))
			}
			if pv == nil {
				fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			storeTo(pv, v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	}
	panic(unsupported("instruction %T", in))
}

// runDefersNormal runs defers on the normal return path.
func (fr *frame) runDefersNormal() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d.fn()
	}
}

func allInts(a []Value) bool {
	for _, v := range a {
		switch v.(type) {
		case uint64:
		case *Term:
		default:
			return false
		}
	}
	return true
}

func (p *Path) boundsCheck(fr *frame, t *Term, ixk kindInfo, n int) {
	// index as an unsigned 64-bit value
	t64 := p.tb.Resize(t, 64, ixk.signed)
	ok := p.tb.Bin(OpUlt, t64, p.tb.Const(uint64(n), 64))
	if !p.branch(ok) {
		p.rtPanic(fr, fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

// selectElem builds a[t] as a balanced selection over runs of equal values.
func (p *Path) selectElem(a []Value, t *Term, ixk, ek kindInfo) Value {
	type run struct {
		lo, hi uint64
		v      *Term
	}
	var runs []run
	for i, v := range a {
		tv := p.term(v, ek.w)
		if n := len(runs); n > 0 && runs[n-1].v == tv {
			runs[n-1].hi = uint64(i)
			continue
		}
		runs = append(runs, run{uint64(i), uint64(i), tv})
	}
	var build func(rs []run) *Term
	build = func(rs []run) *Term {
		if len(rs) == 1 {
			return rs[0].v
		}
		m := len(rs) / 2
		c := p.tb.Bin(OpUlt, t, p.tb.Const(rs[m].lo, t.w))
		return p.tb.Ite(c, build(rs[:m]), build(rs[m:]))
	}
	return p.tbInt(build(runs))
}

func (p *Path) readElem(fr *frame, a []Value, iv Value, ixk, ek kindInfo) Value {
	if u, ok := iv.(uint64); ok {
		i := int64(u)
		if ixk.signed {
			i = sext(u, ixk.w)
		}
		if i < 0 || i >= int64(len(a)) {
			p.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
		}
		return a[i]
	}
	t := iv.(*Term)
	p.boundsCheck(fr, t, ixk, len(a))
	if ek.isInt && allInts(a) {
		return p.selectElem(a, t, ixk, ek)
	}
	return a[p.concretize(t)]
}

func (p *Path) strIndex(fr *frame, s Value, iv Value, ixk kindInfo) Value {
	if u, ok := iv.(uint64); ok {
		i := int64(u)
		if ixk.signed {
			i = sext(u, ixk.w)
		}
		if i < 0 || i >= int64(strLen(s)) {
			p.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, strLen(s)))
		}
		return strAt(s, int(i))
	}
	return p.readElem(fr, strBytes(s), iv, ixk, kindInfo{w: 8, isInt: true})
}

func (c *compiler) unop(in *ssa.UnOp, dst int) instrFn {
	x := c.op(in.X)
	ki := basicInfo(in.X.Type())
	switch in.Op {
	case token.MUL:
		return func(fr *frame) {
			pv, ok := x.get(fr).(ptr)
			if !ok {
				panic(unsupported("load through %T in %s", x.get(fr), fr.cf.name))
			}
			if pv == nil {
				fr.p.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			v := *pv
			switch v.(type) {
			case structV, arrayV:
				v = copyVal(v)
			}
			fr.regs[dst] = v
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = fr.p.tb.Not(v)
			default:
				panic(unsupported("! of %T", v))
			}
		}
	case token.SUB:
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[dst] = -v & mask(ki.w)
			case *Term:
				fr.regs[dst] = fr.p.tb.Un(OpNeg, v)
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			default:
				panic(unsupported("- of %T", v))
			}
		}
	case token.XOR:
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.regs[dst] = ^v & mask(ki.w)
			case *Term:
				fr.regs[dst] = fr.p.tb.Un(OpBNot, v)
			default:
				panic(unsupported("^ of %T", v))
			}
		}
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.p.chanRecv(fr, x.get(fr).(*chanV), et)
			if in.CommaOk {
				fr.regs[dst] = tupleV{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic(unsupported("unary %s", in.Op))
}

func (c *compiler) binop(in *ssa.BinOp, dst int) instrFn {
	x, y := c.op(in.X), c.op(in.Y)
	ki := basicInfo(in.X.Type())
	ky := basicInfo(in.Y.Type())
	xt := in.X.Type()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		yt := in.Y.Type()
		return func(fr *frame) {
			r := fr.p.equal(fr, x.get(fr), y.get(fr), xt, yt)
			if op == token.NEQ {
				switch b := r.(type) {
				case bool:
					r = !b
				case *Term:
					r = fr.p.tbBool(fr.p.tb.Not(b))
				}
			}
			fr.regs[dst] = r
		}
	case token.SHL, token.SHR:
		return func(fr *frame) {
			xv, yv := x.get(fr), y.get(fr)
			fr.regs[dst] = fr.p.shift(fr, op, xv, yv, ki, ky)
		}
	}
	if ki.isInt {
		return func(fr *frame) {
			xv, yv := x.get(fr), y.get(fr)
			a, ok1 := xv.(uint64)
			b, ok2 := yv.(uint64)
			if ok1 && ok2 {
				fr.regs[dst] = fr.p.intOp(fr, op, a, b, ki)
				return
			}
			fr.regs[dst] = fr.p.symIntOp(fr, op, xv, yv, ki)
		}
	}
	if ki.str {
		return func(fr *frame) {
			xv, yv := x.get(fr), y.get(fr)
			switch op {
			case token.ADD:
				fr.p.instrs += int64(strLen(xv)+strLen(yv)) / 16
				fr.regs[dst] = strConcat(xv, yv)
			case token.LSS:
				fr.regs[dst] = fr.p.strLess(xv, yv)
			case token.GTR:
				fr.regs[dst] = fr.p.strLess(yv, xv)
			case token.LEQ:
				fr.regs[dst] = fr.p.not(fr.p.strLess(yv, xv))
			case token.GEQ:
				fr.regs[dst] = fr.p.not(fr.p.strLess(xv, yv))
			default:
				panic(unsupported("string %s", op))
			}
		}
	}
	if ki.float {
		return func(fr *frame) {
			a, ok1 := x.get(fr).(float64)
			b, ok2 := y.get(fr).(float64)
			if !ok1 || !ok2 {
				panic(unsupported("symbolic float"))
			}
			var r Value
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				r = a < b
			case token.LEQ:
				r = a <= b
			case token.GTR:
				r = a > b
			case token.GEQ:
				r = a >= b
			default:
				panic(unsupported("float %s", op))
			}
			if f, ok := r.(float64); ok && ki.w == 32 {
				r = float64(float32(f))
			}
			fr.regs[dst] = r
		}
	}
	if ki.cplx {
		return func(fr *frame) {
			a, b := x.get(fr).(complex128), y.get(fr).(complex128)
			switch op {
			case token.ADD:
				fr.regs[dst] = a + b
			case token.SUB:
				fr.regs[dst] = a - b
			case token.MUL:
				fr.regs[dst] = a * b
			case token.QUO:
				fr.regs[dst] = a / b
			}
		}
	}
	return func(fr *frame) { panic(unsupported("binop %s on %s", op, xt)) }
}

func (p *Path) not(v Value) Value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return p.tbBool(p.tb.Not(b))
	}
	panic(unsupported("not %T", v))
}

func (p *Path) intOp(fr *frame, op token.Token, a, b uint64, ki kindInfo) Value {
	m := mask(ki.w)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			p.rtPanic(fr, "integer divide by zero")
		}
		if ki.signed {
			if op == token.QUO {
				return evalOp(OpSDiv, ki.w, ki.w, a, b, 0)
			}
			return evalOp(OpSRem, ki.w, ki.w, a, b, 0)
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.LSS:
		if ki.signed {
			return sext(a, ki.w) < sext(b, ki.w)
		}
		return a < b
	case token.LEQ:
		if ki.signed {
			return sext(a, ki.w) <= sext(b, ki.w)
		}
		return a <= b
	case token.GTR:
		if ki.signed {
			return sext(a, ki.w) > sext(b, ki.w)
		}
		return a > b
	case token.GEQ:
		if ki.signed {
			return sext(a, ki.w) >= sext(b, ki.w)
		}
		return a >= b
	}
	panic(unsupported("int op %s", op))
}

func (p *Path) symIntOp(fr *frame, op token.Token, xv, yv Value, ki kindInfo) Value {
	a, b := p.term(xv, ki.w), p.term(yv, ki.w)
	tb := p.tb
	lt, le := OpUlt, OpUle
	if ki.signed {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.ADD:
		return p.tbInt(tb.Bin(OpAdd, a, b))
	case token.SUB:
		return p.tbInt(tb.Bin(OpSub, a, b))
	case token.MUL:
		return p.tbInt(tb.Bin(OpMul, a, b))
	case token.QUO, token.REM:
		if p.branch(tb.Eq(b, tb.Const(0, ki.w))) {
			p.rtPanic(fr, "integer divide by zero")
		}
		o := OpUDiv
		switch {
		case op == token.QUO && ki.signed:
			o = OpSDiv
		case op == token.REM && ki.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return p.tbInt(tb.Bin(o, a, b))
	case token.AND:
		return p.tbInt(tb.Bin(OpBAnd, a, b))
	case token.OR:
		return p.tbInt(tb.Bin(OpBOr, a, b))
	case token.XOR:
		return p.tbInt(tb.Bin(OpBXor, a, b))
	case token.AND_NOT:
		return p.tbInt(tb.Bin(OpBAnd, a, tb.Un(OpBNot, b)))
	case token.LSS:
		return p.tbBool(tb.Bin(lt, a, b))
	case token.LEQ:
		return p.tbBool(tb.Bin(le, a, b))
	case token.GTR:
		return p.tbBool(tb.Bin(lt, b, a))
	case token.GEQ:
		return p.tbBool(tb.Bin(le, b, a))
	}
	panic(unsupported("symbolic int op %s", op))
}

func (p *Path) shift(fr *frame, op token.Token, xv, yv Value, ki, ky kindInfo) Value {
	if yu, ok := yv.(uint64); ok {
		if ky.signed && sext(yu, ky.w) < 0 {
			p.rtPanic(fr, "negative shift amount")
		}
		if xu, ok := xv.(uint64); ok {
			if op == token.SHL {
				if yu >= uint64(ki.w) {
					return uint64(0)
				}
				return (xu << yu) & mask(ki.w)
			}
			if ki.signed {
				return evalOp(OpAShr, ki.w, ki.w, xu, yu, 0)
			}
			if yu >= uint64(ki.w) {
				return uint64(0)
			}
			return xu >> yu
		}
	}
	a := p.term(xv, ki.w)
	b := p.term(yv, ky.w)
	if ky.signed {
		if !b.isConst() && p.branch(p.tb.Bin(OpSlt, b, p.tb.Const(0, ky.w))) {
			p.rtPanic(fr, "negative shift amount")
		}
	}
	// saturate the amount to the operand width
	var amt *Term
	if b.w > ki.w {
		big := p.tb.Not(p.tb.Bin(OpUlt, b, p.tb.Const(uint64(ki.w), b.w)))
		amt = p.tb.Ite(big, p.tb.Const(uint64(ki.w), ki.w), p.tb.Resize(b, ki.w, false))
	} else {
		amt = p.tb.Resize(b, ki.w, false)
	}
	o := OpShl
	if op == token.SHR {
		o = OpLShr
		if ki.signed {
			o = OpAShr
		}
	}
	return p.tbInt(p.tb.Bin(o, a, amt))
}

// equal compares two values; the result is a bool or a boolean term.
func (p *Path) equal(fr *frame, a, b Value, ta, tb types.Type) Value {
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case *Term:
			return p.tbBool(p.tb.Eq(p.tb.Const(x, y.w), y))
		}
	case *Term:
		return p.tbBool(p.tb.Eq(x, p.term(b, x.w)))
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return p.tbBool(p.tb.Eq(p.tb.Bool(x), y))
		}
	case string, *symStr:
		switch b.(type) {
		case string, *symStr:
			return p.strEq(a, b)
		}
	case float64:
		return x == b.(float64)
	case complex128:
		return x == b.(complex128)
	case ptr:
		switch y := b.(type) {
		case ptr:
			return x == y
		default:
			return false
		}
	case *hostObj:
		y, _ := b.(*hostObj)
		return x == y
	case *mapV:
		return x == b.(*mapV)
	case *chanV:
		return x == b.(*chanV)
	case *funcV:
		y := b.(*funcV)
		if x == nil || y == nil {
			return x == y
		}
		return x == y
	case sliceV:
		y := b.(sliceV)
		// only comparison with nil is legal
		if y.a == nil {
			return x.a == nil
		}
		return y.a == nil && x.a == nil
	case ifaceV:
		y, ok := b.(ifaceV)
		if !ok {
			y = ifaceV{tb, b}
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !sameType(x.t, y.t) {
			return false
		}
		switch x.v.(type) {
		case sliceV, *mapV, *funcV:
			p.rtPanic(fr, "comparing uncomparable type "+x.t.String())
		}
		return p.equal(fr, x.v, y.v, x.t, y.t)
	case structV:
		y := b.(structV)
		return p.equalAll(fr, x, y)
	case arrayV:
		y := b.(arrayV)
		return p.equalAll(fr, x, y)
	}
	if _, ok := b.(ifaceV); ok {
		return p.equal(fr, ifaceV{ta, a}, b, ta, tb)
	}
	panic(unsupported("== on %T and %T", a, b))
}

func (p *Path) equalAll(fr *frame, x, y []Value) Value {
	acc := p.tb.True
	for i := range x {
		r := p.equal(fr, x[i], y[i], nil, nil)
		switch r := r.(type) {
		case bool:
			if !r {
				return false
			}
		case *Term:
			acc = p.tb.And(acc, r)
		}
	}
	return p.tbBool(acc)
}

var traceOn = os.Getenv("VERIF_TRACE") != ""
