package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Interpreted goroutines run one at a time on host goroutines that hand a baton to each other. By default the running
// goroutine keeps going until it blocks; with p.schedSym every synchronisation operation is a scheduling point whose
// successor is a symbolic choice.

type gor struct {
	p     *Path
	id    int
	wake  chan struct{}
	ready func() bool
	done  bool
	depth int
	kill  bool
	name  string
}

type chanV struct {
	cap    int
	buf    []Value
	closed bool
	// unbuffered rendezvous
	recvq []*waiter
	sendq []*waiter
}

type waiter struct {
	g     *gor
	v     Value
	ok    bool
	done  bool
	sel   *selState // shared by the cases of one select
	index int
	ch    *chanV
}

type selState struct {
	fired bool
	index int
}

func (w *waiter) live() bool { return !w.done && (w.sel == nil || !w.sel.fired) }

func (w *waiter) fire() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.index = w.index
	}
}

func (p *Path) initSched() {
	p.main = &gor{p: p, id: 0, wake: make(chan struct{}, 1), name: "main"}
	p.gors = []*gor{p.main}
	p.cur = p.main
}

func (p *Path) spawn(fr *frame, th func(fr *frame) Value) {
	if p.inInit {
		panic(unsupported("goroutine started by package initialisation"))
	}
	g := &gor{p: p, id: p.gorSeq + 1, wake: make(chan struct{}, 1), name: fr.cf.name}
	p.gorSeq++
	p.gors = append(p.gors, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if !g.kill {
				switch r := r.(type) {
				case nil:
				case targetPanic:
					if p.gorAbort == nil {
						p.gorAbort = r
					}
				default:
					if p.gorAbort == nil {
						p.gorAbort = r
					}
				}
			} else {
				p.killed <- struct{}{}
				return
			}
			if p.gorAbort != nil {
				p.main.wake <- struct{}{}
				return
			}
			defer func() { // a decision inside pick may abort the path
				if r := recover(); r != nil {
					p.gorAbort = r
					p.main.wake <- struct{}{}
				}
			}()
			nx := p.pick(nil)
			if nx == nil {
				p.gorAbort = p.deadlock()
				p.main.wake <- struct{}{}
				return
			}
			p.switchTo(nx)
		}()
		if g.kill {
			return
		}
		p.cur = g
		p.depth = 0
		nf := &frame{p: p, g: g, cf: &cfunc{name: "go"}}
		th(nf)
	}()
	p.schedPoint(fr)
}

type deadlockErr struct{ msg string }

func (p *Path) deadlock() any {
	s := "all goroutines are blocked:"
	for _, g := range p.gors {
		if !g.done {
			s += " " + g.name
		}
	}
	return &deadlockErr{s}
}

func (p *Path) switchTo(g *gor) { g.wake <- struct{}{} }

// pick chooses the next goroutine among those that can run; cur may be among them.
func (p *Path) pick(cur *gor) *gor {
	var run []*gor
	live := p.gors[:0]
	for _, g := range p.gors {
		if g.done {
			continue
		}
		live = append(live, g)
	}
	p.gors = live
	for _, g := range live {
		if g.ready == nil || g.ready() {
			run = append(run, g)
		}
	}
	if len(run) == 0 {
		return nil
	}
	if cur != nil && (cur.ready == nil || cur.ready()) {
		if !p.schedSym {
			return cur
		}
	}
	if p.schedSym && p.preemptLeft > 0 && cur != nil && (cur.ready == nil || cur.ready()) {
		// a switch away from a goroutine that could go on is a preemption
		if p.preemptLeft == 1 || len(run) < 2 {
			return cur
		}
		if !p.branch(p.newVar(p.freshKey("preempt"), "b", 0)) {
			return cur
		}
		p.preemptLeft--
		rest := run[:0]
		for _, g := range run {
			if g != cur {
				rest = append(rest, g)
			}
		}
		run = rest
	}
	if p.schedSym && len(run) > 1 {
		return run[p.choose("sched", len(run))]
	}
	// round robin after the current one
	if cur != nil {
		for _, g := range run {
			if g.id > cur.id {
				return g
			}
		}
	}
	return run[0]
}

// block suspends the current goroutine until ready() holds.
func (p *Path) block(fr *frame, ready func() bool) {
	g := p.cur
	g.ready = ready
	for {
		nx := p.pick(g)
		if nx == g {
			g.ready = nil
			return
		}
		if nx == nil {
			d := p.deadlock()
			if g == p.main {
				panic(d)
			}
			p.gorAbort = d
			p.main.wake <- struct{}{}
			p.park(g)
			continue
		}
		p.switchTo(nx)
		p.park(g)
		if g.ready == nil || g.ready() {
			g.ready = nil
			return
		}
	}
}

// park waits for the baton.
func (p *Path) park(g *gor) {
	d := p.depth
	<-g.wake
	if g.kill {
		panic(&pathAbort{abortKilled, "killed"})
	}
	if g == p.main && p.gorAbort != nil {
		r := p.gorAbort
		p.cur = g
		panic(r)
	}
	p.cur = g
	p.depth = d
}

func (p *Path) schedPoint(fr *frame) {
	if p.schedSym && len(p.gors) > 1 {
		p.block(fr, nil)
	}
}

// yield gives every other goroutine a chance to run.
func (p *Path) yield(fr *frame) {
	g := p.cur
	if p.schedSym {
		p.schedPoint(fr)
		return
	}
	for _, o := range p.gors {
		if o != g && !o.done && (o.ready == nil || o.ready()) {
			g.ready = nil
			p.switchTo(o)
			p.park(g)
			return
		}
	}
}

// killGors ends the goroutines left over when the path is done.
func (p *Path) killGors() {
	for _, g := range p.gors {
		if g == p.main || g.done {
			continue
		}
		g.kill = true
		g.wake <- struct{}{}
		<-p.killed
	}
	p.gors = nil
}

func (c *chanV) firstLive(q []*waiter) *waiter {
	for _, w := range q {
		if w.live() {
			return w
		}
	}
	return nil
}

func compact(q []*waiter) []*waiter {
	r := q[:0]
	for _, w := range q {
		if w.live() {
			r = append(r, w)
		}
	}
	return r
}

// trySend returns true when the send went through without blocking.
func (p *Path) trySend(fr *frame, c *chanV, v Value) bool {
	if c.closed {
		panic(targetPanic{ifaceV{p.eng.runtimeErrType, "send on closed channel"}, fr.cf.name})
	}
	if w := c.firstLive(c.recvq); w != nil {
		w.v, w.ok = copyVal(v), true
		w.fire()
		c.recvq = compact(c.recvq)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, copyVal(v))
		return true
	}
	return false
}

func (p *Path) tryRecv(c *chanV) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := c.firstLive(c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.ok = true
			w.fire()
			c.sendq = compact(c.sendq)
		}
		return v, true, true
	}
	if w := c.firstLive(c.sendq); w != nil {
		v := w.v
		w.ok = true
		w.fire()
		c.sendq = compact(c.sendq)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (p *Path) chanSend(fr *frame, c *chanV, v Value) {
	p.schedPoint(fr)
	if c == nil {
		p.block(fr, func() bool { return false })
		return
	}
	if p.trySend(fr, c, v) {
		return
	}
	w := &waiter{g: p.cur, v: copyVal(v), ch: c}
	c.sendq = append(c.sendq, w)
	p.block(fr, func() bool { return w.done })
	if !w.ok {
		panic(targetPanic{ifaceV{p.eng.runtimeErrType, "send on closed channel"}, fr.cf.name})
	}
}

func (p *Path) chanRecv(fr *frame, c *chanV, et types.Type) (Value, Value) {
	p.schedPoint(fr)
	if c == nil {
		p.block(fr, func() bool { return false })
		return nil, nil
	}
	if v, ok, done := p.tryRecv(c); done {
		if !ok {
			v = zero(et)
		}
		return v, ok
	}
	w := &waiter{g: p.cur, ch: c}
	c.recvq = append(c.recvq, w)
	p.block(fr, func() bool { return w.done })
	if !w.ok {
		return zero(et), false
	}
	return w.v, true
}

func (p *Path) chanClose(fr *frame, c *chanV) {
	p.schedPoint(fr)
	if c == nil {
		panic(targetPanic{ifaceV{p.eng.runtimeErrType, "close of nil channel"}, fr.cf.name})
	}
	if c.closed {
		panic(targetPanic{ifaceV{p.eng.runtimeErrType, "close of closed channel"}, fr.cf.name})
	}
	c.closed = true
	for _, w := range c.recvq {
		if w.live() {
			w.ok = false
			w.fire()
		}
	}
	for _, w := range c.sendq {
		if w.live() {
			w.ok = false
			w.fire()
		}
	}
	c.recvq, c.sendq = nil, nil
}

func (c *compiler) selectInstr(in *ssa.Select, dst int) instrFn {
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   types.Type
	}
	states := make([]st, len(in.States))
	for i, s := range in.States {
		states[i] = st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			states[i].v = c.op(s.Send)
		}
	}
	return func(fr *frame) {
		p := fr.p
		p.schedPoint(fr)
		chans := make([]*chanV, len(states))
		vals := make([]Value, len(states))
		for i := range states {
			chans[i], _ = states[i].ch.get(fr).(*chanV)
			if states[i].send {
				vals[i] = states[i].v.get(fr)
			}
		}
		result := func(idx int, v Value, ok bool) {
			t := tupleV{uint64(int64(idx)), ok}
			for i := range states {
				if states[i].send {
					continue
				}
				if i == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, zero(states[i].et))
				}
			}
			fr.regs[dst] = t
		}
		// ready cases
		var rdy []int
		for i, c := range chans {
			if c == nil {
				continue
			}
			if states[i].send {
				if c.closed || c.firstLive(c.recvq) != nil || len(c.buf) < c.cap {
					rdy = append(rdy, i)
				}
			} else if len(c.buf) > 0 || c.closed || c.firstLive(c.sendq) != nil {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 0 {
			k := rdy[0]
			if p.schedSym && len(rdy) > 1 {
				k = rdy[p.choose("select", len(rdy))]
			}
			if states[k].send {
				p.trySend(fr, chans[k], vals[k])
				result(k, nil, false)
			} else {
				v, ok, _ := p.tryRecv(chans[k])
				result(k, v, ok)
			}
			return
		}
		if !in.Blocking {
			result(-1, nil, false)
			return
		}
		ss := &selState{}
		ws := make([]*waiter, len(states))
		for i, c := range chans {
			if c == nil {
				continue
			}
			w := &waiter{g: p.cur, sel: ss, index: i, ch: c, v: vals[i]}
			ws[i] = w
			if states[i].send {
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		p.block(fr, func() bool { return ss.fired })
		k := ss.index
		if states[k].send {
			if !ws[k].ok {
				panic(targetPanic{ifaceV{p.eng.runtimeErrType, "send on closed channel"}, fr.cf.name})
			}
			result(k, nil, false)
			return
		}
		v, ok := ws[k].v, ws[k].ok
		if !ok {
			v = zero(states[k].et)
		}
		result(k, v, ok)
	}
}

// lockCell is the integer cell of a sync type that carries the modelled state.
func lockCell(v Value) ptr {
	pv, ok := v.(ptr)
	if !ok {
		panic(unsupported("lock of %T", v))
	}
	c := firstInt(pv)
	if c == nil {
		panic(unsupported("sync type without an integer field"))
	}
	return c
}

func firstInt(v ptr) ptr {
	if v == nil {
		return nil
	}
	switch x := (*v).(type) {
	case uint64:
		return v
	case structV:
		for i := range x {
			if r := firstInt(&x[i]); r != nil {
				return r
			}
		}
	}
	return nil
}
