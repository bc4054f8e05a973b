package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A template is a frozen object graph: the memory ranges reachable from its roots, the roots themselves and the
// per-path globals. instantiate copies it for one path; cells outside the graph's own ranges are shared.

type memRange struct {
	addr uintptr
	n    int
	keep []Value // keeps the memory alive
}

type template struct {
	ranges  []memRange
	globals map[*ssa.Global]ptr
	root    Value
	maps    []*mapV
	chans   []*chanV
	cells   int
}

// sharedSet answers whether an address belongs to memory shared by all paths.
type sharedSet struct {
	ranges []memRange
}

func (s *sharedSet) has(a uintptr) bool {
	if s == nil {
		return false
	}
	i := sort.Search(len(s.ranges), func(i int) bool { return s.ranges[i].addr > a })
	if i == 0 {
		return false
	}
	r := s.ranges[i-1]
	return a < r.addr+uintptr(r.n)*cellSize
}

type collector struct {
	shared *sharedSet
	raw    []memRange
	seenP  map[uintptr]int // start address -> length already visited
	maps   map[*mapV]bool
	mlist  []*mapV
	chans  map[*chanV]bool
	clist  []*chanV
	funcs  map[*funcV]bool
	work   []Value
}

func (c *collector) addRange(a []Value) {
	if len(a) == 0 {
		return
	}
	addr := sliceAddr(a)
	if c.shared.has(addr) {
		return
	}
	if n, ok := c.seenP[addr]; ok && n >= len(a) {
		return
	} else if ok {
		c.seenP[addr] = len(a)
		c.raw = append(c.raw, memRange{addr, len(a), a})
		c.work = append(c.work, a[n:]...)
		return
	}
	c.seenP[addr] = len(a)
	c.raw = append(c.raw, memRange{addr, len(a), a})
	c.work = append(c.work, a...)
}

func (c *collector) run() {
	for len(c.work) > 0 {
		v := c.work[len(c.work)-1]
		c.work = c.work[:len(c.work)-1]
		switch x := v.(type) {
		case structV:
			c.addRange(x)
		case arrayV:
			c.addRange(x)
		case tupleV:
			c.work = append(c.work, x...)
		case sliceV:
			if x.a != nil {
				c.addRange(x.a[:cap(x.a)])
			}
		case ptr:
			if x != nil {
				c.addRange(sliceFrom(x, 1))
			}
		case *dataPtr:
			c.addRange(x.a)
		case ifaceV:
			if x.t != nil {
				c.work = append(c.work, x.v)
			}
		case *funcV:
			if x != nil && !c.funcs[x] {
				c.funcs[x] = true
				c.work = append(c.work, x.env...)
			}
		case *mapV:
			if x != nil && !c.maps[x] && !x.frozen {
				c.maps[x] = true
				c.mlist = append(c.mlist, x)
				for _, e := range x.entries {
					if !e.dead {
						c.work = append(c.work, e.k, e.v)
					}
				}
			}
		case *chanV:
			if x != nil && !c.chans[x] {
				c.chans[x] = true
				c.clist = append(c.clist, x)
				c.work = append(c.work, x.buf...)
			}
		}
	}
}

func newCollector(shared *sharedSet) *collector {
	return &collector{shared: shared, seenP: map[uintptr]int{}, maps: map[*mapV]bool{}, chans: map[*chanV]bool{}, funcs: map[*funcV]bool{}}
}

func mergeRanges(raw []memRange) []memRange {
	sort.Slice(raw, func(i, j int) bool {
		if raw[i].addr != raw[j].addr {
			return raw[i].addr < raw[j].addr
		}
		return raw[i].n > raw[j].n
	})
	var out []memRange
	for _, r := range raw {
		if k := len(out); k > 0 {
			l := &out[k-1]
			end := l.addr + uintptr(l.n)*cellSize
			if r.addr < end {
				if re := r.addr + uintptr(r.n)*cellSize; re > end {
					l.n = int((re - l.addr) / cellSize)
				}
				continue
			}
		}
		out = append(out, r)
	}
	return out
}

// freeze builds a template for root and the given globals.
func freeze(shared *sharedSet, root Value, globals map[*ssa.Global]ptr) *template {
	c := newCollector(shared)
	c.work = append(c.work, root)
	for _, g := range globals {
		c.addRange(sliceFrom(g, 1))
	}
	c.run()
	t := &template{ranges: mergeRanges(c.raw), globals: globals, root: root, maps: c.mlist, chans: c.clist}
	for i := range t.ranges {
		t.ranges[i].keep = sliceFrom(at(t.ranges[i].addr), t.ranges[i].n)
		t.cells += t.ranges[i].n
	}
	return t
}

type cloner struct {
	t     *template
	mem   [][]Value
	maps  map[*mapV]*mapV
	chans map[*chanV]*chanV
	funcs map[*funcV]*funcV
}

func (c *cloner) locate(a uintptr) ([]Value, int, bool) {
	rs := c.t.ranges
	lo, hi := 0, len(rs)
	for lo < hi {
		m := int(uint(lo+hi) >> 1)
		if rs[m].addr > a {
			hi = m
		} else {
			lo = m + 1
		}
	}
	if lo == 0 {
		return nil, 0, false
	}
	r := &rs[lo-1]
	off := int((a - r.addr) / cellSize)
	if off >= r.n {
		return nil, 0, false
	}
	return c.mem[lo-1], off, true
}

func (c *cloner) val(v Value) Value {
	switch x := v.(type) {
	case uint64, bool, string, float64, nil:
		return v
	case structV:
		if len(x) == 0 {
			return x
		}
		if m, off, ok := c.locate(sliceAddr(x)); ok {
			return structV(m[off : off+len(x) : off+len(x)])
		}
		return x
	case arrayV:
		if len(x) == 0 {
			return x
		}
		if m, off, ok := c.locate(sliceAddr(x)); ok {
			return arrayV(m[off : off+len(x) : off+len(x)])
		}
		return x
	case tupleV:
		r := make(tupleV, len(x))
		for i := range x {
			r[i] = c.val(x[i])
		}
		return r
	case sliceV:
		if cap(x.a) == 0 {
			return x
		}
		if m, off, ok := c.locate(sliceAddr(x.a)); ok {
			return sliceV{m[off : off+len(x.a) : off+cap(x.a)]}
		}
		return x
	case ptr:
		if x == nil {
			return x
		}
		if m, off, ok := c.locate(addrOf(x)); ok {
			return ptr(&m[off])
		}
		return x
	case *dataPtr:
		if len(x.a) > 0 {
			if m, off, ok := c.locate(sliceAddr(x.a)); ok {
				return &dataPtr{a: m[off : off+len(x.a)]}
			}
		}
		return x
	case ifaceV:
		if x.t == nil {
			return x
		}
		return ifaceV{x.t, c.val(x.v)}
	case *funcV:
		if x == nil || len(x.env) == 0 {
			return x
		}
		if f, ok := c.funcs[x]; ok {
			return f
		}
		f := &funcV{fn: x.fn, bi: x.bi, host: x.host}
		c.funcs[x] = f
		f.env = make([]Value, len(x.env))
		for i := range x.env {
			f.env[i] = c.val(x.env[i])
		}
		return f
	case *mapV:
		if m, ok := c.maps[x]; ok {
			return m
		}
		return x
	case *chanV:
		if m, ok := c.chans[x]; ok {
			return m
		}
		return x
	}
	return v
}

// instantiate copies the template and returns its root and globals.
func (t *template) instantiate() (Value, map[*ssa.Global]ptr) {
	c := &cloner{t: t, mem: make([][]Value, len(t.ranges)), maps: make(map[*mapV]*mapV, len(t.maps)), chans: map[*chanV]*chanV{}, funcs: map[*funcV]*funcV{}}
	for i := range t.ranges {
		c.mem[i] = make([]Value, t.ranges[i].n)
	}
	for _, m := range t.maps {
		c.maps[m] = &mapV{keyT: m.keyT}
	}
	for _, ch := range t.chans {
		c.chans[ch] = &chanV{cap: ch.cap, closed: ch.closed}
	}
	for i := range t.ranges {
		src := t.ranges[i].keep
		dst := c.mem[i]
		for k := range src {
			dst[k] = c.val(src[k])
		}
	}
	for _, m := range t.maps {
		n := c.maps[m]
		n.idx = make(map[any]*mapEntry, m.n)
		n.entries = make([]*mapEntry, 0, m.n)
		for _, e := range m.entries {
			if e.dead {
				continue
			}
			ne := &mapEntry{k: c.val(e.k), v: c.val(e.v)}
			n.entries = append(n.entries, ne)
			n.n++
			if hk, ok := concreteKey(ne.k); ok {
				n.idx[hk] = ne
			} else {
				n.nsym++
			}
		}
	}
	for _, ch := range t.chans {
		n := c.chans[ch]
		for _, v := range ch.buf {
			n.buf = append(n.buf, c.val(v))
		}
	}
	g := make(map[*ssa.Global]ptr, len(t.globals))
	for k, v := range t.globals {
		g[k] = c.val(v).(ptr)
	}
	return c.val(t.root), g
}
