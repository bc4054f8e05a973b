package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Run struct {
	e     *Engine
	fn    *ssa.Function
	name  string
	stats *Stats
	opt   Options

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*WorkItem
	active   int
	rng      *rand.Rand
	stop     bool
	stopped  string
	deadline time.Time

	notes      map[string]int
	cands      []*Violation
	candN      map[string]int
	reached    map[string]int
	samples    []sample
	maxDepth   int
	incomplete atomic.Int64
	feasible   atomic.Int64
}

type sample struct {
	Values map[string]any `json:"values"`
	Obs    []string       `json:"obs"`
	depth  int
}

type Options struct {
	Workers   int
	Timeout   time.Duration
	SolverMS  int
	Solver    string
	Seed      int64
	MaxPaths  int64
	Samples   int
	Debug     bool
	MaxInstrs int64
}

type Worker struct {
	run    *Run
	solver *Solver
	id     int
}

func (r *Run) push(it *WorkItem) {
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) note(s string) {
	r.mu.Lock()
	if len(r.notes) < 200 || r.notes[s] > 0 {
		r.notes[s]++
	}
	r.mu.Unlock()
}

func (r *Run) addAssert() { atomic.AddInt64(&r.stats.Asserts, 1) }
func (r *Run) addDischarged(trivial bool) {
	atomic.AddInt64(&r.stats.Discharged, 1)
	if trivial {
		atomic.AddInt64(&r.stats.Trivial, 1)
	}
}

func (r *Run) candidate(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := v.Kind + ":" + v.Msg
	r.candN[k]++
	if n := r.candN[k]; n > 3 || n > 1 && len(r.cands) >= 100 || len(r.cands) >= 800 {
		return
	}
	r.cands = append(r.cands, v)
}

func (r *Run) pop() *WorkItem {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if !r.deadline.IsZero() && time.Now().After(r.deadline) {
			r.stop, r.stopped = true, "time"
			r.cond.Broadcast()
			return nil
		}
		if n := len(r.queue); n > 0 {
			i := n - 1
			if r.rng.Intn(4) == 0 {
				i = r.rng.Intn(n)
			}
			it := r.queue[i]
			r.queue[i] = r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.active++
			return it
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) finish() {
	r.mu.Lock()
	r.active--
	if r.opt.MaxPaths > 0 && atomic.LoadInt64(&r.stats.Paths) >= r.opt.MaxPaths && len(r.queue) > 0 {
		r.stop, r.stopped = true, "paths"
	}
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (e *Engine) explore(fn *ssa.Function, opt Options) *Run {
	r := &Run{e: e, fn: fn, name: fn.Name(), stats: &Stats{}, opt: opt, rng: rand.New(rand.NewSource(opt.Seed)), notes: map[string]int{}, candN: map[string]int{}, reached: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	if opt.Timeout > 0 {
		r.deadline = time.Now().Add(opt.Timeout)
		tm := time.AfterFunc(opt.Timeout, func() { r.cond.Broadcast() })
		defer tm.Stop()
	}
	r.queue = []*WorkItem{{}}
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s, err := NewSolver(opt.Solver, opt.SolverMS, r.stats)
			if err != nil {
				r.note("solver: " + err.Error())
				r.incomplete.Add(1)
				return
			}
			defer s.Close()
			w := &Worker{run: r, solver: s, id: i}
			for {
				it := r.pop()
				if it == nil {
					return
				}
				w.path(it)
				r.finish()
			}
		}(i)
	}
	wg.Wait()
	if len(r.queue) > 0 && r.stopped == "" {
		r.stopped = "workers"
	}
	if r.stopped != "" {
		r.incomplete.Add(1)
		r.notes[fmt.Sprintf("exploration stopped (%s) with %d alternatives not explored", r.stopped, len(r.queue))]++
	}
	return r
}

func (w *Worker) path(it *WorkItem) {
	r := w.run
	w.solver.Reset()
	p := r.e.newPath(w)
	p.prefix = it.prefix
	if it.model != nil {
		p.model = it.model
	}
	if r.opt.MaxInstrs > 0 {
		p.maxInstrs = r.opt.MaxInstrs
	}
	p.initSched()
	_, p.globals = r.e.initT.instantiate()
	defer func() {
		x := recover()
		func() {
			defer func() { recover() }()
			p.killGors()
		}()
		p.confirm()
		atomic.AddInt64(&r.stats.Instrs, p.instrs)
		atomic.AddInt64(&r.stats.Decisions, int64(len(p.trace)))
		switch x := x.(type) {
		case nil:
			w.done(p)
		case *pathAbort:
			switch x.kind {
			case abortAssume:
				atomic.AddInt64(&r.stats.Pruned, 1)
			case abortBudget:
				r.incomplete.Add(1)
				r.note(x.msg)
				p.report("budget", x.msg)
			default:
				r.incomplete.Add(1)
				r.note(x.msg)
			}
		case *unsupportedErr:
			r.incomplete.Add(1)
			r.note("not encoded: " + x.msg)
			if r.opt.Debug {
				fmt.Fprintf(os.Stderr, "unsupported: %s\n%s\n", x.msg, debug.Stack())
			}
		case targetPanic:
			p.report("panic", "uncaught panic: "+p.panicTextSafe(x))
			atomic.AddInt64(&r.stats.Paths, 1)
			if r.opt.Debug {
				fmt.Fprintf(os.Stderr, "panic in %s: %s\n", x.where, p.panicTextSafe(x))
			}
		case *exitErr:
			p.report("exit", fmt.Sprintf("process exit %d", x.code))
			atomic.AddInt64(&r.stats.Paths, 1)
		case *deadlockErr:
			p.report("deadlock", "deadlock: all goroutines are blocked")
			atomic.AddInt64(&r.stats.Paths, 1)
		case *fatalErr:
			p.report("panic", "fatal error: "+x.msg)
			atomic.AddInt64(&r.stats.Paths, 1)
		default:
			r.incomplete.Add(1)
			r.note(fmt.Sprintf("engine error: %v", x))
			if r.opt.Debug {
				fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", x, debug.Stack())
			}
		}
	}()
	p.call(nil, r.e.cfuncOf(r.fn), nil, nil)
}

func (p *Path) panicTextSafe(tp targetPanic) (s string) {
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	return p.panicText(&frame{p: p, g: p.main, cf: &cfunc{name: "top"}}, tp)
}

func (w *Worker) done(p *Path) {
	r := w.run
	n := atomic.AddInt64(&r.stats.Paths, 1)
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range p.reached {
		r.reached[k]++
	}
	if len(p.trace) > r.maxDepth {
		r.maxDepth = len(p.trace)
	}
	// reservoir of paths for validation against the native build
	k := r.opt.Samples
	s := func() sample {
		s := sample{Values: p.values(), depth: len(p.trace)}
		for _, o := range p.observed {
			s.Obs = append(s.Obs, o.name+"="+p.obsText(o.val))
		}
		return s
	}
	if len(r.samples) < k {
		r.samples = append(r.samples, s())
	} else if j := r.rng.Int63n(n); int(j) < k {
		r.samples[j] = s()
	}
}

func (p *Path) obsText(v Value) string {
	switch x := v.(type) {
	case string, *symStr:
		return p.evalStr(x)
	case *Term:
		return fmt.Sprint(p.eval(x))
	case ifaceV:
		if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
			w := basicInfo(x.t).w
			switch v := x.v.(type) {
			case uint64:
				return fmt.Sprint(sext(v, w))
			case *Term:
				return fmt.Sprint(sext(p.eval(v), w))
			}
		}
		if t, ok := x.v.(*Term); ok && t.w == 0 {
			return fmt.Sprint(p.eval(t) != 0)
		}
		return p.obsText(x.v)
	}
	return fmt.Sprint(v)
}

func (r *Run) noteList() []string {
	var l []string
	for k, n := range r.notes {
		l = append(l, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(l)
	return l
}
