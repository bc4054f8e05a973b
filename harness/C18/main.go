package main

import (
	"bytes"
	"strconv"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckSchedules": CheckSchedules})
}

const src = `typedef struct S { int a; } S;
typedef void (*cb)(int x);
void fa(char *s);
void fb(S *p);
void fc(cb c);
void fd(S **p);
`

// step is one thing a generation does.
var steps = []func(g *generator.Generator, w *bytes.Buffer){
	func(g *generator.Generator, w *bytes.Buffer) { g.WriteConst(w) },
	func(g *generator.Generator, w *bytes.Buffer) { g.WriteTypedefs(w) },
	func(g *generator.Generator, w *bytes.Buffer) { g.WriteUnions(w) },
	func(g *generator.Generator, w *bytes.Buffer) { g.WriteDeclares(w) },
}

// writer takes its time now and then, when it is run for real.
type writer struct{ bytes.Buffer }

func (w *writer) Write(b []byte) (int, error) {
	rt.Pause()
	return w.Buffer.Write(b)
}

type result struct{ body, gh, ch, cc string }

// run generates with the helper writer going, and takes what is there as soon as Close returns.
func run(rx string, mask int, again bool) result {
	rules := tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: rx}}}
	g := hx.NewGen(nil, hx.Translator(&tl.Config{Rules: rules}, hx.Parse("c18", src)))
	var w bytes.Buffer
	var gb, hb, cb writer
	go g.MonitorAndWriteHelpers(&gb, &hb, &cb)
	for i, s := range steps {
		if mask&(1<<uint(i)) != 0 {
			s(g, &w)
		}
	}
	g.Close()
	r := result{w.String(), gb.String(), hb.String(), cb.String()}
	if again {
		g.Close()
		rt.Assert(gb.String() == r.gh && hb.String() == r.ch && cb.String() == r.cc, "something is written after Close has returned")
	}
	return r
}

// Whatever the schedule, all helpers are there when Close returns.
func CheckSchedules() {
	rx := rt.Pick("rx", "^fa$", "^S$|^fb$", "^cb$")
	mask := []int{1, 2, 8, 15}[rt.Choice("steps", 4)]
	want := rt.Once(rx+" "+strconv.Itoa(mask), func() interface{} { return run(rx, mask, false) }).(result)
	n := 2
	if mask == 15 || mask == 2 || rx != "^fa$" {
		n = 1
	}
	if rt.Deep() {
		n += 2
	}
	rt.Preempt(n)
	rt.Sched(true)
	got := run(rx, mask, rt.Bool("again"))
	rt.Sched(false)
	rt.Reach("closed")
	rt.Assert(got.body == want.body, "the declarations depend on the schedule")
	rt.Assert(got.gh == want.gh, "the Go helpers depend on the schedule")
	rt.Assert(got.ch == want.ch, "the C declarations depend on the schedule")
	rt.Assert(got.cc == want.cc, "the C definitions depend on the schedule")
	if mask == 15 {
		// what was submitted is what the declarations need
		for _, m := range hx.GoErrors(&hx.Out{Decls: got.body, Go: got.gh}) {
			rt.Assert(false, "the package lacks a helper: "+m)
		}
	}
}
