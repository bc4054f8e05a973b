package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckBasic": CheckBasic, "CheckNames": CheckNames, "CheckRegex": CheckRegex, "CheckRx": CheckRx})
}

func CheckBasic() {
	x := rt.Int("x", 0, 1000)
	y := rt.Int("y", 0, 1000)
	if x > y {
		x, y = y, x
	}
	rt.Assert(x <= y, "sorted")
	s := rt.Str("s", 0, 3, "a-c")
	t := strings.ToUpper(s)
	rt.Assert(len(t) == len(s), "len")
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s-%d-%v", s, x, []string{"a", s})
	rt.Observe("b", b.String())
	rt.Assert(strings.HasPrefix(b.String(), s), "prefix")
	m := map[string]int{"a": 1, s: 2}
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	rt.Observe("keys", strings.Join(keys, ","))
	rt.Assert(m[s] == 2, "m")
	ch := make(chan int)
	done := make(chan bool)
	go func() {
		for v := range ch {
			x += v
		}
		close(done)
	}()
	ch <- 1
	ch <- 2
	close(ch)
	<-done
	defer func() {
		r := recover()
		rt.Observe("rec", fmt.Sprint(r))
	}()
	var arr []int
	_ = arr[len(s)]
	rt.Fail("unreachable")
}

func CheckNames() {
	tr, err := tl.New(&tl.Config{Rules: tl.Rules{
		tl.TargetGlobal: {{From: "(?i)abc_", To: "x", Action: tl.ActionReplace}, {Transform: tl.TransformLower}},
		tl.TargetType:   {{From: "_t$", To: "", Action: tl.ActionReplace}, {Transform: tl.TransformExport}},
	}})
	rt.Assert(err == nil, "new")
	s := rt.Str("s", 1, 3, "a-zA-Z0-9_")
	out := string(tr.TransformName(tl.TargetType, s, true))
	rt.Observe("out", out)
	rt.Assert(len(out) <= 5, "len out")
}

func CheckRegex() {
	_, err := tl.New(&tl.Config{Rules: tl.Rules{tl.TargetGlobal: {{From: "(", Action: tl.ActionReplace}}}})
	rt.Observe("err", fmt.Sprint(err))
	rt.Assert(err != nil, "bad regexp refused")
}
