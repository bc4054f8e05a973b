package main

import (
	"fmt"

	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckNames": CheckNames, "CheckPtrTips": CheckPtrTips, "CheckTypeTips": CheckTypeTips, "CheckMemTips": CheckMemTips, "CheckSpecTips": CheckSpecTips,
		"CheckAccept": CheckAccept, "CheckTranslate": CheckTranslate, "CheckMixed": CheckMixed})
}

func cfg() *tl.Config {
	return &tl.Config{
		Rules: tl.Rules{
			tl.TargetGlobal:     {{Action: tl.ActionReplace, From: "_", To: "g"}, {Action: tl.ActionAccept, From: "^a"}, {Action: tl.ActionIgnore, From: "b$"}},
			tl.TargetType:       {{Action: tl.ActionReplace, From: "$", To: "t"}, {Action: tl.ActionAccept, From: "b"}},
			tl.TargetConst:      {{Action: tl.ActionReplace, From: "$", To: "c"}, {Action: tl.ActionIgnore, From: "^aa"}},
			tl.TargetFunction:   {{Transform: tl.TransformUnexport}, {Action: tl.ActionAccept, From: "^b"}},
			tl.TargetPublic:     {{Transform: tl.TransformExport}},
			tl.TargetPrivate:    {{Transform: tl.TransformUnexport}},
			tl.TargetPostGlobal: {{Action: tl.ActionReplace, From: "^g", To: "go"}},
		},
		PtrTips: tl.PtrTips{
			tl.TipScopeAny:      {{Target: "^a", Default: tl.TipPtrSRef}},
			tl.TipScopeFunction: {{Target: "b$", Self: tl.TipPtrArr, Tips: tl.Tips{tl.TipPtrRef, tl.TipPtrArr}}, {Target: "^b", Default: tl.TipPtrInst}},
			tl.TipScopeStruct:   {{Target: "^ab", Tips: tl.Tips{tl.TipPtrRef}, Default: tl.TipPtrArr}},
		},
		TypeTips: tl.TypeTips{
			tl.TipScopeAny:      {{Target: "b", Default: tl.TipTypePlain}},
			tl.TipScopeFunction: {{Target: "^a", Tips: tl.Tips{tl.TipTypeNamed, tl.TipTypeString}}},
			tl.TipScopeType:     {{Target: "^b", Self: tl.TipTypeNamed}},
		},
		MemTips: tl.MemTips{{Target: "^a", Self: tl.TipMemRaw}, {Target: "b$", Default: tl.TipMemRaw}},
	}
}

func newTr() *tl.Translator {
	tr, err := tl.New(cfg())
	if err != nil {
		panic(err)
	}
	return tr
}

var targets = []tl.RuleTarget{tl.TargetConst, tl.TargetType, tl.TargetFunction, tl.TargetGlobal, tl.TargetPublic, tl.TargetPrivate, tl.TargetPostGlobal}
var scopes = []tl.TipScope{tl.TipScopeAny, tl.TipScopeFunction, tl.TipScopeStruct, tl.TipScopeType}

func query(tr *tl.Translator, t tl.RuleTarget, vis int, s string) []byte {
	switch vis {
	case 1:
		return tr.TransformName(t, s, true)
	case 2:
		return tr.TransformName(t, s, false)
	}
	return tr.TransformName(t, s)
}

const class = "abB_"

// The answer after arbitrary earlier queries equals the answer of a translator that was never asked before, and the
// earlier answers keep their bytes.
func CheckNames() {
	k := 1
	if rt.Deep() {
		k = 2
	}
	tr, fresh := newTr(), newTr()
	nt := 3
	if rt.Deep() {
		nt = len(targets)
	}
	var got [][]byte
	var was []string
	for i := 0; i < k; i++ {
		r := query(tr, targets[rt.Choice("t", nt+1)], rt.Choice("v", 3), rt.Str("s", 1, 2, class))
		got = append(got, r)
		was = append(was, string(r))
	}
	t, v := targets[rt.Choice("lt", nt)], rt.Choice("lv", 3)
	s := rt.Str("ls", 1, 2, class)
	a := query(tr, t, v, s)
	b := query(fresh, t, v, s)
	rt.Observe("a", string(a))
	rt.Reach("names")
	rt.Assert(string(a) == string(b), "an earlier name query changed the answer")
	for i := range got {
		rt.Assert(string(got[i]) == was[i], "a name handed out earlier was altered")
	}
	c := query(tr, t, v, s)
	rt.Assert(string(c) == string(b), "asking twice gives another name")
}

// Keywords are rewritten from a shared prefix: the rewritten names must not share memory.
func CheckMixed() {
	kws := []string{"func", "var", "type", "map", "go", "range", "fallthrough"}
	tr, err := tl.New(&tl.Config{})
	if err != nil {
		panic(err)
	}
	a := tr.TransformName(tl.TargetType, kws[rt.Choice("a", len(kws))])
	wa := string(a)
	b := tr.TransformName(tl.TargetConst, kws[rt.Choice("b", len(kws))])
	wb := string(b)
	c := append(a, "tail"...)
	d := append(b, "more"...)
	rt.Reach("mixed")
	rt.Assert(string(a) == wa && string(b) == wb, "a name handed out earlier was altered")
	rt.Assert(string(c) == wa+"tail" && string(d) == wb+"more", "names handed out share memory")
}

func tipText(rx tl.TipSpecRx, ok bool) string {
	return fmt.Sprintf("%v %s %s %s %s", ok, rx.TipAt(0), rx.TipAt(1), rx.TipAt(2), rx.Self())
}

func tips(f func(tr *tl.Translator, sc tl.TipScope, s string) string, what string) {
	k := 1
	if rt.Deep() {
		k = 2
	}
	tr, fresh := newTr(), newTr()
	var prev []string
	var args []string
	var scs []tl.TipScope
	for i := 0; i < k; i++ {
		sc, s := scopes[rt.Choice("sc", len(scopes))], rt.Str("s", 0, 3, "abc")
		prev = append(prev, f(tr, sc, s))
		args, scs = append(args, s), append(scs, sc)
	}
	sc, s := scopes[rt.Choice("lsc", len(scopes))], rt.Str("ls", 0, 3, "abc")
	a, b := f(tr, sc, s), f(fresh, sc, s)
	rt.Observe("a", a)
	rt.Reach(what)
	rt.Assert(a == b, "an earlier query changed the "+what+" tip")
	for i := range prev {
		rt.Assert(f(tr, scs[i], args[i]) == prev[i], "asking again gives another "+what+" tip")
	}
}

func CheckPtrTips() {
	tips(func(tr *tl.Translator, sc tl.TipScope, s string) string { return tipText(tr.PtrTipRx(sc, s)) }, "ptr")
}

func CheckTypeTips() {
	tips(func(tr *tl.Translator, sc tl.TipScope, s string) string { return tipText(tr.TypeTipRx(sc, s)) }, "type")
}

func CheckMemTips() {
	tips(func(tr *tl.Translator, sc tl.TipScope, s string) string { return tipText(tr.MemTipRx(s)) }, "mem")
}

// Queries of the different kinds of tips, through the combined lookup, do not disturb one another.
func CheckSpecTips() {
	f := func(tr *tl.Translator, kind int, sc tl.TipScope, s, base string) string {
		switch kind {
		case 0:
			return tipText(tr.PtrTipRx(sc, s))
		case 1:
			return tipText(tr.TypeTipRx(sc, s))
		case 2:
			return tipText(tr.MemTipRx(s))
		}
		p, t, m := tr.TipRxsForSpec(sc, s, &tl.CTypeSpec{Base: base, Pointers: 1})
		return tipText(p, true) + tipText(t, true) + tipText(m, true)
	}
	tr, fresh := newTr(), newTr()
	bases := []string{"", "a", "bb", "cab"}
	f(tr, rt.Choice("k", 4), scopes[rt.Choice("sc", len(scopes))], rt.Str("s", 1, 2, "ab"), bases[rt.Choice("base", len(bases))])
	k, sc, s, base := rt.Choice("lk", 4), scopes[rt.Choice("lsc", len(scopes))], rt.Str("ls", 1, 2, "ab"), "b"
	a, b := f(tr, k, sc, s, base), f(fresh, k, sc, s, base)
	rt.Reach("spec")
	rt.Assert(a == b, "an earlier query of another kind changed a tip")
}

func CheckAccept() {
	tr, fresh := newTr(), newTr()
	s1 := rt.Str("s", 1, 2, "abc")
	t1 := targets[rt.Choice("t", len(targets))]
	first := tr.IsAcceptableName(t1, s1)
	switch rt.Choice("between", 3) {
	case 1:
		tr.TransformName(tl.TargetType, s1)
	case 2:
		tr.PtrTipRx(tl.TipScopeFunction, s1)
	}
	s2, t2 := rt.Str("ls", 1, 2, "abc"), targets[rt.Choice("lt", len(targets))]
	a, b := tr.IsAcceptableName(t2, s2), fresh.IsAcceptableName(t2, s2)
	rt.Observe("a", a)
	rt.Reach("accept")
	rt.Assert(a == b, "an earlier query changed an acceptance decision")
	rt.Assert(tr.IsAcceptableName(t1, s1) == first, "asking again changed an acceptance decision")
}

const src = `
typedef struct ab { int x; } ab_t;
typedef int *bp;
typedef unsigned int ub;
typedef int (*cb)(int);
enum ae { A, B };
int fa(ab_t *a, ub *b, bp c, const char *d, enum ae e, cb f, struct ab g, unsigned long **h, int i[3]);
`

// Translating one type does not change how another one is translated.
func CheckTranslate() {
	ast := hx.Parse("tr", src)
	tr, fresh := hx.Translator(cfg(), ast), hx.Translator(cfg(), ast)
	find := func(tr *tl.Translator) *tl.CFunctionSpec {
		for _, d := range tr.Declares() {
			if d.Name == "fa" {
				return d.Spec.(*tl.CFunctionSpec)
			}
		}
		panic("no fa")
	}
	all := []tl.Tip{tl.NoTip, tl.TipPtrRef, tl.TipPtrSRef, tl.TipPtrArr, tl.TipTypePlain, tl.TipTypeNamed, tl.TipTypeString}
	f, g := find(tr), find(fresh)
	i := rt.Choice("i", len(f.Params))
	s1 := tr.TranslateSpec(f.Params[i].Spec, all[rt.Choice("tip", len(all))])
	w1 := s1.String()
	c1 := tr.CGoSpec(f.Params[i].Spec, rt.Bool("asarg"))
	wc := c1.String()
	j, tip := rt.Choice("j", len(f.Params)), all[rt.Choice("ltip", len(all))]
	a, b := tr.TranslateSpec(f.Params[j].Spec, tip), fresh.TranslateSpec(g.Params[j].Spec, tip)
	rt.Observe("a", a.String())
	rt.Reach("translate")
	rt.Assert(a.String() == b.String() && a == b, "an earlier translation changed a Go type")
	ca, cb := tr.CGoSpec(f.Params[j].Spec, true), fresh.CGoSpec(g.Params[j].Spec, true)
	rt.Assert(ca.String() == cb.String(), "an earlier translation changed a C type")
	rt.Assert(s1.String() == w1 && c1.String() == wc, "a type handed out was altered")
}
