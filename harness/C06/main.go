package main

import (
	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckEntry": CheckEntry, "CheckTipAt": CheckTipAt, "CheckForSpec": CheckForSpec, "CheckParams": CheckParams, "CheckFields": CheckFields, "CheckSkip": CheckSkip, "CheckReturn": CheckReturn, "CheckMem": CheckMem, "CheckTypeTips": CheckTypeTips})
}

var rxs = []string{"^a", "b$", "."}

func match(k int, s string) bool {
	switch k {
	case 0:
		return s[0] == 'a'
	case 1:
		return s[len(s)-1] == 'b'
	}
	return true
}

var scopes = []tl.TipScope{tl.TipScopeAny, tl.TipScopeStruct, tl.TipScopeType, tl.TipScopeFunction, tl.TipScopeEnum}

// Every entry carries its own default, which tells which entry answered.
var marks = []tl.Tip{tl.TipPtrSRef, tl.TipPtrRef, tl.TipPtrArr, tl.TipPtrInst, tl.TipMemRaw, tl.TipTypeNamed}

// The first entry of the scope whose target matches answers; the struct entries come after the type entries for types;
// then the entries for everything.
func CheckEntry() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	kind := rt.Choice("kind", 2)
	q := scopes[rt.Choice("scope", len(scopes))]
	specs := map[tl.TipScope][]tl.TipSpec{}
	pats := map[tl.TipScope][]int{}
	mk := map[tl.TipScope][]tl.Tip{}
	k := 0
	add := func(s tl.TipScope) {
		p := rt.Choice("pat", len(rxs))
		specs[s] = append(specs[s], tl.TipSpec{Target: rxs[p], Default: marks[k]})
		pats[s] = append(pats[s], p)
		mk[s] = append(mk[s], marks[k])
		k++
	}
	add(tl.TipScopeFunction)
	if rt.Bool("second") {
		add(tl.TipScopeFunction)
	}
	if rt.Bool("any") {
		add(tl.TipScopeAny)
	}
	if rt.Bool("struct") {
		add(tl.TipScopeStruct)
	}
	if rt.Bool("type") {
		add(tl.TipScopeType)
	}
	cfg := &tl.Config{}
	if kind == 0 {
		cfg.PtrTips = tl.PtrTips{}
	} else {
		cfg.TypeTips = tl.TypeTips{}
	}
	for s, l := range specs {
		if kind == 0 {
			cfg.PtrTips[s] = l
		} else {
			cfg.TypeTips[s] = l
		}
	}
	tr, err := tl.New(cfg)
	rt.Assert(err == nil, "a valid configuration is refused")
	name := rt.Str("name", 1, n, "abc")
	var rx tl.TipSpecRx
	var ok bool
	if kind == 0 {
		rx, ok = tr.PtrTipRx(q, name)
	} else {
		rx, ok = tr.TypeTipRx(q, name)
	}
	order := []tl.TipScope{q}
	if q == tl.TipScopeType {
		order = append(order, tl.TipScopeStruct)
	}
	if q != tl.TipScopeAny {
		order = append(order, tl.TipScopeAny)
	}
	want := tl.NoTip
	found := false
	for _, s := range order {
		for i, p := range pats[s] {
			if !found && match(p, name) {
				found, want = true, mk[s][i]
			}
		}
	}
	rt.Observe("tip", string(rx.Default))
	rt.Reach("entry")
	rt.Assert(ok == found, "a tip entry is found although none matches, or the other way round")
	rt.Assert(rx.Default == want && rx.Self() == want && rx.TipAt(0) == want, "the tip of another entry is used")
}

var allTips = []tl.Tip{tl.TipPtrSRef, tl.TipPtrRef, tl.TipPtrArr, tl.TipPtrInst, tl.TipMemRaw, tl.TipTypeNamed, tl.TipTypePlain, tl.TipTypeString, tl.TipTypeUnsigned}

func valid(t tl.Tip) bool {
	ok := false
	for _, x := range allTips {
		ok = rt.Or(ok, t == x)
	}
	return ok
}

// The tip at a position is the one written there if it is a known tip, and the default otherwise.
func CheckTipAt() {
	n := 3
	pool := append(append([]tl.Tip{}, allTips...), tl.NoTip, "bogus", "Ref", "re")
	pick := func(name string) tl.Tip { return pool[rt.Choice(name, len(pool))] }
	spec := tl.TipSpec{Target: ".", Default: pick("default")}
	which := rt.Choice("len", n+1)
	if which == 0 {
		spec.Self = pick("self")
	}
	for i := 0; i < which; i++ {
		switch {
		case i == which-1:
			spec.Tips = append(spec.Tips, pick("tip"))
		case rt.Bool("unknown"):
			spec.Tips = append(spec.Tips, "bogus")
		default:
			spec.Tips = append(spec.Tips, allTips[(i*3+which)%len(allTips)])
		}
	}
	cfg := &tl.Config{}
	kind := rt.Choice("kind", 3)
	switch kind {
	case 0:
		cfg.PtrTips = tl.PtrTips{tl.TipScopeFunction: {spec}}
	case 1:
		cfg.TypeTips = tl.TypeTips{tl.TipScopeFunction: {spec}}
	case 2:
		cfg.MemTips = tl.MemTips{spec}
	}
	tr, err := tl.New(cfg)
	rt.Assert(err == nil, "a valid configuration is refused")
	var rx tl.TipSpecRx
	var ok bool
	switch kind {
	case 0:
		rx, ok = tr.PtrTipRx(tl.TipScopeFunction, "foo")
	case 1:
		rx, ok = tr.TypeTipRx(tl.TipScopeFunction, "foo")
	case 2:
		rx, ok = tr.MemTipRx("foo")
	}
	rt.Reach("tipat")
	rt.Assert(ok, "the entry is not found")
	for i := 0; i <= n; i++ {
		want := spec.Default
		if i < len(spec.Tips) && valid(spec.Tips[i]) {
			want = spec.Tips[i]
		}
		got := rx.TipAt(i)
		rt.Observe("tip", string(got))
		rt.Assert(got == want, "the tip at a position is not the one written there")
	}
	want := spec.Default
	if valid(spec.Self) {
		want = spec.Self
	}
	rt.Assert(rx.Self() == want, "the tip of the whole is not the one written there")
	for _, t := range allTips {
		in := false
		for _, x := range spec.Tips {
			in = in || x == t
		}
		rt.Assert(rx.HasTip(t) == in, "HasTip disagrees with the list")
	}
}

// A tip for the type itself goes before one for the name.
func CheckForSpec() {
	n := 2
	pb, pn := rt.Choice("first", len(rxs)), rt.Choice("second", len(rxs))
	base, name := rt.Str("base", 0, n, "abc"), rt.Str("name", 1, n, "abc")
	kind := rt.Choice("kind", 3)
	l := []tl.TipSpec{{Target: rxs[pb], Default: tl.TipPtrRef}, {Target: rxs[pn], Default: tl.TipPtrSRef}}
	scope := scopes[rt.Choice("scope", 4)]
	cfg := &tl.Config{}
	switch kind {
	case 0:
		cfg.PtrTips = tl.PtrTips{scope: l}
	case 1:
		cfg.TypeTips = tl.TypeTips{scope: l}
	case 2:
		cfg.MemTips = tl.MemTips(l)
	}
	tr, err := tl.New(cfg)
	rt.Assert(err == nil, "a valid configuration is refused")
	spec := &tl.CStructSpec{Tag: base}
	ptr, typ, mem := tr.TipRxsForSpec(scope, name, spec)
	got := []tl.Tip{ptr.Default, typ.Default, mem.Default}
	ref := func(s string) tl.Tip {
		if match(pb, s) {
			return tl.TipPtrRef
		}
		if match(pn, s) {
			return tl.TipPtrSRef
		}
		return tl.NoTip
	}
	want := tl.NoTip
	if len(base) > 0 {
		want = ref(base)
	}
	if want == tl.NoTip {
		want = ref(name)
	}
	rt.Observe("tip", string(got[kind]))
	rt.Reach("forspec")
	for i := range got {
		if i == kind {
			rt.Assert(got[i] == want, "the tip for a specification is not the one of its type or name")
		} else {
			rt.Assert(got[i] == tl.NoTip, "a tip of another kind is used")
		}
	}
}

const src = `
typedef int num;
struct S { int x; };
typedef struct S S_t;
void f(int *p0, num *p1, struct S *p2, int p3);
struct F { int *q0; num *q1; struct S *q2; int q3; char **q4; };
typedef struct F F_t;
int *r(int a);
num *rn(int a);
struct S *rs(int a);
`

func rules() tl.Rules { return tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "."}}} }

// rep is how n levels of t are written under a pointer tip.
func rep(tip tl.Tip, n int, t string) string {
	s, p := 0, 0
	switch tip {
	case tl.TipPtrRef:
		s, p = n-1, 1
	case tl.TipPtrSRef, tl.TipPtrInst:
		p = n
	default:
		s = n
	}
	if n == 0 {
		s, p = 0, 0
	}
	r := ""
	for i := 0; i < s; i++ {
		r += "[]"
	}
	for i := 0; i < p; i++ {
		r += "*"
	}
	return r + t
}

var ptrTips = []tl.Tip{tl.NoTip, tl.TipPtrSRef, tl.TipPtrRef, tl.TipPtrArr, tl.TipPtrInst, "bogus"}

func known(t tl.Tip) bool { return t != tl.NoTip && t != "bogus" }

// Each parameter follows its own tip.
func CheckParams() {
	ast := hx.Parse("tips", src)
	spec := tl.TipSpec{Target: "^f$", Default: ptrTips[rt.Choice("default", 4)]}
	inst := -1
	m := rt.Choice("len", 4)
	for i := 0; i < m; i++ {
		t := ptrTips[rt.Choice("tip", len(ptrTips))]
		if t == tl.TipPtrInst {
			if inst >= 0 {
				rt.Assume(false)
			}
			inst = i
		}
		spec.Tips = append(spec.Tips, t)
	}
	cfg := &tl.Config{Rules: rules(), PtrTips: tl.PtrTips{tl.TipScopeFunction: {spec}}}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	fs := hx.Func(o.Decls, "?", "f")
	rt.Reach("params")
	rt.Assert(len(fs) == 1 && fs[0].OK, "the wrapper of f is not well formed")
	if len(fs) != 1 {
		return
	}
	f := fs[0]
	base := []string{"int32", "num", "S", "int32"}
	depth := []int{1, 1, 1, 0}
	k := 0
	for i := 0; i < 4; i++ {
		tip := spec.Default
		if i < m && known(spec.Tips[i]) {
			tip = spec.Tips[i]
		}
		want := rep(tip, depth[i], base[i])
		if base[i] == "S" {
			want = rep(tip, depth[i], "S")
			alt := rep(tip, depth[i], "S_t")
			if i == inst {
				rt.Assert(len(f.Recv) == 1 && (f.Recv[0].Type == want || f.Recv[0].Type == alt), "the instance parameter is not the receiver")
				continue
			}
			rt.Assert(k < len(f.Params) && (f.Params[k].Type == want || f.Params[k].Type == alt), "parameter "+hx.Uint(i)+" does not follow its tip")
			k++
			continue
		}
		if i == inst {
			rt.Assert(len(f.Recv) == 1 && f.Recv[0].Type == rep(tl.TipPtrRef, depth[i], base[i]), "the instance parameter is not the receiver")
			continue
		}
		rt.Assert(k < len(f.Params) && f.Params[k].Type == want, "parameter "+hx.Uint(i)+" does not follow its tip")
		k++
	}
	rt.Assert(len(f.Params) == k, "the wrapper has other parameters")
	rt.Assert(inst >= 0 || len(f.Recv) == 0, "a parameter became the receiver without an instance tip")
}

// Each field follows its own tip, and other structs do not.
func CheckFields() {
	ast := hx.Parse("tips", src)
	spec := tl.TipSpec{Target: []string{"^F_t$", "^S_t$"}[rt.Choice("target", 2)], Default: ptrTips[rt.Choice("default", 4)]}
	m := rt.Choice("len", 6)
	for i := 0; i < m; i++ {
		if i == m-1 || i == 0 {
			spec.Tips = append(spec.Tips, ptrTips[rt.Choice("tip", 4)])
		} else {
			spec.Tips = append(spec.Tips, tl.NoTip)
		}
	}
	scope := []tl.TipScope{tl.TipScopeType, tl.TipScopeStruct, tl.TipScopeAny, tl.TipScopeFunction}[rt.Choice("scope", 4)]
	cfg := &tl.Config{Rules: rules(), PtrTips: tl.PtrTips{scope: {spec}}}
	tr := hx.Translator(cfg, ast)
	o := hx.Run(hx.NewGen(&generator.Config{}, tr))
	b, ok := hx.Block(o.Types, "type F_t struct")
	if !ok {
		b, ok = hx.Block(o.Types, "type F struct")
	}
	rt.Reach("fields")
	rt.Assert(ok, "F is not emitted")
	l := hx.Lines(b)
	base := []string{"int32", "num", "", "int32", "byte"}
	depth := []int{1, 1, 1, 0, 2}
	applies := spec.Target != "^S_t$" && scope != tl.TipScopeFunction
	for i := 0; i < 5; i++ {
		if base[i] == "" {
			continue
		}
		tip := tl.NoTip
		if applies {
			tip = spec.Default
			if i < m && known(spec.Tips[i]) {
				tip = spec.Tips[i]
			}
		}
		if depth[i] == 2 { // which of the levels are slices is left open
			got := ""
			if i+1 < len(l) {
				got = l[i+1]
			}
			ok := false
			for _, x := range []string{"[][]", "[]*", "**"} {
				ok = ok || got == "q"+hx.Uint(i)+" "+x+base[i]
			}
			rt.Assert(ok, "field "+hx.Uint(i)+" lost a level")
			continue
		}
		want := "q" + hx.Uint(i) + " " + rep(tip, depth[i], base[i])
		rt.Assert(i+1 < len(l) && l[i+1] == want, "field "+hx.Uint(i)+" does not follow its tip")
	}
}

const srcSkip = `
typedef struct { int x; } H;
typedef union { int a; } U;
typedef enum { EA } E;
typedef struct { int *g0; H *g1; int *g2; U *g3; int *g4; E *g5; int *g6; } G;
`

// A position counts the members of the C struct, whether or not the ones before it are left out.
func CheckSkip() {
	ast := hx.Parse("skip", srcSkip)
	r := rules()
	for _, n := range []string{"H", "U", "E"} {
		if rt.Bool("ignore") {
			r[tl.TargetType] = append(r[tl.TargetType], tl.RuleSpec{Action: tl.ActionIgnore, From: "^" + n + "$"})
		}
	}
	at := 2 * rt.Choice("at", 4)
	tip := ptrTips[1+rt.Choice("tip", 3)]
	spec := tl.TipSpec{Target: "^G$", Default: ptrTips[1+rt.Choice("default", 3)]}
	for i := 0; i < at; i++ {
		spec.Tips = append(spec.Tips, tl.NoTip)
	}
	spec.Tips = append(spec.Tips, tip)
	cfg := &tl.Config{Rules: r, PtrTips: tl.PtrTips{tl.TipScopeStruct: {spec}}}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	b, ok := hx.Block(o.Types, "type G struct")
	rt.Reach("skip")
	rt.Assert(ok, "G is not emitted")
	for i := 0; i < 7; i += 2 {
		t := spec.Default
		if i == at {
			t = tip
		}
		want := "g" + hx.Uint(i) + " " + rep(t, 1, "int32")
		n := 0
		for _, l := range hx.Lines(b) {
			if l == want {
				n++
			}
		}
		rt.Assert(n == 1, "field "+hx.Uint(i)+" does not follow its tip when members before it are left out")
	}
}

// A result follows the tip for itself, and is a reference without one.
func CheckReturn() {
	ast := hx.Parse("tips", src)
	names := []string{"r", "rn", "rs"}
	k := rt.Choice("which", 3)
	spec := tl.TipSpec{Target: "^" + names[k] + "$", Default: ptrTips[rt.Choice("default", 4)], Self: ptrTips[rt.Choice("self", 4)]}
	if rt.Bool("positional") {
		spec.Tips = tl.Tips{tl.TipPtrSRef}
	}
	scope := scopes[rt.Choice("scope", 4)]
	cfg := &tl.Config{Rules: rules(), PtrTips: tl.PtrTips{scope: {spec}}}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	rt.Reach("return")
	for i, n := range names {
		fs := hx.Func(o.Decls, "", n)
		rt.Assert(len(fs) == 1 && fs[0].OK, "the wrapper is not well formed")
		tip := tl.NoTip
		if i == k && (scope == tl.TipScopeAny || scope == tl.TipScopeFunction) {
			tip = spec.Default
			if known(spec.Self) {
				tip = spec.Self
			}
		}
		if tip == tl.NoTip {
			tip = tl.TipPtrRef
		}
		base := []string{"int32", "int32", "S"}[i]
		got := fs[0].Ret
		rt.Observe("ret", got)
		ok := got == rep(tip, 1, base)
		if i == 1 {
			ok = ok || got == rep(tip, 1, "num")
		}
		if i == 2 {
			ok = ok || got == rep(tip, 1, "S_t")
		}
		rt.Assert(ok, "the result of "+n+" does not follow its tip")
	}
}

// Memory tips: a raw struct is taken over as it is, and only that one.
func CheckMem() {
	ast := hx.Parse("mem", "struct A { int x; };\nstruct B { int y; struct A a; };\nstruct C { int z; };\n")
	which := rt.Choice("which", 3)
	tips := []tl.Tip{tl.NoTip, tl.TipMemRaw, "bogus"}
	self, def := tips[rt.Choice("self", 3)], tips[rt.Choice("default", 2)]
	cfg := &tl.Config{Rules: rules(), MemTips: tl.MemTips{{Target: "^" + []string{"A", "B", "C"}[which] + "$", Self: self, Default: def}}}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	raw := self == tl.TipMemRaw || def == tl.TipMemRaw
	rt.Reach("mem")
	for i, n := range []string{"A", "B", "C"} {
		as := hx.CountLines(o.Types, "type "+n+" C.struct_"+n) == 1 || hx.CountLines(o.Types, "type "+n+" = C.struct_"+n) == 1
		full := hx.CountLines(o.Types, "type "+n+" struct {") == 1
		want := i == which && raw
		b, _ := hx.Block(o.Types, "type "+n+" struct {")
		ref := false
		for _, l := range hx.Lines(b) {
			ref = ref || len(l) > 3 && l[:3] == "ref"
		}
		rt.Assert(as || full, "a struct is missing")
		rt.Assert((as || !ref) == want, "a struct is wrapped although its memory tip is raw, or the other way round")
	}
}

// Type tips: named keeps the typedef, plain takes the type behind it, string makes text of it.
func CheckTypeTips() {
	ast := hx.Parse("typetips", "typedef int num;\ntypedef unsigned int unum;\nvoid f(num p0, unum p1, num *p2, int p3, const unsigned char *p4);\n")
	tips := []tl.Tip{tl.NoTip, tl.TipTypeNamed, tl.TipTypePlain, "bogus"}
	spec := tl.TipSpec{Target: "^f$", Default: tips[rt.Choice("default", 3)]}
	m := rt.Choice("len", 5)
	for i := 0; i < m; i++ {
		spec.Tips = append(spec.Tips, tips[rt.Choice("tip", len(tips))])
	}
	scope := []tl.TipScope{tl.TipScopeAny, tl.TipScopeFunction, tl.TipScopeStruct}[rt.Choice("scope", 3)]
	cfg := &tl.Config{Rules: rules(), TypeTips: tl.TypeTips{scope: {spec}}}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	fs := hx.Func(o.Decls, "", "f")
	rt.Reach("typetips")
	rt.Assert(len(fs) == 1 && fs[0].OK && len(fs[0].Params) == 5, "the wrapper of f is not well formed")
	named := []string{"num", "unum", "[]num", "int32", "[]byte"}
	plain := []string{"int32", "uint32", "[]int32", "int32", "[]byte"}
	for i := range named {
		tip := tl.NoTip
		if scope != tl.TipScopeStruct {
			tip = spec.Default
			if i < m && known(spec.Tips[i]) {
				tip = spec.Tips[i]
			}
		}
		want := named[i]
		if tip == tl.TipTypePlain {
			want = plain[i]
		}
		rt.Assert(fs[0].Params[i].Type == want, "parameter "+hx.Uint(i)+" does not follow its type tip")
	}
}
