package main

import (
	"bytes"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckAccept": CheckAccept, "CheckAcceptLists": CheckAcceptLists, "CheckEmission": CheckEmission, "CheckIgnoredFiles": CheckIgnoredFiles, "CheckIgnoredName": CheckIgnoredName})
}

type rule struct {
	accept bool
	kind   int // 0: first letter a, 1: last letter b, 2: contains c, 3: everything
}

var rxs = []string{"^a", "b$", "c", ""}

func (r rule) spec() tl.RuleSpec {
	a := tl.ActionIgnore
	if r.accept {
		a = tl.ActionAccept
	}
	return tl.RuleSpec{Action: a, From: rxs[r.kind]}
}

// matches is written by hand, without regular expressions.
func (r rule) matches(s string) bool {
	switch r.kind {
	case 0:
		return len(s) > 0 && s[0] == 'a'
	case 1:
		return len(s) > 0 && s[len(s)-1] == 'b'
	case 2:
		return rt.Contains(s, "c")
	}
	return true
}

// ref: an accept rule of the target matches and no ignore rule of it does, or no rule of the target matches and the same
// holds of the global rules.
func ref(rules map[tl.RuleTarget][]rule, t tl.RuleTarget, s string) bool {
	acc, ign := false, false
	for _, r := range rules[t] {
		if r.accept {
			acc = rt.Or(acc, r.matches(s))
		} else {
			ign = rt.Or(ign, r.matches(s))
		}
	}
	own := rt.And(acc, !ign)
	if t == tl.TargetGlobal {
		return own
	}
	none := rt.And(!acc, !ign)
	return rt.Or(own, rt.And(none, ref(rules, tl.TargetGlobal, s)))
}

func build(rules map[tl.RuleTarget][]rule) *tl.Translator {
	rs := tl.Rules{}
	for t, l := range rules {
		for _, r := range l {
			rs[t] = append(rs[t], r.spec())
		}
	}
	tr, err := tl.New(&tl.Config{Rules: rs})
	if err != nil {
		panic(err)
	}
	return tr
}

var targets = []tl.RuleTarget{tl.TargetConst, tl.TargetType, tl.TargetFunction, tl.TargetPublic, tl.TargetPrivate, tl.TargetPostGlobal, tl.TargetGlobal}

// One optional rule of the target, one of the global target, one of an unrelated target.
func CheckAccept() {
	n := 2
	if rt.Deep() {
		n = 4
	}
	rules := map[tl.RuleTarget][]rule{}
	ti := rt.Choice("target", len(targets))
	t := targets[ti]
	add := func(name string, t tl.RuleTarget) {
		if rt.Bool("has_" + name) {
			rules[t] = append(rules[t], rule{rt.Bool("acc_" + name), rt.Choice("kind_"+name, 4)})
		}
	}
	add("own", t)
	add("global", tl.TargetGlobal)
	if rt.Bool("other") {
		o := targets[(ti+1)%3]
		rules[o] = append(rules[o], rule{rt.Bool("acc_other"), 3})
	}
	s := rt.Str("name", 1, n, "abcd")
	got := build(rules).IsAcceptableName(t, s)
	rt.Observe("got", got)
	rt.Reach("accept")
	rt.Assert(got == ref(rules, t, s), "acceptance differs from the rules")
}

// Two rules of the target and up to two of the global one, in any order of accept and ignore.
func CheckAcceptLists() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	rules := map[tl.RuleTarget][]rule{}
	t := tl.TargetType
	for i := 0; i < 2; i++ {
		rules[t] = append(rules[t], rule{rt.Bool("acc"), rt.Choice("kind", 3)})
	}
	for i := 0; i < 2; i++ {
		if rt.Bool("g") {
			rules[tl.TargetGlobal] = append(rules[tl.TargetGlobal], rule{rt.Bool("gacc"), rt.Choice("gkind", 2)})
		}
	}
	s := rt.Str("name", 1, n, "abcd")
	got := build(rules).IsAcceptableName(t, s)
	rt.Observe("got", got)
	rt.Reach("lists")
	rt.Assert(got == ref(rules, t, s), "acceptance differs from the rules")
}

const src = `
#define MAC 11
#define MACREF (MAC + 1)
typedef struct stag { int x; } stype;
typedef unsigned int utype;
typedef int (*ftype)(int p);
typedef union utag { int a; float b; } untype;
typedef enum etag { ENA, ENB } entype;
struct plain { int y; };
typedef struct opq opqtype;
enum lone { LOA, LOB = 4 };
int fun(int a);
void fun2(void);
const int cvar = 3;
extern struct plain gvar;
`

type item struct {
	name    string
	targets []tl.RuleTarget // accepted for all of these
	heads   []string        // text that shows it
	part    string
	rx      string // all the C names of the declaration: a tagged typedef has two
}

var items = []item{
	{"MAC", []tl.RuleTarget{tl.TargetConst}, []string{"MAC = "}, "const", "^(MAC)$"},
	{"stype", []tl.RuleTarget{tl.TargetType}, []string{"type stype struct"}, "types", "^(stype|stag)$"},
	{"utype", []tl.RuleTarget{tl.TargetType}, []string{"type utype uint32"}, "types", "^(utype)$"},
	{"ftype", []tl.RuleTarget{tl.TargetType}, []string{"type ftype func("}, "types", "^(ftype)$"},
	{"untype", []tl.RuleTarget{tl.TargetType}, []string{"type untype ["}, "types", "^(untype|utag)$"},
	{"etag", []tl.RuleTarget{tl.TargetType}, []string{"type etag int32", "type etag uint32", "type entype int32", "type entype uint32"}, "const", "^(etag|entype)$"},
	{"plain", []tl.RuleTarget{tl.TargetPublic, tl.TargetType}, []string{"type plain struct"}, "types", "^(plain)$"},
	{"opqtype", []tl.RuleTarget{tl.TargetType}, []string{"type opqtype C."}, "types", "^(opqtype|opq)$"},
	{"fun", []tl.RuleTarget{tl.TargetFunction}, []string{"func fun("}, "decls", "^(fun)$"},
	{"fun2", []tl.RuleTarget{tl.TargetFunction}, []string{"func fun2("}, "decls", "^(fun2)$"},
	{"cvar", []tl.RuleTarget{tl.TargetPublic}, []string{"const cvar int32", "var cvar int32", "cvar int32 = "}, "const", "^(cvar)$"},
}

func has(o *hx.Out, it item) bool {
	txt := map[string]string{"const": o.Const, "types": o.Types, "decls": o.Decls}[it.part]
	n := 0
	for _, h := range it.heads {
		n += hx.CountLines(txt, h)
	}
	rt.Assert(n <= 1, it.name+" is emitted more than once")
	return n > 0
}

// Each declaration of a header is emitted exactly when its name is accepted, whatever rule decides that.
func CheckEmission() {
	ast := hx.Parse("emit", src)
	i := rt.Choice("item", len(items))
	it := items[i]
	rules := tl.Rules{}
	names := map[tl.RuleTarget]map[string]bool{}
	add := func(t tl.RuleTarget, a tl.RuleAction, rx string) {
		rules[t] = append(rules[t], tl.RuleSpec{Action: a, From: rx})
	}
	_ = names
	globalAccept := rt.Bool("global_accept")
	if globalAccept {
		add(tl.TargetGlobal, tl.ActionAccept, ".")
	}
	globalIgnore := rt.Bool("global_ignore")
	if globalIgnore {
		add(tl.TargetGlobal, tl.ActionIgnore, it.rx)
	}
	want := true
	for k, t := range it.targets {
		own := rt.Choice("own"+string(rune('0'+k)), 4)
		ok := globalAccept && !globalIgnore
		switch own {
		case 1:
			add(t, tl.ActionAccept, it.rx)
			ok = true
		case 2:
			add(t, tl.ActionIgnore, it.rx)
			ok = false
		case 3: // rules of the target that match other names only
			add(t, tl.ActionAccept, "^zzz")
			add(t, tl.ActionIgnore, "^yyy")
		}
		want = want && ok
	}
	tr := hx.Translator(&tl.Config{Rules: rules}, ast)
	o := hx.Run(hx.NewGen(&generator.Config{}, tr))
	rt.Reach("emission")
	rt.Assert(has(o, it) == want, it.name+" is emitted although it is not accepted, or the other way round")
	// the others follow the global rules
	for j, x := range items {
		if j == i {
			continue
		}
		touched := false
		for _, a := range x.targets {
			for _, b := range it.targets {
				touched = touched || a == b
			}
		}
		if !touched {
			rt.Assert(has(o, x) == globalAccept, x.name+" is emitted although it is not accepted, or the other way round")
		}
	}
}

const srcA = `
#define AMAC 1
typedef unsigned int atype;
struct astr { int x; };
typedef enum aenum { AE1, AE2 } aenum;
int afun(int p);
const int acon = 5;
`
const srcB = `
#define BMAC 2
typedef unsigned int btype;
struct bstr { int x; };
typedef enum benum { BE1, BE2 } benum;
int bfun(int p);
const int bcon = 6;
`

// Declarations of ignored files are left out, all of them, and no others are.
func CheckIgnoredFiles() {
	ast := hx.ParseFiles("two", "linux", "amd64", "/usr/inc/a.h", srcA, "/usr/inc/sub/b.h", srcB)
	paths := []string{"a.h", "inc/a.h", "/usr/inc/a.h", "b.h", "sub/b.h", "c.h", "inc/b.h", "a.hpp", "h"}
	hits := [][2]bool{{true, false}, {true, false}, {true, false}, {false, true}, {false, true}, {false, false}, {false, false}, {false, false}, {true, true}}
	cfg := &tl.Config{Rules: tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^(a|b|A|B)"}}}}
	ia, ib := false, false
	for k := 0; k < 2; k++ {
		c := rt.Choice("ign", len(paths)+1)
		if c < len(paths) {
			cfg.IgnoredFiles = append(cfg.IgnoredFiles, paths[c])
			ia, ib = ia || hits[c][0], ib || hits[c][1]
		}
	}
	o := hx.Run(hx.NewGen(nil, hx.Translator(cfg, ast)))
	rt.Reach("files")
	both := func(txt, name, head string, ignored bool) {
		rt.Assert((hx.CountLines(txt, head) == 1) == !ignored, name+": an ignored file's declaration is emitted, or another one is not")
		rt.Assert(hx.CountLines(txt, head) <= 1, name+" is emitted more than once")
	}
	both(o.Const, "AMAC", "AMAC = ", ia)
	both(o.Const, "BMAC", "BMAC = ", ib)
	both(o.Types, "atype", "type atype ", ia)
	both(o.Types, "btype", "type btype ", ib)
	both(o.Types, "astr", "type astr ", ia)
	both(o.Types, "bstr", "type bstr ", ib)
	both(o.Const, "aenum", "type aenum ", ia)
	both(o.Const, "benum", "type benum ", ib)
	both(o.Decls, "afun", "func afun(", ia)
	both(o.Decls, "bfun", "func bfun(", ib)
	rt.Assert(strings.Contains(o.Const, "acon int32") == !ia, "acon: an ignored file's declaration is emitted, or another one is not")
	rt.Assert(strings.Contains(o.Const, "bcon int32") == !ib, "bcon: an ignored file's declaration is emitted, or another one is not")
}

// An arbitrary declared name is emitted exactly when the rules accept it.
func CheckIgnoredName() {
	n := 3
	if rt.Deep() {
		n = 4
	}
	ast := hx.Parse("sym", "int fun(int a);\ntypedef unsigned int typ;\nconst int con = 4;\n")
	rules := map[tl.RuleTarget][]rule{}
	which := rt.Choice("which", 3)
	t := []tl.RuleTarget{tl.TargetFunction, tl.TargetType, tl.TargetPublic}[which]
	rules[tl.TargetGlobal] = []rule{{true, rt.Choice("gkind", 4)}}
	rules[t] = []rule{{rt.Bool("acc"), rt.Choice("kind", 3)}}
	tr := build(rules)
	tr.Learn(ast)
	name := rt.Str("n", 1, n, "abcd")
	var txt, head string
	switch which {
	case 0:
		for _, d := range tr.Declares() {
			if d.Name == "fun" {
				d.Name = name
			}
		}
		g := hx.NewGen(nil, tr)
		o := hx.RunWith(g, func(o *hx.Out, nb func() *bytes.Buffer) {
			w := nb()
			g.WriteDeclares(w)
			o.Decls = w.String()
		})
		txt, head = o.Decls, "func "+name+"("
	case 1:
		for _, d := range tr.Typedefs() {
			if d.Name == "typ" {
				d.Name = name
			}
		}
		g := hx.NewGen(nil, tr)
		o := hx.RunWith(g, func(o *hx.Out, nb func() *bytes.Buffer) {
			w := nb()
			g.WriteTypedefs(w)
			o.Types = w.String()
		})
		txt, head = o.Types, "type "+name+" "
	case 2:
		for _, d := range tr.Declares() {
			if d.Name == "con" {
				d.Name = name
			}
		}
		g := hx.NewGen(nil, tr)
		o := hx.RunWith(g, func(o *hx.Out, nb func() *bytes.Buffer) {
			w := nb()
			g.WriteConst(w)
			o.Const = w.String()
		})
		txt, head = o.Const, name+" int32"
	}
	rt.Reach("sym")
	rt.Assert(rt.Contains(txt, head) == ref(rules, t, name), "a declaration is emitted although its name is not accepted, or the other way round")
}
