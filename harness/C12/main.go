package main

import (
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
	"modernc.org/cc/v4"
)

func main() {
	rt.Main(map[string]func(){"CheckValues": CheckValues, "CheckExpand": CheckExpand, "CheckShapes": CheckShapes, "CheckTypes": CheckTypes})
}

type goConst struct {
	n    int
	typ  string
	val  hx.Num
	src  string
	iota int
}

// consts reads the constant blocks and the types as a Go compiler would.
func consts(txt string) (map[string]*goConst, map[string]string, map[string]int) {
	cs := map[string]*goConst{}
	ty := map[string]string{}
	tn := map[string]int{}
	env := map[string]hx.Num{}
	in := false
	var order []string
	i := 0
	lastT, lastE := "", ""
	for _, l := range hx.Lines(txt) {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || strings.HasPrefix(l, "//"):
			continue
		case l == "const (":
			in, i, lastE, lastT = true, 0, "", ""
			continue
		case l == ")":
			in = false
			continue
		case strings.HasPrefix(l, "type "):
			f := strings.Fields(l)
			ty[f[1]] = strings.Join(f[2:], " ")
			tn[f[1]]++
			continue
		case !in:
			continue
		}
		head, e := l, ""
		if k := strings.Index(l, " = "); k >= 0 {
			head, e = l[:k], l[k+3:]
		}
		f := strings.Fields(head)
		t := ""
		if len(f) > 1 {
			t = f[1]
		}
		if e == "" {
			t, e = lastT, lastE
		}
		lastT, lastE = t, e
		c := cs[f[0]]
		if c == nil {
			c = &goConst{}
			cs[f[0]] = c
		}
		c.n++
		c.typ, c.src, c.iota = t, e, i
		order = append(order, f[0])
		i++
	}
	// constants may refer to later ones
	for round := 0; round < 3; round++ {
		for _, n := range order {
			c := cs[n]
			env["iota"] = hx.Num{M: uint64(c.iota), OK: true}
			c.val = (&hx.Evaluator{Env: env}).Eval(c.src)
			env[n] = c.val
		}
	}
	return cs, ty, tn
}

const shapes = `
typedef int num;
enum tagonly { F0, F1, F2 = 5, F3, F4 = -2, F5 };
typedef enum { T0 = 3, T1, T2 = (T1 + 4), T3 } tt;
typedef enum ztag { Z0, Z1 = 1 << 4, Z2, Z3 = Z1 | 2 } ztd;
enum { X0 = 'a', X1 = F3, X2 = sizeof(int), X3, X4 = (num)3, X5 = -(num)3, X6 };
typedef enum ztag zalias;
enum bar { B0 = 3, B1 } var1;
typedef enum same { S0 = -1, S1, S2 } same;
enum big { L0 = 0x7fffffff, L1 = -0x7fffffff - 1, L2 = ~0, L3 };
enum late;
enum late { P0 = 2, P1 };
typedef enum late lated;
typedef enum { Q0 = 010, Q1 = 0x1F, Q2 = 10 / 3, Q3 = 7 % 4 * 2, Q4 = 1 ? 2 : 3, Q5 = !0, Q6 = 3 > 2 } q;
void f(tt a, ztd *b);
`

type member struct {
	name string
	val  int64
	typ  string
}

var all = []member{{"F0", 0, ""}, {"F1", 1, ""}, {"F2", 5, ""}, {"F3", 6, ""}, {"F4", -2, ""}, {"F5", -1, ""},
	{"T0", 3, "tt"}, {"T1", 4, "tt"}, {"T2", 8, "tt"}, {"T3", 9, "tt"},
	{"Z0", 0, "ztd"}, {"Z1", 16, "ztd"}, {"Z2", 17, "ztd"}, {"Z3", 18, "ztd"},
	{"X0", 97, ""}, {"X1", 6, ""}, {"X2", 4, ""}, {"X3", 5, ""}, {"X4", 3, ""}, {"X5", -3, ""}, {"X6", -2, ""},
	{"B0", 3, ""}, {"B1", 4, ""}, {"S0", -1, "same"}, {"S1", 0, "same"}, {"S2", 1, "same"},
	{"L0", 2147483647, ""}, {"L1", -2147483648, ""}, {"L2", -1, ""}, {"L3", 0, ""}, {"P0", 2, "lated"}, {"P1", 3, "lated"},
	{"Q0", 8, "q"}, {"Q1", 31, "q"}, {"Q2", 3, "q"}, {"Q3", 6, "q"}, {"Q4", 2, "q"}, {"Q5", 1, "q"}, {"Q6", 1, "q"}}

var constRules = []tl.ConstRules{nil, {tl.ConstEnum: tl.ConstEval}, {tl.ConstEnum: tl.ConstExpand}, {tl.ConstEnum: tl.ConstCGOAlias}, {tl.ConstDefines: tl.ConstExpand}}

var rxs = []struct{ from, has string }{{"^", ""}, {"[01]$", "01"}, {"[2-9]$", "23456789"}, {"1$", "1"}, {"0$", "0"}}

func in(name, has string) bool {
	return has == "" || strings.IndexByte(has, name[len(name)-1]) >= 0
}

func renames(rules tl.Rules) (pre string) {
	switch rt.Choice("rename", 4) {
	case 1:
		rules[tl.TargetConst] = append(rules[tl.TargetConst], tl.RuleSpec{Action: tl.ActionReplace, From: "^", To: "k"})
		return "k"
	case 2:
		rules[tl.TargetPublic] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^", To: "Pub"}}
	case 3:
		rules[tl.TargetPostGlobal] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^([A-Z][0-9])", To: "_$1"}}
		return "_"
	}
	return ""
}

func emitted(o *hx.Out, ms []member, pre string, ok func(string) bool, cgo bool) {
	cs, ty, tn := consts(o.Const)
	for _, m := range ms {
		c := cs[pre+m.name]
		if !ok(m.name) {
			rt.Assert(c == nil, m.name+" is not accepted but is emitted")
			continue
		}
		rt.Assert(c != nil && c.n == 1, m.name+" is not emitted once")
		if c == nil {
			continue
		}
		rt.Assert(c.typ == m.typ, m.name+" is not of the type of its enumeration")
		if m.typ != "" {
			rt.Assert(tn[m.typ] == 1 && ty[m.typ] == "int32", "the type of "+m.name+" is not declared once as an integer of its size")
		}
		if cgo {
			rt.Assert(c.src == "C."+m.name, m.name+" does not stand for its C constant")
		} else {
			rt.Assert(c.val.OK && c.val.M == uint64(m.val), m.name+" has another value")
		}
	}
	rt.Assert(len(cs) <= len(ms), "something else is emitted as a constant")
}

// Enumerations of every form under accept, ignore, rename and const rules.
func CheckShapes() {
	ast := hx.Parse("shapes", shapes)
	acc := rxs[rt.Choice("accept", len(rxs))]
	rules := tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^"}}, tl.TargetConst: {{Action: tl.ActionAccept, From: acc.from}}}
	ign := rt.Choice("ignore", len(rxs))
	if ign > 0 {
		rules[tl.TargetConst] = append(rules[tl.TargetConst], tl.RuleSpec{Action: tl.ActionIgnore, From: rxs[ign].from})
		rules[tl.TargetGlobal] = append(rules[tl.TargetGlobal], tl.RuleSpec{Action: tl.ActionIgnore, From: "^[A-Z]" + rxs[ign].from})
	}
	pre := renames(rules)
	k := rt.Choice("rule", len(constRules))
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(&tl.Config{Rules: rules, ConstRules: constRules[k]}, ast)))
	rt.Reach("shapes")
	rt.Observe("const", o.Const)
	emitted(o, all, pre, func(n string) bool {
		// names no accept rule of constants matches fall to the global rules, which accept everything they do not ignore
		if ign > 0 && in(n, rxs[ign].has) {
			return false
		}
		return true
	}, k == 3)
}

const values = `
enum { A0, A1, A2 };
typedef enum { B0, B1, B2 } bb;
typedef enum ctag { C0, C1, C2 } cc;
enum dtag { D0, D1, D2 };
typedef enum ctag calias;
`

// Every value a C int can have.
func CheckValues() {
	ast := hx.Parse("values", values)
	rules := tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^"}}}
	pre := ""
	if rt.Bool("renamed") {
		pre = "k"
		rules[tl.TargetConst] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^", To: "k"}}
	}
	skip := rt.Choice("ignored", 4)
	if skip > 0 {
		rules[tl.TargetConst] = append(rules[tl.TargetConst], tl.RuleSpec{Action: tl.ActionIgnore, From: hx.Uint(skip-1) + "$"})
	}
	tr := hx.Translator(&tl.Config{Rules: rules}, ast)
	which := rt.Choice("enum", 4)
	letter := string("ABCD"[which])
	typ := []string{"", "bb", "cc", ""}[which]
	var vals []int
	hi := rt.Choice("size", 3)
	for i := 0; i < 3; i++ {
		v := rt.Int("value", -20, 20)
		switch hi {
		case 1:
			v += 2147483627
		case 2:
			v -= 2147483628
		}
		vals = append(vals, v)
	}
	set := func(d *tl.CDecl) {
		spec, ok := d.Spec.(*tl.CEnumSpec)
		if !ok || len(spec.Members) != 3 || spec.Members[0].Name[:1] != letter {
			return
		}
		for i, m := range spec.Members {
			m.Value = cc.Int64Value(vals[i])
		}
	}
	for _, d := range tr.Typedefs() {
		set(d)
	}
	for _, d := range tr.Declares() {
		set(d)
	}
	for _, d := range tr.TagMap() {
		set(d)
	}
	o := hx.Run(hx.NewGen(&generator.Config{}, tr))
	rt.Reach("values")
	var ms []member
	for i := 0; i < 3; i++ {
		for j, l := range "ABCD" {
			v := int64(i)
			if j == which {
				v = int64(vals[i])
			}
			t := []string{"", "bb", "cc", ""}[j]
			ms = append(ms, member{string(l) + hx.Uint(i), v, t})
		}
	}
	_ = typ
	emitted(o, ms, pre, func(n string) bool { return skip == 0 || n[1:] != hx.Uint(skip-1) }, false)
}

const expand = `
enum { A0 = 8, A1 = A0 + 8, A2 = 8 * (A0 - 8), A3 = ~A0, A4 = A0 << 2 | 1, A5 = -A1 };
typedef enum { B0 = 0x80, B1 = B0 | 0x08, B2 = (B1 & 0x88) ^ 8, B3 = A0, B4 = 88 / 8 % 8, B5 = +8 - 8 - 8 } bb;
typedef enum ctag { C0 = 8, C1 = C0 * 8, C2 = -(8 - C1), C3 = ((C2)), C4 = 010 + 8, C5 = '8' - 8 } cc;
`

// Enumerators written with their expression.
func CheckExpand() {
	ast := hx.Parse("expand", expand)
	rules := tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^"}}}
	pre := renames(rules)
	// the digits 8 of one enumeration become symbolic
	which := rt.Choice("enum", 3)
	letter := "ABC"[which]
	env := map[string]hx.Num{}
	var ms []member
	var want []hx.Num
	u := ast.TranslationUnit
	for ; u != nil; u = u.TranslationUnit {
		d := u.ExternalDeclaration.Declaration
		if d == nil || d.DeclarationSpecifiers == nil {
			continue
		}
		var et *cc.EnumType
		for s := d.DeclarationSpecifiers; s != nil; s = s.DeclarationSpecifiers {
			if s.TypeSpecifier != nil && s.TypeSpecifier.EnumSpecifier != nil {
				et, _ = s.TypeSpecifier.EnumSpecifier.Type().(*cc.EnumType)
			}
		}
		if et == nil {
			continue
		}
		for _, en := range et.Enumerators() {
			name := en.Token.SrcStr()
			src := ""
			toks := cc.NodeTokens(en.ConstantExpression)
			for i := range toks {
				b := toks[i].Src()
				if name[0] == letter && b[0] >= '0' && b[0] <= '9' {
					for j := range b {
						if b[j] == '8' {
							b[j] = rt.Str("digit", 1, 1, "1-9")[0]
						}
					}
				}
				src += " " + string(b)
			}
			v := (&hx.Evaluator{C: true, Env: env}).Eval(src)
			env[name] = v
			t := ""
			switch name[0] {
			case 'B':
				t = "bb"
			case 'C':
				t = "cc"
			}
			ms = append(ms, member{name, int64(v.M), t})
			want = append(want, v)
		}
	}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(&tl.Config{Rules: rules, ConstRules: tl.ConstRules{tl.ConstEnum: tl.ConstExpand}}, ast)))
	rt.Reach("expand")
	rt.Observe("const", o.Const)
	rt.Assert(len(ms) == 18, "the reference does not see every member")
	for i := range want {
		rt.Assert(want[i].OK, "the reference cannot evaluate "+ms[i].name)
	}
	emitted(o, ms, pre, func(string) bool { return true }, false)
}

const types = `
typedef enum { A0 = -1, A1 = 7 } aa;
typedef enum btag { B0, B1 } bb;
enum ctag { C0, C1 };
typedef enum ctag cc;
typedef struct { int x; } hid;
`

// Which types are emitted, and the unsigned tip.
func CheckTypes() {
	ast := hx.Parse("types", types)
	ign := []string{"", "^aa$", "^bb$", "^cc$", "^btag$", "^ctag$"}
	k := rt.Choice("ignored", len(ign))
	rules := tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^"}}}
	if k > 0 {
		rules[tl.TargetType] = []tl.RuleSpec{{Action: tl.ActionIgnore, From: ign[k]}}
		rules[tl.TargetGlobal] = append(rules[tl.TargetGlobal], tl.RuleSpec{Action: tl.ActionIgnore, From: ign[k]})
	}
	cfg := &tl.Config{Rules: rules}
	rx := []string{"", "^aa$", "^b", "^cc$", "a"}
	u := rt.Choice("unsigned", len(rx))
	if u > 0 {
		cfg.TypeTips = tl.TypeTips{tl.TipScopeEnum: []tl.TipSpec{{Target: rx[u], Tips: tl.Tips{tl.TipTypeUnsigned}}}}
	}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	rt.Reach("types")
	rt.Observe("const", o.Const)
	cs, ty, tn := consts(o.Const)
	for i, t := range []string{"aa", "bb", "cc"} {
		uns := false
		switch u {
		case 1:
			uns = t == "aa"
		case 2:
			uns = t == "bb"
		case 3:
			uns = t == "cc"
		case 4:
			uns = t == "aa"
		}
		w := "int32"
		if uns {
			w = "uint32"
		}
		l := strings.ToUpper(t[:1])
		if k == i+1 {
			rt.Assert(tn[t] == 0, t+" is not accepted but is declared")
			continue
		}
		rt.Assert(tn[t] == 1 && ty[t] == w, t+" is not declared once with its type")
		for j := 0; j < 2; j++ {
			c := cs[l+hx.Uint(j)]
			v := int64(j)
			if t == "aa" {
				v = int64(8*j - 1)
			}
			rt.Assert(c != nil && c.n == 1 && c.typ == t && c.val.OK && c.val.M == uint64(v), "a member of "+t+" is missing or has another type or value")
		}
	}
}
