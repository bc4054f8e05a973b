package main

import (
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
	"modernc.org/cc/v4"
)

func main() {
	rt.Main(map[string]func(){"CheckInt": CheckInt, "CheckFloat": CheckFloat, "CheckOtherSuffix": CheckOtherSuffix, "CheckExpr": CheckExpr, "CheckMixed": CheckMixed, "CheckValue": CheckValue, "CheckUsed": CheckUsed, "CheckLeftOut": CheckLeftOut})
}

var constRules = []tl.ConstRules{nil, {tl.ConstDefines: tl.ConstExpand}, {tl.ConstDefines: tl.ConstEval, tl.ConstEnum: tl.ConstExpand}, {tl.ConstDefines: tl.ConstCGOAlias}}

func rules() tl.Rules {
	return tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^[A-Za-z]"}}}
}

// find is the right-hand side of the constant of this name.
func find(o *hx.Out, name string) (string, int) {
	n := 0
	val := ""
	for _, l := range hx.Lines(o.Const) {
		if strings.HasPrefix(l, name+" = ") {
			n++
			val = l[len(name)+3:]
		}
	}
	return val, n
}

// digits are the marks that stand for symbolic digits: 1 decimal, 5 octal, A hexadecimal upper case, a lower case.
func fill(tok *cc.Token, marks string) string {
	b := tok.Src()
	for i := range b {
		if marks[i] == '?' {
			cl := "0-9"
			switch b[i] {
			case 'A':
				cl = "0-9A-F"
			case 'a':
				cl = "0-9a-f"
			case '5':
				cl = "0-7"
			case '1':
				cl = "0-1"
			case '8':
				cl = "1-9"
			}
			b[i] = rt.Str("digit", 1, 1, cl)[0]
		}
	}
	return string(b)
}

type form struct{ lit, marks string }

var ints = []form{
	{"999", "???"},
	{"0", "."},
	{"8", "?"},
	{"0555", ".???"},
	{"0xAAA", "..???"},
	{"0XAa", "..??"},
	{"0xaul", "..?.."},
	{"0XAFU", "..?.."},
	{"0xeLL", "....."},
	{"0xEAull", "...?..."},
	{"99u", "??."},
	{"9U", "?."},
	{"9l", "?."},
	{"9LL", "?.."},
	{"9ul", "?.."},
	{"9llU", "?..."},
	{"9Lu", "?.."},
	{"2147483649", ".........?"},
	{"4294967299u", ".........?."},
	{"0xFFFFFFFAu", ".........?."},
	{"0x1FFFFFFFAU", "..........?."},
	{"922337203685477580L", "..................."},
	{"0x7FFFFFFFFFFFFFFAl", ".................?."},
	{"0xFFFFFFFFFFFFFFFAL", ".................?."},
	{"18446744073709551610uLL", "...................?..."},
	{"0b101", "..?.."},
	{"0B111u", "..???."},
	{"055u", ".??."},
	{"0x1e5", "..?.?"},
	{"0x1Fl", "..?.."},
	{"4294967299", "?........?"},
}

func source(forms []form) string {
	s := ""
	for i, f := range forms {
		s += "#define M" + hx.Uint(i) + " " + f.lit + "\n"
	}
	return s
}

func literal(forms []form, key string) {
	ast := hx.Parse(key, source(forms))
	k := rt.Choice("form", len(forms))
	name := "M" + hx.Uint(k)
	tok := ast.Macros[name].ReplacementList()[0]
	src := fill(&tok, forms[k].marks)
	if src[0] == '0' && len(src) > 1 && src[1] >= '0' && src[1] <= '9' && !strings.ContainsAny(src, ".eE") {
		// an octal literal has octal digits
		for i := range src {
			rt.Assume(rt.Or(src[i] <= '7', src[i] >= 'A'))
		}
	}
	cfg := &tl.Config{Rules: rules(), ConstRules: constRules[rt.Choice("rule", len(constRules))]}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	got, n := find(o, name)
	rt.Observe("got", got)
	rt.Reach("literal")
	rt.Assert(n == 1, "a literal is not emitted once")
	c := &hx.Evaluator{C: true}
	g := &hx.Evaluator{}
	cv, gv := c.Eval(src), g.Eval(got)
	rt.Assert(cv.OK, "the reference cannot read the literal")
	rt.Assert(gv.OK, "the emitted literal is not a Go constant")
	rt.Assert(gv.Same(cv), "the emitted literal has another value")
}

// Integer literals of every base and suffix keep their value.
func CheckInt() { literal(ints, "ints") }

var floats = []form{
	{"9.9", "?.?"},
	{".9f", ".?."},
	{"9.F", "?.."},
	{"9E9", "?.?"},
	{"9e-9", "?..?"},
	{"9.9E+9", "?.?..?"},
	{"9.9e9f", "?.?.?."},
	{"9.9L", "?.?."},
	{"9e9l", "?.?."},
	{"9.l", "?.."},
	{"09.9", ".?.?"},
	{"09e9", ".?.?"},
	{"0x1p3", "....."},
	{"0x1.8P-9", ".......?"},
	{"0xA.ap9f", "..?.?.?."},
	{"0XEp+1L", "..?...."},
	{"0xfp1F", "..?..."},
	{".9E9", ".?.?"},
}

// Floating literals too.
func CheckFloat() { literal(floats, "floats") }

// Literals with the suffixes of the extensions and how long these are; the last ones are imaginary.
var others = []struct {
	form
	suffix int
}{
	{form{"9.9F64", "?.?..."}, 3}, {form{"9e-9f32x", "?..?...."}, 4}, {form{".9F128", ".?...."}, 4}, {form{"9.9bf16", "?.?...."}, 4}, {form{"9.BF16", "?....."}, 4}, {form{"9E9f16", "?.?..."}, 3}, {form{"9.9d", "?.?."}, 1}, {form{"9e9DF", "?.?.."}, 2},
	{form{"9.9dl", "?.?.."}, 2}, {form{"9.9q", "?.?."}, 1}, {form{"9.9W", "?.?."}, 1}, {form{"0xap9F64", "..?.?..."}, 3}, {form{"0x1.8p3f128", "....?......"}, 4}, {form{"9wb", "?.."}, 2}, {form{"0xawb", "..?.."}, 2}, {form{"9uwb", "?..."}, 3},
	{form{"9.9i", "?.?."}, -1}, {form{"9I", "?."}, -1}, {form{"9e9if", "?.?.."}, -1}, {form{"9lj", "?.."}, -1}, {form{"0x1p9iF", "....?.."}, -1},
}

// Literals of the extensions keep their value or are left out.
func CheckOtherSuffix() {
	var forms []form
	for _, f := range others {
		forms = append(forms, f.form)
	}
	k := rt.Choice("form", len(others))
	rule := constRules[rt.Choice("rule", len(constRules))]
	ast := hx.Parse("others", source(forms))
	name := "M" + hx.Uint(k)
	tok := ast.Macros[name].ReplacementList()[0]
	src := fill(&tok, others[k].marks)
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(&tl.Config{Rules: rules(), ConstRules: rule}, ast)))
	got, n := find(o, name)
	rt.Observe("got", got)
	rt.Reach("literal")
	if others[k].suffix < 0 {
		rt.Assert(n == 0, "an imaginary literal is emitted as a real number")
		return
	}
	if n == 0 {
		return
	}
	rt.Reach("emitted")
	c := &hx.Evaluator{C: true}
	g := &hx.Evaluator{}
	cv, gv := c.Eval(src[:len(src)-others[k].suffix]), g.Eval(got)
	rt.Assert(cv.OK, "the reference cannot read the literal")
	rt.Assert(gv.OK, "the emitted literal is not a Go constant")
	rt.Assert(gv.Same(cv), "the emitted literal has another value")
}

const exprHead = `
typedef int num;
enum { EN = 4, EN2, HID };
typedef enum { TE = 2, TE2 } tenum;
#define EN2 EN2
#define A 5
#define B -3
#define C (A + 1)
#define H 0x10
`

// All of these group alike in C and in Go.
var exprs = []string{
	"-8", "(-8)", "~8", "(8)", "+8", "- -8", "-~8", "~-8",
	"8+8", "8-8", "8*8", "(8/8)", "8%8", "8 + 8 * 8", "(8 + 8) * 8", "8 - 8 - 8", "8 - (8 - 8)", "8 / 8 * 8", "8 * (8 / 8)",
	"1 << 8", "(1 << 8) | (1 << 8)", "8 | 8", "8 ^ 8", "8 & 8", "8 & ~8", "(8 & 8) | 8", "0xA0 >> 8", "8 | (8 & 8)",
	"A", "(A)", "-A", "A + 8", "8 - A", "A * 8", "C * 8", "C - B", "B * 8", "8 + B", "EN", "EN2 + 8", "EN | 8", "TE2 + 8", "(TE | 8)", "H | 8", "~H",
	"(num)8", "((num)8)", "(num)8 * 8", "(num)(8 + 8) * 8", "(num)8 / 8", "8 * (num)(8 - 8)", "(num)(num)8 + 8", "-(num)8", "(num)-8 * 8", "(num)~8", "((num)(8))", "((num)((8 + 8) * 8))", "(num)A * 8", "(num)EN2 - 8", "(8 + (num)(8 * (8 + 8)))", "(num)(A) - (num)(B)", "(num)8 - (num)8",
	"8u + 8u", "8l * 8", "(8ul | 8ul)", "8 * 8LL + 8",
}

// In these the grouping of Go is another one.
var mixed = []string{"1 << 1 + 8", "8 & 8 + 8", "8 + 8 & 8", "8 | 8 + 8", "8 | 8 ^ 8 - 8", "8 - 8 << 1"}

// Evaluated by hand.
func exprSource(l []string) string {
	s := exprHead
	for i, e := range l {
		s += "#define M" + hx.Uint(i) + " " + e + "\n"
	}
	return s
}

var opts = []string{"", "x_"}

func expr(l []string, key, what string) {
	ast := hx.Parse(key, exprSource(l))
	k := rt.Choice("expr", len(l))
	name := "M" + hx.Uint(k)
	src := ""
	for _, tok := range ast.Macros[name].ReplacementList() {
		b := tok.Src()
		if b[0] >= '0' && b[0] <= '9' {
			m := "."
			if b[0] == '8' {
				m = "?"
			}
			for len(m) < len(b) {
				m += "."
			}
			src += " " + fill(&tok, m)
		} else {
			src += " " + string(b)
		}
	}
	cfg := &tl.Config{Rules: rules(), ConstRules: constRules[rt.Choice("rule", 2)]}
	pre := opts[rt.Choice("prefix", len(opts))]
	if rt.Bool("public") {
		// these are not for constants
		cfg.Rules[tl.TargetPublic] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^", To: "Q"}}
	}
	if pre != "" {
		cfg.Rules[tl.TargetConst] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^", To: pre}}
	}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	got, n := find(o, pre+name)
	rt.Observe("got", got)
	rt.Reach("expr")
	rt.Assert(n == 1, "an expression is not emitted once")
	env := map[string]hx.Num{}
	genv := map[string]hx.Num{}
	for nm, v := range map[string]int64{"A": 5, "B": -3, "C": 6, "H": 16, "EN": 4, "EN2": 5, "TE": 2, "TE2": 3} {
		x := hx.Num{M: uint64(v), OK: true}
		env[nm], genv[pre+nm] = x, x
	}
	typ := map[string]bool{"num": true}
	c := &hx.Evaluator{C: true, Env: env, Typ: typ}
	g := &hx.Evaluator{Env: genv, Typ: typ}
	cv, gv := c.Eval(src), g.Eval(got)
	rt.Assert(cv.OK, "the reference cannot evaluate "+l[k])
	rt.Assert(gv.OK, "the emitted expression is not a Go constant")
	rt.Assert(gv.Same(cv), what+l[k])
}

// Expressions over literals and accepted constants keep their value.
func CheckExpr() { expr(exprs, "exprs", "the emitted expression has another value: ") }

// Where the two languages group differently.
func CheckMixed() {
	expr(mixed, "mixed", "C and Go group the expression differently and it has another value: ")
}

// Evaluated constants are written with their value.
func CheckValue() {
	ast := hx.Parse("values", "#define M0 1\nconst int v1 = 3;\nconst unsigned long v2 = 4;\n")
	tr := hx.Translator(&tl.Config{Rules: rules(), LongIs64Bit: true}, ast)
	var want int64
	var val tl.Value
	unsigned := rt.Bool("unsigned")
	x := rt.Int("value", -120, 300)
	if unsigned {
		rt.Assume(x >= 0)
		val = cc.UInt64Value(x)
		switch rt.Choice("big", 3) {
		case 1:
			val = cc.UInt64Value(1 << 63)
		case 2:
			val = cc.UInt64Value(^uint64(0))
		}
		want = int64(val.(cc.UInt64Value))
	} else {
		val = cc.Int64Value(x)
		want = int64(x)
	}
	which := rt.Choice("which", 3)
	name := []string{"M0", "v1", "v2"}[which]
	if which == 0 {
		for _, d := range tr.Defines() {
			if d.Name == name {
				d.Value, d.Expression = val, ""
			}
		}
	} else {
		for _, d := range tr.Declares() {
			if d.Name == name {
				d.Value, d.Expression = val, ""
			}
		}
	}
	o := hx.Run(hx.NewGen(&generator.Config{}, tr))
	got := ""
	for _, l := range hx.Lines(o.Const) {
		for _, head := range []string{name + " = ", "const " + name + " int32 = ", "const " + name + " uint = ", "const " + name + " uint64 = "} {
			if strings.HasPrefix(l, head) {
				got = l[len(head):]
			}
		}
	}
	rt.Observe("got", got)
	rt.Reach("value")
	v := (&hx.Evaluator{}).Eval(got)
	rt.Assert(v.OK && int64(v.M) == want, "an evaluated constant is written with another value")
}

const usedSrc = `
#define UI 7u
#define UC 'c'
#define UN -3
#define UF 2.5
#define UG 0.1f
#define US "text"
#define UE (EU + 2)
#define UX (HIDDEN + 1)
#define HIDDEN 41
#define UFN FN(8)
#define FN(x) ((x) + 1)
enum { EU = 6 };
const int k1 = 12;
const unsigned char k2 = 'x';
const double k3 = 1.25;
const int k4 = 3 * (2 + UI);
static const int k5 = 9;
int use(int a) { const char *s = US; double d = UF; float f = UG; return UI + UC + UN + UE + UX + UFN; }
`

// Constants the C front end has evaluated.
func CheckUsed() {
	ast := hx.Parse("used", usedSrc)
	cfg := &tl.Config{Rules: tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^(U|EU|k|use)"}}}, ConstRules: constRules[rt.Choice("rule", len(constRules))]}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	rt.Reach("used")
	env := map[string]hx.Num{"EU": {M: 6, OK: true}}
	for name, want := range map[string]uint64{"UI": 7, "UN": ^uint64(2), "UE": 8, "UX": 42, "UFN": 9, "k1": 12, "k2": 'x', "k4": 27} {
		got, n := find(o, name)
		for _, l := range hx.Lines(o.Const) {
			if strings.HasPrefix(l, "const "+name+" ") {
				i := strings.Index(l, " = ")
				rt.Assert(i > 0, name+" lost its value")
				if i > 0 {
					got, n = l[i+3:], n+1
				}
			}
		}
		v := (&hx.Evaluator{Env: env}).Eval(got)
		must := name[0] == 'k' || name == "UI" || name == "UN" || name == "UE"
		rt.Assert(n == 1 || n == 0 && !must, name+" is not emitted once")
		rt.Assert(n == 0 || v.OK && v.M == want, name+" is emitted with another value")
	}
	for name, wants := range map[string][]string{"UF": {"2.5"}, "UG": {"0.1", "0.10000000149011612"}, "US": {`"text"`}, "UC": {"'c'", "99"}} {
		got, n := find(o, name)
		ok := false
		for _, w := range wants {
			ok = ok || got == w
		}
		rt.Assert(n == 1 && ok, name+" is emitted with another value")
	}
	rt.Assert(strings.Contains(o.Const, "const k3 float64 = 1.25"), "k3 is emitted with another value")
}

const outSrc = `
typedef int num;
#define GUARD
#define FN(x) x
#define UNDEF NOT_DEFINED
#define UNDEF2 (NOT_DEFINED + 1)
#define CALL FN(3)
#define SIZ sizeof(num)
#define TYP num
#define TYP2 (num)
#define KEY int
#define HID 5
#define REFH (HID + 1)
#define DECL extern int
#define COND (KEEP ? 1 : 2)
#define LESS KEEP < 3
#define BOTH (KEEP && 1)
#define LIST 1, 2
#define REFU (UNDEF + 1)
#define REFR REFU + 2
#define REFG GUARD + 1
#define LOOP1 LOOP2
#define LOOP2 (LOOP3)
#define LOOP3 LOOP1
#define KEEP 4
const int nov;
int arr(void);
`

// What has no constant value is left out.
func CheckLeftOut() {
	ast := hx.Parse("out", outSrc)
	cfg := &tl.Config{Rules: tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "."}, {Action: tl.ActionIgnore, From: "^HID$"}}}, ConstRules: constRules[rt.Choice("rule", len(constRules))]}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	rt.Reach("leftout")
	for _, n := range []string{"GUARD", "FN", "UNDEF", "UNDEF2", "TYP", "TYP2", "KEY", "HID", "DECL", "COND", "LESS", "BOTH", "LIST", "REFU", "REFR", "REFG", "LOOP1", "LOOP2", "LOOP3"} {
		_, k := find(o, n)
		rt.Assert(k == 0, n+" has no value but is emitted with one")
	}
	for n, w := range map[string]string{"CALL": "3", "SIZ": "4", "REFH": "6"} {
		v, k := find(o, n)
		rt.Assert(k == 0 || v == w, n+" is emitted with another value")
	}
	v, k := find(o, "KEEP")
	rt.Assert(k == 1 && v == "4", "KEEP is emitted with another value")
	rt.Assert(!strings.Contains(o.Const, "nov int32 ="), "nov has no value but is emitted with one")
}
