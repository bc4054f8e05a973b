package main

import (
	"regexp"

	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){
		"CheckRule": CheckRule, "CheckOrder": CheckOrder, "CheckTwoRules": CheckTwoRules, "CheckKeyword": CheckKeyword,
		"CheckBuiltin": CheckBuiltin, "CheckIdent": CheckIdent,
	})
}

func newTr(r tl.Rules) *tl.Translator {
	tr, err := tl.New(&tl.Config{Rules: r})
	if err != nil {
		panic(err)
	}
	return tr
}

// letter case by hand, for ASCII
func up(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func low(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func applyCase(s string, t tl.RuleTransform) string {
	b := []byte(s)
	switch t {
	case tl.TransformLower:
		for i := range b {
			b[i] = low(b[i])
		}
	case tl.TransformUpper:
		for i := range b {
			b[i] = up(b[i])
		}
	case tl.TransformTitle, tl.TransformExport:
		if len(b) > 0 {
			b[0] = up(b[0])
		}
	case tl.TransformUnexport:
		if len(b) > 0 {
			b[0] = low(b[0])
		}
	}
	return string(b)
}

// ref applies one rule to name: every non-overlapping match, left to right, is replaced.
func ref(name string, s tl.RuleSpec) string {
	from, to := s.From, s.To
	if s.Action == tl.ActionNone {
		to = "${_src}"
		if from == "" {
			from = ".*"
		}
		from = "(?P<_src>" + from + ")"
	} else if from == "" {
		from = "(.*)"
	}
	rx := regexp.MustCompile(from)
	out, pos := "", 0
	for _, m := range rx.FindAllStringSubmatchIndex(name, -1) {
		out += name[pos:m[0]]
		out += applyCase(string(rx.ExpandString(nil, to, name, m)), s.Transform)
		pos = m[1]
	}
	return out + name[pos:]
}

var keywords = []string{"break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto",
	"package", "switch", "const", "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "var"}

func isKeyword(s string) bool {
	r := false
	for _, k := range keywords {
		if len(k) == len(s) {
			r = rt.Or(r, k == s)
		}
	}
	return r
}

func isIdent(s string) bool {
	if len(s) == 0 {
		return false
	}
	return rt.And(rt.InClass(s, "a-zA-Z0-9_"), rt.InClass(s[:1], "a-zA-Z_"))
}

// check compares got with the reference name and the identifier requirements.
func check(got, want string, what string) {
	kw := isKeyword(want)
	rt.Assert(!isKeyword(got), what+": a Go keyword came out")
	if kw {
		rt.Assert(isIdent(got), what+": the replacement of a keyword is not an identifier")
		return
	}
	rt.Assert(got == want, what+": the name differs from the rule pipeline")
}

var transforms = []tl.RuleTransform{"", tl.TransformLower, tl.TransformTitle, tl.TransformExport, tl.TransformUnexport, tl.TransformUpper}

var patterns = []string{"", "_([a-z]+)", "a", "^ab?", "(?i)b_", "[0-9]+$", "_", "(a)(b)", "x*", "_([^_]+)"}
var tos = []string{"", "$1", "x", "${0}Q", "_$1_", "abcd"}

// One rule of one target with an arbitrary pattern, replacement and transform, on an arbitrary name.
func CheckRule() {
	n := 3
	if rt.Deep() {
		n = 5
	}
	act := tl.ActionReplace
	if rt.Bool("noaction") {
		act = tl.ActionNone
	}
	s := tl.RuleSpec{Action: act, From: patterns[rt.Choice("from", len(patterns))], Transform: transforms[rt.Choice("tr", len(transforms))]}
	if act == tl.ActionReplace {
		s.To = tos[rt.Choice("to", len(tos))]
	}
	target := []tl.RuleTarget{tl.TargetGlobal, tl.TargetType, tl.TargetPostGlobal}[rt.Choice("target", 3)]
	tr := newTr(tl.Rules{target: {s}})
	name := rt.Str("name", 1, n, "a-bB_1")
	got := string(tr.TransformName(tl.TargetType, name))
	want := ref(name, s)
	rt.Observe("got", got)
	rt.Reach("rule")
	check(got, want, "one rule")
}

// Two rules of one target are applied one after the other, in their order.
func CheckTwoRules() {
	n := 3
	if rt.Deep() {
		n = 4
	}
	rules := []tl.RuleSpec{
		{Action: tl.ActionReplace, From: "^ab", To: "b"},
		{Action: tl.ActionReplace, From: "b", To: "aa"},
		{Action: tl.ActionReplace, From: "_([a-z])", To: "$1", Transform: tl.TransformUpper},
		{Transform: tl.TransformLower},
		{Action: tl.ActionReplace, From: "A", To: "_a"},
		{Load: "snakecase"},
		{Transform: tl.TransformExport},
		{From: "a$", Transform: tl.TransformUpper},
	}
	i, j := rt.Choice("i", len(rules)), rt.Choice("j", len(rules))
	tr := newTr(tl.Rules{tl.TargetGlobal: {rules[i], rules[j]}})
	name := rt.Str("name", 1, n, "a-bA_")
	got := string(tr.TransformName(tl.TargetFunction, name))
	load := func(s tl.RuleSpec) tl.RuleSpec {
		if s.Load == "snakecase" {
			s = tl.RuleSpec{Action: tl.ActionReplace, From: "_([^_]+)", To: "$1", Transform: tl.TransformTitle}
		}
		return s
	}
	want := ref(ref(name, load(rules[i])), load(rules[j]))
	rt.Observe("got", got)
	rt.Reach("two")
	check(got, want, "two rules")
}

// The targets are applied in the order global, own, post-global, visibility, and no other target is.
func CheckOrder() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	all := []tl.RuleTarget{tl.TargetGlobal, tl.TargetPostGlobal, tl.TargetConst, tl.TargetType, tl.TargetFunction, tl.TargetPublic, tl.TargetPrivate}
	marks := []string{"G", "P", "C", "T", "F", "U", "R"}
	tg := all[2+rt.Choice("target", 3)]
	vis := rt.Choice("vis", 3)
	others := rt.Bool("others")
	rules := tl.Rules{}
	specs := map[tl.RuleTarget]tl.RuleSpec{}
	for i, t := range all {
		used := t == tl.TargetGlobal || t == tl.TargetPostGlobal || t == tg || (t == tl.TargetPublic && vis == 1) || (t == tl.TargetPrivate && vis == 2)
		has, prefix := others, false
		if used || rt.Deep() {
			has = rt.Bool("has_" + string(t))
			prefix = has && rt.Bool("prefix_"+string(t))
		}
		if has {
			s := tl.RuleSpec{Action: tl.ActionReplace, From: "$", To: marks[i]}
			if prefix {
				// cooperating rule: only rewrites what an earlier stage left behind
				s = tl.RuleSpec{Action: tl.ActionReplace, From: "([A-Z])$", To: marks[i] + "$1"}
			}
			specs[t] = s
			rules[t] = []tl.RuleSpec{s}
		}
	}
	tr := newTr(rules)
	name := rt.Str("name", 1, n, "a-z_")
	var got string
	switch vis {
	case 0:
		got = string(tr.TransformName(tg, name))
	case 1:
		got = string(tr.TransformName(tg, name, true))
	case 2:
		got = string(tr.TransformName(tg, name, false))
	}
	want := name
	stages := []tl.RuleTarget{tl.TargetGlobal, tg, tl.TargetPostGlobal}
	if vis == 1 {
		stages = append(stages, tl.TargetPublic)
	} else if vis == 2 {
		stages = append(stages, tl.TargetPrivate)
	}
	for _, t := range stages {
		if s, ok := specs[t]; ok {
			want = ref(want, s)
		}
	}
	rt.Observe("got", got)
	rt.Reach("order")
	check(got, want, "targets in order")
}

// No name, under no target or visibility, comes out as a Go keyword.
func CheckKeyword() {
	name := rt.Str("name", 1, 11, "a-z_")
	targets := []tl.RuleTarget{tl.TargetConst, tl.TargetType, tl.TargetFunction}
	tg := targets[rt.Choice("target", 3)]
	rules := tl.Rules{}
	if rt.Bool("lower") {
		rules[tl.TargetPrivate] = []tl.RuleSpec{{Transform: tl.TransformLower}}
	}
	tr := newTr(rules)
	var got string
	switch rt.Choice("vis", 3) {
	case 0:
		got = string(tr.TransformName(tg, name))
	case 1:
		got = string(tr.TransformName(tg, name, true))
	case 2:
		got = string(tr.TransformName(tg, name, false))
	}
	rt.Reach("keyword")
	check(got, name, "identity pipeline")
}

// A keyword that only arises from the rules is rewritten as well.
func CheckBuiltin() {
	kw := keywords[rt.Choice("kw", len(keywords))]
	how := rt.Choice("how", 4)
	name, rules := kw, tl.Rules{}
	vis := []bool{}
	switch how {
	case 0:
		name = "lib_" + kw
		rules[tl.TargetGlobal] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^lib_", To: ""}}
	case 1:
		name = kw + "_t"
		rules[tl.TargetType] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "_t$", To: ""}}
	case 2:
		name = applyCase(kw, tl.TransformTitle)
		rules[tl.TargetPrivate] = []tl.RuleSpec{{Transform: tl.TransformUnexport}}
		vis = []bool{false}
	case 3:
		name = applyCase(kw, tl.TransformUpper)
		rules[tl.TargetPostGlobal] = []tl.RuleSpec{{Transform: tl.TransformLower}}
	}
	got := string(newTr(rules).TransformName(tl.TargetType, name, vis...))
	rt.Observe("got", got)
	rt.Reach("builtin")
	rt.Assert(!isKeyword(got), "a keyword made by the rules came out")
	rt.Assert(isIdent(got), "the replacement of a keyword made by the rules is not an identifier")
}

// An identifier stays one under rules that only insert identifier characters.
func CheckIdent() {
	n := 3
	if rt.Deep() {
		n = 5
	}
	rules := []tl.RuleSpec{
		{Load: "snakecase"},
		{Action: tl.ActionReplace, From: "_", To: "X"},
		{Action: tl.ActionReplace, From: "([a-z])_([a-z])", To: "${1}q$2"},
		{Action: tl.ActionReplace, From: "[0-9]", To: "_n_"},
		{Action: tl.ActionReplace, From: "^", To: "z"},
		{Transform: tl.TransformExport},
		{Action: tl.ActionReplace, From: "(a|b)", To: "$1$1", Transform: tl.TransformUpper},
	}
	i := rt.Choice("i", len(rules))
	tr := newTr(tl.Rules{tl.TargetGlobal: {rules[i]}, tl.TargetPublic: {{Transform: tl.TransformExport}}, tl.TargetPrivate: {{Transform: tl.TransformUnexport}}})
	name := rt.Str("first", 1, 1, "a-zA-Z") + rt.Str("rest", 0, n, "a-zA-Z0-9_")
	got := string(tr.TransformName(tl.TargetFunction, name, rt.Bool("public")))
	rt.Observe("got", got)
	rt.Reach("ident")
	rt.Assert(isIdent(got), "the name of an identifier is not an identifier")
	rt.Assert(!isKeyword(got), "the name of an identifier is a keyword")
}
