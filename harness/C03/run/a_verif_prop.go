package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunNames": CheckRunNames})
	}
}

// Every part of a rule reaches the translation.
func CheckRunNames() {
	r := verifNew()
	rules := tl.Rules{}
	text := ""
	add := func(t tl.RuleTarget, spec tl.RuleSpec, line string) {
		if !rt.Bool(string(t)) {
			return
		}
		rules[t] = append(rules[t], spec)
		if t != tl.TargetGlobal {
			text += "    " + string(t) + ":\n"
		}
		text += "      - " + line + "\n"
	}
	add(tl.TargetGlobal, tl.RuleSpec{Transform: tl.TransformTitle}, "{transform: title}")
	add(tl.TargetPostGlobal, tl.RuleSpec{Action: tl.ActionReplace, From: "_", To: ""}, "{action: replace, from: _, to: \"\"}")
	add(tl.TargetFunction, tl.RuleSpec{Load: "snakecase"}, "{load: snakecase}")
	add(tl.TargetType, tl.RuleSpec{Action: tl.ActionReplace, From: "(?i)^s_", To: "item_"}, "{action: replace, from: '(?i)^s_', to: item_}")
	add(tl.TargetConst, tl.RuleSpec{Transform: tl.TransformLower}, "{transform: lower}")
	add(tl.TargetPublic, tl.RuleSpec{Transform: tl.TransformExport}, "{transform: export}")
	add(tl.TargetPrivate, tl.RuleSpec{Transform: tl.TransformUnexport}, "{transform: unexport}")
	r.rules(rules, text)
	r.check("a rule for names")
}
