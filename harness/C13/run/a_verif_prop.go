package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunComments": CheckRunComments})
	}
}

// Templates of comments reach the translation.
func CheckRunComments() {
	r := verifNew()
	rules := tl.Rules{}
	text := ""
	for _, t := range []tl.RuleTarget{tl.TargetGlobal, tl.TargetFunction, tl.TargetType, tl.TargetConst} {
		if rt.Bool(string(t)) {
			rules[t] = append(rules[t], tl.RuleSpec{Action: tl.ActionDocument, From: "^[a-zA-Z]", To: "$goname at $path:$line in $file of " + string(t)})
			if t != tl.TargetGlobal {
				text += "    " + string(t) + ":\n"
			}
			text += "      - {action: doc, from: \"^[a-zA-Z]\", to: \"$goname at $path:$line in $file of " + string(t) + "\"}\n"
		}
	}
	r.rules(rules, text)
	r.check("a template of comments")
}
