package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunEnums": CheckRunEnums})
	}
}

// The rules for constants reach the translation.
func CheckRunEnums() {
	r := verifNew()
	r.rules(nil, "")
	rule := ""
	if rule = rt.Pick("enum", "", "cgo", "expand", "eval"); rule != "" {
		if r.tr.ConstRules == nil {
			r.tr.ConstRules = tl.ConstRules{}
			r.trText += "  ConstRules:\n"
		}
		r.tr.ConstRules["enum"] = tl.ConstRule(rule)
		r.trText += "    enum: " + rule + "\n"
	}
	r.check("a rule for constants")
}
