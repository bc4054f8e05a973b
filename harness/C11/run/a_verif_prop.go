package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunConsts": CheckRunConsts})
	}
}

// The rules for constants reach the translation.
func CheckRunConsts() {
	r := verifNew()
	r.rules(nil, "")
	rule := ""
	if rule = rt.Pick("defines", "", "cgo", "expand", "eval"); rule != "" {
		if r.tr.ConstRules == nil {
			r.tr.ConstRules = tl.ConstRules{}
			r.trText += "  ConstRules:\n"
		}
		r.tr.ConstRules["defines"] = tl.ConstRule(rule)
		r.trText += "    defines: " + rule + "\n"
	}
	if rule = rt.Pick("decl", "", "cgo", "expand", "eval"); rule != "" {
		if r.tr.ConstRules == nil {
			r.tr.ConstRules = tl.ConstRules{}
			r.trText += "  ConstRules:\n"
		}
		r.tr.ConstRules["decl"] = tl.ConstRule(rule)
		r.trText += "    decl: " + rule + "\n"
	}
	r.check("a rule for constants")
}
