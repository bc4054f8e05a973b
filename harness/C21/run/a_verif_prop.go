package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunValidations": CheckRunValidations})
	}
}

// The validations reach the generator, and an invalid pattern is an error.
func CheckRunValidations() {
	r := verifNew()
	r.rules(nil, "")
	valid := true
	add := func(v tl.ValidationSpec) {
		if r.tr.Validations == nil {
			r.trText += "  Validations:\n"
		}
		r.tr.Validations = append(r.tr.Validations, v)
		r.trText += "    - {validatefunc: " + v.ValidateFunc + ", ret: \"" + v.Ret + "\", matchedfunc: \"" + v.MatchedFunc + "\"}\n"
	}
	if rt.Bool("first") {
		add(tl.ValidationSpec{ValidateFunc: "checkOne", Ret: "panic(1)", MatchedFunc: "first"})
	}
	if rt.Bool("all") {
		add(tl.ValidationSpec{ValidateFunc: "checkAll", MatchedFunc: "^f_"})
	}
	if rt.Bool("invalid") {
		valid = false
		add(tl.ValidationSpec{ValidateFunc: "x", MatchedFunc: "f_("})
	}
	if !valid {
		_, err := r.real()
		rt.Assert(err != nil, "an invalid pattern is not reported")
		rt.Reach("invalid")
		return
	}
	r.check("a validation")
}
