package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunStamp": CheckRunStamp})
	}
}

// Without time stamps a run is the same as another one.
func CheckRunStamp() {
	r := verifNew()
	r.rules(nil, "")
	r.noCGO = rt.Bool("nocgo")
	if rt.Bool("consts") {
		r.tr.ConstRules = tl.ConstRules{tl.ConstDefines: tl.ConstEval}
		r.trText += "  ConstRules: {defines: eval}\n"
	}
	a := r.check("the switch for time stamps")
	b, err := r.real()
	rt.Assert(err == nil, "the second run fails")
	for _, k := range []string{"main", "doc", "const", "types", "unions", "helpers", "h", "c"} {
		rt.Assert(a[k] == b[k], "two runs differ")
	}
}
