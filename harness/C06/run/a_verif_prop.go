package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunTips": CheckRunTips})
	}
}

// Every part of the tips reaches the translation.
func CheckRunTips() {
	r := verifNew()
	r.rules(nil, "")
	scope := tl.TipScopeFunction
	switch rt.Choice("scope", 3) {
	case 1:
		scope = tl.TipScopeAny
	case 2:
		scope = tl.TipScopeStruct
	}
	if rt.Bool("ptr") {
		spec := tl.TipSpec{Target: "f_first|s_item", Default: tl.TipPtrRef}
		line := "{target: \"f_first|s_item\", default: ref"
		if rt.Bool("tips") {
			spec.Tips = tl.Tips{tl.NoTip, tl.TipPtrArr, tl.TipPtrSRef}
			line += ", tips: [\"\", arr, sref]"
		}
		if rt.Bool("self") {
			spec.Self = tl.TipPtrArr
			line += ", self: arr"
		}
		r.tr.PtrTips = tl.PtrTips{scope: {spec}}
		r.trText += "  PtrTips:\n    " + string(scope) + ":\n      - " + line + "}\n"
	}
	if rt.Bool("type") {
		r.tr.TypeTips = tl.TypeTips{scope: {{Target: "^f_", Default: tl.TipTypePlain}, {Target: "^s_", Tips: tl.Tips{tl.TipTypeUnsigned}, Self: tl.TipTypeNamed}}}
		r.trText += "  TypeTips:\n    " + string(scope) + ":\n      - {target: ^f_, default: plain}\n      - {target: ^s_, tips: [unsigned], self: named}\n"
	}
	if rt.Bool("mem") {
		r.tr.MemTips = tl.MemTips{{Target: "^s_", Self: tl.TipMemRaw}}
		r.trText += "  MemTips:\n    - {target: ^s_, self: raw}\n"
	}
	r.check("a tip")
}
