package main

import (
	"strings"

	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunAccepted": CheckRunAccepted})
	}
}

// What is accepted and the files that are ignored reach the translation.
func CheckRunAccepted() {
	r := verifNew()
	r.put("b.h", "extern int v_b;\nint f_b(void);\ntypedef struct s_b { int s_x; } s_b_t;\n#define N_B 2\n")
	r.par.SourcesPaths = []string{"a.h", "b.h"}
	rules := tl.Rules{}
	text := ""
	add := func(t tl.RuleTarget, spec tl.RuleSpec, line string) {
		if rt.Bool(string(t)) {
			rules[t] = append(rules[t], spec)
			if t != tl.TargetGlobal {
				text += "    " + string(t) + ":\n"
			}
			text += "      - " + line + "\n"
		}
	}
	add(tl.TargetGlobal, tl.RuleSpec{Action: tl.ActionIgnore, From: "b$"}, "{action: ignore, from: b$}")
	add(tl.TargetFunction, tl.RuleSpec{Action: tl.ActionIgnore, From: "second"}, "{action: ignore, from: second}")
	add(tl.TargetType, tl.RuleSpec{Action: tl.ActionAccept, From: "b$"}, "{action: accept, from: b$}")
	add(tl.TargetConst, tl.RuleSpec{Action: tl.ActionIgnore, From: "^N_T"}, "{action: ignore, from: ^N_T}")
	add(tl.TargetPublic, tl.RuleSpec{Action: tl.ActionIgnore, From: "v_"}, "{action: ignore, from: v_}")
	switch rt.Choice("rules", 2) {
	case 0:
		r.rules(rules, text)
	case 1: // nothing is accepted
		rt.Assume(len(rules) == 0)
	}
	switch rt.Choice("ignored", 4) {
	case 1:
		r.par.IgnoredPaths = []string{"b.h"}
		r.parText += "  IgnoredPaths: [b.h]\n"
	case 2:
		r.par.IgnoredPaths = []string{"x.h", "/a.h"}
		r.parText += "  IgnoredPaths: [x.h, /a.h]\n"
	case 3:
		r.par.IgnoredPaths = []string{".h"}
		r.parText += "  IgnoredPaths: [.h]\n"
	}
	got := r.check("a rule or an ignored path")
	if len(r.par.IgnoredPaths) > 0 {
		for _, k := range []string{"main", "types", "const"} {
			if r.par.IgnoredPaths[0] == "b.h" {
				rt.Assert(!strings.Contains(got[k], "b.h:"), "a declaration of an ignored file is emitted")
			}
		}
	}
}
