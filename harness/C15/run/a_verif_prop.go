package main

import (
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunMemory": CheckRunMemory})
	}
}

// The memory limit and the length fields reach the generator.
func CheckRunMemory() {
	r := verifNew()
	r.rules(nil, "")
	r.put("b.h", "void f_pages(char **f_pages);\ntypedef struct s_v { int s_n; int *s_d; } s_v_t;\nvoid f_v(s_v_t **f_vs);\n")
	r.par.SourcesPaths = []string{"b.h"}
	r.mem = rt.Pick("mem", "0x7fffffff", "0x1fffffff", "0xffffffff", "lots", "")
	if rt.Bool("length") {
		r.tr.LenFields = map[string]string{"s_v.s_d": "s_n"}
		r.trText += "  LenFields: {s_v.s_d: s_n}\n"
	}
	if rt.Bool("access") {
		r.gen.Options.StructAccessors = true
		r.genText += "  Options: {StructAccessors: true}\n"
	}
	r.check("the memory limit or a length field")
}
