package main

import (
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunTypes": CheckRunTypes})
	}
}

// The type map, the switches for text and the size of a long reach the translation.
func CheckRunTypes() {
	r := verifNew()
	r.par.Arch = rt.Pick("arch", "amd64", "386", "arm", "arm64", "riscv64", "ppc64le", "s390x")
	r.rules(nil, "")
	if rt.Bool("typemap") {
		r.tr.Typemap = tl.CTypeMap{tl.CTypeSpec{Base: "int"}: tl.GoTypeSpec{Base: "int", Bits: 16}, tl.CTypeSpec{Base: "long", Unsigned: true}: tl.GoTypeSpec{Base: "float", Bits: 64}}
		r.trText += "  Typemap:\n    ? {base: int}\n    : {base: int, bits: 16}\n    ? {base: long, unsigned: true}\n    : {base: float, bits: 64}\n"
	}
	yes, no := true, false
	switch rt.Choice("char", 3) {
	case 1:
		r.tr.ConstCharIsString = &yes
		r.trText += "  ConstCharIsString: true\n"
	case 2:
		r.tr.ConstCharIsString = &no
		r.trText += "  ConstCharIsString: false\n"
	}
	switch rt.Choice("uchar", 3) {
	case 1:
		r.tr.ConstUCharIsString = &yes
		r.trText += "  ConstUCharIsString: true\n"
	case 2:
		r.tr.ConstUCharIsString = &no
		r.trText += "  ConstUCharIsString: false\n"
	}
	r.check("the size of a long or a switch for text")
}
