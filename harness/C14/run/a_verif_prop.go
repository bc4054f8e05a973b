package main

import (
	"github.com/xlab/c-for-go/generator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunPreamble": CheckRunPreamble})
	}
}

// What is configured for the preamble reaches it.
func CheckRunPreamble() {
	r := verifNew()
	r.rules(nil, "")
	r.gen.PackageName = rt.Pick("package", "pkg", "sub/pkg2")
	r.genText = "  PackageName: " + r.gen.PackageName + "\n"
	if rt.Bool("texts") {
		r.gen.PackageDescription = "Package pkg is: it."
		r.gen.PackageLicense = "LICENSE\nof it\n"
		r.genText += "  PackageDescription: \"Package pkg is: it.\"\n  PackageLicense: |\n    LICENSE\n    of it\n"
	}
	if rt.Bool("flags") {
		r.gen.FlagGroups = []generator.TraitFlagGroup{{Name: "CFLAGS", Flags: []string{"-I/x", "-DY"}}, {Name: "LDFLAGS", Traits: []string{"linux", "amd64"}, Flags: []string{"-lx"}}}
		r.genText += "  FlagGroups:\n    - {name: CFLAGS, flags: [-I/x, -DY]}\n    - {name: LDFLAGS, traits: [linux, amd64], flags: [-lx]}\n"
	}
	if rt.Bool("includes") {
		r.gen.SysIncludes = []string{"math.h", "x/y.h"}
		r.gen.Includes = []string{"a.h", "b.h"}
		r.genText += "  SysIncludes: [math.h, x/y.h]\n  Includes: [a.h, b.h]\n"
	}
	if rt.Bool("options") {
		r.gen.Options = generator.GenOptions{SafeStrings: rt.Bool("safe"), StructAccessors: rt.Bool("access"), KeepAlive: rt.Bool("keep")}
		r.genText += "  Options: {SafeStrings: " + verifBool(r.gen.Options.SafeStrings) + ", StructAccessors: " + verifBool(r.gen.Options.StructAccessors) + ", KeepAlive: " + verifBool(r.gen.Options.KeepAlive) + "}\n"
	}
	r.noCGO = rt.Bool("nocgo")
	r.check("an option of the generator")
}

func verifBool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}
