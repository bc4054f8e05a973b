package main

import (
	"flag"
	"os"
	"path/filepath"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunSettings": CheckRunSettings, "CheckRunDirs": CheckRunDirs, "CheckRunLocate": CheckRunLocate})
	}
}

// parts are sections of the configuration that several settings are in.
type verifParts struct {
	opts, global, rest string
	rules              tl.Rules
}

var verifSettings = []func(r *verifRun, p *verifParts){
	func(r *verifRun, p *verifParts) {},
	func(r *verifRun, p *verifParts) {
		r.gen.Options.SafeStrings = true
		p.opts += "    SafeStrings: true\n"
	},
	func(r *verifRun, p *verifParts) {
		r.gen.Options.StructAccessors = true
		p.opts += "    StructAccessors: true\n"
	},
	func(r *verifRun, p *verifParts) { r.gen.Options.KeepAlive = true; p.opts += "    KeepAlive: true\n" },
	func(r *verifRun, p *verifParts) {
		r.gen.PackageDescription = "is it"
		r.genText += "  PackageDescription: is it\n"
	},
	func(r *verifRun, p *verifParts) {
		r.gen.PackageLicense = "MIT\nLICENSE"
		r.genText += "  PackageLicense: \"MIT\\nLICENSE\"\n"
	},
	func(r *verifRun, p *verifParts) {
		r.gen.FlagGroups = []generator.TraitFlagGroup{{Name: "CFLAGS", Flags: []string{"-DX"}}, {Name: "LDFLAGS", Traits: []string{"linux"}, Flags: []string{"-lx", "-ly"}}}
		r.genText += "  FlagGroups: [{name: CFLAGS, flags: [-DX]}, {name: LDFLAGS, traits: [linux], flags: [-lx, -ly]}]\n"
	},
	func(r *verifRun, p *verifParts) {
		r.gen.SysIncludes = []string{"s.h"}
		r.genText += "  SysIncludes: [s.h]\n"
	},
	func(r *verifRun, p *verifParts) {
		r.gen.Includes = []string{"i.h"}
		r.genText += "  Includes: [i.h]\n"
	},
	func(r *verifRun, p *verifParts) {
		p.rules[tl.TargetGlobal] = append(p.rules[tl.TargetGlobal], tl.RuleSpec{Action: tl.ActionIgnore, From: "second"})
		p.global += "      - {action: ignore, from: second}\n"
	},
	func(r *verifRun, p *verifParts) {
		p.rules[tl.TargetConst] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^N_", To: "$_Num_"}}
		p.rest += "    const:\n      - {action: replace, from: ^N_, to: $_Num_}\n"
	},
	func(r *verifRun, p *verifParts) {
		p.rules[tl.TargetType] = []tl.RuleSpec{{Transform: tl.TransformTitle}}
		p.rest += "    type:\n      - {transform: title}\n"
	},
	func(r *verifRun, p *verifParts) {
		p.rules[tl.TargetFunction] = []tl.RuleSpec{{Action: tl.ActionDocument, From: "^f", To: "see $file"}}
		p.rest += "    function:\n      - {action: doc, from: ^f, to: see $file}\n"
	},
	func(r *verifRun, p *verifParts) {
		p.rules[tl.TargetPostGlobal] = []tl.RuleSpec{{Load: "snakecase"}}
		p.rest += "    post-global:\n      - {load: snakecase}\n"
	},
	func(r *verifRun, p *verifParts) {
		p.rules[tl.TargetPrivate] = []tl.RuleSpec{{Transform: tl.TransformUpper}}
		p.rest += "    private:\n      - {transform: upper}\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.ConstRules = tl.ConstRules{tl.ConstDefines: tl.ConstExpand, tl.ConstEnum: tl.ConstEval}
		r.trText += "  ConstRules: {defines: expand, enum: eval}\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.PtrTips = tl.PtrTips{tl.TipScopeFunction: {{Target: "first", Tips: tl.Tips{tl.NoTip, tl.TipPtrRef}, Self: tl.TipPtrArr, Default: tl.TipPtrSRef}}}
		r.trText += "  PtrTips: {function: [{target: first, tips: [\"\", ref], self: arr, default: sref}]}\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.TypeTips = tl.TypeTips{tl.TipScopeType: {{Target: "s_item", Self: tl.TipTypePlain}}}
		r.trText += "  TypeTips: {type: [{target: s_item, self: plain}]}\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.MemTips = tl.MemTips{{Target: "s_item", Self: tl.TipMemRaw}}
		r.trText += "  MemTips: [{target: s_item, self: raw}]\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.Typemap = tl.CTypeMap{tl.CTypeSpec{Base: "char", Const: true, Pointers: 1}: tl.GoTypeSpec{Base: "uintptr"}}
		r.trText += "  Typemap:\n    ? {base: char, const: true, pointers: 1}\n    : {base: uintptr}\n"
	},
	func(r *verifRun, p *verifParts) {
		no := false
		r.tr.ConstCharIsString = &no
		r.trText += "  ConstCharIsString: false\n"
	},
	func(r *verifRun, p *verifParts) {
		yes := true
		r.tr.ConstUCharIsString = &yes
		r.trText += "  ConstUCharIsString: true\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.LenFields = map[string]string{"s_item.s_data": "s_len"}
		r.trText += "  LenFields: {s_item.s_data: s_len}\n"
	},
	func(r *verifRun, p *verifParts) {
		r.tr.Validations = tl.Validations{{ValidateFunc: "check", Ret: "nil", MatchedFunc: "second"}}
		r.trText += "  Validations: [{validatefunc: check, ret: nil, matchedfunc: second}]\n"
	},
	func(r *verifRun, p *verifParts) { r.par.Arch = "386" },
	func(r *verifRun, p *verifParts) {
		r.put("inc/b.h", "int f_b(void);\n")
		r.par.IncludePaths = []string{filepath.Join(r.dir, "inc")}
		r.par.SourcesPaths = append(r.par.SourcesPaths, "b.h")
		r.parText += "  IncludePaths: [" + r.par.IncludePaths[0] + "]\n"
	},
	func(r *verifRun, p *verifParts) {
		r.put("sys/c.h", "int f_c(void);\n")
		r.put("d.h", "#include <c.h>\n")
		r.par.SysIncludePaths = []string{filepath.Join(r.dir, "sys")}
		r.par.SourcesPaths = append(r.par.SourcesPaths, "d.h")
		r.parText += "  SysIncludePaths: [" + r.par.SysIncludePaths[0] + "]\n"
	},
	func(r *verifRun, p *verifParts) {
		r.put("e.h", "int f_e(void);\n")
		r.par.SourcesPaths = append(r.par.SourcesPaths, "e.h")
		r.par.IgnoredPaths = []string{"e.h"}
		r.parText += "  IgnoredPaths: [e.h]\n"
	},
	func(r *verifRun, p *verifParts) {
		r.put("g.h", "#ifdef G\nint f_g(int f_a[G]);\n#endif\n")
		r.par.SourcesPaths = append(r.par.SourcesPaths, "g.h")
		r.par.Defines = map[string]interface{}{"G": 7}
		r.parText += "  Defines: {G: 7}\n"
	},
	func(r *verifRun, p *verifParts) { r.mem = "0x3fffffff"; verifBoth(r) },
	func(r *verifRun, p *verifParts) { r.noCGO = true },
}

// both needs memory limits.
func verifBoth(r *verifRun) {
	r.put("h.h", "void f_h(char **f_t);\n")
	r.par.SourcesPaths = append(r.par.SourcesPaths, "h.h")
}

// Each setting has its effect, alone and with any other one.
func CheckRunSettings() {
	r := verifNew()
	p := &verifParts{rules: tl.Rules{}}
	i := rt.Choice("one", len(verifSettings))
	j := rt.Choice("other", len(verifSettings))
	rt.Assume(i < j || j == 0)
	verifSettings[i](r, p)
	verifSettings[j](r, p)
	r.rules(p.rules, p.global+p.rest)
	if p.opts != "" {
		r.genText += "  Options:\n" + p.opts
	}
	r.check("a setting")
}

// A directory stands for its configuration file.
func CheckRunDirs() {
	dir := filepath.Join(rt.Scratch(), "lib")
	want := ""
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	for _, n := range []string{"c-for-go.yaml", "c-for-go.yml", "lib.yaml", "lib.yml", "other.yml"} {
		at := filepath.Join(dir, n)
		switch rt.Choice(n, 3) {
		case 1:
			if err := os.WriteFile(at, []byte("x"), 0644); err != nil {
				panic(err)
			}
			if want == "" && n != "other.yml" {
				want = at
			}
		case 2:
			if err := os.MkdirAll(at, 0755); err != nil {
				panic(err)
			}
		}
	}
	got, ok := configFromDir(dir + rt.Pick("slash", "", "/"))
	rt.Assert(ok == (want != ""), "a directory stands for a configuration file exactly when it has one of its names")
	rt.Assert(got == want, "a directory stands for the first of its configuration files")
	rt.Reach("dirs")
}

// The configurations given are taken in their order.
func CheckRunLocate() {
	at := rt.Scratch()
	var args, want []string
	for i := 0; i < 3; i++ {
		n := string(rune('a' + i))
		switch rt.Choice("arg", 3) {
		case 0:
			continue
		case 1:
			f := filepath.Join(at, n+".yml")
			if err := os.WriteFile(f, []byte("x"), 0644); err != nil {
				panic(err)
			}
			args, want = append(args, f), append(want, f)
		case 2:
			d := filepath.Join(at, n)
			if err := os.MkdirAll(d, 0755); err != nil {
				panic(err)
			}
			f := filepath.Join(d, n+".yml")
			if err := os.WriteFile(f, []byte("x"), 0644); err != nil {
				panic(err)
			}
			args, want = append(args, d), append(want, f)
		}
	}
	if err := flag.CommandLine.Parse(args); err != nil {
		panic(err)
	}
	got := getConfigPaths()
	rt.Assert(len(got) == len(want), "there is one configuration for each argument")
	for i := range want {
		if i < len(got) {
			rt.Assert(got[i] == want[i], "the configurations are those of the arguments, in their order")
		}
	}
	rt.Reach("locate")
}
