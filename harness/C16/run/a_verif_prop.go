package main

import (
	"path/filepath"
	"strings"

	rt "github.com/xlab/c-for-go/verifrt"
)

func init() {
	if rt.Enabled() {
		rt.Main(map[string]func(){"CheckRunSources": CheckRunSources, "CheckRunErrors": CheckRunErrors, "CheckRunPackages": CheckRunPackages})
	}
}

// What is configured for the front end reaches it, and the directory of the configuration is looked up last.
func CheckRunSources() {
	r := verifNew()
	r.rules(nil, "")
	text := "#ifdef N_DEF\nint f_def(void);\n#endif\n#ifdef N_NUM\nint f_num(int f_x[N_NUM]);\n#endif\n#ifdef HOSTED\nint f_hosted(void);\n#endif\n"
	r.put("b.h", "#include \"c.h\"\n"+text)
	r.put("c.h", "int f_beside(void);\n")
	r.put("inc/c.h", "int f_inc(void);\n")
	r.put("inc/d.h", "int f_inc_d(void);\n")
	r.put("d.h", "int f_beside_d(void);\n")
	r.par.SourcesPaths = []string{"b.h", "d.h"}
	if rt.Bool("paths") {
		r.par.IncludePaths = []string{filepath.Join(r.dir, "inc")}
		r.parText += "  IncludePaths: [" + r.par.IncludePaths[0] + "]\n"
	}
	if rt.Bool("defines") {
		r.par.Defines = map[string]interface{}{"N_DEF": map[interface{}]interface{}{}, "N_NUM": 3, "N_TEXT": "t", "N_F": 1.5}
		r.parText += "  Defines: {N_DEF: {}, N_NUM: 3, N_TEXT: t, N_F: 1.5}\n"
	}
	r.par.Arch = rt.Pick("arch", "amd64", "386")
	cpp := filepath.Join(r.dir, "cpp")
	rt.Program(cpp, "#define HOSTED 1\n", "#include \"...\" search starts here:\n#include <...> search starts here:\n "+filepath.Join(r.dir, "inc")+"\nEnd of search list.\n", true)
	rt.Setenv("CPP", cpp)
	r.ccDefs, r.ccIncl = rt.Bool("ccdefs"), rt.Bool("ccincl")
	got := r.check("a setting of the front end")
	rt.Assert(strings.Contains(got["main"], "func f_hosted(") == r.ccDefs, "the definitions of the host are used when asked for and only then")
	rt.Assert(strings.Contains(got["main"], "func f_def(") == (r.par.Defines != nil), "a define is visible when configured and only then")
	rt.Assert(strings.Contains(got["main"], "func f_inc_d(") == (r.par.IncludePaths != nil) && strings.Contains(got["main"], "func f_beside_d(") == (r.par.IncludePaths == nil), "a header is looked up in the include paths and then beside the configuration file")
}

// What cannot be found or is not configured is an error.
func CheckRunErrors() {
	r := verifNew()
	r.rules(nil, "")
	bad := true
	switch rt.Choice("case", 5) {
	case 0:
		r.par.SourcesPaths = []string{"a.h", "nothing.h"}
	case 1:
		r.noHeader = true
	case 2:
		r.parText = "  Arch: [\n"
		r.par.Arch = ""
	case 3:
		r.genText = ""
	case 4:
		bad = false
	}
	_, err := r.real()
	rt.Assert((err != nil) == bad, "a run reports an error exactly when it cannot be done")
	rt.Reach("errors")
}

// The include paths of packages come after the configured ones and before the directory of the configuration.
func CheckRunPackages() {
	r := verifNew()
	r.rules(nil, "")
	r.par.SourcesPaths = []string{"z.h"}
	found := ""
	put := func(dir string) {
		if rt.Bool(dir) {
			r.put(filepath.Join(dir, "z.h"), "int f_"+dir+"(void);\n")
			if found == "" {
				found = dir
			}
		}
	}
	put("inc")
	r.par.IncludePaths = []string{filepath.Join(r.dir, "inc")}
	r.parText += "  IncludePaths: [" + r.par.IncludePaths[0] + "]\n"
	pc := func(name, text string) {
		r.put("pc/"+name+".pc", "prefix="+r.dir+"\nName: "+name+"\nVersion: 1\nDescription: it\n"+text)
	}
	pc("x", "Cflags: -DX -I${prefix}/one -I${prefix}/two\nLibs: -L${prefix}/no -lx\n")
	pc("yy", "Requires: w >= 1\nCflags: -I${prefix}/three\n")
	pc("w", "Cflags: -I${prefix}/four -DW\n")
	rt.Setenv("PKG_CONFIG_PATH", filepath.Join(r.dir, "pc"))
	switch rt.Choice("packages", 6) {
	case 0:
	case 1:
		r.gen.PkgConfigOpts = []string{"x"}
		r.genText += "  PkgConfigOpts: [x]\n"
		put("one")
		put("two")
	case 2:
		r.gen.PkgConfigOpts = []string{"--static", "yy"}
		r.genText += "  PkgConfigOpts: [--static, yy]\n"
		put("three")
		put("four")
	case 3:
		r.gen.PkgConfigOpts = []string{"yy", "missing", "x"}
		r.genText += "  PkgConfigOpts: [yy, missing, x]\n"
		put("three")
		put("four")
		put("one")
	case 4:
		r.gen.PkgConfigOpts = []string{"-x", "x", "w"}
		r.genText += "  PkgConfigOpts: [-x, x, w]\n"
		put("two")
		put("four")
	case 5:
		r.gen.PkgConfigOpts = []string{"missing"}
		r.genText += "  PkgConfigOpts: [missing]\n"
	}
	if rt.Bool("beside") {
		r.put("z.h", "int f_beside(void);\n")
		if found == "" {
			found = "beside"
		}
	}
	got, err := r.real()
	rt.Assert((err == nil) == (found != ""), "the header is found exactly when it is in one of the include paths")
	if err == nil {
		rt.Assert(strings.Contains(got["main"], "func f_"+found+"("), "the header is the first one of the include paths: configured, of packages, of the configuration")
	}
	rt.Reach("packages")
}
