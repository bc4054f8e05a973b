package main

import (
	"fmt"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckParams": CheckParams, "CheckResults": CheckResults, "CheckMembers": CheckMembers, "CheckCallbacks": CheckCallbacks, "CheckCallbackResults": CheckCallbackResults, "CheckVariables": CheckVariables, "CheckTypedefs": CheckTypedefs})
}

const prelude = `
typedef int ip; typedef unsigned char uc; typedef unsigned long size_t;
struct O { int x; }; typedef struct P { int x; } *PP; typedef struct Q { int x; } QT, *QP; typedef struct { int y; } AN;
struct T; typedef struct T *TP; struct V; typedef struct V VT; struct W;
union U { int x; }; typedef union X { int x; } XT;
enum E { E1 }; typedef enum F { F1 } FT;
typedef int (*cbt)(int a, QT *q); typedef void vfn(void); typedef void *vp;
`

// What cgo makes of it, as it is declared by cgo (go tool cgo), with C. before each name.
const stub = `
type _C_char int8; type _C_schar int8; type _C_uchar uint8; type _C_short int16; type _C_ushort uint16; type _C_int int32; type _C_uint uint32
type _C_long int64; type _C_ulong uint64; type _C_longlong int64; type _C_ulonglong uint64; type _C_float float32; type _C_double float64
type _C__Bool bool; type _C_bool = _C__Bool; type _C_size_t = _C_ulong; type _C_complexfloat complex64; type _C_complexdouble complex128
type _C_ip = _C_int; type _C_uc = _C_uchar
type _C_struct_O struct { x _C_int }; type _C_struct_P struct { x _C_int }; type _C_struct_Q struct { x _C_int }; type _C_struct___0 struct { y _C_int }
type _C_AN = _C_struct___0; type _C_QT = _C_struct_Q; type _C_PP *_C_struct_P; type _C_QP *_C_struct_Q
type _C_struct_T struct { _ [0]byte }; type _C_struct_V struct { _ [0]byte }; type _C_struct_W struct { _ [0]byte }
type _C_TP *_C_struct_T; type _C_VT = _C_struct_V
type _C_union_U = [4]byte; type _C_union_X = [4]byte; type _C_XT [4]byte
type _C_enum_E = uint32; type _C_enum_F = uint32; type _C_FT uint32
type _C_cbt *[0]byte; type _C_vfn [0]byte; type _C_vp unsafe.Pointer
func _C_calloc(n, s _C_size_t) (unsafe.Pointer, error)
func _C_free(p unsafe.Pointer)
func _C_CString(s string) *_C_char
func _C_CBytes(b []byte) unsafe.Pointer
func _C_GoString(p *_C_char) string
func _C_GoStringN(p *_C_char, n _C_int) string
`

// The types of C that the kinds are made of, and more of them.
var bases = []string{
	"int", "unsigned char", "double", "_Bool", "char", "unsigned long", "float _Complex",
	"ip", "size_t", "struct O", "PP", "QT", "QP", "AN", "struct P", "TP", "union U", "XT", "enum E", "FT", "cbt", "vp",
	"struct T", "VT", "void", "vfn",
	"const int", "const char", "const unsigned char", "const QT", "const VT", "const void",
}
var more = []string{
	"signed char", "short", "unsigned short", "unsigned", "long long", "float",
	"uc", "struct Q", "union X", "enum F", "struct W", "const struct O", "const XT", "const FT", "const PP", "const TP", "const vp",
}

// cgoBase is the name that cgo has for a type.
func cgoBase(c string) string {
	c = strings.TrimPrefix(c, "const ")
	switch c {
	case "unsigned char":
		return "C.uchar"
	case "signed char":
		return "C.schar"
	case "unsigned short":
		return "C.ushort"
	case "unsigned":
		return "C.uint"
	case "unsigned long":
		return "C.ulong"
	case "long long":
		return "C.longlong"
	case "float _Complex":
		return "C.complexfloat"
	}
	return "C." + strings.Replace(c, " ", "_", 1)
}

// The declarators, % stands for the name, and what cgo makes of them.
type declarator struct {
	c, cgo string
}

var declarators = []declarator{{"%", ""}, {"*%", "*"}, {"**%", "**"}, {"%[3]", "[3]"}, {"*%[2]", "[2]*"}, {"%[2][3]", "[2][3]"}, {"*const *%", "**"}, {"***%", "***"}, {"**%[2]", "[2]**"}, {"*%[2][3]", "[2][3]*"}, {"(*%)[3]", "*[3]"}}

func incomplete(b string) bool {
	b = strings.TrimPrefix(b, "const ")
	return b == "struct T" || b == "VT" || b == "struct W" || b == "void" || b == "vfn"
}

// cgoType is the type cgo has for a declaration, if there is such a declaration.
func cgoType(base string, d declarator) (string, bool) {
	if incomplete(base) && (!strings.Contains(d.c, "*") || strings.Contains(d.c, ")")) {
		return "", false
	}
	b := cgoBase(base)
	t := d.cgo + b
	if b == "C.void" {
		t = strings.Replace(d.cgo, "*", "", 1) + "unsafe.Pointer"
	}
	return strings.ReplaceAll(t, "C.", "_C_"), true
}

var pointers = []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef}
var types = []tl.Tip{tl.NoTip, tl.TipTypePlain, tl.TipTypeNamed, tl.TipTypeString}

// The tips that are combined in the quick tier: one of each kind alone, and some together.
var combined = [][2]int{{0, 0}, {1, 0}, {2, 0}, {3, 0}, {0, 1}, {0, 2}, {0, 3}, {2, 1}, {3, 2}}

// setting is a choice of the tips for a role.
func setting(scope tl.TipScope, target string) (*tl.Config, *generator.Config) {
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	gcfg := &generator.Config{}
	var ptr, typ tl.Tip
	var raw, options bool
	if rt.Deep() {
		ptr, typ = pointers[rt.Choice("ptr", len(pointers))], types[rt.Choice("type", len(types))]
		raw, options = rt.Choice("raw", 2) == 1, rt.Choice("options", 2) == 1
	} else {
		c := combined[rt.Choice("tips", len(combined))]
		ptr, typ = pointers[c[0]], types[c[1]]
		raw = rt.Choice("raw", 2) == 1
		options = raw
	}
	if ptr != tl.NoTip {
		cfg.PtrTips = tl.PtrTips{scope: {{Target: target, Default: ptr, Self: ptr}}}
	}
	if typ != tl.NoTip {
		cfg.TypeTips = tl.TypeTips{scope: {{Target: target, Default: typ, Self: typ}}}
	}
	if raw {
		cfg.MemTips = tl.MemTips{{Target: "^(QT|struct_O|O|AN|Q|struct_Q|struct_M|M)$", Self: tl.TipMemRaw}}
	}
	if options {
		yes := true
		cfg.ConstUCharIsString = &yes
		gcfg.Options.SafeStrings = true
		gcfg.Options.StructAccessors = true
		gcfg.Options.KeepAlive = true
	}
	return cfg, gcfg
}

// errors is what is wrong with the package that is made of a C source, where C has for its declarations what is given.
func errors(cfg *tl.Config, gcfg *generator.Config, src, decls string) (errs []string) {
	ast := hx.Try(src, prelude+src)
	if ast == nil {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			errs = []string{fmt.Sprint("the translator gives up: ", r)}
		}
	}()
	o := hx.Run(hx.NewGen(gcfg, hx.Translator(cfg, ast)))
	rt.Reach("checked")
	errs = hx.CgoErrors(stub+decls, o)
	for i, e := range errs {
		if strings.HasPrefix(e, "syntax: ") {
			// not where it is
			errs[i] = "syntax:" + e[8+strings.Index(e[8:], " "):]
		}
	}
	return errs
}

// a role makes declarations with a number, with what cgo has for them.
type role func(n string, base string, d declarator, cgo string) (src, decls string)

// compile checks that a package is made of the declarations of a type in a role.
func compile(cfg *tl.Config, gcfg *generator.Config, r role) {
	kinds, deep := bases, false
	if rt.Deep() {
		kinds, deep = append(append([]string{}, bases...), more...), true
	}
	base := kinds[rt.Choice("base", len(kinds))]
	src, decls := "", ""
	var singles, singleDecls []string
	for i, d := range declarators {
		if !deep && i > 5 && i < 10 {
			continue
		}
		cgo, ok := cgoType(base, d)
		if !ok {
			continue
		}
		s, t := r(hx.Uint(i), base, d, cgo)
		if s == "" {
			continue
		}
		src, decls = src+s+"\n", decls+t+"\n"
		singles, singleDecls = append(singles, s), append(singleDecls, t)
	}
	if src == "" {
		return
	}
	all := errors(cfg, gcfg, src, decls)
	rt.Observe("errors", len(all))
	if len(all) == 0 {
		rt.Assert(true, "compiles")
		return
	}
	alone := true
	for i, s := range singles {
		if errs := errors(cfg, gcfg, s, singleDecls[i]); len(errs) > 0 {
			alone = false
			rt.Assert(false, "no Go package is made of "+s+": "+errs[0])
		}
	}
	rt.Assert(!alone, "no Go package is made of all of "+src+": "+all[0])
}

func declare(base string, d declarator, name string) string {
	return base + " " + strings.Replace(d.c, "%", name, 1)
}

// passed is the type of a parameter that is declared with a type: arrays are passed by pointer.
func passed(cgo string) string {
	if cgo[0] == '[' {
		return "*" + cgo[strings.IndexByte(cgo, ']')+1:]
	}
	return cgo
}

// A parameter of every kind.
func CheckParams() {
	cfg, gcfg := setting(tl.TipScopeFunction, "^f")
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		return "void f" + n + "(" + declare(base, d, "a") + ");", "func _C_f" + n + "(a " + passed(cgo) + ")"
	})
}

// A result of every kind.
func CheckResults() {
	cfg, gcfg := setting(tl.TipScopeFunction, "^f")
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		if cgo[0] == '[' {
			return "", ""
		}
		return declare(base, d, "f"+n+"(void)") + ";", "func _C_f" + n + "() " + cgo
	})
}

// A member of every kind.
func CheckMembers() {
	cfg, gcfg := setting(tl.TipScopeType, "^(struct_)?M")
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		return "struct M" + n + " { int a; " + declare(base, d, "m") + "; }; void f" + n + "(struct M" + n + " *a);",
			"type _C_struct_M" + n + " struct { a _C_int; m " + cgo + " }\nfunc _C_f" + n + "(a *_C_struct_M" + n + ")"
	})
}

// A parameter of a callback of every kind.
func CheckCallbacks() {
	cfg, gcfg := setting(tl.TipScopeFunction, "^c[0-9]")
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		return "typedef void (*c" + n + ")(" + declare(base, d, "a") + "); void f" + n + "(c" + n + " a);",
			"type _C_c" + n + " *[0]byte\nfunc _C_f" + n + "(a _C_c" + n + ")"
	})
}

// A result of a callback of every kind.
func CheckCallbackResults() {
	cfg, gcfg := setting(tl.TipScopeFunction, "^c[0-9]")
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		if cgo[0] == '[' {
			return "", ""
		}
		return "typedef " + declare(base, d, "(*c"+n+")(void)") + "; void f" + n + "(c" + n + " a);",
			"type _C_c" + n + " *[0]byte\nfunc _C_f" + n + "(a _C_c" + n + ")"
	})
}

// A variable of every kind.
func CheckVariables() {
	cfg, gcfg := setting(tl.TipScopeType, "^v[0-9]")
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		return "extern " + declare(base, d, "v"+n) + ";", "var _C_v" + n + " " + cgo
	})
}

// A type of every kind, as a parameter, as a member and alone.
func CheckTypedefs() {
	cfg, gcfg := setting(tl.TipScopeType, "^t[0-9]")
	use := rt.Choice("use", 3)
	compile(cfg, gcfg, func(n, base string, d declarator, cgo string) (string, string) {
		t := "_C_t" + n
		src, decls := "typedef "+declare(base, d, "t"+n)+";", "type "+t+" "+cgo
		if strings.HasPrefix(cgo, "_C_") && d.cgo == "" && !strings.HasPrefix(cgo, "_C_enum") && !strings.HasPrefix(cgo, "_C_union") {
			decls = "type " + t + " = " + cgo
		}
		switch use {
		case 1:
			p := t
			if cgo[0] == '[' {
				p = passed(cgo)
			}
			src += " void f" + n + "(t" + n + " a);"
			decls += "\nfunc _C_f" + n + "(a " + p + ")"
		case 2:
			src += " struct M" + n + " { t" + n + " m; }; void f" + n + "(struct M" + n + " *a);"
			decls += "\ntype _C_struct_M" + n + " struct { m " + t + " }\nfunc _C_f" + n + "(a *_C_struct_M" + n + ")"
		}
		return src, decls
	})
}
