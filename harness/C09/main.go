package main

import (
	"strconv"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckAlone": CheckAlone, "CheckPairs": CheckPairs})
}

// the types that are declared where they are taken
var prelude = [][2]string{
	{"typedef int ip;", "ip"}, {"typedef unsigned char uc;", "uc"}, {"typedef unsigned long size_t;", "size_t"}, {"struct O { int x; };", "O"}, {"struct SO { int x; };", "SO"},
	{"typedef struct P { int x; } *PP;", "P PP"}, {"typedef struct Q { int x; } QT, *QP;", "Q QT QP cbt"}, {"typedef struct { int y; } AN;", "AN"}, {"struct T; typedef struct T TT; typedef TT *TP;", "T TT TP"},
	{"struct V; typedef struct V VT;", "V VT"}, {"union U { int x; };", "U"}, {"typedef union X { int x; } XT;", "X XT"}, {"enum E { E1 };", "E"}, {"typedef enum F { F1 } FT;", "F FT"},
	{"typedef struct H *HP;", "H HP"}, {"typedef struct { int q; } *AP;", "AP"}, {"struct W;", "W"}, {"typedef struct K { int k; } *KP; typedef KP KP2;", "K KP KP2"}, {"typedef union { int u; } AU;", "AU"},
	{"typedef enum { G1 } GT;", "GT"}, {"typedef int arr[3];", "arr"}, {"typedef void vfn(int a);", "vfn"}, {"struct N { struct M *m; const char *s; };", "N M"}, {"struct M { struct N *n; struct N o[2]; };", "M N"},
	{"typedef int (*cbt)(int a, QT *q);", "cbt"}, {"typedef void *vp;", "vp"}, {"typedef struct { int z; } A3Int;", "A3Int"}, {"typedef int UInt32;", "UInt32"},
}

// declared puts the types before what takes them.
func declared(src string) string {
	words := " " + strings.Join(strings.FieldsFunc(src, func(c rune) bool {
		return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_')
	}), " ") + " "
	text := ""
	for _, d := range prelude {
		for _, name := range strings.Fields(d[1]) {
			if strings.Contains(words, " "+name+" ") {
				text += d[0] + "\n"
				break
			}
		}
	}
	return text + src
}

// % stands for the name
var few = []string{
	"int *%", "ip *%", "const int *%", "unsigned *%", "UInt32 *%", "const char *%", "char *%", "unsigned char *%", "uc *%", "size_t *%",
	"struct O *%", "const struct O *%", "struct SO *%", "struct O **%", "QT *%", "struct Q *%", "QP %", "PP *%", "char **%", "const char *const *%", "int %[3]", "A3Int *%", "int **%", "void **%",
}

var more = []string{
	"int %", "unsigned char %", "double *%", "_Bool *%", "struct O %", "QT %", "AN %", "AN *%", "TT *%", "TP %", "TP *%", "VT *%", "VT **%", "union U *%", "XT *%", "union X *%", "XT %", "FT *%", "enum F *%", "cbt %", "vp %", "vp *%", "void *%",
	"unsigned %[3]", "int %[4]", "ip %[3]", "char %[3]", "unsigned char %[3]", "QT %[3]", "struct Q %[3]", "struct O *%[3]", "const char *%[3]", "int %[3][4]", "int *%[3]", "XT %[3]", "FT %[3]", "const size_t *%", "unsigned long *%", "int ***%", "QT **%", "XT **%", "void ***%",
	"struct H *%", "HP %", "HP *%", "AP %", "struct W *%", "struct W **%", "KP %", "KP2 %", "struct K *%", "AU %", "AU *%", "GT %", "GT *%", "arr %", "arr *%", "vfn *%", "struct M *%", "struct N %", "long double %", "float _Complex %", "long long *%", "_Bool %",
}

const roles = 4

// form gives C declarations that end in a function of the name, false for what is not C.
func form(name string, role int, kind string) (string, bool) {
	named := func(n string) string { return strings.Replace(kind, "%", n, 1) }
	switch role {
	case 0:
		return "void " + name + "(" + named("a") + ");\n", true
	case 1:
		if strings.Contains(kind, "[") {
			return "", false
		}
		return named(name+"(void)") + ";\n", true
	case 2:
		return "typedef struct { " + named("m") + "; } " + name + "S;\nvoid " + name + "(" + name + "S *s);\n", true
	default:
		return "typedef void (*" + name + "C)(" + named("a") + ");\nvoid " + name + "(" + name + "C c);\n", true
	}
}

func settings(i int) (c *tl.Config, g *generator.Config) {
	c, g = &tl.Config{Rules: hx.AcceptAll()}, &generator.Config{}
	switch i {
	case 1:
		g.Options.SafeStrings = true
	case 2:
		c.MemTips = tl.MemTips{{Target: "^", Self: tl.TipMemRaw}}
	case 3:
		c.PtrTips = tl.PtrTips{tl.TipScopeFunction: {{Target: "^", Self: tl.TipPtrArr, Default: tl.TipPtrRef}}}
	}
	return
}

func generate(src string, setting int) *hx.Out {
	c, g := settings(setting)
	return hx.Run(hx.NewGen(g, hx.Translator(c, hx.Parse(src, declared(src)))))
}

// alone is what a function of a package takes from it when there is no other, and what is wrong with that.
func alone(name, src string, setting int) (closure string, errors []string) {
	r := rt.Once("alone:"+strconv.Itoa(setting)+":"+src, func() interface{} {
		o := generate(src, setting)
		return append([]string{hx.Closure(name, o)}, hx.GoErrors(o)...)
	}).([]string)
	return r[0], r[1:]
}

// difference is the first line of one that the other has not.
func difference(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range as {
		if i >= len(bs) || as[i] != bs[i] {
			return as[i]
		}
	}
	return ""
}

func same(name, got, want, src string) {
	rt.Assert(got == want, name+" takes something else than alone: "+difference(got, want)+" for "+difference(want, got)+" in "+strings.Replace(src, "\n", " ", -1))
}

// proxies complains about callbacks that C and Go do not have between them, each once.
func proxies(o *hx.Out, src string) {
	goText := o.Types + "\n" + o.Decls + "\n" + o.Go
	for i := strings.Index(goText, "(C.") + 1; i > 0; {
		end := strings.IndexByte(goText[i:], ')')
		name := goText[i+2 : i+end]
		if k := strings.LastIndexByte(name, '_'); k > 0 && len(name)-k == 9 && !strings.ContainsAny(name, " (*") {
			rt.Assert(strings.Count(o.CH, " "+name+"(") == 1, "the header does not declare "+name+" once in "+src)
			rt.Assert(strings.Count(o.CC, " "+name+"(") == 1, "C does not define "+name+" once in "+src)
			exported := name[:k] + strings.ToUpper(name[k+1:])
			rt.Assert(strings.Count(o.CC, " "+exported+"(")+strings.Count(o.CC, "\t"+exported+"(") == 1, "C does not call the proxy of "+name+" in "+src)
			rt.Assert(strings.Count(goText, "//export "+exported+"\nfunc "+exported+"(") == 1, "Go does not export the proxy of "+name+" once in "+src)
			rt.Reach("proxy")
		}
		next := strings.Index(goText[i:], "(C.")
		if next < 0 {
			break
		}
		i += next + 1
	}
}

func pool() []string {
	if rt.Deep() {
		return append(append([]string(nil), few...), more...)
	}
	return few
}

// There is all that a function takes from a package.
func CheckAlone() {
	kinds := append(append([]string(nil), few...), more...)
	setting := rt.Choice("setting", 4)
	src, ok := form("fa", rt.Choice("role", roles), kinds[rt.Choice("kind", len(kinds))])
	if !ok {
		return
	}
	_, errors := alone("fa", src, setting)
	for _, m := range errors {
		for _, s := range []string{"undefined", "redeclared", "already declared", "not declared"} {
			// the result itself is no helper
			rt.Assert(!strings.Contains(m, s) || m == "undefined: __v", m+" in "+strings.Replace(src, "\n", " ", -1))
		}
	}
	rt.Reach("alone")
}

// A function takes the same from a package that has another one.
func CheckPairs() {
	kinds := pool()
	n := 2
	if rt.Deep() {
		n = 4
	}
	setting := rt.Choice("setting", n)
	ra, ka := rt.Choice("role a", roles), rt.Choice("kind a", len(kinds))
	fa, ok := form("fa", ra, kinds[ka])
	if !ok || setting == 1 && !strings.Contains(fa, "char") {
		return
	}
	rb, kb := rt.Choice("role b", roles), rt.Choice("kind b", len(kinds))
	gb, ok := form("gb", rb, kinds[kb])
	if !ok || !rt.Deep() && (ra > rb || ra == rb && ka > kb) {
		return
	}
	o := generate(fa+gb, setting)
	wantA, errA := alone("fa", fa, setting)
	wantB, errB := alone("gb", gb, setting)
	for _, m := range hx.GoErrors(o) {
		known := false
		for _, e := range append(append([]string(nil), errA...), errB...) {
			known = known || e == m
		}
		if !known {
			rt.Assert(false, "wrong only together: "+m+" in "+strings.Replace(fa+gb, "\n", " ", -1))
		}
	}
	proxies(o, fa+gb)
	same("fa", hx.Closure("fa", o), wantA, fa+gb)
	same("gb", hx.Closure("gb", o), wantB, fa+gb)
	rt.Reach("both")
}
