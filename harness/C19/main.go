package main

import (
	"strconv"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckRepeats": CheckRepeats})
}

// what can be said about the same names
var families = [][]string{
	{"void X(int a);", "void X(int b);", "extern void X(int);", "void X(int a) {}", "static void Y(void) {}", "void Y(void);", "int (Z)(void), (*V)(void);"},
	{"extern int X;", "int X;", "int X = 1;", "extern int X, Y;", "extern const int K;", "const int K = 1;", "static const int K = 2;", "extern const int A[];", "extern const int A[2];"},
	{"struct X;", "struct X { int a; };", "typedef struct X X;", "typedef struct X *P;", "typedef struct X Y;", "struct X *f(struct X *x);", "extern struct X v;", "typedef struct X { int a; } X;", "typedef struct X { int a; } Y;", "typedef struct { int a; } X;", "typedef struct Y X;", "struct Y { int b; };"},
	{"union X;", "union X { int a; };", "typedef union X X;", "typedef union X *P;", "typedef union X Y;", "union X *f(union X *x);", "extern union X v;", "typedef union X { int a; } X;", "typedef union X { int a; } Y;", "typedef union { int a; } X;", "typedef union Y X;", "union Y { int b; };"},
	{"enum X { A, B };", "typedef enum X X;", "typedef enum X Y;", "enum X f(enum X *x);", "extern enum X v;", "typedef enum X { A, B } X;", "typedef enum X { A, B } Y;", "typedef enum { A, B } X;", "enum { A, B };", "extern enum { A, B } v;", "enum Y { K, L };", "typedef enum Y X;"},
	{"typedef int X;", "typedef int X, Y;", "typedef X Y;", "typedef void X(int a);", "typedef void (*X)(int a);", "typedef X *Y;", "typedef char X[3];", "typedef int *X;", "void f(X x);", "extern X v;"},
	{"enum { A = 1, B };", "#define A A", "#define A 1", "#define B A", "#undef A", "typedef enum { A } E;", "typedef enum { A = 3, D } E;", "#define E E", "int f(void);", "#define f f", "extern int V;", "#define V V"},
	{"struct S { struct X { int a; } x; };", "struct S { struct X *x; };", "struct X;", "struct X { int a; };", "typedef struct X X;", "typedef struct S S;", "typedef struct S { struct X *x; } S;", "struct X f(void);", "union X { struct S *s; };", "typedef struct { struct S *s; } X;", "typedef int X;", "typedef void X(int a);"},
	{"struct X { struct Y *y; };", "struct Y { struct X *x; };", "typedef struct X Y;", "typedef struct Y X;", "struct Y *f(struct X *x);", "Y *g(X *x);", "typedef X *P;", "typedef X Z;", "typedef struct X *P;", "union Y { struct X *x; };", "typedef union Y X;", "typedef enum { A } X;"},
}

// clashes are the complaints about names that are declared twice.
func clashes(o *hx.Out) (r []string) {
	for _, m := range hx.GoErrors(o) {
		for _, s := range []string{"redeclared", "already declared", "field and method"} {
			if strings.Contains(m, s) {
				r = append(r, m)
				break
			}
		}
		if strings.HasPrefix(m, "syntax") {
			r = append(r, m)
		}
	}
	return
}

// declared gives the names that are declared on top of the package.
func declared(o *hx.Out) (r []string) {
	group := false
	for _, l := range strings.Split(o.Const+"\n"+o.Types+"\n"+o.Unions+"\n"+o.Decls, "\n") {
		switch f := strings.FieldsFunc(l, func(c rune) bool { return c == ' ' || c == '(' }); {
		case strings.HasPrefix(l, "const ("):
			group = true
		case strings.HasPrefix(l, ")"):
			group = false
		case len(f) == 0 || strings.HasPrefix(l, "//") || strings.HasPrefix(l, "func ("):
		case group:
			r = append(r, f[0])
		case (f[0] == "func" || f[0] == "type" || f[0] == "var" || f[0] == "const") && len(f) > 1:
			r = append(r, f[1])
		}
	}
	return
}

func has(names []string, name string) bool {
	for _, n := range names {
		if n == name {
			return true
		}
	}
	return false
}

// alone gives the names that are declared for one of the forms.
func alone(form string, tips int) []string {
	return rt.Once("alone:"+strconv.Itoa(tips)+":"+form, func() interface{} {
		ast := hx.Try(form, form)
		if ast == nil {
			return []string(nil)
		}
		cfg := &tl.Config{Rules: hx.AcceptAll(), MemTips: raws[tips]}
		return declared(hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast))))
	}).([]string)
}

var raws = []tl.MemTips{nil, {{Target: "^", Self: tl.TipMemRaw}}}

// Whatever is declared again, forward, or as a typedef of a tag gives one Go declaration.
func CheckRepeats() {
	fam := families[rt.Choice("family", len(families))]
	n := 2
	if rt.Deep() {
		n = 3
	}
	src := ""
	forms := make([]string, n)
	for i := range forms {
		forms[i] = fam[rt.Choice("form", len(fam))] + "\n"
		src += forms[i]
	}
	ast := hx.Try(src, src)
	if ast == nil {
		rt.Reach("not C")
		return
	}
	rt.Reach("C")
	raw := rt.Choice("raw", len(raws))
	cfg := &tl.Config{Rules: hx.AcceptAll(), MemTips: raws[raw]}
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	for _, m := range clashes(o) {
		rt.Assert(false, "declared twice: "+m+" in "+strings.Replace(src, "\n", " ", -1))
	}
	names := declared(o)
	for _, form := range forms {
		if strings.Contains(src, "static") || strings.Contains(src, "#") {
			// not extern together with static, the macro prevails
			break
		}
		for _, name := range alone(form, raw) {
			if strings.HasPrefix(form, "extern enum") {
				// the variable is there only if nothing is known about the enumeration
				continue
			}
			tag := name == "X" || name == "Y" || strings.HasPrefix(name, "sizeof")
			if tag && !strings.HasPrefix(form, "typedef") && strings.Contains(src, "typedef") {
				// typedefs of a tag prevail
				continue
			}
			rt.Assert(has(names, name), "lost: "+name+" of "+strings.TrimSpace(form)+" in "+strings.Replace(src, "\n", " ", -1))
		}
	}
}
