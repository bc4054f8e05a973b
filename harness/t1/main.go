package main

import (
	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckGen": CheckGen})
}

const src = `
#define FOO 12
#define BAR (FOO+2)
#define BAZ 0x10u
typedef struct point { int x; unsigned char y[4]; double *z; struct point *next; const char *name; } point_t;
enum color { RED, GREEN = 5, BLUE };
typedef enum { A1 = -1, B1 } ab;
typedef int (*callback)(int x, void *y);
typedef unsigned int u32;
union uu { int a; float b; };
int func1(int a, const char *b, point_t *p, u32 **q);
void func2(void);
ab func3(union uu u, struct point p, callback cb);
extern const int cc1;
int arr[3];
`

func CheckGen() {
	ast := hx.Parse("src", src)
	tr := hx.Translator(&tl.Config{Rules: hx.AcceptAll()}, ast)
	g := hx.NewGen(&generator.Config{}, tr)
	o := hx.Run(g)
	rt.Observe("c", o.Const)
	rt.Observe("t", o.Types)
	rt.Observe("u", o.Unions)
	rt.Observe("d", o.Decls)
	rt.Observe("go", o.Go)
	rt.Observe("ch", o.CH)
	rt.Observe("cc", o.CC)
}
