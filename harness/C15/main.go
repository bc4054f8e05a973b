package main

import (
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckSpec": CheckSpec, "CheckCaps": CheckCaps, "CheckLen": CheckLen, "CheckStructs": CheckStructs})
}

// A limit is one of the 15 that are known, or the default.
func CheckSpec() {
	s := rt.Str("spec", 0, 11, "01279afFx")
	got := string(generator.NewMemSpec(s))
	known := false
	if len(s) == 10 {
		known = rt.And(s[0] == '0', s[1] == 'x', s[2] != '0', s[2] != 'x', s[2] != 'F', s[3:] == "fffffff")
	}
	rt.Reach("spec")
	if known {
		rt.Assert(got == s, "a known memory limit is replaced")
	} else {
		rt.Assert(got == "0x7fffffff", "an unknown memory limit does not fall back to the default")
	}
}

const src = `
typedef struct Q { int x; } QT; typedef union X { int x; } XT; typedef enum F { F1 } FT; struct W;
typedef struct S { int *a; unsigned char *b; char **c; QT *d; double **e; FT *g; char *h[4]; int *i[3]; XT *j; void **k; struct W **l; } S;
typedef void (*cb)(int *a, unsigned char *b, char **c, QT *d, double **e, FT *g, XT *j, void **k);
int *f1(void); unsigned char *f2(void); char **f3(void); QT *f4(void); double **f5(void); FT *f6(void); XT *f7(void); void **f8(void);
void g1(int *a, unsigned char *b, char **c, QT *d, double **e, FT *g, XT *j, void **k);
void g2(int ***a, char ***b, int *c[3]);
`

// places finds what follows each occurrence of pre in txt, up to one of the bytes of end.
func places(txt, pre, end string) []string {
	var r []string
	for {
		i := strings.Index(txt, pre)
		if i < 0 {
			return r
		}
		txt = txt[i+len(pre):]
		j := strings.IndexAny(txt, end)
		if j < 0 {
			j = len(txt)
		}
		r = append(r, strings.TrimSpace(txt[:j]))
	}
}

// constants are the places where an array type over C memory has its size.
func sizes(txt string) []string {
	var r []string
	for _, s := range places(txt, "(*(*[", ")") {
		if j := strings.IndexByte(s, ']'); j > 0 {
			r = append(r, s[:j])
		}
	}
	return r
}

// Every slice over C memory ends at the limit.
func CheckCaps() {
	limit := rt.Str("limit", 1, 1, "1-9a-f")
	spec := "0x" + limit + "fffffff"
	tip := tl.Tip(rt.Pick("tip", string(tl.TipPtrArr), string(tl.TipPtrSRef), string(tl.TipPtrRef)))
	raw := rt.Bool("raw")
	cfg := &tl.Config{Rules: hx.AcceptAll(), PtrTips: tl.PtrTips{tl.TipScopeAny: {{Target: "^", Default: tip}}}, LongIs64Bit: true}
	if raw {
		cfg.MemTips = tl.MemTips{{Target: "^(Q|QT)$", Self: tl.TipMemRaw}}
	}
	set := rt.Bool("set")
	tr := hx.Translator(cfg, hx.Parse("c15", src))
	g := hx.NewGen(nil, tr)
	if set {
		g.SetMaxMemory(generator.NewMemSpec(spec))
	} else {
		spec = "0x7fffffff"
	}
	o := hx.Run(g)
	txt := rt.Conc(o.Body())
	spec = rt.Conc(spec)
	rt.Reach("caps")
	datas := 0
	strs := map[string]bool{}
	for _, l := range hx.Lines(txt) {
		if i := strings.Index(l, " := (*stringHeader)("); i >= 0 {
			strs[l[:i]] = true
		} else if i := strings.Index(l, " := (*sliceHeader)("); i >= 0 {
			strs[l[:i]] = false
		} else if i := strings.Index(l, ".Data = "); i >= 0 && !strs[l[:i]] {
			datas++
			rt.Assert(strings.Contains(txt, l[:i]+".Cap = "), "a slice over C memory has no capacity")
		}
	}
	caps := places(txt, ".Cap = ", "\n")
	if tip == tl.TipPtrArr {
		rt.Reach("slices")
	}
	rt.Assert(datas > 0 || tip != tl.TipPtrArr, "no slice is laid over C memory")
	for _, c := range caps {
		rt.Assert(c == spec, "the capacity of a slice over C memory is "+c+" and not the limit")
	}
	for _, c := range places(txt, "const m = ", "\n") {
		rt.Assert(c == spec, "a helper maps "+c+" bytes and not the limit")
	}
	for _, c := range sizes(txt) {
		ok := c == spec || strings.HasPrefix(c, "m/") || c == "3" || c == "4"
		rt.Assert(ok, "an array over C memory has "+c+" elements")
	}
}

var elems = []string{"int", "unsigned char", "FT", "struct Q *", "double", "size_t", "QT"}

// structOf declares a struct in one of the ways there are; key is what it is configured by.
func structOf(how int, body string) (src, key string) {
	switch how {
	case 0:
		return "typedef struct T { " + body + " } TT;\n", "TT"
	case 1:
		return "typedef struct { " + body + " } TT;\n", "TT"
	case 2:
		return "struct T { " + body + " };\ntypedef struct T TT;\n", "TT"
	}
	return "struct T { " + body + " };\n", "T"
}

// lens gives for each member of x that is laid over C memory what its length is set to.
func lens(body string) map[string]string {
	r := map[string]string{}
	name, v := "", ""
	for _, l := range hx.Lines(body) {
		if i := strings.Index(l, " := (*sliceHeader)(unsafe.Pointer(&x."); i >= 0 {
			v = l[:i]
			name = strings.TrimSuffix(l[i+len(" := (*sliceHeader)(unsafe.Pointer(&x."):], "))")
			r[name] = ""
		} else if name != "" && strings.HasPrefix(l, v+".Len = ") {
			r[name] += strings.TrimPrefix(l, v+".Len = ") + ";"
		}
	}
	return r
}

// A field takes its length from the member configured for it, and only those that have one do.
func CheckLen() {
	el := elems[rt.Choice("elem", len(elems)-1)]
	body := "int n; unsigned short k; " + el + " *a; " + el + " *b; int z;"
	s, key := structOf(rt.Choice("how", 4), body)
	src := "typedef enum F { F1 } FT; typedef unsigned long size_t; struct Q;\nstruct Other { int n; int *a; };\n" + s + "void f(struct Other *o);\n"
	lf := map[string]string{}
	want := map[string]string{}
	for _, m := range []string{"a", "b"} {
		switch rt.Choice("len", 4) {
		case 1:
			lf[key+"."+m] = "n"
			want[m] = "n"
		case 2:
			lf[key+"."+m] = "k"
			want[m] = "k"
		case 3:
			lf["Else."+m] = "n"
			lf[m] = "k"
			lf["."+m] = "k"
		}
	}
	cfg := &tl.Config{Rules: hx.AcceptAll(), LenFields: lf, LongIs64Bit: true}
	if len(lf) == 0 {
		cfg.LenFields = nil
	}
	tr := hx.Translator(cfg, hx.Parse("len"+src, src))
	o := hx.Run(hx.NewGen(nil, tr))
	fs := hx.Func(o.Body(), "*"+key, "Deref")
	rt.Assert(len(fs) == 1, "the struct has no Deref")
	rt.Reach("len")
	got := lens(fs[0].Text())
	for _, m := range []string{"a", "b"} {
		v, ok := got[m]
		if !ok {
			rt.Reach("not laid over C memory")
			continue
		}
		rt.Reach("laid over C memory")
		if want[m] == "" {
			rt.Assert(v == "", "a field without a configured length takes one")
			continue
		}
		i := strings.Index(v, ".ref")
		j := strings.LastIndex(v, ".")
		rt.Assert(strings.HasPrefix(v, "int(x.ref") && i == 5 && j > i && v[j:] == "."+want[m]+");", "a field does not take the length configured for it: "+v)
	}
}

// Symbolic names: only the member the entry is for has the length.
func CheckStructs() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	src := "struct S { int n; int *a; };\nstruct T { int n; int *b; };\ntypedef struct U { int n; int *c; } UT;\n"
	lf := map[string]string{rt.Pick("of", "S", "T", "UT") + "." + rt.Str("key", 1, n, "ab"): "n"}
	tr := hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LenFields: lf}, hx.Parse("structs", src))
	name := rt.Str("name", 1, n, "ab")
	for _, tag := range []string{"S", "T", "U"} {
		tr.TagMap()[tag].Spec.(*tl.CStructSpec).Members[1].Name = name
	}
	o := hx.Run(hx.NewGen(nil, tr))
	nm := rt.Conc(name)
	txt := rt.Conc(o.Body())
	rt.Reach("structs")
	for _, k := range []string{"S", "T", "UT"} {
		fs := hx.Func(txt, "*"+k, "Deref")
		rt.Assert(len(fs) == 1, "the struct has no Deref")
		v := lens(fs[0].Text())[nm]
		_, want := lf[k+"."+nm]
		if want {
			rt.Assert(strings.HasPrefix(v, "int(x.ref") && strings.HasSuffix(v, ".n);"), "the field does not take the length configured for it")
		} else {
			rt.Assert(v == "", "a field takes the length configured for another one")
		}
	}
}
