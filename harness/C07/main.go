package main

import (
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckKinds": CheckKinds, "CheckNames": CheckNames, "CheckPositions": CheckPositions, "CheckDistinct": CheckDistinct})
}

const prelude = `
typedef int ip; typedef unsigned char uc; typedef unsigned long size_t;
struct O { int x; }; typedef struct P { int x; } *PP; typedef struct Q { int x; } QT, *QP; typedef struct { int y; } AN;
struct T; typedef struct T *TP; struct V; typedef struct V VT; struct W;
union U { int x; }; typedef union X { int x; } XT;
enum E { E1 }; typedef enum F { F1 } FT;
typedef int (*cbt)(int a, QT *q); typedef void vfn(void); typedef void *vp;
`

// A kind of parameter, % stands for its name, and the type cgo has for it.
type kind struct {
	c, cgo string
	arr    bool // not a result
}

var kinds = []kind{
	{c: "vp %", cgo: "C.vp"}, {c: "vp *%", cgo: "*C.vp"}, {c: "int %", cgo: "C.int"}, {c: "unsigned char %", cgo: "C.uchar"}, {c: "double %", cgo: "C.double"}, {c: "_Bool %", cgo: "C._Bool"}, {c: "char %", cgo: "C.char"}, {c: "signed char %", cgo: "C.schar"},
	{c: "ip %", cgo: "C.int"}, {c: "uc %", cgo: "C.uchar"}, {c: "size_t %", cgo: "C.ulong"}, {c: "long long %", cgo: "C.longlong"}, {c: "unsigned %", cgo: "C.uint"}, {c: "unsigned short %", cgo: "C.ushort"}, {c: "float %", cgo: "C.float"},
	{c: "struct O %", cgo: "C.struct_O"}, {c: "PP %", cgo: "C.PP"}, {c: "QT %", cgo: "C.struct_Q"}, {c: "QP %", cgo: "C.QP"}, {c: "AN %", cgo: "C.AN"}, {c: "struct P %", cgo: "C.struct_P"}, {c: "struct Q %", cgo: "C.struct_Q"},
	{c: "TP %", cgo: "C.TP"}, {c: "union U %", cgo: "C.union_U"}, {c: "XT %", cgo: "C.union_X"}, {c: "enum E %", cgo: "C.enum_E"}, {c: "FT %", cgo: "C.enum_F"}, {c: "enum F %", cgo: "C.enum_F"}, {c: "cbt %", cgo: "C.cbt"},
	{c: "int *%", cgo: "*C.int"}, {c: "unsigned char *%", cgo: "*C.uchar"}, {c: "double *%", cgo: "*C.double"}, {c: "_Bool *%", cgo: "*C._Bool"}, {c: "char *%", cgo: "*C.char"}, {c: "const char *%", cgo: "*C.char"},
	{c: "ip *%", cgo: "*C.int"}, {c: "uc *%", cgo: "*C.uchar"}, {c: "size_t *%", cgo: "*C.ulong"}, {c: "const int *%", cgo: "*C.int"}, {c: "const unsigned char *%", cgo: "*C.uchar"},
	{c: "struct O *%", cgo: "*C.struct_O"}, {c: "const struct O *%", cgo: "*C.struct_O"}, {c: "PP *%", cgo: "*C.PP"}, {c: "QT *%", cgo: "*C.struct_Q"}, {c: "const QT *%", cgo: "*C.struct_Q"}, {c: "QP *%", cgo: "*C.QP"}, {c: "AN *%", cgo: "*C.AN"},
	{c: "TP *%", cgo: "*C.TP"}, {c: "union U *%", cgo: "*C.union_U"}, {c: "XT *%", cgo: "*C.union_X"}, {c: "enum E *%", cgo: "*C.enum_E"}, {c: "FT *%", cgo: "*C.enum_F"}, {c: "cbt *%", cgo: "*C.cbt"},
	{c: "struct T *%", cgo: "*C.struct_T"}, {c: "VT *%", cgo: "*C.struct_V"}, {c: "struct W *%", cgo: "*C.struct_W"}, {c: "void *%", cgo: "unsafe.Pointer"}, {c: "const void *%", cgo: "unsafe.Pointer"}, {c: "void **%", cgo: "*unsafe.Pointer"}, {c: "vfn *%", cgo: "*C.vfn"},
	{c: "int **%", cgo: "**C.int"}, {c: "unsigned char **%", cgo: "**C.uchar"}, {c: "char **%", cgo: "**C.char"}, {c: "const char **%", cgo: "**C.char"}, {c: "const char *const *%", cgo: "**C.char"}, {c: "ip **%", cgo: "**C.int"},
	{c: "struct O **%", cgo: "**C.struct_O"}, {c: "QT **%", cgo: "**C.struct_Q"}, {c: "XT **%", cgo: "**C.union_X"}, {c: "FT **%", cgo: "**C.enum_F"}, {c: "VT **%", cgo: "**C.struct_V"}, {c: "struct W **%", cgo: "**C.struct_W"}, {c: "int ***%", cgo: "***C.int"},
	{c: "int %[3]", cgo: "*C.int", arr: true}, {c: "char %[]", cgo: "*C.char", arr: true}, {c: "QT %[3]", cgo: "*C.struct_Q", arr: true}, {c: "char *%[3]", cgo: "**C.char", arr: true}, {c: "const char *%[]", cgo: "**C.char", arr: true}, {c: "TP %[2]", cgo: "*C.TP", arr: true}, {c: "int %[3][4]", cgo: "*[4]C.int", arr: true},
	{c: "int (*%)[4]", cgo: "*[4]C.int", arr: true}, {c: "int (*%)(int)", cgo: "*[0]byte", arr: true},
}

// the typedef names that cgo takes for the type they stand for
var alias = map[string]string{"C.ip": "C.int", "C.uc": "C.uchar", "C.size_t": "C.ulong", "C.QT": "C.struct_Q", "C.XT": "C.union_X", "C.VT": "C.struct_V", "C.FT": "C.enum_F", "C.bool": "C._Bool"}

// and those of pointers, which it lets a value of the type they stand for be given to
var pointers = map[string]string{"C.TP": "*C.struct_T", "C.PP": "*C.struct_P", "C.QP": "*C.struct_Q", "C.cbt": "*[0]byte", "*C.vfn": "*[0]byte"}

func canon(t string) string {
	i := 0
	for i < len(t) && t[i] == '*' {
		i++
	}
	if a, ok := alias[t[i:]]; ok {
		return t[:i] + a
	}
	return t
}

// assignable: a value of type t may be given to a parameter of type want.
func assignable(t, want string) bool {
	t, want = canon(t), canon(want)
	if t == want {
		return true
	}
	if p, ok := pointers[t]; ok {
		t = p
	}
	if p, ok := pointers[want]; ok {
		want = p
	}
	return t == want
}

// helper is the type of the parameter and of the first result of a helper function.
func helper(o *hx.Out, name string) (params []string, ret string, ok bool) {
	fs := hx.Func(o.Go, "", name)
	if len(fs) != 1 {
		return nil, "", false
	}
	for _, p := range fs[0].Params {
		params = append(params, p.Type)
	}
	return params, first(fs[0].Ret), true
}

// first is the first type of a result list.
func first(ret string) string {
	if !strings.HasPrefix(ret, "(") || hx.Match(ret, 0) != len(ret)-1 {
		return ret
	}
	r := strings.TrimSpace(hx.Split(ret[1:len(ret)-1], ',')[0])
	if i := strings.IndexByte(r, ' '); i > 0 {
		r = r[i+1:]
	}
	return r
}

func ident(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return len(s) > 0
}

// cut removes a prefix and a suffix.
func cut(s, pre, suf string) (string, bool) {
	if len(s) < len(pre)+len(suf) || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) {
		return "", false
	}
	return s[len(pre) : len(s)-len(suf)], true
}

// convert is the type of an expression that converts the parameter p, and what is wrong with it.
func convert(o *hx.Out, e string, p hx.Param) (string, string) {
	e = strings.TrimSuffix(e, ", cgoAllocsUnknown")
	if e == p.Name {
		return p.Type, ""
	}
	for _, m := range []string{"PassValue", "PassRef"} {
		if e != p.Name+"."+m+"()" {
			continue
		}
		for _, f := range hx.Funcs(o.Go) {
			if f.Name != m || len(f.Recv) != 1 {
				continue
			}
			if r := f.Recv[0].Type; r == p.Type || r == "*"+p.Type || p.Type == "*"+r {
				return first(f.Ret), ""
			}
		}
		return "", p.Type + " has no " + m
	}
	if t, ok := cut(e, "*(*", ")(unsafe.Pointer(&"+p.Name+"))"); ok {
		if strings.HasPrefix(p.Type, "[]") || p.Type == "string" {
			return "", "the header of a slice is taken for the value"
		}
		return t, ""
	}
	if strings.HasPrefix(e, "(") {
		j := hx.Match(e, 0)
		if j < 0 {
			return "", "cannot be read"
		}
		t, x := e[1:j], e[j+1:]
		switch x {
		case "(" + p.Name + ")":
			if strings.ContainsAny(p.Type, "*[") || p.Type == "string" || p.Type == "unsafe.Pointer" {
				return "", "a plain conversion of " + p.Type
			}
			return t, ""
		case "(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&" + p.Name + ")).Data))":
			if !strings.HasPrefix(p.Type, "[]") {
				return "", "the data of " + p.Type + ", which is no slice"
			}
			return t, ""
		case "(unsafe.Pointer(" + p.Name + "))":
			if !strings.HasPrefix(p.Type, "*") && p.Type != "unsafe.Pointer" {
				return "", "a pointer is made of " + p.Type
			}
			return t, ""
		}
		return "", "cannot be read"
	}
	if h, ok := cut(e, "", "("+p.Name+")"); ok && ident(h) {
		ps, r, ok := helper(o, h)
		if !ok || len(ps) != 1 {
			return "", "no such helper"
		}
		if ps[0] != p.Type {
			return "", "the helper takes " + ps[0] + " instead of " + p.Type
		}
		return r, ""
	}
	return "", "cannot be read"
}

// unconvert is the type of the variable the result is converted into, and what is wrong.
func unconvert(o *hx.Out, lines []string, ret string) (string, string) {
	typ, bad := "", "not declared"
	for i, l := range lines {
		if t, ok := cut(l, "var __v ", ""); ok {
			typ, bad = t, "not set"
			if i+1 < len(lines) {
				x := lines[i+1]
				j := strings.IndexByte(x, '(')
				if j < 0 || !ident(x[:j]) || x[j:] != "(__v, __ret)" {
					return typ, "cannot be read"
				}
				ps, _, ok := helper(o, x[:j])
				if !ok || len(ps) != 2 {
					return typ, "no such helper"
				}
				if ps[0] != typ {
					return typ, "the helper takes " + ps[0]
				}
				if !assignable(ret, ps[1]) {
					return typ, "the helper reads " + ps[1]
				}
				bad = ""
			}
			continue
		}
		e, ok := cut(l, "__v := ", "")
		if !ok {
			continue
		}
		if typ != "" {
			return typ, "declared twice"
		}
		bad = ""
		if t, ok := cut(e, "*(*", ")(unsafe.Pointer(&__ret))"); ok {
			typ = t
			continue
		}
		if t, ok := cut(e, "(*(*[", "))(unsafe.Pointer(__ret)))[:0]"); ok {
			bad = t // not what is written
		}
		if t, ok := cut(e, "(*(*[", ")(unsafe.Pointer(__ret)))[:0]"); ok {
			j := strings.IndexByte(t, ']')
			typ = "[]" + t[j+1:]
			if !strings.HasPrefix(ret, "*") && ret != "unsafe.Pointer" {
				bad = "memory behind no pointer"
			}
			continue
		}
		if t, ok := cut(e, "*New", "Ref(unsafe.Pointer(&__ret))"); ok {
			if ps, r, ok := helper(o, "New"+t+"Ref"); !ok || len(ps) != 1 || r != "*"+t {
				bad = "no such constructor"
			}
			typ = t
			if strings.HasPrefix(ret, "*") {
				bad = "a pointer is read as the value"
			}
			continue
		}
		if t, ok := cut(e, "New", "Ref(unsafe.Pointer(__ret))"); ok {
			if ps, r, ok := helper(o, "New"+t+"Ref"); !ok || len(ps) != 1 || r != "*"+t {
				bad = "no such constructor"
			}
			typ = "*" + t
			if !strings.HasPrefix(ret, "*") && pointers[ret] == "" {
				bad = "a value is taken for a pointer"
			}
			if strings.HasPrefix(ret, "**") {
				bad = "a pointer to a pointer is taken for a pointer"
			}
			continue
		}
		if strings.HasPrefix(e, "(") {
			j := hx.Match(e, 0)
			if j > 0 && e[j+1:] == "(__ret)" {
				typ = e[1:j]
				if strings.ContainsAny(typ, "*[") || strings.HasPrefix(ret, "*") {
					bad = "a plain conversion of " + ret
				}
				continue
			}
		}
		if h, ok := cut(e, "", "(__ret)"); ok && ident(h) {
			ps, r, ok := helper(o, h)
			if !ok || len(ps) != 1 {
				bad = "no such helper"
			} else if !assignable(ret, ps[0]) {
				bad = "the helper reads " + ps[0]
			}
			typ = r
			continue
		}
		bad = "cannot be read"
	}
	return typ, bad
}

// wrapper checks the wrapper f of the C function name with parameters of the cgo types want; inst is the index of the
// receiver or -1; ret is the type of the result.
func wrapper(o *hx.Out, f hx.Fn, name string, want []string, inst int, ret string, what string) {
	rt.Assert(f.OK, "the parameter list is not well formed"+what)
	if inst >= 0 {
		rt.Assert(len(f.Recv) == 1, "there is no receiver"+what)
	} else {
		rt.Assert(len(f.Recv) == 0, "there is a receiver"+what)
	}
	var ps []hx.Param
	j := 0
	for i := range want {
		if i == inst && len(f.Recv) == 1 {
			ps = append(ps, f.Recv[0])
			continue
		}
		if j < len(f.Params) {
			ps = append(ps, f.Params[j])
		}
		j++
	}
	if len(ps) != len(want) || j != len(f.Params) {
		rt.Assert(false, "the number of parameters differs"+what)
		return
	}
	var declared []string
	for _, p := range ps {
		rt.Assert(ident(p.Name), "a name is no identifier"+what)
		declared = append(declared, p.Name)
	}
	calls, at := 0, 0
	var args []string
	retVar := false
	for i, l := range f.Body {
		if k := strings.Index(l, "C."+name+"("); k >= 0 && (l[:k] == "" || l[:k] == "__ret := ") {
			calls++
			at = i
			retVar = k > 0
			if a, ok := cut(l[k:], "C."+name+"(", ")"); ok && a != "" {
				args = strings.Split(a, ", ")
			}
		}
	}
	rt.Assert(calls == 1, "the C function is not called exactly once"+what)
	rt.Assert(strings.Count(f.Text(), "= C.")+strings.Count(f.Text(), "\nC.") <= 1, "another C function is called"+what)
	if calls != 1 {
		return
	}
	rt.Assert(retVar == (ret != ""), "the result is not taken exactly when there is one"+what)
	if len(args) != len(want) {
		rt.Assert(false, "the number of arguments differs"+what)
		return
	}
	exprs := map[int]string{}
	for _, l := range f.Body[:at] {
		k := strings.Index(l, " := ")
		if k < 0 {
			continue
		}
		vars := strings.Split(l[:k], ", ")
		rt.Assert(len(vars) == 2 && vars[1] == vars[0]+"AllocMap", "a conversion declares other variables"+what)
		declared = append(declared, vars...)
		for i := range args {
			if args[i] == vars[0] {
				_, twice := exprs[i]
				rt.Assert(!twice, "an argument is declared twice"+what)
				exprs[i] = l[k+4:]
			}
		}
	}
	if retVar {
		declared = append(declared, "__ret", "__v")
	}
	for i := range declared {
		for k := 0; k < i; k++ {
			rt.Assert(declared[i] != declared[k], "two names in the wrapper are the same"+what)
		}
	}
	for i, p := range ps {
		e, ok := exprs[i]
		if !ok {
			rt.Assert(false, "an argument is not converted"+what)
			continue
		}
		t, bad := convert(o, e, p)
		rt.Assert(bad == "", "the conversion of "+p.Type+what+": "+bad)
		if bad == "" {
			rt.Assert(assignable(t, want[i]), "an argument of type "+t+what+", wanted "+want[i])
		}
	}
	// what is written back goes to the parameter the variable was made from
	for _, l := range f.Body[at+1:] {
		if l == "runtime.KeepAlive" || !strings.HasPrefix(l, "pack") || strings.Contains(l, "(__v, ") {
			continue
		}
		k := strings.IndexByte(l, '(')
		a := hx.Split(strings.TrimSuffix(l[k+1:], ")"), ',')
		ok := false
		for i, p := range ps {
			if len(a) == 2 && a[0] == p.Name && (strings.TrimSpace(a[1]) == args[i]) {
				ok = true
				hp, _, has := helper(o, l[:k])
				rt.Assert(has && len(hp) == 2, "writing back uses no helper"+what)
				if has && len(hp) == 2 {
					rt.Assert(hp[0] == p.Type, "writing back takes "+hp[0]+" instead of "+p.Type+what)
					rt.Assert(assignable(want[i], hp[1]), "writing back reads "+hp[1]+what)
				}
			}
		}
		rt.Assert(ok, "what is written back goes elsewhere"+what)
	}
	last := f.Body[len(f.Body)-1]
	rt.Assert((last == "return __v") == (ret != ""), "the wrapper does not return a value exactly when C does"+what)
	rt.Assert((f.Ret != "") == (ret != ""), "the wrapper does not declare a result exactly when C has one"+what)
	if ret != "" {
		t, bad := unconvert(o, f.Body[at+1:], ret)
		rt.Assert(bad == "", "the conversion of the result "+ret+what+": "+bad)
		if bad == "" {
			rt.Assert(t == f.Ret, "the result is converted to "+t+" and declared as "+f.Ret+what)
		}
	}
}

var ptrTips = []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef}
var typeTips = []tl.Tip{tl.NoTip, tl.TipTypePlain, tl.TipTypeNamed, tl.TipTypeString}

// A parameter and a result of every kind under every tip.
func CheckKinds() {
	ki := 0
	group := rt.Choice("group", (len(kinds)+7)/8)
	var src strings.Builder
	src.WriteString(prelude)
	var ks []kind
	for ki = group * 8; ki < len(kinds) && ki < group*8+8; ki++ {
		ks = append(ks, kinds[ki])
	}
	for i, k := range ks {
		src.WriteString("void f" + hx.Uint(i) + "(int a, " + strings.Replace(k.c, "%", "p", 1) + ", double z);\n")
		if !k.arr {
			src.WriteString(strings.Replace(k.c, "%", "r"+hx.Uint(i)+"(int a)", 1) + ";\n")
		}
	}
	ast := hx.Parse("kinds"+hx.Uint(group), src.String())
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	what, whatR := "", ""
	// the result has the same tips, or others
	ti, si := rt.Choice("tip", len(ptrTips)), rt.Choice("self", 2)
	tip, self := ptrTips[ti], ptrTips[(ti+si)%len(ptrTips)]
	cfg.PtrTips = tl.PtrTips{tl.TipScopeFunction: {{Target: "^[fr]", Default: tip, Self: self}}}
	if tip != tl.NoTip {
		what += " " + string(tip)
	}
	if self != tl.NoTip {
		whatR += " " + string(self)
	}
	ti, si = rt.Choice("type", len(typeTips)), rt.Choice("type self", 2)
	tt, ts := typeTips[ti], typeTips[(ti+si)%len(typeTips)]
	cfg.TypeTips = tl.TypeTips{tl.TipScopeFunction: {{Target: "^[fr]", Default: tt, Self: ts}}}
	if tt != tl.NoTip {
		what += " " + string(tt)
	}
	if ts != tl.NoTip {
		whatR += " " + string(ts)
	}
	gc := &generator.Config{}
	if tt == tl.NoTip && rt.Bool("safe strings") {
		gc.Options.SafeStrings = true
	} else if tt == tl.NoTip && rt.Bool("raw") {
		// structs are taken as they are in memory
		cfg.MemTips = tl.MemTips{{Target: "^(QT|struct_O|O|AN)$", Self: tl.TipMemRaw}}
		what += " raw"
		whatR += " raw"
	} else if tt == tl.NoTip && rt.Bool("type tip of the type") {
		if ts != tl.NoTip {
			return
		}
		cfg.TypeTips = tl.TypeTips{tl.TipScopeType: {{Target: "^(ip|uc|QT|size_t|FT)$", Default: tl.TipTypePlain, Self: tl.TipTypePlain}}}
		what += " typeself"
		whatR += " typeself"
	}
	tr := hx.Translator(cfg, ast)
	o := hx.Run(hx.NewGen(gc, tr))
	fs := hx.Funcs(o.Decls)
	for i, k := range ks {
		for _, n := range []string{"f", "r"} {
			name := n + hx.Uint(i)
			if n == "r" && k.arr {
				continue
			}
			var f hx.Fn
			count := 0
			for _, x := range fs {
				if x.Name == name {
					f = x
					count++
				}
			}
			w := " (" + k.c + what + ")"
			rt.Assert(count == 1, "there is not exactly one wrapper"+w)
			if count == 0 {
				continue
			}
			rt.Observe(name, strings.Join(f.Body, "; "))
			if n == "f" {
				wrapper(o, f, name, []string{"C.int", k.cgo, "C.double"}, -1, "", w)
			} else {
				wrapper(o, f, name, []string{"C.int"}, -1, k.cgo, " (result "+k.c+whatR+")")
			}
		}
	}
	rt.Reach("kinds")
}

const namesSrc = prelude + `int fun(int a, QT *b, const char *c);
void gun(int **a, cbt b);
void hun(int);
`

var ruleSets = [][]tl.RuleSpec{
	nil,
	{{Transform: "lower", Action: tl.ActionReplace, From: "[A-Z]+"}},
	{{Action: tl.ActionReplace, From: "^_"}},
	{{Action: tl.ActionReplace, From: "^c"}, {Action: tl.ActionReplace, From: "_", To: "A"}},
}

// Whatever the names of the parameters are, the names in the wrapper are distinct.
func CheckNames() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	rules := hx.AcceptAll()
	if k := rt.Choice("rules", len(ruleSets)); k > 0 {
		rules[tl.TargetType] = ruleSets[k]
	}
	tr := hx.Translator(&tl.Config{Rules: rules, LongIs64Bit: true}, hx.Parse("names", namesSrc))
	fi := rt.Choice("function", 2)
	fname := []string{"fun", "gun"}[fi]
	var names []string
	for _, d := range tr.Declares() {
		if d.Name != fname {
			continue
		}
		for i, p := range d.Spec.(*tl.CFunctionSpec).Params {
			var s string
			if i == 1 {
				s = rt.Str("name", 1, 1, "abcA_") + []string{"", "AllocMap"}[rt.Choice("suffix", 2)]
			} else if i == 2 {
				s = []string{"__v", "c", "A", "ccA"}[rt.Choice("third", 4)]
			} else {
				s = rt.Str("name", 1, n, "acA_")
			}
			rt.Assume(s != "_" && s != "__")
			for _, t := range names {
				rt.Assume(s != t)
			}
			names = append(names, s)
			p.Name = s
		}
	}
	o := hx.Run(hx.NewGen(nil, tr))
	fs := hx.Func(o.Decls, "", fname)
	rt.Assert(len(fs) == 1, "there is not exactly one wrapper")
	if len(fs) != 1 {
		return
	}
	for i, x := range fs[0].Params {
		rt.Observe("param"+hx.Uint(i), x.Name)
	}
	rt.Reach("names")
	if fi == 0 {
		wrapper(o, fs[0], fname, []string{"C.int", "*C.QT", "*C.char"}, -1, "C.int", "")
	} else {
		wrapper(o, fs[0], fname, []string{"**C.int", "C.cbt"}, -1, "", "")
	}
}

// The names of the C parameters are distinct from each other where some have none.
func CheckDistinct() {
	srcs := []string{"void f(int, int arg0);", "void f(int arg1, int);", "void f(int arg1, int, int _arg1);", "void f(int, int, int);", "void f(int type, int _type);", "void f(int func, int go, int map, int range);", "void f(int __ret, int __v);"}
	s := srcs[rt.Choice("source", len(srcs))]
	tr := hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}, hx.Parse(s, s))
	o := hx.Run(hx.NewGen(nil, tr))
	fs := hx.Func(o.Decls, "", "f")
	rt.Assert(len(fs) == 1, "there is not exactly one wrapper")
	if len(fs) == 1 {
		var want []string
		for i := 0; i < strings.Count(s, "int"); i++ {
			want = append(want, "C.int")
		}
		rt.Reach("distinct")
		wrapper(o, fs[0], "f", want, -1, "", " ("+s+")")
	}
}

const posSrc = prelude + `
int fun(QT *a, QT *b, struct O *c, int d);
QT *gun(VT *a, TP b, int *c);
`

var posTips = []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef, tl.TipPtrInst}

// The instance is the first parameter with that tip, the other parameters stay in order.
func CheckPositions() {
	fi := rt.Choice("function", 2)
	n := []int{4, 3}[fi]
	var tips tl.Tips
	inst := -1
	m := rt.Choice("tips", n+1)
	if !rt.Deep() && m > 2 {
		rt.Assume(m == n)
	}
	for i := 0; i < m; i++ {
		t := posTips[rt.Choice("tip", len(posTips))]
		tips = append(tips, t)
		if t == tl.TipPtrInst && inst < 0 {
			inst = i
		}
	}
	def := tl.NoTip
	if rt.Deep() || m < n {
		def = posTips[rt.Choice("default", len(posTips))]
	}
	for i := 0; i < n; i++ {
		if def == tl.TipPtrInst && inst < 0 && (i >= m || tips[i] == tl.NoTip) {
			inst = i
		}
	}
	if def == tl.TipPtrInst {
		for i := 0; i < inst; i++ {
			if i >= m || tips[i] == tl.NoTip {
				inst = i
			}
		}
	}
	fname := []string{"fun", "gun"}[fi]
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true, PtrTips: tl.PtrTips{tl.TipScopeFunction: {{Target: "^" + fname + "$", Tips: tips, Default: def}}}}
	tr := hx.Translator(cfg, hx.Parse("pos", posSrc))
	o := hx.Run(hx.NewGen(nil, tr))
	fs := hx.Func(o.Decls, "?", fname)
	rt.Assert(len(fs) == 1, "there is not exactly one wrapper")
	if len(fs) != 1 {
		return
	}
	f := fs[0]
	rt.Reach("positions")
	names := "abcd"[:n]
	var got, want string
	for _, p := range f.Params {
		got += p.Name
	}
	for i := range names {
		if i == inst {
			rt.Assert(len(f.Recv) == 1 && f.Recv[0].Name == names[i:i+1], "the receiver is another parameter")
			continue
		}
		want += names[i : i+1]
	}
	rt.Assert(got == want, "the parameters are not in the C order")
	if fi == 0 {
		wrapper(o, f, fname, []string{"*C.QT", "*C.QT", "*C.struct_O", "C.int"}, inst, "C.int", "")
	} else {
		wrapper(o, f, fname, []string{"*C.VT", "C.TP", "*C.int"}, inst, "*C.QT", "")
	}
}
