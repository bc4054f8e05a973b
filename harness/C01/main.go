package main

import (
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckHeader": CheckHeader, "CheckSpec": CheckSpec, "CheckTypemap": CheckTypemap, "CheckTypedefs": CheckTypedefs})
}

// A scalar type of C: how it is written, its class and its width by ABI.
type scalar struct {
	c     string
	class byte // i signed, u unsigned, b byte, f float, c complex, l truth, p pointer
	bits  int  // -1: a long
}

var scalars = []scalar{
	{"char", 'b', 8}, {"signed char", 'i', 8}, {"unsigned char", 'b', 8},
	{"short", 'i', 16}, {"unsigned short", 'u', 16}, {"short int", 'i', 16},
	{"int", 'i', 32}, {"unsigned", 'u', 32}, {"signed", 'i', 32},
	{"long", 'i', -1}, {"unsigned long", 'u', -1}, {"long int", 'i', -1},
	{"long long", 'i', 64}, {"unsigned long long", 'u', 64},
	{"float", 'f', 32}, {"double", 'f', 64},
	{"_Bool", 'l', 8}, {"float _Complex", 'c', 64}, {"double _Complex", 'c', 128},
	{"void *", 'p', 0},
}

// A system: long has 64 bits on it or 32.
type system struct {
	os, arch string
	long     int
}

var systems = []system{{"linux", "amd64", 64}, {"linux", "386", 32}, {"windows", "amd64", 32}}

func num(n int) string {
	if n >= 100 {
		return hx.Uint(n/100) + num(n%100)
	}
	return hx.Uint(n)
}

// goType is the Go type a scalar must have.
func goType(s scalar, long int) string {
	bits := s.bits
	if bits < 0 {
		bits = long
	}
	w := map[int]string{8: "8", 16: "16", 32: "32", 64: "64", 128: "128"}[bits]
	switch s.class {
	case 'b':
		return "byte"
	case 'i':
		return "int" + w
	case 'u':
		return "uint" + w
	case 'f':
		return "float" + w
	case 'c':
		return "complex" + w
	case 'l':
		return "bool"
	}
	return "unsafe.Pointer"
}

func rules() tl.Rules { return tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "."}}} }

func header(c string) string {
	return strings.ReplaceAll(`
typedef @ t;
void f(@ a, const @ b, @ volatile c, @ *d, const @ *e, @ *const g, const @ *const h, @ **i, const @ **j, const volatile @ k, t l, const t m);
@ r0(void);
const @ r1(void);
@ *r2(void);
const @ *r3(void);
@ *const r4(void);
t r5(@ *p);
typedef struct S { @ a; const @ b; volatile @ c; @ *d; const @ *e; @ *const g; const @ *const h; @ **i; const @ **j; @ k[3]; t l; const @ m[2]; } S;
void use(S *s);
extern const @ v0;
extern const volatile @ v1;
`, "@", c)
}

func deref(b *bool) bool { return b != nil && *b }

// Every use of a scalar type has the Go type for it; const changes nothing but makes strings of char pointers.
func CheckHeader() {
	sys := systems[rt.Choice("system", len(systems))]
	s := scalars[rt.Choice("scalar", len(scalars))]
	text := s.class == 'b' && s.c != "signed char"
	opt := func(name string) *bool {
		switch rt.Choice(name, 3) {
		case 1:
			v := false
			return &v
		case 2:
			v := true
			return &v
		}
		return nil
	}
	cfg := &tl.Config{Rules: rules(), LongIs64Bit: sys.long == 64}
	cfg.ConstCharIsString = opt("char option")
	if s.class == 'b' || s.class == 'i' && s.bits == 8 {
		cfg.ConstUCharIsString = opt("uchar option")
	} else {
		cfg.ConstUCharIsString = cfg.ConstCharIsString
	}
	tip := []tl.Tip{tl.NoTip, tl.TipTypeNamed, tl.TipTypePlain, tl.TipTypeString}[rt.Choice("type tip", 4)]
	if tip != tl.NoTip {
		cfg.TypeTips = tl.TypeTips{tl.TipScopeAny: {{Target: "^(f|S)$", Default: tip}, {Target: "^r[0-9]$", Self: tip, Default: tip}}}
	}
	ast := hx.ParseArch("scalar "+s.c, sys.os, sys.arch, header(s.c))
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	base := goType(s, sys.long)
	str := false
	if text {
		if s.c == "char" {
			str = cfg.ConstCharIsString == nil || *cfg.ConstCharIsString || tip == tl.TipTypeString
		} else {
			str = deref(cfg.ConstUCharIsString) && tip != tl.TipTypeString
		}
	}
	ty := func(k string, slice string) string {
		switch k {
		case "a", "b", "c", "k":
			return base
		case "d", "g":
			return slice + base
		case "e", "h":
			if str {
				return "string"
			}
			return slice + base
		case "i":
			return slice + slice + base
		case "j":
			if str {
				return slice + "string"
			}
			return slice + slice + base
		}
		if tip == tl.TipTypePlain {
			return base
		}
		return "t"
	}
	rt.Reach("header")
	fs := hx.Func(o.Decls, "", "f")
	rt.Assert(len(fs) == 1 && fs[0].OK && len(fs[0].Params) == 12, "the wrapper of f is not well formed")
	names := "abcdeghijklm"
	for i := 0; i < 12; i++ {
		k := names[i : i+1]
		got := fs[0].Params[i].Type
		rt.Observe("param", got)
		if s.class == 'p' { // the name of the type and const apply to the pointer
			if k == "a" || k == "b" || k == "c" || k == "k" {
				rt.Assert(got == base, "a parameter of type "+s.c+" has another Go type")
			}
			if k == "d" || k == "e" || k == "g" || k == "h" {
				rt.Assert(got == "[]"+base, "a parameter of type pointer to "+s.c+" has another Go type")
			}
			continue
		}
		rt.Assert(got == ty(k, "[]"), "parameter "+k+" of type "+s.c+" has another Go type")
	}
	for i, want := range []string{base, base, "*" + base, "*" + base, "*" + base, ""} {
		if i == 3 && str {
			want = "string"
		}
		if i == 5 { // named after its typedef
			want = ty("l", "")
		}
		fs := hx.Func(o.Decls, "", "r"+hx.Uint(i))
		rt.Assert(len(fs) == 1 && fs[0].OK, "a wrapper is not well formed")
		rt.Observe("result", fs[0].Ret)
		if s.class == 'p' && i == 5 {
			continue
		}
		rt.Assert(fs[0].Ret == want || i == 5 && fs[0].Ret == base, "result "+hx.Uint(i)+" of type "+s.c+" has another Go type")
	}
	b, ok := hx.Block(o.Types, "type S struct")
	rt.Assert(ok, "the struct is not emitted")
	l := hx.Lines(b)
	for i := 0; i < 12; i++ {
		k := names[i : i+1]
		want := ty(k, "[]")
		switch k {
		case "k":
			want = "[3]" + base
		case "m":
			want = "[2]" + base
		}
		if s.class == 'p' && k != "a" && k != "b" && k != "c" && k != "k" && k != "m" {
			continue
		}
		if len(l) > i+1 && str && l[i+1] == k+" "+strings.ReplaceAll(want, "string", "[]byte") {
			rt.Assert(want == strings.ReplaceAll(want, "string", "[]byte"), "field "+k+" of type "+s.c+" is a byte slice although strings are asked for")
			continue
		}
		rt.Assert(len(l) > i+1 && l[i+1] == k+" "+want, "field "+k+" of type "+s.c+" has another Go type")
	}
	rt.Assert(hx.CountLines(o.Types, "type t "+base) == 1, "the typedef of "+s.c+" has another Go type")
	if s.class != 'p' {
		for _, v := range []string{"v0", "v1"} {
			rt.Assert(hx.CountLines(o.Const, "var "+v+" "+base) == 1, "a variable of type "+s.c+" has another Go type")
		}
	}
}

// The specification of a scalar, with every flag symbolic, gets a Go type of its width, sign and class.
func CheckSpec() {
	long64 := rt.Bool("long64")
	cfg := &tl.Config{Rules: rules(), LongIs64Bit: long64}
	tr, err := tl.New(cfg)
	rt.Assert(err == nil, "a valid configuration is refused")
	base := []string{"char", "int", "long", "float", "double", "_Bool", "complexfloat", "complexdouble", "void*"}[rt.Choice("base", 9)]
	spec := &tl.CTypeSpec{Base: base, Const: rt.Bool("const")}
	k := 0
	want := ""
	long := "32"
	if long64 {
		long = "64"
	}
	switch base {
	case "char":
		k = rt.Choice("sign", 3)
		spec.Signed, spec.Unsigned = k == 1, k == 2
		want = []string{"byte", "int8", "byte"}[k]
	case "int":
		spec.Unsigned = rt.Bool("unsigned")
		k = rt.Choice("length", 3)
		spec.Short, spec.Long = k == 1, k == 2
		want = "int" + []string{"32", "16", long}[k]
		if spec.Unsigned {
			want = "u" + want
		}
	case "long":
		spec.Long, spec.Unsigned = true, rt.Bool("unsigned")
		want = "int64"
		if spec.Unsigned {
			want = "uint64"
		}
	case "float":
		want = "float32"
	case "double":
		want = "float64"
	case "_Bool":
		want = "bool"
	case "complexfloat":
		spec.Complex, want = true, "complex64"
	case "complexdouble":
		spec.Complex, want = true, "complex128"
	default:
		want = "unsafe.Pointer"
	}
	n := rt.Choice("pointers", 4)
	spec.Pointers = uint8(n)
	tip := []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef}[rt.Choice("tip", 4)]
	typeTip := []tl.Tip{tl.NoTip, tl.TipTypeNamed, tl.TipTypePlain, tl.TipTypeString}[rt.Choice("type tip", 4)]
	got := tr.TranslateSpec(spec, tip, typeTip).String()
	rt.Observe("type", got)
	rt.Reach("spec")
	levels := n
	if base == "char" && spec.Const && !spec.Signed && !spec.Unsigned && n > 0 {
		want, levels = "string", n-1
	}
	rest := got
	for i := 0; i < levels; i++ {
		if strings.HasPrefix(rest, "[]") {
			rest = rest[2:]
		} else if strings.HasPrefix(rest, "*") {
			rest = rest[1:]
		} else {
			rt.Assert(false, "a level is lost")
		}
	}
	rt.Assert(rest == want, "a scalar has another Go type")
}

// What the user maps a type to is used for it, in any position.
func CheckTypemap() {
	s := scalars[rt.Choice("scalar", 19)]
	ast := hx.ParseArch("scalar "+s.c, "linux", "amd64", header(s.c))
	key := tl.CTypeSpec{}
	switch s.c {
	case "char", "float", "double", "_Bool", "int":
		key.Base = s.c
	case "signed char":
		key = tl.CTypeSpec{Base: "char", Signed: true}
	case "unsigned char":
		key = tl.CTypeSpec{Base: "char", Unsigned: true}
	case "short", "short int":
		key = tl.CTypeSpec{Base: "int", Short: true}
	case "unsigned short":
		key = tl.CTypeSpec{Base: "int", Short: true, Unsigned: true}
	case "unsigned":
		key = tl.CTypeSpec{Base: "int", Unsigned: true}
	case "signed":
		key.Base = "int"
	case "long", "long int":
		key = tl.CTypeSpec{Base: "int", Long: true}
	case "unsigned long":
		key = tl.CTypeSpec{Base: "int", Long: true, Unsigned: true}
	case "long long":
		key = tl.CTypeSpec{Base: "long", Long: true}
	case "unsigned long long":
		key = tl.CTypeSpec{Base: "long", Long: true, Unsigned: true}
	case "float _Complex":
		key = tl.CTypeSpec{Base: "complexfloat", Complex: true}
	case "double _Complex":
		key = tl.CTypeSpec{Base: "complexdouble", Complex: true}
	}
	key.Pointers = uint8(rt.Choice("pointers", 2))
	key.Const = rt.Bool("const")
	other := key
	other.Unsigned = !other.Unsigned
	if rt.Bool("unrelated") {
		key = other
	}
	rt.Reach("typemap")
	cfg := &tl.Config{Rules: rules(), LongIs64Bit: true, Typemap: tl.CTypeMap{key: {Base: "mine"}}}
	no := false
	if rt.Bool("no strings") {
		cfg.ConstCharIsString = &no
	}
	tr := hx.Translator(cfg, ast)
	plain := hx.Translator(&tl.Config{Rules: rules(), LongIs64Bit: true, ConstCharIsString: cfg.ConstCharIsString}, ast)
	for _, d := range tr.Declares() {
		if d.Name != "f" {
			continue
		}
		f := d.Spec.(*tl.CFunctionSpec)
		for i, k := range strings.Split("a b c d e g h i j k", " ") {
			spec := f.Params[i].Spec.(*tl.CTypeSpec)
			levels := map[string]int{"d": 1, "e": 1, "g": 1, "h": 1, "i": 2, "j": 2}[k]
			isConst := map[string]bool{"b": true, "e": true, "h": true, "j": true, "k": true}[k]
			got := tr.TranslateSpec(spec).String()
			was := plain.TranslateSpec(spec).String()
			rt.Observe("type", got)
			if key == other || levels < int(key.Pointers) {
				rt.Assert(got == was, "an entry for another type is used")
				continue
			}
			text := s.c == "char" && isConst && levels > 0 && cfg.ConstCharIsString == nil
			want := strings.Repeat("[]", levels-int(key.Pointers)) + "mine"
			switch {
			case key.Const && !isConst:
				rt.Assert(got == was, "an entry for a const type is used for another")
			case !text || key.Const && key.Pointers == 1:
				rt.Assert(got == want, "the entry of the type map is not used for "+s.c)
			case key.Pointers == 0 || !key.Const:
				// the built-in entry for const char * is the more specific one
				rt.Assert(got == want || got == was, "the entry of the type map is not used for "+s.c)
			}
		}
	}
}

// A typedef of a scalar is used by its name, or by the type itself when its name is not accepted.
func CheckTypedefs() {
	sys := systems[rt.Choice("system", len(systems))]
	s := scalars[rt.Choice("scalar", 19)]
	src := strings.ReplaceAll("typedef @ t1;\ntypedef t1 t2;\ntypedef const t1 t3;\nvoid f(t1 a, t2 b, t3 c, const t2 d);\nt2 g(void);\ntypedef struct S { t1 a; t2 b; t3 c; } S;\n", "@", s.c)
	ast := hx.ParseArch("typedefs "+s.c, sys.os, sys.arch, src)
	r := rules()
	ig := map[string]bool{}
	for _, n := range []string{"t1", "t2", "t3"} {
		if rt.Bool("ignore") {
			ig[n] = true
			r[tl.TargetType] = append(r[tl.TargetType], tl.RuleSpec{Action: tl.ActionIgnore, From: "^" + n + "$"})
		}
	}
	tr := hx.Translator(&tl.Config{Rules: r, LongIs64Bit: sys.long == 64}, ast)
	o := hx.Run(hx.NewGen(&generator.Config{}, tr))
	base := goType(s, sys.long)
	ty := func(n string) string {
		if ig[n] {
			return base
		}
		return n
	}
	rt.Reach("typedefs")
	fs := hx.Func(o.Decls, "", "f")
	rt.Assert(len(fs) == 1 && fs[0].OK && len(fs[0].Params) == 4, "the wrapper of f is not well formed")
	for i, n := range []string{"t1", "t2", "t3", "t2"} {
		rt.Observe("param", fs[0].Params[i].Type)
		rt.Assert(fs[0].Params[i].Type == ty(n), "a parameter of a typedef of "+s.c+" has another Go type")
	}
	fs = hx.Func(o.Decls, "", "g")
	rt.Assert(len(fs) == 1 && fs[0].OK && (fs[0].Ret == ty("t2") || fs[0].Ret == base), "a result of a typedef of "+s.c+" has another Go type")
	b, ok := hx.Block(o.Types, "type S struct")
	rt.Assert(ok, "the struct is not emitted")
	l := hx.Lines(b)
	for i, n := range []string{"t1", "t2", "t3"} {
		rt.Assert(len(l) > i+1 && l[i+1] == string("abc"[i])+" "+ty(n), "a field of a typedef of "+s.c+" has another Go type")
		w := 1
		if ig[n] {
			w = 0
		}
		rt.Assert(hx.CountLines(o.Types, "type "+n+" "+base) == w, "a typedef of "+s.c+" has another Go type")
	}
}
