package main

import (
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckHeader": CheckHeader, "CheckTypedefs": CheckTypedefs, "CheckFuncPointers": CheckFuncPointers, "CheckPointerCount": CheckPointerCount, "CheckSizes": CheckSizes, "CheckNested": CheckNested})
}

// An element type of C, with its own levels ("^" each) when it is a typedef.
type elem struct {
	c    string
	own  string
	noV  bool // may not be used by value (incomplete or void)
	noP  bool // *: the pointer is not taken further (a pointer to it is a known other thing)
	text bool
}

const prelude = `
typedef int ip; typedef unsigned char uc;
struct O { int x; }; typedef struct P { int x; } *PP; typedef struct Q { int x; } QT, *QP; typedef QT *QQ; typedef struct { int y; } AN;
struct T; typedef struct T *TP; typedef TP TP2; typedef TP *TPP; struct V; typedef struct V VT; struct W;
typedef struct L *LP; struct L { int x; };
union U { int x; }; typedef union X { int x; } XT, *XP;
enum E { E1 }; typedef enum F { F1 } FT; typedef FT *FP;
`

// cOwn are the levels contained in the types of C that a Go type can be declared as.
var cOwn = map[string]string{"C.TP": "^", "C.TP2": "^", "C.TPP": "^^"}

var elems = []elem{
	{c: "int"}, {c: "unsigned char"}, {c: "double"}, {c: "_Bool"}, {c: "char"}, {c: "const char", text: true}, {c: "const unsigned char", text: true},
	{c: "void", noV: true}, {c: "ip"}, {c: "uc"}, {c: "size_t"},
	{c: "struct O"}, {c: "struct P"}, {c: "PP", own: "^"}, {c: "QT"}, {c: "QP", own: "^"}, {c: "QQ", own: "^"}, {c: "struct Q"}, {c: "AN"},
	{c: "TP", own: "^"}, {c: "TP2", own: "^"}, {c: "TPP", own: "^^"}, {c: "struct T", noV: true}, {c: "VT", noV: true}, {c: "struct V", noV: true}, {c: "struct W", noV: true},
	{c: "LP", own: "^"}, {c: "struct L"},
	{c: "union U"}, {c: "XT"}, {c: "XP", own: "^"}, {c: "union X"},
	{c: "FT"}, {c: "FP", own: "^"},
	{c: "long long"}, {c: "float"},
}

// shape reads the levels and dimensions off a Go type, and its base.
func shape(t string) (string, string) {
	s := ""
	t = strings.TrimSpace(t)
	for {
		switch {
		case strings.HasPrefix(t, "[]"):
			s, t = s+"^", t[2:]
			continue
		case strings.HasPrefix(t, "*"):
			s, t = s+"^", t[1:]
			continue
		case strings.HasPrefix(t, "["):
			if j := strings.IndexByte(t, ']'); j > 0 {
				s, t = s+t[:j+1], t[j+1:]
				continue
			}
		}
		break
	}
	switch t {
	case "string", "unsafe.Pointer":
		s += "^"
	}
	return s, t
}

// declared is the shape contained in the Go type called name.
func declared(types, name string) string {
	for _, l := range strings.Split(types, "\n") {
		if !strings.HasPrefix(l, "type "+name+" ") {
			continue
		}
		def := strings.TrimSpace(l[len("type "+name+" "):])
		if strings.HasPrefix(def, "struct") || strings.HasPrefix(def, "[sizeof") {
			return ""
		}
		if strings.HasPrefix(def, "C.") {
			return cOwn[def]
		}
		if strings.HasPrefix(def, "func") {
			return "^"
		}
		s, b := shape(def)
		if b != name {
			return s + declared(types, b)
		}
		return s
	}
	return ""
}

// whole is the shape of a Go type with what its name contains.
func whole(types, t string) string {
	s, b := shape(t)
	return s + declared(types, b)
}

type use struct{ decl, want string }

// fields of element e and what their shape is; % stands for the element and # for the name.
func fields(e elem) []use {
	us := []use{{"% *#", "^"}, {"% **#", "^^"}, {"% *const #", "^"}, {"% *#[3]", "[3]^"}, {"% *const *#", "^^"}, {"% **#[7]", "[7]^^"}, {"% ***#", "^^^"}, {"% *#[1]", "[1]^"}}
	if !e.noV {
		us = append(us, use{"% #", ""}, use{"% #[3]", "[3]"}, use{"% #[3][4]", "[3][4]"}, use{"% #[2][3][4]", "[2][3][4]"}, use{"% #[1]", "[1]"}, use{"% #[5][1]", "[5][1]"}, use{"% (*#)[3]", "^[3]"}, use{"% (*#)[3][4]", "^[3][4]"}, use{"% (*#[2])[3]", "[2]^[3]"}, use{"% (**#)[5]", "^^[5]"})
	}
	return keep(e, us)
}

// keep leaves out pointers to arrays of pointers, see CheckNested.
func keep(e elem, us []use) []use {
	if e.own == "" {
		return us
	}
	var l []use
	for _, u := range us {
		if !strings.Contains(u.want, "^[") {
			l = append(l, u)
		}
	}
	return l
}

func params(e elem) []use {
	us := []use{{"% *#", "^"}, {"% **#", "^^"}, {"% *const #", "^"}, {"% *#[3]", "^^"}, {"% *#[]", "^^"}, {"% *const *#", "^^"}, {"% ***#", "^^^"}}
	if !e.noV {
		us = append(us, use{"% #", ""}, use{"% #[1][6]", "^[6]"}, use{"% #[3]", "^"}, use{"% #[]", "^"}, use{"% #[3][4]", "^[4]"}, use{"% #[2][3][4]", "^[3][4]"}, use{"% (*#)[3]", "^[3]"}, use{"% (**#)[5]", "^^[5]"})
	}
	return keep(e, us)
}

func results(e elem) []use {
	us := []use{{"% *#", "^"}, {"% **#", "^^"}, {"% ***#", "^^^"}}
	if !e.noV {
		us = append(us, use{"% #", ""})
	}
	return us
}

func (u use) text(c, name string) string {
	return strings.ReplaceAll(strings.ReplaceAll(u.decl, "%", c), "#", name)
}

func header(e elem) string {
	s := prelude + "typedef struct S {\n"
	for i, u := range fields(e) {
		s += u.text(e.c, "m"+hx.Uint(i)) + ";\n"
	}
	s += "} S;\nvoid f("
	for i, u := range params(e) {
		if i > 0 {
			s += ", "
		}
		s += u.text(e.c, "a"+hx.Uint(i))
	}
	s += ");\n"
	for i, u := range results(e) {
		s += u.text(e.c, "r"+hx.Uint(i)+"(void)") + ";\n"
	}
	return s
}

var ptrTips = []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef, tl.TipPtrInst}

// Every use of a type, by value, through pointers and in arrays, has the levels and dimensions it has in C.
func CheckHeader() {
	e := elems[rt.Choice("element", len(elems))]
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	tip := ptrTips[rt.Choice("tip", 4)]
	if tip != tl.NoTip {
		cfg.PtrTips = tl.PtrTips{tl.TipScopeAny: {{Target: "^(f|S|r[0-9])$", Default: tip, Self: tip}}}
	}
	if rt.Bool("plain") {
		cfg.TypeTips = tl.TypeTips{tl.TipScopeAny: {{Target: "^(f|S|r[0-9])$", Default: tl.TipTypePlain, Self: tl.TipTypePlain}}}
	}
	if e.text {
		v := rt.Bool("strings")
		cfg.ConstCharIsString, cfg.ConstUCharIsString = &v, &v
	}
	compare(cfg, "", "element "+e.c, header(e), e.c, e.own, fields(e), params(e), results(e))
}

// own2 leaves parameters of other types alone.
func own2(u use, own string) string {
	if strings.Contains(u.decl, "%") {
		return own
	}
	return ""
}

func compare(cfg *tl.Config, mark, key, src, c, own string, fs, ps, rs []use) {
	ast := hx.Parse(key, src)
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, ast)))
	blk, ok := hx.Block(o.Types, "type S struct")
	rt.Assert(ok, "no struct for "+c)
	lines := hx.Lines(blk)
	for i, u := range fs {
		found := false
		for _, l := range lines {
			if name := "m" + hx.Uint(i); strings.HasPrefix(l, name+" ") {
				found = true
				t := l[len(name)+1:]
				rt.Observe("field "+u.text(c, name), t)
				rt.Assert(whole(o.Types, t) == u.want+own, "a field has other levels or dimensions: "+u.text(c, "x")+mark)
			}
		}
		rt.Assert(found, "a field is missing: "+u.text(c, "x")+mark)
	}
	f := hx.Func(o.Decls, "", "f")
	rt.Assert(len(f) == 1 && f[0].OK && len(f[0].Params) == len(ps), "wrong parameters for "+c)
	for i, u := range ps {
		if len(f) != 1 || i >= len(f[0].Params) {
			break
		}
		t := f[0].Params[i].Type
		rt.Observe("param "+u.text(c, "x"), t)
		rt.Assert(whole(o.Types, t) == u.want+own2(u, own), "a parameter has other levels or dimensions: "+u.text(c, "x")+mark)
	}
	for i, u := range rs {
		r := hx.Func(o.Decls, "", "r"+hx.Uint(i))
		rt.Assert(len(r) == 1, "no wrapper for "+u.text(c, "f")+mark)
		if len(r) == 1 {
			rt.Observe("result "+u.text(c, "f"), r[0].Ret)
			rt.Assert(whole(o.Types, r[0].Ret) == u.want+own, "a result has other levels: "+u.text(c, "f")+mark)
		}
	}
	rt.Reach("compared")
}

type tdef struct{ c, decl, own string }

var tdefs = []tdef{
	{"tp", "typedef int *tp;", "^"}, {"tpp", "typedef int **tpp;", "^^"}, {"tp2", "typedef int *t0; typedef t0 *tp2;", "^^"},
	{"ta", "typedef int ta[3];", "[3]"}, {"tm", "typedef int tm[3][4];", "[3][4]"}, {"tap", "typedef int *tap[3];", "[3]^"},
	{"str", "typedef const char *str;", "^"}, {"vp", "typedef void *vp;", "^"}, {"vpp", "typedef void **vpp;", "^^"},
	{"SA", "typedef struct O SA[3];", "[3]"}, {"TA", "typedef struct T *TA[3];", "[3]^"}, {"EA", "typedef FT EA[3];", "[3]"},
}

// Typedef names that contain levels or dimensions of their own, as a type of their own and in uses.
func CheckTypedefs() {
	d := tdefs[rt.Choice("typedef", len(tdefs))]
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	plain := rt.Bool("plain")
	if plain {
		cfg.TypeTips = tl.TypeTips{tl.TipScopeAny: {{Target: "^(f|S|r[0-9])$", Default: tl.TipTypePlain, Self: tl.TipTypePlain}}}
	}
	fs := []use{{"% #", ""}, {"% *#", "^"}}
	ps := []use{{"% *#", "^"}}
	var rs []use
	if strings.Contains(d.own, "]^") { // see CheckNested
		fs, ps = fs[:1], []use{{"int #", ""}}
	}
	if strings.HasPrefix(d.own, "^") {
		fs = append(fs, use{"% #[2]", "[2]"})
		ps = append(ps, use{"% #", ""})
		rs = append(rs, use{"% #", ""})
	}
	src := prelude + d.decl + "\ntypedef struct S {\n"
	for i, u := range fs {
		src += u.text(d.c, "m"+hx.Uint(i)) + ";\n"
	}
	src += "} S;\nvoid f("
	for i, u := range ps {
		if i > 0 {
			src += ", "
		}
		src += u.text(d.c, "a"+hx.Uint(i))
	}
	src += ");\n"
	for i, u := range rs {
		src += u.text(d.c, "r"+hx.Uint(i)+"(void)") + ";\n"
	}
	mark := ""
	if plain {
		mark = " (plain)"
	}
	compare(cfg, mark, "typedef "+d.decl, src, d.c, d.own, fs, ps, rs)
}

// Pointers to functions in every position.
func CheckFuncPointers() {
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	us := []use{{"fn #", "^"}, {"int (*#)(int)", "^"}, {"ft *#", "^"}}
	switch rt.Choice("use", 3) {
	case 1:
		us = append(us, use{"fn *#", "^^"}, use{"int (**#)(int)", "^^"})
	case 2:
		us = append(us, use{"fn #[3]", "[3]^"}, use{"int (*#[3])(int)", "[3]^"})
	}
	src := "typedef int (*fn)(int); typedef int ft(int);\ntypedef struct S {\n"
	for i, u := range us {
		src += u.text("", "m"+hx.Uint(i)) + ";\n"
	}
	src += "} S;\n"
	o := hx.Run(hx.NewGen(&generator.Config{}, hx.Translator(cfg, hx.Parse(src, src))))
	blk, _ := hx.Block(o.Types, "type S struct")
	for i, u := range us {
		for _, l := range hx.Lines(blk) {
			if name := "m" + hx.Uint(i); strings.HasPrefix(l, name+" ") {
				t := l[len(name)+1:]
				rt.Observe("field "+u.text("", name), t)
				s, b := shape(t) // a func stands for the function, a name of it for a pointer
				rt.Assert(s+declared(o.Types, b) == u.want, "a function pointer has other levels or dimensions: "+u.text("", "x"))
			}
		}
	}
}

// The count of levels is exact for any number of pointers, whatever the name and tag of the type.
func CheckPointerCount() {
	ast := hx.Parse("pointer count", prelude)
	tr := hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}, ast)
	n := uint8(rt.Int("pointers", 0, 255))
	tip := ptrTips[rt.Choice("tip", 5)]
	type cs struct {
		tag, name  string
		union      bool
		goIn, cIn  int // levels contained in the Go and the C name
		hasMembers bool
	}
	cases := []cs{
		{tag: "T"}, {tag: "T", name: "TP", goIn: 1, cIn: 1}, {tag: "T", name: "TPP", goIn: 2, cIn: 2}, {tag: "V", name: "VT"}, {tag: "W"},
		{tag: "O", hasMembers: true}, {tag: "P", hasMembers: true}, {tag: "Q", hasMembers: true}, {tag: "Q", name: "QT", hasMembers: true}, {name: "AN", hasMembers: true}, {tag: "L", hasMembers: true},
		{tag: "U", union: true}, {tag: "X", union: true}, {tag: "X", name: "XT", union: true},
	}
	c := cases[rt.Choice("type", len(cases))]
	sp := &tl.CStructSpec{Tag: c.tag, Typedef: c.name, IsUnion: c.union, Pointers: n}
	if c.hasMembers {
		sp.Members = []*tl.CDecl{{Name: "x", Spec: &tl.CTypeSpec{Base: "int"}}}
	}
	rt.Assume(int(n) >= c.cIn)
	g := tr.TranslateSpec(sp, tip)
	rt.Assert(int(g.Slices)+int(g.Pointers)+c.goIn == int(n), "the levels of the Go type do not add up")
	k := tr.CGoSpec(sp, false)
	rt.Assert(int(k.Pointers)+c.cIn == int(n), "the levels of the C type do not add up")
	rt.Assert(sp.Pointers == n, "the levels of the specification are altered")
}

// Dimensions of any size are written as they are and in order, for every kind of element.
func CheckSizes() {
	tr := hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}, hx.Parse("sizes", prelude))
	var a, b, c uint64
	max := 999
	if rt.Deep() {
		max = 99999
	}
	a, b, c = uint64(rt.Int("a", 0, max)), uint64(rt.Int("b", 0, 99)), uint64(rt.Int("c", 0, 9))
	p := rt.Choice("pointers", 3)
	var sp tl.CType
	switch rt.Choice("kind", 4) {
	case 0:
		sp = &tl.CTypeSpec{Base: "int"}
	case 1:
		sp = &tl.CTypeSpec{Base: "int", Raw: "ip"}
	case 2:
		sp = &tl.CStructSpec{Tag: "O", Members: []*tl.CDecl{{Name: "x", Spec: &tl.CTypeSpec{Base: "int"}}}}
	case 3:
		sp = &tl.CEnumSpec{Tag: "FT", Typedef: "FT"}
	}
	sp.SetPointers(uint8(p))
	type arr interface {
		AddOuterArr(uint64)
		AddInnerArr(uint64)
	}
	x := sp.(arr)
	x.AddOuterArr(a)
	x.AddOuterArr(b)
	if p > 0 {
		x.AddInnerArr(c)
	}
	g := tr.TranslateSpec(sp, ptrTips[rt.Choice("tip", 4)])
	s := g.String()
	i := strings.IndexByte(s, ']')
	rt.Assert(i > 1 && s[0] == '[' && dec(s[1:i]) == a, "the first dimension is another")
	if i <= 0 {
		return
	}
	s = s[i+1:]
	i = strings.IndexByte(s, ']')
	rt.Assert(i > 1 && s[0] == '[' && dec(s[1:i]) == b, "the second dimension is another")
	if i <= 0 {
		return
	}
	s = s[i+1:]
	for n := 0; n < p; n++ {
		if strings.HasPrefix(s, "[]") {
			s = s[2:]
		} else {
			rt.Assert(strings.HasPrefix(s, "*"), "a level is missing")
			s = s[1:]
		}
	}
	if p > 0 {
		i = strings.IndexByte(s, ']')
		rt.Assert(i > 1 && s[0] == '[' && dec(s[1:i]) == c, "the dimension behind the pointer is another")
		s = s[i+1:]
	}
	rt.Assert(s == "int32" || s == "ip" || s == "O" || s == "FT", "something is left over")
}

func dec(s string) uint64 {
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	return n
}

// Arrays of pointers behind a pointer.
func CheckNested() {
	us := []string{"void f(int *(*a)[3]);", "void f(int *a[3][4]);", "typedef struct S { int *(*a)[3]; } S;", "void f(int (*(*a)[3])[4]);"}
	u := us[rt.Choice("use", len(us))]
	ok := true
	func() {
		defer func() {
			if e := recover(); e != nil {
				ok = false
			}
		}()
		hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}, hx.Parse(u, u))
	}()
	rt.Assert(ok, "no type for "+u)
}
