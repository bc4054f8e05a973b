package main

import (
	"strings"

	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckFields": CheckFields, "CheckExcluded": CheckExcluded, "CheckNames": CheckNames, "CheckTips": CheckTips, "CheckLayout": CheckLayout})
}

const prelude = `
typedef int ip; typedef unsigned char uc; typedef unsigned long size_t;
struct O { int x; }; typedef struct P { int x; } *PP; typedef struct Q { int x; } QT, *QP; typedef struct { int y; } AN;
struct T; typedef struct T *TP; struct V; typedef struct V VT; struct W;
union U { int x; }; typedef union X { int x; } XT;
enum E { E1 }; typedef enum F { F1 } FT;
typedef int (*cbt)(int a, QT *q); typedef void vfn(void); typedef void *vp;
`

// A kind of member, % stands for its name, and the type cgo has for it.
type kind struct {
	c, cgo string
}

var kinds = []kind{
	{c: "vp %", cgo: "C.vp"}, {c: "vp *%", cgo: "*C.vp"}, {c: "int %", cgo: "C.int"}, {c: "unsigned char %", cgo: "C.uchar"}, {c: "double %", cgo: "C.double"}, {c: "_Bool %", cgo: "C._Bool"}, {c: "char %", cgo: "C.char"}, {c: "signed char %", cgo: "C.schar"},
	{c: "ip %", cgo: "C.int"}, {c: "uc %", cgo: "C.uchar"}, {c: "size_t %", cgo: "C.ulong"}, {c: "long long %", cgo: "C.longlong"}, {c: "unsigned %", cgo: "C.uint"}, {c: "unsigned short %", cgo: "C.ushort"}, {c: "float %", cgo: "C.float"},
	{c: "struct O %", cgo: "C.struct_O"}, {c: "PP %", cgo: "C.PP"}, {c: "QT %", cgo: "C.struct_Q"}, {c: "QP %", cgo: "C.QP"}, {c: "AN %", cgo: "C.AN"}, {c: "struct P %", cgo: "C.struct_P"}, {c: "struct Q %", cgo: "C.struct_Q"},
	{c: "TP %", cgo: "C.TP"}, {c: "union U %", cgo: "C.union_U"}, {c: "XT %", cgo: "C.union_X"}, {c: "enum E %", cgo: "C.enum_E"}, {c: "FT %", cgo: "C.enum_F"}, {c: "enum F %", cgo: "C.enum_F"}, {c: "cbt %", cgo: "C.cbt"},
	{c: "int *%", cgo: "*C.int"}, {c: "unsigned char *%", cgo: "*C.uchar"}, {c: "double *%", cgo: "*C.double"}, {c: "_Bool *%", cgo: "*C._Bool"}, {c: "char *%", cgo: "*C.char"}, {c: "const char *%", cgo: "*C.char"},
	{c: "ip *%", cgo: "*C.int"}, {c: "uc *%", cgo: "*C.uchar"}, {c: "size_t *%", cgo: "*C.ulong"}, {c: "const int *%", cgo: "*C.int"}, {c: "const unsigned char *%", cgo: "*C.uchar"},
	{c: "struct O *%", cgo: "*C.struct_O"}, {c: "const struct O *%", cgo: "*C.struct_O"}, {c: "PP *%", cgo: "*C.PP"}, {c: "QT *%", cgo: "*C.struct_Q"}, {c: "const QT *%", cgo: "*C.struct_Q"}, {c: "QP *%", cgo: "*C.QP"}, {c: "AN *%", cgo: "*C.AN"},
	{c: "TP *%", cgo: "*C.TP"}, {c: "union U *%", cgo: "*C.union_U"}, {c: "XT *%", cgo: "*C.union_X"}, {c: "enum E *%", cgo: "*C.enum_E"}, {c: "FT *%", cgo: "*C.enum_F"}, {c: "cbt *%", cgo: "*C.cbt"},
	{c: "struct T *%", cgo: "*C.struct_T"}, {c: "VT *%", cgo: "*C.struct_V"}, {c: "struct W *%", cgo: "*C.struct_W"}, {c: "void *%", cgo: "unsafe.Pointer"}, {c: "const void *%", cgo: "unsafe.Pointer"}, {c: "void **%", cgo: "*unsafe.Pointer"}, {c: "vfn *%", cgo: "*C.vfn"},
	{c: "int **%", cgo: "**C.int"}, {c: "unsigned char **%", cgo: "**C.uchar"}, {c: "char **%", cgo: "**C.char"}, {c: "const char **%", cgo: "**C.char"}, {c: "const char *const *%", cgo: "**C.char"}, {c: "ip **%", cgo: "**C.int"},
	{c: "struct O **%", cgo: "**C.struct_O"}, {c: "QT **%", cgo: "**C.struct_Q"}, {c: "XT **%", cgo: "**C.union_X"}, {c: "FT **%", cgo: "**C.enum_F"}, {c: "VT **%", cgo: "**C.struct_V"}, {c: "struct W **%", cgo: "**C.struct_W"}, {c: "int ***%", cgo: "***C.int"},
	{c: "int %[3]", cgo: "[3]C.int"}, {c: "char %[8]", cgo: "[8]C.char"}, {c: "unsigned char %[8]", cgo: "[8]C.uchar"}, {c: "QT %[3]", cgo: "[3]C.struct_Q"}, {c: "char *%[3]", cgo: "[3]*C.char"}, {c: "const char *%[2]", cgo: "[2]*C.char"}, {c: "TP %[2]", cgo: "[2]C.TP"}, {c: "int %[3][4]", cgo: "[3][4]C.int"}, {c: "XT %[2]", cgo: "[2]C.union_X"}, {c: "FT %[2]", cgo: "[2]C.enum_F"}, {c: "void *%[2]", cgo: "[2]unsafe.Pointer"}, {c: "QT *%[2]", cgo: "[2]*C.struct_Q"}, {c: "int *%[2]", cgo: "[2]*C.int"}, {c: "ip %[2]", cgo: "[2]C.int"},
	{c: "int (*%)[4]", cgo: "*[4]C.int"}, {c: "int (*%)(int)", cgo: "*[0]byte"},
}

// the typedef names that cgo takes for the type they stand for
var alias = map[string]string{"C.ip": "C.int", "C.uc": "C.uchar", "C.size_t": "C.ulong", "C.QT": "C.struct_Q", "C.XT": "C.union_X", "C.VT": "C.struct_V", "C.FT": "C.enum_F", "C.bool": "C._Bool"}

// and those of pointers, which it lets a value of the type they stand for be given to
var pointers = map[string]string{"C.TP": "*C.struct_T", "C.PP": "*C.struct_P", "C.QP": "*C.struct_Q", "C.cbt": "*[0]byte", "*C.vfn": "*[0]byte"}

func canon(t string) string {
	i := 0
	for i < len(t) && (t[i] == '*' || t[i] == '[') {
		if t[i] == '[' {
			i += strings.IndexByte(t[i:], ']')
		}
		i++
	}
	if a, ok := alias[t[i:]]; ok {
		return t[:i] + a
	}
	return t
}

// assignable: a value of type t may be given to a parameter of type want.
func assignable(t, want string) bool {
	t, want = canon(t), canon(want)
	if t == want {
		return true
	}
	if p, ok := pointers[t]; ok {
		t = p
	}
	if p, ok := pointers[want]; ok {
		want = p
	}
	return t == want
}

// helper is the type of the parameter and of the first result of a helper function.
func helper(o *hx.Out, name string) (params []string, ret string, ok bool) {
	fs := hx.Func(o.Go, "", name)
	if len(fs) != 1 {
		return nil, "", false
	}
	for _, p := range fs[0].Params {
		params = append(params, p.Type)
	}
	return params, first(fs[0].Ret), true
}

// first is the first type of a result list.
func first(ret string) string {
	if !strings.HasPrefix(ret, "(") || hx.Match(ret, 0) != len(ret)-1 {
		return ret
	}
	r := strings.TrimSpace(hx.Split(ret[1:len(ret)-1], ',')[0])
	if i := strings.IndexByte(r, ' '); i > 0 {
		r = r[i+1:]
	}
	return r
}

func ident(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return len(s) > 0
}

// cut removes a prefix and a suffix.
func cut(s, pre, suf string) (string, bool) {
	if len(s) < len(pre)+len(suf) || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) {
		return "", false
	}
	return s[len(pre) : len(s)-len(suf)], true
}

// convert is the type of an expression that converts the parameter p, and what is wrong with it.
func convert(o *hx.Out, e string, p hx.Param) (string, string) {
	e = strings.TrimSuffix(e, ", cgoAllocsUnknown")
	if e == p.Name {
		return p.Type, ""
	}
	for _, m := range []string{"PassValue", "PassRef"} {
		if e != p.Name+"."+m+"()" {
			continue
		}
		for _, f := range hx.Funcs(o.Go) {
			if f.Name != m || len(f.Recv) != 1 {
				continue
			}
			if r := f.Recv[0].Type; r == p.Type || r == "*"+p.Type || p.Type == "*"+r {
				return first(f.Ret), ""
			}
		}
		return "", p.Type + " has no " + m
	}
	if t, ok := cut(e, "*(*", ")(unsafe.Pointer(&"+p.Name+"))"); ok {
		if strings.HasPrefix(p.Type, "[]") || p.Type == "string" {
			return "", "the header of a slice is taken for the value"
		}
		return t, ""
	}
	if h, ok := cut(e, "", "((*sliceHeader)(unsafe.Pointer(&"+p.Name+")))"); ok && ident(h) {
		ps, r, ok := helper(o, h)
		if !ok || len(ps) != 1 || ps[0] != "*sliceHeader" {
			return "", "no such helper"
		}
		if !strings.HasPrefix(p.Type, "[]") {
			return "", "the data of " + p.Type + ", which is no slice"
		}
		return r, ""
	}
	if strings.HasPrefix(e, "(") {
		j := hx.Match(e, 0)
		if j < 0 {
			return "", "cannot be read"
		}
		t, x := e[1:j], e[j+1:]
		switch x {
		case "(" + p.Name + ")":
			if strings.ContainsAny(p.Type, "*[") || p.Type == "string" || p.Type == "unsafe.Pointer" {
				return "", "a plain conversion of " + p.Type
			}
			return t, ""
		case "(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&" + p.Name + ")).Data))":
			if !strings.HasPrefix(p.Type, "[]") {
				return "", "the data of " + p.Type + ", which is no slice"
			}
			return t, ""
		case "(unsafe.Pointer(" + p.Name + "))":
			if !strings.HasPrefix(p.Type, "*") && p.Type != "unsafe.Pointer" {
				return "", "a pointer is made of " + p.Type
			}
			return t, ""
		}
		return "", "cannot be read"
	}
	if h, ok := cut(e, "", "("+p.Name+")"); ok && ident(h) {
		ps, r, ok := helper(o, h)
		if !ok || len(ps) != 1 {
			return "", "no such helper"
		}
		if ps[0] != p.Type {
			return "", "the helper takes " + ps[0] + " instead of " + p.Type
		}
		return r, ""
	}
	return "", "cannot be read"
}

// A member of C that is expected in the generated code.
type member struct{ c, field, cgo string }

// access is the name cgo has for the member.
func access(c string) string {
	switch c {
	case "type", "func", "range", "map", "go", "var", "chan", "select", "package", "import", "defer", "fallthrough", "interface":
		return "_" + c
	}
	return c
}

// body is the body of the method of the type.
func method(o *hx.Out, recv, name, what string) []string {
	fs := hx.Func(o.Go, recv, name)
	rt.Assert(len(fs) == 1, "there is not exactly one "+name+what)
	if len(fs) != 1 {
		return nil
	}
	return fs[0].Body
}

// structure checks the Go struct of the C struct with the cgo type and with these members.
func structure(o *hx.Out, name, cgo string, ms []member, what string) {
	block, ok := hx.Block(o.Types, "type "+name+" struct {")
	rt.Assert(ok && hx.CountLines(o.Types, "type "+name+" ") == 1, "the type is not declared once"+what)
	if !ok {
		return
	}
	var fields []hx.Param
	refs, allocs := "", ""
	for _, l := range hx.Lines(block) {
		if l == "}" || strings.HasPrefix(l, "type ") {
			continue
		}
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			rt.Assert(false, "a field cannot be read"+what)
			return
		}
		f := hx.Param{Name: l[:i], Type: strings.TrimSpace(l[i+1:])}
		if strings.HasPrefix(f.Name, "ref") && f.Type == "*"+cgo {
			refs = f.Name
			continue
		}
		if strings.HasPrefix(f.Name, "allocs") && f.Type == "interface{}" {
			allocs = f.Name
			continue
		}
		fields = append(fields, f)
	}
	rt.Assert(refs != "" && allocs == "allocs"+refs[3:], "the fields for the C object are missing"+what)
	if refs == "" {
		return
	}
	if len(fields) != len(ms) {
		rt.Assert(false, "the number of fields differs"+what)
		return
	}
	for i, f := range fields {
		rt.Assert(ident(f.Name), "a field is no identifier"+what)
		if ms[i].field != "" {
			rt.Assert(f.Name == ms[i].field, "a field has another name or place"+what)
		}
		for _, m := range []string{"Ref", "Free", "PassRef", "PassValue", "Deref"} {
			rt.Assert(f.Name != m, "a field is named like a method"+what)
		}
		for k := 0; k < i; k++ {
			rt.Assert(f.Name != fields[k].Name, "two fields have the same name"+what)
		}
	}
	crc := refs[3:]
	// to C
	n := 0
	declared, borrowed := []string{}, []string{}
	for _, l := range method(o, "*"+name, "PassRef", what) {
		if v, ok := cut(l, "var ", " *cgoAllocMap"); ok {
			declared = append(declared, v)
		}
		if v, ok := cut(l, "allocs"+crc+".Borrow(", ")"); ok {
			borrowed = append(borrowed, v)
		}
		if !strings.HasPrefix(l, "ref"+crc+".") {
			continue
		}
		i := strings.Index(l, " = ")
		v := strings.Split(strings.TrimSpace(l[:i]), ", ")
		if n >= len(ms) || len(v) != 2 {
			rt.Assert(false, "more members are written than there are fields"+what)
			return
		}
		rt.Assert(v[0] == "ref"+crc+"."+access(ms[n].c), "a field is written to another member"+what)
		rt.Assert(len(declared) == n+1 && declared[n] == v[1], "the allocations of a member have no variable"+what)
		t, bad := convert(o, strings.TrimSpace(l[i+3:]), hx.Param{Name: "x." + fields[n].Name, Type: fields[n].Type})
		rt.Assert(bad == "", "writing "+fields[n].Type+what+": "+bad)
		if bad == "" {
			rt.Assert(assignable(t, ms[n].cgo), "a value of type "+t+" is written to a member of type "+ms[n].cgo+what)
		}
		n++
	}
	rt.Assert(n == len(ms), "a field is not written"+what)
	rt.Assert(len(borrowed) == n, "the allocations of a member are forgotten"+what)
	for i := range borrowed {
		rt.Assert(i < len(declared) && borrowed[i] == declared[i], "the allocations of a member are forgotten"+what)
		for k := 0; k < i; k++ {
			rt.Assert(declared[i] != declared[k], "two variables have the same name"+what)
		}
	}
	// from C
	lines := method(o, "*"+name, "Deref", what)
	at := 0
	for at < len(lines) && lines[at] != "}" {
		at++ // if x.ref == nil { return }
	}
	n = 0
	for i := at + 1; i < len(lines); i++ {
		l := lines[i]
		if n >= len(ms) {
			rt.Assert(false, "more members are read than there are fields"+what)
			return
		}
		f, m := fields[n], "x.ref"+crc+"."+access(ms[n].c)
		if l == "// x."+f.Name+" is a callback func" {
			p, cb := pointers[ms[n].cgo]
			rt.Assert(ms[n].cgo == "*[0]byte" || cb && p == "*[0]byte", "a member is not read"+what)
			n++
			continue
		}
		if strings.Contains(l, " := (*sliceHeader)") {
			// three or four lines
			v := l[:strings.IndexByte(l, ' ')]
			rt.Assert(l == v+" := (*sliceHeader)(unsafe.Pointer(&x."+f.Name+"))", "a member is read into another field"+what)
			rt.Assert(strings.HasPrefix(f.Type, "[]"), "a "+f.Type+" is taken for a slice"+what)
			k := i + 1
			for k < len(lines) && (strings.HasPrefix(lines[k], v+".") || strings.HasPrefix(lines[k], "// "+v+".")) {
				if strings.HasPrefix(lines[k], v+".Data = ") {
					rt.Assert(lines[k] == v+".Data = unsafe.Pointer("+m+")", "a field is read from another member"+what)
					rt.Assert(isPointer(ms[n].cgo), "a member that is no pointer is taken for the memory of a slice"+what)
					ok = true
				}
				k++
			}
			i = k - 1
			n++
			continue
		}
		bad := read(o, l, f, m, ms[n].cgo)
		rt.Assert(bad == "", "reading "+f.Type+" from "+ms[n].cgo+what+": "+bad)
		n++
	}
	rt.Assert(n == len(ms), "a member is not read"+what)
}

func isPointer(cgo string) bool {
	_, ok := pointers[cgo]
	return cgo == "C.vp" || ok || strings.HasPrefix(cgo, "*") || cgo == "unsafe.Pointer"
}

// read is what is wrong with the statement that reads the member m into the field.
func read(o *hx.Out, l string, f hx.Param, m, cgo string) string {
	x := "x." + f.Name
	slice := strings.HasPrefix(f.Type, "[]")
	if e, ok := cut(l, x+" = ", ""); ok {
		switch {
		case e == "("+f.Type+")("+m+")":
			if strings.ContainsAny(f.Type, "*[") || f.Type == "string" || isPointer(cgo) || strings.HasPrefix(cgo, "[") {
				return "a plain conversion"
			}
			return ""
		case e == "*(*"+f.Type+")(unsafe.Pointer(&"+m+"))":
			if slice || f.Type == "string" || strings.HasPrefix(f.Type, "func") {
				return "the header of a slice is taken for the value"
			}
			if strings.HasPrefix(f.Type, "*") && !isPointer(cgo) {
				return "a value is taken for a pointer"
			}
			return ""
		case e == "("+f.Type+")(unsafe.Pointer("+m+"))":
			if !isPointer(cgo) {
				return "a value is taken for a pointer"
			}
			if !strings.HasPrefix(f.Type, "*") && f.Type != "unsafe.Pointer" {
				return "a pointer is taken for a value"
			}
			return ""
		}
		if t, ok := cut(e, "*New", "Ref(unsafe.Pointer(&"+m+"))"); ok {
			if t != f.Type {
				return "another type is read"
			}
			if isPointer(cgo) || strings.HasPrefix(cgo, "[") {
				return "a pointer is taken for a value"
			}
			if ps, r, ok := helper(o, "New"+t+"Ref"); !ok || len(ps) != 1 || r != "*"+t {
				return "no such constructor"
			}
			return ""
		}
		if t, ok := cut(e, "New", "Ref(unsafe.Pointer("+m+"))"); ok {
			if "*"+t != f.Type {
				return "another type is read"
			}
			if !isPointer(cgo) {
				return "a value is taken for a pointer"
			}
			if strings.HasPrefix(cgo, "**") {
				return "a pointer to a pointer is taken for a pointer"
			}
			if ps, r, ok := helper(o, "New"+t+"Ref"); !ok || len(ps) != 1 || r != "*"+t {
				return "no such constructor"
			}
			return ""
		}
		if h, ok := cut(e, "", "("+m+")"); ok && ident(h) {
			ps, r, ok := helper(o, h)
			if !ok || len(ps) != 1 {
				return "no such helper"
			}
			if r != f.Type {
				return "the helper gives " + r
			}
			if !assignable(cgo, ps[0]) {
				return "the helper reads " + ps[0]
			}
			return ""
		}
		return "cannot be read"
	}
	i := strings.IndexByte(l, '(')
	if i < 0 || !ident(l[:i]) || !strings.HasSuffix(l, ")") {
		return "cannot be read"
	}
	a := hx.Split(l[i+1:len(l)-1], ',')
	if len(a) != 2 {
		return "cannot be read"
	}
	ps, _, ok := helper(o, l[:i])
	if !ok || len(ps) != 2 {
		return "no such helper"
	}
	to, from := f.Type, cgo
	if a[0] == "&"+x {
		to = "*" + to
	} else if a[0] != x {
		return "into another field"
	}
	a[1] = strings.TrimSpace(a[1])
	if t, ok := cut(a[1], "(*", ")(unsafe.Pointer(&"+m+"))"); ok {
		if !assignable(t, cgo) {
			return "the member is taken for " + t
		}
		from = "*" + t
	} else if a[1] != m {
		return "from another member"
	}
	if ps[0] != to {
		return "the helper fills " + ps[0]
	}
	if !assignable(from, ps[1]) {
		return "the helper reads " + ps[1]
	}
	if a[0] == x && !slice {
		return "a copy is filled"
	}
	return ""
}

var ptrTips = []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef}
var typeTips = []tl.Tip{tl.NoTip, tl.TipTypePlain, tl.TipTypeNamed, tl.TipTypeString}

// A member of every kind under every tip.
func CheckFields() {
	group := rt.Choice("group", (len(kinds)+7)/8)
	var src strings.Builder
	src.WriteString(prelude)
	var ks []kind
	for ki := group * 8; ki < len(kinds) && ki < group*8+8; ki++ {
		ks = append(ks, kinds[ki])
	}
	for i, k := range ks {
		src.WriteString("typedef struct { int a; " + strings.Replace(k.c, "%", "m", 1) + "; double z; } S" + hx.Uint(i) + ";\n")
		src.WriteString("struct T" + hx.Uint(i) + " { " + strings.Replace(k.c, "%", "m", 1) + "; };\n")
	}
	ast := hx.Parse("fields"+hx.Uint(group), src.String())
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	what := ""
	tip := ptrTips[rt.Choice("tip", len(ptrTips))]
	if tip != tl.NoTip {
		cfg.PtrTips = tl.PtrTips{tl.TipScopeType: {{Target: "^[ST][0-9]", Default: tip}}}
		what += " " + string(tip)
	}
	tt := typeTips[rt.Choice("type", len(typeTips))]
	if tt != tl.NoTip {
		cfg.TypeTips = tl.TypeTips{tl.TipScopeType: {{Target: "^[ST][0-9]", Default: tt}}}
		what += " " + string(tt)
	}
	switch rt.Choice("raw", 3) {
	case 1:
		// the structs of the members are taken as they are in memory
		cfg.MemTips = tl.MemTips{{Target: "^(QT|struct_O|O|AN)$", Self: tl.TipMemRaw}}
		what += " raw"
	case 2:
		// the members are taken as they are in memory
		if tip != tl.NoTip {
			return
		}
		cfg.MemTips = tl.MemTips{{Target: "^[ST][0-9]", Tips: tl.Tips{tl.TipMemRaw, tl.TipMemRaw, tl.TipMemRaw}}}
		what += " raw member"
	}
	tr := hx.Translator(cfg, ast)
	o := hx.Run(hx.NewGen(nil, tr))
	rt.Reach("fields")
	for i, k := range ks {
		w := " (" + k.c + what + ")"
		n := "S" + hx.Uint(i)
		structure(o, n, "C."+n, []member{{"a", "a", "C.int"}, {"m", "m", k.cgo}, {"z", "z", "C.double"}}, w)
		n = "T" + hx.Uint(i)
		structure(o, n, "C.struct_"+n, []member{{"m", "m", k.cgo}}, w)
	}
}

// Members of types that are not accepted are left out alike, whatever their place.
func CheckExcluded() {
	// the members by the type that decides about them
	ms := []struct{ c, cgo, typ string }{
		{"int %", "C.int", ""}, {"QT %", "C.struct_Q", "QT"}, {"struct O *%", "*C.struct_O", "O"}, {"FT %", "C.enum_F", "FT"}, {"XT *%", "*C.union_X", "XT"},
		{"const char *%", "*C.char", ""}, {"VT *%", "*C.struct_V", "VT"}, {"cbt %", "C.cbt", ""}, {"ip %", "C.int", ""},
	}
	n := 3
	if rt.Deep() {
		n = 4
	}
	left := rt.Choice("left out", 6)
	types := []string{"", "QT", "O", "FT", "XT", "VT"}
	rules := hx.AcceptAll()
	if left > 0 {
		rules[tl.TargetType] = []tl.RuleSpec{{Action: tl.ActionIgnore, From: "^" + types[left] + "$"}}
	}
	src := prelude + "struct S {"
	var want []member
	for i := 0; i < n; i++ {
		k := 0
		if i > 0 || rt.Deep() {
			k = rt.Choice("member", len(ms))
		} else {
			k = rt.Choice("first", 4)
		}
		name := "abcd"[i : i+1]
		src += strings.Replace(ms[k].c, "%", name, 1) + ";"
		if left == 0 || ms[k].typ != types[left] {
			want = append(want, member{name, name, ms[k].cgo})
		}
	}
	o := hx.Run(hx.NewGen(nil, hx.Translator(&tl.Config{Rules: rules, LongIs64Bit: true}, hx.Parse(src, src+"};"))))
	rt.Reach("excluded")
	structure(o, "S", "C.struct_S", want, "")
}

// Members that cgo cannot access, members without names and of types without names.
func CheckLayout() {
	ms := []struct{ c, access, cgo string }{
		{"int a;", "a", "C.int"}, {"int b:3;", "", ""}, {"unsigned :0;", "", ""}, {"int :5;", "", ""}, {"union { int c; float d; };", "", ""}, {"struct { int e; } f;", "", ""},
		{"enum { G1 } g;", "", ""}, {"double h;", "h", "C.double"}, {"struct { int i; } j[2];", "", ""},
	}
	last := []string{"", "int k[];", "QT l[];", "int m[0];"}
	n := 3
	if rt.Deep() {
		n = 4
	}
	src := prelude + "struct S { int first;"
	want := []member{{"first", "first", "C.int"}}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := rt.Choice("member", len(ms))
		rt.Assume(!used[k])
		used[k] = true
		src += ms[k].c
		if ms[k].access != "" {
			want = append(want, member{ms[k].access, ms[k].access, ms[k].cgo})
		}
	}
	src += last[rt.Choice("last", len(last)-1)] + "};"
	o := hx.Run(hx.NewGen(nil, hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}, hx.Parse(src, src))))
	rt.Reach("layout")
	structure(o, "S", "C.struct_S", want, "")
}

var visibility = []tl.RuleSpec{{}, {Transform: tl.TransformExport}, {Transform: tl.TransformUpper}}

// Whatever the names of the members are, the names of the fields are distinct and each stands for its own member.
func CheckNames() {
	n := 1
	if rt.Deep() {
		n = 2
	}
	rules := hx.AcceptAll()
	if v := rt.Choice("visibility", len(visibility)); v > 0 {
		rules[tl.TargetPublic] = []tl.RuleSpec{visibility[v]}
	}
	if rt.Bool("rule") {
		rules[tl.TargetType] = []tl.RuleSpec{{Action: tl.ActionReplace, From: "^_"}, {Action: tl.ActionReplace, From: "a$", To: "r"}}
	}
	tr := hx.Translator(&tl.Config{Rules: rules, LongIs64Bit: true}, hx.Parse("names", prelude+"struct S { int *a; QT b; const char *c; };"))
	spec := tr.TagMap()["S"].Spec.(*tl.CStructSpec)
	var want []member
	fixed := []string{"ref", "free", "Ref", "deref", "passRef", "a", "A", "Aa", "_a", "type", "Type", "_type"}
	for i, m := range spec.Members {
		var s string
		if i == 1 {
			s = fixed[rt.Choice("fixed", len(fixed))]
		} else {
			s = rt.Str("name", 1, n, "aA_")
		}
		rt.Assume(s != "_" && s != "__" && s != "___")
		for k := 0; k < i; k++ {
			rt.Assume(s != want[k].c)
		}
		m.Name = access(s)
		want = append(want, member{s, "", []string{"*C.int", "C.struct_Q", "*C.char"}[i]})
	}
	for i := range want {
		for k := 0; k < i; k++ {
			rt.Assume(access(want[i].c) != access(want[k].c))
		}
	}
	o := hx.Run(hx.NewGen(nil, tr))
	rt.Reach("names")
	structure(o, "S", "C.struct_S", want, "")
}

// The tips by position apply to the declaration of a field and to what is written and read alike.
func CheckTips() {
	n := 3
	if rt.Deep() {
		n = 4
	}
	all := []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef, tl.TipTypePlain, tl.TipTypeNamed, tl.TipTypeString, tl.TipMemRaw}
	var ptr, typ, mem tl.Tips
	for i := 0; i < n; i++ {
		p, t, m := tl.NoTip, tl.NoTip, tl.NoTip
		switch x := all[rt.Choice("tip", len(all))]; x {
		case tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef:
			p = x
		case tl.TipMemRaw:
			m = x
		default:
			t = x
		}
		ptr, typ, mem = append(ptr, p), append(typ, t), append(mem, m)
	}
	scope := tl.TipScopeType
	if rt.Bool("any") {
		scope = tl.TipScopeAny
	}
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true, PtrTips: tl.PtrTips{scope: {{Target: "^S$", Tips: ptr}}}, TypeTips: tl.TypeTips{scope: {{Target: "^S$", Tips: typ}}}, MemTips: tl.MemTips{{Target: "^S$", Tips: mem}}}
	tr := hx.Translator(cfg, hx.Parse("tips", prelude+"typedef struct { ip *a; unsigned char *b; QT *c; FT d; } S;"))
	o := hx.Run(hx.NewGen(nil, tr))
	rt.Reach("tips")
	structure(o, "S", "C.S", []member{{"a", "a", "*C.int"}, {"b", "b", "*C.uchar"}, {"c", "c", "*C.struct_Q"}, {"d", "d", "C.enum_F"}}, "")
}
