package hx

import "strings"

const Prelude = `
typedef int ip; typedef unsigned char uc; typedef unsigned long size_t;
struct O { int x; }; typedef struct P { int x; } *PP; typedef struct Q { int x; } QT, *QP; typedef struct { int y; } AN;
struct T; typedef struct T *TP; struct V; typedef struct V VT; struct W;
union U { int x; }; typedef union X { int x; } XT;
enum E { E1 }; typedef enum F { F1 } FT;
typedef int (*cbt)(int a, QT *q); typedef void vfn(void);
`

// Kind is a kind of parameter, % stands for its name, and the type cgo has for it.
type Kind struct {
	C, Cgo string
	Arr    bool // not a result
}

var Kinds = []Kind{
	{C: "int %", Cgo: "C.int"}, {C: "unsigned char %", Cgo: "C.uchar"}, {C: "double %", Cgo: "C.double"}, {C: "_Bool %", Cgo: "C._Bool"}, {C: "char %", Cgo: "C.char"}, {C: "signed char %", Cgo: "C.schar"},
	{C: "ip %", Cgo: "C.int"}, {C: "uc %", Cgo: "C.uchar"}, {C: "size_t %", Cgo: "C.ulong"}, {C: "long long %", Cgo: "C.longlong"}, {C: "unsigned %", Cgo: "C.uint"}, {C: "unsigned short %", Cgo: "C.ushort"}, {C: "float %", Cgo: "C.float"},
	{C: "struct O %", Cgo: "C.struct_O"}, {C: "PP %", Cgo: "C.PP"}, {C: "QT %", Cgo: "C.struct_Q"}, {C: "QP %", Cgo: "C.QP"}, {C: "AN %", Cgo: "C.AN"}, {C: "struct P %", Cgo: "C.struct_P"}, {C: "struct Q %", Cgo: "C.struct_Q"},
	{C: "TP %", Cgo: "C.TP"}, {C: "union U %", Cgo: "C.union_U"}, {C: "XT %", Cgo: "C.union_X"}, {C: "enum E %", Cgo: "C.enum_E"}, {C: "FT %", Cgo: "C.enum_F"}, {C: "enum F %", Cgo: "C.enum_F"}, {C: "cbt %", Cgo: "C.cbt"},
	{C: "int *%", Cgo: "*C.int"}, {C: "unsigned char *%", Cgo: "*C.uchar"}, {C: "double *%", Cgo: "*C.double"}, {C: "_Bool *%", Cgo: "*C._Bool"}, {C: "char *%", Cgo: "*C.char"}, {C: "const char *%", Cgo: "*C.char"},
	{C: "ip *%", Cgo: "*C.int"}, {C: "uc *%", Cgo: "*C.uchar"}, {C: "size_t *%", Cgo: "*C.ulong"}, {C: "const int *%", Cgo: "*C.int"}, {C: "const unsigned char *%", Cgo: "*C.uchar"},
	{C: "struct O *%", Cgo: "*C.struct_O"}, {C: "const struct O *%", Cgo: "*C.struct_O"}, {C: "PP *%", Cgo: "*C.PP"}, {C: "QT *%", Cgo: "*C.struct_Q"}, {C: "const QT *%", Cgo: "*C.struct_Q"}, {C: "QP *%", Cgo: "*C.QP"}, {C: "AN *%", Cgo: "*C.AN"},
	{C: "TP *%", Cgo: "*C.TP"}, {C: "union U *%", Cgo: "*C.union_U"}, {C: "XT *%", Cgo: "*C.union_X"}, {C: "enum E *%", Cgo: "*C.enum_E"}, {C: "FT *%", Cgo: "*C.enum_F"}, {C: "cbt *%", Cgo: "*C.cbt"},
	{C: "struct T *%", Cgo: "*C.struct_T"}, {C: "VT *%", Cgo: "*C.struct_V"}, {C: "struct W *%", Cgo: "*C.struct_W"}, {C: "void *%", Cgo: "unsafe.Pointer"}, {C: "const void *%", Cgo: "unsafe.Pointer"}, {C: "void **%", Cgo: "*unsafe.Pointer"}, {C: "vfn *%", Cgo: "*C.vfn"},
	{C: "int **%", Cgo: "**C.int"}, {C: "unsigned char **%", Cgo: "**C.uchar"}, {C: "char **%", Cgo: "**C.char"}, {C: "const char **%", Cgo: "**C.char"}, {C: "const char *const *%", Cgo: "**C.char"}, {C: "ip **%", Cgo: "**C.int"},
	{C: "struct O **%", Cgo: "**C.struct_O"}, {C: "QT **%", Cgo: "**C.struct_Q"}, {C: "XT **%", Cgo: "**C.union_X"}, {C: "FT **%", Cgo: "**C.enum_F"}, {C: "VT **%", Cgo: "**C.struct_V"}, {C: "struct W **%", Cgo: "**C.struct_W"}, {C: "int ***%", Cgo: "***C.int"},
	{C: "int %[3]", Cgo: "*C.int", Arr: true}, {C: "char %[]", Cgo: "*C.char", Arr: true}, {C: "QT %[3]", Cgo: "*C.struct_Q", Arr: true}, {C: "char *%[3]", Cgo: "**C.char", Arr: true}, {C: "const char *%[]", Cgo: "**C.char", Arr: true}, {C: "TP %[2]", Cgo: "*C.TP", Arr: true}, {C: "int %[3][4]", Cgo: "*[4]C.int", Arr: true},
	{C: "int (*%)[4]", Cgo: "*[4]C.int", Arr: true}, {C: "int (*%)(int)", Cgo: "*[0]byte", Arr: true},
}

// the typedef names that cgo takes for the type they stand for
var alias = map[string]string{"C.ip": "C.int", "C.uc": "C.uchar", "C.size_t": "C.ulong", "C.QT": "C.struct_Q", "C.XT": "C.union_X", "C.VT": "C.struct_V", "C.FT": "C.enum_F", "C.bool": "C._Bool"}

// Pointers are those of pointers, which it lets a value of the type they stand for be given to
var Pointers = map[string]string{"C.TP": "*C.struct_T", "C.PP": "*C.struct_P", "C.QP": "*C.struct_Q", "C.cbt": "*[0]byte", "*C.vfn": "*[0]byte"}

func Canon(t string) string {
	i := 0
	for i < len(t) && t[i] == '*' {
		i++
	}
	if a, ok := alias[t[i:]]; ok {
		return t[:i] + a
	}
	return t
}

// Assignable: a value of type t may be given to a parameter of type want.
func Assignable(t, want string) bool {
	t, want = Canon(t), Canon(want)
	if t == want {
		return true
	}
	if p, ok := Pointers[t]; ok {
		t = p
	}
	if p, ok := Pointers[want]; ok {
		want = p
	}
	return t == want
}

// Helper is the type of the parameter and of the first result of a helper function.
func Helper(o *Out, name string) (params []string, ret string, ok bool) {
	fs := Func(o.Go, "", name)
	if len(fs) != 1 {
		return nil, "", false
	}
	for _, p := range fs[0].Params {
		params = append(params, p.Type)
	}
	return params, First(fs[0].Ret), true
}

// First is the first type of a result list.
func First(ret string) string {
	if !strings.HasPrefix(ret, "(") || Match(ret, 0) != len(ret)-1 {
		return ret
	}
	r := strings.TrimSpace(Split(ret[1:len(ret)-1], ',')[0])
	if i := strings.IndexByte(r, ' '); i > 0 {
		r = r[i+1:]
	}
	return r
}

func Ident(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return len(s) > 0
}

// Cut removes a prefix and a suffix.
func Cut(s, pre, suf string) (string, bool) {
	if len(s) < len(pre)+len(suf) || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) {
		return "", false
	}
	return s[len(pre) : len(s)-len(suf)], true
}

// Convert is the type of an expression that converts the parameter p, and what is wrong with it.
func Convert(o *Out, e string, p Param) (string, string) {
	e = strings.TrimSuffix(e, ", cgoAllocsUnknown")
	if e == p.Name {
		return p.Type, ""
	}
	for _, m := range []string{"PassValue", "PassRef"} {
		if e != p.Name+"."+m+"()" {
			continue
		}
		for _, f := range Funcs(o.Go) {
			if f.Name != m || len(f.Recv) != 1 {
				continue
			}
			if r := f.Recv[0].Type; r == p.Type || r == "*"+p.Type || p.Type == "*"+r {
				return First(f.Ret), ""
			}
		}
		return "", p.Type + " has no " + m
	}
	if t, ok := Cut(e, "*(*", ")(unsafe.Pointer(&"+p.Name+"))"); ok {
		if strings.HasPrefix(p.Type, "[]") || p.Type == "string" {
			return "", "the header of a slice is taken for the value"
		}
		return t, ""
	}
	if strings.HasPrefix(e, "(") {
		j := Match(e, 0)
		if j < 0 {
			return "", "cannot be read"
		}
		t, x := e[1:j], e[j+1:]
		switch x {
		case "(" + p.Name + ")":
			if strings.ContainsAny(p.Type, "*[") || p.Type == "string" || p.Type == "unsafe.Pointer" {
				return "", "a plain conversion of " + p.Type
			}
			return t, ""
		case "(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&" + p.Name + ")).Data))":
			if !strings.HasPrefix(p.Type, "[]") {
				return "", "the data of " + p.Type + ", which is no slice"
			}
			return t, ""
		case "(unsafe.Pointer(" + p.Name + "))":
			if !strings.HasPrefix(p.Type, "*") && p.Type != "unsafe.Pointer" {
				return "", "a pointer is made of " + p.Type
			}
			return t, ""
		}
		return "", "cannot be read"
	}
	if h, ok := Cut(e, "", "("+p.Name+")"); ok && Ident(h) {
		ps, r, ok := Helper(o, h)
		if !ok || len(ps) != 1 {
			return "", "no such helper"
		}
		if ps[0] != p.Type {
			return "", "the helper takes " + ps[0] + " instead of " + p.Type
		}
		return r, ""
	}
	return "", "cannot be read"
}
