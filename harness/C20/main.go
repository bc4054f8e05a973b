package main

import (
	"strings"

	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckKinds": CheckKinds, "CheckNames": CheckNames, "CheckPositions": CheckPositions, "CheckTypes": CheckTypes})
}

// the C types that are the same
var same = map[string]string{"ip": "int", "uc": "unsigned char", "size_t": "unsigned long", "unsigned": "unsigned int", "bool": "_Bool", "QT": "struct Q", "XT": "union X", "VT": "struct V", "FT": "enum F",
	"TP": "struct T*", "PP": "struct P*", "QP": "struct Q*", "vp": "void*", "long long int": "long long", "unsigned long int": "unsigned long", "unsigned short int": "unsigned short"}

// ctype brings a C type into one form, without what is constant.
func ctype(s string) string {
	i := strings.IndexByte(s, '[')
	dims := ""
	if i >= 0 {
		s, dims = s[:i], s[i:]
	}
	stars := strings.Count(s, "*")
	var words []string
	for _, w := range strings.Fields(strings.ReplaceAll(s, "*", " ")) {
		if w != "const" {
			words = append(words, w)
		}
	}
	base := strings.Join(words, " ")
	if b, ok := same[base]; ok {
		base = b
	}
	if base == "vfn" && stars == 0 {
		stars = 1 // a parameter of function type is a pointer
	}
	if dims != "" {
		stars++
		dims = dims[strings.IndexByte(dims, ']')+1:]
	}
	return base + strings.Repeat("*", stars) + dims
}

// cparam cuts "T name" at the name.
func cparam(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := len(s)
	for i > 0 && (s[i-1] == '_' || s[i-1] >= 'a' && s[i-1] <= 'z' || s[i-1] >= 'A' && s[i-1] <= 'Z' || s[i-1] >= '0' && s[i-1] <= '9') {
		i--
	}
	return strings.TrimSpace(s[:i]), s[i:]
}

// cfunc reads a C function head "R name(params)" whose name starts with pre.
type cfunc struct {
	ret, name string
	params    []hx.Param
}

func readC(l, pre string) (cfunc, bool) {
	j := strings.IndexByte(l, '(')
	if j < 0 || strings.HasPrefix(l, "//") {
		return cfunc{}, false
	}
	ret, name := cparam(l[:j])
	if !strings.HasPrefix(name, pre+"_") || ret == "" {
		return cfunc{}, false
	}
	for i := len(pre) + 1; i < len(name); i++ {
		if !(name[i] >= '0' && name[i] <= '9' || name[i] >= 'a' && name[i] <= 'f') {
			return cfunc{}, false
		}
	}
	k := hx.Match(l, j)
	if k < 0 {
		return cfunc{}, false
	}
	f := cfunc{ret: ret, name: name}
	if in := strings.TrimSpace(l[j+1 : k]); in != "" && in != "void" {
		for _, p := range hx.Split(in, ',') {
			t, n := cparam(p)
			f.params = append(f.params, hx.Param{Name: n, Type: t})
		}
	}
	return f, true
}

// exported is a Go type by the C type that cgo gives it in the exported function.
func exported(t string) string {
	t = hx.Canon(t)
	n := 0
	for n < len(t) && t[n] == '*' {
		n++
	}
	if p, ok := hx.Pointers[t[n:]]; ok {
		return t[:n] + p
	}
	switch {
	case t == "*C.vfn":
		return "*[0]byte"
	case t[n:] == "C.vp":
		return t[:n] + "unsafe.Pointer"
	}
	return t
}

// A callback is the type a callback typedef has.
type callback struct {
	c, g   string   // C and Go name of the typedef
	params []string // the C types of the parameters
	cgo    []string // and what cgo has for them
	ret    string
	retCgo string
	ptr    bool // a typedef of a pointer
}

// v is a variable made of a parameter of the exported function.
type v struct{ typ, from, bad string }

// vars reads the variables the parameters are converted into.
func vars(o *hx.Out, lines []string, params []hx.Param) (map[string]v, string) {
	m := map[string]v{}
	typeOf := func(n string) string {
		for _, p := range params {
			if p.Name == n {
				return p.Type
			}
		}
		return ""
	}
	set := func(n string, x v) string {
		if _, ok := m[n]; ok {
			return "a variable is declared twice"
		}
		m[n] = x
		return ""
	}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "//") {
			continue
		}
		if d, ok := hx.Cut(l, "var ", ""); ok {
			k := strings.IndexByte(d, ' ')
			if k < 0 {
				return m, "a variable cannot be read"
			}
			n, t := d[:k], d[k+1:]
			if c := strings.Index(t, " // "); c >= 0 {
				// a callback cannot be made of what C has
				if w := strings.Fields(t[c+4:]); len(w) > 0 {
					if bad := set(n, v{t[:c], w[0], ""}); bad != "" {
						return m, bad
					}
				}
				continue
			}
			if i+1 >= len(lines) {
				return m, "a variable is not set"
			}
			x := lines[i+1]
			if strings.HasSuffix(x, ":= (*sliceHeader)(unsafe.Pointer(&"+n+"))") && i+2 < len(lines) {
				h := strings.TrimSpace(x[:strings.Index(x, ":=")])
				p, ok := hx.Cut(lines[i+2], h+".Data = unsafe.Pointer(", ")")
				bad := ""
				if !ok {
					bad = "the data of a slice is not set"
				} else if pt := typeOf(p); !strings.HasPrefix(pt, "*") && pt != "unsafe.Pointer" && pt != "C.vp" && hx.Pointers[pt] == "" {
					bad = "memory behind no pointer"
				} else if !strings.HasPrefix(t, "[]") {
					bad = "a slice header of " + t
				}
				if b := set(n, v{t, p, bad}); b != "" {
					return m, b
				}
				i += 2
				for i+1 < len(lines) && strings.HasPrefix(strings.TrimPrefix(lines[i+1], "// "), h+".") {
					i++
				}
				continue
			}
			j := strings.IndexByte(x, '(')
			if j < 0 || !hx.Ident(x[:j]) || !strings.HasPrefix(x[j:], "("+n+", ") {
				return m, "a variable is not set"
			}
			p, _ := hx.Cut(x[j:], "("+n+", ", ")")
			ps, _, ok := hx.Helper(o, x[:j])
			bad := ""
			if !ok || len(ps) != 2 {
				bad = "no such helper"
			} else if ps[0] != t {
				bad = "the helper takes " + ps[0] + " instead of " + t
			} else if !hx.Assignable(typeOf(p), ps[1]) {
				bad = "the helper reads " + ps[1]
			}
			if b := set(n, v{t, p, bad}); b != "" {
				return m, b
			}
			i++
			continue
		}
		k := strings.Index(l, " := ")
		if k < 0 {
			return m, "a line cannot be read"
		}
		n, e := l[:k], l[k+4:]
		var x v
		for _, p := range params {
			pt := p.Type
			ptr := strings.HasPrefix(pt, "*") || pt == "unsafe.Pointer" || hx.Pointers[pt] != "" || pt == "C.vp"
			if t, ok := hx.Cut(e, "*(*", ")(unsafe.Pointer(&"+p.Name+"))"); ok {
				x = v{t, p.Name, ""}
				if strings.HasPrefix(t, "[]") || t == "string" {
					x.bad = "a value is taken for a header"
				}
			} else if t, ok := hx.Cut(e, "*New", "Ref(unsafe.Pointer(&"+p.Name+"))"); ok {
				x = v{t, p.Name, ""}
				if strings.HasPrefix(pt, "*") {
					x.bad = "a pointer is read as the value"
				}
				if ps, r, ok := hx.Helper(o, "New"+t+"Ref"); !ok || len(ps) != 1 || r != "*"+t {
					x.bad = "no such constructor"
				}
			} else if t, ok := hx.Cut(e, "New", "Ref(unsafe.Pointer("+p.Name+"))"); ok {
				x = v{"*" + t, p.Name, ""}
				if !ptr {
					x.bad = "a value is taken for a pointer"
				} else if strings.HasPrefix(pt, "**") {
					x.bad = "a pointer to a pointer is taken for a pointer"
				}
				if ps, r, ok := hx.Helper(o, "New"+t+"Ref"); !ok || len(ps) != 1 || r != "*"+t {
					x.bad = "no such constructor"
				}
			} else if h, ok := hx.Cut(e, "", "("+p.Name+")"); ok && hx.Ident(h) {
				ps, r, ok := hx.Helper(o, h)
				x = v{r, p.Name, ""}
				if !ok || len(ps) != 1 {
					x.bad = "no such helper"
				} else if !hx.Assignable(pt, ps[0]) {
					x.bad = "the helper reads " + ps[0]
				}
			} else if t, ok := hx.Cut(e, "(", ")(unsafe.Pointer("+p.Name+"))"); ok {
				x = v{t, p.Name, ""}
				if !strings.HasPrefix(t, "*") && t != "unsafe.Pointer" || !ptr {
					x.bad = "a pointer conversion to " + t
				}
			} else if t, ok := hx.Cut(e, "(", ")("+p.Name+")"); ok {
				x = v{t, p.Name, ""}
				if strings.ContainsAny(t, "*[") || strings.HasPrefix(pt, "*") {
					x.bad = "a plain conversion of " + pt
				}
			} else {
				continue
			}
			break
		}
		if x.from == "" {
			return m, "a line cannot be read"
		}
		if b := set(n, x); b != "" {
			return m, b
		}
	}
	return m, ""
}

// check is the property for one callback typedef.
func (cb callback) check(o *hx.Out, what string) {
	var heads, bodies []cfunc
	for _, l := range hx.Lines(o.CH) {
		if f, ok := readC(l, cb.c); ok && strings.HasSuffix(l, ");") {
			heads = append(heads, f)
		}
	}
	fwd := ""
	cc := hx.Lines(o.CC)
	for i, l := range cc {
		if f, ok := readC(l, cb.c); ok && strings.HasSuffix(l, ") {") {
			bodies = append(bodies, f)
			if i+2 < len(cc) && cc[i+2] == "}" {
				fwd = cc[i+1]
			}
		}
	}
	rt.Assert(len(heads) == 1, "there is not exactly one prototype"+what)
	rt.Assert(len(bodies) == 1, "there is not exactly one body"+what)
	if len(heads) != 1 || len(bodies) != 1 {
		return
	}
	h, b := heads[0], bodies[0]
	rt.Assert(h.name == b.name && h.ret == b.ret && len(h.params) == len(b.params), "the prototype and the body differ"+what)
	want := cb.ret
	if want == "" {
		want = "void"
	}
	rt.Assert(ctype(h.ret) == ctype(want), "the C result is "+h.ret+what)
	if len(h.params) != len(cb.params) || len(b.params) != len(cb.params) {
		rt.Assert(false, "the number of C parameters differs"+what)
		return
	}
	var names []string
	for i, p := range h.params {
		rt.Assert(p == b.params[i], "the prototype and the body differ"+what)
		rt.Assert(ctype(p.Type) == ctype(cb.params[i]), "the C parameter is "+p.Type+what)
		rt.Assert(hx.Ident(p.Name), "a C name is no identifier"+what)
		for _, n := range names {
			rt.Assert(n != p.Name, "two C parameters have the same name"+what)
		}
		names = append(names, p.Name)
	}
	call, ok := hx.Cut(fwd, "", "("+strings.Join(names, ", ")+");")
	if ok && cb.ret != "" {
		call, ok = hx.Cut(call, "return ", "")
	}
	rt.Assert(ok && hx.Ident(call), "the C body does not forward to Go"+what)
	if !ok {
		return
	}
	// the exported function
	fs := hx.Func(o.Go, "", call)
	rt.Assert(len(fs) == 1, "there is not exactly one Go function"+what)
	if len(fs) != 1 {
		return
	}
	f := fs[0]
	rt.Assert(f.OK, "the parameters of the Go function cannot be read"+what)
	rt.Assert(strings.HasSuffix("\n"+f.Comment, "\n//export "+call+"\n"), "the Go function is not exported"+what)
	rt.Assert(hx.CountLines(o.Go, "//export "+call+"\n") == 1, "the Go function is not exported once"+what)
	if len(f.Params) != len(cb.cgo) {
		rt.Assert(false, "the number of Go parameters differs"+what)
		return
	}
	declared := append([]string(nil), "ret", call, call+"Func")
	for i, p := range f.Params {
		rt.Assert(exported(p.Type) == exported(cb.cgo[i]), "the Go parameter is "+p.Type+what)
		rt.Assert(hx.Ident(p.Name), "a Go name is no identifier"+what)
		declared = append(declared, p.Name)
	}
	rt.Assert(exported(f.Ret) == exported(cb.retCgo), "the Go result is "+f.Ret+what)
	rt.Assert(hx.CountLines(o.Go, "var "+call+"Func "+cb.g+"\n") == 1, "the registered callback is not declared"+what)
	// the type
	i := strings.Index("\n"+o.Types, "\ntype "+cb.g+" func(")
	if i < 0 {
		rt.Assert(false, "the callback type is missing"+what)
		return
	}
	l := o.Types[i+len("type "+cb.g+" func"):]
	if k := strings.IndexByte(l, '\n'); k >= 0 {
		l = l[:k]
	}
	k := hx.Match(l, 0)
	ps, ok := hx.Params(l[1:k])
	ret := strings.TrimSpace(l[k+1:])
	rt.Assert(ok && len(ps) == len(cb.cgo), "the callback type has other parameters"+what)
	rt.Assert((ret != "") == (cb.ret != ""), "the callback type has a result exactly when C has none"+what)
	if !ok || len(ps) != len(cb.cgo) {
		return
	}
	// the body
	body := f.Body
	if len(body) < 4 || body[0] != "if "+call+"Func != nil {" {
		rt.Assert(false, "the body cannot be read"+what)
		return
	}
	at := -1
	var args []string
	retVar := ""
	for i, l := range body {
		k := strings.Index(l, call+"Func(")
		if k < 0 {
			continue
		}
		rt.Assert(at < 0, "the callback is called twice"+what)
		at = i
		if a, ok := hx.Cut(l[k:], call+"Func(", ")"); ok && a != "" {
			args = strings.Split(a, ", ")
		}
		if k > 0 {
			retVar, ok = hx.Cut(l[:k], "", " := ")
			rt.Assert(ok, "the call cannot be read"+what)
			declared = append(declared, retVar)
		}
	}
	rt.Assert(at > 0, "the callback is not called"+what)
	if at < 0 {
		return
	}
	rt.Assert(len(args) == len(ps), "the number of arguments differs"+what)
	m, bad := vars(o, body[1:at], f.Params)
	rt.Assert(bad == "", bad+what)
	if bad != "" || len(args) != len(ps) {
		return
	}
	for n := range m {
		declared = append(declared, n)
	}
	for i := range declared {
		for k := 0; k < i; k++ {
			rt.Assert(declared[i] != declared[k], "two names are the same"+what)
		}
	}
	for i, a := range args {
		x, ok := m[a]
		if !ok {
			rt.Assert(false, "an argument is not declared"+what)
			continue
		}
		rt.Assert(x.bad == "", "the argument of type "+ps[i].Type+what+": "+x.bad)
		rt.Assert(x.from == f.Params[i].Name, "an argument is made of another parameter"+what)
		rt.Assert(x.typ == ps[i].Type, "an argument of type "+x.typ+" for "+ps[i].Type+what)
	}
	rest := body[at+1:]
	if cb.ret == "" {
		rt.Assert(retVar == "", "a result is taken though C has none"+what)
		rt.Assert(len(rest) > 1 && rest[0] == "return" && rest[1] == "}", "the callback is not returned from"+what)
	} else {
		rt.Assert(retVar != "", "the result is not taken"+what)
		if len(rest) < 3 {
			rt.Assert(false, "the result is not returned"+what)
			return
		}
		e, ok := hx.Cut(rest[0], "ret, _ := ", "")
		rt.Assert(ok && rest[1] == "return ret" && rest[2] == "}", "the result is not returned"+what)
		t, bad := hx.Convert(o, e, hx.Param{Name: retVar, Type: ret})
		rt.Assert(bad == "", "the result of type "+ret+what+": "+bad)
		if bad == "" {
			rt.Assert(hx.Assignable(t, f.Ret), "a result of type "+t+what)
		}
	}
	// registering it
	for _, n := range []string{"PassRef", "PassValue"} {
		pf := hx.Func(o.Go, cb.g, n)
		if n == "PassValue" && !cb.ptr {
			continue
		}
		if len(pf) != 1 {
			rt.Assert(false, "there is not exactly one "+n+what)
			continue
		}
		txt := strings.Join(pf[0].Body, " ")
		rt.Assert(strings.Contains(txt, call+"Func = x"), n+" does not register the callback"+what)
		rt.Assert(strings.Contains(txt, "(C."+h.name+"), nil"), n+" gives another C function"+what)
	}
}

var ptrTips = []tl.Tip{tl.NoTip, tl.TipPtrArr, tl.TipPtrRef, tl.TipPtrSRef, tl.TipPtrInst}
var typeTips = []tl.Tip{tl.NoTip, tl.TipTypePlain, tl.TipTypeNamed, tl.TipTypeString}

const prelude = hx.Prelude + "typedef void *vp;\n"

// of is the C type of a kind.
func of(k hx.Kind) string { return strings.Replace(k.C, "%", "", 1) }

// A parameter and a result of every kind under every tip.
func CheckKinds() {
	kinds := append([]hx.Kind{{C: "vp %", Cgo: "C.vp"}, {C: "vp *%", Cgo: "*C.vp"}}, hx.Kinds...)
	var ks []hx.Kind
	for _, k := range kinds {
		if !strings.Contains(k.C, "(*%)") {
			ks = append(ks, k)
		}
	}
	group := rt.Choice("group", (len(ks)+7)/8)
	ks = ks[group*8:]
	if len(ks) > 8 {
		ks = ks[:8]
	}
	var src strings.Builder
	src.WriteString(prelude)
	for i, k := range ks {
		src.WriteString("typedef void (*k" + hx.Uint(i) + ")(int a, " + strings.Replace(k.C, "%", "p", 1) + ", double z);\n")
		if !k.Arr {
			src.WriteString("typedef " + strings.Replace(k.C, "%", "(*r"+hx.Uint(i)+")(int a)", 1) + ";\n")
		}
	}
	ast := hx.Parse("kinds"+hx.Uint(group), src.String())
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}
	what, whatR := "", ""
	ti, si := rt.Choice("tip", len(ptrTips)), rt.Choice("self", 2)
	tip, self := ptrTips[ti], ptrTips[(ti+si)%len(ptrTips)]
	if self == tl.TipPtrInst {
		self = tl.NoTip
	}
	cfg.PtrTips = tl.PtrTips{tl.TipScopeFunction: {{Target: "^[kr]", Default: tip, Self: self}}}
	if tip != tl.NoTip {
		what += " " + string(tip)
	}
	if self != tl.NoTip {
		whatR += " " + string(self)
	}
	ti = rt.Choice("type", len(typeTips))
	if rt.Deep() {
		si = rt.Choice("type self", 2)
	}
	tt, ts := typeTips[ti], typeTips[(ti+si)%len(typeTips)]
	cfg.TypeTips = tl.TypeTips{tl.TipScopeFunction: {{Target: "^[kr]", Default: tt, Self: ts}}}
	if tt != tl.NoTip {
		what += " " + string(tt)
	}
	if ts != tl.NoTip {
		whatR += " " + string(ts)
	}
	if tt == tl.NoTip && rt.Bool("raw") {
		cfg.MemTips = tl.MemTips{{Target: "^(QT|struct_O|O|AN)$", Self: tl.TipMemRaw}}
		what += " raw"
		whatR += " raw"
	} else if tt == tl.NoTip && ts == tl.NoTip && rt.Bool("type tip of the type") {
		cfg.TypeTips = tl.TypeTips{tl.TipScopeType: {{Target: "^(ip|uc|QT|size_t|FT)$", Default: tl.TipTypePlain, Self: tl.TipTypePlain}}}
		what += " typeself"
		whatR += " typeself"
	}
	o := hx.Run(hx.NewGen(nil, hx.Translator(cfg, ast)))
	for i, k := range ks {
		n := hx.Uint(i)
		callback{"k" + n, "k" + n, []string{"int", of(k), "double"}, []string{"C.int", k.Cgo, "C.double"}, "", "", true}.check(o, " ("+k.C+what+")")
		if !k.Arr {
			callback{"r" + n, "r" + n, []string{"int"}, []string{"C.int"}, of(k), k.Cgo, true}.check(o, " (result "+k.C+whatR+")")
		}
	}
	rt.Reach("kinds")
}

// Names of parameters.
func CheckNames() {
	names := []string{"", "a", "A", "arg1", "type", "ret", "cca", "__ret", "ca", "_", "arg0", "func", "x"}
	n := 2
	if rt.Deep() {
		n = 3
	}
	src := prelude + "typedef int (*nf)("
	types := []string{"cbt", "QT *", "char *"}
	var have []string
	for i := 0; i < n; i++ {
		s := rt.Pick("name", names...)
		for _, h := range have {
			rt.Assume(s == "" || h != s)
		}
		have = append(have, s)
		if i > 0 {
			src += ", "
		}
		src += types[i] + " " + s
	}
	rules := hx.AcceptAll()
	if k := rt.Choice("visibility", 3); k > 0 {
		rules[tl.TargetPostGlobal] = []tl.RuleSpec{{Transform: []tl.RuleTransform{"", tl.TransformExport, tl.TransformUnexport}[k]}}
	}
	o := hx.Run(hx.NewGen(nil, hx.Translator(&tl.Config{Rules: rules, LongIs64Bit: true}, hx.Parse(src, src+");"))))
	g := "nf"
	if !strings.Contains(o.Types, "type nf ") {
		g = "Nf"
	}
	rt.Reach("names")
	callback{"nf", g, types[:n], []string{"C.cbt", "*C.QT", "*C.char"}[:n], "int", "C.int", true}.check(o, "")
}

// Typedefs of functions and of pointers to them, with and without parameters.
func CheckTypes() {
	src := prelude
	var cbs []callback
	names := []string{"one", "One", "on_e"}
	n := 2
	if rt.Deep() {
		n = 3
	}
	for i := 0; i < n; i++ {
		c := callback{c: names[i], g: names[i], ptr: rt.Bool("pointer")}
		in := "void"
		switch rt.Choice("parameters", 3) {
		case 1:
			in = "int a"
			c.params, c.cgo = []string{"int"}, []string{"C.int"}
		case 2:
			in = "void *u, const char *"
			c.params, c.cgo = []string{"void *", "char *"}, []string{"unsafe.Pointer", "*C.char"}
		}
		ret := "void"
		if rt.Bool("result") {
			c.ret, c.retCgo, ret = "int", "C.int", "int"
		}
		if c.ptr {
			src += "typedef " + ret + " (*" + c.c + ")(" + in + ");\n"
		} else {
			src += "typedef " + ret + " " + c.c + "(" + in + ");\n"
		}
		cbs = append(cbs, c)
	}
	o := hx.Run(hx.NewGen(nil, hx.Translator(&tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true}, hx.Parse(src, src))))
	rt.Reach("types")
	for _, c := range cbs {
		c.check(o, "")
	}
}

// Tips of each position.
func CheckPositions() {
	src := prelude + "typedef int (*pf)(QT *a, QT *b, struct O *c, int *d);"
	n := 3
	if rt.Deep() {
		n = 4
	}
	tips := make(tl.Tips, rt.Choice("tips", n+1))
	for i := range tips {
		tips[i] = ptrTips[rt.Choice("tip", len(ptrTips))]
	}
	mem := tl.MemTips{}
	if rt.Bool("raw") {
		mem = tl.MemTips{{Target: "^pf$", Tips: tl.Tips{tl.NoTip, tl.TipMemRaw}}}
	}
	cfg := &tl.Config{Rules: hx.AcceptAll(), LongIs64Bit: true, MemTips: mem, PtrTips: tl.PtrTips{tl.TipScopeFunction: {{Target: "^pf$", Tips: tips}}}}
	o := hx.Run(hx.NewGen(nil, hx.Translator(cfg, hx.Parse("pos", src))))
	rt.Reach("positions")
	callback{"pf", "pf", []string{"QT *", "QT *", "struct O *", "int *"}, []string{"*C.QT", "*C.QT", "*C.struct_O", "*C.int"}, "int", "C.int", true}.check(o, "")
}
