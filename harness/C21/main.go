package main

import (
	"bytes"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	hx "github.com/xlab/c-for-go/verifhx"
	rt "github.com/xlab/c-for-go/verifrt"
)

func main() {
	rt.Main(map[string]func(){"CheckLookup": CheckLookup, "CheckWrapper": CheckWrapper, "CheckInvalid": CheckInvalid})
}

var pats = []string{"^a", "b$", "c", "^ab?$", "(?!a)^.", "x"}

// match is what the patterns mean, by hand.
func match(k int, s string) bool {
	switch k {
	case 0:
		return s[0] == 'a'
	case 1:
		return s[len(s)-1] == 'b'
	case 2:
		return rt.Contains(s, "c")
	case 3:
		return rt.Or(s == "a", s == "ab")
	case 4:
		return s[0] != 'a'
	}
	return rt.Contains(s, "x")
}

// The first entry whose pattern matches decides.
func CheckLookup() {
	n := 2
	if rt.Deep() {
		n = 3
	}
	var vs tl.Validations
	var ks []int
	var fs, rs []string
	m := rt.Choice("entries", 4)
	for i := 0; i < m; i++ {
		k := rt.Choice("pat", len(pats))
		ks = append(ks, k)
		// entries may share a function or a return text
		fs = append(fs, rt.Str("vf", 1, 1, "vw"))
		rs = append(rs, rt.Str("ret", 0, 1, "rs"))
		vs = append(vs, tl.ValidationSpec{MatchedFunc: pats[k], ValidateFunc: fs[i], Ret: rs[i]})
	}
	tr, err := tl.New(&tl.Config{Validations: vs})
	rt.Assert(err == nil, "valid patterns are refused")
	s := rt.Str("name", 1, n, "abcx")
	f, r, ok := tr.GetLibrarySymbolValidation(s)
	want := -1
	for i, k := range ks {
		if match(k, s) {
			want = i
			break
		}
	}
	rt.Observe("f", f)
	rt.Reach("lookup")
	if want < 0 {
		rt.Assert(!ok, "a function no pattern matches is validated")
		return
	}
	rt.Assert(ok, "a function whose name matches is not validated")
	rt.Assert(rt.And(f == fs[want], r == rs[want]), "the validation of another entry is used")
	// asking again changes nothing
	f2, r2, ok2 := tr.GetLibrarySymbolValidation(s)
	rt.Assert(rt.And(ok2, f2 == f, r2 == r), "asking again gives another validation")
}

// part is the text from head to the next function.
func part(s, head string) (string, bool) {
	i := strings.Index(s, head)
	if i < 0 {
		return "", false
	}
	s = s[i:]
	if j := strings.Index(s, "\nfunc "); j >= 0 {
		s = s[:j]
	}
	return s, true
}

const src = "int fun(int a, char *b);\nvoid gun(void);\n"

// The wrapper of a matching function starts with its validation, the others have none.
func CheckWrapper() {
	ast := hx.Parse("wr", src)
	var vs tl.Validations
	var ks []int
	m := 1 + rt.Choice("entries", 2)
	rets := []string{"", "0", "-1, nil", "ErrNo"}
	var rs []string
	for i := 0; i < m; i++ {
		k := rt.Choice("pat", 4)
		ks = append(ks, k)
		r := rets[rt.Choice("ret", len(rets))]
		rs = append(rs, r)
		vs = append(vs, tl.ValidationSpec{MatchedFunc: pats[k], ValidateFunc: "check" + string(rune('A'+i)), Ret: r})
	}
	tr := hx.Translator(&tl.Config{Validations: vs, Rules: tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "."}, {Action: tl.ActionReplace, From: "$", To: "Go"}}}}, ast)
	name := rt.Str("name", 1, 2, "abc")
	void := rt.Bool("void")
	old := "fun"
	if void {
		old = "gun"
	}
	for _, d := range tr.Declares() {
		if d.Name == old {
			d.Name = name
			d.Spec.(*tl.CFunctionSpec).Raw = name
		}
	}
	g := hx.NewGen(&generator.Config{}, tr)
	o := hx.RunWith(g, func(o *hx.Out, nb func() *bytes.Buffer) {
		w := nb()
		g.WriteDeclares(w)
		o.Decls = w.String()
	})
	want := -1
	for i, k := range ks {
		if match(k, name) {
			want = i
			break
		}
	}
	// the wrapper of the function: from its head to its end
	txt := rt.Conc(o.Decls)
	nm := rt.Conc(name)
	body, ok := part(txt, "func "+nm+"Go(")
	rt.Assert(ok, "the function is not emitted")
	other := "fun"
	if !void {
		other = "gun"
	}
	ob, ok := part(txt, "func "+other+"Go(")
	rt.Assert(ok, "the other function is not emitted")
	rt.Reach("wrapper")
	rt.Assert(!strings.Contains(ob, "check"), "a function no pattern matches is validated")
	lines := hx.Lines(body)
	rt.Observe("body", body)
	if want < 0 {
		rt.Assert(!strings.Contains(body, "check"), "a function no pattern matches is validated")
		return
	}
	fn := "check" + string(rune('A'+want))
	rt.Assert(strings.Count(body, "check") == 1, "the wrapper does not have exactly one validation")
	rt.Assert(strings.Contains(lines[1], fn+"("), "the wrapper does not start with the validation of the first matching entry")
	rt.Assert(strings.Contains(lines[1], fn+"(\""+nm+"\")"), "the validation is not asked about the C function's name")
	found := false
	for _, l := range lines[1:4] {
		if l == strings.TrimSpace("return "+rs[want]) {
			found = true
		}
	}
	rt.Assert(found, "the validation does not return the entry's text")
	ci := strings.Index(body, "C."+nm+"(")
	rt.Assert(ci > strings.Index(body, fn), "the C function is called before the validation")
}

// An invalid pattern is reported when the configuration is loaded, wherever it stands.
func CheckInvalid() {
	bad := []string{"(", "[a", "a**", "(?<x", "\\"}
	var vs tl.Validations
	m := 1 + rt.Choice("entries", 3)
	at := rt.Choice("at", m)
	for i := 0; i < m; i++ {
		p := pats[rt.Choice("pat", len(pats))]
		if i == at {
			p = bad[rt.Choice("bad", len(bad))]
		}
		vs = append(vs, tl.ValidationSpec{MatchedFunc: p, ValidateFunc: "v"})
	}
	_, err := tl.New(&tl.Config{Validations: vs})
	rt.Reach("invalid")
	rt.Assert(err != nil, "an invalid validation pattern is accepted")
}
