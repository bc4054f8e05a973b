// Package hx holds what the harnesses share: parsing small C sources with the real C front end and running the real
// generator on them.
package hx

import (
	"bytes"
	"strings"

	"github.com/xlab/c-for-go/generator"
	tl "github.com/xlab/c-for-go/translator"
	rt "github.com/xlab/c-for-go/verifrt"
	"modernc.org/cc/v4"
)

const predef = "typedef unsigned long size_t; int __predefined_declarator;\n#define __SIZE_TYPE__ unsigned long\n"

// Parse runs the C front end on src (once, concretely).
func Parse(key, src string) *cc.AST {
	return ParseFiles(key, "linux", "amd64", "/src/inc/test.h", src)
}

// ParseArch is Parse for another ABI.
func ParseArch(key, goos, goarch, src string) *cc.AST {
	return ParseFiles(key, goos, goarch, "/src/inc/test.h", src)
}

// Try is Parse of a text that may be no C; it is nil then.
func Try(key, src string) *cc.AST {
	v := rt.Once(key, func() interface{} {
		abi, err := cc.NewABI("linux", "amd64")
		if err != nil {
			panic(err)
		}
		ast, err := cc.Translate(&cc.Config{ABI: abi}, []cc.Source{{Name: "<builtin>", Value: predef}, {Name: "/src/inc/test.h", Value: src}})
		if err != nil {
			return (*cc.AST)(nil)
		}
		return ast
	})
	return v.(*cc.AST)
}

// ParseFiles takes pairs of a file name and its text.
func ParseFiles(key, goos, goarch string, files ...string) *cc.AST {
	v := rt.Once(key+":"+goos+"/"+goarch, func() interface{} {
		abi, err := cc.NewABI(goos, goarch)
		if err != nil {
			panic(err)
		}
		cfg := &cc.Config{ABI: abi}
		sources := []cc.Source{{Name: "<builtin>", Value: predef}}
		for i := 0; i+1 < len(files); i += 2 {
			sources = append(sources, cc.Source{Name: files[i], Value: files[i+1]})
		}
		ast, err := cc.Translate(cfg, sources)
		if err != nil {
			panic("parse: " + err.Error())
		}
		return ast
	})
	return v.(*cc.AST)
}

// Translator is a translator of ast under cfg.
func Translator(cfg *tl.Config, ast *cc.AST) *tl.Translator {
	tr, err := tl.New(cfg)
	if err != nil {
		panic("translator.New: " + err.Error())
	}
	if ast != nil {
		tr.Learn(ast)
	}
	return tr
}

// AcceptAll is a rule set that accepts every name and leaves names alone.
func AcceptAll() tl.Rules {
	return tl.Rules{tl.TargetGlobal: {{Action: tl.ActionAccept, From: "^"}}}
}

// Out is everything one generation wrote.
type Out struct {
	Doc, Const, Types, Unions, Decls string
	Go, CH, CC                       string // helpers
	NConst, NTypes, NUnions, NDecls  int
}

// Body is all the Go code.
func (o *Out) Body() string {
	return o.Const + "\n" + o.Types + "\n" + o.Unions + "\n" + o.Decls + "\n" + o.Go
}

// NewGen makes a generator.
func NewGen(cfg *generator.Config, tr *tl.Translator) *generator.Generator {
	if cfg == nil {
		cfg = &generator.Config{}
	}
	if cfg.PackageName == "" {
		cfg.PackageName = "pkg"
	}
	gen, err := generator.New(cfg.PackageName, cfg, tr)
	if err != nil {
		panic("generator.New: " + err.Error())
	}
	gen.DisableTimestamps()
	return gen
}

// Run generates everything.
func Run(gen *generator.Generator) *Out {
	return RunWith(gen, func(o *Out, b func() *bytes.Buffer) {
		w := b()
		o.NConst = gen.WriteConst(w)
		o.Const = w.String()
		w = b()
		o.NTypes = gen.WriteTypedefs(w)
		o.Types = w.String()
		w = b()
		o.NUnions = gen.WriteUnions(w)
		o.Unions = w.String()
		w = b()
		o.NDecls = gen.WriteDeclares(w)
		o.Decls = w.String()
	})
}

// RunWith runs f with the helper writer going, and collects the helpers.
func RunWith(gen *generator.Generator, f func(o *Out, b func() *bytes.Buffer)) *Out {
	o := &Out{}
	var gb, hb, cb bytes.Buffer
	done := make(chan bool)
	go func() {
		gen.MonitorAndWriteHelpers(&gb, &hb, &cb)
		close(done)
	}()
	f(o, func() *bytes.Buffer { return new(bytes.Buffer) })
	gen.Close()
	<-done
	o.Go, o.CH, o.CC = gb.String(), hb.String(), cb.String()
	return o
}

// Lines are the lines of s without surrounding blanks, blank ones dropped.
func Lines(s string) []string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if x != "" {
			l = append(l, x)
		}
	}
	return l
}

// Block returns the text from the line starting with head up to the closing brace in column one (or parenthesis).
func Block(s, head string) (string, bool) {
	i := 0
	if !strings.HasPrefix(s, head) {
		i = strings.Index(s, "\n"+head)
		if i < 0 {
			return "", false
		}
		i++
	}
	rest := s[i:]
	for _, end := range []string{"\n}", "\n)"} {
		if j := strings.Index(rest, end); j >= 0 {
			return rest[:j+2], true
		}
	}
	return rest, true
}

// CountLines is the number of lines of s starting with head.
func CountLines(s, head string) int {
	n := strings.Count(s, "\n"+head)
	if strings.HasPrefix(s, head) {
		n++
	}
	return n
}
